#!/usr/bin/env python3
"""C13: the pairs of spec/Pairs.tla through the tool, and the histories of the accepted ones through the generated code and the database."""
import collections, json, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import gosqltool, pairgen, probing

NP = 8


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(text)


def lay(root, per):
    """per: package number -> [(i, go, table, ops)]"""
    for j, ps in per.items():
        d = "%s/p%d" % (root, j)
        shutil.rmtree(d, ignore_errors=True)
        put(d + "/env.go", pairgen.env_file())
        for n in range(0, len(ps), 150):
            put("%s/f%03d.go" % (d, n // 150), pairgen.gofile(ps[n:n + 150]))


def split(m):
    return re.match(r"(\w+?)P(\d{6})$", m).groups()


def verdicts(bin, root, per, pg):
    """(op, i) -> (accepted, diagnostic, panic)"""
    lay(root, per)

    def one(j):
        d = "%s/p%d" % (root, j)
        p = run([bin, d, "postgres:///vp?sslmode=disable"], cwd=d, check=False, envx=env(**pg.env), timeout=800, what="probe")
        if p.returncode:
            raise CheckError("the probe failed: " + p.stderr[-2000:])
        return [json.loads(l) for l in p.stdout.splitlines()]
    out = {}
    for o in pool([lambda j=j: one(j) for j in per], NP):
        for v in o:
            k, i = split(v["Name"])
            out[pairgen.VERB[k], int(i)] = (v["Ok"], v["Err"], v["Panic"])
    return out


def by_command(tool, root, ps, pg):
    """The same, with the command, one target at a time."""
    def one(i, go, table, op):
        d = "%s/one%s%d" % (root, op, i)
        put(d + "/env.go", pairgen.env_file())
        put(d + "/f.go", pairgen.gofile([(i, go, table, [op])]))
        p = gosqltool.generate(tool, d, pg, db="vp", timeout=100)
        shutil.rmtree(d)
        return (op, i), (p.returncode == 0, p.stderr, p.stderr if "goroutine " in p.stderr else "")
    return dict(pool([lambda a=(i, go, t, op): one(*a) for i, go, t, ops in ps for op in ops], NP))


def build(tool, root, accepted, pairs, cols, tables, pg, ck):
    """Generate and compile what was accepted; what does not compile is reported and left out."""
    bad = set()
    for attempt in range(6):
        per = collections.defaultdict(list)
        for k, (i, ops) in enumerate(sorted(accepted.items())):
            ops = [o for o in ops if (o, i) not in bad]
            if ops:
                per[k % NP].append((i, pairs[i]["go"], tables[pairs[i]["col"]["n"]], ops))
        lay(root, per)

        def gen(j):
            p = gosqltool.generate(tool, "%s/p%d" % (root, j), pg, db="vp", timeout=600)
            if p.returncode:
                raise CheckError("the command refuses together what was accepted one by one: " + p.stderr[-1500:])
        pool([lambda j=j: gen(j) for j in per], NP)
        for j in per:
            put("%s/p%d/all.go" % (root, j), pairgen.all_file([(i, go, pairs[i]["col"]["n"], ops) for i, go, t, ops in per[j]], cols))
        put(root + "/zz_reg.go", pairgen.reg_file(NP))
        b = run(["go", "build", "-gcflags=vcodec/...=-e", "-o", root + "/codec", "."], cwd=root, check=False, what="go build")
        if b.returncode == 0:
            return sum(len(p) for p in per.values()), sum(len(x[3]) for p in per.values() for x in p)
        found = 0
        for f, line, msg in re.findall(r"^(?:\./)?(p\d+/\S+?\.go):(\d+):\d+: (.*)$", b.stderr, re.M):
            for l in reversed(open(os.path.join(root, f)).read().splitlines()[:int(line)]):
                m = re.search(r"func \(\w+ \*(\w+?)P(\d{6})\)", l)
                if m:
                    op, i = pairgen.VERB[m.group(1)], int(m.group(2))
                    if (op, i) not in bad:
                        bad.add((op, i))
                        found += 1
                        ck.violation("%s <-> %s: %s: does not compile" % (pairs[i]["col"]["n"], pairs[i]["go"], op), msg, pairgen.gofile([(i, pairs[i]["go"], "t", [op])]))
                    break
        if not found:
            raise CheckError("go build: " + b.stderr[-3000:])
    raise CheckError("generated code keeps failing to compile: %s" % [v["key"] for v in ck.viol[-20:]])


KNOWN = [(r"float8 <-> [^* ]\S*: (insert|updates?) of .* fails: pq: (invalid input syntax for type integer: |value .* is out of range for type integer)", "float8 <-> a field that cannot be nil: numbers that are no integers"),
         (r"numeric( not null)? <-> \*?uint64: .*\[?&?0x[89a-f][0-9a-f]{15}.* fails: sql: converting argument", "numeric <-> uint64: numbers above int64"),
         (r"numeric( not null)? <-> \*?uint: &?0x[89a-f][0-9a-f]{15} is stored as \"-", "numeric <-> uint: numbers above int64")]


def known(detail):
    for rx, key in KNOWN:
        if re.match(rx, detail):
            return key


def check():
    ck = Check("C13", "model_checking")
    tool, bin = gosqltool.build(), probing.build()
    st = tlc("Pairs", "Pairs.cfg", const={"What": '= "pairs"'})
    pairs = [json.loads(t) for t in sorted(traces(st))]
    states, trans = st["distinct"], st["states"]
    st = tlc("Pairs", "Pairs.cfg", const={"What": '= "histories"', "MaxPuts": "= %d" % (4 if THOROUGH else 3)})
    hs = traces(st)
    states, trans = states + st["distinct"], trans + st["states"]
    st = tlc("Pairs", "Pairs.cfg", const={"What": '= "values"'})
    vals = traces(st)
    st = tlc("MCCodec", "MCCodec.cfg", const={"MaxLen": "= 2", "Lists": '= "few"'})
    vals += traces(st)
    states, trans = states + st["distinct"], trans + st["states"]
    st["out"] = ""
    cols = {p["col"]["n"]: p["col"] for p in pairs}
    sql, tables = pairgen.ddl(cols)
    pg = PG(tz="UTC")
    pg.psql("create database vp")
    pg.psql(sql, db="vp")
    root = scratch_module(VERIF + "/harness/codec", "codec")
    base = ["insert", "select", "eq"]
    if bin:
        per = collections.defaultdict(list)
        for i, p in enumerate(pairs):
            per[hash_(p["col"]["n"]) % NP].append((i, p["go"], tables[p["col"]["n"]], base))
        got = verdicts(bin, root, per, pg)
        more = collections.defaultdict(list)
        for i, p in enumerate(pairs):
            ok = [o for o in base if got[o, i][0]]
            if ok and p["v"] != "refuse":
                ops = (["update", "updates"] if got["insert", i][0] else []) + ([] if p["go"].startswith("*") and not got["eq", i][0] else ["ne", "nd", "di", "in", "ni", "any", "all"])
                more[hash_(p["col"]["n"]) % NP].append((i, p["go"], tables[p["col"]["n"]], ops))
        got.update(verdicts(bin, root, more, pg))
    else:
        log("the probe does not build against the internals: a sample, with the command")
        must = [i for i, p in enumerate(pairs) if p["v"] == "refuse"]
        may = [i for i, p in enumerate(pairs) if p["v"] != "refuse" and not p["go"].startswith("*")]
        n = 400 if THOROUGH else 120
        idx = must[SEED % 97::len(must) // n] + may[SEED % 11::len(may) // (4 * n)]
        got = by_command(tool, root, [(i, pairs[i]["go"], tables[pairs[i]["col"]["n"]], ["insert", "select"]) for i in idx], pg)
    accepted, tally, confirm = collections.defaultdict(list), collections.Counter(), []
    for (op, i), (ok, err, panic) in sorted(got.items()):
        p = pairs[i]
        tally[p["v"], "accepted" if ok else "refused"] += 1
        if panic:
            ck.violation("%s <-> %s: %s: crash" % (p["col"]["n"], p["go"], op), panic[:1000], pairgen.gofile([(i, p["go"], "t", [op])]))
        elif ok and p["v"] == "refuse":
            confirm.append((i, p["go"], tables[p["col"]["n"]], [op]))
        elif ok:
            accepted[i].append(op)
    for (op, i), (ok, err, panic) in sorted(by_command(tool, root, confirm[:40], pg).items()):
        if ok:
            ck.violation("%s <-> %s: %s: accepted" % (pairs[i]["col"]["n"], pairs[i]["go"], op), "a scalar of another family is accepted", pairgen.gofile([(i, pairs[i]["go"], "t", [op])]))
    log("%d pairs, %s, %d accepted" % (len(pairs), dict(tally), len(accepted)))
    npairs, nmethods = build(tool, root, accepted, pairs, cols, tables, pg, ck)
    log("%d pairs, %d methods" % (npairs, nmethods))
    e = env(**dict(pg.env, VDB="vp"))
    p = run([root + "/codec", "pairs", str(60 if THOROUGH else 14), str(SEED)], stdin="\n".join(vals + hs) + "\n", timeout=800, envx=e, what="pairs", check=False)
    if p.returncode != 0:
        raise CheckError("pairs: " + p.stderr[-3000:])
    o = json.loads(p.stdout)
    for x in o["Failures"]:
        ck.violation(known(x["Detail"]) or x["Detail"][:400], {"history": x["Trace"]}, x["Trace"])
    log("%d histories, %d pairs without values" % (o["Histories"], len(o["NoValues"] or [])))
    ck.cov = {"states": states, "transitions": trans, "traces_validated_against_impl": o["Histories"] + len(got), "pairs_asked": len(pairs), "verdicts": {"%s/%s" % k: v for k, v in sorted(tally.items())},
              "pairs_run": npairs, "methods_run": nmethods, "histories": o["Histories"], "pairs_without_values": sorted(o["NoValues"] or [])[:60],
              "samples": [json.loads(hs[0])[:1], pairs[0], json.loads(vals[0])]}
    ck.assumptions = ["the contents of Codec.tla stand for all contents of a type; %d of them per pair, by the seed" % (60 if THOROUGH else 14),
                      "text fields for columns of other types hold text PostgreSQL reads as the value"]
    return ck.finish()


def hash_(s):
    return int(hashlib.sha1(s.encode()).hexdigest()[:6], 16)


import hashlib
main(check)
