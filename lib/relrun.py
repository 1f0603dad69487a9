"""Generates, compiles and runs the descriptions of Read.tla and Write.tla, and compares
what the generated methods did with what the specification says."""
import json, os, re, shutil
from vlib import *
import gosqltool, relgen

RENDER = {"select": relgen.select, "update": relgen.change, "delete": relgen.change, "insert": relgen.insert, "read": relgen.read}


def parse(st):
    descs, trs = {}, []
    for l in st["out"].splitlines():
        if l.startswith('"DESC '):
            o = json.loads(json.loads(l)[5:])
            descs[o["i"]] = o["d"]
        elif l.startswith('"TRACE '):
            trs.append(json.loads(json.loads(l)[6:]))
    st["out"] = ""
    trs.sort(key=lambda t: (t["d"], json.dumps(t, sort_keys=True)))
    return descs, trs


def plain(text):
    return re.sub(r"\x1b\[[0-9;]*m", "", text)


TARGET = r"(?:Select|Insert|Update|Delete)\d{5}Query"


def blame(cls, text, mod, byname):
    """Which descriptions the output of the tool or the compiler is about."""
    if "crash" in text or "panic:" in text or "goroutine " in text:
        cls = "crash"
    hit = set()
    if cls == "does not compile":
        for m in re.finditer(r"(\S+\.go):(\d+):\d+: (.*)", text):
            src = open(os.path.join(mod, m.group(1))).read().splitlines()
            for l in list(reversed(src[:int(m.group(2))])) + src[int(m.group(2)):]:
                f = re.match(r"func \(q \*(\w+)\)", l) or re.match(r"type (?:Rec|Res)?(%s)" % TARGET, l)
                if f and f.group(1) in byname:
                    hit.add((byname[f.group(1)], m.group(3)))
                    break
    else:
        for m in re.finditer(r"(?<!Rec)(?<!Res)" + TARGET, text):
            if m.group(0) in byname:
                hit.add((byname[m.group(0)], plain(text)))
                break
        for m in [] if hit else re.finditer(r"(/\S+\.go):(\d+)", plain(text)):
            for l in reversed(open(m.group(1)).read().splitlines()[:int(m.group(2))] if m.group(1).startswith(mod) else []):
                f = re.match(r"type (?:Rec|Res)?(%s)" % TARGET, l)
                if f and f.group(1) in byname:
                    hit.add((byname[f.group(1)], plain(text)))
                    break
    return cls, hit


def write_sources(mod, ids, rendered):
    qd = mod + "/q"
    shutil.rmtree(qd, ignore_errors=True)
    os.makedirs(qd)
    for f in range(0, len(ids), 150):
        open("%s/q%03d.go" % (qd, f // 150), "w").write(relgen.HEAD + "\n".join(rendered[i][1] for i in ids[f:f + 150]))
    open(qd + "/glue.go", "w").write(relgen.glue() + "".join(rendered[i][2] for i in ids))


def build(descs, pg, tool, name="rel", args=(), reg=True):
    """Generates and compiles the descriptions.  Descriptions the tool refuses, or whose code
    does not compile, are reported and left out: (binary, [(id, class, output)], decls)."""
    mod = scratch_module(VERIF + "/harness/rel", name)
    rendered = {i: RENDER[d["op"]](i, d) for i, d in descs.items()}
    byname = {r[0]: i for i, r in rendered.items()}
    decls = {i: r[1] for i, r in rendered.items()}
    ids = sorted(descs)
    bad = []
    for attempt in range(int(os.environ.get("REL_TRIES", "5"))):
        write_sources(mod, ids, rendered)
        p = gosqltool.generate(tool, mod + "/q", pg, db="rel0", args=args)
        cls = "refused"
        if p.returncode == 0:
            p = run(["go", "build", "-gcflags=-e", "-o", mod + "/rel", "."], cwd=mod, check=False, timeout=800)
            if p.returncode == 0:
                return mod + "/rel", bad, decls
            cls = "does not compile"
        text = p.stderr
        cls, hit = blame(cls, text, mod, byname)
        if not hit:
            bad.append((None, cls, text))
            return None, bad, decls
        for i, t in sorted(hit, key=str):
            if i in ids:
                ids.remove(i)
                bad.append((i, cls, t))
    return None, bad, decls


def databases(pg, n=6):
    pg.psql("create database rel0")
    pg.psql(relgen.DDL, db="rel0")
    for k in range(1, n):
        pg.psql("create database rel%d template rel0" % k)


def replay(binary, pg, trs):
    p = run([binary], stdin="\n".join(json.dumps({k: t[k] for k in ("d", "db", "args", "recs") if k in t}) for t in trs) + "\n",
            timeout=800, envx=env(**pg.env), what="replay", check=False)
    if p.returncode != 0:
        raise CheckError("replay: " + p.stderr[-3000:])
    return [json.loads(l) for l in p.stdout.splitlines()]


# ---------------------------------------------------------------- verdicts

ZERO = {"a": [0], "b": [0], "s": [], "c": [], "f": [0], "id": [0]}
NUL = [-999]


def seen(d, row):
    """What a fixed record of the description's type shows for a row."""
    if d["rec"] == "RecV":
        return {c: ZERO[c] if v == NUL else v for c, v in row.items()}
    return row


def freeze(row):
    return tuple(sorted((c, tuple(v)) for c, v in row.items()))


def window_ok(d, want, got):
    """got must be a window [skip, skip+take) of some order compatible with the tie groups."""
    if len(got) != want["take"]:
        return "%d rows, want %d" % (len(got), want["take"])
    pos, at = 0, 0   # position in the full order; index into got
    lo, hi = want["skip"], want["skip"] + want["take"]
    for g in want["groups"]:
        a, b = max(pos, lo), min(pos + len(g), hi)
        if a < b:
            pool = [freeze(seen(d, r)) for r in g]
            for r in got[at:at + (b - a)]:
                f = freeze(r)
                if f not in pool:
                    return "row %s not expected at position %d" % (r, at)
                pool.remove(f)
                at += 1
        pos += len(g)
    return None


def judge_select(d, t, o):
    w = t["want"]
    rows = o["Rows"] or []
    if d["kind"] == "one" and w["take"] == 0:
        return None if o["Err"] == "sql: no rows in result set" else "no row should be found, got %s %s" % (o["Err"], rows)
    if o["Err"]:
        return ("statement", o["Err"])
    if "count" in w:
        return None if o["Count"] == w["count"] else "count %s, want %s" % (o["Count"], w["count"])
    if "yes" in w:
        return None if o["Yes"] == w["yes"] else "answer %s, want %s" % (o["Yes"], w["yes"])
    return window_ok(d, w, rows)


ERRS = [("duplicate key value violates unique", "unique"), ("null value in column", "notnull"),
        ("cannot affect row a second time", "cardinality"), ("cannot insert a non-DEFAULT value", "generated"),
        ("sql: no rows in result set", "norows")]


def errclass(e):
    for t, c in ERRS:
        if t in e:
            return c
    return "other" if e else ""


def rowset(rows):
    return sorted((freeze(r) for r in rows), key=repr)


def obj(x):
    """The empty function comes out of TLC as []."""
    return x if isinstance(x, dict) else {}


def unordered(rows):
    """Rows without saying which of them has which generated key: an update visits the rows it affects in no particular order."""
    return [dict(r, id=[-1]) if isinstance(r.get("id"), list) and r["id"] and r["id"][0] > 100 else r for r in map(obj, rows)]


def judge_write(d, t, o):
    if d["op"] == "update":
        for tab in t["want"]["db"]:
            got, want = ([r["id"] for r in db[tab] if "id" in r] for db in (o["DB"], t["want"]["db"]))
            if errclass(o["Err"]) in ("", "norows") and rowset([{"id": i} for i in got]) != rowset([{"id": i} for i in want]):
                return "table %s holds the keys %s, want %s" % (tab, got, want)
        # o and t as they are but for the keys
        o, t = dict(o), json.loads(json.dumps(t))
        o["DB"] = {k: unordered(v) for k, v in o["DB"].items()}
        o["Rows"] = unordered(o["Rows"] or [])
        for db in (t["db"], t["want"]["db"]):
            for k in db:
                db[k] = unordered(db[k])
        if isinstance(t["want"]["ans"], dict) and "rows" in t["want"]["ans"]:
            t["want"]["ans"]["rows"] = unordered(t["want"]["ans"]["rows"])
    w = t["want"]
    got = errclass(o["Err"])
    if got == "other":
        return ("statement", o["Err"])
    if got not in w["err"]:
        return "outcome %s, want %s" % (o["Err"] or "success", w["err"])
    db = t["db"] if got not in ("", "norows") else w["db"]
    for tab in db:
        if rowset(o["DB"][tab]) != rowset(db[tab]):
            return "table %s holds %s, want %s" % (tab, o["DB"][tab], db[tab])
    if got:
        return None
    a = w["ans"]
    rows, want = o["Rows"] or [], [obj(r) for r in a.get("rows", [])]
    if a["k"] == "aff":
        return None if o["Count"] == a["n"] else "affected %s, want %d" % (o["Count"], a["n"])
    if a["k"] == "one":
        if len(rows) != 1 or freeze(rows[0]) not in [freeze(r) for r in want]:
            return "row %s, want one of %s" % (rows, want)
    elif a["k"] == "all":
        if d["op"] == "read":
            if [freeze(r) for r in rows] != [freeze(r) for r in want]:
                return "rows %s, want %s" % (rows, want)
        elif d["op"] == "insert":
            if [freeze(r) for r in rows] != [freeze(r) for r in want]:
                return "rows %s, want %s" % (rows, want)
        elif rowset(rows) != rowset(want):
            return "rows %s, want %s in any order" % (rows, want)
    elif a["k"] == "given":
        if [freeze(r) for r in rows] != [freeze(r) for r in want]:
            return "records hold %s, want %s" % (rows, want)
    elif a["k"] == "some":
        # as many records as rows were read into; compare the columns read
        cols = set(want[0]) if want else set()
        rest = [freeze({c: r[c] for c in cols}) for r in rows]
        for r in want:
            if freeze(r) not in rest:
                return "records hold %s, want %s among them" % (rows, r)
            rest.remove(freeze(r))
    if d["op"] in ("insert", "update") and d["out"]["k"] != "ret":
        if [freeze(r) for r in o["Given"]] != [freeze(obj(r)) for r in t["recs"]]:
            return "the records given changed: %s, were %s" % (o["Given"], t["recs"])
    return None


def judge(d, t, o):
    why = judge_select(d, t, o) if d["op"] == "select" else judge_write(d, t, o)
    if why and not isinstance(why, tuple):
        why = ("effect", why)
    return why
