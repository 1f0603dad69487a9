"""Runs descriptions with a verdict through the tool, and what it accepts through the compiler and the database."""
import collections, json, os, re, shutil
from vlib import *
import gosqltool, legalgen, probing

ENV = legalgen.ENV.replace("package p\n", 'package p\n\nimport "github.com/frk/gosql"\n', 1)
PER = 60      # targets per file


def put(root, name, text):
    os.makedirs(os.path.dirname(os.path.join(root, name)), exist_ok=True)
    open(os.path.join(root, name), "w").write(text)


def lay(mod, pkg, rs):
    put(mod, pkg + "/env.go", getattr(rs[0], "ENV", ENV))
    for n in range(0, len(rs), PER):
        put(mod, "%s/f%03d.go" % (pkg, n // PER), legalgen.gofile([r.render() for r in rs[n:n + PER]]))


def probe(bin, mod, pkg, pg):
    out, skip = {}, []
    while True:
        p = run([bin, os.path.join(mod, pkg), "postgres:///vl?sslmode=disable", *skip], cwd=os.path.join(mod, pkg), check=False, envx=env(**pg.env), timeout=600, what="probe")
        for l in p.stdout.splitlines():
            v = json.loads(l)
            out[v["Name"]] = v
            if v["Hang"]:
                skip = list(out)
        if p.returncode == 4 and len([v for v in out.values() if v["Hang"]]) < 5:
            continue
        # a fatal error of the runtime (a stack without end) names no target: the one after the last
        if p.returncode not in (0, 4):
            return out, p.stderr[-1500:]
        return out, ""


def by_command(tool, mod, rs, pg):
    """The verdicts of the command itself, one file each."""
    def one(r):
        pkg = "one%d" % r.i
        lay(mod, pkg, [r])
        try:
            p = gosqltool.generate(tool, os.path.join(mod, pkg), pg, db="vl", timeout=60)
        except CheckError as e:
            if "timeout" in str(e).lower() or "timed out" in str(e).lower():
                return {"Name": r.name, "Ok": False, "Err": "", "Panic": "", "Hang": True}
            raise
        return {"Name": r.name, "Ok": p.returncode == 0, "Err": p.stderr if p.returncode == 2 and "goroutine " not in p.stderr else "",
                "Panic": p.stderr[:600] if p.returncode not in (0, 2) or "goroutine " in p.stderr else "", "Hang": False}
    return {v["Name"]: v for v in pool([lambda r=r: one(r) for r in rs], 8)}


def brief(d):
    return json.dumps(d, sort_keys=True)


def points(err, name):
    """Whether a diagnostic names the target, or a line of its declaration or of a type it uses."""
    if name in err:
        return True
    for f, n in re.findall(r"(/[^\s:]+\.go):(\d+)", re.sub(r"\x1b\[[0-9;]*m", "", err)):
        if f.endswith("/env.go"):
            return True
        for l in reversed(open(f).read().splitlines()[:int(n)]):
            m = re.search(r"^type (\w*L\d+\w*)", l)
            if m:
                return int(re.search(r"L(\d+)", m.group(1)).group(1)) == int(re.search(r"L(\d+)", name).group(1))
    return False


def judge(want, v, name):
    """What is wrong with the verdict on a description, or None."""
    if v is None:
        return "the tool gives no verdict"
    if v["Hang"]:
        return "the tool does not finish"
    if v["Panic"]:
        return "the tool crashes: " + v["Panic"][:600]
    if not v["Ok"]:
        if not points(v["Err"], name):
            return "the diagnostic does not name the target: " + v["Err"][:600]
        if v["Err"].startswith("format:"):
            return "unusable code is generated: " + v["Err"][:600]
        return None if want != "accept" else "a well-formed description is refused: " + v["Err"][:600]
    return "accepted, although it should be refused" if want == "refuse" else None


def execute(tool, mod, rs, pg):
    """Name -> what is wrong with the code generated for an accepted description."""
    wrong = {}
    lay(mod, "p", rs)
    p = gosqltool.generate(tool, mod + "/p", pg, db="vl")
    if p.returncode:
        raise CheckError("the command refuses together what was accepted one by one: " + p.stderr[-2000:])
    for attempt in range(8):
        live = [r for r in rs if r.name not in wrong]
        qs = [r for r in live if r.d["kind"] != "filter"]
        put(mod, "p/all.go", 'package p\n\nimport "github.com/frk/gosql"\n\ntype Runner interface{ Exec(gosql.Conn) error }\n\nvar All = map[string]func() Runner{\n%s}\n'
            % "".join('"%s": func() Runner { return new(%s) },\n' % (r.name, r.name) for r in qs))
        b = run(["go", "build", "-gcflags=vlegal/...=-e", "-o", mod + "/run", "."], cwd=mod, check=False, what="go build")
        if b.returncode == 0:
            break
        # which targets do the errors belong to
        found = set()
        for f, line, msg in re.findall(r"^\.?/?p/(\S+?\.go):(\d+):\d+: (.*)$", b.stderr, re.M) + re.findall(r"^p/(\S+?\.go):(\d+):\d+: (.*)$", b.stderr, re.M):
            src = open(os.path.join(mod, "p", f)).read().splitlines()[:int(line)]
            for l in reversed(src):
                m = re.search(r"\b(?:Select|Insert|Update|Delete|Filter)L\d{6}\b", l)
                if m:
                    wrong.setdefault(m.group(0), "the generated code does not compile: " + msg)
                    found.add(m.group(0))
                    break
        if not found:
            raise CheckError("go build: " + b.stderr[-2000:])
        # without them
        live = [r for r in rs if r.name not in wrong]
        shutil.rmtree(mod + "/p")
        lay(mod, "p", live)
        p = gosqltool.generate(tool, mod + "/p", pg, db="vl")
        if p.returncode:
            raise CheckError(p.stderr[-2000:])
    else:
        raise CheckError("generated code keeps failing to compile")
    p = run([mod + "/run", "postgres:///vl?sslmode=disable"], cwd=mod, envx=env(**pg.env), timeout=600, what="run")
    n = 0
    for l in p.stdout.splitlines():
        o = json.loads(l)
        n += len(o["Stmts"] or [])
        if o["Bad"]:
            wrong[o["Name"]] = "the database does not take the statement: %s\n%s" % (o["Bad"], "\n".join(s["Query"] for s in o["Stmts"]))
        elif o["Panic"]:
            wrong[o["Name"]] = "the method panics: " + o["Panic"]
        elif o["Err"] or not o["Stmts"]:
            wrong[o["Name"]] = "no statement is issued: " + o["Err"]
    return wrong, n, len(qs)


def key(r, w):
    return w.split(":")[0] + " " + brief(r.d)


def verdicts(ck, tool, bin, pg, module, rs, tally, prefix=""):
    """Every description of rs (by name) through the tool, and what is accepted through the compiler and the database."""
    mod = scratch_module(VERIF + "/harness/legal", module)
    shutil.rmtree(mod + "/probe")
    names = sorted(rs)
    if bin:
        parts = [names[j::8] for j in range(8)]

        def part(j):
            lay(mod, "q%d" % j, [rs[n] for n in parts[j]])
            return probe(bin, mod, "q%d" % j, pg)
        got = {}
        for (o, err), ns in zip(pool([lambda j=j: part(j) for j in range(8)], 8), parts):
            got.update(o)
            if err:
                # the targets after the last verdict, with the command
                rest = [n for n in ns if n not in o][:40]
                got.update(by_command(tool, mod, [rs[n] for n in rest], pg))
                if not any(got[n]["Panic"] for n in rest if n in got):
                    raise CheckError("the probe failed: " + err)
                for n in ns:
                    got.setdefault(n, {"Skip": True})
    else:
        got = by_command(tool, mod, [rs[n] for n in names], pg)

    def detail(r, w):
        return {"why": w, "want": r.want, "by": r.by, "d": r.d, "go": legalgen.gofile([r.render()])}
    for n in names:
        r, v = rs[n], got.get(n)
        if v and v.get("Skip"):
            continue
        w = judge(r.want, v, n)
        if w and bin and len(ck.viol) < 100:
            # once more with the command itself
            got[n] = v = by_command(tool, mod, [r], pg)[n]
            w = judge(r.want, v, n)
        tally[r.want, "accepted" if v and v["Ok"] else "refused"] += 1
        if w:
            ck.violation(prefix + key(r, w), detail(r, w))
    ok = [rs[n] for n in names if got.get(n, {}).get("Ok") and rs[n].want != "refuse"]
    stmts = 0
    if ok:
        wrong, stmts, _ = execute(tool, mod, ok, pg)
        for n, w in sorted(wrong.items()):
            ck.violation(prefix + key(rs[n], w), detail(rs[n], "accepted, but " + w))
    shutil.rmtree(mod)
    return got, len(ok), stmts
