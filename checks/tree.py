#!/usr/bin/env python3
"""C14, C15: replay the histories of Command.tla and the selections of MCSelect.tla with the real binary over real trees."""
import concurrent.futures, json, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *  # noqa
import gosqltool

DDL = "create table tree_rec (id int primary key, name text not null, note text not null)"
REC = '''package rec

type Rec struct {
	ID   int    `sql:"id" json:"id"`
	Name string `sql:"name" json:"name"`
	Note string `sql:"note" json:"note"`
}
'''
GOMOD = "module vtree\n\ngo 1.23\n\nrequire github.com/frk/gosql v0.0.0\n\nreplace github.com/frk/gosql => %s\n"


def body(kind, variant="good1"):
    """Fields of a target of a kind."""
    col, ty = {"good1": ("id", "int"), "good2": ("name", "string"), "column": ("nosuch", "int")}.get(variant, ("id", "int"))
    rel = "no_such_rel" if variant == "relation" else "tree_rec"
    where = 'Where struct { V %s `sql:"%s"` }' % (ty, col)
    if variant == "tag":
        where = 'Where struct { V %s `sql:"%s isnull"` }' % (ty, col)
    if variant == "twice":
        where += '\n\tAnother struct { V int `sql:"id"` } `sql:"x"`\n\t_ gosql.All'
    if kind == "select":
        return 'Recs []*rec.Rec `rel:"%s"`\n\t%s' % (rel, where)
    if kind == "insert":
        return 'Rec *rec.Rec `rel:"%s"`' % rel
    if kind == "update":
        return 'Rec *rec.Rec `rel:"%s"`\n\t%s' % (rel, where)
    if kind == "delete":
        return '_ gosql.Relation `rel:"%s"`\n\t%s' % (rel, where)
    if kind == "filter":
        return 'Rec *rec.Rec `rel:"%s"`\n\tfilter.Constructor' % rel
    raise KeyError(kind)


def gofile(pkg, text):
    imps = ['"vtree/rec"'] if "rec." in text else []
    if "gosql." in text:
        imps.append('"github.com/frk/gosql"')
    if "filter." in text:
        imps.append('"github.com/frk/gosql/filter"')
    return "package %s\n\n%s\n%s" % (pkg, "import (\n\t%s\n)\n" % "\n\t".join(imps) if imps else "", text)


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds:
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = "link " + os.readlink(p)
            else:
                out[os.path.relpath(p, root)] = "dir"
        for n in fs:
            p = os.path.join(d, n)
            out[os.path.relpath(p, root)] = "link " + os.readlink(p) if os.path.islink(p) else "file " + open(p, errors="replace").read()
    return out


RX_METHOD = re.compile(r"^func \(\w+ \*(\w+)\) (\w+)\(", re.M)


def receivers(text):
    return sorted(set(m[0] for m in RX_METHOD.findall(text)))


def tool(cwd, args, db="postgres"):
    e = env(**PGE)
    a = ["-db", "postgres:///%s?sslmode=disable" % db] if db else []
    p = run([TOOL, *a, *args], cwd=cwd, check=False, envx=e, timeout=200, what="gosql")
    return p


# ------------------------------------------------------------------ C15

def cased(prefix, case):
    return {"lower": prefix.lower(), "title": prefix.capitalize(), "upper": prefix.upper(),
            "mixed": "".join(c.upper() if i % 2 else c for i, c in enumerate(prefix))}[case]


def declare(n, d):
    """Go text of a declaration, and the name of the type."""
    name = cased(d["prefix"], d["case"]) + "X%04d" % n
    kind = {"deleted": "delete"}.get(d["prefix"], d["prefix"])
    if kind not in ("select", "insert", "update", "delete", "filter"):
        kind = "select"
    struct = "struct {\n\t%s\n}" % body(kind)
    pre = ""
    if d["form"] == "copy":
        pre = "type origin%04d %s\n\n" % (n, struct)
        typ = "origin%04d" % n
    elif d["form"] == "alias":
        pre = "type origin%04d %s\n\n" % (n, struct)
        typ = "= origin%04d" % n
    else:
        typ = {"struct": struct, "int": "int", "func": "func(int) error", "iface": "interface{ M() }", "local": struct}[d["form"]]
    spec = name + " " + typ
    i = d["ignore"]
    if i == "spec":
        t = "type (\n\t// gosql:ignore\n\t%s\n)\n" % spec
    elif i == "directive":
        t = "//gosql:ignore\ntype %s\n" % spec
    elif i == "group":
        t = "// gosql:ignore\ntype (\n\t%s\n)\n" % spec
    elif i == "grouped":
        t = "// A group.\n//gosql:ignore\ntype (\n\tcompanion%04d int\n\n\t// Documented.\n\t%s\n)\n" % (n, spec)
    elif i == "long":
        t = "// %s is a type.\n//\n// It is left alone (gosql:ignore), for now.\ntype %s\n" % (name, spec)
    elif i == "detached":
        t = "// gosql:ignore\n\ntype %s\n" % spec
    elif i == "near":
        t = "// ignored by gosql: ignore\ntype %s\n" % spec
    else:
        t = "type %s\n" % spec
    if d["form"] == "local":
        t = "func f%04d() {\n\t%s\t_ = %s{}\n}\n" % (n, t, name)
    return pre + t, name


def c15(ck, mod):
    st = tlc("MCSelect", "MCSelect.cfg", const={"Many": "= 3" if THOROUGH else "= 2"})
    decls = [json.loads(t) for t in traces(st, "DECL")]
    files = [json.loads(t) for t in traces(st, "FILES")]
    st["out"] = ""
    log("%d declarations, %d selections" % (len(decls), len(files)))
    # declarations: a package per form
    by = {}
    for n, d in enumerate(decls):
        by.setdefault(d["d"]["form"], []).append((n, d))

    def one(form):
        wd = "%s/d_%s" % (mod, form)
        os.makedirs(wd)
        want = {}
        for k in range(0, len(by[form]), 60):
            text, fn = "", "f%03d" % (k // 60)
            for n, d in by[form][k:k + 60]:
                t, name = declare(n, d["d"])
                text += t + "\n"
                if d["target"]:
                    want.setdefault(fn + "_gosql.go", {})[name] = d
            open("%s/%s.go" % (wd, fn), "w").write(gofile("d_" + form, text))
        before = snapshot(wd)
        p = tool(wd, [])
        after = snapshot(wd)
        if p.returncode != 0:
            return [("form %s: the tool fails: %s" % (form, p.stderr[-400:]), form, None)]
        bad = []
        names = {declare(n, d["d"])[1]: d for n, d in by[form]}
        for f in sorted(set(after) | set(want)):
            if f in before:
                if after[f] != before[f]:
                    bad.append(("form %s: source %s was changed" % (form, f), form, None))
                continue
            got = set(receivers(after.get(f, "")))
            for x in sorted(got - set(want.get(f, {}))):
                bad.append(("declaration %s is not a target but was processed" % json.dumps(names[x]["d"], sort_keys=True), names[x], None))
            for x in sorted(set(want.get(f, {})) - got):
                bad.append(("declaration %s is a target but was not processed" % json.dumps(names[x]["d"], sort_keys=True), names[x], None))
        return bad

    def sel(i):
        f = files[i]
        o = f["o"]
        root = "%s/s%05d" % (mod, i)
        cwd0 = os.path.join(root, "elsewhere")
        os.makedirs(cwd0)
        all_ = [[[], "a"], [[], "b"], [[], "ab"], [["sub"], "a"], [["sub"], "c"], [["sub", "deep"], "a"], [["sub", "deep"], "d"], [["side"], "c"]]
        for d, b in all_:
            wd = os.path.join(root, *d)
            os.makedirs(wd, exist_ok=True)
            name = "Select" + "".join(x.capitalize() for x in d) + b.upper()
            open(os.path.join(wd, b + ".go"), "w").write(gofile("p", "type %s struct {\n\t%s\n}\n" % (name, body("select"))))
        args = []
        wd = os.path.join(root, *o["wd"])
        how = i % 3  # the working directory is where the tool is started, or is given, absolutely or relatively
        cwd = wd if how == 0 else cwd0
        if how == 1:
            args += ["-wd", wd]
        elif how == 2:
            args += ["-wd", os.path.relpath(wd, cwd0)]
        if o["r"]:
            args.append("-r")
        for d, b in o["f"]:
            p = os.path.join(*d, b + ".go")
            args += ["-f", os.path.join(wd, p) if (i // 3) % 2 else p]
        for x in o["rx"]:
            args += ["-rx", {"any": ".", "none": r"no-such-thing", "base": "/%s\\.go$" % x[-1], "dir": "/%s/.*\\.go$" % x[-1]}[x[0]]]
        before = snapshot(root)
        p = tool(cwd, args)
        after = snapshot(root)
        want = {os.path.join(*d, b + "_gosql.go"): "Select" + "".join(x.capitalize() for x in d) + b.upper() for d, b in f["chosen"]}
        got = {k: receivers(v) for k, v in after.items() if k not in before}
        shutil.rmtree(root)
        if p.returncode != 0:
            return [("selection %s: the tool fails: %s" % (json.dumps(o, sort_keys=True), p.stderr[-400:]), args, None)]
        if got != {k: [v] for k, v in want.items()}:
            return [("selection %s: generated %s, want %s" % (json.dumps(o, sort_keys=True), got, want), args, None)]
        return []

    runs = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for bad in ex.map(one, sorted(by)):
            runs += 1
            for key, d, r in bad:
                ck.violation(key, d, replay=r)
        for bad in ex.map(sel, range(len(files))):
            runs += 1
            for key, d, r in bad:
                ck.violation(key, d, replay=r)
    ck.cov = {"states": st["distinct"], "transitions": st["states"], "traces_validated_against_impl": len(decls) + len(files),
              "declarations": len(decls), "selections": len(files), "runs_of_the_tool": runs,
              "samples": decls[::700][:2] + files[::300][:2]}
    ck.assumptions = ["what one of the listed declaration forms and trees shows holds for others like it",
                      "directories the go command itself leaves out (testdata, _x, nested modules) and test files are not modelled"]


# ------------------------------------------------------------------ C14

FMT = {"default": None, "_x": "%s_x", "same": "%s", "empty": "", "suffix": "out"}
KIND = {"a1": "select", "a2": "insert", "b1": "update", "x1": "delete", "c1": "filter"}
NAME = {"a1": "SelectA1", "a2": "InsertA2", "b1": "UpdateB1", "x1": "DeleteX1", "c1": "FilterC1"}
HOME = {"a": ["a1", "a2"], "b": ["b1"], "a_x": ["x1"], "c": ["c1"]}


def real(names, base):
    """The base name that a source file's, or an output's, name of the specification stands for."""
    return names[base[0]] + base[1:]


def paths(names):
    return {f: ("sub/" if f == "c" else "") + real(names, f) + ".go" for f in HOME}


def bodyof(t, b):
    kind = KIND[t]
    if b == "gone":
        return body(kind)
    if b in ("column", "tag", "twice") and kind in ("insert", "filter"):
        # these kinds have no condition to get wrong
        kind_bad = {"column": 'Rec *badRec `rel:"tree_rec"`', "tag": 'Rec *badTag `rel:"tree_rec"`',
                    "twice": 'Rec *rec.Rec `rel:"tree_rec"`\n\tRec2 *rec.Rec `rel:"tree_rec"`'}[b]
        return kind_bad + ("\n\tfilter.Constructor" if kind == "filter" else "")
    if b == "twice":
        if kind == "delete":
            return body(kind) + '\n\t_ gosql.All'
        return body(kind) + '\n\tRec2 *rec.Rec `rel:"tree_rec"`'
    x = body(kind, b)
    if b == "good2" and kind in ("insert", "filter"):
        x = x.replace("rec.Rec", "rec2")
    return x


HELP = '''
type badRec struct {
	ID   int    `sql:"id"`
	None string `sql:"none_such"`
}

type badTag struct {
	ID   int    `sql:"id"`
	Name string `sql:"na me!"`
}

type rec2 struct {
	ID   int    `sql:"id" json:"id"`
	Name string `sql:"name" json:"name"`
}
'''


def write_src(root, src, path):
    for f, ts in HOME.items():
        t = ""
        for x in ts:
            t += "%stype %s struct {\n\t%s\n}\n\n" % ("// gosql:ignore\n" if src[x] == "gone" else "", NAME[x], bodyof(x, src[x]))
        p = os.path.join(root, path[f])
        if f in ("a", "c"):
            t += HELP
        open(p, "w").write(gofile("sub" if f == "c" else "top", t))


def clear(p):
    if os.path.islink(p) or os.path.isfile(p):
        os.remove(p)
    elif os.path.isdir(p):
        shutil.rmtree(p)


def place(p, what, n):
    clear(p)
    if what == "text":
        open(p, "w").write("package %s\n\n// by hand %d\n" % ("sub" if "/sub/" in p else "top", n))
    elif what == "garbage":
        open(p, "w").write("package %s\n\nfunc ( %d {{\n" % ("sub" if "/sub/" in p else "top", n))
    elif what == "dir":
        os.mkdir(p)
    elif what == "dangling":
        os.symlink("no-such-dir/x", p)


def mark(t, b, text):
    """Does the generated text say what this variant of the target says?"""
    m = re.search(r"^func \(\w+ \*%s\) .*?^}" % NAME[t], text, re.M | re.S)
    if not m:
        return False
    k = KIND[t]
    if k in ("select", "update", "delete"):
        sql = re.sub(r"\s+", " ", text[m.start():m.end()])
        return ('WHERE' in sql) and (('"name" = $' in sql.split("WHERE")[1]) == (b == "good2"))
    whole = "\n".join(x.group(0) for x in re.finditer(r"^(func \(\w+ \*%s\).*?^}|var _%s_colmap.*?^})" % (NAME[t], NAME[t]), text, re.M | re.S))
    return ("note" in whole) == (b != "good2")


def history(mod, hi, h, gofmts):
    root = "%s/h%04d" % (mod, hi)
    os.makedirs(root + "/sub")
    src = None
    last = {}   # generated text by path and contents
    n = 0
    for si, s in enumerate(h):
        if s["do"] == "init":
            src = dict(s["src"])
            names, path = s["names"], paths(s["names"])
            write_src(root, src, path)
        elif s["do"] == "edit":
            src[s["t"]] = s["b"]
            write_src(root, src, path)
        elif s["do"] == "place":
            place(os.path.join(root, *s["dir"], real(names, s["base"]) + ".go"), s["is"], si)
        elif s["do"] == "run":
            o = s["o"]
            args = ["-r"] if o["r"] else []
            for f in o["f"]:
                args += ["-f", path[f]]
            if FMT[o["fmt"]] is not None:
                args += ["-o", FMT[o["fmt"]]]
            before = snapshot(root)
            p = tool(root, args, {"ok": "postgres", "missing": "", "wrong": "no_such_db"}[o["db"]])
            after = snapshot(root)
            n += 1
            what = "step %d: %s with %s" % (si, " ".join(args) or "(no options)", {k: v for k, v in src.items()})

            def bad(m):
                return n, (m, {"step": si, "why": what, "stderr": p.stderr[-1500:], "history": h})
            if s["ok"] != (p.returncode == 0):
                return bad("run of %s should %s, exit status %d" % (what, "succeed" if s["ok"] else "fail", p.returncode))
            if not s["ok"]:
                if after != before:
                    diff = [k for k in sorted(set(after) | set(before)) if after.get(k) != before.get(k)]
                    return bad("failed run (%s) changed %s" % (what, diff))
                if not p.stderr.strip():
                    return bad("failed run (%s) without a diagnostic" % what)
                if "panic:" in p.stderr:
                    return bad("run (%s) crashed" % what)
                if s["bad"] and o["db"] == "ok" and not s["collides"] and not s["blocked"] and not any(NAME[t] in p.stderr for t in s["bad"]):
                    return bad("failed run (%s): the diagnostic names none of %s" % (what, s["bad"]))
                continue
            want = {}
            for d in s["disk"]:
                want[os.path.join(*d["dir"], real(names, d["base"]) + ".go")] = d["is"]
            for k in sorted(set(before) | set(after) | set(want)):
                w = want.get(k)
                if w is None or w["k"] != "generated":
                    if after.get(k) != before.get(k):
                        return bad("run (%s) touched %s" % (what, k))
                    continue
                t = after.get(k, "")
                if not t.startswith("file "):
                    return bad("run (%s) left no output %s" % (what, k))
                t = t[5:]
                ts = dict(w["gen"])
                if receivers(t) != sorted(NAME[x] for x in ts):
                    return bad("run (%s): %s has methods of %s, want %s" % (what, k, receivers(t), sorted(NAME[x] for x in ts)))
                for x, b in ts.items():
                    if not mark(x, b, t):
                        return bad("run (%s): %s does not follow %s %s" % (what, k, NAME[x], b))
                key = (k, json.dumps(sorted(ts.items())))
                if last.setdefault(key, t) != t:
                    return bad("run (%s): %s differs from what an earlier run wrote for the same source" % (what, k))
                gofmts.add(t)
    shutil.rmtree(root)
    return n, None


def c14(ck, mod):
    num = 60 if THOROUGH else 13
    st = tlc("Command", "MCCommandSim.cfg", args=["-simulate", "num=%d" % num, "-depth", "40", "-seed", str(SEED)],
             const={"Runs": "= 7" if THOROUGH else "= 5"})
    hs = [json.loads(t) for t in traces(st)]
    st["out"] = ""
    log("%d histories" % len(hs))
    texts = set()
    runs = 0
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for n, bad in ex.map(lambda i: history(mod, i, hs[i], texts), range(len(hs))):
            runs += n
            if bad:
                ck.violation(bad[0], bad[1], replay=bad[1]["history"])
    d = mod + "/fmt"
    os.mkdir(d)
    for i, t in enumerate(sorted(texts)):
        open("%s/f%05d.go" % (d, i), "w").write(t)
    p = run(["gofmt", "-l", d], check=False)
    for f in (p.stdout + p.stderr).split("\n"):
        if f.strip():
            ck.violation("an output is not formatted or not complete: " + f.replace(d, ""), open(f).read()[:3000] if os.path.exists(f) else f)
    ck.cov = {"states": st["distinct"], "transitions": st["states"], "traces_validated_against_impl": len(hs), "runs_of_the_tool": runs,
              "outputs_checked": len(texts), "samples": hs[:2]}
    ck.assumptions = ["histories are a seeded random sample of the specification's",
                      "the checks run as root: an output is unwritable because of what lies at its path, not because of permissions"]


def main_():
    global TOOL, PGE
    prop = sys.argv[1]
    ck = Check(prop, "model_checking")
    TOOL = gosqltool.build()
    pg = PG()
    pg.psql(DDL)
    PGE = pg.env
    mod = scratch() + "/vtree"
    os.makedirs(mod + "/rec")
    open(mod + "/rec/rec.go", "w").write(REC)
    open(mod + "/go.mod", "w").write(GOMOD % REPO)
    shutil.copy(REPO + "/go.sum", mod + "/go.sum")
    (c15 if prop == "C15" else c14)(ck, mod)
    return ck.finish()


main(main_)
