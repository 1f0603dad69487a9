#!/usr/bin/env python3
"""C17: the layouts of spec/Neighbours.tla run with the real command; every target's code is compared with what a run on it alone gives."""
import collections, json, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import gosqltool, relrun

DDL = "".join("create table %s (id int primary key default 0, name text default 'x' %s, num int default 0 %s, note text default 'y', js jsonb, at timestamptz not null default now());\n" % t
              for t in (("nt", "not null", ""), ("nu", "", "not null")))
ENV = {"rec/rec.go": '''package rec

import (
	"time"
	twin "vn/twin/rec"
)

type Row struct {
	ID   int    `sql:"id" json:"id"`
	Name string `sql:"name" json:"name"`
	Num  *int   `sql:"num" json:"num"`
}

type RowIter interface{ NextRow(*Row) error }
type Rows []*Row

type Emb struct {
	ID      int `sql:"id" json:"id"`
	twin.In `sql:">" json:"in"`
}

type Hook struct {
	ID   int     `sql:"id" json:"id"`
	Note *string `sql:"note" json:"note"`
}

func (*Hook) AfterScan() {}

type Opt struct {
	ID   int            `sql:"id" json:"id"`
	Name string         `sql:"name,coalesce(none)" json:"name"`
	Js   map[string]int `sql:"js" json:"js"`
	At   time.Time      `sql:"at,ro" json:"at"`
	Num  int            `sql:"num,default" json:"num,omitempty"`
}

type Qual struct {
	ID   int     `sql:"id" json:"id"`
	Name *string `sql:"a.name" json:"name"`
}

type Deep struct {
	ID int `sql:"id" json:"id"`
	A  *A  `sql:">" json:"a"`
}
type A struct {
	Name string `sql:"name" json:"name"`
	B    *B     `sql:">" json:"b"`
}
type B struct {
	Num int `sql:"num" json:"num"`
}
''', "twin/rec/rec.go": '''package rec

type Row struct {
	ID   int     `sql:"id" json:"id"`
	Note *string `sql:"note" json:"note"`
	In   In      `sql:">" json:"in"`
}

func (*Row) AfterScan() {}

type In struct {
	Name string `sql:"name" json:"name"`
	Num  int    `sql:"num" json:"num"`
}
''', "env/env.go": '''package env

type Handler struct{}

func (Handler) HandleError(err error) error { return err }
'''}
OWN = {"p": "ID int `sql:\"id\" json:\"id\"`\n\tName string `sql:\"name\" json:\"name\"`\n\tnote string `sql:\"note\" json:\"note\"`",
       "q": "ID int `sql:\"id\" json:\"id\"`\n\tNum *int `sql:\"num\" json:\"num\"`\n\tnote *string `sql:\"note\" json:\"note\"`",
       "p/sub": "ID int32 `sql:\"id\" json:\"id\"`\n\tName *string `sql:\"name\" json:\"n\"`"}
# what package p has for others
OWN["p"] += """
}

type Shared struct {
	ID   int       `sql:"id" json:"id"`
	Note *string   `sql:"note" json:"note"`
	In   *SharedIn `sql:">" json:"in"`
}

type SharedIn struct {
	Name string `sql:"name" json:"name"`
	Num  *int   `sql:"num" json:"num"`"""
LIT = 'struct {\n\tID int `sql:"id" json:"id"`\n\tname string `sql:"name" json:"name"`\n\tNum *int `sql:"num" json:"num"`\n\t}'
TYPE = {"rec": "rec.Row", "twin": "twin.Row", "own": "Row", "emb": "rec.Emb", "lit": LIT, "hook": "rec.Hook", "opt": "rec.Opt", "deep": "rec.Deep", "qual": "rec.Qual", "shared": "p.Shared"}
COL = {"rec": "name", "twin": "note", "own": "id", "emb": "name", "lit": "name", "hook": "note", "opt": "name", "deep": "name", "qual": "name", "shared": "name"}
IMPORTS = {"p": "vn/p", "rec": "vn/rec", "twin": "vn/twin/rec", "env": "vn/env", "gosql": "github.com/frk/gosql", "filter": "github.com/frk/gosql/filter", "context": "context"}


def name(d):
    return d["kind"].capitalize() + "%03dRows" % d["name"]


def render(d, p):
    r = TYPE[d["rec"]]
    if r.startswith(p + "."):
        r = r[len(p) + 1:]
    typ = {"ptr": "*" + r, "val": r, "ptrs": "[]*" + r, "vals": "[]" + r, "func": "func(*%s) error" % r, "iter": "rec.RowIter", "named": "rec.Rows"}[d["wrap"]]
    table = "nosuch" if d["bad"] == "relation" else d["table"]
    q = d["alias"] + "." if d["alias"] else ""
    rel = '`rel:"%s%s"`' % (table, ":" + d["alias"] if d["alias"] else "")
    f = []
    if d["kind"] == "filter":
        f = ["filter.Constructor" + (' `filter:"v2"`' if d["out"] == "v2" else ""), "Rec %s %s" % (typ, rel)]
        if d["bad"]:
            f[1] = "Rec %s `rel:\"%s\"`" % (typ, {"tag": "9", "relation": "nosuch"}.get(d["bad"], "")) if d["bad"] in ("tag", "relation") else "Rec %s %s\n\tMore %s %s" % (typ, rel, typ, rel)
        return "type %s struct {\n\t%s\n}\n" % (name(d), "\n\t".join(f))
    if d["kind"] == "select" and d["out"] != "rows":
        f.append({"count": "Count int", "exists": "Exists bool"}[d["out"]] + " " + rel)
    elif d["kind"] == "delete":
        f += ["_ gosql.Relation %s" % rel]
    else:
        f.append("Rows %s %s" % (typ, rel))
    if d["join"]:
        f.append('Join struct {\n\t_ gosql.LeftJoin `sql:"nu:j,j.id = %s"`\n\t}' % (q + "id" if q else "%s.id" % table))
    if d["where"]:
        w = 'Name string `sql:"%sname"`\n\t_ gosql.Column `sql:"%sid > 0"`' % (q, q) if d["t"] % 2 else 'ID []int `sql:"%sid isin" bool:"or"`\n\tNum *int `sql:"%snum <"`' % (q, q)
        f.append("Where struct {\n\t%s\n\t}" % w.replace('_ gosql.Column `sql:"%sid > 0"`' % q, '_ gosql.Column `sql:"%sid > 0"`' % q))
    elif d["kind"] == "delete":
        f.append("_ gosql.All")
    if d["kind"] == "delete":
        f.append("Result %s" % typ)
    elif d["out"] == "ret":
        f.append('_ gosql.Return `sql:"*"`')
    elif d["out"] == "result" and d["wrap"] in ("ptr", "val"):
        f.append("Result %s" % typ)
    if d["force"]:
        f.append('_ gosql.Force `sql:"%s%s"`' % (q, COL[d["rec"]]))
    if d["deflt"]:
        f.append('_ gosql.Default `sql:"%s%s"`' % (q, COL[d["rec"]]))
    if d["conflict"]:
        f.append('OnConflict struct {\n\t_ gosql.Column `sql:"%sid"`\n\t_ gosql.Update `sql:"%s%s"`\n\t}' % (q, q, COL[d["rec"]]))
    if d["handler"]:
        f.append("env.Handler")
    if d["ctx"]:
        f.append("context.Context")
    if d["bad"] == "column":
        f.append('%s gosql.Return `sql:"nosuch"`' % "_" if d["kind"] != "select" else '_ gosql.OrderBy `sql:"nosuch"`')
    elif d["bad"] == "tag":
        f[0] = re.sub('`rel:"[^"]*"`', '`rel:"9"`', f[0])
    elif d["bad"] == "twice":
        f += ["_ gosql.All", "_ gosql.All"]
    return "type %s struct {\n\t%s\n}\n" % (name(d), "\n\t".join(f))


def gofile(pkg, text):
    imps = ['%s "%s"' % (k, v) for k, v in IMPORTS.items() if re.search(r'(?<![\w.])%s\.' % k, text)]
    return "package %s\n\nimport (\n\t%s\n)\n\n%s" % (pkg, "\n\t".join(imps), text) if imps else "package %s\n\n%s" % (pkg, text)


def lay(root, tree):
    """The sources of a tree, over what is there."""
    for n, t in ENV.items():
        put(root, n, t)
    for p in OWN:
        put(root, p + "/own.go", "package %s\n\ntype Row struct {\n\t%s\n}\n" % (os.path.basename(p), OWN[p]))
        for f in ("x", "y"):
            put(root, "%s/%s.go" % (p, f), gofile(os.path.basename(p), "\n".join(render(CAT[t], p) for t in tree.get((p, f), []))))
    put(root, "go.mod", "module vn\n\ngo 1.23.0\n\nrequire github.com/frk/gosql v0.0.0\n\nrequire (\n\tgithub.com/frk/fql v0.0.1\n\tgithub.com/lib/pq v1.10.2\n)\n\nreplace github.com/frk/gosql => %s\n" % REPO)
    shutil.copy(REPO + "/go.sum", root + "/go.sum")


def put(root, n, text):
    p = os.path.join(root, n)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(text)


def outputs(root):
    out = {}
    for p in OWN:
        for n in os.listdir(root + "/" + p):
            if n.endswith("_gosql.go"):
                out[p, n[:-len("_gosql.go")]] = open("%s/%s/%s" % (root, p, n)).read()
            elif n not in ("own.go", "x.go", "y.go", "sub"):
                out[p, n] = "?"
    return out


def parts(text):
    """The code of a file by target, in order, with packages spelled by their paths."""
    head, _, body = re.match(r"(.*?\npackage \w+\n)(\nimport \(\n.*?\n\)\n|\nimport [^\n]*\n)?(.*)", text, re.S).groups()
    imps = {}
    for a, path in re.findall(r'^(?:import )?\t?(?:(\w+) )?"([^"]+)"$', _ or "", re.M):
        imps[a or os.path.basename(path)] = path
    if imps:
        body = re.sub(r"(?<![\w.\"`])(%s)\." % "|".join(map(re.escape, imps)), lambda m: "<%s>." % imps[m.group(1)], body)
    out = []
    for block in re.split(r"\n(?=(?:func|var|type|const) )", body):
        if not block.strip():
            continue
        m = re.match(r"func \(\w+ \*(\w+)\)|var _(\w+?)_colmap\b", block)
        who = (m.group(1) or m.group(2)) if m else "?"
        if out and out[-1][0] == who:
            out[-1][1] += "\n" + block.rstrip()
        else:
            out.append([who, block.rstrip()])
    return [(w, b) for w, b in out]


def diag(text):
    """A refusal without where it stands."""
    return re.sub(r"\S+\.go(:\d+)*", "FILE", relrun.plain(text)).strip()


class Tree:
    def __init__(self, root):
        self.root = root

    def run(self, run):
        args = ["-r"] if run["r"] else []
        if run["f"]:
            args += ["-rx", "/%s[.]go$" % run["f"][0]]
        return gosqltool.generate(TOOL, os.path.normpath(self.root + "/" + run["wd"]), PGX, db="postgres", args=args)


def solo(base, t, p):
    """(code, None) or (None, diagnostic) of a target alone."""
    root = "%s/solo-%d-%s" % (base, t, p.replace("/", "-"))
    lay(root, {(p, "x"): [t]})
    r = Tree(root).run({"wd": p, "r": False, "f": []})
    out = outputs(root)
    shutil.rmtree(root)
    if r.returncode != 0:
        return None, ("crash " if "goroutine " in r.stderr else "") + diag(r.stderr)
    ps = parts(out[p, "x"])
    return ps, None


def history(base, t):
    root = "%s/h%03d" % (base, t["h"])
    prev = {}
    for n, s in enumerate(t["steps"]):
        tree = {(f["dir"], f["file"]): f["ts"] for f in s["tree"]}
        lay(root, tree)
        r = Tree(root).run(s["run"])
        got = outputs(root)
        why = None
        if s["ok"]:
            want = {(f["dir"], f["file"]): f["ts"] for f in s["out"]}
            if r.returncode != 0:
                why = "refused: " + diag(r.stderr)[:1500]
            elif set(got) != set(want):
                why = "other files: %s, want %s" % (sorted(got), sorted(want))
            else:
                for pf in sorted(want):
                    exp = [x for t_ in want[pf] for x in SOLO[t_, pf[0]][0]]
                    act = parts(got[pf])
                    if act != exp:
                        for a, b in zip(act + [None], exp + [None]):
                            if a != b:
                                why = "another method: %s in %s:\n%s\nalone:\n%s" % (b and b[0], pf, a and a[1], b and b[1])
                                break
                        break
        else:
            if r.returncode == 0:
                why = "accepted with bad targets %s" % [name(CAT[b]) for b in s["bad"]]
            elif got != prev:
                why = "files written by a refused run"
            elif diag(r.stderr) not in [SOLO[b, f["dir"]][1] for b in s["bad"] for f in s["tree"] if b in f["ts"]]:
                why = "another diagnostic: " + diag(r.stderr)[:1500]
        if not why and n and s["run"] == t["steps"][n - 1]["run"] and s["tree"] == t["steps"][n - 1]["tree"] and got != prev:
            why = "a second run gives other bytes"
        if why:
            files = {"%s/%s.go" % pf: gofile("x", "\n".join(render(CAT[x], pf[0]) for x in ts)) for pf, ts in tree.items()}
            shutil.rmtree(root)
            return why, {"why": why, "step": n, "run": s["run"], "files": files, "output": r.stderr[-1500:]}
        prev = got
    shutil.rmtree(root)
    return None, None


def main_():
    global CAT, SOLO, TOOL, PGX
    ck = Check("C17", "model_checking")
    m = int(os.environ.get("NM", "60" if THOROUGH else "26"))
    nh = int(os.environ.get("NHIST", "240" if THOROUGH else "32"))
    st = tlc("Neighbours", "MCNeighbours.cfg", const={"M": "= %d" % m, "NH": "= %d" % nh, "Steps": "= %d" % (7 if THOROUGH else 5), "Seed": "= %d" % SEED})
    CAT = {json.loads(x)["t"]: json.loads(x) for x in traces(st, "CAT")}
    hs = sorted((json.loads(x) for x in traces(st)), key=lambda t: t["h"])
    PGX, TOOL = PG(), gosqltool.build()
    PGX.psql(DDL)
    base = scratch() + "/trees"
    os.makedirs(base)
    keys = [(t, p) for t in sorted(CAT) for p in (["p", "p/sub"] if t <= m else ["q"])]
    SOLO = dict(zip(keys, pool([lambda k=k: solo(base, *k) for k in keys])))
    log("%d targets alone, %d refused" % (len(keys), sum(1 for v in SOLO.values() if v[1])))
    for (t, p), (code, err) in SOLO.items():
        d = CAT[t]
        if err and err.startswith("crash"):
            ck.violation("crash", {"target": render(d, p), "output": err})
        elif (err is not None) != (d["bad"] != ""):
            raise CheckError("target %d in %s: %s\n%s" % (t, p, err or "accepted", render(d, p)))
        elif err and name(d) not in err:
            ck.violation("diagnostic without the target", {"target": render(d, p), "output": err})
        elif not err and {w for w, _ in code} != {name(d)}:
            ck.violation("code that is not the target's", {"target": render(d, p), "got": [w for w, _ in code]})
    tot = collections.Counter()
    if not ck.viol:
        for t, (why, detail) in zip(hs, pool([lambda t=t: history(base, t) for t in hs])):
            for s in t["steps"]:
                tot["runs" if s["ok"] else "refused runs"] += 1
                tot["targets in runs"] += sum(len(f["ts"]) for f in s["tree"])
            if why:
                ck.violation(why.split(":")[0], detail)
    log("ran %s" % dict(tot))
    ck.cov = {"states": st["distinct"], "transitions": st["states"], "targets": len(CAT), "alone": len(keys), "traces_validated_against_impl": len(hs), "steps": dict(tot),
              "samples": [{"target": render(CAT[3], "p"), "alone": (SOLO[3, "p"][0] or [["", SOLO[3, "p"][1]]])[0][1][:800]}] + [{"history": t["steps"][:2]} for t in hs[:1]]}
    ck.assumptions = ["a seeded sample of targets and layouts; the code of a target alone is the oracle for it among others",
                      "import names may differ: code is compared with packages spelled by their paths"]
    return ck.finish()


main(main_)
