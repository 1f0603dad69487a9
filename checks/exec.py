#!/usr/bin/env python3
"""C05, C06: behaviours of spec/Exec.tla replayed into generated methods."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import gosqltool

BREAKS = {"C05": ("errors", "panic"), "C06": ("delivery", "panic")}
KEYS = ["op", "out", "dst", "handler", "via", "ctx", "extra", "many", "ptr", "hook"]
AFF = ["int", "int64", "uint32", "int32", "uint"]


def key(s):
    return " ".join(str(s[k]).lower() if isinstance(s[k], bool) else s[k] for k in KEYS)


def render(i, s):
    """The query struct for a shape, and the code that runs it."""
    n = "%s%04dQuery" % (s["op"].capitalize(), i)
    base = "Rec"
    if s["via"] != "named":
        base = "QRec" if s["hook"] else "PRec"
    elif s["hook"]:
        base = "HRec"
    T = ("*" if s["ptr"] else "") + "env." + base
    it = "Iter%s%s" % ("Ptr" if s["ptr"] else "", base)   # iterator interface declared in the package
    F, run = [], []
    out, dst, op = s["out"], s["dst"], s["op"]
    rel = 'rel:"exec_rec:e"'
    field = None

    def outfield(name, tag=""):
        nonlocal field
        field = name
        t = {"one": T, "list": "[]" + T, "back": "[]" + T, "iterF": "func(%s) error" % T, "iterI": it}[out]
        F.append("%s %s %s" % (name, t, "`%s`" % tag if tag else ""))

    if out in ("count", "exists", "notexists"):
        F.append('%s %s `%s`' % ({"count": "Count", "exists": "Exists", "notexists": "NotExists"}[out], "int" if out == "count" else "bool", rel))
    elif op == "select":
        outfield("Recs" if s["many"] else "Rec", rel)
    elif op in ("insert", "update"):
        if dst == "rel" and out in ("one", "back"):
            outfield("Recs" if s["many"] else "Rec", rel)
            F.append('_ gosql.Return `sql:"*"`')
        else:
            F.append("%s %s `%s`" % ("Recs" if s["many"] else "Rec", ("[]" if s["many"] else "") + T, rel))
    elif op == "delete":
        if dst == "rel" and out not in ("none", "affected"):
            outfield("Recs" if s["many"] else "Rec", rel)
            F.append('_ gosql.Return `sql:"*"`')
        else:
            F.append('_ gosql.Relation `%s`' % rel)
    if dst == "result":
        outfield("Result")
    if out == "affected":
        F.append("RowsAffected " + AFF[i % len(AFF)])
    if s["handler"] != "none":
        h = "ErrH" if s["handler"] == "err" else "InfoH"
        ht = {"named": "env." + h, "ptr": "*env." + h, "iface": "gosql.ErrorHandler" if s["handler"] == "err" else "gosql.ErrorInfoHandler"}[s["via"]]
        F.append("Trouble " + ht)
        run.append("q.Trouble = %senv.%s{e}" % ("&" if s["via"] == "ptr" else "", h))
    if s["ctx"] == "field":
        F.append("Ctx context.Context")
        run.append("q.Ctx = e.Ctx")
    if s["extra"] == "where":
        F.append('Where struct { Id int `sql:"e.id"`; Name env.Name `sql:"e.name <>"` }')
        run.append("q.Where.Id = 5")
    elif s["extra"] == "in":
        F.append('Where struct { Ids []int `sql:"e.id isin"`; Name env.Name `sql:"e.name <>"` }')
        run.append("q.Where.Ids = []int{1, 2, 3}")
    elif s["extra"] == "filter":
        F.append("gosql.Filter")
        run.append("q.Filter = env.Filt{}")
    # inputs
    if op in ("insert", "update"):
        if s["many"]:
            run.append("for k := 1; k <= e.T.Inputs; k++ { r := new(env.%s); e.Fill(r, k); q.Recs = append(q.Recs, %sr) }" % (base, "" if s["ptr"] else "*"))
        else:
            run.append("{ r := new(env.%s); e.Fill(r, 1); q.Rec = %sr }" % (base, "" if s["ptr"] else "*"))
    amp = "" if s["ptr"] else "&"
    if out == "iterF":
        run.append("q.%s = func(r %s) error { return e.Give(%sr) }" % (field, T, amp))
    elif out == "iterI":
        run.append("q.%s = iter%s%s{e}" % (field, "Ptr" if s["ptr"] else "", base))
    run.append("e.QV = q")
    run.append("err := q.Exec(%sdb)" % ("e.Ctx, " if s["ctx"] == "arg" else ""))
    if out == "list":
        run.append("for i := range q.%s { e.Collect(%sq.%s[i]) }" % (field, amp, field))
    elif out == "back":
        run.append("for i := range q.%s { if q.%s[i].Id < 0 { e.Got = append(e.Got, \"untouched\"); continue }; e.Collect(%sq.%s[i]) }" % (field, field, amp, field))
    elif out == "one":
        run.append("if err == nil { e.Collect(%sq.%s) }" % (amp, field))
    elif out in ("count", "exists", "notexists"):
        run.append("e.Scalar = q." + {"count": "Count", "exists": "Exists", "notexists": "NotExists"}[out])
    elif out == "affected":
        run.append("e.RowsAff = int64(q.RowsAffected)")
    run.append("return err")
    decl = "type %s struct {\n\t%s\n}\n" % (n, "\n\t".join(F))
    reg = 'Names[%s] = "%s"\n\tRuns[%s] = func(e *env.E, db *sql.DB) error {\n\t\tq := new(%s)\n\t\t%s\n\t}\n' % (
        json.dumps(key(s)), n, json.dumps(key(s)), n, "\n\t\t".join(run))
    return n, decl, reg


GLUE = '''package %s

import (
	"database/sql"

	"vexec/env"
)

var Names = map[string]string{}
var Runs = map[string]func(*env.E, *sql.DB) error{}

'''


def glue(pkg, regs):
    t = GLUE % pkg
    for base in ("Rec", "HRec", "PRec", "QRec"):
        for p in ("", "Ptr"):
            T = ("*" if p else "") + "env." + base
            t += "type Iter%s%s interface { Take(%s) error }\ntype iter%s%s struct{ e *env.E }\nfunc (i iter%s%s) Take(r %s) error { return i.e.Give(%sr) }\n" % (
                p, base, T, p, base, p, base, T, "" if p else "&")
    for j, r in enumerate(regs):
        t += "func init() {\n\t%s}\n" % r
    return t


DDL = """create table exec_rec (id int primary key, name text not null, note text, sub_x int not null);"""


def main_():
    prop = sys.argv[1]
    ck = Check(prop, "model_checking")
    st = tlc("MCExec", "MCExec.cfg", const={"MaxRows": "= 3" if THOROUGH else "= 2", "Shapes": "<- All" if THOROUGH else "<- Core"})
    trs = traces(st)
    st["out"] = ""
    log("%d behaviours" % len(trs))
    shapes = {}
    for t in trs:
        s = json.loads(t)["shape"]
        shapes.setdefault(key(s), s)
    mod = scratch_module(VERIF + "/harness/exec", "exec")
    pg = PG()
    pg.psql(DDL)
    tool = gosqltool.build()
    types = {}
    for pkg in ("plain", "withctx"):
        os.makedirs(mod + "/" + pkg, exist_ok=True)
        mine = [(i, s) for i, s in enumerate(shapes.values()) if (s["ctx"] == "arg") == (pkg == "withctx")]
        regs = []
        per = 120
        for f in range(0, len(mine), per):
            src, ctx = "", False
            for i, s in mine[f:f + per]:
                n, decl, reg = render(i, s)
                types[n] = decl
                src += decl + "\n"
                regs.append(reg)
            head = "package %s\n\nimport (\n%s\t\"github.com/frk/gosql\"\n\t\"vexec/env\"\n)\n\nvar _ gosql.Query\nvar _ env.E\n" % (
                pkg, '\t"context"\n' if "context.Context" in src else "")
            open("%s/%s/q%03d.go" % (mod, pkg, f // per), "w").write(head + src)
        open("%s/%s/glue.go" % (mod, pkg), "w").write(glue(pkg, regs))
        p = gosqltool.generate(tool, mod + "/" + pkg, pg, ["-with-ctx=true"] if pkg == "withctx" else [])
        if p.returncode != 0:
            # a well-formed description was refused: that is C12's business, but nothing can be decided here
            ck.violation("generate: " + p.stderr.strip()[-600:], p.stderr[-3000:])
            return ck.finish()
        log("generated", pkg, len(mine))
    p = run(["go", "build", "-o", mod + "/exec", "."], cwd=mod, check=False)
    if p.returncode != 0:
        ck.violation("compile: " + p.stderr.strip()[:600], p.stderr[-3000:])
        return ck.finish()
    p = run([mod + "/exec"], stdin="\n".join(trs) + "\n", timeout=800, what="exec replay", check=False)
    if p.returncode != 0:
        raise CheckError("exec replay: " + p.stderr[-3000:])
    o = json.loads(p.stdout)
    for x in o["Failures"]:
        if x["Class"] in BREAKS[prop]:
            ck.violation(x["Class"] + ": " + x["Detail"], {"query": types.get(x["Name"]), "behaviour": x["Trace"]}, replay=x["Trace"])
        else:
            log("(other class %s: %s)" % (x["Class"], x["Detail"]))
    ck.cov = {"states": st["distinct"], "transitions": st["states"], "traces_validated_against_impl": o["Traces"],
              "query_shapes": len(shapes), "rows_served": o["Rows"], "samples": [json.loads(t) for t in trs[::max(1, len(trs) // 3)][:3]]}
    ck.assumptions = ["result sets of at most %d rows stand for all" % (3 if THOROUGH else 2),
                      "the fake driver behaves like a conforming database/sql driver",
                      "close errors of multi-row results are invisible through database/sql"]
    return ck.finish()


main(main_)
