"""Renders descriptions of RelGen.tla as query structs and the code that runs them."""
import json

TY = {"int": ["int", "int64", "int32", "int"], "text": ["string", "string", "env.Text", "string"], "bool": ["bool"]}
JOIN = {"inner": "InnerJoin", "left": "LeftJoin", "right": "RightJoin", "full": "FullJoin", "cross": "CrossJoin"}


def text(v):
    return "".join(chr(c) for c in v)


def literal(r):
    if r["ty"] == "text":
        return "'" + text(r["v"]).replace("'", "''") + "'"
    return str(r["v"][0])


def gotype(f, salt=0):
    if f["go"] == "num":
        return f["ty"]
    if f["go"] in ("in", "qua"):
        return "[]" + TY[f["ty"]][0 if f["ty"] != "int" else salt % 2]
    if f["go"] == "p":   # a pointer to a named type is not accepted in a condition
        return "*" + TY[f["ty"]][0]
    return TY[f["ty"]][salt % len(TY[f["ty"]])]


class Names:
    """How relations and columns are spelled in one description."""

    def __init__(self, d, tabs):
        self.mode, self.uq, self.tabs = d["alias"], d["uq"], tabs

    def rel(self, t):
        return {"alias": "rel_%s:%s" % (t, t), "bare": "rel_" + t, "schema": "public.rel_%s:%s" % (t, t)}[self.mode]

    def qual(self, t):
        return "rel_" + t if self.mode == "bare" else t

    def col(self, c, qualify=False):
        # unqualified names are looked up in the target relation
        if self.uq and c["q"] == "t" and not qualify:
            return c["c"]
        return self.qual(c["q"]) + "." + c["c"]


def spaced(salt, lhs, op, rhs):
    tight = op[:1] in "=<>!~" and salt % 3 == 0
    return lhs + op + rhs if tight else "%s %s %s" % (lhs, op, rhs)


def items(its, nm, sets, path):
    """Fields of a where struct; sets collects (field path, slot)."""
    out = []
    for j, i in enumerate(its):
        bt = ' bool:"%s"' % i["bool"] if i["bool"] else ""
        k = i["k"]
        if k == "nest":
            inner = items(i["items"], nm, sets, path + "." + i["slot"])
            out.append('%s struct {\n%s\n} `sql:">"%s`' % (i["slot"], "\n".join(inner), bt))
        elif k == "un":
            out.append('_ gosql.Column `sql:"%s %s"%s`' % (nm.col(i["l"]), i["op"], bt))
        elif k == "btw":
            op = ("not" if i["neg"] else "is") + "between" + i["sym"]
            w = {"xy": ("x", "y"), "lu": ("lower", "upper")}[i["names"]]
            fs = []
            slot = None
            for n, b in zip(w, (i["lo"], i["hi"])):
                if b["o"] == "col":
                    fs.append('_ gosql.Column `sql:"%s,%s"`' % (nm.col(b), n))
                else:
                    slot = b["slot"]
                    fs.append('B%s %s `sql:"%s"`' % (slot[-1], gotype(b, len(out)), n))
                    sets.append((b["slot"], slot[-1]))
            name = "R%d_%s" % (j + 1, path.replace(".", "_").split("Where")[-1])
            for q, (s, last) in enumerate(sets):
                if last in ("x", "y"):
                    sets[q] = (s, path + "." + name + ".B" + last)
            if i["swap"]:
                fs.reverse()
            out.append('%s struct { %s } `sql:"%s %s"%s`' % (name, "; ".join(fs), nm.col(i["l"]), op, bt))
        else:
            if k == "in":
                f, expr = i["r"], "%s %s" % (nm.col(i["l"]), "notin" if i["neg"] else "isin")
            else:
                r = i["r"]
                if r["o"] != "fld":
                    rhs = nm.col(r) if r["o"] == "col" else literal(r)
                    out.append('_ gosql.Column `sql:"%s"%s`' % (spaced(j, nm.col(i["l"]), i["op"], rhs), bt))
                    continue
                f, expr = r, (nm.col(i["l"]) + " " + i["op"] + " " + i["qua"]).strip()
                if i["fn"]:
                    expr += ",@" + i["fn"]
            out.append('%s %s `sql:"%s"%s`' % (f["slot"], gotype(f, j), expr, bt))
            sets.append((f["slot"], path + "." + f["slot"]))
    return out


def join_tag(j, nm, qualify):
    t = nm.rel(j["tab"])
    for n, i in enumerate(j["on"]):
        sep = "," if n == 0 or i["bool"] == "and" else ";"
        # the left-hand side names the joined relation; without an alias it must be qualified
        l = nm.col(i["l"], qualify)
        if i["k"] == "un":
            t += "%s%s %s" % (sep, l, i["op"])
        else:
            rhs = nm.col(i["r"]) if i["r"]["o"] == "col" else literal(i["r"])
            t += sep + spaced(n, l, i["op"], rhs)
    return t


def num_field(F, sets, name, n):
    if n["k"] == "dir":
        F.append('_ gosql.%s `sql:"%d"`' % (name, n["n"]))
    elif n["k"] == "fld":
        F.append("%s %s%s" % (name, n["ty"], ' `sql:"%d"`' % n["dflt"] if n["dflt"] else ""))
        sets.append((name, "." + name))


def finish(i, d, name, F, run, sets):
    body = ["q := new(%s)" % name] + ['env.Set(&q%s, x.A["%s"])' % (p, s) for s, p in sets] + run
    decl = "type %s struct {\n%s\n}\n" % (name, "\n".join(F))
    reg = "func init() {\n\tNames[%d] = %s\n\tRuns[%d] = func(x *env.Ctx) {\n\t\t%s\n\t}\n}\n" % (
        i, json.dumps(name), i, "\n\t\t".join(body))
    return name, decl, reg


def select(i, d):
    name = "Select%05dQuery" % i
    tabs = ["t"] + [j["tab"] for j in d["joins"]]
    nm = Names(d, tabs)
    F, run, sets = [], [], []
    T = ("*" if d["ptr"] else "") + "env." + d["rec"]
    amp = "" if d["ptr"] else "&"
    rel = '`rel:"%s"`' % nm.rel("t")
    k = d["kind"]
    call = "err := q.Exec(x.C)"
    if k == "one":
        F.append("Rec %s %s" % (T, rel))
        run = [call, "if !x.Err(err) { x.O.Rows = env.Rows(q.Rec) }"]
    elif k == "slice":
        F.append("Recs []%s %s" % (T, rel))
        run = [call, "if !x.Err(err) { x.O.Rows = env.Rows(q.Recs) }"]
    elif k == "iter":
        F.append("Next func(%s) error %s" % (T, rel))
        run = ["q.Next = func(r %s) error { return x.Give(%sr) }" % (T, amp), call, "x.Err(err)"]
    elif k == "iterp":
        it = "Iter%s%s" % ("Ptr" if d["ptr"] else "", d["rec"])
        F.append("Next %s %s" % (it, rel))
        run = ["q.Next = iter%s%s{x}" % ("Ptr" if d["ptr"] else "", d["rec"]), call, "x.Err(err)"]
    elif k == "count":
        F.append("Count %s %s" % (["int", "int64"][i % 2], rel))
        run = [call, "if !x.Err(err) { n := int64(q.Count); x.O.Count = &n }"]
    else:
        f = "Exists" if k == "exists" else "NotExists"
        F.append("%s bool %s" % (f, rel))
        run = [call, "if !x.Err(err) { y := q.%s; x.O.Yes = &y }" % f]
    if d["joins"]:
        F.append("Join struct {\n%s\n}" % "\n".join(
            '_ gosql.%s `sql:"%s"`' % (JOIN[j["type"]], join_tag(j, nm, d["alias"] == "bare" or not d["uq"])) for j in d["joins"]))
    if d["where"]:
        F.append("Where struct {\n%s\n}" % "\n".join(items(d["where"], nm, sets, ".Where")))
    if d["wmode"] == "filter":
        F.append("gosql.Filter" if i % 3 == 0 else "Filter gosql.Filter")
        f = d["filt"]
        tail = "".join([" ORDER BY " + ", ".join(nm.col(o, True) + (" DESC" if o["desc"] else "") + (" NULLS FIRST" if o["nf"] else " NULLS LAST") for o in f["order"]) if f["order"] else "",
                        " LIMIT %d" % f["lim"] if f["lim"] else "", " OFFSET %d" % f["off"] if f["off"] else ""])
        run.insert(0, 'f := env.Filt{Col: "%s", Tail: "%s"}%s; q.Filter = f' % (
            "" if f["empty"] else nm.col(f, True), tail, "" if f["empty"] else '; env.Set(&f.Min, x.A["Min"]); env.Set(&f.Max, x.A["Max"])'))
    if d["order"]:
        F.append('_ gosql.OrderBy `sql:"%s"`' % ",".join(
            ("-" if o["desc"] else "") + nm.col(o) + (":" + o["opt"] if o["opt"] else "") for o in d["order"]))
    num_field(F, sets, "Limit", d["limit"])
    num_field(F, sets, "Offset", d["offset"])
    return finish(i, d, name, F, run, sets)


# ---------------------------------------------------------------- writes

FIELD = {("v", "int"): ["int", "int64", "int32"], ("v", "text"): ["string"], ("v", "bool"): ["bool"],
         ("t", "int"): ["env.Num"], ("t", "text"): ["env.Text"], ("t", "bool"): ["env.Flag"],
         ("p", "int"): ["*int", "*int32"], ("p", "text"): ["*string"], ("p", "bool"): ["*bool"],
         ("n", "int"): ["sql.NullInt64"], ("n", "text"): ["sql.NullString"], ("n", "bool"): ["sql.NullBool"],
         ("j", "json"): ["env.J"], ("jp", "json"): ["*env.J"], ("j", "xml"): ["env.J"], ("jp", "xml"): ["*env.J"]}
UNIQ = {("t", "pk"): "rel_t_pkey", ("t", "c"): "rel_t_c_key", ("ck", "pk"): "rel_ck_pkey", ("e", "pk"): "rel_e_pkey",
        ("e", "p"): "rel_e_p", ("e", "q"): "rel_e_q", ("g", "pk"): "rel_g_pkey"}


def cov(f):
    v = f["cov"]
    return {"int": lambda: str(v[0]), "text": lambda: "'" + text(v) + "'", "bool": lambda: "true" if v[0] else "false"}[f["ty"]]()


def record(name, rec):
    """The Go declarations of a record type."""
    decls = ""
    body = []

    def field(f, pre):
        opts = [o["t"] for o in f["opts"]]
        if f["def"]:
            opts.append("default")
        if f["co"] != "-":
            opts.append("coalesce" + ("(%s)" % cov(f) if f["co"] == "val" else ""))
        kinds = FIELD[(f["go"], f["ty"])]
        col = f["c"]
        assert col.startswith(pre)
        return '%s %s `sql:"%s"`' % ("".join(w.capitalize() for w in col.split("_")), kinds[len(col + name) % len(kinds)],
                                     ",".join([col[len(pre):]] + opts))
    for f in rec["fields"]:
        if f["grp"] == 0:
            body.append(field(f, ""))
    # names that run together the same way along different paths
    gname = {1: "G1", 2: "G1K", 3: "KZz", 4: "Zz"} if len(rec["groups"]) == 4 \
        else {n: "G%d" % n for n in range(1, 6)}

    def group(n):
        nonlocal decls
        g = rec["groups"][n - 1]
        fs = [field(f, g["pre"]) for f in rec["fields"] if f["grp"] == n]
        inner = [group(k) for k, h in enumerate(rec["groups"], 1) if h["par"] == n]
        tag = '`sql:"%s"`' % ",".join([">" + g["pre"]] + [o["t"] for o in g["opts"]])
        sub = "%sSub%d" % (name, n)
        if g["ptr"] or len(fs) % 2:
            decls += "type %s struct {\n%s\n}\n" % (sub, "\n".join(fs + inner))
            return "%s%s%s %s" % ("" if (n + len(fs)) % 3 == 1 else gname[n] + " ", "*" if g["ptr"] else "", sub, tag)
        return "%s struct {\n%s\n} %s" % (gname[n], "\n".join(fs + inner), tag)
    body += [group(n) for n, g in enumerate(rec["groups"], 1) if g["par"] == 0]
    if len(body) % 2:
        body.insert(0, 'Skipped string `sql:"-"`')
    return decls + "type %s struct {\n%s\n}\n" % (name, "\n".join(body))


class WNames(Names):
    """Names in a write description: the target is not always t."""

    def __init__(self, d):
        self.mode, self.uq, self.target = d["alias"], d.get("uq", len(d["tab"]) % 2), d["tab"]

    def col(self, c, qualify=False):
        if self.uq and c["q"] == self.target and not qualify:
            return c["c"]
        return self.qual(c["q"]) + "." + c["c"]

    def cols(self, cs, i=0):
        return ",".join("*" if c == "*" else c if i % 2 else self.qual(self.target) + "." + c for c in cs)


def out_field(i, d, name, nm, F, run):
    """Adds the fields of the output and the code reporting it; returns extra declarations."""
    o = d["out"]
    relf = "q.Recs" if d["slice"] else "q.Rec"
    k = o["k"]
    if k == "none":
        run.append("x.Err(err)")
        return ""
    if k == "aff":
        F.append("RowsAffected %s" % ["int", "int64", "int32"][i % 3])
        run.append("if !x.Err(err) { n := int64(q.RowsAffected); x.O.Count = &n }")
        return ""
    if k == "ret":
        F.append('_ gosql.Return `sql:"%s"`' % nm.cols(o["list"], i))
        run.append("if !x.Err(err) { x.O.Rows = env.Rows(%s) }" % relf)
        return ""
    rn = "Res" + name
    T = ("*" if o["ptr"] else "") + rn
    if o["shape"] == "one":
        F.append("Result %s" % T)
        run.append("if !x.Err(err) { x.O.Rows = env.Rows(q.Result) }")
    elif o["shape"] == "slice":
        F.append("Result []%s" % T)
        run.append("if !x.Err(err) { x.O.Rows = env.Rows(q.Result) }")
    else:
        F.append("Result func(%s) error" % T)
        run.insert(len(run) - 1, "q.Result = func(r %s) error { return x.Give(%sr) }" % (T, "" if o["ptr"] else "&"))
        run.append("x.Err(err)")
    return record(rn, o["rec"])


def rec_field(d, name, nm, F):
    T = ("*" if d["ptr"] else "") + "Rec" + name
    F.append("%s%s `rel:\"%s\"`" % ("Recs []" if d["slice"] else "Rec ", T, nm.rel(d["tab"])))
    return record("Rec" + name, d["rec"])


def change(i, d):
    """Updates and deletes."""
    name = "%s%05dQuery" % (d["op"].capitalize(), i)
    nm = WNames(d)
    F, run, sets, decls = [], [], [], ""
    dele = d["op"] == "delete"
    if dele and d["dir"]:
        F.append('_ gosql.Relation `rel:"%s"`' % nm.rel(d["tab"]))
    else:
        decls += rec_field(d, name, nm, F)
    if d["from"]:
        ls = ['_ gosql.Relation `sql:"%s"`' % nm.rel(d["from"][0]["tab"])]
        ls += ['_ gosql.%s `sql:"%s"`' % (JOIN[j["type"]], join_tag(j, nm, True)) for j in d["from"][1:]]
        F.append("%s struct {\n%s\n}" % ("Using" if dele else "From", "\n".join(ls)))
    if d["by"] == "where":
        F.append("Where struct {\n%s\n}" % "\n".join(items(d["where"], nm, sets, ".Where")))
    elif d["by"] == "filter":
        F.append("gosql.Filter" if i % 3 == 0 else "Filter gosql.Filter")
        if d["filt"]["empty"]:
            run.append("q.Filter = env.Filt{}")
        else:
            run.append('f := env.Filt{Col: "%s"}; env.Set(&f.Min, x.A["Min"]); env.Set(&f.Max, x.A["Max"]); q.Filter = f' % nm.col(d["filt"]))
    elif d["by"] == "all":
        F.append("_ gosql.All")
    if d["deflt"]:
        F.append('_ gosql.Default `sql:"%s"`' % nm.cols(d["deflt"], i))
    if d["force"]:
        F.append('_ gosql.Force `sql:"%s"`' % nm.cols(d["force"], i + 1))
    if not dele:
        run.append("env.FillAll(&q.%s, x.R)" % ("Recs" if d["slice"] else "Rec"))
    run.append("err := q.Exec(x.C)")
    decls += out_field(i, d, name, nm, F, run)
    if not dele:
        run.append("x.O.Given = env.Rows(q.%s)" % ("Recs" if d["slice"] else "Rec"))
    n, decl, reg = finish(i, d, name, F, run, sets)
    return n, decls + decl, reg


def insert(i, d):
    name = "Insert%05dQuery" % i
    nm = WNames(d)
    F, run = [], []
    decls = rec_field(d, name, nm, F)
    cf = d["conf"]
    if cf["k"] != "none":
        ls = []
        if cf["key"]:
            if cf["how"] == "column":
                ls.append('_ gosql.Column `sql:"%s"`' % nm.cols(cf["cols"], i))
            else:
                ls.append('_ gosql.%s `sql:"%s"`' % (cf["how"].capitalize(), UNIQ[(d["tab"], cf["key"])]))
        ls.append("_ gosql.Ignore" if cf["k"] == "ignore" else '_ gosql.Update `sql:"%s"`' % nm.cols(cf["list"], i + 1))
        F.append("OnConflict struct {\n%s\n}" % "\n".join(ls))
    if d["deflt"]:
        F.append('_ gosql.Default `sql:"%s"`' % nm.cols(d["deflt"], i))
    if d["force"]:
        F.append('_ gosql.Force `sql:"%s"`' % nm.cols(d["force"], i + 1))
    if d["over"]:
        F.append('_ gosql.Override `sql:"%s"`' % d["over"])
    run.append("env.FillAll(&q.%s, x.R)" % ("Recs" if d["slice"] else "Rec"))
    run.append("err := q.Exec(x.C)")
    decls += out_field(i, d, name, nm, F, run)
    run.append("x.O.Given = env.Rows(q.%s)" % ("Recs" if d["slice"] else "Rec"))
    n, decl, reg = finish(i, d, name, F, run, [])
    return n, decls + decl, reg


PK = {"t": "id", "ck": "x,y", "e": "id", "g": "id"}


def read(i, d):
    name = "Select%05dQuery" % i
    nm = WNames(d)
    T = ("*" if d["ptr"] else "") + "Rec" + name
    rel = '`rel:"%s"`' % nm.rel(d["tab"])
    call = "err := q.Exec(x.C)"
    if d["one"]:
        F = ["Rec %s %s" % (T, rel)]
        run = [call, "if !x.Err(err) { x.O.Rows = env.Rows(q.Rec) }"]
    elif d["iter"]:
        F = ["Next func(%s) error %s" % (T, rel)]
        run = ["q.Next = func(r %s) error { return x.Give(%sr) }" % (T, "" if d["ptr"] else "&"), call, "x.Err(err)"]
    else:
        F = ["Recs []%s %s" % (T, rel)]
        run = [call, "if !x.Err(err) { x.O.Rows = env.Rows(q.Recs) }"]
    F.append('_ gosql.OrderBy `sql:"%s"`' % nm.cols(PK[d["tab"]].split(","), i))
    n, decl, reg = finish(i, d, name, F, run, [])
    return n, record("Rec" + name, d["rec"]) + decl, reg


HEAD = '''package q

import (
	"database/sql"

	"github.com/frk/gosql"
	"vrel/env"
)

var _ gosql.Query
var _ sql.NullBool
var _ env.Row

'''
GLUE = '''package q

import "vrel/env"

var Names = map[int]string{}
var Runs = map[int]func(*env.Ctx){}

'''


def glue():
    t = GLUE
    for base in ("RecP", "RecV", "RecN"):
        for p in ("", "Ptr"):
            T = ("*" if p else "") + "env." + base
            t += "type Iter%s%s interface{ Take(%s) error }\ntype iter%s%s struct{ x *env.Ctx }\nfunc (i iter%s%s) Take(r %s) error { return i.x.Give(%sr) }\n" % (
                p, base, T, p, base, p, base, T, "" if p else "&")
    return t


DDL = """
create table rel_t (id serial primary key, a int, b int not null default 7, s text, c text not null unique, f bool);
create table rel_u (id int primary key, t_id int, w int, g text);
create table rel_v (id int primary key, u_id int, k int);
create table rel_ck (x int, y int, n text, m int default 3, primary key (x, y));
create table rel_e (id serial primary key, p text, w_q int, w_z int, j jsonb, xm xml);
create unique index rel_e_p on rel_e (lower(p));
create unique index rel_e_q on rel_e (w_q) where w_z > 0;
create table rel_g (id int generated always as identity primary key, a int);
"""
