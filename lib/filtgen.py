"""Renders the descriptions of FilterGen.tla, generates and compiles their filters."""
import json, os, re, shutil
from vlib import *
import gosqltool, relrun

GO = {"int": "int", "pint": "*int", "int64": "int64", "num": "env.Num", "pnum": "*env.Num", "nulli": "sql.NullInt64",
      "str": "string", "pstr": "*string", "strn": "env.Str", "nulls": "sql.NullString", "ints": "[]int", "int64s": "[]int64",
      "jmap": "map[string]int", "jstruct": "env.J", "jany": "interface{}", "jinl": "struct{ N int }", "jptr": "*env.J",
      "time": "time.Time", "ptime": "*time.Time"}
PARAM = dict(GO, pint="int", pnum="env.Num", pstr="string", jinl="interface{}", jptr="env.J", ptime="time.Time")
IMPORTS = {"env": "vfg/env", "sql": "database/sql", "time": "time", "gosql": "github.com/frk/gosql", "filter": "github.com/frk/gosql/filter", "data": "vfg/data"}


def imports(text, but=()):
    use = sorted(k for k in IMPORTS if k not in but and re.search(r"(?<![\w.\"])%s\." % k, text))
    return "import (\n%s)\n" % "".join('%s "%s"\n' % (k, IMPORTS[k]) for k in use) + text


def tags(f, sql):
    t = []
    if f["json"] or f["om"]:
        t.append('json:"%s%s"' % (f["json"], ",omitempty" if f["om"] else ""))
    if f["key"]:
        t.append('key:"%s"' % f["key"])
    k = f["fck"]
    if k["on"]:
        o = ["tag:" + v for v in k["tag"]] + ["sep:" + v for v in k["sep"]] + ["base:%s" % str(v).lower() for v in k["base"]]
        t.append('fck:"%s"' % ",".join(o))
    t.append('sql:"%s"' % ",".join([sql] + list(f["opts"])))
    return "`" + " ".join(t) + "`"


def struct(fields, path, decls, pos=0):
    """The fields of a struct; the named types they need are added to decls."""
    out = []
    for q, f in enumerate(fields, 1):
        here = path + "_%d" % q
        if f["k"] == "leaf":
            out.append("%s %s %s" % (f["name"], GO[f["go"]], tags(f, f["b"])))
            continue
        body = struct(f["kids"], here, decls)
        typ = f["name"] if f["mode"] in ("embed", "embptr") else "T" + here
        if f["mode"] != "inline":
            decls.append("type %s struct {\n%s\n}" % (typ, body))
        t = tags(f, ">" + f["pfx"])
        out.append({"named": "%s %s %s" % (f["name"], typ, t), "ptr": "%s *%s %s" % (f["name"], typ, t), "embed": "%s %s" % (typ, t),
                    "embptr": "*%s %s" % (typ, t), "inline": "%s struct {\n%s\n} %s" % (f["name"], body, t)}[f["mode"]])
    return "\n".join(out)


def render(i, d, methods):
    """(declarations of the record's package, declarations of the target's package, glue)"""
    name = "Filter%05d" % i
    decls = []
    body = struct(d["fields"], str(i), decls)
    rel = "rel_f:f" if d["alias"] else "rel_f"
    if d["rec"] == "lit":
        rtype = "struct {\n%s\n}" % body
    else:
        decls.append("type R%d struct {\n%s\n}" % (i, body))
        rtype = {"ptr": "*", "val": "", "sliceptr": "[]*"}[d["rtype"]] + ("data." if d["rec"] == "data" else "") + "R%d" % i
    rec = '%s %s `rel:"%s"`' % ("_" if d["blank"] else "Rec", rtype, rel)
    ctor = {"embed": "filter.Constructor", "field": "Ctor filter.Constructor", "maker": "env.Maker", "makerfield": "Ctor env.Maker"}[d["ctor"]]
    if d["v2"]:
        ctor += ' `filter:"v2"`'
    fs = [ctor, rec] if d["first"] else [rec, ctor]
    if d["doc"]:
        q = d["alias"] and d["docq"]   # a qualified name follows what it refers to
        fs.insert(max(i % 3, fs.index(rec) + 1 if q else 0), '_ gosql.TextSearch `sql:"%s%s"`' % ("f." if q else "", d["doc"]))
    own = "type %s struct {\n%s\n}\ntype Select%05dRows struct {\nRows []*env.Row `rel:\"%s\"`\ngosql.Filter\n}\n" % (name, "\n".join(fs), i, rel)
    if d["rec"] != "data":
        own += "\n".join(decls) + "\n"
    cpath = {"embed": "f.Constructor", "field": "f.Ctor", "maker": "f.Maker.Constructor", "makerfield": "f.Ctor.Constructor"}[d["ctor"]]
    ms = "".join('"%s": func(f interface{}, l env.Lit) {\nvar v %s\nenv.Into(&v, l)\nif f.(*%s).%s("=", v) != f { panic("another filter") }\n},\n'
                 % (m, PARAM[g], name, m) for m, g in sorted(methods.items()))
    nest = "func(n func(interface{})) {\nif n == nil { f.%s(nil); return }\nf.%s(func(g *" + name + ") { n(g) })\n}"
    glue = """func init() {
env.Targets[%d] = env.Target{
New: func() (interface{}, *filter.Constructor, env.Bools) {
f := new(%s)
f.Init()
return f, &%s, env.Bools{And: %s, Or: %s}
},
Query: func(c gosql.Conn, x gosql.Filter) (out []int, err error) {
q := &Select%05dRows{Filter: x}
err = q.Exec(c)
for _, r := range q.Rows { out = append(out, r.Id) }
return out, err
},
Methods: map[string]func(interface{}, env.Lit){
%s},
}
}
""" % (i, name, cpath, nest % ("And", "And"), nest % ("Or", "Or"), i, ms)
    return ("\n".join(decls) + "\n" if d["rec"] == "data" else ""), own, glue


def options(s, mod, p):
    """The command line, or the configuration file, that puts settings in force."""
    conf = {}
    if s["conv"]:
        conf["filter_value_converters"] = [{"type": "vfg/env.Num", "func": "vfg/env.ConvNum"}]
    args = []
    if s["file"]:
        conf.update(filter_column_key_tag=s["tag"], filter_column_key_separator=s["sep"], filter_column_key_base=s["base"], quote_identifiers=s["qid"])
    else:
        args = ["-fcktag", s["tag"], "-fcksep", s["sep"]] + ["-fckbase=%s" % str(s["base"]).lower(), "-qid=%s" % str(s["qid"]).lower()]
    if conf:
        f = "%s/p%d.json" % (mod, p)
        json.dump(conf, open(f, "w"))
        args += ["-config", f]
    return args


def build(descs, settings, methods, pg, tool, name="fg"):
    """(binary, [(id, class, output)], declarations)"""
    mod = scratch_module(VERIF + "/harness/filtgen", name)
    R = {i: render(i, d, methods.get(i, {})) for i, d in descs.items()}
    decls = {i: r[0] + r[1] for i, r in R.items()}
    ids, bad = sorted(descs), []
    open(mod + "/go.sum", "a").close()
    # the table comes from the harness itself
    packs = sorted(settings)
    for attempt in range(int(os.environ.get("FG_TRIES", "6"))):
        for d in ["data", "all"] + ["p%d" % p for p in packs]:
            shutil.rmtree(mod + "/" + d, ignore_errors=True)
            os.makedirs(mod + "/" + d)
        open(mod + "/data/data.go", "w").write("package data\n" + imports("".join(R[i][0] for i in ids) + "type Here int\n"))
        open(mod + "/all/all.go", "w").write("package all\nimport (\n%s)\n" % "".join('_ "vfg/p%d"\n' % p for p in packs))
        hits = set()
        for p in packs:
            mine = [i for i in ids if descs[i]["pack"] == p]
            for f in range(0, max(1, len(mine)), 30):
                open("%s/p%d/q%03d.go" % (mod, p, f // 30), "w").write("package p%d\n" % p + imports("".join(R[i][1] for i in mine[f:f + 30])))
            open("%s/p%d/glue.go" % (mod, p), "w").write("package p%d\n" % p + imports("".join(R[i][2] for i in mine)))

        def gen(p):
            return p, gosqltool.generate(tool, "%s/p%d" % (mod, p), pg, db="fg", args=options(settings[p], mod, p))
        for p, r in pool([lambda p=p: gen(p) for p in packs]):
            if r.returncode != 0:
                text = relrun.plain(r.stderr)
                m = re.search(r"(?:Filter|Select)(\d{5})", text)
                hits.add((int(m.group(1)) if m else None, "crash" if "goroutine " in text else "refused", text))
        if not hits:
            r = run(["go", "build", "-gcflags=-e", "-o", mod + "/fg", "."], cwd=mod, check=False, timeout=800)
            if r.returncode == 0:
                return mod + "/fg", bad, decls
            for m in re.finditer(r"(\S+\.go):(\d+):\d+: (.*)", r.stderr):
                src = open(os.path.join(mod, m.group(1))).read().splitlines()[:int(m.group(2)) + 1]
                who = None
                for l in reversed(src):
                    f = re.search(r"(?:Filter|Select|env\.Targets\[)(\d+)", l)
                    if f:
                        who = int(f.group(1))
                        break
                hits.add((who, "does not compile", m.group(3)))
            if not hits:
                hits.add((None, "does not compile", r.stderr))
        for i, cls, t in sorted(hits, key=str):
            if i in ids:
                ids.remove(i)
                bad.append((i, cls, t))
            elif i is None:
                return None, bad + [(None, cls, t)], decls
    return None, bad, decls
