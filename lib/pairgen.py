"""Go for the pairs of spec/Pairs.tla: records, query structs, tables."""

ENV = '''package p

import "database/sql"

type NB bool
type NI int
type NS string
type NBytes []byte
type JDoc struct {
	A []struct {
		B *int
	}
}
type XDoc struct {
	A string   `xml:"a"`
	B []string `xml:"b"`
}

var _ sql.NullBool
'''
IMPORTS = {"sql.": "database/sql", "net.": "net", "time.": "time", "json.": "encoding/json"}
OPS = {"eq": "=", "ne": "<>", "nd": "notdistinct", "di": "isdistinct", "in": "isin", "ni": "notin", "any": "= any", "all": "<> all"}
KIND = {"insert": "Insert", "update": "Update", "updates": "UpdateMany", "select": "Select", **{o: "Select" + o.capitalize() for o in OPS}}
VERB = {v: k for k, v in KIND.items()}


def name(op, i):
    return "%sP%06d" % (KIND[op], i)


def target(op, i, go, table):
    rel = '`rel:"%s"`' % table
    n = name(op, i)
    if op == "insert":
        return "type %s struct {\n\tR *P%06dRec %s\n}\n" % (n, i, rel)
    if op == "update":
        return "type %s struct {\n\tR *P%06dRec %s\n\tWhere struct {\n\t\tID int `sql:\"id\"`\n\t}\n}\n" % (n, i, rel)
    if op == "select":
        return "type %s struct {\n\tRs []*P%06dRec %s\n}\n" % (n, i, rel)
    if op == "updates":
        return "type %s struct {\n\tRs []*P%06dRec %s\n}\n" % (n, i, rel)
    t = "[]" + go if op in ("in", "ni", "any", "all") else go
    return "type %s struct {\n\tRs []*IDRec %s\n\tWhere struct {\n\t\tC %s `sql:\"c %s\"`\n\t}\n}\n" % (n, rel, t, OPS[op])


def record(i, go):
    return "type P%06dRec struct {\n\tID int `sql:\"id\"`\n\tC  %s `sql:\"c\"`\n}\n" % (i, go)


def gofile(pairs):
    """pairs: (i, go, table, ops)"""
    body = []
    for i, go, table, ops in pairs:
        body.append(record(i, go))
        body += [target(op, i, go, table) for op in ops]
    text = "\n".join(body)
    imps = [v for k, v in IMPORTS.items() if k in text]
    return "package p\n\n" + "".join('import "%s"\n' % x for x in imps) + "\n" + text


def env_file():
    return ENV + "\ntype IDRec struct {\n\tID int `sql:\"id\"`\n}\n"


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def all_file(pairs, cols):
    out = ['package p\n\nimport "vcodec/ent"\n\nvar All = []ent.Entry{\n']
    for i, go, col, ops in pairs:
        out.append("\t{Col: %s, Base: %s, Go: %s, New: map[string]func() interface{}{%s}},\n" % (
            q(col), q(cols[col]["base"]), q(go), ", ".join('"%s": func() interface{} { return new(%s) }' % (op, name(op, i)) for op in ops)))
    return "".join(out) + "}\n"


def reg_file(n):
    return "package main\n\nimport (\n" + "".join('\tp%d "vcodec/p%d"\n' % (j, j) for j in range(n)) + ")\n\nfunc init() {\n" + \
        "".join("\tgenerated = append(generated, p%d.All...)\n" % j for j in range(n)) + "}\n"


def ddl(cols):
    """cols: name -> column; returns SQL and name -> table"""
    tables, out = {}, ["create extension hstore; create type plabel as enum ('p', 'q ''');"]
    for k, n in enumerate(sorted(cols)):
        tables[n] = "pt_%d" % k
        out.append("create table pt_%d (id int primary key deferrable initially deferred, c %s); comment on table pt_%d is '%s';" % (k, cols[n]["ddl"], k, n))
    return "\n".join(out), tables
