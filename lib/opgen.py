"""Renders the uses of spec/Operands.tla as Go."""


def ddl(columns):
    cols = ",\n".join("%s %s%s" % (c["n"], c["ddl"], " not null" if c["n"] in ("i4", "b") else "") for c in columns)
    return '''create type omood as enum ('p', 'q');
create table o (%s);
create table oj (%s);
create schema osub;
create function osub.hidden(text) returns text language sql as 'select $1';
create function ambig(int) returns text language sql as 'select $1::text';
create function ambig(date) returns text language sql as 'select $1::text';
create function defd(text, int default 1) returns text language sql as 'select $1';
create function twoarg(text, text) returns text language sql as 'select $1';
''' % (cols, cols)


ENV = '''package p

type NS string
type NB bool
type ORow struct {
	T *string `sql:"t"`
}
'''


class Use:
    ENV = ENV

    def __init__(self, i, u):
        self.i, self.u, self.d = i, u, {"kind": "use"} | {k: v["n"] if k == "col" else v for k, v in u.items()}

    @property
    def name(self):
        return "%sL%06d" % ({"delete": "Delete", "update": "Update"}.get(self.u["clause"], "Select"), self.i)

    def cond(self):
        u = self.u
        o = u["operand"]
        a = "j" if u["clause"] == "join" else "a"
        lhs = " ".join(x for x in ("%s.%s" % (a, u["col"]["n"]), u["p"], u["q"]) if x)
        if o["k"] == "field":
            return 'F %s `sql:"%s"`' % (o["go"], lhs + (",@" + u["fn"] if u["fn"] else ""))
        if o["k"] == "between":
            hi = '_ gosql.Column `sql:"a.%s,y"`' % o["hicol"]["n"] if o["ascol"] else 'Hi %s `sql:"y"`' % o["hi"]["go"]
            return 'F struct {\nLo %s `sql:"x"`\n%s\n} `sql:"%s"`' % (o["lo"]["go"], hi, lhs)
        rhs = {"none": lambda: "", "column": lambda: "a." + o["col"]["n"], "literal": lambda: o["lit"]["text"]}[o["k"]]()
        return '_ gosql.Column `sql:"%s"`' % " ".join(x for x in (lhs, rhs) if x)

    def render(self):
        cl = self.u["clause"]
        rel = {"count": "Count int", "delete": "_ gosql.Relation", "update": "Rows *ORow"}.get(cl, "Rows []*ORow")
        if cl == "join":
            body = 'Join struct {\n%s\n}' % self.cond().replace("_ gosql.Column `sql:\"", "_ gosql.LeftJoin `sql:\"oj:j,")
        else:
            body = "Where struct {\n%s\n}" % self.cond()
        return 'type %s struct {\n%s `rel:"o:a"`\n%s\n}\n' % (self.name, rel, body)
