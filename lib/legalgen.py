"""Renders the descriptions of spec/Legal.tla as Go."""
import re

DDL = '''create type lenum as enum ('p', 'q');
create table lt (id int primary key, name text not null, n int, b bool not null default false, d int not null default 5, e text default 'x', f bool, arr int[], tsv tsvector not null default '',
  constraint lt_name_key unique (name), constraint lt_check check (d > 0 or n > 0), constraint lt_defer unique (f) deferrable);
create unique index lt_n_idx on lt (n);
create unique index lt_de_idx on lt (d, e);
create unique index lt_low_idx on lt (lower(name));
create unique index lt_part_idx on lt (e) where d > 3;
create index lt_b_idx on lt (b);
create index lt_low2_idx on lt (lower(e)) where n > 1;
create table lu (uid int primary key, id int, name text, flag bool not null default true, arr int[]);
create schema other; create table other.lu (z int);
'''
ENV = '''package p

type Res struct {
	ID   int    `sql:"id"`
	Name string `sql:"name"`
}
type JRes struct {
	ID   int    `sql:"id"`
	Name string `sql:"j.name"`
}
type BadRes struct {
	X int `sql:"nosuch"`
}
type Bad2Res struct {
	ID chan int `sql:"id"`
}
type Handler struct{}

func (*Handler) HandleError(err error) error { return err }

type InfoHandler struct{}

func (*InfoHandler) HandleErrorInfo(info *gosql.ErrorInfo) error { return info.Error }
'''


def cased(s, n):
    """The n-th way to write a name that is compared without regard to case."""
    return (s, s.lower(), s.upper(), *(s[:k].lower() + s[k:].upper() for k in range(1, len(s))))[n]


class R:
    """One description."""

    def __init__(self, i, d):
        self.i, self.d = i, d
        tag = d["tag"]
        m = re.search(r":(\w+)$", tag)
        self.main = m.group(1) if m else re.sub(r"^\w+\.", "", tag)
        if not re.match(r"^[A-Za-z_]\w*$", self.main):
            self.main = "a"
        self.rec = "L%dRec" % i
        self.used = {}

    @property
    def name(self):
        k = {"count": "Select", "exists": "Select", "notexists": "Select"}.get(self.d["kind"], self.d["kind"].capitalize())
        return "%sL%06d" % (k, self.i)

    def ref(self, r):
        if r["bad"]:
            return r["c"]
        q = {"main": self.main}.get(r["q"], r["q"])
        return q + "." + r["c"] if q else r["c"]

    def op(self, o):
        return " " + o if o else ""

    def rhs(self, r):
        return "" if r["k"] == "none" else self.ref(r["ref"]) if r["k"] == "ref" else r["text"]

    def field(self, name, typ, tag):
        """A field; a name used before is spelled in lower case the second time, and then left to be a directive of its own."""
        return "%s %s%s" % (name, typ, " `%s`" % tag if tag else "")

    def conds(self, items, ind):
        out = []
        for n, i in enumerate(items):
            b = ' bool:"%s"' % i["bool"] if i.get("bool") else ""
            F = "F%d" % n
            if i["k"] == "field":
                q = " ".join(x for x in (self.ref(i["ref"]), i["op"], i["qua"], i["tail"]) if x)
                if i["fn"]:
                    q += ",@" + i["fn"]
                out.append('%s %s `sql:"%s"%s`' % (F, i["go"], q, b))
            elif i["k"] == "col":
                q = " ".join(x for x in (self.ref(i["ref"]), i["op"], i["qua"], self.rhs(i["rhs"])) if x)
                out.append('_ gosql.Column `sql:"%s"%s`' % (q, b))
            elif i["k"] == "btw":
                q = self.ref(i["ref"]) + " " + i["op"]
                bs = []
                for side, mark in (("lo", "x"), ("hi", "y")):
                    s = i[side]
                    m = "" if i["shape"] == "untagged" and side == "hi" else "x" if i["shape"] == "twox" else mark
                    if s["k"] == "field":
                        bs.append('%s %s `sql:"%s"`' % (side.capitalize(), s["go"], m))
                    else:
                        bs.append('_ gosql.Column `sql:"%s,%s"`' % (self.ref(s["ref"]), m))
                if i["shape"] == "one":
                    bs = bs[:1]
                if i["shape"] == "three":
                    bs.append('Z int `sql:"z"`')
                t = "int" if i["shape"] == "int" else "struct {\n%s\n}" % "\n".join(bs)
                out.append('%s %s `sql:"%s"%s`' % (F, t, q, b))
            elif i["k"] == "nest":
                t = "int" if i["shape"] == "int" else "struct {\n%s\n}" % "\n".join(self.conds(i["items"], ind + 1))
                out.append('%s %s `sql:">"%s`' % (F, t, b))
            elif i["k"] == "alien":
                out.append('_ gosql.%s `sql:"id"`' % i["name"])
            elif i["k"] == "blank":
                out.append('_ int `sql:"id"`')
            else:
                out.append("%s int" % F)
        return out

    def list(self, l):
        return ",".join(map(self.ref, l))

    def joins(self, c):
        out = []
        for i in c["items"]:
            if i["k"] in ("alien", "named"):
                out.append('%s gosql.%s `sql:"id"`' % ("_" if i["k"] == "alien" else "N%d" % len(out), i["name"]))
                continue
            a = self.main if i["as"] == "main" else i["as"]
            tag = i["tag"] + (":" + a if a else "")
            if i["k"] == "rel":
                out.append('_ gosql.Relation `sql:"%s"`' % tag)
                continue
            for n, x in enumerate(i["conds"]):
                tag += ("," if n == 0 else i["seps"][0]) + " ".join(y for y in (self.ref(x["ref"]), x["op"], x["qua"], self.rhs(x["rhs"])) if y)
            out.append('_ gosql.%s `sql:"%s"`' % (i["dir"], tag))
        return out

    def clause(self, c):
        cl = c["cl"]
        n = self.used.get(cl, 0)
        self.used[cl] = n + 1
        # the fields of a struct differ in name: a second Where is a "where"
        nm = lambda s: cased(s, n)
        lst = lambda: '`sql:"%s"`' % self.list(c["list"])
        struct = lambda items: "int" if c["form"] == "int" else "struct {\n%s\n}" % "\n".join(items)
        if cl == "where":
            return "%s %s" % (nm("Where"), struct(self.conds(c["items"], 0)))
        if cl == "join":
            k = self.used.get(c["name"], 0)
            self.used[c["name"]] = k + 1
            return "%s %s" % (cased(c["name"], k), struct(self.joins(c)))
        if cl == "orderby":
            items = ",".join(("-" if i["desc"] else "") + self.ref(i["ref"]) + (":" + i["nulls"] if i["nulls"] else "") for i in c["items"])
            return '_ gosql.OrderBy `sql:"%s"`' % items
        if cl in ("limit", "offset"):
            t = ' `sql:"%s"`' % c["val"] if c["val"] else ""
            return ("_ gosql.%s" % cl.capitalize() if c["form"] == "dir" else "%s %s" % (nm(cl.capitalize()), c["form"])) + t
        if cl in ("optional", "return", "force", "default"):
            return "_ gosql.%s %s" % (cl.capitalize(), lst())
        if cl == "result":
            return "%s %s" % (nm("Result"), c["ty"])
        if cl == "rowsaffected":
            return "%s %s" % (nm("RowsAffected"), c["ty"])
        if cl == "override":
            return '_ gosql.Override `sql:"%s"`' % c["val"]
        if cl == "onconflict":
            items = []
            for i in c["items"]:
                t = {"column": lambda: self.list(i["list"]), "update": lambda: self.list(i["list"]), "index": lambda: i["name"], "constraint": lambda: i["name"],
                     "ignore": lambda: "", "alien": lambda: "id", "named": lambda: "id"}[i["k"]]()
                items.append('%s gosql.%s `sql:"%s"`' % ("N%d" % len(items) if i["k"] == "named" else "_", i["name"] if i["k"] in ("alien", "named") else i["k"].capitalize(), t))
            return "%s %s" % (nm("OnConflict"), struct(items))
        if cl == "handler":
            return "H%d *%s" % (n, "InfoHandler" if c["info"] else "Handler")
        if cl == "context":
            return "Ctx%d context.Context" % n
        if cl == "alien":
            return '_ gosql.%s `sql:"id"`' % c["name"]
        if cl == "named":
            return 'N%d gosql.%s `sql:"id"`' % (n, c["name"])
        if cl == "reldir":
            return "_ gosql.Relation"
        if cl == "rel2":
            return 'Rel2N%d *Res `rel:"lu:r2"`' % n
        if cl == "constructor":
            return ("filter.Constructor" if n == 0 else "C%d filter.Constructor" % n) + (' `filter:"v2"`' if c["v2"] else "")
        if cl == "textsearch":
            return '_ gosql.TextSearch `sql:"%s"`' % self.ref(c["ref"])
        if cl == "filter":
            return "Filter%s gosql.Filter" % ("" if n == 0 else n)
        if cl == "all":
            return "_ gosql.All"
        if cl == "plain":
            return "Extra%d %s" % (n, c["ty"])
        raise KeyError(cl)

    def recfields(self):
        out = []
        for n, f in enumerate(self.d["rec"]):
            o = {"": "", "coalesce": ",coalesce"}.get(f["opt"], "," + f["opt"])
            out.append('R%d %s `sql:"%s%s" json:"r%d"`' % (n, f["go"], self.ref(f["ref"]), o, n))
        return out

    def render(self):
        self.used = {}
        d = self.d
        rec = self.rec
        anon = "struct {\n%s\n}" % "\n".join(self.recfields())
        if d["kind"] in ("count", "exists", "notexists"):
            rel = {"count": "Count " + d["cnt"], "exists": "Exists bool", "notexists": "NotExists bool"}[d["kind"]]
            if d["wrap"] not in ("ptr", "val"):
                rel = {"count": "Count ", "exists": "Exists ", "notexists": "NotExists "}[d["kind"]] + self.wrap(anon)
        elif d["wrap"] == "directive":
            rel = "_ gosql.Relation"
        else:
            rel = "Rows " + self.wrap(anon)
        fields = [rel + ' `rel:"%s"`' % d["tag"]] + [self.clause(c) for c in d["clauses"]]
        text = "type %s struct {\n%s\n}\n" % (self.name, "\n".join(fields))
        if rec in text or rec + "It" in text:
            text = "type %s %s\n" % (rec, anon) + text
        if rec + "It" in text:
            text = "type %sIt interface {\nNext(*%s) error%s\n}\n" % (rec, rec, "\nMore()" if d["wrap"] == "badiface" else "") + text
        return text

    def wrap(self, anon):
        r = self.rec
        return {"ptr": "*" + r, "val": r, "slice": "[]" + r, "ptrslice": "[]*" + r, "array": "[2]*" + r, "func": "func(*%s) error" % r, "iface": r + "It", "anon": anon,
                "int": "int", "map": "map[string]" + r, "ptranon": "*" + anon, "sliceanon": "[]" + anon, "badfunc": "func(%s)" % r, "badiface": r + "It", "chan": "chan " + r,
                "ptrptr": "**" + r, "directive": "gosql.Relation"}[self.d["wrap"]]


def gofile(texts):
    body = "\n".join(texts)
    imps = [v for k, v in (("gosql.", "github.com/frk/gosql"), ("filter.", "github.com/frk/gosql/filter"), ("context.", "context"), ("fmt.", "fmt"), ("time.", "time"), ("net.", "net"), ("sql.", "database/sql")) if re.search(r"(?<![\w.])" + re.escape(k), body)]
    return "package p\n\n" + ("import (\n%s\n)\n" % "\n".join('\t"%s"' % i for i in imps) if imps else "") + "\n" + body
