#!/usr/bin/env python3
"""C16: runs of the real command with the flags and configuration files of spec/Config.tla."""
import collections, json, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import gosqltool, relrun

FLAG = {"wd": "wd", "r": "r", "f": "f", "rx": "rx", "o": "o", "db": "db", "qid": "qid", "tag": "fcktag", "base": "fckbase", "sep": "fcksep", "ctx": "with-ctx", "arg": "argtype"}
KEY = {"wd": "working_directory", "r": "recursive", "f": "input_files", "rx": "input_file_regexps", "o": "output_file_name_format", "db": "database_dsn",
       "qid": "quote_identifiers", "tag": "filter_column_key_tag", "base": "filter_column_key_base", "sep": "filter_column_key_separator",
       "ctx": "method_with_context", "arg": "method_argument_type", "name": "method_name", "conv": "filter_value_converters"}
BOOLS, LISTS = ("r", "qid", "base", "ctx"), ("f", "rx")
ARG = {"gosql": "github.com/frk/gosql.Conn", "ptr": "*vcfg/env.PtrConn", "ptrval": "*vcfg/env.ValConn", "other": "vcfg/env.IfConn", "self": "vcfg/pa.Conn",
       "emb": "vcfg/env.EmbConn", "twin": "*vcfg/dbconn.Conn", "missing": "vcfg/env.Nosuch", "notconn": "vcfg/env.NotConn", "nodots": "Conn", "nopkg": "vcfg/nosuch.Conn",
       "valptr": "vcfg/env.PtrConn", "ptriface": "*vcfg/env.IfConn", "hidden": "vcfg/env.hidden", "func": "vcfg/env.ConvNum", "near": "vcfg/env.NearConn"}
# how the parameter is spelled in the generated code
SPELL = {"gosql": "gosql.Conn", "ptr": "*env.PtrConn", "ptrval": "*env.ValConn", "other": "env.IfConn", "self": "pa.Conn", "emb": "env.EmbConn", "twin": "*conns.Conn"}
DIRS = [".", "pa", "pa/sub", "pb"]
SRC = '''package %s

import (
	"github.com/frk/gosql/filter"
	"vcfg/rec"
)

type Select%sRows struct {
	Rows []*rec.Row `rel:"t"`
}

type Filter%sRows struct {
	Rec *rec.Row `rel:"t"`
	filter.Constructor `filter:"v2"`
}
'''
METHODS = "".join("func (%%s) %s {%s}\n" % (m, r) for m, r in [
    ("Exec(query string, args ...interface{}) (_ sql.Result, _ error)", "return"),
    ("ExecContext(ctx context.Context, query string, args ...interface{}) (_ sql.Result, _ error)", "return"),
    ("Query(query string, args ...interface{}) (_ *sql.Rows, _ error)", "return"),
    ("QueryContext(ctx context.Context, query string, args ...interface{}) (_ *sql.Rows, _ error)", "return"),
    ("QueryRow(query string, args ...interface{}) (_ *sql.Row)", "return"),
    ("QueryRowContext(ctx context.Context, query string, args ...interface{}) (_ *sql.Row)", "return")])
HEAD = 'import (\n\t"context"\n\t"database/sql"\n)\n'
ENV = ("package env\n\n" + HEAD + '''
type Num int

func ConvNum(v interface{}) (interface{}, error) { return v, nil }

type NotConn struct{}
type EmbConn struct{ *sql.DB }
type IfConn interface {
	hidden
	Extra()
}
type hidden interface {
	Exec(query string, args ...interface{}) (sql.Result, error)
	ExecContext(ctx context.Context, query string, args ...interface{}) (sql.Result, error)
	Query(query string, args ...interface{}) (*sql.Rows, error)
	QueryContext(ctx context.Context, query string, args ...interface{}) (*sql.Rows, error)
	QueryRow(query string, args ...interface{}) *sql.Row
	QueryRowContext(ctx context.Context, query string, args ...interface{}) *sql.Row
}
type PtrConn struct{}
type ValConn struct{}
type NearConn struct{}
''' + METHODS.replace("%s", "*PtrConn") + METHODS.replace("%s", "ValConn") + METHODS.replace("%s", "NearConn").replace("_ *sql.Row)", "_ *sql.Rows)"))
FILES = {"env/env.go": ENV,
         "dbconn/x.go": "package conns\n\n" + HEAD + "type Conn struct{}\n" + METHODS.replace("%s", "*Conn"),
         "pa/conn.go": 'package pa\n\nimport "github.com/frk/gosql"\n\ntype Conn interface{ gosql.Conn }\n',
         "rec/rec.go": 'package rec\n\nimport "vcfg/env"\n\ntype Row struct {\n\tID int `sql:"id" json:"id" key:"k_id"`\n\tName string `sql:"name" json:"-" key:"-" _t1:"-"`\n'
                       '\tIn In `sql:">" json:"in" _t1:"t_in"`\n}\n\ntype In struct {\n\tNum env.Num `sql:"num" json:"num" key:"k_num" _t1:"t_num"`\n}\n'}


def pkgname(d):
    return {".": "vcfg", "pa/sub": "sub"}.get(d, d)


def put(root, name, text):
    p = os.path.join(root, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(text)


def snapshot(root):
    out = {}
    for d, _, fs in os.walk(root):
        for n in fs:
            p = os.path.join(d, n)
            out[os.path.relpath(p, root)] = open(p, errors="replace").read()
    return out


class Run:
    def __init__(self, t, base, pg):
        self.t, self.s, self.k = t, t["s"], t["k"]
        self.root = os.path.join(base, "run%04d" % self.k)
        self.proj = self.root + "/top/proj"
        self.pg = pg

    def db(self, v):
        return "" if v == "" else "postgres:///%s?sslmode=disable&host=%s&port=5432&user=postgres" % (v, self.pg.env["PGHOST"])

    def path(self, p, rel):
        p = os.path.normpath(os.path.join(self.proj, p))
        return os.path.relpath(p, self.cwd) if rel else p

    def value(self, s, v, rel=False):
        """The text of a flag's value."""
        return {"wd": lambda: v and self.path(v, rel), "f": lambda: os.path.relpath(self.path(v, False), self.path(self.t["want"].get("top", "."), False)) if self.k % 2 else self.path(v, False), "db": lambda: self.db(v), "arg": lambda: ARG[v]}.get(s, lambda: v)()

    def infile(self, s, v):
        if v[0] == "number":
            return 3
        if v[0] == "text":
            return "true"
        if s == "conv":
            return [{"type": "vcfg/env.Num", "func": "ConvNum" if v[0] == "nodot" else "vcfg/env.ConvNum"}]
        if s in LISTS:
            return [self.value(s, x) for x in v]
        if s in BOOLS:
            return v[0] == "true" if v[0] in ("true", "false") else v[0]
        return self.value(s, v[0])

    def lay(self):
        s = self.s
        for d in DIRS:
            for f in ("fa", "fb"):
                put(self.proj, "%s/%s.go" % (d, f), SRC % (pkgname(d), f.capitalize(), f.capitalize()))
        for n, text in FILES.items():
            put(self.proj, n, text)
        put(self.proj, "go.mod", "module vcfg\n\ngo 1.23.0\n\nrequire github.com/frk/gosql v0.0.0\n\nrequire (\n\tgithub.com/frk/fql v0.0.1\n\tgithub.com/lib/pq v1.10.2\n)\n\nreplace github.com/frk/gosql => %s\n" % REPO)
        shutil.copy(REPO + "/go.sum", self.proj + "/go.sum")
        elsewhere = self.root + "/elsewhere"
        os.makedirs(elsewhere + "/.git")
        put(elsewhere, ".gosql", '{"method_name": "Wrong", "output_file_name_format": "wrong_%s.go", "database_dsn": "nope"}')
        self.cwd = elsewhere if s["cwd"] == "elsewhere" else os.path.normpath(self.proj + "/" + s["cwd"])
        # the file
        conf = {KEY[n]: self.infile(n, v) for n, v in s["file"].items() if v}
        if s["nulls"]:
            conf.update({KEY[n]: None for n, v in s["file"].items() if not v})
        text = json.dumps(conf, indent=1)
        at = s["at"]
        if at == "broken":
            text = text[:-1]
        where = {"root": self.proj + "/.gosql", "broken": self.proj + "/.gosql", "rootjson": self.proj + "/.gosql.json", "explicit": self.root + "/conf/my settings.json",
                 "below": self.proj + "/pa/.gosql", "above": self.root + "/top/.gosql", "nogit": self.proj + "/.gosql"}.get(at)
        if where:
            put("/", where, text)
        if at != "nogit":
            os.makedirs(self.proj + "/.git")
        if at == "above":
            os.makedirs(self.root + "/top/.git")
        if s["decoy"]:
            put(self.proj, ".gosql", '{"method_name": "Wrong", "quote_identifiers": "x", "output_file_name_format": "wrong_%s.go"}')
        if s["dirs"]:
            for n in (".gosql", ".gosql.json"):
                if not os.path.exists(self.proj + "/" + n):
                    os.makedirs(self.proj + "/" + n)
        args = []
        rel = self.k % 2 == 0
        order = sorted(s["flags"], key=lambda n: (self.k * 7919 + len(n) * 31 + ord(n[0])) % 101)
        for n in order:
            for v in list(s["before"][n]) + list(s["flags"][n]):
                x, fl = self.value(n, v, rel), FLAG[n]
                if n in BOOLS:
                    args += ["-" + fl] if v == "true" and rel else ["-%s=%s" % (fl, x)]
                elif rel:
                    args += ["-" + fl, x]
                else:
                    args += ["--%s=%s" % (fl, x)]
        if at == "explicit":
            args += ["-config", os.path.relpath(where, self.cwd) if rel else where]
        if at == "missing":
            args += ["-config", self.root + "/conf/nosuch.json"]
        self.args = args

    def go(self, tool):
        self.lay()
        before = snapshot(self.root)
        p = run([tool, *self.args], cwd=self.cwd, check=False, envx=env(), timeout=300, what="gosql")
        after = snapshot(self.root)
        self.out = p.stderr[-1500:]
        if "goroutine " in p.stderr:
            return "crash"
        new = {n: x for n, x in after.items() if before.get(n) != x}
        if set(before) - set(after):
            return "removes files"
        self.texts = new
        w = self.t["want"]
        if not w["ok"]:
            if p.returncode == 0:
                return "an invalid configuration is accepted"
            if p.returncode != 2:
                return "exit status %d" % p.returncode
            return "refused after writing" if new else None
        if p.returncode != 0:
            return "a valid configuration is refused"
        want = {os.path.normpath("top/proj/%s/%s" % (f["dir"], f["name"])): f for f in w["files"]}
        if set(new) != set(want):
            return "other files"
        for n, f in want.items():
            got = facts(new[n], f["src"].capitalize(), pkgname(f["dir"]))
            exp = dict(w["facts"], keys=sorted(w["facts"]["keys"]), src=True, pkg=True)
            exp["arg"] = "Conn" if f["dir"] == "pa" and exp["arg"] == "self" else SPELL[exp["arg"]]
            if got != exp:
                return "settings not in effect: " + ", ".join(k for k in exp if got.get(k) != exp[k])
        if want:
            r = run(["go", "build", "./..."], cwd=self.proj, check=False, timeout=300)
            if r.returncode != 0:
                self.out = r.stderr[-1500:]
                return "the generated code does not compile"
        return None


def facts(text, name, pkg):
    m = re.search(r"^func \(\w+ \*Select%sRows\) (\w+)\((.*?)\) error \{\n(.*?)^\}" % name, text, re.M | re.S)
    k = re.search(r"^var _Filter%sRows_colmap\b.*?^\}" % name, text, re.M | re.S)
    if not m or not k:
        return {}
    params, body = m.group(2), m.group(3)
    ctx = re.match(r"\w+ context\.Context, ", params) is not None
    calls = re.findall(r"\bc\.(Query\w*|Exec\w*)\(", body)
    arg = re.search(r"(?:^|, )(\w+) (\S+)$", params)
    keys = re.findall(r'^\t"([^"]*)":', k.group(0), re.M)
    cols = re.findall(r"`(.*?)`", k.group(0))
    quoted = all(re.search('[ .(\t]"%s"' % n, body) for n in ("id", "num")) and all(n[0] == '"' for n in cols)
    plain = all(n[0] != '"' for n in cols)
    return {"method": m.group(1), "ctx": ctx and bool(calls) and all(c.endswith("Context") for c in calls) if ctx else any(c.endswith("Context") for c in calls),
            "arg": arg and arg.group(2), "quoted": True if quoted else False if plain else None, "coalesce": "COALESCE(" in body,
            "keys": sorted(keys), "conv": "env.ConvNum" in k.group(0), "src": True, "pkg": text.find("\npackage %s\n" % pkg) >= 0}


def main_():
    ck = Check("C16", "model_checking")
    n = int(os.environ.get("NC", "1600" if THOROUGH else "220"))
    st = tlc("Config", "MCConfig.cfg", const={"N": "= %d" % n, "Seed": "= %d" % SEED})
    trs = [json.loads(t) for t in traces(st)]
    trs.sort(key=lambda t: t["k"])
    if os.environ.get("ONLY"):
        trs = [t for t in trs if str(t["k"]) in os.environ["ONLY"].split(",")]
    pg = PG()
    for db, ddl in (("db1", "not null"), ("db2", "")):
        pg.psql("create database %s" % db)
        pg.psql("create table t (id int primary key, name text %s, num int %s)" % (ddl, ddl), db=db)
    tool = gosqltool.build()
    base = scratch() + "/runs"
    os.makedirs(base)
    log("%d situations" % len(trs))
    tot = collections.Counter()
    runs = [Run(t, base, pg) for t in trs]

    def one(r):
        why = r.go(tool)
        if os.environ.get("VERIF_KEEP") != "1" or not why:
            shutil.rmtree(r.root, ignore_errors=True)
        return why
    for r, why in zip(runs, pool([lambda r=r: one(r) for r in runs])):
        tot[("applied" if r.t["want"]["ok"] else "refused") + "/" + r.s["at"]] += 1
        if why:
            ck.violation(why, {"arguments": r.args, "file": r.s["file"], "situation": r.s, "k": r.k, "want": r.t["want"], "output": r.out, "generated": {k: v[:3000] for k, v in getattr(r, "texts", {}).items()}})
    log("ran %s" % dict(tot))
    ck.cov = {"states": st["distinct"], "transitions": st["states"], "traces_validated_against_impl": len(trs), "by_outcome_and_place": dict(tot),
              "samples": [{"arguments": r.args, "file": {k: v for k, v in r.s["file"].items() if v}, "at": r.s["at"], "want": r.t["want"]} for r in runs[3:len(runs):max(1, len(runs) // 3)]][:3]}
    ck.assumptions = ["a seeded sample of flag and file combinations of spec/Config.tla; every setting over a handful of valid and invalid values",
                      "an unreachable database is one that does not exist on a reachable server"]
    return ck.finish()


main(main_)
