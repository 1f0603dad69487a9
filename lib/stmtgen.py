"""Decorated descriptions of Statement.tla spread over packages with their own settings."""
import os, re, shutil
from vlib import *
import gosqltool, relgen, relrun

# where record types can live: package name, import path, name in the source file
PLACES = {"data": ("data", "vrel/recs/data"), "twin": ("data", "vrel/alt/data"), "gosql": ("gosql", "vrel/recs/gosql"),
          "pgsql": ("pgsql", "vrel/recs/pgsql"), "v": ("v", "vrel/recs/v"), "strconv": ("strconv", "vrel/recs/strconv")}
LOCAL = {"data": "data", "twin": "twin", "gosql": "xgosql", "pgsql": "xpgsql", "v": "xv", "strconv": "xstrconv"}
ARG = {"gosql": (None, "x.C"), "other": ("vrel/env.Conn", "x.C"), "ptr": ("*vrel/env.DB", "&env.DB{Conn: x.C}"),
       "own": ("vrel/p%d.Own", "x.C"), "namesake": ("vrel/recs/gosql.Conn", "x.C"), "odd": ("vrel/go-conn.Conn", "x.C")}
EH = {"field": "OnErr env.EH", "embed": "env.EH", "iface": "OnErr gosql.ErrorHandler", "info": "OnErr env.EIH",
      "infoiface": "gosql.ErrorInfoHandler", "infoembed": "*env.EIH"}
EHSET = {"iface": "q.OnErr = env.EH{}", "infoiface": "q.ErrorInfoHandler = env.EIH{}", "infoembed": "q.EIH = &env.EIH{}"}


def decorate(i, d, settings):
    name, decls, reg = relrun.RENDER[d["op"]](i, d)
    deco, s = d["deco"], settings[d["pack"]]
    outside = ""
    if deco["rec"] != "own":
        # record declarations move to another package
        keep, cur, moved, depth = [], [], set(), 0
        for l in decls.splitlines():
            m = re.match(r"type (\w+) ", l)
            if m:
                cur = [m.group(1), []]
            cur[1].append(l)
            depth += l.count("{") - l.count("}")
            if depth == 0:
                if re.match(r"Re[cs]", cur[0]):
                    outside += "\n".join(cur[1]) + "\n"
                    moved.add(cur[0])
                else:
                    keep += cur[1]
        decls = "\n".join(keep) + "\n"
        fix = lambda t: re.sub(r"(?<![\w.])(Re[cs]\w+)\b", lambda m: LOCAL[deco["rec"]] + "." + m.group(1) if m.group(1) in moved else m.group(1), t)
        decls, reg = fix(decls), fix(reg)
    extra = []
    if deco["eh"] != "none":
        extra.append(EH[deco["eh"]])
        if deco["eh"] in EHSET:
            reg = reg.replace("q := new(%s)" % name, "q := new(%s)\n\t\t%s" % (name, EHSET[deco["eh"]]))
    if deco["ctxf"]:
        extra.append("Ctx context.Context" if i % 2 else "context.Context")
        reg = reg.replace("q := new(%s)" % name, "q := new(%s)\n\t\tq.%s = context.Background()" % (name, "Ctx" if i % 2 else "Context"))
    if extra:
        head = "type %s struct {\n" % name
        assert head in decls
        if i % 3:
            decls = decls.replace(head, head + "\n".join(extra) + "\n")
        else:
            decls = decls.rstrip()[:-1] + "\n".join(extra) + "\n}\n"
    reg = reg.replace("q.Exec(x.C)", "q.Exec(%s%s)" % ("context.Background(), " if s["ctx"] else "", ARG[s["arg"]][1]))
    return name, decls, reg, outside


def imports(text):
    """The import block a source file needs."""
    out = ['"context"', '"database/sql"', '"github.com/frk/gosql"', '"vrel/env"']
    use = ["var _ context.Context", "var _ sql.NullBool", "var _ gosql.Query", "var _ env.Row"]
    for p, (n, path) in PLACES.items():
        if LOCAL[p] + "." in text:
            out.append('%s "%s"' % (LOCAL[p], path))
            use.append("var _ %s.Here" % LOCAL[p])
    return "import (\n%s\n)\n%s\n" % ("\n".join(out), "\n".join(use))


def build(descs, settings, pg, tool, name="stmt"):
    """(binary, [(id, class, output)], decls)"""
    mod = scratch_module(VERIF + "/harness/rel", name)
    R = {i: decorate(i, d, settings) for i, d in descs.items()}
    byname = {r[0]: i for i, r in R.items()}
    decls = {i: r[1] + ("// in package %s\n%s" % (descs[i]["deco"]["rec"], r[3]) if r[3] else "") for i, r in R.items()}
    ids, bad = sorted(descs), []
    packs = sorted(settings)
    for attempt in range(int(os.environ.get("REL_TRIES", "6"))):
        for d in os.listdir(mod):
            if d not in ("env", "main.go", "go.mod", "go.sum"):
                shutil.rmtree(os.path.join(mod, d)) if os.path.isdir(os.path.join(mod, d)) else os.remove(os.path.join(mod, d))
        files = {}
        for p, (n, path) in PLACES.items():
            body = "".join(R[i][3] for i in ids if descs[i]["deco"]["rec"] == p)
            files[path[5:] + "/r.go"] = "package %s\nimport (\n\"database/sql\"\n\"vrel/env\"\n)\nvar _ sql.NullBool\nvar _ env.Row\ntype Here int\n%s" % (n, body)
        files["recs/gosql/c.go"] = "package gosql\nimport real \"github.com/frk/gosql\"\ntype Conn interface { real.Conn }\n"
        files["go-conn/c.go"] = "package conn\nimport \"github.com/frk/gosql\"\ntype Conn interface { gosql.Conn }\n"
        agg = []
        for p in packs:
            mine = [i for i in ids if descs[i]["pack"] == p]
            for f in range(0, len(mine), 40):
                body = "\n".join(R[i][1] for i in mine[f:f + 40])
                files["p%d/q%03d.go" % (p, f // 40)] = "package p%d\n%s%s" % (p, imports(body), body)
            g = relgen.glue().replace("package q\n\nimport \"vrel/env\"\n", "") + "".join(R[i][2] for i in mine)
            files["p%d/glue.go" % p] = "package p%d\n%s%s" % (p, imports(g), g)
            # the method's argument type can be one of the target package's own
            files["p%d/own.go" % p] = "package p%d\nimport \"github.com/frk/gosql\"\ntype Own interface { gosql.Conn }\n" % p
            agg.append(p)
        files["q/q.go"] = "package q\nimport (\n\"vrel/env\"\n%s\n)\nvar Runs = map[int]func(*env.Ctx){}\nfunc init() {\n%s\n}\n" % (
            "\n".join('"vrel/p%d"' % p for p in agg), "\n".join("for i, f := range p%d.Runs { Runs[i] = f }" % p for p in agg))
        for f, t in files.items():
            os.makedirs(os.path.dirname(mod + "/" + f), exist_ok=True)
            open(mod + "/" + f, "w").write(t)
        hits = set()

        def gen(p):
            s = settings[p]
            args = ["-with-ctx"] if s["ctx"] else []
            if s["qid"]:
                args.append("-qid")
            if ARG[s["arg"]][0]:
                a = ARG[s["arg"]][0]
                args += ["-argtype", a % p if "%d" in a else a]
            if s["out"]:
                args += ["-o", s["out"]]
            return gosqltool.generate(tool, mod + "/p%d" % p, pg, db="rel0", args=args)
        fail = None
        for r in pool([lambda p=p: gen(p) for p in packs]):
            if r.returncode != 0:
                cls, hit = relrun.blame("refused", r.stderr, mod, byname)
                hits |= {(i, cls, t) for i, t in hit}
                fail = (cls, r.stderr)
        if not fail:
            p = run(["go", "build", "-gcflags=-e", "-o", mod + "/rel", "."], cwd=mod, check=False, timeout=800)
            if p.returncode == 0:
                return mod + "/rel", bad, decls
            cls, hit = relrun.blame("does not compile", p.stderr, mod, byname)
            hits |= {(i, cls, t) for i, t in hit}
            fail = (cls, p.stderr)
        if not hits:
            return None, bad + [(None,) + fail], decls
        for i, cls, t in sorted(hits, key=str):
            if i in ids:
                ids.remove(i)
                bad.append((i, cls, t))
    return None, bad, decls
