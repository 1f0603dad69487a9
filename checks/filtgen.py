#!/usr/bin/env python3
"""C20: filter types of spec/FilterGen.tla generated, compiled and used."""
import collections, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import gosqltool, filtgen


def main_():
    ck = Check("C20", "model_checking")
    nd = int(os.environ.get("ND", "160" if THOROUGH else "45"))
    np = int(os.environ.get("NP", "16" if THOROUGH else "9"))
    st = tlc("FilterGen", "MCFilterGen.cfg", const={"ND": "= %d" % nd, "NP": "= %d" % np, "NC": "= %d" % (6 if THOROUGH else 3), "Seed": "= %d" % SEED})
    descs, settings, trs = {}, {}, []
    for l in st["out"].splitlines():
        if l.startswith('"DESC '):
            o = json.loads(json.loads(l)[5:])
            descs[o["i"]] = o["d"]
        elif l.startswith('"SET '):
            o = json.loads(json.loads(l)[4:])
            settings[o["p"]] = o["s"]
        elif l.startswith('"TRACE '):
            trs.append(json.loads(json.loads(l)[6:]))
    st["out"] = ""
    trs.sort(key=lambda t: (t["d"], json.dumps(t, sort_keys=True)))
    methods = collections.defaultdict(dict)
    for t in trs:
        if t["steps"][0]["a"] in ("call", "method"):
            methods[t["d"]][t["steps"][0]["key"]] = t["steps"][0]["go"]
    log("%d descriptions, %d behaviours" % (len(descs), len(trs)))
    pg = PG()
    mod = scratch_module(VERIF + "/harness/filtgen", "fgddl")
    os.makedirs(mod + "/all")
    open(mod + "/all/all.go", "w").write("package all\n")
    go_build(mod, mod + "/ddl")
    pg.psql("create database fg")
    pg.psql(run([mod + "/ddl", "ddl"]).stdout, db="fg")
    tool = gosqltool.build()
    binary, bad, decls = filtgen.build(descs, settings, methods, pg, tool)
    for i, cls, text in bad:
        ck.violation("%s: %s" % (cls, text.strip().splitlines()[0][:300] if text.strip() else ""),
                     {"filter": decls.get(i), "settings": i and settings[descs[i]["pack"]], "output": text[-3000:]})
    tot = collections.Counter()
    if binary:
        lost = {i for i, _, _ in bad}
        trs = [t for t in trs if t["d"] not in lost]
        log("built")
        p = run([binary], stdin="\n".join(json.dumps({"d": t["d"], "steps": t["steps"]}) for t in trs) + "\n", timeout=800, envx=env(**pg.env), what="replay")
        for t, l in zip(trs, p.stdout.splitlines()):
            o = json.loads(l)
            a = t["steps"][0]["a"]
            why = judge(t, o)
            if o["Err"] == "n/a":
                continue
            tot[a + ("/refused" if t["err"] else "")] += 1
            if why:
                ck.violation("probe: %s" % descs[t["d"]]["probe"] if "probe" in descs[t["d"]] else "%s: %s" % (a, why[:80]), {"why": why, "filter": decls[t["d"]], "settings": settings[descs[t["d"]]["pack"]], "behaviour": t, "got": o})
    log("replayed %s" % dict(tot))
    ck.cov = {"states": st["distinct"], "transitions": st["states"], "descriptions": len(descs), "traces_validated_against_impl": sum(tot.values()),
              "by_step": dict(tot), "settings": list(settings.values()), "typed_methods": sum(len(m) for m in methods.values()),
              "samples": [{"filter": decls[t["d"]], "behaviour": {k: t[k] for k in ("steps", "rows", "err")}} for t in trs[5:len(trs):max(1, len(trs) // 3)]][:3]}
    ck.assumptions = ["descriptions are a seeded sample of the space generated by spec/FilterGen.tla",
                      "keys are observed through strict lookups of expected keys and of keys other settings would give"]
    return ck.finish()


def judge(t, o):
    if o["Err"] == "n/a":
        return None
    if o["Panic"]:
        return "panic: " + o["Panic"]
    if t["err"]:
        return None if o["Err"] == t["err"] else "key %s is accepted" % t["steps"][0]["key"]
    if o["Err"]:
        return "fails: " + o["Err"]
    if t["steps"][0]["a"] in ("nomethod", "method"):
        return None
    if (o["Rows"] or []) != t["rows"]:
        return "other rows"
    return None


main(main_)
