#!/usr/bin/env python3
"""C11: descriptions of spec/Statement.tla generated, compiled and executed; conditions of spec/Operands.tla generated and taken by the database."""
import collections, json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import gosqltool, legalrun, opgen, probing, relrun, stmtgen


def main_():
    ck = Check("C11", "model_checking")
    nd = int(os.environ.get("ND", "900" if THOROUGH else "260"))
    np = int(os.environ.get("NP", "18" if THOROUGH else "12"))
    st = tlc("Statement", "MCStatement.cfg", const={"ND": "= %d" % nd, "NP": "= %d" % np, "NR": "= 2", "Seed": "= %d" % SEED})
    settings = {}
    for l in st["out"].splitlines():
        if l.startswith('"SET '):
            o = json.loads(json.loads(l)[4:])
            settings[o["p"]] = o["s"]
    descs, trs = relrun.parse(st)
    for t in trs:
        t["recs"] = t["recs"] * t.pop("rep", 1)
    log("%d descriptions, %d behaviours" % (len(descs), len(trs)))
    pg = PG()
    relrun.databases(pg)
    tool = gosqltool.build()
    tot, kinds, deco = collections.Counter(), collections.Counter(), collections.Counter()
    packs = sorted(settings)
    for at in range(0, len(packs), 6):
        ps = packs[at:at + 6]
        part = {i: d for i, d in descs.items() if d["pack"] in ps}
        binary, bad, decls = stmtgen.build(part, {p: settings[p] for p in ps}, pg, tool, "stmt%d" % at)
        for i, cls, text in bad:
            ck.violation("%s: %s" % (cls, text.strip().splitlines()[0][:300] if text.strip() else ""),
                         {"query": decls.get(i), "settings": i and settings[descs[i]["pack"]], "deco": i and descs[i]["deco"], "output": text[-3000:]})
        if not binary:
            break
        lost = {i for i, _, _ in bad}
        ts = [t for t in trs if t["d"] in part and t["d"] not in lost]
        for t, o in zip(ts, relrun.replay(binary, pg, ts)):
            d = descs[t["d"]]
            tot["runs"] += 1
            kinds[d["op"] + ("/" + d["kind"] if d["op"] == "select" else "/" + d["by"] if "by" in d else "")] += 1
            deco["%(eh)s" % d["deco"]] += 1
            why = judge(d, t, o)
            if why:
                t["recs"] = t["recs"][:5]
                ck.violation("probe: %s" % d["probe"] if "probe" in d else "%s: %s" % why, {"why": why, "query": decls[t["d"]], "settings": settings[d["pack"]], "issued": o["Issued"], "behaviour": t, "error": o["Err"]})
            for s in o["Issued"] or []:
                tot["statements"] += 1
                tot["arguments"] += s["Args"]
        shutil.rmtree(os.path.dirname(binary))
    log("replayed %d" % tot["runs"])
    uses = operands(ck, tool, pg)
    ck.cov = {"states": st["distinct"], "transitions": st["states"], "descriptions": len(descs), "traces_validated_against_impl": tot["runs"],
              "statements_executed": tot["statements"], "arguments_matched": tot["arguments"], "conditions": uses, "by_kind": dict(kinds), "by_error_handler": dict(deco),
              "settings": [settings[p] for p in packs],
              "samples": [{"description": descs[t["d"]], "args": t["args"], "want": t["want"]} for t in trs[:len(trs):max(1, len(trs) // 3)]][:3]}
    ck.assumptions = ["PostgreSQL 16 stands for the database a description is checked against",
                      "descriptions are a seeded sample of the space generated by spec/Statement.tla"]
    return ck.finish()


def operands(ck, tool, pg):
    bin = probing.build()
    share = int(os.environ.get("SHARE", "600" if THOROUGH else "40"))
    if bin is None:
        share = min(share, 4)
    pg.psql("create database vl")
    n, tally, cols = collections.Counter(), collections.Counter(), False
    for part in ("fields", "columns", "literals"):
        for lot in range(0, share, 150):
            st = tlc("Operands", "MCOperands.cfg", const={"Part": '= "%s"' % part, "From": "= %d" % lot, "Share": "= %d" % min(share, lot + 150), "Seed": "= %d" % SEED})
            if not cols:
                pg.psql(opgen.ddl([json.loads(x) for x in traces(st, "COL")]), db="vl")
                cols = True
            rs = {}
            for t in traces(st):
                t = json.loads(t)
                r = opgen.Use(t["i"], t["u"])
                r.want, r.by = t["v"], part
                rs[r.name] = r
            tl = collections.Counter()
            got, ok, stmts = legalrun.verdicts(ck, tool, bin, pg, "op%s%d" % (part, lot), rs, tl)
            tally.update({"%s %s/%s" % ((part,) + k): v for k, v in tl.items()})
            n["states"] += st["distinct"]
            n["accepted"] += ok
            n["statements"] += stmts
    log("conditions %s %s" % (dict(n), dict(tally)))
    return dict(n, model_tool=dict(tally))


def judge(d, t, o):
    if o["Panic"]:
        return "panic", o["Panic"]
    if relrun.errclass(o["Err"]) == "other" and t["want"]["args"] <= 65535:
        return "statement", o["Err"]
    if "probe" in d and not t["recs"] and d["op"] != "delete" and not o["Issued"] and not o["Err"]:
        return None   # nothing to be done, and nothing done
    if t["want"]["args"] > 65535 and o["Err"]:
        return None   # refused
    if len(o["Issued"] or []) != 1:
        return "effect", "%d statements issued" % len(o["Issued"] or [])
    s = o["Issued"][0]
    if s["Args"] != t["want"]["args"]:
        return "arguments", "%d arguments passed, want %d" % (s["Args"], t["want"]["args"])
    if s["Marks"] != list(range(1, s["Args"] + 1)):
        return "placeholders", "%s for %d arguments" % (s["Marks"], s["Args"])
    return None


main(main_)
