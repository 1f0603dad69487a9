#!/usr/bin/env python3
"""C07-C10: behaviours of spec/Read.tla and Write.tla replayed into generated methods."""
import collections, json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import gosqltool, relgen
import relrun

# family -> (module, config, constants)
FAMILY = {"C07": ("Read", "MCRead.cfg", None), "C08": ("Write", "MCWrite.cfg", "change"),
          "C09": ("Write", "MCWrite.cfg", "insert"), "C10": ("Write", "MCWrite.cfg", "options")}
ND = {"C07": (5000, 16000), "C08": (4500, 16000), "C09": (4500, 16000), "C10": (4500, 16000)}
NR = {"C07": (4, 6), "C08": (4, 6), "C09": (4, 6), "C10": (4, 6)}


def main_():
    prop = sys.argv[1]
    ck = Check(prop, "model_checking")
    mod, cfg, fam = FAMILY[prop]
    n = int(os.environ.get("ND", ND[prop][THOROUGH]))
    nr = NR[prop][THOROUGH]
    const = {"ND": "= %d" % n, "NR": "= %d" % nr, "Seed": "= %d" % SEED}
    if fam:
        const["Family"] = '= "%s"' % fam
    st = tlc(mod, cfg, const=const)
    descs, trs = relrun.parse(st)
    log("%d descriptions, %d behaviours" % (len(descs), len(trs)))
    pg = PG()
    relrun.databases(pg)
    tool = gosqltool.build()
    tot = collections.Counter()
    kinds, errs = collections.Counter(), collections.Counter()
    ids = sorted(descs)
    CH = 2000
    for at in range(0, len(ids), CH):
        part = {i: descs[i] for i in ids[at:at + CH]}
        binary, bad, decls = relrun.build(part, pg, tool, "rel%d" % at)
        for i, cls, text in bad:
            ck.violation("%s: %s" % (cls, text.strip().splitlines()[0][:300] if text.strip() else ""), {"query": decls.get(i), "output": text[-3000:]})
        if not binary:
            break
        lost = {i for i, _, _ in bad}
        ts = [t for t in trs if t["d"] in part and t["d"] not in lost]
        for t, o in zip(ts, relrun.replay(binary, pg, ts)):
            d = descs[t["d"]]
            tot["runs"] += 1
            tot["statements"] += len(o["Issued"] or [])
            kinds[d["op"] + ("/" + d["kind"] if d["op"] == "select" else "/" + d["by"] if "by" in d else "")] += 1
            if o["Err"]:
                errs[relrun.errclass(o["Err"])] += 1
            why = o["Panic"] and ("panic", o["Panic"]) or relrun.judge(d, t, o)
            if why:
                key = "probe: %s" % d["probe"] if "probe" in d and why[0] == "effect" else "%s: %s" % why
                ck.violation(key, {"why": why, "query": decls[t["d"]], "issued": o["Issued"], "behaviour": t, "got": {k: o[k] for k in ("Err", "Rows", "Given", "Count", "Yes", "DB")}})
        shutil.rmtree(os.path.dirname(binary))
    log("replayed %d" % tot["runs"])
    ck.cov = {"states": st["distinct"], "transitions": st["states"], "descriptions": len(descs), "traces_validated_against_impl": tot["runs"],
              "statements_executed": tot["statements"], "by_kind": dict(kinds), "database_errors_expected_and_seen": dict(errs),
              "samples": [{"description": descs[t["d"]], "args": t["args"], "want": t["want"]} for t in trs[:len(trs):max(1, len(trs) // 3)]][:3]}
    ck.assumptions = ["PostgreSQL 16 evaluates statements as documented", "tables of up to 6 rows over small value domains including NULL stand for all contents",
                      "descriptions are a seeded sample of the space generated by spec/RelGen.tla and spec/WriteGen.tla"]
    return ck.finish()


main(main_)
