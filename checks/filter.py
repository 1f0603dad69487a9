#!/usr/bin/env python3
"""C01-C04: behaviours of spec/Filter.tla and spec/FilterText.tla replayed into package filter."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *

Q, T = "quick", "thorough"
# (module, cfg, simulate: traces per worker or 0, constants, execute on the database)
PLAN = {
    "C01": {Q: [("MCFilter", "MCFilterTree.cfg", 0, {}), ("MCFilter", "MCFilterPairs.cfg", 0, {}),
                ("MCFilter", "MCFilterPairs2.cfg", 0, {}),
                ("MCFilter", "MCFilterSim.cfg", 3000, {})],
            T: [("MCFilter", "MCFilterTree.cfg", 0, {"MaxLen": "= 5"}), ("MCFilter", "MCFilterPairs.cfg", 0, {}),
                ("MCFilter", "MCFilterPairs2.cfg", 0, {}),
                ("MCFilter", "MCFilterSim.cfg", 15000, {}), ("MCFilter", "MCFilterSim.cfg", 5000, {"MaxLen": "= 24", "MaxDepth": "= 5"})]},
    "C02": {Q: [("MCFilter", "MCFilterPaging.cfg", 0, {"MaxLen": "= 3"}), ("MCFilter", "MCFilterPagingSim.cfg", 2000, {})],
            T: [("MCFilter", "MCFilterPaging.cfg", 0, {}), ("MCFilter", "MCFilterPagingSim.cfg", 20000, {})]},
    "C03": {Q: [("MCFilter", "MCFilterPairs.cfg", 0, {"Positions": "<- AllPositions"}),
                ("MCFilter", "MCFilterTree.cfg", 0, {}), ("MCFilter", "MCFilterSim.cfg", 3000, {})],
            T: [("MCFilter", "MCFilterPairs.cfg", 0, {"Positions": "<- AllPositions"}),
                ("MCFilter", "MCFilterTree.cfg", 0, {"MaxLen": "= 5"}), ("MCFilter", "MCFilterSim.cfg", 20000, {"MaxLen": "= 20", "MaxDepth": "= 4"})]},
    "C04": {Q: [("MCFilterText", "MCFilterTextTree.cfg", 0, {}), ("MCFilterText", "MCFilterTextRules.cfg", 0, {"MaxSort": "= 1"}),
                ("MCFilterText", "MCFilterTextSim.cfg", 1000, {})],
            T: [("MCFilterText", "MCFilterTextTree.cfg", 0, {"MaxTok": "= 6"}), ("MCFilterText", "MCFilterTextRules.cfg", 0, {"MaxSort": "= 2"}),
                ("MCFilterText", "MCFilterTextSim.cfg", 10000, {})]},
}
# what a disagreement of each class breaks
BREAKS = {
    "C01": ("rows", "panic"),
    "C02": ("paging", "rows", "panic"),
    "C03": ("args", "panic"),
    "C04": ("text", "rows", "paging", "args", "panic"),
}


def main_():
    prop = sys.argv[1]
    ck = Check(prop, "model_checking")
    drv = go_build(scratch_module(VERIF + "/harness/filter", "drv"), scratch() + "/filterdrv")
    pg = PG()
    tot = {"traces": 0, "renders": 0, "queries": 0, "nontrivial": 0}
    states = distinct = 0
    samples, seen, runs = [], set(), []
    for mod, cfg, sim, const in PLAN[prop][T if THOROUGH else Q]:
        args = ["-simulate", "num=%d" % sim, "-seed", str(SEED), "-depth", "60"] if sim else []
        st = tlc(mod, cfg, args=args, const=const, workers=4 if sim else 8)
        rows = scratch() + "/rows.json"
        with open(rows, "w") as f:
            f.write(traces(st, "ROWS")[0])
        trs = [t for t in traces(st) if t not in seen]
        st["out"] = ""
        seen.update(trs)
        if not trs:
            raise CheckError("%s produced no behaviours" % cfg)
        log("%s: %d states, %d behaviours" % (cfg, st["states"], len(trs)))
        p = run([drv, "-rows", rows, "-dsn", "postgres:///?sslmode=disable"], envx=env(**pg.env), stdin="\n".join(trs) + "\n",
                timeout=850, what="filter replay")
        o = json.loads(p.stdout)
        states += st["states"]
        distinct += st["distinct"]
        for k in tot:
            tot[k] += o[k]
        runs.append({"cfg": cfg, "simulated": bool(sim), "constants": const, "states": st["states"], "behaviours": len(trs)})
        samples.append(json.loads(trs[len(trs) // 2]))
        for x in o["failures"]:
            if x["class"] in BREAKS[prop]:
                calls = [{k: v for k, v in e.items() if k != "obs"} for e in json.loads(x["trace"])] if x["trace"] else []
                ck.violation(x["class"] + ": " + x["detail"], {"sql": x["sql"], "calls": calls}, replay=x["trace"])
            else:
                log("(other class %s: %s)" % (x["class"], x["detail"]))
    ck.cov = {"states": distinct, "transitions": states, "traces_validated_against_impl": tot["traces"],
              "renderings_compared": tot["renders"], "queries_executed": tot["queries"], "nontrivial_selections": tot["nontrivial"],
              "runs": runs, "samples": [[{k: v for k, v in e.items() if k != "obs"} for e in s] for s in samples]}
    ck.assumptions = ["PostgreSQL 16 evaluates the rendered text as documented", "48 rows over small value domains including NULL stand for all rows",
                      "behaviours are bounded as listed under runs"]
    return ck.finish()


main(main_)
