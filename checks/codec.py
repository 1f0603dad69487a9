#!/usr/bin/env python3
"""C18, C19: replay the values of Codec.tla and the scan histories of Scan.tla into the pgsql converters."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *  # noqa


def main_():
    prop = sys.argv[1]
    ck = Check(prop, "model_checking")
    wide = prop == "C18" and THOROUGH
    st = tlc("MCCodec", "MCCodec.cfg", const={"MaxLen": "= 3" if wide else "= 2", "Lists": '= "few"'}, timeout=600)
    vals = traces(st)
    st["out"] = ""
    states, distinct = st["states"], st["distinct"]
    if wide:
        # every list of two elements over the full set of contents
        st = tlc("MCCodec", "MCCodec.cfg", const={"Lists": '= "all"'}, timeout=800)
        vals = list(dict.fromkeys(vals + traces(st)))
        st["out"] = ""
        states, distinct = states + st["states"], distinct + st["distinct"]
    lines, hs = vals, []
    if prop == "C19":
        st = tlc("Scan", "Scan.cfg", const={"MaxSteps": "= 4" if THOROUGH else "= 3"}, timeout=600)
        hs = traces(st)
        st["out"] = ""
        states, distinct = states + st["states"], distinct + st["distinct"]
        lines = vals + hs
    log("%d values, %d histories" % (len(vals), len(hs)))
    mod = scratch_module(VERIF + "/harness/codec", "codec")
    go_build(mod, mod + "/codec")
    pg = PG()
    pg.psql("create extension hstore")
    mode = "codec" if prop == "C18" else "scan"
    p = run([mod + "/codec", mode], stdin="\n".join(lines) + "\n", timeout=800, envx=env(**pg.env), what="codec replay", check=False)
    if p.returncode != 0:
        raise CheckError("codec replay: " + p.stderr[-3000:])
    o = json.loads(p.stdout)
    for x in o["Failures"]:
        ck.violation("%s: %s" % (x["Class"], x["Detail"]), {"converter": x["Key"], "input": x["Trace"]}, replay=x["Trace"])
    n = o["Written"] + o["Read"] + o["Scans"]
    ck.cov = {"states": distinct, "transitions": states, "traces_validated_against_impl": len(vals) if prop == "C18" else o["Histories"],
              "converter_pairs": o["Pairs"], "conversions": n, "samples": [json.loads(t) for t in lines[::max(1, len(lines) // 3)][:3]]}
    ck.assumptions = ["the listed contents of each type (boundary numbers, special characters, empty and NULL elements) stand for all",
                      "lists of at most %d elements stand for all" % (3 if wide else 2),
                      "PostgreSQL's own reading of text is the oracle for what a written value denotes"]
    return ck.finish()


main(main_)
