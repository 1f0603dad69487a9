#!/usr/bin/env python3
"""Apply kept planted bugs to /repo one at a time, run the check of their property, undo; prints caught / missed.
usage: catch.py [-a] [id...]   (-a: run every registered check against each)"""
import json, os, subprocess, sys, time
V = "/verif"
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
args = sys.argv[1:]
allc = "-a" in args
ids = [a for a in args if a != "-a"] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    meta = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    props = list(man) if allc else [meta["property"]]
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], stdout=subprocess.PIPE, text=True).stdout == "", "dirty /repo"
    subprocess.run(["git", "-C", "/repo", "apply", "%s/seeded/%s/patch.diff" % (V, i)], check=True)
    try:
        res = []
        for p in props:
            if p not in man:
                res.append(p + ":unclaimed")
                continue
            t = time.time()
            r = subprocess.run(["bash", "-c", man[p]["quick_cmd"]], cwd=V, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            hit = r.returncode == 1 and ("VIOLATION property=" + p) in r.stdout
            res.append("%s:%s(%.0fs)" % (p, "CAUGHT" if hit else "rc%d" % r.returncode, time.time() - t))
            if hit and not allc:
                print("   ", r.stdout.strip().splitlines()[0][:300])
            elif not allc:
                print("   ", (r.stdout + r.stderr)[-600:])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    print(i, meta["property"], " ".join(x for x in res if not allc or "CAUGHT" in x or "rc2" in x), flush=True)
