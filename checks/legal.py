#!/usr/bin/env python3
"""C12: verdicts of spec/Legal.tla over descriptions compared with the tool's, and what it accepts is compiled, run and parsed by the database."""
import collections, json, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
import gosqltool, legalgen, legalrun, probing

def check():
    c = Check("C12", "model_checking")
    tool, bin = gosqltool.build(), probing.build()
    n1 = int(os.environ.get("NMIX", 80000 if THOROUGH else 9000))
    n2 = int(os.environ.get("NPAIRS", 18000 if THOROUGH else 3000))
    n3 = int(os.environ.get("NODD", 35000 if THOROUGH else 6000))
    if bin is None:
        n1, n2 = min(n1, 3000 if THOROUGH else 250), min(n2, 1500 if THOROUGH else 100)
        n3 = min(n3, 2000 if THOROUGH else 200)
    sets, states, trans = [], 0, 0
    pairs0 = 0 if n2 > 6760 else (SEED * 1511) % 6760
    for mode, n, frm in (("mix", n1, 0), ("pairs", n2, pairs0), ("odd", n3, 0)):
        step = 24000
        for a in range(0, n, step):
            st = tlc("Legal", "MCLegal.cfg", const={"N": "= %d" % min(step, n - a), "From0": "= %d" % (frm + a), "Seed": "= %d" % SEED, "Mode": '= "%s"' % mode})
            states += st["distinct"]
            trans += st["states"]
            sets.append((mode, [json.loads(t) for t in traces(st)]))
    log("%d descriptions" % sum(len(t) for _, t in sets))
    tally, accepted_n, stmts, samples = collections.Counter(), 0, 0, []
    pg = PG()
    pg.psql("create database vl")
    pg.psql(legalgen.DDL, db="vl")
    for k, (mode, ts) in enumerate(sets):
        rs = {}
        for t in ts:
            r = legalgen.R(t["i"], t["d"])
            r.want, r.by = t["v"], t["why"]
            rs[r.name] = r
        got, n_ok, n_stmts = legalrun.verdicts(c, tool, bin, pg, "legal%d" % k, rs, tally)
        log("%s: %d accepted of %d" % (mode, n_ok, len(rs)))
        accepted_n += n_ok
        stmts += n_stmts
        for n in sorted(rs)[:2]:
            samples.append({"go": rs[n].render(), "model": rs[n].want, "tool": {x: got[n].get(x) for x in ("Ok", "Err")} if n in got else None})
    tl = {"%s/%s" % x: v for x, v in sorted(tally.items())}
    log("%s; %d statements taken by the database" % (tl, stmts))
    c.cov = {"states": states, "transitions": trans, "traces_validated_against_impl": sum(tally.values()), "model/tool": tl, "accepted_and_run": accepted_n,
             "statements": stmts, "verdicts_by": "the command's steps, target by target" if bin else "the command", "samples": samples}
    c.assumptions = ["a seeded sample of descriptions around well-formed ones, one or two faults each",
                     "descriptions the specification leaves open may be refused or accepted; what is accepted must work"]
    return c.finish()


main(check)
