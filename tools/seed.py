#!/usr/bin/env python3
"""Make and confirm one planted bug in a scratch copy of /repo.
usage: seed.py spec.py   where spec.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO={name: text} with demo.sh
       seed.py --reconfirm [id...]    re-run the confirmation of the kept ones (patch applies, builds, tests, demo)
"""
import json, os, shutil, subprocess, sys, tempfile
SEEDED = "/verif/seeded"
ENV = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")

GO_DEMO = """#!/bin/bash
# run in the repository: builds main.go beside this script against the repository and runs it
set -e
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
cp "$here"/main.go "$work"/
cp "$repo"/go.sum "$work"/
cat > "$work"/go.mod <<EOF
module demo
go 1.23
require github.com/frk/gosql v0.0.0
require github.com/frk/fql v0.0.1
require github.com/lib/pq v1.10.2
replace github.com/frk/gosql => $repo
EOF
cd "$work"
go build -o demo .
./demo
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def copy():
    wt = tempfile.mkdtemp(prefix="seedwt.", dir="/tmp")
    shutil.rmtree(wt)
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=wt, check=True)
    return wt


def confirm(d, wt):
    p = sh(["bash", d + "/demo.sh"], wt, timeout=300)
    if p.returncode != 0:
        return "demo fails on the unchanged tree (rc %d):\n%s" % (p.returncode, p.stdout[-3000:])
    p = sh(["git", "apply", "--check", d + "/patch.diff"], wt)
    if p.returncode != 0:
        return "patch does not apply: " + p.stdout
    sh(["git", "apply", d + "/patch.diff"], wt)
    p = sh(["go", "build", "./..."], wt)
    if p.returncode != 0:
        return "does not build:\n" + p.stdout
    p = sh(["bash", d + "/demo.sh"], wt, timeout=300)
    if p.returncode == 0:
        return "demo passes with the change:\n" + p.stdout[-2000:]
    print("demo with change: rc=%d %s" % (p.returncode, p.stdout[-600:]))
    t = open("/opt/vp/test.sh").read().replace(". /opt/vp/env.sh", ". /opt/vp/env.sh; cd " + wt)
    ts = wt + ".test.sh"
    open(ts, "w").write(t)
    out = wt + ".out.json"
    sh(["bash", ts, out], wt, timeout=900)
    o = json.load(open(out))
    os.remove(ts); os.remove(out)
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(o.get("passed", o.get("pass", [])))
    bad = [s for s in stable if s not in passed]
    if bad:
        return "%d stable tests do not pass: %s" % (len(bad), bad[:6])
    return None


def main():
    if sys.argv[1] == "--reconfirm":
        rc = 0
        for i in sys.argv[2:] or sorted(os.listdir(SEEDED)):
            wt = copy()
            e = confirm(SEEDED + "/" + i, wt)
            shutil.rmtree(wt)
            print(i, e or "ok")
            rc |= bool(e)
        sys.exit(rc)
    ns = {"GO_DEMO": GO_DEMO}
    exec(open(sys.argv[1]).read(), ns)
    specs = ns["SEEDS"]
    for s in specs:
        wt = copy()
        d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
        try:
            err = None
            for f, old, new in s["edits"]:
                t = open(wt + "/" + f).read()
                if t.count(old) != 1:
                    err = "%s: %d matches of %r" % (f, t.count(old), old)
                    break
                open(wt + "/" + f, "w").write(t.replace(old, new))
            if not err:
                diff = subprocess.run(["git", "diff"], cwd=wt, stdout=subprocess.PIPE, text=True).stdout
                subprocess.run(["git", "checkout", "-q", "--", "."], cwd=wt, check=True)
                open(d + "/patch.diff", "w").write(diff)
                demo = dict(s["demo"])
                demo.setdefault("demo.sh", GO_DEMO)
                for n, t in demo.items():
                    open(d + "/" + n, "w").write(t)
                json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
                err = confirm(d, wt)
            if err:
                print("REJECTED", s["id"], err)
            else:
                shutil.rmtree(SEEDED + "/" + s["id"], ignore_errors=True)
                shutil.copytree(d, SEEDED + "/" + s["id"])
                print("KEPT", s["id"])
        finally:
            shutil.rmtree(wt, ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)


main()
