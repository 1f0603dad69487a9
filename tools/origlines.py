#!/usr/bin/env python3
"""Which planted bugs change lines of the original repository (removed lines, by blame)."""
import re, subprocess, glob, os
for d in sorted(glob.glob("/verif/seeded/*")):
    n = orig = 0
    f = None
    for l in open(d + "/patch.diff"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m:
            k = int(m.group(1)); continue
        if f is None or l.startswith(("+++", "diff", "index", "---")):
            continue
        if l.startswith("-"):
            b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-L%d,%d" % (k, k), "--", f], capture_output=True, text=True).stdout
            n += 1; orig += b.startswith("^")
        if not l.startswith("+"):
            k += 1
    print(os.path.basename(d), "%d of %d" % (orig, n), "" if orig else "<-- none")
