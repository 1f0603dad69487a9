"""The steps of the command, target by target, built inside the repository's module through an overlay."""
import json
from vlib import *


def build():
    """The probe; None if the repository's internals are no longer what it calls."""
    ov = scratch() + "/overlay.json"
    main = REPO + "/cmd/verifprobe/main.go"
    open(ov, "w").write(json.dumps({"Replace": {main: VERIF + "/harness/legal/probe/main.go"}}))
    p = run(["go", "build", "-overlay", ov, "-o", scratch() + "/probe", "./cmd/verifprobe"], cwd=REPO, check=False, what="probe")
    if p.returncode:
        log("the probe does not build against the internals, using the command: " + p.stderr[-300:])
        return None
    return scratch() + "/probe"
