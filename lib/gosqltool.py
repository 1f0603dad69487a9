"""Building and running cmd/gosql from /repo's working tree."""
import os
from vlib import *

_tool = None


def build():
    global _tool
    if _tool is None:
        _tool = scratch() + "/gosql"
        run(["go", "build", "-o", _tool, "./cmd/gosql"], cwd=REPO, what="go build cmd/gosql")
    return _tool


def generate(tool, wd, pg, args=(), db="postgres", timeout=300):
    """Run the tool in a package directory, as a user would."""
    e = env(**pg.env)
    return run([tool, "-wd", wd, "-db", "postgres:///%s?sslmode=disable" % db, *args], cwd=wd, check=False, envx=e, timeout=timeout, what="gosql")
