"""Common plumbing for the checks: scratch dirs, throwaway PostgreSQL, TLC runs, evidence, verdicts."""
import atexit, json, os, shutil, signal, subprocess, sys, tempfile, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PGBIN = "/usr/lib/postgresql/16/bin"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
TLA_CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()

_cleanup = []


def _run_cleanup():
    while _cleanup:
        f = _cleanup.pop()
        try:
            f()
        except Exception as e:  # noqa
            print("cleanup: %r" % e, file=sys.stderr)


atexit.register(_run_cleanup)
for _s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP):
    signal.signal(_s, lambda *_: sys.exit(3))


class CheckError(Exception):
    """The check itself could not run: error exit (2), never a verdict."""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


_scratch = None


def scratch():
    """A scratch directory removed at exit (kept with VERIF_KEEP=1)."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="gosql-verif.", dir="/tmp")
        os.chmod(_scratch, 0o755)
        if os.environ.get("VERIF_KEEP") != "1":
            _cleanup.append(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        else:
            log("scratch:", _scratch)
    return _scratch


def go_env():
    """The environment /opt/vp/env.sh sets up (pinned toolchain, offline)."""
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                         stdout=subprocess.PIPE, check=True).stdout
    env = {}
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            env[k.decode("utf8", "replace")] = v.decode("utf8", "replace")
    env["TZ"] = "UTC"
    env.setdefault("GOFLAGS", "-mod=mod")
    env["GOPROXY"] = "off"
    env["GOWORK"] = "off"
    env["GONOSUMDB"] = "*"
    env["GONOSUMCHECK"] = "1"
    env["GOFLAGS"] = "-mod=mod -buildvcs=false"
    return env


_env = None


def env(**kw):
    global _env
    if _env is None:
        _env = go_env()
    e = dict(_env)
    e.update({k: str(v) for k, v in kw.items()})
    return e


def run(cmd, cwd=None, timeout=600, check=True, envx=None, stdin=None, what=None):
    """Run a command; returns CompletedProcess (text). check=True -> CheckError on nonzero."""
    try:
        p = subprocess.run(cmd, cwd=cwd, env=envx or env(), input=stdin, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired as e:
        raise CheckError("timeout after %ss: %s" % (timeout, what or cmd))
    if check and p.returncode != 0:
        raise CheckError("%s failed (rc=%d)\n--- stdout\n%s\n--- stderr\n%s" % (
            what or cmd, p.returncode, p.stdout[-4000:], p.stderr[-6000:]))
    return p


# ---------------------------------------------------------------- PostgreSQL

class PG:
    """A throwaway cluster reachable only through a unix socket in its own scratch directory."""

    def __init__(self, tz="Europe/Zagreb"):
        self.work = tempfile.mkdtemp(prefix="gosql-verif-pg.", dir="/tmp")
        os.chmod(self.work, 0o755)
        self.dir = os.path.join(self.work, "pg")
        os.mkdir(self.dir)
        shutil.chown(self.dir, "postgres", "postgres")
        _cleanup.append(self.stop)
        data = self.dir + "/data"
        p = self._as_pg([PGBIN + "/initdb", "-D", data, "-U", "postgres", "-A", "trust", "-E", "UTF8",
                         "--locale=C.UTF-8", "--lc-monetary=C", "--no-sync"])
        if p.returncode != 0:
            raise CheckError("initdb: " + p.stdout)
        opts = ("-c listen_addresses='' -k %s -c fsync=off -c synchronous_commit=off -c full_page_writes=off "
                "-c timezone=%s -c dynamic_shared_memory_type=mmap -c max_connections=60 -c autovacuum=off" % (self.dir, tz))
        p = self._as_pg([PGBIN + "/pg_ctl", "-D", data, "-w", "-t", "60", "-l", self.dir + "/server.log", "-o", opts, "start"])
        if p.returncode != 0:
            raise CheckError("pg_ctl start: " + p.stdout)
        self.env = {"PGHOST": self.dir, "PGPORT": "5432", "PGUSER": "postgres"}

    def _as_pg(self, cmd):
        pre = ["setpriv", "--reuid=postgres", "--regid=postgres", "--clear-groups", "env", "-i",
               "PATH=" + os.environ.get("PATH", "/usr/bin:/bin"), "LANG=C.UTF-8", "TZ=UTC"]
        # pg_ctl's server inherits stdout: send it to a file rather than a pipe
        with tempfile.TemporaryFile() as f:
            p = subprocess.run(pre + cmd, cwd=self.dir, stdout=f, stderr=f, stdin=subprocess.DEVNULL, timeout=120)
            f.seek(0)
            p.stdout = f.read().decode("utf8", "replace")
        return p

    def psql(self, sql, db="postgres"):
        e = dict(os.environ)
        e.update(self.env)
        p = subprocess.run([PGBIN + "/psql", "-X", "-q", "-v", "ON_ERROR_STOP=1", "-d", db, "-At"], input=sql, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
        if p.returncode != 0:
            raise CheckError("psql: " + p.stderr)
        return p.stdout

    def stop(self):
        data = self.dir + "/data"
        if os.path.exists(data + "/postmaster.pid"):
            try:
                self._as_pg([PGBIN + "/pg_ctl", "-D", data, "-m", "immediate", "-w", "stop"])
            except Exception:
                pass
        shutil.rmtree(self.work, ignore_errors=True)


# ---------------------------------------------------------------- TLC

def tlc(module, cfg, workdir=None, args=(), timeout=800, workers=8, heap="6g", ok_rc=(0,), env_extra=None, const=None):
    """Run TLC on /verif/spec/<module>.tla with spec/<cfg>; returns dict(out, states, distinct, rc)."""
    spec = os.path.join(VERIF, "spec")
    meta = tempfile.mkdtemp(prefix="tlc.", dir=scratch())
    cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta,
           "-cp", TLA_JAR + ":" + TLA_CM, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-config", cfg,
           *args, module + ".tla"]
    e = env(**(env_extra or {}))
    # run in a copy so that TLC never writes next to the committed specs
    wd = workdir or tempfile.mkdtemp(prefix="spec.", dir=scratch())
    for f in os.listdir(spec):
        if f.endswith((".tla", ".cfg")) and not os.path.exists(os.path.join(wd, f)):
            shutil.copy(os.path.join(spec, f), wd)
    if const:  # override constants of the cfg
        import re
        cp = os.path.join(wd, cfg)
        t = open(cp).read()
        for k, v in const.items():
            t, n = re.subn(r"\b%s\s*(=|<-)\s*\S+" % re.escape(k), lambda m: "%s %s" % (k, v), t)
            if n != 1:
                raise CheckError("constant %s not in %s" % (k, cfg))
        open(cp, "w").write(t)
    p = run(cmd, cwd=wd, timeout=timeout, check=False, envx=e, what="tlc " + module)
    if p.returncode not in ok_rc:
        text = "\n".join(l for l in p.stdout.splitlines() if not l.startswith('"'))
        raise CheckError("TLC %s/%s rc=%d\n%s\n%s" % (module, cfg, p.returncode, text[-6000:], p.stderr[-2000:]))
    st = {"out": p.stdout, "rc": p.returncode, "wd": wd, "states": 0, "distinct": 0}
    import re
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", p.stdout):
        pass
    if m:
        st["states"] = int(m.group(1).replace(",", ""))
        st["distinct"] = int(m.group(2).replace(",", ""))
    else:
        for m in re.finditer(r"The number of states generated: ([\d,]+)", p.stdout):
            st["states"] = st["distinct"] = int(m.group(1).replace(",", ""))
    return st


def traces(st, tag="TRACE"):
    """The distinct JSON values a run printed as "TAG <json>" lines, as JSON text, in an order of their own."""
    out = {}
    pre = '"' + tag + ' '
    for l in st["out"].splitlines():
        if l.startswith(pre):
            out[json.loads(l)[len(tag) + 1:]] = 1
    return sorted(out, key=lambda t: hashlib.sha1(t.encode()).digest())


# ---------------------------------------------------------------- Go builds

def scratch_module(src, name):
    """Copy a harness directory into scratch as a module that uses /repo's working tree."""
    dst = os.path.join(scratch(), name)
    shutil.copytree(src, dst)
    t = os.path.join(dst, "go.mod.tmpl")
    open(os.path.join(dst, "go.mod"), "w").write(open(t).read().replace("@REPO@", REPO))
    os.remove(t)
    return dst


def pool(jobs, n=8):
    """Results of the given thunks, run n at a time."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(n) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]


def go_build(cwd, out, pkg=".", args=(), timeout=600):
    run(["go", "build", *args, "-o", out, pkg], cwd=cwd, timeout=timeout, what="go build " + pkg)
    return out


# ---------------------------------------------------------------- verdicts

class Check:
    """Collects violations for one property, prints the verdict, writes evidence."""

    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.viol = []
        self.known_hit = {}
        self.cov = {}
        self.assumptions = []
        self.known = load_known(prop)

    def violation(self, key, detail, replay=None):
        """key identifies the failing input; a listed known finding is reported and not counted."""
        for k in self.known:
            if k["match"] == key:
                self.known_hit.setdefault(key, k)
                return
        self.viol.append({"key": key, "detail": detail, "replay": replay})

    def finish(self):
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        ev = {"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2),
              "violations": len(self.viol)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.prop, "w") as f:
            json.dump(ev, f, indent=1)
        if self.viol:
            d = VERIF + "/evidence/replay"
            os.makedirs(d, exist_ok=True)
            path = d + "/%s-%s.json" % (self.prop, hashlib.sha1(json.dumps(self.viol[0], sort_keys=True, default=str).encode()).hexdigest()[:10])
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": SEED, "tier": TIER, "violations": self.viol[:300]}, f, indent=1, default=str)
            for v in self.viol[:5]:
                print("violation of %s: %s\n   %s" % (self.prop, v["key"], str(v["detail"])[:1500]))
            print("(%d violations)" % len(self.viol))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s (%.1fs)" % (self.prop, time.time() - T0))
        return 0


def load_known(prop):
    """known-findings.jsonl: {"property","match","what"}; lines with "fixed" suppress nothing."""
    p = VERIF + "/known-findings.jsonl"
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            o = json.loads(line)
            if o["property"] == prop:
                out.append(o)
    return out


def main(fn):
    """Run fn() -> exit code, mapping any failure of the check itself to exit 2."""
    try:
        rc = fn()
    except CheckError as e:
        print("CHECK-ERROR: %s" % e, file=sys.stderr)
        rc = 2
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    _run_cleanup()
    sys.exit(rc)
