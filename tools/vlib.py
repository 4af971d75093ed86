"""Shared machinery of the checks: driver processes, trace files, TLC runs, evidence."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

V = "/verif"
BUILD = V + "/build"
SPEC = V + "/spec"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NPROC = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself failed (build error, model error): neither held nor violated."""


def build():
    # one build at a time; every check calls this
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run([V + "/tools/build_driver.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise CheckError("build failed:\n" + p.stdout.decode(errors="replace")[-4000:])


class Driver:
    """One driver process executing commands; survives crashes of the code under test."""

    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, GLIBC_TUNABLES="glibc.malloc.perturb=165", LC_ALL="C")
        self.p = subprocess.Popen([BUILD + "/driver"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, cwd="/tmp")

    def call(self, cmd):
        if self.p is None or self.p.poll() is not None:
            self.start()
        line = json.dumps(cmd, separators=(",", ":")) + "\n"
        try:
            self.p.stdin.write(line.encode())
            self.p.stdin.flush()
            out = self.p.stdout.readline()
        except BrokenPipeError:
            out = b""
        if not out.endswith(b"\n"):
            rc = self.p.wait()
            self.p = None
            if rc == 90:
                raise CheckError("driver rejected command " + line)
            return {"e": "CRASH", "em": "process ended with status %d" % rc}
        try:
            return json.loads(out)
        except ValueError:      # the library has overwritten the driver's memory
            self.p.kill()
            self.p.wait()
            self.p = None
            return {"e": "CRASH", "em": "answer is not readable"}

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(timeout=5)
            except Exception:
                self.p.kill()
            self.p = None


class Recorder:
    """Runs commands on a driver and records the events of one session."""

    def __init__(self, drv):
        self.drv = drv
        self.events = []
        self.dead = False

    def do(self, **cmd):
        if self.dead:
            return {"e": "CRASH"}
        r = self.drv.call(cmd)
        em = r.pop("em", None)
        ev = {"a": cmd["a"], "c": {k: v for k, v in cmd.items() if k != "a"}, "r": r}
        if em is not None:
            ev["em"] = re.sub(r"[^ -~]", "?", em)[:200]
        self.events.append(ev)
        if r["e"] == "CRASH":
            self.dead = True
        return r


def run_batch(cmds):
    """Non-interactive: run a list of sessions (lists of commands) through one driver."""
    d = Driver()
    out = []
    for s in cmds:
        r = Recorder(d)
        for c in s:
            r.do(**c)
            if r.dead:
                break
        out.append(r.events)
    d.close()
    return out


def write_trace(path, sessions):
    with open(path, "w") as f:
        for s in sessions:
            for e in s:
                f.write(json.dumps(e, separators=(",", ":"), ensure_ascii=True) + "\n")


def java(args, timeout, env=None, xmx="1800m", cwd=SPEC, workers=1):
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + xmx, "-Xss64m",
           "-XX:TieredStopAtLevel=4", "-cp", JAR] + args
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        return -9, (x.stdout or b"").decode(errors="replace") + "\nTIMEOUT"


def tlc(module, cfg, timeout=600, env=None, extra=(), workers=1, xmx="1800m"):
    md = tempfile.mkdtemp(prefix="tlc", dir=BUILD)
    try:
        return java(["tlc2.TLC", "-noGenerateSpecTE", "-metadir", md, "-workers", str(workers), "-config", cfg] +
                    list(extra) + [module], timeout, env, xmx, workers=workers)
    finally:
        shutil.rmtree(md, ignore_errors=True)


def tidy(out, n=2500):
    return "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing file", "Semantic processing")))[-n:]


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model_check(module, cfg, timeout=500, workers=NPROC, xmx="6g", extra=()):
    """Exhaustive TLC run of a bounded configuration; the design itself must satisfy its invariants."""
    rc, out = tlc(module, cfg, timeout, workers=workers, xmx=xmx, extra=extra)
    if "No error has been found" not in out:
        raise CheckError("model check of %s/%s failed:\n%s" % (module, cfg, tidy(out)))
    g, d = stats(out)
    return {"cfg": cfg, "generated": g, "distinct": d}, out


def validate_file(args):
    module, cfg, path, timeout = args
    rc, out = tlc(module, cfg, timeout, env={"TRACE": path})
    if "No error has been found" in out:
        return {"ok": True, "stats": stats(out), "path": path}
    m = re.search(r'"REJECTED", (\d+)', out)
    if m:
        return {"ok": False, "line": int(m.group(1)), "stats": stats(out), "path": path, "out": out}
    if re.search(r"(Attempted to|Evaluating|evaluat|The first argument|was applied|In applying|nested|domain)", out) and \
            "TIMEOUT" not in out and "OutOfMemory" not in out and "StackOverflow" not in out and "Parsing or semantic" not in out:
        g, d = stats(out)
        m = re.search(r"State (\d+): ", out)
        ms = re.findall(r"^State (\d+):", out, re.M)
        ln = re.findall(r"^/\\ l = (\d+)", out, re.M)
        line = int(ln[-1]) if ln else None
        return {"ok": False, "line": line, "stats": (g, d), "path": path, "out": out, "evalerr": True}
    raise CheckError("TLC failed on trace %s:\n%s" % (path, tidy(out)))


def parallel(fn, items, n=NPROC):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


def pparallel(fn, items, n=NPROC):
    with cf.ProcessPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


def load_known(pid):
    known = []
    try:
        for ln in open(V + "/known-findings.txt"):
            ln = ln.strip()
            if ln.startswith("finding: property=%s " % pid):
                known.append(ln[len("finding: "):])
    except FileNotFoundError:
        pass
    return known


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "events": 0, "errors_observed": 0, "models": [], "actions": {}}
        self.level = level
        self.violations = 0
        self.assumptions = []
        self.work = tempfile.mkdtemp(prefix="chk_%s_" % pid, dir=(os.makedirs(BUILD, exist_ok=True) or BUILD))

    def left(self, total=780):
        return total - (time.time() - self.t0)

    def model(self, module, cfg, **kw):
        st, out = model_check(module, cfg, **kw)
        self.cov["models"].append(st)
        self.cov["states"] += st["distinct"]
        self.cov["transitions"] += st["generated"]
        return out

    def generate(self, module, cfg, env, num=None, depth=None, timeout=300, seed=None):
        """TLC produces command behaviours (written by the module itself to env['OUT'])."""
        extra = []
        if num:
            extra = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed or SEED)]
        rc, out = tlc(module, cfg, timeout, env=env, extra=extra, xmx="4g")
        if "rror" in out and "No error" not in out and "Error: The behavior up to" not in out:
            raise CheckError("generator %s failed:\n%s" % (module, tidy(out)))
        return out

    def validate(self, module, cfg, sessions, replayer=None, chunk=None, timeout=600, label="trace"):
        """Validate recorded sessions (list of event lists) against the spec. Returns True if accepted."""
        if not sessions:
            raise CheckError("no sessions recorded for " + label)
        nev = sum(len(s) for s in sessions)
        k = min(NPROC, max(1, nev // 200)) if chunk is None else chunk
        buckets = [[] for _ in range(k)]
        sizes = [0] * k
        for s in sessions:
            i = sizes.index(min(sizes))
            buckets[i].append(s)
            sizes[i] += len(s)
        files = []
        for i, b in enumerate(buckets):
            if not b:
                continue
            p = "%s/%s_%d.ndjson" % (self.work, label, i)
            write_trace(p, b)
            files.append((p, b))
        res = parallel(lambda f: validate_file((module, cfg, f[0], timeout)), files)
        bad = None
        for (p, b), r in zip(files, res):
            self.cov["states"] += r["stats"][1]
            self.cov["transitions"] += r["stats"][0]
            if r["ok"]:
                self.cov["traces_validated_against_impl"] += len(b)
                for s in b:
                    self.cov["events"] += len(s)
                    for e in s:
                        self.cov["actions"][e["a"]] = self.cov["actions"].get(e["a"], 0) + 1
                        if e["r"]["e"]:
                            self.cov["errors_observed"] += 1
            elif bad is None:
                bad = (p, b, r)
        if len(self.cov["samples"]) < 4:
            s = min(sessions, key=lambda s: abs(len(s) - 4))
            self.cov["samples"].append(json.loads(json.dumps(s[:6])))
        if bad is None:
            return True
        p, b, r = bad
        # find the session that was rejected
        if r["line"] is None:
            sess = self._bisect(module, cfg, b, timeout)
        else:
            n = 0
            sess = b[-1]
            for s in b:
                if n + len(s) >= r["line"]:
                    sess = s
                    break
                n += len(s)
        return self._confirm(module, cfg, sess, timeout, label)

    def _bisect(self, module, cfg, b, timeout):
        lo = b
        while len(lo) > 1:
            h = lo[:len(lo) // 2]
            p = self.work + "/bis.ndjson"
            write_trace(p, h)
            r = validate_file((module, cfg, p, timeout))
            lo = h if not r["ok"] else lo[len(lo) // 2:]
        return lo[0]

    def _confirm(self, module, cfg, sess, timeout, label):
        """Re-run the rejected session from its commands and validate it alone."""
        racy = getattr(self, "racy", 0)
        p = self.work + "/confirm.ndjson"
        for k in range(1 + racy):
            again = run_batch([[self.command_of(e) for e in sess]])[0]
            write_trace(p, [again])
            r = validate_file((module, cfg, p, timeout))
            if not r["ok"]:
                break
        if r["ok"] and racy:    # threads need not meet again as they did: the recorded history stands by itself
            write_trace(p, [sess])
            r = validate_file((module, cfg, p, timeout))
            again = sess
        if r["ok"]:
            raise CheckError("a rejected session was accepted when re-run (not reported): " + json.dumps(sess)[:2000])
        ln = r["line"] if r["line"] else len(again)
        return self.report(again, ln, module, cfg, label)

    def command_of(self, e):
        return dict(e["c"], a=e["a"])

    def report(self, sess, line, module, cfg, label, what=""):
        d = BUILD + "/replay"
        os.makedirs(d, exist_ok=True)
        p = "%s/%s_seed%d_%d.ndjson" % (d, self.pid, SEED, self.violations)
        write_trace(p, [sess])
        ev = sess[min(line, len(sess)) - 1]
        print("rejected by %s at event %d of %d: %s" % (module, line, len(sess), json.dumps(ev)[:1500]))
        print("VIOLATION property=%s replay=%s" % (self.pid, p))
        sys.stdout.flush()
        self.violations += 1
        return False

    def finish(self, extra=None):
        cov = self.cov
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": self.violations}
        os.makedirs(V + "/evidence", exist_ok=True)
        with open(V + "/evidence/%s.json" % self.pid, "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        print("%s %s: %s, %d traces / %d events validated, %d distinct states, %.0f s" % (
            self.pid, TIER, "VIOLATED" if self.violations else "held", cov["traces_validated_against_impl"],
            cov["events"], cov["states"], time.time() - self.t0))
        return 1 if self.violations else 0


def main(fn):
    try:
        rc = fn()
    except CheckError as x:
        print("CHECK ERROR: %s" % x)
        rc = 2
    sys.exit(rc)
