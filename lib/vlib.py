"""Shared machinery of the checks: building, running harnesses, running TLC, evidence and verdicts."""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
BIN = os.path.join(BUILD, "bin")
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
JOBS = 8
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


T0 = time.time()


def log(msg):
    if os.environ.get("VERIF_VERBOSE"):
        print("[%6.1f] %s" % (time.time() - T0, msg), flush=True)


class CheckError(Exception):
    """The check itself could not run (never a verdict)."""


def build(*progs):
    """Mirror /repo/src and (re)build the library and the named harness programs from it."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = os.path.join(BUILD, "src")
        os.makedirs(src, exist_ok=True)
        subprocess.run(["rsync", "-rc", "--delete", "--exclude=*.o", "--exclude=*.d", "--exclude=*.so",
                        "--exclude=*_wrap.cxx", "--exclude=/gandalf", "--exclude=/testgandalf", "--exclude=__pycache__",
                        REPO + "/src/", src + "/"], check=True)
        tgt = [os.path.join(BIN, p) for p in progs] or ["all"]
        r = subprocess.run(["make", "-s", "-j%d" % JOBS, "-f", os.path.join(VERIF, "harness", "Makefile"),
                            "SRC=" + src, "OUT=" + os.path.join(BUILD, "obj"), "HARN=" + os.path.join(VERIF, "harness"),
                            "BIN=" + BIN] + tgt, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write(r.stdout[-1500:])
            raise CheckError("build failed")


def pmap(f, xs, jobs=JOBS):
    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(f, xs))


class Proc:
    def __init__(self, rc, out, timeout):
        self.rc, self.out, self.timeout = rc, out, timeout


def run(cmd, timeout=120, cwd=None, env=None, mem_gb=4):
    e = dict(os.environ)
    e.update(env or {})
    def lim():
        os.setsid()
        import resource
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (2 << 30, 2 << 30))
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=lim)
    try:
        out, _ = p.communicate(timeout=timeout)
        return Proc(p.returncode, out.decode("utf8", "replace"), False)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return Proc(-9, out.decode("utf8", "replace"), True)


class Tlc:
    """Outcome of one TLC run: ok, rejected (a property or the postcondition is false), or error."""
    def __init__(self, status, gen, distinct, depth, out):
        self.status, self.gen, self.distinct, self.depth, self.out = status, gen, distinct, depth, out

    def brief(self):
        keep = [l for l in self.out.splitlines() if re.search(
            r"Error|violated|Invariant|false|postcondition|Attempted|line \d+, col", l)]
        return " | ".join(keep[:6])[:600]


def tlc(module, cfg=None, env=None, workers=1, timeout=600, heap="1g", extra=(), simulate=None, coverage=False, cwd=SPEC):
    """Run TLC on spec/<module>.tla."""
    cfg = cfg or module + ".cfg"
    md = tempfile.mkdtemp(prefix="tlc_")
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m"]
    if workers == 1 and not simulate:
        cmd += ["-XX:TieredStopAtLevel=1"] if heap == "1g" else []
    cmd += ["-cp", JAR, "tlc2.TLC", "-metadir", md, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg]
    if coverage:
        cmd += ["-coverage", "1"]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [module + ".tla"]
    try:
        p = run(cmd, timeout=timeout, cwd=cwd, env=env, mem_gb=0)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", p.out)
    gen, dis = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    log("tlc %s %s rc=%s" % (module, cfg, p.rc))
    d = re.findall(r"depth of the complete state graph search is (\d+)", p.out)
    depth = int(d[-1]) if d else 0
    if p.timeout:
        st = "timeout"
    elif "No error has been found" in p.out or (simulate and p.rc == 0):
        st = "ok"
    elif p.rc in (10, 11, 12, 13) or re.search(r"is violated|Deadlock reached|ostcondition.*(false|violated)|POSTCONDITION", p.out):
        st = "rejected"
    else:
        st = "error"
    return Tlc(st, gen, dis, depth, p.out)


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.counts = [], {}
        self.viol = []
        self.known_hits = set()
        self.known = [l for l in load_known() if l["property"] == prop and l["status"] == "known"]
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.repl = os.path.join(VERIF, "replays", prop)
        shutil.rmtree(self.repl, ignore_errors=True)

    def dir(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, what, files=(), key=None):
        """Report one violation unless it is a listed known finding (matched by its key)."""
        for k in self.known:
            if key is not None and key == k["key"]:
                self.known_hits.add(k["key"])
                return
        os.makedirs(self.repl, exist_ok=True)
        n = len(self.viol)
        d = os.path.join(self.repl, "v%d" % n)
        os.makedirs(d, exist_ok=True)
        for f in files:
            if os.path.isfile(f):
                shutil.copy(f, d)
        with open(os.path.join(d, "what.txt"), "w") as o:
            o.write(what + "\n")
        self.viol.append((what, d))

    def model(self, module, cfg, name=None, workers=JOBS, timeout=600, heap="8g", need=(), env=None, extra=()):
        """Exhaustively check a configuration of the specification; its actions must all be exercised."""
        r = tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, coverage=True, env=env, extra=extra)
        if r.status == "rejected":
            raise CheckError("the specification itself is inconsistent (%s): %s" % (cfg, r.brief()))
        if r.status != "ok":
            raise CheckError("TLC failed on %s: %s\n%s" % (cfg, r.status, r.out[-1500:]))
        cov = action_coverage(r.out)
        for a in need:
            if cov.get(a, 0) == 0:
                raise CheckError("vacuous model %s: action %s never taken" % (cfg, a))
        self.states += r.distinct
        self.transitions += r.gen
        self.counts["model:" + (name or cfg)] = {"distinct_states": r.distinct, "transitions": r.gen, "depth": r.depth}
        return r

    def validate(self, module, trace, what, cfg=None, env=None, nruns=1, key=None, timeout=600, rerun=None):
        """Check a recorded trace against the specification. rerun() must re-create it: a rejection counts only if it repeats."""
        e = {"TRACE": trace}
        e.update(env or {})
        r = tlc(module, cfg, env=e, timeout=timeout)
        if r.status == "ok":
            self.states += r.distinct
            self.transitions += r.gen
            self.traces += nruns
            return True
        if r.status != "rejected":
            # TLC could not evaluate the trace: a value outside what the specification can describe
            if r.status == "timeout" or not re.search(r"Attempted|evaluat|null|index|domain|Overflow|overflow", r.out):
                raise CheckError("TLC failed on a trace: %s\n%s" % (r.status, r.out[-1500:]))
        if rerun is not None:
            rerun()
            r2 = tlc(module, cfg, env=e, timeout=timeout)
            if r2.status == "ok":
                raise CheckError("a rejection did not repeat: " + what)
            r = r2
        at = reject_line(trace, r)
        self.violation("%s: not a behaviour of %s (%s) near line %d: %s" % (what, module, r.brief(), at[0], at[1]), [trace], key)
        return False

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples}
        cov.update(self.counts)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as o:
            json.dump(ev, o, indent=1)
            o.write("\n")
        shutil.rmtree(self.work, ignore_errors=True)
        for k in self.known:
            if k["key"] in self.known_hits:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for what, d in self.viol[:5]:
            print("  " + what)
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
        if not self.viol:
            print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" %
                  (self.prop, self.states, self.transitions, self.traces, time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.viol else 0


def reject_line(trace, r):
    """Line at which validation stopped (every consumed line is one state)."""
    n = r.depth
    if "is violated" in r.out:
        s = re.findall(r"^State (\d+):", r.out, re.M)
        n = int(s[-1]) - 1 if s else n
    try:
        with open(trace) as f:
            for i, l in enumerate(f):
                if i == n:
                    return n + 1, l.strip()[:400]
    except OSError:
        pass
    return n + 1, "?"


def action_coverage(out):
    cov = {}
    for m in re.finditer(r"^<(\w+) line [^>]*>: ([\d,]+):([\d,]+)", out, re.M):
        cov[m.group(1)] = cov.get(m.group(1), 0) + int(m.group(3).replace(",", ""))
    for m in re.finditer(r"^<(\w+) line [^>]*\)>: ([\d,]+):([\d,]+)", out, re.M):
        cov[m.group(1)] = max(cov.get(m.group(1), 0), int(m.group(3).replace(",", "")))
    return cov


def load_known():
    """known_findings.txt: 'known: property=<id> key=<key> <what>' and 'fixed: property=<id> <commit> <what>'."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m:
                res.append({"status": "known", "property": m.group(1), "key": m.group(2), "what": m.group(3).strip()})
    return res


def main(prop, body, level="model_checking"):
    """Run body(check) and turn the result into the exit status of the check."""
    c = None
    try:
        c = Check(prop, level)
        body(c)
        rc = c.finish()
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        if c is not None and c.viol:           # a definite violation was already established
            rc = c.finish()
        else:
            rc = 2
            if c is not None:
                shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)
