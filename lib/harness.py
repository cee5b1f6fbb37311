"""Running the C++ harness programs."""
import json, os, shutil
from vlib import *


def traced(c, prog, args, name, timeout=120, env=None, files=(), key=None, mem_gb=4, ok_rcs=(0,)):
    """Run a harness that writes an ndjson trace. A crash or hang that repeats is a violation.
    Returns the path of the trace or None."""
    out = os.path.join(c.work, name + ".ndjson")
    cmd = [os.path.join(BIN, prog)] + ["%s=%s" % kv for kv in args.items()] + ["out=" + out]
    for attempt in (1, 2):
        d = c.dir("run_" + name)
        for f in os.listdir(d):
            pth = os.path.join(d, f)
            shutil.rmtree(pth) if os.path.isdir(pth) else os.unlink(pth)
        for f in list(files) + [REPO + "/stellar.dat"]:
            if os.path.exists(f):
                shutil.copy(f, d)
        t0 = time.time()
        p = run(cmd, timeout=timeout, cwd=d, env=env, mem_gb=mem_gb)
        log("%s %.1fs rc=%s %s" % (name, time.time() - t0, p.rc, " ".join(cmd[1:])))
        if p.rc in ok_rcs and not p.timeout:
            return out
    what = "%s %s: %s" % (prog, " ".join("%s=%s" % kv for kv in args.items()),
                          "does not finish within %d s" % timeout if p.timeout else "ends with status %d: %s" % (p.rc, p.out[-300:].strip()))
    with open(out + ".txt", "w") as o:
        o.write(what + "\n" + p.out)
    c.violation(what, [out, out + ".txt"], key)
    return None


def lines(path):
    r = []
    with open(path) as f:
        for l in f:
            try:
                r.append(json.loads(l))
            except ValueError:
                r.append({"e": "garbled", "text": l[:200]})
    return r


def concat(paths, out):
    with open(out, "w") as o:
        for p in paths:
            with open(p) as f:
                shutil.copyfileobj(f, o)
    return out


def batch(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def run_and_validate(c, prog, jobs, module, cfg=None, per=6, timeout=120, env=None, tlc_timeout=600, keyf=None, okf=None):
    """jobs: list of argument dicts. Runs all, validates them in concatenated batches.
    A rejected batch is re-run and re-validated run by run."""
    ps = pmap(lambda kv: traced(c, prog, kv[1], "t%d" % kv[0], timeout, env, key=keyf(kv[1]) if keyf else None,
                                    ok_rcs=okf(kv[1]) if okf else (0,)), list(enumerate(jobs)))
    ok = [(j, p) for j, p in zip(jobs, ps) if p]
    for j, p in ok[:2]:
        c.sample({"run": " ".join([prog] + ["%s=%s" % kv for kv in j.items()]), "events": len(open(p).readlines())})
    for j, p in ok:
        c.count("trace_events", sum(1 for _ in open(p)))
    bs = batch(ok, per)
    def go(ib):
        i, b = ib
        f = concat([p for _, p in b], os.path.join(c.work, "batch%d.ndjson" % i))
        r = tlc(module, cfg, env=dict(env or {}, TRACE=f), timeout=tlc_timeout)
        return (b, r)
    bad = []
    for b, r in pmap(go, list(enumerate(bs))):
        if r.status == "ok":
            c.states += r.distinct; c.transitions += r.gen; c.traces += len(b)
        else:
            bad.append(b)
    for b in bad:
        hit = 0
        for n, (j, p) in enumerate(b):
            nm = os.path.basename(p)[:-7]
            if not c.validate(module, p, "%s %s" % (prog, " ".join("%s=%s" % kv for kv in j.items())), cfg=cfg, env=env,
                       key=keyf(j) if keyf else None, timeout=tlc_timeout,
                       rerun=lambda: traced(c, prog, j, nm, timeout, env, ok_rcs=okf(j) if okf else (0,))):
                hit += 1
            if hit >= 3:
                break
        if len(c.viol) >= 6:
            break
    return ok
