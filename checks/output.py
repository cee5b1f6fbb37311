"""C09, C11, C12: snapshot output, restart and crash safety, decided with spec/Output."""
import random, re
from harness import *

MODELS = {"C09": [("safe", True)], "C11": [("safe", True)], "C12": [("safe", True), ("inplace", False)]}
DEEP = {"C09": ["deep"], "C11": ["twice", "deep"], "C12": ["twice", "deep"]}
NEED = ["MCTick", "MCKill", "MCOp", "MCDone", "MCCrash", "MCRecover", "MCStart"]


def chain(c, name, args, phases, timeout=60):
    """A history of processes over one directory: run, crash, (edit the log), restart, ... as one trace."""
    out = os.path.join(c.work, name + ".ndjson")
    d = c.dir("run_" + name)
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    if os.path.exists(REPO + "/stellar.dat"):
        shutil.copy(REPO + "/stellar.dat", d)
    ev, ops = [], 0
    for k, ph in enumerate(phases):
        a = dict(args, dir=d, **{x: y for x, y in ph.items() if x != "edit"})
        log_there = os.path.exists(os.path.join(d, "out.restart"))
        if k:
            if ph.get("edit"):
                s = sorted(f for f in os.listdir(d) if re.match(r"out\.%s\.\d{5}$" % args.get("form", "su"), f))
                done = [f for f in s if {"e": "close", "f": "snap.%d" % int(f[-5:]), "log": ""} in ev]
                if done:
                    f = done[ph["edit"] % len(done)]
                    with open(os.path.join(d, "out.restart"), "w") as o:
                        o.write("%s\n%s\n" % (args.get("form", "su"), f))
                    ev.append({"e": "edit", "f": "snap.%d" % int(f[-5:])})
            a.update(restart=1, seed=args["seed"] + 17 * k)
            a["give"] = 0 if log_there else 1
        p = run([os.path.join(BIN, "outputs")] + ["%s=%s" % kv for kv in a.items()] + ["out=" + out + ".p"], timeout=timeout, cwd=d)
        L = lines(out + ".p") if os.path.exists(out + ".p") else []
        if p.timeout or p.rc not in (0, 4, 99):
            L.append({"e": "abort", "rc": p.rc, "msg": p.out[-200:]})
        if p.rc == 0:
            L.append({"e": "crash"})
        m = re.findall(r"ops (\d+)", p.out)
        ops = int(m[0]) if m else 0
        if k == 0 and L:
            L[0]["args"] = " ".join("%s=%s" % kv for kv in args.items()) + " " + str(phases)
        ev += L
        if p.rc not in (0, 99):
            break
        if k + 1 == len(phases) and ev[-1]["e"] == "crash" and p.rc == 0:
            ev.pop()
    with open(out, "w") as o:
        for e in ev:
            o.write(json.dumps(e) + "\n")
    shutil.rmtree(d, ignore_errors=True)
    return out, ops


def histories(c, H, per=10):
    """H: list of (args, phases)."""
    ps = pmap(lambda ih: chain(c, "h%d" % ih[0], *ih[1])[0], list(enumerate(H)))
    for h, p in list(zip(H, ps))[:3]:
        c.sample({"history": [h[0], h[1]], "events": sum(1 for _ in open(p))})
    for p in ps:
        c.count("trace_events", sum(1 for _ in open(p)))
        for l in lines(p):
            if l["e"] in ("tick", "recover", "kill", "edit", "move", "close"):
                c.count("ev_" + l["e"])
    ok = list(zip(H, ps, range(len(H))))
    def go(ib):
        i, b = ib
        f = concat([p for _, p, _ in b], os.path.join(c.work, "batch%d.ndjson" % i))
        return b, tlc("OutputTrace", env={"TRACE": f})
    for b, r in pmap(go, list(enumerate(batch(ok, per)))):
        if r.status == "ok":
            c.states += r.distinct; c.transitions += r.gen; c.traces += len(b)
            continue
        for h, p, n in b:
            c.validate("OutputTrace", p, "history %s" % (h,), rerun=lambda: chain(c, "h%d" % n, *h))
            if len(c.viol) >= 4:
                return ps
    return ps


def variants(rnd, forms=("su", "sf", "column")):
    a = dict(sim=rnd.choice(["gradhsph", "gradhsph", "nbody", "nbody", "mfvmuscl"]), form=rnd.choice(forms), nlevels=rnd.choice([1, 2, 3, 4]),
             seed=rnd.randrange(1, 10 ** 6), first=rnd.choice([0, 0, 24, 100]), dt=rnd.choice([10, 24, 40, 64, 200]),
             lite=rnd.choice([0, 1]), lfirst=rnd.choice([0, 50]), ldt=rnd.choice([16, 30, 90]), nrst=rnd.choice([3, 7, 20, 1000]),
             loops=rnd.choice([25, 40, 60]), smin=rnd.choice([2, 3]), smax=6)
    if a["sim"] == "gradhsph":
        a["ns"] = rnd.choice([0, 2]); a["ndim"] = rnd.choice([1, 1, 2])
    if a["sim"] == "mfvmuscl":
        a["nlevels"] = rnd.choice([1, 3]); a["ng"] = 8
    if a["sim"] == "nbody":
        a["nbody"] = rnd.choice(["lfkdk", "lfdkd", "hermite4"])
    return a


def selftest(c, ps):
    for p in ps:
        L = lines(p)
        for what, pick in (("done", lambda l: l["e"] == "done" and l["nout"] > 1), ("close", lambda l: l["e"] == "close" and l["log"])):
            ks = [i for i, l in enumerate(L) if pick(l)]
            if len(ks) < 2:
                break
            M = [dict(l) for l in L]
            if what == "done":
                M[ks[-1]]["nout"] += 1
            else:
                M[ks[-1]]["log"] = "snap.1" if M[ks[-1]]["log"] != "snap.1" else "tmp"
            q = os.path.join(c.work, "bad.ndjson")
            with open(q, "w") as o:
                o.write("".join(json.dumps(l) + "\n" for l in M))
            if tlc("OutputTrace", env={"TRACE": q}).status == "ok":
                raise CheckError("a corrupted trace (%s) was accepted" % what)
            c.count("corrupted_traces_rejected")
        else:
            return


def body(prop):
    def f(c):
        build("outputs")
        rnd = random.Random(SEED * 7919 + int(prop[1:]))
        for m, good in MODELS[prop]:
            if good:
                c.model("MCOutput", "MCOutput_%s.cfg" % m, m, need=NEED)
            else:    # the former protocol of the code (files overwritten in place) must be seen as unsafe
                r = tlc("MCOutput", "MCOutput_%s.cfg" % m, workers=4)
                if r.status != "rejected" or "RestartSafe" not in r.out:
                    raise CheckError("the in-place protocol was not refuted: " + r.brief())
                c.count("unsafe_protocol_refuted")
        if THOROUGH:
            for m in DEEP[prop]:
                c.model("MCOutput", "MCOutput_%s.cfg" % m, m, timeout=800)
        H = []
        if prop == "C09":
            for i in range(400 if THOROUGH else 90):
                a = variants(rnd)
                a["api"] = ["main", "run", "interactive"][i % 3]
                if a["api"] == "main" and rnd.random() < 0.3:
                    a["kill"] = rnd.randrange(3, a["loops"])
                H.append((a, [{}]))
        elif prop == "C11":
            for i in range(300 if THOROUGH else 80):
                a = variants(rnd, ("su", "sf"))
                ph = [{"loops": rnd.randrange(1, 40)}]
                if rnd.random() < 0.2:
                    ph[0]["kill"] = rnd.randrange(0, ph[0]["loops"])
                for g in range(rnd.choice([1, 1, 2, 3])):
                    ph.append({"loops": rnd.randrange(1, 30), "edit": rnd.choice([0, 0, rnd.randrange(1, 50)])})
                H.append((a, ph))
        else:
            base = [dict(sim="gradhsph", form="su", ng=5, dt=16, nrst=5, first=0, lite=1, ldt=24, loops=14, smin=2, smax=4, nlevels=2),
                    dict(sim="nbody", form="sf", dt=24, nrst=4, first=24, lite=0, loops=12, smin=2, smax=4, nlevels=3, kill=11),
                    dict(sim="gradhsph", form="sf", ng=40, dt=20, nrst=3, first=8, lite=0, loops=9, smin=2, smax=4, nlevels=1)]
            for b in base[:3 if THOROUGH else 3]:
                b = dict(b, seed=rnd.randrange(1, 10 ** 6))
                _, ops = chain(c, "count", b, [{}])
                if ops < 10:
                    H.append((b, [{}]))
                    continue
                step = 1 if THOROUGH else max(1, ops // 45)
                for k in range(1 + rnd.randrange(step), ops + 1, step):
                    torn = str(rnd.randrange(2))
                    ph = [{"crash": k, "torn": torn}, {"loops": 5}]
                    if rnd.random() < 0.4:
                        ph = [{"crash": k, "torn": torn}, {"loops": 6, "crash": 1 + rnd.randrange(12)}, {"loops": 4}]
                    H.append((b, ph))
            c.count("crash_points", len(H))
        ps = histories(c, H)
        if not c.viol:
            selftest(c, ps)
    return f
