"""C14: one simulation, set up once and run in pieces, is one run - decided with spec/Session and SessionTrace."""
import random
from harness import *

REFUTED = [("again", "OneRun"), ("unlocked", "Fixed"), ("dowhile", "AsAsked"), ("onemore", "AsAsked"), ("total", "AsAsked"), ("lost", "AllHanded"), ("dirty", "OneRun")]
BASE = [
    dict(sim="gradhsph", ndim=1, n=24), dict(sim="gradhsph", ndim=1, n=30, tree="octtree", single=1, com=1, nlevels=3), dict(sim="gradhsph", ndim=1, n=30, int="lfdkd", tree="bruteforce", first=0.013),
    dict(sim="gradhsph", ndim=2, n=225, nlevels=3, v=1.5), dict(sim="gradhsph", ndim=2, n=64, per=0, nlevels=4, form="column", grav=1, v=2), dict(sim="gradhsph", ndim=2, n=100, per=0, nlevels=3, form="sf", lite=1, v=2),
    dict(sim="gradhsph", ndim=3, n=60, per=0, grav=1, ns=2, nlevels=3), dict(sim="gradhsph", ndim=3, n=100, per=0, grav=1, sinks=1, v=0.3, rhosink=2, nlevels=4, tend=0.4, dt=0.03), dict(sim="gradhsph", ndim=3, n=50, per=0, grav=1, ns=3, nbody="hermite4", nlevels=4, tend=0.2),
    dict(sim="mfvmuscl", ndim=1, n=30, nlevels=4, v=2, tend=0.3), dict(sim="mfvmuscl", ndim=2, n=225, nlevels=2, v=1.5), dict(sim="mfvmuscl", ndim=3, n=64, per=0, nlevels=3, v=2, grav=1, ns=2), dict(sim="mfvmuscl", ndim=2, n=64, per=0, nlevels=4, form="sf", lite=1, v=2),
    dict(sim="nbody", ndim=3, ns=4, per=0, nbody="hermite4"), dict(sim="nbody", ndim=3, ns=5, per=0, nbody="hermite4", nlevels=3, tend=2, dt=0.05, sub=1), dict(sim="nbody", ndim=2, ns=5, per=0, nbody="lfkdk", nlevels=3, tend=2, dt=0.05),
    dict(sim="nbody", ndim=3, ns=6, per=0, nbody="lfdkd", nlevels=4, tend=1, dt=0.1)]


def jobs(rnd, k):
    r = []
    for i in range(k):
        for b in BASE:
            a = dict(b, seed=rnd.randrange(1, 10 ** 6), ntb=rnd.choice([1, 1, 2, 4]), nrst=rnd.choice([1, 2, 3, 512]), ndiag=rnd.choice([1, 3, 64]), nmax=rnd.choice([0, 5, 9, 14, 1000, 1000, 1000]))
            if rnd.random() < 0.3:
                a["dt"] = rnd.choice([0.001, 0.007, 1])
            r.append(a)
    return r


def selftest(c, ok):
    done = set()
    for j, p in ok:
        L = lines(p)
        for n, e in enumerate(L):
            bad = {}

            def mut(name, f):
                if name not in done:
                    M = json.loads(json.dumps(L))
                    f(M[n])
                    bad[name] = M
            if e["e"] in ("irun", "run"):
                mut("state", lambda x: x.update(h="0"))
                if e["stop"] == "no" and 0 < e["steps"] < len(L[0]["ref"]) - 1:
                    mut("one more", lambda x: x.update(steps=e["steps"] + 1, h=L[0]["ref"][e["steps"] + 1]["h"]))
                if e["files"]:
                    mut("no file", lambda x: x.update(files=x["files"][:-1]))
                if e["e"] == "irun" and e["names"]:
                    mut("not handed", lambda x: x.update(names=x["names"][:-1], views=x["views"][:-1]))
                    mut("other contents", lambda x: x["views"].__setitem__(0, "0"))
                if e["e"] == "run" and e["stop"] == "kill" and e["cont"]:
                    mut("no restart", lambda x: x.update(tmp=False))
                    mut("finished", lambda x: x.update(cont=False))
            if e["e"] == "call" and e["err"] and e["what"] == "setup":
                mut("accepted", lambda x: x.update(err=False))
            if e["e"] == "arrays":
                mut("array", lambda x: x["all"][0].update(n=x["all"][0]["n"] + 1))
                mut("refusal", lambda x: x["all"][-1].update(err=not x["all"][-1]["err"]))
                mut("memory", lambda x: x.update(freed=False))
            if e["e"] == "kept" and e["n"]:
                mut("not kept", lambda x: x.update(ok=False))
            for what in bad:
                f = os.path.join(c.work, "bad_%s.ndjson" % what.replace(" ", "_"))
                with open(f, "w") as o:
                    o.write("".join(json.dumps(x) + "\n" for x in bad[what]))
                if tlc("SessionTrace", env={"TRACE": f}).status == "ok":
                    raise CheckError("a corrupted trace (%s) was accepted" % what)
                c.count("corrupted_traces_rejected")
                done.add(what)
            if len(done) == 12:
                return
    raise CheckError("no trace to corrupt: %s" % done)


def body(prop):
    def f(c):
        build("session")
        rnd = random.Random(SEED * 7919 + 14)
        for m in ["ok", "nmax", "deep"] if THOROUGH else ["ok", "nmax"]:
            c.model("Session", "Session_%s.cfg" % m, m, need=["Call", "Run", "IRun", "Killed", "Soon"], timeout=1500)
        runs = pmap(lambda v: tlc("Session", "Session_%s.cfg" % v[0], workers=1), REFUTED)
        for (m, inv), r in zip(REFUTED, runs):
            if r.status != "rejected" or inv not in r.out:
                raise CheckError("the variant %s was not refuted: %s" % (m, r.brief()))
            c.count("unsound_rules_refuted")
        ok = run_and_validate(c, "session", jobs(rnd, 60 if THOROUGH else 5), "SessionTrace", per=8)
        for j, p in ok:
            for e in lines(p):
                k = e["e"]
                if k == "init":
                    c.count("steps_of_reference", len(e["ref"]) - 1)
                elif k == "call":
                    c.count("calls_refused" if e["err"] else "calls_accepted")
                elif k in ("irun", "run"):
                    c.count("%s_%s" % (k, "stopped" if e["stop"] != "no" else "to_the_end" if e["n"] < 0 else "n_steps"))
                    c.count("snapshots_handed", len(e.get("names", [])))
        if not c.viol:
            selftest(c, ok)
    return f
