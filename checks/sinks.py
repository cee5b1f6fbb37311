"""C04: sinks are born and grow by the rules, and nothing is lost on the way; decided with spec/Sinks."""
import random
from harness import *

NEED = ["Search", "Accrete", "Move"]
REFUTED = [("shared", "MassKept"), ("corpse", "MassKept"), ("oldsinks", "Apart"), ("looseCap", "Capped")]


def common(rnd):
    nd = rnd.choice([1, 2, 3, 3])
    a = dict(seed=rnd.randrange(1, 10 ** 6), ndim=nd, sim=rnd.choice(["gradhsph", "gradhsph", "mfvmuscl"]), tree=rnd.choice(["kdtree", "octtree", "bruteforce"]), leaf=rnd.choice([1, 4]),
             rmode=rnd.choice(["hmult", "fixed", "kernel"]), smooth=rnd.choice([0, 0, 1]), cap=rnd.choice([-1, -1, -1, 1, 2, 3]), int=rnd.choice(["lfkdk", "lfdkd"]), nbody=rnd.choice(["lfkdk", "lfdkd"]))
    a["srad"] = rnd.choice([0.05, 0.1, 0.2]) if a["rmode"] == "fixed" else rnd.choice([1, 2, 4])
    if a["smooth"]:
        a.update(sfrac=rnd.choice([0.01, 0.1, 0.5]), sdt=rnd.choice([0.001, 0.01, 1]), alpha=rnd.choice([0.01, 0.2]))
    return a


def running(rnd):
    """A collapsing cloud, with or without stars to begin with."""
    a = common(rnd)
    a.update(mode="run", n={1: 40, 2: 60, 3: 80}[a["ndim"]], steps=12, rho=rnd.choice([2, 5, 10]), ns=rnd.choice([0, 0, 1, 2, 3]), sh=rnd.choice([0.05, 0.1]), nlevels=rnd.choice([1, 1, 3, 5]), diff=rnd.choice([1, 2]), ntb=rnd.choice([1, 1, 2, 4]),
             clumps=rnd.choice([1, 2, 3]), infall=rnd.choice([0, 1, 3]), v=rnd.choice([0.1, 0.5]))
    if rnd.random() < 0.15:
        a.update(units=1, rho=rnd.choice([1e-21, 1e-22]))
    if a["sim"] == "mfvmuscl":
        a.update(ntb=1)
    return a


def fabricated(rnd):
    """Any state of gas and sinks, then one search and one accretion, over and over."""
    a = common(rnd)
    a.update(mode="fab", n=rnd.choice([20, 60, 90]), steps=10, ns=rnd.choice([0, 2, 5]), rho=rnd.choice([4, 8]), v=rnd.choice([0.1, 1, 10]), sh=rnd.choice([0.03, 0.1]))
    if rnd.random() < 0.2:
        a["tight"] = 1
    if rnd.random() < 0.15:
        a.update(units=1)
    if rnd.random() < 0.1:
        a.update(n=400, sh=0.2, ns=3)
    if rnd.random() < 0.25 and a["ndim"] > 1:
        a.update(grid=1, bc=rnd.choice(["pp", "pp", "mm"]) * a["ndim"], edge=1, ns=max(a["ns"], 2), hfac=0.85, n=100 if a["ndim"] == 2 else 216, v=0.1, tree=rnd.choice(["kdtree", "octtree"]))
        a["grav"] = 1 if a["bc"] == "pppppp" and rnd.random() < 0.5 else 0
    return a


def selftest(c, ok):
    """Mass lost, a corpse revived, a double owner, a sink too many: all must be noticed."""
    done = set()
    for j, p in ok:
        L = lines(p)
        for n, e in enumerate(L):
            bad = {}

            def alter(what, f):
                M = json.loads(json.dumps(L[:n + 1]))
                f(M[n])
                bad[what] = M
            if e["e"] == "accrete":
                eaten = [i for i in range(len(e["m0"])) if e["m0"][i] - e["m1"][i] > 10000]
                if eaten:
                    alter("mass", lambda x: x["m1"].__setitem__(eaten[0], x["m0"][eaten[0]]))
                    alter("corpse", lambda x: x["d1"].__setitem__(eaten[0], 0))
                    alter("owner", lambda x: x["own"].__setitem__(eaten[0], 0))
                    alter("momentum", lambda x: x["sk"][x["own"][eaten[0]] - 1]["q1"][1].__setitem__(0, x["sk"][x["own"][eaten[0]] - 1]["q1"][1][0] + 5000))
            if e["e"] == "search" and e["born"]:
                alter("cap", lambda x: x.update(cap=x["had"] + len(x["born"]) - 1))
                alter("excluded", lambda x: x["exc"][x["cand"].index(x["born"][-1])].append(0) or [r.append(1) for r in x["exs"]])
                alter("unborn", lambda x: (x["born"].pop(), x["copied"].pop()))
            for what in set(bad) - done:
                f = os.path.join(c.work, "bad_%s.ndjson" % what)
                with open(f, "w") as o:
                    o.write("".join(json.dumps(x) + "\n" for x in bad[what]))
                if tlc("SinksTrace", env={"TRACE": f}).status == "ok":
                    raise CheckError("a corrupted trace (%s) was accepted" % what)
                c.count("corrupted_traces_rejected")
                done.add(what)
            if len(done) == 7:
                return
    raise CheckError("no trace to corrupt: %s" % done)


def body(prop):
    def f(c):
        build("sinks")
        rnd = random.Random(SEED * 7919 + 4)
        for m in ["smooth", "cap", "ok", "deep"] if THOROUGH else ["smooth", "cap"]:
            c.model("Sinks", "Sinks_%s.cfg" % m, m, need=NEED, timeout=600)
        runs = pmap(lambda v: tlc("Sinks", "Sinks_%s.cfg" % v[0], workers=2), REFUTED)
        for (m, inv), r in zip(REFUTED, runs):
            if r.status != "rejected" or inv not in r.out:
                raise CheckError("the variant %s was not refuted: %s" % (m, r.brief()))
            c.count("unsound_rules_refuted")
        k = 10 if THOROUGH else 1
        jobs = [running(rnd) for _ in range(50 * k)] + [fabricated(rnd) for _ in range(70 * k)]
        ok = run_and_validate(c, "sinks", jobs, "SinksTrace", per=2)
        for j, p in ok:
            for e in lines(p):
                if e["e"] == "search":
                    c.count("searches")
                    c.count("sinks_born", len(e["born"]))
                    c.count("candidates", len(e["cand"]))
                    c.count("memory_full", e["full"])
                elif e["e"] == "accrete":
                    c.count("accretions", sum(1 for s in e["sk"] if s["m1"] > s["m0"]))
                    c.count("particles_taken", sum(a != b for a, b in zip(e["d0"], e["d1"])))
                    c.count("particles_taken_in_part", sum(b == 0 and x != y for b, x, y in zip(e["d1"], e["m0"], e["m1"])))
                elif e["e"] == "done":
                    c.count("complete_runs")
        if not c.viol:
            for what, least in [("sinks_born", 50), ("particles_taken", 500), ("particles_taken_in_part", 20)]:
                if c.counts.get(what, 0) < least:
                    raise CheckError("only %d %s" % (c.counts[what], what))
            selftest(c, ok)
    return f
