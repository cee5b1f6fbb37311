"""C01, C02, C03: the block time-step machinery, decided with spec/BlockSteps."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from harness import *

NEED = ["Advance", "MCAssign", "EndStep"]
MODELS = {"C01": ["kdk", "dkd", "mixed", "mfv", "glob"], "C02": ["kdk", "stars", "single", "diff0", "mix3"],
          "C03": ["kdk", "dkd", "mfvnone", "mixed", "diff0"]}
DEEP = {"C01": ["kdk3", "dkd3"], "C02": ["kdk3", "mix3"], "C03": ["kdk3", "dkd3"]}


def jobs(prop, rnd):
    J = []
    base = [dict(sim="gradhsph", scheme="lfkdk", ng=12), dict(sim="gradhsph", scheme="lfdkd", ng=12),
            dict(sim="mfvmuscl", limiter="simple", ng=12), dict(sim="mfvmuscl", limiter="none", ng=12),
            dict(sim="mfvmuscl", limiter="conservative", ng=12, ndim=2),
            dict(sim="gradhsph", scheme="lfkdk", nbody="lfkdk", ng=7, ns=2), dict(sim="gradhsph", scheme="lfkdk", nbody="lfdkd", ng=7, ns=2),
            dict(sim="gradhsph", scheme="lfdkd", nbody="lfdkd", ng=7, ns=2), dict(sim="gradhsph", scheme="lfdkd", nbody="lfkdk", ng=7, ns=2),
            dict(sim="gradhsph", scheme="lfkdk", nbody="hermite4", ng=7, ns=2), dict(sim="mfvmuscl", limiter="simple", nbody="lfkdk", ng=8, ns=2),
            dict(sim="mfvmuscl", limiter="simple", nbody="hermite4", ng=8, ns=1), dict(sim="mfvmuscl", limiter="none", nbody="lfdkd", ng=8, ns=2),
            dict(sim="gradhsph", scheme="lfkdk", ng=16, ndim=2), dict(sim="gradhsph", scheme="lfdkd", ng=12, ndim=3, neib="bruteforce"),
            dict(sim="gradhsph", scheme="lfkdk", ng=9, single=1, nbody="lfkdk", ns=1), dict(sim="gradhsph", scheme="lfdkd", ng=9, single=1),
            dict(sim="mfvmuscl", limiter="simple", ng=9, single=1),
            dict(sim="nbody", nbody="lfkdk", ng=0, ns=4), dict(sim="nbody", nbody="lfdkd", ng=0, ns=4), dict(sim="nbody", nbody="hermite4", ng=0, ns=4),
            dict(sim="nbody", nbody="hermite4ts", ng=0, ns=3)]
    scripts = ["walk", "jump", "deep", "shock", "pow2", "const", "flat"]
    reps = 16 if THOROUGH else 4
    for r in range(reps):
        for b in base:
            j = dict(b)
            j["script"] = scripts[rnd.randrange(5)] if rnd.random() < 0.9 else scripts[5 + rnd.randrange(2)]
            j["diff"] = rnd.choice([0, 1, 1, 2])
            j["nlevels"] = rnd.choice([2, 3, 4, 4, 5, 7])
            if j["nlevels"] >= 5:
                j["smin"], j["smax"] = 8, 14
            if rnd.random() < 0.12:
                j["nlevels"] = 1
            j["loops"] = 220 if THOROUGH else 110
            j["ntb"] = rnd.choice([1, 1, 2, 4])
            j["seed"] = rnd.randrange(1, 10 ** 6)
            J.append(j)
    return J


def generated(c, rnd):
    """Behaviours of the specification, replayed in the code: the criteria TLC chose are scripted into the real main loop."""
    J = []
    for cfgname, extra in (("kdk3", dict(sim="gradhsph", scheme="lfkdk", ng=3, ns=0, nlevels=3)),
                           ("dkd3", dict(sim="gradhsph", scheme="lfdkd", ng=3, ns=0, nlevels=3)),
                           ("mix3", dict(sim="gradhsph", scheme="lfkdk", ng=2, ns=1, nlevels=3)),
                           ("mfvnone", dict(sim="mfvmuscl", limiter="none", ng=2, ns=0, nlevels=3))):
        d = c.dir("sim_" + cfgname)
        n = 40 if THOROUGH else 6
        r = tlc("MCBlockSteps", "MCBlockSteps_%s.cfg" % cfgname, simulate="num=%d,file=%s" % (n, os.path.join(d, "b")),
                extra=["-depth", "180", "-seed", str(rnd.randrange(1, 10 ** 6))], workers=1, timeout=300)
        if r.status != "ok":
            raise CheckError("simulation of %s failed: %s" % (cfgname, r.brief()))
        np_ = extra["ng"] + extra["ns"]
        for f in sorted(os.listdir(d)):
            txt = open(os.path.join(d, f)).read()
            rows = []
            for st in re.split(r"STATE_\d+ ==", txt):
                if 'pc = "end"' in st:
                    cr = [int(x) for x in re.findall(r"crit \|-> (\d+)", st)]
                    if len(cr) == np_:
                        rows.append(" ".join(str(max(x, 1) * 128) for x in cr))
            if len(rows) < 5:
                continue
            tab = os.path.join(d, f + ".tab")
            with open(tab, "w") as o:
                o.write("\n".join(rows) + "\n")
            J.append(dict(extra, diff=1, table=tab, loops=len(rows) - 1, seed=7))
    c.count("spec_behaviours_replayed", len(J))
    return J


def corrupt(c, path, what):
    """The binding itself: one changed field must make a recorded trace unacceptable."""
    L = lines(path)
    ends = [i for i, l in enumerate(L) if l["e"] == "end"]
    ks = [i for i in ends[3:] if L[i][what][0] > 0]
    if not ks:
        return
    L[ks[len(ks) // 2]][what][0] += 64
    p = os.path.join(c.work, "corrupt_%s.ndjson" % what)
    with open(p, "w") as o:
        for l in L:
            o.write(json.dumps(l) + "\n")
    r = tlc("BlockStepsTrace", env={"TRACE": p})
    if r.status == "ok":
        raise CheckError("a corrupted trace (%s) was accepted" % what)
    c.count("corrupted_traces_rejected")


def body(prop):
    def f(c):
        build("stepper")
        rnd = random.Random(SEED * 1000003 + int(prop[1:]))
        for m in MODELS[prop] + (DEEP[prop] if THOROUGH else []):
            c.model("MCBlockSteps", "MCBlockSteps_%s.cfg" % m, m, need=NEED, timeout=800)
        ok = run_and_validate(c, "stepper", jobs(prop, rnd), "BlockStepsTrace", per=6)
        run_and_validate(c, "stepper", generated(c, rnd), "BlockStepsTrace", per=8)
        if ok and not c.viol:
            for w in ("dt", "tlast", "kick"):
                corrupt(c, ok[0][1], w)     # ok[0] is a KDK run
            kinds = {}
            for j, p in ok:
                prev = None
                for l in lines(p):
                    if l["e"] == "limit" and l.get("ret"):
                        kinds["steps_cut_short"] = kinds.get("steps_cut_short", 0) + l["ret"]
                    if l["e"] == "assign":
                        if prev is not None and l["lmax"] != prev:
                            kinds["ladder_changes"] = kinds.get("ladder_changes", 0) + 1
                        if l["n"] == 0:
                            kinds["resyncs"] = kinds.get("resyncs", 0) + 1
                        prev = l["lmax"]
            for k, v in kinds.items():
                c.count(k, v)
    return f
