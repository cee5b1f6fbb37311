"""C05: the account book of the meshless scheme and the force sums of the SPH schemes, decided with spec/Ledger."""
import random
from harness import *

NEED = ["Flux", "End"]
REFUTED = [("coarser", "Timely"), ("active", "Timely"), ("id", "Timely"), ("cut", "Conserved")]


def mfv(rnd):
    nd = rnd.choice([1, 1, 1, 2, 2])
    a = dict(seed=rnd.randrange(1, 10 ** 6), sim="mfvmuscl", ndim=nd, nlevels=rnd.choice([1, 2, 3, 4, 5]), diff=rnd.choice([1, 1, 2, 4]),
             tree=rnd.choice(["kdtree", "octtree", "bruteforce"]), leaf=rnd.choice([1, 4]), ntb=rnd.choice([1, 1, 2, 8]), u=5, v=rnd.choice([0.1, 0.4]), jit=0.3,
             riemann=rnd.choice(["hllc", "exact"]), zmf=rnd.choice([0, 0, 1]), limiter=rnd.choice(["none", "conservative", "conservative", "simple"]))
    a["bc"] = "".join(rnd.choice(["oo", "pp", "pp", "mm", "om", "mo"]) for _ in range(nd))
    a["n"], a["steps"] = (24, rnd.choice([16, 30])) if nd == 1 else (36, 8)
    if nd == 2:
        a["bc"] = rnd.choice(["oooo", "oooo", "mmoo", "oomm", "moom"])
        if rnd.random() < 0.25:
            a.update(bc=rnd.choice(["pppp", "ppoo", "ppmm"]), n=81, steps=4)
    if a["nlevels"] > 2:
        a.update(hot=rnd.choice([6, 10]), hotf=rnd.choice([30, 200]))
    if rnd.random() < 0.2:
        a["static"] = 1
    if rnd.random() < 0.2 and "m" not in a["bc"] and "p" not in a["bc"]:
        a.update(grav=1, zmf=1)
    return a


def wind(rnd):
    """A supersonic wind against a mirror: particles are reflected. (May end in an unphysical state, at which the code stops.)"""
    return dict(seed=rnd.randrange(1, 10 ** 6), sim="mfvmuscl", ndim=2, nlevels=rnd.choice([1, 1, 2, 4]), diff=rnd.choice([1, 2]), tree=rnd.choice(["kdtree", "octtree", "bruteforce"]), leaf=4, u=5, v=rnd.choice([0.3, 3]), jit=0.3,
                riemann=rnd.choice(["hllc", "exact"]), zmf=rnd.choice([0, 0, 1]), limiter=rnd.choice(["none", "conservative", "simple"]), eos="isothermal", temp=1, bulk=rnd.choice([-20, -10, 10, 20, 20]),
                bc=rnd.choice(["mmoo", "mmoo", "mmmm"]), n=36, steps=10, wind=1)


def sph(rnd):
    nd = rnd.choice([1, 2, 2, 3])
    a = dict(seed=rnd.randrange(1, 10 ** 6), sim="gradhsph", ndim=nd, nlevels=1, tree=rnd.choice(["kdtree", "octtree", "bruteforce"]), leaf=rnd.choice([1, 4]), ntb=rnd.choice([1, 2, 8]), steps=6,
             u=1, v=rnd.choice([0.1, 0.5, 2.0]), jit=rnd.choice([0.2, 0.8]), int=rnd.choice(["lfkdk", "lfdkd"]), avisc=rnd.choice(["none", "mon97", "mon97"]), acond=rnd.choice(["none", "wadsley2008", "price2008"]),
             tdavisc=rnd.choice(["none", "mm97", "cd2010"]))
    a["bc"] = "oo" * nd
    a["n"] = {1: 30, 2: 60, 3: 100}[nd]
    if rnd.random() < 0.4:
        a.update(bc="pp" * nd, hfac=0.85, n={1: 40, 2: 100, 3: 216}[nd], jit=0.2, v=0.1)
    return a


def selftest(c, ok):
    """An exchange booked on one side only, an account not cleared, a pair booked twice: all must be noticed."""
    done = set()
    for j, p in ok:
        if j.get("sim") != "mfvmuscl" or j["limiter"] == "simple":
            continue
        L = lines(p)
        for n, e in enumerate(L):
            bad = {}
            if e["e"] == "flux":
                for x, b in enumerate(e["x"]):
                    big = [k for k in b["nb"] if k["m"] == 0 and max(map(abs, k["g"])) > 10000]
                    if not big:
                        continue
                    k = b["nb"].index(big[0])
                    M = json.loads(json.dumps(L[:n + 1]))
                    M[n]["x"][x]["nb"][k]["g"] = [0] * len(big[0]["g"])
                    bad["oneside"] = M
                    M = json.loads(json.dumps(L[:n + 1]))
                    M[n]["x"].append(M[n]["x"][x])
                    bad["twice"] = M
                    M = json.loads(json.dumps(L[:n + 1]))
                    M[n]["dq"][big[0]["j"] - 1][0] += 5000
                    bad["account"] = M
                    break
            if e["e"] == "end":
                a = [i for i in range(len(e["act"])) if e["act"][i] and not e["dead"][i]]
                if a:
                    M = json.loads(json.dumps(L[:n + 1]))
                    M[n]["dq"][a[0]][-1] += 1
                    bad["notcleared"] = M
            for what in set(bad) - done:
                f = os.path.join(c.work, "bad_%s.ndjson" % what)
                with open(f, "w") as o:
                    o.write("".join(json.dumps(x) + "\n" for x in bad[what]))
                if tlc("LedgerTrace", env={"TRACE": f}).status == "ok":
                    raise CheckError("a corrupted trace (%s) was accepted" % what)
                c.count("corrupted_traces_rejected")
                done.add(what)
            if len(done) == 4:
                return
    raise CheckError("no trace to corrupt: %s" % done)


def body(prop):
    def f(c):
        build("ledger")
        rnd = random.Random(SEED * 7919 + 5)
        for m in ["ok", "mirror"] if THOROUGH else ["ok"]:
            c.model("Ledger", "Ledger_%s.cfg" % m, m, need=NEED, timeout=800)
        runs = pmap(lambda v: tlc("Ledger", "Ledger_%s.cfg" % v[0], workers=2), REFUTED)
        for (m, inv), r in zip(REFUTED, runs):
            if r.status != "rejected" or inv not in r.out:
                raise CheckError("the variant %s was not refuted: %s" % (m, r.brief()))
            c.count("unsound_rules_refuted")
        k = 10 if THOROUGH else 1
        jobs = [mfv(rnd) for _ in range(52 * k)] + [wind(rnd) for _ in range(12 * k)] + [sph(rnd) for _ in range(16 * k)]
        ok = run_and_validate(c, "ledger", jobs, "LedgerTrace", per=1, okf=lambda j: (0, -6, 134) if "wind" in j else (0,))
        for j, p in ok:
            L = lines(p)
            c.count("complete_runs", L[-1]["e"] == "done")
            for e in L:
                if e["e"] == "flux":
                    c.count("bookings", len(e["x"]))
                    c.count("passes_with_unequal_steps", len(set(e["ns"])) > 1)
                    c.count("bookings_with_mirror_images", sum(any(q["m"] for q in b["nb"]) for b in e["x"]))
                elif e["e"] == "bound":
                    c.count("reflections", len(e["flip"]))
                elif e["e"] == "force":
                    c.count("force_sums", e["all"])
        if not c.viol:
            done = c.counts.get("complete_runs", 0) if hasattr(c, "counts") else None
            if done is not None and done < 0.6 * len(jobs):
                raise CheckError("only %d of %d runs came to their end" % (done, len(jobs)))
            selftest(c, ok)
    return f
