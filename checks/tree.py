"""C06, C07: who interacts with whom (neighbour lists, tree, gravity walk), decided with spec/Interactions and spec/TreeWalk."""
import random
from harness import *

TREES = ["kdtree", "octtree", "bruteforce"]
NEED = ["Density", "Extent", "Forces", "Die", "Move", "Stock", "Build"]
REFUTED = [("noextent", "ForcesComplete"), ("nostock", "GatherComplete"), ("norebuild", "GatherComplete")]
KNOWN = dict(seed=119738, ndim=1, tree="octtree", leaf=6, nlevels=2, steps=4, maxpass=5, u=1, n=40, sim="gradhsph", bc="pp",
             hfac=1.0, ic="uniform", v=1.0, strict=1)


def hydro(rnd):
    nd = rnd.choice([1, 2, 2, 3])
    a = dict(seed=rnd.randrange(1, 10 ** 6), ndim=nd, tree=rnd.choice(TREES), leaf=rnd.choice([1, 2, 4, 6]), nlevels=rnd.choice([1, 2, 4]),
             steps=rnd.choice([3, 5]), maxpass=5, sim=rnd.choice(["gradhsph", "gradhsph", "mfvmuscl"]), ntb=rnd.choice([1, 1, 2, 8]))
    a["bc"] = "".join(rnd.choice(["oo", "pp", "pp", "mm", "om", "mo"]) for _ in range(nd))
    a["n"] = {1: 30, 2: 40, 3: 50}[nd]
    a["ic"] = rnd.choice(["uniform", "clump", "wall", "line"])
    if a["bc"] != "oo" * nd:
        a["ic"] = "grid"
    if "p" in a["bc"]:
        a.update(hfac=0.85 if a["sim"] == "gradhsph" else 1.0, n={1: 40, 2: 90, 3: 125}[nd], mayraise=1)
    if a["sim"] == "mfvmuscl":
        a.update(u=20, v=0.1, jit=0.4, ic="grid", zmf=rnd.choice([0, 1]))
    else:
        a.update(u=1, v=rnd.choice([0.3, 1.0]), kill=rnd.choice([0, 0, 1, 4]))
        if rnd.random() < 0.3:
            a["cdm"] = rnd.choice([2, 3])
    return a


def gravity(rnd):
    nd = rnd.choice([1, 2, 2, 3, 3])
    a = dict(seed=rnd.randrange(1, 10 ** 6), ndim=nd, tree=rnd.choice(TREES), leaf=rnd.choice([1, 2, 4, 6]), nlevels=rnd.choice([1, 2, 4]),
             steps=rnd.choice([3, 5]), maxpass=5, sim=rnd.choice(["gradhsph", "gradhsph", "mfvmuscl"]), ntb=rnd.choice([1, 1, 2, 8]), bc="oo" * nd,
             grav=1, n=rnd.choice([22, 40, 60]), ns=rnd.choice([0, 0, 2]), theta=rnd.choice([0.1, 0.3, 0.6]), ic=rnd.choice(["uniform", "clump", "wall", "line"]), tol=20)
    if a["ns"]:
        a["sh"] = rnd.choice([0.02, 0.3, 1.0])
    if a["sim"] == "mfvmuscl":
        a.update(u=20, v=0.2, ic="grid", zmf=1)
    else:
        a.update(u=1, v=rnd.choice([0.3, 1.0]), kill=rnd.choice([0, 0, 1, 4]))
        if rnd.random() < 0.4:
            a["cdm"] = rnd.choice([2, 3])
    if nd > 1:
        a["mac"] = rnd.choice(["geometric", "geometric", "eigenmac", "gadget2"])
        a["mult"] = rnd.choice(["monopole", "monopole", "quadrupole", "fast_monopole", "fast_quadrupole"])
        if a["mult"] != "monopole":
            a["tol"] = 400000      # expansions: only gross errors are visible here
    return a


def selftest(c, ok, grav):
    """Dropping one neighbour, or counting one source twice, must be noticed."""
    for j, p in ok:
        L = lines(p)
        for n, e in enumerate(L):
            if e["e"] != "pass":
                continue
            k = next((k for k in (("grav",) if grav else ("hydro", "grad")) if e["q"][k]), None)
            if k is None:
                continue
            for m, q in enumerate(e["q"][k]):
                nb = q["dir"] if grav else q["nb"]
                v = [x for x in range(len(nb)) if grav or nb[x][0] != q["i"]]
                if not v:
                    continue
                for what in ("drop", "twice"):
                    M = json.loads(json.dumps(L[:n + 1]))
                    t = M[n]["q"][k][m]["dir" if grav else "nb"]
                    if what == "drop":
                        del t[v[0]]
                    else:
                        t.append(t[v[0]])
                    f = os.path.join(c.work, "bad_%s.ndjson" % what)
                    with open(f, "w") as o:
                        o.write("".join(json.dumps(x) + "\n" for x in M))
                    if tlc("InteractionsTrace", env={"TRACE": f}).status == "ok":
                        raise CheckError("a corrupted trace (%s) was accepted" % what)
                    c.count("corrupted_traces_rejected")
                return
    raise CheckError("no trace to corrupt")


def body(prop):
    def f(c):
        build("trees")
        grav = prop == "C07"
        rnd = random.Random(SEED * 7919 + int(prop[1:]))
        for m in ["sline", "sring"] if not THOROUGH else ["line", "ring", "deep", "deepring"]:
            c.model("TreeWalk", "TreeWalk_%s.cfg" % m, m, need=NEED, timeout=800)
        runs = pmap(lambda v: tlc("TreeWalk", "TreeWalk_%s.cfg" % v[0], workers=2), REFUTED)
        for (m, inv), r in zip(REFUTED, runs):
            if r.status != "rejected" or inv not in r.out:
                raise CheckError("the variant %s was not refuted: %s" % (m, r.brief()))
            c.count("unsound_orders_refuted")
        gen = gravity if grav else hydro
        jobs = [gen(rnd) for _ in range(900 if THOROUGH else 84)]
        ok = run_and_validate(c, "trees", jobs, "InteractionsTrace", per=4)
        done = 0
        for j, p in ok:
            L = lines(p)
            done += L[-1]["e"] == "done"
            for e in L:
                for k, q in e.get("q", {}).items():
                    if q:
                        c.count("pass_" + k)
                if e["e"] == "star":
                    c.count("star_walks")
        c.count("complete_runs", done)
        if not c.viol and done < 0.6 * len(jobs):
            raise CheckError("only %d of %d runs came to their end" % (done, len(jobs)))
        if not grav:
            p = traced(c, "trees", KNOWN, "strict")
            if p:
                c.validate("InteractionsTrace", p, "trees %s" % KNOWN, key="ghost-gather-range", rerun=lambda: traced(c, "trees", KNOWN, "strict"))
        if not c.viol:
            selftest(c, ok, grav)
    return f
