"""C08: the sides of the box - what becomes of particles beyond them, and the copies there - decided with spec/Boundaries."""
import random
from harness import *

NEED = ["Drift", "Wrap", "Search", "Change", "Refresh"]
REFUTED = [("nocorners", "Complete"), ("onesided", "Complete"), ("again", "Genuine"), ("fromreal", "Genuine"), ("stale", "Genuine"), ("noturn", "Straight"), ("keepstart", "Straight")]
PAIRS = ["pp", "pp", "mm", "mm", "mo", "om", "wm", "mw", "ww", "ow", "oo"]


def sides(rnd, nd, closed=False):
    while True:
        b = [rnd.choice(PAIRS) for _ in range(nd)]
        if any(x != "oo" for x in b) and not (closed and any("o" in x or "w" in x for x in b)):
            return "".join(b)


def fab(rnd):
    nd = rnd.choice([1, 2, 2, 3, 3])
    a = dict(seed=rnd.randrange(1, 10 ** 6), mode="fab", sim=rnd.choice(["gradhsph", "mfvmuscl"]), ndim=nd, bc=sides(rnd, nd), n={1: 20, 2: 36, 3: 64}[nd], rounds=rnd.choice([2, 4]), kill=rnd.choice([0, 0, 1]),
                nmax=rnd.choice([0, 2, 10, 40]), tree=rnd.choice(["kdtree", "octtree", "bruteforce"]), leaf=rnd.choice([1, 4, 8]), lo=rnd.choice([0, 0, -0.5, 2]),
                lx=rnd.choice([1, 1, 2]), ly=rnd.choice([1, 1, 0.5]), lz=rnd.choice([1, 1, 2]), kernel=rnd.choice(["m4", "m4", "quintic", "gaussian"]))
    if a["tree"] == "octtree":
        a["leaf"] = 8     # the copies of a particle exactly on mirrors coincide: a cell must be able to hold them
    return a


def run(rnd):
    nd = rnd.choice([1, 1, 2, 2, 3])
    a = dict(seed=rnd.randrange(1, 10 ** 6), mode="run", sim=rnd.choice(["gradhsph", "gradhsph", "mfvmuscl"]), ndim=nd, bc=sides(rnd, nd), n={1: 50, 2: 144, 3: 512}[nd], steps={1: 30, 2: 12, 3: 3}[nd],
             tree=rnd.choice(["kdtree", "octtree", "bruteforce"]), leaf=rnd.choice([4, 8]), ntb=rnd.choice([1, 1, 2, 8]), nlevels=rnd.choice([1, 1, 3]), int=rnd.choice(["lfkdk", "lfdkd"]), hfac=0.9,
             v=rnd.choice([0.1, 1, 3]), bulk=rnd.choice([0, 2, 10, -10]), cour=rnd.choice([0.1, 0.3]), jit=rnd.choice([0.1, 0.3]))
    if a["sim"] == "mfvmuscl":
        a.update(v=rnd.choice([0.1, 0.5]), bulk=0 if "m" in a["bc"] or "w" in a["bc"] else a["bulk"])
    return a


def selftest(c, ok):
    done = set()
    for j, p in ok:
        L = lines(p)
        for n, e in enumerate(L):
            bad = {}

            def mut(name, f):
                M = json.loads(json.dumps(L[:n + 1]))
                f(M[n])
                bad[name] = M
            if e["e"] == "wrap" and e["ps"]:
                mut("rest", lambda x: x["ps"][0].update(rest=False))
                t = [k for k in range(len(e["ps"][0]["s"])) if e["ps"][0]["s"][k] == 1]
                if t:
                    mut("turn", lambda x: x["ps"][0]["s"].__setitem__(t[0], 0))
                m = [k for k in range(len(e["ps"][0]["w"])) if e["ps"][0]["m0"][k] in ([1], [2])]
                if m:
                    mut("start", lambda x: x["ps"][0]["m0"].__setitem__(m[0], [0]))
            if e["e"] == "copies" and e["at"] != "step" and e["ghosts"]:
                mut("data", lambda x: x["ghosts"][0].update(dat=False))
                mut("twice", lambda x: x["ghosts"].append(x["ghosts"][0]))
                mut("ghost of none", lambda x: x["ghosts"][0].update(s=0))
                g = e["ghosts"]
                for i, q in enumerate(g):
                    r = e["reals"][q["s"] - 1]
                    if all((c in (0,)) or (r["lo" if c in (1, 3) else "hi"][k] < r["rg"][k]) for k, c in enumerate(q["img"])):
                        mut("missing", lambda x: x["ghosts"].pop(i))
                        break
            for what in set(bad) - done:
                f = os.path.join(c.work, "bad_%s.ndjson" % what.replace(" ", "_"))
                with open(f, "w") as o:
                    o.write("".join(json.dumps(x) + "\n" for x in bad[what]))
                if tlc("BoundariesTrace", env={"TRACE": f}).status == "ok":
                    raise CheckError("a corrupted trace (%s) was accepted" % what)
                c.count("corrupted_traces_rejected")
                done.add(what)
            if len(done) == 7:
                return
    raise CheckError("no trace to corrupt: %s" % done)


def body(prop):
    def f(c):
        build("bounds")
        rnd = random.Random(SEED * 7919 + 8)
        for m in ["ok", "wide"] if THOROUGH else ["ok"]:
            c.model("Boundaries", "Boundaries_%s.cfg" % m, m, need=NEED, timeout=1500)
        runs = pmap(lambda v: tlc("Boundaries", "Boundaries_%s.cfg" % v[0], workers=1), REFUTED)
        for (m, inv), r in zip(REFUTED, runs):
            if r.status != "rejected" or inv not in r.out:
                raise CheckError("the variant %s was not refuted: %s" % (m, r.brief()))
            c.count("unsound_rules_refuted")
        k = 10 if THOROUGH else 1
        jobs = [fab(rnd) for _ in range(70 * k)] + [run(rnd) for _ in range(34 * k)]
        ok = run_and_validate(c, "bounds", jobs, "BoundariesTrace", per=4, okf=lambda j: (0, -6, 134) if j["mode"] == "run" else (0,))
        for j, p in ok:
            L = lines(p)
            c.count("complete_runs", L[-1]["e"] == "done")
            for e in L:
                if e["e"] == "wrap":
                    c.count("particles_put_back", len(e["ps"]))
                    c.count("corner_crossings", sum(sum(1 for w in q["w"] if w) > 1 for q in e["ps"]))
                elif e["e"] == "copies":
                    c.count("copies", len(e["ghosts"]))
                    c.count("copies_of_copies", sum(sum(1 for w in q["img"] if w) > 1 for q in e["ghosts"]))
                    c.count("both_sides_at_once", len({(q["s"], k) for q in e["ghosts"] for k, w in enumerate(q["img"]) if w in (1, 3)} & {(q["s"], k) for q in e["ghosts"] for k, w in enumerate(q["img"]) if w in (2, 4)}))
        if not c.viol:
            if c.counts.get("complete_runs", 0) < 0.6 * len(jobs):
                raise CheckError("only %d of %d runs came to their end" % (c.counts.get("complete_runs", 0), len(jobs)))
            selftest(c, ok)
    return f
