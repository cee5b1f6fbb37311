"""C13: what parameter files, and the setting of parameters, mean - decided with spec/Params and ParamsTrace."""
import random
from harness import *

RUNID = [ord(x) for x in "run_id"]
REFUTED = [("noequals", "Meaning"), ("tabs", "BlanksMeanNothing"), ("lastcolon", "Meaning"), ("hash", "Meaning"), ("rounded", "Recorded"), ("nolock", "Locked"), ("shared", "Apart")]
USES = [  # ndim, simulation, initial conditions, parameters
    (1, "gradhsph", "shocktube", "Nlattice1[0]~32,Nlattice2[0]~8"), (2, "gradhsph", "khi", "Nlattice1[0]~8,Nlattice1[1]~4,Nlattice2[0]~8,Nlattice2[1]~4"),
    (2, "mfvmuscl", "khi", "Nlattice1[0]~8,Nlattice1[1]~4,Nlattice2[0]~8,Nlattice2[1]~4"), (2, "gradhsph", "noh", "Nhydro~200"), (3, "gradhsph", "sedov", "Nlattice1[0]~6,Nlattice1[1]~6,Nlattice1[2]~6"),
    (3, "gradhsph", "sphere", "Nhydro~200"), (3, "nbody", "plummer", "Nstar~20"), (1, "gradhsph", "python", "Nhydro~10"), (3, "nbody", "python", "Nstar~3"), (2, "mfvmuscl", "python", "Nhydro~20"), (3, "mfvrk", "python", "Nhydro~20"),
    (1, "gradhsph", "soundwave", "Nhydro~16,Nlattice1[0]~16"), (1, "gradhsph", "cdiscontinuity", "Nlattice1[0]~16,Nlattice2[0]~8"), (1, "gradhsph", "python", "Nhydro~32,dust_forces~full_twofluid,drag_law~fixed"),
    (1, "gradhsph", "python", "Nhydro~32,dust_forces~test_particle,drag_law~fixed,tabulated_kernel~0"), (3, "gradhsph", "python", "Nhydro~10,Nstar~2,sink_particles~1,self_gravity~1,nbody~lfkdk")]


def selftest(c, ok):
    done = set()
    for j, p in ok:
        L = lines(p)
        for n, e in enumerate(L):
            bad = {}

            def mut(name, f):
                if name not in done:
                    M = json.loads(json.dumps(L[:n + 1]))
                    f(M[n])
                    bad[name] = M
            k = e["e"]
            if k == "line" and len(e["chg"]) == 1:
                mut("lost", lambda x: x.update(chg=[]))
                mut("other", lambda x: x["chg"][0].update(i=x["chg"][0]["i"] % 200 + 3))
            if k == "line" and not e["chg"] and 61 not in e["text"]:
                mut("from nothing", lambda x: x.update(chg=[{"i": 3, "neg": False, "d": [49, 49], "x": 0}]))
            if k == "set" and e["err"]:
                mut("unlocked", lambda x: x.update(err=""))
            if k == "get" and not e["err"] and 10 > len(e["out"]) > 1:
                mut("wrong value", lambda x: x.update(out=x["out"] + [55]))
            if k == "record":
                mut("unrecorded", lambda x: x.update(lines=[t for t in x["lines"] if t[:6] != RUNID]))
            if k == "use" and not e["err"]:
                mut("unknown name", lambda x: x.update(grown=True))
            for what in bad:
                f = os.path.join(c.work, "bad_%s.ndjson" % what.replace(" ", "_"))
                with open(f, "w") as o:
                    o.write("".join(json.dumps(x) + "\n" for x in bad[what]))
                if tlc("ParamsTrace", env={"TRACE": f}).status == "ok":
                    raise CheckError("a corrupted trace (%s) was accepted" % what)
                c.count("corrupted_traces_rejected")
                done.add(what)
            if len(done) == 7:
                return
    raise CheckError("no trace to corrupt: %s" % done)


def body(prop):
    def f(c):
        build("params")
        rnd = random.Random(SEED * 7919 + 13)
        for m in ["ok", "deep"] if THOROUGH else ["ok"]:
            c.model("Params", "Params_%s.cfg" % m, m, need=["Parse", "Again", "Copy", "SetOwn", "Process"], timeout=1500)
        runs = pmap(lambda v: tlc("Params", "Params_%s.cfg" % v[0], workers=1), REFUTED)
        for (m, inv), r in zip(REFUTED, runs):
            if r.status != "rejected" or inv not in r.out:
                raise CheckError("the variant %s was not refuted: %s" % (m, r.brief()))
            c.count("unsound_rules_refuted")
        k = 12 if THOROUGH else 1
        jobs = [dict(seed=rnd.randrange(1, 10 ** 6), mode="text", n=160) for _ in range(48 * k)]
        for nd, sim, ic, st in USES * k:
            jobs.append(dict(seed=rnd.randrange(1, 10 ** 6), mode="use", n=40, ndim=nd, sim=sim, ic=ic, set=st, diml=1))
        for nd, sim, ic, st in [USES[5], USES[8], USES[15], USES[9]] * k:
            jobs.append(dict(seed=rnd.randrange(1, 10 ** 6), mode="use", n=40, ndim=nd, sim=sim, ic=ic, set=st, diml=0))
        jobs += [dict(mode="all", L=6, alpha="97,61,58,35,32,49"), dict(mode="all", L=4, alpha="97,98,115,61,58,35,32,9,48,49,46,45"), dict(mode="all", L=5, alpha="98,61,58,35,32,49,46,45,101")]
        if THOROUGH:
            jobs += [dict(mode="all", L=7, alpha="97,61,58,35,32,49"), dict(mode="all", L=5, alpha="97,98,115,61,58,35,32,9,48,49,46,45"), dict(mode="all", L=6, alpha="98,61,58,35,32,49,46,45,101")]
        ok = run_and_validate(c, "params", jobs, "ParamsTrace", per=1 if THOROUGH else 4)
        for j, p in ok:
            for e in lines(p):
                if e["e"] == "all":
                    c.count("lines_enumerated", sum(len(e["alpha"]) ** n for n in range(e["L"] + 1)))
                c.count("%s_operations" % e["e"])
                if e["e"] == "line":
                    c.count("lines_that_set" if e["chg"] else "lines_without_effect")
        if not c.viol:
            selftest(c, ok)
    return f
