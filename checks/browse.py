"""C15: browsing through snapshots and evaluating formulas in the analysis package - decided with spec/Browse, Formula and BrowseTrace."""
import random, sys
from harness import *
import py3, session

BAD = [("Browse", "recent", "Right"), ("Browse", "clear", "Right"), ("Browse", "nobound", "Right"), ("Browse", "blind", "Right"), ("Browse", "shared", "Own"), ("Browse", "wrap", "NoWrap"),
       ("Formula", "leftpower", "SameMeaning"), ("Formula", "flat", "SameMeaning"), ("Formula", "rightminus", "SameMeaning"), ("Formula", "swapped", "SameMeaning")]


def jobs(rnd, k, pkg):
    r = [dict(pkg=pkg, mode="every", seed=1, ops=6 if THOROUGH else 5)]
    for i in range(k):
        r += [dict(pkg=pkg, mode=m, seed=rnd.randrange(1, 10 ** 6), ops=n) for m, n in (("cache", 150), ("cache", 60), ("formula", 150), ("cache", 150))]
    return r + [dict(pkg=pkg, mode="known", seed=rnd.randrange(1, 10 ** 6), ops=25) for i in range(2 + k // 8)]


def selftest(c, ok):
    done = set()
    for j, p in ok:
        L = lines(p)
        for n, e in enumerate(L):
            bad = {}

            def mut(name, f):
                if name not in done:
                    M = json.loads(json.dumps(L[:n + 1]))
                    f(M[n])
                    bad[name] = M
            if e["e"] == "op" and not e["err"]:
                if e["op"] in ("next", "prev", "snap") and e["ret"]:
                    mut("another snapshot", lambda x: x["ret"].__setitem__(0, x["ret"][0] + 1))
                    mut("not current", lambda x: x["st"]["cur"].__setitem__(x["st"]["cs"] - 1, 0))
                    if [a["k"] for a in e["acts"]].count("free"):
                        mut("kept", lambda x: x.update(acts=[a for a in x["acts"] if a["k"] != "free"]))
                if e["op"] == "fetch" and len(e["acts"]):
                    mut("value", lambda x: x["v"].__setitem__(0, dict(n=x["v"][0]["n"] + 1, d=1)))
                    mut("unread", lambda x: x.update(acts=[a for a in x["acts"] if a["k"] != "read"] + [dict(k="read", id=999)]))
            elif e["e"] == "op" and e["op"] == "next" and not e["acts"]:
                mut("accepted", lambda x: x.update(err=False))
            if e["e"] == "formula" and e["v"]["d"]:
                if not e["err"] and not e["lost"] and len(e["toks"]) > 4:
                    mut("refused", lambda x: x.update(err=True))
                if e["err"]:
                    mut("taken", lambda x: x.update(err=False, lost=False))
            if e["e"] == "lag":
                mut("radius", lambda x: x["v"].update(n=x["v"]["n"] + 1))
            if e["e"] == "ask":
                mut("asked", lambda x: x.update(err=not x["err"]))
            if e["e"] == "known":
                mut("unit", lambda x: x["scale"].update(n=x["scale"]["n"] + 1))
                mut("quantity", lambda x: x["v"].update(n=x["v"]["n"] + 1))
            if e["e"] == "every":
                mut("lost formula", lambda x: x.update(good=[g for g in x["good"] if [t["s"] for t in g["s"]] != ["x", "-", "x"]]))
                mut("extra formula", lambda x: x["good"].append(dict(s=[dict(t="o", s=")", n=0, d=1)], v=dict(n=1, d=1))))
            for what in bad:
                f = os.path.join(c.work, "bad_%s.ndjson" % what.replace(" ", "_"))
                with open(f, "w") as o:
                    o.write("".join(json.dumps(x) + "\n" for x in bad[what]))
                r = tlc("BrowseTrace", env={"TRACE": f})
                if r.status == "ok":
                    if what == "refused" or what == "taken":
                        continue      # a formula without a value that matters
                    raise CheckError("a corrupted trace (%s) was accepted" % what)
                c.count("corrupted_traces_rejected")
                done.add(what)
            if len(done) == 14:
                return
    raise CheckError("no trace to corrupt: %s" % done)


def body(prop):
    def f(c):
        build("session")
        pkg = py3.translate()
        os.makedirs(BIN, exist_ok=True)
        with open(os.path.join(BIN, "browse"), "w") as o:
            o.write("#!/bin/sh\nexec %s %s \"$@\"\n" % (sys.executable, os.path.join(VERIF, "harness", "browse.py")))
        os.chmod(os.path.join(BIN, "browse"), 0o755)
        rnd = random.Random(SEED * 7919 + 15)
        t = "deep" if THOROUGH else "ok"
        c.model("Browse", "Browse_%s.cfg" % t, "browse", need=["To", "Current", "Look", "Use", "Tick", "Select", "MakeLive"], timeout=1500)
        c.model("FormulaModel", "Formula_%s.cfg" % t, "formula", need=["Extend", "Evaluate"], timeout=1500)
        runs = pmap(lambda v: tlc("FormulaModel" if v[0] == "Formula" else v[0], "%s_%s.cfg" % v[:2], workers=1), BAD)
        for (m, v, inv), r in zip(BAD, runs):
            if r.status != "rejected" or inv not in r.out:
                raise CheckError("the variant %s was not refuted: %s" % (v, r.brief()))
            c.count("unsound_rules_refuted")
        sess = [dict(j, nmax=9) for j in session.jobs(rnd, 20 if THOROUGH else 1)]      # what the snapshots themselves answer
        for j, p in run_and_validate(c, "session", sess, "SessionTrace", per=9):
            c.count("snapshots_asked", len([e for e in lines(p) if e["e"] == "arrays"]))
        ok = run_and_validate(c, "browse", jobs(rnd, 100 if THOROUGH else 12, pkg), "BrowseTrace", per=6, env={"PYTHONHASHSEED": "0"}, timeout=600 if THOROUGH else 120, tlc_timeout=3000)
        for j, p in ok:
            for e in lines(p):
                if e["e"] == "op":
                    c.count("op_%s%s" % (e["op"], "_refused" if e["err"] else ""))
                    c.count("snapshots_given_up", len([a for a in e["acts"] if a["k"] == "free"]))
                elif e["e"] == "every":
                    c.count("formulas_of_every_string", len(e["good"]))
                elif e["e"] in ("formula", "known", "phi", "lag", "ask"):
                    c.count(e["e"] + ("_refused" if e["err"] else ""))
        if not c.viol:
            selftest(c, ok)
    return f
