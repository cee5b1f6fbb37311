# Drives the real analysis package (translated to Python 3) with stand-ins for the C++ library: snapshots in a small
# memory (spec/Browse) and formulas (spec/Formula).   browse.py pkg=DIR mode=cache|formula|known|every seed=N ops=N out=FILE
import sys, os, json, types, random, tempfile, io
ARG = dict(a.split("=", 1) for a in sys.argv[1:]); PKG, MODE, SEED, OUT, OPS = ARG["pkg"], ARG["mode"], int(ARG["seed"]), ARG["out"], int(ARG["ops"])
import collections, collections.abc
for n in ("MutableMapping", "Mapping", "Iterable", "Sequence", "Callable"):
    if not hasattr(collections, n): setattr(collections, n, getattr(collections.abc, n))
from fractions import Fraction as F
import numpy as real
sys.path.insert(0, PKG)
A = "gandalf.analysis."
out = open(OUT, "w"); acts = []
class Clock: now = 0
def emit(**e): out.write(json.dumps(e) + "\n")
def mod(name, **k):
    m = types.ModuleType(name); m.__dict__.update(k); sys.modules[name] = m; return m
DIMS = ["t", "r", "v", "a", "m", "press", "temp", "rho", "u"]      # what the units of a simulation are called; each has three, and each unit a factor of its own
class Unit:
    def __init__(self, n): self.n = n; self.outunit = n + "0"
    def OutputScale(self, u):
        if u[:-1] != self.n or u[-1] not in "012": raise Exception("unknown unit " + u)
        return 10 * DIMS.index(self.n) + int(u[-1]) + 1
    def LatexLabel(self, u): return u
class Units:
    def __getattr__(self, n):
        if n not in DIMS: raise AttributeError(n)
        return Unit(n)
UNITS = {n: {str(k): Unit(n).OutputScale(n + str(k)) for k in range(3)} for n in DIMS}
DIM = {"x": "r", "y": "r", "z": "r", "vx": "v", "vy": "v", "vz": "v", "ax": "a", "ay": "a", "az": "a", "m": "m", "h": "r", "rho": "rho", "u": "u"}
class UnitInfo: name = ""; label = ""
class Snapshot:
    def __init__(self, filename, sim, ndim):
        self.filename, self.simulation, self.ndim, self.allocated, self.LastUsed, self.t, self.d = filename, sim, ndim, False, Clock.now, 0, None
        if filename:
            self.d = json.load(open(filename)); self.t = F(self.d["t"]); self.id = self.d["id"]
        else:
            World.ids += 1; self.id = World.ids; self.d = {"size": sim.livesize, "x": [5, 6], "m": [1, 2], "t": 0}
    @staticmethod
    def SphSnapshotFactory(filename, sim, ndim): return Snapshot(filename, sim, ndim)
    def CalculateMemoryUsage(self): return self.d["size"] if self.allocated else 0
    def CalculatePredictedMemoryUsage(self): return self.d["size"]
    def CopyDataFromSimulation(self): self.allocated = True; self.LastUsed = Clock.now; acts.append({"k": "live", "id": self.id})
    def ReadSnapshot(self, form): self.d = json.load(open(self.filename)); self.allocated = True; self.LastUsed = Clock.now; self.t = F(self.d["t"]); acts.append({"k": "read", "id": self.id})
    def DeallocateBufferMemory(self): self.allocated = False; acts.append({"k": "free", "id": self.id})
    def ExtractArray(self, name, type, unit):
        if not self.allocated: raise Exception("Error: requested a snapshot that is not allocated")
        self.LastUsed = Clock.now; acts.append({"k": "use", "id": self.id})
        if name in self.d: v = real.array([F(a) for a in self.d[name]], dtype=object)
        else: v = (World.star if type == "star" else World.data)[name]
        d = DIM.get(name, "t"); return [UnitInfo(), v, Unit(d).OutputScale(d + "0" if unit == "default" else unit)]
class Parameters:
    def ReadParamsFile(self, f):
        if not os.path.exists(f): raise Exception("no such file")
        self.intparams = {"ndim": 3}; self.stringparams = {"sim": "sph", "run_id": f[:-6], "out_file_form": "su"}; self.floatparams = {}
class Sim:
    def __init__(self, ndim, typ, params): self.simparams = params; self.setup = False; self.t = F(0); self.simunits = Units(); self.livesize = 1; self.ndims = ndim
    def GetParam(self, k): return {"ndim": "3"}.get(k) or getattr(self.simparams, "stringparams", {}).get(k) or str(World.params.get(k))
    def GetIntAndFloatParameterKeys(self): return list(World.params)
    def ProcessParameters(self): pass
class SimulationBase:
    @staticmethod
    def SimulationFactory(ndim, typ, params): return Sim(ndim, typ, params)
class World: ids = 0; data = {}; star = {}; params = {}
mod(A + "swig_generated").__path__ = []
mod(A + "swig_generated.SphSim", SimulationBase=SimulationBase, SphSnapshotBase=Snapshot, Parameters=Parameters, UnitInfo=UnitInfo, RenderBase=object)
class Any_:
    def __init__(self, *a, **k): pass
    def __getattr__(self, n): return Any_()
    def __call__(self, *a, **k): return Any_()
    def __iter__(self): return iter(())
class Manager:
    def list(self): return []
    def dict(self): return {}
import multiprocessing
multiprocessing.Manager = Manager; multiprocessing.Queue = Any_; multiprocessing.Event = Any_
mod(A + "plotting", PlottingProcess=Any_, Plotting=Any_, plotting=Any_); mod(A + "commandsource"); mod(A + "statistics", structure_function=None)
try:
    import scipy.interpolate
except Exception:
    mod("scipy", interpolate=None); mod("scipy.interpolate")
keep = sys.stdout; sys.stdout = io.StringIO(); sys.argv = ["x"]
import gandalf.analysis.facade as facade
from gandalf.analysis.SimBuffer import SimBuffer
import gandalf.analysis.data_fetcher as df
import gandalf.analysis.formula_parser as fp
import gandalf.analysis.compute as compute
facade.interactive = False
R = random.Random(SEED)
def rat(v):
    f = F(v)
    if not isinstance(v, (F, int)): f = f.limit_denominator(20000)
    return {"n": f.numerator, "d": f.denominator}
def rats(v): return [rat(x) for x in v]

def cache():
    tmp = tempfile.mkdtemp(dir=os.getcwd()); mx = R.choice([3, 4, 5, 6, 8, 12]); SimBuffer.maxmemory = mx
    emit(e="init", max=mx, fun={}, data={}, star={}, unit=UNITS)
    sims = []; bad = [0]
    def index(sim): return next(i for i, s in enumerate(SimBuffer.simlist) if s is sim)
    def state():
        return {"cs": SimBuffer.currentsim + 1, "cur": [getattr(getattr(s, "current", None), "id", 0) for s in SimBuffer.simlist], "alloc": [s.id for s in SimBuffer.snapshots if s.allocated], "mem": SimBuffer.total_memory_usage()}
    def do(op, f, a=0, n=0, **k):
        del acts[:]; err = False; r = None
        try: r = f()
        except RecursionError: raise
        except Exception as x: err = True; k["msg"] = repr(x)[:80]
        if r is None and op not in ("new", "load", "select", "live", "add"): err = True
        ret = [] if err or r is None else [s.id for s in r] if op == "iter" else [r.id] if isinstance(r, Snapshot) else []
        v = [] if err else rats(r[1]) if op in ("fetch", "series", "part", "times") else [rat(r[1])] if op == "deriv" else []
        if op in ("fetch", "series", "part", "times", "deriv"): k["scale"] = {"n": 0, "d": 1} if err else rat(r[2])
        emit(e="op", op=op, a=a, n=n, err=err, ret=ret, v=v, acts=list(acts), st=state(), **k); return None if err else r
    def load():
        k = len(os.listdir(tmp)); d = os.path.join(tmp, "d%d" % k); os.makedirs(d); n = R.choice([0, 1, 2, 3, 4, 5]) if R.random() < .3 else R.choice([2, 3, 4, 5]); info = []
        small = R.random() < 0.75; names = ["run.su.%05d" % (R.choice([0, 1]) + i) for i in range(n)]
        names = sorted(set(names))
        for i, m in enumerate(names):
            World.ids += 1; x = {"id": World.ids, "size": R.choice([1, 1, 2, 2, 3]) if small else R.choice([1, 2, 3, mx, mx + 1]), "t": i + R.choice([0, 0, 1]) * 0 + i // 2, "x": [R.randint(-4, 4), R.randint(-4, 4)], "m": [R.randint(1, 3), R.randint(1, 3)]}
            json.dump(x, open(os.path.join(d, m), "w")); info.append(x)
        for m in ("run.param", "other.su.00001", "run.sf.00001", "run.su.0001", "run.su.tmp", "run2.su.00000", "run.slite.00001", "run.su.000001"):
            json.dump({"id": 1, "size": 1, "t": 0, "x": [], "m": []}, open(os.path.join(d, m), "w"))
        flag = R.choice(["cache", "cache", "cache", "nocache", "store"])
        if flag == "store" and any(i["size"] > mx - 3 for i in info): flag = "cache"
        do("load", lambda: facade.loadsim(os.path.join(d, "run"), buffer_flag=flag), flag=flag, info=info)
    load()
    for o in range(OPS):
        S = SimBuffer.simlist; q = R.random()
        if R.random() < .35: Clock.now += R.randint(1, 2); emit(e="tick", now=Clock.now)
        if not S or (q < 0.05 and len(S) < 3): load(); continue
        if q < 0.07 and len(S) < 4:
            f = os.path.join(tmp, "new.param"); open(f, "w").close(); do("new", lambda: facade.newsim(f)); continue
        if not 0 <= SimBuffer.currentsim < len(S): bad[0] += 1; break
        i = R.randrange(len(S)); s = S[i]; cs = S[SimBuffer.currentsim]; L = s.snapshots; N = len(cs.snapshots); w = R.randrange(15); ut = R.choice("012")
        if w <= 1: n = R.randint(-N - 1, N); n = n if R.random() < .8 else str(n); do("snap", lambda: facade.snap(n), n=int(n))
        elif w == 2 or w == 3: do("next", lambda: facade.next())
        elif w == 4: do("prev", lambda: facade.previous())
        elif w == 5: k = R.randint(0, len(S)); do("select", lambda: facade.set_current_sim(k), a=k + 1)
        elif w == 6: do("cur", lambda: R.choice([SimBuffer.get_current_snapshot, lambda: SimBuffer.get_snapshot_extended("current", "current")])(), a=0)
        elif w == 7: do("cur", lambda: SimBuffer.get_snapshot_extended(s, "current"), a=i + 1)
        elif w == 8: n = R.randint(-len(L) - 1, len(L)); do("num", lambda: SimBuffer.get_snapshot_extended(s, n if R.random() < .7 else str(n)), a=i + 1, n=n)
        elif w == 9 and L: x = R.choice(L); do("nextof", lambda: SimBuffer.get_next_snapshot_from_object(x), a=i + 1, n=x.id)
        elif w == 10 and L: x = R.choice(L); do("prevof", lambda: SimBuffer.get_previous_snapshot_from_object(x), a=i + 1, n=x.id)
        elif w == 11: do("iter", lambda: list(SimBuffer.get_sim_iterator(s)), a=i + 1)
        elif w == 12 and L:
            x = R.choice(L); do("fetch", lambda: df.UserQuantity("x").fetch("default", x, "r" + ut), a=i + 1, n=x.id, u=ut)
        elif w == 13 and L:
            x = R.choice(L); k = R.randint(0, 1); do("deriv", lambda: compute.time_derivative(x, "x", id=k), a=i + 1, n=x.id, k=k + 1)
        elif w == 14:
            z = R.randrange(5)
            if z == 0: s.livesize = R.choice([1, 1, 2]); do("live", lambda: SimBuffer.load_live_snapshot(s), a=i + 1, size=s.livesize)
            elif z == 1 and L:
                World.ids += 1; x = {"id": World.ids, "size": R.choice([1, 2]), "t": 40 + len(L), "x": [1, R.randint(-4, 4)], "m": [2, 1]}; fn = os.path.join(tmp, "add%d" % World.ids); json.dump(x, open(fn, "w"))
                sn = Snapshot.SphSnapshotFactory(fn, s, 3); sn.CopyDataFromSimulation(); do("add", lambda: SimBuffer.add_snapshot(sn, s), a=i + 1, info=[x])
            elif L:
                k = R.randrange(2); w = R.choice([s, i]); un = R.choice(["default", "r" + ut])
                if z == 2: do("series", lambda: df.TimeData("com_x").fetch(w, unit=un), a=i + 1, u=ut if un != "default" else "0")
                elif z == 3: do("part", lambda: df.TimeData("x", id=k).fetch(w, unit=un), a=i + 1, k=k + 1, u=ut if un != "default" else "0")
                else: do("times", lambda: df.TimeData("t").fetch(w), a=i + 1)
    if bad[0]: emit(e="op", op="lost", a=0, n=0, err=True, ret=[], v=[], acts=[], st=state())

FUN = {f: {"args": 2 if f == "arctan2" else 1, "a": a, "b": b, "c": c} for f, a, b, c in [("sqrt", 2, 0, 1), ("sin", 1, 0, 3), ("cos", -1, 0, 2), ("tan", 3, 0, -1), ("arcsin", 1, 0, -2), ("arccos", 2, 0, -3), ("arctan", -2, 0, 1), ("log10", 1, 0, 5), ("arctan2", 1, -2, 1)]}
class FakeNumpy(types.ModuleType):
    def __getattr__(self, n): return getattr(real, n)
def one(a): return a.item() if isinstance(a, real.ndarray) and a.size == 1 else a
fake = FakeNumpy("numpy"); fake.pi = F(22, 7); fake.e = F(19, 7)
for f, r in FUN.items():
    setattr(fake, f, (lambda r: (lambda *x: r["a"] * x[0] + (r["b"] * x[1] if len(x) > 1 else 0) + r["c"]) if r["args"] == 2 else (lambda x: r["a"] * x + r["c"]))(r))
O = lambda s: {"t": "o", "s": s, "n": 0, "d": 1}
def num(v): f = F(v); return {"t": "n", "s": "", "n": f.numerator, "d": f.denominator}
N_ = lambda s: {"t": "i", "s": s, "n": 0, "d": 1}
def setup(vals):
    sim = Sim(3, "sph", Parameters()); SimBuffer.simlist = [sim]; SimBuffer.currentsim = 0; sim.snapshots = []; sn = Snapshot("", sim, 3); sn.d = {"size": 1}; sn.allocated = True; sn.sim = sim; sim.live = sn; sim.current = sn
    World.data = {k: real.array([v, v + 1], dtype=object) for k, v in vals.items()}; World.star = {k: real.array([2 - v, v], dtype=object) for k, v in vals.items()}; return sn
def value(fetcher, sn, ty="default", unit="default"):
    r = fetcher.fetch(ty, sn, unit); v = r[1]; v = v[0] if isinstance(v, real.ndarray) else v; value.scale = rat(r[2])
    return rat(v)
def tojson(vals): return {k: rat(v) for k, v in vals.items()}
def formula():
    fp.np = fake; vals = {k: F(R.randint(-4, 4)) for k in ("x", "y", "z", "vx", "vy", "m", "h", "rho", "u", "ecc", "qbin", "sma")}; sn = setup(vals); World.params = {"gamma_eos": 1.5, "tend": 2, "mu_bar": 3, "eta": 0.25, "x": 9, "Nhydro": 4}
    known = dict({k: v for k, v in World.params.items()}, **vals); known["pi"] = F(22, 7); known["e"] = F(19, 7)
    star = dict(known); star.update({k: 2 - v for k, v in vals.items()})
    emit(e="init", max=1, fun=FUN, data=tojson(known), star=tojson(star), unit=UNITS); names = list(known); defs = []
    def lit():
        q = R.randrange(8)
        if q < 4: v = str(R.randint(0, 5)); return v, num(v)
        if q < 6: v = R.choice(["0.5", "1.5", "2.", "0.25", "3.0", "10.75"]); return v, num(v.rstrip(".") if v.endswith(".") else v)
        v = R.choice(["1e2", "2E1", "5e-1", "1.5e1", "25.e-1", "4e0"]); return v, num(v.replace(".e", "e"))
    def expr(depth):
        q = R.random()
        if depth == 0 or q < .2:
            if R.random() < .45: v, t = lit(); return [(v, t)]
            n = R.choice(names + defs); return [(n, N_(n))]
        if q < .3: return [("(", O("("))] + expr(depth - 1) + [(")", O(")"))]
        if q < .42:
            f = R.choice(list(FUN)); a = expr(depth - 1)
            if FUN[f]["args"] == 2: a = a + [(",", O(","))] + expr(depth - 1)
            return [(f, N_(f)), ("(", O("("))] + a + [(")", O(")"))]
        o = R.choice("+-*/^+-*/"); b = expr(depth - 1)
        if o == "^": v = str(R.randint(0, 3)); b = [(v, num(v))] if R.random() < .8 else b
        return expr(depth - 1) + [(o, O(o))] + b
    def text(ts):
        r = ""
        for i, (v, t) in enumerate(ts):
            sign = i > 0 and t["t"] == "n" and ts[i - 1][0] in ("+", "-") and (i == 1 or (ts[i - 2][1]["t"] == "o" and ts[i - 2][0] != ")"))   # written directly before its number
            if r and not sign and (R.random() < .25 or (t["t"] != "o" and ts[i - 1][1]["t"] != "o")): r += " " * R.randint(1, 2)
            r += v
        return r
    for o in range(OPS):
        ts = expr(R.randint(1, 4))
        if len(ts) > 24: continue
        if R.random() < .2:
            k = R.randrange(4); p = R.randrange(len(ts))
            if k == 0: ts = ts[:p] + ts[p + 1:]
            elif k == 1: ts = ts[:p] + [R.choice([("+", O("+")), ("*", O("*")), ("(", O("(")), (")", O(")")), (",", O(",")), ("nosuch", N_("nosuch"))])] + ts[p:]
            elif k == 2: ts = ts[:p] + [ts[p]] + ts[p:]
            else: ts = [("-", O("-"))] + ts
        if not ts: continue
        # a sign directly before a number that is raised to a power, and two operands side by side, are left out
        if any(a[1]["t"] == "n" and b[0] == "^" for a, b in zip(ts, ts[1:])) and any(x[0] in "+-" and x[1]["t"] == "o" for x in ts): 
            if any(ts[i][1]["t"] == "n" and ts[i + 1][0] == "^" and i > 0 and ts[i - 1][0] in ("+", "-") and (i == 1 or (ts[i - 2][1]["t"] == "o" and ts[i - 2][0] != ")")) for i in range(len(ts) - 1)): continue
        if any(a[1]["t"] != "o" and b[1]["t"] != "o" for a, b in zip(ts, ts[1:])): continue
        name = R.choice(["q1", "q2", "q3"]) if R.random() < .3 else "tmp"; s = text(ts); err = False; v = {"n": 0, "d": 1}; used = {x[0] for x in ts} & {"q1", "q2", "q3"}; unknown = False
        if name != "tmp" and any(u >= name for u in used): name = "tmp"
        ty = R.choice(["default", "sph", "star"]); sf = R.choice([1, 2.5, 3, "v", "a", "press"]); ut = R.choice("012"); un = "default" if isinstance(sf, float) or isinstance(sf, int) or R.random() < .4 else sf + ut; ut = "0" if un == "default" else ut; value.scale = {"n": 0, "d": 1}
        try: f = df.CreateUserQuantity(name, s, scaling_factor=sf)
        except Exception: err = True
        if not err:
            if name != "tmp" and name not in defs: defs.append(name)
            try: v = value(df.UserQuantity(name), sn, ty, un)
            except ZeroDivisionError: v = {"n": 0, "d": 0}
            except OverflowError: v = {"n": 0, "d": 0}
            except Exception as x: unknown = True
            if abs(v["n"]) > 10 ** 9 or v["d"] > 10 ** 9: v = {"n": 0, "d": 0}
        emit(e="formula", name=name, text=s, toks=[t for _, t in ts], err=err, lost=unknown, v=v, star=ty == "star", u=ut, sf="" if isinstance(sf, (int, float)) else sf, by=rat(1 if isinstance(sf, str) else sf), scale=value.scale)
        if defs and R.random() < .3:
            n = R.choice(defs)
            ty = R.choice(["default", "sph", "star"])
            try: v = value(df.UserQuantity(n), sn, ty); lost = False
            except (ZeroDivisionError, OverflowError): v = {"n": 0, "d": 0}; lost = False
            except Exception: v = {"n": 0, "d": 1}; lost = True
            if abs(v["n"]) > 10 ** 9 or v["d"] > 10 ** 9: v = {"n": 0, "d": 0}
            emit(e="again", name=n, lost=lost, v=v, star=ty == "star")

def known():
    W = [(3, 4, 12), (-3, 4, 12), (4, 3, -12), (-4, -3, 12), (9, 12, 8), (5, -12, 84), (8, 15, 144), (-12, 5, 84)]; emit(e="init", max=1, fun={}, data={}, star={}, unit=UNITS)
    for o in range(OPS):
        lagrange(); ask(); p = R.choice(W); v = [R.randint(-5, 5) for _ in range(3)]; a = [R.randint(-5, 5) for _ in range(3)]; g = R.choice([2, 3, 5]); rho, u = R.randint(1, 4), R.randint(1, 4); mu = R.randint(1, 3)
        vals = dict(zip("xyz", p)); vals.update(zip(("vx", "vy", "vz"), v)); vals.update(zip(("ax", "ay", "az"), a)); vals.update(rho=rho, u=u)
        sn = setup({k: float(x) for k, x in vals.items()}); World.data = {k: real.array([x, x + 1.0]) for k, x in vals.items()}; World.params = {"gamma_eos": g, "mu_bar": mu}
        for n in ("r", "R", "vr", "vR", "vR2d", "vphi", "vtheta", "ar", "aR", "aphi", "atheta", "press", "temp", "sound", "phi", "theta"):
            ut = R.choice("012"); d = {"r": "r", "R": "r", "v": "v", "a": "a", "sound": "v", "press": "press", "temp": "temp"}.get(n if n in ("r", "R", "sound", "press", "temp") else n[0], "")
            un = d + ut if d and R.random() < .6 else "default"; ut = "0" if un == "default" else ut
            try: w = df.UserQuantity(n).fetch("default", sn, un); sc = rat(w[2]); w = float(w[1][0]); err = False
            except Exception: w = 0.; err = True; sc = {"n": 0, "d": 1}
            if n == "sound": w = w * w
            if n == "theta": w = real.cos(w)
            if n == "phi": emit(e="phi", err=err, p=list(p), c=rat2(real.cos(w)), s=rat2(real.sin(w)), scale=sc); continue
            emit(e="known", name=n, err=err, p=list(p), v_=v, a_=a, g=g, rho=rho, u=u, mu=mu, v=rat2(w), u_=ut, scale=sc)
def lagrange():
    n = R.randint(1, 6); rs = R.sample(range(1, 12), n); m = [R.randint(1, 4) for i in range(n)]; k = R.randint(1, 16); sn = setup({"x": 0.})
    P = [(lambda q: [a * R.choice([-1, 1]) for a in q])(R.choice([(0, r, 0), (r, 0, 0), (0, 0, r)]) if r % 3 and r % 5 else (r // 3, r * 2 // 3, r * 2 // 3) if r % 3 == 0 else (0, r * 4 // 5, r * 3 // 5)) for r in rs]
    World.data = {c: real.array([float(p[j]) for p in P]) for j, c in enumerate("xyz")}; World.data["m"] = real.array([float(x) for x in m]); un = R.choice("012")
    try: r = compute.lagrangian_radii(sn, mfrac=k / 16., unit=R.choice(["r" + un])); w, sc, err = float(r[1]), rat(r[2]), False
    except Exception: w, sc, err = 0., {"n": 0, "d": 1}, True
    emit(e="lag", r=rs, m=m, k=k, err=err, v=rat2(w), u=un, scale=sc)
def ask():
    nd = R.randint(1, 3); live = R.random() < .5; sn = setup({k: 1. for k in ("x", "y", "z", "vx", "vy", "vz", "ax", "ay", "az", "m", "rho", "u", "h", "dudt")}); sn.ndim = nd; World.params = {"gamma_eos": 1.5, "mu_bar": 1}; World.data = {k: real.ones(2) for k in World.data}
    if not live: del sn.sim.live
    for n in ("x", "y", "z", "vx", "vy", "vz", "ax", "ay", "az", "dudt", "m", "rho", "r", "R", "phi", "theta", "vR", "vr", "vphi", "aR", "ar", "atheta", "press", "nosuch"):
        try: df.UserQuantity(n).fetch("default", sn); err = False
        except Exception: err = True
        emit(e="ask", name=n, nd=nd, live=live, err=err)
def rat2(w):
    f = F(float(w)).limit_denominator(20000)
    return {"n": f.numerator, "d": f.denominator} if abs(float(f) - w) < 1e-9 * max(1, abs(w)) else {"n": 987654, "d": 1}
def every():
    fp.np = fake; vals = {"x": F(3), "f": F(2)}; sn = setup(vals); World.params = {}; emit(e="init", max=1, fun={}, data=tojson({"x": F(3)}), star={}, unit=UNITS); T = ["+", "-", "*", "/", "^", "(", ")", "2", "x"]; res = []
    import itertools
    for L in range(1, OPS + 1):
        for c in itertools.product(T, repeat=L):
            if any(a in "2x" and b in "2x" for a, b in zip(c, c[1:])): continue
            if any(c[i] == "2" and c[i + 1] == "^" and i > 0 and c[i - 1] in "+-" and (i == 1 or c[i - 2] in "+-*/^(") for i in range(L - 1)): continue
            err = False; v = {"n": 0, "d": 1}
            try:
                f = df.CreateUserQuantity("tmp", "".join(c)); v = value(f, sn)
            except (ZeroDivisionError, OverflowError): v = {"n": 0, "d": 0}
            except Exception: err = True
            if abs(v["n"]) > 10 ** 9 or v["d"] > 10 ** 9: v = {"n": 0, "d": 0}
            if not err: res.append({"s": [num(x) if x == "2" else N_("x") if x == "x" else O(x) for x in c], "v": v})
    emit(e="every", L=OPS, good=res)
{"cache": cache, "formula": formula, "known": known, "every": every}[MODE]()
out.close()
