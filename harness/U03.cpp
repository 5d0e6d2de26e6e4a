// U03: the graphical client's own calculations (pipy_thread.py, pipy/) on a backend that records how it was configured: whole
// runs, one after the other on one cache directory, in every way of passing the atom to the workers, and histories of updates
// of one atom. Oracle: the systems that the parameters of each step ask for, built one by one.
#include "client.hpp"

static char const *script = R"PY(
import sys, os, types, math, itertools, json, pickle, zlib, shutil, re, copy, resource, signal, io, logging
import numpy as np
import scipy.sparse as sp
repo, jobs = sys.argv[1:3]
out = sys.stdout
sys.stdout = open(os.devnull, "w")
logging.disable(logging.CRITICAL)
here = os.getcwd()

# ---- a backend whose results depend on all that it was told, and on nothing else
class One:
    def __init__(self, species, n, l, j, m): self.species, self.q = species, (int(n), int(l), float(j), float(m))
    def getN(self): return self.q[0]
    def getL(self): return self.q[1]
    def getJ(self): return self.q[2]
    def getM(self): return self.q[3]
    def getSpecies(self): return self.species
    def getEnergy(self, *a): n, l, j, m = self.q; return -1e4 / (n - {"Rb": 3.1, "Cs": 4.0}[self.species] / (l + 1)) ** 2 + j * .01
    def key(self): return (self.species,) + self.q
class Two:
    def __init__(self, species, n, l, j, m): self.a = One(species[0], n[0], l[0], j[0], m[0]); self.b = One(species[1], n[1], l[1], j[1], m[1])
    def getN(self): return [self.a.q[0], self.b.q[0]]
    def getL(self): return [self.a.q[1], self.b.q[1]]
    def getJ(self): return [self.a.q[2], self.b.q[2]]
    def getM(self): return [self.a.q[3], self.b.q[3]]
    def getSpecies(self): return [self.a.species, self.b.species]
    def key(self): return self.a.key() + self.b.key()
class Cache:
    def __init__(self, path=""): self.path, self.method = path, "NUMEROV"
    def setMethod(self, m): self.method = m
text = {k: "".join(open(os.path.join(repo, "pairinteraction", f)).read() for f in fs) for k, fs in {"1": ["SystemOne.hpp", "SystemBase.hpp"], "2": ["SystemTwo.hpp", "SystemBase.hpp"]}.items()}
class Base: # what it was told, and what follows from it
    def __init__(self, o=None):
        self.told = {} if o is None else copy.deepcopy(o.told)
        self.e = None if o is None or o.e is None else o.e.copy()
    def tell(self, name, value):
        if not re.search(r"\b%s\(" % name, text[self.kind]): raise AttributeError(name)
        value = sorted(value) if name.startswith("setConservedMomenta") else list(value) if isinstance(value, (list, tuple, np.ndarray)) else value
        value = tuple(float(x) for x in value) if isinstance(value, list) else float(value) if isinstance(value, (int, float, np.floating, np.integer)) and not isinstance(value, bool) else value
        if self.told.get(name) != value: self.told[name], self.e = value, None
    def label(self): return repr((self.real, self.method, sorted(self.told.items())))
    def states(self):
        s = self.find()
        if not s: raise RuntimeError("The basis contains no states.")
        return s
    def getStates(self): return list(self.states())
    def getMainStates(self): return list(self.states())
    def getNumStates(self): return len(self.states())
    def getNumBasisvectors(self): return len(self.states())
    def buildHamiltonian(self): self.states()
    def buildInteraction(self): self.states()
    def buildBasis(self): self.states()
    def energies(self):
        s, c = self.states(), zlib.crc32(self.label().encode()) % 9973
        return np.array([self.energy(x) + .001 * ((c * (i + 7)) % 9973) / 9973 for i, x in enumerate(s)])
    def diagonalize(self, threshold=0.): self.e = self.energies()
    def getHamiltonian(self):
        if self.e is None: raise RuntimeError("not diagonal")
        return sp.diags(self.e).tocsr()
    def getBasisvectors(self):
        c = zlib.crc32(self.label().encode()) % 97
        return sp.diags(np.arange(len(self.states())) + 1. + c).tocsr()
    def getOverlap(self, x): return np.array([float(x.key() == y.key()) for y in self.states()])
def teller(name): return lambda self, *a: self.tell(name, a if len(a) > 1 else a[0])
class SystemOne(Base):
    kind = "1"
    def __init__(self, a, cache=None):
        if isinstance(a, Base): Base.__init__(self, a); self.species, self.method = a.species, a.method
        else: Base.__init__(self); self.species, self.method = a, cache.method; self.told = {"setEfield": (0., 0., 0.), "setBfield": (0., 0., 0.), "enableDiamagnetism": False}
    def label(self): return self.species + Base.label(self)
    def find(self):
        r = []
        lim = {Q: self.told.get("restrict" + Q, (-1e9, 1e9)) for Q in ["N", "L", "J", "M", "Energy"]}
        for n in range(20, 23):
            for l in range(2):
                for j in ([.5] if l == 0 else [.5, 1.5]):
                    for m in np.arange(-j, j + 1):
                        s = One(self.species, n, l, j, m)
                        if all(lim[Q][0] - 1e-9 <= v <= lim[Q][1] + 1e-9 for Q, v in zip(["N", "L", "J", "M", "Energy"], s.q + (s.getEnergy(),))): r.append(s)
        return r
    def energy(self, s): return s.getEnergy()
for q in ["N", "L", "J", "M", "Energy"]: setattr(SystemOne, "restrict" + q, teller("restrict" + q))
for q in ["setEfield", "setBfield", "enableDiamagnetism", "setConservedMomentaUnderRotation"]: setattr(SystemOne, q, teller(q))
class SystemTwo(Base):
    kind = "2"
    def __init__(self, a, b=None, cache=None):
        if isinstance(a, SystemTwo): Base.__init__(self, a); self.a, self.b, self.method = a.a, a.b, a.method; return
        if a.e is None or b.e is None: raise RuntimeError("atoms are not diagonal")
        Base.__init__(self); self.a, self.b, self.method = a.__class__(a), b.__class__(b), cache.method
    def label(self): return self.a.label() + self.b.label() + Base.label(self)
    def find(self):
        lo, hi = self.told.get("restrictEnergy", (-1e9, 1e9))
        M = self.told.get("setConservedMomentaUnderRotation")
        M = None if M is None else (M,) if isinstance(M, float) else M
        r = []
        for x, e in zip(self.a.states(), self.a.e):
            for y, f in zip(self.b.states(), self.b.e):
                if lo - 1e-9 <= e + f <= hi + 1e-9 and (M is None or x.q[3] + y.q[3] in M): r.append(Two([x.species, y.species], *zip(x.q, y.q)))
        return r
    def energy(self, s): return s.a.getEnergy() + s.b.getEnergy()
for q in ["restrictEnergy", "setMinimalNorm", "setConservedMomentaUnderRotation", "setAngle", "setDistance", "setOrder", "setConservedParityUnderInversion", "setConservedParityUnderPermutation", "setConservedParityUnderReflection"]:
    setattr(SystemTwo, q, teller(q))
pi = types.ModuleType("pairinteraction")
def half(real):
    m = types.ModuleType("pairinteraction." + ("pireal" if real else "picomplex"))
    m.StateOne, m.StateTwo, m.MatrixElementCache, m.WHITTAKER, m.NUMEROV, m.ODD, m.EVEN = One, Two, Cache, "WHITTAKER", "NUMEROV", "ODD", "EVEN"
    m.SystemOne = type("SystemOne", (SystemOne,), {"real": real, "__module__": m.__name__})
    m.SystemTwo = type("SystemTwo", (SystemTwo,), {"real": real, "__module__": m.__name__})
    sys.modules[m.__name__] = m
    setattr(pi, m.__name__.split(".")[1], m)
    return m
half(True), half(False)
sys.modules["pairinteraction"] = pi
class QThread:
    def __init__(self, *a): pass
    def terminate(self): pass
    def wait(self): pass
qt, core = types.ModuleType("PyQt5"), types.ModuleType("PyQt5.QtCore")
core.QThread = QThread; qt.QtCore = core
sys.modules.update({"PyQt5": qt, "PyQt5.QtCore": core})
sys.path.insert(0, repo)
from pairinteraction_gui import pipy, pipy_thread

class Bad(Exception): pass

# ---- what the parameters ask for
def fields(p, i):
    steps = p["steps"] if any(p["min" + k] != p["max" + k] for k in ["Ex", "Ey", "Ez", "Bx", "By", "Bz"] + (["R"] if "minR" in p else [])) else 1
    v = {k: np.linspace(p["min" + k], p["max" + k], steps) for k in ["Ex", "Ey", "Ez", "Bx", "By", "Bz"]}
    if "minR" in p: v["R"] = np.linspace(p["minR"], p["maxR"], steps)
    return steps, {k: x[i] for k, x in v.items()}
def lib(p): return pi.pireal if all(p[k] == 0 for k in ["minEy", "maxEy", "minBy", "maxBy"]) else pi.picomplex
def qn(p, i): return tuple(p[k + str(i)] for k in "nljm")
def atom(p, L, species, qns, f):
    c = L.MatrixElementCache(""); c.setMethod(["WHITTAKER", "NUMEROV"][p["missingCalc"]])
    s = L.SystemOne(species, c)
    for k, Q in enumerate("NLJM"):
        d = p["delta" + Q + "Single"]
        if d >= 0: getattr(s, "restrict" + Q)(min(q[k] for q in qns) - d, max(q[k] for q in qns) + d)
    e = [L.StateOne(species, *q).getEnergy() for q in qns]
    if p["deltaESingle"] >= 0: s.restrictEnergy(min(e) - p["deltaESingle"], max(e) + p["deltaESingle"])
    s.setEfield([f[k] for k in ["Ex", "Ey", "Ez"]]); s.setBfield([f[k] for k in ["Bx", "By", "Bz"]]); s.enableDiamagnetism(p["diamagnetism"])
    return s, np.mean(e)
def atoms(p, L, f):
    if p["samebasis"]: qs = [[qn(p, 1), qn(p, 2)]] * 2
    else: qs = [[qn(p, 1)], [qn(p, 2)]]
    r = []
    for i in range(2):
        s, e = atom(p, L, p["species1" if p["samebasis"] or i == 0 else "species2"], qs[i], f)
        s.diagonalize(1e-10); r.append(s)
    return r, c_of(p, L)
def c_of(p, L):
    c = L.MatrixElementCache(""); c.setMethod(["WHITTAKER", "NUMEROV"][p["missingCalc"]]); return c
def blocks(p):
    if p["button_id"] != 2: return [None]
    inv, per, ref = [[x for x in "OE" if p[k + x]] or [None] for k in ["inv", "per", "ref"]]
    same = p["sametrafo"]
    one = p["species1"] == p["species2"] and qn(p, 1) == qn(p, 2)
    if not p["conserveM"]: rot = [None]
    elif not same:
        L = pi.pireal; a, _ = atoms(p, L, fields(p, 0)[1])
        rot = sorted({x.q[3] + y.q[3] for x in a[0].states() for y in a[1].states()})
    elif not p["zerotheta"]: rot = list(np.arange(-(p["j1"] + p["j2"]), p["j1"] + p["j2"] + 1))
    else: rot = [p["m1"] + p["m2"]]
    r = set()
    for i in inv:
        for k in per:
            if same and one and "E" in (i, k): continue
            if same and i and k and (1 if i == k else -1) != (-1) ** (p["l1"] + p["l2"]): continue
            for f in ref:
                for M in rot: r.add((i, k, f, None if M is None else int(abs(M) if f else M)))
    return r
def expected(p, i, b):
    L, (steps, f) = lib(p), fields(p, i)
    if p["button_id"] != 2:
        if p["button_id"] == 3: qns, species = [qn(p, 1), qn(p, 2)], p["species1"]
        else: k = p["button_id"] + 1; qns, species = [qn(p, k)], p["species%d" % k]
        s, zero = atom(p, L, species, qns, f)
    else:
        a, c = atoms(p, L, fields(p, 0)[1]) # the pair states are those around the state of interest in the first fields
        zero = sum(x.e[[s.q for s in x.states()].index(qn(p, k))] for k, x in zip((1, 2), a))
        a, c = atoms(p, L, f)
        s = L.SystemTwo(*a, c)
        if p["deltaEPair"] >= 0: s.restrictEnergy(zero - p["deltaEPair"], zero + p["deltaEPair"])
        s.setMinimalNorm(.05); s.setAngle(0); s.setDistance(f["R"]); s.setOrder(p["exponent"])
        if b[3] is not None: s.setConservedMomentaUnderRotation([b[3]])
        for k, name in enumerate(["Inversion", "Permutation", "Reflection"]):
            if b[k]: getattr(s, "setConservedParityUnder" + name)({"O": "ODD", "E": "EVEN"}[b[k]])
    return s, zero

# ---- the calculations of the tests
F = dict(button_id=0, n1=21, l1=0, j1=.5, m1=.5, species1="Rb", deltaESingle=40, deltaLSingle=1, deltaJSingle=-1, deltaMSingle=-1, deltaNSingle=1, samebasis=False, steps=3, precision=1e-12, missingCalc=1,
         missingWhittaker=1, minEx=0., minEy=0., minEz=0., minBx=0., minBy=0., minBz=0., maxEx=0., maxEy=0., maxEz=2., maxBx=0., maxBy=0., maxBz=0., diamagnetism=False, NUM_PROCESSES=1)
def vary(base, *d): return [dict(base)] + [dict(base, **x) for x in d]
free = dict(deltaESingle=-1)
common = [dict(missingCalc=0), dict(diamagnetism=True), dict(maxEz=0., maxBz=2.), dict(maxEz=0.), dict(minEz=1.), dict(maxEx=1.), dict(maxBx=2.), dict(maxEy=1.), dict(minBy=1., maxBy=1.), dict(steps=2), dict(steps=1, minEz=1.),
          dict(deltaNSingle=0), dict(deltaLSingle=0), dict(deltaMSingle=1), dict(deltaJSingle=0), dict(deltaESingle=4), free, dict(free, deltaLSingle=-1, l1=1, j1=.5), dict(free, deltaLSingle=-1), dict(free, m1=-.5), dict(m1=-.5), dict(n1=20), dict(l1=1), dict(l1=1, j1=1.5), dict(species1="Cs")]
FIELD = vary(F, *common)
one = {k: v for k, v in F.items() if k not in ("n1", "l1", "j1", "m1", "species1")}
FIELD.append(dict(one, button_id=1, n2=22, l2=0, j2=.5, m2=.5, species2="Rb"))
FIELD.append(dict(one, button_id=1, n2=21, l2=0, j2=.5, m2=.5, species2="Cs", maxEz=1.))
FIELD.append(dict(F, button_id=3, samebasis=True, n2=22, l2=0, j2=.5, m2=.5, species2="Rb"))
FIELD.append(dict(F, button_id=3, samebasis=True, n2=21, l2=1, j2=.5, m2=.5, species2="Rb", deltaLSingle=-1, deltaESingle=-1))
FIELD.append(dict(F, button_id=3, samebasis=True, n2=21, l2=1, j2=1.5, m2=.5, species2="Rb", deltaLSingle=-1, deltaJSingle=-1, deltaESingle=-1))
P = dict(F, button_id=2, n2=21, l2=0, j2=.5, m2=.5, species2="Rb", samebasis=True, deltaNSingle=0, deltaESingle=-1, deltaEPair=30, deltaLPair=-1, deltaJPair=-1, deltaMPair=-1, deltaNPair=-1, exponent=3, minR=5., maxR=4., maxEz=0.,
         invE=False, invO=False, perE=False, perO=False, refE=False, refO=False, conserveM=False, sametrafo=True, zerotheta=True)
PAIR = vary(P, dict(exponent=4), dict(minR=3.), dict(minR=4.), dict(maxEz=1.), dict(maxBz=1., minEz=1.), dict(minEz=1., maxEz=1.), dict(maxEy=1.), dict(deltaEPair=10), dict(deltaEPair=-1), dict(deltaEPair=-1, maxEz=1.), dict(deltaEPair=-1, l1=1), dict(deltaESingle=20), dict(n2=22), dict(n2=22, deltaEPair=1), dict(n1=22), dict(l2=1), dict(l2=1, deltaEPair=1),
    dict(l2=1, deltaLSingle=0, deltaEPair=-1), dict(samebasis=False), dict(samebasis=False, species2="Cs"), dict(samebasis=False, species1="Cs"), dict(samebasis=False, species2="Cs", maxEz=1.), dict(samebasis=False, n2=22, maxEz=1., maxBx=1.), dict(samebasis=False, n2=22, maxEz=1., maxBx=1., deltaEPair=-1), dict(missingCalc=0), dict(diamagnetism=True),
    dict(invE=True), dict(invO=True), dict(invE=True, invO=True), dict(invO=True, perO=True), dict(invO=True, perO=True, l2=1), dict(perE=True, perO=True, sametrafo=False), dict(perE=True, perO=True), dict(perE=True, n2=22), dict(refE=True, refO=True), dict(conserveM=True), dict(conserveM=True, m2=-.5), dict(conserveM=True, refE=True, m1=-.5),
    dict(conserveM=True, zerotheta=False), dict(conserveM=True, zerotheta=False, refO=True), dict(conserveM=True, sametrafo=False, deltaMSingle=1), dict(conserveM=True, sametrafo=False, deltaJSingle=1), dict(conserveM=True, sametrafo=False, deltaLSingle=1), dict(invE=True, perO=True, conserveM=True, l2=1, sametrafo=False), dict(minR=3., maxR=3.), dict(samebasis=False, species2="Cs", deltaESingle=20), dict(samebasis=False, species2="Cs", n2=22, deltaESingle=10, maxEz=1.))
ALL = {"field": FIELD, "pair": PAIR}
known = {}
def reference(p, i, b):
    k = repr((sorted(p.items()), i, b))
    if k not in known:
        s, zero = expected(p, i, b)
        try: s.states()
        except RuntimeError: known[k] = None; return None
        s.diagonalize(1e-10)
        known[k] = (np.array(s.e) - zero, s.getBasisvectors(), np.array([x.q if isinstance(x, One) else x.a.q + x.b.q for x in s.states()]))
    return known[k]
def fresh():
    for e in os.listdir(here):
        q = os.path.join(here, e)
        shutil.rmtree(q) if os.path.isdir(q) else os.unlink(q)
    os.mkdir(os.path.join(here, "cache"))
def start(p, mode, procs, lines):
    q = dict(p, pathCache=os.path.join(here, "cache"), pathConf=os.path.join(here, "conf.json"))
    t = pipy_thread.PipyThread(types.SimpleNamespace(processOneLine=lines.append), context="default" if procs == 1 else "fork", pass_atom=mode)
    t.setParams(q); t.setNumProcesses(procs)
    try: t.run()
    finally: t.killPool()
def judge(p, lines, text):
    n, b, got, total, dims, base = 0, -1, {}, None, [], {}
    settings = json.load(open(os.path.join(here, "settings.json")))
    have = [(s["inversion"], s["permutation"], s["reflection"], None if s["pair.momenta"] is None else int(s["pair.momenta"])) if p["button_id"] == 2 else None for s in settings["scriptoptions"]["symmetries_list"]]
    want = blocks(p)
    if len(set(have)) != len(have): raise Bad("a block is calculated twice :: %s %s" % (text, have))
    if p["button_id"] == 2 and p["sametrafo"] and set(have) != want: raise Bad("wrong blocks :: %s %s instead of %s" % (text, sorted(map(str, have)), sorted(map(str, want))))
    if p["button_id"] == 2 and not set(have) >= want: raise Bad("a block is missing :: %s %s not in %s" % (text, sorted(map(str, want - set(have))), sorted(map(str, have))))
    steps = fields(p, 0)[0]
    pending = None
    for l in lines:
        w = l.split()
        if l.startswith(">>TOT"): total = int(w[1])
        elif l.startswith(">>TYP"):
            if int(w[1]) != p["button_id"]: raise Bad("wrong kind of calculation :: " + text)
        elif l.startswith(">>STA"): b += 1; base[b] = np.loadtxt(w[1], ndmin=2); pending = w[1]
        elif l.startswith(">>DIM"): dims.append(int(w[1]))
        elif l.startswith(">>OUT"):
            k, step, nb, bl = [int(x) for x in w[1:5]]
            if nb != len(have) or k != 1 + step * nb + bl or not 0 <= bl < nb: raise Bad("result is reported wrongly :: %s %s" % (text, l.strip()))
            if (step, bl) in got: raise Bad("a step is reported twice :: %s %s" % (text, l.strip()))
            got[step, bl] = (w[5], dims[-1], base[b])
    if total != steps * len(have): raise Bad("announced number of steps :: %s %s instead of %s" % (text, total, steps * len(have)))
    if not lines or not lines[-1].startswith(">>END"): raise Bad("the end is not reported :: " + text)
    for bl, blk in enumerate(have):
        for i in range(steps):
            r = reference(p, i, blk)
            n += 1
            if (r is None) != ((i, bl) not in got): raise Bad("%s :: %s step %d block %s" % ("a step is not reported" if r is not None else "a step without states is reported", text, i, blk))
            if r is None: continue
            f, d, bs = got[i, bl]
            data = pickle.load(open(f, "rb"))
            where = "%s step %d block %s" % (text, i, blk)
            if d != len(r[0]) or len(data["energies"]) != len(r[0]): raise Bad("wrong dimension :: %s: %d, %d energies instead of %d" % (where, d, len(data["energies"]), len(r[0])))
            if abs(np.array(data["energies"]) - r[0]).max() > 1e-7: raise Bad("wrong energies :: %s: off by %s .. %s" % (where, (np.array(data["energies"]) - r[0]).min(), (np.array(data["energies"]) - r[0]).max()))
            if abs(data["basis"] - r[1]).max() > 1e-9: raise Bad("wrong eigenvectors :: " + where)
            if bs.shape != (len(r[2]), r[2].shape[1] + 1) or abs(bs[:, 1:] - r[2]).max() > .01: raise Bad("wrong list of states :: " + where)
            if os.path.exists(f[:-4] + ".json") is False: raise Bad("no description of a result :: " + where)
    return n
def child(f, limit, die):
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if die else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if limit is not None: resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            f()
        except BaseException: pass
        os._exit(0)
    os.waitpid(pid, 0)
def run(p, mode, procs, text):
    lines = []
    try: start(p, mode, procs, lines)
    except Bad: raise
    except Exception as e:
        import traceback
        raise Bad("a calculation fails :: %s: %s %s at %s" % (text, type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1].lineno))
    return judge(p, lines, text)
def diff(p, q): return ",".join("%s=%s" % (k, p[k]) for k in sorted(p) if p.get(k) != q.get(k)) or "-"

# ---- one atom, or two, through updates
def histories(kind, first, depth):
    n = 0
    base = {"one": dict(species="Rb", n=21, l=0, j=.5, m=.5, deltaNSingle=0, deltaLSingle=1, isReal=False),
            "same": dict(species="Rb", n=21, l=0, j=.5, m=.5, deltaNSingle=0, deltaLSingle=1, samebasis=True, nAtoms=2, deltaEPair=30, isReal=False, n1=21, n2=22),
            "two": dict(species1="Rb", species2="Cs", n=21, l=0, j=.5, m=.5, deltaNSingle=0, deltaLSingle=0, nAtoms=2, deltaEPair=30, isReal=False)}[kind]
    letters = {"e": {"Ez": 0.}, "E": {"Ez": 1.}, "y": {"Ey": 1.}, "B": {"Bz": 1.}, "b": {"Bz": 0.}, "m": {"Ez": 1., "Bz": 0.}, "n": {}}
    if kind != "one": letters.update({"r": {"distance": 4.}, "R": {"distance": 5.}, "a": {"angle": .5}, "q": {"atom.Ez": 1., "distance": 4.}, "i": {"inversion": "ODD"}, "p": {"permutation": "EVEN"}})
    L = pi.picomplex
    def build(st, zero0=None):
        f = st
        def single(species, qns):
            c = Cache(); s = L.SystemOne(species, c)
            s.restrictN(min(q[0] for q in qns), max(q[0] for q in qns))
            d = base["deltaLSingle"]
            s.restrictL(min(q[1] for q in qns) - d, max(q[1] for q in qns) + d)
            s.setEfield([0, f.get("Ey", 0), f.get("Ez", 0)]); s.setBfield([0, 0, f.get("Bz", 0)]); s.enableDiamagnetism(False)
            return s
        if kind == "one": return single("Rb", [(21, 0, .5, .5)])
        if kind == "same": a = single("Rb", [(21, 0), (22, 0)]); b = single("Rb", [(21, 0), (22, 0)])
        else: a, b = single("Rb", [(21, 0)]), single("Cs", [(21, 0)])
        a.diagonalize(); b.diagonalize()
        s = L.SystemTwo(a, b, Cache())
        if zero0 is None:
            return a, b
        s.restrictEnergy(min(zero0) - 30, max(zero0) + 30)
        s.setMinimalNorm(.05); s.setAngle(st.get("angle", 0)); s.setOrder(3)
        if "distance" in st: s.setDistance(st["distance"])
        for k in ["inversion", "permutation"]:
            if st.get(k): getattr(s, "setConservedParityUnder" + k.capitalize())(st[k])
        return s
    zero0 = None
    if kind != "one":
        a, b = build({})
        e = lambda s, n: s.e[[x.q for x in s.states()].index((n, 0, .5, .5))]
        zero0 = [e(a, 21) + e(b, 22 if kind == "same" else 21)]
    memo, hashes = {}, {}
    def check(x, st, word):
        k = repr(sorted((k, v) for k, v in st.items() if v))
        if k not in memo:
            s = build(st, zero0); s.diagonalize(); memo[k] = (s.label(), s.e, [t.key() for t in s.states()])
        if x.energies is None: x.calcEnergies()
        if len(x.energies) != len(memo[k][1]) or abs(x.energies - memo[k][1]).max() > 1e-9 or x.system.label() != memo[k][0]: raise Bad("atom does not follow its updates :: %s %s has %s instead of %s" % (kind, word, x.system.label(), memo[k][0]))
        if [t.key() for t in x.basisStates] != memo[k][2]: raise Bad("states of the basis :: %s %s" % (kind, word))
        h = x.config.toHash()
        if hashes.setdefault(h, memo[k][0]) != memo[k][0]: raise Bad("different results have one name :: %s %s" % (kind, word))
    for d in range(depth + 1):
        for t in itertools.product(list(letters) + ["C", "D", "P", "K"], repeat=d):
            word = first + "".join(t)
            fresh()
            x = pipy.atom_from_config(dict(base, pathCache=os.path.join(here, "cache")))
            x.system
            st = {}
            for c in word:
                n += 1
                if c == "C":
                    if x.energies is None: x.calcEnergies()
                elif c == "D": x.delete()
                elif c == "P": x = pickle.loads(pickle.dumps(x))
                elif c == "K": x = x.copy()
                else:
                    new = {k.replace("atom.", ""): v for k, v in letters[c].items()}
                    before = dict(st); st.update(new)
                    changed = any(before.get(k, 0 if k[1:] in "xyz" or k == "angle" else None) != v for k, v in new.items())
                    if bool(x.updateFromParams(dict(letters[c]))) != changed: raise Bad("an update is %s :: %s %s" % ("not reported" if changed else "reported without a change", kind, word))
            check(x, st, word)
    return n

for line in open(jobs):
    w = line.split()
    try:
        if w[0] == "run":
            ps = ALL[w[1]]
            p, mode, procs = ps[int(w[2]) % len(ps)], w[3], int(w[4])
            if int(w[2]) >= len(ps): print("0 none", file=out, flush=True); continue
            fresh()
            n = run(p, mode, procs, "%s in mode %s with %d" % (diff(p, ps[0]), mode, procs))
            n += run(p, mode, procs, "%s in mode %s with %d, again" % (diff(p, ps[0]), mode, procs))
            print(n, "run", *w[1:], file=out, flush=True)
        elif w[0] == "after": # every calculation after every other one on the same cache
            ps, n = ALL[w[1]], 0
            if int(w[2]) < len(ps):
                p = ps[int(w[2])]
                for q in ps + ALL["field" if w[1] == "pair" else "pair"][:2]:
                    fresh()
                    run(q, "direct&delete", 1, "first " + diff(q, ps[0]))
                    n += run(p, "direct&delete", 1, "%s after %s" % (diff(p, ps[0]), diff(q, ps[0])))
            print(n, "after", *w[1:], file=out, flush=True)
        elif w[0] == "hist": print(histories(w[1], w[2], int(w[3])), "histories", *w[1:], file=out, flush=True)
        elif w[0] == "cut": # stopped at each byte of its output
            ps, n, seen = ALL[w[1]], 0, set()
            p, die = dict(ps[int(w[2])], steps=2), w[3] == "die"
            def go(): start(p, "direct&delete", 1, [])
            fresh(); child(go, None, die)
            d = os.path.join(here, "cache")
            size = max(os.path.getsize(os.path.join(a, f)) for a, _, fs in os.walk(d) for f in fs)
            for k in range(0, size + 1, int(w[4])):
                fresh(); child(go, k, die)
                n += run(p, "direct&delete", 1, "%s after %s at byte %d" % (diff(p, ps[0]), "death" if die else "a full disk", k))
            print(n, "cut", *w[1:], file=out, flush=True)
    except Bad as x: print("BAD", x, file=out, flush=True)
    except Exception as x:
        import traceback
        print("BAD harness fails ::", type(x).__name__, x, line.strip(), [f.lineno for f in traceback.extract_tb(x.__traceback__)], file=out, flush=True)
)PY";

int main() {
    std::vector<std::pair<std::string, std::string>> jobs;
    auto job = [&](std::string const &label, std::string const &line) { jobs.push_back({label, line}); };
    int const nf = 31, np = 48; // calculations of the lists above
    for (std::string kind : {"field", "pair"})
        for (int i = 0; i < (kind == "field" ? nf : np); ++i) {
            for (auto mode : {"direct", "path", "direct&delete", "path&delete", "config"})
                for (int procs : {1, 2})
                    if (procs == 1 || mc::thorough() || i % 3 == 0) job(mc::cat(kind, " ", i, " mode ", mode, " processes ", procs), mc::cat("run ", kind, " ", i, " ", mode, " ", procs));
            job(mc::cat(kind, " ", i, " after each other"), mc::cat("after ", kind, " ", i));
        }
    for (int i : {0, 28}) for (auto how : {"die", "full"}) job(mc::cat("cut field ", i, " ", how), mc::cat("cut field ", i, " ", how, " ", mc::tier(3, 1)));
    for (int i : {4, 20}) for (auto how : {"die", "full"}) job(mc::cat("cut pair ", i, " ", how), mc::cat("cut pair ", i, " ", how, " ", mc::tier(7, 1)));
    for (std::string kind : {"one", "same", "two"}) {
        std::string letters = kind == "one" ? "eEyBbmnCDPK" : "eEyBbmnrRaqipCDPK";
        int depth = mc::tier(kind == "one" ? 3 : 2, kind == "one" ? 4 : 3);
        for (char c : letters) job(mc::cat("histories ", kind, " ", c), mc::cat("hist ", kind, " ", c, " ", depth - 1 + (kind == "one" ? 1 : 0)));
    }
    mc::parallel(64, [&](int i) {
        Client c(script);
        for (size_t k = i; k < jobs.size(); k += 64) c.add(jobs[k].first, jobs[k].second);
        c.run();
    });
    mc::sample("pair 23 mode direct&delete processes 1"), mc::sample("histories two E");
    return mc::finish();
}
