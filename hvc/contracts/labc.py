"""The lab (C19 load cases and simulations, C20 parameter fits)."""
import types
from fractions import Fraction
import numpy as np
from ..registry import contract
from ..term import T, const, var, compare, add, sub, mul, div, power, scale, coerce, fun, ufun, ONE, ZERO
from ..world import oarr, Obl
from ..arr import Arr, Cat, Select, Shapes, points_sum
from .. import arr as A
from .. import seq, npshim
from .mathc import t_det
from .spacec import module, space_class
from .batchc import leaves

LC = "lab._load_case."
CASES = {"Uniaxial": (-0.5, -0.5), "Biaxial": (1, -2), "Planar": (0, -1)}


def lab(S):
    return S.pkg.lab if not S.concrete else __import__("hyperelastic").lab


# ------------------------------------------------------------------ C19: load cases
def t_defgrad(name, x):
    """documented principal stretches: uniaxial (x, x^-1/2, x^-1/2), biaxial (x, x, x^-2), planar (x, 1, x^-1)"""
    p = lambda e: power(x, const(e))
    d = {"Uniaxial": (x, p(-0.5), p(-0.5)), "Biaxial": (x, x, p(-2)), "Planar": (x, ONE, p(-1))}[name]
    return [[d[i] if i == j else ZERO for j in range(3)] for i in range(3)]


def _defgrad_cases(tier):
    for name in CASES:
        for t in ("A", "", None):
            yield dict(name=name, t=t)


@contract("C19", [LC + c + ".defgrad" for c in CASES], _defgrad_cases)
def l_defgrad(S, name, t):
    """volume-preserving diagonal deformation gradient"""
    x = S.arr("x", (), t, positive=True)
    lc = S.guard("load case", getattr(lab(S), name))
    F = S.call("defgrad", lc.defgrad, x.val)
    want = t_defgrad(name, x.t[()])
    S.ensure("F", F, want)
    S.ensure("documented F is volume-preserving", S.evaluate(npshim.det3(want)) if S.concrete else Arr(oarr(npshim.det3(want)).copy()), ONE, tail=None if not S.concrete else "inputs")
    S.ensure_true("label", isinstance(lc.label, str) and len(lc.label) > 0)
    S.ensure_true("given label", getattr(lab(S), name)("my label").label == "my label")


@contract("C19", [LC + c + ".defgrad" for c in CASES], [dict(name=n, t=t) for n in CASES for t in ("A", None)], sym=False)
def l_integers(S, name, t):
    """bounded: stretches of an integer type"""
    x = S.arr("x", (), t, positive=True, gen=lambda rng, s: rng.integers(1, 5, s).astype(float))
    lc = S.guard("load case", getattr(lab(S), name))
    v = np.asarray(x.val).astype(np.int64) if t is not None else int(x.val)
    S.ensure("F", S.call("defgrad", lc.defgrad, v), t_defgrad(name, x.t[()]))


def _stress_cases(tier):
    for name in CASES:
        yield dict(name=name, i=None, j=None)
    for i in range(3):
        for j in (0, 1, 2, -1):
            if j % 3 != i:
                yield dict(name="Uniaxial", i=i, j=j)


@contract("C19", [LC + "IncompressibleHomogeneousStretch.stress"], _stress_cases)
def l_stress(S, name, i, j):
    """normal force per undeformed area; the hydrostatic pressure is eliminated by the traction-free direction"""
    x = S.arr("x", (), "A", positive=True)
    lc = S.guard("load case", getattr(lab(S), name))
    P = S.arr("P", (3, 3), "A")
    p = S.arr("p", (), "A")
    if i is None:
        F = S.of_terms("F", t_defgrad(name, x.t[()]), "A")
        kw, a, b = {}, 0, 2
    else:
        d = [S.arr(f"d{k}", (), "A", positive=True).t[()] for k in range(3)]
        F = S.of_terms("F", [[d[r] if r == c else ZERO for c in range(3)] for r in range(3)], "A")
        kw, a, b = dict(axis=i, traction_free=j), i, j % 3
    f = F.t
    J = npshim.det3(f)
    # P + p J F^-T, and the pressure which makes the stress free of traction
    want = sub(P.t[a, a], mul(P.t[b, b], div(f[b, b], f[a, a])))
    S.ensure("force per undeformed area", S.call("stress", lc.stress, F.val, P.val, **kw), want)
    Q = S.of_terms("Q", [[add(P.t[r, c], div(mul(p.t[()], J), f[r, r])) if r == c else P.t[r, c] for c in range(3)] for r in range(3)], "A")
    S.ensure("independent of the hydrostatic pressure", S.call("stress (other pressure)", lc.stress, F.val, Q.val, **kw), want)
    # the pressure for which the transverse traction vanishes: the stress is the remaining normal component
    q = div(mul(P.t[b, b], f[b, b]), J)
    R = [sub(P.t[k, k], div(mul(q, J), f[k, k])) for k in range(3)]
    S.ensure("documented: the transverse direction is traction-free", S.evaluate(R[b]) if S.concrete else Arr(oarr(R[b]).copy(), frozenset("A")), ZERO)
    S.ensure("normal component of the traction-free state", S.call("stress", lc.stress, F.val, P.val, **kw), R[a])


class LabMaterial:
    """material of a simulation: stress components are uninterpreted functions of F and of the labelled parameters"""
    made = None

    def __init__(self, S, names, **kw):
        self.S, self.names, self.kw = S, names, kw
        self.calls = []

    def gradient(self, x):
        F, sv = x[0], x[-1]
        S = self.S
        a = [F[i, j] for i in range(3) for j in range(3)] + [self.kw[n] for n in self.names]
        rows = [[S.apply(f"P{i}{j}", (0,) * len(a), a) for j in range(3)] for i in range(3)]
        if S.concrete:
            return [np.array(rows), sv]
        return [Arr(oarr([[Arr.of(v).a[()] for v in r] for r in rows]), Arr.of(rows[0][0]).tail), sv]


LABELS = {"one": ["mu"], "two": ["C10", "C01"], "three": ["b", "a", "c"]}


def _sim_cases(tier):
    for name in CASES:
        for labels in LABELS:
            yield dict(name=name, labels=labels, how="stress")
        yield dict(name=name, labels="three", how="fit")
        yield dict(name=name, labels="two", how="initial")
        yield dict(name=name, labels="three", how="changed")


@contract("C19", ["lab._simulation.Simulation.__init__", "lab._simulation.Simulation.stress", "lab._simulation.Simulation.stress_curve_fit"], _sim_cases)
def l_simulation(S, name, labels, how):
    """the simulation evaluates the material with every parameter assigned to its own label, point by point"""
    S.fix_rank(1, "A")
    names = LABELS[labels]
    x = S.arr("x", (), "A", positive=True)
    made = []

    def material(**kw):
        S.ensure_true("the material gets every label", sorted(kw) == sorted(names), f"{sorted(kw)}")
        made.append(kw)
        return LabMaterial(S, sorted(names), **kw)
    lc = S.guard("load case", getattr(lab(S), name))
    L = lab(S)
    ps = [S.scalar("p" + n) for n in names]
    t = [var("p" + n) for n in names]
    if how == "initial":
        sim = S.guard("Simulation", L.Simulation, lc, x.val, list(names), material)
        t = [ONE] * len(names)
    elif how == "changed":
        # the parameters are changed after the construction
        sim = S.guard("Simulation", L.Simulation, lc, x.val, list(names), material, [S.scalar("q" + n) for n in names])
        S.guard("stress", sim.stress)
        sim.parameters = list(ps)
    else:
        sim = S.guard("Simulation", L.Simulation, lc, x.val, list(names), material, list(ps))
    if how == "fit":
        y = S.arr("y", (), "A", positive=True)
        r = S.call("stress_curve_fit", sim.stress_curve_fit, y.val, *ps)
        x = y
    else:
        r = S.call("stress", sim.stress)
    f = t_defgrad(name, x.t[()])
    par = dict(zip(names, t))
    a = [f[i][j] for i in range(3) for j in range(3)] + [par[n] for n in sorted(names)]
    P = lambda i: fun(f"P{i}{i}", (0,) * len(a), a)
    S.ensure("force per undeformed area", r, sub(P(0), mul(P(2), div(f[2][2], f[0][0]))))
    S.ensure_true("label of the simulation", sim.label == lc.label)


@contract("C19", ["lab._simulation.Simulation.__init__", "lab._simulation.Simulation.stress", "lab._simulation.Simulation.stress_curve_fit",
                  LC + "IncompressibleHomogeneousStretch.stress"] + [LC + c + ".defgrad" for c in CASES],
          [dict(name=n, what=w) for n in CASES for w in ("fit", "parameters", "in place", "stretch", "shared", "material", "loadcase")])
def l_again(S, name, what):
    """the stress of a simulation is the response for the stretch and the parameters it holds, whatever was evaluated before"""
    S.fix_rank(1, "A")
    L = lab(S)
    names = ["b", "a"]
    x, y = S.arr("x", (), "A", positive=True), S.arr("y", (), "A", positive=True)
    other = list(CASES)[(list(CASES).index(name) + 1) % 3]
    material = lambda **kw: LabMaterial(S, sorted(names), **kw)
    swapped = lambda **kw: LabMaterial(S, sorted(names), a=kw["b"], b=kw["a"])
    lc = S.guard("load case", getattr(L, name))
    ps, qs = [S.scalar("p" + n) for n in names], [S.scalar("q" + n) for n in names]
    tp, tq = [var("p" + n) for n in names], [var("q" + n) for n in names]

    def want(x, t, case=name, swap=False):
        f = t_defgrad(case, x.t[()])
        par = dict(zip(names, t[::-1] if swap else t))
        a = [f[i][j] for i in range(3) for j in range(3)] + [par[n] for n in sorted(names)]
        P = lambda i: fun(f"P{i}{i}", (0,) * len(a), a)
        return sub(P(0), mul(P(2), div(f[2][2], f[0][0])))
    sim = S.guard("Simulation", L.Simulation, lc, x.val, list(names), material, list(ps))
    S.ensure("stress", S.call("stress", sim.stress), want(x, tp))
    if what == "fit":
        S.ensure("stress of the fit", S.call("stress_curve_fit", sim.stress_curve_fit, y.val, *qs), want(y, tq))
        S.ensure("stress of the fit at the former parameters", S.call("stress_curve_fit", sim.stress_curve_fit, y.val, *ps), want(y, tp))
        S.ensure("stress of the fit at the former stretch", S.call("stress_curve_fit", sim.stress_curve_fit, x.val, *qs), want(x, tq))
        S.ensure("stress after a fit", S.call("stress (again)", sim.stress), want(x, tp))
    elif what == "parameters":
        sim.parameters = list(qs)
        S.ensure("stress for other parameters", S.call("stress (again)", sim.stress), want(x, tq))
        sim.parameters = list(ps)
        S.ensure("stress for the former parameters", S.call("stress (again)", sim.stress), want(x, tp))
    elif what == "in place":
        sim.parameters[:] = qs
        S.ensure("stress for parameters changed in place", S.call("stress (again)", sim.stress), want(x, tq))
    elif what == "stretch":
        sim.stretch = y.val
        S.ensure("stress for another stretch", S.call("stress (again)", sim.stress), want(y, tp))
    elif what == "shared":
        two = S.guard("Simulation", L.Simulation, lc, y.val, list(names), material, list(qs))
        S.ensure("stress of another simulation with the same load case", S.call("stress (other)", two.stress), want(y, tq))
        S.ensure("stress after another simulation", S.call("stress (again)", sim.stress), want(x, tp))
    elif what == "material":
        sim.material = swapped
        S.ensure("stress for another material", S.call("stress (again)", sim.stress), want(x, tp, swap=True))
    else:
        sim.loadcase = S.guard("load case", getattr(L, other))
        S.ensure("stress for another load case", S.call("stress (again)", sim.stress), want(x, tp, other))


@contract("C19", ["lab._simulation.Simulation.stress", "lab._simulation.Simulation.stress_curve_fit"],
          [dict(name=n, space=s) for n in CASES for s in ("deformation", "distortional", "dilatational")], runs=6)
def l_chain(S, name, space):
    """load case, simulation, space, framework and model together: the documented closed form for W = C10 (I1-3) + C01 (I2-3) + C30 (I1-3)^3"""
    S.fix_rank(1, "A")
    L = lab(S)
    cls, inv = space_class(S, space), module(S, "frameworks._invariants").Invariants
    tod = module(S, "models.invariants._third_order_deformation").ThirdOrderDeformation
    x = S.arr("x", (), "A", positive=True)
    labels = ["C01", "C30", "C10"]
    ps = [S.scalar("p" + n) for n in labels]
    c01, c30, c10 = [var("p" + n) for n in labels]
    S.requires(*[compare("!=", q, ZERO) for q in (c01, c30, c10)])
    sim = S.guard("Simulation", L.Simulation, S.guard("load case", getattr(L, name)), x.val, list(labels), lambda **kw: cls(inv(tod(**kw))), list(ps))
    r = S.call("stress", sim.stress)
    f = t_defgrad(name, x.t[()])
    a, b, c = [power(f[i][i], const(2)) for i in range(3)]
    w1 = add(c10, scale(mul(c30, power(sub(add(a, b, c), const(3)), const(2))), 3))
    want = scale(mul(sub(a, c), add(w1, mul(c01, b)), power(f[0][0], const(-1))), 2)
    S.ensure("force per undeformed area", r, ZERO if space == "dilatational" else want)


@contract("C19", ["lab._simulation.Simulation.stress"], [dict(name=n, space=s) for n in CASES for s in ("deformation", "distortional")], sym=False, runs=6)
def l_response(S, name, space):
    """bounded: simulations with the models of the package; a hydrostatic pressure of the material changes nothing"""
    p = S.pkg
    x = np.sort(S.rng.uniform(0.6, 2.5, size=S.rng.integers(1, 7)))
    sp = p.spaces if hasattr(p, "spaces") else None
    from .spacec import space_class
    cls = space_class(S, space)

    class WithPressure:
        def __init__(self, m):
            self.m = m

        def gradient(self, xs):
            P, sv = self.m.gradient(xs)
            F = xs[0]
            iFT = np.linalg.inv(F.transpose(2, 3, 0, 1)).transpose(3, 2, 0, 1)
            return [P + 3.7 * iFT, sv]
    mk = lambda **kw: cls(p.frameworks.Invariants(p.models.invariants.ThirdOrderDeformation(**kw)))
    labels, par = ["C01", "C30", "C10"], [0.1, 0.02, 0.5]
    lc = getattr(p.lab, name)()
    sim = S.guard("Simulation", p.lab.Simulation, lc, x, labels, mk, par)
    r = S.call("stress", sim.stress)
    # closed form: W = C10 (I1-3) + C01 (I2-3) + C30 (I1-3)^3
    l2 = {"Uniaxial": x ** -0.5, "Biaxial": x, "Planar": np.ones_like(x)}[name]
    l3 = 1 / (x * l2)
    I1 = x ** 2 + l2 ** 2 + l3 ** 2
    w1, w2 = 0.5 + 3 * 0.02 * (I1 - 3) ** 2, 0.1
    want = 2 * (x ** 2 - l3 ** 2) * (w1 + w2 * l2 ** 2) / x
    S.near("closed form", r, want)
    r2 = S.guard("stress", p.lab.Simulation(lc, x, labels, lambda **kw: WithPressure(mk(**kw)), par).stress)
    S.near("hydrostatic pressure", r2, want)
    one = np.array([S.guard("stress", p.lab.Simulation(lc, x[k:k + 1], labels, mk, par).stress)[0] for k in range(len(x))])
    S.near("point by point", r, one)


# ------------------------------------------------------------------ C20: experiments
@contract("C20", ["lab._experiment.Experiment.__init__", "lab._experiment.Experiment.stress"], [dict(how=h) for h in ("both", "area", "length", "default")])
def e_experiment(S, how):
    """stretch = 1 + d / L, stress = f / A, with the experiment's own length and area"""
    S.fix_rank(1, "A")
    d, f = S.arr("d", (), "A"), S.arr("f", (), "A")
    kw = {}
    if how in ("both", "area"):
        kw["area"] = S.scalar("area", positive=True)
    if how in ("both", "length"):
        kw["length"] = S.scalar("length", positive=True)
    E = lab(S).Experiment
    e = S.guard("Experiment", E, "a", d.val, f.val, **kw)
    # another experiment does not matter
    o = S.guard("Experiment", E, "b", f.val, d.val, area=S.scalar("area2", positive=True), length=S.scalar("length2", positive=True))
    a = var("area", True) if "area" in kw else ONE
    l = var("length", True) if "length" in kw else ONE
    S.ensure("stretch", e.stretch, add(ONE, div(d.t[()], l)))
    S.ensure("stress", S.call("stress", e.stress), div(f.t[()], a))
    S.ensure("displacement", e.displacement, d.t[()])
    S.ensure("force", e.force, f.t[()])
    S.ensure_true("label", e.label == "a")
    S.ensure("stretch of another experiment", o.stretch, add(ONE, div(f.t[()], var("length2", True))))
    S.ensure("stress of another experiment", S.call("stress (other)", o.stress), div(d.t[()], var("area2", True)))
    S.ensure("stress after another experiment", S.call("stress (again)", e.stress), div(f.t[()], a))
    g = S.arr("g", (), "A")
    e.force = g.val
    S.ensure("stress of another force", S.call("stress (other force)", e.stress), div(g.t[()], a))
    S.ensure("stretch after another force", e.stretch, add(ONE, div(d.t[()], l)))


@contract("C20", ["lab._experiment.Experiment.__init__", "lab._experiment.Experiment.stress"], [dict(dtype=d) for d in ("int64", "int32", "float32", "list", "tuple")], sym=False, runs=6)
def e_types(S, dtype):
    """bounded: measured data and dimensions of other types"""
    as_type = {"list": np.ndarray.tolist, "tuple": lambda x: tuple(x.tolist())}.get(dtype)
    d, f = (S.rng.integers(-9, 90, size=S.rng.integers(1, 9)).astype(float if as_type else dtype) for _ in range(2))
    area, length = int(S.rng.integers(2, 9)), int(S.rng.integers(2, 9))
    d0, f0 = d.copy(), f.copy()
    S.rtol = 1e-5
    n = min(len(d), len(f))
    seq = as_type or (lambda x: x)
    e = S.guard("Experiment", lab(S).Experiment, "a", seq(d[:n]), seq(f[:n]), area=area, length=length)
    S.near("stretch", np.asarray(e.stretch, float) * length, length + d0[:n].astype(float))
    S.near("stress", np.asarray(S.call("stress", e.stress), float) * area, f0[:n].astype(float))
    if as_type:     # array-like data take part in a fit as well
        S.near("a part of the stretch", np.asarray(S.guard("mask", lambda: e.stretch[1:]), float) * length, length + d0[1:n])
        S.near("a part of the stress", np.asarray(S.guard("mask", lambda: e.stress()[1:]), float) * area, f0[1:n])
    S.ensure_true("the data are unmodified", np.array_equal(d, d0) and np.array_equal(f, f0))


# ------------------------------------------------------------------ C20: fits
class Solver:
    """assumed contract of scipy.optimize.curve_fit: some parameters and a covariance matrix are returned; the arguments are recorded"""
    current = None

    @staticmethod
    def curve_fit(f, xdata, ydata, p0=None, *args, **kw):
        Solver.current.options.append((args, kw))
        return Solver.current.solve(f, xdata, ydata, p0)

    def __init__(self, S, n):
        self.S, self.n, self.calls, self.options = S, n, [], []

    def solve(self, f, xdata, ydata, p0):
        S, n, k = self.S, self.n, len(self.calls)
        # parameters and deviations of any magnitude (inf: the covariance could not be estimated)
        spread = S.concrete and S.mode not in ("generic", "mild")
        gen = (lambda r, s: r.normal(size=s) * 10.0 ** r.uniform(-9, 9, s)) if spread else None
        dev = (lambda r: np.inf if r.random() < 0.15 else 10.0 ** r.uniform(-9, 9)) if spread else None
        popt = S.arr(f"popt{k}_", (n,), None, gen=gen)
        sd = [S.scalar(f"sd{k}_{i}", positive=True, gen=dev) for i in range(n)]
        cov = S.arr(f"cov{k}_", (n, n), None)
        if S.concrete:
            cov.val = np.array(cov.val)
        for i in range(n):
            if S.concrete:
                cov.val[i, i] = sd[i] ** 2
            else:
                cov.val.a[i, i] = power(var(f"sd{k}_{i}", True), const(2))
        q = S.arr(f"q{k}_", (n,), None)
        p0c = None if p0 is None else ([p0[i] for i in range(n)])
        fq = f(xdata, *[q.val[i] for i in range(n)])
        self.calls.append(dict(f=fq, y=ydata, p0=p0c, popt=popt, sd=[var(f"sd{k}_{i}", True) for i in range(n)], q=q, cov=cov.val))
        # the solver evaluates the function at many parameters
        f(xdata, *[popt.val[i] for i in range(n)])
        f(xdata, *[q.val[i] for i in range(n)])
        return (S.frozen(popt.val) if False else popt.val), cov.val


def _no(*a, **k):
    raise A.Unsupported("scipy.optimize")


def _shims():
    so = types.ModuleType("scipy.optimize")
    so.curve_fit = Solver.curve_fit
    so.__getattr__ = lambda n: _no
    sp = types.ModuleType("scipy")
    sp.optimize = so
    return {"scipy.optimize": so, "scipy": sp}


class Sim:
    """a simulation: an uninterpreted function of the stretch and the parameters"""

    def __init__(self, S, k, n, parameters=None):
        self.S, self.k, self.n = S, k, n
        self.parameters = parameters
        self.label = f"sim{k}"

    def stress_curve_fit(self, x, *p):
        S = self.S
        if len(p) != self.n:
            raise TypeError(f"{self.n} parameters expected, {len(p)} given")
        return S.apply(f"s{self.k}", (0,) * (self.n + 1), [x, *p])


class Exp:
    def __init__(self, stretch, stress):
        self.stretch, self._stress = stretch, stress

    def stress(self):
        return self._stress


def _fit_cases(tier):
    for n in (1, 2, 3, "any"):
        for mask in ("none", "given"):
            yield dict(n=n, mask=mask, p0="floats", fits=1)
    for p0 in ("array", "ints", "tuple", "intarray"):
        yield dict(n=2, mask="none", p0=p0, fits=1)
    for n in (2, "any"):
        yield dict(n=n, mask="given", p0="floats", fits=2)
    yield dict(n=2, mask="none", p0="array", fits=3)
    for o in ("keywords", "positional"):
        yield dict(n=2, mask="none", p0="floats", fits=2, options=o)


def blocks(S, x):
    """a computed concatenation as blocks"""
    return x.blocks if isinstance(x, Cat) else [x] if isinstance(x, Arr) else None


DEFAULTS = dict(sigma=None, absolute_sigma=False, check_finite=None, method=None, jac=None, full_output=False, nan_policy=None)


def same_options(got, args, kw):
    """the solver gets the options of the caller; further ones may only repeat its defaults"""
    a, k = got
    names = ["sigma", "absolute_sigma", "check_finite"]
    flat = lambda x, y: dict(zip(names, x), **y)
    g, w = flat(a, k), flat(args, kw)
    return len(a) <= 3 and all(n in g and g[n] is w[n] or g.get(n, w) == w[n] for n in w) and all(n in DEFAULTS and v == DEFAULTS[n] for n, v in g.items() if n not in w)


class Patched:
    """the real package with the assumed solver"""

    def __init__(self, S, solver):
        self.S, self.solver = S, solver

    def __enter__(self):
        Solver.current = self.solver
        if not self.S.concrete:
            return
        import sys
        import scipy.optimize
        self.real = scipy.optimize.curve_fit
        self.undo = []
        for k, m in list(sys.modules.items()):
            if k.startswith("hyperelastic"):
                for a, v in list(vars(m).items()):
                    if v is self.real:
                        setattr(m, a, Solver.curve_fit)
                        self.undo.append((m, a))
        scipy.optimize.curve_fit = Solver.curve_fit

    def __exit__(self, *a):
        Solver.current = None
        if self.S.concrete:
            import scipy.optimize
            scipy.optimize.curve_fit = self.real
            for m, n in self.undo:
                setattr(m, n, self.real)


@contract("C20", ["lab._optimize.Optimize.__init__", "lab._optimize.Optimize.init_curve_fit", "lab._optimize.Optimize.curve_fit", "lab._optimize.Optimize.norm_residuals",
                  "lab._optimize.Optimize.mean_relative_std", "lab._curve_fit.concatenate_curve_fit"], _fit_cases, shims=_shims(), transform=seq.transform,
          note="scipy.optimize.curve_fit is an assumed contract; cases n=any: lists of arbitrary length, one generic experiment and simulation stands for all")
def o_fit(S, n, mask, p0, fits, options=None):
    """parameters, errors, residuals and simulations are consistent with what the solver returned"""
    m = 2
    L = lab(S)
    ks = range(1 if n == "any" and not S.concrete else 3 if n == "any" else n)
    group = seq.Group("experiments", S)
    xs, ys, exps, sims, masks = [], [], [], [], []
    for k in ks:
        t = "K" + str(k)
        if S.concrete:
            npt = int(S.rng.integers(2, 6))
            x, y = S.rng.uniform(0.5, 2, npt), S.rng.normal(size=npt)
            mk = [slice(1, None), np.arange(npt) % 2 == 0, np.array([npt - 1, 0]), slice(None), [npt - 1, 0], [i % 3 > 0 for i in range(npt)]][int(S.rng.integers(6))] if mask == "given" else slice(None)
            xs.append(x[mk])
            ys.append(y[mk])
        else:
            S.fix_rank(1, t)
            mk = Select("m") if mask == "given" else slice(None)
            Shapes.rank[t + "/m"] = 1
            xt, yt = var(f"x{k}", True), var(f"y{k}")
            x, y = Arr(oarr(xt).copy(), frozenset([t])), Arr(oarr(yt).copy(), frozenset([t]))
            xs.append(xt)
            ys.append(yt)
        exps.append(Exp(x, y))
        sims.append(Sim(S, k, m, parameters=None))
        masks.append(mk)
    tails = [frozenset(["K" + str(k) + ("/m" if mask == "given" else "")]) for k in ks]
    e0 = {"ints": [1, 2], "intarray": np.array([1, 2]), "array": None, "floats": None, "tuple": (1, 2)}[p0]
    if e0 is None:
        v = S.arr("init", (m,), None)
        start = v.val if p0 == "array" else [v.val[0], v.val[1]]
        st = list(v.t)
    else:
        start, st = e0, [ONE, const(2)]
    keep = S.snapshot([start]) if p0 in ("array", "intarray") and not (p0 == "intarray" and not S.concrete) else []
    lists = [exps, sims, masks]
    if n == "any" and not S.concrete:
        lists = [seq.ObjSeq(group, x[0]) for x in lists]
    solver = Solver(S, m)
    with Patched(S, solver):
        opt = S.guard("Optimize", L.Optimize, lists[0], lists[1], start, **({"mask": lists[2]} if mask == "given" else {}))
        for k in range(fits):
            args, kw = (), {}
            if options == "keywords":
                kw = dict(absolute_sigma=bool(k), maxfev=500 * k, sigma=None, method="lm" if k else "trf")
            elif options == "positional":
                args = (None, bool(k), False)
            r = S.guard("curve_fit", opt.curve_fit, *args, **kw)
            lab_ = f"fit {k + 1}: " if fits > 1 else ""
            got = solver.options[-1] if solver.options else None
            S.ensure_true(lab_ + "the options reach the solver", got is not None and same_options(got, args, kw), str(got))
            c = check_fit(S, opt, solver, k, r, lab_, st, xs, ys, tails, sims)
            st = list(c["popt"].t)
    S.ensure_true("the initial guess of the caller is unmodified", S.unchanged(keep))


def check_fit(S, opt, solver, k, r, lab_, st, xs, ys, tails, sims):
    m = len(st)
    S.ensure_true(lab_ + "the solver is called once per fit", len(solver.calls) == k + 1)
    c = solver.calls[-1]
    S.ensure_true(lab_ + "initial guess is passed", c["p0"] is not None)
    for i in range(m):
        eq(S, lab_ + f"initial guess[{i}]", c["p0"][i], st[i])
    same_cat(S, lab_ + "function of the solver", c["f"], xs, ys, tails, sims, c["q"], data=False, model=True)
    same_cat(S, lab_ + "data of the solver", c["y"], xs, ys, tails, sims, None, data=True, model=False)
    for i in range(m):
        eq(S, lab_ + f"parameters[{i}]", opt.parameters[i], c["popt"].t[i])
        eq(S, lab_ + f"returned parameters[{i}]", r[0][i], c["popt"].t[i])
        eq(S, lab_ + f"errors[{i}]", opt.errors[i], c["sd"][i])
        for j in range(len(sims)):
            eq(S, lab_ + f"parameters of simulation {j} [{i}]", sims[j].parameters[i], c["popt"].t[i])
    S.ensure_true(lab_ + "covariance is returned", r[1] is c["cov"] or S.concrete and np.array_equal(r[1], c["cov"]))
    same_cat(S, lab_ + "residuals", opt.residuals, xs, ys, tails, sims, c["popt"], data=True, model=True)
    if S.concrete:
        S.near(lab_ + "norm of the residuals", opt.norm_residuals(), np.sqrt(np.sum(np.asarray(opt.residuals) ** 2)))
        if np.all(np.abs(opt.parameters) > 1e-6):
            S.near(lab_ + "mean relative deviation", opt.mean_relative_std(), 100 * np.mean(np.asarray(opt.errors) / np.abs(opt.parameters)))
    else:
        ps = [c["popt"].t[i] for i in range(m)]
        S.requires(*[compare("!=", p, ZERO) for p in ps])
        rs = [sub(fun(f"s{s.k}", (0,) * (s.n + 1), [x] + ps), y) for x, y, s in zip(xs, ys, sims)]
        gen = isinstance(opt.residuals, Cat) and opt.residuals.of is not None
        total = points_sum([power(r, const(2)) for r in rs], tails, gen)
        eq(S, lab_ + "norm of the residuals", opt.norm_residuals(), power(total, const(Fraction(1, 2))))
        rel = add(*[div(s, ufun("abs", p)) for s, p in zip(c["sd"], ps)])
        eq(S, lab_ + "mean relative deviation", opt.mean_relative_std(), scale(rel, Fraction(100, m)))
    return c


def eq(S, label, x, t):
    if S.concrete:
        S.near(label, x, float(S.evaluate(t)), floor=0.0)
    else:
        x = Arr.of(x)
        S.ensure_true(label + ": scalar", x.a.ndim == 0 and x.tail is None)
        S.obls.append(Obl(label, "eq", a=coerce(x.a[()]), b=t))


def same_cat(S, label, result, xs, ys, tails, sims, p, data, model):
    """result is the concatenation, in the order of the lists, of model(p) - data"""
    if S.concrete:
        parts = []
        for x, y, s in zip(xs, ys, sims):
            v = 0.0
            if model:
                v = np.asarray(S.function(f"s{s.k}", s.n + 1)((0,) * (s.n + 1), x, *[p.val[i] for i in range(s.n)]))
            parts.append(v - y if model and data else y if data else v)
        w = np.concatenate(parts)
        return S.near(label, result, w)
    b = blocks(S, result)
    ok = b is not None and [x.tail for x in b] == tails and all(x.a.ndim == 0 for x in b)
    S.ensure_true(label + ": blocks", ok, "not the concatenation of all experiments" if b is None else str([sorted(x.tail or ()) for x in b]))
    if not ok:
        return
    for x, y, s, r in zip(xs, ys, sims, b):
        v = fun(f"s{s.k}", (0,) * (s.n + 1), [x] + [p.t[i] for i in range(s.n)]) if model else ZERO
        S.obls.append(Obl(f"{label}[{s.k}]", "eq", a=r.a[()], b=sub(v, y) if model and data else y if data else v))


@contract("C20", ["lab._optimize.Optimize.curve_fit"], [dict(n=n) for n in (1, 2)], shims=_shims(), transform=seq.transform,
          note="scipy.optimize.curve_fit is an assumed contract")
def o_twice(S, n):
    """a fit which starts at the parameters of another one leaves the former unaltered"""
    m = 2
    L = lab(S)
    opts = []
    solver = Solver(S, m)
    start = S.arr("init", (m,), None).val
    keep = S.snapshot([start])
    with Patched(S, solver):
        for r in range(2):
            exps, sims = [], []
            for k in range(n):
                t = f"K{r}{k}"
                if S.concrete:
                    x, y = S.rng.uniform(0.5, 2, 4), S.rng.normal(size=4)
                else:
                    S.fix_rank(1, t)
                    x, y = Arr(oarr(var(f"x{r}{k}", True)).copy(), frozenset([t])), Arr(oarr(var(f"y{r}{k}")).copy(), frozenset([t]))
                exps.append(Exp(x, y))
                sims.append(Sim(S, 10 * r + k, m))
            opt = S.guard("Optimize", L.Optimize, exps, sims, start if r == 0 else opts[0][0].parameters)
            S.guard("curve_fit", opt.curve_fit)
            opts.append((opt, sims, solver.calls[-1]))
    for r, (opt, sims, c) in enumerate(opts):
        for i in range(m):
            eq(S, f"fit {r + 1}: parameters[{i}]", opt.parameters[i], c["popt"].t[i])
            eq(S, f"fit {r + 1}: errors[{i}]", opt.errors[i], c["sd"][i])
            for s in sims:
                eq(S, f"fit {r + 1}: parameters of simulation {s.k} [{i}]", s.parameters[i], c["popt"].t[i])
    S.ensure_true("the initial guess of the caller is unmodified", S.unchanged(keep))


@contract("C20", ["lab._optimize.Optimize.curve_fit"], [dict(p0=p, mask=m) for p in ("ints", "floats", "array") for m in (False, True)], sym=False, runs=4)
def o_solver(S, p0, mask):
    """bounded: fits with the real solver, real experiments and simulations"""
    p = S.pkg
    L = p.lab
    true = np.array([S.rng.uniform(0.3, 0.8), S.rng.uniform(0.01, 0.2)])
    mk = lambda **kw: p.Distortional(p.frameworks.Invariants(p.models.invariants.ThirdOrderDeformation(**kw))) if hasattr(p, "Distortional") else \
        p.spaces.Distortional(p.frameworks.Invariants(p.models.invariants.ThirdOrderDeformation(**kw)))
    exps, sims, masks = [], [], []
    for lc in (L.Uniaxial(), L.Planar(), L.Biaxial()):
        n = int(S.rng.integers(4, 9))
        x = np.linspace(1.05, 2.0, n)
        area, length = S.rng.uniform(0.5, 20), S.rng.uniform(1, 50)
        f = L.Simulation(lc, x, ["C10", "C01"], mk, list(true)).stress()
        e = L.Experiment(lc.label, (x - 1) * length, f * area + 1e-3 * area * S.rng.normal(size=n), area=area, length=length)
        exps.append(e)
        sims.append(L.Simulation(lc, x, ["C10", "C01"], mk))
        masks.append(np.arange(n) > 0 if len(masks) % 2 else slice(0, n - 1))
    start = {"ints": [1, 1], "floats": [0.4, 0.2], "array": np.array([0.7, 0.1])}[p0]
    opt = S.guard("Optimize", L.Optimize, exps, sims, start, mask=masks if mask else None)
    par, cov = S.guard("curve_fit", opt.curve_fit)
    ms = masks if mask else [slice(None)] * 3
    # linear least squares
    cols, rhs = [], []
    for e, s, q in zip(exps, sims, ms):
        g = [s.stress_curve_fit(e.stretch[q], *v) for v in ((1.0, 0.0), (0.0, 1.0))]
        cols.append(np.array(g).T)
        rhs.append(e.force[q] / e.area)
    A_, b_ = np.vstack(cols), np.concatenate(rhs)
    best = np.linalg.lstsq(A_, b_, rcond=None)[0]
    S.checks += 1
    if not np.allclose(opt.parameters, best, rtol=1e-4, atol=1e-5):
        S.fail("parameters", f"fitted {opt.parameters}, least squares {best}")
    S.near("returned parameters", par, opt.parameters)
    S.near("residuals", opt.residuals, A_ @ np.asarray(opt.parameters) - b_, floor=1.0)
    S.near("errors", opt.errors, np.sqrt(np.diag(cov)))
    S.near("norm", opt.norm_residuals(), np.linalg.norm(A_ @ np.asarray(opt.parameters) - b_), floor=1.0)
    for s in sims:
        S.near("parameters of the simulation", s.parameters, opt.parameters)
        S.near("stress of the simulation", s.stress(), s.stress_curve_fit(s.stretch, *opt.parameters))


def _series(S, name, t, mask=None, seed=0):
    """stretch and stress of an experiment, and what a mask leaves of them"""
    if S.concrete:
        npt = 5
        x, y = S.rng.uniform(0.5, 2, npt), S.rng.normal(size=npt)
        mk = None if mask is None else [slice(1, None), np.arange(npt) % 2 == 0, np.array([npt - 1, 0]), slice(2), [npt - 1, 1, 0]][(seed + int(S.rng.integers(5))) % 5]
        sel = slice(None) if mk is None else mk
        return x, y, mk, x[sel], y[sel], None
    S.fix_rank(1, t)
    mk = None if mask is None else Select(mask)
    if mask is not None:
        Shapes.rank[t + "/" + mask] = 1
    xt, yt = var(f"x{name}", True), var(f"y{name}")
    return (Arr(oarr(xt).copy(), frozenset([t])), Arr(oarr(yt).copy(), frozenset([t])), mk, xt, yt,
            frozenset([t + ("" if mask is None else "/" + mask)]))


@contract("C20", ["lab._optimize.Optimize.init_curve_fit", "lab._optimize.Optimize.curve_fit"],
          [dict(what=w) for w in ("mask", "experiments", "simulations", "data", "parameters", "fewer", "more")], shims=_shims(), transform=seq.transform,
          note="scipy.optimize.curve_fit is an assumed contract")
def o_changed(S, what):
    """a fit refers to the experiments, simulations, masks and parameters the optimizer holds when it is started"""
    m = 2
    L = lab(S)
    solver = Solver(S, m)
    init = [S.scalar("i0"), S.scalar("i1")]
    masked = "m" if what == "mask" else None
    one = [_series(S, f"a{k}", f"K{k}", masked) for k in range(2)]
    exps = [Exp(s[0], s[1]) for s in one]
    sims = [Sim(S, k, m) for k in range(2)]
    with Patched(S, solver):
        opt = S.guard("Optimize", L.Optimize, exps, sims, init, **({"mask": [s[2] for s in one]} if masked else {}))
        r = S.guard("curve_fit", opt.curve_fit)
        S.ensure_true("state", opt.experiments is exps and opt.simulations is sims, "experiments and simulations are held as given")
        c = check_fit(S, opt, solver, 0, r, "first fit: ", [var("i0"), var("i1")], [s[3] for s in one], [s[4] for s in one], [s[5] for s in one], sims)
        st = list(c["popt"].t)
        two = one
        if what == "mask":
            two = []
            for k, s in enumerate(one):
                if S.concrete:
                    mk = [slice(0, 2), np.array([3, 1, 4])][int(S.rng.integers(2))]
                    two.append((s[0], s[1], mk, s[0][mk], s[1][mk], None))
                else:
                    Shapes.rank[f"K{k}/n"] = 1
                    two.append((s[0], s[1], Select("n"), s[3], s[4], frozenset([f"K{k}/n"])))
            opt.mask = [s[2] for s in two]
        elif what in ("experiments", "fewer", "more"):
            n = {"experiments": 2, "fewer": 1, "more": 3}[what]
            two = [_series(S, f"b{k}", f"L{k}") for k in range(n)]
            opt.experiments = [Exp(s[0], s[1]) for s in two]
            if n != 2:
                opt.mask = [slice(None)] * n
                sims = [Sim(S, 20 + k, m) for k in range(n)]
                opt.simulations = sims
        elif what == "data":
            two = [_series(S, f"b{k}", f"L{k}") for k in range(2)]
            for e, s in zip(exps, two):
                e.stretch, e._stress = s[0], s[1]
        elif what == "simulations":
            sims = [Sim(S, 20 + k, m) for k in range(2)]
            opt.simulations = sims
        elif what == "parameters":
            opt.parameters = [S.scalar("j0"), S.scalar("j1")]
            st = [var("j0"), var("j1")]
        r = S.guard("curve_fit", opt.curve_fit)
        check_fit(S, opt, solver, 1, r, "second fit: ", st, [s[3] for s in two], [s[4] for s in two], [s[5] for s in two], sims)
