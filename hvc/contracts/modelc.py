"""Contracts of the material models (C08 generalized invariants, C09 generalized strains, C10 built-in models)."""
import itertools
import numpy as np
from fractions import Fraction
from ..registry import contract, callee
from ..term import (T, add, sub, mul, div, power, const, scale, ZERO, ONE, compare, fun, diff, subst, var, bnot, band, ite, ufun, coerce, summ)
from ..world import oarr, In, Obl
from .. import arr as A
from .. import seq
from ..arr import Arr
from .mathc import PAIR
from .common import Energy, InvariantModel, order, SECOND3, used
from .framec import patterns, inv_kinds, spectral_hessian, spectral_gradient, distinct

GI = "models.stretches._generalized_invariants.GeneralizedInvariantsModel."


# ------------------------------------------------------------------ C08
class Strain:
    """a strain-stretch relation given by an uninterpreted function, with arbitrary reference values"""

    def __init__(self, S, name="f"):
        self.S, self.name, self.kw = S, name, []
        self.ref = [S.scalar(f"{name}r{k}") for k in range(3)]
        self.refs = [var(f"{name}r{k}") for k in range(3)]
        self.one = [fun(name, (k,), [ONE]) for k in range(3)]
        for k in range(3):
            S.apply(name, (k,), [1.0] if S.concrete else [ONE])

    def __call__(self, stretch, **kwargs):
        self.kw.append(kwargs)
        return tuple(self.S.apply(self.name, (k,), [stretch]) for k in range(3)) + tuple(self.ref)

    def spec(self, l):
        """documented (normalized) invariants of the strains"""
        E, d1, d2 = self.one
        E0, d10, d20 = self.refs
        c1 = div(add(d20, d10), add(d2, d1))
        up = sub(scale(mul(add(d20, d10), E0), 2), power(d10, const(2)))
        lo = sub(scale(mul(add(d2, d1), E), 2), power(d1, const(2)))
        c2 = div(up, lo)
        e = [fun(self.name, (0,), [x]) for x in l]
        J1 = add(*e)
        J2 = add(mul(e[0], e[1]), mul(e[1], e[2]), mul(e[0], e[2]))
        J3 = mul(*e)
        J10, J20 = scale(E, 3), scale(power(E, const(2)), 3)
        return add(mul(c1, sub(J1, J10)), J10), add(mul(c2, sub(J2, J20)), J20), J3

    def requires(self):
        E, d1, d2 = self.one
        S = self.S
        a, b = add(d2, d1), sub(scale(mul(add(d2, d1), E), 2), power(d1, const(2)))
        if S.concrete:
            S.requires(compare(">", ufun("abs", a), const(Fraction(1, 50))), compare(">", ufun("abs", b), const(Fraction(1, 50))))
        else:
            S.requires(compare("!=", a, ZERO), compare("!=", b, ZERO))


def _gi_cases(tier):
    for p in patterns():
        yield dict(p=p, t="A", kind="array")
    yield dict(p="111-111111", t=None, kind="array")
    yield dict(p="111-111111", t="", kind="array")
    for kind in ("const", "ones"):
        for t in ("A", None):
            if kind == "ones" and t is None:
                continue
            for p in ("111-111111", "100-100000", "110-110100", "111-001000"):
                yield dict(p=p, t=t, kind=kind + "2")
            for p in ("111-000000", "100-000000", "010-000000", "001-000000"):
                yield dict(p=p, t=t, kind=kind + "1")


@contract("C08", [GI + "__init__", GI + "gradient", GI + "hessian"], _gi_cases)
def g_model(S, p, t, kind):
    st = Strain(S)
    st.requires()
    l = S.stretches("l", t)
    W = Energy(S, "W", 3, inv_kinds(p, kind))
    mat = InvariantModel(S, W, S.token())
    kw = {"exponent": 3.5, "beta": "b", "zero": 0, "nothing": None, "flag": False}
    model = S.guard("GeneralizedInvariantsModel", S.pkg.models.stretches.GeneralizedInvariantsModel, mat, st, **kw)
    tl = list(l.t)
    w = fun("W", (0, 0, 0), st.spec(tl))
    r = S.call("gradient", model.gradient, l.val, S.token())
    S.ensure_true("gradient returns (dW/dl, statevars)", isinstance(r, (tuple, list)) and len(r) == 2, "gradient result")
    S.ensure("dW/dl", stacked(S, r[0]), W.spec([diff(w, x) for x in tl]))
    model = S.guard("GeneralizedInvariantsModel", S.pkg.models.stretches.GeneralizedInvariantsModel, mat, st, **kw)
    h = S.call("hessian", model.hessian, l.val, S.token())
    want = W.spec([diff(diff(w, tl[i]), tl[j]) for i, j in SECOND3])
    S.ensure("d2W/dldl", stacked(S, h), want)
    if t == "A" and kind == "array":
        y = S.stretches("y", t)
        model = used(S, S.guard("GeneralizedInvariantsModel", S.pkg.models.stretches.GeneralizedInvariantsModel, mat, st, **kw), y.val, S.token())
        S.ensure("d2W/dldl after other evaluations", stacked(S, S.call("hessian (again)", model.hessian, l.val, S.token())), want)
        S.ensure("dW/dl after other evaluations", stacked(S, S.call("gradient (again)", model.gradient, l.val, S.token())[0]), W.spec([diff(w, x) for x in tl]))
    S.ensure_true("keyword arguments reach the strain function", all(k == kw for k in st.kw), "keyword arguments")


def stacked(S, x):
    """a list of components counts as their stack"""
    if isinstance(x, (list, tuple)) and all(y is not None for y in x):
        if S.concrete:
            return np.array(np.broadcast_arrays(*[np.asarray(y) for y in x]))
        xs = [Arr.of(y) for y in x]
        u = A.union(*[y.tail for y in xs if y.tail is not None]) if any(y.tail is not None for y in xs) else None
        if any(y.a.ndim for y in xs):
            return x
        return Arr(oarr([y.a[()] for y in xs]), u)
    return x


@contract("C08", ["frameworks._generalized.GeneralizedInvariants.__init__", "frameworks._stretches.Stretches.gradient",
                  "frameworks._stretches.Stretches.hessian", GI + "gradient", GI + "hessian"],
          [dict(t=t, p=p) for t in ("A", None) for p in ("111-111111", "110-000000", "001-000000")],
          callees=("eigh", "dya", "cdya", "transpose"), symfuns=(), budget=400)
def g_framework(S, t, p):
    C = S.spectral("C", t)
    l, n = C.lam, C.n
    distinct(S, l)
    st = Strain(S)
    st.requires()
    W = Energy(S, "W", 3, inv_kinds(p, "array"))
    kw = {"exponent": 3.5, "zero": 0.0, "nothing": None}
    fw = S.guard("GeneralizedInvariants", S.pkg.frameworks.GeneralizedInvariants, InvariantModel(S, W, S.token()), st, **kw)
    w = fun("W", (0, 0, 0), st.spec(l))
    M = [[mul(n[i][a], n[j][a]) for i, j in PAIR] for a in range(3)]
    r = S.call("gradient", fw.gradient, C.val, S.token())
    S.ensure("dW/dC", r[0], spectral_gradient(w, l, M, W))
    want = spectral_hessian(S, w, l, M, W)
    S.ensure("d2W/dCdC", S.call("hessian", fw.hessian, C.val, S.token()), want)
    if S.concrete:
        D = S.spectral("D", t)
        used(S, fw, D.val, S.token())
        S.ensure("d2W/dCdC after other evaluations", S.call("hessian (again)", fw.hessian, C.val, S.token()), want)
        S.ensure("dW/dC after other evaluations", S.call("gradient (again)", fw.gradient, C.val, S.token())[0], spectral_gradient(w, l, M, W))
    S.ensure_true("keyword arguments reach the strain function", all(k == kw for k in st.kw), "keyword arguments")


# ------------------------------------------------------------------ C09
def exponents(tier):
    ks = ["k", 1, 2, -1, -2, 3, "1/2"] + (["-1/3", 4, "5/2", -3, "7/4"] if tier != "quick" else [])
    return ks


def exponent(S, k):
    """(value handed to the code, term)"""
    if k == "k":
        v = S.scalar("k", gen=lambda r: r.uniform(0.2, 4.0) * r.choice([-1, 1]), exponent=True)
        t = var("k")
        S.requires(compare("!=", t, ZERO))
        return v, t
    f = Fraction(k)
    c = const(f)
    if S.concrete or f.denominator == 1:
        return (int(f) if f.denominator == 1 else float(f)), c
    return float(f), c


@contract("C09", ["models.generalized._stretch.strain", "models.generalized._stretch.deformation"],
          lambda tier: [dict(f=f, k=k, t=t) for f in ("strain", "deformation") for k in exponents(tier) for t in ("A", None, "", "one")])
def g_strain(S, f, k, t):
    kv, kt = exponent(S, k)
    fn = getattr(S.pkg.models.generalized, f)
    measure = (lambda x, e: div(sub(power(x, e), ONE), e)) if f == "strain" else (lambda x, e: power(x, e))
    z = var("z_", True)
    d = [lambda x, e: measure(x, e)] + [(lambda x, e, m=m: subst(nth(measure(z, e), z, m), {z: x})) for m in (1, 2)]
    two = const(2)
    if t == "one":
        r = S.call(f, fn, 1, exponent=kv)
        x = [ONE]
        parts = [oarr(d[m](ONE, kt)) for m in range(3)]
    else:
        l = S.stretches("l", t)
        r = S.call(f, fn, l.val, exponent=kv)
        parts = [oarr([d[m](x, kt) for x in l.t]) for m in range(3)]
    S.ensure_true("six results", isinstance(r, (tuple, list)) and len(r) == 6, "number of results")
    for m, nm in enumerate(("value", "first derivative", "second derivative")):
        S.ensure(nm, r[m], parts[m])
    for m in range(3):
        S.ensure(f"reference value {m}", r[3 + m], d[m](ONE, two), tail=None)


def nth(t, v, m):
    for _ in range(m):
        t = diff(t, v)
    return t


class ConstModel:
    """an energy with given (constant) derivative values"""

    def __init__(self, first, second):
        self.first, self.second = first, second
        self.args = []

    def gradient(self, I1, I2, I3, statevars):
        self.args.append((I1, I2, I3))
        return (*self.first, statevars)

    def hessian(self, I1, I2, I3, statevars):
        return tuple(self.second)


@contract("C09", [GI + "__init__", GI + "gradient", GI + "hessian"], [dict(t="A"), dict(t=None), dict(t="")])
def g_normal(S, t):
    """an arbitrary strain function: undeformed invariants are the un-normalized ones, the isochoric response is that of the reference values"""
    st = Strain(S)
    st.requires()
    a = [S.scalar(f"a{i}") for i in range(3)]
    at = [var(f"a{i}") for i in range(3)]
    mat = ConstModel(a, [S.scalar(f"b{i}") for i in range(6)])
    model = S.guard("GeneralizedInvariantsModel", S.pkg.models.stretches.GeneralizedInvariantsModel, mat, st)
    l = S.arr("l", (3,), t, positive=True)
    ones = np.ones_like(l.val) if S.concrete else A.zeros_like(l.val, fill=ONE)
    g, _ = S.call("gradient", model.gradient, ones, None)
    E, d1, d2 = st.one
    E0, d10, d20 = st.refs
    for i, (name, spec) in enumerate((("I1", scale(E, 3)), ("I2", scale(power(E, const(2)), 3)), ("I3", power(E, const(3))))):
        S.ensure(f"{name} at the undeformed state is the un-normalized one", mat.args[0][i], spec)
    h = S.call("hessian", model.hessian, ones, None)
    up = [add(d20, d10), sub(scale(mul(add(d20, d10), E0), 2), power(d10, const(2)))]
    isochoric(S, g, h, mul(at[0], up[0]), mul(at[1], up[1]), add(mul(at[2], sub(mul(add(d2, d1), power(E, const(2))), mul(power(d1, const(2)), E)))))


def isochoric(S, g, h, *parts):
    """second derivative of the energy along l_a = exp(h_a s), h_1 + h_2 + h_3 = 0, at the undeformed state; no first derivative"""
    h1, h2 = S.scalar("h1"), S.scalar("h2")
    hh = [var("h1"), var("h2"), scale(add(var("h1"), var("h2")), -1)]
    vals = [h1, h2, -(h1 + h2)]
    if S.concrete:
        g, h = np.asarray(g), np.asarray(stacked(S, h))
    else:
        g, h = Arr.of(stacked(S, g)), Arr.of(stacked(S, h))
    q = 0.0 if S.concrete else const(0)
    for i in range(3):
        q = q + g[i] * (vals[i] * vals[i])
    for m, (i, j) in enumerate(SECOND3):
        q = q + h[m] * (vals[i] * vals[j] * (1 if i == j else 2))
    n2 = add(*[power(x, const(2)) for x in hh])
    S.ensure("initial isochoric stiffness", q, mul(add(*parts), n2))
    lin = sum((g[i] * vals[i] for i in range(1, 3)), g[0] * vals[0])
    S.ensure("no initial isochoric stress", lin, ZERO)


@contract("C09", [GI + "__init__", GI + "gradient", GI + "hessian", "models.generalized._stretch.strain", "models.generalized._stretch.deformation"],
          lambda tier: [dict(f=f, k=k, t=t) for f in ("strain", "deformation") for k in exponents(tier) for t in ("A", None)])
def g_normalized(S, f, k, t):
    """undeformed invariants and isochoric second-order response: independent of the exponent"""
    kv, kt = exponent(S, k)
    fn = getattr(S.pkg.models.generalized, f)
    a = [S.scalar(f"a{i}") for i in range(3)]
    b = [S.scalar(f"b{i}") for i in range(6)]
    at = [var(f"a{i}") for i in range(3)]
    mat = ConstModel(a, b)
    model = S.guard("GeneralizedInvariantsModel", S.pkg.models.stretches.GeneralizedInvariantsModel, mat, fn, exponent=kv)
    l = S.arr("l", (3,), t, positive=True)
    ones = np.ones_like(l.val) if S.concrete else A.zeros_like(l.val, fill=ONE)
    g, _ = S.call("gradient", model.gradient, ones, None)
    e = const(0 if f == "strain" else 1)
    for i, (name, spec) in enumerate((("I1", scale(e, 3)), ("I2", scale(e, 3)))):
        S.ensure(f"{name} at the undeformed state is the un-normalized one", mat.args[0][i], spec)
    h = S.call("hessian", model.hessian, ones, None)
    i1, i2 = (2, -1) if f == "strain" else (4, 4)
    isochoric(S, g, h, scale(at[0], i1), scale(at[1], i2))


# ------------------------------------------------------------------ C10
def opt(S, label, x, spec, cands=()):
    """a derivative, which may be omitted (None) when it vanishes identically"""
    if x is None:
        if S.concrete:
            v = np.asarray(S.evaluate(spec))
            S.checks += 1
            if np.any(np.abs(v) > 0):
                S.fail(label, "omitted although it does not vanish")
        else:
            S.obls.append(Obl(label + " (omitted)", "eq", a=ZERO, b=spec))
        return
    S.ensure(label, x, spec)


def _tod_cases(tier):
    for strain in (False, True):
        yield dict(strain=strain, t="A", given="all")
        yield dict(strain=strain, t=None, given="all")
    for k in range(6 if tier == "quick" else 32):
        s = [0, 31, 1, 2, 4, 24][k] if tier == "quick" else k
        yield dict(strain=bool(k % 2), t="A", given="".join(str((s >> i) & 1) for i in range(5)))


@contract("C10", ["models.invariants._third_order_deformation.ThirdOrderDeformation.__init__",
                  "models.invariants._third_order_deformation.ThirdOrderDeformation.gradient",
                  "models.invariants._third_order_deformation.ThirdOrderDeformation.hessian"], _tod_cases)
def b_tod(S, strain, t, given):
    names = ["C10", "C01", "C11", "C20", "C30"]
    kw, p = {}, []
    for i, n in enumerate(names):
        if given != "all" and given[i] == "0":
            p.append(ZERO)
            continue
        # every sign and, on the symbolic side, also zero
        kw[n] = S.scalar(n, gen=lambda r: float(r.choice([0.0, 0.0, 1.0])) * r.uniform(-2, 2) if given == "all" else r.uniform(-2, 2))
        p.append(var(n))
    if strain:
        kw["strain"] = True
    I = [S.arr(f"I{k}", (), t) for k in (1, 2, 3)]
    model = S.guard("ThirdOrderDeformation", S.pkg.models.invariants.ThirdOrderDeformation, **kw)
    if t == "A" and not strain:
        used(S, model, *[S.arr(f"Y{k}", (), t).val for k in (1, 2, 3)], S.token())
    u = const(0 if strain else 3)
    i1, i2 = I[0].t[()], I[1].t[()]
    x, y = sub(i1, u), sub(i2, u)
    w = add(mul(p[0], x), mul(p[1], y), mul(p[2], x, y), mul(p[3], x, x), mul(p[4], x, x, x))
    tok = S.token()
    r = S.call("gradient", model.gradient, I[0].val, I[1].val, I[2].val, tok)
    S.ensure_true("gradient returns three derivatives and the state variables", isinstance(r, (tuple, list)) and len(r) == 4, "gradient result")
    v = [i1, i2, I[2].t[()]]
    for k in range(3):
        opt(S, f"dW/dI{k + 1}", r[k], diff(w, v[k]))
    h = S.call("hessian", model.hessian, I[0].val, I[1].val, I[2].val, tok)
    S.ensure_true("hessian returns six derivatives", isinstance(h, (tuple, list)) and len(h) == 6, "hessian result")
    for m, (i, j) in enumerate(SECOND3):
        opt(S, f"d2W/dI{i + 1}dI{j + 1}", h[m], diff(diff(w, v[i]), v[j]))


def _ogden_cases(tier):
    for t in ("A", None):
        yield dict(n="any", t=t, kind="list")
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
            yield dict(n=n, t=t, kind="list")
    yield dict(n=2, t="A", kind="array")
    yield dict(n=1, t="A", kind="intalpha")


@contract("C10", ["models.stretches._ogden.Ogden.__init__", "models.stretches._ogden.Ogden.gradient", "models.stretches._ogden.Ogden.hessian"],
          _ogden_cases, transform=seq.transform)
def b_ogden(S, n, t, kind):
    l = S.stretches("l", t)
    if n == "any" and not S.concrete:
        group = seq.Group("i")
        mu, al = seq.SymSeq(S, "mu", group), seq.SymSeq(S, "al", group)
        S.requires(compare("!=", al.generic, ZERO))
        total = lambda body: summ(group.sym, body(mu.generic, al.generic))
    else:
        k = n if n != "any" else int(S.rng.integers(1, 6))
        mus = [S.scalar(f"mu{i}") for i in range(k)]
        if kind == "intalpha":
            als = [int(S.rng.choice([-2, -1, 1, 2, 3, 4]))] if S.concrete else [S.scalar("al0", exponent=True)]
            if S.concrete:
                S.env["vars"]["al0"] = als[0]
        else:
            als = [S.scalar(f"al{i}", gen=lambda r: r.uniform(0.3, 5) * r.choice([-1, 1]), exponent=True) for i in range(k)]
        for i in range(k):
            S.requires(compare("!=", var(f"al{i}"), ZERO))
        mu, al = mus, als
        if kind == "array":
            mu, al = (np.array(mus), np.array(als)) if S.concrete else (Arr(oarr(mus)), Arr(oarr(als)))
        total = lambda body: add(*[body(var(f"mu{i}"), var(f"al{i}")) for i in range(k)])
    model = S.guard("Ogden", S.pkg.models.stretches.Ogden, mu, al)
    if t == "A" and n in ("any", 2):
        used(S, model, S.stretches("y", t).val, S.token())
    w = add(*[total(lambda m, a, x=x: mul(scale(m, 2), power(a, const(-2)), sub(power(x, a), ONE))) for x in l.t])
    tok = S.token()
    r = S.call("gradient", model.gradient, l.val, tok)
    S.ensure_true("gradient returns (dW/dl, statevars)", isinstance(r, (tuple, list)) and len(r) == 2, "gradient result")
    S.ensure("dW/dl", stacked(S, r[0]), [diff(w, x) for x in l.t])
    h = S.call("hessian", model.hessian, l.val, tok)
    S.ensure_true("hessian returns six derivatives", len(h) == 6, "hessian result")
    for m, (i, j) in enumerate(SECOND3):
        opt(S, f"d2W/dl{i + 1}dl{j + 1}", h[m], diff(diff(w, l.t[i]), l.t[j]))
