"""Contracts of the frameworks (C06 invariants, C07 stretches)."""
import itertools
import numpy as np
from fractions import Fraction
from ..registry import contract, callee
from ..term import T, add, sub, mul, div, power, const, scale, ZERO, ONE, compare, fun, diff, subst, var, bnot, band, ite, ufun
from ..world import oarr, In, Obl
from .. import arr as A
from ..arr import Arr
from .mathc import PAIR, IDX, full, t_trace, t_det, t_inv, t_dot, t_eye, t_dya, t_cdya, t_ddot42, t_ddot22
from .common import (grad6, hess6, invariants, Energy, InvariantModel, StretchModel, order, SECOND3, supply, used)

ALGEBRA = ("eye", "trace", "det", "inv", "ddot", "dya", "cdya", "transpose", "astensor", "asvoigt", "cdya_ik", "cdya_il")


# ------------------------------------------------------------------ C06
def patterns():
    """which derivatives a model supplies: second derivatives only of invariants whose first derivative is supplied"""
    for first in itertools.product((0, 1), repeat=3):
        free = [k for k, (i, j) in enumerate(SECOND3) if first[i] and first[j]]
        for sel in itertools.product((0, 1), repeat=len(free)):
            second = [0] * 6
            for k, s in zip(free, sel):
                second[k] = s
            yield "".join(map(str, first)) + "-" + "".join(map(str, second))


def _inv_cases(tier):
    for p in patterns():
        yield dict(p=p, t="A", kind="array")
    for p in ("111-111111", "100-000000", "110-100100"):
        yield dict(p=p, t=None, kind="array")
        yield dict(p=p, t="", kind="array")
    # deformation-independent constants (with and without trailing ones)
    for kind in ("const", "ones"):
        for t in ("A", None):
            if kind == "ones" and t is None:
                continue
            yield dict(p="111-111111", t=t, kind=kind + "2")
            for p in ("111-000000", "100-000000", "010-000000", "001-000000", "110-000000"):
                yield dict(p=p, t=t, kind=kind + "1")
            for p in ("100-100000", "110-110100", "111-001000"):
                yield dict(p=p, t=t, kind=kind + "2")


def inv_kinds(p, kind):
    first, second = p.split("-")
    k = {}
    for i in range(3):
        k[order(3, i)] = "none" if first[i] == "0" else kind[:-1] if kind.endswith("1") else "array"
    for m, (i, j) in enumerate(SECOND3):
        k[order(3, i, j)] = "none" if second[m] == "0" else kind[:-1] if kind.endswith("2") else "array"
    return {d: x for d, x in k.items() if x != "array"}


@contract("C06", ["frameworks._invariants.Invariants.__init__", "frameworks._invariants.Invariants.gradient",
                  "frameworks._invariants.Invariants.hessian"], _inv_cases, callees=ALGEBRA, mags=True)
def f_invariants(S, p, t, kind):
    C = S.spd("C", t)
    W = Energy(S, "W", 3, inv_kinds(p, kind))
    tok, new = S.token(), S.token()
    mat = InvariantModel(S, W, new)
    fw = S.guard("Invariants", S.pkg.frameworks.Invariants, mat)
    w = fun("W", (0, 0, 0), invariants(C.t))
    r = S.call("gradient", fw.gradient, C.val, tok)
    S.ensure_true("gradient returns (dW/dC, statevars)", isinstance(r, (tuple, list)) and len(r) == 2, "gradient result")
    g, sv = r
    S.ensure("dW/dC", g, W.spec(grad6(w, C.t)))
    fw = S.guard("Invariants", S.pkg.frameworks.Invariants, mat)
    h = W.spec(hess6(w, C.t))
    S.ensure("d2W/dCdC", S.call("hessian", fw.hessian, C.val, tok), h)
    if t == "A" and kind == "array":
        D = S.spd("D", t)
        fw = used(S, S.guard("Invariants", S.pkg.frameworks.Invariants, mat), D.val, tok)
        S.ensure("d2W/dCdC after other evaluations", S.call("hessian (again)", fw.hessian, C.val, tok), h)
        S.ensure("dW/dC after other evaluations", S.call("gradient (again)", fw.gradient, C.val, tok)[0], W.spec(grad6(w, C.t)))


# ------------------------------------------------------------------ C07
A6 = [0, 1, 2, 0, 1, 0]
B6 = [0, 1, 2, 1, 2, 2]


def _str_cases(tier):
    for t in ("A", None, ""):
        for form in ("list", "array", "tuple"):
            if form != "list" and t == "" and tier == "quick":
                continue
            yield dict(t=t, form=form, second="111111")
    for sec in ("111000", "000000", "000111", "100000", "010000", "000100", "001010", "110110"):
        yield dict(t="A", form="list", second=sec)
    for form in ("list", "array"):      # constant derivatives, without trailing axes
        yield dict(t="A", form=form, second="linear")
        yield dict(t="A", form=form, second="cccccc")
    yield dict(t="A", form="list", second="0c1c10")


@contract("C07", ["frameworks._stretches.Stretches.__init__", "frameworks._stretches.Stretches.gradient", "frameworks._stretches.Stretches.hessian"],
          _str_cases, callees=("eigh", "dya", "cdya", "transpose"), mags=True)
def f_stretches(S, t, form, second):
    C = S.spectral("C", t)
    l, n = C.lam, C.n
    # an isotropic energy is a symmetric function of the stretches; where second derivatives vanish for some stretches only, the energy is
    # a general one, and the stretches are pairwise distinct
    if second in ("111111", "111000", "000111", "000000", "linear"):
        S.symmetric("W")
        distinct(S, l)
    elif S.concrete:
        return          # the order in which the stretches are passed to the model is not specified
    else:
        for a, b in ((0, 1), (1, 2), (0, 2)):
            S.requires(compare(">", ufun("abs", sub(power(l[a], const(2)), power(l[b], const(2)))), FAR))
    if second == "linear":      # W = c (l1 + l2 + l3)
        kinds = {**{order(3, i): "same:c" for i in range(3)}, **{order(3, i, j): "none" for i, j in SECOND3}}
    else:
        kinds = {order(3, i, j): {"0": "none", "c": "const"}[second[m]] for m, (i, j) in enumerate(SECOND3) if second[m] != "1"}
    W = Energy(S, "W", 3, kinds)
    mat = StretchModel(S, W, S.token(), form)
    fw = S.guard("Stretches", S.pkg.frameworks.Stretches, mat)
    r = S.call("gradient", fw.gradient, C.val, S.token())
    S.ensure_true("gradient returns (dW/dC, statevars)", isinstance(r, (tuple, list)) and len(r) == 2, "gradient result")
    w = fun("W", (0, 0, 0), l)
    M = [[mul(n[i][a], n[j][a]) for i, j in PAIR] for a in range(3)]
    S.ensure("dW/dC", r[0], spectral_gradient(w, l, M, W))
    fw = S.guard("Stretches", S.pkg.frameworks.Stretches, mat)
    h = S.call("hessian", fw.hessian, C.val, S.token())
    want = spectral_hessian(S, w, l, M, W)
    S.ensure("d2W/dCdC", h, want)
    if t == "A" and second == "111111" and S.concrete:
        D = S.spectral("D", t)
        fw = used(S, S.guard("Stretches", S.pkg.frameworks.Stretches, mat), D.val, S.token())
        S.ensure("d2W/dCdC after other evaluations", S.call("hessian (again)", fw.hessian, C.val, S.token()), want)
        S.ensure("dW/dC after other evaluations", S.call("gradient (again)", fw.gradient, C.val, S.token())[0], spectral_gradient(w, l, M, W))


def distinct(S, l):
    """two stretches coincide, or the difference of their squares is outside of the tolerance within which the code takes the limit"""
    for a, b in ((0, 1), (1, 2), (0, 2)):
        far = compare(">", ufun("abs", sub(power(l[a], const(2)), power(l[b], const(2)))), FAR)
        S.requires(bnot(band(bnot(compare("==", l[a], l[b])), bnot(far))))
        S.candidates(compare("==", l[a], l[b]))


def spectral_gradient(w, l, M, W):
    dl = [div(diff(w, x), scale(x, 2)) for x in l]
    return W.spec([add(*[mul(dl[a], M[a][k]) for a in range(3)]) for k in range(6)])


FAR = const(Fraction(11, 10 ** 9))     # the code takes the limit for |l_a^2 - l_b^2| <= 1e-8 (numpy.isclose)


def theta(S, w, l, a, b):
    """(dW/d(l_a^2) - dW/d(l_b^2)) / (l_a^2 - l_b^2), and its limit for l_a = l_b"""
    s = lambda x: div(diff(w, l[x]), scale(l[x], 2))
    q = lambda: div(sub(s(a), s(b)), sub(power(l[a], const(2)), power(l[b], const(2))))
    # limit: d2W/d(l_b^2)d(l_b^2) - d2W/d(l_a^2)d(l_b^2)
    ds = lambda x, y: div(diff(s(x), l[y]), scale(l[y], 2))
    return S.choose(compare("==", l[a], l[b]), lambda: sub(ds(b, b), ds(a, b)), lambda: q())


def spectral_hessian(S, w, l, M, W):
    out = np.empty((6, 6), dtype=object)
    s = [div(diff(w, l[x]), scale(l[x], 2)) for x in range(3)]
    dd = [[div(diff(s[x], l[y]), scale(l[y], 2)) for y in range(3)] for x in range(3)]
    cd = {(a, b): t_cdya(M[a], M[b]) for a, b in ((0, 1), (1, 2), (0, 2))}
    th = {k: theta(S, w, l, *k) for k in cd}
    for i in range(6):
        for j in range(6):
            out[i, j] = add(*[mul(dd[a][b], M[a][i], M[b][j]) for a in range(3) for b in range(3)],
                            *[scale(mul(th[k], cd[k][i, j]), 2) for k in cd])
    return W.spec(out)


@contract("C07", [], [dict()])
def l_spectral(S):
    """the spectral formulas are the derivatives of the energy along every motion of principal stretches and axes (in the eigenframe)"""
    l = list(S.stretches("l", None).t)
    dl = [S.arr(f"dl{a}", (), None).t[()] for a in range(3)]
    om = {k: S.arr(f"om{k[0]}{k[1]}", (), None).t[()] for k in ((0, 1), (1, 2), (0, 2))}
    for a, b in om:
        S.requires(compare(">", ufun("abs", sub(power(l[a], const(2)), power(l[b], const(2)))), FAR))
    S.symmetric("W")
    W = Energy(S, "W", 3)
    if S.concrete:
        S.function("W", 3)
    w = fun("W", (0, 0, 0), l)
    M = [[ONE if i == j == a else ZERO for i, j in PAIR] for a in range(3)]
    G = spectral_gradient(w, l, M, W)
    H = spectral_hessian(S, w, l, M, W)

    def rate(v):
        """rate of sum_a v_a n_a n_a with n_a' = sum_b om_ab n_b (om skew), in the frame n_a = e_a"""
        d = [add(*[mul(diff(v[a], l[b]), dl[b]) for b in range(3)]) for a in range(3)]
        o = lambda i, j: om[i, j] if (i, j) in om else scale(om[j, i], -1)
        return oarr([d[i] if i == j else mul(o(i, j), sub(v[i], v[j])) for i, j in PAIR])
    cdot = rate([power(x, const(2)) for x in l])
    g = [G[a] for a in range(3)]
    S.ensure("dW/dC : C' = W'", t_ddot22(G, cdot) if not S.concrete else S.evaluate(t_ddot22(G, cdot)), add(*[mul(diff(w, l[a]), dl[a]) for a in range(3)]), tail=None)
    hc, gd = t_ddot42(H, cdot), rate(g)
    S.ensure("d2W/dCdC : C' = (dW/dC)'", Arr(hc) if not S.concrete else S.evaluate(hc), gd, tail=None)
    # the value at coinciding stretches is the limit of the quotient: (numerator)' / (denominator)' w.r.t. l_a^2
    for a, b in om:
        s = lambda x: div(diff(w, l[x]), scale(l[x], 2))
        ds = lambda x, y: div(diff(s(x), l[y]), scale(l[y], 2))
        eqs = {l[a]: l[b]}
        lim = subst(sub(ds(b, b), ds(a, b)), eqs)
        S.ensure(f"limit[{a},{b}]: numerator vanishes", val(S, subst(sub(s(a), s(b)), eqs)), ZERO, tail=None)
        S.ensure(f"limit[{a},{b}] is the quotient of the derivatives", val(S, subst(sub(ds(a, a), ds(b, a)), eqs)), lim, tail=None)


def val(S, t):
    return S.evaluate(t) if S.concrete else t
