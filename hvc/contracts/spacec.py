"""Contracts of the deformation, distortional and dilatational spaces (C12-C14)."""
from fractions import Fraction
import numpy as np
from ..registry import contract, callee
from .. import arr as A
from ..arr import Arr
from ..world import oarr, Obl
from ..term import T, Unsupported, add, sub, mul, div, power, const, scale, ZERO, ONE, compare, fun, diff, var
from .mathc import PAIR, IDX, t_det, t_inv, t_tensor2, t_tensor4, t_eye, mk, vec
from .common import HALF6, grad6, hess6, order, Energy, used
from .modelc import stacked

EYE3 = [[ONE if i == j else ZERO for j in range(3)] for i in range(3)]
SPACES = {"deformation": ("spaces._deformation", "Deformation"), "distortional": ("spaces._distortional", "Distortional"),
          "dilatational": ("spaces._dilatational", "Dilatational")}
ALGEBRA = ("asvoigt", "astensor", "eye", "trace", "det", "inv", "ddot", "dya", "cdya", "transpose", "cdya_ik")


def module(S, dotted):
    """a module of the package (symbolic or real)"""
    if S.concrete:
        import importlib
        return importlib.import_module("hyperelastic." + dotted)
    return S.pkg.load("hyperelastic." + dotted)


def space_class(S, space):
    m, c = SPACES[space]
    return getattr(module(S, m), c)


def t_c(f):
    """the six components of F^T F"""
    return oarr([add(*[mul(f[k][i], f[k][j]) for k in range(3)]) for i, j in PAIR])


def kinematics(S, F, extra=(), names=("c", "J")):
    """ghost names for C = F^T F and J = det(F) = sqrt(det(C)) (lemma l_kinematics)"""
    c = S.ghost(names[0], t_c(F.t), keys=extra)
    d = t_det(c)
    j = S.ghost(names[1], S.det3(F.t), keys=[power(d, const(Fraction(1, 2)))], positive=True)[()]
    S.requires(compare(">", d, ZERO))
    return c, j, d


class SpaceModel:
    """material of a space, given by an uninterpreted energy of the six components of its argument"""

    def __init__(self, S, W, kind, tokens=None):
        self.S, self.W, self.kind, self.tokens = S, W, kind, tokens
        self.x = [np.eye(3), np.zeros(0)]
        self.calls = []

    def der(self, C, *idx):
        f = Fraction(1)
        for i in idx:
            f *= HALF6[i]
        v = self.W([C[k] for k in range(6)], *idx)
        if v is None:
            return np.zeros_like(np.asarray(C[0], float)) if self.S.concrete else A.zeros_like(Arr.of(C[0]))
        # a constant derivative has as many trailing axes (of size one) as the argument
        if self.S.concrete:
            if isinstance(v, np.ndarray) and v.size == 1 and v.ndim != np.ndim(C) - 1:
                v = v.reshape((1,) * (np.ndim(C) - 1))
        elif isinstance(v, Arr) and v.tail is not None and not v.tail and Arr.of(C).tail is None:
            v = v.a[()]
        return v * float(f) if self.S.concrete else v * const(f)

    def gradient(self, C, statevars):
        self.calls.append(("gradient", C, statevars))
        return stacked(self.S, [self.der(C, i) for i in range(6)]), self.tokens

    def hessian(self, C, statevars):
        self.calls.append(("hessian", C, statevars))
        h = [[self.der(C, min(i, j), max(i, j)) for j in range(6)] for i in range(6)]
        if self.S.concrete:
            b = np.broadcast_arrays(*[np.asarray(x) for r in h for x in r])
            return np.array(b).reshape((6, 6) + b[0].shape)
        xs = [Arr.of(x) for r in h for x in r]
        ts = [x.tail for x in xs if x.tail is not None]
        return Arr(oarr([[Arr.of(x).a[()] for x in r] for r in h]), A.union(*ts) if ts else None)


def argument(space, c, d):
    """the argument of the energy: the part of C on which the space evaluates its material"""
    if space == "deformation":
        return list(c)
    if space == "distortional":
        return [mul(power(d, const(Fraction(-1, 3))), x) for x in c]
    return [power(d, const(Fraction(1, 3)))] * 3 + [ZERO] * 3


def lagrange(space, c, W):
    """second Piola-Kirchhoff stress and its elasticity tensor: derivatives of the energy w.r.t. C"""
    w = fun("W", (0,) * 6, argument(space, c, t_det(c)))
    s = oarr([scale(x, 2) for x in grad6(w, c)])
    h = hess6(w, c)
    c4 = np.empty((6, 6), dtype=object)
    for i in range(6):
        for j in range(6):
            c4[i, j] = scale(h[i, j], 4)
    return W.spec(s), W.spec(c4)


# ---------------------------------------------------------------------------------------------------- Piola transforms
def t_push(f, S, left, right):
    m = [[S[IDX[i, j]] for j in range(3)] for i in range(3)]
    out = oarr(m)
    if left:
        out = oarr([[add(*[mul(f[i][k], out[k, j]) for k in range(3)]) for j in range(3)] for i in range(3)])
    if right:
        out = oarr([[add(*[mul(f[j][k], out[i, k]) for k in range(3)]) for j in range(3)] for i in range(3)])
    return out


def t_stress(f, s, j, force, area):
    """F S, F S F^T / J, S or S F^T / J"""
    out = t_push(f, s, force is None, area is None)
    if area is None:
        out = oarr([[div(out[a, b], j) for b in range(3)] for a in range(3)])
    return out


def t_elasticity(f, c4, s, j, invc, force, area):
    """transforms of the elasticity tensor c4 with the initial-stress part"""
    L = f if force is None else EYE3
    R = f if area is None else EYE3
    m4 = t_tensor4(c4)

    def tr(m, M, ax):
        m = np.moveaxis(m, ax, 0)
        out = np.empty_like(m)
        for a in range(3):
            for idx in np.ndindex(3, 3, 3):
                out[(a,) + idx] = add(*[mul(M[a][k], m[(k,) + idx]) for k in range(3)])
        return np.moveaxis(out, 0, ax)
    if force is None:
        m4 = tr(tr(m4, f, 0), f, 2)
    g = EYE3 if force is None else [[invc[IDX[i, k]] for k in range(3)] for i in range(3)]
    geo = np.empty((3, 3, 3, 3), dtype=object)
    for i, J, k, l in np.ndindex(3, 3, 3, 3):
        geo[i, J, k, l] = add(m4[i, J, k, l], mul(g[i][k], s[IDX[J, l]]))
    if area is None:
        geo = tr(tr(geo, f, 1), f, 3)
        for i in np.ndindex(3, 3, 3, 3):
            geo[i] = div(geo[i], j)
    return geo


@callee("piola", "spaces._space.Space.piola", ["p_piola"])
def _(S, orig):
    def piola(self, F, S_, detF=None, C4=None, invC=None):
        """precondition: detF = det(F) and invC = inv(F^T F), if given; postcondition: the transform (an opaque result is returned)"""
        F = vec(F, 3, 3)
        S_ = vec(S_, 6)
        if detF is not None:
            D = Arr.of(detF)
            if D.a.ndim:
                raise Unsupported("callee contract: detF")
            S.obls.append(Obl("call of piola/pre: detF == det(F)", "eq", a=D.a[()], b=S.det3(F.a)
                              if not any(k is S.det3(F.a) for k in S.defs.values()) else next(v for v, k in S.defs.items() if k is S.det3(F.a))))
        if invC is not None:
            ic = vec(invC, 6)
            c = [add(*[mul(F.a[k][i], F.a[k][j]) for k in range(3)]) for i, j in PAIR]
            for k, x in enumerate(t_inv(c)):
                S.obls.append(Obl(f"call of piola/pre: invC[{k}] == inv(C)", "eq", a=ic.a[k], b=x))
        S.piola = getattr(S, "piola", [])
        if not self.finalize:
            r = S_ if C4 is None else vec(C4, 6, 6)
        else:
            n = len(S.piola)
            sh = (3, 3) if C4 is None else (3, 3, 3, 3)
            t = np.empty(sh, dtype=object)
            for i in np.ndindex(*sh):
                t[i] = var(f"piola{n}_" + "".join(map(str, i)))
            ts = [x.tail for x in (F, S_, C4) if isinstance(x, Arr) and x.tail is not None]
            r = Arr(t, A.union(*ts) if ts else None)
        S.piola.append((self, F, S_, C4, r))
        return r
    # keyword names of the original signature
    return lambda self, F, S, detF=None, C4=None, invC=None: piola(self, F, S, detF, C4, invC)


def transformed(S, label, space, result, F, s, c4, j, c, conf):
    """result is the Piola transform of the stress s (c4 None) or the elasticity c4"""
    if not conf["finalize"]:
        return S.ensure(label, result, s if c4 is None else c4)
    if S.stubbed:
        rec = [p for p in getattr(S, "piola", []) if p[4] is result]
        S.ensure_true(label + " is a Piola transform", len(rec) == 1, "the result is not the value returned by Space.piola")
        if not rec:
            return
        self, f, ps, pc, r = rec[0]
        S.ensure_true(label + ": configuration", self is space and (self.force, self.area, bool(self.finalize)) == (conf["force"], conf["area"], True), "configuration changed")
        S.ensure(label + ": F passed to piola", f, F.t)
        S.ensure(label + ": S passed to piola", ps, s)
        S.ensure_true(label + ": kind of transform", (pc is None) == (c4 is None))
        if c4 is not None and pc is not None:
            S.ensure(label + ": C4 passed to piola", pc, c4)
        return
    if c4 is None:
        S.ensure(label, result, t_stress(F.t, s, j, conf["force"], conf["area"]))
    else:
        S.ensure(label, result, t_elasticity(F.t, c4, s, j, t_inv(c), conf["force"], conf["area"]))


PATTERNS = {"full": {}, "const": "ones"}


def energy(S, kind):
    kinds = {}
    if kind == "const-hessian":
        kinds = {order(6, i, j): "ones" for i in range(6) for j in range(i, 6)}
    elif kind == "const":
        kinds = {order(6, i): "ones" for i in range(6)}
        kinds.update({order(6, i, j): "ones" for i in range(6) for j in range(i, 6)})
    elif kind == "linear":
        kinds = {order(6, i): "ones" for i in range(6)}
        kinds.update({order(6, i, j): "none" for i in range(6) for j in range(i, 6)})
    return kinds


def _space_cases(tier):
    for t in ("A", "", None):
        yield dict(t=t, finalize=False, area=0)
        yield dict(t=t, finalize=True, area=0)


def space_contract(space, pid):
    mod, cls = SPACES[space]
    base = f"{mod}.{cls}."

    def fn(S, t, finalize, area):
        F = S.defgrad("F", t)
        c, j, d = kinematics(S, F)
        W = Energy(S, "W", 6)
        mat = SpaceModel(S, W, "full", S.token())
        conf = dict(finalize=finalize, force=None, area=area)
        sp = S.guard(cls, space_class(S, space), mat, **({} if finalize else {"finalize": False}), **({} if area == 0 else {"area": area}))
        s, c4 = lagrange(space, c, W)
        r = S.call("gradient", sp.gradient, [F.val, S.token()])
        S.ensure_true("gradient returns [stress, statevars]", isinstance(r, (list, tuple)) and len(r) == 2)
        transformed(S, "dW/dF", sp, r[0], F, s, None, j, c, conf)
        sp = S.guard(cls, space_class(S, space), mat, **({} if finalize else {"finalize": False}), **({} if area == 0 else {"area": area}))
        r = S.call("hessian", sp.hessian, [F.val, S.token()])
        S.ensure_true("hessian returns [elasticity]", isinstance(r, (list, tuple)) and len(r) == 1)
        transformed(S, "d2W/dFdF", sp, r[0], F, s, c4, j, c, conf)
        if t == "A":
            G = S.defgrad("G", t)
            kinematics(S, G, names=("cg", "Jg"))
            sp = used(S, S.guard(cls, space_class(S, space), mat, **({} if finalize else {"finalize": False}), **({} if area == 0 else {"area": area})), [G.val, S.token()])
            r = S.call("hessian (again)", sp.hessian, [F.val, S.token()])
            transformed(S, "d2W/dFdF after other evaluations", sp, r[0], F, s, c4, j, c, conf)
            r = S.call("gradient (again)", sp.gradient, [F.val, S.token()])
            transformed(S, "dW/dF after other evaluations", sp, r[0], F, s, None, j, c, conf)
    fn.__name__ = "s_" + space
    fn.__doc__ = f"{cls} space: derivatives of W(argument({space}))"
    contract(pid, [base + "__init__", base + "gradient", base + "hessian", "spaces._space.Space.__init__", "spaces._space.Space.piola"],
             _space_cases, callees=ALGEBRA + ("piola",), weight=3.0, mags=True, budget=300)(fn)


space_contract("deformation", "C12")
space_contract("distortional", "C13")
space_contract("dilatational", "C14")


def _sparse_cases(tier):
    pairs = [(i, j) for i in range(6) for j in range(i, 6)]
    for i, j in pairs:
        yield dict(first="none", second=f"{i}{j}")
    for i in range(6):
        yield dict(first=str(i), second="none")
    yield dict(first="none", second="none")
    for i, j in ((0, 1), (3, 3), (2, 4), (4, 5)):
        yield dict(first="all", second=f"{i}{j}")
    yield dict(first="all", second="none")
    for k in range(3):
        yield dict(first=f"deviatoric{k}", second="none")


def sparse_contract(space, pid):
    mod, cls = SPACES[space]

    def fn(S, first, second):
        """energies whose first and second derivatives vanish but for single components"""
        F = S.defgrad("F", "A")
        c, j, d = kinematics(S, F)
        kinds = {order(6, i): "none" for i in range(6) if first not in ("all", str(i))}
        last = first.startswith("deviatoric")
        if last:        # a stress without trace and shear components
            kinds[order(6, int(first[-1]))], kinds[order(6, (int(first[-1]) + 1) % 3)] = "same:a", "nega:a"
        kinds.update({order(6, i, k): "none" for i in range(6) for k in range(i, 6) if second != f"{i}{k}"})
        W = Energy(S, "W", 6, kinds)
        mat = SpaceModel(S, W, "full", S.token())
        s, c4 = lagrange(space, c, W)
        if last:
            sp = S.guard(cls, space_class(S, space), mat)
            conf = dict(finalize=True, force=None, area=0)
            transformed(S, "dW/dF", sp, S.call("gradient", sp.gradient, [F.val, S.token()])[0], F, s, None, j, c, conf)
            transformed(S, "d2W/dFdF", sp, S.call("hessian", sp.hessian, [F.val, S.token()])[0], F, s, c4, j, c, conf)
            return
        sp = S.guard(cls, space_class(S, space), mat, finalize=False)
        S.ensure("dW/dC", S.call("gradient", sp.gradient, [F.val, S.token()])[0], s)
        S.ensure("d2W/dCdC", S.call("hessian", sp.hessian, [F.val, S.token()])[0], c4)
    fn.__name__ = "z_" + space
    contract(pid, [f"{mod}.{cls}.gradient", f"{mod}.{cls}.hessian"], _sparse_cases, callees=ALGEBRA + ("piola",), weight=1.0, mags=True, runs=6)(fn)


sparse_contract("deformation", "C12")
sparse_contract("distortional", "C13")
sparse_contract("dilatational", "C14")


# ------------------------------------------------------------------------------------------------------------- lemmas
def value(S, x):
    """terms as the result of a lemma"""
    if S.concrete:
        return S.evaluate(x)
    return Arr(x) if isinstance(x, np.ndarray) else x


@contract("C12", [])
def l_kinematics(S):
    """C = F^T F: det(C) = det(F)^2 and C is positive definite, so the square root of det(C) is det(F) for det(F) > 0"""
    F = S.defgrad("F", None)
    c = t_c(F.t)
    d = S.det3(F.t)
    ev = lambda x: value(S, x)
    S.ensure("det(F^T F)", ev(t_det(c)), power(d, const(2)), tail=None)
    a, b = [F.t[k][0] for k in range(3)], [F.t[k][1] for k in range(3)]
    n = [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))]
    # leading minors: c00 = |F e1|^2, the second one is |F e1 x F e2|^2, and F e3 . (F e1 x F e2) = det(F) > 0
    S.ensure("second leading minor", ev(sub(mul(c[0], c[1]), power(c[3], const(2)))), add(*[power(x, const(2)) for x in n]), tail=None)
    S.ensure("triple product", ev(add(*[mul(F.t[k][2], n[k]) for k in range(3)])), d, tail=None)
    S.ensure("first leading minor", ev(c[0]), add(*[power(x, const(2)) for x in a]), tail=None)


@contract("C12", [], weight=2.0)
def l_derivative(S):
    """for every energy of C = F^T F: P = F S and A = (delta_ik S + F F C4) are its derivatives w.r.t. F"""
    F = S.defgrad("F", None)
    W = Energy(S, "W", 6)
    if S.concrete:
        S.function("W", 6)
    ev = lambda x: value(S, x)
    cv = [var(f"cc{k}", k < 3) for k in range(6)]
    c = t_c(F.t)
    m = dict(zip(cv, c))
    memo = {}
    from ..term import subst
    s, c4 = lagrange("deformation", cv, W)
    s = [subst(x, m, memo) for x in s]
    c4 = oarr([[subst(c4[i, j], m, memo) for j in range(6)] for i in range(6)])
    w = fun("W", (0,) * 6, list(c))
    P = oarr([[diff(w, F.t[i][J]) for J in range(3)] for i in range(3)])
    S.ensure("dW/dF", ev(P), t_stress(F.t, s, None, None, 0), tail=None)
    for i in range(3):
        for J in range(3):
            S.ensure(f"d2W/dFdF[{i},{J}]", ev(oarr([[diff(P[i, J], F.t[k][l]) for l in range(3)] for k in range(3)])),
                     t_elasticity(F.t, c4, s, None, None, None, 0)[i, J], tail=None)


@contract("C13", [])
def l_distortional(S):
    """the Kirchhoff stress F S F^T of the distortional space is trace-free; no stress in the undeformed state if isotropic; C -> a C leaves C S(C) unchanged"""
    from ..term import subst
    W = Energy(S, "W", 6)
    C = S.spd("c", None)
    c = C.t
    if S.concrete:
        S.function("W", 6)
    ev = lambda x: value(S, x)
    s, _ = lagrange("distortional", c, W)
    from .mathc import t_ddot22
    S.ensure("tr(F S F^T) = S : C", ev(t_ddot22(s, c)), ZERO, tail=None)
    a = var("a", True)
    if S.concrete:
        S.scalar("a", positive=True)
    x = var("x", True)          # det(C), and det(a C) = a^3 det(C)
    if S.concrete:
        S.env["vars"]["x"] = S.evaluate(t_det(c))
    sx = [subst(y, {t_det(c): x}) for y in s]
    m = {c[k]: mul(a, c[k]) for k in range(6)}
    S.ensure("det(a C) = a^3 det(C)", ev(subst(t_det(c), m)), mul(power(a, const(3)), t_det(c)), tail=None)
    m[x] = mul(power(a, const(3)), x)
    S.ensure("a S(a C) = S(C)", ev(oarr([mul(a, subst(y, m)) for y in sx])), sx, tail=None)
    m = {c[k]: (ONE if k < 3 else ZERO) for k in range(6)}
    iso = [subst(x, m) for x in s]
    # isotropic at the reference state: dW/dC = p I
    p = var("p")
    if S.concrete:
        S.scalar("p")
    one = [ONE, ONE, ONE, ZERO, ZERO, ZERO]
    mm = {fun("W", order(6, k), one): (p if k < 3 else ZERO) for k in range(6)}
    S.ensure("S(I) = 0", ev(oarr([subst(x, mm) for x in iso])), oarr([ZERO] * 6), tail=None)


@contract("C14", [])
def l_dilatational(S):
    """the Cauchy stress of the dilatational space is a pressure which depends on the volume ratio only"""
    from ..term import subst
    W = Energy(S, "W", 6)
    F = S.defgrad("F", None)
    if S.concrete:
        S.function("W", 6)
    ev = lambda x: value(S, x)
    cv = [var(f"cc{k}", k < 3) for k in range(6)]
    s, _ = lagrange("dilatational", cv, W)
    d = t_det(cv)
    # S = p C^-1 with p a function of det(C)
    x = var("x", True)
    if S.concrete:
        S.scalar("x", positive=True)
    a = [power(x, const(Fraction(1, 3)))] * 3 + [ZERO] * 3
    g = [fun("W", order(6, k), a) for k in range(3)]
    p = scale(mul(power(x, const(Fraction(1, 3))), add(*g)), Fraction(2, 3))
    memo = {}
    m = dict(zip(cv, t_c(F.t)))
    inv = t_inv(cv)
    if S.concrete:
        for k, t in m.items():
            S.env["vars"][f"cc{k.args[0][2:]}"] = S.evaluate(t)
    S.ensure("S = p C^-1", ev(s), oarr([mul(subst(p, {x: d}), inv[k]) for k in range(6)]), tail=None)
    sig = t_push(F.t, [mul(p, subst(inv[k], m, memo)) for k in range(6)], True, True)
    S.ensure("F (p C^-1) F^T = p I", ev(sig), oarr([[p if i == j else ZERO for j in range(3)] for i in range(3)]), tail=None)
