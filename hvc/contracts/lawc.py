"""Objectivity, isotropy and symmetry of the response (C16)."""
from fractions import Fraction
import numpy as np
from ..registry import contract
from .. import npshim
from ..world import oarr, In
from ..arr import Arr
from .. import arr as A
from ..term import add, mul, power, const, var, compare, ZERO, ONE, T
from .mathc import PAIR, IDX, t_det, t_inv, full, t_tensor4
from .common import Energy, InvariantModel, StretchModel
from .framec import inv_kinds, distinct
from .spacec import ALGEBRA, SPACES, SpaceModel, space_class, kinematics, t_c, module

CONFIGS = [(None, 0), (None, None), (0, 0), (0, None)]


def t_mul(a, b):
    return [[add(*[mul(a[i][k], b[k][j]) for k in range(3)]) for j in range(3)] for i in range(3)]


def t_T(a):
    return [[a[j][i] for j in range(3)] for i in range(3)]


def t_turn2(q, v):
    """Q^T v Q for six components"""
    m = t_mul(t_T(q), t_mul(full(v), q))
    return oarr([m[i][j] for i, j in PAIR])


def t_turn4(q, c4):
    """Q^T Q^T C4 Q Q in reduced storage"""
    m = t_tensor4(c4)
    for ax in range(4):
        m = np.moveaxis(m, ax, 0)
        out = np.empty_like(m)
        for a in range(3):
            for idx in np.ndindex(3, 3, 3):
                out[(a,) + idx] = add(*[mul(q[k][a], m[(k,) + idx]) for k in range(3)])
        m = np.moveaxis(out, 0, ax)
    return oarr([[m[i][j][k][l] for k, l in PAIR] for i, j in PAIR])


def turn_legs(m, q, legs):
    """apply q to the given axes of a tensor of terms"""
    for ax in legs:
        m = np.moveaxis(m, ax, 0)
        out = np.empty_like(m)
        for a in range(3):
            for idx in np.ndindex(*m.shape[1:]):
                out[(a,) + idx] = add(*[mul(q[a][k], m[(k,) + idx]) for k in range(3)])
        m = np.moveaxis(out, 0, ax)
    return m


def tested(S, nm, v, k):
    """a computed array as terms"""
    if not S.concrete:
        return Arr.of(v).a
    from .piolac import name
    v = np.asarray(v)
    if v.ndim < k:
        S.fail(nm, f"result shape {v.shape}")
        return None
    return name(S, nm, np.array(np.broadcast_to(v, v.shape[:k] + np.broadcast_shapes(v.shape[k:], S.tail or ()))), k)


# ------------------------------------------------------------------ Piola transforms
def _piola_cases(tier):
    for rot in ("QF", "FQ"):
        for force, area in CONFIGS:
            for axis in (0, 1, 2):
                yield dict(rot=rot, force=force, area=area, axis=axis)


@contract("C16", ["spaces._space.Space.piola"], _piola_cases, callees=("asvoigt", "astensor", "eye", "det", "inv", "cdya_ik"), runs=10)
def o_piola(S, rot, force, area, axis):
    """superposed rotation: S and C4 are the same (QF), or rotated (FQ), and so are their transforms"""
    F = S.defgrad("F", "A")
    s = S.sym("S", "A")
    c4 = S.arr("C4", (6, 6), "A")
    q = S.rotation(axis)
    c, j, d = kinematics(S, F)
    Space = module(S, "spaces._space").Space
    sp = S.guard("Space", Space, force=force, area=area)
    from .piolac import terms
    ic = t_inv(c)
    kw = dict(detF=terms(S, j, F))
    args = lambda x, y: dict(F=x, S=y)
    P = tested(S, "P", S.call("piola", sp.piola, F=F.val, S=s.val, **kw), 2)
    E = tested(S, "E", S.call("piola", sp.piola, F=F.val, S=s.val, C4=c4.val, invC=terms(S, ic, F), **kw), 4)
    if P is None or E is None:
        return
    if rot == "QF":
        G = S.of_terms("QF", t_mul(q, F.t.tolist()), "A")
        S.alias(t_c(G.t), c)
        s2, c42, ic2, r = s, c4, ic, q
        l1, l2 = (() if force is not None else (0,)) + (() if area is not None else (1,)), \
            (() if force is not None else (0, 2)) + (() if area is not None else (1, 3))
    else:
        G = S.of_terms("FQ", t_mul(F.t.tolist(), q), "A")
        s2 = S.of_terms("SQ", t_turn2(q, s.t), "A")
        c42 = S.of_terms("C4Q", t_turn4(q, c4.t), "A")
        ic2, r = t_turn2(q, ic), t_T(q)
        l1, l2 = (() if force is None else (0,)) + (() if area is None else (1,)), \
            (() if force is None else (0, 2)) + (() if area is None else (1, 3))
    P2 = S.call("piola (rotated)", sp.piola, F=G.val, S=s2.val, **kw)
    S.ensure("rotated stress", P2, turn_legs(P, r, l1))
    E2 = S.call("piola (rotated)", sp.piola, F=G.val, S=s2.val, C4=c42.val, invC=terms(S, ic2, F), **kw)
    S.ensure("rotated elasticity", E2, turn_legs(E, r, l2))


@contract("C16", ["spaces._space.Space.piola"], [dict(force=f, area=a) for f, a in CONFIGS], callees=("asvoigt", "astensor", "eye", "det", "inv", "cdya_ik"), runs=10)
def y_piola(S, force, area):
    """major symmetry is kept, and the Cauchy stress is symmetric"""
    F = S.defgrad("F", "A")
    s = S.sym("S", "A")
    u = S.arr("U", (21,), "A")
    iu = np.zeros((6, 6), dtype=int)
    k = 0
    for i in range(6):
        for j in range(i, 6):
            iu[i, j] = iu[j, i] = k
            k += 1
    c4 = S.of_terms("C4", u.t[iu], "A")
    c, j, d = kinematics(S, F)
    sp = S.guard("Space", module(S, "spaces._space").Space, force=force, area=area)
    P = tested(S, "P", S.call("piola", sp.piola, F=F.val, S=s.val), 2)
    E = tested(S, "E", S.call("piola", sp.piola, F=F.val, S=s.val, C4=c4.val), 4)
    if P is None or E is None:
        return
    # Kirchhoff stress (up to J)
    k = P
    if force is not None:
        k = oarr(t_mul(F.t.tolist(), k.tolist()))
    if area is not None:
        k = oarr(t_mul(k.tolist(), t_T(F.t.tolist())))
    for a, b in ((0, 1), (1, 2), (0, 2)):
        eq_terms(S, f"Cauchy stress symmetric [{a},{b}]", k[a, b], k[b, a])
    for i, J, m, L in np.ndindex(3, 3, 3, 3):
        if (i, J) < (m, L):
            eq_terms(S, f"major symmetry [{i},{J},{m},{L}]", E[i, J, m, L], E[m, L, i, J])


def eq_terms(S, label, a, b):
    S.ensure(label, S.evaluate(a) if S.concrete else Arr(oarr(a).copy(), frozenset("A")), b)


# ------------------------------------------------------------------ spaces
class Covariant:
    """isotropic material: its response to Q^T X Q is the rotated response to X"""

    def __init__(self, S, q):
        self.S, self.q, self.args, self.rotated = S, q, {}, False
        self.x = [np.eye(3), np.zeros(0)]

    def respond(self, kind, C, shape):
        S = self.S
        X = Arr.of(C)
        if not self.rotated:
            if kind in self.args:
                S.ensure(f"argument of the material ({kind})", C, self.args[kind])
                return Arr(self.args[kind + "v"].copy(), X.tail)
            self.args[kind] = X.a.copy()
            t = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape):
                t[i] = var(kind + "".join(map(str, sorted(i))))
            self.args[kind + "v"] = t
            return Arr(t.copy(), X.tail)
        S.ensure(f"argument of the material ({kind}) is rotated", C, t_turn2(self.q, self.args[kind]))
        f = t_turn2 if shape == (6,) else t_turn4
        v = self.args[kind + "v"]
        t = f(self.q, v)
        if kind == "H":
            back = t_turn4(t_T(self.q), t)
            S.transfer(t, [(v[i, j], back[i, j]) for i in range(6) for j in range(i, 6)])
        return Arr(t.copy(), X.tail)

    def gradient(self, C, statevars):
        return self.respond("G", C, (6,)), statevars

    def hessian(self, C, statevars):
        return self.respond("H", C, (6, 6))


class IsoEnergy:
    """concrete isotropic material: energy of the invariants (numeric)"""

    def __init__(self, S, pkg):
        self.fw = pkg.frameworks.Invariants(InvariantModel(S, Energy(S, "W", 3), None))
        self.x = [np.eye(3), np.zeros(0)]
        self.gradient, self.hessian = self.fw.gradient, self.fw.hessian


def _space_cases(tier):
    for rot in ("QF", "FQ"):
        for space in SPACES:
            for axis in (0, 1, 2):
                yield dict(rot=rot, space=space, axis=axis)


@contract("C16", [f"{m}.{c}.{f}" for m, c in SPACES.values() for f in ("gradient", "hessian")], _space_cases, callees=ALGEBRA + ("piola",), weight=3.0, runs=12)
def o_space(S, rot, space, axis):
    """P(QF) = Q P(F) and P(FQ) = P(F) Q (isotropic material), and accordingly for the elasticity"""
    F = S.defgrad("F", "A")
    q = S.rotation(axis)
    c, j, d = kinematics(S, F)
    Sp = space_class(S, space)
    if rot == "QF":
        G = S.of_terms("QF", t_mul(q, F.t.tolist()), "A")
        ct = c
    else:
        G = S.of_terms("FQ", t_mul(F.t.tolist(), q), "A")
        ct = t_turn2(q, c)
    if not S.concrete:
        # the right Cauchy-Green tensor of the rotated deformation
        tc = t_c(G.t)
        for k in range(6):
            e = ct[k] if rot == "QF" else t_turn2(q, t_c(F.t))[k]
            S.ensure(f"C of the rotated deformation [{k}]", Arr(oarr(tc[k]).copy(), frozenset("A")), t_c(F.t)[k] if rot == "QF" else e)
        S.alias(tc, ct)
        S.alias([power(t_det(ct), const(Fraction(1, 2)))], [j])
        if rot == "FQ":
            j2 = power(j, const(2))
            one = lambda x: Arr(oarr(x).copy(), frozenset("A"))
            dt = t_det(ct)
            ic0, it0 = t_inv(c), t_inv(ct)
            S.ensure("det(C) == J^2", one(d), j2)
            S.ensure("det(Q^T C Q) == det(C)", one(dt), d)
            turned = t_turn2(q, ic0)
            for k in range(6):
                S.ensure(f"inv(Q^T C Q)[{k}]", one(it0[k]), turned[k])
            S.alias([d, dt], [j2, j2])
            ic = S.ghost("ic", ic0, keys=[t_inv(c)])
            it = t_turn2(q, ic)
            S.alias(it0, it)
            S.alias(t_inv(ct), it)
    mat = SpaceModel(S, Energy(S, "W", 6), "full", None) if rot == "QF" else IsoEnergy(S, S.pkg) if S.concrete else Covariant(S, q)
    sp = S.guard("space", Sp, mat)
    P = S.call("gradient", sp.gradient, [F.val, None])[0]
    E = S.call("hessian", sp.hessian, [F.val, None])[0]
    if isinstance(mat, Covariant):
        mat.rotated = True
    P2 = S.call("gradient (rotated)", sp.gradient, [G.val, None])[0]
    E2 = S.call("hessian (rotated)", sp.hessian, [G.val, None])[0]
    if not S.stubbed or S.concrete:
        p, e = tested(S, "P", P, 2), tested(S, "E", E, 4)
        if p is None or e is None:
            return
        if rot == "QF":
            S.ensure("rotated stress", P2, turn_legs(p, q, (0,)))
            S.ensure("rotated elasticity", E2, turn_legs(e, q, (0, 2)))
        else:
            S.ensure("rotated stress", P2, turn_legs(p, t_T(q), (1,)))
            S.ensure("rotated elasticity", E2, turn_legs(e, t_T(q), (1, 3)))
        return
    rec = []
    for r in (P, E, P2, E2):
        f = [x for x in S.piola if x[4] is r]
        S.ensure_true("result is a Piola transform", len(f) == 1)
        rec.append(f[0])
    for (a, b, f) in ((rec[0], rec[2], "stress"), (rec[1], rec[3], "elasticity")):
        S.ensure_true(f + ": one space", a[0] is b[0])
        S.ensure(f + ": F passed to piola", a[1], F.t)
        S.ensure(f + ": rotated F passed to piola", b[1], G.t)
        s = a[2].a
        S.ensure(f + ": S passed to piola", b[2], s if rot == "QF" else t_turn2(q, s))
        S.ensure_true(f + ": kind", (a[3] is None) == (b[3] is None) == (f == "stress"))
        if f == "elasticity":
            c4 = a[3].a
            S.ensure("C4 passed to piola", b[3], c4 if rot == "QF" else t_turn4(q, c4))
            for i in range(6):
                for k in range(i):
                    S.ensure(f"C4 has major symmetry [{i},{k}]", Arr(oarr(c4[i, k]).copy(), frozenset("A")), c4[k, i])


# ------------------------------------------------------------------ frameworks
def _frame_cases(tier):
    for axis in (0, 1, 2):
        for p in ("111-111111", "110-000000", "001-001000"):
            yield dict(what="invariants", axis=axis, p=p)
        yield dict(what="stretches", axis=axis, p="")


@contract("C16", ["frameworks._invariants.Invariants.gradient", "frameworks._invariants.Invariants.hessian", "frameworks._stretches.Stretches.gradient",
                  "frameworks._stretches.Stretches.hessian"], _frame_cases, callees=ALGEBRA + ("eigh",), weight=2.0, runs=12,
          note="C16: the eigenvectors of the rotated tensor are the rotated ones (for coinciding eigenvalues the result does not depend on their choice by C07)")
def o_frame(S, what, axis, p):
    """isotropy: dW/dC(Q^T C Q) = Q^T dW/dC(C) Q; major symmetry of the second derivative"""
    q = S.rotation(axis)
    if what == "invariants":
        C = S.spd("C", "A")
        mat = InvariantModel(S, Energy(S, "W", 3, inv_kinds(p, "array")), None)
        cls = S.pkg.frameworks.Invariants
        D = S.of_terms("D", t_turn2(q, C.t), "A")
    else:
        C = S.spectral("C", "A")
        S.symmetric("W")
        distinct(S, C.lam)
        mat = StretchModel(S, Energy(S, "W", 3), None)
        cls = S.pkg.frameworks.Stretches
        n2 = [[add(*[mul(q[k][i], C.n[k][a]) for k in range(3)]) for a in range(3)] for i in range(3)]
        m2 = [[add(*[mul(C.values[a], n2[i][a], n2[j][a]) for a in range(3)]) for j in range(3)] for i in range(3)]
        D = S.of_terms("D", [m2[i][j] for i, j in PAIR], "A")
        if not S.concrete:
            npshim.Ctx.eigh.append((m2, C.values, n2))
    fw = S.guard("framework", cls, mat)
    g = tested(S, "g", S.call("gradient", fw.gradient, C.val, None)[0], 1)
    h = tested(S, "h", S.call("hessian", fw.hessian, C.val, None), 2)
    if g is None or h is None:
        return
    S.ensure("gradient at the rotated tensor", S.call("gradient (rotated)", fw.gradient, D.val, None)[0], t_turn2(q, g))
    S.ensure("hessian at the rotated tensor", S.call("hessian (rotated)", fw.hessian, D.val, None), t_turn4(q, h))
    for i in range(6):
        for k in range(i):
            eq_terms(S, f"hessian has major symmetry [{i},{k}]", h[i, k], h[k, i])
