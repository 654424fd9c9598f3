"""Contracts of Space.piola and of the configurations of the spaces (C15)."""
from fractions import Fraction
import numpy as np
from ..registry import contract
from ..world import oarr
from ..term import ZERO, ONE, const, power, var
from .mathc import t_inv, t_det
from .common import Energy
from .spacec import (ALGEBRA, SPACES, SpaceModel, kinematics, module, space_class, t_stress, t_elasticity, energy)

CONFIGS = [(force, area) for force in (None, 0) for area in (None, 0)]


def _piola_cases(tier):
    for force, area in CONFIGS:
        for what in ("stress", "elasticity"):
            for det in (0, 1):
                for inv in (0, 1) if what == "elasticity" else (0,):
                    for t in ("AA", "A1", "1A", "11", "--") + (("AB",) if tier == "thorough" else ()):
                        yield dict(force=force, area=area, what=what, det=det, inv=inv, t=t)
    yield dict(force=None, area=None, what="raw", det=0, inv=0, t="AA")


@contract("C15", ["spaces._space.Space.__init__", "spaces._space.Space.piola"], _piola_cases,
          callees=("asvoigt", "astensor", "eye", "det", "inv", "cdya_ik"), weight=2.0)
def p_piola(S, force, area, what, det, inv, t):
    tf, ts = ({"A": "A", "B": "B", "1": "", "-": None}[x] for x in t)
    F = S.defgrad("F", tf)
    s = S.sym("S", ts)
    c4 = S.arr("C4", (6, 6), ts)
    c, j, d = kinematics(S, F)
    Space = module(S, "spaces._space").Space
    sp = S.guard("Space", Space, finalize=what != "raw", force=force, area=area)
    if what == "raw":
        S.ensure("stress", S.call("piola", sp.piola, F.val, s.val), s.t, tail=frozenset(ts) if not S.concrete else ts)
        S.ensure("elasticity", S.call("piola", sp.piola, F=F.val, S=s.val, C4=c4.val), c4.t, tail=frozenset(ts) if not S.concrete else ts)
        return
    kw = {}
    if det:
        kw["detF"] = terms(S, j, F)
    ic = t_inv(c)
    if inv:
        kw["invC"] = terms(S, ic, F)
    if what == "stress":
        S.ensure("stress", S.call("piola", sp.piola, F=F.val, S=s.val, **kw), t_stress(F.t, s.t, j, force, area))
    else:
        S.ensure("elasticity", S.call("piola", sp.piola, F=F.val, S=s.val, C4=c4.val, **kw), t_elasticity(F.t, c4.t, s.t, j, ic, force, area))


def terms(S, x, like):
    """an argument array with the given component terms"""
    if S.concrete:
        return S.evaluate(x)
    from ..arr import Arr
    return Arr(oarr(x).copy(), like.val.tail)


def _conf_cases(tier):
    for space in SPACES:
        for force, area in CONFIGS:
            for parallel in (False, True):
                yield dict(space=space, force=force, area=area, parallel=parallel, kind="full")
            yield dict(space=space, force=force, area=area, parallel=False, kind="const")


@contract("C15", [f"{m}.{c}.{f}" for m, c in SPACES.values() for f in ("__init__", "gradient", "hessian")] + ["spaces._space.Space.__init__", "spaces._space.Space.piola"],
          _conf_cases, callees=ALGEBRA + ("piola",), weight=2.0,
          note="einsumt.einsumt computes what numpy.einsum computes (threaded option)")
def p_space(S, space, force, area, parallel, kind):
    """finalized results are the transforms of the results without finalization"""
    if S.concrete and parallel and S.opts.get("dims") is None and S.seed % 4 == 0:
        S.dims = (37, 11)
    F = S.defgrad("F", "A")
    c, j, d = kinematics(S, F)
    W = Energy(S, "W", 6, energy(S, kind))
    mat = SpaceModel(S, W, kind, S.token())
    Sp = space_class(S, space)
    kw = dict(force=force, area=area, parallel=parallel)
    raw = S.guard("space", Sp, mat, finalize=False, **kw)
    fin = S.guard("space", Sp, mat, **kw)
    x = [F.val, S.token()]
    if kind == "full" and not parallel:
        G = S.defgrad("G", "A")
        kinematics(S, G, names=("cg", "Jg"))
        for sp in (raw, fin):
            S.call("gradient (former)", sp.gradient, [G.val, S.token()])
            S.call("hessian (former)", sp.hessian, [G.val, S.token()])
    s = S.call("gradient (not finalized)", raw.gradient, x)[0]
    P = S.call("gradient", fin.gradient, x)[0]
    check(S, "stress", fin, P, F, s, None, j, c, force, area)
    c4 = S.call("hessian (not finalized)", raw.hessian, x)[0]
    A = S.call("hessian", fin.hessian, x)[0]
    check(S, "elasticity", fin, A, F, s, c4, j, c, force, area)
    if not S.concrete:
        S.ensure_true("not finalized: reduced storage", s.a.shape == (6,) and c4.a.shape == (6, 6))


def check(S, label, sp, r, F, s, c4, j, c, force, area):
    if S.concrete:
        n = len(S.shape())
        full = lambda v, k: np.broadcast_to(v, v.shape[:k] + np.broadcast_shapes(v.shape[k:], S.tail))
        if s.shape[:1] != (6,) or (c4 is not None and c4.shape[:2] != (6, 6)):
            return S.fail(label + ": not finalized", f"shape {s.shape if c4 is None else c4.shape}")
        st = name(S, "sraw", full(s, 1), 1)
        if c4 is None:
            return S.ensure(label, r, t_stress(F.t, st, j, force, area))
        return S.ensure(label, r, t_elasticity(F.t, name(S, "craw", full(c4, 2), 2), st, j, t_inv(c), force, area))
    st = s.a
    if not S.stubbed:
        if c4 is None:
            return S.ensure(label, r, t_stress(F.t, st, j, force, area))
        return S.ensure(label, r, t_elasticity(F.t, c4.a, st, j, t_inv(c), force, area))
    from .spacec import transformed
    transformed(S, label, sp, r, F, st, None if c4 is None else c4.a, j, c, dict(force=force, area=area, finalize=True))


def name(S, nm, v, k):
    """terms which name the components of a computed array"""
    t = np.empty(v.shape[:k], dtype=object)
    for i in np.ndindex(*t.shape):
        n = nm + "".join(map(str, i))
        S.env["vars"][n] = v[i]
        t[i] = var(n)
    return t
