"""Trailing axes are independent material points (C05): evaluating a batch is evaluating its points."""
import numpy as np
from ..registry import contract
from ..world import oarr, Obl
from ..arr import Arr, subset
from .. import arr as A
from ..term import const, var, coerce, compare, T
from .mathc import IDX
from .common import Energy, InvariantModel, StretchModel, order, SECOND3
from .framec import inv_kinds, distinct
from .modelc import Strain, GI
from .spacec import SPACES, ALGEBRA, SpaceModel, space_class, energy, module

MATH = "math._voigt."


def leaves(x, path=""):
    """arrays in a (nested) result"""
    if isinstance(x, (list, tuple)):
        return [l for i, y in enumerate(x) for l in leaves(y, f"{path}[{i}]")]
    return [(path, x)]


def pointwise(S, label, f, ins, pick=lambda r: r):
    """f(batch) restricted to a point is f(point), for every point of the batch"""
    if not S.concrete:
        rb = leaves(pick(S.call(label + " (batch)", f, *[x.val for x in ins])))
        pts = [x.t[()] if x.t.ndim == 0 else Arr(oarr(x.t).copy()) for x in ins]
        rp = leaves(pick(S.call(label + " (point)", f, *pts)))
        S.ensure_true(label + ": same structure", len(rb) == len(rp))
        for (p, b), (_, q) in zip(rb, rp):
            if b is None or q is None:
                S.ensure_true(f"{label}{p}: omitted for the batch and for the point", b is None and q is None)
                continue
            q = Arr.of(q)
            # a result without trailing axes at a point may carry them for a batch
            S.ensure(f"{label}{p}", b, q.a)
        return
    rb = leaves(pick(S.call(label + " (batch)", f, *[x.val for x in ins])))
    full = S.shape() if any(x.tail is not None for x in ins) else ()
    full = np.broadcast_shapes(*[S.tshape(x.tail) for x in ins])
    n = len(full)
    idx = list(np.ndindex(*full))
    if len(idx) > 12:
        idx = [idx[i] for i in sorted({0, len(idx) - 1, *S.rng.choice(len(idx), 10, replace=False)})]
    for k in idx:
        pts = []
        for x in ins:
            s = S.tshape(x.tail)
            j = tuple(0 if d == 1 else i for i, d in zip(k, s))
            v = np.asarray(x.val)
            v = v[(Ellipsis,) + j] if j else v
            pts.append(np.array(v) if np.ndim(v) else v)
        rp = leaves(pick(S.call(label + " (point)", f, *pts)))
        if len(rb) != len(rp):
            return S.fail(label + ": same structure", f"{len(rb)} and {len(rp)} results")
        for (p, b), (_, q) in zip(rb, rp):
            if b is None or q is None:
                S.ensure_true(f"{label}{p}: omitted for the batch and for the point", b is None and q is None)
                continue
            S.checks += 1
            b, q = np.asarray(b, float), np.asarray(q, float)
            if b.ndim == q.ndim and b.shape == q.shape:
                v = b
            else:
                try:
                    v = np.broadcast_to(b, q.shape + full)[(Ellipsis,) + k]
                except ValueError:
                    return S.fail(f"{label}{p}/shape", f"batch result {b.shape} for points of shape {q.shape}, batch {full}", "shape")
                if b.ndim != q.ndim + n:
                    return S.fail(f"{label}{p}/shape", f"batch result {b.shape} for points of shape {q.shape}, batch {full}", "shape")
            d = np.max(np.abs(v - q)) if v.size else 0.0
            if not d <= S.rtol * max(1e-3, float(np.max(np.abs(q))) if q.size else 0.0):
                return S.fail(f"{label}{p}", f"batch {np.ravel(v)[:6]}, point {np.ravel(q)[:6]} at {k} of {full}")


# ------------------------------------------------------------------ math
def _fun_cases(tier):
    one = ("A", "")
    two = (("A", "A"), ("A", "B"), ("A", ""), ("", "A"))
    for f in ("trace", "det", "inv", "dev", "eye", "astensor", "asvoigt", "transpose", "astensor4", "asvoigt4", "tril", "triu"):
        for t in one:
            yield dict(f=f, t=(t,))
    for f in ("dot", "ddot22", "ddot24", "ddot42", "ddot44", "dya", "cdya", "cdya_ik", "cdya_il"):
        for t in two:
            yield dict(f=f, t=t)
    for t in one:
        yield dict(f="eigh", t=(t,))
        yield dict(f="eighfun", t=(t,))


@contract("C05", [MATH + n for n in ("asvoigt", "astensor", "tril_from_triu", "triu_from_tril", "trace", "transpose", "det", "inv", "dev", "cdya_ik", "cdya_il",
                                     "cdya", "dya", "dot", "ddot", "eye", "eigh")], _fun_cases, runs=20)
def p_math(S, f, t):
    m = S.pkg.math
    t = [x for x in t]
    if f == "eigh":
        C = S.spectral("C", t[0], signed=True)
        return pointwise(S, f, m.eigh, [C])
    if f == "eighfun":
        C = S.spectral("C", t[0])
        return pointwise(S, f, lambda x: m.eigh(x, fun=S.pkg_np().sqrt), [C])
    shape = {"asvoigt": (3, 3), "asvoigt4": (3, 3, 3, 3), "astensor4": (6, 6), "transpose": (6, 6), "tril": (6, 6), "triu": (6, 6)}
    if len(t) == 1:
        if f == "inv":
            x = S.spd("A", t[0])
        elif f == "asvoigt":
            v = S.sym("A", t[0])
            x = type(v)("A", v.val[IDX], v.t[IDX], v.tail)
        elif f == "asvoigt4":
            v = S.arr("A", (6, 6), t[0])
            I, J = IDX[:, :, None, None] + 0 * IDX, IDX[None, None] + 0 * IDX[:, :, None, None]
            x = type(v)("A", v.val[I, J], v.t[I, J], v.tail)
        else:
            x = S.arr("A", shape.get(f, (6,)), t[0])
        g = {"astensor4": lambda y: m.astensor(y, mode=4), "asvoigt4": lambda y: m.asvoigt(y, mode=4),
             "tril": m.tril_from_triu if hasattr(m, "tril_from_triu") else None, "triu": getattr(m, "triu_from_tril", None)}.get(f) or getattr(m, f)
        return pointwise(S, f, g, [x])
    sa, sb = {"ddot24": ((6,), (6, 6)), "ddot42": ((6, 6), (6,)), "ddot44": ((6, 6), (6, 6))}.get(f, ((6,), (6,)))
    a, b = S.arr("A", sa, t[0]), S.arr("B", sb, t[1])
    if f.startswith("ddot"):
        md = (int(f[4]), int(f[5]))
        return pointwise(S, f, lambda x, y: m.ddot(x, y, mode=md), [a, b])
    pointwise(S, f, getattr(m, f), [a, b])


# ------------------------------------------------------------------ frameworks and models
def _frame_cases(tier):
    for t in ("A", ""):
        for p in ("111-111111", "100-000000", "110-000100", "001-001000"):
            for kind in ("array", "const2", "const1"):
                yield dict(what="invariants", t=t, p=p, kind=kind)
        yield dict(what="stretches", t=t, p="list", kind="")
        yield dict(what="stretches", t=t, p="array", kind="")
        for kind in ("const1", "const2", "const12"):
            yield dict(what="stretches", t=t, p="list", kind=kind)
            yield dict(what="stretches", t=t, p="array", kind=kind)
        for p in ("111-111111", "110-000000"):
            yield dict(what="generalized", t=t, p=p, kind="array")
        yield dict(what="tod", t=t, p="", kind="")
        yield dict(what="tod", t=t, p="C10", kind="")
        yield dict(what="ogden", t=t, p="", kind="")
        yield dict(what="strain", t=t, p="", kind="")
        yield dict(what="deformation", t=t, p="", kind="")


def str_kinds(kind):
    """constant first and (or) second derivatives w.r.t. the stretches"""
    return {**({order(3, i): "const" for i in range(3)} if "1" in kind else {}), **({order(3, i, j): "const" for i, j in SECOND3} if "2" in kind else {})}


@contract("C05", ["frameworks._invariants.Invariants.gradient", "frameworks._invariants.Invariants.hessian", "frameworks._stretches.Stretches.gradient",
                  "frameworks._stretches.Stretches.hessian", GI + "gradient", GI + "hessian",
                  "models.invariants._third_order_deformation.ThirdOrderDeformation.gradient", "models.invariants._third_order_deformation.ThirdOrderDeformation.hessian",
                  "models.stretches._ogden.Ogden.gradient", "models.stretches._ogden.Ogden.hessian",
                  "models.generalized._stretch.strain", "models.generalized._stretch.deformation"], _frame_cases, callees=ALGEBRA + ("eigh",), runs=20)
def p_frame(S, what, t, p, kind):
    if what in ("invariants", "stretches"):
        if what == "invariants":
            C = S.spd("C", t)
            mat = InvariantModel(S, Energy(S, "W", 3, inv_kinds(p, kind)), None)
            cls = S.pkg.frameworks.Invariants
        else:
            C = S.spectral("C", t)
            S.symmetric("W")
            distinct(S, C.lam)
            mat = StretchModel(S, Energy(S, "W", 3, str_kinds(kind)), None, p)
            cls = S.pkg.frameworks.Stretches
        one = cls(mat)      # one framework evaluates the batch and the points
        pointwise(S, "gradient", lambda x: one.gradient(x, None), [C], pick=lambda r: r[0])
        return pointwise(S, "hessian", lambda x: one.hessian(x, None), [C])
    l = S.stretches("l", t)
    if what in ("strain", "deformation"):
        f = getattr(S.pkg.models.generalized, what)
        k = S.scalar("k", gen=lambda r: r.uniform(0.5, 3), exponent=True)
        S.requires(compare("!=", var("k"), const(0)))
        pointwise(S, what, lambda x: f(x, exponent=k), [l], pick=lambda r: r[:3])
        if S.concrete:
            return
        return
    if what == "tod":
        I = [S.arr(f"I{k}", (), t) for k in (1, 2, 3)]
        names = ["C10", "C01", "C11", "C20", "C30"] if not p else [p]
        model = S.guard("ThirdOrderDeformation", S.pkg.models.invariants.ThirdOrderDeformation, **{n: S.scalar(n) for n in names})
        pointwise(S, "gradient", lambda *x: model.gradient(*x, None), I, pick=lambda r: r[:3])
        return pointwise(S, "hessian", lambda *x: model.hessian(*x, None), I)
    if what == "ogden":
        al = [S.scalar("al0", positive=True, exponent=True), S.scalar("al1", positive=True, exponent=True)]
        if not S.concrete:
            S.requires(compare("!=", var("al0"), const(0)), compare("!=", var("al1"), const(0)))
        model = S.guard("Ogden", S.pkg.models.stretches.Ogden, [S.scalar("mu0"), S.scalar("mu1")], al)
    else:
        st = Strain(S)
        st.requires()
        W = Energy(S, "W", 3, inv_kinds(p, kind))
        model = S.guard("GeneralizedInvariantsModel", S.pkg.models.stretches.GeneralizedInvariantsModel, InvariantModel(S, W, None), st)
    pointwise(S, "gradient", lambda x: model.gradient(x, None), [l], pick=lambda r: r[0])
    pointwise(S, "hessian", lambda x: model.hessian(x, None), [l])


# ------------------------------------------------------------------ spaces
def _space_cases(tier):
    for space in SPACES:
        for force in (None, 0):
            for area in (None, 0):
                for kind in ("full", "const", "const-hessian"):
                    yield dict(space=space, force=force, area=area, kind=kind, material="any", t="A")
                for kind in ("const1", "const2"):
                    yield dict(space=space, force=force, area=area, kind=kind, material="invariants", t="A")
        yield dict(space=space, force=None, area=0, kind="none", material="invariants", t="A")
        yield dict(space=space, force=None, area=0, kind="full", material="any", t="")


@contract("C05", [f"{m}.{c}.{f}" for m, c in SPACES.values() for f in ("gradient", "hessian")] + ["spaces._space.Space.piola", "frameworks._invariants.Invariants.gradient",
                                                                                           "frameworks._invariants.Invariants.hessian"],
          _space_cases, callees=ALGEBRA, weight=2.0, runs=20)
def p_spacepoint(S, space, force, area, kind, material, t):
    F = S.defgrad("F", t)
    from .spacec import kinematics
    kinematics(S, F)
    Sp = space_class(S, space)
    if material == "any":
        make = lambda: SpaceModel(S, W, kind, None)
        W = Energy(S, "W", 6, energy(S, kind))
    else:
        p = {"const1": "100-000000", "const2": "110-100000", "none": "000-000000"}[kind]
        W = Energy(S, "W", 3, inv_kinds(p, kind if kind != "none" else "array"))
        make = lambda: S.pkg.frameworks.Invariants(InvariantModel(S, W, None))
    for fin in (True, False):
        kw = dict(force=force, area=area) if fin else dict(finalize=False)
        lab = "" if fin else " (not finalized)"
        one = Sp(make(), **kw)
        pointwise(S, "gradient" + lab, lambda x: one.gradient([x, None]), [F], pick=lambda r: r[0])
        pointwise(S, "hessian" + lab, lambda x: one.hessian([x, None]), [F], pick=lambda r: r[0])
        if (force, area) != (None, 0):
            break
