"""Contracts of hyperelastic.math (C01-C05) and their use as stubs at call sites."""
import numpy as np
from fractions import Fraction
from ..registry import contract, callee
from ..term import T, add, sub, mul, div, power, const, scale, var, ZERO, ONE, compare, fun, coerce, Unsupported
from .. import arr as A
from .. import npshim
from ..arr import Arr, union
from ..world import oarr, Obl, In

PAIR = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
IDX = np.array([[0, 3, 5], [3, 1, 4], [5, 4, 2]])
W6 = [1, 1, 1, 2, 2, 2]


def full(v):
    return [[v[IDX[i, j]] for j in range(3)] for i in range(3)]


def t_trace(v):
    return add(v[0], v[1], v[2])


def writeable(S, x):
    """an array to be written to (not a broadcast view)"""
    return x if not S.concrete or x.flags.writeable else x.copy()


def t_det(v):
    return npshim.det3(full(v))


def t_inv(v, d=None):
    m = full(v)
    d = t_det(v) if d is None else d
    a = npshim.adj3(m)
    return oarr([div(a[i][j], d) for i, j in PAIR])


def t_eye():
    return oarr([ONE, ONE, ONE, ZERO, ZERO, ZERO])


def t_dev(v):
    t = scale(t_trace(v), Fraction(1, 3))
    return oarr([sub(v[k], t) if k < 3 else v[k] for k in range(6)])


def t_dot(a, b):
    p, q = full(a), full(b)
    return oarr([[add(*[mul(p[i][k], q[k][j]) for k in range(3)]) for j in range(3)] for i in range(3)])


def t_ddot22(a, b):
    p, q = full(a), full(b)
    return add(*[mul(p[i][j], q[i][j]) for i in range(3) for j in range(3)])


def t_ddot42(c, b):
    q = full(b)
    return oarr([add(*[mul(c[I][IDX[k, l]], q[k][l]) for k in range(3) for l in range(3)]) for I in range(6)])


def t_ddot24(a, c):
    p = full(a)
    return oarr([add(*[mul(p[i][j], c[IDX[i, j]][J]) for i in range(3) for j in range(3)]) for J in range(6)])


def t_ddot44(c, d):
    return oarr([[add(*[mul(c[I][IDX[k, l]], d[IDX[k, l]][J]) for k in range(3) for l in range(3)]) for J in range(6)] for I in range(6)])


def t_dya(a, b):
    return oarr([[mul(x, y) for y in b] for x in a])


def t_cdya(a, b):
    p, q = full(a), full(b)
    out = np.empty((6, 6), dtype=object)
    for I, (i, j) in enumerate(PAIR):
        for J, (k, l) in enumerate(PAIR):
            out[I, J] = scale(add(mul(p[i][k], q[j][l]), mul(p[i][l], q[k][j]), mul(q[i][k], p[j][l]), mul(q[i][l], p[k][j])), Fraction(1, 4))
    return out


def t_cdya_ik(a, b):
    p, q = full(a), full(b)
    return oarr([[[[mul(p[i][k], q[j][l]) for l in range(3)] for k in range(3)] for j in range(3)] for i in range(3)])


def t_cdya_il(a, b):
    p, q = full(a), full(b)
    return oarr([[[[mul(p[i][l], q[k][j]) for l in range(3)] for k in range(3)] for j in range(3)] for i in range(3)])


def t_tensor2(v):
    return oarr(full(v))


def t_tensor4(c):
    return oarr([[[[c[IDX[i, j]][IDX[k, l]] for l in range(3)] for k in range(3)] for j in range(3)] for i in range(3)])


def t_voigt2(m):
    return oarr([m[i][j] for i, j in PAIR])


def t_voigt4(m):
    return oarr([[m[i][j][k][l] for k, l in PAIR] for i, j in PAIR])


# ------------------------------------------------------------------ stubs (callee contracts at call sites)
def mk(terms, *args):
    ts = [x.tail for x in args if isinstance(x, Arr) and x.tail is not None]
    if any(isinstance(x, Arr) and x.first for x in args):
        raise Unsupported("stub with leading symbolic axes")
    t = union(*ts) if ts else None
    a = oarr(terms)
    if t is None and a.ndim == 0:
        return a[()]
    return Arr(a.copy(), t)


def vec(x, *shape):
    x = Arr.of(x)
    if x.a.shape != shape:
        raise Unsupported("callee contract: argument of shape %s" % (x.shape,))
    return x


def st(name, target, proof):
    return callee(name, target, proof)


@st("eye", "math._voigt.eye", ["m_eye"])
def _(S, orig):
    def eye(A=None):
        if A is None:
            return Arr(t_eye())
        A_ = Arr.of(A)
        return Arr(t_eye(), None if A_.tail is None else frozenset())
    return eye


@st("trace", "math._voigt.trace", ["m_trace"])
def _(S, orig):
    def trace(A):
        A = vec(A, 6)
        return mk(t_trace(A.a), A)
    return trace


@st("det", "math._voigt.det", ["m_det"])
def _(S, orig):
    def det(A):
        A = vec(A, 6)
        return mk(t_det(A.a), A)
    return det


@st("inv", "math._voigt.inv", ["m_inv"])
def _(S, orig):
    def inv(A, determinant=None, out=None):
        A = vec(A, 6)
        d = t_det(A.a)
        if determinant is not None:
            D = Arr.of(determinant)
            if D.a.ndim:
                raise Unsupported("callee contract: determinant")
            S.obls.append(Obl("call of inv/pre: determinant == det(A)", "eq", a=D.a[()], b=d))
        S.defined.append(("nonzero", d))
        return A_store(out, mk(t_inv(A.a), A, *([Arr.of(determinant)] if determinant is not None else [])))
    return inv


def A_store(out, r):
    return A.store(out, r)


@st("ddot", "math._voigt.ddot", ["m_ddot22", "m_ddot4"])
def _(S, orig):
    def ddot(A, B, mode=(2, 2)):
        f, sa, sb = {(2, 2): (t_ddot22, (6,), (6,)), (4, 4): (t_ddot44, (6, 6), (6, 6)), (4, 2): (t_ddot42, (6, 6), (6,)),
                     (2, 4): (t_ddot24, (6,), (6, 6))}[tuple(mode)]
        A, B = vec(A, *sa), vec(B, *sb)
        return mk(f(A.a, B.a), A, B)
    return ddot


def _two(fn, out_kw=True):
    def make(S, orig):
        def f(A, B, out=None):
            A, B = vec(A, 6), vec(B, 6)
            if (A.tail is None) != (B.tail is None):
                raise Unsupported("callee contract: mixed ranks")
            return A_store(out, mk(fn(A.a, B.a), A, B))
        return f
    return make


st("dya", "math._voigt.dya", ["m_dya"])(_two(t_dya))
st("cdya", "math._voigt.cdya", ["m_cdya"])(_two(t_cdya))


def _twox(fn):
    def make(S, orig):
        def f(A, B, out=None):
            if out is not None:
                raise Unsupported("callee contract: out")
            return _two(fn)(S, orig)(A, B)
        return f
    return make


st("cdya_ik", "math._voigt.cdya_ik", ["m_cdya_ik"])(_twox(t_cdya_ik))
st("cdya_il", "math._voigt.cdya_il", ["m_cdya_il"])(_twox(t_cdya_il))


@st("transpose", "math._voigt.transpose", ["m_transpose"])
def _(S, orig):
    def transpose(A):
        A = vec(A, 6, 6)
        return A.like(A.a.T.copy())
    return transpose


@st("astensor", "math._voigt.astensor", ["m_voigt2", "m_voigt4"])
def _(S, orig):
    def astensor(A, mode=2):
        if mode == 2:
            A = vec(A, 6)
            return A.like(t_tensor2(A.a))
        if mode != 4:
            raise Unsupported("callee contract: mode")
        A = vec(A, 6, 6)
        return A.like(t_tensor4(A.a))
    return astensor


@st("asvoigt", "math._voigt.asvoigt", ["m_voigt2", "m_voigt4"])
def _(S, orig):
    def asvoigt(A, mode=2):
        if mode == 2:
            A = vec(A, 3, 3)
            for i in range(3):
                for j in range(i):
                    if A.a[i, j] is not A.a[j, i]:
                        S.obls.append(Obl("call of asvoigt/pre: symmetric", "eq", a=A.a[i, j], b=A.a[j, i]))
            return A.like(t_voigt2(A.a))
        raise Unsupported("callee contract: asvoigt mode 4")
    return asvoigt


@st("eigh", "math._voigt.eigh", ["m_eigh"])
def _(S, orig):
    def eigh(A, fun=None):
        A = vec(A, 6)
        w, v = npshim.linalg._decomp(full(A.a))
        M = oarr([[mul(v[i][a], v[j][a]) for i, j in PAIR] for a in range(3)])
        lam = A.like(oarr(w))
        if fun is not None:
            lam = fun(lam)
        return lam, A.like(M)
    return eigh


# ------------------------------------------------------------------ cases
ONE_T = [dict(t=t) for t in ("A", "", None)]
TWO_T = [dict(ta=a, tb=b) for a, b in (("A", "B"), ("A", "A"), ("A", ""), ("", "A"), ("", ""), (None, None))]


def lay(x, idx):
    """the value of input x rearranged to the given index table(s) (a fresh array)"""
    return x.val[idx]


# ------------------------------------------------------------------ C01
@contract("C01", ["math._voigt.asvoigt", "math._voigt.astensor"], ONE_T)
def m_voigt2(S, t):
    m = S.pkg.math
    x = S.sym("A", t)
    F = lay(x, IDX)
    S.ensure("asvoigt", S.call("asvoigt", m.asvoigt, F), x.t)
    S.ensure("asvoigt mode=2", S.call("asvoigt", m.asvoigt, F, mode=2), x.t)
    T2 = S.call("astensor", m.astensor, x.val)
    S.ensure("astensor", T2, t_tensor2(x.t))
    S.ensure("astensor mode=2", S.call("astensor", m.astensor, x.val, 2), t_tensor2(x.t))
    S.ensure("asvoigt(astensor)", S.call("asvoigt", m.asvoigt, T2), x.t)
    S.ensure("astensor(asvoigt)", S.call("astensor", m.astensor, S.call("asvoigt", m.asvoigt, F)), t_tensor2(x.t))


@contract("C01", ["math._voigt.asvoigt", "math._voigt.astensor"], ONE_T)
def m_voigt4(S, t):
    m = S.pkg.math
    x = S.arr("A", (6, 6), t)
    T4 = S.call("astensor", m.astensor, x.val, mode=4)
    S.ensure("astensor4", T4, t_tensor4(x.t))
    F = x.val[IDX[:, :, None, None] + 0 * IDX, IDX[None, None] + 0 * IDX[:, :, None, None]]
    S.ensure("asvoigt4", S.call("asvoigt", m.asvoigt, F, mode=4), x.t)
    S.ensure("asvoigt4(astensor4)", S.call("asvoigt", m.asvoigt, T4, mode=4), x.t)
    S.ensure("astensor4(asvoigt4)", S.call("astensor", m.astensor, S.call("asvoigt", m.asvoigt, F, mode=4), mode=4), t_tensor4(x.t))


def _mirror_cases(tier):
    for fn in ("tril_from_triu", "triu_from_tril"):
        for t in ("A", "", None):
            for out in ("none", "self"):
                for dim in (6, 3) if tier == "quick" else (6, 3, 2, 4, 5):
                    yield dict(fn=fn, t=t, out=out, dim=dim)


@contract("C01", ["math._voigt.tril_from_triu", "math._voigt.triu_from_tril"], _mirror_cases)
def m_mirror(S, fn, t, out, dim):
    f = getattr(S.pkg.math, fn)
    x = S.arr("A", (dim, dim), t)
    up = fn == "tril_from_triu"
    spec = np.empty((dim, dim), dtype=object)
    for i in range(dim):
        for j in range(dim):
            spec[i, j] = x.t[min(i, j), max(i, j)] if up else x.t[max(i, j), min(i, j)]
    kw = {} if dim == 6 else {"dim": dim}
    if out == "self":
        y = x.val.copy()
        r = S.call(fn, f, y, out=y, **kw)
        S.ensure("out is written", y, spec)
    else:
        r = S.call(fn, f, x.val, **kw)
    S.ensure(fn, r, spec)


# ------------------------------------------------------------------ C02
@contract("C02", ["math._voigt.trace"], ONE_T)
def m_trace(S, t):
    x = S.sym("A", t)
    S.ensure("trace", S.call("trace", S.pkg.math.trace, x.val), t_trace(x.t))


@contract("C02", ["math._voigt.det"], ONE_T)
def m_det(S, t):
    x = S.sym("A", t)
    S.ensure("det", S.call("det", S.pkg.math.det, x.val), t_det(x.t))


@contract("C02", ["math._voigt.eye"], ONE_T + [dict(t="none")])
def m_eye(S, t):
    if t == "none":
        S.ensure("eye()", S.call("eye", S.pkg.math.eye), t_eye())
        S.ensure("eye(None)", S.call("eye", S.pkg.math.eye, None), t_eye())
        return
    x = S.sym("A", t)
    S.ensure("eye(A)", S.call("eye", S.pkg.math.eye, x.val), t_eye())
    y = S.arr("B", (6, 6), t)


@contract("C02", ["math._voigt.dev"], ONE_T)
def m_dev(S, t):
    x = S.sym("A", t)
    S.ensure("dev", S.call("dev", S.pkg.math.dev, x.val), t_dev(x.t))


def _inv_cases(tier):
    for t in ("A", "", None):
        for d in ("none", "given"):
            for out in ("none", "new", "self"):
                yield dict(t=t, d=d, out=out)


def invertible(S, t):
    """a symmetric tensor A with det(A) != 0 (runs: indefinite too, condition number < 1e5)"""
    def values(rng, s):
        w = rng.uniform(0.2, 2.0, (3,) + s[1:]) * rng.choice([-1.0, 1.0], (3,) + s[1:])
        if S.mode == "integerish":
            w = np.round(2 * w) / 2
            w[w == 0] = -0.5
        if S.mode == "identity":
            w[...] = 1.0
        w = w * {"tiny": 1e-5, "near-identity": 1e-3, "near-isochoric": 0.03, "large": 50.0, "extreme": 1e4}.get(S.mode, 1.0)
        n = S.frame_values(s[1:])
        m = np.einsum("a...,ia...,ja...->ij...", w, n, n)
        return np.array([m[0, 0], m[1, 1], m[2, 2], m[0, 1], m[1, 2], m[0, 2]])

    x = S.arr("A", (6,), t, gen=values)
    det = t_det(x.t)
    if S.concrete:
        w = np.abs(np.linalg.eigvalsh(np.moveaxis(np.asarray(x.val)[[[0, 3, 5], [3, 1, 4], [5, 4, 2]]], (0, 1), (-2, -1))))
        S.admissible(w.min(axis=-1) > 1e-5 * w.max(axis=-1))
    else:
        S.requires(compare("!=", det, ZERO))
    return x, det


@contract("C02", ["math._voigt.inv"], _inv_cases)
def m_inv(S, t, d, out):
    m = S.pkg.math
    x, det = invertible(S, t)
    kw = {}
    if d == "given":
        # the caller's determinant: any array which equals det(A)
        y = S.arr("D", (), t) if not S.concrete else None
        if S.concrete:
            kw["determinant"] = np.asarray(S.evaluate(det)) if t is not None else float(S.evaluate(det))
        else:
            a = np.empty((), dtype=object)
            a[()] = det
            kw["determinant"] = A.wrap(a, None if t is None else frozenset(t))
    X = x.val
    if out == "new":
        kw["out"] = writeable(S, S.arr("O", (6,), t).val)
    elif out == "self":
        X = x.val.copy()
        kw["out"] = X
    r = S.call("inv", m.inv, X, **kw)
    S.ensure("inv", r, t_inv(x.t))
    if out != "none":
        S.ensure("inv: out holds the result", kw["out"], t_inv(x.t))
    if not S.concrete:
        R = full(Arr.of(r).a)
        F = full(x.t)
        S.ensure("A . inv(A) = I", Arr(oarr([[add(*[mul(coerce(F[i][k]), coerce(R[k][j])) for k in range(3)]) for j in range(3)] for i in range(3)]),
                                       None if t is None else frozenset(t)),
                 [[ONE if i == j else ZERO for j in range(3)] for i in range(3)])


@contract("C02", ["math._voigt.dot"], TWO_T)
def m_dot(S, ta, tb):
    x, y = S.sym("A", ta), S.sym("B", tb)
    S.ensure("dot", S.call("dot", S.pkg.math.dot, x.val, y.val), t_dot(x.t, y.t))
    S.ensure("dot mode", S.call("dot", S.pkg.math.dot, x.val, y.val, mode=(2, 2)), t_dot(x.t, y.t))
    S.ensure("dot(A, A)", S.call("dot", S.pkg.math.dot, x.val, x.val), t_dot(x.t, x.t))


@contract("C02", ["math._voigt.ddot"], TWO_T)
def m_ddot22(S, ta, tb):
    x, y = S.sym("A", ta), S.sym("B", tb)
    S.ensure("ddot", S.call("ddot", S.pkg.math.ddot, x.val, y.val), t_ddot22(x.t, y.t))
    S.ensure("ddot mode", S.call("ddot", S.pkg.math.ddot, x.val, y.val, mode=(2, 2)), t_ddot22(x.t, y.t))
    S.ensure("ddot(A, A)", S.call("ddot", S.pkg.math.ddot, x.val, x.val), t_ddot22(x.t, x.t))


# ------------------------------------------------------------------ C03
@contract("C03", ["math._voigt.ddot"], TWO_T)
def m_ddot4(S, ta, tb):
    m = S.pkg.math
    x, y = S.sym("A", ta), S.sym("B", tb)
    c, d = S.arr("C", (6, 6), ta), S.arr("D", (6, 6), tb)
    S.ensure("ddot(4,2)", S.call("ddot", m.ddot, c.val, y.val, mode=(4, 2)), t_ddot42(c.t, y.t))
    S.ensure("ddot(2,4)", S.call("ddot", m.ddot, x.val, d.val, mode=(2, 4)), t_ddot24(x.t, d.t))
    S.ensure("ddot(4,4)", S.call("ddot", m.ddot, c.val, d.val, mode=(4, 4)), t_ddot44(c.t, d.t))
    S.ensure("ddot(4,4) same", S.call("ddot", m.ddot, c.val, c.val, mode=(4, 4)), t_ddot44(c.t, c.t))


@contract("C03", ["math._voigt.transpose"], ONE_T)
def m_transpose(S, t):
    c = S.arr("C", (6, 6), t)
    S.ensure("transpose", S.call("transpose", S.pkg.math.transpose, c.val), c.t.T)


def _out_cases(tier):
    for c in TWO_T:
        for out in ("none", "new"):
            yield dict(c, out=out)


def outarr(S, out, shape):
    if out == "none":
        return {}
    t = S.tails_of_inputs() if hasattr(S, "tails_of_inputs") else None
    return {}


def _product(name, spec, symmetric_out=True):
    def body(S, ta, tb, out):
        f = getattr(S.pkg.math, name)
        x, y = S.sym("A", ta), S.sym("B", tb)
        kw = {}
        if out == "new":
            kw["out"] = fresh(S, (6, 6))
        r = S.call(name, f, x.val, y.val, **kw)
        S.ensure(name, r, spec(x.t, y.t))
        if out == "new" and symmetric_out:
            S.ensure(name + ": out holds the result", kw["out"], spec(x.t, y.t))
        if out == "new":
            kw["out"] = fresh(S, (6, 6), 2)
        r = S.call(name, f, x.val, x.val, **kw)
        S.ensure(name + "(A, A)", r, spec(x.t, x.t))
    return body


def fresh(S, shape, k=1):
    """an output array with arbitrary content and the trailing shape of all inputs so far"""
    if S.concrete:
        return S.rng.normal(size=tuple(shape) + (S.tail or ()))
    a = np.empty(shape, dtype=object)
    from ..term import var
    for i in np.ndindex(*shape):
        a[i] = var(f"out{k}_" + "".join(map(str, i)))
    return Arr(a, S.tail)


def _reg(name, spec, so=True):
    body = _product(name, spec, so)

    def fn(S, ta, tb, out):
        body(S, ta, tb, out)
    fn.__name__ = "m_" + name
    contract("C03", ["math._voigt." + name], _out_cases)(fn)


_reg("dya", t_dya)
_reg("cdya", t_cdya)
_reg("cdya_ik", t_cdya_ik, False)
_reg("cdya_il", t_cdya_il, False)


# ------------------------------------------------------------------ C04
@contract("C04", ["math._voigt.eigh"], [dict(t=t, f=f) for t in ("A", "", None) for f in ("none", "fn", "sqrt")])
def m_eigh(S, t, f):
    m = S.pkg.math
    C = S.spectral("C", t, signed=f != "sqrt")
    fn = None
    if f == "fn":
        def fn(w):
            return S.apply("h", [0], [w])
    elif f == "sqrt":
        fn = np.sqrt if S.concrete else npshim.numpy.sqrt
    args = {} if f == "none" else {"fun": fn}
    r = S.call("eigh", m.eigh, C.val, **args)
    S.ensure_true("two results", isinstance(r, (tuple, list)) and len(r) == 2)
    w, M = r
    if S.concrete:
        n = 1 if t is None else 0
        lam2 = np.sort(S.evaluate(C.values), axis=0)
        h = (lambda v: v) if f == "none" else fn
        w = np.asarray(w)
        S.ensure_true("shapes", w.shape == (3,) + (S.tail or ()) and np.asarray(M).shape == (3, 6) + (S.tail or ()), f"shapes {w.shape} {np.shape(M)}")
        o = np.argsort(w, axis=0) if f != "fn" else None
        full_ = np.asarray(M)[:, IDX]
        wa, _ = m.eigh(C.val)
        wa = np.asarray(wa)
        S.near("values are the eigenvalues", np.sort(wa, axis=0), lam2)
        S.near("function applied to the values only", w, h(wa))
        S.near("sum of the bases is the identity", full_.sum(axis=0), np.eye(3).reshape((3, 3) + (1,) * len(S.tail or ())) + 0 * full_[0])
        S.near("reconstruction", np.einsum("a...,aij...->ij...", wa, full_), S.evaluate(t_tensor2(C.t)))
        S.near("i-th value belongs to i-th basis", np.einsum("ik...,akj...->aij...", S.evaluate(t_tensor2(C.t)), full_), wa[:, None, None] * full_)
        return
    W, M = Arr.of(w), Arr.of(M)
    ok = W.a.shape == (3,) and M.a.shape == (3, 6) and W.tail == M.tail == C.val.tail and not W.first and not M.first
    S.ensure_true("shapes", ok, f"{W.shape} {M.shape}")
    if not ok:
        return
    hs = {"none": lambda x: x, "fn": lambda x: fun("h", [0], [x]), "sqrt": lambda x: power(x, const(Fraction(1, 2)))}[f]
    lam2 = C.values
    S.ensure("values (with the function applied to the values only)", W, [hs(x) for x in lam2])
    S.ensure("reconstruction", Arr(oarr([add(*[mul(lam2[a], M.a[a, k]) for a in range(3)]) for k in range(6)]), M.tail), C.t)
    S.ensure("sum of the bases is the identity", Arr(oarr([add(*[M.a[a, k] for a in range(3)]) for k in range(6)]), M.tail), t_eye(), using=("ortho",))
    n = C.n
    gram = [[sub(add(*[mul(n[i][a], n[i][b]) for i in range(3)]), const(1 if a == b else 0)) for b in range(3)] for a in range(3)]
    for a in range(3):
        for b in range(3):
            S.ensure_true(f"orthonormal[{a},{b}]", compare("==", gram[a][b], ZERO), using=("ortho",))
    for a in range(3):
        # A M_a - w_a M_a = sum_b w_b n_b (n_b.n_a - delta_ab) n_a, and the brackets vanish
        F = full(M.a[a])
        c = full(C.t)
        S.ensure(f"A M_{a} = w_{a} M_{a} (up to the orthonormality defects, which vanish)",
                 Arr(oarr([[add(*[mul(c[i][k], F[k][j]) for k in range(3)]) for j in range(3)] for i in range(3)]), M.tail),
                 [[add(mul(lam2[a], F[i][j]), *[mul(lam2[b], n[i][b], gram[b][a], n[j][a]) for b in range(3)]) for j in range(3)] for i in range(3)])
    # rank one: M = n n^T with unit n
    for a in range(3):
        S.ensure(f"rank-one basis {a}", Arr(oarr(list(M.a[a])), M.tail), [mul(n[i][a], n[j][a]) for i, j in PAIR])


# ------------------------------------------------------------------ other numeric types (C01-C04)
TYPED = {"C01": ("asvoigt", "asvoigt4", "astensor", "astensor4", "tril", "triu"), "C02": ("trace", "det", "dev", "eye", "dot", "ddot22", "inv"),
         "C03": ("ddot24", "ddot42", "ddot44", "dya", "cdya", "cdya_ik", "cdya_il", "transpose"), "C04": ("eigh",)}
NAMES = {"asvoigt4": ("asvoigt", dict(mode=4)), "astensor4": ("astensor", dict(mode=4)), "tril": ("tril_from_triu", {}), "triu": ("triu_from_tril", {})}
SPECS = {"trace": t_trace, "det": t_det, "dev": t_dev, "eye": lambda v: t_eye(), "dot": t_dot, "ddot22": t_ddot22, "inv": t_inv, "ddot24": t_ddot24, "ddot42": t_ddot42,
         "ddot44": t_ddot44, "dya": t_dya, "cdya": t_cdya, "cdya_ik": t_cdya_ik, "cdya_il": t_cdya_il}


def typed(pid):
    def fn(S, f, dtype):
        """bounded: arrays of integers and of single precision"""
        m = S.pkg.math
        types = dtype.split("+")
        kind = "".join(np.dtype(d).kind for d in types)
        S.rtol = 1e-4 if "float32" in types else S.rtol
        shapes = {"ddot24": [(6,), (6, 6)], "ddot42": [(6, 6), (6,)], "ddot44": [(6, 6), (6, 6)], "transpose": [(6, 6)], "tril": [(6, 6)], "triu": [(6, 6)], "astensor4": [(6, 6)],
                  "asvoigt": [(6,)], "asvoigt4": [(6, 6)]}.get(f) or ([(6,), (6,)] if f in ("dot", "ddot22", "dya", "cdya", "cdya_ik", "cdya_il") else [(6,)])
        rnd = lambda d: lambda rng, s: (rng.integers(-4, 5, s) if d[0] == "i" else np.round(rng.uniform(-2, 2, s), 3)).astype(d).astype(float)
        of = lambda k: types[k % len(types)]
        xs = [S.arr("AB"[k], s, "A", gen=rnd(of(k))) for k, s in enumerate(shapes)]
        if f == "inv":
            for k in range(3):      # diagonally dominant
                xs[0].val[k] += 20
        v = [np.asarray(x.val).astype(of(k)) for k, x in enumerate(xs)]
        if f == "asvoigt":
            v = [v[0][IDX]]
        elif f == "asvoigt4":
            v = [v[0][IDX[:, :, None, None] + 0 * IDX, IDX[None, None] + 0 * IDX[:, :, None, None]]]
        keep = [y.copy() for y in v]
        if f.startswith("ddot"):
            name, kw = "ddot", dict(mode=(int(f[4]), int(f[5])))
        else:
            name, kw = NAMES.get(f, (f, {}))
        if "i" in kind:
            try:
                r = getattr(m, name)(*v, **kw)
            except TypeError:       # integers are not supported: nothing is returned
                return
        else:
            r = S.call(f, getattr(m, name), *v, **kw)
        S.ensure_true("arguments are unmodified", all(np.array_equal(a, b) for a, b in zip(v, keep)))
        if f in ("asvoigt", "asvoigt4"):
            S.near("value", np.asarray(r, float), np.asarray(xs[0].val, float))
        elif f in ("astensor", "astensor4"):
            a = np.asarray(xs[0].val, float)
            S.near("value", np.asarray(r, float), a[IDX] if f == "astensor" else a[IDX[:, :, None, None] + 0 * IDX, IDX[None, None] + 0 * IDX[:, :, None, None]])
        elif f in ("tril", "triu", "transpose"):
            a = np.asarray(xs[0].val, float)
            i, j = np.triu_indices(6, 1)
            want = a.copy()
            if f == "tril":
                want[j, i] = a[i, j]
            elif f == "triu":
                want[i, j] = a[j, i]
            else:
                want = np.swapaxes(a, 0, 1)
            S.near("value", np.asarray(r, float), want)
        elif f == "eigh":
            w, M = r
            full6 = np.asarray(M, float)[:, IDX]
            S.near("reconstruction", np.einsum("a...,aij...->ij...", np.asarray(w, float), full6), np.asarray(xs[0].val, float)[IDX])
            S.near("sum of the bases is the identity", full6.sum(axis=0), np.eye(3).reshape((3, 3) + (1,) * (full6.ndim - 3)) + 0 * full6[0])
        else:
            a = [np.asarray(x.val, float) for x in xs]
            env = {}
            t = []
            for k, x in enumerate(a):
                c = np.empty(shapes[k], dtype=object)
                for i in np.ndindex(*shapes[k]):
                    c[i] = var(f"typed{k}_" + "_".join(map(str, i)))
                    S.env["vars"][f"typed{k}_" + "_".join(map(str, i))] = x[i]
                t.append(c)
            want = np.asarray(S.evaluate(SPECS[f](*t)), float)
            got = np.asarray(r, float)
            if f == "eye":
                want, got = want.ravel(), got.ravel()
            S.near("value", got, want)
    fn.__name__ = "m_types" + pid[2]
    fn.__doc__ = "bounded: arrays of integers and of single precision"
    cases = [dict(f=f, dtype=d) for f in TYPED[pid] for d in ("int64", "int32", "float32") if not (d[0] == "i" and f in ("inv", "cdya"))]
    cases += [dict(f=f, dtype=d) for f in TYPED[pid] if f[:3] in ("dot", "ddo", "dya", "cdy") for d in ("int64+float64", "float64+int64", "float32+float64", "float64+float32")]
    contract(pid, ["math._voigt." + NAMES.get(n, (n,))[0].replace("ddot22", "ddot").replace("ddot24", "ddot").replace("ddot42", "ddot").replace("ddot44", "ddot") for n in TYPED[pid]],
             cases, sym=False, runs=6)(fn)


for _pid in TYPED:
    typed(_pid)
