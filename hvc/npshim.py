"""The numpy module seen by the code under verification."""
import types
import numpy as rnp
from fractions import Fraction
from . import arr as A
from .term import (T, B, Unsupported, ZERO, ONE, add, sub, mul, div, power, ufun, const, compare, band, bor, bnot, ite, var,
                   scale, coerce)
from .arr import Arr, has_sym, binary, unary, store, Sel


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Arr, rnp.ndarray)) or isinstance(x, Sel)

    def __subclasscheck__(cls, c):
        return issubclass(c, (Arr, rnp.ndarray))


class ndarray(metaclass=_NdMeta):
    pass


class Ctx:
    """contract data for numpy.linalg: registered spectral decompositions [(matrix 3x3 of T, w, v)]"""
    eigh = []
    same = None       # callable(T, T) -> bool: equality modulo normal form
    notes = []


class UFunc:
    def __init__(self, name, f, nin):
        self.__name__ = name
        self.f = f
        self.nin = nin

    def __call__(self, *args, out=None, where=True, dtype=None, casting=None, order=None, subok=True):
        if where is not True:
            if out is None:
                raise Unsupported("ufunc where= without out=")
            keep = out[0] if isinstance(out, tuple) else out
            return store(out, A.where(where, self(*args, dtype=dtype), keep))
        A.check_dtype(dtype)
        if len(args) == self.nin + 1:
            out = args[-1]
            args = args[:-1]
        if any(isinstance(a, Sel) for a in args):
            if self.nin == 2 and out is None:
                x, y = args
                return x._bin(y, self.f) if isinstance(x, Sel) else y._bin(x, self.f, True)
            raise Unsupported("ufunc of a masked selection")
        if not has_sym(args) and out is None:
            real = getattr(rnp, self.__name__)
            if self.__name__ in ("sqrt", "cbrt") and all(isinstance(a, (int, float)) for a in args):
                return self.f(coerce(args[0]))
            if all(isinstance(a, rnp.ndarray) or isinstance(a, (int, rnp.integer)) for a in args):
                r = real(*args)
                if isinstance(r, rnp.ndarray) and r.dtype.kind in "iub":
                    return r.view(A.IArr)
        xs = [Arr.of(a) for a in args]
        r = binary(self.f, *xs) if self.nin == 2 else unary(self.f, xs[0])
        return store(out, r)

    def reduce(self, x, axis=0, **kw):
        if self.__name__ == "add":
            return A.reduce(x, axis, add)
        if self.__name__ == "multiply":
            return A.reduce(x, axis, mul)
        raise Unsupported("ufunc.reduce")

    def outer(self, x, y, **kw):
        raise Unsupported("ufunc.outer")

    def __getattr__(self, n):
        raise Unsupported(f"ufunc attribute {n}")


def _take(x, indices, axis=None, out=None, mode=None):
    if out is not None or mode is not None:
        raise Unsupported("take with out= or mode=")
    if has_sym(indices):
        raise Unsupported("take with symbolic indices")
    if not has_sym(x):
        return rnp.take(x, indices, axis=axis)
    x = Arr.of(x)
    if axis is None:
        raise Unsupported("take of a flattened array")
    if not isinstance(axis, (int, rnp.integer)):
        raise Unsupported("take along a symbolic axis")
    n = x.a.ndim
    if axis < 0 or axis >= n:
        raise Unsupported("take along a trailing axis")
    ix = indices if isinstance(indices, (int, rnp.integer)) else list(rnp.ravel(indices)) if rnp.ndim(indices) == 1 else rnp.asarray(indices)
    return x[(slice(None),) * int(axis) + (ix,)].copy()


def _half(t):
    return power(t, const(Fraction(1, 2)))


def _third(t):
    return power(t, const(Fraction(1, 3)))


def _max(x, y):
    return ite(compare(">=", x, y), x, y)


def _min(x, y):
    return ite(compare("<=", x, y), x, y)


ufuncs = {
    "add": (add, 2), "subtract": (sub, 2), "multiply": (mul, 2), "divide": (div, 2), "true_divide": (div, 2),
    "power": (power, 2), "float_power": (power, 2), "negative": (lambda t: scale(t, -1), 1), "positive": (lambda t: t, 1),
    "square": (lambda t: power(t, const(2)), 1), "sqrt": (_half, 1), "cbrt": (_third, 1), "exp": (lambda t: ufun("exp", t), 1),
    "log": (lambda t: ufun("log", t), 1), "abs": (lambda t: ufun("abs", t), 1), "absolute": (lambda t: ufun("abs", t), 1),
    "fabs": (lambda t: ufun("abs", t), 1), "sign": (lambda t: ufun("sign", t), 1), "reciprocal": (lambda t: div(ONE, t), 1),
    "sin": (lambda t: ufun("sin", t), 1), "cos": (lambda t: ufun("cos", t), 1), "tanh": (lambda t: ufun("tanh", t), 1),
    "maximum": (_max, 2), "minimum": (_min, 2),
    "greater": (lambda a, b: compare(">", a, b), 2), "greater_equal": (lambda a, b: compare(">=", a, b), 2),
    "less": (lambda a, b: compare("<", a, b), 2), "less_equal": (lambda a, b: compare("<=", a, b), 2),
    "equal": (lambda a, b: compare("==", a, b), 2), "not_equal": (lambda a, b: compare("!=", a, b), 2),
    "logical_and": (band, 2), "logical_or": (bor, 2), "logical_not": (bnot, 1), "invert": (bnot, 1),
    "isfinite": (lambda t: True, 1), "isnan": (lambda t: False, 1), "isinf": (lambda t: False, 1),
}


def _guard(name, real):
    def f(*args, **kw):
        if has_sym(args) or has_sym(list(kw.values())):
            raise Unsupported(f"numpy.{name} of symbolic data")
        r = real(*args, **kw)
        if isinstance(r, rnp.ndarray) and type(r) is rnp.ndarray:
            if r.dtype.kind in "iub":
                return r.view(A.IArr)
            if r.dtype == rnp.float64:
                return Arr(A.obj(r))
        if isinstance(r, (tuple, list)) and r and all(isinstance(x, rnp.ndarray) and x.dtype.kind in "iub" for x in r):
            return type(r)(x.view(A.IArr) for x in r) if type(r) in (tuple, list) else r
        return r
    f.__name__ = name
    return f


def _nsum(x, axis=None, dtype=None, out=None, keepdims=False, **kw):
    A.check_dtype(dtype)
    if isinstance(x, A.Cat) and out is None and not keepdims:
        return x.sum(axis, **kw)
    if not has_sym(x):
        return _guard("sum", rnp.sum)(x, axis=axis, keepdims=keepdims)
    return store(out, A.reduce(A.array(x, copy=False), axis, add, keepdims))


def _prod(x, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if not has_sym(x):
        return _guard("prod", rnp.prod)(x, axis=axis, keepdims=keepdims)
    return store(out, A.reduce(A.array(x, copy=False), axis, mul, keepdims))


def _eye(n, M=None, k=0, dtype=None, **kw):
    A.check_dtype(dtype)
    return Arr(A.obj(rnp.eye(n, M, k)))


def _copyto(dst, src, **kw):
    if kw:
        raise Unsupported("copyto with options")
    dst[...] = src


def _stack(parts, axis=0, **kw):
    if not has_sym(list(parts) if not isinstance(parts, (Arr, rnp.ndarray)) else parts):
        return _guard("stack", rnp.stack)(parts, axis=axis)
    return A.stack(list(parts), axis)


def _cat(parts, axis=0, **kw):
    if hasattr(parts, "_hvc_generic"):
        return A.concatenate(parts, axis)
    parts = list(parts)
    if not has_sym(parts):
        return _guard("concatenate", rnp.concatenate)(parts, axis=axis)
    return A.concatenate(parts, axis)


def _vstack(parts, **kw):
    parts = list(parts)
    if not has_sym(parts):
        return _guard("vstack", rnp.vstack)(parts)
    ps = [Arr.of(p) for p in parts]
    if any(p.a.ndim == 0 or (p.a.ndim == 1 and p.tail is None) for p in ps):
        raise Unsupported("vstack")
    return A.concatenate(ps, 0)


def _rank1(p):
    return all(A.Shapes.rank.get(t) == 1 for t in p.tail)


def _hstack(parts, **kw):
    if hasattr(parts, "_hvc_generic"):
        return A.concatenate(parts, 0)
    parts = list(parts)
    if not has_sym(parts):
        return _guard("hstack", rnp.hstack)(parts)
    ps = [Arr.of(p) for p in parts]
    if all(p.a.ndim == 1 and p.tail is None for p in ps):
        return A.concatenate(ps, 0)
    if ps and all(p.a.ndim == 0 and p.tail and not p.first and _rank1(p) for p in ps):
        return A.concatenate(ps, 0)
    if all(p.a.ndim >= 2 for p in ps):
        return A.concatenate(ps, 1)
    raise Unsupported("hstack")


def _diag(x, k=0):
    if not has_sym(x):
        return _guard("diag", rnp.diag)(x, k)
    x = Arr.of(x)
    if x.tail is not None or k:
        raise Unsupported("diag")
    if x.a.ndim == 1:
        z = rnp.empty((x.a.shape[0],) * 2, dtype=object)
        z[...] = ZERO
        for i in range(x.a.shape[0]):
            z[i, i] = x.a[i]
        return Arr(z)
    return Arr(rnp.array([x.a[i, i] for i in range(min(x.a.shape))], dtype=object))


def _shape(x):
    if isinstance(x, (Arr, T)):
        return x.shape if isinstance(x, Arr) else ()
    return rnp.shape(x)


def _ndim(x):
    return A.slen(_shape(x)) if isinstance(x, Arr) else rnp.ndim(x) if not isinstance(x, T) else 0


def _asarray(x, dtype=None, **kw):
    return A.array(x, dtype, copy=False)


def _triu_tril(which):
    real = getattr(rnp, which)

    def f(x, k=0):
        if not has_sym(x):
            return _guard(which, real)(x, k)
        x = Arr.of(x)
        if x.tail is not None or x.a.ndim != 2:
            raise Unsupported(which + " on symbolic axes")
        m = real(rnp.ones(x.a.shape, dtype=int), k)
        z = x.a.copy()
        for i in rnp.ndindex(*z.shape):
            if not m[i]:
                z[i] = ZERO
        return Arr(z)
    return f


def _outer(x, y, out=None):
    x, y = Arr.of(x), Arr.of(y)
    if x.tail is None and y.tail is None and x.a.ndim == y.a.ndim == 1:
        return store(out, A.einsum("i,j->ij", x, y))
    raise Unsupported("outer")


def _norm(x, *a, **k):
    if a or k:
        raise Unsupported("norm with options")
    if isinstance(x, A.Cat):
        return _half((x * x).sum().a[()])
    x = Arr.of(x)
    if x.tail is not None:
        raise Unsupported("norm over the material points")
    return _half(add(*[power(t, const(2)) for t in x.a.reshape(-1)]))


def _mat3(x):
    x = Arr.of(x)
    if x.tail is not None and not x.first:
        raise Unsupported("numpy.linalg on trailing symbolic axes")
    if x.a.ndim != 2 or x.a.shape != (3, 3):
        if x.tail is None and x.a.ndim > 2 and x.a.shape[-2:] == (3, 3):
            return x
        raise Unsupported("numpy.linalg on non-3x3")
    return x


def det3(m):
    return add(mul(m[0][0], sub(mul(m[1][1], m[2][2]), mul(m[1][2], m[2][1]))),
               scale(mul(m[0][1], sub(mul(m[1][0], m[2][2]), mul(m[1][2], m[2][0]))), -1),
               mul(m[0][2], sub(mul(m[1][0], m[2][1]), mul(m[1][1], m[2][0]))))


def adj3(m):
    def c(i, j):
        r = [k for k in range(3) if k != i]
        s = [k for k in range(3) if k != j]
        d = sub(mul(m[r[0]][s[0]], m[r[1]][s[1]]), mul(m[r[0]][s[1]], m[r[1]][s[0]]))
        return scale(d, (-1) ** (i + j))
    return [[c(j, i) for j in range(3)] for i in range(3)]


def _batched(x, fn, oshape):
    """apply fn to every 3x3 matrix in the last two leading axes"""
    b = x.a.shape[:-2]
    out = rnp.empty(b + oshape, dtype=object)
    for i in rnp.ndindex(*b):
        r = fn(x.a[i].tolist())
        o = rnp.empty(oshape, dtype=object)
        for j in rnp.ndindex(*oshape):
            v = r
            for k in j:
                v = v[k]
            o[j] = v
        out[i] = o if oshape else o[()]
    return A.wrap(out, x.tail, x.first, x.rev)


class linalg:
    @staticmethod
    def det(x):
        return _batched(_mat3(x), det3, ())

    @staticmethod
    def inv(x):
        def f(m):
            d = det3(m)
            return [[div(e, d) for e in r] for r in adj3(m)]
        return _batched(_mat3(x), f, (3, 3))

    @staticmethod
    def _decomp(m):
        for M, w, v in Ctx.eigh:
            if all(Ctx.same(m[i][j], M[i][j]) for i in range(3) for j in range(3)):
                return w, v
        raise Unsupported("eigh of a tensor without a registered spectral decomposition")

    @staticmethod
    def eigh(x, UPLO="L"):
        x = _mat3(x)
        return (_batched(x, lambda m: linalg._decomp(m)[0], (3,)),
                _batched(x, lambda m: linalg._decomp(m)[1], (3, 3)))

    @staticmethod
    def eigvalsh(x, UPLO="L"):
        return linalg.eigh(x)[0]

    norm = staticmethod(_norm)

    def __getattr__(self, n):
        raise Unsupported("numpy.linalg." + n)


def _full(shape, v, dtype=None, **kw):
    c = coerce(v)
    if c is NotImplemented:
        raise Unsupported("full")
    if isinstance(v, (int, rnp.integer)) and dtype is None and not has_sym(shape):
        return rnp.full(shape, v).view(A.IArr)
    return A.zeros(shape, dtype, fill=c)


def _array_sym(x, *a, **k):
    return A.array(x, *a, **k)


def _nmean(x, axis=None, **kw):
    return A.mean(A.array(x, copy=False), axis)


def _ravel(x, order="C"):
    return Arr.of(x).ravel() if has_sym(x) else _guard("ravel", rnp.ravel)(x)


def _wrapsym(fn, name):
    real = getattr(rnp, name, None)

    def f(*a, **k):
        if has_sym(a) or has_sym(list(k.values())) or real is None:
            return fn(*a, **k)
        return _guard(name, real)(*a, **k)
    f.__name__ = name
    return f


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        d = self.__dict__
        for n, (f, k) in ufuncs.items():
            d[n] = UFunc(n, f, k)
        d.update(
            ndarray=ndarray, array=_array_sym, asarray=_asarray, ascontiguousarray=_asarray, asanyarray=_asarray,
            zeros=A.zeros, ones=lambda s, dtype=None, **k: A.zeros(s, dtype, fill=ONE), empty=A.empty, full=_full,
            zeros_like=A.zeros_like, ones_like=lambda x, dtype=None, **k: A.zeros_like(x, dtype, fill=ONE),
            empty_like=A.empty_like, full_like=lambda x, v, dtype=None, **k: A.zeros_like(x, dtype, fill=coerce(v)),
            eye=_eye, identity=lambda n, dtype=None: _eye(n), einsum=A.einsum, matmul=A.matmul, dot=A.dot, sum=_nsum, prod=_prod,
            mean=_nmean, trace=_wrapsym(A.trace, "trace"), swapaxes=_wrapsym(A.swapaxes, "swapaxes"),
            moveaxis=_wrapsym(A.moveaxis, "moveaxis"), transpose=_wrapsym(A.transpose, "transpose"),
            expand_dims=_wrapsym(A.expand_dims, "expand_dims"), broadcast_shapes=A.broadcast_shapes,
            broadcast_to=_wrapsym(A.broadcast_to, "broadcast_to"), broadcast_arrays=_wrapsym(A.broadcast_arrays, "broadcast_arrays"),
            reshape=_wrapsym(lambda x, shape, **k: A.reshape(x, shape), "reshape"), ravel=_ravel,
            isclose=_wrapsym(A.isclose, "isclose"), allclose=A.allclose, array_equal=A.array_equal, where=_wrapsym(A.where, "where"),
            any=_wrapsym(lambda x, axis=None, **k: A.anyall("any", x, axis), "any"),
            all=_wrapsym(lambda x, axis=None, **k: A.anyall("all", x, axis), "all"),
            stack=_stack, concatenate=_cat, vstack=_vstack, hstack=_hstack, diag=_diag, shape=_shape, ndim=_ndim,
            size=lambda x, axis=None: Arr.of(x).size, copy=lambda x, **k: Arr.of(x).copy() if has_sym(x) else rnp.copy(x),
            copyto=_copyto, linalg=linalg(), triu=_triu_tril("triu"), tril=_triu_tril("tril"), outer=_outer,
            max=_wrapsym(lambda x, axis=None, **k: A.extremum("max", x, axis), "max"),
            min=_wrapsym(lambda x, axis=None, **k: A.extremum("min", x, axis), "min"),
            amax=_wrapsym(lambda x, axis=None, **k: A.extremum("max", x, axis), "amax"),
            amin=_wrapsym(lambda x, axis=None, **k: A.extremum("min", x, axis), "amin"),
            squeeze=_wrapsym(lambda x, axis=None: Arr.of(x).squeeze(axis), "squeeze"),
            take=_take, newaxis=None, pi=rnp.pi, e=rnp.e, nan=var("NaN"), inf=rnp.inf,
            float64=rnp.float64, float32=rnp.float32, double=rnp.float64, int64=rnp.int64, intp=rnp.intp, bool_=rnp.bool_,
            integer=rnp.integer, floating=rnp.floating, generic=rnp.generic, number=rnp.number, dtype=rnp.dtype,
            atleast_1d=_wrapsym(_atleast1, "atleast_1d"), result_type=lambda *a: rnp.dtype(float),
            __version__=rnp.__version__,
            errstate=rnp.errstate, ndindex=rnp.ndindex, ix_=rnp.ix_, s_=rnp.s_,
        )

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        real = getattr(rnp, name)
        if isinstance(real, type) or not callable(real):
            return real
        return _guard(name, real)


def _atleast1(x):
    x = Arr.of(x)
    if x.tail is None and x.a.ndim == 0:
        return Arr(x.a.reshape(1))
    return x


numpy = NumpyShim()
