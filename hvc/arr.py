"""Symbolic ndarrays: concrete leading axes (a numpy object array of terms) + symbolic trailing axes (material points).

The element stored for a leading index is the value at one *generic* material point, so every operation below either acts
pointwise on the trailing axes or raises Unsupported.  Trailing shapes are sets of names ({} = all ones); the rank of the
trailing part is a symbolic integer n >= 1 unless declared.  tail None = no trailing axes at all.
"""
from __future__ import annotations
import itertools
from fractions import Fraction
import numpy as rnp
from .term import (T, B, fun, ZERO, ONE, Unsupported, coerce, const, add, sub, mul, div, power, ufun, ite, band, bor, bnot,
                   compare, quant, var, scale, Oracle)


class ShapeError(ValueError):
    """a shape obligation fails (operands could not be broadcast together, ...)"""


# ------------------------------------------------------------------ trailing shapes
class Shapes:
    """absorb: (a, b) in the set means: shape b broadcasts into shape a.  rank: known ranks."""
    absorb = set()
    rank = {}


def norm_tail(s):
    if s is None:
        return None
    s = frozenset(s)
    drop = {b for a, b in Shapes.absorb if a in s and b in s}
    return s - drop


def union(*ts):
    out = frozenset()
    for t in ts:
        if t is not None:
            out |= t
    return norm_tail(out)


def subset(a, b):
    """does trailing shape a broadcast into b (b unchanged)?"""
    if a is None:
        return True
    if b is None:
        return not a
    return union(a, b) == norm_tail(b)


def tail_rank(tail):
    for n in tail:
        if n in Shapes.rank:
            return Shapes.rank[n]
    if not tail and Shapes.rank.get("") is not None:
        return Shapes.rank[""]
    return SymRank(0)


class SymRank:
    """n + off, n >= 1 symbolic"""
    __slots__ = ("off",)
    __array_ufunc__ = None

    def __init__(self, off):
        self.off = off

    def __add__(self, o):
        if isinstance(o, int):
            return SymRank(self.off + o)
        raise Unsupported("rank arithmetic")

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, int):
            return SymRank(self.off - o)
        if isinstance(o, SymRank):
            return self.off - o.off
        raise Unsupported("rank arithmetic")

    def __rsub__(self, o):
        raise Unsupported("rank arithmetic")

    def term(self):
        return add(var("rank_n", True), const(self.off))

    def _cmp(self, o, rel):
        if isinstance(o, SymRank):
            return {"==": self.off == o.off, "<": self.off < o.off, "<=": self.off <= o.off}[rel]
        if not isinstance(o, int):
            return NotImplemented
        # n >= 1
        if rel == "<" and self.off + 1 >= o:
            return False
        if rel == "<=" and self.off + 1 > o:
            return False
        if rel == "==" and self.off + 1 > o:
            return False
        return compare(rel, self.term(), const(o))

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        r = self._cmp(o, "==")
        return bnot(r) if r is not NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        r = self._cmp(o, "<=")
        return bnot(r) if r is not NotImplemented else r

    def __ge__(self, o):
        r = self._cmp(o, "<")
        return bnot(r) if r is not NotImplemented else r

    def __hash__(self):
        return hash(("rank", self.off))

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)) and len(o) == 1 and isinstance(o[0], int) and o[0] == 1 and self.off == 0:
            return type(o)([TailMark(frozenset())])
        if isinstance(o, (list, tuple)) and len(o) == 1 and self.off == 0 and (o[0] is None or isinstance(o[0], slice) and o[0] == slice(None)):
            return type(o)([AxesMark(o[0] is None)])
        raise Unsupported("sequence * rank")

    __mul__ = __rmul__

    def __index__(self):
        raise Unsupported("symbolic rank used as a concrete integer")

    def __bool__(self):
        return True if self.off >= 0 else bool(self != 0)


class AxesMark:
    """stands for as many new axes (or full slices) as there are trailing axes, inside an index"""
    __slots__ = ("new",)

    def __init__(self, new):
        self.new = new


class TailMark:
    """stands for all trailing axes inside a shape tuple"""
    __slots__ = ("tail", "rev")

    def __init__(self, tail, rev=False):
        self.tail = norm_tail(tail)
        self.rev = rev

    def __eq__(self, o):
        if isinstance(o, TailMark):
            return self.tail == o.tail and self.rev == o.rev
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.tail, self.rev))

    def __repr__(self):
        return "<" + ",".join(sorted(self.tail)) + ">"

    def __index__(self):
        raise Unsupported("symbolic trailing dimension used as a concrete integer")

    def _no(self, *a):
        raise Unsupported("arithmetic on symbolic trailing dimensions")

    __mul__ = __rmul__ = __add__ = __radd__ = __sub__ = __lt__ = __le__ = __gt__ = __ge__ = __int__ = _no


class RankOnes:
    """np.ones(rank, dtype=int): a run of ones as long as the trailing rank"""

    def __iter__(self):
        return iter([TailMark(frozenset())])

    def tolist(self):
        return [TailMark(frozenset())]


class Shape(tuple):
    def __getitem__(self, i):
        if isinstance(i, slice):
            marks = [k for k, x in enumerate(self) if isinstance(x, TailMark)]
            if marks:
                m = marks[0]
                for b in (i.start, i.stop):
                    if b is not None and (not isinstance(b, int) or (b < 0 and m == len(self) - 1) or (b > m and m == len(self) - 1)):
                        raise Unsupported("slice through the symbolic part of a shape")
            return Shape(tuple.__getitem__(self, i))
        if isinstance(i, int) and any(isinstance(x, TailMark) for x in self):
            k = [k for k, x in enumerate(self) if isinstance(x, TailMark)][0]
            if i < 0 and k == len(self) - 1 or i >= 0 and k <= i:
                raise Unsupported("index into the symbolic part of a shape")
        return tuple.__getitem__(self, i)

    def __add__(self, o):
        return Shape(tuple.__add__(self, tuple(o)))

    def __radd__(self, o):
        return Shape(tuple(o) + tuple(self))


def slen(x):
    """len() as seen by the code under verification"""
    if hasattr(x, "_hvc_len"):
        return x._hvc_len()
    if isinstance(x, (Shape, tuple, list)):
        n = len(x)
        m = [k for k in x if isinstance(k, TailMark)]
        if not m:
            return n
        r = tail_rank(m[0].tail)
        return r + (n - 1) if n != 1 else r
    return len(x)


def parse_shape(shape):
    """-> (lead tuple, tail or None)"""
    if isinstance(shape, (int, rnp.integer)):
        return (int(shape),), None
    if isinstance(shape, TailMark):
        return (), shape.tail
    if isinstance(shape, RankOnes):
        return (), frozenset()
    if isinstance(shape, SymRank):
        raise Unsupported("shape given by a symbolic rank")
    shape = tuple(shape)
    marks = [i for i, x in enumerate(shape) if isinstance(x, TailMark)]
    if not marks:
        return tuple(int(x) for x in shape), None
    if len(marks) > 1 or marks[0] != len(shape) - 1:
        raise Unsupported("shape with the symbolic part not at the end")
    return tuple(int(x) for x in shape[:-1]), shape[-1].tail


_FLOATS = None


def check_dtype(dtype):
    """None or float64-compatible -> ok"""
    if dtype is None or dtype is float:
        return
    try:
        d = rnp.dtype(dtype)
    except TypeError:
        raise Unsupported(f"dtype {dtype}")
    if d != rnp.float64:
        raise Unsupported(f"dtype {d}")


def is_float_dtype(dtype):
    try:
        return rnp.dtype(dtype) == rnp.float64
    except TypeError:
        return False


# ------------------------------------------------------------------ arrays
def obj(x):
    """object ndarray from nested python/numpy data"""
    a = rnp.empty(rnp.shape(x), dtype=object)
    b = rnp.asarray(x)
    for i in rnp.ndindex(*a.shape):
        v = b[i]
        a[i] = v if isinstance(v, (T, B)) else coerce(v.item() if hasattr(v, "item") else v)
    return a


class ArrMeta(type):
    pass


class Arr:
    __slots__ = ("a", "tail", "first", "rev", "ro", "tag", "__weakref__")
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, a, tail=None, first=False, rev=False, ro=False):
        self.a = a
        self.tail = norm_tail(tail)
        self.first = first and tail is not None
        self.rev = rev and tail is not None
        self.ro = ro
        self.tag = None

    @staticmethod
    def of(x):
        if isinstance(x, Arr):
            return x
        if isinstance(x, (T, B)):
            a = rnp.empty((), dtype=object)
            a[()] = x
            return Arr(a)
        if isinstance(x, rnp.ndarray):
            if x.dtype == object:
                raise Unsupported("object array")
            if x.dtype == rnp.float32 or x.dtype.kind == "c":
                raise Unsupported("dtype " + str(x.dtype))
            return Arr(obj(x))
        if isinstance(x, (list, tuple)):
            return Arr.of(array(x))
        if isinstance(x, (bool, rnp.bool_)):
            a = rnp.empty((), dtype=object)
            a[()] = bool(x)
            return Arr(a)
        c = coerce(x)
        if c is NotImplemented:
            raise Unsupported(f"operand {type(x).__name__}")
        a = rnp.empty((), dtype=object)
        a[()] = c
        return Arr(a)

    # ---- attributes
    @property
    def lead(self):
        return self.a.shape

    @property
    def shape(self):
        if self.tail is None:
            return Shape(self.a.shape)
        m = TailMark(self.tail, self.rev)
        return Shape((m,) + self.a.shape) if self.first else Shape(self.a.shape + (m,))

    @property
    def ndim(self):
        return slen(self.shape)

    @property
    def size(self):
        n = int(rnp.prod(self.a.shape, dtype=int))
        if self.tail is None:
            return n
        if not self.tail:
            return n
        return scale(var("size_" + "_".join(sorted(self.tail)), True), n)

    @property
    def dtype(self):
        if self.a.size and isinstance(self.a.flat[0], (B, bool)):
            return rnp.dtype(bool)
        return rnp.dtype(float)

    @property
    def flags(self):
        class Fl:
            pass
        f = Fl()
        f.writeable = not self.ro and self.a.flags.writeable
        return f

    @property
    def T(self):
        if self.tail is None:
            return Arr(self.a.T)
        return Arr(self.a.T, self.tail, not self.first, not self.rev, self.ro)

    def like(self, a, ro=False):
        return Arr(a, self.tail, self.first, self.rev, ro)

    def copy(self, order="C"):
        return self.like(self.a.copy())

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, copy=True, **kw):
        check_dtype(dtype)
        return self.copy() if copy else self

    def view(self, *a):
        if a:
            raise Unsupported("view with arguments")
        return self.like(self.a)

    def __len__(self):
        if self.a.ndim == 0:
            if self.tail is None:
                raise TypeError("len() of unsized object")
            raise Unsupported("len of the symbolic axis")
        if self.first:
            raise Unsupported("len of the symbolic axis")
        return self.a.shape[0]

    def __iter__(self):
        if self.first:
            raise Unsupported("iteration over material points")
        if self.a.ndim == 0:
            if self.tail is None:
                raise TypeError("iteration over a 0-d array")
            raise Unsupported("iteration over material points")
        for i in range(self.a.shape[0]):
            yield self[i]

    def __bool__(self):
        if self.a.size == 1 and self.tail is None:
            return bool(self.a.reshape(-1)[0])
        if self.tail is None:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        raise Unsupported("truth value of an array with symbolic trailing axes")

    def __float__(self):
        raise Unsupported("float() of a symbolic array")

    def item(self):
        if self.a.size == 1 and self.tail is None:
            return self.a.reshape(-1)[0]
        raise Unsupported("item()")

    def __format__(self, spec):
        return format(coerce(self.a[()]), spec) if self.a.ndim == 0 and not self.tail else object.__format__(self, spec)

    def __repr__(self):
        return f"Arr{self.shape}{self.a.tolist()}"

    # ---- indexing
    def _index(self, idx, write=False):
        """-> (numpy index into self.a, mask or None)"""
        if not isinstance(idx, tuple):
            idx = (idx,)
        out = []
        n = 0
        nlead = self.a.ndim
        ell = [k for k, x in enumerate(idx) if x is Ellipsis]
        if len(ell) > 1:
            raise IndexError("an index can only have a single ellipsis ('...')")
        for k, x in enumerate(idx):
            if isinstance(x, Arr) and x.dtype == bool or isinstance(x, B) or isinstance(x, (bool, rnp.bool_)):
                if k != len(idx) - 1:
                    raise Unsupported("boolean mask before other indices")
                m = Arr.of(x)
                return out, n, m
            if isinstance(x, Arr):
                # index arrays must be concrete
                raise Unsupported("symbolic index array")
            if x is Ellipsis:
                if self.tail is not None and not self.first and k == len(idx) - 1:
                    out.append(slice(None) if False else Ellipsis)
                    continue
                if self.tail is None:
                    out.append(Ellipsis)
                    continue
                if self.first and k == 0:
                    out.append(Ellipsis)
                    # remaining indices count from the end of the leading axes
                    continue
                raise Unsupported("ellipsis index")
            if x is None:
                if self.tail is not None and (n > nlead or (self.first and k == 0)):
                    raise Unsupported("new axis inside the symbolic axes")
                out.append(None)
                continue
            if isinstance(x, (T,)):
                x = x.__index__()
            if isinstance(x, list):
                x = rnp.asarray(x)
            if isinstance(x, rnp.ndarray) and x.dtype == bool:
                raise Unsupported("concrete boolean mask")
            if self.first and not ell:
                # the first axis is symbolic
                raise Unsupported("index into the symbolic axis")
            n += 1
            if n > nlead and self.tail is not None:
                if isinstance(x, slice) and x == slice(None):
                    continue
                raise Unsupported("index into the symbolic axis")
            out.append(x)
        return out, n, None

    def __getitem__(self, idx):
        if isinstance(idx, tuple) and any(isinstance(x, AxesMark) for x in idx):
            *head, m = idx
            if not isinstance(m, AxesMark) or any(isinstance(x, AxesMark) or x is Ellipsis for x in head) or self.first:
                raise Unsupported("new axes inside of an index")
            lead = sum(x is not None for x in head)
            if m.new != (self.tail is None) or lead != self.a.ndim:
                raise Unsupported("new axes inside of an index")
            r = self[tuple(head)] if head else self
            return Arr(Arr.of(r).a, frozenset(), ro=self.ro) if m.new else r
        if isinstance(idx, Select):
            if self.tail is None or self.a.ndim:
                raise Unsupported("selection of points")
            return Arr(self.a if idx.view else self.a.copy(), frozenset(f"{t}/{idx.name}" for t in self.tail))
        if self.tail is not None and not self.a.ndim:
            # no leading axes: the symbolic axes are the first and the last ones
            seq = idx if isinstance(idx, tuple) else (idx,)
            first = len(seq) > 1 and seq[0] is Ellipsis
            if first != self.first:
                self = Arr(self.a, self.tail, first, self.rev, self.ro)
        out, n, mask = self._index(idx)
        if mask is not None:
            return Sel.take(self, out, n, mask)
        adv = any(isinstance(x, rnp.ndarray) or (isinstance(x, (list,))) for x in out)
        key = tuple(out)
        if not adv and Ellipsis not in [x for x in out if x is Ellipsis]:
            if not self.first:
                key = key + (Ellipsis,)
        r = self.a[key]
        if not isinstance(r, rnp.ndarray):
            z = rnp.empty((), dtype=object)
            z[()] = r
            r = z
        if adv:
            r = r.copy()
        if self.first and adv:
            raise Unsupported("fancy index with leading symbolic axes")
        if r.ndim == 0 and self.tail is None and not any(x is Ellipsis for x in out):
            return r[()]
        return self.like(r, self.ro and not adv)

    def __setitem__(self, idx, val):
        if self.ro:
            raise ValueError("assignment destination is read-only")
        out, n, mask = self._index(idx, True)
        if mask is not None:
            return Sel.put(self, out, n, mask, val)
        if isinstance(val, Sel):
            raise Unsupported("masked value assigned to an unmasked target")
        v = Arr.of(val)
        self._fits(v)
        key = tuple(out)
        if v.a.shape == ():
            # numpy would unpack a 0-d object array element
            self.a[key if key else Ellipsis] = v.a[()]
        else:
            self.a[key if key else Ellipsis] = self._align(v).a

    def _align(self, v):
        """drop explicit trailing ones of v that line up with known-rank trailing axes of self"""
        if self.tail is not None and v.tail is None and v.a.ndim:
            r = tail_rank(self.tail)
            if isinstance(r, int) and v.a.ndim >= r and all(s == 1 for s in v.a.shape[v.a.ndim - r:]):
                return Arr(v.a.reshape(v.a.shape[: v.a.ndim - r]), frozenset())
        return v

    def _fits(self, v):
        v = self._align(v)
        if v.tail is None:
            if self.tail is not None and v.a.ndim and v.a.size != 1:
                raise ShapeError(f"could not broadcast input array from shape {v.shape} into shape {self.shape}")
            return
        if self.tail is None:
            if v.tail or v.first:
                raise ShapeError(f"could not broadcast input array from shape {v.shape} into shape {self.shape}")
            raise Unsupported("trailing ones assigned to an array without trailing axes")
        if v.tail is not None and (v.first != self.first or v.rev != self.rev) and v.tail:
            raise Unsupported("mixed layouts")
        if not subset(v.tail, self.tail):
            raise ShapeError(f"could not broadcast input array from shape {v.shape} into shape {self.shape}")

    # ---- arithmetic
    def _bin(self, o, f, refl=False):
        if isinstance(o, Sel):
            return NotImplemented
        if isinstance(o, (str, dict)) or o is None:
            return NotImplemented
        try:
            o = Arr.of(o)
        except Unsupported:
            if hasattr(o, "__radd__") or hasattr(o, "_hvc_foreign"):
                return NotImplemented
            raise
        return binary(f, o, self) if refl else binary(f, self, o)

    def __add__(self, o): return self._bin(o, add)
    def __radd__(self, o): return self._bin(o, add, True)
    def __sub__(self, o): return self._bin(o, sub)
    def __rsub__(self, o): return self._bin(o, sub, True)
    def __mul__(self, o): return self._bin(o, mul)
    def __rmul__(self, o): return self._bin(o, mul, True)
    def __truediv__(self, o): return self._bin(o, div)
    def __rtruediv__(self, o): return self._bin(o, div, True)
    def __pow__(self, o): return self._bin(o, power)
    def __rpow__(self, o): return self._bin(o, power, True)
    def __neg__(self): return unary(lambda t: scale(t, -1), self)
    def __pos__(self): return self.copy()
    def __abs__(self): return unary(lambda t: ufun("abs", t), self)
    def __eq__(self, o): return self._bin(o, lambda a, b: compare("==", a, b)) if o is not None else False
    def __ne__(self, o): return self._bin(o, lambda a, b: compare("!=", a, b)) if o is not None else True
    def __lt__(self, o): return self._bin(o, lambda a, b: compare("<", a, b))
    def __le__(self, o): return self._bin(o, lambda a, b: compare("<=", a, b))
    def __gt__(self, o): return self._bin(o, lambda a, b: compare(">", a, b))
    def __ge__(self, o): return self._bin(o, lambda a, b: compare(">=", a, b))
    def __invert__(self): return unary(bnot, self)
    def __and__(self, o): return self._bin(o, band)
    def __or__(self, o): return self._bin(o, bor)
    __rand__ = __and__
    __ror__ = __or__
    __hash__ = None

    def _inplace(self, o, f):
        if isinstance(o, Sel):
            raise Unsupported("in-place with a masked value")
        o = Arr.of(o)
        r = Arr.of(binary(f, self, o))
        if self.ro:
            raise ValueError("output array is read-only")
        if r.a.shape != self.a.shape or not subset(r.tail, self.tail) or (r.tail is None) != (self.tail is None):
            raise ShapeError(f"non-broadcastable output operand with shape {self.shape} doesn't match the broadcast shape {r.shape}")
        self.a[...] = r.a
        return self

    def __iadd__(self, o): return self._inplace(o, add)
    def __isub__(self, o): return self._inplace(o, sub)
    def __imul__(self, o): return self._inplace(o, mul)
    def __itruediv__(self, o): return self._inplace(o, div)
    def __ipow__(self, o): return self._inplace(o, power)

    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)

    # ---- methods
    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, Shape)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def sum(self, axis=None, keepdims=False, **kw):
        return reduce(self, axis, add, keepdims)

    def prod(self, axis=None, keepdims=False, **kw):
        return reduce(self, axis, mul, keepdims)

    def mean(self, axis=None, keepdims=False, **kw):
        return mean(self, axis, keepdims)

    def swapaxes(self, i, j):
        return swapaxes(self, i, j)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        return transpose(self, axes or None)

    def trace(self, offset=0, axis1=0, axis2=1, **kw):
        return trace(self, offset, axis1, axis2)

    def ravel(self, order="C"):
        if self.tail is None:
            return Arr(self.a.ravel())
        return reshape(self, (-1,))

    flatten = ravel

    def squeeze(self, axis=None):
        if self.tail is None:
            return wrap(self.a.squeeze(axis))
        if axis is not None and isinstance(axis, int) and 0 <= axis < self.a.ndim and not self.first:
            return self.like(self.a.squeeze(axis))
        raise Unsupported("squeeze")

    def any(self, axis=None, **kw): return anyall("any", self, axis)
    def all(self, axis=None, **kw): return anyall("all", self, axis)

    def fill(self, v):
        self[...] = v

    def tolist(self):
        if self.tail is None:
            return self.a.tolist()
        raise Unsupported("tolist")

    def max(self, axis=None, **kw): return extremum("max", self, axis)
    def min(self, axis=None, **kw): return extremum("min", self, axis)

    def diagonal(self, *a, **k):
        raise Unsupported("diagonal")

    def conj(self):
        return self.copy()

    @property
    def real(self):
        return self

    def dot(self, o):
        return dot(self, o)


def wrap(a, tail=None, first=False, rev=False):
    if not isinstance(a, rnp.ndarray):
        return a
    if a.ndim == 0 and tail is None:
        return a[()]
    return Arr(a, tail, first, rev)


def elementwise(f, *arrs):
    arrs = rnp.broadcast_arrays(*arrs)
    out = rnp.empty(arrs[0].shape, dtype=object)
    for i in rnp.ndindex(*out.shape):
        out[i] = f(*[a[i] for a in arrs])
    return out


def layout(ops):
    """common layout of operands -> (tail, first, rev, aligned leads)"""
    ops = list(ops)
    tails = [o for o in ops if o.tail is not None]
    if not tails:
        return None, False, False, [o.a for o in ops]
    t = union(*[o.tail for o in tails])
    first = {o.first for o in tails if o.a.ndim} or {False}
    rev = {o.rev for o in tails}
    if len(first) > 1 or len(rev) > 1:
        raise Unsupported("operands with different axis layouts")
    first, rev = first.pop(), rev.pop()
    r = tail_rank(t)
    leads = []
    for o in ops:
        a = o.a
        if o.tail is None and a.ndim:
            if isinstance(r, int) and not first and a.ndim >= r and all(s == 1 for s in a.shape[a.ndim - r:]):
                a = a.reshape(a.shape[: a.ndim - r])
            elif first:
                pass  # aligned with the leading axes at the end: checked below
            elif a.size == 1 and a.ndim == 1:
                a = a.reshape(())
            elif a.size == 1:
                raise Unsupported("singleton array without trailing axes")
            else:
                raise ShapeError(f"operands could not be broadcast together with shapes {[x.shape for x in ops]}")
        leads.append(a)
    if first:
        nd = {a.ndim for o, a in zip(ops, leads) if o.tail is not None}
        if len(nd) > 1:
            raise ShapeError("operands could not be broadcast together (leading symbolic axes)")
        m = nd.pop()
        if any(a.ndim > m for a in leads):
            raise Unsupported("operand with more axes than the symbolic one")
    return t, first, rev, leads


def binary(f, x, y):
    t, first, rev, (a, b) = layout([x, y])
    try:
        r = elementwise(f, a, b)
    except ValueError as e:
        raise ShapeError(str(e))
    return wrap(r, t, first, rev)


def unary(f, x):
    x = Arr.of(x)
    return wrap(elementwise(f, x.a), x.tail, x.first, x.rev)


def at_point(b):
    """decide a condition at the generic material point"""
    if isinstance(b, B):
        if Oracle.current is None:
            raise Unsupported("pointwise condition outside of an exploration")
        return Oracle.current.decide_point(b)
    return bool(b)


class Sel:
    """x[mask]: the selected material points.  The mask is decided at the generic point (path split); `on` tells whether the
    generic point is selected."""
    _hvc_foreign = True
    __array_ufunc__ = None

    def __init__(self, val, mask, on):
        self.val, self.mask, self.on = val, mask, on

    @staticmethod
    def key(m):
        return (tuple(m.a.reshape(-1).tolist()), m.a.shape, m.tail)

    @staticmethod
    def check(self, n, mask):
        if mask.a.ndim:
            raise Unsupported("mask with leading axes")
        if (mask.tail is None) != (self.tail is None) or mask.first or self.first:
            raise Unsupported("mask layout")
        if mask.tail != self.tail:
            if not subset(mask.tail, self.tail):
                raise ShapeError("boolean index did not match indexed array")
            raise Unsupported("mask with a different trailing shape")

    @staticmethod
    def take(self, out, n, mask):
        Sel.check(self, n, mask)
        base = self[tuple(out)] if out else self
        base = Arr.of(base)
        if base.a.ndim and n < self.a.ndim:
            if n != 0 or out:
                pass
            raise ShapeError("too many indices / boolean index did not match")
        on = at_point(mask.a[()])
        return Sel(base.copy(), Sel.key(mask), on)

    @staticmethod
    def put(self, out, n, mask, val):
        Sel.check(self, n, mask)
        if n < self.a.ndim and not (len(out) == 1 and out[0] == slice(None)):
            if self.a.ndim - n > 0:
                raise ShapeError("boolean index did not match indexed array")
        on = at_point(mask.a[()])
        if isinstance(val, Sel):
            if val.mask != Sel.key(mask):
                raise Unsupported("different masks")
            v = val.val
        else:
            v = Arr.of(val)
            if v.tail is not None:
                raise ShapeError("unmasked values assigned to a masked target")
        if on:
            self[tuple(out) if out else Ellipsis] = v

    def _bin(self, o, f, refl=False):
        if isinstance(o, Sel):
            if o.mask != self.mask:
                raise Unsupported("operands with different masks")
            v = o.val
        else:
            v = Arr.of(o)
            if v.tail is not None or v.a.ndim:
                raise ShapeError("masked and unmasked operand")
        if not self.on:
            return self
        r = binary(f, v, self.val) if refl else binary(f, self.val, v)
        return Sel(Arr.of(r), self.mask, self.on)

    def __add__(self, o): return self._bin(o, add)
    def __radd__(self, o): return self._bin(o, add, True)
    def __sub__(self, o): return self._bin(o, sub)
    def __rsub__(self, o): return self._bin(o, sub, True)
    def __mul__(self, o): return self._bin(o, mul)
    def __rmul__(self, o): return self._bin(o, mul, True)
    def __truediv__(self, o): return self._bin(o, div)
    def __rtruediv__(self, o): return self._bin(o, div, True)
    def __pow__(self, o): return self._bin(o, power)
    def __neg__(self): return self._bin(const(-1), mul)

    @property
    def size(self):
        raise Unsupported("size of a masked selection")

    def __getattr__(self, n):
        raise Unsupported("attribute %s of a masked selection" % n)


# ------------------------------------------------------------------ functions
def has_sym(x):
    if isinstance(x, (T, Arr, B, TailMark, SymRank, Shape, Sel, RankOnes)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    if isinstance(x, Arr):
        check_dtype(dtype)
        return x.copy() if copy else x
    if isinstance(x, (T, B)):
        check_dtype(dtype)
        return Arr.of(x)
    if isinstance(x, rnp.ndarray):
        if x.dtype.kind in "iub" and (dtype is None or not is_float_dtype(dtype)):
            return rnp.array(x, dtype=dtype).view(IArr)
        check_dtype(dtype)
        return Arr(obj(x))
    if isinstance(x, (list, tuple)) or hasattr(x, "__iter__") and not isinstance(x, (str, dict)):
        x = list(x)
        if not _deep(x):
            a = rnp.array(x, dtype=dtype)
            if a.dtype.kind in "iub":
                return a.view(IArr)
            check_dtype(a.dtype)
            return Arr(obj(a))
        check_dtype(dtype)
        parts = [Arr.of(array(y) if isinstance(y, (list, tuple)) else y) for y in x]
        return stack(parts, 0)
    if isinstance(x, (int, bool, rnp.integer)) and (dtype is None or not is_float_dtype(dtype)):
        return rnp.array(x, dtype=dtype)
    check_dtype(dtype)
    return Arr.of(x)


def _deep(x):
    if isinstance(x, (T, Arr, B)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_deep(y) for y in x)
    if isinstance(x, (Sel,)):
        raise Unsupported("array of masked selections")
    return False


class IArr(rnp.ndarray):
    """concrete integer array (index tables)"""

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if any(isinstance(x, TailMark) for x in shape):
            return Arr(obj(rnp.asarray(self))).reshape(*shape)
        return rnp.ndarray.reshape(self, *shape)

    def astype(self, dtype, **kw):
        if is_float_dtype(dtype):
            return Arr(obj(rnp.asarray(self)))
        return rnp.asarray(self).astype(dtype, **kw).view(IArr)

    def __truediv__(self, o):
        if isinstance(o, (Arr, T)):
            return NotImplemented
        return Arr(obj(rnp.asarray(self))) / o

    def __pow__(self, o):
        if isinstance(o, (Arr, T)):
            return NotImplemented
        if isinstance(o, float):
            return Arr(obj(rnp.asarray(self))) ** o
        return rnp.ndarray.__pow__(self, o)

    def __mul__(self, o):
        if isinstance(o, (Arr, T)):
            return NotImplemented
        if isinstance(o, float):
            return Arr(obj(rnp.asarray(self))) * o
        return rnp.ndarray.__mul__(self, o)

    def __rmul__(self, o):
        if isinstance(o, float):
            return Arr(obj(rnp.asarray(self))) * o
        return rnp.ndarray.__rmul__(self, o)


def stack(parts, axis=0):
    parts = [Arr.of(p) for p in parts]
    shapes = {p.a.shape for p in parts}
    if len(shapes) > 1:
        raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
    tails = {p.tail for p in parts}
    if len(tails) > 1:
        raise ShapeError("all input arrays must have the same shape (inhomogeneous trailing axes)")
    if len({p.first for p in parts}) > 1 or len({p.rev for p in parts}) > 1:
        raise Unsupported("stack of mixed layouts")
    p = parts[0]
    first = p.first
    if p.tail is not None and not p.a.ndim:
        first = axis < 0
    if axis < 0:
        if p.tail is not None and not first:
            raise Unsupported("stack along a trailing axis")
        axis += p.a.ndim + 1
    elif first:
        raise Unsupported("stack before the symbolic axes")
    if axis > p.a.ndim:
        raise Unsupported("stack axis")
    out = rnp.empty((len(parts),) + p.a.shape, dtype=object)
    for i, q in enumerate(parts):
        out[i] = q.a if q.a.ndim else q.a[()]
    return Arr(rnp.moveaxis(out, 0, axis), p.tail, first, p.rev)


class Select:
    """an index which selects some of the points of a rank-1 batch (a slice, a mask or an index array)"""

    def __init__(self, name, view=False):
        self.name, self.view = name, view

    def __repr__(self):
        return f"Select({self.name})"


class Cat:
    """concatenation of values at the points of several rank-1 batches; of: group of a sequence of unknown length (one generic block)"""
    __array_ufunc__ = None
    _hvc_foreign = True

    def __init__(self, blocks, of=None):
        self.blocks, self.of = blocks, of

    def _blocks(self, o):
        if isinstance(o, Cat):
            if o.of is not self.of or [b.tail for b in o.blocks] != [b.tail for b in self.blocks]:
                raise Unsupported("concatenations of different batches")
            return o.blocks
        if isinstance(o, (T, int, float, rnp.floating, rnp.integer)) or isinstance(o, Arr) and o.a.ndim == 0 and o.tail is None:
            return [o] * len(self.blocks)
        raise Unsupported("concatenated batches and " + type(o).__name__)

    def _bin(self, o, f, refl=False):
        return Cat([Arr.of(binary(f, y, x) if refl else binary(f, x, y)) for x, y in zip(self.blocks, [Arr.of(b) for b in self._blocks(o)])], self.of)

    def __add__(self, o): return self._bin(o, add)
    def __radd__(self, o): return self._bin(o, add, True)
    def __sub__(self, o): return self._bin(o, sub)
    def __rsub__(self, o): return self._bin(o, sub, True)
    def __mul__(self, o): return self._bin(o, mul)
    def __rmul__(self, o): return self._bin(o, mul, True)
    def __truediv__(self, o): return self._bin(o, div)
    def __rtruediv__(self, o): return self._bin(o, div, True)
    def __pow__(self, o): return self._bin(o, power)
    def __neg__(self): return self._bin(const(-1), mul)

    def _store(self, o):
        new = [Arr.of(b) for b in self._blocks(o)]
        for x, y in zip(self.blocks, new):
            x.a[...] = y.a

    def _inplace(self, r):
        self._store(r)
        return self

    def __isub__(self, o): return self._inplace(self - o)
    def __iadd__(self, o): return self._inplace(self + o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)

    def __setitem__(self, idx, val):
        if idx is not Ellipsis and not (isinstance(idx, slice) and idx == slice(None)):
            raise Unsupported("index into concatenated batches")
        self._store(val)

    def __getitem__(self, idx):
        if idx is Ellipsis or isinstance(idx, slice) and idx == slice(None):
            return Cat(self.blocks, self.of)
        raise Unsupported("index into concatenated batches")

    def copy(self):
        return Cat([b.copy() for b in self.blocks], self.of)

    def sum(self, axis=None, **kw):
        if kw or axis not in (None, 0, -1):
            raise Unsupported("sum over concatenated batches with options")
        return Arr.of(points_sum([b.a[()] for b in self.blocks], [b.tail for b in self.blocks], self.of is not None))

    def __matmul__(self, o):
        return (self * o).sum()

    def dot(self, o):
        return (self * o).sum()

    __array_priority__ = 1000

    def __len__(self):
        raise Unsupported("number of points")

    def __getattr__(self, n):
        raise Unsupported(f"attribute {n} of concatenated batches")


def points_sum(terms, tails, generic):
    """sum over all points of the blocks (an uninterpreted sum of each block; of the blocks of all objects if generic)"""
    def one(name, x):
        # a sum of squares is the square of an uninterpreted norm
        if x.op == "*" and len(x.args) == 1 and x.args[0][1] == 2:
            return power(fun("NORM:" + name, (0,), [x.args[0][0]]), const(2))
        return fun("SUM:" + name, (0,), [x])
    out = add(*[one(",".join(sorted(t)), x) for x, t in zip(terms, tails)])
    return one("objects", out) if generic else out


def concatenate(parts, axis=0, **kw):
    g = getattr(parts, "_hvc_generic", None)
    if g is not None:
        x = Arr.of(g())
        if axis not in (0, -1) or x.a.ndim or x.tail is None:
            raise Unsupported("concatenate")
        return Cat([x.copy()], parts.group)
    parts = [Arr.of(p) for p in parts]
    if parts and all(p.a.ndim == 0 and p.tail for p in parts) and axis in (0, -1):
        return Cat([p.copy() for p in parts])
    t = {p.tail for p in parts}
    if len(t) > 1 or len({p.first for p in parts}) > 1:
        raise Unsupported("concatenate along/with different trailing shapes")
    p = parts[0]
    if p.first or (p.tail is not None and (axis is None or axis < 0 or axis >= p.a.ndim)):
        raise Unsupported("concatenate along a symbolic axis")
    return Arr(rnp.concatenate([q.a for q in parts], axis=axis), p.tail, p.first, p.rev)


def reshape(x, shape):
    x = Arr.of(x)
    if isinstance(shape, (int, TailMark)):
        shape = (shape,)
    shape = tuple(shape)
    marks = [i for i, s in enumerate(shape) if isinstance(s, TailMark)]
    if x.tail is None:
        if not marks:
            return Arr(x.a.reshape(tuple(int(s) for s in shape)))
        if len(marks) == 1 and marks[0] == len(shape) - 1:
            if shape[-1].tail:
                raise ShapeError(f"cannot reshape array of shape {x.shape} into shape {shape}")
            return Arr(x.a.reshape(tuple(int(s) for s in shape[:-1])), frozenset())
        raise Unsupported("reshape")
    if x.first:
        raise Unsupported("reshape with leading symbolic axes")
    if marks:
        if len(marks) > 1 or marks[0] != len(shape) - 1:
            raise Unsupported("reshape")
        m = shape[-1].tail
        if m != x.tail:
            u = unflat(x.tail)
            if u is not None and u[1] == m:
                return Arr(x.a.reshape(shape[:-1]), m)
            raise ShapeError(f"cannot reshape array of shape {x.shape} into shape {shape}")
        if x.tail and any(isinstance(s, int) and s == -1 for s in shape[:-1]):
            raise ShapeError("cannot infer the axis -1 of a batch without points")
        return Arr(x.a.reshape(tuple(int(s) for s in shape[:-1])), x.tail, ro=x.ro)
    # no mark: trailing axes are dropped (all ones) or flattened into the last -1
    if not x.tail:
        r = tail_rank(x.tail)
        return Arr(x.a.reshape(tuple(int(s) for s in shape)))
    if shape and isinstance(shape[-1], int) and shape[-1] == -1 and not any(s == -1 for s in shape[:-1]):
        n = int(rnp.prod(x.a.shape, dtype=int))
        lead = list(shape[:-1])
        k = 0
        while lead and int(rnp.prod(lead, dtype=int)) == n and lead[-1] == 1 and len(lead) > 1 and int(rnp.prod(lead[:-1], dtype=int)) == n:
            lead.pop()
            k += 1
        if int(rnp.prod(lead, dtype=int)) == n:
            return Arr(x.a.reshape(tuple(lead)), flat(x.tail, k))
    raise Unsupported("reshape of the symbolic axes")


def flat(tail, ones):
    u = unflat(tail)
    if u is not None:
        tail = u[1]
    base = "|".join(sorted(tail))
    if ones == 0 and len(tail) == 1 and Shapes.rank.get(next(iter(tail))) == 1:
        return tail
    name = f"flat{ones}({base})"
    Shapes.rank[name] = ones + 1
    FLAT[name] = (ones, tail)
    return frozenset([name])


FLAT = {}


def unflat(tail):
    if len(tail) == 1:
        return FLAT.get(next(iter(tail)))
    return None


def _axis(x, axis, extra=0):
    """non-negative axis among the leading axes"""
    axis = int(axis)
    n = x.a.ndim + extra
    if x.tail is None:
        if axis < 0:
            axis += n
        if not 0 <= axis < n:
            raise IndexError(f"axis {axis} is out of bounds")
        return axis
    if x.first:
        if axis < 0 and -axis <= n:
            return axis + n
        raise Unsupported("axis of the symbolic part")
    if 0 <= axis < n:
        return axis
    raise Unsupported("axis of the symbolic part")


def reduce(x, axis, f, keepdims=False):
    x = Arr.of(x)
    if axis is None:
        if x.tail is not None:
            raise Unsupported("reduction over the material points")
        axes = tuple(range(x.a.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(_axis(x, a) for a in axis)
    else:
        axes = (_axis(x, axis),)
    a = x.a
    rest = [i for i in range(a.ndim) if i not in axes]
    b = a.transpose(rest + list(axes)).reshape([a.shape[i] for i in rest] + [-1])
    out = rnp.empty(b.shape[:-1], dtype=object)
    for i in rnp.ndindex(*out.shape):
        e = b[i]
        out[i] = f(*[coerce(v) for v in e]) if len(e) else (ZERO if f is add else ONE)
    if keepdims:
        out = out.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
    return wrap(out, x.tail, x.first, x.rev)


def mean(x, axis=None, keepdims=False):
    x = Arr.of(x)
    if axis is None and x.tail is not None:
        raise Unsupported("mean over the material points")
    ax = range(x.a.ndim) if axis is None else ([axis] if isinstance(axis, int) else axis)
    n = 1
    for a in ax:
        n *= x.a.shape[_axis(x, a)]
    return reduce(x, axis, add, keepdims) / n


def anyall(kind, x, axis=None):
    if isinstance(x, (B, bool, rnp.bool_)):
        return x
    if isinstance(x, T):
        return x != 0
    x = Arr.of(x)
    a = x.a
    if a.size and not isinstance(a.flat[0], (B, bool, rnp.bool_)):
        a = elementwise(lambda t: compare("!=", t, ZERO), a)
    if axis is not None:
        y = Arr(a, x.tail, x.first, x.rev)
        return reduce(y, axis, (lambda *z: band(*z)) if kind == "all" else (lambda *z: bor(*z))) if False else _redb(kind, y, axis)
    vals = a.reshape(-1).tolist()
    b = band(*vals) if kind == "all" else bor(*vals)
    if x.tail is not None:
        b = quant(kind, b)
    return b


def _redb(kind, y, axis):
    ax = _axis(y, axis)
    b = rnp.moveaxis(y.a, ax, -1)
    out = rnp.empty(b.shape[:-1], dtype=object)
    for i in rnp.ndindex(*out.shape):
        out[i] = band(*b[i].tolist()) if kind == "all" else bor(*b[i].tolist())
    return wrap(out, y.tail, y.first, y.rev)


def extremum(kind, x, axis=None):
    x = Arr.of(x)
    if axis is None:
        if x.tail is not None:
            raise Unsupported("extremum over the material points")
        vals = x.a.reshape(-1).tolist()
        r = vals[0]
        for v in vals[1:]:
            r = ite(compare(">=" if kind == "max" else "<=", r, v), r, v)
        return r
    return reduce(x, axis, lambda *v: _ext(kind, v))


def _ext(kind, v):
    r = v[0]
    for y in v[1:]:
        r = ite(compare(">=" if kind == "max" else "<=", r, y), r, y)
    return r


def swapaxes(x, i, j):
    x = Arr.of(x)
    return x.like(x.a.swapaxes(_axis(x, i), _axis(x, j)), x.ro)


def moveaxis(x, s, d):
    x = Arr.of(x)
    if x.tail is None:
        return Arr(rnp.moveaxis(x.a, s, d))
    s_ = [s] if isinstance(s, int) else list(s)
    d_ = [d] if isinstance(d, int) else list(d)
    n = x.a.ndim
    if not x.first and sorted(s_) == list(range(n)) and sorted(d_) == list(range(-n, 0)):
        perm = [None] * n
        for a, b in zip(s_, d_):
            perm[b + n] = a
        return Arr(x.a.transpose(perm), x.tail, True, x.rev, x.ro)
    if x.first and sorted(d_) == list(range(n)) and sorted(s_) == list(range(-n, 0)):
        perm = [None] * n
        for a, b in zip(s_, d_):
            perm[b] = a + n
        return Arr(x.a.transpose(perm), x.tail, False, x.rev, x.ro)
    return x.like(rnp.moveaxis(x.a, [_axis(x, a) for a in s_], [_axis(x, a) for a in d_]), x.ro)


def transpose(x, axes=None):
    x = Arr.of(x)
    if axes is None:
        return x.T
    if x.tail is None:
        return Arr(x.a.transpose(axes))
    raise Unsupported("transpose with explicit axes")


def trace(x, offset=0, axis1=0, axis2=1):
    x = Arr.of(x)
    if offset:
        raise Unsupported("trace offset")
    i, j = _axis(x, axis1), _axis(x, axis2)
    b = rnp.moveaxis(x.a, [i, j], [0, 1])
    out = rnp.empty(b.shape[2:], dtype=object)
    for k in rnp.ndindex(*out.shape):
        out[k] = add(*[b[(m, m) + k] for m in range(min(b.shape[:2]))])
    return wrap(out, x.tail, x.first, x.rev)


def expand_dims(x, axis):
    x = Arr.of(x)
    if isinstance(axis, (tuple, list)):
        for a in sorted(axis):
            x = expand_dims(x, a)
        return x
    return x.like(rnp.expand_dims(x.a, _axis(x, axis, 1)), x.ro)


def broadcast_shapes(*shapes):
    ps = [parse_shape(s) for s in shapes]
    tails = [t for _, t in ps if t is not None]
    if not tails:
        return Shape(rnp.broadcast_shapes(*[l for l, _ in ps]))
    t = union(*tails)
    r = tail_rank(t)
    leads = []
    for l, tt in ps:
        if tt is None and l:
            if isinstance(r, int) and len(l) >= r and all(s == 1 for s in l[len(l) - r:]):
                l = l[: len(l) - r]
            elif l == (1,):
                l = ()
            elif not all(s == 1 for s in l):
                raise ShapeError(f"shape mismatch: objects cannot be broadcast to a single shape {shapes}")
            else:
                raise Unsupported("broadcast of singleton shapes")
        leads.append(l)
    try:
        lead = rnp.broadcast_shapes(*leads)
    except ValueError as e:
        raise ShapeError(str(e))
    return Shape(tuple(lead) + (TailMark(t),))


def broadcast_to(x, shape, subok=False):
    x = Arr.of(x)
    lead, tail = parse_shape(shape)
    if x.first:
        raise Unsupported("broadcast_to")
    if tail is None:
        if x.tail is not None:
            raise ShapeError("broadcast_to fewer axes")
        return Arr(rnp.broadcast_to(x.a, lead), ro=True)
    if x.tail is not None and not subset(x.tail, tail):
        raise ShapeError(f"operands could not be broadcast together with remapped shapes {x.shape} -> {shape}")
    a = x.a
    if x.tail is None and a.ndim:
        if a.size != 1:
            raise ShapeError(f"operands could not be broadcast together with remapped shapes {x.shape} -> {shape}")
        a = a.reshape(())
    try:
        a = rnp.broadcast_to(a, lead)
    except ValueError as e:
        raise ShapeError(str(e))
    return Arr(a, tail, ro=True)


def broadcast_arrays(*xs, subok=False):
    ys = [x if isinstance(x, Arr) else Arr.of(x) for x in xs]
    s = broadcast_shapes(*[y.shape for y in ys])
    if all(tuple(y.shape) == tuple(s) for y in ys):
        return tuple(ys)
    return tuple(broadcast_to(y, s) for y in ys)


def zeros(shape, dtype=None, order="C", fill=ZERO, **kw):
    if isinstance(shape, SymRank):
        if fill is ONE and shape.off == 0 and dtype is not None and rnp.dtype(dtype).kind in "iu":
            return RankOnes()
        raise Unsupported("array with a symbolic number of entries")
    lead, tail = parse_shape(shape)
    if dtype is not None and tail is None and rnp.dtype(dtype).kind in "iub":
        return rnp.full(lead, int(fill.args[0]), dtype=dtype).view(IArr)
    check_dtype(dtype)
    a = rnp.empty(lead, dtype=object)
    a[...] = fill
    return Arr(a, tail)


_fresh = [0]


def empty(shape, dtype=None, **kw):
    z = zeros(shape, dtype)
    if isinstance(z, Arr):
        for i in rnp.ndindex(*z.a.shape):
            _fresh[0] += 1
            z.a[i] = var(f"uninit#{_fresh[0]}")
    return z


def zeros_like(x, dtype=None, fill=ZERO, shape=None, **kw):
    if shape is not None:
        return zeros(shape, dtype, fill=fill)
    if isinstance(x, rnp.ndarray) and x.dtype.kind in "iub" and dtype is None:
        return rnp.full(x.shape, int(fill.args[0]), dtype=x.dtype).view(IArr)
    check_dtype(dtype)
    if isinstance(x, (int, bool)) and dtype is None:
        return rnp.full((), int(fill.args[0]))
    x = Arr.of(x)
    a = rnp.empty(x.a.shape, dtype=object)
    a[...] = fill
    return Arr(a, x.tail, x.first, x.rev)


def empty_like(x, dtype=None, **kw):
    z = zeros_like(x, dtype)
    if isinstance(z, Arr):
        for i in rnp.ndindex(*z.a.shape):
            _fresh[0] += 1
            z.a[i] = var(f"uninit#{_fresh[0]}")
    return z


def store(out, r, op="ufunc"):
    """write a result into an out= array"""
    if out is None:
        return r
    if isinstance(out, tuple):
        out, = out
        if out is None:
            return r
    if not isinstance(out, Arr):
        raise TypeError("return arrays must be of ArrayType")
    if out.ro or not out.a.flags.writeable:
        raise ValueError("output array is read-only")
    r = Arr.of(r)
    r = out._align(r)
    if (r.tail is None) != (out.tail is None) and not (r.tail is None and r.a.ndim == 0):
        if r.tail is not None and out.tail is None:
            raise ShapeError(f"non-broadcastable output operand with shape {out.shape} doesn't match the broadcast shape {r.shape}")
        raise ShapeError("output operand")
    if r.tail is not None and (r.first != out.first or r.rev != out.rev):
        raise Unsupported("out= with a different layout")
    if not (r.tail is None) and not subset(r.tail, out.tail):
        raise ShapeError(f"non-broadcastable output operand with shape {out.shape} doesn't match the broadcast shape {r.shape}")
    try:
        b = rnp.broadcast_to(r.a, out.a.shape)
    except ValueError:
        raise ShapeError(f"non-broadcastable output operand with shape {out.shape} doesn't match the broadcast shape {r.shape}")
    if op == "einsum" and r.a.shape != out.a.shape:
        raise ShapeError("einsum output operand shape")
    out.a[...] = b.copy()
    return out


def einsum(subs, *ops, out=None, optimize=None, dtype=None, order="K", casting="safe", idx=None, pool=None):
    if not isinstance(subs, str):
        raise Unsupported("einsum sublist format")
    check_dtype(dtype)
    ops = [Arr.of(o) for o in ops]
    subs = subs.replace(" ", "")
    if "->" in subs:
        ins, outs = subs.split("->")
    else:
        ins, outs = subs, None
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise ValueError("einsum: more operands provided than specified in the subscripts string")
    if outs is None:
        letters = "".join(ins).replace(".", "")
        outs = ("..." if any("..." in s for s in ins) else "") + "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    # ellipsis position and extra leading axes
    specs = []
    tails = [o for o in ops if o.tail is not None]
    t = union(*[o.tail for o in tails]) if tails else None
    rev = {o.rev for o in tails if o.tail}
    if len(rev) > 1:
        raise Unsupported("einsum with mixed layouts")
    rev = rev.pop() if rev else (tails[0].rev if tails else False)
    nell = 0
    for s, o in zip(ins, ops):
        if "..." in s:
            pre, post = s.split("...")
            k = o.a.ndim - len(pre) - len(post)
            if o.tail is not None:
                if pre and post:
                    raise Unsupported("einsum ellipsis between letters")
                if (pre and o.first) or (post and not o.first):
                    raise Unsupported("einsum ellipsis does not match the axis layout")
            if k < 0:
                raise ValueError("einstein sum subscripts string contains too many subscripts for operand")
            if k and o.first:
                raise Unsupported("einsum broadcast")
            nell = max(nell, k)
            specs.append((pre, k, post))
        else:
            if o.tail is not None:
                raise ShapeError("einsum: operand has more dimensions than subscripts given")
            if o.a.ndim != len(s):
                raise ValueError("einsum: operand has %d dimensions, subscripts %s" % (o.a.ndim, s))
            specs.append((s, 0, ""))
    if "..." not in outs and t is not None:
        raise ShapeError("einsum: output has no ellipsis but the operands have broadcast dimensions")
    if "..." not in outs and nell:
        raise ValueError("output subscripts must contain ellipsis")
    E = [chr(0x100 + i) for i in range(nell)]  # right-aligned names for extra axes
    names = []
    size = {}
    for (pre, k, post), o in zip(specs, ops):
        if t is not None and o.tail is None and k and not (o.a.size == 1):
            r = tail_rank(t)
            raise ShapeError("einsum: operand without trailing axes has broadcast dimensions")
        n = list(pre) + E[nell - k:] + list(post)
        names.append(n)
        for c, d in zip(n, o.a.shape):
            if c in size and size[c] != d:
                if c in E and (d == 1 or size[c] == 1):
                    size[c] = max(size[c], d)
                elif d == 1 or size[c] == 1:
                    size[c] = max(size[c], d)
                else:
                    raise ValueError(f"einsum: operands could not be broadcast together, subscript {c}")
            else:
                size[c] = d
    first = False
    if "..." in outs:
        pre, post = outs.split("...")
        on = list(pre) + E + list(post)
        if t is not None:
            if pre and post:
                raise Unsupported("einsum output ellipsis between letters")
            first = bool(post) or not (pre or post) and bool(tails and tails[0].first)
            if not (pre or post):
                first = False
    else:
        on = list(outs)
    sn = [c for c in size if c not in on]
    oshape = [size[c] for c in on]
    res = rnp.empty(oshape, dtype=object)
    # order the summation: iterate over all letters
    srange = list(itertools.product(*[range(size[c]) for c in sn]))
    plans = []
    for n, o in zip(names, ops):
        plans.append((o.a, [(c, o.a.shape[k] == 1 and size[c] != 1) for k, c in enumerate(n)]))
    pos = {c: i for i, c in enumerate(on)}
    spos = {c: i for i, c in enumerate(sn)}
    for oi in rnp.ndindex(*oshape):
        terms = []
        for si in srange:
            fs = []
            zero = False
            for a, pl in plans:
                v = a[tuple(0 if one else (oi[pos[c]] if c in pos else si[spos[c]]) for c, one in pl)]
                if v is ZERO:
                    zero = True
                    break
                fs.append(v if isinstance(v, T) else coerce(v))
            if not zero:
                terms.append(mul(*fs))
        res[oi] = add(*terms) if terms else ZERO
    r = wrap(res, t, first, rev)
    if isinstance(r, Arr) and not on and t is not None:
        r.first = False
    return store(out, r, "einsum")


def matmul(x, y, out=None):
    x, y = Arr.of(x), Arr.of(y)
    for o in (x, y):
        if o.tail is not None and not o.first:
            raise Unsupported("matmul over symbolic axes")
    if x.tail is None and y.tail is None:
        a, b = x.a, y.a
        if a.ndim == 2 and b.ndim == 2:
            return store(out, einsum("ij,jk->ik", x, y))
        if a.ndim == 2 and b.ndim == 1:
            return store(out, einsum("ij,j->i", x, y))
        if a.ndim == 1 and b.ndim == 2:
            return store(out, einsum("i,ij->j", x, y))
        if a.ndim == 1 and b.ndim == 1:
            return store(out, einsum("i,i->", x, y))
        if a.ndim > 2 or b.ndim > 2:
            return store(out, einsum("...ij,...jk->...ik", x, y))
    if x.a.ndim == 2 and y.a.ndim == 2:
        return store(out, einsum("...ij,...jk->...ik", x, y))
    raise Unsupported("matmul")


def dot(x, y, out=None):
    x, y = Arr.of(x), Arr.of(y)
    if x.tail is None and y.tail is None and x.a.ndim <= 2 and y.a.ndim <= 2:
        if x.a.ndim == 0 or y.a.ndim == 0:
            return binary(mul, x, y)
        return matmul(x, y)
    if x.tail is None and x.a.ndim == 0 or y.tail is None and y.a.ndim == 0:
        return binary(mul, x, y)
    raise Unsupported("dot")


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    rtol, atol = coerce(rtol), coerce(atol)

    def f(x, y):
        return compare("<=", ufun("abs", sub(x, y)), add(atol, mul(rtol, ufun("abs", y))))
    return binary(f, Arr.of(a), Arr.of(b))


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if isinstance(a, (tuple, list, Shape)) and any(isinstance(x, TailMark) for x in tuple(a) + tuple(b)):
        return shapes_equal(a, b)
    if not has_sym(a) and not has_sym(b):
        return bool(rnp.allclose(rnp.asarray(a), rnp.asarray(b), rtol, atol))
    return anyall("all", isclose(a, b, rtol, atol))


def shapes_equal(a, b):
    if len(a) != len(b):
        ma = [x for x in a if isinstance(x, TailMark)]
        mb = [x for x in b if isinstance(x, TailMark)]
        if bool(ma) != bool(mb):
            raise Unsupported("comparison of shapes with different ranks")
        raise ShapeError("operands could not be broadcast together (shapes of different rank compared)")
    return all((x == y) for x, y in zip(a, b))


def array_equal(a, b, equal_nan=False):
    if isinstance(a, (tuple, list, Shape)) and any(isinstance(x, TailMark) for x in tuple(a)):
        return tuple(a) == tuple(b)
    if not has_sym(a) and not has_sym(b):
        return bool(rnp.array_equal(rnp.asarray(a), rnp.asarray(b)))
    a, b = Arr.of(a), Arr.of(b)
    if a.a.shape != b.a.shape or a.tail != b.tail or a.first != b.first:
        return False
    return anyall("all", binary(lambda x, y: compare("==", x, y), a, b))


def where(c, x=None, y=None):
    if x is None:
        raise Unsupported("where with one argument")
    if not has_sym(c):
        c = rnp.asarray(c)
    c = Arr.of(c)
    x, y = Arr.of(x), Arr.of(y)
    t, first, rev, (ca, xa, ya) = layout([c, x, y])

    def f(b, u, v):
        if isinstance(b, T):
            b = compare("!=", b, ZERO)
        if u is v:
            return u
        return u if at_point(b) else v
    return wrap(elementwise(f, ca, xa, ya), t, first, rev)
