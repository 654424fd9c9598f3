"""Assumed contract of torch tensors and torch.autograd (reverse mode), over symbolic arrays.

Modelled: element-wise operations on tensors of one common shape, sums, `requires_grad`, leaf tensors, the grad mode,
`torch.autograd.grad` with create_graph / retain_graph / allow_unused / grad_outputs, tensors saved for backward which
are released unless the graph is retained, and the errors torch raises.  Floating-point precision is not modelled."""
import types
from fractions import Fraction
import numpy as rnp
from .term import T, ONE, ZERO, Unsupported, coerce
from . import arr as A
from .arr import Arr


class Mode:
    grad = True


class _Grad:
    def __init__(self, on):
        self.on = on

    def __enter__(self):
        self.old, Mode.grad = Mode.grad, self.on
        return self

    def __exit__(self, *a):
        Mode.grad = self.old
        return False

    def __call__(self, f):
        def g(*a, **k):
            with _Grad(self.on):
                return f(*a, **k)
        return g


class Fn:
    """a node of the graph: parents, the vector-Jacobian product of each parent, saved tensors"""

    def __init__(self, parents, vjps, saves):
        self.parents, self.vjps, self.saves, self.freed = parents, vjps, saves, False


def _filled(like, c):
    return A.zeros_like(like, fill=c)


def _samelayout(x, y):
    return x.a.shape == y.a.shape and x.tail == y.tail and x.first == y.first and x.rev == y.rev


class Tensor:
    __array_ufunc__ = None

    def __init__(self, arr, fn=None, req=False, scalar=False, cells=None):
        self.arr, self.fn, self.req, self.scalar = None if arr is None else Arr.of(arr), fn, req, scalar
        self.grad = None

    # ---- attributes
    @property
    def requires_grad(self):
        return self.req

    @requires_grad.setter
    def requires_grad(self, on):
        self.requires_grad_(on)

    def requires_grad_(self, requires_grad=True):
        if self.fn is not None and not requires_grad:
            raise RuntimeError("you can only change requires_grad flags of leaf variables.")
        self.req = bool(requires_grad) or self.req and self.fn is not None
        return self

    @property
    def is_leaf(self):
        return self.fn is None

    @property
    def grad_fn(self):
        return self.fn

    @property
    def shape(self):
        return () if self.scalar else self._a().shape

    def size(self, *a):
        s = self.shape
        return s[a[0]] if a else s

    @property
    def ndim(self):
        return 0 if self.scalar else self._a().ndim

    def dim(self):
        return self.ndim

    @property
    def dtype(self):
        return float64

    @property
    def device(self):
        return "cpu"

    @property
    def data(self):
        return self.detach()

    def _a(self):
        if self.arr is None:
            raise Unsupported("value of a sum over the batch")
        return self.arr

    # ---- conversions
    def detach(self):
        return Tensor(self.arr, None, False, self.scalar)

    def numpy(self, *, force=False):
        if self.req and not force:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        return self._a()

    def __array__(self, *a, **k):
        raise Unsupported("numpy conversion of a tensor")

    def cpu(self):
        return self

    def to(self, *a, **k):
        return self

    double = float = contiguous = cpu

    def resolve_conj(self):
        return self

    def clone(self):
        return op(lambda x: x.copy(), [self], [lambda g: g], False)

    # ---- arithmetic
    def __add__(self, o):
        return add(self, o)

    __radd__ = __add__

    def __neg__(self):
        return op(lambda x: -x, [self], [lambda g: -g], False)

    def __sub__(self, o):
        return add(self, -lift(o))

    def __rsub__(self, o):
        return add(lift(o), -self)

    def __mul__(self, o):
        o = lift(o)
        return op(lambda x, y: x * y, [self, o], [lambda g: g * o, lambda g: g * self], True)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        return op(lambda x, y: x / y, [self, o], [lambda g: g / o, lambda g: -g * self / (o * o)], True)

    def __rtruediv__(self, o):
        return lift(o) / self

    def __pow__(self, n):
        if isinstance(n, Tensor):
            raise Unsupported("tensor exponent")
        if n == 0:
            return op(lambda x: _filled(x, ONE), [self], [lambda g: g * 0], True)
        return op(lambda x: x ** n, [self], [lambda g: g * (n * self ** (n - 1))], True)

    def pow(self, n):
        return self ** n

    def sum(self, *a, **k):
        if a or k:
            raise Unsupported("sum along an axis")
        if self.scalar:
            return self
        x = self._a()
        v = x if x.a.ndim == 0 and x.tail is None else None
        return node(v, [self], [lambda g: expand(g, self)], False, True)

    def backward(self, *a, **k):
        raise Unsupported("backward")

    def __bool__(self):
        raise Unsupported("truth value of a tensor")

    def __iter__(self):
        raise Unsupported("iteration over a tensor")

    def __len__(self):
        return A.slen(self._a())


def lift(x):
    if isinstance(x, Tensor):
        return x
    return Tensor(Arr.of(x))


def node(v, parents, vjps, saves, scalar=False):
    if Mode.grad and any(p.req for p in parents):
        return Tensor(v, Fn(parents, vjps, saves), True, scalar)
    return Tensor(v, None, False, scalar)


def op(f, parents, vjps, saves):
    """element-wise: the operands which need gradients have the shape of the result"""
    if any(p.scalar for p in parents) and any(p.arr is None for p in parents):
        raise Unsupported("value of a sum over the batch")
    v = Arr.of(f(*[p._a() for p in parents]))
    for p in parents:
        if p.req and not _samelayout(p._a(), v):
            raise Unsupported("broadcast of a tensor which requires a gradient")
    return node(v, parents, vjps, saves, scalar=all(p.scalar for p in parents))


def add(x, y):
    x, y = lift(x), lift(y)
    return op(lambda a, b: a + b, [x, y], [lambda g: g, lambda g: g], False)


def expand(g, like):
    """the gradient of a sum: the (scalar) gradient at every entry"""
    if g.arr is None or g.arr.a.ndim or g.arr.tail is not None:
        raise Unsupported("gradient of a sum")
    x = like._a()
    v = _filled(x, ONE) * g.arr
    return node(v, [g], [lambda h: _nogo()], False)


def _nogo():
    raise Unsupported("derivative of the gradient of a sum w.r.t. its seed")


def elementwise(S, name, der, *xs):
    """an opaque differentiable operation: its backward passes are the applications of its partial derivatives"""
    xs = [lift(x) for x in xs]
    n = len(xs)

    def vjp(i):
        d = tuple(k + (j == i) for j, k in enumerate(der))
        return lambda g: g * elementwise(S, name, d, *xs)
    return op(lambda *v: S.apply(name, der, v), xs, [vjp(i) for i in range(n)], True)


def _reaches(t, targets, memo):
    r = memo.get(id(t))
    if r is None:
        r = any(t is x for x in targets)
        if t.fn is not None:
            for p in t.fn.parents:
                if p.req and _reaches(p, targets, memo):
                    r = True
        memo[id(t)] = r
    return r


def grad(outputs, inputs, grad_outputs=None, retain_graph=None, create_graph=False, only_inputs=True, allow_unused=None,
         is_grads_batched=False, materialize_grads=False):
    if is_grads_batched:
        raise Unsupported("is_grads_batched")
    outs = list(outputs) if isinstance(outputs, (tuple, list)) else [outputs]
    ins = list(inputs) if isinstance(inputs, (tuple, list)) else [inputs]
    gos = [None] * len(outs) if grad_outputs is None else list(grad_outputs) if isinstance(grad_outputs, (tuple, list)) else [grad_outputs]
    if retain_graph is None:
        retain_graph = create_graph
    if allow_unused is None:
        allow_unused = materialize_grads
    for x in outs + ins:
        if not isinstance(x, Tensor):
            raise TypeError(f"expected a tensor, got {type(x).__name__}")
    seeds = []
    for o, g in zip(outs, gos, strict=True):
        if not o.req:
            raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
        if g is None:
            if not o.scalar:
                x = o._a()
                if x.a.ndim or x.tail is not None:
                    raise RuntimeError("grad can be implicitly created only for scalar outputs")
                g = Tensor(_filled(x, ONE))
            else:
                g = Tensor(Arr.of(ONE), scalar=True)
        else:
            g = lift(g)
            if o.scalar or not _samelayout(g._a(), o._a()):
                raise RuntimeError("Mismatch in shape of grad_outputs")
        seeds.append(g)
    for x in ins:
        if not x.req:
            raise RuntimeError("One of the differentiated Tensors does not require grad")
    memo = {}
    order, seen = [], set()

    def visit(t):
        if id(t) in seen or not _reaches(t, ins, memo):
            return
        seen.add(id(t))
        if t.fn is not None:
            for p in t.fn.parents:
                if p.req:
                    visit(p)
        order.append(t)
    for o in outs:
        visit(o)
    acc = {}
    executed = []
    with _Grad(bool(create_graph)):
        for o, g in zip(outs, seeds):
            if id(o) in seen:
                acc[id(o)] = acc[id(o)] + g if id(o) in acc else g
        for t in reversed(order):
            g = acc.get(id(t))
            if g is None or t.fn is None:
                continue
            need = [i for i, p in enumerate(t.fn.parents) if p.req and _reaches(p, ins, memo)]
            if not need:
                continue
            if t.fn.freed:
                raise RuntimeError("Trying to backward through the graph a second time (or directly access saved tensors after they "
                                   "have already been freed).")
            executed.append(t.fn)
            for i in need:
                p = t.fn.parents[i]
                gi = t.fn.vjps[i](g)
                acc[id(p)] = acc[id(p)] + gi if id(p) in acc else gi
    if not retain_graph:
        for f in executed:
            if f.saves:
                f.freed = True
    out = []
    for x in ins:
        g = acc.get(id(x))
        if g is None:
            if not allow_unused:
                raise RuntimeError("One of the differentiated Tensors appears to not have been used in the graph. Set allow_unused=True "
                                   "if this is the desired behavior.")
            if materialize_grads:
                g = Tensor(_filled(x._a(), ZERO))
        out.append(g)
    return tuple(out)


def tensor(data, dtype=None, device=None, requires_grad=False, pin_memory=False):
    if isinstance(data, Tensor):
        data = data._a()
    return Tensor(Arr.of(data).copy(), None, bool(requires_grad))


def as_tensor(data, dtype=None, device=None):
    return data if isinstance(data, Tensor) else Tensor(Arr.of(data))


def from_numpy(x):
    if not isinstance(x, Arr):
        raise TypeError("expected np.ndarray")
    return Tensor(x)


def _full_like(c):
    def f(x, dtype=None, device=None, requires_grad=False, **k):
        if x.scalar:
            return Tensor(Arr.of(c), scalar=True, req=requires_grad)
        return Tensor(_filled(x._a(), c), None, bool(requires_grad))
    return f


float64 = "float64"


def module():
    t = types.ModuleType("torch")
    ag = types.ModuleType("torch.autograd")
    ag.grad = grad
    t.autograd = ag
    t.tensor, t.as_tensor, t.asarray, t.from_numpy = tensor, as_tensor, as_tensor, from_numpy
    t.Tensor = Tensor
    t.is_tensor = lambda x: isinstance(x, Tensor)
    t.get_default_dtype = lambda: float64
    t.float64 = t.double = t.float32 = t.float = float64
    t.ones_like, t.zeros_like = _full_like(ONE), _full_like(ZERO)
    t.sum = lambda x: x.sum()
    t.clone = lambda x: x.clone()
    t.no_grad = lambda *a: _Grad(False)(*a) if a else _Grad(False)
    t.enable_grad = lambda *a: _Grad(True)(*a) if a else _Grad(True)
    t.set_grad_enabled = _Grad
    t.is_grad_enabled = lambda: Mode.grad

    def missing(n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("torch." + n)
    t.__getattr__ = missing
    ag.__getattr__ = missing
    return {"torch": t, "torch.autograd": ag}
