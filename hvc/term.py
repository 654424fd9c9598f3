"""Real-valued terms (hash-consed DAG), boolean terms, symbolic differentiation and numeric evaluation."""
from fractions import Fraction
import math
import sys

sys.setrecursionlimit(100000)


class Unsupported(BaseException):
    """The verifier's language does not cover an operation: never a verdict (BaseException: not swallowed by user code)."""


def rationalize(x):
    """Rational (or algebraic) reading of a float literal: the simplest rational whose double is x."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        raise Unsupported(f"non-finite constant {x}")
    fr = Fraction(x).limit_denominator(100000)
    if float(fr) == x:
        return fr
    return Fraction(repr(x))


_table = {}
_count = [0]


class T:
    """op: c v + * f u ite sum
    c: (Fraction,)     v: (name,)
    +: ((coef, T), ...)           const part uses ONE
    *: ((T, exponent), ...)       exponent Fraction or T
    f: (name, derivs tuple, args tuple)     uninterpreted function and its partial derivatives
    u: (fname, T)                 exp log abs sign sin cos tan ...
    ite: (B, T, T)
    sum: (symname, T)             sum over the index of a symbolic-length sequence
    """

    __slots__ = ("op", "args", "id", "fv")
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, op, args):
        self.op = op
        self.args = args
        _count[0] += 1
        self.id = _count[0]
        self.fv = None

    # ---- scalar behaviour (numpy float64 / python float)
    shape = ()
    ndim = 0
    size = 1

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    def sum(self, axis=None):
        return self

    def reshape(self, *shape):
        from . import arr
        return arr.Arr.of(self).reshape(*shape)

    def astype(self, dtype, **kw):
        from . import arr
        arr.check_dtype(dtype)
        return self

    @property
    def dtype(self):
        import numpy
        return numpy.dtype(float)

    def __hash__(self):
        return hash(self.id)

    shown = None

    def __format__(self, spec):
        if T.shown is not None:
            # a number written into a text (contracts of the plots only)
            T.shown.append(self)
            return f"⟦{len(T.shown) - 1}⟧"
        return object.__format__(self, spec)

    def __repr__(self):
        return show(self)

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if self.op == "c":
            return float(self.args[0])
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.op == "c" and self.args[0].denominator == 1:
            return int(self.args[0])
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        return self.__int__()

    def __add__(self, o):
        o = coerce(o)
        return NotImplemented if o is NotImplemented else add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        o = coerce(o)
        return NotImplemented if o is NotImplemented else sub(self, o)

    def __rsub__(self, o):
        o = coerce(o)
        return NotImplemented if o is NotImplemented else sub(o, self)

    def __mul__(self, o):
        o = coerce(o)
        return NotImplemented if o is NotImplemented else mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = coerce(o)
        return NotImplemented if o is NotImplemented else div(self, o)

    def __rtruediv__(self, o):
        o = coerce(o)
        return NotImplemented if o is NotImplemented else div(o, self)

    def __pow__(self, o):
        o = coerce(o)
        return NotImplemented if o is NotImplemented else power(self, o)

    def __rpow__(self, o):
        o = coerce(o)
        return NotImplemented if o is NotImplemented else power(o, self)

    def __neg__(self):
        return scale(self, -1)

    def __pos__(self):
        return self

    def __abs__(self):
        return ufun("abs", self)

    def _cmp(self, o, op):
        o = coerce(o)
        return NotImplemented if o is NotImplemented else compare(op, self, o)

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        if o is None:
            return True
        return self._cmp(o, "!=")

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __getitem__(self, idx):
        from . import arr
        return arr.Arr.of(self)[idx]


def _mk(op, args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = _table[key] = T(op, args)
    return t


class _Key:
    pass


def const(x):
    return _mk("c", (rationalize(x),))


ZERO = const(0)
ONE = const(1)
positive_vars = set()


def var(name, positive=False):
    if positive:
        positive_vars.add(name)
    return _mk("v", (name,))


def coerce(o):
    if isinstance(o, T):
        return o
    if isinstance(o, bool):
        return const(int(o))
    if isinstance(o, (int, Fraction)):
        return const(o)
    if isinstance(o, float):
        return fconst(o)
    import numpy
    if isinstance(o, numpy.bool_):
        return const(int(o))
    if isinstance(o, numpy.integer):
        return const(int(o))
    if isinstance(o, numpy.floating):
        if o.dtype != numpy.float64:
            raise Unsupported("reduced precision scalar")
        return fconst(float(o))
    if isinstance(o, numpy.ndarray) and o.shape == () and o.dtype != object:
        return coerce(o[()])
    if isinstance(o, B):
        return ite(o, ONE, ZERO)
    return NotImplemented


def fconst(x):
    """float constant; recognises square roots of small rationals (e.g. 2**0.5)."""
    fr = Fraction(x).limit_denominator(100000)
    if float(fr) == x:
        return const(fr)
    if x > 0 and not math.isinf(x):
        s = Fraction(x * x).limit_denominator(64)
        if s > 0 and math.sqrt(s) == x:
            return power(const(s), const(Fraction(1, 2)))
    return const(x)


def is_const(t, v=None):
    return t.op == "c" and (v is None or t.args[0] == v)


def _lin(items):
    """build canonical '+' from dict T->Fraction"""
    items = {t: c for t, c in items.items() if c != 0}
    if not items:
        return ZERO
    if len(items) == 1:
        (t, c), = items.items()
        if t is ONE:
            return const(c)
        if c == 1:
            return t
    args = tuple(sorted(((c, t) for t, c in items.items()), key=lambda z: z[1].id))
    return _mk("+", args)


def _split(t):
    """t = coef * core"""
    if t.op == "c":
        return t.args[0], ONE
    if t.op == "+" and len(t.args) == 1:
        return t.args[0]
    return Fraction(1), t


names = {}        # ghost names: term -> variable which stands for it (while a contract is executed)


def name_term(t, by):
    """t (a sum or product) is represented by another term"""
    c, core = _split(t)
    if core.op in ("+", "*") and core is not by:
        if c != 1:
            by = scale(by, 1 / c)
        else:
            names[t] = by
        names[core] = by


def add(*ts):
    d = {}
    for t in ts:
        c, k = _split(t)
        d[k] = d.get(k, 0) + c
    r = _lin(d)
    return names.get(r, r) if names else r


def sub(a, b):
    return add(a, scale(b, -1))


def scale(t, c):
    c = Fraction(c)
    k, core = _split(t)
    return _lin({core: c * k})


def _e_add(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    r = expand_lin(add(a if isinstance(a, T) else const(a), b if isinstance(b, T) else const(b)))
    return r.args[0] if r.op == "c" else r


def _e_mul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a * b
    r = mul(a if isinstance(a, T) else const(a), b if isinstance(b, T) else const(b))
    r = expand_lin(r)
    return r.args[0] if r.op == "c" else r


def expand_lin(t):
    """distribute products over sums (used for exponents only)"""
    if t.op == "+":
        parts = []
        for c, x in t.args:
            y = expand_lin(x)
            parts += [scale(z, c * k) for k, z in y.args] if y.op == "+" else [scale(y, c)]
        return add(*parts)
    if t.op == "*":
        out = [ONE]
        for b, e in t.args:
            if isinstance(e, Fraction) and e.denominator == 1 and e > 0 and b.op == "+":
                for _ in range(int(e)):
                    out = [mul(o, scale(x, c)) for o in out for c, x in b.args]
            else:
                out = [mul(o, _mk1(b, e)) for o in out]
        return add(*out)
    return t


def _factors(t):
    if t.op == "*":
        return t.args
    return ((t, Fraction(1)),)


def mul(*ts):
    coef = Fraction(1)
    d = {}
    for t in ts:
        c, k = _split(t)
        coef *= c
        if k is ONE:
            continue
        for b, e in _factors(k):
            if b in d:
                d[b] = _e_add(d[b], e)
            else:
                d[b] = e
    if coef == 0:
        return ZERO
    items = [(b, e) for b, e in d.items() if not (isinstance(e, Fraction) and e == 0)]
    if any(b.op == "c" and isinstance(e, Fraction) and e.denominator == 1 for b, e in items):
        nit = []
        for b, e in items:
            if b.op == "c" and isinstance(e, Fraction) and e.denominator == 1:
                coef *= b.args[0] ** int(e)
            else:
                nit.append((b, e))
        items = nit
    if not items:
        return const(coef)
    if len(items) == 1 and isinstance(items[0][1], Fraction) and items[0][1] == 1:
        core = items[0][0]
    else:
        core = _mk("*", tuple(sorted(items, key=lambda z: z[0].id)))
        if names and core in names:
            core = names[core]
    c2, core = _split(core)
    return _lin({core: coef * c2})


def div(a, b):
    return mul(a, power(b, const(-1)))


_pos_memo = {}


def positive(t):
    """syntactically > 0"""
    r = _pos_memo.get(t)
    if r is None:
        r = _positive(t)
        if r:
            _pos_memo[t] = r
    return r


def _positive(t):
    if t.op == "c":
        return t.args[0] > 0
    if t.op == "v":
        return t.args[0] in positive_vars
    if t.op == "+":
        return all(c > 0 for c, _ in t.args) and all(positive(x) for _, x in t.args)
    if t.op == "*":
        return all(positive(b) or (isinstance(e, Fraction) and e.denominator == 1 and e % 2 == 0 and False) for b, e in t.args)
    if t.op == "u":
        return t.args[0] in ("exp", "cosh")
    return False


defined_log = None  # list collecting (kind, term) definedness obligations during execution


def power(a, e):
    """a**e over the reals; definedness is recorded in defined_log"""
    if e.op == "c":
        ev = e.args[0]
        if ev == 0:
            return ONE
        if ev == 1:
            return a
        if a.op == "c":
            v = a.args[0]
            if ev.denominator == 1:
                if v == 0 and ev < 0:
                    _def("nonzero", a)
                    return _mk("*", ((a, ev),))
                return const(v ** int(ev))
            if v == 0 and ev > 0:
                return ZERO
            if v == 1:
                return ONE
            if v > 0:
                q = ev.denominator
                n, d = _iroot(v.numerator, q), _iroot(v.denominator, q)
                if n is not None and d is not None:
                    return const(Fraction(n, d) ** int(ev * q))
        integer = ev.denominator == 1
        if ev < 0:
            _def("nonzero" if integer else "positive", a)
        elif not integer:
            _def("nonnegative", a)
        ex = ev
    else:
        if is_const(a, 1):
            return ONE
        _def("positive", a)
        integer = False
        ex = e
    coef, core = _split(a)
    if core is ONE:
        return _mk("*", ((a, ex),))
    out = []
    if coef != 1:
        if coef < 0 and not integer:
            return _mk("*", ((a, ex),))
        out.append(power(const(coef), e))
    if core.op == "*" and (integer or all(positive(b) for b, _ in core.args)):
        for b, be in core.args:
            out.append(_mk1(b, _e_mul(be, ex)))
    else:
        out.append(_mk1(core, ex))
    r = mul(*out)
    return names.get(r, r) if names else r


def _mk1(b, e):
    if isinstance(e, Fraction):
        if e == 0:
            return ONE
        if e == 1:
            return b
    return _mk("*", ((b, e),))


def _iroot(n, q):
    if n < 0:
        return None
    r = round(n ** (1.0 / q))
    for c in (r - 1, r, r + 1):
        if c >= 0 and c ** q == n:
            return c
    return None


def _def(kind, t):
    if defined_log is not None and t.op != "c" and not positive(t):
        defined_log.append((kind, t))


UF = {
    "exp": (math.exp, lambda x: ufun("exp", x)),
    "log": (math.log, lambda x: div(ONE, x)),
    "abs": (abs, lambda x: ufun("sign", x)),
    "sign": (lambda x: (x > 0) - (x < 0), lambda x: ZERO),
    "sin": (math.sin, lambda x: ufun("cos", x)),
    "cos": (math.cos, lambda x: scale(ufun("sin", x), -1)),
    "tanh": (math.tanh, lambda x: sub(ONE, power(ufun("tanh", x), const(2)))),
    "sinh": (math.sinh, lambda x: ufun("cosh", x)),
    "cosh": (math.cosh, lambda x: ufun("sinh", x)),
}


def ufun(name, x):
    if name == "abs":
        if x.op == "c":
            return const(abs(x.args[0]))
        if positive(x):
            return x
        c, k = _split(x)
        if c != 1:
            return scale(ufun("abs", k), abs(c))
    if name == "exp" and is_const(x, 0):
        return ONE
    if name == "log":
        _def("positive", x)
        if is_const(x, 1):
            return ZERO
    return _mk("u", (name, x))


def fun(name, derivs, args):
    return _mk("f", (name, tuple(derivs), tuple(args)))


def ite(b, x, y):
    if b is True:
        return x
    if b is False:
        return y
    if x is y:
        return x
    return _mk("ite", (b, x, y))


def summ(sym, body):
    """sum of body over the index whose generic element symbols are named in sym (a tuple)"""
    if is_const(body, 0):
        return ZERO
    c, k = _split(body)
    return scale(_mk("sum", (sym, k)), c)


# ---------------------------------------------------------------- booleans
class Oracle:
    """decides boolean terms; installed by the explorer"""
    current = None


class B:
    """op: cmp (rel, T, T) / and / or / not / all (B, quantified over points) / any / opaque(name)"""
    __slots__ = ("op", "args", "id")
    __array_ufunc__ = None
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, op, args):
        self.op, self.args = op, args
        _count[0] += 1
        self.id = _count[0]

    def __hash__(self):
        return hash(self.id)

    def __bool__(self):
        if Oracle.current is None:
            raise Unsupported("branch on a symbolic condition outside of an exploration")
        return Oracle.current.decide(self)

    def __and__(self, o):
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def any(self, axis=None):
        return self

    def all(self, axis=None):
        return self

    def __getitem__(self, i):
        if i == ():
            return self
        raise Unsupported("index into a boolean")

    def __eq__(self, o):
        if isinstance(o, (bool,)):
            return self if o else bnot(self)
        return self is o

    def __ne__(self, o):
        return not (self == o) if isinstance(self == o, bool) else bnot(self == o)

    def _num(self):
        return ite(self, ONE, ZERO)

    def __add__(self, o):
        return self._num() + (o._num() if isinstance(o, B) else o)

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * (o._num() if isinstance(o, B) else o)

    __rmul__ = __mul__

    def __rsub__(self, o):
        return o - self._num()

    def __sub__(self, o):
        return self._num() - o

    def __repr__(self):
        return showb(self)


_btable = {}


def _bmk(op, args):
    k = (op, args)
    b = _btable.get(k)
    if b is None:
        b = _btable[k] = B(op, args)
    return b


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}


def compare(rel, a, b):
    d = sub(a, b)
    if d.op == "c":
        v = d.args[0]
        return {"==": v == 0, "!=": v != 0, "<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[rel]
    if positive(d):
        return rel in ("!=", ">", ">=")
    if positive(scale(d, -1)):
        return rel in ("!=", "<", "<=")
    if rel in ("<", "<=", ">", ">="):
        for x, y, r in ((a, b, rel), (b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[rel])):
            c, k = _split(x)
            if k.op == "u" and k.args[0] == "abs" and c > 0:
                z = scale(k.args[1], c)
                if r in (">", ">="):
                    return bnot(compare(NEG[r], x, y))
                if y is ZERO:
                    return compare("==", z, ZERO) if r == "<=" else False
                return band(compare(r, z, y), compare(r, scale(z, -1), y))
    return _bmk("cmp", (rel, a, b))


def band(*bs):
    out = []
    for b in bs:
        if isinstance(b, bool) or type(b).__name__ == "bool" or type(b).__name__ == "bool_":
            if not b:
                return False
        else:
            if b not in out:
                out.append(b)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return _bmk("and", tuple(out))


def bnot(b):
    if isinstance(b, bool) or type(b).__name__ in ("bool", "bool_"):
        return not b
    if b.op == "cmp":
        rel, x, y = b.args
        return _bmk("cmp", (NEG[rel], x, y))
    if b.op == "not":
        return b.args[0]
    if b.op == "all":
        return _bmk("any", (bnot(b.args[0]),))
    if b.op == "any":
        return _bmk("all", (bnot(b.args[0]),))
    return _bmk("not", (b,))


def bor(*bs):
    return bnot(band(*[bnot(b) for b in bs]))


def opaque(name):
    return _bmk("opaque", (name,))


def quant(kind, b):
    """all/any over the material points of a pointwise condition"""
    if isinstance(b, bool):
        return b
    return _bmk(kind, (b,))


# ---------------------------------------------------------------- traversal
def free_vars(t):
    if t.fv is not None:
        return t.fv
    if t.op == "c":
        r = frozenset()
    elif t.op == "v":
        r = frozenset((t.args[0],))
    else:
        r = frozenset().union(*[free_vars(x) for x in children(t)])
    t.fv = r
    return r


def children(t):
    if t.op == "+":
        return [x for _, x in t.args]
    if t.op == "*":
        return [b for b, _ in t.args] + [e for _, e in t.args if isinstance(e, T)]
    if t.op == "f":
        return list(t.args[2])
    if t.op == "u":
        return [t.args[1]]
    if t.op == "sum":
        return [t.args[1]]
    if t.op == "ite":
        return bterms(t.args[0]) + [t.args[1], t.args[2]]
    return []


def bterms(b):
    if isinstance(b, bool):
        return []
    if b.op == "cmp":
        return [b.args[1], b.args[2]]
    if b.op == "opaque":
        return []
    out = []
    for x in b.args:
        out += bterms(x)
    return out


def subst(t, m, memo=None):
    """substitute terms for terms (m: dict T->T)"""
    if memo is None:
        memo = {}

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op in ("c", "v"):
            r = t
        elif op == "+":
            r = add(*[scale(go(x), c) for c, x in t.args])
        elif op == "*":
            r = mul(*[power(go(b), (go(e) if isinstance(e, T) else const(e))) for b, e in t.args])
        elif op == "f":
            r = fun(t.args[0], t.args[1], [go(x) for x in t.args[2]])
        elif op == "u":
            r = ufun(t.args[0], go(t.args[1]))
        elif op == "sum":
            r = summ(t.args[0], go(t.args[1]))
        elif op == "ite":
            r = ite(bsubst(t.args[0], go), go(t.args[1]), go(t.args[2]))
        memo[t] = r
        return r

    return go(t)


def bsubst(b, go):
    if isinstance(b, bool):
        return b
    if b.op == "cmp":
        return compare(b.args[0], go(b.args[1]), go(b.args[2]))
    if b.op == "and":
        return band(*[bsubst(x, go) for x in b.args])
    if b.op == "not":
        return bnot(bsubst(b.args[0], go))
    if b.op in ("all", "any"):
        return quant(b.op, bsubst(b.args[0], go))
    return b


_dmemo = {}


def diff(t, v):
    """partial derivative of t w.r.t. the variable term v"""
    if v.args[0] not in free_vars(t):
        return ZERO
    k = (t, v)
    r = _dmemo.get(k)
    if r is not None:
        return r
    op = t.op
    if op == "v":
        r = ONE if t is v else ZERO
    elif op == "+":
        r = add(*[scale(diff(x, v), c) for c, x in t.args])
    elif op == "*":
        out = []
        for i, (b, e) in enumerate(t.args):
            rest = [_mk1(bb, ee) for j, (bb, ee) in enumerate(t.args) if j != i]
            db = diff(b, v)
            if db is not ZERO:
                et = e if isinstance(e, T) else const(e)
                out.append(mul(et, _mk1(b, _e_add(e, Fraction(-1))), db, *rest))
            if isinstance(e, T):
                de = diff(e, v)
                if de is not ZERO:
                    out.append(mul(_mk1(b, e), ufun("log", b), de, *rest))
        r = add(*out)
    elif op == "f":
        name, der, args = t.args
        out = []
        for i, a in enumerate(args):
            da = diff(a, v)
            if da is not ZERO:
                d2 = list(der)
                d2[i] += 1
                out.append(mul(fun(name, d2, args), da))
        r = add(*out)
    elif op == "u":
        r = mul(UF[t.args[0]][1](t.args[1]), diff(t.args[1], v))
    elif op == "sum":
        r = summ(t.args[0], diff(t.args[1], v))
    elif op == "ite":
        r = ite(t.args[0], diff(t.args[1], v), diff(t.args[2], v))
    else:
        raise Unsupported("diff of " + op)
    _dmemo[k] = r
    return r


# ---------------------------------------------------------------- evaluation (numpy arrays over points)
def evaluate(t, env, memo=None):
    """env: vars: name -> ndarray/float, funs: name -> callable(derivs, *args), sums: sym -> list of env dicts"""
    import numpy as np
    if memo is None:
        memo = {}
    V = env["vars"]
    F = env.get("funs", {})

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op == "c":
            r = float(t.args[0])
        elif op == "v":
            r = V[t.args[0]]
        elif op == "+":
            r = 0.0
            for c, x in t.args:
                r = r + float(c) * go(x)
        elif op == "*":
            r = 1.0
            for b, e in t.args:
                bv = go(b)
                if isinstance(e, T):
                    r = r * np.power(bv, go(e))
                elif e == 1:  # e is a Fraction here
                    r = r * bv
                elif e.denominator == 1:
                    n = int(e)
                    p = np.power(bv, abs(n)) if not (abs(n) <= 3) else (bv if abs(n) == 1 else bv * bv if abs(n) == 2 else bv * bv * bv)
                    r = r * p if n > 0 else r / p
                elif e == Fraction(1, 2):
                    r = r * np.sqrt(bv)
                else:
                    r = r * np.power(bv, float(e))
        elif op == "f":
            r = F[t.args[0]](t.args[1], *[go(x) for x in t.args[2]])
        elif op == "u":
            r = getattr(np, t.args[0])(go(t.args[1]))
        elif op == "ite":
            r = np.where(evalb(t.args[0], env, memo), go(t.args[1]), go(t.args[2]))
        elif op == "sum":
            sym, body = t.args
            r = 0.0
            for e in env["seqs"][sym]:
                r = r + evaluate(body, dict(env, vars={**V, **e}))
        else:
            raise Unsupported(op)
        memo[t] = r
        return r

    return go(t)


def evalb(b, env, memo=None):
    import numpy as np
    if isinstance(b, bool):
        return b
    if b.op == "cmp":
        x, y = evaluate(b.args[1], env, memo), evaluate(b.args[2], env, memo)
        return {"==": np.equal, "!=": np.not_equal, "<": np.less, "<=": np.less_equal, ">": np.greater, ">=": np.greater_equal}[b.args[0]](x, y)
    if b.op == "and":
        r = True
        for x in b.args:
            r = np.logical_and(r, evalb(x, env, memo))
        return r
    if b.op == "not":
        return np.logical_not(evalb(b.args[0], env, memo))
    if b.op == "all":
        return np.all(evalb(b.args[0], env, memo))
    if b.op == "any":
        return np.any(evalb(b.args[0], env, memo))
    if b.op == "opaque":
        return env.get("opaque", {}).get(b.args[0], True)
    raise Unsupported(b.op)


# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if depth == 0:
        return "…"
    d = depth - 1
    if t.op == "c":
        return str(t.args[0])
    if t.op == "v":
        return t.args[0]
    if t.op == "+":
        return "(" + " + ".join((show(x, d) if c == 1 else f"{c}*{show(x, d)}") if x is not ONE else str(c) for c, x in t.args) + ")"
    if t.op == "*":
        return "*".join(show(b, d) if (isinstance(e, Fraction) and e == 1) else f"{show(b, d)}^({show(e, d) if isinstance(e, T) else e})" for b, e in t.args)
    if t.op == "f":
        n, der, args = t.args
        return f"{n}{list(der)}({', '.join(show(a, d) for a in args)})"
    if t.op == "u":
        return f"{t.args[0]}({show(t.args[1], d)})"
    if t.op == "sum":
        return f"Sum_{t.args[0]}[{show(t.args[1], d)}]"
    if t.op == "ite":
        return f"ite({showb(t.args[0])}, {show(t.args[1], d)}, {show(t.args[2], d)})"
    return t.op


def showb(b):
    if isinstance(b, bool):
        return str(b)
    if b.op == "cmp":
        return f"{show(b.args[1], 4)} {b.args[0]} {show(b.args[2], 4)}"
    if b.op == "and":
        return " & ".join(f"({showb(x)})" for x in b.args)
    if b.op == "not":
        return f"!({showb(b.args[0])})"
    if b.op in ("all", "any"):
        return f"{b.op}_points({showb(b.args[0])})"
    return str(b.args[0])
