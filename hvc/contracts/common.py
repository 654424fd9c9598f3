"""Specification vocabulary shared by the contracts: derivatives in reduced storage, models given by uninterpreted energies."""
from fractions import Fraction
import numpy as np
from ..term import T, add, sub, mul, div, power, const, scale, ZERO, ONE, compare, fun, diff, subst, var
from ..world import oarr, In
from .mathc import PAIR, IDX, full, t_trace, t_det, t_inv, t_dot, t_eye, t_dya, t_cdya

HALF6 = [Fraction(1)] * 3 + [Fraction(1, 2)] * 3


def grad6(w, c):
    """dW/dC of a scalar term in reduced storage: the off-diagonal variables stand for two components"""
    return oarr([scale(diff(w, c[k]), HALF6[k]) for k in range(6)])


def hess6(w, c):
    out = np.empty((6, 6), dtype=object)
    for i in range(6):
        d = scale(diff(w, c[i]), HALF6[i])
        for j in range(i, 6):
            out[i, j] = out[j, i] = scale(diff(d, c[j]), HALF6[j])
    return out


def invariants(c):
    """the documented invariants of a symmetric tensor given by six terms"""
    i1 = t_trace(c)
    sq = add(*[mul(full(c)[i][k], full(c)[k][i]) for i in range(3) for k in range(3)])
    return i1, scale(sub(power(i1, const(2)), sq), Fraction(1, 2)), t_det(c)


def funs_of(t, name, out=None):
    """applications of the uninterpreted function `name` inside t"""
    from ..term import children
    out = {} if out is None else out
    seen, st = set(), [t]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "f" and t.args[0] == name:
            out[t] = t.args[1]
        st.extend(children(t))
    return out


def supply(spec, name, values):
    """replace derivatives of the energy by what the model supplies: values: derivative order -> None (counts as zero) | term"""
    spec = oarr(spec)
    fs = {}
    for i in np.ndindex(*spec.shape):
        funs_of(spec[i], name, fs)
    m = {}
    for t, d in fs.items():
        if d in values:
            m[t] = ZERO if values[d] is None else values[d]
    out = np.empty(spec.shape, dtype=object)
    memo = {}
    for i in np.ndindex(*spec.shape):
        out[i] = subst(spec[i], m, memo) if m else spec[i]
    return out


def used(S, obj, *args):
    """an object with former evaluations"""
    S.call("gradient (former)", obj.gradient, *args)
    S.call("hessian (former)", obj.hessian, *args)
    return obj


def order(n, *idx):
    d = [0] * n
    for i in idx:
        d[i] += 1
    return tuple(d)


class Energy:
    """a model given by an uninterpreted energy: how each derivative is supplied (array, none, const, ones)"""

    def __init__(self, S, name, n, kinds=None, default="array"):
        self.S, self.name, self.n, self.kinds, self.default = S, name, n, kinds or {}, default
        self.values = {}
        self.given, shared = {}, {}
        for d, k in self.kinds.items():
            if k == "none":
                self.values[d] = None
                self.given[d] = None
            elif k[:5] in ("same:", "nega:"):
                # one constant, or its opposite, for several derivatives
                nm = name + k[5:]
                x = shared[nm] = shared[nm] if nm in shared else S.scalar(nm)
                self.given[d] = x if k[0] == "s" else -x
                self.values[d] = var(nm) if k[0] == "s" else scale(var(nm), -1)
            elif k in ("const", "int0"):
                nm = f"{name}c{''.join(map(str, d))}"
                self.given[d] = S.scalar(nm)
                self.values[d] = var(nm)
            elif k == "ones":
                x = S.arr(f"{name}o{''.join(map(str, d))}", (), "")
                self.given[d] = x.val
                self.values[d] = x.t[()]

    def __call__(self, args, *idx):
        d = order(self.n, *idx)
        if d in self.given:
            return self.given[d]
        return self.S.apply(self.name, d, args)

    def spec(self, s):
        return supply(s, self.name, self.values)


SECOND3 = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]


class InvariantModel:
    """material of the Invariants framework (and of the generalized-invariants model)"""

    def __init__(self, S, W, tokens=None):
        self.S, self.W, self.tokens = S, W, tokens
        self.calls = []

    def gradient(self, I1, I2, I3, statevars):
        self.calls.append(("gradient", (I1, I2, I3), statevars))
        a = [I1, I2, I3]
        return self.W(a, 0), self.W(a, 1), self.W(a, 2), self.tokens

    def hessian(self, I1, I2, I3, statevars):
        self.calls.append(("hessian", (I1, I2, I3), statevars))
        a = [I1, I2, I3]
        return tuple(self.W(a, i, j) for i, j in SECOND3)


class StretchModel:
    """material of the Stretches framework"""

    def __init__(self, S, W, tokens=None, form="list"):
        self.S, self.W, self.tokens, self.form = S, W, tokens, form
        self.calls = []

    def pack(self, xs):
        const = sum(isinstance(x, (float, T)) for x in xs)
        if self.form == "array" and const in (0, len(xs)) and all(x is not None for x in xs):
            if self.S.concrete:
                return np.array(np.broadcast_arrays(*xs))
            return self.S.pkg_np().array(xs)
        return tuple(xs) if self.form == "tuple" else list(xs)

    def gradient(self, λ, statevars):
        self.calls.append(("gradient", λ, statevars))
        a = [λ[0], λ[1], λ[2]]
        return self.pack([self.W(a, i) for i in range(3)]), self.tokens

    def hessian(self, λ, statevars):
        self.calls.append(("hessian", λ, statevars))
        a = [λ[0], λ[1], λ[2]]
        return self.pack([self.W(a, i, j) for i, j in SECOND3])
