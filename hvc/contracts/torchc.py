"""C11: the automatic-differentiation model (torch.autograd is an assumed contract, see hvc/torchshim.py)."""
import itertools
import numpy as np
from ..registry import contract
from ..term import T, const, var, add, mul, fun, diff, scale, compare, ZERO, ONE
from ..world import oarr
from ..arr import Arr
from .. import torchshim
from .common import SECOND3, order
from .mathc import t_det
from .framec import *  # noqa
from .common import invariants
from .batchc import pointwise
from .statec import history

TM_ = "models.invariants._torch.TorchModel."


class Real:
    """precision of the real torch: double precision by default, restored afterwards"""

    def __init__(self, S, single=False):
        self.S, self.single = S, single

    def __enter__(self):
        if self.S.concrete:
            import torch
            torch.set_num_threads(1)
            self.old = torch.get_default_dtype()
            torch.set_default_dtype(torch.float32 if self.single else torch.float64)
            if self.single:
                self.rtol, self.S.rtol = self.S.rtol, 2e-4

    def __exit__(self, *a):
        if self.S.concrete:
            import torch
            torch.set_default_dtype(self.old)
            if self.single:
                self.S.rtol = self.rtol


class TorchEnergy:
    """W(I1, I2, I3; **parameters): a sum of products of invariants, parameters and opaque differentiable operations.

    `form` names the terms: 1, 2, 3 the invariants, p a parameter, f12 an uninterpreted function of the first two
    invariants; e.g. "f1+p*2+1*3"."""

    def __init__(self, S, form):
        self.S, self.form = S, form
        self.par = S.scalar("par")
        self.kw = []
        self.terms = [] if form == "p" else [t.split("*") for t in form.split("+")]

    def kwargs(self):
        return {"par": self.par, "tag": "x", "zero": 0, "nothing": None}

    def opaque(self, name, *xs):
        S = self.S
        n = len(xs)
        if not S.concrete:
            return torchshim.elementwise(S, name, (0,) * n, *xs)
        import torch
        f = S.function(name, n)
        f.special = False
        r = 0.0
        for a, b, c in zip(f.a, f.b, f.c):
            r = r + float(a) * torch.sin(sum(float(bb) * x for bb, x in zip(b, xs)) + float(c))
        return r

    def __call__(self, I1, I2, I3, **kw):
        self.kw.append(kw)
        x = {"1": I1, "2": I2, "3": I3}
        w = None
        for t in self.terms:
            v = None
            for a in t:
                y = x[a] if a in x else kw["par"] if a == "p" else self.opaque(a[0] + str(len(a) - 1), *[x[k] for k in a[1:]])
                v = y if v is None else v * y
            w = v if w is None else w + v
        return kw["par"] if w is None else w

    def spec(self, x):
        x = dict(zip("123", x))
        out = ZERO
        for t in self.terms:
            v = ONE
            for a in t:
                v = mul(v, x[a] if a in x else var("par") if a == "p" else fun(a[0] + str(len(a) - 1), (0,) * (len(a) - 1), [x[k] for k in a[1:]]))
            out = add(out, v)
        return out if self.terms else var("par")


TERMS = ["1", "2", "3", "p*1", "1*1", "3*3*3", "1*2", "1*3", "2*3", "1*2*3", "f1", "f2", "f3", "f12", "f13", "f23", "f123", "1*f2", "f1*g3", "f1*f1"]


def _forms(tier):
    out = ["p"] + TERMS + ["+".join(c) for c in itertools.combinations(TERMS, 2)]
    trip = list(itertools.combinations(TERMS, 3))
    out += ["+".join(c) for c in (trip if tier == "thorough" else trip[::9])]
    return out


def _t_cases(tier):
    for f in _forms(tier):
        yield dict(form=f, t="A")
    for f in ["p"] + TERMS + ["1+f2", "1+2+3", "f123+1*2"]:
        for t in ("", None):
            yield dict(form=f, t=t)


def derivative(S, label, r, spec):
    if r is None:
        S.ensure_true(label + " is omitted only where it vanishes", spec is ZERO, f"{label} is omitted")
    else:
        S.ensure_true(label + " is an array", isinstance(r, (Arr, np.ndarray)), f"{label} of type {type(r).__name__}")
        S.ensure(label, r, spec)


def check_model(S, model, x, W, label=""):
    w = W.spec([y.t[()] for y in x])
    v = [y.t[()] for y in x]
    tok = S.token()
    r = S.call(label + "gradient", model.gradient, *[y.val for y in x], tok)
    S.ensure_true(label + "gradient returns three derivatives and the state variables", isinstance(r, (tuple, list)) and len(r) == 4, "gradient result")
    g = list(r)[:3]
    for i in range(3):
        derivative(S, f"{label}dW/dI{i + 1}", g[i], diff(w, v[i]))
    S.ensure_same(label + "state variables", r[3], tok)
    h = S.call(label + "hessian", model.hessian, *[y.val for y in x], tok)
    S.ensure_true(label + "hessian returns six derivatives", isinstance(h, (tuple, list)) and len(h) == 6, "hessian result")
    for (i, j), d in zip(SECOND3, h):
        derivative(S, f"{label}d2W/dI{i + 1}dI{j + 1}", d, diff(diff(w, v[i]), v[j]))
        S.ensure_true(f"{label}second derivatives {i}{j} come with the first derivatives", d is None or g[i] is not None and g[j] is not None)
    return g, h


@contract("C11", [TM_ + m for m in ("__init__", "gradient", "hessian", "_grad", "_astensors")], _t_cases, shims=torchshim.module(), preload=("torch",), symfuns=(), runs=2,
          note="torch.autograd.grad is an assumed contract (hvc/torchshim.py); the energy is a sum of products of invariants, parameters and opaque differentiable operations")
def t_model(S, form, t):
    W = TorchEnergy(S, form)
    x = [S.arr(f"I{k + 1}", (), t) for k in range(3)]
    with Real(S):
        model = S.guard("TorchModel", S.pkg.models.invariants.TorchModel, W, **W.kwargs())
        check_model(S, model, x, W)
    S.ensure_true("keyword arguments reach the energy", bool(W.kw) and all(k == W.kwargs() for k in W.kw), "keyword arguments")


@contract("C11", [TM_ + m for m in ("gradient", "hessian")], [dict(form=f, t="A") for f in TERMS[:13] + ["f123", "f12+f23", "1+f2", "p"]],
          shims=torchshim.module(), preload=("torch",), runs=2, note="torch.autograd.grad is an assumed contract (hvc/torchshim.py)")
def t_twice(S, form, t):
    """one model evaluated repeatedly, at other arguments; another model in between"""
    W = TorchEnergy(S, form)
    x = [S.arr(f"I{k + 1}", (), t) for k in range(3)]
    y = [S.arr(f"Y{k + 1}", (), t) for k in range(3)]
    with Real(S):
        model = S.guard("TorchModel", S.pkg.models.invariants.TorchModel, W, **W.kwargs())
        other = S.guard("TorchModel", S.pkg.models.invariants.TorchModel, lambda I1, I2, I3: I1 * I2 + I3)
        a = check_model(S, model, x, W)
        S.call("other hessian", other.hessian, *[u.val for u in x], None)
        b = check_model(S, model, y, W, "second evaluation: ")
        w = W.spec([u.t[()] for u in x])
        v = [u.t[()] for u in x]
        for i in range(3):
            derivative(S, f"earlier result: dW/dI{i + 1}", a[0][i], diff(w, v[i]))
        for (i, j), d in zip(SECOND3, a[1]):
            derivative(S, f"earlier result: d2W/dI{i + 1}dI{j + 1}", d, diff(diff(w, v[i]), v[j]))


@contract("C11", [TM_ + "gradient", TM_ + "hessian"], [dict(form=f) for f in TERMS], sym=False, runs=2, preload=("torch",))
def t_single(S, form):
    """bounded: default (single) precision of torch"""
    W = TorchEnergy(S, form)
    x = [S.arr(f"I{k + 1}", (), "A") for k in range(3)]
    with Real(S, True):
        model = S.guard("TorchModel", S.pkg.models.invariants.TorchModel, W, **W.kwargs())
        check_model(S, model, x, W)


# ------------------------------------------------------------------ C05, C17, C18: the same model
EVAL = [TM_ + m for m in ("gradient", "hessian", "_grad", "_astensors")]
NOTE = "torch.autograd.grad is an assumed contract (hvc/torchshim.py)"
SHORT = ["1", "p*1", "1*1", "1*2", "f1", "f3", "f12", "f123", "1*f2+3", "1+f2", "1+2+3", "f123+1*2", "p"]


@contract("C05", EVAL, [dict(form=f, t=t) for f in SHORT for t in ("A", "")], shims=torchshim.module(), preload=("torch",), runs=6, note=NOTE)
def t_points(S, form, t):
    """the derivatives at a batch are the derivatives at its points"""
    W = TorchEnergy(S, form)
    x = [S.arr(f"I{k + 1}", (), t) for k in range(3)]
    with Real(S):
        model = S.guard("TorchModel", S.pkg.models.invariants.TorchModel, W, **W.kwargs())
        pointwise(S, "gradient", lambda *y: model.gradient(*y, None)[:3], x)
        pointwise(S, "hessian", lambda *y: model.hessian(*y, None), x)


@contract("C17", EVAL, [dict(form=f) for f in SHORT], shims=torchshim.module(), preload=("torch",), runs=4, note=NOTE)
def t_history(S, form):
    """for every state of the caches, the derivatives are those of a fresh model"""
    W = TorchEnergy(S, form)
    x, y = S.arr("I", (3,), "A"), S.arr("K", (3,), "A")
    with Real(S):
        make = lambda: S.pkg.models.invariants.TorchModel(W, **W.kwargs())
        call = lambda o, op, v: getattr(o, op)(v[0], v[1], v[2], None)
        history(S, make, call, x.val, y.val)


@contract("C18", EVAL, [dict(form=f, new=n) for f in ("1", "f123", "f12+3") for n in ("token", "none", "list")], shims=torchshim.module(), preload=("torch",), runs=4, note=NOTE)
def t_states(S, form, new):
    """the model returns the state variables it receives"""
    W = TorchEnergy(S, form)
    x = [S.arr(f"I{k + 1}", (), "A").val for k in range(3)]
    with Real(S):
        model = S.guard("TorchModel", S.pkg.models.invariants.TorchModel, W, **W.kwargs())
        for k in range(2):
            sv = None if new == "none" else [S.token(), S.token()] if new == "list" else S.token()
            snap = S.snapshot([sv])
            S.ensure_same("state variables", S.call("gradient", model.gradient, *x, sv)[-1], sv)
            S.call("hessian", model.hessian, *x, sv)
            S.ensure_true("state variables are unmodified", S.unchanged(snap))
