"""Purity of the evaluations (C17) and threading of state variables (C18)."""
import numpy as np
from ..registry import contract
from ..term import T, const, var, compare, ONE
from ..world import oarr, Obl
from ..arr import Arr
from .. import arr as A
from .common import Energy, InvariantModel, StretchModel
from .framec import inv_kinds, distinct
from .modelc import Strain, GI
from .spacec import ALGEBRA, SPACES, SpaceModel, space_class, kinematics, energy
from .batchc import leaves, MATH

OPS = ("gradient", "hessian")
INV, STR = "frameworks._invariants.Invariants.", "frameworks._stretches.Stretches."


def same(S, label, x, y):
    """two results are equal, component by component"""
    xs, ys = leaves(x), leaves(y)
    S.ensure_true(label + ": structure", len(xs) == len(ys), f"{len(xs)} and {len(ys)} results")
    for (p, a), (_, b) in zip(xs, ys):
        if a is None or b is None:
            S.ensure_true(label + p + ": omitted", a is None and b is None)
        elif S.concrete:
            a, b = np.asarray(a), np.asarray(b)
            if a.dtype == object or b.dtype == object:
                S.ensure_true(label + p, a is b)
            else:
                S.near(label + p, a, b)
        else:
            a, b = Arr.of(a), Arr.of(b)
            S.ensure_true(label + p + ": shape", a.a.shape == b.a.shape and a.tail == b.tail and a.first == b.first, f"{a.shape} and {b.shape}")
            if a.a.shape == b.a.shape:
                for i in np.ndindex(*a.a.shape):
                    S.obls.append(Obl(f"{label}{p}{list(i)}", "eq", a=a.a[i], b=b.a[i]))


def copied(S, x):
    """a copy of a (nested) result"""
    if isinstance(x, (list, tuple)):
        return type(x)(copied(S, y) for y in x)
    if isinstance(x, Arr):
        return Arr(x.a.copy(), x.tail, x.first) if x.first else Arr(x.a.copy(), x.tail)
    return np.array(x) if isinstance(x, np.ndarray) else x


def reachable(S, objs):
    """objects of the package reachable from the given ones"""
    out, st = [], list(objs)
    while st:
        o = st.pop()
        if any(o is p for p in out) or not hasattr(o, "__dict__") or isinstance(o, (type, Arr, T)):
            continue
        if type(o).__module__.split(".")[0] not in ("hyperelastic", getattr(S.pkg, "alias", "hyperelastic")):
            continue
        out.append(o)
        st += list(vars(o).values())
    return out


def constructed(S, objs):
    """state of the objects after construction"""
    return [(o, dict(vars(o))) for o in reachable(S, objs)]


class Havoc:
    n = 0


def arbitrary(S, v):
    """an arbitrary value in place of a cached one"""
    Havoc.n += 1
    nm = f"havoc{Havoc.n}_"
    if isinstance(v, Arr):
        t = np.empty(v.a.shape, dtype=object)
        for i in np.ndindex(*v.a.shape):
            t[i] = var(nm + "".join(map(str, i)))
        return Arr(t, v.tail, v.first) if v.first else Arr(t, v.tail)
    if isinstance(v, (list, tuple)):
        return type(v)(arbitrary(S, x) for x in v)
    return var(nm)


def forget(S, states):
    """every attribute which is set or changed by evaluations gets an arbitrary value: the result must not depend on it.
    The state after any history of evaluations is an instance, so this covers all histories."""
    n = 0
    for o, init in states:
        for k, v in list(vars(o).items()):
            if k in init and init[k] is v:
                continue
            vars(o)[k] = arbitrary(S, v)
            n += 1
    return n


def kept(S, label, states):
    """attributes of the constructor are the same objects after evaluations"""
    bad = [f"{type(o).__name__}.{k}" for o, init in states for k, v in init.items() if k not in vars(o)]
    S.ensure_true(label, not bad, "constructor attributes removed: " + ", ".join(bad))


def assign(S, x, y):
    """the caller overwrites an array in place"""
    if S.concrete:
        if not x.flags.writeable:
            return False
        x[...] = y
    else:
        x.a[...] = y.a
    return True


def spoil(S, r, args):
    """the caller overwrites results (unless they are views of the arguments)"""
    def share(a):
        p = a if S.concrete else a.a
        return any(np.shares_memory(p, b if S.concrete else b.a) for b in args if isinstance(b, (Arr, np.ndarray)))
    for _, a in leaves(r):
        if S.concrete:
            if isinstance(a, np.ndarray) and a.dtype.kind == "f" and a.flags.writeable and not share(a):
                a += 7.5
        elif isinstance(a, Arr) and not share(a):
            for i in np.ndindex(*a.a.shape):
                a.a[i] = a.a[i] + const(7)


def fresh_value(S, op, make, call, x):
    """the result of a new object of the package as after its import"""
    with S.pristine():
        return S.guard(op + " (fresh object)", call, make(), op, x)


def history(S, make, call, x, y, mats=()):
    """make() -> object; call(object, op, input) -> result; x, y: arrays"""
    obj = S.guard("constructor", make)
    states = constructed(S, [obj])
    S.ensure_true("objects under contract", len(states) > 0)
    first = [S.call(op + " (first)", call, obj, op, y) for op in OPS]
    snaps = S.snapshot(first)
    for op in OPS:
        fresh = fresh_value(S, op, make, call, x)
        r = S.call(op + " (after other evaluations)", call, obj, op, x)
        same(S, op + " is independent of former evaluations", r, fresh)
        keep = copied(S, r)
        spoil(S, r, [x, y])
        r2 = S.call(op + " (repeated)", call, obj, op, x)
        same(S, op + " is independent of what the caller does to a former result", r2, keep)
        if not S.concrete:
            forget(S, states)
            r3 = S.call(op + " (arbitrary caches)", call, obj, op, x)
            same(S, op + " is independent of cached values", r3, fresh)
            kept(S, "constructor attributes", states)
        for o in OPS:
            S.call(o + " (later)", call, obj, o, y)
        same(S, op + ": a returned result is not altered by later evaluations", r2, keep)
    S.ensure_true("results returned earlier are unaltered", S.unchanged(snaps), "a result returned earlier was changed")
    # the caller changes the input array in place
    z = copied(S, x)
    if S.concrete and np.shape(x) != np.shape(y):
        y2 = np.ascontiguousarray(z) * 1.03
    else:
        y2 = copied(S, y)
    fz = {op: fresh_value(S, op, make, call, copied(S, z)) for op in OPS}
    fy = {op: fresh_value(S, op, make, call, copied(S, y2)) for op in OPS}
    for before in OPS:
        for op in OPS:
            if not assign(S, x, z):
                continue
            same(S, f"{before} before an in-place change", S.call(before + " (former content)", call, obj, before, x), fz[before])
            assign(S, x, y2)
            same(S, f"{op} after an in-place change of the argument of {before}", S.call(op + " (changed input)", call, obj, op, x), fy[op])
    if S.concrete:
        similar(S, make, call, np.array(z), [obj, make()])
    kept_by(S, mats)


def similar(S, make, call, x, objs):
    """bounded: evaluations at inputs which resemble a former one (nearly equal, permuted, equal sums, one component or point changed)"""
    rng = S.rng
    n = x.shape[0]
    out = [x * (1.0 + 3e-6 * rng.choice([-1, 1])), x * (1.0 + 1e-8), np.swapaxes(x, 0, 1) if x.shape[:2] == (3, 3) else
           x[[1, 2, 0, 4, 5, 3] if n == 6 else np.roll(np.arange(n), 1)]]
    if x.ndim > 1 and x.shape[-1] > 1 and not (x.ndim == 2 and x.shape == (3, 3)):
        out.append(x[..., ::-1])
        y = x.copy()
        y[..., -1] *= 1.0 + 1e-3
        out.append(y)
        out.append(x[..., :1] + 0.0 * x)
    y = x.copy()
    k = (0, 1) if x.shape[:2] == (3, 3) else (n - 1,)
    y[k] += 1e-4 * np.abs(x).max()
    out.append(y)
    if x.shape[:2] != (3, 3):
        y = y.copy()
        y[0] -= 1e-4 * np.abs(x).max()
        out.append(y)
    for obj in objs:
        for j, v in enumerate(out):
            op, before = OPS[int(rng.integers(2))], OPS[int(rng.integers(2))]
            S.call(before + " (former input)", call, obj, before, x)
            same(S, f"{op} at an input which resembles a former one ({j})", S.call(op + " (similar input)", call, obj, op, np.array(v)),
                 fresh_value(S, op, make, call, np.array(v)))


class Keeps:
    """records the arrays a material (or strain function) returned: they may be kept by it, so nobody else may change them"""

    def __init__(self, S, obj, names=OPS):
        self.S, self.snaps = S, []
        for n in names:
            setattr(obj, n, self.wrap(getattr(obj, n)))

    def wrap(self, f):
        def g(*a, **k):
            r = f(*a, **k)
            self.S.snapshot(r, self.snaps)
            return r
        return g


def kept_by(S, mats):
    for k in mats:
        S.ensure_true("arrays returned by the material are unmodified", S.unchanged(k.snaps), "an array owned by the material was changed")


# ------------------------------------------------------------------ C17
def _space_cases(tier):
    for space in SPACES:
        for conf in ("first", "cauchy", "plain", "lagrange"):
            yield dict(space=space, conf=conf)


CONF = {"first": {}, "cauchy": dict(area=None), "plain": dict(finalize=False), "lagrange": dict(force=0)}


@contract("C17", [f"{m}.{c}.{f}" for m, c in SPACES.values() for f in OPS] + ["spaces._space.Space.piola"], _space_cases, callees=ALGEBRA, weight=2.0, runs=8)
def h_space(S, space, conf):
    """for every state of the caches, stress and elasticity are those of a fresh object"""
    F = S.defgrad("F", "A")
    G = S.defgrad("G", "A")
    kinematics(S, F)
    W = Energy(S, "W", 6)
    mat = SpaceModel(S, W, "full", None)
    make = lambda: space_class(S, space)(mat, **CONF[conf])
    call = lambda o, op, x: getattr(o, op)([x, None])
    f, g = copied(S, F.val), copied(S, G.val)
    history(S, make, call, F.val, G.val, [Keeps(S, mat)])
    # the caller uses one list of fields for all evaluations
    fresh = {op: fresh_value(S, op, make, call, g) for op in OPS}
    for before in OPS:
        for op in OPS:
            obj = S.guard("constructor", make)
            fields = [f, None]
            S.call(before + " (same list, former field)", getattr(obj, before), fields)
            S.ensure_true("the list of the fields is unmodified", len(fields) == 2 and fields[0] is f and fields[1] is None)
            fields[0] = g
            same(S, f"{op} with the list of fields of a former {before}", S.call(op + " (same list, other field)", getattr(obj, op), fields), fresh[op])


def _frame_cases(tier):
    for p in ("111-111111", "100-000000", "110-000100", "001-001000"):
        yield dict(what="invariants", p=p)
        yield dict(what="generalized", p=p)
    yield dict(what="stretches", p="list")
    yield dict(what="stretches", p="array")
    for n in ("2", "1", "5"):
        yield dict(what="ogden", p=n)
    yield dict(what="tod", p="")


@contract("C17", [INV + "gradient", INV + "hessian", STR + "gradient", STR + "hessian", GI + "gradient", GI + "hessian",
                  "models.stretches._ogden.Ogden.gradient", "models.stretches._ogden.Ogden.hessian",
                  "models.invariants._third_order_deformation.ThirdOrderDeformation.gradient",
                  "models.invariants._third_order_deformation.ThirdOrderDeformation.hessian"], _frame_cases, callees=ALGEBRA + ("eigh",), weight=2.0, runs=8)
def h_frame(S, what, p):
    """for every state of the caches, the derivatives are those of a fresh framework or model"""
    call = lambda o, op, x: getattr(o, op)(x, None)
    mats = []
    if what == "invariants":
        C, D = S.spd("C", "A"), S.spd("D", "A")
        mat = InvariantModel(S, Energy(S, "W", 3, inv_kinds(p, "array")), None)
        mats.append(Keeps(S, mat))
        make = lambda: S.pkg.frameworks.Invariants(mat)
    elif what == "stretches":
        C, D = S.spectral("C", "A"), S.spectral("D", "A")
        S.symmetric("W")
        distinct(S, C.lam)
        distinct(S, D.lam)
        mat = StretchModel(S, Energy(S, "W", 3), None, p)
        mats.append(Keeps(S, mat))
        make = lambda: S.pkg.frameworks.Stretches(mat)
    elif what == "tod":
        C, D = S.arr("I", (3,), "A"), S.arr("K", (3,), "A")
        par = {n: S.scalar(n) for n in ("C10", "C01", "C11", "C20", "C30")}
        make = lambda: S.pkg.models.invariants.ThirdOrderDeformation(**par)
        call = lambda o, op, x: getattr(o, op)(x[0], x[1], x[2], None)
    else:
        C, D = S.stretches("l", "A"), S.stretches("k", "A")
        if what == "ogden":
            al = [S.scalar(f"al{i}", positive=True, exponent=True) for i in range(int(p))]
            mu = [S.scalar(f"mu{i}") for i in range(int(p))]
            if not S.concrete:
                S.requires(*[compare("!=", var(f"al{i}"), const(0)) for i in range(int(p))])
            make = lambda: S.pkg.models.stretches.Ogden(mu, al)
        else:
            st = Strain(S)
            st.requires()
            mat = InvariantModel(S, Energy(S, "W", 3, inv_kinds(p, "array")), None)
            mats += [Keeps(S, mat), Keeps(S, st, ())]
            strain = mats[-1].wrap(st)
            make = lambda: S.pkg.models.stretches.GeneralizedInvariantsModel(mat, strain)
    history(S, make, call, C.val, D.val, mats)


UNARY = ("trace", "det", "inv", "dev", "eye", "astensor", "asvoigt", "transpose", "astensor4", "asvoigt4", "tril", "triu", "eigh")
BINARY = ("dot", "ddot22", "ddot24", "ddot42", "ddot44", "dya", "cdya", "cdya_ik", "cdya_il")


@contract("C17", [MATH + n for n in ("asvoigt", "astensor", "tril_from_triu", "triu_from_tril", "trace", "transpose", "det", "inv", "dev", "cdya_ik", "cdya_il",
                                     "cdya", "dya", "dot", "ddot", "eye", "eigh")], [dict(f=f) for f in UNARY + BINARY], runs=6)
def h_math(S, f):
    """a function returns the same value whatever was evaluated before and whatever became of its former results"""
    m = S.pkg.math
    shape = {"asvoigt": (3, 3), "asvoigt4": (3, 3, 3, 3), "astensor4": (6, 6), "transpose": (6, 6), "tril": (6, 6), "triu": (6, 6)}
    kw = {}
    name = f
    if f.endswith("4") and f[:2] == "as":
        name, kw = f[:-1], dict(mode=4)
    elif f.startswith("ddot"):
        name, kw = "ddot", dict(mode=(int(f[4]), int(f[5])))
    elif f in ("tril", "triu"):
        name = {"tril": "tril_from_triu", "triu": "triu_from_tril"}[f]
    fn = getattr(m, name)
    if f in BINARY:
        sa, sb = {"ddot24": ((6,), (6, 6)), "ddot42": ((6, 6), (6,)), "ddot44": ((6, 6), (6, 6))}.get(f, ((6,), (6,)))
        x = [S.arr("A", sa, "A").val, S.arr("B", sb, "A").val]
        y = [S.arr("C", sa, "A").val, S.arr("D", sb, "A").val]
    elif f == "eigh":
        x, y = [S.spectral("A", "A").val], [S.spectral("C", "A").val]
    elif f == "inv":
        x, y = [S.spd("A", "A").val], [S.spd("C", "A").val]
    else:
        s = shape.get(f, (6,))
        x, y = [S.arr("A", s, "A").val], [S.arr("C", s, "A").val]
    with S.pristine():
        ref = S.guard(f, getattr(S.pkg.math, name), *copied(S, x), **kw)
    r1 = S.call(f, fn, *x, **kw)
    same(S, "value after former calls", r1, ref)
    keep = copied(S, r1)
    r2 = S.call(f + " (other arguments)", fn, *y, **kw)
    keep2 = copied(S, r2)
    same(S, "an earlier result is not altered by later calls", r1, keep)
    spoil(S, r1, x)
    same(S, "results are independent arrays", r2, keep2)
    same(S, "value after other calls", S.call(f + " (again)", fn, *x, **kw), keep)


class Scaled:
    """a material with scaled energy"""

    def __init__(self, material, factor):
        self.m, self.f = material, factor
        self.x = material.x

    def gradient(self, C, statevars):
        g, s = self.m.gradient(C, statevars)
        return self.f * g, s

    def hessian(self, C, statevars):
        return self.f * self.m.hessian(C, statevars)


def _world_cases(tier):
    for fw in ("invariants", "stretches", "generalized"):
        for seed in range(2 if tier == "quick" else 12):
            yield dict(fw=fw, seed=seed)


@contract("C17", [f"{m}.{c}.{f}" for m, c in SPACES.values() for f in OPS] + [INV + "gradient", INV + "hessian", STR + "gradient", STR + "hessian"],
          _world_cases, sym=False, runs=8)
def h_world(S, fw, seed):
    """bounded: interleavings of evaluations of spaces which share a framework and a model"""
    def models(p):
        if fw == "stretches":
            return p.models.stretches.Ogden([1.0, 0.2], [1.7, -1.5])
        if fw == "invariants":
            return p.models.invariants.ThirdOrderDeformation(C10=0.5, C01=0.1, C11=0.05, C20=-0.02, C30=0.01)
        return p.models.invariants.ThirdOrderDeformation(C10=0.5, C01=0.1, C20=0.02)
    model = models(S.pkg)

    def frame(new=False):
        p = S.pkg
        m = models(p) if new else model
        if fw == "generalized":
            return p.frameworks.GeneralizedInvariants(m, p.models.generalized.deformation, exponent=1.3)
        return (p.frameworks.Invariants if fw == "invariants" else p.frameworks.Stretches)(m)
    names = list(SPACES)
    confs = list(CONF.values())
    shared = frame()
    rng = S.rng
    xs = [S.defgrad("F", "A").val, S.defgrad("G", "A").val, np.eye(3).reshape(3, 3, 1) * 1.1, np.eye(3).reshape(3, 3, 1, 1) + 0.05 * rng.normal(size=(3, 3, 2, 2))]
    spec = []
    for k in range(4):
        spec.append((names[rng.integers(3)], confs[rng.integers(4)], float(rng.choice([1.0, 2.0]))))
    objs = [space_class(S, n)(shared if s == 1.0 else Scaled(shared, s), **c) for n, c, s in spec]
    results = []
    for step in range(10):
        k, j, op = int(rng.integers(4)), int(rng.integers(len(xs))), OPS[int(rng.integers(2))]
        x = xs[j]
        what = rng.random()
        if what < 0.2 and x.flags.writeable:
            x *= 1.0 + 0.05 * rng.random()
        if what > 0.85 and results:
            for _, a in leaves(results.pop()[0]):
                if isinstance(a, np.ndarray) and a.flags.writeable:
                    a *= 0.5
        n, c, s = spec[k]
        r = S.call(f"{n}.{op}", getattr(objs[k], op), [x, None])
        with S.pristine():
            ref = getattr(space_class(S, n)(frame(True), **c), op)([np.array(x), None])
        same(S, f"step {step}: {n}.{op} is independent of the history", r[0], s * ref[0])
        results.append((r, copied(S, r)))
    for r, keep in results:
        same(S, "a result returned earlier is unaltered", r, keep)


# ------------------------------------------------------------------ C18
class Recorder:
    """records the state variables a model receives"""

    def __init__(self, model, new):
        self.model, self.new, self.calls = model, new, []
        self.x = getattr(model, "x", None)

    def gradient(self, *args):
        self.calls.append(("gradient", args[-1]))
        r = self.model.gradient(*args[:-1], None)
        return tuple(r[:-1]) + (self.new,)

    def hessian(self, *args):
        self.calls.append(("hessian", args[-1]))
        return self.model.hessian(*args[:-1], None)


def threaded(S, rec, label, old, ops, want=OPS):
    for op, sv in rec.calls:
        S.ensure_same(f"{label}: the model's {op} receives the old state variables", sv, old)
    seen = {op for op, _ in rec.calls}
    S.ensure_true(f"{label}: the model is evaluated", set(ops) <= seen, f"called: {sorted(seen)}")
    rec.calls.clear()


def states_of(S, call, obj, rec, x):
    """call(obj, op, x, statevars) -> result"""
    old, new, third = S.token(), rec.new, S.token()
    so, sn = S.snapshot([old]), S.snapshot([new])
    r = S.call("gradient", call, obj, "gradient", x, old)
    threaded(S, rec, "gradient", old, ("gradient",))
    S.ensure_same("gradient returns the updated state variables", r[-1], new)
    S.call("hessian", call, obj, "hessian", x, old)
    threaded(S, rec, "hessian", old, ("hessian",))
    S.call("hessian (next step)", call, obj, "hessian", x, third)
    threaded(S, rec, "hessian (next step)", third, OPS)
    r = S.call("gradient (next step)", call, obj, "gradient", x, third)
    threaded(S, rec, "gradient (next step)", third, ("gradient",))
    S.ensure_same("gradient returns the updated state variables (next step)", r[-1], new)
    S.ensure_true("state variables are unmodified", S.unchanged(so) and S.unchanged(sn))


def _sv_cases(tier):
    for c in _space_cases(tier):
        yield dict(c, kind="plain")
    for space in SPACES:
        yield dict(space=space, conf="first", kind="extra")
        yield dict(space=space, conf="first", kind="none")
        yield dict(space=space, conf="first", kind="list")


@contract("C18", [f"{m}.{c}.{f}" for m, c in SPACES.values() for f in OPS], _sv_cases, callees=ALGEBRA + ("piola",), runs=8)
def v_space(S, space, conf, kind):
    F = S.defgrad("F", "A")
    kinematics(S, F)
    new = None if kind == "none" else [S.token(), S.token()] if kind == "list" else S.token()
    rec = Recorder(SpaceModel(S, Energy(S, "W", 6), "full", None), new)
    obj = S.guard("space", space_class(S, space), rec, **CONF[conf])
    more = [S.token()] if kind == "extra" else []   # further fields between F and the state variables
    states_of(S, lambda o, op, x, sv: getattr(o, op)([x, *more, sv]), obj, rec, F.val)


def _var_cases(tier):
    for p in ("111-111111", "100-000000", "000-000000", "011-011010"):
        yield dict(what="invariants", p=p)
        yield dict(what="generalized", p=p)
        yield dict(what="framework", p=p)
    yield dict(what="stretches", p="list")
    yield dict(what="stretches", p="array")
    for w in ("invariants", "generalized", "framework"):
        yield dict(what=w, p="111-111111", new="none")
        yield dict(what=w, p="110-000000", new="list")
    yield dict(what="stretches", p="list", new="none")
    yield dict(what="stretches", p="array", new="list")


@contract("C18", [INV + "gradient", INV + "hessian", STR + "gradient", STR + "hessian", "frameworks._generalized.GeneralizedInvariants.__init__",
                  GI + "gradient", GI + "hessian"], _var_cases, callees=ALGEBRA + ("eigh",), runs=8)
def v_frame(S, what, p, new="token"):
    new = None if new == "none" else [S.token(), S.token()] if new == "list" else S.token()
    call = lambda o, op, x, sv: getattr(o, op)(x, sv) if op == "gradient" else (getattr(o, op)(x, sv), None)
    if what == "invariants":
        C = S.spd("C", "A")
        rec = Recorder(InvariantModel(S, Energy(S, "W", 3, inv_kinds(p, "array")), None), new)
        obj = S.guard("framework", S.pkg.frameworks.Invariants, rec)
    elif what == "stretches":
        C = S.spectral("C", "A")
        S.symmetric("W")
        distinct(S, C.lam)
        rec = Recorder(StretchModel(S, Energy(S, "W", 3), None, p), new)
        obj = S.guard("framework", S.pkg.frameworks.Stretches, rec)
    else:
        st = Strain(S)
        st.requires()
        rec = Recorder(InvariantModel(S, Energy(S, "W", 3, inv_kinds(p, "array")), None), new)
        if what == "generalized":
            C = S.stretches("l", "A")
            obj = S.guard("model", S.pkg.models.stretches.GeneralizedInvariantsModel, rec, st)
        else:
            C = S.spectral("C", "A")
            distinct(S, C.lam)
            obj = S.guard("framework", S.pkg.frameworks.GeneralizedInvariants, rec, st)
    states_of(S, call, obj, rec, C.val)


@contract("C18", ["models.invariants._third_order_deformation.ThirdOrderDeformation.gradient", "models.stretches._ogden.Ogden.gradient"],
          [dict(what=w) for w in ("tod", "ogden")], runs=8)
def v_model(S, what):
    """the models without internal variables return the state variables they receive"""
    sv = S.token()
    if what == "tod":
        I = [S.arr(f"I{k}", (), "A").val for k in (1, 2, 3)]
        m = S.guard("model", S.pkg.models.invariants.ThirdOrderDeformation, **{n: S.scalar(n) for n in ("C10", "C01", "C11", "C20", "C30")})
        r = S.call("gradient", m.gradient, *I, sv)
    else:
        l = S.stretches("l", "A")
        al = S.scalar("al0", positive=True, exponent=True)
        if not S.concrete:
            S.requires(compare("!=", var("al0"), const(0)))
        m = S.guard("model", S.pkg.models.stretches.Ogden, [S.scalar("mu0")], [al])
        r = S.call("gradient", m.gradient, l.val, sv)
    S.ensure_same("state variables", r[-1], sv)


@contract("C18", ["frameworks._invariants.Invariants.__init__", "frameworks._stretches.Stretches.__init__", "frameworks._generalized.GeneralizedInvariants.__init__"]
          + [f"{m}.{c}.__init__" for m, c in SPACES.values()], [dict(space=s, what=w) for s in SPACES for w in ("invariants", "stretches", "generalized")], runs=4)
def v_init(S, space, what):
    """the initial variables of a space hold as many state variables as requested of the framework"""
    rec = Recorder(InvariantModel(S, Energy(S, "W", 3), None), None)
    n = 5
    f = S.pkg.frameworks
    if what == "generalized":
        st = Strain(S)
        st.requires()
        fw = S.guard("framework", f.GeneralizedInvariants, rec, st, nstatevars=n)
    else:
        fw = S.guard("framework", f.Invariants if what == "invariants" else f.Stretches, rec, nstatevars=n)
    sp = S.guard("space", space_class(S, space), fw)
    for o, lab in ((fw, "framework"), (sp, "space")):
        S.ensure_true(lab + ": initial variables", len(o.x) == 2 and tuple(np.shape(o.x[0]) if S.concrete else Arr.of(o.x[0]).a.shape) == (3, 3)
                      and tuple(np.shape(o.x[-1]) if S.concrete else Arr.of(o.x[-1]).a.shape) == (n,))
