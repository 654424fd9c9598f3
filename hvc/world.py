"""One contract text, two worlds: SymWorld proves it for all inputs, ConWorld runs it on the real package at one input."""
import contextlib
import itertools
import math
import numpy as np
from . import term as TM
from . import arr as A
from . import npshim
from .arr import Arr, Shapes, SymRank
from .loader import Pristine
from .term import (T, B, Unsupported, var, const, fun, compare, band, bor, bnot, add, mul, sub, div, power, scale, ZERO, ONE,
                   coerce, evaluate, evalb, diff, subst, free_vars)


class Abort(BaseException):
    """the path ends (an exception escaped, a precondition of the sample fails)"""


class In:
    """an input: the value handed to the code and the terms which name its components"""

    def __init__(self, name, val, t, tail):
        self.name, self.val, self.t, self.tail = name, val, t, tail

    def __getitem__(self, i):
        return self.t[i]


def tailset(tail):
    return None if tail is None else frozenset(tail)


def oarr(x):
    """object array of terms from nested lists"""
    if isinstance(x, Arr):
        return x.a
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    if isinstance(x, T):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (int, float)):
        return oarr(coerce(x))
    parts = [oarr(y) for y in x]
    a = np.empty((len(parts),) + parts[0].shape, dtype=object)
    for i, p in enumerate(parts):
        a[i] = p if p.ndim else p[()]
    return a


class Obl:
    __slots__ = ("label", "kind", "a", "b", "cond", "text", "cands", "using", "abstract")

    def __init__(self, label, kind, a=None, b=None, cond=None, text="", cands=(), using=(), abstract=None):
        self.label, self.kind, self.a, self.b, self.cond, self.text, self.cands, self.using, self.abstract = label, kind, a, b, cond, text, cands, using, abstract


def rotation_terms(axis, c, s):
    q = [[ONE if i == j else ZERO for j in range(3)] for i in range(3)]
    i, j = [(1, 2), (2, 0), (0, 1)][axis]
    q[i][i], q[j][j], q[i][j], q[j][i] = c, c, scale(s, -1), s
    return q


class Base:
    """input vocabulary common to both worlds"""

    def pristine(self):
        """symbolic executions start from the state after import, and none may change the module-level state (loader.ModuleState)"""
        return contextlib.nullcontext()

    def det3(self, m):
        return npshim.det3([[m[i][j] for j in range(3)] for i in range(3)])

    @staticmethod
    def full(v):
        """3x3 nested list from the six reduced components"""
        k = [[0, 3, 5], [3, 1, 4], [5, 4, 2]]
        return [[v[k[i][j]] for j in range(3)] for i in range(3)]


class SymWorld(Base):
    concrete = False

    def __init__(self, pkg, prefix, prover, frame=False):
        self.pkg = pkg
        self.prefix = list(prefix)
        self.decisions = []
        self.branch = []           # alternatives discovered: list of prefixes
        self.prover = prover
        self.hyps = []             # preconditions (hold at every point)
        self.gfacts = []           # decided facts which do not depend on the generic point
        self.pfacts = []           # decided facts at the generic point
        self.lemmas = {}
        self.memo = {}
        self.obls = []
        self.defined = []
        self.frame = frame
        self.tail = None
        self.lastex = None
        self.cands = []
        self.tokens = 0
        self.symf = set()
        self.defs = {}
        self.rels = {}
        self.transfers = []
        TM.names.clear()
        npshim.Ctx.eigh = []
        npshim.Ctx.same = self._same
        npshim.Ctx.notes = []
        Shapes.absorb = set()
        Shapes.rank = {}
        self.case_tails = set()

    # ---- oracle
    def facts(self):
        return self.hyps + self.gfacts + self.pfacts

    def decide_point(self, b):
        return self.decide(b, True)

    def decide(self, b, point=False):
        r = self.memo.get(b)
        if r is not None:
            return r
        nb = bnot(b)
        if b.op in ("and", "not") and not point:
            # decide connectives by their parts (all/any inside)
            if b.op == "not":
                r = not self.decide(b.args[0])
                self.memo[b] = r
                return r
            r = True
            for x in b.args:
                if not (x if isinstance(x, bool) else self.decide(x)):
                    r = False
                    break
            self.memo[b] = r
            return r
        k = len(self.decisions)
        if k < len(self.prefix):
            r = self.prefix[k]
        else:
            if b.op in ("all", "any"):
                # all(p): p may be assumed at the generic point; not all(p): some point violates p (globally possible)
                p = b.args[0]
                if b.op == "all":
                    t = self.prover.feasible(self.facts() + [p])
                    f = self.prover.feasible(self.hyps + self.gfacts + [bnot(p)])
                else:
                    t = self.prover.feasible(self.hyps + self.gfacts + [p])
                    f = self.prover.feasible(self.facts() + [bnot(p)])
            else:
                t = self.prover.feasible(self.facts() + [b])
                f = self.prover.feasible(self.facts() + [nb]) if t else True
            if t and f and any(n.endswith("#") for x in TM.bterms(b) for n in free_vars(x)):
                raise Unsupported("the path depends on the elements of a sequence of unknown length")
            if t and f:
                self.branch.append(self.decisions + [False])
                r = True
            elif t:
                r = True
            elif f:
                r = False
            else:
                raise Abort("infeasible path")
        self.decisions.append(r)
        self.memo[b] = r
        self.memo[nb] = not r
        fact = b if r else nb
        if fact.op == "all":
            if isinstance(fact.args[0], B):
                self.pfacts.append(fact.args[0])
            self.gfacts.append(fact)
        elif fact.op == "any":
            self.gfacts.append(fact)
        elif point:
            self.pfacts.append(fact)
        else:
            self.gfacts.append(fact)
        return r

    def _same(self, a, b):
        if a is b:
            return True
        try:
            return self.prover.ring.equal(a, b)
        except Exception:
            return False

    # ---- inputs
    def _note_tail(self, tail):
        if tail is not None:
            self.tail = frozenset(tail) if self.tail is None else self.tail | frozenset(tail)
            self.case_tails.add(tail)

    def absorb(self, a, b):
        """trailing shape b broadcasts into trailing shape a"""
        Shapes.absorb.add((a, b))

    def fix_rank(self, n, *names):
        for k in names or ("A", "B", ""):
            Shapes.rank[k] = n

    def arr(self, name, shape, tail="A", positive=False, gen=None):
        self._note_tail(tail)
        t = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            t[i] = var(name + "".join(map(str, i)) if shape else name, positive)
        if tail is None and shape == ():
            return In(name, t[()], t, tail)
        return In(name, Arr(t.copy(), tailset(tail)), t, tail)

    def spd(self, name, tail="A", gen=None):
        x = self.arr(name, (6,), tail)
        c = x.t
        self.requires(compare(">", c[0], ZERO), compare(">", c[1], ZERO), compare(">", c[2], ZERO),
                      compare(">", sub(mul(c[0], c[1]), power(c[3], const(2))), ZERO),
                      compare(">", self.det3(self.full(c)), ZERO))
        return x

    def sym(self, name, tail="A", gen=None):
        return self.arr(name, (6,), tail)

    def defgrad(self, name="F", tail="A", gen=None):
        x = self.arr(name, (3, 3), tail)
        self.requires(compare(">", self.det3(x.t), ZERO))
        return x

    def stretches(self, name, tail="A"):
        return self.arr(name, (3,), tail, positive=True)

    def spectral(self, name, tail="A", signed=False):
        """a symmetric tensor given by its eigenvalues (squared principal stretches, unless signed) and an orthonormal frame"""
        self._note_tail(tail)
        lam = [var(f"{name}l{a}", not signed) for a in range(3)]
        val = lam if signed else [power(l, const(2)) for l in lam]
        n = [[var(f"{name}n{i}{a}") for a in range(3)] for i in range(3)]
        m = [[add(*[mul(val[a], n[i][a], n[j][a]) for a in range(3)]) for j in range(3)] for i in range(3)]
        npshim.Ctx.eigh.append((m, val, n))
        idx = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
        c = np.empty(6, dtype=object)
        for k, (i, j) in enumerate(idx):
            c[k] = m[i][j]
        x = In(name, Arr(c.copy(), tailset(tail)), c, tail)
        x.lam, x.n, x.values = lam, n, val
        ortho = []
        for a in range(3):
            for b in range(a, 3):
                d = const(1 if a == b else 0)
                ortho.append(compare("==", add(*[mul(n[i][a], n[i][b]) for i in range(3)]), d))
                ortho.append(compare("==", add(*[mul(n[a][i], n[b][i]) for i in range(3)]), d))
        self.lemmas["ortho"] = self.lemmas.get("ortho", []) + ortho
        return x

    def scalar(self, name, positive=False, gen=None, exponent=False):
        return var(name, positive)

    def requires(self, *bs):
        for b in bs:
            if b is False:
                raise Abort("precondition false")
            if b is not True:
                self.hyps.append(b)

    def candidates(self, *bs):
        self.cands += [b for b in bs if not isinstance(b, bool)]

    def choose(self, cond, yes, no):
        """case distinction of the specification, decided by the path (or splitting it)"""
        if isinstance(cond, bool):
            return yes() if cond else no()
        if self.prover.entails(self.facts(), cond):
            return yes()
        if self.prover.entails(self.facts(), bnot(cond)):
            return no()
        return yes() if self.decide_point(cond) else no()

    def rotation(self, axis, name="rot"):
        """rotation about a coordinate axis by an arbitrary angle (these generate all rotations): 3x3 nested list of terms"""
        c, s = var(name + "c"), var(name + "s")
        self.rels[name + "s"] = name + "c"
        self.requires(compare("==", add(power(c, const(2)), power(s, const(2))), ONE))
        return rotation_terms(axis, c, s)

    def alias(self, terms, by):
        """while the code runs, a computed term is represented by another one which equals it (by obligations of the contract)"""
        for t, b in zip(oarr(terms).reshape(-1), oarr(by).reshape(-1)):
            TM.name_term(t, b)

    def transfer(self, terms, linear):
        """lemma: the variables vanish where all terms vanish; linear: the variables as linear combinations of the terms
        (pairs variable, function of the list of terms); proved as obligations"""
        zs = [t for t in oarr(terms).reshape(-1)]
        for x, comb in linear:
            self.obls.append(Obl(f"{TM.show(x, 2)} is a linear combination of terms", "eq", a=x, b=comb))
        self.transfers.append((zs, [x for x, _ in linear]))

    def of_terms(self, name, terms, tail):
        """an input given by terms of other inputs"""
        self._note_tail(tail)
        t = oarr(terms)
        return In(name, Arr(t.copy(), tailset(tail)), t, tail)

    def ghost(self, name, terms, keys=(), positive=False, facts=None):
        """ghost variables which name the given terms; keys: further terms (equal to them by a lemma) which get the same name"""
        t = oarr(terms)
        v = np.empty(t.shape, dtype=object)
        for i in np.ndindex(*t.shape):
            v[i] = var(name + "".join(map(str, i)), positive)
            self.defs[v[i]] = t[i]
        for k in [t] + [oarr(k) for k in keys]:
            for i in np.ndindex(*t.shape):
                TM.name_term(k[i], v[i])
        return v

    # ---- uninterpreted functions
    def symmetric(self, *names):
        self.symf |= set(names)

    def apply(self, name, der, args):
        """array of values of a partial derivative of an uninterpreted function"""
        xs = [Arr.of(a) for a in args]
        t, first, rev, leads = A.layout(xs)
        return A.wrap(A.elementwise(lambda *v: fun(name, der, v), *leads), t, first, rev)

    def token(self, tail=None, shape=(2,)):
        self.tokens += 1
        return self.arr(f"tok{self.tokens}_", shape, tail).val

    def pkg_np(self):
        return npshim.numpy

    # ---- execution
    def snapshot(self, x, out=None):
        out = [] if out is None else out
        if isinstance(x, Arr):
            out.append((x, x.a.copy(), x.tail))
        elif isinstance(x, (list, tuple)):
            for y in x:
                self.snapshot(y, out)
            if isinstance(x, list):
                out.append((x, list(x), None))
        elif isinstance(x, dict):
            for y in x.values():
                self.snapshot(y, out)
        return out

    def unchanged(self, snaps):
        for x, old, tail in snaps:
            if isinstance(x, list):
                if len(x) != len(old) or any(p is not q for p, q in zip(x, old)):
                    return False
                continue
            if x.a.shape != old.shape or x.tail != tail:
                return False
            if any(p is not q and p != q for p, q in zip(x.a.reshape(-1).tolist(), old.reshape(-1).tolist())):
                return False
        return True

    def guard(self, label, fn, *args, raises=False, **kw):
        """run the code under contract; an escaping exception is a failed obligation"""
        TM.defined_log = self.defined
        try:
            return fn(*args, **kw)
        except Exception as e:
            if raises:
                self.lastex = e
                return None
            self.obls.append(Obl(label + "/no-exception", "noexc", text=f"{type(e).__name__}: {e}"))
            raise Abort("exception")
        finally:
            TM.defined_log = None

    def call(self, label, fn, *args, out=None, **kw):
        if out is not None:
            kw["out"] = out
        snaps = self.snapshot([a for a in args]) + self.snapshot({k: v for k, v in kw.items() if k != "out"})
        if out is not None:
            snaps = [s for s in snaps if s[0] is not out]
        r = self.guard(label, fn, *args, **kw)
        if self.frame:
            ok = self.unchanged(snaps)
            self.obls.append(Obl(label + "/arguments-unmodified", "frame", cond=ok, text="an argument array was modified"))
        return r

    # ---- obligations
    def ensure(self, label, result, spec, tail="inputs", using=(), abstract=None, cut=None):
        """result has the leading shape of spec, broadcasts over the material points, and equals spec component-wise"""
        want = self.tail if tail == "inputs" else tail
        spec = oarr(spec)
        try:
            r = Arr.of(result)
        except Unsupported:
            self.obls.append(Obl(label + "/shape", "shape", cond=False, text=f"result of type {type(result).__name__}"))
            return
        ok = not (r.first and r.tail)
        txt = f"result {r.shape}, expected {spec.shape} + {'-' if want is None else sorted(want)}"
        a = r.a
        if r.tail is None and want is not None:
            if a.ndim and a.ndim == spec.ndim + 1 and a.shape[-1] == 1 and False:
                pass
            ok = ok and (a.ndim == 0 or spec.ndim > 0 and a.shape == () or a.shape == spec.shape and spec.ndim == 0)
            if a.ndim:
                ok = False
        elif r.tail is not None:
            ok = ok and (want is not None or not r.tail) and (want is None or A.subset(r.tail, want))
        if ok and a.shape != spec.shape:
            ok = a.ndim == 0 and False
        self.obls.append(Obl(label + "/shape", "shape", cond=bool(ok), text=txt))
        if not ok:
            return
        for i in np.ndindex(*spec.shape):
            self.obls.append(Obl(f"{label}[{','.join(map(str, i))}]", "eq", a=coerce(a[i]), b=spec[i], using=using, abstract=abstract))

    def ensure_true(self, label, cond, text="", using=()):
        self.obls.append(Obl(label, "true", cond=cond if isinstance(cond, B) else bool(cond), text=text, using=using))

    def ensure_same(self, label, x, y):
        """object identity (state-variable tokens)"""
        def alike(x, y):
            if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
                return len(x) == len(y) and all(alike(p, q) for p, q in zip(x, y))
            return x is y or (isinstance(x, Arr) and isinstance(y, Arr) and x.a.shape == y.a.shape and x.tail == y.tail
                              and all(p is q for p, q in zip(x.a.reshape(-1), y.a.reshape(-1))))
        ok = alike(x, y)
        self.obls.append(Obl(label, "true", cond=bool(ok), text="state variables differ"))


# =====================================================================================================================
class NumFun:
    """numeric interpretation of an uninterpreted function: sum_j a_j sin(b_j . x + c_j), optionally symmetrized"""

    def __init__(self, rng, n, mag=1.0, symmetric=False):
        self.n = n
        k = 3
        s = min(0.9, 1.6 / n ** 0.5)
        self.a = rng.uniform(0.4, 1.2, k) * np.array([1, 0.7, 0.5]) * mag
        self.b = rng.uniform(0.3 * s, s, (k, n)) * rng.choice([1.0, 0.7, -0.6], size=(k, n))
        self.c = rng.uniform(-3, 3, k)
        self.symmetric = symmetric
        self.zero = ()
        self.special = self.patchy = False

    def __call__(self, der, *x):
        der = tuple(int(d) for d in der)
        if self.zero and self.zero(der):
            return 0.0 * sum(x)
        if self.special and self.n == 1 and der == (0,):
            # a function which vanishes at one, as a strain does
            return self.value(der, *x) - self.value(der, 1.0)
        if self.special and self.patchy:
            # a function which is constant in some regions
            return np.where(np.sin(1e3 * sum(x) + 0.7) > 0, 1.0, 0.0) * self.value(der, *x)
        return self.value(der, *x)

    def value(self, der, *x):
        perms = list(itertools.permutations(range(self.n))) if self.symmetric else [tuple(range(self.n))]
        ph = sum(der) * np.pi / 2
        r = 0.0
        for p in perms:
            for a, b, c in zip(self.a, self.b, self.c):
                bp = b[list(p)]
                f = a / len(perms)
                for d, bb in zip(der, bp):
                    f = f * bb ** d
                r = r + f * np.sin(sum(bb * xx for bb, xx in zip(bp, x)) + c + ph)
        return r


def rotation(rng, shape=()):
    q = rng.normal(size=(4,) + shape)
    q = q / np.sqrt((q ** 2).sum(axis=0))
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


MODES = ["generic", "mild", "coaxial", "identity", "equi2", "equi3", "large", "uniaxial-point", "integerish", "near-identity", "near-equi", "extreme", "tiny", "isochoric", "near-isochoric", "in-plane", "near-coaxial"]


class Repeated:
    """a random generator whose draws for all material points are equal along the last trailing axis"""

    def __init__(self, world):
        self.w, self.g = world, np.random.default_rng(world.opts.get("seed", 5))

    def __getattr__(self, name):
        f = getattr(self.g, name)

        def draw(*a, **k):
            r = f(*a, **k)
            dims = tuple(self.w.dims or ())
            if isinstance(r, np.ndarray) and r.ndim >= len(dims) > 0 and r.shape[r.ndim - len(dims):] == dims and dims[-1]:
                r = np.repeat(r[..., :1], dims[-1], axis=-1)
            return r
        return draw


class ConWorld(Base):
    concrete = True

    @contextlib.contextmanager
    def pristine(self):
        """the package without any former evaluation"""
        old = self.pkg
        with Pristine() as p:
            self.pkg = p
            try:
                yield
            finally:
                self.pkg = old

    def __init__(self, pkg, seed, opts=None):
        self.pkg = pkg
        self.opts = dict(opts or {})
        self.blocks = {}
        self.rng = np.random.default_rng(seed)
        if self.opts.get("layout") == "broadcast":
            self.rng = Repeated(self)
        self.seed = seed
        self.env = {"vars": {}, "funs": {}, "seqs": {}, "opaque": {}}
        self.failures = []
        self.checks = 0
        self.frame = True
        self.mode = self.opts.get("mode", "generic")
        self.mag = float(self.opts.get("mag", 1.0))
        self.rtol = float(self.opts.get("rtol", 2e-9))
        self.absorbed = {}
        self.rank = self.opts.get("rank")
        self.dims = self.opts.get("dims")
        self.directed = self.opts.get("directed") or {}
        self.directable = set()
        self.full = Base.full
        self.inputs = {}
        self.lam_memo = {}
        self.earlier = {}
        self.zero_rules = {}
        self.symf = set()
        self.tails = {}
        self.tail = None
        self.memo = {}
        self.tokens = 0

    # ---- trailing shapes
    def shape(self):
        if self.dims is None:
            r = self.rank or int(self.rng.integers(1, 4))
            self.dims = tuple(int(k) for k in self.rng.integers(1 if r > 1 else 2, 4, size=r))
        return tuple(self.dims)

    def tshape(self, tail):
        if tail is None:
            return ()
        full = self.shape()
        if tail == "" or len(tail) == 0:
            return (1,) * len(full)
        if tail not in self.tails:
            absorbed = any(b == tail for _, b in self.absorbed)
            keep = [self.rng.random() < 0.5 if absorbed else True for _ in full]
            if len(tail) == 1 and tail != "A" and not absorbed:
                keep = [self.rng.random() < 0.6 for _ in full]
            if tail == "A" and any(len(t) == 1 and t != "A" for t in self.tails) and self.opts.get("mixed"):
                keep = [self.rng.random() < 0.7 for _ in full]
            self.tails[tail] = tuple(d if k else 1 for d, k in zip(full, keep))
        return self.tails[tail]

    def absorb(self, a, b):
        self.absorbed[(a, b)] = True

    def fix_rank(self, n, *names):
        if self.dims is not None and len(self.dims) != n:
            self.dims = (tuple(self.dims) + (2,) * n)[:n]
        self.rank = n

    def note(self, tail):
        if tail is not None:
            s = self.tshape(tail)
            self.tail = s if self.tail is None else np.broadcast_shapes(self.tail, s)

    # ---- inputs
    def finish(self, name, v, tail):
        """apply the memory layout of this run and name the components"""
        v = np.asarray(v, dtype=float)
        lay = self.opts.get("layout", "C")
        n = v.ndim - len(self.tshape(tail))
        t = np.empty(v.shape[:n], dtype=object)
        for i in np.ndindex(*t.shape):
            nm = name + "".join(map(str, i)) if n else name
            d = self.directed.get(nm)
            if d is not None:
                v[i + self.dpoint(v.ndim - n)] = d
            t[i] = var(nm)
            self.env["vars"][nm] = np.array(v[i], copy=True)
            self.directable.add(nm)
        self.inputs[name] = v.copy()
        if lay == "F" and v.ndim:
            v = np.asfortranarray(v)
        elif lay == "strided" and v.ndim:
            w = np.empty(v.shape + (2,))
            w[..., 0] = v
            w[..., 1] = np.nan
            v = w[..., 0]
        elif lay == "transposed" and v.ndim:
            v = np.ascontiguousarray(v.T).T
        elif lay == "interleaved" and v.ndim:
            # inputs of one shape are interleaved views of one block
            k, buf = self.blocks.get(v.shape, (8, None))
            if k >= 8:
                k, buf = 0, np.full(v.shape + (8,), np.nan)
            self.blocks[v.shape] = (k + 1, buf)
            buf[..., k] = v
            v = buf[..., k]
        elif lay == "negative" and v.ndim:
            v = np.ascontiguousarray(v[..., ::-1])[..., ::-1]
        elif lay == "broadcast" and v.ndim and v.shape[-1] and np.array_equal(v, np.broadcast_to(v[..., :1], v.shape)):
            v = np.broadcast_to(v[..., :1].copy(), v.shape)
        elif lay == "readonly":
            v = v.copy()
            v.setflags(write=False)
        if v.shape == ():
            v = v[()]
        return In(name, v, t, tail)

    def dpoint(self, n):
        """the points which take the directed values: all of them or the first one only"""
        return (0,) * n if self.opts.get("dpoint") else ()

    def admissible(self, ok):
        if self.directed and not np.all(ok):
            raise Abort("directed values outside of the precondition")

    def arr(self, name, shape, tail="A", positive=False, gen=None):
        self.note(tail)
        s = tuple(shape) + self.tshape(tail)
        if gen is not None:
            v = gen(self.rng, s)
        elif positive:
            v = self.rng.uniform(0.5, 1.8, s)
        else:
            v = self.rng.normal(size=s)
            if self.mode == "integerish":
                v = np.round(2 * v)
            elif self.mode == "large":
                v = v * 50
            elif self.mode == "tiny":
                v = v * 1e-5
            if self.opts.get("special"):
                v = self.similar(v)
        x = self.finish(name, v, tail)
        if positive:
            self.admissible(np.asarray(x.val) > 0)
        return x

    def similar(self, v):
        """arrays of one shape which agree in some of their components, tensors without trace or shear components"""
        if v.shape[:1] == (6,) and v.shape[1:2] != (6,):
            v = v.copy()
            kind = self.rng.integers(7)
            if kind in (1, 3):
                v[3:] = 0.0
            if kind in (2, 3):
                v[2] = -(v[0] + v[1])
        old = self.earlier.get(v.shape)
        self.earlier[v.shape] = v
        if old is None or not v.ndim:
            return v
        keep = self.rng.random(v.shape[:1]) < 0.6
        if self.rng.random() < 0.5:
            keep = np.zeros(v.shape[0], dtype=bool)
            keep[: v.shape[0] // 2] = True
        v = v.copy()
        v[keep] = old[keep]
        return v

    def stretch_values(self, s):
        """(3, *s) positive principal stretches for the current mode"""
        v = self.mode_stretches(s)
        return np.where(self.rng.random((3,) + s) < 0.3, 1.0, v) if self.opts.get("special") else v

    def mode_stretches(self, s):
        r = self.rng
        m = self.mode
        if m == "identity":
            return np.ones((3,) + s)
        if m == "mild":
            return r.uniform(0.93, 1.08, (3,) + s)
        if m == "large":
            return r.uniform(0.35, 2.6, (3,) + s)
        if m == "extreme":
            return r.choice([0.15, 0.2, 4.0, 6.0], (3,) + s) * r.uniform(0.9, 1.1, (3,) + s)
        if m == "tiny":
            return r.uniform(0.5, 2.0, (3,) + s) * 1e-3
        if m in ("isochoric", "near-isochoric"):
            v = r.uniform(0.6, 1.7, (3,) + s)
            v[2] = 1.0 / (v[0] * v[1])
            return v * (1.0 + r.choice([-1, 1], s) * 10.0 ** -r.uniform(4, 7, s)) if m == "near-isochoric" else v
        if m == "near-identity":
            return 1.0 + r.uniform(0.3, 1.0, (3,) + s) * r.choice([-1, 1], (3,) + s) * 10.0 ** -r.uniform(1, 5, s)
        v = r.uniform(0.6, 1.7, (3,) + s)
        if m == "near-equi":
            i, j, k = r.permutation(3)
            v[j] = v[i] * (1.0 + r.choice([-1, 1], s) * 10.0 ** -r.uniform(1, 5, s))
            if r.random() < 0.4:
                v[k] = v[i] * (1.0 + r.choice([-1, 1], s) * 10.0 ** -r.uniform(1, 4, s))
        if m == "equi2":
            i, j = r.permutation(3)[:2]
            v[j] = v[i]
        if m == "equi3":
            v[1] = v[2] = v[0]
        if m == "uniaxial-point":
            v[1] = v[2] = v[0] ** -0.5
            if s:
                v[:, (0,) * len(s)] = 1.0 if False else v[:, (0,) * len(s)]
                v[(slice(None),) + (0,) * len(s)] = 1.0
        return v

    def frame_values(self, s):
        if self.mode in ("coaxial", "identity", "uniaxial-point"):
            e = np.zeros((3, 3) + s)
            for i in range(3):
                e[i, i] = 1.0
            return e
        if self.mode in ("in-plane", "near-coaxial"):
            return self.about_axis(s)
        return rotation(self.rng, s)

    def about_axis(self, s):
        """rotations about a coordinate axis, of arbitrary or of small angle"""
        i = int(self.rng.integers(3))
        j, k = (i + 1) % 3, (i + 2) % 3
        w = self.rng.uniform(-3, 3, s) if self.mode == "in-plane" else self.rng.choice([-1, 1], s) * 10.0 ** -self.rng.uniform(3, 8, s)
        q = np.zeros((3, 3) + s)
        q[i, i] = 1.0
        q[j, j] = q[k, k] = np.cos(w)
        q[j, k], q[k, j] = -np.sin(w), np.sin(w)
        return q

    def spd(self, name, tail="A", gen=None):
        self.note(tail)
        s = self.tshape(tail)
        lam, n = self.stretch_values(s), self.frame_values(s)
        if self.mode == "integerish":
            lam = np.round(2 * lam) / 2
        m = np.einsum("a...,ia...,ja...->ij...", lam ** 2, n, n)
        x = self.finish(name, np.array([m[0, 0], m[1, 1], m[2, 2], m[0, 1], m[1, 2], m[0, 2]]), tail)
        if self.directed:
            w = np.linalg.eigvalsh(np.moveaxis(np.asarray(x.val)[[[0, 3, 5], [3, 1, 4], [5, 4, 2]]], (0, 1), (-2, -1)))
            self.admissible(w[..., 0] > 4e-4 * np.abs(w[..., 2]))
        return x

    def sym(self, name, tail="A", gen=None):
        return self.arr(name, (6,), tail)

    def defgrad(self, name="F", tail="A", gen=None):
        self.note(tail)
        s = self.tshape(tail)
        lam, n = self.stretch_values(s), self.frame_values(s)
        u = np.einsum("a...,ia...,ja...->ij...", lam, n, n)
        if self.mode in ("identity", "coaxial", "uniaxial-point"):
            f = u
        elif self.mode == "integerish":
            f = np.zeros((3, 3) + s)
            f[0, 0], f[1, 1], f[2, 2] = 1.5, 1.0, 2.0
            f[0, 1] = np.round(self.rng.uniform(-2, 2, s))
        elif self.mode in ("in-plane", "near-coaxial"):
            f = np.einsum("ij...,jk...->ik...", self.about_axis(s), u)
        else:
            f = np.einsum("ij...,jk...->ik...", rotation(self.rng, s), u)
        x = self.finish(name, f, tail)
        if self.directed:
            w = np.moveaxis(np.asarray(x.val), (0, 1), (-2, -1))
            self.admissible((np.linalg.det(w) > 0) & (np.linalg.cond(w) < 50))
        return x

    def stretches(self, name, tail="A"):
        self.note(tail)
        x = self.finish(name, self.stretch_values(self.tshape(tail)), tail)
        self.admissible(np.asarray(x.val) > 0)
        return x

    def spectral(self, name, tail="A", signed=False):
        self.note(tail)
        s = self.tshape(tail)
        lam, n = self.stretch_values(s), self.frame_values(s)
        for a in range(3):
            d = self.directed.get(f"{name}l{a}")
            if d is not None:
                lam[(a,) + self.dpoint(lam.ndim - 1)] = d
                self.admissible(signed or d > 0)
        if signed:
            lam = lam * self.rng.choice([-1.0, 1.0, 1.0], size=lam.shape) if self.mode != "identity" else lam
        w = lam if signed else lam ** 2
        m = np.einsum("a...,ia...,ja...->ij...", w, n, n)
        keep, self.directed = self.directed, {}
        x = self.finish(name, np.array([m[0, 0], m[1, 1], m[2, 2], m[0, 1], m[1, 2], m[0, 2]]), tail)
        self.directed = keep
        x.lam = [var(f"{name}l{a}", not signed) for a in range(3)]
        x.values = x.lam if signed else [power(l, const(2)) for l in x.lam]
        x.n = [[var(f"{name}n{i}{a}") for a in range(3)] for i in range(3)]
        for a in range(3):
            self.env["vars"][f"{name}l{a}"] = lam[a]
            self.directable.add(f"{name}l{a}")
            for i in range(3):
                self.env["vars"][f"{name}n{i}{a}"] = n[i, a]
        idx = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
        for k, (i, j) in enumerate(idx):
            x.t[k] = add(*[mul(x.values[a], x.n[i][a], x.n[j][a]) for a in range(3)])
        return x

    def scalar(self, name, positive=False, gen=None, exponent=False):
        d = self.directed.get(name)
        v = float(d) if d is not None else float(gen(self.rng) if gen else self.rng.uniform(0.5, 2.0) * (1 if positive else self.rng.choice([-1, 1])))
        if d is not None:
            # exponents and deviations of a magnitude for which rounding does not matter
            self.admissible((v > 0 or not positive) and (v == 0 or 1e-9 < abs(v) < 1e9) and (not exponent or 1e-2 < abs(v) < 1e2))
        self.env["vars"][name] = v
        self.directable.add(name)
        self.inputs[name] = v
        return v

    def sterm(self, name):
        return var(name)

    def requires(self, *bs):
        for b in bs:
            if b is True:
                continue
            if b is False or not np.all(evalb(b, self.env)):
                raise Abort("sample outside of the precondition")

    def candidates(self, *bs):
        pass

    def choose(self, cond, yes, no):
        if isinstance(cond, bool):
            return yes() if cond else no()
        return TM.ite(cond, yes(), no())

    def rotation(self, axis, name="rot"):
        a = self.directed.get(name)
        a = float(self.rng.uniform(-3, 3)) if a is None else a
        if self.mode == "identity":
            a = np.pi / 2
        self.env["vars"][name + "c"], self.env["vars"][name + "s"] = np.cos(a), np.sin(a)
        return rotation_terms(axis, var(name + "c"), var(name + "s"))

    def alias(self, terms, by):
        pass

    def transfer(self, terms, linear):
        pass

    def of_terms(self, name, terms, tail):
        v = self.evaluate(terms)
        lead = oarr(terms).shape
        full = lead + self.tshape(tail)
        v = np.array(np.broadcast_to(v.reshape(lead + (1,) * (len(full) - v.ndim) + v.shape[len(lead):]), full))
        return In(name, v, oarr(terms), tail)

    def ghost(self, name, terms, keys=(), positive=False, facts=None):
        t = oarr(terms)
        v = np.empty(t.shape, dtype=object)
        for i in np.ndindex(*t.shape):
            v[i] = var(name + "".join(map(str, i)), positive)
            self.env["vars"][name + "".join(map(str, i))] = self.evaluate(t[i])
        return v

    def symmetric(self, *names):
        self.symf |= set(names)

    def function(self, name, n):
        f = self.env["funs"].get(name)
        if f is None:
            f = NumFun(self.rng, n, self.mag if name == "W" else 1.0, name in self.symf)
            f.zero = self.zero_rules.get(name, ())
            f.special, f.patchy = bool(self.opts.get("special")), name == "W"
            self.env["funs"][name] = f
        return f

    def apply(self, name, der, args):
        return np.asarray(self.function(name, len(args))(der, *[np.asarray(a) for a in args]))

    def token(self, tail=None, shape=(2,)):
        self.tokens += 1
        return self.rng.normal(size=shape)

    def pkg_np(self):
        return np

    # ---- execution
    def snapshot(self, x, out=None):
        out = [] if out is None else out
        if isinstance(x, np.ndarray):
            out.append((x, x.copy()))
        elif isinstance(x, (list, tuple)):
            for y in x:
                self.snapshot(y, out)
        elif isinstance(x, dict):
            for y in x.values():
                self.snapshot(y, out)
        return out

    def unchanged(self, snaps):
        return all(x.shape == old.shape and np.array_equal(x, old, equal_nan=True) for x, old in snaps)

    def guard(self, label, fn, *args, raises=False, **kw):
        try:
            with np.errstate(all="ignore"):
                return fn(*args, **kw)
        except Exception as e:
            if raises:
                self.lastex = e
                return None
            self.fail(label + "/no-exception", f"{type(e).__name__}: {e}")
            raise Abort("exception")

    def call(self, label, fn, *args, out=None, **kw):
        if out is not None:
            kw["out"] = out
        snaps = self.snapshot(list(args)) + self.snapshot({k: v for k, v in kw.items() if k != "out"})
        if out is not None:
            snaps = [s for s in snaps if s[0] is not out]
        r = self.guard(label, fn, *args, **kw)
        if self.frame:
            self.checks += 1
            if not self.unchanged(snaps):
                self.fail(label + "/arguments-unmodified", "an argument array was modified", "frame")
        return r

    def fail(self, label, text, kind="eq"):
        self.failures.append((label, text, kind))

    # ---- checks
    def evaluate(self, spec):
        spec = oarr(spec)
        memo = self.memo

        def need(t, seen):
            st = [t]
            while st:
                t = st.pop()
                if t in seen:
                    continue
                seen.add(t)
                if t.op == "f" and t.args[0] not in self.env["funs"]:
                    self.function(t.args[0], len(t.args[2]))
                st.extend(TM.children(t))
        seen = set()
        for i in np.ndindex(*spec.shape):
            need(spec[i], seen)
        vals = np.empty(spec.shape, dtype=object)
        with np.errstate(all="ignore"):
            vs = [np.asarray(evaluate(spec[i], self.env, memo), dtype=float) for i in np.ndindex(*spec.shape)]
        if not vs:
            return np.zeros(spec.shape)
        sh = np.broadcast_shapes(*[v.shape for v in vs])
        return np.array([np.broadcast_to(v, sh) for v in vs]).reshape(spec.shape + sh)

    def ensure(self, label, result, spec, tail="inputs", using=(), abstract=None, cut=None, floor=None):
        self.checks += 1
        want = (self.tail if tail == "inputs" else self.tshape(tail)) if not isinstance(tail, frozenset) else self.tail
        want = () if want is None else want
        e = self.evaluate(spec)
        lead = oarr(spec).shape
        try:
            r = np.asarray(result)
        except Exception as ex:
            return self.fail(label + "/shape", f"result is no array: {ex}", "shape")
        if r.dtype == object or r.dtype.kind not in "fiu":
            return self.fail(label + "/shape", f"result has dtype {r.dtype}", "shape")
        full = lead + want
        try:
            ok = np.broadcast_shapes(r.shape, full) == full
        except ValueError:
            ok = False
        if r.ndim < len(full) and r.ndim != 0:
            ok = ok and r.ndim == len(full)
        if r.shape[:len(lead)] != lead and r.ndim:
            ok = False
        if r.ndim == 0 and lead:
            ok = False
        if not ok:
            return self.fail(label + "/shape", f"result shape {r.shape}, expected {full}", "shape")
        r = np.broadcast_to(r, full).astype(float)
        e = np.broadcast_to(e.reshape(lead + (1,) * (len(full) - e.ndim) + e.shape[len(lead):]), full)
        if not np.all(np.isfinite(e)):
            return None
        sc = max(float(np.max(np.abs(e))) if e.size else 0.0, self.mag * (1.0 if floor is None else floor))
        d = np.abs(r - e)
        bad = ~(d <= self.rtol * sc)
        if np.any(bad):
            k = tuple(int(x) for x in np.argwhere(bad)[0])
            self.fail(f"{label}[{','.join(map(str, k[:len(lead)]))}]", f"got {r[k]!r}, contract {e[k]!r} at point {k[len(lead):]}, batch {want}")

    def near(self, label, x, y, floor=None):
        self.checks += 1
        x, y = np.asarray(x, float), np.asarray(y, float)
        sc = max(float(np.max(np.abs(y))) if y.size else 0.0, self.mag if floor is None else floor)
        if x.shape != y.shape:
            return self.fail(label, f"shapes {x.shape} and {y.shape}", "shape")
        with np.errstate(all="ignore"):
            d = np.where(x == y, 0.0, np.abs(x - y))
            sc = float(np.max(np.abs(y[np.isfinite(y)]), initial=0.0 if floor is None else floor)) if not np.isfinite(sc) else sc
        if not np.all(d <= self.rtol * sc):
            self.fail(label, f"largest difference {np.max(d)!r}")

    def ensure_true(self, label, cond, text="", using=()):
        self.checks += 1
        if isinstance(cond, B):
            cond = np.all(evalb(cond, self.env))
        if not cond:
            self.fail(label, text or "false")

    def ensure_same(self, label, x, y):
        self.checks += 1
        def alike(x, y):
            if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
                return len(x) == len(y) and all(alike(p, q) for p, q in zip(x, y))
            return x is y or (isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape and np.array_equal(x, y))
        if not alike(x, y):
            self.fail(label, "state variables differ")
