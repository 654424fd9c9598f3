"""Back ends: z3 (first), polynomial normal form (second), cvc5 (optional cross-check)."""
import signal
import time
from fractions import Fraction
from . import term as TM
from .term import T, B, Unsupported, compare, subst, bsubst, sub, ZERO, free_vars, positive
from .ring import Ring, Blowup
from .smt import Z3Ctx, z3


class Timeout(Exception):
    pass


class limit:
    """wall-clock limit for the python-side provers (main thread of a worker only); nested limits restore the outer timer"""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def h(*a):
            raise Timeout()
        self.old = signal.signal(signal.SIGALRM, h)
        self.t0 = time.time()
        self.rest = signal.setitimer(signal.ITIMER_REAL, max(self.s, 0.01))[0]

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        if self.rest:
            signal.setitimer(signal.ITIMER_REAL, max(0.01, self.rest - (time.time() - self.t0)))
        return False


class Stats:
    def __init__(self):
        self.n = {}
        self.t = {}

    def add(self, who, dt, ok):
        self.t[who] = self.t.get(who, 0.0) + dt
        if ok:
            self.n[who] = self.n.get(who, 0) + 1


def split_eq(b):
    """equality facts -> [(x, y)] with products of positive factors removed"""
    if isinstance(b, bool):
        return []
    if b.op == "and":
        return [e for x in b.args for e in split_eq(x)]
    if b.op == "all":
        return split_eq(b.args[0])
    if b.op == "cmp" and b.args[0] == "==":
        return [(b.args[1], b.args[2])]
    if b.op == "cmp" and b.args[0] in ("<=", "<"):
        # |x| <= 0
        _, x, y = b.args
        if y is ZERO and x.op == "u" and x.args[0] == "abs":
            return [(x.args[1], ZERO)]
    return []


def orient(x, y):
    """x == y as a substitution atom -> term, if possible"""
    d = sub(x, y)
    if d.op == "*" or d.op in ("v", "f"):
        fs = d.args if d.op == "*" else ((d, Fraction(1)),)
        # a factor with a negative exponent is not zero where the product is defined
        fs = [b for b, e in fs if not positive(b) and (isinstance(e, T) or e > 0)]
        if len(fs) == 1 and fs[0].op in ("v", "f"):
            return fs[0], ZERO
    if d.op == "+":
        lin = linear(d)
        if len(lin) == 1:
            return orient(*lin, ZERO)
        for want in ("f", "v"):
            for t, c in lin.items():
                if t.op == want:
                    rest = TM.add(*[TM.scale(u, -k / c) for u, k in lin.items() if u is not t])
                    if t.op == "v" and t.args[0] in free_vars(rest):
                        continue
                    if t.op == "f" and contains(rest, t):
                        continue
                    return t, rest
    return None


def linear(d, c=Fraction(1), out=None):
    """{term: coefficient} of a (nested) sum"""
    top = out is None
    out = {} if top else out
    if d.op == "+":
        for k, t in d.args:
            linear(t, c * k, out)
    elif d is not ZERO:
        out[d] = out.get(d, 0) + c
    return {t: k for t, k in out.items() if k != 0} if top else out


def contains(t, x, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        t = st.pop()
        if t is x:
            return True
        if t in seen:
            continue
        seen.add(t)
        st.extend(TM.children(t))
    return False


class Prover:
    def __init__(self, symfuns=(), timeout=4.0, ring_timeout=20.0, stats=None):
        self.symfuns = symfuns
        self.timeout = timeout
        self.ring_timeout = ring_timeout
        self.stats = stats or Stats()
        self.reset()

    def reset(self):
        self.ring = Ring(self.symfuns)
        self.ctx = Z3Ctx(self.ring)
        self.scanned = set()

    # ---- satisfiability of facts (path pruning)
    def feasible(self, facts, timeout=1.5):
        t0 = time.time()
        try:
            ctx = Z3Ctx(Ring(self.symfuns))
            fs = [f for f in facts if not isinstance(f, bool)]
            if any(f is False for f in facts):
                return False
            for f in fs:
                for t in TM.bterms(f):
                    ctx.scan(t)
            s = z3.Solver()
            s.set("timeout", int(timeout * 1000))
            for f in fs:
                s.add(self.generic(ctx, f))
            s.add(*ctx.side)
            r = s.check()
            self.stats.add("z3-paths", time.time() - t0, False)
            return r != z3.unsat
        except (Unsupported, z3.Z3Exception, Blowup):
            return True

    @staticmethod
    def generic(ctx, f):
        """a fact at the generic point: all(b) gives b"""
        if f.op == "all":
            return z3.And(ctx.bool(f), ctx.bool(f.args[0])) if not isinstance(f.args[0], bool) else z3.BoolVal(f.args[0])
        return ctx.bool(f)

    def entails(self, facts, goal, timeout=2.0):
        if goal is True:
            return True
        if goal is False:
            return not self.feasible(facts, timeout)
        return not self.feasible(list(facts) + [TM.bnot(goal)], timeout)

    # ---- equality obligations
    def simplify(self, facts, candidates=()):
        """substitution derived from the equality facts and the candidate equalities entailed by the facts"""
        m = {}
        eqs = [e for f in facts for e in split_eq(f)]
        for c in candidates:
            if not isinstance(c, bool) and self.entails(facts, c):
                eqs += split_eq(c)
        for _ in range(3):
            for x, y in eqs:
                x, y = subst(x, m) if m else x, subst(y, m) if m else y
                o = orient(x, y)
                if o and o[0] not in m:
                    m = {k: subst(v, {o[0]: o[1]}) for k, v in m.items()}
                    m[o[0]] = o[1]
        return m

    def eq(self, a, b, facts=(), timeout=None):
        """'proved' backend name or None"""
        if a is b:
            self.stats.add("syntactic", 0.0, True)
            return "syntactic"
        t0 = time.time()
        ok = False
        try:
            with limit(1.5):
                ok = self.ring.equal(a, b)
        except (Unsupported, Blowup, Timeout, ZeroDivisionError, MemoryError):
            ok = False
        self.stats.add("ring", time.time() - t0, ok)
        if ok:
            return "ring"
        t0 = time.time()
        try:
            with limit((timeout or self.timeout) * 2 + 1):
                ctx = self.ctx
                n = len(ctx.side)
                ctx.scan(a, self.scanned)
                ctx.scan(b, self.scanned)
                for f in facts:
                    for t in TM.bterms(f):
                        ctx.scan(t, self.scanned)
                if any(ctx.qs.get(k, q) != q for k, (_, q) in ctx.roots.items()):
                    new = Z3Ctx(self.ring)
                    new.qs = ctx.qs
                    ctx = self.ctx = new
                s = z3.Solver()
                s.set("timeout", int((timeout or self.timeout) * 1000))
                goal = ctx.eqz(a, b)
                nz = ctx.nonzero_facts(a, b)
                fs = [self.generic(ctx, f) for f in facts if not isinstance(f, bool)]
                s.add(z3.Not(goal))
                if s.check() == z3.unsat:      # without any side facts: an identity
                    ok = True
                else:
                    s.add(*nz)
                    s.add(*fs)
                    s.add(*ctx.side)
                    ok = s.check() == z3.unsat
        except (Unsupported, z3.Z3Exception, Blowup, Timeout):
            ok = False
        self.stats.add("z3", time.time() - t0, ok)
        if ok:
            return "z3"
        t0 = time.time()
        try:
            with limit(self.ring_timeout):
                ok = self.ring.equal(a, b)
        except (Unsupported, Blowup, Timeout, ZeroDivisionError, MemoryError):
            ok = False
        self.stats.add("ring", time.time() - t0, ok)
        return "ring" if ok else None

    def quick(self, a, b, seconds=1.5):
        """the polynomial normal form only"""
        t0 = time.time()
        try:
            with limit(seconds):
                ok = a is b or self.ring.equal(a, b)
        except (Unsupported, Blowup, Timeout, ZeroDivisionError, MemoryError):
            ok = False
        self.stats.add("ring", time.time() - t0, ok)
        return "ring" if ok else None

    def holds(self, b, facts=()):
        if isinstance(b, bool):
            if b:
                self.stats.add("syntactic", 0.0, True)
                return "syntactic"
            return None
        if b.op == "cmp" and b.args[0] == "==":
            return self.eq(b.args[1], b.args[2], facts)
        t0 = time.time()
        ok = self.entails([f for f in facts], b, self.timeout)
        self.stats.add("z3", time.time() - t0, ok)
        return "z3" if ok else None
