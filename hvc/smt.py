"""Translation of terms and boolean terms to SMT (z3), with denominators cleared."""
import sys
from fractions import Fraction
try:
    import z3
except ImportError:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3
from .term import T, expand_lin, Unsupported, free_vars, positive, ONE
from math import lcm


def rat(c):
    return z3.Q(c.numerator, c.denominator)


class Z3Ctx:
    """atoms are shared with a Ring instance so that function applications are congruent modulo normal form"""

    def __init__(self, ring):
        self.ring = ring
        self.vars = {}
        self.side = []        # relations and sign facts about the atoms used
        self.memo = {}
        self.roots = {}       # base key -> (var, q)
        self.qs = {}

    def atom(self, key, positive=False):
        v = self.vars.get(key)
        if v is None:
            v = self.vars[key] = z3.Real(f"x{len(self.vars)}")
            if positive:
                self.side.append(v > 0)
        return v

    def scan(self, t, seen=None):
        """collect the denominators of the fractional exponents per base"""
        seen = set() if seen is None else seen
        st = [t]
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op == "*":
                for b, e in t.args:
                    st.append(b)
                    if isinstance(e, Fraction) and e.denominator != 1:
                        k = self.bkey(b)
                        self.qs[k] = lcm(self.qs.get(k, 1), e.denominator)
            elif t.op == "+":
                st.extend(x for _, x in t.args)
            elif t.op == "ite":
                st.extend(t.args[1:])

    def bkey(self, b):
        return self.ring.key(self.ring.nf(b))

    def frac(self, t):
        """(numerator z3 expr, denominator {factor key: (z3 expr, power)})"""
        r = self.memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op == "c":
            r = (rat(t.args[0]), {})
        elif op == "v":
            p = positive(t)
            r = (self.atom(("v", t.args[0]), p), {})
        elif op == "+":
            parts = [(c, self.frac(x)) for c, x in t.args]
            D = {}
            for _, (_, d) in parts:
                for k, (x, n) in d.items():
                    if k not in D or D[k][1] < n:
                        D[k] = (x, n)
            out = []
            for c, (n, d) in parts:
                e = n if c == 1 else rat(c) * n
                for k, (x, m) in D.items():
                    have = d[k][1] if k in d else 0
                    for _ in range(m - have):
                        e = e * x
                out.append(e)
            r = (z3.Sum(out) if len(out) > 1 else out[0], D)
        elif op == "*":
            num = None
            D = {}

            def mulnum(x):
                nonlocal num
                num = x if num is None else num * x

            def addden(k, x, n):
                D[k] = (x, D[k][1] + n if k in D else n)

            for b, e in t.args:
                if isinstance(e, T):
                    x = self.sympow(b, e)
                    mulnum(x)
                    continue
                bn, bd = self.frac(b)
                n = e.numerator // e.denominator
                f = e - n
                if f:
                    k = self.bkey(b)
                    q = self.qs.get(k, f.denominator)
                    if k not in self.roots:
                        rho = self.atom(("root", k), True)
                        self.roots[k] = (rho, q)
                        rq = rho
                        for _ in range(q - 1):
                            rq = rq * rho
                        den = self.prod(bd)
                        self.side.append(rq == bn if den is None else rq * den == bn)
                    rho, q = self.roots[k]
                    if (f * q).denominator != 1:
                        raise Unsupported("root order")
                    for _ in range(int(f * q)):
                        mulnum(rho)
                if n > 0:
                    for _ in range(n):
                        mulnum(bn)
                    for k, (x, m) in bd.items():
                        addden(k, x, m * n)
                elif n < 0:
                    k = ("d", self.bkey(b))
                    for kk, (x, m) in bd.items():
                        for _ in range(m * -n):
                            mulnum(x)
                    addden(k, bn, -n)
            # cancel nothing; keep as is
            r = (num if num is not None else z3.RealVal(1), D)
        elif op in ("f", "u", "sum", "ite"):
            p = self.ring.nf(t)
            if op == "sum" and not (len(p) == 1 and next(iter(p.values())) == 1):
                e = []
                for m, c in p.items():
                    x = rat(c)
                    for i, ex in self.ring.decode(m):
                        if ex < 0 or ex % 12:
                            raise Unsupported("sum with rational body in SMT")
                        v = self.atom(("a", i))
                        for _ in range(ex // 12):
                            x = x * v
                    e.append(x)
                r = (z3.Sum(e) if e else z3.RealVal(0), {})
            elif op == "ite":
                b = self.bool(t.args[0])
                n1, d1 = self.frac(t.args[1])
                n2, d2 = self.frac(t.args[2])
                if d1 or d2:
                    raise Unsupported("ite with denominators in SMT")
                r = (z3.If(b, n1, n2), {})
            else:
                (m, c), = p.items()
                (i, ex), = self.ring.decode(m)
                new = ("a", i) not in self.vars
                v = self.atom(("a", i), positive(t))
                if new and op == "u" and t.args[0] == "abs":
                    n, d = self.frac(t.args[1])
                    if not d:
                        self.side += [v >= 0, z3.Or(v == n, v == -n)]
                r = (v, {})
        else:
            raise Unsupported(op)
        self.memo[t] = r
        return r

    def sympow(self, b, e):
        p = self.ring.npow(b, e)
        (m, c), = p.items()
        x = rat(c)
        num = x if c != 1 else None
        for i, ex in self.ring.decode(m):
            k, rest = divmod(ex, 12)
            key = ("a", i) if rest == 0 else ("a", i, "frac")
            if rest:
                v = self.atom(("powfrac", i, ex), True)
                num = v if num is None else num * v
                continue
            v = self.atom(("pw", i), True)
            if k < 0:
                w = self.atom(("pwi", i), True)
                self.side.append(v * w == 1)
                v, k = w, -k
            for _ in range(k):
                num = v if num is None else num * v
        return num if num is not None else z3.RealVal(1)

    @staticmethod
    def prod(d):
        out = None
        for k, (x, n) in d.items():
            for _ in range(n):
                out = x if out is None else out * x
        return out

    def eqz(self, a, b):
        """z3 expr for a == b, given non-zero denominators"""
        an, ad = self.frac(a)
        bn, bd = self.frac(b)
        for k in set(ad) | set(bd):
            na = ad[k][1] if k in ad else 0
            nb = bd[k][1] if k in bd else 0
            x = (ad.get(k) or bd.get(k))[0]
            for _ in range(max(0, nb - na)):
                an = an * x
            for _ in range(max(0, na - nb)):
                bn = bn * x
        return an == bn

    def nonzero_facts(self, *ts):
        out = []
        for t in ts:
            for k, (x, n) in self.frac(t)[1].items():
                out.append(x != 0)
        return out

    def real(self, t):
        """z3 real (with division) - for path conditions"""
        n, d = self.frac(t)
        p = self.prod(d)
        return n if p is None else n / p

    def bool(self, b):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        if b.op == "cmp":
            rel, x, y = b.args
            if rel in ("==", "!="):
                e = self.eqz(x, y)
                return e if rel == "==" else z3.Not(e)
            X, Y = self.real(x), self.real(y)
            return {"<": X < Y, "<=": X <= Y, ">": X > Y, ">=": X >= Y}[rel]
        if b.op == "and":
            return z3.And(*[self.bool(x) for x in b.args])
        if b.op == "not":
            return z3.Not(self.bool(b.args[0]))
        if b.op in ("all", "any", "opaque"):
            return z3.Bool(f"b{b.id}")
        raise Unsupported(b.op)
