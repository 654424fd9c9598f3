"""Normal form of terms as Laurent polynomials with rational exponents over atoms, and a zero test.

Atoms are variables, uninterpreted-function applications (keyed by the normal form of their arguments), and *base atoms*:
polynomials P that occur under a negative or fractional exponent.  A base atom is expanded back to its polynomial (after
clearing negative exponents) by the zero test, so the test is complete for identities of rational functions in radicals of
distinct non-power polynomials.
"""
from fractions import Fraction
from .term import T, Unsupported, expand_lin, const, free_vars

UNIT = 12
SH = 28
HALF = 1 << (SH - 1)
MASK = (1 << SH) - 1
LIMIT = 60000


class Blowup(Exception):
    pass


class Ring:
    def __init__(self, symfuns=(), sub=None):
        self.atoms = []        # list of (kind, key)
        self.index = {}
        self.defs = {}         # atom index -> polynomial (base atoms), expanded by the zero test
        self.folds = {}        # NF key -> atom index (polynomials folded into an atom when met)
        self.foldsizes = set()
        self.memo = {}
        self.symfuns = set(symfuns)
        self.bound = {}        # atom index -> frozenset of variable names it depends on
        self.rels = {}         # variable name s -> variable name c with s^2 = 1 - c^2
        self.kill = set()      # atoms known to be zero
        self.soft = set()      # atoms whose definition is expanded only as a last resort

    # -- atoms
    def atom(self, kind, key, deps=frozenset()):
        k = (kind, key)
        i = self.index.get(k)
        if i is None:
            i = self.index[k] = len(self.atoms)
            self.atoms.append(k)
            self.bound[i] = deps
        return i

    def mono(self, i, e=1):
        e = Fraction(e) * UNIT
        if e.denominator != 1:
            raise Unsupported(f"exponent {e}/12")
        e = int(e)
        if abs(e) >= HALF // 4:
            raise Unsupported("exponent too large")
        return e << (SH * i) if e >= 0 else -((-e) << (SH * i))

    def decode(self, m):
        out = []
        i = 0
        while m:
            e = m & MASK
            m >>= SH
            if e >= HALF:
                e -= 1 << SH
                m += 1
            if e:
                out.append((i, e))
            i += 1
        return out

    # -- polynomial arithmetic
    @staticmethod
    def padd(p, q, c=1):
        if len(p) < len(q) and c == 1:
            p, q = q, p
        r = dict(p)
        for m, v in q.items():
            s = r.get(m, 0) + c * v
            if s:
                r[m] = s
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def pmul(p, q):
        if len(p) > len(q):
            p, q = q, p
        if len(p) * len(q) > 40 * LIMIT:
            raise Blowup()
        r = {}
        get = r.get
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = m1 + m2
                r[m] = get(m, 0) + c1 * c2
        r = {m: c for m, c in r.items() if c}
        if len(r) > LIMIT:
            raise Blowup()
        return r

    def ppow(self, p, n):
        r = {0: Fraction(1)}
        b = p
        while n:
            if n & 1:
                r = self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r

    @staticmethod
    def key(p):
        return frozenset(p.items())

    def fold(self, poly, atom_index, soft=False):
        """declare: polynomial (a NF) is represented by the atom; the atom's definition is the polynomial"""
        self.folds[self.key(poly)] = atom_index
        self.foldsizes.add(len(poly))
        self.defs[atom_index] = poly
        if soft:
            self.soft.add(atom_index)
        self.memo.clear()

    # -- normal form
    def nf(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op == "c":
            c = t.args[0]
            r = {0: c} if c else {}
        elif op == "v":
            r = {self.mono(self.atom("v", t.args[0], frozenset(t.args))): Fraction(1)}
        elif op == "+":
            r = {}
            for c, x in t.args:
                for m, v in self.nf(x).items():
                    s = r.get(m, 0) + c * v
                    if s:
                        r[m] = s
                    else:
                        del r[m]
            if len(r) in self.foldsizes:
                i = self.folds.get(self.key(r))
                if i is not None:
                    r = {self.mono(i): Fraction(1)}
        elif op == "*":
            r = {0: Fraction(1)}
            for b, e in t.args:
                r = self.pmul(r, self.npow(b, e))
        elif op == "f":
            name, der, args = t.args
            ks = [self.key(self.nf(a)) for a in args]
            if name in self.symfuns:
                idx = sorted(range(len(ks)), key=lambda i: (sorted(map(repr, ks[i])), -der[i]))
                ks = [ks[i] for i in idx]
                der = tuple(der[i] for i in idx)
            r = {self.mono(self.atom("f", (name, tuple(der), tuple(ks)), free_vars(t))): Fraction(1)}
        elif op == "u":
            r = {self.mono(self.atom("u", (t.args[0], self.key(self.nf(t.args[1]))), free_vars(t))): Fraction(1)}
        elif op == "sum":
            sym, body = t.args
            r = {}
            for m, c in self.nf(body).items():
                free, bnd = 0, 0
                for i, e in self.decode(m):
                    mm = e << (SH * i) if e >= 0 else -((-e) << (SH * i))
                    if any(v in sym for v in self.bound[i]):
                        bnd += mm
                    else:
                        free += mm
                a = self.atom("sum", (sym, bnd), free_vars(t))
                m2 = free + self.mono(a)
                r[m2] = r.get(m2, 0) + c
            r = {m: c for m, c in r.items() if c}
        elif op == "ite":
            r = {self.mono(self.atom("ite", t, free_vars(t))): Fraction(1)}
        else:
            raise Unsupported(op)
        if self.rels and op in ("+", "*"):
            r = self.reduce(r)
            if op == "+" and len(r) in self.foldsizes:
                i = self.folds.get(self.key(r))
                if i is not None:
                    r = {self.mono(i): Fraction(1)}
        self.memo[t] = r
        return r

    def reduce(self, p):
        """normal form modulo the relations s^2 = 1 - c^2"""
        for s, c in self.rels.items():
            i = self.index.get(("v", s))
            if i is None:
                continue
            j = self.atom("v", c, frozenset((c,)))
            while True:
                hi = {m: v for m, v in p.items() if any(k == i and e >= 2 * UNIT for k, e in self.decode(m))}
                if not hi:
                    break
                p = {m: v for m, v in p.items() if m not in hi}
                s2 = self.mono(i, 2)
                c2 = self.mono(j, 2)
                for m, v in hi.items():
                    for q, w in ((m - s2, v), (m - s2 + c2, -v)):
                        x = p.get(q, 0) + w
                        if x:
                            p[q] = x
                        else:
                            p.pop(q, None)
        return p

    def npow(self, b, e):
        p = self.nf(b)
        if not isinstance(e, T):
            if e == 1:
                return p
            return self.polypow(p, e)
        e = expand_lin(e)
        parts = e.args if e.op == "+" else ((Fraction(1), e),)
        r = {0: Fraction(1)}
        for c, s in parts:
            if s.op == "c":
                r = self.pmul(r, self.polypow(p, c * s.args[0]))
                continue
            # p ** (c*s): distribute over a monomial, otherwise one atom per base
            if len(p) == 1 and next(iter(p.values())) == 1:
                (m, _), = p.items()
                for i, ex in self.decode(m):
                    a = self.atom("pow", (i, s), self.bound[i] | free_vars(s))
                    r = self.pmul(r, {self.mono(a, c * Fraction(ex, UNIT)): Fraction(1)})
            else:
                i = self.base(p)
                a = self.atom("pow", (i, s), self.bound[i] | free_vars(s))
                r = self.pmul(r, {self.mono(a, c): Fraction(1)})
        return r

    def base(self, p):
        k = self.key(p)
        i = self.folds.get(k)
        if i is None:
            deps = frozenset().union(*[self.bound[j] for m in p for j, _ in self.decode(m)]) if p else frozenset()
            i = self.atom("base", k, deps)
            self.defs[i] = p
        return i

    def polypow(self, p, e):
        if e.denominator == 1 and e >= 0:
            return self.ppow(p, int(e))
        if not p:
            raise ZeroDivisionError("0 ** %s" % e)
        if len(p) == 1:
            (m, c), = p.items()
            cc = None
            if e.denominator == 1:
                cc = c ** int(e)
                out = {0: Fraction(1)}
            else:
                out = {0: Fraction(1)}
                if c == 1:
                    cc = Fraction(1)
                elif c > 0:
                    a = self.atom("const", c)
                    self.defs.setdefault(a, {0: c})
                    out = {self.mono(a, e): Fraction(1)}
                    cc = Fraction(1)
                else:
                    return {self.mono(self.base(p), e): Fraction(1)}
            mm = 0
            for i, ex in self.decode(m):
                mm += self.mono(i, Fraction(ex, UNIT) * e)
            return self.pmul({mm: cc}, out)
        # normalise the leading coefficient
        lead = abs(p[max(p)])
        if lead != 1:
            q = {m: c / lead for m, c in p.items()}
            return self.pmul(self.polypow({0: lead}, e), self.polypow(q, e))
        # strip the common monomial content of negative exponents is not needed: base atoms may be Laurent
        return {self.mono(self.base(p), e): Fraction(1)}

    # -- zero test
    def is_zero(self, p, hard=True):
        if not p:
            return True
        order = sorted(self.defs, reverse=True)
        for stage in (0, 1):
            for i in order:
                if stage == 0 and i in self.soft:
                    continue
                p = self.expand(p, i)
                if self.rels:
                    p = self.reduce(p)
                if not p:
                    return True
            if stage == 0:
                if not self.soft or not hard:
                    return False
                # base atoms may contain soft atoms: expand those definitions, too
                for i in order:
                    if i in self.soft:
                        p = self.expand(p, i)
                        if self.rels:
                            p = self.reduce(p)
        return not p

    def expand(self, p, i):
        """replace the integer part of the powers of atom i by its definition (clearing negative powers)"""
        d = self.defs[i]
        groups = {}
        lo = 0
        for m, c in p.items():
            e = 0
            for j, ex in self.decode(m):
                if j == i:
                    e = ex
            n, f = divmod(e, UNIT)
            lo = min(lo, n)
            mm = m - (e << (SH * i) if e >= 0 else -((-e) << (SH * i))) + (f << (SH * i))
            groups.setdefault(n, {})[mm] = c
        if set(groups) <= {0}:
            return p
        out = {}
        pw = {0: {0: Fraction(1)}}
        top = max(groups) - lo
        cur = {0: Fraction(1)}
        for k in range(top + 1):
            g = groups.get(k + lo)
            if g is not None:
                out = self.padd(out, self.pmul(g, cur))
            if k < top:
                cur = self.pmul(cur, d)
        return out

    def equal(self, a, b):
        d = self.padd(self.nf(a), self.nf(b), -1)
        if self.rels:
            d = self.reduce(d)
        if self.kill:
            d = {m: c for m, c in d.items() if not any(i in self.kill and e > 0 for i, e in self.decode(m))}
        return self.is_zero(d)

    def vanishing(self, t):
        """declare: the application t of an uninterpreted function is zero"""
        p = self.nf(t)
        if len(p) == 1:
            (m, _), = p.items()
            a = self.decode(m)
            if len(a) == 1 and a[0][1] == UNIT:
                self.kill.add(a[0][0])
