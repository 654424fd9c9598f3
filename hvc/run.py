"""Proving a contract case (all paths, all obligations) and running it on the real package."""
import os
import signal
import time
import traceback
import types
import numpy as np
from . import term as TM
from . import loader, registry
from .prove import Prover, Stats, limit, Timeout, split_eq
from .world import SymWorld, ConWorld, Abort, MODES
from .term import T, Oracle, Unsupported, bnot, subst, free_vars, evaluate, evalb
from .smt import Z3Ctx, z3
from .ring import Ring
from .seek import seek, flat, expand

MAXPATHS = int(os.environ.get("HVC_MAXPATHS", "96"))


class CaseResult:
    def __init__(self, cname, case, mode):
        self.contract, self.case, self.mode = cname, case, mode
        self.paths = 0
        self.total = 0
        self.by = {}          # backend -> discharged obligations
        self.time = {}
        self.open = []        # (label, kind, text, path)
        self.unsupported = None
        self.error = None
        self.directed = []
        self.failing = []     # (seed, options, label): runs on the real package which fail
        self.wall = 0.0
        self.assumed = set()
        self.facts = 0
        self.labels = []
        self.frame_only = False

    @property
    def refuted(self):
        return any(o[1] == "refuted" for o in self.open)

    def proved_for(self, pid):
        """frame conditions are decided by C17 alone"""
        return self.unsupported is None and self.error is None and (self.total > 0 or self.frame_only) and \
            not any((o[1] == "frame") <= (pid == "C17") for o in self.open)

    @property
    def proved(self):
        return self.unsupported is None and self.error is None and not self.open and self.total > 0


def path_text(S):
    return "; ".join(str(f)[:160] for f in S.gfacts + S.pfacts) or "true"


def model_point(S, extra=()):
    """an input on this path (values of the input variables), if z3 finds one"""
    try:
        ctx = Z3Ctx(Ring())
        fs = [f for f in S.facts() + list(extra) if not isinstance(f, bool)]
        for f in fs:
            for t in TM.bterms(f):
                ctx.scan(t)
        s = z3.Solver()
        s.set("timeout", 3000)
        for f in fs:
            s.add(Prover.generic(ctx, f))
        s.add(*ctx.side)
        if s.check() != z3.sat:
            return None
        m = s.model()
        out = {}
        for k, v in ctx.vars.items():
            if k[0] == "v":
                x = m.eval(v, model_completion=True)
                try:
                    out[k[1]] = float(x.as_fraction()) if z3.is_rational_value(x) else float(x.approx(20).as_fraction())
                except Exception:
                    pass
        return out or None
    except (Unsupported, z3.Z3Exception, Timeout, Exception):
        return None


def run_path(con, case, prefix, prover, stubs, res):
    pkg = loader.SymPackage(shims=con.shims, transform=con.transform)
    S = SymWorld(pkg, prefix, prover, frame=True)
    S.case = case
    old = Oracle.current
    Oracle.current = S
    undo = []
    try:
        if stubs:
            for n in con.callees:
                c = registry.CALLEES[n]
                owner, name, orig = pkg.find(c.target)
                new = c.stub(S, orig)
                new.__name__ = getattr(orig, "__name__", n)
                if owner is None or isinstance(owner, types.ModuleType):
                    pkg.rebind(orig, new)
                else:
                    setattr(owner, name, new)
        S.stubbed = stubs
        state = loader.ModuleState(pkg)
        try:
            con.fn(S, **case)
            end = "done"
            what = state.changed()
            if what:
                raise Unsupported("module-level state is changed by a call: " + what)
        except Abort as e:
            end = str(e)
    finally:
        Oracle.current = old
        TM.defined_log = None
        TM.names.clear()
    return S, end


class Witness:
    """sample inputs (from concrete runs of the same contract) at which open obligations are evaluated"""

    def __init__(self, cname, case):
        self.cname, self.case, self.envs = cname, case, None
        self.seen, self.spent = set(), 0.0

    def load(self):
        if self.envs is None:
            self.envs = []
            con = registry.ALL[self.cname]
            if con.con:
                for k, m in enumerate(("generic", "equi2", "equi3")):
                    try:
                        W = run_concrete(self.cname, self.case, 7000 + k, {"mode": m})
                        self.envs.append((W, {}))
                    except Exception:
                        pass
        return self.envs

    def covers(self, facts):
        """a sample input lies on the path"""
        fs = flat(facts)
        for W, memo in self.load():
            try:
                with np.errstate(all="ignore"):
                    ok = np.asarray(True)
                    for f in fs:
                        for t in TM.bterms(f):
                            for n, k in functions_of(t):
                                W.function(n, k)
                        ok = ok & np.asarray(evalb(f, W.env, memo))
                if np.any(ok):
                    return True
            except (KeyError, Unsupported, ValueError, TypeError, AttributeError):
                continue
        return False

    def search(self, S, res, seconds=6.0):
        """inputs on a path which no sample input takes, tried at once on the real package"""
        con = registry.ALL[self.cname]
        facts = [f for f in S.gfacts + S.pfacts if not isinstance(f, bool)]
        if not con.con or not facts or self.spent > 12.0:
            return None
        key = tuple(sorted(str(id(f)) for f in facts))
        if key in self.seen or self.covers(facts):
            return None
        self.seen.add(key)
        t0 = time.time()
        found = None
        for k, m in enumerate(("generic", "near-isochoric", "tiny", "extreme")):
            if time.time() - t0 > seconds or found:
                break
            try:
                o = {"mode": m, "dims": [1]}
                W = run_concrete(self.cname, self.case, 7100 + k, o)
                for p in seek(facts, S.defs, W, seconds=2.0):
                    V = run_concrete(self.cname, self.case, 7100 + k, dict(o, directed=p))
                    self.envs.append((V, {}))
                    res.directed.append(p)
                    if V.failures:
                        found = (7100 + k, dict(o, directed=p), V.failures[0][0])
                        break
            except (Abort, KeyError, Unsupported, ValueError, TypeError, AttributeError):
                continue
        self.spent += time.time() - t0
        return found

    def refutes(self, S, a, b, facts):
        """a != b at a sample which satisfies the facts of the path"""
        fs = [f.args[0] if f.op == "all" else f for f in facts if not isinstance(f, bool) and f.op != "any"]
        for W, memo in self.load():
            try:
                for n in S.symf:
                    W.symf.add(n)
                need = set()
                for t in [a, b] + [x for f in fs for x in TM.bterms(f)]:
                    st = [t]
                    while st:
                        t = st.pop()
                        if t in need:
                            continue
                        need.add(t)
                        if t.op == "f":
                            W.function(t.args[0], len(t.args[2]))
                        st.extend(TM.children(t))
                with np.errstate(all="ignore"):
                    ok = np.asarray(True)
                    for f in fs:
                        if isinstance(f, bool):
                            continue
                        ok = ok & np.asarray(evalb(f, W.env, memo))
                    if not np.any(ok):
                        continue
                    x, y = np.asarray(evaluate(a, W.env, memo), float), np.asarray(evaluate(b, W.env, memo), float)
                    sc = np.maximum(np.maximum(np.abs(x), np.abs(y)), 1e-3)
                    if np.any(ok & (np.abs(x - y) > 1e-6 * sc)):
                        return True
            except (KeyError, Unsupported, ValueError, TypeError, AttributeError):
                continue
        return False


def functions_of(t):
    out, st, seen = set(), [t], set()
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "f":
            out.add((t.args[0], len(t.args[2])))
        st.extend(TM.children(t))
    return out


def discharge(S, o, prover, con, wit=None):
    """-> backend name or None"""
    facts = [f for f in S.facts() if not isinstance(f, bool)]
    if o.kind == "noexc":
        return None if prover.feasible(facts, 3.0) else "z3"
    if o.kind in ("frame", "shape") or isinstance(o.cond, bool):
        if o.cond is True or o.cond:
            prover.stats.add("syntactic", 0.0, True)
            return "syntactic"
        return None if prover.feasible(facts, 3.0) else "z3"
    lem = []
    for u in o.using:
        lem += S.lemmas.get(u, [])
    if o.kind == "eq":
        a, b = o.a, o.b
        if o.abstract:
            a, b = subst(a, o.abstract), subst(b, o.abstract)
            facts = [f for f in facts]
        if a is b:
            return prover.eq(a, b)
        m = S._subst if S._subst is not None else None
        if m is None:
            m = S._subst = prover.simplify(facts, S.cands)
            for zs, implied in S.transfers:
                known = zero_factors(facts)
                if known and all(z in known or prover.entails(facts, TM.compare("==", z, TM.ZERO)) for z in zs):
                    m.update({x: TM.ZERO for x in implied})
            for k, v in m.items():
                if k.op == "f" and v is TM.ZERO:
                    prover.ring.vanishing(k)
        if m:
            a, b = subst(a, m), subst(b, m)
        if a is b:
            return prover.eq(a, b)
        if wit is not None and not o.using and wit.refutes(S, a, b, facts):
            o.kind = "refuted"
            return None
        if S.defs and not o.using:
            c, d = a, b
            for _ in range(3):
                c, d = subst(c, S.defs), subst(d, S.defs)
            return prover.quick(a, b) or ((c is not a or d is not b) and prover.quick(c, d, 0.5)) or prover.eq(a, b, [f for f in S.gfacts + S.pfacts if not isinstance(f, bool)]) or unfold(S, a, b, prover)
        return prover.eq(a, b, ([f for f in S.gfacts + S.pfacts if not isinstance(f, bool)] + lem) if not o.using or lem else facts) or \
            (prover.eq(a, b, facts + lem) if S.hyps else None)
    return prover.holds(o.cond, facts + lem)


def zero_factors(facts):
    """terms which vanish by a fact product == 0 (the other factors being positive)"""
    out = set()
    for f in facts:
        for x, y in split_eq(f):
            d = TM.sub(x, y)
            out.add(d)
            core = TM._split(d)[1]
            fs = [b for b, e in TM._factors(core) if not TM.positive(b) and (isinstance(e, T) or e > 0)]
            if len(fs) == 1:
                out.add(fs[0])
    return out


def unfold(S, a, b, prover):
    """ghost names replaced by their definitions"""
    for _ in range(3):
        a, b = subst(a, S.defs), subst(b, S.defs)
    return prover.eq(a, b)


def prove_case(cname, case, stubs=True, seconds=120.0, timeout=4.0, kinds=None):
    con = registry.ALL[cname]
    t0 = time.time()
    stubs = stubs and bool(con.callees)
    res = CaseResult(cname, case, "modular" if stubs else "inlined" if con.callees else "direct")
    res.frame_only = kinds is not None
    stats = Stats()
    todo = [[]]
    wit = Witness(cname, case)
    TM._dmemo.clear() if len(TM._dmemo) > 200000 else None
    try:
        with limit(seconds):
            while todo:
                prefix = todo.pop()
                prover = Prover(con.symfuns, timeout=timeout, stats=stats)
                S, end = run_path(con, case, prefix, prover, stubs, res)
                todo += S.branch
                if end == "infeasible path":
                    continue
                res.paths += 1
                if res.paths > MAXPATHS:
                    raise Unsupported("more than %d paths" % MAXPATHS)
                S._subst = None
                prover.symfuns = tuple(S.symf | set(con.symfuns))
                prover.reset()
                prover.ring.rels = dict(S.rels)
                opened = 0
                npath = 0
                hit = wit.search(S, res)
                if hit:
                    res.failing.append(hit)
                    res.total += 1
                    res.open.append((hit[2], "refuted", "fails on the real package at an input found on this path", path_text(S)))
                    break
                obls = [o for o in S.obls if kinds is None or o.kind in kinds]
                if kinds is not None:
                    S.defined = []
                if end == "done" and not S.obls:
                    raise RuntimeError("contract produced no obligation")
                for o in obls:
                    if o.kind == "eq" and opened >= 3:
                        res.total += 1
                        res.open.append((o.label, o.kind, "not attempted (earlier obligations of this path are open)", ""))
                        continue
                    w = discharge(S, o, prover, con, wit)
                    res.total += 1
                    npath += 1
                    if w is None:
                        opened += 1
                        res.open.append((o.label, o.kind, o.text, path_text(S)))
                    else:
                        res.by[w] = res.by.get(w, 0) + 1
                seen = set()
                for kind, t in S.defined:
                    if (kind, t) in seen:
                        continue
                    seen.add((kind, t))
                    res.total += 1
                    g = {"nonzero": TM.compare("!=", t, TM.ZERO), "positive": TM.compare(">", t, TM.ZERO),
                         "nonnegative": TM.compare(">=", t, TM.ZERO)}[kind]
                    w = prover.holds(g, [f for f in S.facts() if not isinstance(f, bool)])
                    if w is None:
                        w = defined_by_factors(kind, t, S, prover)
                    if w is None:
                        res.open.append((f"defined: {kind} {TM.show(t, 3)}", "defined", "", path_text(S)))
                    else:
                        res.by[w] = res.by.get(w, 0) + 1
                if S.gfacts or S.pfacts:
                    p = model_point(S)
                    if p:
                        res.directed.append(p)
    except Unsupported as e:
        res.unsupported = str(e) or "unsupported"
    except Timeout:
        res.unsupported = "time limit of %.0f s" % seconds
    except RecursionError:
        res.unsupported = "recursion limit"
    except z3.Z3Exception as e:
        res.unsupported = "z3: " + str(e)[:100]
    except MemoryError:
        res.unsupported = "memory"
    except Exception as e:
        # a failure inside the code under verification outside of `guard`, or an internal error of the verifier
        res.error = "".join(traceback.format_exception_only(type(e), e)).strip() + " @ " + \
            "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_tb(e.__traceback__)[-3:])
    res.time = dict(stats.t)
    res.wall = time.time() - t0
    return res


def defined_by_factors(kind, t, S, prover):
    """x*y is non-zero / positive when its factors are"""
    if t.op != "*":
        return None
    facts = [f for f in S.facts() if not isinstance(f, bool)]
    for b, e in t.args:
        rel = "!=" if kind == "nonzero" else ">"
        if not prover.holds(TM.compare(rel, b, TM.ZERO), facts):
            return None
    return "z3"


# ------------------------------------------------------------------------------------------------------ concrete runs
_real = None


def real_package():
    global _real
    if _real is None:
        import warnings
        warnings.simplefilter("ignore")
        _real = loader.load_real()
    return _real


def run_concrete(cname, case, seed, opts, only=None):
    """-> (failures, checks, inputs) ; None failures if the sample is outside of the precondition"""
    con = registry.ALL[cname]
    S = ConWorld(real_package(), seed, opts)
    S.case = case
    S.stubbed = False
    try:
        con.fn(S, **case)
    except Abort:
        pass
    return S
