"""Numerical search for inputs on a path: sample inputs of the contract are moved until the branch conditions hold.
Only used to find failing inputs; never part of a proof."""
import time
import numpy as np
from . import term as TM
from .term import evaluate, subst, bsubst, Unsupported


def violation(b, env, memo):
    """0 where the condition holds (at the point of env), a distance otherwise"""
    if isinstance(b, bool):
        return 0.0 if b else 1.0
    if b.op == "cmp":
        rel, x, y = b.args
        x, y = float(np.ravel(evaluate(x, env, memo))[0]), float(np.ravel(evaluate(y, env, memo))[0])
        if not (np.isfinite(x) and np.isfinite(y)):
            return 1e9
        d = x - y
        if rel == "==":
            return abs(d)
        if rel == "!=":
            return 0.0 if d else 1e-3
        if rel in (">", ">="):
            d, rel = -d, {">": "<", ">=": "<="}[rel]
        if rel == "<":
            return 0.0 if d < 0 else d + 1e-12
        return max(0.0, d)
    if b.op == "and":
        return sum(violation(x, env, memo) for x in b.args)
    if b.op == "not":
        x = b.args[0]
        if isinstance(x, bool):
            return 0.0 if not x else 1.0
        if x.op == "and":
            return min(violation(TM.bnot(y), env, memo) for y in x.args)
        return 0.0
    if b.op in ("all", "any"):
        return violation(b.args[0], env, memo)
    return 0.0


def flat(fs):
    out = []
    for f in fs:
        if isinstance(f, bool):
            continue
        if f.op == "and":
            out += flat(f.args)
        elif f.op in ("all", "any"):
            out += flat([f.args[0]])
        else:
            out.append(f)
    return out


def expand(b, m):
    for _ in range(3):
        b = bsubst(b, lambda t: subst(t, m))
    return b


def bvars(b):
    out = set()
    for t in TM.bterms(b):
        out |= set(TM.free_vars(t))
    return out


def seek(facts, defs, W, seconds=2.0):
    """-> list of {input: value} (at most 2) on the path, or []"""
    t0 = time.time()
    fs = flat([expand(f, defs) if defs else f for f in facts if not isinstance(f, bool)])
    names = set()
    for f in fs:
        names |= bvars(f)
    base = {}
    for k, v in W.env["vars"].items():
        a = np.ravel(v)
        if a.size == 0:
            return []
        base[k] = float(a[0])
    names = [n for n in sorted(names) if n in base and n in W.directable]
    if not names:
        return []
    need = set()
    for f in fs:
        for t in TM.bterms(f):
            st = [t]
            while st:
                t = st.pop()
                if t in need:
                    continue
                need.add(t)
                if t.op == "f":
                    W.function(t.args[0], len(t.args[2]))
                st.extend(TM.children(t))
    x0 = np.array([base[n] for n in names])

    def res(x):
        if time.time() - t0 > seconds:
            raise TimeoutError
        vs = dict(base)
        vs.update(zip(names, [float(v) for v in x]))
        env = dict(W.env, vars=vs)
        memo = {}
        with np.errstate(all="ignore"):
            return np.array([violation(f, env, memo) for f in fs])

    try:
        x, r = x0, res(x0)
        for _ in range(40):
            if not np.any(r):
                break
            act = np.nonzero(r)[0]
            J = np.zeros((len(act), len(x)))
            for i in range(len(x)):
                h = 1e-6 * max(abs(x[i]), 1e-3)
                y = x.copy()
                y[i] += h
                J[:, i] = (res(y)[act] - r[act]) / h
            try:
                dx = -np.linalg.lstsq(J, r[act], rcond=1e-10)[0]
            except np.linalg.LinAlgError:
                return []
            if not np.all(np.isfinite(dx)):
                return []
            dx *= min(1.0, 0.5 * max(1.0, np.max(np.abs(x))) / max(np.max(np.abs(dx)), 1e-300))
            a = 1.0
            for _ in range(12):
                y = x + a * dx
                s = res(y)
                if np.sum(s) < np.sum(r) * (1 - 1e-3):
                    break
                a /= 2
            else:
                # the last bit: a little beyond the boundary
                y = x + dx * (1 + 1e-6)
                s = res(y)
                if np.any(s):
                    return []
            x, r = y, s
        if np.any(r):
            return []
        out = []
        d = x - x0
        inner = None
        if np.any(d):
            for k in range(0, 10):
                t = 10.0 ** -k
                if not np.any(res(x + t * d)):
                    inner = x + 0.5 * t * d
                    break
        if inner is not None and not np.any(res(inner)):
            out.append(dict(zip(names, map(float, inner))))
        out.append(dict(zip(names, map(float, x))))
        return out
    except (TimeoutError, KeyError, Unsupported, ValueError, TypeError, AttributeError, ZeroDivisionError, OverflowError):
        return []
