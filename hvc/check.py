"""Decide one property: prove every obligation of its contracts on /repo's current source, and run the same contracts on the real package."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from hvc import registry, run, loader               # noqa: E402
from hvc.world import MODES                          # noqa: E402
from hvc.prove import limit, Timeout                 # noqa: E402

LAYOUTS = ["F", "strided", "transposed", "interleaved"]
DIMS = [(1,), (530,), (3, 3), (1, 3), (6,), (2, 1, 2), (4,), (3, 70), (2, 1, 1, 3), (6, 6), ()]
MAGS = [1e-12, 1e-6, 1e6]
GLOBAL_TRUST = [
    "verifier: hvc term algebra, symbolic executor of the numpy subset used by the package (hvc/arr.py, npshim.py), exact rational normal form (hvc/ring.py), z3",
    "real arithmetic: floating-point rounding, overflow and NaN propagation are not modelled (the bounded runs on the real package observe them)",
    "energies are twice continuously differentiable (mixed partial derivatives commute)",
    "CPython, and numpy's documented semantics of the operations modelled by the shim",
]


def seed0():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def variants(con, tier, pid):
    """the inputs (generator settings) of the bounded runs on the real package"""
    s = 1000 * seed0()
    modes = list(con.modes or MODES)
    pick = lambda k: modes[k % len(modes)]
    groups = [[(s + k, {"mode": m}) for k, m in enumerate(modes)],
              [(s + 90 + k, {"mode": pick(k), "dims": list(d)}) for k, d in enumerate(DIMS) if d != () or con.rank0],
              [(s + 50 + k, {"mode": pick(k), "layout": l}) for k, l in enumerate(LAYOUTS + (["readonly"] if pid == "C17" else []))],
              [(s + 70 + k, {"mode": modes[0], "mag": m}) for k, m in enumerate(MAGS if con.mags else [])],
              [(s + 120 + k, {"mode": pick(k), "mixed": True}) for k in range(2)],
              [(s + 130 + k, {"mode": pick(k), "dims": d, "special": True}) for k, d in enumerate([[3], [2, 2], [1], [2], [1, 3], [4]])]]
    if pid == "C05":
        groups[1].insert(1, (s + 110, {"mode": modes[0], "dims": [0]}))
    if con.runs and tier == "quick":
        # a selection of every kind
        out = []
        while any(groups) and len(out) < con.runs:
            for g in groups:
                out += g[:2 if g is groups[0] else 1]
                del g[:2 if g is groups[0] else 1]
        return out[:con.runs]
    out = [v for g in groups for v in g]
    if tier == "thorough":
        for r in range(int(12 * con.weight) or 1):
            for k, m in enumerate(modes):
                out.append((s + 200 + 100 * r + k, {"mode": m, "layout": (["C"] + LAYOUTS)[(r + k) % 5], "mag": [1.0, 1.0, 1e-6, 1e4][(r // 4 + k) % 4] if con.mags else 1.0}))
    return out


def directed_variants(directed):
    s = 1000 * seed0()
    out = []
    for k, d in enumerate(directed):
        out.append((s + 150 + k, {"mode": "generic", "directed": d, "dims": [2]}))
        out.append((s + 170 + k, {"mode": "mild", "directed": d, "dims": [1]}))
        out.append((s + 190 + k, {"mode": "generic", "directed": d, "dims": [3], "dpoint": 1}))
    return out


def literals(root):
    """numbers in the source of the package (constant expressions folded)"""
    import ast
    ints, reals = set(), set()

    def fold(n):
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            return n.value
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            v = fold(n.operand)
            return None if v is None else -v
        if isinstance(n, ast.BinOp):
            a, b = fold(n.left), fold(n.right)
            if a is None or b is None:
                return None
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.FloorDiv: lambda: a // b,
                        ast.Pow: lambda: a ** b if abs(b) < 64 else None, ast.LShift: lambda: a << b if b < 40 else None}.get(type(n.op), lambda: None)()
            except Exception:
                return None
        return None
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
            except (SyntaxError, UnicodeDecodeError):
                continue
            for n in ast.walk(tree):
                v = fold(n)
                if v is None or isinstance(v, complex) or v != v:
                    continue
                reals.add(float(v))
                if v == int(v) if abs(v) < 1e15 else False:
                    ints.add(abs(int(v)))
    return sorted(ints), sorted(reals, key=abs)


def fallback_variants(con, done, ints, reals=()):
    """further inputs for the cases which are not proved: batch sizes around the numbers in the source, further memory layouts and ranks"""
    s = 1000 * seed0()
    modes = list(con.modes or MODES)
    pick = lambda k: modes[k % len(modes)]
    out = list(variants(con, "all", None))
    out += [(s + 300 + k, {"mode": pick(k), "layout": l}) for k, l in enumerate(["negative", "broadcast"]) if l != "negative" or "torch" not in con.preload]
    out += [(s + 304 + k, {"mode": pick(k), "layout": "broadcast", "dims": [3, 4][k:]}) for k in range(2)]
    out += [(s + 310 + k, {"mode": pick(k), "dims": d}) for k, d in enumerate([[2, 1, 1, 1, 2], [1, 2, 1, 2, 1, 2], [5], [8], [1, 1], [2, 1], [1, 4, 1], [16], [31], [7, 9]])]
    sizes = [n for c in ints if 7 <= c <= 120000 for n in (c - 1, c, c + 1)]
    out += [(s + 330 + k, {"mode": pick(k), "dims": [n], "soft": True}) for k, n in enumerate(sizes[:60])]
    out += [(s + 400 + k, {"mode": m}) for k, m in enumerate(modes)]
    out += [(s + 420 + k, {"mode": m, "layout": (["C"] + LAYOUTS)[k % 5]}) for k, m in enumerate(modes)]
    if con.mags:
        small = [c * 1e-2 for c in map(abs, reals) if 0 < c < 1e-4][:6] + [c * 1e2 for c in map(abs, reals) if c > 1e4][:4]
        out[4:4] = [(s + 450 + k, {"mode": modes[0], "mag": m}) for k, m in enumerate([1e-20, 1e-30, 1e12] + small)]
    seen = {json.dumps(x) for x in done}
    return [v for v in out if json.dumps(v) not in seen]


# ------------------------------------------------------------------------------------------------------------- jobs
def prove_job(a):
    name, case, stubs, kinds, seconds, timeout = a
    r = run.prove_case(name, case, stubs=stubs, seconds=seconds, timeout=timeout, kinds=kinds)
    return a, r


def relevant(pid, f):
    return (f[2] == "frame") == (pid == "C17") or (pid == "C17" and f[2] != "frame" and False)


def one_run(name, case, seed, opts, pid, own):
    try:
        with limit(30 if opts.get("soft") else 90):
            S = run.run_concrete(name, case, seed, opts)
    except (Timeout, MemoryError):
        if opts.get("soft"):
            return [], 0, {}
        return [("termination", "no result within 90 s", "eq")], 1, {}
    fs = []
    for f in S.failures:
        f = tuple(f) if len(f) == 3 else (f[0], f[1], "eq")
        if f[2] == "frame" and pid != "C17":
            continue
        if pid == "C17" and not own and f[2] != "frame" and not (opts.get("layout") == "readonly" and "read-only" in f[1]):
            continue
        fs.append(f)
    return fs, S.checks, S.inputs


def concrete_job(a):
    name, case, runs, pid, own = a
    hist, checks, inputs, n = [], 0, None, 0
    t0 = time.time()
    for seed, opts in runs:
        hist.append((seed, opts))
        try:
            fs, c, inp = one_run(name, case, seed, opts, pid, own)
        except Exception as e:
            if opts.get("layout") == "broadcast":     # (the contract itself writes into its arrays)
                hist.pop()
                continue
            import traceback
            return a, {"error": f"{type(e).__name__}: {e} " + "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_tb(e.__traceback__)[-3:]),
                       "checks": checks, "n": n, "wall": time.time() - t0}
        checks += c
        n += c > 0
        if fs:
            inp = {k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in inp.items()}
            return a, {"fail": fs, "hist": hist, "inputs": inp, "checks": checks, "n": n, "wall": time.time() - t0}
        inputs = inputs or inp
    return a, {"checks": checks, "n": n, "wall": time.time() - t0,
               "sample": {k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in (inputs or {}).items()}}


def literal_job(a):
    """a case which is not proved, with single inputs set to the numbers in the source"""
    name, case, reals, pid, own = a
    s = 1000 * seed0() + 500
    runs = []
    try:
        with limit(60):
            names = sorted(run.run_concrete(name, case, s, {"mode": "generic", "dims": [2]}).directable, key=lambda n: (len(n), n))
        vals = [v for c in reals for v in ((c, c * (1 + 1e-4), c * (1 - 1e-4)) if c else (0.0,))]
        runs = [(s + k, {"mode": "generic", "dims": [2], "directed": {n: v}, "soft": True}) for n in names[:10] for k, v in enumerate(vals[:60])]
    except (Exception, Timeout):
        pass
    t0, n, checks = time.time(), 0, 0
    for seed, opts in runs:
        if time.time() - t0 > 25:
            break
        try:
            fs, c, inp = one_run(name, case, seed, opts, pid, own)
        except Exception:
            continue
        n += c > 0
        checks += c
        if fs:
            return (name, case, runs, pid, own), {"fail": fs, "hist": [(seed, opts)], "inputs": {k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in inp.items()},
                                                  "checks": checks, "n": n, "wall": time.time() - t0}
    return (name, case, runs, pid, own), {"checks": checks, "n": n, "wall": time.time() - t0}


def pool(n, fresh=False):
    return mp.get_context("fork").Pool(n, maxtasksperchild=1 if fresh else 24)


# --------------------------------------------------------------------------------------------------------- findings
def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) contract=(\S+) case=(\S+) label=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    return out


def matches(known, name, case, fails):
    for c, cs, lab, text in known:
        if c == name and (cs == "*" or cs == registry.case_name(case)) and all(re.fullmatch(lab, f[0]) for f in fails):
            return text
    return None


def replay_file(pid, k, data):
    d = os.path.join(HERE, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{pid}-{k}.json")
    with open(p, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return p


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("HVC_JOBS", "8")))
    ap.add_argument("--only", default=None)
    o = ap.parse_args(argv)
    pid, tier, t0 = o.property, o.tier if o.tier in ("quick", "thorough") else "quick", time.time()
    registry.load()
    own = {n: c for n, c in registry.ALL.items() if pid in c.props and (o.only is None or n == o.only)}
    if not own:
        print("no contract for", pid)
        return 2
    # C17: every contract of the library carries the frame condition of the functions it calls
    extra = {n: c for n, c in registry.ALL.items() if pid == "C17" and n not in own and c.funcs and o.only is None}
    # contracts of the callees used at call sites (closed under their own proofs)
    dep = {}
    todo = list(own.values()) + list(extra.values())
    while todo:
        c = todo.pop()
        for k in c.callees:
            for pn in registry.CALLEES[k].proof:
                if pn not in own and pn not in dep:
                    dep[pn] = registry.ALL[pn]
                    todo.append(registry.ALL[pn])
    # ---- the contracts on the real package (bounded)
    run.real_package()
    for m in sorted({m for c in list(own.values()) + list(extra.values()) for m in c.preload}):
        importlib.import_module(m)
        if m == "torch":
            sys.modules[m].set_num_threads(1)
    viol = []

    def concrete_phase(cjobs, job=concrete_job, ccap=200.0 if tier == "quick" else 300.0):
        out = []
        if not cjobs:
            return out
        t1 = time.time()
        with pool(o.jobs, fresh=True) as p:
            it = p.imap_unordered(job, cjobs, chunksize=1)
            for _ in cjobs:
                try:
                    a, r = it.next(timeout=max(1.0, ccap - (time.time() - t1)))
                except mp.TimeoutError:
                    p.terminate()
                    break
                out.append((a, r))
        return out

    cjobs = []
    for n, c in list(own.items()) + list(extra.items()):
        if not c.con:
            continue
        for k, cs in enumerate(c.cases(tier)):
            if n in extra and tier == "quick" and k % 6:
                continue
            v = variants(c, tier, pid)
            if n in extra:
                v = v[:1] + [x for x in v if x[1].get("layout")] + v[-2:]
            elif c.runs and tier == "quick":
                v = v[:c.runs]
            cjobs.append((n, cs, v, pid, n in own))
    cres = concrete_phase(cjobs)
    early = any("fail" in r and not matches(known_findings(pid), a[0], a[1], r["fail"]) for a, r in cres)
    t0p = time.time()
    cap = 60.0 if early else 220.0 if tier == "quick" else 420.0
    jobs = []
    sec = 100.0 if tier == "quick" else 400.0
    tmo = 4.0 if tier == "quick" else 12.0
    for n, c in own.items():
        if c.sym:
            kinds = ("frame", "noexc") if False else None
            jobs += [(n, cs, True, kinds, min(cap, c.budget or sec) if tier == "quick" else max(c.budget or 0, sec), tmo) for cs in c.cases(tier)]
    for n, c in dep.items():
        if c.sym and n not in extra:
            jobs += [(n, cs, True, None, c.budget or sec, tmo) for cs in c.cases("quick")]
    for n, c in extra.items():
        if c.sym:
            jobs += [(n, cs, True, ("frame",), sec, tmo) for cs in c.cases("quick")[::3 if tier == "quick" else 1]]
    # the slow ones first
    jobs.sort(key=lambda j: -(registry.ALL[j[0]].weight))
    res = {}
    stop = [cap]

    def do_prove(js):
        if not js:
            return
        with pool(o.jobs) as p:
            it = p.imap_unordered(prove_job, js, chunksize=1)
            for _ in js:
                left = min(cap, stop[0]) - (time.time() - t0p)
                try:
                    a, r = it.next(timeout=max(1.0, left))
                except mp.TimeoutError:
                    p.terminate()
                    break
                res[(a[0], registry.case_name(a[1]), a[2])] = (a, r)
                if r.failing:
                    # a failing run on the real package is known: the verdict does not depend on the rest
                    stop[0] = min(stop[0], time.time() - t0p + 20.0)

    def get(n, cs, stubs):
        x = res.get((n, registry.case_name(cs), stubs))
        return x[1] if x else None

    do_prove(jobs)
    proved_contract = {}

    def contract_proved(n):
        """all cases of a contract are proved, and so are the contracts of its callees"""
        if n in proved_contract:
            return proved_contract[n]
        proved_contract[n] = False      # a recursive dependency does not justify itself
        c = registry.ALL[n]
        ok = True
        for cs in c.cases("quick"):
            r = get(n, cs, True)
            if r is not None and r.frame_only:
                continue
            ok = ok and r is not None and r.proved_for(None)
        ok = ok and all(contract_proved(x) for k in c.callees for x in registry.CALLEES[k].proof)
        proved_contract[n] = ok
        return ok

    # second attempt: callees whose contract does not hold (or is not proved) on this tree, and callers which do not verify against the
    # contracts, are verified with the callees' bodies in place
    again = []
    for j in jobs:
        n, cs = j[0], j[1]
        c = registry.ALL[n]
        if n not in own or not c.callees:
            continue
        r = get(n, cs, True)
        if r is None or not r.proved_for(pid) or not all(contract_proved(x) for k in c.callees for x in registry.CALLEES[k].proof):
            again.append((n, cs, False, j[3], j[4], j[5]))
    if again and not early and not any(r.failing for _, r in res.values()) and time.time() - t0p < cap - 30:
        do_prove(again)
    t_prove = time.time() - t0p

    final, undecided = [], []
    for j in jobs:
        n, cs, kinds = j[0], j[1], j[3]
        if n not in own and n not in extra:
            continue
        c = registry.ALL[n]
        m, i = get(n, cs, True), get(n, cs, False)
        mod_ok = m is not None and m.proved_for(pid) and (n in extra or all(contract_proved(x) for k in c.callees for x in registry.CALLEES[k].proof))
        r = m if mod_ok else i if i is not None and (i.proved_for(pid) or not i.unsupported) else m if m is not None and i is None else i
        final.append((n, cs, r, mod_ok or (i is not None and i.proved_for(pid))))
    # ---- counterexample candidates of the verifier replayed on the real package
    if not early:
        jobs2 = []
        for n, c in list(own.items()) + list(extra.items()):
            if c.con:
                for k, cs in enumerate(c.cases(tier)):
                    if n in extra and tier == "quick" and k % 6:
                        continue
                    ds = [d for s in (True, False) for d in (get(n, cs, s).directed if get(n, cs, s) else [])][:4 if tier == "quick" else 12]
                    v = [(sd, op) for s in (True, False) for sd, op, _ in (get(n, cs, s).failing if get(n, cs, s) else [])] + directed_variants(ds)
                    if v:
                        jobs2.append((n, cs, v, pid, n in own))
        cres += concrete_phase(jobs2)
        early = any("fail" in r and not matches(known_findings(pid), a[0], a[1], r["fail"]) for a, r in cres)
    # ---- further inputs for the cases which are not proved (none of them if all are)
    if not early:
        ints, reals = literals(os.path.join(loader.REPO, "src", "hyperelastic"))
        open_cases = [(n, cs) for n, cs, r, ok in final if not ok and n in own and own[n].con]
        done = {(a[0], registry.case_name(a[1])): a[2] for a in cjobs}
        few = open_cases if len(open_cases) <= 24 else open_cases[::-(-len(open_cases) // 24)]
        more = [(n, cs, fallback_variants(own[n], done.get((n, registry.case_name(cs)), []), ints, reals), pid, True) for n, cs in few]
        lit = [(n, cs, reals, pid, True) for n, cs in few]
        rest = [(n, cs, variants(own[n], "all", pid), pid, True) for n, cs in open_cases if (n, cs) not in few]
        for js, job in ((more, concrete_job), (lit, literal_job), (rest, concrete_job)):
            if not any("fail" in r for a, r in cres):
                cres += concrete_phase(js, job, min(120.0, max(5.0, (640.0 if tier == "quick" else 1500.0) - (time.time() - t0))))
    known = known_findings(pid)
    printed = set()
    nrep = 0
    errors = []
    for a, r in cres:
        if "error" in r:
            errors.append(f"{a[0]}[{registry.case_name(a[1])}]: {r['error']}")
        if "fail" not in r:
            continue
        t = matches(known, a[0], a[1], r["fail"])
        if t:
            if t not in printed:
                printed.add(t)
                print(f"KNOWN-FINDING: property={pid} {t}")
            continue
        nrep += 1
        pr = get(a[0], a[1], False) or get(a[0], a[1], True)
        data = {"property": pid, "contract": a[0], "functions": list(registry.ALL[a[0]].funcs), "case": a[1], "failed": r["fail"][:5],
                "runs": r["hist"][-1:], "history": r["hist"], "inputs": r["inputs"],
                "failed_obligations": [list(x) for x in (pr.open[:3] if pr is not None else [])],
                "replay_cmd": "cd /verif && /opt/venv/bin/python -m hvc.replay <this file>"}
        if nrep <= 5:
            viol.append((a, r, replay_file(pid, nrep, data), ""))
        else:
            viol.append((a, r, viol[0][2], ""))
    # refuted obligations of contracts which are not run on the real package
    for n, cs, r, ok in final:
        if not ok and r is not None and not registry.ALL[n].con and r.refuted:
            nrep += 1
            data = {"property": pid, "contract": n, "case": cs, "functions": list(registry.ALL[n].funcs), "failed_obligations": [list(x) for x in r.open[:5]], "verifier": r.by}
            viol.append(((n, cs), None, replay_file(pid, nrep, data), " no-failing-input-found"))
    # ---- evidence
    ob = dis = 0
    by, st = {}, {}
    und = []
    paths = 0
    for n, cs, r, ok in final:
        if r is None:
            und.append({"contract": n, "case": registry.case_name(cs), "reason": "not finished within the time of the check"})
            continue
        d = sum(r.by.values())
        ob += r.total if not r.unsupported else r.total + 1
        dis += d
        paths += r.paths
        for k, v in r.by.items():
            by[k] = by.get(k, 0) + v
        for k, v in r.time.items():
            st[k] = round(st.get(k, 0.0) + v, 3)
        if not ok:
            und.append({"contract": n, "case": registry.case_name(cs), "reason": r.unsupported or r.error or "open obligations", "open": [x[:3] for x in r.open[:3]]})
    dob = ddis = 0
    for n in dep:
        for cs in registry.ALL[n].cases("quick"):
            r = get(n, cs, True)
            if r is not None:
                dob += r.total
                ddis += sum(r.by.values())
    funcs = sorted({f for c in list(own.values()) + list(extra.values()) for f in c.funcs})
    checks = sum(r.get("checks", 0) for _, r in cres)
    nrun = sum(r.get("n", 0) for _, r in cres)
    notes = sorted({c.note for c in own.values() if c.note})
    ev = {"property": pid, "tier": tier, "seed": seed0(), "level": "proof", "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "assumptions": GLOBAL_TRUST + notes,
          "coverage": {
              "obligations": ob, "discharged": dis, "by_back_end": by, "solver_seconds": st, "paths": paths,
              "checker_cmd": f"cd /verif && /opt/venv/bin/python -m hvc.check {pid} --tier {tier}",
              "trusted_base": GLOBAL_TRUST + notes,
              "contracts": {n: {"functions": list(c.funcs), "cases": len(c.cases(tier)), "callee_contracts": list(c.callees)} for n, c in own.items()},
              "frame_contracts": len(extra),
              "functions_under_contract": funcs,
              "functions_missing": sorted(loader_missing(funcs)),
              "callee_contract_obligations": dob, "callee_contract_discharged": ddis,
              "callee_contracts_proved": {n: contract_proved(n) for n in dep if n not in extra},
              "modular_cases": sum(1 for n, cs, r, ok in final if ok and r.mode == "modular"),
              "inlined_cases": sum(1 for n, cs, r, ok in final if ok and r.mode == "inlined"),
              "direct_cases": sum(1 for n, cs, r, ok in final if ok and r.mode == "direct"),
              "not_proved": und,
              "bounded": {"label": "bounded: the same contracts evaluated on the real package at sampled inputs (not counted as proved)",
                          "runs_within_precondition": nrun, "evaluated_postconditions": checks, "errors": errors[:5],
                          "sample": next(({"contract": a[0], "case": registry.case_name(a[1]), "inputs": trim(r["sample"])} for a, r in cres if r.get("sample")), None)},
              "prove_wall_s": round(t_prove, 2)}}
    if dis == 0 or ob == 0:
        ev["level"] = "exploration"
        ev["coverage"].update(evaluations=nrun, distinct_nontrivial=nrun, rule="generator settings within the precondition", samples=[])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid} {tier}: {dis}/{ob} obligations discharged over {len(final)} contract cases ({paths} paths), callee contracts {ddis}/{dob}; "
          f"bounded: {nrun} runs, {checks} postconditions; {time.time() - t0:.1f} s")
    for u in und[:12]:
        print("not proved (bounded check only):", u["contract"], u["case"], "-", str(u["reason"])[:160], [x[0] for x in u.get("open", [])][:3])
    for e in errors[:5]:
        print("error in bounded run:", e)
    if viol:
        for (a, r, p, suffix) in viol[:5]:
            if r is not None:
                print(f"  {a[0]}[{registry.case_name(a[1])}] run {r['hist'][-1]}: {r['fail'][0][0]}: {r['fail'][0][1][:200]}")
        print(f"VIOLATION property={pid} replay={viol[0][2]}{viol[0][3]}")
        return 1
    if (checks == 0 and cjobs) or errors and not nrun:
        print("the check gave no answer")
        return 2
    return 0


def trim(x, n=400):
    s = json.dumps(x, default=str)
    return x if len(s) < n else s[:n] + "..."


def loader_missing(funcs):
    out = []
    try:
        pkg = loader.SymPackage()
        for f in funcs:
            try:
                pkg.find(f)
            except Exception:
                out.append(f)
    except Exception:
        pass
    return out


if __name__ == "__main__":
    sys.exit(main())
