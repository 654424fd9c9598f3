"""Contracts: one function per contract, registered with the functions of /repo it specifies, its cases and its callees."""
import importlib

ALL = {}          # name -> Contract
CALLEES = {}      # callee name -> Callee
MODULES = ["mathc", "framec", "modelc", "spacec", "piolac", "batchc", "lawc", "statec", "labc", "torchc", "plotc"]


class Contract:
    def __init__(self, fn, props, funcs, cases, callees=(), con=True, sym=True, symfuns=(), weight=1.0, modes=None, tier="quick",
                 shims=None, transform=None, note="", budget=None,
                 rank0=True, runs=None, mags=False, preload=()):
        self.fn, self.props, self.funcs, self._cases, self.callees = fn, tuple(props), tuple(funcs), cases, tuple(callees)
        self.con, self.sym, self.symfuns, self.weight, self.modes, self.tier = con, sym, tuple(symfuns), weight, modes, tier
        self.name = fn.__name__
        self.shims, self.transform, self.note, self.budget = shims, transform, note, budget
        self.rank0, self.runs, self.mags, self.preload = rank0, runs, mags, tuple(preload)

    def cases(self, tier):
        c = self._cases(tier) if callable(self._cases) else self._cases
        return list(c) if c else [{}]


def contract(props, funcs, cases=None, **kw):
    props = (props,) if isinstance(props, str) else props

    def deco(fn):
        c = Contract(fn, props, funcs, cases, **kw)
        assert c.name not in ALL, c.name
        ALL[c.name] = c
        return fn
    return deco


class Callee:
    """a library function with a contract usable at its call sites: `stub(S)` returns a replacement with the same signature"""

    def __init__(self, target, stub, proof):
        self.target, self.stub, self.proof = target, stub, proof


def callee(name, target, proof):
    def deco(fn):
        CALLEES[name] = Callee(target, fn, tuple(proof))
        return fn
    return deco


def load():
    for m in MODULES:
        try:
            importlib.import_module("hvc.contracts." + m)
        except ModuleNotFoundError as e:
            if e.name != "hvc.contracts." + m:
                raise
    return ALL


def case_name(case):
    return ",".join(f"{k}={v}" for k, v in case.items())
