"""setup: the tools are there, the contracts load, the verifier refutes a false obligation and proves a true one"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from hvc import registry
from hvc.prove import Prover
from hvc.term import var, mul, add, power, const
registry.load()
a, b = var("a"), var("b")
p = Prover()
assert p.eq(power(add(a, b), const(2)), add(power(a, const(2)), mul(const(2), a, b), power(b, const(2))))
assert not p.eq(power(add(a, b), const(2)), add(power(a, const(2)), power(b, const(2))))
print("ok", len(registry.ALL), "contracts")
