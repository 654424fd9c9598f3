"""Loops over sequences of arbitrary length: the loop is cut at the invariant `v = v0 + sum of the increments of the elements seen`.

`transform` rewrites `for T in IT: BODY` (no break/continue/return inside) of the code under verification to

    it = IT
    if is_symbolic(it):                  # a sequence (or zip of sequences) of unknown length
        names = havoc(...)               # loop-carried variables: arbitrary values
        T = generic element
        BODY                             # the original statements
        names = close(...)               # obligation: BODY adds an increment which does not depend on the loop-carried values
    else:
        for T in it: BODY                # the original loop
"""
import ast
import builtins
import numpy as np
from . import arr as A
from .arr import Arr
from .term import T, Unsupported, var, sub, add, subst, summ, ZERO, free_vars, coerce
from .world import Obl


class Group:
    def __init__(self, name, S=None):
        self.name, self.S = name, S
        self.names = []

    @property
    def sym(self):
        return tuple(self.names)


class SymSeq:
    """a sequence of unknown length; all sequences of one group have the same length"""

    def __init__(self, S, name, group):
        self.S, self.name, self.group = S, name, group
        group.S = S
        group.names.append(name + "#")
        self.generic = var(name + "#")

    def __iter__(self):
        raise Unsupported("iteration over a sequence of unknown length")

    def __len__(self):
        raise Unsupported("length of a sequence of unknown length")

    def __getitem__(self, i):
        if isinstance(i, SymIndex) and i.group is self.group:
            return self.generic
        raise Unsupported("element of a sequence of unknown length")

    def __getattr__(self, n):
        raise Unsupported(f"attribute {n} of a sequence of unknown length")


class ObjSeq(SymSeq):
    """a sequence of unknown length of objects: one generic element stands for every element"""

    def __init__(self, group, generic):
        self.S, self.name, self.group, self.generic = group.S, "objects", group, generic

    def _hvc_generic(self):
        return self.generic

    def _hvc_len(self):
        return SymLen(self.group)


class SymIndex:
    """the index of the generic element"""

    def __init__(self, group):
        self.group = group

    def _no(self, *a):
        raise Unsupported("arithmetic with the index of a generic element")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __index__ = __int__ = __bool__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __eq__ = __ne__ = __mod__ = __floordiv__ = _no
    __hash__ = None


def slen(x):
    return SymLen(x.group) if isinstance(x, SymSeq) else A.slen(x)


def srange(*a):
    if any(isinstance(x, SymLen) for x in a):
        if len(a) == 1 or (len(a) == 2 and isinstance(a[0], int) and a[0] == 0):
            return ObjSeq(a[-1].group, SymIndex(a[-1].group))
        raise Unsupported("range")
    return builtins.range(*a)


def senumerate(x, start=0):
    if isinstance(x, SymZip):
        return ObjSeq(x.seqs[0].group, (SymIndex(x.seqs[0].group), element(x)))
    if isinstance(x, SymSeq):
        return SymZip([ObjSeq(x.group, SymIndex(x.group)), x])
    return builtins.enumerate(x, start)


def ssum(x, start=0):
    """sum of the elements of a sequence of unknown length"""
    if not isinstance(x, SymSeq):
        return builtins.sum(x, start)
    g = Arr.of(x.generic)
    if not isinstance(g, Arr):
        raise Unsupported("sum over a sequence of unknown length")
    r = np.empty(g.a.shape, dtype=object)
    for i in np.ndindex(*g.a.shape):
        r[i] = summ(x.group.sym, g.a[i])
    r = Arr(r, g.tail, g.first, g.rev)
    return r if isinstance(start, int) and start == 0 else r + start


class SymLen:
    def __init__(self, group):
        self.group = group

    def __rmul__(self, o):
        if isinstance(o, list) and len(o) == 1:
            return ObjSeq(self.group, o[0])
        raise Unsupported("unknown length")

    __mul__ = __rmul__

    def _no(self, *a):
        raise Unsupported("unknown length")

    __add__ = __radd__ = __index__ = __int__ = __bool__ = __lt__ = __le__ = __gt__ = __ge__ = __sub__ = __rsub__ = _no

    def __eq__(self, o):
        if isinstance(o, SymLen) and o.group is self.group:
            return True
        raise Unsupported("unknown length")

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def smap(it, f):
    """comprehension over a sequence of unknown length"""
    g = (it.seqs[0] if isinstance(it, SymZip) else it).group
    return ObjSeq(g, f(element(it)))


class SymZip:
    def __init__(self, seqs):
        self.seqs = seqs
        if len({id(s.group) for s in seqs}) != 1:
            raise Unsupported("zip of unrelated sequences")

    def __iter__(self):
        raise Unsupported("iteration over a sequence of unknown length")


def szip(*xs, **kw):
    if any(isinstance(x, SymSeq) for x in xs):
        if not all(isinstance(x, SymSeq) for x in xs):
            raise Unsupported("zip of a sequence of unknown length with something else")
        return SymZip(list(xs))
    return builtins.zip(*xs, **kw)


def is_symbolic(it):
    return isinstance(it, (SymSeq, SymZip))


count = [0]


def havoc(it, **vs):
    """arbitrary values of the same shape"""
    out = []
    it.state = {}
    for n, v in vs.items():
        if v is Undefined:
            out.append(v)
            it.state[n] = (v, None)
            continue
        if getattr(type(v), "_hvc_carry", False):
            # an object which is the same in all iterations
            out.append(v)
            it.state[n] = (v, v)
            continue
        x = Arr.of(v) if not isinstance(v, T) else v
        count[0] += 1
        if isinstance(x, T):
            h = var(f"loop{count[0]}_{n}")
        elif isinstance(x, Arr):
            a = np.empty(x.a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                a[i] = var(f"loop{count[0]}_{n}_" + "_".join(map(str, i)))
            h = Arr(a, x.tail, x.first, x.rev)
        else:
            raise Unsupported("loop-carried value of type " + type(v).__name__)
        it.state[n] = (v, h.copy() if isinstance(h, Arr) else h)
        out.append(h)
    return tuple(out)


def element(it):
    if isinstance(it, SymZip):
        return tuple(s.generic for s in it.seqs)
    return it.generic


def close(it, **vs):
    seq = it.seqs[0] if isinstance(it, SymZip) else it
    S, sym = seq.S, seq.group.sym
    out = []
    for n, v in vs.items():
        v0, h = it.state[n]
        if h is None:
            out.append(v)      # local to one iteration
            continue
        if getattr(type(v0), "_hvc_carry", False):
            if v is not v0:
                raise Unsupported("loop replaces " + n)
            out.append(v)
            continue
        x, y, z = Arr.of(v), Arr.of(h), Arr.of(v0)
        if x.a.shape != y.a.shape or (x.tail != y.tail and x.tail is not None):
            raise Unsupported("loop changes the shape of " + n)
        m = {y.a[i]: ZERO for i in np.ndindex(*y.a.shape)}
        r = np.empty(x.a.shape, dtype=object)
        for i in np.ndindex(*x.a.shape):
            b = subst(x.a[i], m)
            S.obls.append(Obl(f"loop invariant of {n}[{','.join(map(str, i))}] is preserved", "eq", a=x.a[i], b=add(y.a[i], b)))
            r[i] = add(z.a[i], summ(sym, b)) if any(k in free_vars(b) for k in sym) or b is not ZERO else z.a[i]
        out.append(Arr(r, z.tail if x.tail is None else x.tail, x.first, x.rev) if isinstance(v, Arr) else r[()])
    return tuple(out)


class Undefined:
    pass


class _Cut(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_GeneratorExp(self, node):
        return self.visit_ListComp(node, "(", ")")

    def visit_ListComp(self, node, a="[", b="]"):
        """[E for T in IT] -> map of E if IT is a sequence of unknown length"""
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].ifs or node.generators[0].is_async:
            return node
        g = node.generators[0]
        self.n += 1
        it = f"__hvc_c{self.n}"
        src = f"(lambda {it}: __hvc_map__({it}, lambda __hvc_x: [{ast.unparse(node.elt)} for {ast.unparse(g.target)} in (__hvc_x,)][0]) if __hvc_is_symbolic__({it}) " \
              f"else {a}{ast.unparse(node.elt)} for {ast.unparse(g.target)} in {it}{b})({ast.unparse(g.iter)})"
        return ast.parse(src, mode="eval").body

    def visit_For(self, node):
        self.generic_visit(node)
        if node.orelse or any(isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Global, ast.Nonlocal))
                              for b in node.body for x in ast.walk(b)):
            return node
        targets = {x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)}
        carried = []
        for b in node.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in targets and x.id not in carried:
                    carried.append(x.id)
        self.n += 1
        it = f"__hvc_it{self.n}"
        tgt = ast.unparse(node.target)
        body = ast.unparse(ast.Module(body=node.body, type_ignores=[])).splitlines()
        if any(not isinstance(x, ast.Name) for b in node.body if isinstance(b, ast.AugAssign) for x in [b.target]):
            return node
        arg = ", ".join(f"{n}=locals().get('{n}', __hvc_undefined__)" for n in carried)
        cur = ", ".join(f"{n}={n}" for n in carried)
        lhs = "(" + ", ".join(carried) + ("," if carried else "") + ")"
        lines = [f"{it} = {ast.unparse(node.iter)}", f"if __hvc_is_symbolic__({it}):"]
        if carried:
            lines.append(f"    {lhs} = __hvc_havoc__({it}, {arg})")
        lines.append(f"    {tgt} = __hvc_element__({it})")
        lines += ["    " + b for b in body]
        if carried:
            lines.append(f"    {lhs} = __hvc_close__({it}, {cur})")
        lines += ["else:", f"    for {tgt} in {it}:"] + ["        " + b for b in body]
        return ast.parse("\n".join(lines)).body


def transform(tree):
    tree = _Cut().visit(tree)
    ast.fix_missing_locations(tree)
    return tree


BUILTINS = {"zip": szip, "len": slen, "range": srange, "enumerate": senumerate, "sum": ssum, "__hvc_map__": smap, "__hvc_is_symbolic__": is_symbolic, "__hvc_havoc__": havoc, "__hvc_element__": element,
            "__hvc_close__": close, "__hvc_undefined__": Undefined}
