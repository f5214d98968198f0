"""Regions, states and small term helpers."""
import z3
from .values import *
from .layout import Leaf, flatten_ir

IntS = z3.IntSort()
RealS = z3.RealSort()
_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


class Region:
    """rank 0: one object; rank k>=1: k-1 object ids and an element index."""

    def __init__(self, name, rank, E=None, leaves=None):
        self.name = name
        self.rank = rank
        self.E = E
        self.leaves = None
        self.var = None            # source variable name
        self.fn = None             # function that declared it
        self.local = False
        self.init = {}             # leaf idx -> default initial content
        self.inner = {}            # leaf idx -> region of nested vectors
        self.n = uid()
        self.on_type = None
        self.bytes_len = None      # for untyped heap blocks: byte length
        self.flat = False
        if leaves is not None:
            self.typed(E, leaves)

    def typed(self, E, leaves):
        self.E = E
        self.leaves = leaves
        for i, l in enumerate(leaves):
            l.idx = i

    def leaf(self, name):
        for l in self.leaves:
            if l.name == name:
                return l
        raise Unsupported('%s has no field %s (has %s)' % (self.name, name, [l.name for l in self.leaves]))

    def arity(self, leaf):
        return self.rank + len(leaf.dims)

    def __repr__(self):
        return 'Region(%s)' % self.name


class State:
    __slots__ = ('mem', 'env', 'pc', 'ghost', 'frame')

    def __init__(self):
        self.mem = {}
        self.env = {}
        self.pc = []
        self.ghost = {}
        self.frame = {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.env = dict(self.env)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.frame = self.frame
        return s

    def assume(self, c):
        if c is True:
            return
        self.pc.append(B(c))


def band(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def bor(*cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def bnot(c):
    if c is True:
        return False
    if c is False:
        return True
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def implies(a, b):
    if a is True:
        return b
    if a is False or b is True:
        return True
    if b is False:
        return bnot(a)
    return z3.Implies(a, b)


def ite(c, a, b):
    """terms (python ints / z3)"""
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
    elif not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return a
    return z3.If(c, T(a), T(b))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (int, bool)) or isinstance(b, (int, bool)):
        return type(a) == type(b) and a == b
    return a.eq(b)


def B(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def array_sort(n, rng):
    return z3.ArraySort(*([IntS] * n + [rng]))


def sel(a, keys):
    """select, pushed through ite and through stores at syntactically equal or distinct-literal keys"""
    if not keys:
        return a
    keys = [T(k) for k in keys]
    return _sel(a, keys)


def _sel(a, keys):
    while True:
        if z3.is_store(a):
            ks = a.children()[1:-1]
            if all(x.eq(y) for x, y in zip(ks, keys)):
                return a.children()[-1]
            if any(z3.is_int_value(x) and z3.is_int_value(y) and not x.eq(y) for x, y in zip(ks, keys)):
                a = a.arg(0)
                continue
            return z3.Select(a, *keys)
        if z3.is_app_of(a, z3.Z3_OP_ITE):
            x = _sel(a.arg(1), keys)
            y = _sel(a.arg(2), keys)
            return x if x.eq(y) else z3.If(a.arg(0), x, y)
        if z3.is_K(a):
            return a.arg(0)
        return z3.Select(a, *keys)


def sto(a, keys, v):
    return z3.Store(a, *([T(k) for k in keys] + [v]))


def rng(w, sign):
    if sign == 'U':
        return 0, (1 << w) - 1
    if sign == 'N':
        return 0, (1 << (w - 1)) - 1
    return -(1 << (w - 1)), (1 << (w - 1)) - 1
