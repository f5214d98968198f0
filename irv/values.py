"""Symbolic values used by the executor."""
import z3


def is_c(t):
    return isinstance(t, int)


def T(t):
    return z3.IntVal(t) if isinstance(t, int) else t


class Unsupported(Exception):
    pass


def wrap_c(v, w, tag):
    v &= (1 << w) - 1
    if tag == 'S' and v >= 1 << (w - 1):
        v -= 1 << w
    return v


class IntV:
    """Integer value: term t (python int or z3 Int), width w; tag 'S' means t in [-2^(w-1), 2^(w-1)),
    tag 'U' means t in [0, 2^w), 'N' means t in [0, 2^(w-1))."""
    __slots__ = ('t', 'w', 'tag')

    def __init__(self, t, w, tag='S'):
        self.t = t
        self.w = w
        self.tag = tag
        if isinstance(t, int):
            self.t = t
            if 0 <= t < 1 << (w - 1):
                self.tag = 'N'

    def __repr__(self):
        return 'IntV(%s,i%d,%s)' % (self.t, self.w, self.tag)


class BoolV:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b  # python bool or z3 Bool

    def __repr__(self):
        return 'BoolV(%s)' % self.b


class FV:
    __slots__ = ('t', 'w')

    def __init__(self, t, w):
        self.t = t
        self.w = w

    def __repr__(self):
        return 'FV(%s)' % self.t


class UndefV:
    def __repr__(self):
        return 'Undef'


class PackedV:
    """A register holding several smaller scalars: parts = [(bitoff, width, value)], w total bits."""
    __slots__ = ('parts', 'w')

    def __init__(self, parts, w):
        self.parts = parts
        self.w = w

    def __repr__(self):
        return 'PackedV(%r,%d)' % (self.parts, self.w)


class AggV:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items


class FnV:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class VecV:
    """Abstract std::vector: data region (1d) and size term."""
    __slots__ = ('data', 'size')

    def __init__(self, data, size):
        self.data = data
        self.size = size

    def __repr__(self):
        return 'VecV(%s,%s)' % (self.data.name, self.size)


class OpaqueV:
    """A value the executor carries around without knowing anything about it (e.g. std::string)."""
    __slots__ = ('what',)

    def __init__(self, what=''):
        self.what = what


class Lin:
    """const + sum coef*term (bytes)"""
    __slots__ = ('c', 'm')

    def __init__(self, c=0, m=None):
        self.c = c
        self.m = m if m is not None else {}

    def add(self, o):
        m = dict(self.m)
        for k, (t, c) in o.m.items():
            if k in m:
                nc = m[k][1] + c
                if nc == 0:
                    del m[k]
                else:
                    m[k] = (t, nc)
            else:
                m[k] = (t, c)
        return Lin(self.c + o.c, m)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, {i: (t, c * k) for i, (t, c) in self.m.items()})

    def key(self):
        return (self.c, tuple(sorted((k, c) for k, (t, c) in self.m.items())))

    def term(self):
        r = None
        for t, c in self.m.values():
            x = t if c == 1 else c * t
            r = x if r is None else r + x
        if r is None:
            return self.c
        if self.c != 0:
            r = r + self.c
        return r

    def divisible(self, k):
        return self.c % k == 0 and all(c % k == 0 for t, c in self.m.values())

    def div(self, k):
        return Lin(self.c // k, {i: (t, c // k) for i, (t, c) in self.m.items()})

    def __repr__(self):
        return 'Lin(%s)' % self.term()


_lin_cache = {}


def lin_of(t):
    """z3 Int term or int -> Lin"""
    if isinstance(t, int):
        return Lin(t)
    k = t.get_id()
    r = _lin_cache.get(k)
    if r is not None and r[0] is not None and r[0].eq(t):
        return r[1]
    if z3.is_int_value(t):
        L = Lin(t.as_long())
    elif z3.is_add(t):
        L = Lin(0)
        for c in t.children():
            L = L.add(lin_of(c))
    elif z3.is_sub(t):
        ch = t.children()
        L = lin_of(ch[0])
        for c in ch[1:]:
            L = L.add(lin_of(c).scale(-1))
    elif z3.is_mul(t) and len(t.children()) == 2 and (z3.is_int_value(t.arg(0)) or z3.is_int_value(t.arg(1))):
        a, b = t.children()
        if z3.is_int_value(a):
            L = lin_of(b).scale(a.as_long())
        else:
            L = lin_of(a).scale(b.as_long())
    elif t.decl().kind() == z3.Z3_OP_UMINUS:
        L = lin_of(t.arg(0)).scale(-1)
    elif z3.is_mul(t):
        # normalise constant factors
        consts = 1
        rest = []
        for c in t.children():
            if z3.is_int_value(c):
                consts *= c.as_long()
            else:
                rest.append(c)
        if len(rest) == 2:
            # distribute over linear sums so that structurally different spellings meet
            a, b = lin_of(rest[0]), lin_of(rest[1])
            if (len(a.m) + (a.c != 0)) * (len(b.m) + (b.c != 0)) <= 9 and not (len(a.m) == 1 and a.c == 0 and len(b.m) == 1 and b.c == 0 and all(c == 1 for _, c in a.m.values()) and all(c == 1 for _, c in b.m.values())):
                L = Lin(0)
                for (ta, ca) in list(a.m.values()) + ([(None, a.c)] if a.c else []):
                    for (tb, cb) in list(b.m.values()) + ([(None, b.c)] if b.c else []):
                        if ta is None and tb is None:
                            L = L.add(Lin(ca * cb))
                        elif ta is None or tb is None:
                            x = ta if tb is None else tb
                            L = L.add(Lin(0, {x.get_id(): (x, ca * cb)}))
                        else:
                            x = mkprod(ta, tb)
                            L = L.add(Lin(0, {x.get_id(): (x, ca * cb)}))
                L = L.scale(consts)
            else:
                x = mkprod(rest[0], rest[1])
                L = Lin(0, {x.get_id(): (x, consts)})
        else:
            L = Lin(0, {k: (t, 1)})
    else:
        L = Lin(0, {k: (t, 1)})
    _lin_cache[k] = (t, L)
    return L


_prod = {}


def mkprod(a, b):
    if a.get_id() > b.get_id():
        a, b = b, a
    k = (a.get_id(), b.get_id())
    r = _prod.get(k)
    if r is None:
        r = (a * b, a, b)
        _prod[k] = r
    return r[0]


NULL = ('null',)


class Loc:
    """Location: region, optional object id (2d regions), byte offset (Lin)."""
    __slots__ = ('r', 'id', 'off')

    def __init__(self, r, off, id=None):
        self.r = r
        self.off = off
        self.id = id

    def __repr__(self):
        return 'Loc(%s,%s,%s)' % (self.r.name, self.id, self.off.term())


class PtrV:
    """cases: list of (cond, target); target is NULL or Loc. cond python True or z3 Bool."""
    __slots__ = ('cases',)

    def __init__(self, cases):
        self.cases = cases

    def __repr__(self):
        return 'PtrV(%r)' % (self.cases,)


def ptr(loc):
    return PtrV([(True, loc)])
