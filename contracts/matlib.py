"""Shared parts of the matrix contracts: shape and step table, suffix products, element type code."""
from irv.contract import *
from contracts.c05 import fn
from contracts.c17 import dsize

MAT_SRC = ['basicmath/*', 'basicsys/*', 'basiclog/*']
M = r'(.* )?basicmath::mt_mat::'
I31 = 1 << 31
DRIVER = ('basicmath', """
#include "stdafx.h"
#include "mt_mat.cpp"
namespace basicmath {
template u8* mt_mat::ptr<u8>(int, const int*, int);
template const u8* mt_mat::ptr<u8>(int, const int*, int) const;
bool valid_index(const mt_mat& m, int size, const int* index) { return m.is_valid_index(size, index); }
}
""", ['-I/repo/basicmath/src'])


def code_ok(mask, d, c):
    return And(0 <= d, d <= 9, 1 <= c, c <= 32768, mask == (c - 1) * 65536 + d)


Es, Ed = z3.Function('element_bytes', z3.IntSort(), z3.IntSort()), z3.Function('depth_bytes', z3.IntSort(), z3.IntSort())


class Bytes(Contract):
    """Es(code), Ed(code): bytes of an element and of one channel of it (defined here, opaque for the callers)"""
    driver = 'mat'

    def __init__(self, name, f, match):
        self.name, self.f, self.match = name, f, M + match

    def mask(self, V):
        return V.field('this', 'm_depth_channel.m_mask', V.pre)

    def my_ghosts(self, eng, st, V):
        return {'d': eng.fresh('depth'), 'c': eng.fresh('channels')}

    def requires(self, V):
        m, d, c = self.mask(V), V['d'], V['c']
        return [('element type', code_ok(m, d, c)), ('definition of the sizes', And(Ed(m) == dsize(d), Es(m) == dsize(d) * c))]

    def requires_at(self, V):
        return [('element type', type_ok(self.mask(V)))]

    def ensures(self, V):
        r = self.f(self.mask(V))
        return [('bytes', And(V.r == r, r >= 1))]


def type_ok(mask):
    return And(mask >= 0, mask % 65536 <= 9, mask / 65536 < 32768)


BYTES = [Bytes('element_size', Es, r'element_size\(\)'), Bytes('element_channel_size', Ed, r'element_channel_size\(\)')]


class Mat(Contract):
    """large: more than four dimensions (the shape lives in m_dynamic_size_steps), else the number of dimensions is dims"""
    cvc5_first = True
    driver = 'mat'
    large = False
    dims = 0
    obj = 'this'
    null = ('m_auto_derivative',)

    def prepare(self, s, args):
        eng, st = s.eng, s.st
        for o in ([self.obj] if isinstance(self.obj, str) else self.obj):
            r, _ = obj_region(s.by[o])
            for m in self.null:
                st.mem[(r, r.leaf(m).idx)] = PtrV([(True, NULL)])
            self.shape_of(s, o, r)

    def serves(self, cur):
        return self.large == getattr(cur, 'large', False) and self.dims == getattr(cur, 'dims', 0)

    def shape_of(self, s, o, r):
        if self.large:
            s.st.mem[(r, r.leaf('m_dynamic_size_steps').idx)] = s.ptr(s.basic(o + '_steps', 32, 'S'))
        elif self.dims:
            s.st.mem[(r, r.leaf('m_dims').idx)] = IntV(self.dims, 32, r.leaf('m_dims').sign)

    def call_hook(self, eng, st, name, dem, args, rty):
        if 'log_logger::get_logger' in dem:
            return PtrV([(True, NULL)]), st     # asserts and warnings only write a log line

    def n(self, V, o=None, st=None):
        return V.field(o or self.obj, 'm_dims', st or V.pre)

    def mask(self, V, o=None, st=None):
        return V.field(o or self.obj, 'm_depth_channel.m_mask', st or V.pre)

    def table(self, V, o=None, st=None, large=None):
        o = o or self.obj
        if self.large if large is None else large:
            return V.farr(o, 'm_dynamic_size_steps', st or V.pre)
        return V.farr(o, 'm_fixed_size_steps', st or V.pre)

    def size(self, V, i, st=None, o=None):
        return T(self.table(V, o).at(st or V.pre, i))

    def step(self, V, i, st=None, o=None):
        return T(self.table(V, o).at(st or V.pre, self.n(V, o) + i))

    def shape_ok(self, V, o=None, large=None):
        large = self.large if large is None else large
        n = self.n(V, o)
        out = [('dimensions', And(n > 4, n < 1 << 20) if large else And(1 <= n, n <= 4))]
        if large:
            t = self.table(V, o, None, True)
            out.append(('room', t.len(V.pre) >= 2 * n))
        return out

    def requires(self, V):
        return self.shape_ok(V)

    def each(self, n, f, pats=None):
        return fa(lambda i: Imp(And(0 <= i, i < n), f(i)), pats=pats)


def suffix(P, n, size, es, dims=5):
    """P(i): bytes of one slice from dimension i on (definition), positive and representable"""
    if dims <= 4:
        return And(P(n) == es, P(dims) == es, *([And(P(i) == P(i + 1) * size(i), size(i) >= 1, P(i) >= 1, P(i) < I31) for i in range(dims)] + [P(dims) >= 1, P(dims) < I31]))
    return And(P(n) == es, fa(lambda i: Imp(And(0 <= i, i < n), And(P(i) == P(i + 1) * size(i), size(i) >= 1)), pats=lambda i: [P(i), size(i)]), fa(lambda i: Imp(And(0 <= i, i <= n), And(P(i) >= 1, P(i) < I31)), pats=lambda i: [P(i)]))


def prefix(G, n, term):
    """G(i): sum of the first i terms"""
    return And(G(0) == 0, fa(lambda i: Imp(And(0 <= i, i < n), G(i + 1) == G(i) + term(i)), pats=lambda i: [G(i + 1)]))
