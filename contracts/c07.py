"""Block arena."""
from irv.contract import *

ID = 'C07'
DRIVERS = {'arena': ('basicmath', """
#include "stdafx.h"
#include "mt_block_memory.h"
using namespace basicmath;
typedef mt_block_memory<i32> arena_t;
template class basicmath::mt_block_memory<i32>;
i32* arena_get(arena_t& bm) { i32* data; basicmath_block_memory_get(bm, data, i32); return data; }
void arena_add(arena_t& bm) { basicmath_block_memory_add(bm); }
i32 arena_visit(arena_t& bm, arena_t::block_pos& bp) { do { basicmath_block_memory_visit(bm, bp); return 1; } while (0); return 0; }
""")}
HARNESS = {'sources': ['basicmath/src/mt_helper.cpp', 'basicsys/*', 'basiclog/*'], 'module': 'basicmath',
           'rule': 'block sizes 1..64 with every number of elements and both allocators, random histories of handing out, giving back, reset, init, clear, move for elements of 1, 4 and 32 bytes, all elements checked after every step under the address sanitizer; a case is one history not tried before'}
NOTE = 'proved for element type i32, every block size 2^k (k <= 30), any number of blocks: the macros get/add/visit and next_block, at, init, reset, clear, memory_size, with the object invariant (blocks distinct, position of the next element = element_number). Giving back elements and in_block only by the run-time check.'
ASSUMPTIONS = ['malloc / operator new[] succeed and return a block disjoint from the live blocks', 'fewer than 2^31 elements',
               'no element was given back (m_reuse_number == 0) in the proofs: a returned element is addressed relative to the first block across block borders']
BOUNDED = ['basicmath_block_memory_reuse, in_block, swap/move: histories of the run-time check']
A = r'(.* )?basicmath::mt_block_memory<int>::'


class Mp:
    """a pointer member that points into the blocks"""

    def __init__(self, p, path, fam, null=False):
        self.p, self.path, self.fam, self.null = p, path, fam, null

    def keys(self, eng):
        r, t = obj_region(self.p)
        yield (r, r.leaf(self.path).idx), None

    def havoc(self, eng, st):
        r, t = obj_region(self.p)
        st.mem[(r, r.leaf(self.path).idx)] = PtrV([(True, NULL if self.null else Loc(self.fam, lin_of(eng.fresh('off')).scale(4), (eng.fresh('blk'),)))])


class O:
    """the arena in one state"""

    def __init__(self, V, st, arg='this'):
        self.V, self.st, self.arg = V, st, arg
        r, _ = obj_region(V.arg(arg))
        self.r = r
        for n in ('m_cur_block', 'm_element_number', 'm_block_size', 'm_block_size_2_base', 'm_block_size_mask', 'm_use_new.m_data', 'm_resue_max_number', 'm_reuse_number', 'm_memory_size'):
            try:
                setattr(self, n.split('.')[0][2:], V.field(arg, n, st))
            except Unsupported:
                setattr(self, n.split('.')[0][2:], None)
        self.datas = V.farr(arg, 'm_datas')
        dr = self.datas.region
        self.n = self.datas.len(st)
        self.fam = dr.leaves[0].target
        self.dr = dr

    def id(self, k):
        return sel(self.V.eng.get(self.st, self.dr, (0, 'id')), [k])

    def off(self, k):
        return sel(self.V.eng.get(self.st, self.dr, 0), [k])

    def blen(self, b):
        return sel(self.V.eng.get(self.st, self.fam, 'len'), [b])

    def ptr(self, name):
        v = self.V.fptr(self.arg, name, self.st)
        t = [t for c, t in v.cases if t is not NULL]
        assert len(t) == 1
        return T(t[0].id[0]), T(self.V.eng.decompose(self.fam, t[0].off)[0])


def pw(V, x):
    return V.eng.pow2(x)


def blocks(o):
    """the block list: distinct live blocks of the full size"""
    return [('blocks start at their first element', fa(lambda k: Imp(And(0 <= k, k < o.n), o.off(k) == 0))),
            ('blocks are whole', fa(lambda k: Imp(And(0 <= k, k < o.n), o.blen(o.id(k)) == o.block_size), pats=lambda k: [o.id(k)])),
            ('blocks are distinct', fa(lambda j, k: Imp(And(0 <= j, j < k, k < o.n), o.id(j) != o.id(k)))),
            ('number of blocks', And(0 <= o.n, o.n <= 1 << 31))]


def sizes(o):
    return [('block size is the power', o.block_size == pw(o.V, o.block_size_2_base)),
            ('base', And(0 <= o.block_size_2_base, o.block_size_2_base <= 30)),
            ('mask', o.block_size_mask == o.block_size - 1)]


def cur(o):
    b, i = o.ptr('m_cur_data')
    b2, e = o.ptr('m_cur_block_end')
    return [('current block is one of the list', And(0 <= o.cur_block, o.cur_block < o.n)),
            ('next element lies in the current block', And(b == o.id(o.cur_block), 0 <= i, i < o.block_size)),
            ('end of the current block', And(b2 == b, e == o.block_size)),
            ('next element has the number of elements', o.element_number == o.cur_block * o.block_size + i)]


def inv(V, st, arg='this'):
    o = O(V, st, arg)
    return blocks(o) + sizes(o) + cur(o)


def first(o, e):
    """what every reader of element numbers relies on: position of element q*size+r"""


def kept(V, arg='this'):
    """nothing handed out before moves: the old blocks are still the same blocks"""
    a, c = O(V, V.pre, arg), O(V, V.post, arg)
    return [('earlier blocks stay', And(c.n >= a.n, fa(lambda k: Imp(And(0 <= k, k < a.n), And(c.id(k) == a.id(k), c.off(k) == a.off(k)))))),
            ('their length stays', fa(lambda k: Imp(And(0 <= k, k < a.n), c.blen(a.id(k)) == a.blen(a.id(k)))))]


class Base(Contract):
    driver = 'arena'
    obj = 'this'
    null = False
    empty_ok = False

    def prepare(self, s, args):
        eng, st = s.eng, s.st
        p = s.by[self.obj]
        r, _ = obj_region(p)
        fam = s.basic('block', 32, 'S', rank=2)
        fam.typed(4, fam.leaves)
        vv = eng.get(st, r, r.leaf('m_datas').idx)
        vv.data.leaves[0].target = fam
        vv.data.leaves[0].nonnull = True
        for n in ('m_begin', 'm_cur_data', 'm_cur_block_end'):
            st.mem[(r, r.leaf(n).idx)] = PtrV([(True, Loc(fam, lin_of(eng.fresh(n)).scale(4), (eng.fresh(n + '_blk'),)))])
        ri = s.basic('reuse', 64, 'S')
        st.mem[(r, r.leaf('m_reuse_indexes').idx)] = PtrV([(True, NULL)] if self.null else [(z3.Bool('has_reuse'), s.ptr(ri).cases[0][1]), (z3.Not(z3.Bool('has_reuse')), NULL)])
        self.fam = fam

    def call_hook(self, eng, st, name, dem, args, rty):
        if not (name == 'malloc' or dem.startswith(('operator new[](unsigned long'))):
            return None
        fam = self.fam
        V = eng.V0
        o = O(V, st, self.obj)
        b = eng.fresh('newblock')
        st.assume(fa(lambda k: Imp(And(0 <= k, k < o.n), o.id(k) != b)))
        n = eng.uns(st, args[0])
        L = lin_of(n)
        if not L.divisible(4):
            return None
        eng.assumed_models.add('allocation succeeds and is disjoint from the live blocks')
        eng.set_vlen(st, fam, (b,), L.div(4).term())
        return PtrV([(True, Loc(fam, Lin(0), (b,)))]), st

    def flags(self, V):
        o = O(V, V.pre, self.obj)
        return [('flag', And(o.use_new >= 0, o.use_new <= 1))]

    def modptr(self, V, *names):
        o = O(V, V.pre, self.obj)
        return [Mp(V.arg(self.obj), n, o.fam) for n in names]


class NextBlock(Base):
    name = 'next_block'
    match = A + r'next_block'

    def requires(self, V):
        o = O(V, V.pre)
        return self.flags(V) + blocks(o) + sizes(o) + [('current block', And(-1 <= o.cur_block, o.cur_block < o.n)), ('room', o.n < (1 << 31) - 1),
                                                        ('counter', And(o.memory_size >= 0, o.memory_size + o.block_size < 1 << 31))]

    def ensures(self, V):
        a, o = O(V, V.pre), O(V, V.post)
        b, i = o.ptr('m_cur_data')
        b2, e = o.ptr('m_cur_block_end')
        return blocks(o) + kept(V) + [('next block', o.cur_block == a.cur_block + 1), ('is listed', And(0 <= o.cur_block, o.cur_block < o.n)),
                                     ('one more at most', o.n <= a.n + 1),
                                     ('starts at its first element', And(b == o.id(o.cur_block), i == 0)), ('ends at its end', And(b2 == b, e == o.block_size))]

    def modifies(self, V):
        o = O(V, V.pre)
        p = V.arg('this')
        return [ModField(p, 'm_cur_block'), ModField(p, 'm_memory_size'), ModArr(o.datas, leaves=None), ModLen(o.datas), ModLen(Arr(V.eng, o.fam, (), 0)) if False else FamLen(o.fam)] + self.modptr(V, 'm_cur_data', 'm_cur_block_end')


class FamLen:
    """lengths of blocks (a new block gets one)"""

    def __init__(self, fam):
        self.fam = fam

    def keys(self, eng):
        yield (self.fam, 'len'), None

    def havoc(self, eng, st):
        old = eng.get(st, self.fam, 'len')
        st.mem[(self.fam, 'len')] = eng.fresh('len', old.sort())


class Get(Base):
    name = 'get'
    match = r'arena_get'
    obj = 'bm'

    def requires(self, V):
        o = O(V, V.pre, 'bm')
        return self.flags(V) + inv(V, V.pre, 'bm') + [('nothing given back', o.reuse_number == 0)]

    def ensures(self, V):
        o = O(V, V.pre, 'bm')
        t = V.ret.cases[0][1]
        b, i = T(t.id[0]), T(V.eng.decompose(o.fam, t.off)[0])
        return [('place number element_number', And(b == o.id(o.cur_block), o.element_number == o.cur_block * o.block_size + i, 0 <= i, i < o.blen(b))),
                ('no element handed out before has this place', fa(lambda q, r: Imp(And(0 <= q, q <= o.cur_block, 0 <= r, r < o.block_size, Or(q < o.cur_block, r < i)), Or(o.id(q) != b, r != i))))]


class Add(Base):
    name = 'add'
    match = r'arena_add'
    obj = 'bm'

    def requires(self, V):
        o = O(V, V.pre, 'bm')
        return self.flags(V) + inv(V, V.pre, 'bm') + [('nothing given back', o.reuse_number == 0), ('room', And(o.n < (1 << 31) - 1, o.element_number < (1 << 31) - 1)),
                                                      ('counter', And(o.memory_size >= 0, o.memory_size + o.block_size < 1 << 31))]

    def ensures(self, V):
        a, o = O(V, V.pre, 'bm'), O(V, V.post, 'bm')
        return inv(V, V.post, 'bm') + kept(V, 'bm') + [('one element more', o.element_number == a.element_number + 1)]

    def modifies(self, V):
        o = O(V, V.pre, 'bm')
        p = V.arg('bm')
        return [ModField(p, f) for f in ('m_cur_block', 'm_memory_size', 'm_element_number')] + [ModArr(o.datas), ModLen(o.datas), FamLen(o.fam)] + self.modptr(V, 'm_cur_data', 'm_cur_block_end')


def split_fact():
    i, q, r, s = (z3.Int('sf_' + x) for x in 'iqrs')
    return (i, q, r, s), Pure(z3.Implies(z3.And(s >= 1, 0 <= r, r < s, 0 <= q, i == q * s + r), z3.And(i / s == q, i % s == r)))


(_i, _q, _r, _s), SPLIT = split_fact()


class At(Base):
    name = 'at'
    match = A + r'at\('

    def __init__(self, const):
        self.name = 'at_const' if const else 'at'
        self.match = A + (r'at\(int\) const' if const else r'at\(int\)$')

    def my_ghosts(self, eng, st, V):
        return {'q': eng.fresh('q'), 'r': eng.fresh('r')}

    def requires(self, V):
        o = O(V, V.pre)
        return blocks(o) + sizes(o) + [('number q*size+r of a listed block', And(0 <= V['q'], V['q'] < o.n, 0 <= V['r'], V['r'] < o.block_size, V['index'] == V['q'] * o.block_size + V['r']))]

    def prelemmas(self, V):
        o = O(V, V.pre)
        return [('quotient and remainder', [SPLIT], SPLIT.at((_i, V['index']), (_q, V['q']), (_r, V['r']), (_s, o.block_size)))]

    def ensures(self, V):
        o = O(V, V.pre)
        t = V.ret.cases[0][1]
        b, i = T(t.id[0]), T(V.eng.decompose(o.fam, t.off)[0])
        return [('element r of block q', And(b == o.id(V['q']), i == V['r']))]


class Reset(Base):
    """init with the block size in use: all storage is kept"""
    name = 'init_again'
    match = A + r'init'

    def requires(self, V):
        o = O(V, V.pre)
        return self.flags(V) + blocks(o) + sizes(o) + [('same blocks', And(o.n >= 1, V['block_size_2_base'] == o.block_size_2_base, V['use_new'] == o.use_new)),
                ('reuse', And(o.resue_max_number >= 0, V['max_reuse'] == o.resue_max_number))]

    def ensures(self, V):
        a, o = O(V, V.pre), O(V, V.post)
        return inv(V, V.post) + kept(V) + [('empty', And(o.element_number == 0, o.reuse_number == 0, o.n == a.n))]

    def modifies(self, V):
        p = V.arg('this')
        return [ModField(p, f) for f in ('m_cur_block', 'm_element_number', 'm_reuse_number')] + self.modptr(V, 'm_cur_data', 'm_cur_block_end')


class Init(Base):
    """init of an empty or differently sized arena"""
    name = 'init_new'
    match = A + r'init'

    def requires(self, V):
        o = O(V, V.pre)
        return self.flags(V) + [('number of blocks', And(0 <= o.n, o.n < (1 << 31) - 1)), ('base', And(0 <= V['block_size_2_base'], V['block_size_2_base'] <= 30)),
                                ('flag2', And(0 <= V['use_new'], V['use_new'] <= 1)),
                                ('other blocks', Or(o.n == 0, V['block_size_2_base'] != o.block_size_2_base, V['use_new'] != o.use_new)),
                                ('counter', And(o.memory_size >= 0, o.memory_size < 1 << 30)),
                                ('reuse', And(o.resue_max_number >= 0, V['max_reuse'] == o.resue_max_number))]

    def ensures(self, V):
        a, o = O(V, V.pre), O(V, V.post)
        return inv(V, V.post) + [('empty', And(o.element_number == 0, o.reuse_number == 0)), ('as asked', And(o.block_size_2_base == V['block_size_2_base'], o.use_new == V['use_new']))]

    def modifies(self, V):
        o = O(V, V.pre)
        p = V.arg('this')
        return [ModField(p, f) for f in ('m_cur_block', 'm_element_number', 'm_reuse_number', 'm_memory_size', 'm_block_size', 'm_block_size_2_base', 'm_block_size_mask', 'm_use_new.m_data')] + [ModArr(o.datas), ModLen(o.datas), FamLen(o.fam)] + self.modptr(V, 'm_begin', 'm_cur_data', 'm_cur_block_end')


class Clear(Base):
    name = 'clear'
    match = A + r'clear'

    def requires(self, V):
        o = O(V, V.pre)
        return self.flags(V) + [('number of blocks', And(0 <= o.n, o.n < (1 << 31) - 1))]

    def ensures(self, V):
        o = O(V, V.post)
        return [('empty', And(o.n == 0, o.element_number == 0, o.reuse_number == 0, o.memory_size == 0, o.cur_block == -1))] + \
               [('no place left in ' + n, all(t is NULL for c, t in V.fptr('this', n, V.post).cases)) for n in ('m_begin', 'm_cur_data', 'm_cur_block_end', 'm_reuse_indexes')]

    def modifies(self, V):
        o = O(V, V.pre)
        p = V.arg('this')
        return [ModField(p, f) for f in ('m_cur_block', 'm_element_number', 'm_reuse_number', 'm_memory_size', 'm_block_size', 'm_block_size_2_base', 'm_block_size_mask', 'm_use_new.m_data', 'm_resue_max_number')] + [ModArr(o.datas), ModLen(o.datas)] + [Mp(p, n, o.fam, True) for n in ('m_begin', 'm_cur_data', 'm_cur_block_end', 'm_reuse_indexes')]


class Visit(Base):
    """number v of the visit is element number v"""
    name = 'visit'
    match = r'arena_visit'
    obj = 'bm'

    def prepare(self, s, args):
        super().prepare(s, args)
        r, _ = obj_region(s.by['bp'])
        s.st.mem[(r, r.leaf('m_data').idx)] = PtrV([(True, Loc(self.fam, lin_of(s.eng.fresh('vis')).scale(4), (s.eng.fresh('vis_blk'),)))])

    def pos(self, V, st):
        return tuple(V.field('bp', f, st) for f in ('m_block_index', 'm_index', 'm_visit_number'))

    def data(self, V, st):
        o = O(V, V.pre, 'bm')
        v = V.fptr('bp', 'm_data', st)
        idt = offt = None
        t = [(c, t) for c, t in v.cases if t is not NULL]
        b, i = T(t[0][1].id[0]), T(V.eng.decompose(o.fam, t[0][1].off)[0])
        for c, t in t[1:]:
            b, i = z3.If(B(c), T(t.id[0]), b), z3.If(B(c), T(V.eng.decompose(o.fam, t.off)[0]), i)
        return b, i

    def vinv(self, V, st):
        o = O(V, st, 'bm')
        bi, i, n = self.pos(V, st)
        b, d = self.data(V, st)
        return [('position', And(0 <= bi, 0 <= i, i <= o.block_size, 0 <= n, bi * o.block_size + i == n)),
                ('data', Imp(i > 0, And(b == o.id(bi), d == i - 1)))]

    def requires(self, V):
        return self.flags(V) + inv(V, V.pre, 'bm') + self.vinv(V, V.pre)

    def prelemmas(self, V):
        o = O(V, V.pre, 'bm')
        bi, i, n = self.pos(V, V.pre)
        _, e = o.ptr('m_cur_data')
        a, b, c, d, s = (z3.Int('vl_' + x) for x in 'abcds')
        P = Pure(z3.Implies(z3.And(s >= 1, 0 <= b, b <= s, 0 <= d, d < s, a * s + b < c * s + d), z3.And(a <= c, z3.Implies(b == s, a + 1 <= c))))
        return [('order of positions', [P], P.at((a, bi), (b, i), (c, o.cur_block), (d, e), (s, o.block_size)))]

    def ensures(self, V):
        a, o = O(V, V.pre, 'bm'), O(V, V.post, 'bm')
        bi, i, n = self.pos(V, V.post)
        v0 = self.pos(V, V.pre)[2]
        r = V.r
        out = [('ends exactly after the last element', Iff(r == 0, v0 >= a.element_number)), ('counts', Imp(r != 0, n == v0 + 1))]
        cs = V.fptr('bp', 'm_data', V.post).cases
        nul = bor(*[c for c, t in cs if t is NULL])
        out.append(('no element after the end', Iff(r == 0, nul)))
        if any(t is not NULL for c, t in cs):
            b, d = self.data(V, V.post)
            out.append(('element number v', Imp(r != 0, And(0 <= bi, bi < o.n, 1 <= i, i <= o.block_size, b == o.id(bi), d == i - 1, v0 == bi * o.block_size + d))))
        return out

    def modifies(self, V):
        p = V.arg('bp')
        o = O(V, V.pre, 'bm')
        return [ModField(p, f) for f in ('m_block_index', 'm_index', 'm_visit_number')] + [Mp(p, 'm_data', o.fam)]


class MemorySize(Base):
    name = 'memory_size'
    match = A + r'memory_size'

    def requires(self, V):
        o = O(V, V.pre)
        return blocks(o) + sizes(o)

    def ensures(self, V):
        o = O(V, V.pre)
        return [('bytes of all blocks', V.ru == o.n * o.block_size * 4)]


CONTRACTS = [NextBlock(), Get(), Add(), At(False), At(True), Reset(), Init(), Clear(), Visit(), MemorySize()]
