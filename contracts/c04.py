"""Sequence statistics."""
from irv.contract import *
from contracts.c01 import Counted

ID = 'C04'
DRIVERS = {'stat': ('basicmath', """
#include "stdafx.h"
typedef basicmath::mt_helper H;
template i32 H::compute_min<i32>(i32, const i32*);
template i32 H::compute_max<i32>(i32, const i32*);
template i32 H::compute_min_in_abs<i32>(const i32*, int);
template i32 H::compute_abs_min<i32>(const i32*, int);
template i32 H::index_of_max_value<i32>(i32, const i32*);
template i32 H::index_of_min_value<i32>(i32, const i32*);
template void H::vec_from_array<i32>(vector<i32>&, i32, const i32*);
template vector<i32> H::vec_from_array<i32>(i32, const i32*);
template void H::sub_vector<i32>(vector<i32>&, const vector<i32>&, const basicmath::mt_range&);
template i32 H::add<i32>(const i32*, const i32*);
template i32 H::add<i32>(const vector<i32>&);
template i32 H::mutiply<i32>(const i32*, const i32*);
template i32 H::mutiply<i32>(const vector<i32>&);
template b8 H::is_vec_value<i32>(const vector<i32>&, const i32&);
template void H::integral_array<i32>(vector<i32>&, const vector<i32>&);
template void H::integral_array<u32>(u32*, const u32*, const u32*);
template void H::flip_vector<i32>(vector<i32>&);
template void H::odd_even_sort<i32>(vector<i32>&, b8, b8);
template i32 H::max<i32>(const i32&, const i32&);
template i32 H::min<i32>(const i32&, const i32&);
template bool H::is_same_symbol<i32>(const i32&, const i32&);
template i32 H::compare_value<i32>(const i32&, const i32&);
""")}
HARNESS = {'sources': ['basicmath/src/mt_helper.cpp', 'basicsys/*', 'basiclog/*'], 'module': 'basicmath',
           'rule': 'every sequence over -2..2 up to length 5 and random sequences of i32/f64/u8/i64, every routine compared with its definition'}
NOTE = 'proved for every length and value (i32; prefix sums also u32): extremes, first positions, sums, products, prefix sums, copies, mirror image, parity partition with permutation. Medians, pointer lists, the order among equals of odd_even_sort and other element types only by the run-time check.'
ASSUMPTIONS = ['element type i32 for the proofs', 'sums, products and absolute values are representable; fewer than 2^31 elements', 'F (fold of the first k elements) is defined by its recurrence']
HP = r'%s basicmath::mt_helper::%s<%s>'
I31 = 1 << 31


def seq(V, arr, size):
    a = V.A(arr)
    n = V[size]
    return a, n


class Ext(Contract):
    """minimum / maximum of a key over a[0..n)"""
    arr = 'values'
    size = 'size'
    sign = 1
    absolute = False

    def key(self, x):
        return z3.If(x >= 0, x, -x) if self.absolute else x

    def requires(self, V):
        a, n = seq(V, self.arr, self.size)
        r = [('within the array', And(1 <= n, n <= a.len(V.pre)))]
        if self.absolute:
            r.append(('absolute values are representable', fa(lambda k: Imp(And(0 <= k, k < n), a.at(V.pre, k) > -I31), pats=lambda k: [a.at(V.pre, k)])))
        return r

    def ensures(self, V):
        a, n = seq(V, self.arr, self.size)
        A = a.tr(V.pre)
        return [('no element beats it', fa(lambda k: Imp(And(0 <= k, k < n), self.key(A(k)) * self.sign <= self.key(V.r) * self.sign))),
                ('it is an element', ex(lambda k: And(0 <= k, k < n, self.found(V, A(k)))))]

    def found(self, V, x):
        return x == V.r

    def invs(self, L):
        V = L.V
        a, n = seq(V, self.arr, self.size)
        A = a.tr(V.pre)
        for i in L._names():
            for m in L._names():
                if i != m:
                    yield 'extreme %s before %s' % (m, i), lambda S, i=i, m=m: And(fa(lambda k: Imp(And(0 <= k, k < S.v(i)), self.key(A(k)) * self.sign <= self.key(S.v(m)) * self.sign)),
                                                                                   ex(lambda k: And(0 <= k, k < S.v(i), S.v(m) == (self.key(A(k)) if self.keyed else A(k)))))
    keyed = False


class Max(Ext):
    name = 'compute_max'
    match = HP % ('int', 'compute_max', 'int')


class Min(Ext):
    name = 'compute_min'
    match = HP % ('int', 'compute_min', 'int')
    sign = -1


class MinAbs(Ext):
    name = 'compute_min_in_abs'
    match = HP % ('int', 'compute_min_in_abs', 'int')
    sign = -1
    absolute = True


class AbsMin(Ext):
    name = 'compute_abs_min'
    match = HP % ('int', 'compute_abs_min', 'int')
    sign = -1
    absolute = True
    keyed = True

    def found(self, V, x):
        return self.key(x) == V.r


class IndexMax(Contract):
    name = 'index_of_max_value'
    match = HP % ('int', 'index_of_max_value', 'int')
    sign = 1

    def requires(self, V):
        a, n = seq(V, 'data_start', 'size')
        return [('within the array', And(1 <= n, n <= a.len(V.pre)))]

    def ensures(self, V):
        a, n = seq(V, 'data_start', 'size')
        A = a.tr(V.pre)
        s = self.sign
        return [('a position', And(0 <= V.r, V.r < n)),
                ('no element beats it', fa(lambda k: Imp(And(0 <= k, k < n), A(k) * s <= A(V.r) * s))),
                ('the first such position', fa(lambda k: Imp(And(0 <= k, k < V.r), A(k) * s < A(V.r) * s)))]

    def invs(self, L):
        V = L.V
        a, n = seq(V, 'data_start', 'size')
        A = a.tr(V.pre)
        s = self.sign
        for i in L._names():
            for m in L._names():
                if i != m:
                    yield 'best position %s before %s' % (m, i), lambda S, i=i, m=m: And(0 <= S.v(m), S.v(m) < S.v(i), fa(lambda k: Imp(And(0 <= k, k < S.v(i)), A(k) * s <= A(S.v(m)) * s)), fa(lambda k: Imp(And(0 <= k, k < S.v(m)), A(k) * s < A(S.v(m)) * s)))


class IndexMin(IndexMax):
    name = 'index_of_min_value'
    match = HP % ('int', 'index_of_min_value', 'int')
    sign = -1


class FromArray(Contract):
    name = 'vec_from_array'
    match = HP % ('void', 'vec_from_array', 'int')

    def requires(self, V):
        a = V.A('data')
        return [('within the array', And(0 <= V['size'], V['size'] <= a.len(V.pre)))]

    def ensures(self, V):
        d, a = V.A('dst'), V.A('data')
        return [('length', d.len(V.post) == V['size']), ('same elements', fa(lambda k: Imp(And(0 <= k, k < V['size']), d.at(V.post, k) == a.at(V.pre, k))))]

    def modifies(self, V):
        return [ModArr(V.A('dst')), ModLen(V.A('dst'))]

    def invs(self, L):
        V = L.V
        d, a = V.A('dst'), V.A('data')
        for i in L._names():
            yield 'copied before ' + i, lambda S, i=i: fa(lambda k: Imp(And(0 <= k, k < S.v(i)), d.at(S.st, k) == a.at(V.pre, k)))


class Sub(Contract):
    name = 'sub_vector'
    match = HP % ('void', 'sub_vector', 'int')

    def rng(self, V):
        return V.field('range', 'm_start'), V.field('range', 'm_end')

    def requires(self, V):
        s, e = self.rng(V)
        return [('range inside', And(0 <= s, s <= e, e <= V.A('src').len(V.pre)))]

    def ensures(self, V):
        s, e = self.rng(V)
        d, a = V.A('sub'), V.A('src')
        return [('length', d.len(V.post) == e - s), ('the elements of the range', fa(lambda k: Imp(And(0 <= k, k < e - s), d.at(V.post, k) == a.at(V.pre, s + k))))]

    def modifies(self, V):
        return [ModArr(V.A('sub')), ModLen(V.A('sub'))]

    def invs(self, L):
        V = L.V
        s, e = self.rng(V)
        d, a = V.A('sub'), V.A('src')
        for i in L._names():
            yield 'copied before ' + i, lambda S, i=i: And(d.len(S.st) == e - s, fa(lambda k: Imp(And(0 <= k, k < S.v(i) - s), d.at(S.st, k) == a.at(V.pre, s + k))))
            yield 'copied first ' + i, lambda S, i=i: And(d.len(S.st) == e - s, fa(lambda k: Imp(And(0 <= k, k < S.v(i)), d.at(S.st, k) == a.at(V.pre, s + k))))


class Fold(Contract):
    """F(k) is the fold of the first k elements (definition)"""
    unit = 0

    def op(self, x, y):
        return x + y

    def my_ghosts(self, eng, st, V):
        return {'F': z3.Function('fold!%d' % uid(), z3.IntSort(), z3.IntSort())}

    def ghosts_for(self, callee, eng, st, view):
        return {'F': eng.V0['F']}

    def defs(self, V, a, n):
        F = V['F']
        return [('fold (definition)', And(F(0) == self.unit, fa(lambda k: Imp(And(0 <= k, k < n), F(k + 1) == self.op(F(k), a.at(V.pre, k))), pats=lambda k: [a.at(V.pre, k)]))),
                ('every partial fold is representable', fa(lambda k: Imp(And(0 <= k, k <= n), And(F(k) >= -I31, F(k) < I31)), pats=lambda k: [F(k)]))]

    def fold_invs(self, L):
        V = L.V
        F = V['F']
        for i in L._names():
            for m in L._names():
                if i != m:
                    yield 'folded into %s before %s' % (m, i), lambda S, i=i, m=m: S.v(m) == F(S.v(i))


def behind(s, base, name):
    """a pointer some elements behind another argument"""
    n = s.int(name)
    t = s.by[base].cases[0][1]
    return PtrV([(True, Loc(t.r, t.off.add(lin_of(n.t).scale(t.r.E)), t.id))])


class Sum(Fold):
    name = 'add'
    match = HP % ('int', 'add', 'int') + r'\(int const\*'
    start, stop = 'start', 'stop'

    def arg_stop(self, s):
        return behind(s, self.start, 'count')

    def n(self, V):
        a, b = V.A(self.start), V.A(self.stop)
        return T(b.base) - T(a.base)

    def requires(self, V):
        a = V.A(self.start)
        n = self.n(V)
        return [('a range of the array', And(0 <= n, n <= a.len(V.pre) - T(a.base), T(a.base) >= 0))] + self.defs(V, a, n)

    def ensures(self, V):
        return [('the fold of all elements', V.r == V['F'](self.n(V)))]

    def invs(self, L):
        V = L.V
        b = T(V.A(self.start).base)
        for i in L._pnames():
            for m in L._names():
                yield 'folded into %s before %s' % (m, i), lambda S, i=i, m=m: And(S.v(m) == V['F'](S.pi(i) - b), S.pi(i) >= b, S.pi(i) <= b + self.n(V))


class Product(Sum):
    name = 'mutiply'
    match = HP % ('int', 'mutiply', 'int') + r'\(int const\*'
    unit = 1

    def op(self, x, y):
        return x * y


class SumVec(Fold):
    name = 'add_vector'
    match = HP % ('int', 'add', 'int') + r'\(std'

    def requires(self, V):
        a = V.A('elements')
        return [('size fits', a.len(V.pre) < I31)] + self.defs(V, a, a.len(V.pre))

    def ensures(self, V):
        n = V.A('elements').len(V.pre)
        return [('the fold of all elements (0 of none)', V.r == z3.If(n == 0, 0, V['F'](n)))]


class ProductVec(SumVec):
    name = 'mutiply_vector'
    match = HP % ('int', 'mutiply', 'int') + r'\(std'
    unit = 1

    def op(self, x, y):
        return x * y


class IntegralPtr(Fold):
    """unsigned histogram form used by the extractors"""
    name = 'integral_array_ptr'
    match = HP % ('void', 'integral_array', 'unsigned int') + r'\(unsigned'

    def arg_src_end(self, s):
        return behind(s, 'src_start', 'count')

    def n(self, V):
        return T(V.A('src_end').base) - T(V.A('src_start').base)

    def requires(self, V):
        s, d, n = V.A('src_start'), V.A('res'), self.n(V)
        return [('a range of the source', And(0 <= n, n < I31 - 1, T(s.base) >= 0, n <= s.len(V.pre) - T(s.base))), ('room for the result', And(T(d.base) >= 0, d.len(V.pre) - T(d.base) >= n + 1)),
                ('fold (definition)', And(V['F'](0) == 0, fa(lambda k: Imp(And(0 <= k, k < n), V['F'](k + 1) == V['F'](k) + s.at(V.pre, k)), pats=lambda k: [s.at(V.pre, k)]))),
                ('every partial fold is representable', fa(lambda k: Imp(And(0 <= k, k <= n), And(V['F'](k) >= 0, V['F'](k) < (1 << 32))), pats=lambda k: [V['F'](k)]))]

    def ensures(self, V):
        d = V.A('res')
        return [('entry k is the sum of the first k elements', fa(lambda k: Imp(And(0 <= k, k <= self.n(V)), d.at(V.post, k) == V['F'](k)), pats=lambda k: [d.at(V.post, k)]))]

    def modifies(self, V):
        return [ModArr(V.A('res'), 0, self.n(V) + 1)]

    def invs(self, L):
        V = L.V
        d = V.A('res')
        b = T(V.A('src_start').base)
        for i in L._names():
            yield 'sums up to ' + i, lambda S, i=i: And(S.v(i) >= 0, fa(lambda k: Imp(And(0 <= k, k <= S.v(i)), d.at(S.st, k) == V['F'](k)), pats=lambda k: [d.at(S.st, k)]))
            for p in L._pnames():
                yield '%s steps with %s' % (i, p), lambda S, i=i, p=p: And(S.pi(p) == b + S.v(i), S.v(i) <= self.n(V))


class Pure2(Contract):
    def vals(self, V):
        return [T(V.eng.canon(V.pre, V.eng.rd(V.pre, *scalar_of(V, x)), 'S')) for x in self.names]
    names = ('a', 'b')

    def ensures(self, V):
        return [('value', self.value(V.r, *self.vals(V)))]


class MaxOf(Pure2):
    name = 'max'
    match = HP % ('int', 'max', 'int')

    def value(self, r, a, b):
        return r == z3.If(a > b, a, b)


class MinOf(Pure2):
    name = 'min'
    match = HP % ('int', 'min', 'int')

    def value(self, r, a, b):
        return r == z3.If(a < b, a, b)


class SameSymbol(Pure2):
    name = 'is_same_symbol'
    match = HP % ('bool', 'is_same_symbol', 'int')
    names = ('v1', 'v2')

    def value(self, r, a, b):
        return Iff(r != 0, Or(And(a >= 0, b >= 0), And(a <= 0, b <= 0)))


class Compare(Pure2):
    name = 'compare_value'
    match = HP % ('int', 'compare_value', 'int')

    def requires(self, V):
        a, b = self.vals(V)
        return [('difference is representable', And(a - b >= -I31, a - b < I31))]

    def value(self, r, a, b):
        return r == z3.If(a > b, 1, z3.If(a == b, 0, -1))


class VecValue(Contract):
    name = 'is_vec_value'
    match = r'(basicsys::b8|.*) ?basicmath::mt_helper::is_vec_value<int>'

    def requires(self, V):
        return [('size fits', V.A('vec').len(V.pre) < I31)]

    def ensures(self, V):
        a = V.A('vec')
        v = V.eng.rd(V.pre, *scalar_of(V, 'v'))
        return [('true exactly when all elements equal it', Iff(V.r != 0, fa(lambda k: Imp(And(0 <= k, k < a.len(V.pre)), a.at(V.pre, k) == T(V.eng.canon(V.pre, v, 'S'))))))]

    def invs(self, L):
        V = L.V
        a = V.A('vec')
        v = V.eng.rd(V.pre, *scalar_of(V, 'v'))
        for i in L._names():
            yield 'equal before ' + i, lambda S, i=i: fa(lambda k: Imp(And(0 <= k, k < S.v(i)), a.at(V.pre, k) == T(V.eng.canon(V.pre, v, 'S'))))


def scalar_of(V, nm):
    r, t = obj_region(V.arg(nm))
    return r, r.leaves[0], list(t.id) + ([V.eng.decompose(r, t.off)[0]] if r.rank else [])


class Integral(Fold):
    name = 'integral_array'
    match = HP % ('void', 'integral_array', 'int') + r'\(std'

    def requires(self, V):
        s, d = V.A('src'), V.A('res')
        n = s.len(V.pre)
        return [('room for the result', And(n < I31 - 1, d.len(V.pre) >= n + 1))] + self.defs(V, s, n)

    def ensures(self, V):
        s, d = V.A('src'), V.A('res')
        return [('entry k is the sum of the first k elements', fa(lambda k: Imp(And(0 <= k, k <= s.len(V.pre)), d.at(V.post, k) == V['F'](k)), pats=lambda k: [d.at(V.post, k)])), ('length kept', d.len(V.post) == d.len(V.pre))]

    def modifies(self, V):
        return [ModArr(V.A('res'), 0, V.A('src').len(V.pre) + 1)]

    def invs(self, L):
        V = L.V
        d = V.A('res')
        for i in L._names():
            yield 'sums up to ' + i, lambda S, i=i: fa(lambda k: Imp(And(0 <= k, k <= S.v(i)), d.at(S.st, k) == V['F'](k)), pats=lambda k: [d.at(S.st, k)])


class Flip(Counted):
    name = 'flip_vector'
    match = HP % ('void', 'flip_vector', 'int')
    b8_args = ()

    def requires(self, V):
        return [('size fits', V.A('data').len(V.pre) < I31)]

    def my_ghosts(self, eng, st, V):
        return {}

    def ensures(self, V):
        a = V.A('data')
        n = a.len(V.pre)
        return [('length', a.len(V.post) == n), ('mirrored', fa(lambda k: Imp(And(0 <= k, k < n), a.at(V.post, k) == a.at(V.pre, n - 1 - k))))]

    def modifies(self, V):
        return [ModArr(V.A('data'))]

    def invs(self, L):
        V = L.V
        a = V.A('data')
        n = a.len(V.pre)
        for i in L._names():
            yield 'mirrored outside ' + i, lambda S, i=i: fa(lambda k: Imp(And(0 <= k, k < n), a.at(S.st, k) == z3.If(Or(k < S.v(i), k > n - 1 - S.v(i)), a.at(V.pre, n - 1 - k), a.at(V.pre, k))))


class OddEven(Counted):
    name = 'odd_even_sort'
    match = HP % ('void', 'odd_even_sort', 'int')
    b8_args = ('odd_as_front', 'reserve_origin_order')
    arrays = ('res',)

    def front(self, V, x):
        """x belongs to the front part"""
        return z3.If(V['odd_as_front'] != 0, x % 2 == 1, x % 2 == 0)

    def requires(self, V):
        return [('size fits', V.A('res').len(V.pre) < I31)]

    def ensures(self, V):
        a = V.A('res')
        n = a.len(V.pre)
        A = a.tr(V.post)
        return [('length', a.len(V.post) == n), ('parted by parity', fa(lambda p, q: Imp(And(0 <= p, p < q, q < n, self.front(V, A(q))), self.front(V, A(p)))))] + self.perm(V)

    def modifies(self, V):
        return [ModArr(V.A('res'))]

    def invs(self, L):
        V = L.V
        a = V.A('res')
        n = a.len(V.pre)
        F = lambda S, k: self.front(V, a.at(S.st, k))
        for i in L._names():
            yield 'front before ' + i, lambda S, i=i: fa(lambda k: Imp(And(0 <= k, k < S.v(i), k < n), F(S, k)))
            yield 'back after ' + i, lambda S, i=i: fa(lambda k: Imp(And(S.v(i) < k, 0 <= k, k < n), Not(F(S, k))))
            # stable variant: the last i positions are final
            yield 'tail %s parted' % i, lambda S, i=i: fa(lambda p, q: Imp(And(0 <= p, p < q, q < n, q >= n - S.v(i), F(S, q)), F(S, p)))
            yield 'not front carried to ' + i, lambda S, i=i: fa(lambda p: Imp(And(0 <= p, p < S.v(i), S.v(i) < n, F(S, S.v(i))), F(S, p)))
        if 'switch_flag' in L.frame['vars']:
            for i in L._names():
                yield 'no switch: parted up to ' + i, lambda S, i=i: Imp(S.v('switch_flag') == 0, fa(lambda p, q: Imp(And(0 <= p, p < q, q <= S.v(i), q < n, F(S, q)), F(S, p))))


CONTRACTS = [Max(), Min(), MinAbs(), AbsMin(), IndexMax(), IndexMin(), FromArray(), Sub(), VecValue(), Integral(), Flip(), OddEven(), Sum(), Product(), SumVec(), ProductVec(), IntegralPtr(), MaxOf(), MinOf(), SameSymbol(), Compare()]
