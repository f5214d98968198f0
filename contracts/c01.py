"""Sorting: every routine yields an ordered permutation."""
from irv.contract import *

ID = 'C01'
DRIVERS = {'sort': ('basicmath', '''
#include "stdafx.h"
template void basicmath::mt_sort::heap_sort<i32>(vector<i32>&, b8);
template void basicmath::mt_sort::bubble_sort<i32>(vector<i32>&, b8);
template void basicmath::mt_sort::init_heap<i32>(vector<i32>&, b8);
template void basicmath::mt_sort::heap_adjust<i32>(i32, i32*, i32, b8);
template void basicmath::mt_sort::sort<i32>(vector<i32>&, vector<i32>&, b8);
''')}

HARNESS = {'sources': ['basicmath/src/mt_helper.cpp', 'basicsys/*', 'basiclog/*'], 'module': 'basicmath',
           'rule': 'every sequence over {0,1,2} up to length 6 (thorough 8), random sequences of i32/u8/f64; a case is non-trivial when its (routine, direction, input) was not tried before'}
NOTE = 'proved for every length and value (i32 elements): order, permutation, heap shape, index map, bounds, termination; other element types only by the run-time check. Trusts clang, the VC generator, z3.'
ASSUMPTIONS = ['element type i32 for the proofs (other element types only through the run-time contract check)',
               'fewer than 2^31 elements (2^30 for heaps)']


def ordered(inc, a, x, y):
    """a[x] may stand before a[y]"""
    return And(Imp(inc, a(x) <= a(y)), Imp(Not(inc), a(x) >= a(y)))


def dom(mx, x, y):
    return And(Imp(mx, x >= y), Imp(Not(mx), x <= y))


def child(p, c):
    return Or(c == 2 * p + 1, c == 2 * p + 2)


class Counted(Contract):
    """permutation: the multiplicity of an arbitrary value is a ghost updated at every element store"""
    b8_args = ('increase', 'max_heap')
    arrays = ('datas',)

    def my_ghosts(self, eng, st, V):
        for nm in self.arrays:
            a = V.A(nm)
            st.ghost[('cntv', a.region)] = eng.fresh('anyvalue')
            st.ghost[('cnt', a.region)] = eng.fresh('count')
        return {}

    def perm(self, V):
        out = []
        for nm in self.arrays:
            a = V.A(nm)
            if ('cnt', a.region) in V.post.ghost:
                out.append(('%s is a permutation' % nm, T(V.post.ghost[('cnt', a.region)]) == T(V.pre.ghost[('cnt', a.region)])))
        return out


class Bubble(Counted):
    name = 'bubble_sort'
    match = r'(void )?basicmath::mt_sort::bubble_sort<int>'

    def requires(self, V):
        return [('size fits', V.A('datas').len(V.pre) < (1 << 31))]

    def ensures(self, V):
        a = V.A('datas')
        n = a.len(V.pre)
        A = a.tr(V.post)
        inc = V['increase'] != 0
        return [('same length', a.len(V.post) == n),
                ('ordered', fa(lambda p, q: Imp(And(0 <= p, p <= q, q < n), ordered(inc, A, p, q))))] + self.perm(V)

    def modifies(self, V):
        return [ModArr(V.A('datas'))]

    def invs(self, L):
        V = L.V
        a = V.A('datas')
        n = a.len(V.pre)
        inc = V['increase'] != 0
        for x in L._names():
            yield ('tail %s sorted' % x, lambda S, x=x: fa(lambda p, q: Imp(And(0 <= p, p <= q, q < n, q >= n - S.v(x)), ordered(inc, a.tr(S.st), p, q))))
            yield ('%s extreme of prefix' % x, lambda S, x=x: fa(lambda p: Imp(And(0 <= p, p <= S.v(x), S.v(x) < n), ordered(inc, a.tr(S.st), p, S.v(x)))))


def heap_from(mx, A, L, n, exc=None):
    return fa(lambda p, c: Imp(And(L <= p, child(p, c), c < n, True if exc is None else p != exc), dom(mx, A(p), A(c))))



class HeapAdjust(Counted):
    name = 'heap_adjust'
    match = r'(void )?basicmath::mt_sort::heap_adjust<int>'
    arrays = ('begin',)

    def my_ghosts(self, eng, st, V):
        super().my_ghosts(eng, st, V)
        return {'L': eng.fresh('L'), 'M': eng.fresh('M')}

    def ghosts_for(self, callee, eng, st, view):
        return {'L': eng.V0['L'], 'M': eng.V0['M']} if callee.name == 'heap_adjust' else {}

    def decreases(self, V):
        return V['size'] - V['index']

    def requires(self, V):
        a = V.A('begin')
        A, n, i, L, mx = a.tr(V.pre), V['size'], V['index'], V['L'], V['max_heap'] != 0
        return [('size within the array', And(0 <= n, n <= a.len(V.pre), n < (1 << 30))),
                ('index inside', And(0 <= i, i < n, 0 <= L, L <= i)),
                ('heap below L except at index', heap_from(mx, A, L, n, i)),
                ('parent of index dominates its children', fa(lambda q, c: Imp(And(L <= q, child(q, i), child(i, c), c < n), dom(mx, A(q), A(c)))))]

    def ensures(self, V):
        a = V.A('begin')
        A0, A, n, i, L, M, mx = a.tr(V.pre), a.tr(V.post), V['size'], V['index'], V['L'], V['M'], V['max_heap'] != 0
        return [('heap from L on', heap_from(mx, A, L, n)),
                ('a bound of all elements stays one', Imp(fa(lambda p: Imp(And(0 <= p, p < n), dom(mx, M, A0(p)))), fa(lambda p: Imp(And(0 <= p, p < n), dom(mx, M, A(p))))))] + self.perm(V)

    def modifies(self, V):
        return [ModArr(V.A('begin'), V['index'], V['size'])]


class InitHeap(Counted):
    name = 'init_heap'
    match = r'(void )?basicmath::mt_sort::init_heap<int>'

    def requires(self, V):
        return [('size fits', V.A('datas').len(V.pre) < (1 << 30))]

    def ghosts_for(self, callee, eng, st, view):
        return {'L': view['index'], 'M': z3.IntVal(0)}

    def ensures(self, V):
        a = V.A('datas')
        return [('same length', a.len(V.post) == a.len(V.pre)),
                ('every parent dominates its children', heap_from(V['max_heap'] != 0, a.tr(V.post), 0, a.len(V.pre)))] + self.perm(V)

    def modifies(self, V):
        return [ModArr(V.A('datas'))]

    def invs(self, L):
        V = L.V
        a = V.A('datas')
        n = a.len(V.pre)
        mx = V['max_heap'] != 0
        for x in L._names():
            yield ('heap above %s' % x, lambda S, x=x: heap_from(mx, a.tr(S.st), S.v(x) + 1, n))


class HeapSort(Counted):
    name = 'heap_sort'
    match = r'(void )?basicmath::mt_sort::heap_sort<int>'

    def requires(self, V):
        return [('size fits', V.A('datas').len(V.pre) < (1 << 30))]

    def ghosts_for(self, callee, eng, st, view):
        if callee.name != 'heap_adjust':
            return {}
        a = view.A('begin', st)
        return {'L': z3.IntVal(0), 'M': a.at(st, view['size'])}

    def ensures(self, V):
        a = V.A('datas')
        n = a.len(V.pre)
        A = a.tr(V.post)
        inc = V['increase'] != 0
        return [('same length', a.len(V.post) == n),
                ('ordered', fa(lambda p, q: Imp(And(0 <= p, p <= q, q < n), ordered(inc, A, p, q))))] + self.perm(V)

    def modifies(self, V):
        return [ModArr(V.A('datas'))]

    def invs(self, L):
        V = L.V
        a = V.A('datas')
        n = a.len(V.pre)
        inc = V['increase'] != 0
        for x in L._names():
            yield ('heap below %s from the end' % x, lambda S, x=x: heap_from(inc, a.tr(S.st), 0, n - S.v(x)))
            yield ('tail %s sorted' % x, lambda S, x=x: fa(lambda p, q: Imp(And(0 <= p, p <= q, q < n, q >= n - S.v(x)), ordered(inc, a.tr(S.st), p, q))))

    def lemmas(self, L, S):
        V = L.V
        a = V.A('datas')
        n = a.len(V.pre)
        A = a.tr(S.st)
        inc = V['increase'] != 0
        for x in L._names():
            m = n - S.v(x)
            yield ('root dominates (%s)' % x, [
                fa(lambda k: Imp(k >= 1, And((k - 1) / 2 < k, (k - 1) / 2 >= 0, child((k - 1) / 2, k)))),
                fa(lambda k, q: Imp(And(1 <= k, k < m, child(q, k), dom(inc, A(0), A(q))), dom(inc, A(0), A(k))))],
                fa(lambda k: Imp(And(0 <= k, k < m), dom(inc, A(0), A(k)))))


class IndexSort(Counted):
    name = 'index_sort'
    match = r'(void )?basicmath::mt_sort::sort<int>'
    arrays = ('data',)

    def requires(self, V):
        return [('size fits', V.A('data').len(V.pre) < (1 << 31))]

    def post(self, V, st):
        d, x = V.A('data'), V.A('indexs')
        n = d.len(V.pre)
        D0, D, X = d.tr(V.pre), d.tr(st), x.tr(st)
        yield 'indexs has the same length', x.len(st) == n
        yield 'indexs are positions', fa(lambda k: Imp(And(0 <= k, k < n), And(0 <= X(k), X(k) < n)))
        yield 'indexs are distinct', fa(lambda p, q: Imp(And(0 <= p, p < q, q < n), X(p) != X(q)))
        yield 'data[k] is the old element indexs[k]', fa(lambda k: Imp(And(0 <= k, k < n), D(k) == D0(X(k))))

    def ensures(self, V):
        a = V.A('data')
        n = a.len(V.pre)
        A = a.tr(V.post)
        inc = V['increase'] != 0
        return [('same length', a.len(V.post) == n),
                ('ordered', fa(lambda p, q: Imp(And(0 <= p, p <= q, q < n), ordered(inc, A, p, q))))] + list(self.post(V, V.post)) + self.perm(V)

    def modifies(self, V):
        return [ModArr(V.A('data')), ModArr(V.A('indexs')), ModLen(V.A('indexs'))]

    def invs(self, L):
        V = L.V
        a, ix = V.A('data'), V.A('indexs')
        n = a.len(V.pre)
        inc = V['increase'] != 0
        for nm in ('indexs has the same length', 'indexs are positions', 'indexs are distinct', 'data[k] is the old element indexs[k]'):
            yield (nm, lambda S, nm=nm: dict(self.post(V, S.st))[nm])
        for x in L._names():
            yield ('identity below %s' % x, lambda S, x=x: fa(lambda p: Imp(And(0 <= p, p < S.v(x)), ix.at(S.st, p) == p)))
            yield ('tail %s sorted' % x, lambda S, x=x: fa(lambda p, q: Imp(And(0 <= p, p <= q, q < n, q >= n - S.v(x)), ordered(inc, a.tr(S.st), p, q))))
            yield ('%s extreme of prefix' % x, lambda S, x=x: fa(lambda p: Imp(And(0 <= p, p <= S.v(x), S.v(x) < n), ordered(inc, a.tr(S.st), p, S.v(x)))))


CONTRACTS = [Bubble(), HeapAdjust(), InitHeap(), HeapSort(), IndexSort()]
