"""Top-k selection."""
from irv.contract import *
from contracts import c01
from contracts.c01 import dom, heap_from, child, Counted

ID = 'C02'
DRIVERS = {'sort': c01.DRIVERS['sort'], 'topk': ('basicmath', """
#include "stdafx.h"
template class basicmath::mt_top_k<i32>;
""")}
HARNESS = {'sources': ['basicmath/src/mt_helper.cpp', 'basicsys/*', 'basiclog/*'], 'module': 'basicmath',
           'rule': 'every sequence over {0,1,2} up to length 6 with every k, random longer sequences of i32 and f64, both directions; a case is non-trivial when its (type, direction, k, sequence) was not tried before'}
NOTE = 'proved for every sequence, k >= 1 and both directions (i32): traverse() keeps the multiset of the k best elements seen (inductive object invariant over the calls), get_sorted_top_k() orders it; std::sort is assumed.'
ASSUMPTIONS = ['element type i32 for the proofs (f64 only through the run-time contract check)', 'k is at least 1 and below 2^30',
               'the invariant of mt_top_k is assumed at entry of traverse() and proved at its exit; the constructor establishes it']


def state(V, st, seen):
    """object invariant: seen is the number of times the arbitrary value v was passed to traverse()"""
    a = V.farr('this', 'm_datas')
    k = V.field('this', 'm_k', st)
    n = a.len(st)
    A = a.tr(st)
    big = V.field('this', 'm_want_big_data.m_data', st) != 0
    v = T(st.ghost[('cntv', a.region)])
    cnt = T(st.ghost[('cnt', a.region)])
    return [('k is positive', And(1 <= k, k < (1 << 30))),
            ('at most k kept', And(0 <= n, n <= k)),
            ('a full selection is a heap of the worst', Imp(n == k, heap_from(Not(big), A, 0, n))),
            ('kept at most as often as seen', And(0 <= cnt, cnt <= seen)),
            ('only when full something is left out', Imp(cnt < seen, n == k)),
            ('everything kept is at least as good as what is left out', Imp(cnt < seen, fa(lambda p: Imp(And(0 <= p, p < n), And(Imp(big, A(p) >= v), Imp(Not(big), A(p) <= v))))))]


class Traverse(Counted):
    name = 'traverse'
    match = r'(void )?basicmath::mt_top_k<int>::traverse'
    driver = 'topk'
    b8_args = ()

    def my_ghosts(self, eng, st, V):
        a = V.farr('this', 'm_datas')
        st.ghost[('cntv', a.region)] = eng.fresh('anyvalue')
        st.ghost[('cnt', a.region)] = eng.fresh('count')
        return {'seen': eng.fresh('seen')}

    def ghosts_for(self, callee, eng, st, view):
        if callee.name != 'heap_adjust':
            return {}
        V = eng.V0
        a = V.farr('this', 'm_datas')
        return {'L': z3.IntVal(0), 'M': T(V.pre.ghost[('cntv', a.region)])}

    def requires(self, V):
        a = V.farr('this', 'm_datas')
        n = a.len(V.pre)
        A = a.tr(V.pre)
        v, cnt = T(V.pre.ghost[('cntv', a.region)]), T(V.pre.ghost[('cnt', a.region)])
        return state(V, V.pre, V['seen']) + [('flag', And(V.field('this', 'm_want_big_data.m_data') >= 0, V.field('this', 'm_want_big_data.m_data') <= 1)),
            # what a multiplicity is
            ('multiplicity of a kept value is positive', fa(lambda p: Imp(And(0 <= p, p < n, A(p) == v), cnt >= 1)))]

    def ensures(self, V):
        a = V.farr('this', 'm_datas')
        v = T(V.post.ghost[('cntv', a.region)])
        val = V.eng.rd(V.pre, *val_of(V))
        val = T(V.eng.canon(V.pre, val, 'S'))
        n0, n = a.len(V.pre), a.len(V.post)
        k = V.field('this', 'm_k')
        return state(V, V.post, V['seen'] + z3.If(v == val, 1, 0)) + [
            ('k unchanged', V.field('this', 'm_k', V.post) == k),
            ('one more until full', n == z3.If(n0 < k, n0 + 1, n0))]

    def modifies(self, V):
        a = V.farr('this', 'm_datas')
        return [ModArr(a), ModLen(a)]

    def prelemmas(self, V):
        a = V.farr('this', 'm_datas')
        n = a.len(V.pre)
        A = a.tr(V.pre)
        w = V.field('this', 'm_want_big_data.m_data') == 0
        return [('the root is the worst', [
            fa(lambda k: Imp(k >= 1, And((k - 1) / 2 < k, (k - 1) / 2 >= 0, child((k - 1) / 2, k)))),
            fa(lambda k, q: Imp(And(1 <= k, k < n, n == V.field('this', 'm_k'), child(q, k), dom(w, A(0), A(q))), dom(w, A(0), A(k))))],
            Imp(n == V.field('this', 'm_k'), fa(lambda k: Imp(And(0 <= k, k < n), dom(w, A(0), A(k))))))]


def val_of(V):
    r, t = obj_region(V.arg('val'))
    return r, r.leaves[0], list(t.id) + ([V.eng.decompose(r, t.off)[0]] if r.rank else [])


class Construct(Contract):
    name = 'constructor'
    match = r'basicmath::mt_top_k<int>::mt_top_k'
    driver = 'topk'
    b8_args = ()

    def requires(self, V):
        return [('k', And(1 <= V['k'], V['k'] < (1 << 30)))]

    def ensures(self, V):
        a = V.farr('this', 'm_datas')
        return [('nothing selected yet', a.len(V.post) == 0), ('k recorded', V.field('this', 'm_k', V.post) == V['k'])]

    modifies_all = True


class Sorted(Counted):
    name = 'get_sorted_top_k'
    match = r'(void )?basicmath::mt_top_k<int>::get_sorted_top_k'
    driver = 'topk'
    b8_args = ()

    def my_ghosts(self, eng, st, V):
        return {}

    def ensures(self, V):
        d, a = V.A('datas'), V.farr('this', 'm_datas')
        n = a.len(V.pre)
        A = d.tr(V.post)
        big = V.field('this', 'm_want_big_data.m_data') != 0
        return [('as many as selected', d.len(V.post) == n),
                ('ordered, best first', fa(lambda p, q: Imp(And(0 <= p, p <= q, q < n), And(Imp(big, A(p) >= A(q)), Imp(Not(big), A(p) <= A(q)))))),
                ('every element is a selected one', fa(lambda p: Imp(And(0 <= p, p < n), ex(lambda q: And(0 <= q, q < n, A(p) == a.at(V.pre, q))))))]

    def modifies(self, V):
        return [ModArr(V.A('datas')), ModLen(V.A('datas'))]


CONTRACTS = [c01.HeapAdjust(), c01.InitHeap(), Construct(), Traverse(), Sorted()]
for c in CONTRACTS[:2]:
    c.driver = 'sort'
