"""Dynamic-programming helpers."""
from irv.contract import *

ID = 'C03'
DRIVERS = {'dp': ('basicmath', """
#include "stdafx.h"
#include "dynamic_programming/mt_max_sum_for_continuous_element.h"
#include "dynamic_programming/mt_longest_common_substring.h"
#include "dynamic_programming/mt_01_bag.h"
template class basicmath::mt_max_sum_for_continuous_element<i32>;
template class basicmath::mt_longest_common_substring<i32>;
template class basicmath::mt_01_bag<i32, i32>;
""")}
HARNESS = {'sources': ['basicmath/src/mt_helper.cpp', 'basicsys/*', 'basiclog/*'], 'module': 'basicmath',
           'rule': 'every sequence over -2..2 up to length 5, every pair of bit strings up to length 4, random sequences, strings and item lists compared with exhaustive search'}
NOTE = 'proved for every input (i32 elements): the reported run has the reported sum and no run has more; no common run is longer than reported and the reported places carry one; knapsack value = optimum over all choices (recurrence + induction lemma), marked items fit and add up to it. all_*_begin_index only by the run-time check.'
ASSUMPTIONS = ['element, weight and value type i32 for the proofs', 'every run sum representable; product of the string lengths below 2^31; knapsack values and best values below 2^29 in absolute value', 'the knapsack never remembers 2^31 values (24 GB of memory)', 'CS, BEST and P are defined by their recurrences (definitional axioms instantiated where used)']


class MaxSum(Contract):
    """P(k) is the sum of the first k elements (definition); every run sum is P(b) - P(a)"""
    name = 'max_sum'
    match = r'basicmath::mt_max_sum_for_continuous_element<int>::mt_max_sum_for_continuous_element'

    def my_ghosts(self, eng, st, V):
        return {'P': z3.Function('prefix!%d' % uid(), z3.IntSort(), z3.IntSort())}

    def requires(self, V):
        a = V.A('values')
        n, P, A = a.len(V.pre), V['P'], a.tr(V.pre)
        return [('not empty', And(n >= 1, n < (1 << 31))),
                ('prefix sums (definition)', And(P(0) == 0, P(1) == A(0), fa(lambda k: Imp(And(0 <= k, k < n), P(k + 1) == P(k) + A(k)), pats=lambda k: [A(k)]))),
                ('every run sum is representable', fa(lambda x, y: Imp(And(0 <= x, x <= y, y <= n), And(P(y) - P(x) >= -(1 << 31), P(y) - P(x) < (1 << 31))), pats=lambda x, y: [(P(x), P(y))]))]

    def ensures(self, V):
        n, P = V.A('values').len(V.pre), V['P']
        s, b, l = [V.field('this', f, V.post) for f in ('m_max_sum', 'm_begin_index', 'm_length')]
        return [('the reported run lies inside', And(0 <= b, 1 <= l, b + l <= n)),
                ('the reported run has the reported sum', s == P(b + l) - P(b)),
                ('no run has a larger sum', fa(lambda x, y: Imp(And(0 <= x, x < y, y <= n), P(y) - P(x) <= s), pats=lambda x, y: [(P(x), P(y))]))]

    modifies_all = True

    def invs(self, L):
        V = L.V
        P = V['P']

        def m(S, f):
            return V.field('this', f, S.st)
        for i in L._names():
            yield ('run ending at %s' % i, lambda S, i=i: And(S.v('temp_length') >= 1, S.v('temp_begin_index') >= 0, S.v('temp_begin_index') + S.v('temp_length') == S.v(i), S.v('temp_max_sum') == P(S.v(i)) - P(S.v('temp_begin_index'))))
            yield ('best run ending at %s' % i, lambda S, i=i: fa(lambda x: Imp(And(0 <= x, x < S.v(i)), P(S.v(i)) - P(x) <= S.v('temp_max_sum')), pats=lambda x: [P(x)]))
            yield ('best run up to %s' % i, lambda S, i=i: fa(lambda x, y: Imp(And(0 <= x, x < y, y <= S.v(i)), P(y) - P(x) <= m(S, 'm_max_sum')), pats=lambda x, y: [(P(x), P(y))]))
            yield ('reported run before %s' % i, lambda S, i=i: And(m(S, 'm_begin_index') >= 0, m(S, 'm_length') >= 1, m(S, 'm_begin_index') + m(S, 'm_length') <= S.v(i),
                                                                    m(S, 'm_max_sum') == P(m(S, 'm_begin_index') + m(S, 'm_length')) - P(m(S, 'm_begin_index'))))


class Lcs(Contract):
    """CS(i, j) is the length of the longest common run ending at a[i], b[j] (definition by its recurrence)"""
    name = 'longest_common_substring'
    match = r'basicmath::mt_longest_common_substring<int>::mt_longest_common_substring'

    def my_ghosts(self, eng, st, V):
        I = z3.IntSort()
        return {'CS': z3.Function('common!%d' % uid(), I, I, I)}

    def requires(self, V):
        a, b, CS = V.A('str_a'), V.A('str_b'), V['CS']
        na, nb, A, B_ = a.len(V.pre), b.len(V.pre), a.tr(V.pre), b.tr(V.pre)
        return [('not empty', And(na >= 1, nb >= 1, na < (1 << 31), nb < (1 << 31), na * nb < (1 << 31))),
                ('common runs (definition)', fa(lambda i, j: Imp(And(0 <= i, i < na, 0 <= j, j < nb), CS(i, j) == z3.If(A(i) == B_(j), z3.If(And(i > 0, j > 0), CS(i - 1, j - 1), z3.IntVal(0)) + 1, z3.IntVal(0))), pats=lambda i, j: [(A(i), B_(j))]))]

    def ensures(self, V):
        na, nb, CS = V.A('str_a').len(V.pre), V.A('str_b').len(V.pre), V['CS']
        x, y, l = [V.field('this', f, V.post) for f in ('m_a_begin_index', 'm_b_begin_index', 'm_length')]
        return [('no common run is longer', fa(lambda i, j: Imp(And(0 <= i, i < na, 0 <= j, j < nb), CS(i, j) <= l), pats=lambda i, j: [CS(i, j)])),
                ('the reported places carry a common run of that length', And(l >= 0, Imp(l > 0, And(x >= 0, y >= 0, x + l <= na, y + l <= nb, CS(x + l - 1, y + l - 1) == l)))),
                ]

    modifies_all = True

    def invs(self, L):
        V = L.V
        na, nb, CS = V.A('str_a').len(V.pre), V.A('str_b').len(V.pre), V['CS']

        def m(S, f):
            return V.field('this', f, S.st)

        def M(S, i, j):
            return V.farr('this', 'm_maxtrix', S.st).at(S.st, j * na + i)
        done = lambda i, j, ii, jj: Or(ii < i, And(ii == i, jj < j))
        for i in L._names():
            for j in L._names() + [None]:
                if i == j:
                    continue
                J = lambda S, j=j: S.v(j) if j else z3.IntVal(0)
                nm = '(%s,%s)' % (i, j)
                yield 'table up to ' + nm, lambda S, i=i, J=J: fa(lambda ii, jj: Imp(And(0 <= ii, ii < na, 0 <= jj, jj < nb), M(S, ii, jj) == z3.If(done(S.v(i), J(S), ii, jj), CS(ii, jj), z3.IntVal(0))), pats=lambda ii, jj: [CS(ii, jj)])
                yield 'longest up to ' + nm, lambda S, i=i, J=J: fa(lambda ii, jj: Imp(And(0 <= ii, ii < na, 0 <= jj, jj < nb, done(S.v(i), J(S), ii, jj)), And(0 <= CS(ii, jj), CS(ii, jj) <= m(S, 'm_length'), CS(ii, jj) <= ii + 1, CS(ii, jj) <= jj + 1)), pats=lambda ii, jj: [CS(ii, jj)])
        yield 'sizes', lambda S: And(m(S, 'm_a_size') == na, m(S, 'm_b_size') == nb, V.farr('this', 'm_maxtrix', S.st).len(S.st) == na * nb)
        yield 'reported', lambda S: And(m(S, 'm_length') >= 0, Imp(m(S, 'm_length') > 0, And(
            m(S, 'm_a_begin_index') >= 0, m(S, 'm_b_begin_index') >= 0, m(S, 'm_a_begin_index') + m(S, 'm_length') <= na, m(S, 'm_b_begin_index') + m(S, 'm_length') <= nb,
            CS(m(S, 'm_a_begin_index') + m(S, 'm_length') - 1, m(S, 'm_b_begin_index') + m(S, 'm_length') - 1) == m(S, 'm_length'))))


LIM = 1 << 29


class Bag(Contract):
    """BEST(i, w): best value of a choice among the items 0..i of total weight at most w, by its recurrence (definition);
    that the recurrence is the optimum over all choices is proved in BagOptimum"""
    b8_args = ()

    def my_ghosts(self, eng, st, V):
        I = z3.IntSort()
        return {'BEST': z3.Function('best!%d' % uid(), I, I, I)}

    def ghosts_for(self, callee, eng, st, view):
        return {'BEST': eng.V0['BEST']}

    def wv(self, V):
        return V.A('weights'), V.A('values')

    def unfold(self, V, i, w):
        W, X = [a.tr(V.pre) for a in self.wv(V)]
        B = V['BEST']
        return And(Imp(i < 0, B(i, w) == 0),
                   Imp(i >= 0, B(i, w) == z3.If(And(w >= W(i), B(i - 1, w - W(i)) + X(i) > B(i - 1, w)), B(i - 1, w - W(i)) + X(i), B(i - 1, w))))

    def inputs(self, V):
        W, X = self.wv(V)
        n = W.len(V.pre)
        B = V['BEST']
        return [('one value per item', And(n == X.len(V.pre), n < (1 << 30))),
                ('weights are not negative', fa(lambda k: Imp(And(0 <= k, k < n), W.at(V.pre, k) >= 0))),
                ('values are moderate', fa(lambda k: Imp(And(0 <= k, k < n), And(X.at(V.pre, k) > -LIM, X.at(V.pre, k) < LIM)))),
                ('best values are moderate', fa(lambda i, w: And(B(i, w) > -LIM, B(i, w) < LIM), pats=lambda i, w: [B(i, w)]))]

    def caches(self, V, st):
        c = V.farr('this', 'm_caches')
        n = c.len(st)
        N = self.wv(V)[0].len(V.pre)
        R, Wt, X = [c.field(f).tr(st) for f in ('m_considered_range', 'm_considered_weight', 'm_value')]
        return [('remembered values are best values', fa(lambda k: Imp(And(0 <= k, k < n), And(0 <= R(k), R(k) < N, Wt(k) >= 0, X(k) == V['BEST'](R(k), Wt(k)))), pats=lambda k: [R(k)]))]

    def modifies(self, V):
        c = V.farr('this', 'm_caches')
        return [ModArr(c), ModLen(c)]


class Calc(Bag):
    name = 'calculate_value'
    match = r'(int )?basicmath::mt_01_bag<int, int>::calculate_value'

    def decreases(self, V):
        return V['considered_range'] + 1

    def requires_at(self, V):
        n = self.wv(V)[0].len(V.pre)
        return self.inputs(V) + [('considered items exist', And(V['considered_range'] >= -1, V['considered_range'] < n)), ('capacity is not negative', V['considered_weight'] >= 0)] + self.caches(V, V.pre)

    def requires(self, V):
        return self.requires_at(V) + [('fewer than 2^31 remembered values', V.farr('this', 'm_caches').len(V.pre) < (1 << 31)), ('best value (definition)', self.unfold(V, V['considered_range'], V['considered_weight']))]

    def ensures(self, V):
        return [('returns the best value', V.r == V['BEST'](V['considered_range'], V['considered_weight']))] + self.caches(V, V.post)

    def invs(self, L):
        V = L.V
        for nm, f in self.caches(V, V.pre):
            yield nm, lambda S, nm=nm: dict(self.caches(V, S.st))[nm]


class Flags(Bag):
    """ghost sums of the weights and values of the marked items follow every change of a flag"""
    name = 'detrermine_flag'
    match = r'(void )?basicmath::mt_01_bag<int, int>::detrermine_flag'

    def my_ghosts(self, eng, st, V):
        f = V.farr('this', 'm_flags')
        W, X = [a.tr(st) for a in self.wv(V)]
        st.ghost['weight'] = z3.IntVal(0)
        st.ghost['value'] = z3.IntVal(0)

        def track(s, leaf, keys, old, new):
            k = T(keys[0])
            s.ghost['weight'] = s.ghost['weight'] + z3.If(new != 0, W(k), 0) - z3.If(old != 0, W(k), 0)
            s.ghost['value'] = s.ghost['value'] + z3.If(new != 0, X(k), 0) - z3.If(old != 0, X(k), 0)
        eng.tracked[f.region] = track
        return super().my_ghosts(eng, st, V)

    def requires(self, V):
        n = self.wv(V)[0].len(V.pre)
        f = V.farr('this', 'm_flags')
        return self.inputs(V) + [('all items are considered', V['considered_range'] == n - 1), ('capacity is not negative', V['considered_weight'] >= 0),
                                 ('one flag per item, none marked', And(f.len(V.pre) == n, fa(lambda k: Imp(And(0 <= k, k < n), f.at(V.pre, k) == 0))))] + self.caches(V, V.pre)

    def modifies(self, V):
        return super().modifies(V) + [ModArr(V.farr('this', 'm_flags'))]

    def havoc(self, V):
        super().havoc(V)
        for k in ('weight', 'value'):
            V.post.ghost[k] = V.eng.fresh('marked_' + k)

    def ensures(self, V):
        return [('the marked items fit', T(V.post.ghost['weight']) <= V['considered_weight']),
                ('the marked items are worth the best value', T(V.post.ghost['value']) == V['BEST'](V['considered_range'], V['considered_weight']))]

    def invs(self, L):
        V = L.V
        f = V.farr('this', 'm_flags')
        n = self.wv(V)[0].len(V.pre)
        W, X = [a.tr(V.pre) for a in self.wv(V)]
        for nm, _ in self.caches(V, V.pre):
            yield nm, lambda S, nm=nm: dict(self.caches(V, S.st))[nm]
        for i in L._names():
            for w in L._names():
                if i != w:
                    # the definition of the best value is a tautology about BEST; it enters here for the item looked at
                    yield 'marked so far (%s, %s)' % (i, w), lambda S, i=i, w=w: And(
                        S.v(w) >= 0, S.ghost('weight') + S.v(w) == V['considered_weight'], S.v(i) >= -1,
                        S.ghost('value') + V['BEST'](S.v(i), S.v(w)) == V['BEST'](V['considered_range'], V['considered_weight']))
            yield 'not yet marked below %s' % i, lambda S, i=i: fa(lambda k: Imp(And(0 <= k, k <= S.v(i), k < n), f.at(S.st, k) == 0))

    def lemmas(self, L, S):
        V = L.V
        for i in L._names():
            for w in L._names():
                if i != w:
                    yield 'definition of the best value', [], self.unfold(V, S.v(i), S.v(w))


class BagConstruct(Bag):
    """the solved problem; S is an arbitrary choice of items, given by its running weight SW and value SV"""
    name = 'mt_01_bag'
    match = r'basicmath::mt_01_bag<int, int>::mt_01_bag'
    modifies_all = True

    def my_ghosts(self, eng, st, V):
        I = z3.IntSort()
        return dict(super().my_ghosts(eng, st, V), **{k: z3.Function('%s!%d' % (k, uid()), I, I) for k in ('S', 'SW', 'SV')})

    def ghosts_for(self, callee, eng, st, view):
        return {k: eng.V0[k] for k in ('BEST',)}

    def requires(self, V):
        return self.inputs(V) + [('capacity is not negative', V['max_weight'] >= 0)]

    def prelemmas(self, V):
        W, X = [a.tr(V.pre) for a in self.wv(V)]
        n = self.wv(V)[0].len(V.pre)
        B, S, SW, SV = V['BEST'], V['S'], V['SW'], V['SV']
        step = lambda i: And(SW(i) == SW(i - 1) + z3.If(S(i) != 0, W(i), 0), SV(i) == SV(i - 1) + z3.If(S(i) != 0, X(i), 0))
        claim = lambda i: fa(lambda w: Imp(w >= SW(i), B(i, w) >= SV(i)))
        base = And(SW(-1) == 0, SV(-1) == 0)
        return [('no choice of items that fits is worth more than the recurrence says', [
            Imp(And(base, fa(lambda w: self.unfold(V, z3.IntVal(-1), w))), claim(z3.IntVal(-1))),
            fa(lambda i: Imp(And(0 <= i, i < n, SW(i - 1) >= 0, step(i)), SW(i) >= 0)),
            fa(lambda i, w: Imp(And(0 <= i, i < n, w >= SW(i), SW(i - 1) >= 0, step(i), self.unfold(V, i, w), claim(i - 1)), B(i, w) >= SV(i)))],
            Imp(And(SW(n - 1) <= V['max_weight'], n >= 0), B(n - 1, V['max_weight']) >= SV(n - 1)))]

    def ensures(self, V):
        n = self.wv(V)[0].len(V.pre)
        mv = V.field('this', 'm_max_value', V.post)
        return [('no choice of items that fits is worth more', Imp(V['SW'](n - 1) <= V['max_weight'], mv >= V['SV'](n - 1))),
                ('the marked items fit', T(V.post.ghost['weight']) <= V['max_weight']),
                ('the marked items are worth the reported value', T(V.post.ghost['value']) == mv),
                ('one flag per item', V.farr('this', 'm_flags').len(V.post) == n)]

    def invs(self, L):
        V = L.V
        f = V.farr('this', 'm_flags')
        yield 'fields kept', lambda S: And(f.len(S.st) == f.len(L.entry))


CONTRACTS = [MaxSum(), Lcs(), Calc(), Flags(), BagConstruct()]
