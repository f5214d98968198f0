"""Integer and bit helpers."""
from irv.contract import *

ID = 'C05'
DRIVERS = {'int': ('basicmath', """
#include "stdafx.h"
typedef basicmath::mt_helper H;
i32 use_1(const vector<i32>& v, i32 n, const i32* s) { return H::index_from_multi_index(v, n, s) + H::factorial(n) + H::combination(n, n); }
void use_2(vector<i32>& v, i32 i, i32 n, const i32* s) { H::multi_index_from_index(v, i, n, s); }
"""), 'bits': ('basicmath', 'basicmath/src/mt_helper.cpp')}
HARNESS = {'sources': ['basicmath/src/mt_helper.cpp', 'basicsys/*', 'basiclog/*'], 'module': 'basicmath',
           'rule': 'corner and random arguments, every n and k whose combination number fits, every small shape with all its indices, every digit count bound up to 30000 plus single large ones'}
NOTE = 'proved for all arguments with representable results: one bits (32 and 64 bit), byte reversal, factorial, combination number (Pascal recurrence), flat index from multi index and back (digits inside their ranges, mixed-radix sum equals the index), count of digit one. add_five goes through sprintf/atoi and is only checked at run time.'
ASSUMPTIONS = ['results representable', 'recurrences define Fct (factorial), B (Pascal), ST (strides), D and S (digit one counts), H and C (halving)']
HP = r'basicmath::mt_helper::%s'
I31 = 1 << 31


def fn(name, n=1):
    return z3.Function('%s!%d' % (name, uid()), *([z3.IntSort()] * (n + 1)))


def induct(P):
    """premises and conclusion of an induction over m >= 0"""
    m = z3.Int('m!%d' % uid())
    return [P(z3.IntVal(0)), z3.Implies(And(m >= 0, P(m)), P(m + 1))], fa(lambda k: Imp(k >= 0, P(k)))


class Ones(Contract):
    """H(k) is n halved k times (rounding down, that is shifting right), C(k) the number of odd H(j), j < k"""
    name = 'number_of_1_i32'
    match = HP % r'number_of_1\(int\)'
    w = 32
    unroll = False

    def my_ghosts(self, eng, st, V):
        return {'H': fn('H'), 'C': fn('C')}

    def requires(self, V):
        H, C = V['H'], V['C']
        return [('halving (definition)', And(H(0) == V['n'], C(0) == 0, fa(lambda k: Imp(k >= 0, And(H(k + 1) == H(k) / 2, C(k + 1) == C(k) + H(k) % 2)), pats=lambda k: [H(k)]), fa(lambda k: Imp(k >= 0, And(H(k + 1) == H(k) / 2, C(k + 1) == C(k) + H(k) % 2)), pats=lambda k: [C(k)])))]

    def ensures(self, V):
        return [('number of one bits', V.r == V['C'](self.w))]

    def invs(self, L):
        V = L.V
        for i in L._names():
            for a in L._names():
                for c in L._names():
                    if len({i, a, c}) == 3:
                        yield 'halved %s by %s, counted in %s' % (a, i, c), lambda S, i=i, a=a, c=c: And(S.v(i) >= 0, S.v(a) == V['H'](S.v(i)), S.v(c) == V['C'](S.v(i)), S.v(c) >= 0, S.v(c) <= S.v(i))


class Ones64(Ones):
    name = 'number_of_1_i64'
    match = HP % r'number_of_1\(long( long)?\)'
    w = 64


class Reverse(Contract):
    name = 'reverse_i32'
    match = HP % 'reverse_i32'

    def ensures(self, V):
        v = V['val']
        b = [(v / (1 << (8 * j))) % 256 for j in range(4)]
        return [('the four bytes in opposite order', V.r % (1 << 32) == b[0] * (1 << 24) + b[1] * (1 << 16) + b[2] * (1 << 8) + b[3])]


class Factorial(Contract):
    name = 'factorial'
    match = HP % 'factorial'

    def my_ghosts(self, eng, st, V):
        return {'Fct': fn('factorial')}

    def requires(self, V):
        F = V['Fct']
        return [('factorial (definition)', And(F(0) == 1, fa(lambda k: Imp(k >= 1, F(k) == k * F(k - 1)), pats=lambda k: [F(k)]))),
                ('result representable', And(V['n'] >= 0, V['n'] < 13, fa(lambda k: Imp(And(0 <= k, k <= V['n']), And(F(k) >= 1, F(k) < I31)), pats=lambda k: [F(k)])))]

    def ensures(self, V):
        return [('product of 1..n', V.r == V['Fct'](V['n']))]

    def invs(self, L):
        V = L.V
        for i in L._names():
            for m in L._names():
                if i != m:
                    yield '%s is the product of the numbers below %s' % (m, i), lambda S, i=i, m=m: And(S.v(i) >= 1, S.v(m) == V['Fct'](S.v(i) - 1))


class Combination(Contract):
    """B is Pascal's triangle"""
    name = 'combination'
    auto = False
    match = HP % 'combination'

    def my_ghosts(self, eng, st, V):
        return {'B': fn('pascal', 2)}

    def requires(self, V):
        B, n, k = V['B'], V['n'], V['k']
        return [('arguments', And(0 <= k, k <= n, n < I31 - 1)),
                ('pascal (definition)', And(B(0, 0) == 1, fa(lambda i: Imp(i >= 1, B(0, i) == 0)), fa(lambda m: Imp(m >= 0, B(m, 0) == 1), pats=lambda m: [B(m, 0)]),
                                            fa(lambda m, i: Imp(And(m >= 0, i >= 0), B(m + 1, i + 1) == B(m, i) + B(m, i + 1)), pats=lambda m, i: [B(m + 1, i + 1)]))),
                ('result representable', fa(lambda m, i: Imp(And(0 <= i, i <= k, m == n - k + i), And(B(m, i) >= 1, B(m, i) < I31)), pats=lambda m, i: [B(m, i)]))]

    def prelemmas(self, V):
        B = V['B']
        i = z3.Int('i!%d' % uid())
        m = z3.Int('m!%d' % uid())
        b00, b01, c, b0, b1, b2, c1, c2 = z3.Ints('b00 b01 c b0 b1 b2 c1 c2')

        def P(m, i):
            return (i + 1) * B(m, i + 1) == (m - i) * B(m, i)
        step0 = Pure(z3.Implies(And(m >= 0, b01 == m * b00, c == b00 + b01, b00 == 1), c == m + 1))
        # row m: b0 = B(m, i - 1), b1 = B(m, i), b2 = B(m, i + 1); row m + 1: c1 = b0 + b1, c2 = b1 + b2
        step = Pure(z3.Implies(And(m >= 0, i >= 1, (i + 1) * b2 == (m - i) * b1, i * b1 == (m - (i - 1)) * b0, c2 == b1 + b2, c1 == b0 + b1), And((i + 1) * c2 == (m + 1 - i) * c1, (i + 1) * c2 == (m + 1) * b1)))
        base = fa(lambda i: Imp(i >= 0, P(z3.IntVal(0), i)))
        concl = fa(lambda m, i: Imp(And(m >= 0, i >= 0), And(P(m, i), (i + 1) * B(m + 1, i + 1) == (m + 1) * B(m, i))), pats=lambda m, i: [B(m + 1, i + 1)])
        return [('i+1 times the next entry (induction over the rows)', [base, step0, step], concl)]

    def ensures(self, V):
        return [('entry of the triangle', V.r == V['B'](V['n'], V['k']))]

    def invs(self, L):
        V = L.V
        B, n, k = V['B'], V['n'], V['k']
        for i in L._names():
            for m in L._names():
                if i != m:
                    yield '%s is the entry before %s' % (m, i), lambda S, i=i, m=m: And(1 <= S.v(i), S.v(i) <= k + 1, S.v(m) == B(n - k + S.v(i) - 1, S.v(i) - 1), S.v(m) >= 1, S.v(m) < I31)

    def lemmas(self, L, S):
        V = L.V
        B, n, k = V['B'], V['n'], V['k']
        for i in L._names():
            if i in ('n', 'k'):
                continue
            x = S.v(i)
            a, b = B(n - k + x, x), B(n - k + x - 1, x - 1)
            f = Imp(And(1 <= x, x <= k), And(x * a == (n - k + x) * b, a >= 1, b >= 1, a < I31, b < I31))
            yield 'next entry for ' + i, [f], f
            g = Imp(And(1 <= x, x <= k), And((n - k + x) * b / x == a, (n - k + x) * b >= 1, (n - k + x) * b < 1 << 62))
            p, q, y, w = z3.Ints('p q y w')
            yield 'exact division for ' + i, [Pure(z3.Implies(And(y >= 1, y * p == w * q), w * q / y == p)), Pure(z3.Implies(And(y >= 1, y < I31, p >= 1, p < I31, y * p == w * q), And(w * q >= 1, w * q < 1 << 62)))], g


class Strides(Contract):
    """ST(i) is the product of sizes[i+1 ..]"""

    def my_ghosts(self, eng, st, V):
        return {'ST': fn('stride'), 'G': fn('weighted')}

    def shape(self, V):
        s, n, ST = V.A('sizes').tr(V.pre), V['size'], V['ST']
        return [('sizes', And(n >= 1, n <= V.A('sizes').len(V.pre), n < I31 - 1, fa(lambda k: Imp(And(0 <= k, k < n), s(k) >= 1), pats=lambda k: [s(k)]))),
                ('strides (definition)', And(ST(n - 1) == 1, fa(lambda i: Imp(And(0 <= i, i < n - 1), ST(i) == ST(i + 1) * s(i + 1)), pats=lambda i: [ST(i)]))),
                ('element count representable', fa(lambda i: Imp(And(0 <= i, i < n), And(ST(i) >= 1, ST(i) * s(i) < I31)), pats=lambda i: [ST(i)]))]


class Flat(Strides):
    name = 'index_from_multi_index'
    auto = False
    match = HP % 'index_from_multi_index'

    def requires(self, V):
        x, s, n, ST, G = V.A('indexs').tr(V.pre), V.A('sizes').tr(V.pre), V['size'], V['ST'], V['G']
        return self.shape(V) + [('an index in range', And(V.A('indexs').len(V.pre) == n, fa(lambda k: Imp(And(0 <= k, k < n), And(x(k) >= 0, x(k) < s(k))), pats=lambda k: [x(k)]))),
                                ('weighted sum from the end (definition)', And(G(n) == 0, fa(lambda i: Imp(And(0 <= i, i < n), G(i) == G(i + 1) + x(i) * ST(i)), pats=lambda i: [G(i)])))]

    def prelemmas(self, V):
        x, s, n, ST, G = V.A('indexs').tr(V.pre), V.A('sizes').tr(V.pre), V['size'], V['ST'], V['G']
        # downward induction: G(i) < ST(i) * s(i)
        i = z3.Int('i!%d' % uid())
        g, g1, t, t1, si, s1, xi = z3.Ints('g g1 t t1 si s1 xi')
        base = And(G(n - 1) >= 0, G(n - 1) < ST(n - 1) * s(n - 1))
        step = Pure(z3.Implies(And(g1 >= 0, g1 < t1 * s1, g == g1 + xi * t, t == t1 * s1, xi >= 0, xi < si, t >= 1), And(g >= 0, g < t * si)))
        prod = Pure(z3.Implies(And(xi >= 0, xi < si, t >= 1), And(xi * t >= 0, xi * t <= t * si)))
        return [('the sum stays below the element count (induction from the last axis)', [base, step], fa(lambda i: Imp(And(0 <= i, i < n), And(G(i) >= 0, G(i) < ST(i) * s(i))), pats=lambda i: [G(i)])),
                ('products are representable', [prod], fa(lambda i: Imp(And(0 <= i, i < n), And(x(i) * ST(i) >= 0, x(i) * ST(i) < I31)), pats=lambda i: [ST(i)]))]

    def ensures(self, V):
        return [('sum of index times stride', V.r == V['G'](0))]

    def invs(self, L):
        V = L.V
        for i in L._names():
            for a in L._names():
                for c in L._names():
                    if len({i, a, c}) == 3:
                        yield 'sum in %s, stride in %s, behind %s' % (a, c, i), lambda S, i=i, a=a, c=c: And(S.v(i) >= -1, S.v(i) <= V['size'] - 2, S.v(a) == V['G'](S.v(i) + 1), S.v(c) == V['ST'](S.v(i) + 1), S.v(a) >= 0, S.v(c) >= 1, S.v(c) < I31)


cy, cs, ct, cp, c0, cn = z3.Ints('cy cs ct cp c0 cn')
PROD = Pure(z3.Implies(z3.And(cy >= 1, cs >= 1, ct >= 1, cy * cp == c0, cp == ct * cs), z3.And(cy * cs * ct == c0, cy * cs <= c0, cy * cs >= 1)))
DIVN = Pure(z3.Implies(z3.And(ct == cn * cs, cs >= 1, cn >= 1), ct / cs == cn))


class Multi(Strides):
    """R(i) is what is left of the index before axis i, Q(i) the weighted sum of the digits before axis i"""
    name = 'multi_index_from_index'
    auto = 'len|same at|entry$'
    budget = 400
    match = HP % 'multi_index_from_index'

    def my_ghosts(self, eng, st, V):
        return {'ST': fn('stride'), 'R': fn('rest'), 'Q': fn('sum')}

    def requires(self, V):
        n, s, ST, R, Q = V['size'], V.A('sizes').tr(V.pre), V['ST'], V['R'], V['Q']
        return self.shape(V) + [('an element of the shape', And(V['index'] >= 0, V['index'] < ST(0) * s(0))),
                                ('digits (definition)', And(R(0) == V['index'], Q(0) == 0, fa(lambda i: Imp(And(0 <= i, i < n), And(R(i + 1) == R(i) % ST(i), Q(i + 1) == Q(i) + (R(i) / ST(i)) * ST(i))), pats=lambda i: [R(i)]), fa(lambda i: Imp(And(0 <= i, i < n), Q(i + 1) == Q(i) + (R(i) / ST(i)) * ST(i)), pats=lambda i: [Q(i)])))]

    def prelemmas(self, V):
        n, s, ST, R, Q = V['size'], V.A('sizes').tr(V.pre), V['ST'], V['R'], V['Q']
        i = z3.Int('i!%d' % uid())
        inv = lambda i: And(R(i) >= 0, R(i) < ST(i) * s(i), Q(i) + R(i) == V['index'])
        r, r1, q, q1, t, t1, si, s1, x = z3.Ints('r r1 q q1 t t1 si s1 x')
        step = Pure(z3.Implies(And(r >= 0, r < t * si, q + r == x, t == t1 * s1, t >= 1, r1 == r % t, q1 == q + (r / t) * t), And(r1 >= 0, r1 < t1 * s1, q1 + r1 == x)))
        dig = Pure(z3.Implies(And(r >= 0, r < t * si, t >= 1), And(r / t >= 0, r / t < si)))
        concl = fa(lambda i: Imp(And(0 <= i, i < n), And(inv(i), R(i) / ST(i) >= 0, R(i) / ST(i) < s(i))), pats=lambda i: [R(i)])
        return [('rest and digits (induction over the axes)', [inv(z3.IntVal(0)), step, dig], concl),
                ('nothing is left behind the last axis', [z3.Implies(And(R(n) == R(n - 1) % ST(n - 1), ST(n - 1) == 1), R(n) == 0)], And(R(n) == 0, Q(n) == V['index']))]

    def ensures(self, V):
        d, s, n, R, ST = V.A('indexs'), V.A('sizes').tr(V.pre), V['size'], V['R'], V['ST']
        return [('one index per axis', d.len(V.post) == n),
                ('every index is the digit', fa(lambda k: Imp(And(0 <= k, k < n), d.at(V.post, k) == R(k) / ST(k)), pats=lambda k: [d.at(V.post, k)])),
                ('every index is in range', fa(lambda k: Imp(And(0 <= k, k < n), And(d.at(V.post, k) >= 0, d.at(V.post, k) < s(k))))),
                ('the weighted sum of the indices is the flat index', V['Q'](n) == V['index'])]

    def modifies(self, V):
        return [ModArr(V.A('indexs')), ModLen(V.A('indexs'))]

    def invs(self, L):
        V = L.V
        n, s, R, ST = V['size'], V.A('sizes').tr(V.pre), V['R'], V['ST']
        d = V.A('indexs')
        for i in L._names():
            if i == 'size':
                continue
            yield 'digits before ' + i, lambda S, i=i: And(S.v(i) >= 0, fa(lambda k: Imp(And(0 <= k, k < S.v(i)), d.at(S.st, k) == R(k) / ST(k)), pats=lambda k: [d.at(S.st, k)]))
            for a in L._names():
                if a in (i, 'size'):
                    continue
                yield 'rest in %s at %s' % (a, i), lambda S, i=i, a=a: And(S.v(i) >= 0, S.v(i) <= n, S.v(a) == R(S.v(i)))
                yield 'stride in %s at %s' % (a, i), lambda S, i=i, a=a: And(S.v(i) >= 0, S.v(i) <= n, Imp(S.v(i) < n, S.v(a) == ST(S.v(i))))
                yield 'product in %s of sizes 1..%s' % (a, i), lambda S, i=i, a=a: And(S.v(i) >= 1, S.v(i) <= n, S.v(a) >= 1, S.v(a) <= ST(0), S.v(a) * ST(S.v(i) - 1) == ST(0))

    def lemmas(self, L, S):
        V = L.V
        n, s, R, ST = V['size'], V.A('sizes').tr(V.pre), V['R'], V['ST']
        for i in L._names():
            x = S.v(i)
            if i in ('index', 'size'):
                continue
            for a in L._names():
                if a in ('index', 'size', i):
                    continue
                y = S.v(a)
                yield 'next product %s %s' % (a, i), [PROD], Imp(And(x >= 1, x < n), PROD.at((cy, y), (cs, s(x)), (ct, ST(x)), (cp, ST(x - 1)), (c0, ST(0))))
            yield 'next stride ' + i, [DIVN], Imp(And(x >= 0, x < n - 1), DIVN.at((ct, ST(x)), (cn, ST(x + 1)), (cs, s(x + 1))))


class OneNumber(Contract):
    """D(v) counts the digit 1 in v, S(v) in all of 1..v"""
    name = 'one_number'
    auto = False
    match = HP % 'one_number'

    def my_ghosts(self, eng, st, V):
        return {'D': fn('digits'), 'S': fn('upto')}

    def requires(self, V):
        D, S, v = V['D'], V['S'], V['value']
        return [('digit count (definition)', And(D(0) == 0, S(0) == 0, fa(lambda k: Imp(k >= 1, D(k) == D(k / 10) + z3.If(k % 10 == 1, 1, 0)), pats=lambda k: [D(k)]), fa(lambda k: Imp(k >= 1, S(k) == S(k - 1) + D(k)), pats=lambda k: [S(k)]))),
                ('result representable', And(S(v) < (1 << 32), fa(lambda k: Imp(k >= 0, And(D(k) >= 0)), pats=lambda k: [D(k)]), fa(lambda k: Imp(And(0 <= k, k <= v), And(S(k) >= 0, S(k) <= S(v))), pats=lambda k: [S(k)])))]

    def ensures(self, V):
        return [('digits 1 in 1..value', V.ru == V['S'](V['value']))]

    def invs(self, L):
        V = L.V
        D, F, v = V['D'], V['S'], V['value']
        for i in L._names():
            for c in L._names():
                if i == c:
                    continue
                yield 'counted in %s above %s' % (c, i), lambda S, i=i, c=c: And(S.v(i) >= 0, S.v(i) <= v, S.v(c) == F(v) - F(S.v(i)))
                for z in L._names():
                    if z in (i, c):
                        continue
                    yield 'digits of %s left in %s, counted in %s' % (i, z, c), lambda S, i=i, c=c, z=z: And(S.v(i) >= 1, S.v(i) <= v, S.v(z) >= 0, D(S.v(z)) >= 0, S.v(c) + D(S.v(z)) == F(v) - F(S.v(i)) + D(S.v(i)))


def flat_lemmas(self, L, S):
    V = L.V
    x, s, n, ST, G = V.A('indexs').tr(V.pre), V.A('sizes').tr(V.pre), V['size'], V['ST'], V['G']
    for i in L._names():
        if i == 'size':
            continue
        j = S.v(i)
        f = Imp(And(0 <= j, j < n - 1), And(ST(j) == ST(j + 1) * s(j + 1), ST(j) >= 1, ST(j) < I31, G(j) == G(j + 1) + x(j) * ST(j), x(j) * ST(j) >= 0, G(j + 1) >= 0, G(j) < I31))
        yield 'next term at ' + i, [f], f


Flat.lemmas = flat_lemmas
CONTRACTS = [Ones(), Ones64(), Reverse(), Factorial(), Combination(), Flat(), Multi(), OneNumber()]
for c in CONTRACTS:
    c.driver = 'bits' if c.name in ('number_of_1_i32', 'number_of_1_i64', 'reverse_i32', 'one_number') else 'int'
