"""Addresses of matrix elements."""
from irv.contract import *
from contracts.matlib import *

ID = 'C08'
DRIVERS = {'mat': DRIVER}
HARNESS = {'sources': MAT_SRC, 'module': 'basicmath',
           'rule': 'matrices of one to seven dimensions, every element type, one to six (and up to 600) channels, from every constructor, from create() on matrices used before and on caller storage with dense and given steps: address of every element and channel against row-major order, every access form, index checks, sizes; a case is one (shape, type, channels) not tried before'}
NOTE = 'proved for every shape (up to four dimensions in place, any larger number in the dynamic table), element type and channel count: fill_auto_step gives the row-major steps, ptr() is data + sum of coordinate times step + channel, with dense steps it lies inside the bytes of the matrix and elements at different coordinates share no byte, index checks, element number and byte counts, and create() of an empty matrix allocates exactly those bytes with those steps and one owner. create() on a used matrix and the other constructors by the run-time check.'
DIMS = (1, 2, 3, 4, 5)      # 5: any number above 4
ASSUMPTIONS = ['sizes at least 1 and all byte counts below 2^31', 'fewer than 2^20 dimensions', 'malloc succeeds; asserts and warnings only write a log line; no automatic derivative is attached', 'mutex creation of the reference count has no other effect']
BOUNDED = ['create() on a matrix used before, the constructors: the shapes of the run-time check']


_a, _b, _c, _d = z3.Ints('ma mb mc md')
MUL = Pure(z3.Implies(z3.And(_a == _c, _b == _d), _a * _b == _c * _d))


class Steps(Mat):
    """P(i): bytes of everything from dimension i on"""
    def __init__(self, dims):
        self.large, self.dims = dims > 4, dims
        self.name = 'fill_auto_step_%s' % (dims if dims <= 4 else 'large')
        self.match = M + r'fill_auto_step\(\)'

    def my_ghosts(self, eng, st, V):
        return {'P': fn('slice')}

    def requires(self, V):
        return super().requires(V) + [('element type', type_ok(self.mask(V))), ('slices (definition)', suffix(V['P'], self.n(V), lambda i: self.size(V, i), Es(self.mask(V)), self.dims))]

    def done(self, V, st, lo):
        n = self.n(V)
        if not self.large:
            return And([Imp(And(lo <= i, i < n), self.step(V, i, st) == V['P'](i + 1)) for i in range(self.dims)])
        at = lambda k: self.table(V).at(st, k)
        return fa(lambda k: Imp(And(lo + n <= k, k < 2 * n), at(k) == V['P'](k - n + 1)), pats=lambda k: [at(k)])

    def ensures(self, V):
        return [('every step is the size of a slice', self.done(V, V.post, 0))]

    def invs(self, L):
        V = L.V
        for i in L._names():
            yield 'sizes kept', lambda S: fa(lambda k: Imp(And(0 <= k, k < self.n(V)), self.size(V, k, S.st) == self.size(V, k)), pats=lambda k: [self.size(V, k, S.st)])
            yield 'steps behind %s done' % i, lambda S, i=i: And(S.v(i) >= -1, S.v(i) <= self.n(V) - 2, self.done(V, S.st, S.v(i) + 1))

    def lemmas(self, L, S):
        V = L.V
        P = V['P']
        for i in L._names():
            x = S.v(i)
            f = Imp(And(0 <= x, x < self.n(V) - 1), And(P(x + 1) == P(x + 2) * self.size(V, x + 1), P(x + 1) < I31, P(x + 1) >= 1))
            yield 'next slice', [f], f
            a, b = self.step(V, x + 1, S.st), self.size(V, x + 1, S.st)
            yield 'product of equals', [MUL], MUL.at((_a, a), (_b, b), (_c, P(x + 2)), (_d, self.size(V, x + 1)))

    def modifies(self, V):
        n = self.n(V)
        return [ModArr(self.table(V), n, 2 * n)]



def where(V, p):
    """region and byte offset of a pointer"""
    r, t = obj_region(p)
    return r, T(t.off.term())


class Ptr(Mat):
    """G(i): bytes to the first i coordinates"""
    auto = False

    def __init__(self, const, large):
        self.large, self.const = large, const
        self.name = 'ptr_%s%s' % ('const_' if const else '', 'large' if large else 'small')
        self.match = M + r'ptr<unsigned char>\(int, int const\*, int\)' + (' const' if const else '$')

    def prepare(self, s, args):
        super().prepare(s, args)
        r, _ = obj_region(s.by['this'])
        self.data = s.basic('bytes', 8, 'U')
        self.base = s.eng.fresh('base')
        s.st.mem[(r, r.leaf('m_data').idx)] = PtrV([(True, Loc(self.data, lin_of(self.base), ()))])

    def my_ghosts(self, eng, st, V):
        return {'G': fn('reach')}

    def idx(self, V, i):
        return T(V.A('indexs').at(V.pre, i))

    def term(self, V, i):
        return self.idx(V, i) * self.step(V, i)

    def requires(self, V):
        G, m = V['G'], V['size']
        return super().requires(V) + [('element type', type_ok(self.mask(V))), ('coordinates', And(0 <= m, m <= self.n(V), V.A('indexs').len(V.pre) >= m)),
                                      ('bytes to the first coordinates (definition)', prefix(G, m, lambda i: self.term(V, i))),
                                      ('products representable', fa(lambda i: Imp(And(0 <= i, i < m), And(self.term(V, i) >= -I31, self.term(V, i) < I31)), pats=lambda i: [self.idx(V, i)])),
                                      ('channel', And(0 <= V['channel'], V['channel'] < 32768, V['channel'] * Ed(self.mask(V)) < I31, V['channel'] * Ed(self.mask(V)) >= 0))]

    def ensures(self, V):
        r, o = where(V, V.ret)
        return [('data + sum of coordinate times step + channel', And(r is self.data, o == self.base + V['G'](V['size']) + V['channel'] * Ed(self.mask(V))))]

    def invs(self, L):
        V = L.V
        for i in L._names():
            yield 'counter %s' % i, lambda S, i=i: And(S.v(i) >= 0, S.v(i) <= V['size'])
        if 'is_valid_index' in L.fn:
            return
        for i in L._names():
            for p in L._pnames():
                def f(S, p=p, i=i):
                    r, o = where(V, S.ptr(p))
                    return And(r is self.data, o == self.base + V['G'](S.v(i)))
                yield 'reached %s at %s' % (p, i), f

    def lemmas(self, L, S):
        V = L.V
        if 'is_valid_index' in L.fn:
            return
        for i in L._names():
            x = S.v(i)
            f = Imp(And(0 <= x, x < V['size']), V['G'](x + 1) == V['G'](x) + self.term(V, x))
            yield 'next sum', [f], f


x_, y_, s_, p_, D_ = z3.Ints('lx ly ls lp lD')
ROOM = Pure(z3.Implies(z3.And(0 <= x_, x_ < s_, p_ >= 1), z3.And(x_ * p_ >= 0, x_ * p_ + p_ <= s_ * p_)))
APART = Pure(z3.Implies(z3.And(p_ >= 1, 0 <= x_, x_ < s_, 0 <= y_, y_ < s_, z3.Or(D_ >= p_ * s_, -D_ >= p_ * s_, z3.And(D_ == 0, x_ != y_))), z3.Or(D_ + x_ * p_ - y_ * p_ >= p_, -(D_ + x_ * p_ - y_ * p_) >= p_)))
SAME = Pure(z3.Implies(x_ == y_, x_ * p_ == y_ * p_))


class Dense(Ptr):
    """with the steps of fill_auto_step: inside the bytes of the matrix, and away from the element at any other coordinates J
    (H: bytes to the first coordinates of J, E(i): J differs in one of the first i)"""
    def __init__(self, const, large):
        super().__init__(const, large)
        self.name = self.name.replace('ptr', 'ptr_dense')

    def my_ghosts(self, eng, st, V):
        return {'G': fn('reach'), 'H': fn('reach2'), 'J': fn('other'), 'E': z3.Function('differ!%d' % uid(), z3.IntSort(), z3.BoolSort()), 'P': fn('slice')}

    def requires(self, V):
        G, H, J, E, P, m, n = (V[k] for k in ('G', 'H', 'J', 'E', 'P', 'size', '')) if False else (V['G'], V['H'], V['J'], V['E'], V['P'], V['size'], self.n(V))
        mask = self.mask(V)
        sz = lambda i: self.size(V, i)
        inside = lambda f: fa(lambda i: Imp(And(0 <= i, i < n), And(0 <= f(i), f(i) < sz(i))), pats=lambda i: [f(i)])
        return Mat.requires(self, V) + [('element type', type_ok(mask)), ('as many coordinates as dimensions', And(m == n, V.A('indexs').len(V.pre) >= m)),
                                        ('coordinates inside', inside(lambda i: self.idx(V, i))), ('other coordinates inside', inside(J)),
                                        ('slices (definition)', suffix(P, n, sz, Es(mask))),
                                        ('dense steps', fa(lambda i: Imp(And(0 <= i, i < n), self.step(V, i) == P(i + 1)), pats=lambda i: [self.step(V, i)])),
                                        ('bytes to the first coordinates (definition)', And(prefix(G, n, lambda i: self.idx(V, i) * P(i + 1)), prefix(H, n, lambda i: J(i) * P(i + 1)))),
                                        ('where they differ (definition)', And(Not(E(0)), fa(lambda i: Imp(And(0 <= i, i < n), E(i + 1) == z3.Or(E(i), J(i) != self.idx(V, i))), pats=lambda i: [E(i + 1)]))),
                                        ('bytes of an element (definition)', Es(mask) == Ed(mask) * (mask / 65536 + 1)),
                                        ('channel', And(0 <= V['channel'], V['channel'] < mask / 65536 + 1, Ed(mask) >= 1))]

    def ensures(self, V):
        r, o = where(V, V.ret)
        n, mask = self.n(V), self.mask(V)
        G, H, ed = V['G'](n), V['H'](n), Ed(mask)
        return [('data + sum of coordinate times step + channel', And(r is self.data, o == self.base + G + V['channel'] * ed)),
                ('inside the bytes of the matrix', And(self.base <= o, o + ed <= self.base + V['P'](0))),
                ('elements at different coordinates share no byte', Imp(V['E'](n), Or(G - H >= Es(mask), H - G >= Es(mask))))]

    def prelemmas(self, V):
        m, ed = self.mask(V), Ed(self.mask(V))
        return [('channels of an element', [ROOM.at((x_, V['channel']), (s_, m / 65536 + 1), (p_, ed)), And(0 <= V['channel'], V['channel'] < m / 65536 + 1, ed >= 1)],
                 And(V['channel'] * ed >= 0, V['channel'] * ed + ed <= (m / 65536 + 1) * ed))]

    def invs(self, L):
        V = L.V
        G, H, E, P = (V[k] for k in 'GHEP')
        yield from super().invs(L)
        if 'is_valid_index' in L.fn:
            return
        for i in L._names():
            yield 'below %s' % i, lambda S, i=i: And(G(S.v(i)) >= 0, G(S.v(i)) + P(S.v(i)) <= P(0))
            yield 'apart below %s' % i, lambda S, i=i: z3.If(E(S.v(i)), z3.Or(G(S.v(i)) - H(S.v(i)) >= P(S.v(i)), H(S.v(i)) - G(S.v(i)) >= P(S.v(i))), G(S.v(i)) == H(S.v(i)))

    def lemmas(self, L, S):
        V = L.V
        if 'is_valid_index' in L.fn:
            return
        G, H, J, E, P, n = V['G'], V['H'], V['J'], V['E'], V['P'], self.n(V)
        for i in L._names():
            x = S.v(i)
            inr = And(0 <= x, x < n)
            a, b, p, s = self.idx(V, x), J(x), P(x + 1), self.size(V, x)
            f = Imp(inr, And(G(x + 1) == G(x) + a * p, H(x + 1) == H(x) + b * p, P(x) == p * s, p >= 1, P(x) < I31, P(x) >= 1, 0 <= a, a < s, 0 <= b, b < s, E(x + 1) == z3.Or(E(x), b != a), self.step(V, x) == p))
            yield 'next slice', [f], f
            yield 'room', [ROOM], ROOM.at((x_, a), (s_, s), (p_, p))
            yield 'room of the other', [ROOM], ROOM.at((x_, b), (s_, s), (p_, p))
            yield 'apart', [APART], APART.at((x_, a), (y_, b), (s_, s), (p_, p), (D_, G(x) - H(x)))
            yield 'same', [SAME], SAME.at((x_, a), (y_, b), (p_, p))



class Valid(Mat):
    obj = 'm'
    match = r'basicmath::valid_index\('

    def __init__(self, large):
        self.large = large
        self.name = 'is_valid_index_' + ('large' if large else 'small')

    def requires(self, V):
        return super().requires(V) + [('coordinates', And(0 <= V['size'], V['size'] <= self.n(V), V.A('index').len(V.pre) >= V['size']))]

    def upto(self, V, m):
        at = lambda i: T(V.A('index').at(V.pre, i))
        return fa(lambda i: Imp(And(0 <= i, i < m), And(0 <= at(i), at(i) < self.size(V, i))), pats=lambda i: [at(i)])

    def ensures(self, V):
        return [('true exactly when every coordinate is inside', Iff(V.r != 0, self.upto(V, V['size'])))]

    def invs(self, L):
        for i in L._names():
            yield 'inside below %s' % i, lambda S, i=i: And(S.v(i) >= 0, S.v(i) <= L.V['size'], self.upto(L.V, S.v(i)))


class Number(Mat):
    """Q(i): number of index tuples of the first i dimensions"""
    match = M + r'element_number\(\)'

    def __init__(self, large):
        self.large = large
        self.name = 'element_number_' + ('large' if large else 'small')

    def my_ghosts(self, eng, st, V):
        return {'Q': fn('tuples')}

    def requires(self, V):
        Q, n = V['Q'], self.n(V)
        return super().requires(V) + [('tuples (definition)', And(Q(0) == 1, fa(lambda i: Imp(And(0 <= i, i < n), Q(i + 1) == Q(i) * self.size(V, i)), pats=lambda i: [Q(i + 1), self.size(V, i)]))),
                                      ('number representable', fa(lambda i: Imp(And(0 <= i, i <= n), And(Q(i) >= 1, Q(i) < I31)), pats=lambda i: [Q(i)]))]

    def ensures(self, V):
        return [('product of the sizes', V.r == V['Q'](self.n(V)))]

    def invs(self, L):
        V = L.V
        for i in L._names():
            for r in L._names():
                if i != r:
                    yield 'product %s below %s' % (r, i), lambda S, i=i, r=r: And(S.v(i) >= 0, S.v(i) <= self.n(V), S.v(r) == V['Q'](S.v(i)), S.v(r) >= 1)

    def lemmas(self, L, S):
        V = L.V
        Q = V['Q']
        for i in L._names():
            x = S.v(i)
            f = Imp(And(0 <= x, x < self.n(V)), And(Q(x + 1) == Q(x) * self.size(V, x), Q(x + 1) >= 1, Q(x + 1) < I31))
            yield 'next dimension', [f], f

    def ghosts_for(self, callee, eng, st, view):
        return {'Q': eng.V0.ghosts['Q']}


class Memory(Number):
    def __init__(self, name, f, large):
        self.large, self.f = large, f
        self.name = '%s_%s' % (name, 'large' if large else 'small')
        self.match = M + name + r'\(\)'

    def requires(self, V):
        b = self.f(self.mask(V)) * V['Q'](self.n(V))
        return super().requires(V) + [('element type', type_ok(self.mask(V))), ('bytes representable', And(0 <= b, b < I31))]

    def ensures(self, V):
        return [('bytes of an element times number of elements', V.r == self.f(self.mask(V)) * V['Q'](self.n(V)))]

    def invs(self, L):
        return []


a_, b_, c_, d_, e_ = z3.Ints('ka kb kc kd ke')
SHIFT = Pure(z3.Implies(z3.And(a_ * b_ == e_, b_ == c_ * d_), (a_ * d_) * c_ == e_))
CANCEL = Pure(z3.Implies(z3.And(a_ * b_ == b_ * c_, b_ >= 1), a_ == c_))


def users(V, t, st):
    """the count of a reference_info (its only integer member; a block from operator new has no member names)"""
    lf = [l for l in t.r.leaves if l.kind == 'i'][0]
    return T(V.eng.sgn(st, V.eng.rd(st, t.r, lf, list(t.id) + ([V.eng.decompose(t.r, t.off)[0]] if t.r.rank else []))))


class Create(Mat):
    modifies_all = True
    """an empty matrix becomes one of the given shape; D(i): bytes of an element times the first i sizes"""
    def __init__(self, dims):
        self.large, self.dims = dims > 4, dims
        self.name = 'create_%s' % (dims if dims <= 4 else 'large')
        self.match = M + r'create\(int, int const\*, basicmath::mt_Depth_Channel\)'

    def shape_of(self, s, o, r):
        lf = r.leaf('m_dims')
        s.st.mem[(r, lf.idx)] = IntV(0, 32, lf.sign)
        lf = r.leaf('m_dynamic_size_step_size')
        s.st.mem[(r, lf.idx)] = IntV(0, 32, lf.sign)
        for m in ('m_dynamic_size_steps', 'm_data', 'm_shared_memory', 'm_reference'):
            s.st.mem[(r, r.leaf(m).idx)] = PtrV([(True, NULL)])
        self.data, self.tab = s.basic('bytes', 8, 'U'), s.basic('steps', 32, 'S')
        self.calls = []

    def arg_dims(self, s):
        return IntV(self.dims, 32, 'S') if self.dims <= 4 else s.int('dims')

    def my_ghosts(self, eng, st, V):
        return {'P': fn('slice'), 'D': fn('so_far')}

    def nd(self, V):
        return V['dims']

    def ghosts_for(self, callee, eng, st, view):
        return {'P': eng.V0.ghosts['P']}

    def sz(self, V, i):
        return T(V.A('sizes').at(V.pre, i))

    def new_mask(self, V):
        return T(V.arg('depth_channel').t) if 'depth_channel' in V.byname else None

    def call_hook(self, eng, st, name, dem, args, rty):
        if name == 'malloc':
            b, V = T(eng.uns(st, args[0])), eng.V0
            if self.large and not any(k == 'table' for k in self.calls):
                self.calls.append('table')
                eng.oblige(st, 'room', 'table of sizes and steps', b == 8 * self.nd(V))
                eng.set_vlen(st, self.tab, (), 2 * self.nd(V))
                return PtrV([(True, Loc(self.tab, Lin(0), ()))]), st
            eng.oblige(st, 'room', 'one allocation of the bytes of the matrix', And('data' not in self.calls, b == V['P'](0)))
            self.calls.append('data')
            eng.set_vlen(st, self.data, (), V['P'](0))
            return PtrV([(True, Loc(self.data, Lin(0), ()))]), st
        if 'create_mutex' in dem:
            return PtrV([(True, NULL)]), st
        return super().call_hook(eng, st, name, dem, args, rty)

    def requires(self, V):
        P, D, n, m = V['P'], V['D'], self.nd(V), self.new_mask(V)
        sz = lambda i: self.sz(V, i)
        rec = And(D(0) == Es(m), fa(lambda i: Imp(And(0 <= i, i < n), D(i + 1) == D(i) * sz(i)), pats=lambda i: [D(i + 1), sz(i)]), fa(lambda i: Imp(And(0 <= i, i <= n), And(D(i) >= 1, D(i) < I31)), pats=lambda i: [D(i)]))
        if not self.large:
            rec = And(D(0) == Es(m), *[And(D(i + 1) == D(i) * sz(i), D(i + 1) >= 1, D(i + 1) < I31) for i in range(self.dims)])
        return [('dimensions', And(n > 4, n < 1 << 20) if self.large else n == self.dims), ('element type', And(type_ok(m), Es(m) >= 1)), ('sizes', V.A('sizes').len(V.pre) >= n),
                ('slices (definition)', suffix(P, n, sz, Es(m), self.dims)), ('bytes of the first dimensions (definition)', rec)]

    def ensures(self, V):
        P, n = V['P'], self.nd(V)
        st = V.post
        r, _ = obj_region(V.arg('this'))
        tab = Arr(V.eng, self.tab, (), 0) if self.large else Arr(V.eng, r, (), 0, [l for l in r.leaves if l.name == 'm_fixed_size_steps'][0])
        at = lambda k: T(tab.at(st, k))
        rng = (lambda f: fa(lambda i: Imp(And(0 <= i, i < n), f(i)), pats=lambda i: [self.sz(V, i)])) if self.large else (lambda f: And([f(i) for i in range(self.dims)]))
        start = lambda m, g: (lambda p: And(len(p) == 1, p[0][1] is not NULL and p[0][1].r is g, T(p[0][1].off.term()) == 0 if p[0][1] is not NULL else False))(V.fptr('this', m, st).cases)
        ref = [t for c, t in V.fptr('this', 'm_reference', st).cases]
        return [('number of dimensions', V.field('this', 'm_dims', st) == n), ('element type', V.field('this', 'm_depth_channel.m_mask', st) == self.new_mask(V)),
                ('sizes', rng(lambda i: at(i) == self.sz(V, i))), ('every step is the size of a slice', self.steps(V, at)),
                ('data is the allocated block', start('m_data', self.data)), ('the block is owned', start('m_shared_memory', self.data)),
                ('one user', And(len(ref) == 1, ref[0] is not NULL, ref[0] is not NULL and users(V, ref[0], st) == 1))]

    def steps(self, V, at):
        n, P = self.nd(V), V['P']
        return fa(lambda k: Imp(And(n <= k, k < 2 * n), at(k) == P(k - n + 1)), pats=lambda k: [at(k)]) if self.large else And([at(n + i) == P(i + 1) for i in range(self.dims)])

    def prelemmas(self, V):
        if self.large:
            return []
        P, D = V['P'], V['D']
        n = self.dims
        v = z3.Ints(' '.join('s%d' % i for i in range(n)) + ' z')
        p = d = v[n]
        for i in range(n):
            d = d * v[i]
        for i in range(n - 1, -1, -1):
            p = p * v[i]
        return [('both products', [And([P(i) == P(i + 1) * self.sz(V, i) for i in range(n)] + [D(i + 1) == D(i) * self.sz(V, i) for i in range(n)] + [P(n) == D(0)])], D(n) == P(0))]

    def tabpost(self, V, st):
        return Arr(V.eng, self.tab, (), 0)

    def invs(self, L):
        V = L.V
        P, D, n = V['P'], V['D'], self.nd(V)
        E = Es(self.new_mask(V))
        for i in L._names():
            yield 'counter %s' % i, lambda S, i=i: And(S.v(i) >= 0, S.v(i) <= n)
            yield 'sizes below %s' % i, lambda S, i=i: fa(lambda k: Imp(And(0 <= k, k < S.v(i)), T(self.tabpost(V, S.st).at(S.st, k)) == self.sz(V, k)), pats=lambda k: [self.sz(V, k)])
            yield 'products at %s' % i, lambda S, i=i: D(S.v(i)) * P(S.v(i)) == P(0) * P(n)
            for r in L._names():
                if r != i:
                    yield '%s is the bytes so far %s' % (r, i), lambda S, i=i, r=r: S.v(r) == D(S.v(i))

    def lemmas(self, L, S):
        V = L.V
        P, D, n = V['P'], V['D'], self.nd(V)
        for i in L._names():
            x = S.v(i)
            f = Imp(And(0 <= x, x < n), And(D(x + 1) == D(x) * self.sz(V, x), D(x + 1) < I31, D(x + 1) >= 1, P(x) == P(x + 1) * self.sz(V, x)))
            yield 'next dimension', [f], f
            yield 'shift', [SHIFT], SHIFT.at((a_, D(x)), (b_, P(x)), (c_, P(x + 1)), (d_, self.sz(V, x)), (e_, P(0) * P(n)))
            yield 'cancel', [CANCEL], CANCEL.at((a_, D(n)), (b_, P(n)), (c_, P(0)))


BOTH = (False, True)
CONTRACTS = BYTES + [Steps(n) for n in DIMS] + [k(c, l) for k in (Ptr, Dense) for c in BOTH for l in BOTH] + [k(l) for k in (Valid, Number) for l in BOTH] + [Memory(n, f, l) for n, f in (('memory_size', Es), ('channel_memory_size', Ed)) for l in BOTH]
CONTRACTS += [Create(n) for n in DIMS]
