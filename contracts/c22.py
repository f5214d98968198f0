"""MSER: growth rate of a region and the list of its near-duplicates.

Ghost functions over the region store (they exist because parents are acyclic, which the depth ghost states):
  rp(x)   the nearest ancestor of x that was not merged away (-1: none)
  anc(x)  the last region on the rp-path from x whose gray level does not exceed the threshold
  ch(k)   the k-th proper ancestor of begin_region along m_parent (-1 after the root)
  cnt(k)  how many of the first k are eligible"""
from irv.contract import *
from contracts.c20 import Pool, pidx
from contracts.c23 import MSER_SRC

ID = 'C22'
DRIVERS = {'v1': ('basicimg', 'basicimg/src/img_fast_mser_v1.cpp'), 'v2': ('basicimg', 'basicimg/src/img_fast_mser_v2.cpp')}
HARNESS = {'sources': MSER_SRC, 'module': 'basicimg', 'cflags': ['-ffunction-sections', '-fdata-sections'], 'libs': ['-Wl,--gc-sections'],
           'rule': 'images of eight kinds (few levels, noise, blobs, extremes, constant, smooth, combs) up to 22x22 and some up to 140x140, random parameters, both polarities, both neighbourhoods, both extractors for 1 to 32 patches, extractors used again: after recognition every region of the tree carries the decision and the growth rate the definition gives it; a case is one (version, patches, parameters, image) not tried before'}
NOTE = 'proved for all forests: v2 calculate_variation computes the growth rate between the region and its last unmerged ancestor within delta levels and only ever replaces parents by their nearest unmerged ancestor; v1/v2 get_duplicated_regions lists exactly the unrejected ancestors up to the first that is too large or too different, nearest first. The loops of recognize_mser that apply these to every region are checked at run time.'
ASSUMPTIONS = ['the parent relation has no cycle (C21)', 'float division and conversion are the same function in code and specification (comparisons exact)', 'delta at most 255']
BOUNDED = ['recognize_mser (both versions, serial and parallel): the images of the run-time check']

IS, AS = z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.IntSort())


class Named(Arr):
    """an array whose present content gets a name when it is a case distinction (those are not allowed in triggers)"""
    names = {}

    def raw(self, st):
        a = Arr.raw(self, st)
        if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return a
        k = a.get_id()
        if k not in Named.names:
            c = self.eng.fresh('content', a.sort())
            Named.names[k] = (a, c, c == a)
        _, c, d = Named.names[k]
        if not any(p is d for p in st.pc):
            st.pc.append(d)
        return c


class Forest(Pool):
    """the region store with a depth that decreases along m_parent"""

    def my_ghosts(self, eng, st, V):
        return {'depth': z3.Const('depth', AS), 'rp': z3.Const('rp', AS), 'anc': z3.Const('anc', AS)}

    def N(self, V):
        return V.eng.vlen(V.pre, self.R, ())

    def fld(self, V, n):
        return Named(V.eng, self.R, (), 0, self.R.leaf(n))

    def valid(self, V, v):
        """null or an element of the store"""
        return And([Imp(B(c), And(0 <= pidx(V.eng, PtrV([(True, t)])), pidx(V.eng, PtrV([(True, t)])) < self.N(V))) for c, t in v.cases if t is not NULL])

    def d(self, V, x):
        return z3.Select(V['depth'], x)

    def forest(self, V):
        P = self.fld(V, 'm_parent')
        N = self.N(V)
        par = lambda x: P.at(V.pre, x)
        return [('parents lie in the store', fa(lambda x: Imp(And(0 <= x, x < N), And(-1 <= par(x), par(x) < N)), pats=lambda x: [par(x)])),
                ('no cycle', fa(lambda x: Imp(And(0 <= x, x < N), And(self.d(V, x) >= 0, Imp(par(x) >= 0, self.d(V, par(x)) < self.d(V, x)))), pats=lambda x: [par(x)]))]

    def merged(self, V, x, st=None):
        return self.fld(V, 'm_region_flag').at(st or V.pre, x) == 3

    def real(self, V):
        """definition of rp"""
        P = self.fld(V, 'm_parent')
        N = self.N(V)
        rp = lambda x: z3.Select(V['rp'], x)
        self.res = lambda p: z3.If(z3.And(p >= 0, B(self.merged(V, p))), rp(p), p)
        return [('real parent', fa(lambda x: Imp(And(0 <= x, x < N), And(rp(x) == self.res(P.at(V.pre, x)), -1 <= rp(x), rp(x) < N,
                                                                           Imp(rp(x) >= 0, And(Not(self.merged(V, rp(x))), self.d(V, rp(x)) < self.d(V, x))))), pats=lambda x: [rp(x)])),
                ('real parent (from the parent)', fa(lambda x: Imp(And(0 <= x, x < N), rp(x) == self.res(P.at(V.pre, x))), pats=lambda x: [P.at(V.pre, x)]))]

    def only_shortcuts(self, V, st):
        """every parent is as it was or the nearest unmerged ancestor"""
        P = self.fld(V, 'm_parent')
        N = self.N(V)
        return fa(lambda x: Imp(And(0 <= x, x < N), Or(P.at(st, x) == P.at(V.pre, x), P.at(st, x) == z3.Select(V['rp'], x))), pats=lambda x: [P.at(st, x)])


class Variation(Forest):
    name = 'v2_calculate_variation'
    match = r'basicimg::img_fast_mser_v2::calculate_variation'
    driver = 'v2'
    auto = False

    def reg(self, V):
        return pidx(V.eng, V.arg('region'))

    def thr(self, V):
        return V.field('region', 'm_gray_level') + V.field('this', 'm_delta')

    def requires(self, V):
        N, x0 = self.N(V), self.reg(V)
        g, z = self.fld(V, 'm_gray_level'), self.fld(V, 'm_size')
        rp, anc = (lambda x: z3.Select(V['rp'], x)), (lambda x: z3.Select(V['anc'], x))
        return [('the region lies in the store', And(0 <= x0, x0 < N)), ('delta', And(0 <= V.field('this', 'm_delta'), V.field('this', 'm_delta') <= 255)),
                ('sizes', fa(lambda x: Imp(And(0 <= x, x < N), z.at(V.pre, x) >= 1), pats=lambda x: [z.at(V.pre, x)]))] + self.forest(V) + self.real(V) + \
               [('last region below the threshold', fa(lambda x: Imp(And(0 <= x, x < N), anc(x) == z3.If(z3.Or(rp(x) < 0, g.at(V.pre, rp(x)) > self.thr(V)), x, anc(rp(x)))), pats=lambda x: [anc(x)]))]

    def spec(self, V, t):
        e = V.eng
        z = self.fld(V, 'm_size')
        f = lambda v: e.cast(V.pre, 'sitofp', ('i', 32), ('float',), IntV(v, 32, 'S')).t
        return e.fbin(V.pre, 'fdiv', 32, FV(f(z.at(V.pre, t) - z.at(V.pre, self.reg(V))), 32), FV(f(z.at(V.pre, self.reg(V))), 32)).t

    def ensures(self, V):
        x0 = self.reg(V)
        t = z3.Select(V['anc'], x0)
        g, v = self.fld(V, 'm_gray_level'), self.fld(V, 'm_var')
        reached = Or(z3.Select(V['rp'], t) >= 0, g.at(V.pre, t) == self.thr(V))
        out = [('the growth rate over delta gray levels', Imp(reached, v.at(V.post, x0) == self.spec(V, t))),
               ('no growth rate without an ancestor', Imp(Not(reached), v.at(V.post, x0) == -1)),
               ('real parent stored', self.fld(V, 'm_parent').at(V.post, x0) == z3.Select(V['rp'], x0)),
               ('parents only skip merged regions', self.only_shortcuts(V, V.post))]
        return out

    def modifies(self, V):
        p = V.arg('region')
        return [ModField(p, 'm_var'), ModField(p, 'm_unmerged_size'), ModField(p, 'm_child_memory_number'), ModArr(self.fld(V, 'm_parent'))]

    def invs(self, L):
        V, e = L.V, L.eng
        x0 = self.reg(V)
        N = self.N(V)
        anc = lambda x: z3.Select(V['anc'], x)
        rp = lambda x: z3.Select(V['rp'], x)
        i = lambda S, n: pidx(e, S.ptr(n))
        yield 'parents only skip merged regions', lambda S: self.only_shortcuts(V, S.st)
        if L.ordinal == 1:
            yield 'temp lies in the store', lambda S: And(0 <= i(S, 'temp'), i(S, 'temp') < N)
            yield 'range', lambda S: self.valid(V, S.ptr('parent'))
            yield 'parent is the real parent', lambda S: i(S, 'parent') == rp(i(S, 'temp'))
            yield 'same last region', lambda S: anc(i(S, 'temp')) == anc(x0)
            yield 'stored', lambda S: self.fld(V, 'm_parent').at(S.st, x0) == rp(x0)
        else:
            a, b = ('temp', 'parent') if L.ordinal == 0 else ('parent', 'temp_parent')
            yield 'range', lambda S: self.valid(V, S.ptr(b))
            yield 'looks for the real parent', lambda S: self.res(i(S, b)) == rp(i(S, a))

    def measure(self, L):
        V, e = L.V, L.eng
        b = ('parent', 'parent', 'temp_parent')[L.ordinal] if L.ordinal < 3 else None
        if b is None:
            return None
        return lambda S: z3.If(pidx(e, S.ptr(b)) < 0, T(0), self.d(V, pidx(e, S.ptr(b))) + 1)


class Duplicates(Forest):
    """the list gets the unrejected ancestors of begin_region, nearest first, up to the first that is too large or has grown too much"""

    def __init__(self, driver):
        self.driver = driver
        self.name = driver + '_get_duplicated_regions'
        self.match = r'basicimg::img_fast_mser_%s::get_duplicated_regions' % driver
        self.auto = False

    def prepare(self, s, args):
        r, t = obj_region(s.by['duplicated_regions'])
        vv = s.eng.get(s.st, r, r.leaves[0].idx)
        vv.data.leaves[0].target = self.R

    def pool(self, s):
        if not hasattr(self, 'R') or self.R_st is not s.st:
            Pool.pool(self, s)
            self.R_st = s.st
        return self.R

    def arg_stable_region(self, s):
        return self.arg_region(s)

    def arg_begin_region(self, s):
        return self.arg_region(s)

    def my_ghosts(self, eng, st, V):
        g = Forest.my_ghosts(self, eng, st, V)
        g.update({'ch': z3.Const('ch', AS), 'pos': z3.Const('pos', AS), 'cnt': z3.Const('cnt', AS), 'n': z3.Int('n_considered')})
        return g

    def fits(self, V, x):
        e = V.eng
        z = self.fld(V, 'm_size')
        f = lambda v: e.cast(V.pre, 'sitofp', ('i', 32), ('double',), IntV(v, 32, 'S')).t
        sz = z.at(V.pre, pidx(e, V.arg('stable_region')))
        q = e.fbin(V.pre, 'fdiv', 64, FV(f(z.at(V.pre, x) - sz), 64), FV(f(sz), 64)).t
        lim = V.field('this', 'm_max_point')
        return And(z.at(V.pre, x) <= lim, q <= V.field('this', 'm_duplicated_variation'))

    def elig(self, V, x):
        f = self.fld(V, 'm_region_flag').at(V.pre, x)
        return And(f != 1, True if self.driver == 'v1' else f != 2)

    def requires(self, V):
        N, e = self.N(V), V.eng
        b, s = pidx(e, V.arg('begin_region')), pidx(e, V.arg('stable_region'))
        z, P = self.fld(V, 'm_size'), self.fld(V, 'm_parent')
        ch, pos, cnt = [(lambda i, a=V[x]: z3.Select(a, i)) for x in ('ch', 'pos', 'cnt')]
        n = V['n']
        V.eng.fact(n, 0, 1 << 31)
        return [('the regions lie in the store', And(0 <= b, b < N, 0 <= s, s < N)),
                ('sizes', fa(lambda x: Imp(And(0 <= x, x < N), z.at(V.pre, x) >= 1), pats=lambda x: [z.at(V.pre, x)]))] + self.forest(V) + \
               [('chain of ancestors', And(ch(0) == P.at(V.pre, b), cnt(0) == 0, n >= 0)),
                ('next ancestor', fa(lambda k: Imp(And(0 <= k, k < n), And(0 <= ch(k), ch(k) < N, ch(k + 1) == P.at(V.pre, ch(k)), pos(ch(k)) == k, self.fits(V, ch(k)),
                                                                             cnt(k + 1) == cnt(k) + z3.If(B(self.elig(V, ch(k))), 1, 0), 0 <= cnt(k), cnt(k) <= k)), pats=lambda k: [ch(k)])),
                ('end of the chain', And(0 <= cnt(n), cnt(n) <= n, -1 <= ch(n), ch(n) < N, Imp(ch(n) >= 0, And(pos(ch(n)) == n, Not(self.fits(V, ch(n)))))))]

    def out(self, V, st, j):
        """the first j ancestors are dealt with"""
        D = V.A('duplicated_regions')
        l0 = D.len(V.pre)
        ch, cnt = [(lambda i, a=V[x]: z3.Select(a, i)) for x in ('ch', 'cnt')]
        return [('length', D.len(st) == l0 + cnt(j)),
                ('earlier entries stay', fa(lambda i: Imp(And(0 <= i, i < l0), D.at(st, i) == D.at(V.pre, i)))),
                ('unrejected ancestors in order', fa(lambda k: Imp(And(0 <= k, k < j, self.elig(V, ch(k))), And(cnt(k) < cnt(j), D.at(st, l0 + cnt(k)) == ch(k))), pats=lambda k: [ch(k)]))]

    def ensures(self, V):
        return self.out(V, V.post, V['n'])

    def modifies(self, V):
        D = V.A('duplicated_regions')
        return [ModArr(D), ModLen(D)]

    def invs(self, L):
        V, e = L.V, L.eng
        n = V['n']
        ch, pos = [(lambda i, a=V[x]: z3.Select(a, i)) for x in ('ch', 'pos')]
        p = lambda S: pidx(e, S.ptr('parentRegion'))
        j = lambda S: z3.If(p(S) < 0, n, pos(p(S)))
        yield 'in the store', lambda S: self.valid(V, S.ptr('parentRegion'))
        yield 'an ancestor', lambda S: And(0 <= j(S), j(S) <= n, ch(j(S)) == p(S))
        for k, nm in enumerate(('length', 'earlier entries stay', 'unrejected ancestors in order')):
            yield nm, lambda S, k=k: self.out(V, S.st, j(S))[k][1]

    def measure(self, L):
        V, e = L.V, L.eng
        return lambda S: z3.If(pidx(e, S.ptr('parentRegion')) < 0, T(0), V['n'] + 1 - z3.Select(V['pos'], pidx(e, S.ptr('parentRegion'))))


CONTRACTS = [Variation(), Duplicates('v1'), Duplicates('v2')]
