"""MSER: joining two trees.

Ghost functions over the region store of the state before the call (they exist because the forest is ordered):
  rp(x)    the nearest ancestor that was not merged away (-1: none)
  root(x)  the last region on the rp-path from x
  stamp(x) the order in which regions were merged away"""
from irv.contract import *
from irv.mem import sel
from contracts.c20 import Pool, pidx
from contracts.c22 import Forest, AS
from contracts.c18 import SHAPE
from contracts.c23 import MSER_SRC

ID = 'C21'
DRIVERS = {'v1': ('basicimg', 'basicimg/src/img_fast_mser_v1.cpp'), 'v2': ('basicimg', 'basicimg/src/img_fast_mser_v2.cpp')}
HARNESS = {'sources': MSER_SRC, 'module': 'basicimg', 'cflags': ['-ffunction-sections', '-fdata-sections'], 'libs': ['-Wl,--gc-sections'], 'rule': 'images of eight kinds up to 22x22 (some to 140x140) and small images with few levels, flooded in 2 to 32 patches and joined, both polarities, both extractors, used again: the joined tree (regions, parents, gray levels, sizes, pixels) against the component tree of the whole image; a case is one (version, patches, parameters, image) not tried before'}
NOTE = 'proved for all forests (v2 connect): parents stay strictly brighter, merged regions stay on their level without cycles, two different trees become one whose root has the pixels of both (the other root hangs below it), a tree joined to itself keeps its size, other trees stay, the loops end. Proved for all patch sizes (v2 merge_tree_parallel_step): the regions of every two pixels that touch across a border are handed to connect, each pair once, none left out. Proved for both versions and every number of patches (build_tree): every patch is flooded once with this image, mask and polarity before any two patches are joined, and every two patches side by side are joined. That the pixels are linked at the smallest level, v1 connect/disconnect and the v1 border loops are checked at run time against the component tree.'
ASSUMPTIONS = ['the ghost functions rp, root, stamp exist: the forest before the call is ordered (which the contract gives back)', 'fewer than 2^31 pixels, fewer than 2^31-1000 merges counted', 'every patch has a pixel (C23, extract) and its areas lie in the blocks (C18), flooding gives every pixel a region of its patch (C20); mt_block_memory::at selects it', 'patches flooded or joined at the same time share nothing (C18; checked at run time)']
BOUNDED = ['v1 connect/disconnect and border loops, merge_tree_parallel_2 and _4 of v1: the images of the run-time check']
M = 1 << 31


class Connect(Forest):
    name = 'v2_connect'
    match = r'basicimg::img_fast_mser_v2::connect'
    driver = 'v2'
    auto = False
    cvc5_first = True
    inv_timeout = 4000

    def serves(self, cur):
        return isinstance(cur, Connect)

    def pool(self, s):
        if not hasattr(self, 'R') or self.R_st is not s.st:
            Pool.pool(self, s)
            self.R_st = s.st
        return self.R

    def arg_bigger(self, s):
        return self.arg_region(s)

    def arg_smaller(self, s):
        return self.arg_region(s)

    def my_ghosts(self, eng, st, V):
        return {x: z3.Const(x, AS) for x in ('rp', 'root', 'stamp')}

    # ---- readings
    def g(self, V, x):
        return self.fld(V, 'm_gray_level').at(V.pre, x)

    def sz(self, V, x, st=None):
        return self.fld(V, 'm_size').at(st or V.pre, x)

    def par(self, V, x, st=None):
        return self.fld(V, 'm_parent').at(st or V.pre, x)

    def gh(self, V, n):
        return lambda x: z3.Select(V[n], x)

    def dom(self, V, x):
        return And(0 <= x, x < self.N(V))

    def roots(self, V):
        root = self.gh(V, 'root')
        return root(pidx(V.eng, V.arg('bigger'))), root(pidx(V.eng, V.arg('smaller')))

    def total(self, V):
        a, b = self.roots(V)
        return self.sz(V, a) + self.sz(V, b)

    # ---- the forest
    def ordered(self, V, st, stamp):
        """parents are brighter; a region that was merged away hangs on one of its own level that was merged later or never"""
        P, N = self.fld(V, 'm_parent'), self.N(V)
        g = self.fld(V, 'm_gray_level')
        p = lambda x: P.at(st, x)
        G = lambda x: g.at(st, x)
        m = lambda x: self.merged(V, x, st)
        pt = lambda x: [p(x)]
        return [('parents lie in the store', fa(lambda x: Imp(self.dom(V, x), And(-1 <= p(x), p(x) < N)), pats=pt)),
                ('parents are brighter', fa(lambda x: Imp(And(self.dom(V, x), Not(m(x)), p(x) >= 0), G(x) < G(p(x))), pats=pt)),
                ('merged regions hang on their level', fa(lambda x: Imp(And(self.dom(V, x), m(x)), And(p(x) >= 0, G(x) == G(p(x)))), pats=pt)),
                ('no cycle of merged regions', fa(lambda x: Imp(And(self.dom(V, x), m(x), m(p(x))), stamp(x) < stamp(p(x))), pats=pt))]

    def stamp_post(self, V, st):
        s0 = self.gh(V, 'stamp')
        return lambda x: z3.If(B(self.merged(V, x)), s0(x), z3.IntVal(M))

    def requires(self, V):
        e = V.eng
        N = self.N(V)
        b, s = pidx(e, V.arg('bigger')), pidx(e, V.arg('smaller'))
        rp, root, stamp = self.gh(V, 'rp'), self.gh(V, 'root'), self.gh(V, 'stamp')
        res = self.res = lambda p: z3.If(z3.And(p >= 0, B(self.merged(V, p))), rp(p), p)
        mn = V.field('this', 'm_merged_number')
        out = [('two unmerged regions of the store', And(self.dom(V, b), self.dom(V, s), Not(self.merged(V, b)), Not(self.merged(V, s)))),
               ('gray levels', fa(lambda x: Imp(self.dom(V, x), And(0 <= self.g(V, x), self.g(V, x) <= 255)), pats=lambda x: [self.g(V, x)])),
               ('counter', And(mn >= 0, mn < M - 1000)),
               ('order of merging', fa(lambda x: Imp(self.dom(V, x), And(0 <= stamp(x), stamp(x) < M)), pats=lambda x: [stamp(x)]))]
        out += self.ordered(V, V.pre, stamp)
        out += [('real parent', fa(lambda x: Imp(self.dom(V, x), And(rp(x) == res(self.par(V, x)), -1 <= rp(x), rp(x) < N, Imp(self.merged(V, x), rp(x) >= 0), Imp(rp(x) >= 0, And(Not(self.merged(V, rp(x))),
                                                                                 z3.If(B(self.merged(V, x)), self.g(V, x) <= self.g(V, rp(x)), self.g(V, x) < self.g(V, rp(x))))))), pats=lambda x: [rp(x)])),
                ('real parent (from the parent)', fa(lambda x: Imp(self.dom(V, x), rp(x) == res(self.par(V, x))), pats=lambda x: [self.par(V, x)])),
                ('root', fa(lambda x: Imp(And(self.dom(V, x), Not(self.merged(V, x))), And(root(x) == z3.If(rp(x) < 0, x, root(rp(x))), self.dom(V, root(x)), rp(root(x)) == -1, root(root(x)) == root(x),
                                                          Not(self.merged(V, root(x))), Imp(root(x) != x, self.g(V, x) < self.g(V, root(x))))), pats=lambda x: [root(x)])),
                ('sizes', fa(lambda x: Imp(And(self.dom(V, x), Not(self.merged(V, x))), And(1 <= self.sz(V, x), self.sz(V, x) <= self.sz(V, root(x)))), pats=lambda x: [root(x)])),
                ('number of pixels', self.total(V) < M)]
        return out

    def one_root(self, V, st):
        """two trees became one with all their pixels; or it was one tree before and its size stays"""
        a, b = self.roots(V)
        top = lambda r: And(self.par(V, r, st) == -1, Not(self.merged(V, r, st)))
        return [('one tree with the pixels of both', Imp(a != b, Or(And(top(a), self.sz(V, a, st) == self.total(V), self.par(V, b, st) >= 0),
                                                                     And(top(b), self.sz(V, b, st) == self.total(V), self.par(V, a, st) >= 0)))),
                ('a tree joined to itself stays', Imp(a == b, And(top(a), self.sz(V, a, st) == self.sz(V, a))))]

    def others(self, V, st):
        """other trees are not touched (but for shorter links)"""
        root = self.gh(V, 'root')
        a, b = self.roots(V)
        return fa(lambda x: Imp(And(self.dom(V, x), Not(self.merged(V, x)), root(x) != a, root(x) != b),
                                And(self.sz(V, x, st) == self.sz(V, x), Not(self.merged(V, x, st)), self.par(V, x, st) == self.par(V, x))), pats=lambda x: [root(x)])

    def grays(self, V, st):
        g = self.fld(V, 'm_gray_level')
        return fa(lambda x: Imp(self.dom(V, x), And(g.at(st, x) == g.at(V.pre, x), Imp(self.merged(V, x), self.merged(V, x, st)))), pats=lambda x: [g.at(st, x), self.fld(V, 'm_region_flag').at(st, x)])

    def ensures(self, V):
        return self.ordered(V, V.post, self.stamp_post(V, V.post)) + self.one_root(V, V.post) + [('other trees stay', self.others(V, V.post))]

    def modifies(self, V):
        return [ModArr(self.fld(V, n)) for n in ('m_size', 'm_parent', 'm_region_flag')] + [ModField(V.arg('this'), 'm_merged_number')]

    # ---- the loops
    def upper(self, V, st, low, *nodes):
        """regions brighter than the present ones, and the present ones, are as before"""
        return fa(lambda x: Imp(And(self.dom(V, x), Or(self.g(V, x) > low, *[x == n for n in nodes])),
                                And(self.sz(V, x, st) == self.sz(V, x), Iff(self.merged(V, x, st), self.merged(V, x)),
                                    Or(self.par(V, x, st) == self.par(V, x), And(Not(self.merged(V, x)), self.par(V, x, st) == z3.Select(V['rp'], x))))), pats=lambda x: [self.par(V, x, st), self.sz(V, x, st)])

    def invs(self, L):
        V, e = L.V, L.eng
        N = self.N(V)
        rp, root = self.gh(V, 'rp'), self.gh(V, 'root')
        i = lambda S, n: pidx(e, S.ptr(n))
        s, b = (lambda S: i(S, 'smaller')), (lambda S: i(S, 'bigger'))
        a0, b0 = self.roots(V)
        px = lambda S: S.v('pixel_size')
        if L.ordinal in self.INNER:
            yield 'range', lambda S: self.valid(V, S.ptr('smaller_parent'))
            yield 'looks for the real parent', lambda S: And(self.res(i(S, 'smaller_parent')) == rp(s(S)), Imp(i(S, 'smaller_parent') >= 0, self.g(V, i(S, 'smaller_parent')) > self.g(V, s(S))))
            return
        for n in ('m_gray_level', 'm_calculated_var', 'm_assigned_pointer', 'm_patch_index'):
            yield n + ' stays', lambda S, f=self.fld(V, n): fa(lambda x: f.at(S.st, x) == f.at(V.pre, x), pats=lambda x: [f.at(S.st, x)])
        yield 'gray levels stay', lambda S: self.grays(V, S.st)
        for k in range(4):
            yield self.ordered(V, V.pre, self.stamp_post(V, V.pre))[k][0], lambda S, k=k: self.ordered(V, S.st, self.stamp_post(V, S.st))[k][1]
        yield 'other trees stay', lambda S: self.others(V, S.st)
        yield 'smaller is a region', lambda S: self.valid(V, S.ptr('smaller'))
        low = lambda S: z3.If(z3.And(b(S) >= 0, self.g(V, b(S)) < self.g(V, s(S))), self.g(V, b(S)), self.g(V, s(S)))
        if L.ordinal == self.MAIN:
            yield 'smaller is not null', lambda S: And(s(S) >= 0, Not(self.merged(V, s(S), S.st)), Not(self.merged(V, s(S))))
            yield 'bigger is a region', lambda S: And(self.valid(V, S.ptr('bigger')), Imp(b(S) >= 0, And(Not(self.merged(V, b(S), S.st)), Not(self.merged(V, b(S))))))
            yield 'upper part as before', lambda S: self.upper(V, S.st, low(S), s(S), b(S))
            yield 'merged now', lambda S: fa(lambda x: Imp(And(self.dom(V, x), self.merged(V, x, S.st), Not(self.merged(V, x))),
                                                           And(self.g(V, x) <= low(S), Not(self.merged(V, self.par(V, x, S.st), S.st)),
                                                               Imp(self.g(V, x) == low(S), And(self.par(V, x, S.st) == s(S), Or(b(S) < 0, self.g(V, b(S)) > self.g(V, s(S))))))), pats=lambda x: [self.par(V, x, S.st)])
            yield 'the two trees', lambda S: z3.If(b(S) >= 0, B(Or(And(root(s(S)) == a0, root(b(S)) == b0), And(root(s(S)) == b0, root(b(S)) == a0))),
                                                   B(And(a0 != b0, Or(And(root(s(S)) == a0, self.par(V, b0, S.st) >= 0), And(root(s(S)) == b0, self.par(V, a0, S.st) >= 0)),
                                                         px(S) == self.total(V) - self.sz(V, root(s(S))))))
            yield 'pixels carried over', lambda S: 0 <= px(S)
            yield 'none before the first link', lambda S: Imp(And(b(S) >= 0, self.g(V, s(S)) > self.g(V, b(S))), px(S) == 0)
            yield 'pixels of the other tree', lambda S: px(S) <= self.total(V) - self.sz(V, root(s(S)))
            yield 'counter', lambda S: And(V.field('this', 'm_merged_number', S.st) <= V.field('this', 'm_merged_number') + 600 - self.left(V, S),
                                           V.field('this', 'm_merged_number', S.st) >= 0)
        else:
            yield 'smaller unmerged', lambda S: Imp(s(S) >= 0, And(Not(self.merged(V, s(S), S.st)), Not(self.merged(V, s(S)))))
            yield 'upper part as before', lambda S: Imp(s(S) >= 0, self.upper(V, S.st, self.g(V, s(S)), s(S)))
            yield 'root', lambda S: Imp(s(S) >= 0, And(Or(root(s(S)) == a0, root(s(S)) == b0), px(S) == self.total(V) - self.sz(V, root(s(S))),
                                                       self.par(V, z3.If(root(s(S)) == a0, b0, a0), S.st) >= 0, a0 != b0))
            yield 'done', lambda S: Imp(s(S) < 0, And([f for _, f in self.one_root(V, S.st)]))
            yield 'merged now', lambda S: fa(lambda x: Imp(And(self.dom(V, x), self.merged(V, x, S.st), Not(self.merged(V, x))), Not(self.merged(V, self.par(V, x, S.st), S.st))), pats=lambda x: [self.par(V, x, S.st)])

    def left(self, V, S):
        e = V.eng
        f = lambda n: z3.If(pidx(e, S.ptr(n)) >= 0, 256 - self.g(V, pidx(e, S.ptr(n))), 0)
        return f('smaller') + f('bigger')

    def measure(self, L):
        V, e = L.V, L.eng
        if L.ordinal in self.INNER:
            p = lambda S: pidx(e, S.ptr('smaller_parent'))
            return lambda S: z3.If(z3.Or(p(S) < 0, z3.Not(B(self.merged(V, p(S))))), z3.IntVal(0), M - z3.Select(V['stamp'], p(S)))
        if L.ordinal == self.MAIN:
            return lambda S: self.left(V, S)
        return lambda S: z3.If(pidx(e, S.ptr('smaller')) >= 0, 256 - self.g(V, pidx(e, S.ptr('smaller'))), 0)

    MAIN = 0
    INNER = (1, 3)


class Build(Contract):
    """build_tree: every patch is flooded once, with this image, mask and polarity; then every two patches side by side are joined"""
    auto = False
    modifies_all = True

    def __init__(self, driver, n):
        self.driver, self.n = driver, n
        self.nh, self.nv = SHAPE[n]
        self.name = '%s_build_%d' % (driver, n)
        self.match = r'basicimg::img_fast_mser_%s::build_tree\(' % driver
        self.pairs = {(v * self.nh + u, w) for v in range(self.nv) for u in range(self.nh) for w in ('right', 'down') if (u < self.nh - 1 if w == 'right' else v < self.nv - 1)}
        self.cells = ['flooded%d' % i for i in range(n)] + ['%s%d' % (w, a) for a, w in sorted(self.pairs)]

    def serves(self, cur):
        return False

    def prepare(self, s, args):
        st = s.st
        self.me, _ = obj_region(s.by['this'])
        l = self.me.leaf('m_parallel_thread_number')
        st.mem[(self.me, l.idx)] = IntV(self.n, l.w, l.sign)
        self.pin = s.obj('patches', 'parallel_info', 1)
        s.eng.set_vlen(st, self.pin, (), T(self.n))
        self.ev = Region('events', 0, 8 * len(self.cells), [Leaf(8 * i, 8, 'i', 64, 'S', name=f) for i, f in enumerate(self.cells)])
        for i in range(len(self.cells)):
            st.mem[(self.ev, i)] = IntV(T(0), 64, 'S')
        self.by = dict(s.by)

    def c(self, st, f, v=None):
        i = (self.ev, self.cells.index(f))
        if v is None:
            return T(st.mem[i].t)
        st.mem[i] = IntV(z3.simplify(T(v)), 64, 'S')

    def same(self, p, name):
        (c, l), = p.cases
        return l is not NULL and l.r is obj_region(self.by[name])[0] and str(l.off.term()) == '0'

    def join(self, eng, st, a, step, right):
        on = lambda what, goal: eng.oblige(st, 'order', what, goal)
        on('every patch is flooded before patches are joined', And([self.c(st, 'flooded%d' % i) == 1 for i in range(self.n)]))
        on('the patches joined are neighbours', Or([And(T(a) == x, T(step) == (1 if w == 'right' else self.nh), Iff(right, T(int(w == 'right')) == 1)) for x, w in self.pairs]))
        for x, w in self.pairs:
            f = '%s%d' % (w, x)
            self.c(st, f, self.c(st, f) + z3.If(z3.And(T(a) == x, B(Iff(right, w == 'right'))), 1, 0))

    def call_hook(self, eng, st, name, dem, args, rty):
        d = dem.replace('[abi:ne180100]', '')
        on = lambda what, goal: eng.oblige(st, 'order', what, goal)
        me = 'basicimg::img_fast_mser_%s::' % self.driver
        n = lambda i: T(eng.uns(st, args[i]))
        if 'parallel_info' in d and d.startswith('std::__1::vector<'):
            if '>::operator[](unsigned long)' in d:
                eng.oblige(st, 'bounds', 'patch number', And(0 <= n(1), n(1) < self.n))
                return PtrV([(True, Loc(self.pin, lin_of(n(1)).scale(self.pin.E), ()))]), st
            if '>::size() const' in d:
                return IntV(self.n, 64, 'U'), st
        if d.startswith(me + 'make_tree_patch('):
            i = pidx(eng, args[1])
            on('the patch is flooded under its own number', i == n(5))
            on('for this image and mask', self.same(args[2], 'src') and self.same(args[3], 'mask'))
            on('for this polarity', n(4) == T(eng.V0['gray_mask']))
            for k in range(self.n):
                f = 'flooded%d' % k
                on('patch %d is flooded once' % k, Imp(i == k, self.c(st, f) == 0))
                self.c(st, f, self.c(st, f) + z3.If(i == k, 1, 0))
            return None, st
        if d.startswith(me + 'merge_tree_parallel_step('):
            o = 0 if self.driver == 'v2' else 2
            size = z3.simplify(n(2 + o))
            if not z3.is_int_value(size):
                on('number of patches to join', False)
                return None, st
            (_, l), = args[1 + o].cases
            for k in range(size.as_long()):
                v = eng.load(st, PtrV([(True, Loc(l.r, l.off.add(Lin(4 * k)), l.id))]), ('i', 32))
                self.join(eng, st, T(eng.uns(st, v)), n(3 + o), n(4 + o) != 0)
            if o:
                on('borders sorted for this image and polarity', And(self.same(args[1], 'src'), n(2) == T(eng.V0['gray_mask'])))
            return None, st
        if self.driver == 'v1' and d.startswith((me + 'merge_tree_parallel_2(', me + 'merge_tree_parallel_4(')):
            on('borders sorted for this image and polarity', And(self.same(args[1], 'src'), n(2) == T(eng.V0['gray_mask'])))
            on('joins all patches', int(d[len(me + 'merge_tree_parallel_')]) == self.n)
            for x, w in sorted(self.pairs):
                self.join(eng, st, T(x), T(1 if w == 'right' else self.nh), T(int(w == 'right')) == 1)
            return None, st
        if d.startswith('basicmath::mt_block_memory<') and '::memory_size()' in d:
            return eng.fresh_int('memory', 64), st
        if 'log_logger::get_logger' in d:
            return PtrV([(True, NULL)]), st
        if d.startswith(('basicsys::sys_alg_analyzer::', 'void basicsys::sys_alg_analyzer::')):
            return None, st
        if d.startswith('basicsys::sys_timer::get_tick_cout('):
            v = eng.fresh_int('tick', 64)
            st.assume(And(0 <= T(eng.uns(st, v)), T(eng.uns(st, v)) < 1 << 62))
            return v, st
        return None

    def ensures(self, V):
        out = [('patch %d is flooded' % i, self.c(V.post, 'flooded%d' % i) == 1) for i in range(self.n)]
        return out + [('patch %d is joined %s' % (a, 'to the right' if w == 'right' else 'downwards'), self.c(V.post, '%s%d' % (w, a)) >= 1) for a, w in sorted(self.pairs)]


class Step(Forest):
    """merge_tree_parallel_step: the regions of every two pixels that touch across the border of two patches are joined, row by row (column by column).
    ghost: rep(x) the region x was merged into; stamp(x) the order of merging; events: patches done, pixels of the present border done"""
    name, match, driver = 'v2_border', r'basicimg::img_fast_mser_v2::merge_tree_parallel_step\(', 'v2'
    auto = False
    modifies_all = True
    unroll = False
    inv_timeout = 4000

    def serves(self, cur):
        return False

    def my_ghosts(self, eng, st, V):
        return {}

    def prepare(self, s, args):
        st = s.st
        self.R = s.obj('regions', 'mser_region', 1)
        self.R.leaf('m_parent').target = self.R
        self.pin = s.obj('patches', 'parallel_info', 1)
        self.pts = s.basic('points', 32, 'U')
        self.pin.leaf('m_points').target = self.pts
        self.G = Region('ghost', 1, 16, [Leaf(0, 8, 'i', 64, 'S', name='rep'), Leaf(8, 8, 'i', 64, 'S', name='stamp')])
        for l in self.G.leaves:
            st.mem[(self.G, l.idx)] = z3.Const(l.name, AS)
        self.ev = Region('events', 0, 16, [Leaf(8 * i, 8, 'i', 64, 'S', name=f) for i, f in enumerate(('border', 'pixel'))])
        for i in range(2):
            st.mem[(self.ev, i)] = IntV(T(0), 64, 'S')

    def c(self, st, i):
        return T(st.mem[(self.ev, i)].t)

    def gh2(self, st, k):
        return lambda x: z3.Select(st.mem[(self.G, k)], T(x))

    def P(self, V, n):
        return lambda i: sel(V.eng.get(V.pre, self.pin, self.pin.leaf(n).idx), [T(i)])

    def reg(self, i, x):
        return z3.Function('region_of', z3.IntSort(), z3.IntSort(), z3.IntSort())(T(i), T(x))

    def patch(self, V, o, b):
        a = T(V.A('parallel_indexes').at(V.pre, o))
        return a + V['parallel_step'] if b else a

    def count(self, V, o):
        a = self.patch(V, o, False)
        return z3.If(V['left_right'] != 0, self.P(V, 'm_height')(a), self.P(V, 'm_width')(a))

    def cell(self, V, o, k, b):
        """offset of the k-th pixel of the border, seen from the side of a (b)"""
        i = self.patch(V, o, b)
        p, w, h, wb = (self.P(V, n)(i) for n in ('m_points', 'm_width', 'm_height', 'm_width_with_boundary'))
        across = p + (1 if b else w) + (1 + k) * wb
        down = p + (wb if b else h * wb) + 1 + k
        return z3.If(V['left_right'] != 0, across, down)

    def origin(self, V, st, o, k, b):
        x = T(Arr(V.eng, self.pts, (), 0, self.pts.leaves[0]).at(st, self.cell(V, o, k, b)))
        d = x - V.field('this', 'm_boundary_pixel')
        return self.reg(self.patch(V, o, b), z3.If(d < 0, d + (1 << 32), d))

    def state(self, V, st):
        rep, stamp = self.gh2(st, 0), self.gh2(st, 1)
        par, N = self.fld(V, 'm_parent'), self.N(V)
        m = lambda x: self.merged(V, x, st)
        p = lambda x: par.at(st, x)
        dom = lambda x: And(0 <= x, x < N)
        return [('regions', fa(lambda x: Imp(dom(x), And(-1 <= p(x), p(x) < N, Imp(m(x), And(p(x) >= 0, rep(x) == rep(p(x)), 0 <= stamp(x), stamp(x) < M, Imp(m(p(x)), stamp(x) < stamp(p(x))))))), pats=lambda x: [p(x)])),
                ('merged into', fa(lambda x: Imp(dom(x), And(dom(rep(x)), Not(m(rep(x))), Imp(Not(m(x)), rep(x) == x))), pats=lambda x: [rep(x)]))]

    def requires(self, V):
        e = V.eng
        n, size = e.vlen(V.pre, self.pin, ()), V['size']
        f = lambda a: (lambda i: self.P(V, a)(i))
        p, w, h, wb = f('m_points'), f('m_width'), f('m_height'), f('m_width_with_boundary')
        idx = V.A('parallel_indexes')
        L = e.vlen(V.pre, self.pts, ())
        q = lambda o: self.patch(V, o, False)
        i = z3.FreshInt('i')
        x = z3.FreshInt('x')
        N = self.N(V)
        return [('patches', And(1 <= n, n <= 32, 0 <= V['size'], size <= e.vlen(V.pre, idx.region, idx.ids), size <= 32, 0 <= V['parallel_step'], V['parallel_step'] <= 8)),
                ('their numbers', fa(lambda o: Imp(And(0 <= o, o < size), And(0 <= q(o), q(o) + V['parallel_step'] < n)), pats=lambda o: [q(o)])),
                ('sizes', fa(lambda i: Imp(And(0 <= i, i < n), And(1 <= w(i), w(i) < 1 << 24, 1 <= h(i), h(i) < 1 << 24, wb(i) == w(i) + 2, p(i) >= 0, p(i) + (w(i) + 2) * (h(i) + 2) <= L, (w(i) + 2) * (h(i) + 2) < M)), pats=lambda i: [p(i)])),
                ('same length on both sides', fa(lambda o: Imp(And(0 <= o, o < size), z3.If(V['left_right'] != 0, h(q(o)) == h(q(o) + V['parallel_step']), w(q(o)) == w(q(o) + V['parallel_step']))), pats=lambda o: [q(o)])),
                ('every pixel has a region', fa(lambda i, x: And(0 <= self.reg(i, x), self.reg(i, x) < N), pats=lambda i, x: [self.reg(i, x)])),
                ] + self.state(V, V.pre)

    def call_hook(self, eng, st, name, dem, args, rty):
        d = dem.replace('[abi:ne180100]', '')
        V = eng.V0
        n = lambda i: T(eng.uns(st, args[i]))
        if 'parallel_info' in d and d.startswith('std::__1::vector<') and '>::operator[](unsigned long)' in d:
            eng.oblige(st, 'bounds', 'patch number', And(0 <= n(1), n(1) < eng.vlen(st, self.pin, ())))
            return PtrV([(True, Loc(self.pin, lin_of(n(1)).scale(self.pin.E), ()))]), st
        if d.startswith('basicmath::mt_block_memory<') and '::at(int)' in d:
            (_, l), = args[0].cases
            i, k, rest = eng.decompose(l.r, l.off)
            x = eng.uns(st, args[1])
            return PtrV([(True, Loc(self.R, lin_of(self.reg(i, x)).scale(self.R.E), ()))]), st
        if d.startswith('basicimg::img_fast_mser_v2::connect('):
            a, b = pidx(eng, args[1]), pidx(eng, args[2])
            o, k = self.c(st, 0), self.c(st, 1)
            rep = self.gh2(st, 0)
            u, v = (rep(self.origin(V, st, o, k, t)) for t in (False, True))
            eng.oblige(st, 'order', 'a border is left to join', o < V['size'])
            eng.oblige(st, 'order', 'the regions of the next two pixels that touch are joined', Or(And(a == u, b == v), And(a == v, b == u)))
            last = k + 1 == self.count(V, o)
            st.mem[(self.ev, 0)] = IntV(z3.If(last, o + 1, o), 64, 'S')
            st.mem[(self.ev, 1)] = IntV(z3.If(last, 0, k + 1), 64, 'S')
            for f in ('m_size', 'm_parent', 'm_region_flag'):
                ModArr(self.fld(V, f)).havoc(eng, st)
            for l in self.G.leaves:
                st.mem[(self.G, l.idx)] = eng.fresh(l.name, AS)
            for _, f in self.state(V, st):
                st.assume(f)
            return None, st

    def invs(self, L):
        V, e = L.V, L.eng
        for nm, _ in self.state(V, V.pre):
            yield nm, lambda S, nm=nm: dict(self.state(V, S.st))[nm]
        o, k = lambda S: self.c(S.st, 0), lambda S: self.c(S.st, 1)
        across = 'i~0' in L._names()
        outer, inner, z = ('i~0', 'i~1', '~0') if across else ('i~2', 'i~3', '~1')
        lr = (V['left_right'] != 0) if across else (V['left_right'] == 0)
        yield 'side', lambda S: lr
        i = lambda S: S.v(outer)
        if L.ordinal % 4 == 0:
            yield 'borders', lambda S: And(o(S) == i(S), 0 <= i(S), i(S) <= V['size'], k(S) == 0)
            return
        j = lambda S: S.v(inner)
        n = lambda S: self.count(V, i(S))
        yield 'border to join', lambda S: And(0 <= i(S), i(S) < V['size'], 0 <= j(S))
        for x, b in (('a', False), ('b', True)):
            yield 'pixel of ' + x, lambda S, x=x, b=b: pidx(e, S.ptr(x + '_link_points' + z)) == self.cell(V, i(S), j(S), b)
        if L.ordinal % 4 == 1:
            yield 'pixels', lambda S: And(j(S) <= n(S), z3.If(j(S) < n(S), z3.And(o(S) == i(S), k(S) == j(S)), z3.And(o(S) == i(S) + 1, k(S) == 0)))
            return
        yield 'pixels', lambda S: And(j(S) < n(S), o(S) == i(S), k(S) == j(S))
        x, y = ('a' + z, 'b' + z)
        rep = lambda S: self.gh2(S.st, 0)
        r = lambda S, x: pidx(e, S.ptr(x))
        cur = x if L.ordinal % 4 == 2 else y
        yield 'a region of the store', lambda S: And(0 <= r(S, cur), r(S, cur) < self.N(V))
        yield 'merged into the same', lambda S: rep(S)(r(S, cur)) == rep(S)(self.origin(V, S.st, i(S), j(S), cur == y))

    def measure(self, L):
        V, e = L.V, L.eng
        if L.ordinal % 4 < 2:
            return None
        cur = ('a' if L.ordinal % 4 == 2 else 'b') + ('~0' if 'i~0' in L._names() else '~1')
        r = lambda S: pidx(e, S.ptr(cur))
        return lambda S: z3.If(B(self.merged(V, r(S), S.st)), M - self.gh2(S.st, 1)(r(S)), z3.IntVal(0))

    def ensures(self, V):
        return [('every border is joined to its end', And(self.c(V.post, 0) == V['size'], self.c(V.post, 1) == 0))]


CONTRACTS = [Connect(), Step()] + [Build(d, n) for d, ns in (('v2', (1, 4, 32)), ('v1', (1, 2, 4, 8, 16, 32))) for n in ns]
