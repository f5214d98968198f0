"""MSER: preparing a patch for flooding.

Ghost functions describe the cells of a patch of w x h pixels with its border, numbered row by row (W = w + 2 cells each):
  row(k), col(k)   row and column of cell k            io(r)    offset of image row r (r * row step)
  C(k)[g]          inner cells below k of gray g       D(k)[g]  inner cells below k with a gray below g
They are given by their recursions, which have exactly one solution (at(k) marks the cells whose recursion is used)."""
from irv.contract import *
from contracts.c20 import pidx
from contracts.c23 import MSER_SRC

ID = 'C19'
DRIVERS = {'v1': ('basicimg', 'basicimg/src/img_fast_mser_v1.cpp'), 'v2': ('basicimg', 'basicimg/src/img_fast_mser_v2.cpp')}
HARNESS = {'sources': MSER_SRC, 'module': 'basicimg', 'cflags': ['-ffunction-sections', '-fdata-sections'], 'libs': ['-Wl,--gc-sections'], 
           'rule': 'every patch of images of eight kinds (up to 300x300) prepared by both extractors for 1 to 32 patches, both polarities in the order the extractor uses them, views and extractors used again: border and inside of the cells, gray values, number of pixels per level and start of every slice of the heap against a direct count; a case is one (version, patches, parameters, image) not tried before'}
NOTE = 'proved for every size of patch and image: process_tree_patch of both extractors marks the border and frees the inside, counts the pixels of every gray level, and gives every level a slice of the heap with a marker in front, one after the other inside the heap; for both polarities and for a second polarity that starts from the work of the first. Ghost functions (row, column, counts up to a cell) are given by their recursions.'
ASSUMPTIONS = ['no mask image is given (no image mask path in the contract)', 'the patch lies in the image and its work areas are as large as C18 says', 'pixels are bytes; mt_mat::element_channel_size() of an 8-bit image is 1', 'an image of two dimensions whose elements lie side by side, at most 2^30 cells', 'for a second polarity: the flooding in between restored the cells of the inside and kept the counts (checked at run time)']
IS = z3.IntSort()
AS = z3.ArraySort(IS, IS)
AAS = z3.ArraySort(IS, AS)


class Patch(Contract):
    driver = 'v2'
    match = r'basicimg::img_fast_mser_v2::process_tree_patch'
    auto = r'^frame '
    cvc5_first = True
    inv_timeout = 4000

    def __init__(self, mask, second):
        self.mask, self.second = mask, second
        self.name = 'v2_process_%d%s' % (mask, '_second' if second else '')

    def arg_gray_mask(self, s):
        return IntV(self.mask, 8, 'U')

    def prepare(self, s, args):
        eng, st = s.eng, s.st
        P, _ = obj_region(s.by['pinfo'])
        I, _ = obj_region(s.by['img'])
        M, _ = obj_region(s.by['mask'])
        T0, _ = obj_region(s.by['this'])
        self.P = P
        self.pts, self.ext, self.pix = s.basic('points', 32, 'U'), s.basic('extended_image', 8, 'U'), s.basic('pixels', 8, 'U')
        self.heap = s.basic('heap', 64, 'U', kind='ptr')
        self.heap.leaves[0].target = self.pts
        at = lambda r, b: PtrV([(True, Loc(r, lin_of(b).scale(r.E), ()))])
        self.bp, self.be, self.bh, self.bi = (eng.fresh(n) for n in ('base_points', 'base_ext', 'base_heap', 'base_img'))
        st.mem[(P, P.leaf('m_points').idx)] = at(self.pts, self.bp)
        st.mem[(P, P.leaf('m_extended_image').idx)] = at(self.ext, self.be)
        st.mem[(P, P.leaf('m_heap').idx)] = at(self.heap, self.bh)
        P.leaf('m_heap_start').target = self.heap
        st.mem[(I, I.leaf('m_data').idx)] = at(self.pix, self.bi)
        st.mem[(I, I.leaf('m_dims').idx)] = IntV(2, 32, 'S')
        st.mem[(M, M.leaf('m_mask_type').idx)] = IntV(0, 32, 'S')
        fm = [l for l in T0.leaves if l.name.startswith('m_from_min_max')][0]
        self.fm = fm

    def my_ghosts(self, eng, st, V):
        g = {x: z3.Const(x, AS) for x in ('row', 'col', 'at', 'io', 'ic')}
        g.update({x: z3.Const(x, AAS) for x in 'CD'})
        g['N'] = z3.Int('cells')
        g['n'] = z3.Int('inner_cells')
        return g

    # ---- readings
    def dims(self, V):
        f = lambda n: V.field('pinfo', n)
        return f('m_width'), f('m_height'), f('m_top'), f('m_left')

    def gh(self, V, n):
        return lambda k: z3.Select(V[n], T(k))

    def arr(self, V, r):
        return Arr(V.eng, r, (), 0)

    def ls(self, V, st):
        l = self.P.leaf('m_level_size')
        return lambda g: Arr(V.eng, self.P, (), 0, l).at(st, g)

    def hs(self, V, st):
        l = self.P.leaf('m_heap_start')
        return lambda i: Arr(V.eng, self.P, (), 0, l).at(st, i)

    def inner(self, V, k):
        w, h, _, _ = self.dims(V)
        r, c = self.gh(V, 'row')(k), self.gh(V, 'col')(k)
        return And(1 <= r, r <= h, 1 <= c, c <= w)

    def pixel(self, V, k):
        """the pixel of the image an inner cell stands for"""
        r, c = self.gh(V, 'row')(k), self.gh(V, 'col')(k)
        return self.arr(V, self.pix).at(V.pre, self.origin(V) + self.gh(V, 'io')(r - 1) + c - 1)

    def origin(self, V):
        _, _, top, left = self.dims(V)
        steps = self.steps(V)
        return self.bi + top * steps(0) + left

    def steps(self, V):
        l = [l for l in obj_region(V.arg('img'))[0].leaves if l.name == 'm_fixed_size_steps'][0]
        a = Arr(V.eng, obj_region(V.arg('img'))[0], (), 0, l)
        return lambda i: a.at(V.pre, 2 + i)

    def gray(self, V, k):
        return self.pixel(V, k) if self.mask == 0 else 255 - self.pixel(V, k)

    def border(self, V):
        return V.field('this', 'm_boundary_pixel')

    def step(self, V, k):
        """the recursions at cell k"""
        w, h, _, _ = self.dims(V)
        row, col, ic, io, C, D = (self.gh(V, x) for x in ('row', 'col', 'ic', 'io', 'C', 'D'))
        inn = B(self.inner(V, k))
        g = self.gray(V, k)
        return And(z3.If(col(k) == w + 1, z3.And(row(k + 1) == row(k) + 1, col(k + 1) == 0), z3.And(row(k + 1) == row(k), col(k + 1) == col(k) + 1)),
                   0 <= self.pixel(V, k), self.pixel(V, k) <= 255,      # a byte
                   ic(k + 1) == ic(k) + z3.If(inn, 1, 0),
                   io(row(k)) == io(row(k) - 1) + self.steps(V)(0),
                   C(k + 1) == z3.If(inn, z3.Store(C(k), g, z3.Select(C(k), g) + 1), C(k)),
                   fa(lambda j: z3.Select(D(k + 1), j) == z3.Select(D(k), j) + z3.If(z3.And(inn, g < j), 1, 0), pats=lambda j: [z3.Select(D(k + 1), j)]))

    def cell_facts(self, V):
        w, h, top, left = self.dims(V)
        row, col, io, ic, C, D, at = (self.gh(V, x) for x in ('row', 'col', 'io', 'ic', 'C', 'D', 'at'))
        pat = lambda k: [at(k)]
        n = self.arr(V, self.pix).len(V.pre)
        o = self.origin(V)
        return [('cells: first', And(row(0) == 0, col(0) == 0, ic(0) == 0, io(0) == 0)),
                ('cells: second row', And(row(w + 3) == 1, col(w + 3) == 1, w + 3 < V['N'], fa(lambda k: Imp(And(0 <= k, k < w + 3), Or(row(k) == 0, col(k) == 0)), pats=lambda k: [row(k)]))),
                ('cells: none counted', fa(lambda g: And(z3.Select(C(0), g) == 0, z3.Select(D(0), g) == 0))),
                ('cells: marker', fa(lambda k: at(k) == 1, pats=pat)),
                ('cells: next', fa(lambda k: Imp(k >= 0, self.step(V, k)), pats=pat)),
                ('cells: end', And(V['N'] >= 0, fa(lambda k: Imp(k >= 0, Iff(k < V['N'], row(k) < h + 2)), pats=pat))),
                ('cells: inner ones', And(ic(V['N']) <= V['n'], V['n'] >= 1, V['n'] < 1 << 30, V['N'] < 1 << 30, fa(lambda k: Imp(k >= 0, And(0 <= ic(k), ic(k) <= V['n'])), pats=pat))),
                ('the patch lies in the image', fa(lambda r: Imp(And(0 <= r, r < h), And(o + io(r) >= 0, o + io(r) + w <= n)), pats=lambda r: [io(r)]))]

    def call_hook(self, eng, st, name, dem, args, rty):
        if dem == 'basicmath::mt_mat::element_channel_size() const':
            return IntV(1, 32, 'S'), st

    def requires(self, V):
        e = V.eng
        w, h, top, left = self.dims(V)
        s = self.steps(V)
        fm = Arr(e, obj_region(V.arg('this'))[0], (), 0, self.fm)
        out = [('patch', small(w, h)), ('place', And(0 <= top, top < LIM, 0 <= left, left < LIM)),
               ('with border', And(V.field('pinfo', 'm_width_with_boundary') == w + 2, V.field('pinfo', 'm_height_with_boundary') == h + 2)),
               ('rows of the image', And(s(0) >= w, s(0) < LIM, s(1) == 1, 0 <= top * s(0), top * s(0) < 1 << 30)),
               ('polarities', fm.at(V.pre, 0) == (1 if self.second or self.mask == 0 else 0)),
               ('areas', And([And(b >= 0, b + k <= self.arr(V, r).len(V.pre)) for b, r, k in self.areas(V)])),
               ('slices start at the heap', self.hs(V, V.pre)(0) == self.bh)]
        out += self.cell_facts(V)
        if self.second:
            out += self.counted(V, V.pre, V['N']) + self.sums(V, V['N'])
            row, at = self.gh(V, 'row'), self.gh(V, 'at')
            out.append(('cells: rows in order', fa(lambda j, k: Imp(And(0 <= j, j <= k), row(j) <= row(k)), pats=lambda j, k: [(at(j), row(k))])))
            out.append(('border marked', self.border_kept(V, V.pre)))
        return out

    def areas(self, V):
        return [(self.bp, self.pts, V['N']), (self.be, self.ext, V['N']), (self.bh, self.heap, V['n'] + 257)]

    def border_kept(self, V, st):
        pts = self.arr(V, self.pts)
        return fa(lambda k: Imp(And(0 <= k, k < V['N'], Not(self.inner(V, k))), pts.at(st, self.bp + k) == self.border(V)), pats=lambda k: [self.gh(V, 'row')(k)])

    def cell_is(self, V, st, k):
        w, h, _, _ = self.dims(V)
        return self.arr(V, self.pts).at(st, self.bp + k) == z3.If(B(self.inner(V, k)), 0, self.border(V))

    def img_is(self, V, st, k):
        return Imp(self.inner(V, k), self.arr(V, self.ext).at(st, self.be + k) == self.pixel(V, k))

    def counted(self, V, st, p):
        ls, C = self.ls(V, st), self.gh(V, 'C')
        return [('pixels per gray level', fa(lambda g: Imp(And(0 <= g, g < 257), ls(g) == z3.Select(C(p), g)), pats=lambda g: [ls(g), z3.Select(C(p), g)]))]

    def sums(self, V, p):
        """about the numbers of pixels among the first p cells"""
        C, D, ic = (self.gh(V, x) for x in ('C', 'D', 'ic'))
        c, d = (lambda g: z3.Select(C(p), g)), (lambda g: z3.Select(D(p), g))
        pat = lambda g: [c(g)]
        return [('counts', fa(lambda g: Imp(And(0 <= g, g < 257), And(0 <= c(g), c(g) <= ic(p))), pats=pat)),
                ('no level 256', c(256) == 0), ('below the first level', d(0) == 0), ('all levels', d(256) == ic(p)),
                ('sums of counts', fa(lambda g: Imp(And(0 <= g, g < 256), d(g + 1) == d(g) + c(g)), pats=pat)),
                ('partial sums', fa(lambda g: Imp(And(0 <= g, g < 257), And(0 <= d(g), d(g) <= ic(p))), pats=lambda g: [d(g)]))]

    def slices(self, V, st, upto):
        ls, hs, hp = self.ls(V, st), self.hs(V, st), self.arr(V, self.heap)
        return [('slices follow each other', fa(lambda i: Imp(And(1 <= i, i < upto), hs(i) == hs(i - 1) + ls(i - 1) + 1), pats=lambda i: [hs(i)])),
                ('slices are marked empty', fa(lambda i: Imp(And(0 <= i, i < upto), hp.at(st, hs(i)) == -1), pats=lambda i: [hs(i)]))]

    def ensures(self, V):
        N = V['N']
        st = V.post
        ls, hs = self.ls(V, st), self.hs(V, st)
        out = [('the border is marked and the inside free', fa(lambda k: Imp(And(0 <= k, k < N), self.cell_is(V, st, k)))),
               ('the first slice starts at the heap', hs(0) == self.bh),
               ('slices lie in the heap', And(hs(256) + ls(256) + 1 <= self.bh + V['n'] + 257))]
        out += self.slices(V, st, 257)
        if self.second:
            c0 = self.ls(V, V.pre)
            out.append(('pixels per mirrored gray level', And(ls(256) == 0, fa(lambda g: Imp(And(0 <= g, g < 256), ls(g) == c0(255 - g))))))
        else:
            self.driver == 'v2' and out.append(('the image is copied', fa(lambda k: Imp(And(0 <= k, k < N), self.img_is(V, st, k)))))
            out += self.counted(V, st, N) + self.sums(V, N)
        return out

    def kinds(self, L):
        """loops in textual order"""
        return ['first row', 'rows', 'inner', 'last row', 'rows again', 'inner again', 'swap', 'heap'][L.nth]

    def places(self, V, P, E, I):
        """where the running pointers stand: P cell, E cell of the image copy, I pixel"""
        w, h, _, _ = self.dims(V)
        W = w + 2
        row, col, io = (self.gh(V, x) for x in ('row', 'col', 'io'))
        o = self.origin(V)
        d = {}
        d['first row'] = lambda S: And(0 <= S.v('col'), S.v('col') <= W, P(S) == S.v('col'), z3.If(S.v('col') < W, z3.And(row(P(S)) == 0, col(P(S)) == S.v('col')), z3.And(row(P(S)) == 1, col(P(S)) == 0)))
        d['rows'] = lambda S: And(0 <= S.v('row'), S.v('row') <= h, row(P(S)) == S.v('row') + 1, col(P(S)) == 0, E(S) == P(S) + 1, I(S) == o + io(S.v('row')))
        d['inner'] = lambda S: And(0 <= S.v('row'), S.v('row') < h, 0 <= S.v('col'), S.v('col') <= w, row(P(S)) == S.v('row') + 1, col(P(S)) == S.v('col') + 1, E(S) == P(S), I(S) == o + io(S.v('row')) + S.v('col'))
        d['last row'] = lambda S: And(0 <= S.v('col'), S.v('col') <= W, z3.If(S.v('col') < W, z3.And(row(P(S)) == h + 1, col(P(S)) == S.v('col')), z3.And(row(P(S)) == h + 2, col(P(S)) == 0)))
        d['rows again'] = lambda S: And(0 <= S.v('row'), S.v('row') <= h, row(P(S)) == S.v('row') + 1, col(P(S)) == 1)
        d['inner again'] = lambda S: And(0 <= S.v('row'), S.v('row') < h, 0 <= S.v('col'), S.v('col') <= w, row(P(S)) == S.v('row') + 1, col(P(S)) == S.v('col') + 1)
        return d

    def invs(self, L):
        V = L.V
        row, col, ic, C, D, at = (self.gh(V, x) for x in ('row', 'col', 'ic', 'C', 'D', 'at'))
        N = V['N']
        v2 = self.driver == 'v2'
        P = lambda S: S.pi('points' if v2 else 'masked_image_data') - self.bp
        I = lambda S: S.pi('img_data')
        where = self.places(V, P, lambda S: S.pi('extended_image_data') - self.be, I) if v2 else self.places(V, P, I)
        n = self.kinds(L)
        pr = lambda k: [row(k)]
        if n in where:
            yield 'marker', lambda S: And([at(P(S) + i) == 1 for i in range(3)])
            yield 'place', lambda S: where[n](S)
            yield 'range', lambda S: And(0 <= P(S), P(S) <= N)
        if n in ('rows again', 'inner again'):
            yield 'border stays', lambda S: self.border_kept(V, S.st)
            yield 'cells before are free', lambda S: fa(lambda k: Imp(And(0 <= k, k < P(S), self.inner(V, k)), self.cell_is(V, S.st, k)), pats=pr)
            yield 'cells from here are as before', lambda S: fa(lambda k: Imp(And(P(S) <= k, k < N, self.inner(V, k)), self.arr(V, self.pts).at(S.st, self.bp + k) == self.arr(V, self.pts).at(V.pre, self.bp + k)), pats=pr)
        elif n in where:
            yield 'cells before are set', lambda S: fa(lambda k: Imp(And(0 <= k, k < P(S)), self.cell_is(V, S.st, k)), pats=pr)
            if v2:
                yield 'pixels before are copied', lambda S: fa(lambda k: Imp(And(0 <= k, k < P(S)), self.img_is(V, S.st, k)), pats=pr)
            yield 'pixels per gray level', lambda S: self.counted(V, S.st, P(S))[0][1]
            for i in range(6):
                yield 'sums %d' % i, lambda S, i=i: self.sums(V, P(S))[i][1]
        iv = [x for x in L._names() if x.partition('~')[0] == 'i']
        if n == 'swap':
            l0 = self.ls(V, V.pre)
            for i in iv:
                yield 'levels before %s are exchanged' % i, lambda S, i=i: And(0 <= S.v(i), S.v(i) <= 128, fa(lambda g: Imp(And(0 <= g, g < 257), self.ls(V, S.st)(g) == z3.If(z3.And(g <= 255, z3.Or(g < S.v(i), g > 255 - S.v(i))), l0(255 - g), l0(g)))))
        elif n == 'heap':
            hs = lambda S: self.hs(V, S.st)
            sl = lambda g: z3.Select(D(N), g) if not self.second else ic(N) - z3.Select(D(N), 256 - g)
            for i in iv:
                yield 'counter %s' % i, lambda S, i=i: And(1 <= S.v(i), S.v(i) <= 257, hs(S)(0) == self.bh)
                yield 'slices up to %s' % i, lambda S, i=i: fa(lambda j: Imp(And(0 <= j, j < S.v(i)), hs(S)(j) == self.bh + sl(j) + j), pats=lambda j: [hs(S)(j)])
                for m in range(2):
                    yield 'slices %d up to %s' % (m, i), lambda S, m=m, i=i: self.slices(V, S.st, S.v(i))[m][1]

    def modifies(self, V):
        N = V['N']
        return [ModArr(self.arr(V, r), b, b + n) for b, r, n in self.areas(V)] + [ModField(V.arg('pinfo'), 'm_level_size'), ModArr(Arr(V.eng, self.P, (), 0, self.P.leaf('m_heap_start')), 1, 257)]


class PatchV1(Patch):
    """one 16-bit cell per pixel: gray, a flag on the sides that touch another patch, -1 around"""
    driver = 'v1'
    match = r'basicimg::img_fast_mser_v1::process_tree_patch'
    FLAG = 0x4000
    inv_timeout = 12000

    def __init__(self, mask, second, shape=None):
        super().__init__(mask, second)
        self.shape = shape
        self.name = self.name.replace('v2', 'v1') + ('_%s_%s' % shape if shape else '')

    def requires(self, V):
        out = super().requires(V)
        if self.shape:      # the four shapes together are all of them
            w, h, _, _ = self.dims(V)
            out.insert(1, ('shape', And(w == 1 if self.shape[0] == 'column' else w > 1, h == 1 if self.shape[1] == 'row' else h > 1)))
        return out

    def prepare(self, s, args):
        eng, st = s.eng, s.st
        P, _ = obj_region(s.by['pinfo'])
        I, _ = obj_region(s.by['img'])
        M, _ = obj_region(s.by['mask'])
        T0, _ = obj_region(s.by['this'])
        self.P = P
        self.pts, self.pix = s.basic('masked_image', 16, 'S'), s.basic('pixels', 8, 'U')
        self.heap = s.basic('heap', 64, 'U', kind='ptr')
        self.heap.leaves[0].target = self.pts
        side = s.basic('sides', 64, 'U', kind='ptr')
        at = lambda r, b: PtrV([(True, Loc(r, lin_of(b).scale(r.E), ()))])
        self.bp, self.bh, self.bi = (eng.fresh(n) for n in ('base_cells', 'base_heap', 'base_img'))
        st.mem[(P, P.leaf('m_masked_image_data').idx)] = at(self.pts, self.bp)
        st.mem[(P, P.leaf('m_heap').idx)] = at(self.heap, self.bh)
        P.leaf('m_heap_start').target = self.heap
        P.leaf('m_boundary_regions').target = side
        st.mem[(I, I.leaf('m_data').idx)] = at(self.pix, self.bi)
        st.mem[(I, I.leaf('m_dims').idx)] = IntV(2, 32, 'S')
        st.mem[(M, M.leaf('m_mask_type').idx)] = IntV(0, 32, 'S')
        self.fm = [l for l in T0.leaves if l.name.startswith('m_from_min_max')][0]

    def call_hook(self, eng, st, name, dem, args, rty):
        if dem.startswith('basicsys::sys_timer::'):
            return None, st
        return super().call_hook(eng, st, name, dem, args, rty)

    def areas(self, V):
        return [(self.bp, self.pts, V['N']), (self.bh, self.heap, V['n'] + 257)]

    def flag(self, V, k):
        """the pixel lies at a side of the patch that touches another patch"""
        w, h, _, _ = self.dims(V)
        r, c = self.gh(V, 'row')(k), self.gh(V, 'col')(k)
        b = lambda i: Arr(V.eng, self.P, (), 0, self.P.leaf('m_boundary_regions')).at(V.pre, i) >= 0
        return Or(And(c == 1, b(0)), And(c == w, b(1)), And(r == 1, b(2)), And(r == h, b(3)))

    def cell_is(self, V, st, k):
        f = z3.If(B(self.flag(V, k)), self.FLAG, 0)
        v = self.arr(V, self.pts).at(st, self.bp + k)
        if self.second:
            x = self.arr(V, self.pts).at(V.pre, self.bp + k)
            return v == z3.If(B(self.inner(V, k)), 255 - x % 256 + f, -1)
        return v == z3.If(B(self.inner(V, k)), self.gray(V, k) + f, -1)

    def border_kept(self, V, st):
        pts = self.arr(V, self.pts)
        f = lambda k: z3.If(B(self.flag(V, k)), 1, 0)
        x = lambda k: pts.at(st, self.bp + k)
        b = fa(lambda k: Imp(And(0 <= k, k < V['N'], Not(self.inner(V, k))), x(k) == -1), pats=lambda k: [self.gh(V, 'row')(k)])
        if st is not V.pre:
            return b
        return And(b, fa(lambda k: Imp(And(0 <= k, k < V['N'], self.inner(V, k)), And(x(k) >= 0, x(k) / self.FLAG % 2 == f(k))), pats=lambda k: [self.gh(V, 'row')(k)]))

    def img_is(self, V, st, k):
        return True

    def kinds(self, L):
        """loops in textual order"""
        return ['first row', 'top', 'rows', 'inner', 'bottom', 'top', 'rows', 'inner', 'bottom', 'last row', 'rows again', 'inner again', 'swap', 'heap'][L.nth]

    def places(self, V, P, I):
        w, h, _, _ = self.dims(V)
        W = w + 2
        row, col, io = (self.gh(V, x) for x in ('row', 'col', 'io'))
        o = self.origin(V)
        mx = lambda x: z3.If(x > 1, x, 1)
        d = super().places(V, P, None, I)
        d['top'] = lambda S: And(1 <= S.v('col'), S.v('col') <= mx(w - 1), row(P(S)) == 1, col(P(S)) == S.v('col') + 1, I(S) == o + S.v('col'))
        d['rows'] = lambda S: And(1 <= S.v('row'), S.v('row') <= mx(h - 1), row(P(S)) == S.v('row') + 1, col(P(S)) == 0, I(S) == o + io(S.v('row')))
        d['inner'] = lambda S: And(1 <= S.v('row'), S.v('row') < h - 1, 1 <= S.v('col'), S.v('col') <= mx(w - 1), row(P(S)) == S.v('row') + 1, col(P(S)) == S.v('col') + 1, I(S) == o + io(S.v('row')) + S.v('col'))
        d['bottom'] = lambda S: And(1 < h, 1 <= S.v('col'), S.v('col') <= mx(w - 1), row(P(S)) == h, col(P(S)) == S.v('col') + 1, I(S) == o + io(h - 1) + S.v('col'))
        return d


LIM = 1 << 24


def small(*x):
    return And([And(1 <= a, a < LIM) for a in x])


CONTRACTS = [Patch(m, s) for m, s in ((0, False), (255, False), (255, True))] + [PatchV1(255, True)]
CONTRACTS += [PatchV1(m, False, (a, b)) for m in (0, 255) for a in ('wide', 'column') for b in ('tall', 'row')]
