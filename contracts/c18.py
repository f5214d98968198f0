"""MSER: patches tile the image, work areas lie side by side."""
from irv.contract import *
from irv.mem import sel
from contracts.c23 import MSER_SRC, SHAPE

ID = 'C18'
DRIVERS = {'v1': ('basicimg', 'basicimg/src/img_fast_mser_v1.cpp'), 'v2': ('basicimg', 'basicimg/src/img_fast_mser_v2.cpp')}
HARNESS = {'sources': MSER_SRC, 'module': 'basicimg', 'cflags': ['-ffunction-sections', '-fdata-sections'], 'libs': ['-Wl,--gc-sections'], 
           'rule': 'images of every size up to 13x20 and random ones up to 700x700 with both extractors for 1 to 32 patches, extractors used again with other sizes: every pixel in exactly one patch, work areas disjoint and inside the blocks (address sanitizer), and flooding one patch leaves the areas of all others as they are; a case is one (version, patches, parameters, image size) not tried before'}
NOTE = 'proved for every image size and every supported number of patches: allocate_memory of both extractors cuts the image into a grid of patches that follow each other without gap or overlap up to the right and bottom edge, and gives every patch areas for cells, heap and sides that follow each other inside blocks of sufficient size, whether the blocks are kept from an earlier image or allocated; one contract per number of patches and per choice of kept blocks. That flooding stays inside the areas follows from C19 (border) and is checked at run time.'
ASSUMPTIONS = ['width and height below 2^24, width times height below 2^28', 'kept blocks are all of this extractor (their sizes are the recorded ones)', 'malloc succeeds and returns a new block; vector<parallel_info>::resize(n) makes n elements, operator[] selects one', 'an image of two dimensions']
BOUNDED = ['make_tree_patch stays inside the areas of its patch: the images of the run-time check']


class Allocate(Contract):
    """new_cells / new_heap: the areas of an earlier image have another size (or there was none)"""
    auto = False
    modifies_all = True

    def __init__(self, driver, threads, new_cells, new_heap):
        self.driver, self.n, self.new_cells, self.new_heap = driver, threads, new_cells, new_heap
        self.nh, self.nv = SHAPE[threads]
        self.name = '%s_allocate_%d%s%s' % (driver, threads, '' if new_cells else '_same_cells', '' if new_heap else '_same_heap')
        self.match = r'basicimg::img_fast_mser_%s::allocate_memory\(' % driver
        v1 = driver == 'v1'
        # member of the extractor, its size member, member of a patch, bits, kind
        self.cells = [('m_linked_points', 'm_linked_point_size', 'm_link_points'), ('m_masked_image', 'm_masked_image_size', 'm_masked_image_data')] if v1 else \
            [('m_points', 'm_point_size', 'm_points'), ('m_extended_image', 'm_extended_image_size', 'm_extended_image')]
        self.sides = v1 and threads > 1

    def prepare(self, s, args):
        eng, st = s.eng, s.st
        I, _ = obj_region(s.by['img'])
        T0, _ = obj_region(s.by['this'])
        self.T0 = T0
        st.mem[(I, I.leaf('m_dims').idx)] = IntV(2, 32, 'S')
        st.mem[(T0, T0.leaf('m_parallel_thread_number').idx)] = IntV(self.n, 32, T0.leaf('m_parallel_thread_number').sign)
        self.pin = s.obj('patches', 'parallel_info', 1)
        v1 = self.driver == 'v1'
        mk = lambda n, f: f(n)
        self.new, self.old = {}, {}
        kinds = [(self.cells[0][0], (lambda n: s.obj(n, 'linked_point', 1)) if v1 else (lambda n: s.basic(n, 32, 'U'))),
                 (self.cells[1][0], lambda n: s.basic(n, 16, 'S') if v1 else s.basic(n, 8, 'U')),
                 ('m_heap', lambda n: s.basic(n, 64, 'U', kind='ptr'))]
        if self.sides:
            kinds.append(('m_boundary_regions', lambda n: s.basic(n, 64, 'U', kind='ptr')))
        for n, f in kinds:
            self.new[n], self.old[n] = f('new_' + n), f('old_' + n)
            fresh = self.new_heap if n == 'm_heap' else self.new_cells
            p = s.ptr(self.old[n]).cases[0][1]
            c = z3.Bool('had_' + n)
            st.mem[(T0, T0.leaf(n).idx)] = PtrV([(c, p), (z3.Not(c), NULL)]) if fresh else PtrV([(True, p)])
        if v1:
            self.orders = s.basic('orders', 32, 'S', rank=2)
            self.orders.typed(4, self.orders.leaves)
            vv = eng.get(st, T0, T0.leaf('m_orderd_indexes').idx)
            vv.data.leaves[0].target = self.orders
        self.asked = {}

    def invs(self, L):
        for i in L._names():
            if i.partition('~')[0] == 'i':
                yield 'counter', lambda S: S.v(i) >= 0

    def area(self, n):
        fresh = self.new_heap if n == 'm_heap' else self.new_cells
        return (self.new if fresh else self.old)[n]

    def wh(self, V):
        I, _ = obj_region(V.arg('img'))
        l = [l for l in I.leaves if l.name == 'm_fixed_size_steps'][0]
        a = Arr(V.eng, I, (), 0, l)
        return T(a.at(V.pre, 1)), T(a.at(V.pre, 0))

    def total(self, V, n):
        """elements of an area"""
        W, H = self.wh(V)
        a, c = (W / self.nh, H / self.nv) if self.nh > 1 else (T(0), T(0))
        if n == 'm_heap':
            return W * H + 257 * self.n
        if n == 'm_boundary_regions':
            return H * 2 * (self.nh - 1) + W * 2 * (self.nv - 1)
        return W * H + 2 * self.nv * W + 2 * self.nh * H + 4 * self.n

    def call_hook(self, eng, st, name, dem, args, rty):
        d = dem.replace('[abi:ne180100]', '')
        if 'parallel_info' in d and d.startswith('std::__1::vector<'):
            if '>::resize(unsigned long)' in d:
                self.asked['patches'] = eng.uns(st, args[1])
                eng.set_vlen(st, self.pin, (), T(self.asked['patches']))
                return None, st
            if '>::operator[](unsigned long)' in d:
                i = eng.uns(st, args[1])
                eng.oblige(st, 'bounds', 'patch number', And(0 <= T(i), T(i) < T(self.asked['patches'])))
                return PtrV([(True, Loc(self.pin, lin_of(T(i)).scale(self.pin.E), ()))]), st
        if name == 'malloc':
            b = eng.uns(st, args[0])
            V = eng.V0
            for n, r in self.new.items():
                if eng.qp(st, T(b) == r.E * self.total(V, n)) and n not in self.asked and r is self.area(n):
                    self.asked[n] = b
                    eng.set_vlen(st, r, (), lin_of(T(b)).div(r.E).term() if lin_of(T(b)).divisible(r.E) else self.total(V, n))
                    return PtrV([(True, Loc(r, Lin(0), ()))]), st
            W, H = self.wh(V)
            for k in (W, H):
                if self.driver == 'v1' and eng.qp(st, T(b) == 4 * k):
                    i = eng.fresh('order')
                    eng.set_vlen(st, self.orders, (i,), k)
                    return PtrV([(True, Loc(self.orders, Lin(0), (i,)))]), st

    def requires(self, V):
        e = V.eng
        W, H = self.wh(V)
        f = lambda n: V.field('this', n)
        out = [('image', And(1 <= W, W < 1 << 24, 1 <= H, H < 1 << 24, W * H < 1 << 28))]
        for n, size, _ in self.cells + [('m_heap', 'm_heap_size', '')] + ([('m_boundary_regions', 'm_boundary_region_size', '')] if self.sides else []):
            fresh = self.new_heap if n == 'm_heap' else self.new_cells
            out.append(('%s is %s' % (n, 'to be allocated' if fresh else 'there'), f(size) != self.total(V, n) if fresh else And(f(size) == self.total(V, n), e.vlen(V.pre, self.old[n], ()) >= self.total(V, n))))
        return out

    def prelemmas(self, V):
        W, H = self.wh(V)
        a, c = W / self.nh, H / self.nv
        x, y = z3.Ints('x y')
        nn = Pure(z3.Implies(z3.And(x >= 0, y >= 0), x * y >= 0))
        return [('products of sizes', [nn.at((x, p), (y, q)), And(p >= 0, q >= 0)], p * q >= 0) for p in (a, W - (self.nh - 1) * a) for q in (c, H - (self.nv - 1) * c)]

    def cell(self, V, n, i, *more):
        return sel(V.eng.get(V.post, self.pin, self.pin.leaf(n).idx), [T(i)] + [T(m) for m in more])

    def ensures(self, V):
        W, H = self.wh(V)
        f = lambda n: lambda i: self.cell(V, n, i)
        left, top, w, h = f('m_left'), f('m_top'), f('m_width'), f('m_height')
        nh, nv, N = self.nh, self.nv, self.n
        at = lambda v, u: v * nh + u
        out = [('as many patches as threads', T(self.asked['patches']) == N)]
        for v in range(nv):
            for u in range(nh):
                i = at(v, u)
                out.append(('patch %d' % i, And(left(i) == (left(i - 1) + w(i - 1) if u else 0), top(i) == (top(i - nh) + h(i - nh) if v else 0), w(i) >= 0, h(i) >= 0, top(i) == top(at(v, 0)), left(i) == left(at(0, u)),
                                                w(i) == w(at(0, u)), h(i) == h(at(v, 0)), left(i) + w(i) == W if u == nh - 1 else True, top(i) + h(i) == H if v == nv - 1 else True)))
                out.append(('border of patch %d' % i, And(f('m_width_with_boundary')(i) == w(i) + 2, f('m_height_with_boundary')(i) == h(i) + 2)))
        for n, size, m in self.cells + [('m_heap', 'm_heap_size', 'm_heap')]:
            r = self.area(n)
            k = (lambda i: w(i) * h(i) + 257) if n == 'm_heap' else (lambda i: (w(i) + 2) * (h(i) + 2))
            o = f(m)
            L = V.eng.vlen(V.post, r, ())
            out.append(('%s begins' % n, o(0) >= 0))
            for i in range(N):
                out.append(('area %s of patch %d' % (n, i), o(i) + k(i) <= (o(i + 1) if i < N - 1 else L)))
            out.append(('size of %s' % n, And(V.field('this', size, V.post) <= L, V.field('this', size, V.post) == self.total(V, n))))
        for i in range(N):
            out.append(('heap of patch %d starts' % i, self.cell(V, 'm_heap_start', i, 0) == f('m_heap')(i)))
        if self.sides:
            prev = T(0)
            for v in range(nv):
                for u in range(nh):
                    i = at(v, u)
                    for k, there, n in ((0, u > 0, h(i)), (1, u < nh - 1, h(i)), (2, v > 0, w(i)), (3, v < nv - 1, w(i))):
                        o = self.cell(V, 'm_boundary_regions', i, k)
                        out.append(('side %d of patch %d' % (k, i), o >= prev if there else o == -1))
                        if there:
                            prev = o + n
            out.append(('sides end', prev <= V.eng.vlen(V.post, self.area('m_boundary_regions'), ())))
        return out


CONTRACTS = [Allocate(d, n, a, b) for d, ns in (('v2', (1, 4, 32)), ('v1', (1, 2, 4, 8, 16, 32))) for n in ns for a in (True, False) for b in (True, False)]
