"""MSER: merging components."""
from irv.contract import *

ID = 'C20'
DRIVERS = {'v1': ('basicimg', 'basicimg/src/img_fast_mser_v1.cpp'), 'v2': ('basicimg', 'basicimg/src/img_fast_mser_v2.cpp')}

from contracts.c23 import MSER_SRC
HARNESS = {'sources': MSER_SRC, 'module': 'basicimg', 'cflags': ['-ffunction-sections', '-fdata-sections'], 'libs': ['-Wl,--gc-sections'],
           'rule': 'every patch of images of eight kinds (up to 300x300) flooded by both extractors for 1 to 32 patches, both polarities and neighbourhoods, extractors used again: the regions of the patch with their size, gray level, parent, pixel list and border registration against the component tree of the patch; merge_comp on random pixel lists; a case is one (version, patches, parameters, image) not tried before'}
NOTE = 'proved: v1 merge_comp joins the doubly linked pixel lists of two components (ghost sequences), adds the sizes, joins the bounding boxes and links the regions; v1/v2 init_comp and new_region set up a region. The flooding loop that uses them (make_tree_patch) is only checked at run time.'
ASSUMPTIONS = ['the two components of merge_comp and their regions are distinct objects', 'the pixel lists of two components have no pixel in common']
BOUNDED = ['make_tree_patch of both extractors: the images of the run-time check']


class Pool(Contract):
    """comp->m_region and region->m_parent point into one store of regions"""

    def pool(self, s):
        r = s.obj('regions', 'mser_region', 1)
        r.leaf('m_parent').target = r
        self.R = r
        return r

    def arg_region(self, s):
        r = self.pool(s)
        i = s.eng.fresh('region')
        return PtrV([(True, Loc(r, lin_of(i).scale(r.E), ()))])

    def comp(self, s, p, i=None):
        r, _ = obj_region(p)
        lf = r.leaf('m_region')
        lf.target = self.R
        i = i if i is not None else s.eng.fresh('comp_region')
        s.st.mem[(r, lf.idx)] = PtrV([(True, Loc(self.R, lin_of(i).scale(self.R.E), ()))])
        return i


def pidx(eng, v):
    """index of a pointer into a store, -1 for null"""
    r = None
    for c, t in reversed(v.cases):
        x = T(-1) if t is NULL else T(eng.decompose(t.r, t.off)[0])
        r = x if r is None else z3.If(B(c), x, r)
    return r


def cptr(V, comp, st):
    return pidx(V.eng, V.fptr(comp, 'm_region', st))


class Cptr:
    def __init__(self, p, path, R):
        self.p, self.path, self.R = p, path, R

    def keys(self, eng):
        r, t = obj_region(self.p)
        yield (r, r.leaf(self.path).idx), None

    def havoc(self, eng, st):
        r, t = obj_region(self.p)
        st.mem[(r, r.leaf(self.path).idx)] = PtrV([(True, Loc(self.R, lin_of(eng.fresh('reg')).scale(self.R.E), ()))])


class NewRegion(Pool):
    def __init__(self, driver, init):
        self.driver = driver
        self.init = init
        self.name = '%s_%s' % (driver, 'init_comp' if init else 'new_region')
        self.match = r'basicimg::img_fast_mser_%s::%s' % (driver, 'init_comp' if init else 'new_region')

    def prepare(self, s, args):
        self.comp(s, s.by['comptr'])

    def idx(self, V):
        return pidx(V.eng, V.arg('region'))

    def requires(self, V):
        A = V.A('region')
        return [('the region lies in the store', And(0 <= self.idx(V), self.idx(V) < V.eng.vlen(V.pre, self.R, ()))),
                ('gray level', And(0 <= V.field('comptr', 'm_gray_level'), V.field('comptr', 'm_gray_level') <= 255))]

    def ensures(self, V):
        A = V.A('region')
        f = lambda n: V.field('region', n, V.post)
        out = [('gray level of the component', f('m_gray_level') == V.field('comptr', 'm_gray_level')),
               ('undecided', f('m_region_flag') == 0), ('empty', f('m_size') == 0), ('no parent', pidx(V.eng, V.fptr('region', 'm_parent', V.post)) == -1),
               ('no variation yet', f('m_calculated_var') == 0), ('patch', f('m_patch_index') == V['patch_index']),
               ('the component uses the region', cptr(V, 'comptr', V.post) == self.idx(V))]
        if self.driver == 'v1':
            out.append(('nothing merged', f('m_unmerged_size') == 0))
            if self.init:
                out.append(('no boundary pixel', f('m_boundary_region') == 0))
        else:
            out.append(('no memory assigned', f('m_assigned_pointer') == 0))
        if self.init:
            out.append(('the component is empty', V.field('comptr', 'm_size', V.post) == 0))
        return out

    def modifies(self, V):
        p = V.arg('region')
        fs = ['m_gray_level', 'm_region_flag', 'm_size', 'm_parent', 'm_calculated_var', 'm_patch_index']
        fs += ['m_unmerged_size', 'm_var'] if self.driver == 'v1' else ['m_assigned_pointer']
        if self.driver == 'v1' and self.init:
            fs.append('m_boundary_region')
        out = [ModField(p, f) for f in fs] + [Cptr(V.arg('comptr'), 'm_region', self.R)]
        if self.init:
            out.append(ModField(V.arg('comptr'), 'm_size'))
        return out



class MergeComp(Pool):
    """the pixel lists of both components joined: ghost sequences a and b name the pixels of the two lists"""
    name = 'v1_merge_comp'
    match = r'basicimg::img_fast_mser_v1::merge_comp'
    driver = 'v1'

    def prepare(self, s, args):
        self.pool(s)
        eng, st = s.eng, s.st
        self.i1 = self.comp(s, s.by['comp1'])
        self.i2 = self.comp(s, s.by['comp2'])
        r, _ = obj_region(s.by['this'])
        self.pts = s.obj('points', 'linked_point', 1)
        st.mem[(r, r.leaf('m_linked_points').idx)] = s.ptr(self.pts)

    def my_ghosts(self, eng, st, V):
        S = z3.ArraySort(z3.IntSort(), z3.IntSort())
        return {'a': z3.Const('seq_a', S), 'b': z3.Const('seq_b', S)}

    def lst(self, V, st, q, n, head, tail):
        """pixels q(0..n-1) are linked in this order"""
        P = Arr(V.eng, self.pts, (), 0)
        nx, pv = P.field('m_next'), P.field('m_prev')
        N = P.len(V.pre)
        return [('pixels', fa(lambda i: Imp(And(0 <= i, i < n), And(0 <= q(i), q(i) < N)), pats=lambda i: [q(i)])),
                ('each once', fa(lambda i, j: Imp(And(0 <= i, i < j, j < n), q(i) != q(j)))),
                ('next', fa(lambda i: Imp(And(0 <= i, i < n - 1), nx.at(st, q(i)) == q(i + 1)))),
                ('previous', fa(lambda i: Imp(And(0 <= i, i < n - 1), pv.at(st, q(i + 1)) == q(i)))),
                ('ends', And(head == q(0), tail == q(n - 1)))]

    def requires(self, V):
        f = V.field
        n1, n2 = f('comp1', 'm_size'), f('comp2', 'm_size')
        a, b = (lambda i: z3.Select(V['a'], i)), (lambda i: z3.Select(V['b'], i))
        NR = V.eng.vlen(V.pre, self.R, ())
        out = [('sizes', And(n1 >= 1, n2 >= 0, n1 + n2 < 1 << 31)), ('two components', self.i1 != self.i2),
               ('regions', And(0 <= self.i1, self.i1 < NR, 0 <= self.i2, self.i2 < NR))]
        out += [('first: ' + n, g) for n, g in self.lst(V, V.pre, a, n1, f('comp1', 'm_head'), f('comp1', 'm_tail'))]
        out += [('second: ' + n, Imp(n2 > 0, g)) for n, g in self.lst(V, V.pre, b, n2, f('comp2', 'm_head'), f('comp2', 'm_tail'))]
        out.append(('no common pixel', fa(lambda i, j: Imp(And(0 <= i, i < n1, 0 <= j, j < n2), a(i) != b(j)))))
        return out

    def ensures(self, V):
        f = V.field
        g = lambda n: f('comp2', n, V.post)
        n1, n2 = f('comp1', 'm_size'), f('comp2', 'm_size')
        a, b = V['a'], V['b']
        q = lambda i: z3.If(T(i) < n2, z3.Select(b, i), z3.Select(a, i - n2))
        out = [('both lists joined: ' + n, x) for n, x in self.lst(V, V.post, q, n1 + n2, g('m_head'), g('m_tail'))]
        out.append(('size is the sum', g('m_size') == n1 + n2))
        R = Arr(V.eng, self.R, (), 0)
        out.append(('parent link', R.field('m_parent').at(V.post, self.i1) == self.i2))
        x, y = R.field('m_boundary_region').at(V.pre, self.i1), R.field('m_boundary_region').at(V.pre, self.i2)
        out.append(('boundary', R.field('m_boundary_region').at(V.post, self.i2) == z3.If(z3.Or(x != 0, y != 0), 1, 0)))
        for n, lt in (('m_left', True), ('m_top', True), ('m_right', False), ('m_bottom', False)):
            u, v = f('comp1', n), f('comp2', n)
            m = z3.If(u < v, u, v) if lt else z3.If(u > v, u, v)
            out.append(('bounding box: ' + n, g(n) == z3.If(n2 > 0, m, u)))
        return out

    def modifies(self, V):
        p = V.arg('comp2')
        R, P = Arr(V.eng, self.R, (), 0), Arr(V.eng, self.pts, (), 0)
        f = V.field
        h, t = f('comp1', 'm_head'), f('comp2', 'm_tail')
        return [ModField(p, n) for n in ('m_head', 'm_tail', 'm_size', 'm_left', 'm_right', 'm_top', 'm_bottom')] + \
               [ModArr(R.field('m_parent'), self.i1, self.i1 + 1), ModArr(R.field('m_boundary_region'), self.i2, self.i2 + 1),
                ModArr(P.field('m_next'), t, t + 1), ModArr(P.field('m_prev'), h, h + 1)]


CONTRACTS = [MergeComp()] + [NewRegion(d, i) for d in ('v1', 'v2') for i in (True, False)]
