"""MSER extraction end to end: a bounded check of the whole pipeline against the definition.

The parts that are within the verifier's reach are proved function by function in C18-C22; the composition
(the flooding loop with its heap-shaped linked structures) is checked here on concrete images."""
import re
from irv.contract import *

ID = 'C23'
DRIVERS = {'base': ('basicimg', 'basicimg/src/img_mser_base.cpp')}
MSER_SRC = ['basicimg/src/img_fast_mser_v1.cpp', 'basicimg/src/img_fast_mser_v2.cpp', 'basicimg/src/img_mser_base.cpp', 'basicmath/*', 'basicsys/*', 'basiclog/*']
HARNESS = {'sources': MSER_SRC, 'module': 'basicimg', 'cflags': ['-ffunction-sections', '-fdata-sections'], 'libs': ['-Wl,--gc-sections'],
           'rule': 'images of eight kinds (few levels, full-range noise, blobs on slopes, extreme values, constant, smooth, combs) up to 24x24 and some up to 140x140, random parameters, both polarities, own matrices and views, fresh extractors and extractors used again; a case is one (version, threads, parameters, image) not tried before'}
NOTE = 'img_mser_base::extract is under contract: the result is emptied first, memory is prepared once, and every enabled polarity passes building, recognition and extraction once, in that order, with its own gray mask; an image is never divided into patches without pixels, and the setting of patches stays. Whether the regions are those of the definition is bounded (not a proof): the extracted set of regions is compared with a direct implementation of the definition on generated images for v1 x {1,2,4,8,16,32} and v2 x {1,4,32} threads; the parts are proved under C18-C22.'
TECHNIQUE = 'bounded stand-in: postcondition of extract() (result set = definition) evaluated on the real code for generated images'
ASSUMPTIONS = ['unmasked images; duplicate limit at most 0.41 (above it the set depends on the visiting order of regions of equal gray level)',
               'the schedules of the OpenMP loops are those the run happened to take']
BOUNDED = ['img_mser_base::extract with img_fast_mser_v1 and img_fast_mser_v2: images up to 140x140, the cases counted below']
LEVEL = 'exploration'
EVENTS = ('phase', 'emptied', 'prepared', 'done0', 'done1')


SHAPE = {1: (1, 1), 2: (2, 1), 4: (2, 2), 8: (4, 2), 16: (4, 4), 32: (8, 4)}    # columns, rows of patches


class Extract(Contract):
    """the pipeline of an extraction; phase: 0 between polarities, 1 built, 2 recognised"""
    name, match, driver = 'extract', r'basicimg::img_mser_base::extract\(', 'base'
    auto = True
    modifies_all = True

    def serves(self, cur):
        return False

    def prepare(self, s, args):
        self.me, _ = obj_region(s.by['this'])
        leaves = []
        for l in self.me.leaves:
            if l.name.startswith('m_from_min_max'):
                leaves += [Leaf(l.off + i * l.size, l.size, l.kind, l.w, l.sign, (), 'enabled%d' % i) for i in range(2)]
            else:
                leaves.append(l)
        self.me.typed(self.me.E, leaves)
        self.on = [s.eng.fresh('enabled%d' % i) for i in range(2)]
        for i in range(2):
            l = self.me.leaf('enabled%d' % i)
            s.st.assume(And(0 <= self.on[i], self.on[i] < 1 << l.w))
            s.st.mem[(self.me, l.idx)] = IntV(self.on[i], l.w, 'U')
            l.sign = 'U'
        v = Region('table', 1)
        v.vfns = ['gone', 'gone', 'clear_memory_cache', 'allocate_memory', 'build_tree', 'recognize_mser', 'extract_pixel']
        self.me.vt = v
        self.ev = Region('events', 0, 8 * len(EVENTS), [Leaf(8 * i, 8, 'i', 64, 'S', name=f) for i, f in enumerate(EVENTS)])
        for i in range(len(EVENTS)):
            s.st.mem[(self.ev, i)] = IntV(T(0), 64, 'S')
        self.sizes = s.basic('sizes', 32, 'S')
        s.eng.set_vlen(s.st, self.sizes, (), T(2))
        res, _ = obj_region(s.by['res'])
        n = s.eng.get(s.st, res, res.leaf('m_memory_size').idx)
        for i in range(2):
            s.st.assume(And(0 <= z3.Select(n, i), z3.Select(n, i) < 1 << 27))
        self.by = dict(s.by)

    def c(self, st, f, v=None):
        i = (self.ev, EVENTS.index(f))
        if v is None:
            return T(st.mem[i].t)
        st.mem[i] = IntV(z3.simplify(T(v)), 64, 'S')

    def same(self, p, name):
        (c, l), = p.cases
        return l is not NULL and l.r is obj_region(self.by[name])[0] and str(l.off.term()) == '0'

    def call_hook(self, eng, st, name, dem, args, rty):
        d = dem.replace('[abi:ne180100]', '')
        on = lambda what, goal: eng.oblige(st, 'order', what, goal)
        c = lambda *a: self.c(st, *a)
        if name == 'allocate_memory':
            on('the result is emptied before', c('emptied') == 1)
            on('once, before any polarity', And(c('prepared') == 0, c('phase') == 0, c('done0') == 0, c('done1') == 0))
            on('for this image and mask', self.same(args[1], 'gray_src') and self.same(args[2], 'mask'))
            n, n0 = self.threads(eng, st), self.threads(eng, eng.V0.pre)
            on('a supported number of patches', Imp(Or([n0 == k for k in SHAPE]), Or([n == k for k in SHAPE])))
            size = Arr(eng, self.sizes, (), 0)
            for k, (cols, rows) in SHAPE.items():
                on('every patch of %d has a pixel' % k, Imp(And(n == k, T(size.at(st, 0)) >= 1, T(size.at(st, 1)) >= 1), And(T(size.at(st, 0)) >= rows, T(size.at(st, 1)) >= cols)))
            c('prepared', 1)
            return None, st
        if name in ('build_tree', 'extract_pixel'):
            m = T(eng.uns(st, args[3 if name == 'build_tree' else 2]))
            for i, k in ((0, 0), (1, 255)):
                on('%s: polarity %d is enabled and not yet done' % (name, i), Imp(m == k, And(self.field(eng, i) != 0, c('done%d' % i) == 0)))
            on('gray mask of %s' % name, Or(m == 0, m == 255))
            if name == 'build_tree':
                on('for this image and mask', self.same(args[1], 'gray_src') and self.same(args[2], 'mask'))
                on('after preparation, no polarity in progress', And(c('prepared') == 1, c('phase') == 0))
                on('no pixels counted yet', T(eng.get(st, self.me, self.me.leaf('m_channel_total_pixel_number').idx).t) == 0)
                c('phase', z3.If(m == 0, 1, 2))
            else:
                on('recognised before, same polarity', c('phase') == z3.If(m == 0, 11, 12))
                on('into this result', self.same(args[1], 'res'))
                c('phase', 0)
                for i, k in ((0, 0), (1, 255)):
                    c('done%d' % i, c('done%d' % i) + z3.If(m == k, 1, 0))
            return None, st
        if name == 'recognize_mser':
            on('built before', Or(c('phase') == 1, c('phase') == 2))
            c('phase', c('phase') + 10)
            return None, st
        if re.match(r'basicimg::img_multi_msers::(img_multi_msers\(\)|~img_multi_msers\()', d):
            return None, st
        if d.startswith('basicimg::img_multi_msers::operator=('):
            on('the result is emptied first', And(self.same(args[0], 'res'), c('prepared') == 0))
            c('emptied', 1)
            return args[0], st
        if 'log_logger::get_logger' in d:
            return PtrV([(True, NULL)]), st
        if d.startswith(('basicsys::sys_alg_analyzer::', 'void basicsys::sys_alg_analyzer::')):
            return None, st
        if d.startswith('basicsys::sys_timer::get_tick_cout('):
            v = eng.fresh_int('tick', 64)
            st.assume(And(0 <= T(eng.uns(st, v)), T(eng.uns(st, v)) < 1 << 62))
            return v, st
        if d.startswith('basicmath::mt_mat::size() const'):
            return PtrV([(True, Loc(self.sizes, Lin(0), ()))]), st
        if d.startswith(('basicmath::mt_mat::channel() const', 'basicmath::mt_mat::depth() const')):
            return eng.fresh_int('of_image', 32), st
        if re.match(r'std::__1::vector<(int|i32).*operator\[\]\(', d):
            return PtrV([(True, Loc(self.one, Lin(0), ()))]), st
        if re.match(r'std::__1::vector<basicimg::img_mser,.*size\(\) const', d):
            return eng.fresh_int('regions', 64), st
        return None

    def field(self, eng, i):
        return self.on[i]

    def threads(self, eng, st):
        return T(eng.get(st, self.me, self.me.leaf('m_parallel_thread_number').idx).t)

    def ensures(self, V):
        out = [('the result is emptied', self.c(V.post, 'emptied') == 1), ('prepared once', self.c(V.post, 'prepared') == 1), ('nothing in progress', self.c(V.post, 'phase') == 0), ('the setting of patches stays', self.threads(V.eng, V.post) == self.threads(V.eng, V.pre))]
        return out + [('polarity %d is extracted exactly when it is enabled' % i, self.c(V.post, 'done%d' % i) == z3.If(self.on[i] != 0, 1, 0)) for i in range(2)]


CONTRACTS = [Extract()]
