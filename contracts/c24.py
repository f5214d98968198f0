"""MSER results own their pixels."""
import re
from irv.contract import *
from irv.mem import sel
from contracts.c23 import MSER_SRC

ID = 'C24'
DRIVERS = {'base': ('basicimg', 'basicimg/src/img_mser_base.cpp')}
HARNESS = {'sources': MSER_SRC, 'module': 'basicimg', 'cflags': ['-ffunction-sections', '-fdata-sections'], 'libs': ['-Wl,--gc-sections'], 'leaks': True, 'rule': 'histories of extracting (both versions, several thread counts, random images and parameters), copying, assigning (also to itself) and destroying up to 4 results, compared after every step with the regions recorded when they were extracted and with a fresh extraction; vectors of regions with own and shared points under insertion, assignment, copy, removal; address and leak sanitizers decide the memory'}
NOTE = 'Copying, assigning and destroying a region and a whole result are proved for every content: each keeps or takes exactly the points it has to, blocks are released once and the way they were allocated, the other side is untouched, and every region of a copied result refers to the same offset of the memory of the copy. Extracting into a result that already holds one is decided by the bounded run of the real code.'
BOUNDED = ['extraction into a used result, and whole histories of results: run-time comparison on random histories of 14 steps']
ASSUMPTIONS = ['a vector of regions copies, destroys and indexes its elements one by one with the functions of img_mser under contract here (libc++ not verified); one arbitrary region of each polarity stands for all',
               'shared points of a region lie in the memory of its polarity of the same result (what the extractors establish: C23)',
               'malloc and new succeed and return blocks apart from all others; sizes are below 2^27 points']
SELF, SHARE = 'self', 'share'
BY_MALLOC, BY_NEW = 'malloc', 'new'


class Owns(Contract):
    """blocks with the way they are allocated; what is released is counted"""
    driver = 'base'
    auto = True
    modifies_all = True

    def serves(self, cur):
        return False

    def points(self, s, name, how):
        r = s.obj(name, s.pt, 1)
        self.how[r] = how
        return r

    def start(self, s):
        I, _ = obj_region(s.by['this'])
        self.how = {}
        s.pt = s.eng.di.find_type('mt_point_t<int>')

    def finish(self, s):
        self.blocks = list(self.how)
        n = len(self.blocks)
        self.gone = Region('released', 0, 4 * n, [Leaf(4 * i, 4, 'i', 32, 'S', name='b%d' % i) for i in range(n)])
        for i in range(n):
            s.st.mem[(self.gone, i)] = IntV(0, 32, 'S')

    def released(self, st, block):
        return T(st.mem[(self.gone, self.blocks.index(block))].t)

    def call_hook(self, eng, st, name, dem, args, rty):
        d = dem.replace('[abi:ne180100]', '')
        if name == 'free' or d.startswith(('operator delete(void*', 'operator delete[](void*')):
            for c, l in args[0].cases:
                if l is NULL:
                    continue
                c = B(c)
                eng.oblige(st, 'release', 'a block that exists, from its start', Imp(c, And(l.r in self.how, T(l.off.term()) == 0)))
                if l.r not in self.how:
                    continue
                eng.oblige(st, 'release', '%s is released the way it was allocated' % l.r.name, Imp(c, self.how[l.r] == (BY_MALLOC if name == 'free' else BY_NEW)))
                k = (self.gone, self.blocks.index(l.r))
                n = T(st.mem[k].t)
                eng.oblige(st, 'release', '%s is released once' % l.r.name, Imp(c, n == 0))
                st.mem[k] = IntV(z3.simplify(z3.If(c, n + 1, n)), 32, 'S')
            return None, st
        if name == 'malloc' or d.startswith('operator new[](unsigned long'):
            return self.allocate(eng, st, T(eng.uns(st, args[0])), BY_MALLOC if name == 'malloc' else BY_NEW)

    def same_points(self, V, a, b, n):
        k = z3.Int('k')
        out = []
        for l, m in zip(a.leaves, b.leaves):
            x, y = V.eng.get(V.post, a, l.idx), V.eng.get(V.pre, b, m.idx)
            out.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(x, k) == z3.Select(y, k))))
        return And(*out)


def where(p, r, off):
    """the pointer value is the element off of block r"""
    out = []
    for c, l in p.cases:
        out.append(Imp(B(c), And(l is not NULL and l.r is r, True if l is NULL or l.r is not r else T(l.off.term()) == off)))
    return And(*out)


def isnull(p):
    return And(*[Imp(B(c), l is NULL) for c, l in p.cases])


class Region1(Owns):
    """img_mser: kinds of points of this and other ('raw' for a constructor, None: other is this)"""

    def __init__(self, name, match, mine, theirs):
        self.name = name + '_'.join([''] + [x for x in (mine, theirs) if x])
        self.match = r'basicimg::img_mser::' + match
        self.mine, self.theirs = mine, theirs

    def setup(self, s, o, kind):
        eng, st = s.eng, s.st
        r, _ = obj_region(s.by[o])
        put = lambda m, v: st.mem.__setitem__((r, r.leaf(m).idx), v)
        l = r.leaf('m_memory_type')
        ty = eng.fresh(o + '_type')
        if kind == SELF:
            put('m_memory_type', IntV(1, 8, l.sign))
        else:
            st.assume(And(0 <= ty, ty < 256, ty != 1))
            put('m_memory_type', IntV(ty, 8, l.sign))
        self.blk[o] = self.points(s, o + '_points', BY_NEW if kind == SELF else 'others')
        first = T(0) if kind == SELF else eng.fresh(o + '_first')
        self.off[o] = first
        has = z3.Bool(o + '_has')
        self.has[o] = has
        put('m_points', PtrV([(has, Loc(self.blk[o], lin_of(first).scale(8), ())), (z3.Not(has), NULL)]))
        self.r[o] = r

    def prepare(self, s, args):
        self.start(s)
        self.blk, self.off, self.has, self.r = {}, {}, {}, {}
        if self.mine != 'raw':
            self.setup(s, 'this', self.mine)
        else:
            self.r['this'], _ = obj_region(s.by['this'])
        if self.theirs:
            self.setup(s, 'other', self.theirs)
        self.fresh = self.points(s, 'new_points', BY_NEW)
        self.asked = []
        self.finish(s)

    def allocate(self, eng, st, n, how):
        V = eng.V0
        o = 'other' if self.theirs else 'this'
        eng.oblige(st, 'room', 'one block for the points', And(len(self.asked) == 0, how == BY_NEW, n == 8 * V.field(o, 'm_size')))
        self.asked.append(n)
        eng.set_vlen(st, self.fresh, (), V.field(o, 'm_size'))
        return PtrV([(True, Loc(self.fresh, Lin(0), ()))]), st

    def requires(self, V):
        out = []
        if self.theirs == SELF:
            n = V.field('other', 'm_size')
            out.append(('own points of the other', And(n >= 0, n < 1 << 27, self.has['other'] == (n > 0), V.eng.vlen(V.pre, self.blk['other'], ()) == n)))
        return out

    def ensures(self, V):
        out = []
        if self.name.startswith('destroy'):
            return [('points released', self.released(V.post, self.blk['this']) == (z3.If(self.has['this'], 1, 0) if self.mine == SELF else 0))]
        if not self.theirs:
            p, q = [V.eng.get(st, self.r['this'], self.r['this'].leaf('m_points').idx) for st in (V.pre, V.post)]
            out.append(('assigned to itself: nothing changes', And(self.released(V.post, self.blk['this']) == 0, len(self.asked) == 0, Imp(self.has['this'], where(q, self.blk['this'], 8 * self.off['this'])), Imp(z3.Not(self.has['this']), isnull(q)))))
            for m in ('m_size', 'm_gray_level', 'm_memory_type'):
                out.append((m, V.field('this', m, V.post) == V.field('this', m, V.pre)))
            return out
        n = V.field('other', 'm_size', V.pre)
        for m in ('m_size', 'm_gray_level', 'm_memory_type', 'm_rect.m_left', 'm_rect.m_top', 'm_rect.m_width', 'm_rect.m_height'):
            out.append((m, And(V.field('this', m, V.post) == V.field('other', m, V.pre), V.field('other', m, V.post) == V.field('other', m, V.pre))))
        q = V.eng.get(V.post, self.r['this'], self.r['this'].leaf('m_points').idx)
        ob, has = self.blk['other'], self.has['other']
        if self.theirs == SELF:
            out.append(('points of its own', And(Imp(n > 0, And(where(q, self.fresh, 0), len(self.asked) == 1)), Imp(n == 0, isnull(q)))))
            out.append(('equal points', Imp(n > 0, self.same_points(V, self.fresh, ob, n))))
        else:
            out.append(('the same shared points', And(Imp(has, where(q, ob, 8 * self.off['other'])), Imp(z3.Not(has), isnull(q)), len(self.asked) == 0)))
        out.append(('the other keeps its points', And(self.released(V.post, ob) == 0, *[V.eng.get(V.post, ob, l.idx) == V.eng.get(V.pre, ob, l.idx) for l in ob.leaves])))
        op = V.eng.get(V.post, self.r['other'], self.r['other'].leaf('m_points').idx)
        out.append(('the other points to them', And(Imp(has, where(op, ob, 8 * self.off['other'])), Imp(z3.Not(has), isnull(op)))))
        if self.mine != 'raw':
            out.append(('old points released', self.released(V.post, self.blk['this']) == (z3.If(self.has['this'], 1, 0) if self.mine == SELF else 0)))
        out.append(('new points kept', self.released(V.post, self.fresh) == 0))
        return out


class Same(Region1):
    def prepare(self, s, args):
        super().prepare(s, args)

    def arg_other(self, s):
        return s.by['this']


class All(Owns):
    """img_multi_msers; J[i]: any region of polarity i"""
    same = False
    per_round = True

    def __init__(self, name, match):
        self.name, self.match = name, r'basicimg::img_multi_msers::' + match

    def prepare(self, s, args):
        eng, st = s.eng, s.st
        self.start(s)
        self.r, self.mem, self.has, self.J, self.n, self.first, self.elem, self.hasp = {}, {}, {}, {}, {}, {}, {}, {}
        names = [o for o in ('this', 'other') if o in s.by and not (o == 'other' and self.same)]
        for o in names:
            r, _ = obj_region(s.by[o])
            self.r[o] = r
            leaves = []
            for l in r.leaves:
                if l.name in ('m_memory', 'm_memory_size') and l.dims:
                    for i in range(2):
                        leaves.append(Leaf(l.off + i * l.size, l.size, l.kind, l.w, l.sign, (), '%s%d' % (l.name, i)))
                else:
                    if l.name.startswith('m_msers'):
                        self.vec_off = l.off if not hasattr(self, 'vec_off') else min(self.vec_off, l.off)
                    leaves.append(l)
            r.typed(r.E, leaves)
            if o == 'this' and self.raw:
                continue
            for i in range(2):
                k = (o, i)
                self.mem[k] = self.points(s, '%s_memory%d' % k, BY_MALLOC)
                self.has[k] = z3.Bool('%s_has%d' % k)
                st.mem[(r, r.leaf('m_memory%d' % i).idx)] = PtrV([(self.has[k], Loc(self.mem[k], Lin(0), ())), (z3.Not(self.has[k]), NULL)])
        for i in range(2):
            self.J[i] = eng.fresh('J%d' % i)
            self.n[i] = eng.fresh('number%d' % i)
            st.assume(And(0 <= self.J[i], self.J[i] < self.n[i], self.n[i] < 1 << 27))
            self.mem['new', i] = self.points(s, 'new_memory%d' % i, BY_MALLOC)
            for o in names:
                self.elem[o, i] = s.obj('%s_region%d' % (o, i), 'img_mser', 0)
            self.elem['scratch', i] = s.obj('another_region%d' % i, 'img_mser', 0)
            if 'other' in names:
                self.own = getattr(self, 'own', {})
                self.own['other', i] = s.obj('own_points_of_other%d' % i, s.pt, 1)
                self.own['this', i] = s.obj('own_points%d' % i, s.pt, 1)
                self.pristine(eng, st, self.elem['other', i], 'other', i)
        self.assigned, self.asked = set(), []
        self.finish(s)

    raw = False

    def pristine(self, eng, st, r, o, i, first=None):
        """a region of the other result, or its copy before it is moved to the memory of this"""
        put = lambda m, v: st.mem.__setitem__((r, r.leaf(m).idx), v)
        ty = eng.fresh('type')
        st.assume(And(0 <= ty, ty < 256))
        put('m_memory_type', IntV(ty, 8, r.leaf('m_memory_type').sign))
        first = eng.fresh('first')
        has = eng.fresh('has', 'b')
        M = ('other', i)
        st.assume(And(0 <= first, Imp(And(ty != 1, has), And(self.has[M], first < eng.V0.field('other', 'm_memory_size%d' % i) if getattr(eng, 'V0', None) is not None else True))))
        put('m_points', PtrV([(z3.And(has, ty == 1), Loc(self.own[o, i], Lin(0), ())), (z3.And(has, ty != 1), Loc(self.mem[M], lin_of(first).scale(8), ())), (z3.Not(has), NULL)]))
        if r is self.elem['other', i]:
            self.first[i], self.hasp[i], self.ty = first, has, dict(getattr(self, 'ty', {}), **{str(i): ty})

    def which(self, p):
        """(object, polarity) of a vector of regions"""
        (c, l), = p.cases
        o = [k for k, r in self.r.items() if r is l.r]
        off = int(str(T(l.off.term())))
        return o[0], (off - self.vec_off) // 24

    def call_hook(self, eng, st, name, dem, args, rty):
        d = dem.replace('[abi:ne180100]', '')
        if d.startswith('std::__1::vector<basicimg::img_mser'):
            tail = re.sub(r'^.*?> ?>::', '', d)
            if tail.startswith(('vector()', '~vector()')):
                return None, st
            o, i = self.which(args[0])
            if tail.startswith('operator=('):
                o2, i2 = self.which(args[1])
                eng.oblige(st, 'copy', 'regions of the other result, of the same polarity, once', And(o == 'this', o2 == 'other', i == i2, i not in self.assigned))
                if not eng.dry:
                    self.assigned.add(i)
                a, b = self.elem['this', i], self.elem['other', i]
                for l in a.leaves:
                    if l.kind != 'ptr':
                        st.mem[(a, l.idx)] = eng.get(st, b, l.idx)
                p = eng.get(st, b, b.leaf('m_points').idx)
                st.mem[(a, a.leaf('m_points').idx)] = PtrV([(c, l if l is NULL or l.r is not self.own['other', i] else Loc(self.own['this', i], Lin(0), ())) for c, l in p.cases])
                return args[0], st
            if o == 'this' and i not in self.assigned and not eng.dry:
                eng.oblige(st, 'copy', 'regions are there', False)
            if tail.startswith('size()'):
                return IntV(self.n[i], 64, 'U'), st
            if tail.startswith('operator[]('):
                j = T(eng.uns(st, args[1]))
                eng.oblige(st, 'bounds', 'number of a region', And(0 <= j, j < self.n[i]))
                r, w = self.elem[o, i], self.elem['scratch', i]
                self.pristine(eng, st, w, o, i)
                return PtrV([(j == self.J[i], Loc(r, Lin(0), ())), (j != self.J[i], Loc(w, Lin(0), ()))]), st
            return None
        return super().call_hook(eng, st, name, dem, args, rty)

    def allocate(self, eng, st, n, how):
        for i in range(2):
            if i not in self.asked and eng.qp(st, n == 8 * eng.V0.field('other', 'm_memory_size%d' % i)):
                if not eng.dry:
                    self.asked.append(i)
                eng.oblige(st, 'room', 'the destructor frees it', how == BY_MALLOC)
                eng.set_vlen(st, self.mem['new', i], (), eng.V0.field('other', 'm_memory_size%d' % i))
                return PtrV([(True, Loc(self.mem['new', i], Lin(0), ()))]), st
        eng.oblige(st, 'room', 'memory of a polarity of the other', False)

    def requires(self, V):
        out = []
        if 'other' not in self.r:
            return out
        for i in range(2):
            n = V.field('other', 'm_memory_size%d' % i)
            out.append(('memory %d of the other' % i, And(n >= 0, n < 1 << 27, V.eng.vlen(V.pre, self.mem['other', i], ()) == n, Imp(And(self.hasp[i], self.ty[str(i)] != 1), self.first[i] < n))))
        return out

    def point(self, S, o, i):
        r = self.elem[o, i]
        return S.eng.get(S.st, r, r.leaf('m_points').idx)

    def moved(self, p, i, yes):
        """the pointer of J[i] in the copy: into the new memory (yes) or still into that of the other"""
        has, ty, M = self.hasp[i], self.ty[str(i)], self.mem['new' if yes else 'other', i]
        return And(Imp(z3.Not(has), isnull(p)), Imp(And(has, ty == 1), where(p, self.own['this', i], 0)), Imp(And(has, ty != 1), where(p, M, 8 * self.first[i])))

    def invs(self, L):
        for x in L._names():
            x = x
            for i in range(2):
                def f(S, x=x, i=i):
                    p = self.point(S, 'this', i)
                    return And(Imp(S.v(x) <= self.J[i], self.moved(p, i, False)), Imp(S.v(x) > self.J[i], self.moved(p, i, True)))
                yield 'regions before %s are moved %d' % (x, i), f
            yield '%s from 0' % x, lambda S, x=x: S.v(x) >= 0
            for i in range(2):
                yield '%s to %d' % (x, i), lambda S, x=x, i=i: S.v(x) <= self.n[i]

    def ensures(self, V):
        e = V.eng
        get = lambda st, o, m: e.get(st, self.r[o], self.r[o].leaf(m).idx)
        out = []
        one = lambda b: z3.If(b, 1, 0)
        if self.name == 'destroy_all':
            return [('memory %d released' % i, self.released(V.post, self.mem['this', i]) == one(self.has['this', i])) for i in range(2)]
        if self.same:
            for i in range(2):
                q, k = get(V.post, 'this', 'm_memory%d' % i), ('this', i)
                out.append(('assigned to itself: memory %d stays' % i, And(self.released(V.post, self.mem[k]) == 0, Imp(self.has[k], where(q, self.mem[k], 0)), Imp(z3.Not(self.has[k]), isnull(q)), V.field('this', 'm_memory_size%d' % i, V.post) == V.field('this', 'm_memory_size%d' % i, V.pre), i not in self.assigned)))
            return out
        for i in range(2):
            n = V.field('other', 'm_memory_size%d' % i, V.pre)
            q, oq = get(V.post, 'this', 'm_memory%d' % i), get(V.post, 'other', 'm_memory%d' % i)
            has, M, N = self.has['other', i], self.mem['other', i], self.mem['new', i]
            out.append(('size of memory %d' % i, And(V.field('this', 'm_memory_size%d' % i, V.post) == n, V.field('other', 'm_memory_size%d' % i, V.post) == n)))
            out.append(('memory %d of its own' % i, And(Imp(has, where(q, N, 0)), Imp(z3.Not(has), isnull(q)), Imp(has, e.vlen(V.post, N, ()) == n))))
            out.append(('equal points in memory %d' % i, Imp(has, self.same_points(V, N, M, n))))
            out.append(('the other keeps memory %d' % i, And(self.released(V.post, M) == 0, Imp(has, where(oq, M, 0)), Imp(z3.Not(has), isnull(oq)), *[e.get(V.post, M, l.idx) == e.get(V.pre, M, l.idx) for l in M.leaves])))
            out.append(('new memory %d kept' % i, self.released(V.post, N) == 0))
            if not self.raw:
                out.append(('old memory %d released' % i, self.released(V.post, self.mem['this', i]) == one(self.has['this', i])))
            out.append(('regions of polarity %d copied' % i, i in self.assigned))
            a, b = self.elem['this', i], self.elem['other', i]
            p, o = [e.get(V.post, r, r.leaf('m_points').idx) for r in (a, b)]
            out.append(('any region of polarity %d refers to its pixels in the new memory' % i, self.moved(p, i, True)))
            for l, m in zip(a.leaves, b.leaves):
                if l.kind != 'ptr':
                    out.append(('%s of any region of polarity %d' % (l.name, i), T(e.get(V.post, a, l.idx).t) == T(e.get(V.pre, b, m.idx).t)))
            ty, hp = self.ty[str(i)], self.hasp[i]
            out.append(('regions of polarity %d of the other stay' % i, And(Imp(z3.Not(hp), isnull(o)), Imp(And(hp, ty == 1), where(o, self.own['other', i], 0)), Imp(And(hp, ty != 1), where(o, M, 8 * self.first[i])))))
        return out


class CopyAll(All):
    raw = True


class SameAll(All):
    same = True

    def arg_other(self, s):
        return s.by['this']


CONTRACTS = [Region1('copy', r'img_mser\(basicimg::img_mser const&\)', 'raw', k) for k in (SELF, SHARE)]
CONTRACTS += [Region1('assign', r'operator=\(', a, b) for a in (SELF, SHARE) for b in (SELF, SHARE)]
CONTRACTS += [Same('assign_same', r'operator=\(', a, None) for a in (SELF, SHARE)]
CONTRACTS += [Region1('destroy', r'~img_mser\(', a, None) for a in (SELF, SHARE)]
CONTRACTS += [All('assign_all', r'operator=\('), CopyAll('copy_all', r'img_multi_msers\(basicimg::img_multi_msers const&\)'), SameAll('assign_all_same', r'operator=\('), All('destroy_all', r'~img_multi_msers\(')]
