"""Shared storage of matrices: counts of users and releases."""
import copy
from contracts import c09
from irv.contract import *
from contracts.matlib import *
from contracts.c08 import users

ID = 'C10'
DRIVERS = {'mat': DRIVER}
HARNESS = {'sources': MAT_SRC, 'module': 'basicmath', 'leaks': True,
           'rule': 'histories of 40 steps of constructing, copying, assigning (also to itself and to views of itself), viewing, creating again, passing to functions and destroying matrices, with the matrix cache and without, under the address and leak sanitizers: number of users and content of every matrix after every step; a case is one step of a history not tried before'}
NOTE = 'proved for every number of users, sizes up to six dimensions and every content: the count goes up and down by one, storage and count are released exactly when the count reaches 0 and never otherwise, storage given by the caller is never released, assignment (from and to empty, owned and caller-storage matrices, of the same storage, to itself) and destruction and create() on a used matrix release the old storage exactly when this was its last user and the table of sizes exactly when it is replaced or the matrix ends. That whole histories keep the count equal to the number of matrices follows from these contracts and those of the views (C09); the histories themselves, the matrix cache and the remaining operations by the run-time check.'
ASSUMPTIONS = ['the count of users of a storage equals the number of matrices that refer to it before the call (it is at least 1, at least 2 when both sides of an assignment share it)', 'fewer than 2^31 users', 'locking the count has no other effect; concurrent schedules are not explored', 'malloc and new succeed and return blocks of their own', 'no automatic derivative attached']
BOUNDED = ['histories of several operations, the matrix cache, operations other than the listed ones: the histories of the run-time check']

EMPTY, OWNED, EXTERNAL = 'empty', 'owned', 'external'
SIZE = 1 << 15


class Life(Mat):
    """objs: name -> (state, dimensions, capacity of the table or 0)"""
    modifies_all = True
    auto = False
    objs = {}
    same = False        # other uses the storage of this

    def serves(self, cur):
        return False

    def prepare(self, s, args):
        eng, st = s.eng, s.st
        self.refs, self.data, self.tabs = {}, {}, {}
        self.new = {'data': s.basic('new_bytes', 8, 'U'), 'tab': s.basic('new_steps', 32, 'S')}
        for o, (state, dims, cap) in self.objs.items():
            r, _ = obj_region(s.by[o])
            put = lambda m, v: st.mem.__setitem__((r, r.leaf(m).idx), v)
            num = lambda m, v: put(m, IntV(v, 32, r.leaf(m).sign))
            put('m_auto_derivative', PtrV([(True, NULL)]))
            num('m_dims', 0 if state is EMPTY else dims)
            num('m_dynamic_size_step_size', cap)
            if cap:
                self.tabs[o] = s.basic(o + '_steps', 32, 'S')
            put('m_dynamic_size_steps', s.ptr(self.tabs[o]) if cap else PtrV([(True, NULL)]))
            if state is EMPTY:
                for m in ('m_data', 'm_shared_memory', 'm_reference'):
                    put(m, PtrV([(True, NULL)]))
                continue
            first = 'this' if self.same and o == 'other' else o
            if first == o:
                self.refs[o], self.data[o] = s.obj(o + '_reference', 'reference_info', 0), s.basic(o + '_bytes', 8, 'U')
            else:
                self.refs[o], self.data[o] = self.refs[first], self.data[first]
            put('m_data', PtrV([(True, Loc(self.data[o], lin_of(eng.fresh(o + '_first')), ()))]))
            put('m_shared_memory', PtrV([(True, Loc(self.data[o], Lin(0), ()) if state is OWNED else NULL)]))
            put('m_reference', PtrV([(True, Loc(self.refs[o], Lin(0), ()))]))
        self.blocks = list(dict.fromkeys(list(self.refs.values()) + list(self.data.values()) + list(self.tabs.values()) + list(self.new.values())))
        self.gone = Region('released', 0, 4 * len(self.blocks), [Leaf(4 * i, 4, 'i', 32, 'S', name='b%d' % i) for i in range(len(self.blocks))])
        for i in range(len(self.blocks)):
            st.mem[(self.gone, i)] = IntV(0, 32, 'S')

    def released(self, st, block):
        return T(st.mem[(self.gone, self.blocks.index(block))].t)

    def release(self, eng, st, p):
        for c, l in p.cases:
            if l is NULL:
                continue
            c = B(c)
            eng.oblige(st, 'release', 'a block that exists, from its start', Imp(c, And(l.r in self.blocks, T(l.off.term()) == 0)))
            if l.r not in self.blocks:
                continue
            k = (self.gone, self.blocks.index(l.r))
            n = T(st.mem[k].t)
            eng.oblige(st, 'release', '%s is released once' % l.r.name, Imp(c, n == 0))
            st.mem[k] = IntV(z3.simplify(z3.If(c, n + 1, n)), 32, 'S')
        return None, st

    def call_hook(self, eng, st, name, dem, args, rty):
        if 'create_mutex' in dem:
            return PtrV([(True, NULL)]), st
        if 'sys_thread_lock::' in dem:
            return None, st
        if name == 'free' or dem.startswith('operator delete(void*'):
            return self.release(eng, st, args[0])
        if name == 'malloc':
            return self.allocate(eng, st, T(eng.uns(st, args[0])))
        return super().call_hook(eng, st, name, dem, args, rty)

    def allocate(self, eng, st, n):
        eng.oblige(st, 'room', 'table of sizes and steps', n == 8 * self.want)
        eng.set_vlen(st, self.new['tab'], (), z3.IntVal(2 * self.want))
        return PtrV([(True, Loc(self.new['tab'], Lin(0), ()))]), st

    # state
    def count(self, V, o, st):
        r = self.refs[o]
        return T(V.eng.sgn(st, V.eng.get(st, r, r.leaf('m_ref_number').idx)))

    def requires(self, V):
        out = []
        for o, (state, dims, cap) in self.objs.items():
            if cap:
                out.append(('table of ' + o, Arr(V.eng, self.tabs[o], (), 0).len(V.pre) == 2 * cap))
            if state is not EMPTY:
                out.append(('users of ' + o, And(self.count(V, o, V.pre) >= (2 if self.same else 1), self.count(V, o, V.pre) < I31 - 1)))
        return out

    def left(self, V, o):
        """o stops using its storage"""
        if self.objs[o][0] is EMPTY:
            return []
        a, last = self.count(V, o, V.pre), self.count(V, o, V.pre) == 1
        return [('the count is released by the last user only', self.released(V.post, self.refs[o]) == z3.If(last, 1, 0)),
                ('the storage is released by the last user only' if self.objs[o][0] is OWNED else 'storage of the caller is never released', self.released(V.post, self.data[o]) == (z3.If(last, 1, 0) if self.objs[o][0] is OWNED else 0)),
                ('one user less', Imp(z3.Not(last), self.count(V, o, V.post) == a - 1))]

    def untouched(self, V, blocks):
        return And([self.released(V.post, b) == 0 for b in blocks])

    def to(self, V, o, m, st, r, off=None):
        p = V.fptr(o, m, st).cases
        if r is None:
            return And([Imp(B(c), l is NULL) for c, l in p])
        return And([Imp(B(c), And(l is not NULL and l.r is r, True if off is None or l is NULL else T(l.off.term()) == off)) for c, l in p])

    def values(self, V, o, dims, st, tab):
        r, _ = obj_region(V.arg(o))
        a = Arr(V.eng, tab, (), 0) if dims > 4 else Arr(V.eng, r, (), 0, [l for l in r.leaves if l.name == 'm_fixed_size_steps'][0])
        return [T(a.at(st, i)) for i in range(2 * dims)]

    def off(self, V, o, m, st):
        return T(V.fptr(o, m, st).cases[0][1].off.term())


class Count(Contract):
    driver = 'mat'

    def __init__(self, name, d):
        self.name, self.d, self.match = name, d, M + r'reference_info::%s\(\)' % name

    def call_hook(self, eng, st, name, dem, args, rty):
        if 'sys_thread_lock::' in dem:
            return None, st

    def n(self, V, st):
        return V.field('this', 'm_ref_number', st)

    def requires(self, V):
        return [('users', And(self.n(V, V.pre) >= 1, self.n(V, V.pre) < I31 - 1))]

    def ensures(self, V):
        out = [('one user ' + ('more' if self.d > 0 else 'less'), self.n(V, V.post) == self.n(V, V.pre) + self.d)]
        if self.d < 0:
            out.append(('tells the last user', (V.r != 0) == (self.n(V, V.post) == 0)))
        return out

    def modifies(self, V):
        return [ModField(V.arg('this'), 'm_ref_number')]


class End(Life):
    def __init__(self, state, cap, destroy):
        self.name = '%s_%s%s' % ('destroy' if destroy else 'try_deallocate', state, '_table' if cap else '')
        self.match = M + (r'~mt_mat\(\)' if destroy else r'try_deallocate\(\)')
        self.objs, self.destroy = {'this': (state, 6 if cap else 2, cap)}, destroy

    def ensures(self, V):
        out = self.left(V, 'this')
        if 'this' in self.tabs:
            out.append(('the table is released at the end only', self.released(V.post, self.tabs['this']) == (1 if self.destroy else 0)))
        return out + [('nothing else is released', self.untouched(V, self.new.values()))]


class Assign(Life):
    def __init__(self, state, cap, ostate, dims, same=False):
        self.name = 'assign_%s%d_from_%s%d%s' % (state, cap, ostate, dims, '_same' if same else '')
        self.match = M + r'operator=\(basicmath::mt_mat const&\)'
        self.objs, self.same, self.want = {'this': (state, 2, cap), 'other': (ostate, dims, dims if dims > 4 else 0)}, same, dims

    def ensures(self, V):
        st, (os, dims, _), cap = V.post, self.objs['other'], self.objs['this'][2]
        replaced = dims > 4 and cap < dims
        tab = (self.new['tab'] if replaced else self.tabs.get('this')) if dims > 4 else None
        out = [] if self.same else self.left(V, 'this')
        if 'this' in self.tabs:
            out.append(('the table is released when replaced only', self.released(st, self.tabs['this']) == (1 if replaced else 0)))
        if dims > 4:
            out.append(('the table has room', And(self.to(V, 'this', 'm_dynamic_size_steps', st, tab, 0), V.field('this', 'm_dynamic_size_step_size', st) == (dims if replaced else cap))))
        mine = [] if self.same or 'this' not in self.refs else [self.refs['this'], self.data['this']]
        out.append(('nothing else is released', self.untouched(V, [b for b in self.blocks if b not in mine and b is not self.tabs.get('this')])))
        if os is EMPTY:
            out.append(('empty', And([V.field('this', 'm_dims', st) == 0] + [self.to(V, 'this', m, st, None) for m in ('m_data', 'm_shared_memory', 'm_reference')])))
            return out
        a = self.count(V, 'other', V.pre)
        out.append(('one user more' if not self.same else 'as many users', self.count(V, 'other', st) == a + (0 if self.same else 1)))
        out.append(('refers to the storage of the other', And(self.to(V, 'this', 'm_data', st, self.data['other'], self.off(V, 'other', 'm_data', V.pre)), self.to(V, 'this', 'm_reference', st, self.refs['other'], 0),
                                                             self.to(V, 'this', 'm_shared_memory', st, self.data['other'] if os is OWNED else None, 0))))
        out.append(('the same shape', And([V.field('this', 'm_dims', st) == dims, self.mask(V, 'this', st) == self.mask(V, 'other')] + [x == y for x, y in zip(self.values(V, 'this', dims, st, tab), self.values(V, 'other', dims, V.pre, self.tabs.get('other')))])))
        out.append(('the other is as it was', And([V.field('other', 'm_dims', st) == dims, self.mask(V, 'other', st) == self.mask(V, 'other')] + [x == y for x, y in zip(self.values(V, 'other', dims, st, self.tabs.get('other')), self.values(V, 'other', dims, V.pre, self.tabs.get('other')))])))
        return out


class AssignSelf(Life):
    def __init__(self, state, cap):
        self.name = 'assign_itself_%s%d' % (state, cap)
        self.match = M + r'operator=\(basicmath::mt_mat const&\)'
        self.objs = {'this': (state, cap or 2, cap)}
        self.want = cap

    def arg_other(self, s):
        return s.by['this']

    def ensures(self, V):
        st, (state, dims, cap) = V.post, self.objs['this']
        out = [('nothing is released', self.untouched(V, self.blocks)), ('dimensions', V.field('this', 'm_dims', st) == (0 if state is EMPTY else dims))]
        if state is EMPTY:
            return out
        return out + [('as many users', self.count(V, 'this', st) == self.count(V, 'this', V.pre)),
                      ('the same storage', And(self.to(V, 'this', 'm_data', st, self.data['this'], self.off(V, 'this', 'm_data', V.pre)), self.to(V, 'this', 'm_reference', st, self.refs['this'], 0))),
                      ('the same shape', And([x == y for x, y in zip(self.values(V, 'this', dims, st, self.tabs.get('this')), self.values(V, 'this', dims, V.pre, self.tabs.get('this')))]))]


class CreateAgain(Life):
    """create() on a used matrix of old dimensions"""
    def __init__(self, state, old, cap, dims):
        self.name = 'create_%s%d_%d_as_%d' % (state, old, cap, dims)
        self.match = M + r'create\(int, int const\*, basicmath::mt_Depth_Channel\)'
        self.objs, self.want, self.old = {'this': (state, old, cap)}, dims, old
        self.replaced = dims > 4 and cap < dims

    def prepare(self, s, args):
        super().prepare(s, args)
        self.calls = []

    def arg_dims(self, s):
        return IntV(self.want, 32, 'S')

    def code(self, V):
        return T(V.arg('depth_channel').t)

    def sizes(self, V):
        return [T(V.A('sizes').at(V.pre, i)) for i in range(self.want)]

    def bytes(self, V):
        out = [Es(self.code(V))]
        for a in self.sizes(V):
            out.append(out[-1] * a)
        return out

    def steps(self, V):
        out = [Es(self.code(V))]
        for a in reversed(self.sizes(V)[1:]):
            out.append(out[-1] * a)
        return out[::-1]

    def allocate(self, eng, st, n):
        if self.replaced and not self.calls:
            self.calls.append('table')
            return super().allocate(eng, st, n)
        eng.oblige(st, 'room', 'one allocation of the bytes of the matrix', And('data' not in self.calls, n == self.bytes(eng.V0)[-1]))
        self.calls.append('data')
        return PtrV([(True, Loc(self.new['data'], Lin(0), ()))]), st

    def requires(self, V):
        m = self.code(V)
        return super().requires(V) + [('element type', And(type_ok(m), Es(m) >= 1)), ('sizes', And([V.A('sizes').len(V.pre) >= self.want] + [And(1 <= a, a < I31) for a in self.sizes(V)])),
                                      ('bytes', And([And(1 <= a, a < I31) for a in self.bytes(V) + self.steps(V)]))]

    def ensures(self, V):
        st, state = V.post, self.objs['this'][0]
        old, oldtab = self.values(V, 'this', self.old, V.pre, self.tabs.get('this')), self.tabs.get('this')
        same = And([self.mask(V) == self.code(V)] + [a == b for a, b in zip(old, self.sizes(V))]) if state is not EMPTY and self.old == self.want else z3.BoolVal(False)
        tab = self.new['tab'] if self.replaced else oldtab
        now = self.values(V, 'this', self.want, st, tab)
        other = z3.Not(same)
        out = [(n, Imp(other, f)) for n, f in self.left(V, 'this')]
        if oldtab is not None:
            out.append(('the table is released when replaced only', Imp(other, self.released(st, oldtab) == (1 if self.replaced else 0))))
        out.append(('the new blocks stay', self.untouched(V, self.new.values())))
        out.append(('sizes and type', And([V.field('this', 'm_dims', st) == self.want, self.mask(V, None, st) == self.code(V)] + [a == b for a, b in zip(now, self.sizes(V))])))
        out.append(('steps', Imp(other, And([a == b for a, b in zip(now[self.want:], self.steps(V))]))))
        if self.want > 4:
            out.append(('the table has room', And(self.to(V, 'this', 'm_dynamic_size_steps', st, tab, 0), V.field('this', 'm_dynamic_size_step_size', st) == (self.want if self.replaced else self.objs['this'][2]))))
        out.append(('storage of its own', Imp(other, And(self.to(V, 'this', 'm_data', st, self.new['data'], 0), self.to(V, 'this', 'm_shared_memory', st, self.new['data'], 0)))))
        ref = V.fptr('this', 'm_reference', st).cases
        out.append(('one user of it', And([Imp(And(B(c), other), l is not NULL and l.r not in self.refs.values() and users(V, l, st) == 1) for c, l in ref])))
        if state is not EMPTY and self.old == self.want:
            out.append(('nothing changes when it has that shape', Imp(same, And([self.untouched(V, self.blocks), self.count(V, 'this', st) == self.count(V, 'this', V.pre), self.to(V, 'this', 'm_data', st, self.data['this'], self.off(V, 'this', 'm_data', V.pre)),
                                                                                 self.to(V, 'this', 'm_reference', st, self.refs['this'], 0)] + [a == b for a, b in zip(now, old)]))))
        return out


STATES = [(EMPTY, 0), (OWNED, 0), (OWNED, 5), (OWNED, 6), (EXTERNAL, 0), (EXTERNAL, 5)]
CONTRACTS = BYTES + [Count('add_ref', 1), Count('sub_ref', -1)] + [End(s, c, d) for d in (0, 1) for s in (EMPTY, OWNED, EXTERNAL) for c in (0, 6)]
CONTRACTS += [Assign(s, c, o, d) for s, c in STATES for o, d in ((EMPTY, 2), (OWNED, 1), (OWNED, 4), (OWNED, 6), (EXTERNAL, 3), (EXTERNAL, 6))]
CONTRACTS += [Assign(s, c, s, d, True) for s, c in STATES if s is not EMPTY for d in (1, 2, 3, 4, 6)] + [AssignSelf(s, c) for s, c in ((EMPTY, 0), (OWNED, 0), (OWNED, 6), (EXTERNAL, 0), (EXTERNAL, 6))]
CONTRACTS += [CreateAgain(s, o, c, d) for s in (OWNED, EXTERNAL) for o, c, d in ((1, 0, 1), (2, 0, 2), (3, 0, 3), (4, 0, 4), (5, 5, 5), (1, 0, 2), (3, 6, 2), (5, 5, 2), (2, 0, 5), (5, 5, 6), (6, 6, 5), (3, 6, 6))]


def counted(c):
    """the part of a view contract that concerns its users"""
    c = copy.copy(c)
    c.ensures = c.shares
    return c


CONTRACTS += [counted(c) for c in c09.CONTRACTS if isinstance(c, c09.View9)]
