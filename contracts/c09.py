"""Matrix views."""
from irv.contract import *
from contracts.matlib import *

ID = 'C09'
DRIVERS = {'mat': DRIVER}
HARNESS = {'sources': MAT_SRC, 'module': 'basicmath',
           'rule': 'matrices of one to seven dimensions of every element type and one to four channels, seen through chains of one to four views (sub ranges, rows, planes, flips of any dimensions, swaps, transposes, channel ranges, splits, joins, reshapes, channel and dimension changes): every element of the result against a model that names source elements by coordinates, and writes through the view; a case is one chain not tried before'}
NOTE = 'proved for matrices of one to six dimensions (reshape: one to three to one to five), every size, step, element type and channel count: flip, flip by flags and swap_dim (to four dimensions), sub, t, sub_channel, channel_as_last_dim, last_dim_as_channel, split_dim and combine_dim (two or three parts) and reshape share the storage, add one user, leave the matrix as it is, and the address of each of their elements is the address of the element their definition names. More dimensions, parts, chains of views and the copying cases of combine_dim and reshape by the run-time check.'
ASSUMPTIONS = ['sizes and steps below 2^15 in absolute value (reshape: byte counts below 2^31)', 'no automatic derivative attached', 'asserts only write a log line; locking the count of users has no other effect', 'malloc succeeds']
BOUNDED = ['more than six dimensions (flip and swap_dim: more than four, reshape: more than three), splits and joins of more than three dimensions, chains of views, copies made when dimensions cannot be joined or elements not renumbered: the chains of the run-time check']
SIZE = 1 << 15


class View9(Mat):
    """n: dimensions of the matrix; the result has rn; ghost coordinates x0.. (inside the sizes of the result) and channel k"""
    modifies_all = True
    auto = False
    reverse = False

    def __init__(self, name, match, n, rn=None):
        self.name, self.match, self.dims, self.rn = '%s_%d' % (name, n), M + match, n, rn or n

    def prepare(self, s, args):
        super().prepare(s, args)
        eng, st = s.eng, s.st
        r, _ = obj_region(s.by['this'])
        self.data, self.tab = s.basic('bytes', 8, 'U'), s.basic('steps', 32, 'S')
        if self.dims > 4:
            self.tab0 = s.basic('this_steps', 32, 'S')
            st.mem[(r, r.leaf('m_dynamic_size_steps').idx)] = s.ptr(self.tab0)
        self.base = eng.fresh('base')
        self.refs = s.obj('reference', 'reference_info', 0)
        put = lambda m, v: st.mem.__setitem__((r, r.leaf(m).idx), v)
        put('m_data', PtrV([(True, Loc(self.data, lin_of(self.base), ()))]))
        put('m_shared_memory', PtrV([(True, Loc(self.data, Lin(0), ()))]))
        put('m_reference', PtrV([(True, Loc(self.refs, Lin(0), ()))]))

    def serves(self, cur):
        return False

    def my_ghosts(self, eng, st, V):
        g = {'x%d' % i: eng.fresh('x%d' % i) for i in range(max(self.dims, self.rn))}
        g['k'] = eng.fresh('k')
        return g

    def call_hook(self, eng, st, name, dem, args, rty):
        if '::get_continuous_dim(' in dem:      # only for an assert
            return IntV(eng.fresh('continuous'), 32, 'S'), st
        if 'sys_thread_lock::' in dem:
            return None, st
        if name == 'malloc':
            eng.oblige(st, 'room', 'table of sizes and steps', T(eng.uns(st, args[0])) == 8 * self.rn)
            eng.set_vlen(st, self.tab, (), z3.IntVal(2 * self.rn))
            return PtrV([(True, Loc(self.tab, Lin(0), ()))]), st
        return super().call_hook(eng, st, name, dem, args, rty)

    # the matrix
    def table(self, V, o=None, st=None, large=None):
        return Arr(V.eng, self.tab0, (), 0) if self.dims > 4 else V.farr('this', 'm_fixed_size_steps', st or V.pre)

    def shape_ok(self, V, o=None, large=None):
        return [('room', self.table(V).len(V.pre) >= 2 * self.dims)] if self.dims > 4 else super().shape_ok(V)

    def sz(self, V):
        return [self.size(V, i) for i in range(self.dims)]

    def stp(self, V):
        return [self.step(V, i) for i in range(self.dims)]

    def ch(self, V):
        return self.mask(V) / 65536 + 1

    def depth(self, V):
        return self.mask(V) % 65536

    # the result
    def res_table(self, V):
        if self.rn > 4:
            return Arr(V.eng, self.tab, (), 0)
        return V.farr('__sret', 'm_fixed_size_steps', V.post)

    def rsz(self, V):
        return [T(self.res_table(V).at(V.post, i)) for i in range(self.rn)]

    def rstp(self, V):
        return [T(self.res_table(V).at(V.post, self.rn + i)) for i in range(self.rn)]

    def rmask(self, V):
        return V.field('__sret', 'm_depth_channel.m_mask', V.post)

    def xs(self, V, n):
        return [V['x%d' % i] for i in range(n)]

    def requires(self, V):
        sz, st = self.sz(V), self.stp(V)
        return self.shape_ok(V) + [('sizes and steps', And([And(1 <= a, a < SIZE, -SIZE < b, b < SIZE) for a, b in zip(sz, st)])), ('element type', And(type_ok(self.mask(V)), 1 <= Ed(self.mask(V)), Ed(self.mask(V)) <= 8, 1 <= Es(self.mask(V)), Es(self.mask(V)) < SIZE)),
                                   ('users', And(V.eng.sgn and T(V.eng.sgn(V.pre, V.eng.get(V.pre, self.refs, self.refs.leaf('m_ref_number').idx))) < I31 - 1, T(V.eng.sgn(V.pre, V.eng.get(V.pre, self.refs, self.refs.leaf('m_ref_number').idx))) >= 1))]

    def offset(self, V, m):
        p = V.fptr('__sret', m, V.post).cases
        if len(p) != 1 or p[0][1] is NULL or p[0][1].r is not self.data:
            return None
        return T(p[0][1].off.term())

    def shares(self, V):
        st = V.post
        ref = V.fptr('__sret', 'm_reference', st).cases
        cnt = lambda s: T(V.eng.sgn(s, V.eng.get(s, self.refs, self.refs.leaf('m_ref_number').idx)))
        o, s = self.offset(V, 'm_data'), self.offset(V, 'm_shared_memory')
        return [('number of dimensions', V.field('__sret', 'm_dims', st) == self.rn), ('the same storage', And(o is not None, s is not None and s == 0, len(ref) == 1 and ref[0][1] is not NULL and ref[0][1].r is self.refs)),
                ('one more user', cnt(st) == cnt(V.pre) + 1),
                ('the matrix itself is as it was', And([And(T(self.table(V).at(V.pre, i)) == T(self.table(V).at(st, i))) for i in range(2 * self.dims)] + [V.field('this', 'm_dims', st) == self.dims, self.mask(V, None, st) == self.mask(V)]))]

    def shape(self, V):
        """sizes the result must have"""
        return self.sz(V)

    def channels(self, V):
        return self.ch(V)

    def named(self, V, x, k):
        """coordinates and channel in the matrix of the element x, k of the result"""
        return x, k

    def case(self, V):
        return []

    def ensures(self, V):
        o = self.offset(V, 'm_data')
        out = self.shares(V)
        rs = self.shape(V)
        out.append(('sizes', And([a == b for a, b in zip(self.rsz(V), rs)])))
        out.append(('element type', And(self.rmask(V) == (self.channels(V) - 1) * 65536 + self.depth(V))))
        if o is None:
            return out
        ed, within = Ed(self.mask(V)), lambda x, s, k, c: And([And(0 <= a, a < b) for a, b in zip(x, s)] + [0 <= k, k < c])
        if self.reverse:
            y, j = self.xs(V, self.dims), V['k']
            x, k = self.image(V, y, j)
            inside = within(y, self.sz(V), j, self.ch(V))
            out.append(('every element of the matrix has its place', Imp(inside, within(x, rs, k, self.channels(V)))))
        else:
            x, k = self.xs(V, self.rn), V['k']
            y, j = self.named(V, x, k)
            inside = within(x, rs, k, self.channels(V))
            out.append(('every element lies inside the matrix', Imp(inside, within(y, self.sz(V), j, self.ch(V)))))
        out.append(('every element is the one the definition names', Imp(inside, o + sum(a * b for a, b in zip(x, self.rstp(V))) + k * ed == self.base + sum(a * b for a, b in zip(y, self.stp(V))) + j * ed)))
        return out


class Flip(View9):
    def __init__(self, n):
        super().__init__('flip', r'flip\(int\) const', n)

    def requires(self, V):
        return super().requires(V) + [('dimension', And(0 <= V['dim'], V['dim'] < self.dims))]

    def named(self, V, x, k):
        return [z3.If(V['dim'] == i, s - 1 - a, a) for i, (a, s) in enumerate(zip(x, self.sz(V)))], k



class FlipFlags(View9):
    def __init__(self, n):
        super().__init__('flip_flags', r'flip\(int, basicsys::b8 const\*\) const', n)

    def arg_flip_flags(self, s):
        return s.ptr(s.obj('flags', 'b8', 1))

    def flags(self, V):
        return V.A('flip_flags').field('m_data')

    def requires(self, V):
        f = self.flags(V)
        return super().requires(V) + [('one flag per dimension', And(V['size'] == self.dims, f.len(V.pre) >= self.dims))]

    def named(self, V, x, k):
        f = self.flags(V)
        return [z3.If(T(f.at(V.pre, i)) != 0, s - 1 - a, a) for i, (a, s) in enumerate(zip(x, self.sz(V)))], k


class Sub(View9):
    def __init__(self, n):
        super().__init__('sub', r'sub\(int, basicmath::mt_range_t<int> const\*\) const', n)

    def arg_ranges(self, s):
        return s.ptr(s.obj('ranges', 'mt_range_t<int>', 1))

    def bounds(self, V):
        a = V.A('ranges')
        lo, hi = [T(a.field('m_start').at(V.pre, i)) for i in range(self.dims)], [T(a.field('m_end').at(V.pre, i)) for i in range(self.dims)]
        return lo, [z3.If(h == -1, s, h) for h, s in zip(hi, self.sz(V))]     # -1: to the end

    def requires(self, V):
        lo, hi = self.bounds(V)
        return super().requires(V) + [('one range per dimension', And(V['dims'] == self.dims, V.A('ranges').field('m_start').len(V.pre) >= self.dims)),
                                      ('ranges inside the sizes', And([And(0 <= a, a < b, b <= s) for a, b, s in zip(lo, hi, self.sz(V))]))]

    def shape(self, V):
        return [b - a for a, b in zip(*self.bounds(V))]

    def named(self, V, x, k):
        return [a + b for a, b in zip(self.bounds(V)[0], x)], k


class SwapDim(View9):
    def __init__(self, n):
        super().__init__('swap_dim', r'swap_dim\(int, int\) const', n)

    def requires(self, V):
        return super().requires(V) + [('dimensions', And(0 <= V['dim_a'], V['dim_a'] < self.dims, 0 <= V['dim_b'], V['dim_b'] < self.dims))]

    def swapped(self, V, x):
        a, b = V['dim_a'], V['dim_b']

        def at(p):
            r = x[-1]
            for i in reversed(range(len(x) - 1)):
                r = z3.If(p == i, x[i], r)
            return r
        return [z3.If(a == i, at(b), z3.If(b == i, at(a), x[i])) for i in range(self.dims)]

    def shape(self, V):
        return self.swapped(V, self.sz(V))

    def named(self, V, x, k):
        return self.swapped(V, x), k


class Transpose(View9):
    def __init__(self):
        super().__init__('t', r't\(\) const', 2)

    def shape(self, V):
        return self.sz(V)[::-1]

    def named(self, V, x, k):
        return x[::-1], k


class SubChannel(View9):
    def __init__(self, n):
        super().__init__('sub_channel', r'sub_channel\(int, int\) const', n)

    def requires(self, V):
        a, b = V['start_channel'], V['stop_channel']
        return super().requires(V) + [('channels', And(0 <= a, a < b, b <= self.ch(V)))]

    def channels(self, V):
        return V['stop_channel'] - V['start_channel']

    def named(self, V, x, k):
        return x, k + V['start_channel']


class ChannelAsDim(View9):
    def __init__(self, n):
        super().__init__('channel_as_last_dim', r'channel_as_last_dim\(\) const', n, n + 1)

    def shape(self, V):
        return self.sz(V) + [self.ch(V)]

    def channels(self, V):
        return z3.IntVal(1)

    def named(self, V, x, k):
        return x[:-1], x[-1] + k


class DimAsChannel(View9):
    def __init__(self, n):
        super().__init__('last_dim_as_channel', r'last_dim_as_channel\(\) const', n, n - 1)

    def requires(self, V):
        return super().requires(V) + [('one channel, dense last dimension', And(self.ch(V) == 1, self.stp(V)[-1] == Ed(self.mask(V))))]

    def shape(self, V):
        return self.sz(V)[:-1]

    def channels(self, V):
        return self.sz(V)[-1]

    def named(self, V, x, k):
        return x + [k], z3.IntVal(0)


class SplitDim(View9):
    def __init__(self, n, dim, parts):
        super().__init__('split_dim_%d_of' % dim, r'split_dim\(int, int, int\*\) const', n, n + parts - 1)
        self.dim, self.parts = dim, parts
        self.name += '_into_%d' % parts

    def arg_dim(self, s):
        return IntV(self.dim, 32, 'S')

    def arg_splited_dims(self, s):
        return IntV(self.parts, 32, 'S')

    def ps(self, V):
        return [T(V.A('splited_sizes').at(V.pre, i)) for i in range(self.parts)]

    def requires(self, V):
        p = self.ps(V)
        return super().requires(V) + [('dimension', And(V['dim'] == self.dim, V['splited_dims'] == self.parts, V.A('splited_sizes').len(V.pre) >= self.parts)), ('parts', And([And(1 <= a, a < SIZE) for a in p] + [prod(p) == self.sz(V)[self.dim]]))]

    def shape(self, V):
        s = self.sz(V)
        return s[:self.dim] + self.ps(V) + s[self.dim + 1:]

    def named(self, V, x, k):
        return x[:self.dim] + [row_major(x[self.dim:self.dim + self.parts], self.ps(V))] + x[self.dim + self.parts:], k


class Combine(View9):
    """ghost coordinates of the matrix; the result has them with the joined dimensions in row-major order"""
    reverse = True

    def arg_combined_dim_start(self, s):
        return IntV(self.dim, 32, 'S')

    def arg_combined_dim_count(self, s):
        return IntV(self.parts, 32, 'S')

    def __init__(self, n, dim, parts):
        super().__init__('combine_dim_%d_of' % dim, r'combine_dim\(int, int\) const', n, n - parts + 1)
        self.dim, self.parts = dim, parts
        self.name += '_parts_%d' % parts

    def requires(self, V):
        s, t = self.sz(V)[self.dim:self.dim + self.parts], self.stp(V)[self.dim:self.dim + self.parts]
        join = []
        for i in range(self.parts):
            for j in range(i + 1, self.parts):
                join.append(Imp(And([s[i] != 1, s[j] != 1] + [s[q] == 1 for q in range(i + 1, j)]), t[i] == t[j] * s[j]))
        return super().requires(V) + [('dimensions', And(V['combined_dim_start'] == self.dim, V['combined_dim_count'] == self.parts)), ('dimensions follow each other without gaps', And(join)), ('joined size', prod(s) < SIZE)]

    def shape(self, V):
        s = self.sz(V)
        return s[:self.dim] + [prod(s[self.dim:self.dim + self.parts])] + s[self.dim + self.parts:]

    def image(self, V, y, k):
        s = self.sz(V)
        return y[:self.dim] + [row_major(y[self.dim:self.dim + self.parts], s[self.dim:self.dim + self.parts])] + y[self.dim + self.parts:], k


class Reshape(View9):
    """source and result coordinates with the same row-major number (ghosts y and x); every step of the source negative when back"""
    def __init__(self, n, rn, back, newch):
        super().__init__('reshape_%d_to_%d%s%s' % (n, rn, '_back' if back else '', '_channels' if newch else ''), r'reshape\(int, int const\*, int\) const', n, rn)
        self.name = self.name[:-2]
        self.back, self.newch = back, newch

    def arg_dims(self, s):
        return IntV(self.rn, 32, 'S')

    def arg_new_channel(self, s):
        return IntV(-1, 32, 'S') if not self.newch else IntV(s.eng.fresh('new_channel'), 32, 'S')

    def call_hook(self, eng, st, name, dem, args, rty):
        if '::is_continuous(' in dem:      # only for an assert
            return IntV(0, 8, 'S'), st
        return super().call_hook(eng, st, name, dem, args, rty)

    def my_ghosts(self, eng, st, V):
        g = super().my_ghosts(eng, st, V)
        g.update({'y%d' % i: eng.fresh('y%d' % i) for i in range(self.dims)})
        g['j'] = eng.fresh('j')
        return g

    def channels(self, V):
        return V['new_channel'] if self.newch else self.ch(V)

    def shape(self, V):
        return [T(V.A('sizes').at(V.pre, i)) for i in range(self.rn)]

    def requires(self, V):
        s, t, rs, m = self.sz(V), self.stp(V), self.shape(V), self.mask(V)
        ed, c, rc = Ed(m), self.ch(V), self.channels(V)
        x, y = self.xs(V, self.rn), [V['y%d' % i] for i in range(self.dims)]
        dense, acc = [], Es(m)
        for i in reversed(range(self.dims)):
            dense.append(t[i] == (-acc if self.back else acc))
            acc = acc * s[i]
        out = super().requires(V) + [('new sizes', And([And(1 <= a, a < SIZE) for a in rs] + [V.A('sizes').len(V.pre) >= self.rn])), ('dense', And(dense)), ('size of an element', Es(m) == Ed(m) * c),
                                     ('the same number of elements', prod(s + [c]) == prod(rs + [rc])), ('bytes', And(prod(s + [c]) * ed < I31, *[prod(s[i:]) < I31 for i in range(self.dims)] + [prod(s[:i + 1]) < I31 for i in range(self.dims)] + [prod(rs[i:]) < I31 for i in range(self.rn)] + [prod(rs[:i + 1]) < I31 for i in range(self.rn)])),
                                     ('the same place in row-major order (definition of the ghosts)', row_major(x + [V['k']], rs + [rc]) == row_major(y + [V['j']], s + [c]) if self.newch else And(row_major(x, rs) == row_major(y, s), V['k'] == V['j']))]
        if self.newch:
            nm = (rc - 1) * 65536 + self.depth(V)
            out.append(('new channels', And(1 <= rc, rc <= 32768)))
            out.append(('bytes of an element of the result (definition)', And(Es(nm) == ed * rc, Ed(nm) == ed)))
            acc, b = Es(nm), []
            for a in reversed(rs):
                acc = acc * a
                b += [acc < I31]
            out.append(('bytes of the slices of the result', And(b)))
        return out

    def named(self, V, x, k):
        return [V['y%d' % i] for i in range(self.dims)], V['j']

    def ensures(self, V):
        return [e for e in super().ensures(V) if e[0] != 'every element lies inside the matrix']


def prod(l):
    r = l[0]
    for a in l[1:]:
        r = r * a
    return r


def row_major(x, s):
    r = x[0]
    for a, b in zip(x[1:], s[1:]):
        r = r * b + a
    return r


N = (1, 2, 3, 4, 5, 6)
CONTRACTS = BYTES + [c(n) for c in (Flip, FlipFlags, SwapDim) for n in (1, 2, 3, 4)] + [c(n) for c in (Sub, SubChannel, ChannelAsDim) for n in N] + [DimAsChannel(n) for n in (2, 3, 4, 5, 6)] + [Transpose()]
CONTRACTS += [SplitDim(n, d, p) for p in (2, 3) for n in N for d in range(n)]
CONTRACTS += [Combine(n, d, p) for p in (2, 3) for n in N for d in range(n - p + 1)]
CONTRACTS += [Reshape(n, r, b, c) for n in (1, 2, 3) for r in (1, 2, 3, 5) for b, c in ((0, 0), (1, 0), (0, 1))]
