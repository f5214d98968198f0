"""Convolution and pooling sizes."""
from irv.contract import *

ID = 'C13'
DRIVERS = {'mh': ('basicmath', 'basicmath/src/mt_mat_helper.cpp')}
HARNESS = {'sources': ['basicmath/*', 'basicsys/*', 'basiclog/*'], 'module': 'basicmath',
           'rule': 'every input size 0..40 with every kernel and stride 1..12 against counted placements; pooling of matrices of one to four axes, one to three channels, own storage and views, all reductions, against a direct evaluation of the windows; a case is one such tuple not tried before'}
NOTE = 'proved for all sizes: number of kernel placements for the three border modes, number of pooling windows (least number that reaches the end), for one axis and for arrays of axes of any length. Pooled values only by the run-time check.'
ASSUMPTIONS = ['sizes, kernels and strides at least 1 (a source axis of a pooling may be empty); valid convolutions have a kernel not larger than the input', 'src + kernel + stride below 2^31']
BOUNDED = ['mt_mat::pooling: generated matrices up to 9 elements per axis']
H = r'basicmath::mt_mat_helper::%s'
LIM = 1 << 29
_c, _s = z3.Int('vl_c'), z3.Int('vl_s')
DIST = Pure(And((_c + 1) * _s == _c * _s + _s, (_c - 1) * _s == _c * _s - _s))


def small(*x):
    return And([And(1 <= a, a < LIM) for a in x])


def total(t, n, k):
    return z3.If(t == 1, n + k - 1, z3.If(t == 2, n, n - k + 1))


def conv_ok(n, k, s, t):
    return And(small(n, k, s), 0 <= t, t <= 2, Imp(t == 0, k <= n))


def conv_is(r, n, k, s, t):
    """r placements at 0, s, 2s, ... below the number of positions"""
    p = total(t, n, k)
    return And(r >= 1, (r - 1) * s < p, r * s >= p)


def pool_is(r, n, k, s):
    return And(r >= 0, Imp(n == 0, r == 0), Imp(n > 0, And(r >= 1, (r - 1) * s < n, Or((r - 1) * s + k >= n, r * s >= n), Imp(r > 1, And((r - 2) * s + k < n)))))


class Conv(Contract):
    driver = 'mh'
    name = 'conv_size'
    match = H % r'get_conv_result_size\(int, int, int, '

    def requires(self, V):
        return [('sizes', conv_ok(V['src_size'], V['kernel_size'], V['stride'], V['boundary_type']))]

    def ensures(self, V):
        n, k, s, t = V['src_size'], V['kernel_size'], V['stride'], V['boundary_type']
        return [('number of placements', conv_is(V.r, n, k, s, t))]


class Pool(Contract):
    driver = 'mh'
    name = 'pooling_size'
    match = H % r'get_pooling_result_size\(int, int, int\)'

    def requires(self, V):
        return [('sizes', And(small(V['kernel_size'], V['stride']), 0 <= V['src_size'], V['src_size'] < LIM))]

    def ensures(self, V):
        return [('least number of windows that reaches the end', pool_is(V.r, V['src_size'], V['kernel_size'], V['stride']))]

    def invs(self, L):
        V = L.V
        n, k, s = V['src_size'], V['kernel_size'], V['stride']
        for c in L._names():
            for p in L._names():
                if c != p:
                    yield 'windows %s up to %s' % (c, p), lambda S, c=c, p=p: And(S.v(c) >= 0, S.v(p) == S.v(c) * s, S.v(p) < n + s, S.v(p) >= S.v(c), Imp(S.v(c) >= 1, And(S.v(p) - s + k < n)))

    def lemmas(self, L, S):
        s = L.V['stride']
        for c in L._names():
            yield 'multiples of the stride (%s)' % c, [DIST], DIST.at((_c, S.v(c)), (_s, s))
            yield 'multiples of the stride (%s - 1)' % c, [DIST], DIST.at((_c, S.v(c) - 1), (_s, s))


class ConvAll(Contract):
    driver = 'mh'
    name = 'conv_sizes'
    match = H % r'get_conv_result_size\(int, int\*'
    res = 'res_sizes'

    def arrs(self, V, st):
        src, ker = V.A('src_sizes', st), V.A('kernel_sizes', st)
        return src, ker

    def stride(self, V, st):
        p = V.arg('stride_sizes')
        nn = [t for c, t in p.cases if t is not NULL]
        nul = bor(*[c for c, t in p.cases if t is NULL])
        if not nn:
            return lambda k: z3.IntVal(1)
        a = resolve_arr(V.eng, st, PtrV([(True, nn[0])]))
        return lambda k: z3.If(B(nul), z3.IntVal(1), a.at(st, k))

    def arg_stride_sizes(self, s):
        r = s.basic('stride_sizes', 32, 'S')
        b = z3.Bool('no_strides')
        return PtrV([(b, NULL), (z3.Not(b), s.ptr(r).cases[0][1])])

    def requires(self, V):
        src, ker = self.arrs(V, V.pre)
        s = self.stride(V, V.pre)
        t = V['boundary_type']
        nn = [t for c, t in V.arg('stride_sizes').cases if t is not NULL]
        out = [('sizes', fa(lambda i: Imp(And(0 <= i, i < V['dims']), conv_ok(src.at(V.pre, i), ker.at(V.pre, i), s(i), t)))), ('dims', And(0 <= V['dims'], V['dims'] < LIM)), ('border', And(0 <= t, t <= 2))]
        for a in (src, ker, V.A(self.res)):
            out.append(('length', a.len(V.pre) >= V['dims']))
        if nn:
            out.append(('length', resolve_arr(V.eng, V.pre, PtrV([(True, nn[0])])).len(V.pre) >= V['dims']))
        return out

    def post_at(self, V, st, i):
        src, ker = self.arrs(V, V.pre)
        return conv_is(V.A(self.res).at(st, i), src.at(V.pre, i), ker.at(V.pre, i), self.stride(V, V.pre)(i), V['boundary_type'])

    def ensures(self, V):
        return [('every axis', fa(lambda i: Imp(And(0 <= i, i < V['dims']), self.post_at(V, V.post, i))))]

    def invs(self, L):
        V = L.V
        for i in L._names():
            yield 'axes below %s done' % i, lambda S, i=i: And(S.v(i) >= 0, S.v(i) <= V['dims'], fa(lambda k: Imp(And(0 <= k, k < S.v(i)), self.post_at(V, S.st, k))))

    def modifies(self, V):
        return [ModArr(V.A(self.res), 0, V['dims'])]


class PoolAll(ConvAll):
    name = 'pooling_sizes'
    match = H % r'get_pooling_result_size\(int, int\*'
    res = 'res_sizes'

    def arg_stride_sizes(self, s):
        return None

    def requires(self, V):
        src, ker = self.arrs(V, V.pre)
        s = V.A('stride_sizes')
        out = [('sizes', fa(lambda i: Imp(And(0 <= i, i < V['dims']), And(small(ker.at(V.pre, i), s.at(V.pre, i)), 0 <= src.at(V.pre, i), src.at(V.pre, i) < LIM)))), ('dims', And(0 <= V['dims'], V['dims'] < LIM))]
        for a in (src, ker, s, V.A(self.res)):
            out.append(('length', a.len(V.pre) >= V['dims']))
        return out

    def post_at(self, V, st, i):
        src, ker = self.arrs(V, V.pre)
        return pool_is(V.A(self.res).at(st, i), src.at(V.pre, i), ker.at(V.pre, i), V.A('stride_sizes').at(V.pre, i))


CONTRACTS = [Conv(), Pool(), ConvAll(), PoolAll()]
