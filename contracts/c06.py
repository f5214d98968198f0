"""Rectangles, ranges and points as sets of points."""
from irv.contract import *

ID = 'C06'
DRIVERS = {'rect': ('basicmath', """
#include "stdafx.h"
template class basicmath::mt_rect_t<int>;
template class basicmath::mt_range_t<int>;
template class basicmath::mt_point_t<int>;
""")}
HARNESS = {'sources': ['basicmath/src/mt_helper.cpp', 'basicsys/*', 'basiclog/*'], 'module': 'basicmath',
           'rule': 'all pairs of rectangles with corners in a small window (empty ones included), every point of the window: each operation compared with the operation on the point sets; random large rectangles by closed form'}
NOTE = 'proved for element type int and all rectangles of non-negative size with coordinates and sizes below 2^29: corners, area, containment, border, intersection = common points, union = smallest rectangle, moving, growing, clamping, squaring, distances. Overlap ratios (floating point) and scaling only by the run-time check.'
ASSUMPTIONS = ['coordinates and sizes below 2^29 in absolute value, areas below 2^31', 'element type int for the proofs']
R = r'(.* )?basicmath::mt_rect_t<int>::'
LIM = 1 << 29
F4 = ('m_left', 'm_top', 'm_width', 'm_height')


def fields(V, arg, names, st):
    r, _ = obj_region(V.arg(arg))
    have = [l.name for l in r.leaves]
    if names[0] not in have:
        names = have[:len(names)]       # a temporary without debug type: members by position
    return tuple(V.field(arg, f, st) for f in names)


def rect(V, arg, st=None):
    return fields(V, arg, F4, st)


def point(V, arg, st=None):
    return fields(V, arg, ('m_x', 'm_y'), st)


def size(V, arg, st=None):
    return fields(V, arg, ('m_width', 'm_height'), st)


def inside(r, x, y):
    return And(r[0] <= x, x < r[0] + r[2], r[1] <= y, y < r[1] + r[3])


def nonempty(r):
    return And(r[2] >= 1, r[3] >= 1)


def empty(r):
    return And(r[2] == 0, r[3] == 0)


def same(r, f):
    """the rectangle holds exactly the points for which f"""
    return fa(lambda x, y: Iff(inside(r, x, y), f(x, y)))


def small(*xs):
    return And([And(x > -LIM, x < LIM) for x in xs])


def imax(a, b):
    return z3.If(a > b, a, b)


def imin(a, b):
    return z3.If(a < b, a, b)


def ret_parts(V, n):
    x = V.ret
    if isinstance(x, PackedV):
        out = []
        for p in sorted(x.parts, key=lambda p: p[0]):
            out.append(T(V.eng.sgn(V.post, p[2])))
        return out
    t = T(V.eng.uns(V.post, x))
    out = []
    for j in range(n):
        u = (t / (1 << (32 * j))) % (1 << 32)
        out.append(z3.If(u >= 1 << 31, u - (1 << 32), u))
    return out


def ret_rect(V):
    return rect(V, '__sret', V.post)


class C(Contract):
    plim = 2 * LIM

    def __init__(self, name, match, ens, rect_args=('this',), points=(), sizes=(), ints=(), req=None, changes=(), sret=False):
        self.name, self.match = name, R + match
        self.ens, self.rect_args, self.points, self.sizes, self.ints, self.req, self.changes_, self.sret = ens, rect_args, points, sizes, ints, req, changes, sret
        self.driver = 'rect'
        if name == 'append_point':
            self.plim = LIM

    def requires(self, V):
        out = []
        for a in self.rect_args:
            r = rect(V, a, V.pre)
            out.append(('small ' + a, small(*r)))
            out.append(('sizes of %s not negative' % a, And(r[2] >= 0, r[3] >= 0)))
        for a in self.points:
            out.append(('small ' + a, And([And(x > -self.plim, x < self.plim) for x in point(V, a, V.pre)])))
        for a in self.sizes:
            out.append(('small ' + a, small(*size(V, a, V.pre))))
        for a in self.ints:
            out.append(('small ' + a, small(V[a])))
        if self.req:
            out += [('case', f) for f in [self.req(V)]]
        return out

    def ensures(self, V):
        return self.ens(V)

    def make_ret(self, V, rty):
        if rty == ('i', 64):
            return PackedV([(32 * j, 32, V.eng.fresh_int('ret%d' % j, 32)) for j in range(2)], 64)
        return super().make_ret(V, rty)

    def modifies(self, V):
        out = []
        for a, fs in self.changes_:
            out += [ModField(V.arg(a), f) for f in fs]
        if self.sret:
            out += [ModField(V.arg('__sret'), f) for f in F4]
        return out


def this(V):
    return rect(V, 'this', V.pre)


def now(V):
    return rect(V, 'this', V.post)


T4 = (('this', F4),)
XY = ('m_x', 'm_y')
E = lambda f: [('value', f)]


def area_ok(V):
    r = this(V)
    return r[2] * r[3] < 1 << 31


def corner(nm, fx):
    return C(nm, nm + r'\(\)', lambda V: E(And(*[a == b for a, b in zip(ret_parts(V, 2), fx(this(V)))])))


def moved(sign, get):
    def f(V):
        r, p = this(V), point(V, 'other', V.pre)
        return [('every point is moved', same(get(V), lambda x, y: inside(r, x - sign * p[0], y - sign * p[1]))), ('corner and size', And(get(V)[0] == r[0] + sign * p[0], get(V)[1] == r[1] + sign * p[1], get(V)[2] == r[2], get(V)[3] == r[3]))]
    return f


def resized(sign, get):
    def f(V):
        r, p = this(V), size(V, 'other', V.pre)
        g = get(V)
        return [('corner kept, sides changed', And(g[0] == r[0], g[1] == r[1], g[2] == r[2] + sign * p[0], g[3] == r[3] + sign * p[1]))]
    return f


def union_of(r, others):
    """smallest: holds every point of the parts and touches a part on every side"""
    def f(V):
        n = now(V)
        parts = [p for p in others(V)]
        out = [('holds the old points', fa(lambda x, y: Imp(inside(this(V), x, y), inside(n, x, y)))),
               ('holds the new points', fa(lambda x, y: Imp(inside(parts[0], x, y), inside(n, x, y)))),
               ('every rectangle that holds both holds it', fa(lambda a, b, c, d: Imp(And(c >= a, d >= b, *[Imp(nonempty(q), And(a <= q[0], q[0] + q[2] - 1 <= c, b <= q[1], q[1] + q[3] - 1 <= d)) for q in [this(V)] + parts], Or(nonempty(this(V)), nonempty(parts[0]))), And(a <= n[0], n[0] + n[2] - 1 <= c, b <= n[1], n[1] + n[3] - 1 <= d, nonempty(n)))))]
        return out
    return f


def regular(*rs):
    return And([Or(nonempty(r), empty(r)) for r in rs])


def inter(V):
    a, b = this(V), rect(V, 'rect', V.pre)
    return And(nonempty(a), nonempty(b), imax(a[0], b[0]) <= imin(a[0] + a[2] - 1, b[0] + b[2] - 1), imax(a[1], b[1]) <= imin(a[1] + a[3] - 1, b[1] + b[3] - 1))


def dist(k, n):
    def f(V):
        a, b = this(V), rect(V, 'other', V.pre)
        la, ra, lb, rb = a[k], a[k] + a[n] - 1, b[k], b[k] + b[n] - 1
        # smallest difference of coordinates of two points
        return [('no pair of columns is closer', fa(lambda x, y: Imp(And(la <= x, x <= ra, lb <= y, y <= rb), And(x - y <= -V.r if False else Or(x - y >= V.r, y - x >= V.r))))),
                ('some pair of columns has this distance', And(V.r >= 0, Or(And(V.r == 0, imax(la, lb) <= imin(ra, rb)), V.r == lb - ra, V.r == la - rb)))]
    return f


def clamp(v, lo, hi):
    return z3.If(v < lo, lo, z3.If(v > hi, hi, v))


def clamped(V):
    r, p, q = this(V), point(V, 'pt', V.pre), point(V, 'pt', V.post)
    return [('nearest point of the rectangle', And(inside(r, *q), q[0] == clamp(p[0], r[0], r[0] + r[2] - 1), q[1] == clamp(p[1], r[1], r[1] + r[3] - 1)))]


def clamped_rect(V):
    r, p, q = this(V), rect(V, 'rect', V.pre), rect(V, 'rect', V.post)
    return [('stays inside', fa(lambda x, y: Imp(inside(q, x, y), inside(r, x, y)))),
            ('keeps the common points', fa(lambda x, y: Imp(And(inside(r, x, y), inside(p, x, y)), inside(q, x, y)))),
            ('keeps only common points when there are any', Imp(And(imax(r[0], p[0]) <= imin(r[0] + r[2] - 1, p[0] + p[2] - 1), imax(r[1], p[1]) <= imin(r[1] + r[3] - 1, p[1] + p[3] - 1)), fa(lambda x, y: Imp(inside(q, x, y), inside(p, x, y)))))]


def square(grow):
    def f(V):
        r, n = this(V), now(V)
        m = imax(r[2], r[3]) if grow else imin(r[2], r[3])
        big, sml = (n, r) if grow else (r, n)
        return [('a square of the %s side' % ('longer' if grow else 'shorter'), And(n[2] == m, n[3] == m)),
                ('nested', And(big[0] <= sml[0], big[1] <= sml[1], sml[0] + sml[2] <= big[0] + big[2], sml[1] + sml[3] <= big[1] + big[3])),
                ('centred up to one', And(*[And(a - b <= 1, b - a <= 1) for a, b in ((sml[0] - big[0], big[0] + big[2] - sml[0] - sml[2]), (sml[1] - big[1], big[1] + big[3] - sml[1] - sml[3]))]))]
    return f


def grown(V):
    r, n = this(V), now(V)
    l, t, rr, b = V['leftOffset'], V['topOffset'], V['rightOffset'], V['bottomOffset']
    return [('every side moves by its offset', And(n[0] == r[0] - l, n[1] == r[1] - t, n[0] + n[2] == r[0] + r[2] + rr, n[1] + n[3] == r[1] + r[3] + b))]


def corners(V):
    a, b, n = point(V, 'left_top', V.pre), point(V, 1 if 'right_bottom' not in V.byname and 'rightBottom' not in V.byname else ('right_bottom' if 'right_bottom' in V.byname else 'rightBottom'), V.pre), now(V)
    return [('exactly the points between the corners', And(same(n, lambda x, y: And(a[0] <= x, x <= b[0], a[1] <= y, y <= b[1])), n[0] == a[0], n[1] == a[1], n[2] == b[0] - a[0] + 1, n[3] == b[1] - a[1] + 1))]


def by_size(V):
    a, s, n = point(V, 'left_top', V.pre), size(V, 'size', V.pre), now(V)
    return [('corner and size', And(n[0] == a[0], n[1] == a[1], n[2] == s[0], n[3] == s[1]))]


def by_four(V):
    n = now(V)
    return [('four numbers', And(n[0] == V['left'], n[1] == V['top'], n[2] == V['width'], n[3] == V['height']))]


def interior(r, p):
    return And(r[0] < p[0], p[0] < r[0] + r[2] - 1, r[1] < p[1], p[1] < r[1] + r[3] - 1)


PT = r'basicmath::mt_point_t<int>'
SZ = r'basicmath::mt_size_t<int>'
RC = r'basicmath::mt_rect_t<int>'
b = lambda V: V.r != 0
CONTRACTS = [
    C('right', r'right\(\)', lambda V: E(V.r == this(V)[0] + this(V)[2] - 1)),
    C('bottom', r'bottom\(\)', lambda V: E(V.r == this(V)[1] + this(V)[3] - 1)),
    corner('tl', lambda r: (r[0], r[1])),
    corner('tr', lambda r: (r[0] + r[2] - 1, r[1])),
    corner('bl', lambda r: (r[0], r[1] + r[3] - 1)),
    corner('br', lambda r: (r[0] + r[2] - 1, r[1] + r[3] - 1)),
    corner('center', lambda r: (r[0] + r[2] / 2, r[1] + r[3] / 2)),
    corner('size', lambda r: (r[2], r[3])),
    C('getArea', r'getArea', lambda V: [('number of points', V.r == this(V)[2] * this(V)[3])], req=area_ok),
    C('max_size', r'max_size', lambda V: E(V.r == imax(this(V)[2], this(V)[3]))),
    C('min_size', r'min_size', lambda V: E(V.r == imin(this(V)[2], this(V)[3]))),
    C('empty', r'empty', lambda V: E(Iff(b(V), empty(this(V))))),
    C('set_empty', r'set_empty', lambda V: [('no points', And(empty(now(V)), same(now(V), lambda x, y: z3.BoolVal(False))))], changes=(('this', F4[2:]),)),
    C('equal', r'operator==', lambda V: E(Iff(b(V), And(*[x == y for x, y in zip(this(V), rect(V, 'other', V.pre))]))), rect_args=()),
    C('differ', r'operator!=', lambda V: E(Iff(b(V), Not(And(*[x == y for x, y in zip(this(V), rect(V, 'other', V.pre))])))), rect_args=()),
    C('plus_point', r'operator\+\(%s' % PT, moved(1, ret_rect), points=('other',), sret=True),
    C('minus_point', r'operator-\(%s' % PT, moved(-1, ret_rect), points=('other',), sret=True),
    C('add_point', r'operator\+=\(%s' % PT, moved(1, now), points=('other',), changes=T4),
    C('sub_point', r'operator-=\(%s' % PT, moved(-1, now), points=('other',), changes=T4),
    C('plus_size', r'operator\+\(%s' % SZ, resized(1, ret_rect), sizes=('other',), sret=True),
    C('minus_size', r'operator-\(%s' % SZ, resized(-1, ret_rect), sizes=('other',), sret=True),
    C('add_size', r'operator\+=\(%s' % SZ, resized(1, now), sizes=('other',), changes=T4),
    C('sub_size', r'operator-=\(%s' % SZ, resized(-1, now), sizes=('other',), changes=T4),
    C('set_rect_corners', r'set_rect\(%s const&, %s' % (PT, PT), corners, rect_args=(), points=('left_top', 'right_bottom'), changes=T4),
    C('set_rect_size', r'set_rect\(%s const&, %s' % (PT, SZ), by_size, rect_args=(), changes=T4),
    C('set_rect_four', r'set_rect\(int', by_four, rect_args=(), changes=T4),
    C('ctor_corners', r'mt_rect_t\(%s const&, %s' % (PT, PT), corners, rect_args=(), points=('left_top', 'rightBottom'), changes=T4),
    C('ctor_size', r'mt_rect_t\(%s const&, %s' % (PT, SZ), by_size, rect_args=(), changes=T4),
    C('ctor_four', r'mt_rect_t\(int', by_four, rect_args=(), changes=T4),
    C('contain_point', r'contain\(%s const&\) const' % PT, lambda V: E(Iff(b(V), inside(this(V), *point(V, 'point', V.pre)))), points=('point',)),
    C('contain_point_2', r'contain\(%s const&\)$' % PT, lambda V: E(Iff(b(V), inside(this(V), *point(V, 'pt', V.pre)))), points=('pt',)),
    C('contain_rect', r'contain\(%s const&\) const' % RC, lambda V: [('holds every point', Iff(b(V), fa(lambda x, y: Imp(inside(rect(V, 'rect', V.pre), x, y), inside(this(V), x, y)))))], rect_args=('this', 'rect'), req=lambda V: nonempty(rect(V, 'rect', V.pre))),
    C('boundary', r'boundary', lambda V: [('holds the point but not inside', Iff(b(V), And(inside(this(V), *point(V, 'point', V.pre)), Not(interior(this(V), point(V, 'point', V.pre))))))], points=('point',), req=lambda V: nonempty(this(V))),
    C('in_boundary', r'in_boundary', lambda V: [('for points of the rectangle: not inside', Iff(b(V), Not(interior(this(V), point(V, 'point', V.pre)))))], points=('point',), req=lambda V: inside(this(V), *point(V, 'point', V.pre))),
    C('intersect', r'is_intersect\(%s&' % RC, lambda V: [('true exactly when there is a common point', Iff(b(V), inter(V))), ('exactly the common points', Imp(b(V), same(rect(V, 'intersectRect', V.post), lambda x, y: And(inside(this(V), x, y), inside(rect(V, 'rect', V.pre), x, y)))))], rect_args=('this', 'rect'), changes=(('intersectRect', F4),)),
    C('intersects', r'is_intersect\(%s const&\)' % RC, lambda V: [('true exactly when there is a common point', Iff(b(V), inter(V)))], rect_args=('this', 'rect')),
    C('adjust', r'adjust\(', grown, ints=('leftOffset', 'topOffset', 'rightOffset', 'bottomOffset'), changes=T4),
    C('append_point', r'adjust_by_append_point', union_of(None, lambda V: [point(V, 'point', V.pre) + (z3.IntVal(1), z3.IntVal(1))]), points=('point',), req=lambda V: regular(this(V)), changes=T4),
    C('append_rect', r'adjust_by_append_rect', union_of(None, lambda V: [rect(V, 'appendRect', V.pre)]), rect_args=('this', 'appendRect'), req=lambda V: regular(this(V), rect(V, 'appendRect', V.pre)), changes=T4),
    C('validate_point', r'validate_point', clamped, points=('pt',), req=lambda V: nonempty(this(V)), changes=(('pt', XY),)),
    C('validate_rect', r'validate_rect', clamped_rect, rect_args=('this', 'rect'), req=lambda V: And(nonempty(this(V)), nonempty(rect(V, 'rect', V.pre))), changes=(('rect', F4),)),
    C('expand', r'expand', square(True), changes=T4),
    C('shrink', r'shrink', square(False), changes=T4),
    C('horizontal_dist', r'horizontal_dist', dist(0, 2), rect_args=('this', 'other'), req=lambda V: And(nonempty(this(V)), nonempty(rect(V, 'other', V.pre)))),
    C('vertical_dist', r'vertical_dist', dist(1, 3), rect_args=('this', 'other'), req=lambda V: And(nonempty(this(V)), nonempty(rect(V, 'other', V.pre)))),
]


class P(Contract):
    driver = 'rect'

    def __init__(self, name, match, ens, changes=()):
        self.name, self.match, self.ens = name, match, ens

    def requires(self, V):
        return [('small ' + a, small(*point(V, a, V.pre))) for a in ('this', 'other')]

    def ensures(self, V):
        a, c = point(V, 'this', V.pre), point(V, 'other', V.pre)
        return self.ens(V, a, c)


class RangeSize(Contract):
    driver = 'rect'
    name = 'range_size'
    match = r'(.* )?basicmath::mt_range_t<int>::size'

    def requires(self, V):
        return [('small', small(V.field('this', 'm_start'), V.field('this', 'm_end')))]

    def ensures(self, V):
        return [('number of positions', V.r == V.field('this', 'm_end', V.pre) - V.field('this', 'm_start', V.pre))]


PP = r'(.* )?basicmath::mt_point_t<int>::'
CONTRACTS += [P('point_plus', PP + r'operator\+', lambda V, a, c: E(And(*[x == y + z for x, y, z in zip(ret_parts(V, 2), a, c)]))),
              P('point_minus', PP + r'operator-', lambda V, a, c: E(And(*[x == y - z for x, y, z in zip(ret_parts(V, 2), a, c)]))),
              P('point_equal', PP + r'operator==', lambda V, a, c: E(Iff(V.r != 0, And(a[0] == c[0], a[1] == c[1])))), RangeSize()]
