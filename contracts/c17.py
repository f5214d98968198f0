"""Element type codes."""
from irv.contract import *

ID = 'C17'
DRIVERS = {'type': ('basicmath', """
#include "stdafx.h"
using namespace basicmath;
void make_type(mt_Depth_Channel& r, mt_Depth d, i32 c) { r = mt_Depth_Channel(d, c); }
i32 use(const mt_Depth_Channel& a, const mt_Depth_Channel& b) { return a.channel() + a.depth() + a.depth_size() + a.size() + (a == b) + (a != b); }
""")}
HARNESS = {'sources': ['basicmath/src/mt_helper.cpp', 'basicmath/src/mt_data_type.cpp', 'basicsys/*', 'basiclog/*'], 'module': 'basicmath',
           'rule': 'every depth with every channel count 1..32768, all pairs of a sample, all named types, text form and back; a case is one (depth, channels) not tried before'}
NOTE = 'proved for every depth and every channel count 1..32768: the code is (channels-1)*2^16 + depth, decoding gives depth, channels, depth size, element size; two codes are equal exactly when depth and channels are. The text form is checked at run time only.'
ASSUMPTIONS = ['channel counts 1..32768', 'byte sizes for the ten built-in depths (a user depth has none)']
BOUNDED = ['depth_str, depth_i32, depth_channel_str, depth_channel_i32 (strings): every depth, channel counts 1..32768']
D = r'(.* )?basicmath::mt_Depth_Channel::'
SIZES = [1, 1, 2, 2, 4, 4, 8, 8, 4, 8]


def mask(V, arg):
    """name of the only member (a temporary has no debug type)"""
    return obj_region(V.arg(arg))[0].leaves[0].name


def code(d, c):
    return (c - 1) * 65536 + d


def okdc(d, c):
    return And(0 <= d, d <= 10, 1 <= c, c <= 32768)


class Base(Contract):
    driver = 'type'
    objs = ('this',)

    def my_ghosts(self, eng, st, V):
        g = {}
        for o in self.objs:
            g['d_' + o], g['c_' + o] = eng.fresh('depth'), eng.fresh('channels')
        return g

    def requires(self, V):
        out = []
        for o in self.objs:
            out += [('a code of depth and channels', And(okdc(V['d_' + o], V['c_' + o]), V.field(o, mask(V, o)) == code(V['d_' + o], V['c_' + o])))]
        return out


class Make(Contract):
    driver = 'type'
    name = 'make'
    match = r'make_type'

    def args_(self, V):
        return V['d'], V['c']

    def requires(self, V):
        return [('depth and channels', okdc(*self.args_(V)))]

    def ensures(self, V):
        return [('code', V.field('r', mask(V, 'r'), V.post) == code(*self.args_(V)))]

    def modifies(self, V):
        return [ModField(V.arg('r'), mask(V, 'r'))]


class Ctor(Contract):
    driver = 'type'
    name = 'constructor'
    match = D + r'mt_Depth_Channel\(basicmath::mt_Depth'

    def requires(self, V):
        return [('depth and channels', okdc(V['depth'], V['channel']))]

    def ensures(self, V):
        return [('code', V.field('this', mask(V, 'this'), V.post) == code(V['depth'], V['channel']))]

    def modifies(self, V):
        return [ModField(V.arg('this'), mask(V, 'this'))]


class Get(Base):
    def __init__(self, name, match, f, builtin=False):
        self.name, self.match, self.f, self.builtin = name, D + match, f, builtin

    def requires(self, V):
        return super().requires(V) + ([('built-in depth', V['d_this'] <= 9)] if self.builtin else [])

    def ensures(self, V):
        return [(self.name, V.r == self.f(V['d_this'], V['c_this']))]

    def ghosts_for(self, callee, eng, st, view):
        return {k: eng.V0.ghosts[k] for k in ('d_this', 'c_this')}


def dsize(d):
    r = z3.IntVal(SIZES[9])
    for i in range(8, -1, -1):
        r = z3.If(d == i, SIZES[i], r)
    return r


class Eq(Base):
    objs = ('this', 'other')

    def __init__(self, name, match, neg):
        self.name, self.match, self.neg = name, D + match, neg

    def ensures(self, V):
        same = And(V['d_this'] == V['d_other'], V['c_this'] == V['c_other'])
        return [('equal exactly for equal depth and channels', Iff(V.r != 0, Not(same) if self.neg else same))]

    def ghosts_for(self, callee, eng, st, view):
        return dict(eng.V0.ghosts)


CONTRACTS = [Ctor(), Make(), Get('depth', r'depth\(\)', lambda d, c: d), Get('channel', r'channel\(\)', lambda d, c: c),
             Get('depth_size', r'depth_size\(\)', lambda d, c: dsize(d), True), Get('size', r'size\(\)', lambda d, c: dsize(d) * c, True),
             Eq('equal', r'operator==', False), Eq('not_equal', r'operator!=', True)]
