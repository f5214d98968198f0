"""Byte buffers."""
from irv.contract import *

ID = 'C14'
DRIVERS = {'buf': ('basicsys', '#include "stdafx.h"\n#include "sys_buffer.cpp"\n', ['-I/repo/basicsys/src'])}
HARNESS = {'sources': ['basicsys/*', 'basiclog/*'], 'module': 'basicsys', 'leaks': True, 'rule': 'random histories of typed values, strings, vectors and byte ranges written to byte and string buffers and files, with seeks, read back and compared with a plain byte sequence'}
ASSUMPTIONS = [
    'the byte range written and the byte range read into lie outside the buffer itself; a buffer pointer and a size belong together',
    'positions and sizes stay below 2^31 (the code keeps sizes in 32-bit integers)',
    'a virtual call is resolved to the table of the class under contract; other subclasses are exercised by the run-time check',
    'std::vector<u8>::insert(end, count, value) is modelled; fopen, fread, fwrite, fseek and fclose of the C library are trusted',
]
NOTE = ('Contracts: writing any bytes at any position of a byte buffer (the old bytes kept, the gap filled, exactly the new ones written, '
        'position advanced), seeking in writers and readers, reading any number of bytes (complete or, when too few are left, nothing but the '
        'status changed), the end test, and every typed write and read forwards exactly the bytes of its value once. Strings, vectors, lines, '
        'string buffers and files are decided by the run-time check only.')
BOUNDED = ['string buffers, string, vector and boolean values of byte buffers, lines, and buffers of files: random histories against a plain byte sequence']
CLS = 'basicsys::sys_byte_buffer_%s'
VEC = 'vector<unsigned char, std::__1::allocator<unsigned char> >'
LIM = 1 << 31


def vt(s, name):
    r, _ = obj_region(s.by['this'])
    cls = '%d%s' % (len(name), name)
    r.vt = s.eng.vtable('N8basicsys%sE' % cls)
    return r


class Buf(Contract):
    driver = 'buf'
    auto = False
    kind = 'writer'

    def __init__(self, name, sig):
        self.name, self.match = self.kind + '_' + name, CLS % self.kind + '::' + sig

    def serves(self, cur):
        return False

    def call_hook(self, eng, st, name, dem, args, rty):
        if 'log_logger::get_logger' in dem:
            return PtrV([(True, NULL)]), st

    def prepare(self, s, args):
        r = vt(s, 'sys_byte_buffer_' + self.kind)
        st = s.st
        put = lambda m, v: st.mem.__setitem__((r, r.leaf(m).idx), v)
        if self.kind == 'writer':
            self.prepare_writer(s, r, put)
        else:
            self.bytes = s.basic('bytes', 8, 'U')
            self.n = s.eng.fresh('size')
            put('m_begin', PtrV([(True, Loc(self.bytes, Lin(0), ()))]))
            put('m_end', PtrV([(True, Loc(self.bytes, lin_of(self.n), ()))]))

    def prepare_writer(self, s, r, put):
        put('m_buffer', PtrV([(True, Loc(s.obj('buffer', VEC), Lin(0), ()))]))

    def pos(self, V, st):
        return V.field('this', 'm_position', st)

    def status(self, V, st):
        return V.field('this', 'm_io_status', st)

    # writer
    def buf(self, V):
        return V.farr('this', 'm_buffer', V.pre)

    def src(self, V):
        return Arr(V.eng, self.bytes, (), 0)


class Write(Buf):
    """writer over any bytes at any position"""
    modifies_all = True

    def arg_buffer_start(self, s):
        self.srcr = s.basic('source', 8, 'U')
        return s.ptr(self.srcr)

    def arg_buffer_end(self, s):
        self.cnt = s.eng.fresh('count')
        return PtrV([(True, Loc(self.srcr, lin_of(self.cnt), ()))])

    def source(self, V):
        return Arr(V.eng, self.srcr, (), 0)

    def requires(self, V):
        L, p = T(self.buf(V).len(V.pre)), self.pos(V, V.pre)
        return [('source', And(0 <= self.cnt, self.cnt < LIM, self.source(V).len(V.pre) >= self.cnt)), ('position', And(0 <= p, p < LIM, p + self.cnt < LIM, L < LIM))]

    def parts(self, V, st, done):
        b, L, p = self.buf(V), T(self.buf(V).len(V.pre)), self.pos(V, V.pre)
        n = T(b.len(st))
        at, old, src = (lambda k: T(b.at(st, k))), (lambda k: T(b.at(V.pre, k))), (lambda k: T(self.source(V).at(V.pre, k)))
        return [('length', n == z3.If(p + self.cnt > L, p + self.cnt, L)),
                ('the bytes written', fa(lambda k: Imp(And(p <= k, k < p + done), at(k) == src(k - p)), pats=lambda k: [at(k)])),
                ('every other byte stays', fa(lambda k: Imp(And(0 <= k, k < L, Or(k < p, k >= p + done)), at(k) == old(k)), pats=lambda k: [at(k)])),
                ('a gap is filled with zeros', fa(lambda k: Imp(And(L <= k, k < p), at(k) == 0), pats=lambda k: [at(k)]))]

    def ensures(self, V):
        return self.parts(V, V.post, self.cnt) + [('position', self.pos(V, V.post) == self.pos(V, V.pre) + self.cnt)]

    def invs(self, L):
        for i in L._names():
            yield 'counter', lambda S, i=i: And(0 <= S.v(i), S.v(i) <= self.cnt)
            yield 'position', lambda S, i=i: self.pos(L.V, S.st) == self.pos(L.V, L.V.pre) + S.v(i)
            for k in range(4):
                yield self.parts(L.V, L.V.pre, self.cnt)[k][0], lambda S, i=i, k=k: self.parts(L.V, S.st, S.v(i))[k][1]


class Seek(Buf):
    modifies_all = True

    def __init__(self, kind):
        self.kind = kind
        super().__init__('seek', r'seek\(long long, basicsys::sys_File_Seek\)')

    def end(self, V):
        return T(self.buf(V).len(V.pre)) if self.kind == 'writer' else self.n

    def requires(self, V):
        p, o = self.pos(V, V.pre), V['offset']
        return [('positions', And(-LIM < p, p < LIM, -LIM < o, o < LIM, 0 <= self.end(V), self.end(V) < LIM)), ('base', And(0 <= V['seek_type'], V['seek_type'] <= 2))]

    def ensures(self, V):
        p, o, t = self.pos(V, V.pre), V['offset'], V['seek_type']
        out = [('position', self.pos(V, V.post) == z3.If(t == 0, o, z3.If(t == 1, p + o, self.end(V) - o)))]
        if self.kind == 'writer':
            b = self.buf(V)
            out.append(('the bytes stay', And(T(b.len(V.post)) == T(b.len(V.pre)), fa(lambda k: T(b.at(V.post, k)) == T(b.at(V.pre, k))))))
        return out


class Typed(Buf):
    """write(value): exactly the bytes of the value, once, to write(first, last)"""
    modifies_all = True

    def __init__(self, ty, size, name):
        super().__init__('write_' + name, r'write\(%s\)' % ty)
        self.size = size

    def prepare(self, s, args):
        super().prepare(s, args)
        self.calls = 0

    def call_hook(self, eng, st, name, dem, args, rty):
        if re.match(CLS % 'writer' + r'::write\(unsigned char const\*, unsigned char const\*\)', dem):
            a, b = args[1].cases, args[2].cases
            ok = len(a) == 1 and len(b) == 1 and a[0][1] is not NULL and b[0][1] is not NULL and a[0][1].r is b[0][1].r
            eng.oblige(st, 'bytes', 'from the first to behind the last byte of the value', And(ok, ok and T(a[0][1].off.term()) == 0, ok and T(b[0][1].off.term()) == self.size))
            if ok:
                r = a[0][1].r
                v, w = eng.V0.arg('val'), st.mem[(r, r.leaves[0].idx)]
                eng.oblige(st, 'bytes', 'of the value given', And(len(r.leaves) == 1, T(eng.sgn(st, w)) == T(eng.sgn(st, v)) if isinstance(v, IntV) else w.t == v.t))
            self.calls += 1
            eng.oblige(st, 'bytes', 'written once', self.calls == 1)
            return args[0], st
        return super().call_hook(eng, st, name, dem, args, rty)

    def ensures(self, V):
        return [('the bytes were written', And(self.calls >= 1))]


class Read(Buf):
    """read(data, size): the next bytes, or nothing but the end status when fewer are left"""
    kind = 'reader'
    modifies_all = True

    def requires(self, V):
        p, d = self.pos(V, V.pre), V.A('data')
        return [('size', And(0 <= V['size'], d.len(V.pre) >= V['size'])), ('position', And(0 <= p, p <= self.n, self.n < LIM, self.src(V).len(V.pre) >= self.n))]

    def parts(self, V, st, done):
        d, p = V.A('data'), self.pos(V, V.pre)
        at, old, src = (lambda k: T(d.at(st, k))), (lambda k: T(d.at(V.pre, k))), (lambda k: T(self.src(V).at(V.pre, k)))
        return [('bytes read', fa(lambda k: Imp(And(0 <= k, k < done), at(k) == src(p + k)))), ('the rest stays', fa(lambda k: Imp(k >= done, at(k) == old(k)))),
                ('position', self.pos(V, st) == p + done)]

    def ensures(self, V):
        enough = self.n - self.pos(V, V.pre) >= V['size']
        done = z3.If(enough, V['size'], 0)
        return self.parts(V, V.post, done) + [('the end is reported when bytes are missing', self.status(V, V.post) == z3.If(enough, self.status(V, V.pre), 1))]

    def invs(self, L):
        V = L.V
        for i in L._names():
            yield 'counter', lambda S, i=i: And(0 <= S.v(i), S.v(i) <= V['size'])
            yield 'enough', lambda S: self.n - self.pos(V, V.pre) >= V['size']
            yield 'status', lambda S: self.status(V, S.st) == self.status(V, V.pre)
            for k in range(3):
                yield 'so far', lambda S, i=i, k=k: self.parts(V, S.st, S.v(i))[k][1]


class TypedRead(Buf):
    """read_x(): as many bytes as the type has, once, into the value returned"""
    kind = 'reader'
    modifies_all = True

    def __init__(self, name, size, flt=False):
        super().__init__(name, name + r'\(\)')
        self.size, self.flt = size, flt

    def prepare(self, s, args):
        super().prepare(s, args)
        self.calls, self.val = 0, s.eng.fresh('value', 'f') if self.flt else s.eng.fresh('value')

    def call_hook(self, eng, st, name, dem, args, rty):
        if re.match(CLS % 'reader' + r'::read\(unsigned char\*, int\)', dem):
            a = args[1].cases
            ok = len(a) == 1 and a[0][1] is not NULL
            eng.oblige(st, 'bytes', 'into the whole value', And(ok, ok and T(a[0][1].off.term()) == 0, T(eng.sgn(st, args[2])) == self.size))
            if ok:
                r = a[0][1].r
                l = r.leaves[0]
                eng.oblige(st, 'bytes', 'of that size', And(len(r.leaves) == 1, l.size == self.size))
                if self.flt:
                    st.mem[(r, l.idx)] = FV(self.val, 8 * self.size)
                else:
                    lo, hi = (0, 1 << (8 * self.size)) if l.sign == 'U' else (-(1 << (8 * self.size - 1)), 1 << (8 * self.size - 1))
                    st.assume(And(lo <= self.val, self.val < hi))
                    st.mem[(r, l.idx)] = IntV(self.val, 8 * self.size, l.sign)
                    self.sign = l.sign
            self.calls += 1
            eng.oblige(st, 'bytes', 'read once', self.calls == 1)
            return None, st
        return super().call_hook(eng, st, name, dem, args, rty)

    def ensures(self, V):
        if self.flt:
            return [('the value read', V.ret.t == self.val)]
        return [('the value read', And(self.calls == 1, (V.ru if self.sign == 'U' else V.r) == self.val))]


class Left(Buf):
    """remain_size(), is_eof()"""
    kind = 'reader'

    def __init__(self, name, cls):
        super().__init__(name, name + r'\(\) const')
        self.match = r'basicsys::%s::%s\(\) const' % (cls, name)

    def requires(self, V):
        return [('sizes', And(-LIM < self.pos(V, V.pre), self.pos(V, V.pre) < LIM, 0 <= self.n, self.n < LIM))]

    def ensures(self, V):
        return [('bytes left', V.r == self.n - self.pos(V, V.pre))] if self.name.endswith('size') else [('no byte left', (V.r != 0) == (self.pos(V, V.pre) == self.n))]


CONTRACTS = [Write('write_bytes', r'write\(unsigned char const\*, unsigned char const\*\)'), Seek('writer'), Seek('reader'), Read('read_bytes', r'read\(unsigned char\*, int\) const'), Left('is_eof', 'sys_byte_buffer_reader')]
CONTRACTS += [Typed(*x) for x in (('(?:signed )?char', 1, 'i8'), ('unsigned char', 1, 'u8'), ('unsigned short', 2, 'u16'), ('short', 2, 'i16'), ('unsigned int', 4, 'u32'), ('int', 4, 'i32'), ('unsigned long(?: long)?', 8, 'u64'), ('long(?: long)?', 8, 'i64'), ('float', 4, 'f32'), ('double', 8, 'f64'))]
CONTRACTS += [TypedRead('read_' + n, b) for n, b in (('c8', 1), ('u8', 1), ('u16', 2), ('i16', 2), ('u32', 4), ('i32', 4), ('u64', 8), ('i64', 8))] + [TypedRead('read_f32', 4, True), TypedRead('read_f64', 8, True)]
