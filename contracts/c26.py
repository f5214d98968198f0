"""Log records reach the sink."""
import re
from irv.contract import *

ID = 'C26'
LEVELS = ('debug', 'info', 'warning', 'error')
USE = ''.join('void use_%s() { basiclog_%s("the tag", "the message"); }\n' % (l, l) for l in LEVELS) + '''
void use_assert(bool condition) { basiclog_assert("the tag", condition); }
void use_assert_message(bool condition) { basiclog_assert_message("the tag", condition, "the message"); }
void use_unsupport() { basiclog_unsupport("the tag"); }
'''
DRIVERS = {'log': ('basiclog', '#include "@REPO@/basiclog/src/basiclog.cpp"\n' + USE)}
HARNESS = {'sources': ['basiclog/*', 'basicsys/*'], 'module': 'basiclog', 'leaks': True, 'libs': ['-lpthread'], 'rule': 'random histories of records (empty, long, at the limit of a piece, outside of ASCII), levels, filters, assertions; four threads at once; the file sink with limits, rotation and folders; the console sink: what reaches the sink is the records, whole and in order'}
NOTE = ('Under contract: the level switches and their queries, the record function (filters, head, pieces of a long record, mutex), every macro that submits a record, the writing, rotation, folder and limits of the file sink. '
        'Texts are abstract: a text is a number, a string a range of one; appending, comparing and cutting are followed exactly.')
BOUNDED = ['the console sink, the real string contents and four threads at once: run-time comparison']
ASSUMPTIONS = ['std::string, std::vector<string> and std::list<string> behave as the standard says (modelled, libc++ not verified); texts are shorter than 2^28 characters and hold no zero character where they pass through a C string',
               'a virtual call of the sink reaches the sink of the logger; sinks do not log; opening and writing a file succeed; fewer than 2^28 files of one second exist',
               'the mutex gives mutual exclusion (pthread not verified): the contracts prove that every delivery happens while it is held and that it is released on every path',
               'at least one file may be kept, and no more than that are listed; loggers are not replaced while records are submitted']
BIG = 1 << 28
STR = 'std::__1::basic_string<char, std::__1::char_traits<char>, std::__1::allocator<char> >'
APP = z3.Function('text_append', z3.IntSort(), z3.IntSort(), z3.IntSort())
HEAD = z3.Function('text_head', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
FILTER = z3.Function('filter_text', z3.IntSort(), z3.IntSort())
NAME = z3.Function('file_name_of', z3.IntSort(), z3.IntSort())
SINK = ('at', 'text', 'size', 'held')
FIELDS = ('base', 'start', 'len', 'blen')


class Log(Contract):
    """a string is a range of a text: base (number of the text), start, len, blen (length of the text)"""
    driver = 'log'
    auto = True
    modifies_all = True

    def __init__(self, name, match):
        self.name, self.match = name, match

    def serves(self, cur):
        return False

    # strings
    def string(self, r):
        if not getattr(r, 'is_text', False):
            r.typed(24, [Leaf(4 * i, 4, 'i', 64, 'S', name=f) for i, f in enumerate(FIELDS)])
            r.is_text = True
        return r

    def of(self, p):
        (c, l), = p.cases
        return self.string(l.r)

    def put(self, st, r, *v):
        for i, x in enumerate(v):
            st.mem[(r, i)] = IntV(T(x), 64, 'S')

    def text(self, st, r):
        return [T(st.mem[(r, i)].t) for i in range(4)]

    def fresh_text(self, eng, st, r, base=None, n=None):
        n = eng.fresh('length') if n is None else n
        st.assume(And(0 <= n, n < BIG))
        self.put(st, r, eng.fresh('text') if base is None else base, 0, n, n)

    def literal(self, s):
        """texts known to the program have negative numbers"""
        if s not in self.lits:
            self.lits[s] = -1 - len(self.lits)
        return T(self.lits[s])

    def chars(self, eng, st, p):
        """(text, length) behind a const char*"""
        if len(p.cases) != 1:
            t, n = eng.fresh('text'), eng.fresh('length')
            return t, n
        (c, l), = p.cases
        if getattr(l.r, 'chars', None) is not None:
            return l.r.chars
        d = eng.m.globals.get('@' + l.r.name.split()[-1])
        if d is None:
            raise Unsupported('characters of %s' % l.r.name)
        w = re.search(r' c"(.*?)\\00"', d)
        w = w.group(1) if w else ''
        return self.literal(w), T(len(re.sub(r'\\[0-9A-F]{2}', '.', w)))

    def param(self, s, name):
        r = self.string(Region(name, 0, 24, []))
        self.fresh_text(s.eng, s.st, r)
        return r

    def start(self, s):
        self.lits = {}
        self.sink = Region('sink', 0, 40, [Leaf(8 * i, 8, 'i', 64, 'S', name=f) for i, f in enumerate(SINK)])
        for i in range(len(SINK)):
            s.st.mem[(self.sink, i)] = IntV(T(0), 64, 'S')
        self.filt = self.string(Region('a filter', 0, 24, []))

    def cell(self, st, f):
        return T(st.mem[(self.sink, SINK.index(f))].t)

    def set(self, st, f, v):
        st.mem[(self.sink, SINK.index(f))] = IntV(T(v), 64, 'S')

    def whole(self, eng, st, r):
        b, a, n, bl = self.text(st, r)
        return z3.simplify(z3.If(And(a == 0, n == bl), b, eng.fresh('text'))), n

    # the sink: a piece has to go on where the last one ended
    def delivered(self, eng, st, r):
        b, a, n, bl = self.text(st, r)
        at = self.cell(st, 'at')
        eng.oblige(st, 'sink', 'the mutex is held', self.cell(st, 'held') == 1)
        eng.oblige(st, 'sink', 'the piece follows the one before', And(a == at, n > 0))
        eng.oblige(st, 'sink', 'a piece of the same record', Or(at == 0, And(b == self.cell(st, 'text'), bl == self.cell(st, 'size'))))
        self.set(st, 'text', b)
        self.set(st, 'size', bl)
        self.set(st, 'at', at + n)

    def call_hook(self, eng, st, name, dem, args, rty):
        d = re.sub(r'>(?=>)', '> ', re.sub(r'> (?=>)', '>', dem.replace('[abi:ne180100]', '')))
        d = d.replace(STR, 'string')
        if name == 'the_sink':
            self.delivered(eng, st, self.of(args[1]))
            return None, st
        if 'sys_thread_lock::sys_thread_lock(' in d:
            eng.oblige(st, 'mutex', 'not yet held', self.cell(st, 'held') == 0)
            (c, l), = args[1].cases
            eng.oblige(st, 'mutex', 'the mutex of the logger', l is not NULL and l.r is self.mutex)
            self.set(st, 'held', 1)
            return None, st
        if 'sys_thread_lock::~sys_thread_lock(' in d:
            eng.oblige(st, 'mutex', 'held', self.cell(st, 'held') == 1)
            self.set(st, 'held', 0)
            return None, st
        if 'log_logger::format_timestamp' in d or 'log_file_logger::generate_new_file_title' in d:
            self.fresh_text(eng, st, self.of(args[0]))
            return None, st
        if 'sys_path::get_file_name(' in d:
            t, n = self.whole(eng, st, self.of(args[1]))
            self.fresh_text(eng, st, self.of(args[0]), NAME(t))
            return None, st
        if 'sys_strhelper::combine(' in d:
            fmt = re.search(r' c"(.*?)\\00"', eng.m.globals['@' + args[1].cases[0][1].r.name.split()[-1]]).group(1)
            out = self.literal(fmt)
            for x in args[2:]:
                out = APP(out, self.chars(eng, st, x)[0] if isinstance(x, PtrV) else T(eng.sgn(st, x)))
            self.head = out
            self.fresh_text(eng, st, self.of(args[0]), out)
            return None, st
        if 'basiclog::error_message_box' in d:
            return None, st
        if d.startswith('std::__1::vector<string'):
            tail = re.sub(r'^.*> ?>::', '', d)
            if tail.startswith('size()'):
                return IntV(self.nf, 64, 'U'), st
            if tail.startswith('operator[]('):
                i = T(eng.uns(st, args[1]))
                eng.oblige(st, 'bounds', 'number of a filter', And(0 <= i, i < self.nf))
                self.fresh_text(eng, st, self.filt, FILTER(i))
                return PtrV([(True, Loc(self.filt, Lin(0), ()))]), st
            return None
        return self.strings(eng, st, name, d, args, rty)

    def strings(self, eng, st, name, d, args, rty):
        S = 'string'
        if re.match(r'_ZNSt3__112basic_stringIcNS_11char_traitsIcEENS_9allocatorIcEEEC[12].*PKc$', name):
            t, n = self.chars(eng, st, args[1])
            self.put(st, self.of(args[0]), t, 0, n, n)
            return None, st
        if d.startswith('bool std::__1::operator==') or d.startswith('bool std::__1::operator!='):
            v = [self.whole(eng, st, self.of(x)) if getattr(x.cases[0][1].r, 'is_text', False) else self.chars(eng, st, x) for x in args]
            b = z3.And(v[0][0] == v[1][0])
            return BoolV(z3.Not(b) if 'operator!=' in d else b), st
        if not d.startswith('string::'):
            return None
        tail = d[len(S) + 2:]
        if tail.startswith('~basic_string('):
            return None, st
        if tail.startswith('basic_string()'):
            self.put(st, self.of(args[0]), self.literal(''), 0, 0, 0)
            return None, st
        me = self.of(args[1] if tail.startswith('substr(') else args[0])
        if tail.startswith(('basic_string(%s const&)' % S, 'basic_string(%s&&)' % S, 'operator=(%s' % S)):
            self.put(st, me, *self.text(st, self.of(args[1])))
            return (None if rty[0] == 'void' else args[0]), st
        if tail.startswith(('append(%s const&)' % S, 'operator+=(%s const&)' % S, 'append(char const*)', 'operator+=(char const*)')):
            a, n = self.whole(eng, st, me)
            b, m = self.chars(eng, st, args[1]) if 'char const*)' in tail[:30] else self.whole(eng, st, self.of(args[1]))
            self.put(st, me, APP(a, b), 0, n + m, n + m)
            return args[0], st
        if tail.startswith(('size()', 'length()')):
            return IntV(self.text(st, me)[2], 64, 'U'), st
        if tail.startswith('empty()'):
            return BoolV(self.text(st, me)[2] == 0), st
        if tail.startswith(('c_str()', 'data()')):
            r = Region('characters', 1, 1, [Leaf(0, 1, 'i', 8, 'S')])
            r.chars = self.whole(eng, st, me)
            return PtrV([(True, Loc(r, Lin(0), ()))]), st
        if tail.startswith('compare(char const*)'):
            v = eng.fresh_int('compare', 32)
            st.assume((T(eng.sgn(st, v)) == 0) == (self.whole(eng, st, me)[0] == self.chars(eng, st, args[1])[0]))
            return v, st
        if tail.startswith('substr('):
            b, a, n, bl = self.text(st, me)
            p, k = T(eng.uns(st, args[2])), T(eng.uns(st, args[3]))
            eng.oblige(st, 'bounds', 'start of a part of a string', p <= n)
            self.put(st, self.of(args[0]), b, a + p, z3.If(k <= n - p, k, n - p), bl)
            return None, st
        return None


class Logger(Log):
    """a method of log_logger"""
    sinkcall = False

    def prepare(self, s, args):
        self.start(s)
        r, _ = obj_region(s.by['this'])
        self.me = r
        self.mutex = Region('mutex', 0, 8, [Leaf(0, 8, 'i', 64, 'S')])
        s.st.mem[(r, r.leaf('m_mutex').idx)] = PtrV([(True, Loc(self.mutex, Lin(0), ()))])
        v = Region('table', 1)
        v.vfns = ['d', 'd', 'the_sink']
        r.vt = v
        for l in LEVELS:
            f = s.eng.fresh(l)
            s.st.assume(And(0 <= f, f <= 1))
            s.st.mem[(r, r.leaf('m_enable_' + l).idx)] = IntV(f, 8, r.leaf('m_enable_' + l).sign)
        self.nf = s.eng.fresh('filters')
        s.st.assume(And(0 <= self.nf, self.nf < BIG))

    def flag(self, V, l, st):
        return T(V.eng.get(st, self.me, self.me.leaf('m_enable_' + l).idx))


class Enable(Logger):
    def __init__(self, level):
        super().__init__('enable_' + level, r'basiclog::log_logger::enable_%s\(' % level)
        self.level = level

    def ensures(self, V):
        out = [('mutex released', self.cell(V.post, 'held') == 0)]
        for l in LEVELS:
            out.append(('flag of ' + l, V.field('this', 'm_enable_' + l, V.post) == (z3.If(B(V['enable'] if z3.is_bool(V['enable']) else V['enable'] != 0), 1, 0) if l == self.level else V.field('this', 'm_enable_' + l, V.pre))))
        return out


class Record(Logger):
    def arg_level(self, s):
        return s.ptr(self.keep(s, 'level'))

    def arg_tag(self, s):
        return s.ptr(self.keep(s, 'tag'))

    def arg_msg(self, s):
        return s.ptr(self.keep(s, 'msg'))

    def arg_file_path(self, s):
        return s.ptr(self.keep(s, 'file_path'))

    def keep(self, s, n):
        self.given = getattr(self, 'given', {})
        self.given[n] = self.param(s, n)
        return self.given[n]

    def requires(self, V):
        return [('texts of the record are not among the ones of the program', True)]

    def words(self, V):
        g = lambda n: T(V.pre.mem[(self.given[n], 0)].t)
        return g('level'), g('tag'), g('msg')

    def filtered(self, V):
        k = z3.Int('k')
        return z3.Exists([k], z3.And(0 <= k, k < self.nf, FILTER(k) == self.words(V)[1]))

    def ensures(self, V):
        level, tag, msg = self.words(V)
        st = V.post
        at, f = self.cell(st, 'at'), self.filtered(V)
        suffix = [x for x in self.lits if x.startswith(' If you')]
        head = getattr(self, 'head', T(0))
        parts = []
        h = head
        while z3.is_app(h) and h.decl().eq(APP):
            parts.append(h.arg(1))
            h = h.arg(0)
        named = lambda t: any(p.eq(z3.simplify(t)) or z3.simplify(p).eq(z3.simplify(t)) for p in parts)
        body = z3.If(tag == self.literal('performance'), APP(msg, self.literal(suffix[0])), msg) if suffix else msg
        out = [('mutex released', self.cell(st, 'held') == 0),
               ('a filtered tag delivers nothing', z3.Implies(f, at == 0)),
               ('any other record is delivered', z3.Implies(z3.Not(f), at > 0)),
               ('delivered to its end', Imp(at > 0, at == self.cell(st, 'size'))),
               ('head, message and end of line', Imp(at > 0, self.cell(st, 'text') == APP(APP(head, body), self.literal('\\0A')))),
               ('the head names the level', named(level)), ('the head names the tag', named(tag)), ('the head names the line', named(T(V['line'])))]
        for l in LEVELS:
            out.append(('flag of ' + l, V.field('this', 'm_enable_' + l, st) == V.field('this', 'm_enable_' + l, V.pre)))
        return out

    def invs(self, L):
        tag = self.words(L.V)[1]
        for x in L._names():
            yield 'filters before %s differ' % x, lambda S, x=x: fa(lambda k: Imp(And(0 <= k, k < S.v(x)), FILTER(k) != tag), pats=lambda k: [FILTER(k)])
            yield 'delivered up to %s' % x, lambda S, x=x: S.v(x) == self.cell(S.st, 'at')
            yield '%s from 0' % x, lambda S, x=x: S.v(x) >= 0
            yield '%s up to the filters' % x, lambda S, x=x: S.v(x) <= self.nf
            for r in L_texts(L):
                yield '%s inside the record' % x, lambda S, x=x, r=r: S.v(x) <= self.text(S.st, r)[2]
                yield 'the record delivered', lambda S, r=r: Or(self.cell(S.st, 'at') == 0, And(self.cell(S.st, 'text') == self.text(S.st, r)[0], self.cell(S.st, 'size') == self.text(S.st, r)[3]))
        yield 'the mutex is held', lambda S: self.cell(S.st, 'held') == 1


def L_texts(L):
    """strings of the function in reach of the loop"""
    st = L.entry
    out = []
    for k in st.mem:
        if isinstance(k, tuple) and getattr(k[0], 'is_text', False) and k[0] not in out and all((k[0], i) in st.mem for i in range(4)):
            out.append(k[0])
    return out


class Asked(Logger):
    def __init__(self, level):
        super().__init__('is_enable_' + level, r'basiclog::log_logger::is_enable_%s\(' % level)
        self.level = level

    def ensures(self, V):
        f = V.field('this', 'm_enable_' + self.level, V.pre)
        r = V.ret.b if isinstance(V.ret, BoolV) else V.ret != 0
        return [('mutex released', self.cell(V.post, 'held') == 0), ('the flag', B(r) == (f != 0))] + [('flag of ' + l, V.field('this', 'm_enable_' + l, V.post) == V.field('this', 'm_enable_' + l, V.pre)) for l in LEVELS]



class Use(Log):
    """the macros: a record exactly when there is a logger, its level is enabled (and the condition fails)"""

    def __init__(self, name, level, message):
        super().__init__('use_' + name, r'use_%s\(' % name)
        self.level, self.message = level, message

    def prepare(self, s, args):
        self.start(s)
        self.has = z3.Bool('logger')
        self.on = {l: z3.Bool(l) for l in LEVELS}
        self.logger = s.obj('logger', 'log_logger')

    def call_hook(self, eng, st, name, dem, args, rty):
        d = dem.replace('[abi:ne180100]', '')
        if 'log_logger::get_logger(' in d:
            return PtrV([(self.has, Loc(self.logger, Lin(0), ())), (z3.Not(self.has), NULL)]), st
        m = re.match(r'basiclog::log_logger::is_enable_(\w+)\(', d)
        if m:
            eng.oblige(st, 'call', 'there is a logger', self.has)
            return BoolV(self.on[m.group(1)]), st
        if d.startswith('basiclog::log_logger::print('):
            eng.oblige(st, 'call', 'there is a logger', self.has)
            level, tag, msg, path = [self.whole(eng, st, self.of(x)) for x in args[1:5]]
            eng.oblige(st, 'record', 'its level', level[0] == self.literal(self.level))
            eng.oblige(st, 'record', 'its tag', tag[0] == self.literal('the tag'))
            if self.message:
                eng.oblige(st, 'record', 'its message', msg[0] == self.message_text(eng))
            self.set(st, 'at', self.cell(st, 'at') + 1)
            return None, st
        if 'sys_strcombine::sys_strcombine(' in d:
            self.combined = []
            return None, st
        if 'sys_strcombine::~sys_strcombine(' in d:
            return None, st
        if 'sys_strcombine::operator<<(char const*)' in d:
            self.combined = self.combined + [self.chars(eng, st, args[1])]
            return args[0], st
        if 'sys_strcombine::operator ' in d:
            t, n = self.combined[0]
            for a, b in self.combined[1:]:
                t, n = APP(t, a), n + b
            self.put(st, self.of(args[0]), t, 0, n, n)
            return None, st
        return super().call_hook(eng, st, name, dem, args, rty)

    def message_text(self, eng):
        return self.literal(self.message)

    def ensures(self, V):
        want = z3.And(self.has, self.on[self.level])
        if 'assert' in self.name:
            c = V['condition']
            want = z3.And(want, z3.Not(B(c if z3.is_bool(c) else c != 0)))
        return [('a record when the level is enabled, and none otherwise', self.cell(V.post, 'at') == z3.If(want, 1, 0))]


UTF = z3.Function('utf8_of', z3.IntSort(), z3.IntSort())
KEEP = ('files', 'path', 'open', 'closed', 'pending', 'written', 'text', 'asked')


class File(Log):
    """the file sink; KEEP: number and last of the listed files, the file that is open (0: none), files closed, bytes not yet flushed, records written and the last one"""

    def prepare(self, s, args):
        self.start(s)
        eng, st = s.eng, s.st
        r, _ = obj_region(s.by['this'])
        self.me = r
        self.mutex = Region('mutex', 0, 8, [Leaf(0, 8, 'i', 64, 'S')])
        st.mem[(r, r.leaf('m_mutex').idx)] = PtrV([(True, Loc(self.mutex, Lin(0), ()))])
        self.kept = Region('files', 0, 8 * len(KEEP), [Leaf(8 * i, 8, 'i', 64, 'S', name=f) for i, f in enumerate(KEEP)])
        for i in range(len(KEEP)):
            st.mem[(self.kept, i)] = IntV(T(0), 64, 'S')
        n = eng.fresh('files')
        st.assume(And(0 <= n, n < BIG))
        self.has = z3.Bool('has_file')
        self.k(st, 'files', n)
        self.k(st, 'open', z3.If(self.has, 1, 0))
        self.old, self.new = [Region(x, 0, 8, [Leaf(0, 8, 'i', 64, 'S')]) for x in ('the open file', 'the new file')]
        st.mem[(r, r.leaf('m_cur_file').idx)] = PtrV([(self.has, Loc(self.old, Lin(0), ())), (z3.Not(self.has), NULL)])
        self.item = self.string(Region('a path', 0, 24, []))
        self.dir = self.string(Region('the folder', 0, 24, []))
        self.fresh_text(eng, st, self.dir)

    def of(self, p):
        (c, l), = p.cases
        return self.dir if l.r is self.me else self.string(l.r)

    def k(self, st, f, v=None):
        i = (self.kept, KEEP.index(f))
        if v is None:
            return T(st.mem[i].t)
        st.mem[i] = IntV(T(v), 64, 'S')

    def which(self, p):
        """1: the old file, 2: the new one, 0: none"""
        out = T(0)
        for c, l in p.cases:
            if l is not NULL:
                out = z3.If(B(c), 1 if l.r is self.old else 2 if l.r is self.new else -1, out)
        return z3.simplify(out)

    def call_hook(self, eng, st, name, dem, args, rty):
        d = re.sub(r'>(?=>)', '> ', re.sub(r'> (?=>)', '>', dem.replace('[abi:ne180100]', ''))).replace(STR, 'string')
        if d.startswith('std::__1::list<string'):
            tail = re.sub(r'^.*> ?>::', '', d)
            n = self.k(st, 'files')
            if tail.startswith('size()'):
                return IntV(n, 64, 'U'), st
            if tail.startswith('empty()'):
                return BoolV(n == 0), st
            if tail.startswith('clear()'):
                self.k(st, 'files', 0)
                return None, st
            if tail.startswith('push_back('):
                self.k(st, 'files', n + 1)
                self.k(st, 'path', self.whole(eng, st, self.of(args[1]))[0])
                return None, st
            eng.oblige(st, 'bounds', 'a list with files', n > 0)
            if tail.startswith('pop_front('):
                self.k(st, 'files', n - 1)
                return None, st
            if tail.startswith('front('):
                self.fresh_text(eng, st, self.item)
                return PtrV([(True, Loc(self.item, Lin(0), ()))]), st
            if tail.startswith('back('):
                self.fresh_text(eng, st, self.item, self.k(st, 'path'))
                return PtrV([(True, Loc(self.item, Lin(0), ()))]), st
            return None
        if name == 'remove' or 'sys_path::delete_file(' in d:
            return (None if rty[0] == 'void' else eng.fresh_int('removed', 32)), st
        if 'sys_path::create_multi_dir(' in d:
            return BoolV(eng.fresh('there', 'b')), st
        if 'sys_path::is_exist(' in d:
            # fewer than BIG names are taken
            there, n = eng.fresh('there', 'b'), self.k(st, 'asked') + 1
            self.k(st, 'asked', n)
            st.assume(Imp(there, n < BIG))
            return BoolV(there), st
        if name == 'fclose':
            w = self.which(args[0])
            eng.oblige(st, 'file', 'an open file is closed', And(w > 0, w == self.k(st, 'open')))
            eng.oblige(st, 'file', 'nothing is pending', self.k(st, 'pending') == 0)
            self.k(st, 'open', 0)
            self.k(st, 'closed', self.k(st, 'closed') + 1)
            return eng.fresh_int('closed', 32), st
        if name == 'fopen' or d.startswith('fopen_s('):
            eng.oblige(st, 'file', 'no file is lost', self.k(st, 'open') == 0)
            path = self.chars(eng, st, args[0 if name == 'fopen' else 1])[0]
            eng.oblige(st, 'file', 'the last file of the list', path == self.k(st, 'path'))
            self.k(st, 'open', 2)
            v = PtrV([(True, Loc(self.new, Lin(0), ()))])
            if name == 'fopen':
                return v, st
            eng.store(st, args[0], v, ('ptr',))
            return eng.fresh_int('opened', 32), st
        if 'sys_strconvert::utf8_from_local(' in d:
            self.fresh_text(eng, st, self.of(args[0]), UTF(self.whole(eng, st, self.of(args[1]))[0]))
            return None, st
        if name in ('fprintf', 'fputs', 'fwrite'):
            f = args[{'fprintf': 0, 'fputs': 1, 'fwrite': 3}[name]]
            w = self.which(f)
            eng.oblige(st, 'file', 'an open file is written', And(w > 0, w == self.k(st, 'open')))
            if name == 'fprintf':
                eng.oblige(st, 'file', 'the text itself', self.chars(eng, st, args[1])[0] == self.literal('%s') if len(args) == 3 else False)
            t = self.chars(eng, st, args[2] if name == 'fprintf' else args[0])
            if name == 'fwrite':
                eng.oblige(st, 'file', 'all of it', T(eng.uns(st, args[1])) * T(eng.uns(st, args[2])) == t[1])
            self.k(st, 'text', t[0])
            self.k(st, 'written', self.k(st, 'written') + 1)
            self.k(st, 'pending', 1)
            return (eng.fresh_int('written', 32) if rty[0] == 'i' and rty[1] == 32 else eng.fresh_int('written', 64)), st
        if name == 'fflush':
            eng.oblige(st, 'file', 'the open file', self.which(args[0]) == self.k(st, 'open'))
            self.k(st, 'pending', 0)
            return eng.fresh_int('flushed', 32), st
        if d.startswith('string std::__1::operator+'):
            v = [self.whole(eng, st, self.of(x)) if getattr(x.cases[0][1].r, 'is_text', False) or x.cases[0][1].r is self.me else self.chars(eng, st, x) for x in args[1:]]
            n = v[0][1] + v[1][1]
            self.put(st, self.of(args[0]), APP(v[0][0], v[1][0]), 0, n, n)
            return None, st
        return super().call_hook(eng, st, name, dem, args, rty)

    def cur(self, V, st):
        return self.which(V.eng.get(st, self.me, self.me.leaf('m_cur_file').idx))

    def state(self, V):
        out = [('what the sink holds is the open file', self.cur(V, V.post) == self.k(V.post, 'open')), ('nothing is pending', self.k(V.post, 'pending') == 0), ('mutex released', self.cell(V.post, 'held') == 0)]
        return out + [('flag of ' + l, V.field('this', 'm_enable_' + l, V.post) == V.field('this', 'm_enable_' + l, V.pre)) for l in LEVELS]


class Written(File):
    def arg_log_info(self, s):
        self.given = self.param(s, 'log_info')
        return s.ptr(self.given)

    def requires(self, V):
        m = V.field('this', 'm_max_file_number')
        c = V.field('this', 'm_cur_file_log_number')
        return [('limits', And(1 <= m, self.k(V.pre, 'files') <= m, 0 <= c, c < BIG))]

    def invs(self, L):
        yield 'names asked for', lambda S: And(0 <= self.k(S.st, 'asked'), self.k(S.st, 'asked') < BIG)
        for x in L._names():
            for d in (0, 1):
                yield '%s counts the names + %d' % (x, d), lambda S, x=x, d=d: S.v(x) == self.k(S.st, 'asked') + d

    def ensures(self, V):
        pre = lambda f: V.field('this', f, V.pre)
        new = z3.Or(z3.Not(self.has), pre('m_cur_file_log_number') == pre('m_file_max_log_number'))
        k = lambda f: self.k(V.post, f)
        return self.state(V) + [
            ('the record is written once', k('written') == 1),
            ('the whole record', k('text') == UTF(T(V.pre.mem[(self.given, 0)].t))),
            ('a new file exactly when there is none or it is full', k('open') == z3.If(new, 2, 1)),
            ('the full file is closed', k('closed') == z3.If(And(self.has, new), 1, 0)),
            ('records counted', V.field('this', 'm_cur_file_log_number', V.post) == z3.If(new, 1, pre('m_cur_file_log_number') + 1)),
            ('files listed', k('files') == z3.If(new, z3.If(self.k(V.pre, 'files') == pre('m_max_file_number'), pre('m_max_file_number'), self.k(V.pre, 'files') + 1), self.k(V.pre, 'files'))),
            ('the limits stay', And(*[V.field('this', f, V.post) == pre(f) for f in ('m_file_max_log_number', 'm_max_file_number')]))]


class Folder(File):
    def arg_dir(self, s):
        self.given = self.param(s, 'dir')
        return s.ptr(self.given)

    def ensures(self, V):
        return self.state(V) + [('no file is open', self.k(V.post, 'open') == 0), ('the open file is closed once', self.k(V.post, 'closed') == z3.If(self.has, 1, 0)), ('no file is listed', self.k(V.post, 'files') == 0),
                                ('the folder', T(V.post.mem[(self.dir, 0)].t) == T(V.pre.mem[(self.given, 0)].t))]


class Limit(File):
    def __init__(self, name, field):
        super().__init__(name, r'basiclog::log_file_logger::%s\(' % name)
        self.field = field

    def ensures(self, V):
        return self.state(V) + [(f, V.field('this', f, V.post) == (V['max_number'] if f == self.field else V.field('this', f, V.pre))) for f in ('m_file_max_log_number', 'm_max_file_number', 'm_cur_file_log_number')]


CONTRACTS = [Enable(l) for l in LEVELS] + [Asked(l) for l in LEVELS] + [Record('record', r'basiclog::log_logger::print\(std::__1::basic_string<.*int\)')]
CONTRACTS += [Use(l, l, 'the message') for l in LEVELS] + [Use('assert', 'error', ''), Use('assert_message', 'error', 'the message'), Use('unsupport', 'error', 'unsupport operation')]
CONTRACTS += [Written('written', r'basiclog::log_file_logger::print\('), Folder('set_dir', r'basiclog::log_file_logger::set_dir\('),
              Limit('set_file_max_log_number', 'm_file_max_log_number'), Limit('set_max_file_number', 'm_max_file_number')]
