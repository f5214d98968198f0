"""Parser for the subset of textual LLVM-18 IR that clang emits at -O0.

Functions are split textually and parsed on demand.
"""
import re, subprocess

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%"(?:[^"\\]|\\.)*"|%[-A-Za-z$._0-9]+)
 | (?P<glb>@"(?:[^"\\]|\\.)*"|@[-A-Za-z$._0-9]+)
 | (?P<md>![-A-Za-z$._0-9]*(?:\()?)
 | (?P<cm>\#[0-9]+)
 | (?P<num>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|-?[0-9]+(?![A-Za-z_])|0x[A-Za-z]?[0-9A-Fa-f]+)
 | (?P<id>[A-Za-z_][-A-Za-z0-9_.$]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[\[\]{}()<>,=*:|])
 | (?P<ws>\s+)
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise ParseError('tokenize: %r' % s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
    return out


ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone',
         'returned', 'nofree', 'nest', 'immarg', 'writeonly', 'swiftself', 'noreturn', 'nounwind', 'dso_local',
         'local_unnamed_addr', 'unnamed_addr', 'hidden', 'linkonce_odr', 'internal', 'weak_odr', 'comdat', 'weak',
         'fastcc', 'ccc', 'tail', 'notail', 'musttail', 'allocptr', 'allocsize', 'linkonce', 'private', 'external',
         'available_externally', 'nobuiltin', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'dso_preemptable', 'protected', 'default', 'noext', 'range',
         'dead_on_unwind', 'writable', 'mustprogress', 'noinline'}
ATTRS_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'elementtype', 'memory',
               'allocsize', 'initializes', 'inalloca', 'preallocated', 'vscale_range', 'range', 'byref'}


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, o=0):
        return self.t[self.i + o][1] if self.i + o < len(self.t) else None

    def kind(self, o=0):
        return self.t[self.i + o][0] if self.i + o < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.peek() != v:
            raise ParseError('expected %r got %r in %s' % (v, self.peek(), ' '.join(x[1] for x in self.t)))
        self.i += 1

    def skip_attrs(self):
        while True:
            v = self.peek()
            if v is None:
                return
            if v in ATTRS_PAREN:
                self.i += 1
                if self.peek() == '(':
                    d = 0
                    while True:
                        x = self.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                elif v == 'align':
                    self.i += 1
                continue
            if v in ATTRS:
                self.i += 1
                continue
            if self.kind() == 'cm' or self.kind() == 'str':
                self.i += 1
                if self.peek() == '=':
                    self.i += 2
                continue
            return

    def type(self):
        v = self.next()
        m = re.fullmatch(r'i(\d+)', v)
        if m:
            t = ('i', int(m.group(1)))
        elif v in ('ptr', 'float', 'double', 'void', 'label', 'metadata', 'x86_fp80', 'token', 'half'):
            t = (v,)
            if v == 'ptr' and self.peek() == 'addrspace':
                self.i += 1
                self.expect('(')
                self.next()
                self.expect(')')
        elif v.startswith('%'):
            t = ('struct', v)
        elif v == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            fs = []
            if not self.accept('}'):
                while True:
                    fs.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            t = ('lit', tuple(fs), False)
        elif v == '<':
            if self.accept('{'):
                fs = []
                if not self.accept('}'):
                    while True:
                        fs.append(self.type())
                        if self.accept('}'):
                            break
                        self.expect(',')
                self.expect('>')
                t = ('lit', tuple(fs), True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif v == 'opaque':
            t = ('opaque',)
        else:
            raise ParseError('type %r in %s' % (v, ' '.join(x[1] for x in self.t)))
        # function type
        while self.peek() == '(' and t[0] != 'metadata':
            # function type: ret (args)
            save = self.i
            self.i += 1
            args = []
            ok = True
            try:
                if not self.accept(')'):
                    while True:
                        if self.accept('...'):
                            args.append('...')
                        else:
                            args.append(self.type())
                            self.skip_attrs()
                        if self.accept(')'):
                            break
                        self.expect(',')
            except ParseError:
                ok = False
            if not ok:
                self.i = save
                break
            t = ('fn', t, tuple(args))
        return t

    def value(self, ty):
        """operand of type ty -> tuple"""
        k = self.kind()
        v = self.next()
        if k == 'loc':
            return ('loc', v)
        if k == 'glb':
            return ('glb', v)
        if k == 'num':
            if ty[0] in ('float', 'double', 'x86_fp80'):
                return ('fp', v)
            return ('int', int(v, 0))
        if v in ('true', 'false'):
            return ('int', 1 if v == 'true' else 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'add', 'sub', 'trunc'):
            if v == 'getelementptr':
                self.accept('inbounds')
                if self.accept('inrange'):
                    pass
                self.expect('(')
                bt = self.type()
                self.expect(',')
                ops = []
                while True:
                    self.accept('inrange')
                    if self.peek() == '(':
                        pass
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if self.accept(')'):
                        break
                    self.expect(',')
                return ('cgep', bt, ops)
            self.skip_attrs()
            self.expect('(')
            t = self.type()
            x = self.value(t)
            if self.accept('to'):
                t2 = self.type()
                self.expect(')')
                return ('ccast', v, t, x, t2)
            self.expect(',')
            t3 = self.type()
            y = self.value(t3)
            self.expect(')')
            return ('cbin', v, t, x, y)
        if v == '{' or v == '[' or v == '<':
            close = {'{': '}', '[': ']', '<': '>'}[v]
            packed = False
            if v == '<' and self.peek() == '{':
                self.i += 1
                close = '}'
                packed = True
            items = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    items.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', items)
        if k == 'str':
            return ('cstr', v)
        raise ParseError('value %r of %r' % (v, ty))

    def tvalue(self):
        self.skip_attrs()
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


class Inst:
    __slots__ = ('op', 'dest', 'ty', 'a', 'x', 'dbg')

    def __init__(self, op, dest=None, ty=None, a=None, x=None):
        self.op = op
        self.dest = dest
        self.ty = ty
        self.a = a
        self.x = x
        self.dbg = None

    def __repr__(self):
        return 'Inst(%s %s %s %s %s)' % (self.dest, self.op, self.ty, self.a, self.x)


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub',
       'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext',
         'fptrunc'}


def parse_inst(line):
    dbg = None
    m = re.search(r', !dbg !(\d+)', line)
    if m:
        dbg = int(m.group(1))
    # strip metadata attachments
    line = re.sub(r'(, ![A-Za-z_.0-9]+ !(\d+|\{\}))+\s*$', '', line)
    m = re.search(r'@llvm\.dbg\.declare\(metadata ptr (%"[^"]*"|%[-A-Za-z$._0-9]+), metadata !(\d+)', line)
    if m:
        return Inst('dbgdecl', None, None, m.group(1), int(m.group(2)))
    if '@llvm.dbg.' in line or '@llvm.lifetime' in line:
        return Inst('nop')
    p = P(tokenize(line))
    dest = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        dest = p.next()
        p.next()
    while p.peek() in ('tail', 'notail', 'musttail'):
        p.next()
    op = p.next()
    r = None
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        n = None
        while p.accept(','):
            if p.accept('align'):
                p.next()
            else:
                n = p.tvalue()
        r = Inst(op, dest, t, n)
    elif op == 'load':
        p.accept('atomic')
        vol = p.accept('volatile')
        t = p.type()
        p.expect(',')
        a = p.tvalue()
        r = Inst(op, dest, t, a)
    elif op == 'store':
        p.accept('atomic')
        p.accept('volatile')
        v = p.tvalue()
        p.expect(',')
        a = p.tvalue()
        r = Inst(op, None, v[0], (v, a))
    elif op == 'getelementptr':
        flags = set()
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            flags.add(p.next())
        t = p.type()
        p.expect(',')
        base = p.tvalue()
        idx = []
        while p.accept(','):
            p.accept('inrange')
            idx.append(p.tvalue())
        r = Inst(op, dest, t, base, idx)
    elif op in BIN:
        flags = set()
        while p.peek() in ('nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint'):
            flags.add(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        r = Inst(op, dest, t, (a, b), flags)
    elif op in ('icmp', 'fcmp'):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign'):
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        r = Inst(op, dest, t, (a, b), pred)
    elif op == 'fneg':
        p.skip_attrs()
        t = p.type()
        r = Inst(op, dest, t, p.value(t))
    elif op in CASTS:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect('to')
        t2 = p.type()
        r = Inst(op, dest, t2, (t, a))
    elif op == 'br':
        if p.accept('label'):
            r = Inst(op, None, None, None, [p.next()[1:]])
        else:
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            l1 = p.next()[1:]
            p.expect(',')
            p.expect('label')
            l2 = p.next()[1:]
            r = Inst(op, None, None, c, [l1, l2])
    elif op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1:]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()[1:]))
        r = Inst(op, None, t, v, (cases, d))
    elif op == 'ret':
        if p.accept('void'):
            r = Inst(op)
        else:
            t, v = p.tvalue()
            r = Inst(op, None, t, v)
    elif op == 'unreachable':
        r = Inst(op)
    elif op == 'phi':
        p.skip_attrs()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            l = p.next()[1:]
            p.expect(']')
            inc.append((v, l))
            if not p.accept(','):
                break
        r = Inst(op, dest, t, inc)
    elif op == 'select':
        p.skip_attrs()
        c = p.tvalue()
        p.expect(',')
        a = p.tvalue()
        p.expect(',')
        b = p.tvalue()
        r = Inst(op, dest, a[0], (c[1], a[1], b[1]))
    elif op == 'extractvalue':
        t, v = p.tvalue()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        r = Inst(op, dest, t, v, idx)
    elif op == 'insertvalue':
        t, v = p.tvalue()
        p.expect(',')
        t2, v2 = p.tvalue()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        r = Inst(op, dest, t, (v, t2, v2), idx)
    elif op in ('call', 'invoke'):
        p.skip_attrs()
        t = p.type()
        if t[0] == 'fn':
            t = t[1]
        p.skip_attrs()
        callee = p.value(('ptr',))
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                p.skip_attrs()
                if p.peek() == 'metadata':
                    # debug intrinsic; give up on args
                    r = Inst('nop')
                    r.dbg = dbg
                    return r
                at = p.type()
                p.skip_attrs()
                av = p.value(at)
                args.append((at, av))
                if p.accept(')'):
                    break
                p.expect(',')
        normal = None
        if op == 'invoke':
            m = re.search(r'to label (%"[^"]*"|%[-A-Za-z$._0-9]+) unwind label (%"[^"]*"|%[-A-Za-z$._0-9]+)', line)
            normal = m.group(1)[1:] if m else None
        r = Inst('call', dest, t, args, (callee, normal))
    elif op in ('landingpad', 'resume', 'fence', 'freeze', 'va_arg', 'extractelement', 'insertelement', 'atomicrmw', 'cmpxchg'):
        r = Inst(op, dest)
    else:
        raise ParseError('instruction %r' % line)
    r.dbg = dbg
    return r


class Function:
    def __init__(self, name, header, body_lines, module):
        self.name = name
        self.header = header
        self.module = module
        self._body = body_lines
        self._text = '\n'.join(body_lines) if name.startswith('__cxx_global_var_init') else ''
        self._parsed = False
        self.demangled = None

    def text(self):
        return self._text

    def parse(self):
        if self._parsed:
            return self
        h = re.sub(r'comdat(\(\S+\))?', '', self.header)
        p = P(tokenize(h[len('define'):]))
        # ret type: find token before @name
        idx = None
        for i, (k, v) in enumerate(p.t):
            if k == 'glb':
                idx = i
                break
        # parse return type: skip linkage attrs
        while True:
            before = p.i
            p.skip_attrs()
            if p.i == before:
                break
        self.ret = p.type()
        p.i = idx + 1
        p.expect('(')
        self.params = []
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    pass
                else:
                    t = p.type()
                    sret = False
                    j = p.i
                    p.skip_attrs()
                    sret = any(p.t[x][1] == 'sret' for x in range(j, p.i))
                    nm = p.next() if p.kind() == 'loc' else None
                    self.params.append((t, nm, sret))
                if p.accept(')'):
                    break
                p.expect(',')
        self.blocks = {}
        self.order = []
        cur = None
        buf = None
        lines = self._body
        i = 0
        n = len(lines)
        first = True
        while i < n:
            ln = lines[i].rstrip('\n')
            i += 1
            if not ln.strip() or ln.startswith(';'):
                continue
            m = re.match(r'^("[^"]*"|[-A-Za-z$._0-9]+):', ln)
            if m:
                cur = m.group(1)
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            s = ln.strip()
            if cur is None:
                cur = 'entry'
                self.blocks[cur] = []
                self.order.append(cur)
            # join multi-line (switch, invoke, landingpad clauses)
            if s.startswith('switch'):
                while not s.endswith(']') and ']' not in s.split('[')[-1]:
                    s += ' ' + lines[i].strip()
                    i += 1
            elif ' invoke ' in ' ' + s + ' ' or s.startswith('invoke'):
                while 'unwind label' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
            elif 'landingpad' in s:
                while i < n and lines[i].strip().split(' ')[0].rstrip(',') in ('cleanup', 'catch', 'filter'):
                    i += 1
            self.blocks[cur].append(parse_inst(s))
        self._parsed = True
        return self


class Module:
    def __init__(self, text):
        self.funcs = {}
        self.types = {}
        self.globals = {}
        self.decls = set()
        self.md = {}
        # constructor aliases: the complete-object constructor is the base-object one
        al = dict(re.findall(r'^@([A-Za-z0-9_$.]+) = [^\n]*\balias\b[^\n]*, ptr @([A-Za-z0-9_$.]+)$', text, re.M))
        if al:
            text = re.sub(r'@([A-Za-z0-9_$.]+)(?=\()', lambda m: '@' + al.get(m.group(1), m.group(1)), text)
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define'):
                m = re.search(r'@("[^"]*"|[-A-Za-z$._0-9]+)\(', ln)
                name = m.group(1).strip('"')
                j = i + 1
                while lines[j] != '}':
                    j += 1
                hdr = ln[:ln.rindex('{')] if '{' in ln else ln
                hdr = re.sub(r'!dbg !\d+', '', hdr)
                self.funcs[name] = Function(name, hdr, lines[i + 1:j], self)
                i = j
            elif ln.startswith('%'):
                m = re.match(r'^(%"[^"]*"|%[-A-Za-z$._0-9]+) = type (.*)$', ln)
                if m:
                    self.types[m.group(1)] = m.group(2)
            elif ln.startswith('@'):
                m = re.match(r'^(@"[^"]*"|@[-A-Za-z$._0-9]+) = (.*)$', ln)
                if m:
                    self.globals[m.group(1)] = m.group(2)
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-A-Za-z$._0-9]+)\(', ln)
                if m:
                    self.decls.add(m.group(1).strip('"'))
            elif ln.startswith('!'):
                m = re.match(r'^!(\d+) = (.*)$', ln)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            i += 1
        self._ptypes = {}
        self.demangle_all()

    def demangle_all(self):
        names = list(self.funcs) + list(self.decls)
        # libc++ abi tags confuse the demangler's template printing only cosmetically
        out = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.dem = {}
        for a, b in zip(names, out):
            b = b.replace('[abi:ne180100]', '').replace('> >', '>>')
            self.dem[a] = b
        for f in self.funcs.values():
            f.demangled = self.dem[f.name]

    def struct(self, name):
        t = self._ptypes.get(name)
        if t is None:
            p = P(tokenize(self.types[name]))
            t = p.type()
            self._ptypes[name] = t
        return t

    def line_of(self, dbg):
        if dbg is None:
            return None
        s = self.md.get(dbg, '')
        m = re.search(r'line: (\d+)', s)
        return int(m.group(1)) if m else None

    # ---- layout
    def size_align(self, t):
        k = t[0]
        if k == 'i':
            n = t[1]
            s = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
            return s, s
        if k == 'ptr':
            return 8, 8
        if k == 'float':
            return 4, 4
        if k == 'double':
            return 8, 8
        if k == 'x86_fp80':
            return 16, 16
        if k == 'arr':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'struct':
            return self.size_align(self.struct(t[1]))
        if k == 'lit':
            off = 0
            al = 1
            for f in t[1]:
                s, a = self.size_align(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise ParseError('size of %r' % (t,))

    def field_off(self, t, i):
        if t[0] == 'struct':
            t = self.struct(t[1])
        off = 0
        for j, f in enumerate(t[1]):
            s, a = self.size_align(f)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += s
        raise ParseError('field')

    def resolve(self, t):
        while t[0] == 'struct':
            t = self.struct(t[1])
        return t
