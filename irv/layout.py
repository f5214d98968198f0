"""Memory layouts from clang's debug info (names, signedness, bit-fields) or from bare IR types."""
import re
from .values import Unsupported


class Leaf:
    __slots__ = ('off', 'size', 'kind', 'w', 'sign', 'dims', 'name', 'bits', 'target', 'elem', 'idx', 'nonnull')

    def __init__(self, off, size, kind, w=0, sign='S', dims=(), name='', bits=None, elem=None):
        self.off = off
        self.size = size
        self.kind = kind      # i f ptr vec str opaque
        self.w = w
        self.sign = sign
        self.dims = list(dims)   # [(count, stride)]
        self.name = name
        self.bits = bits      # None or (lo, width): bit-field of the storage unit at off
        self.elem = elem      # DI type id / name of vector element or pointee
        self.nonnull = False
        self.target = None    # region a pointer leaf stored in an array points to
        self.idx = None

    def __repr__(self):
        return 'Leaf(%s@%d %s%d %s %s%s)' % (self.name, self.off, self.kind, self.w, self.sign, self.dims, self.bits or '')


def parse_md(s):
    """parse 'distinct !DIxxx(a: b, c: "d")' into (tag, dict)"""
    m = re.match(r'(?:distinct )?!(DI\w+)\((.*)\)\s*$', s)
    if not m:
        return None, {}
    tag, body = m.groups()
    d = {}
    for k, q, v in re.findall(r'(\w+): (?:"((?:[^"\\]|\\.)*)"|([^,"]+))', body):
        d[k] = q if q else v.strip()
    return tag, d


class DI:
    def __init__(self, module):
        self.m = module
        self._c = {}
        self._byname = None

    def node(self, i):
        if isinstance(i, str):
            if not i.startswith('!') or not i[1:].isdigit():
                return None, {}
            i = int(i[1:])
        r = self._c.get(i)
        if r is None:
            r = parse_md(self.m.md.get(i, ''))
            self._c[i] = r
        return r

    def mdlist(self, ref):
        s = self.m.md.get(int(ref[1:]), '')
        return re.findall(r'!\d+', s[s.index('{'):]) if '{' in s else []

    def find_type(self, name):
        """composite type by its source name, e.g. 'mt_block_memory<int>' """
        if self._byname is None:
            self._byname = {}
            for i, s in self.m.md.items():
                if '!DICompositeType' in s and 'name: "' in s and 'DIFlagFwdDecl' not in s:
                    t, d = self.node(i)
                    self._byname.setdefault(d.get('name'), []).append('!%d' % i)
        r = self._byname.get(name)
        if not r:
            raise Unsupported('type %s not in debug info' % name)
        return r[0]

    def strip(self, ref):
        while True:
            t, d = self.node(ref)
            if t == 'DIDerivedType' and d.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type'):
                if 'baseType' not in d:
                    return None
                ref = d['baseType']
                continue
            return ref

    def name(self, ref):
        ref = self.strip(ref)
        if ref is None:
            return 'void'
        t, d = self.node(ref)
        if t == 'DIDerivedType':
            return self.name(d['baseType']) + '*' if 'baseType' in d and d['baseType'] != 'null' else 'void*'
        return d.get('name', '?')

    def size(self, ref):
        ref = self.strip(ref)
        t, d = self.node(ref)
        if t == 'DIDerivedType' and d.get('tag') in ('DW_TAG_pointer_type', 'DW_TAG_reference_type', 'DW_TAG_rvalue_reference_type', 'DW_TAG_ptr_to_member_type'):
            return 8
        return int(d.get('size', '0')) // 8

    def flatten(self, ref, base=0, name='', dims=(), bits=None, out=None, opaque=()):
        if out is None:
            out = []
        ref = self.strip(ref)
        if ref is None or ref == 'null':
            raise Unsupported('flatten void')
        t, d = self.node(ref)
        if t == 'DIBasicType':
            size = int(d['size']) // 8
            enc = d.get('encoding', '')
            if enc == 'DW_ATE_float':
                out.append(Leaf(base, size, 'f', size * 8, 'S', dims, name))
            else:
                sign = 'S' if enc in ('DW_ATE_signed', 'DW_ATE_signed_char') else 'U'
                out.append(Leaf(base, size, 'i', size * 8, sign, dims, name, bits))
            return out
        if t == 'DIDerivedType' and d.get('tag') in ('DW_TAG_pointer_type', 'DW_TAG_reference_type', 'DW_TAG_rvalue_reference_type'):
            out.append(Leaf(base, 8, 'ptr', 64, 'U', dims, name, None, d.get('baseType')))
            return out
        if t == 'DICompositeType':
            tag = d.get('tag')
            nm = d.get('name', '')
            size = int(d.get('size', '0')) // 8
            if tag == 'DW_TAG_enumeration_type':
                sign = 'S'
                if 'baseType' in d and d['baseType'] != 'null':
                    bt, bd = self.node(self.strip(d['baseType']))
                    if 'unsigned' in bd.get('encoding', ''):
                        sign = 'U'
                out.append(Leaf(base, size, 'i', size * 8, sign, dims, name))
                return out
            if tag == 'DW_TAG_array_type':
                counts = []
                for e in self.mdlist(d['elements']):
                    et, ed = self.node(e)
                    counts.append(int(ed.get('count', '0').strip()))
                esz = self.size(d['baseType'])
                nd = list(dims)
                tot = esz
                strides = []
                for c in reversed(counts):
                    strides.append((c, tot))
                    tot *= c
                nd = nd + list(reversed(strides))
                return self.flatten(d['baseType'], base, name, nd, None, out, opaque)
            if nm.startswith('vector<'):
                el = None
                for e in self.mdlist(d.get('templateParams', '!-1')) if 'templateParams' in d else []:
                    et, ed = self.node(e)
                    if ed.get('name') == '_Tp':
                        el = ed.get('type')
                out.append(Leaf(base, size, 'vec', 0, 'S', dims, name, None, el))
                return out
            if nm.startswith('basic_string<'):
                out.append(Leaf(base, size, 'str', 0, 'S', dims, name))
                return out
            if nm in opaque or nm.startswith(('list<', 'map<', 'set<', 'deque<', 'unordered_', 'stack<', 'queue<', 'function<', 'multimap<')):
                out.append(Leaf(base, size, 'opaque', 0, 'S', dims, name))
                return out
            if 'elements' in d:
                for e in self.mdlist(d['elements']):
                    et, ed = self.node(e)
                    if et != 'DIDerivedType':
                        continue
                    if ed.get('tag') == 'DW_TAG_inheritance':
                        o = int(ed.get('offset', '0')) // 8
                        self.flatten(ed['baseType'], base + o, name, dims, None, out, opaque)
                    elif ed.get('tag') == 'DW_TAG_member' and 'DIFlagStaticMember' not in ed.get('flags', ''):
                        ob = int(ed.get('offset', '0'))
                        mn = ed.get('name', '')
                        sub = (name + '.' + mn if name else mn) if mn else name
                        if mn.startswith('_vptr$'):
                            out.append(Leaf(base + ob // 8, 8, 'opaque', 64, 'U', dims, sub))
                            continue
                        if 'DIFlagBitField' in ed.get('flags', ''):
                            sb = int(re.sub(r'\D', '', ed.get('extraData', '0').split()[-1]) or 0)
                            fsz = int(ed['size'])
                            bt = self.node(self.strip(ed['baseType']))[1]
                            bw = int(bt['size'])
                            sign = 'S' if 'unsigned' not in bt.get('encoding', '') and bt.get('encoding') != 'DW_ATE_boolean' else 'U'
                            out.append(Leaf(base + sb // 8, bw // 8, 'i', bw, sign, dims, sub, (ob - sb, fsz)))
                        else:
                            self.flatten(ed['baseType'], base + ob // 8, sub, dims, None, out, opaque)
            return out
        if t == 'DISubroutineType':
            out.append(Leaf(base, 8, 'opaque', 64, 'U', dims, name))
            return out
        raise Unsupported('flatten %s %s' % (t, d))


def flatten_ir(m, t, base=0, name='', dims=(), out=None):
    if out is None:
        out = []
    k = t[0]
    if k == 'i':
        s, _ = m.size_align(t)
        out.append(Leaf(base, s, 'i', s * 8, 'S', dims, name))
    elif k in ('float', 'double'):
        s, _ = m.size_align(t)
        out.append(Leaf(base, s, 'f', s * 8, 'S', dims, name))
    elif k == 'ptr':
        out.append(Leaf(base, 8, 'ptr', 64, 'U', dims, name))
    elif k == 'arr':
        s, _ = m.size_align(t[2])
        flatten_ir(m, t[2], base, name, list(dims) + [(t[1], s)], out)
    elif k in ('struct', 'lit'):
        if k == 'struct':
            nm = t[1].strip('%"')
            s, _ = m.size_align(t)
            if re.match(r'class\.std::__1::vector(\.\d+)?$', nm):
                out.append(Leaf(base, s, 'vec', 0, 'S', dims, name))
                return out
            if re.match(r'class\.std::__1::basic_string(\.\d+)?$', nm):
                out.append(Leaf(base, s, 'str', 0, 'S', dims, name))
                return out
            if re.match(r'class\.std::__1::(list|map|set|deque|unordered_)', nm):
                out.append(Leaf(base, s, 'opaque', 0, 'S', dims, name))
                return out
        rt = m.resolve(t)
        for i in range(len(rt[1])):
            o, ft = m.field_off(rt, i)
            # explicit padding arrays [n x i8] at the end of structs are harmless
            flatten_ir(m, ft, base + o, (name + '.' if name else '') + str(i), dims, out)
    else:
        raise Unsupported('flatten ir %r' % (t,))
    return out
