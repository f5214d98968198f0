"""Contracts: preconditions, postconditions, frames, loop-invariant hints; views of states for specifications."""
import re
import z3
from .values import *
from .mem import *
from .layout import Leaf


def fa(f, n=None, pats=None, name='k'):
    """forall over Int variables: fa(lambda i, j: ...)"""
    import inspect
    n = n or len(inspect.signature(f).parameters)
    vs = [z3.Int('%s%d!q%d' % (name, i, uid())) for i in range(n)]
    b = f(*vs)
    if b is True or b is False:
        return b
    if pats:
        ps = pats(*vs)
        try:
            return z3.ForAll(vs, b, patterns=[z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in ps])
        except z3.Z3Exception:
            pass          # the trigger is not a legal one in this state (a merged array): let the solver choose
    return z3.ForAll(vs, b)


def ex(f, n=None):
    import inspect
    n = n or len(inspect.signature(f).parameters)
    vs = [z3.Int('e%d!q%d' % (i, uid())) for i in range(n)]
    return z3.Exists(vs, f(*vs))


def And(*a):
    a = [x for y in a for x in (y if isinstance(y, (list, tuple)) else [y])]
    return band(*a)


def Or(*a):
    a = [x for y in a for x in (y if isinstance(y, (list, tuple)) else [y])]
    return bor(*a)


Not = bnot


def Imp(a, b):
    return implies(a, b)


def Iff(a, b):
    return B(a) == B(b)


class Pure:
    """a formula valid for all values of its free constants, proved without any context (nonlinear facts)"""

    def __init__(self, f):
        self.f = f

    def at(self, *pairs):
        """instance: (constant, term) ..."""
        return z3.substitute(self.f, *[(a, T(b)) for a, b in pairs])


_pure = {}


def prove_lemma(eng, st, p, timeout):
    if not isinstance(p, Pure):
        return eng.prove(st, p, timeout)[0] == 'unsat'
    from . import solver
    k = p.f.sexpr()
    if k not in _pure:
        _pure[k] = solver.check([z3.Not(p.f)], 20000)[0] == 'unsat'
    return _pure[k]


class Arr:
    """a sequence in memory: vector contents or the elements behind a pointer"""

    def __init__(self, eng, region, ids, base, leaf=None, bits=None):
        self.eng = eng
        self.region = region
        self.ids = tuple(ids)
        self.base = base
        self._leaf = leaf

    @property
    def leaf(self):
        if self._leaf is None:
            self._leaf = self.region.leaves[0]
        return self._leaf

    def field(self, name):
        return Arr(self.eng, self.region, self.ids, self.base, self.region.leaf(name))

    def raw(self, st):
        return self.eng.get(st, self.region, self.leaf.idx)

    def at(self, st, k, *more):
        b = self.base
        idx = k if isinstance(b, int) and b == 0 else b + k
        t = sel(self.raw(st), list(self.ids) + [idx] + list(more))
        return t

    def rng(self, st, k):
        """range fact of element k as a formula"""
        lo, hi = rng(self.leaf.w, self.leaf.sign)
        t = self.at(st, k)
        return z3.And(t >= lo, t <= hi)

    def len(self, st):
        return T(self.eng.vlen(st, self.region, self.ids))

    def tr(self, st):
        """accessor function k -> element in state st"""
        return lambda k, *m: self.at(st, k, *m)


def resolve_arr(eng, st, v):
    """pointer or reference to a vector -> Arr"""
    if isinstance(v, VecV):
        return Arr(eng, v.data, v.size or (), 0)
    if not isinstance(v, PtrV):
        raise Unsupported('not a pointer: %r' % (v,))
    cs = [t for c, t in v.cases if t is not NULL]
    if len(cs) != 1:
        raise Unsupported('ambiguous pointer %r' % (v,))
    t = cs[0]
    r = t.r
    if r.leaves is None:
        raise Unsupported('untyped region')
    idx, c, rest = eng.decompose(r, t.off)
    for leaf in r.leaves:
        if leaf.kind == 'vec' and leaf.off == c and not rest:
            vv = eng.rd(st, r, leaf, list(t.id) + ([idx] if r.rank else []))
            return Arr(eng, vv.data, vv.size or (), 0)
    if r.rank == 0:
        # array member of one object
        f = None
        for leaf in r.leaves:
            if leaf.dims and leaf.off == c:
                return Arr(eng, r, (), 0, leaf)
        raise Unsupported('pointer %r is not an array' % (v,))
    if rest or c:
        f = eng.leaf_at(r, c, rest, None)
        if f and not f[1]:
            return Arr(eng, r, t.id, idx, f[0])
        raise Unsupported('interior pointer %r' % (v,))
    return Arr(eng, r, t.id, idx)


class SV:
    """what a specification may read of one state inside a loop or at a point of a function"""

    def __init__(self, eng, st, lv):
        self.eng = eng
        self.st = st
        self.lv = lv

    def v(self, name):
        """current value of a local variable or parameter, by source name"""
        r = self.lv.var_region(name)
        return self.val(r)

    def val(self, r, leaf=None):
        leaf = leaf or r.leaves[0]
        x = self.eng.get(self.st, r, leaf.idx)
        if isinstance(x, IntV):
            return T(self.eng.canon(self.st, x, leaf.sign))
        if isinstance(x, FV):
            return x.t
        if isinstance(x, BoolV):
            return z3.If(B(x.b), z3.IntVal(1), z3.IntVal(0))
        raise Unsupported('value of %s is %r' % (r.name, x))

    def f(self, name):
        return self.v(name)

    def pi(self, name):
        """element index of a pointer local"""
        t = [t for c, t in self.ptr(name).cases if t is not NULL]
        if len(t) != 1:
            raise Unsupported('ambiguous pointer ' + name)
        return T(self.eng.decompose(t[0].r, t[0].off)[0])

    def ptr(self, name):
        r = self.lv.var_region(name)
        return self.eng.get(self.st, r, r.leaves[0].idx)

    def arr(self, name):
        r = self.lv.var_region(name)
        lf = r.leaves[0]
        if lf.kind == 'vec':
            vv = self.eng.get(self.st, r, lf.idx)
            return Arr(self.eng, vv.data, vv.size or (), 0)
        if lf.dims:
            return Arr(self.eng, r, (), 0, lf)
        x = self.eng.get(self.st, r, lf.idx)
        return resolve_arr(self.eng, self.st, x)

    def ints(self):
        """(name, term) for the integer locals of the current function that have a value"""
        out = []
        for nm, rs in self.lv.frame['vars'].items():
            r = rs[-1]
            if len(rs) == 1 or True:
                for r in rs:
                    lf = r.leaves[0]
                    if len(r.leaves) == 1 and lf.kind == 'i' and not lf.dims and lf.w >= 16:
                        x = self.eng.get(self.st, r, lf.idx)
                        if isinstance(x, IntV):
                            out.append((nm if len(rs) == 1 else '%s~%d' % (nm, rs.index(r)), T(self.eng.canon(self.st, x, lf.sign))))
        return out

    def ghost(self, key):
        return self.st.ghost[key]


class LoopView:
    """passed to Contract.invs: which loop, its entry state, the function's view"""

    def __init__(self, eng, frame, fn, ordinal, entry, V):
        self.eng = eng
        self.frame = frame
        self.fn = fn               # demangled name of the function the loop is in
        self.ordinal = ordinal
        self.entry = entry
        self.V = V                 # view of the verified function (pre state and arguments)
        self.S0 = SV(eng, entry, self)

    def var_region(self, name):
        fr = self.frame
        nm, _, k = name.partition('~')
        rs = fr['vars'].get(nm)
        if not rs:
            raise KeyError(name)
        return rs[int(k) if k else -1]

    def has(self, *names):
        return all(n.partition('~')[0] in self.frame['vars'] for n in names)

    def int_names(self, modified_only=False):
        return [n for n, _ in self.S0.ints_decl()] if False else self._names()

    def _names(self):
        out = []
        for nm, rs in self.frame['vars'].items():
            for j, r in enumerate(rs):
                lf = r.leaves[0] if r.leaves else None
                if lf is not None and len(r.leaves) == 1 and lf.kind == 'i' and not lf.dims and lf.w >= 16:
                    v = self.entry.mem.get((r, lf.idx))
                    if v is None and r.local or isinstance(v, UndefV):
                        continue
                    out.append(nm if len(rs) == 1 else '%s~%d' % (nm, j))
        return out


    def _pnames(self):
        out = []
        for nm, rs in self.frame['vars'].items():
            for j, r in enumerate(rs):
                lf = r.leaves[0] if r.leaves else None
                if lf is not None and len(r.leaves) == 1 and lf.kind == 'ptr' and not lf.dims:
                    v = self.entry.mem.get((r, lf.idx))
                    if isinstance(v, PtrV) and len(v.cases) == 1 and v.cases[0][1] is not NULL and v.cases[0][1].r.rank == 1:
                        out.append(nm if len(rs) == 1 else '%s~%d' % (nm, j))
        return out


class View:
    def __init__(self, eng, c, fname, args, pre, post):
        self.eng = eng
        self.c = c
        self.pre = pre
        self.post = post
        self.ret = None
        self.args = args
        self.ghosts = {}
        self.call_site = False
        self.names = []
        if fname in eng.m.funcs:
            f = eng.m.funcs[fname].parse()
            for t, nm, sret in f.params:
                nm = (nm or '%?')[1:].strip('"')
                nm = re.sub(r'\.coerce\d*$', '', nm)
                if sret:
                    nm = '__sret'
                self.names.append(nm)
        self.byname = {}
        for n, a in zip(self.names, args):
            self.byname.setdefault(n, a)

    def arg(self, name):
        if isinstance(name, int):
            return self.args[name]
        return self.byname[name]

    def __getitem__(self, name):
        if name in self.ghosts:
            return self.ghosts[name]
        x = self.arg(name)
        if isinstance(x, IntV):
            return T(x.t if x.tag != 'U' or True else x.t)
        if isinstance(x, FV):
            return x.t
        if isinstance(x, BoolV):
            return z3.If(B(x.b), z3.IntVal(1), z3.IntVal(0))
        raise Unsupported('argument %s is %r' % (name, x))

    def s(self, name):
        """signed reading of an integer argument"""
        return T(self.eng.sgn(self.pre, self.arg(name)))

    def packed(self, name):
        """fields of a small struct passed in a register, by position"""
        x = self.arg(name)
        if isinstance(x, PackedV):
            return [T(p[2].t) for p in x.parts]
        return [T(x.t)]

    def A(self, name, st=None):
        return resolve_arr(self.eng, st or self.pre, self.arg(name))

    def field(self, name, path, st=None):
        """value of a member of the object an argument points to"""
        return field_of(self.eng, st or self.pre, self.arg(name), path)

    def fptr(self, name, path, st=None):
        r, t = obj_region(self.arg(name))
        lf = r.leaf(path)
        return self.eng.rd(st or self.pre, r, lf, list(t.id) + ([self.eng.decompose(r, t.off)[0]] if r.rank else []))

    def farr(self, name, path, st=None):
        r, t = obj_region(self.arg(name))
        lf = r.leaf(path)
        if lf.kind == 'vec':
            vv = self.eng.rd(st or self.pre, r, lf, list(t.id) + ([self.eng.decompose(r, t.off)[0]] if r.rank else []))
            return Arr(self.eng, vv.data, vv.size or (), 0)
        if lf.dims:
            return Arr(self.eng, r, tuple(t.id) + ((self.eng.decompose(r, t.off)[0],) if r.rank else ()), 0, lf)
        return resolve_arr(self.eng, st or self.pre, self.fptr(name, path, st))

    @property
    def r(self):
        x = self.ret
        if isinstance(x, IntV):
            return T(self.eng.sgn(self.post, x))
        if isinstance(x, BoolV):
            return z3.If(B(x.b), z3.IntVal(1), z3.IntVal(0))
        if isinstance(x, FV):
            return x.t
        raise Unsupported('return value %r' % (x,))

    @property
    def ru(self):
        return T(self.eng.uns(self.post, self.ret))


def obj_region(p):
    if not isinstance(p, PtrV):
        raise Unsupported('not an object pointer %r' % (p,))
    cs = [t for c, t in p.cases if t is not NULL]
    if len(cs) != 1:
        raise Unsupported('ambiguous object pointer')
    return cs[0].r, cs[0]


def field_of(eng, st, p, path):
    r, t = obj_region(p)
    lf = r.leaf(path)
    keys = list(t.id) + ([eng.decompose(r, t.off)[0]] if r.rank else [])
    x = eng.rd(st, r, lf, keys)
    if isinstance(x, IntV):
        return T(eng.canon(st, x, lf.sign))
    if isinstance(x, FV):
        return x.t
    if isinstance(x, BoolV):
        return z3.If(B(x.b), z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ExprRef):
        return x
    raise Unsupported('field %s is %r' % (path, x))


class Setup:
    """builds the symbolic arguments and heap a function is verified with"""

    def __init__(self, eng, st, contract, fname):
        self.eng = eng
        self.st = st
        self.c = contract
        self.f = eng.m.funcs[fname].parse()
        self.fi = eng.finfo(fname)
        self.by = {}

    def int(self, name, w=32, sign='S'):
        return self.eng.fresh_int(name, w, sign)

    def di_of(self, base):
        for a in ('%' + base + '.addr', '%' + base, '%"' + base + '.addr"', '%result.ptr', '%retval'):
            if a in self.fi.vartypes:
                return self.fi.vartypes[a]
        return None

    def pointee(self, ref):
        di = self.eng.di
        ref = di.strip(ref)
        t, d = di.node(ref)
        if t == 'DIDerivedType' and d.get('tag') in ('DW_TAG_pointer_type', 'DW_TAG_reference_type', 'DW_TAG_rvalue_reference_type'):
            return d.get('baseType')
        return None

    def obj(self, name, ref, rank=0):
        di = self.eng.di
        if not ref.startswith('!'):
            ref = di.find_type(ref)
        r = Region(name, rank, di.size(ref), di.flatten(ref))
        r.di = ref
        return r

    def basic(self, name, w, sign='S', kind='i', rank=1):
        return Region(name, rank, w // 8, [Leaf(0, w // 8, kind, w, sign)])

    def ptr(self, r, off=0):
        return PtrV([(True, Loc(r, Lin(off), ()))])

    def auto(self, t, nm, sret):
        base = re.sub(r'\.coerce\d*$', '', (nm or '%arg')[1:].strip('"'))
        ref = self.di_of(base)
        di = self.eng.di
        if t[0] == 'ptr':
            if sret:
                r = None
                for a in ('%agg.result', '%result.ptr', '%retval'):
                    pass
                # type from the sret attribute is not kept; use the subprogram's return type
                rt = self.ret_ref()
                r = Region('result', 0, di.size(rt), di.flatten(rt))
                r.result = True
                return self.ptr(r)
            if ref is None:
                raise Unsupported('no debug type for parameter %s of %s' % (nm, self.f.name))
            pt = self.pointee(ref)
            if pt is None:
                # by-value aggregate passed in memory
                r = self.obj(base, ref)
                return self.ptr(r)
            st_ref = di.strip(pt)
            if st_ref is None:
                raise Unsupported('void pointer parameter ' + base)
            tt, dd = di.node(st_ref)
            isref = di.node(di.strip(ref))[1].get('tag') == 'DW_TAG_reference_type'
            if tt == 'DICompositeType' and dd.get('tag') != 'DW_TAG_enumeration_type':
                r = self.obj(base, st_ref)
                return self.ptr(r)
            rank = 0 if isref else 1
            r = Region(base, rank, di.size(st_ref), di.flatten(st_ref))
            return self.ptr(r)
        if t[0] in ('float', 'double'):
            return FV(self.eng.fresh(base, 'f'), 32 if t[0] == 'float' else 64)
        if t[0] == 'i':
            if t[1] == 1:
                return BoolV(self.eng.fresh(base, 'b'))
            if nm and '.coerce' in nm and ref is not None:
                lv = di.flatten(ref)
                if not (len(lv) == 1 and not lv[0].dims and lv[0].w == t[1]):
                    m = re.search(r'\.coerce(\d+)$', nm)
                    start = 8 * int(m.group(1)) if m else 0
                    parts = []
                    for l in lv:
                        if l.off < start or l.off >= start + t[1] // 8:
                            continue
                        if l.dims:
                            for j in range(l.dims[0][0]):
                                o = l.off + j * l.dims[0][1]
                                if start <= o < start + t[1] // 8:
                                    parts.append(((o - start) * 8, l.w, self.eng.fresh_leaf(l, '%s.%s%d' % (base, l.name, j))))
                        else:
                            parts.append(((l.off - start) * 8, l.w, self.eng.fresh_leaf(l, base + '.' + l.name)))
                    if len(parts) == 1 and parts[0][1] == t[1]:
                        return parts[0][2]
                    return PackedV(parts, t[1])
                sign = lv[0].sign
                return self.eng.fresh_int(base, t[1], sign)
            sign = 'S'
            if ref is not None:
                try:
                    lv = di.flatten(ref)
                    if len(lv) == 1:
                        sign = lv[0].sign
                except Unsupported:
                    pass
            return self.eng.fresh_int(base, t[1], sign)
        raise Unsupported('parameter type %r' % (t,))

    def ret_ref(self):
        m = self.eng.m
        hdr = self.f.header
        # DISubprogram by linkage name
        for i, s in m.md.items():
            if '!DISubprogram' in s and 'linkageName: "%s"' % self.f.name in s and 'type:' in s:
                ty = re.search(r'type: (!\d+)', s).group(1)
                l = self.eng.di.node(ty)[1].get('types')
                el = re.findall(r'!\d+|null', m.md[int(l[1:])])
                return el[0]
        raise Unsupported('return type of ' + self.f.name)

    def args(self):
        out = []
        for t, nm, sret in self.f.params:
            base = '__sret' if sret else re.sub(r'\.coerce\d*$', '', (nm or '%arg')[1:].strip('"'))
            v = None
            h = getattr(self.c, 'arg_' + base, None)
            if h is not None:
                v = h(self)
            if v is None:
                v = self.auto(t, nm, sret)
            if base in self.c.b8_args and isinstance(v, IntV):
                self.st.assume(z3.And(T(v.t) >= 0, T(v.t) <= 1))
            self.by[base] = v
            out.append(v)
        return out


class Contract:
    name = ''
    match = ''            # regex, searched at the start of the demangled name
    inline = False        # hints only: callers inline the body
    b8_args = ()
    decreases = None
    terminates = True
    modifies_all = False
    unroll = None         # False: never replace a loop by its unrolling
    auto = True           # False or a pattern: which automatic loop-invariant candidates to try
    trusted = False       # assumed contract: never verified
    timeout = None
    cvc5_first = False    # ask cvc5 before z3 about quantified goals

    def matches(self, d):
        return re.match(self.match, d) is not None

    def serves(self, cur):
        """with several contracts for one function: is this the one callers verified for contract cur rely on"""
        return True

    def prepare(self, s, args):
        """after the arguments exist: constrain or link heap objects"""

    def requires(self, V):
        return []

    def ensures(self, V):
        return []

    def requires_at(self, V):
        return self.requires(V)

    def ensures_at(self, V):
        return self.ensures(V)

    def modifies(self, V):
        return []

    def invs(self, L):
        return []

    def prelemmas(self, V):
        return []

    def lemmas(self, L, S):
        return []

    def ghosts_for(self, callee, eng, st, view):
        return {}

    def my_ghosts(self, eng, st, V):
        """ghost constants this contract is verified for (arbitrary values)"""
        return {}

    def call_hook(self, eng, st, name, dem, args, rty):
        return None

    def make_ret(self, V, rty):
        eng = V.eng
        if rty[0] == 'void':
            return None
        if rty[0] == 'i':
            if rty[1] == 1:
                return BoolV(eng.fresh('ret', 'b'))
            return eng.fresh_int('ret_' + self.name, rty[1])
        if rty[0] in ('float', 'double'):
            return FV(eng.fresh('ret', 'f'), 32 if rty[0] == 'float' else 64)
        if rty[0] == 'ptr':
            return self.ret_ptr(V)
        raise Unsupported('return type %r' % (rty,))

    def ret_ptr(self, V):
        raise Unsupported('pointer return of contract ' + self.name)

    def havoc(self, V):
        eng = V.eng
        st = V.post
        for m in self.modifies(V):
            m.havoc(eng, st)

    # frame: which (region, key, predicate) may change
    def frame(self, V):
        out = {}
        for m in self.modifies(V):
            for k, pred in m.keys(V.eng):
                if k in out and out[k] is not None and pred is not None:
                    p0, p1 = out[k], pred
                    out[k] = lambda *ks, p0=p0, p1=p1: bor(p0(*ks), p1(*ks))
                else:
                    out[k] = None if k in out else pred
        return out


class ModArr:
    """elements lo <= k < hi of an Arr (all when lo is None)"""

    def __init__(self, arr, lo=None, hi=None, leaves=None):
        self.arr = arr
        self.lo = lo
        self.hi = hi
        self.leaves = leaves

    def _leaves(self):
        if self.leaves is not None:
            return [self.arr.region.leaf(x) for x in self.leaves]
        if self.arr._leaf is not None:
            return [self.arr._leaf]
        return list(self.arr.region.leaves)

    def _pred(self, leaf):
        a = self.arr
        if a.region.rank == 0:
            nid = 0
        else:
            nid = a.region.rank - 1

        def pred(*ks):
            c = []
            for x, y in zip(ks, a.ids):
                c.append(T(x) == T(y))
            k = ks[nid] if len(ks) > nid else None
            if k is not None and self.lo is not None:
                b = a.base
                c.append(k >= b + self.lo)
                c.append(k < b + self.hi)
            return band(*c)
        return pred

    def keys(self, eng):
        for l in self._leaves():
            yield (self.arr.region, l.idx), self._pred(l)
            if l.kind == 'ptr':
                yield (self.arr.region, (l.idx, 'id')), self._pred(l)

    def havoc(self, eng, st):
        r = self.arr.region
        if r in eng.tracked:
            raise Unsupported('a callee changes elements summed up by a ghost')
        for l in self._leaves():
            if l.kind == 'vec':
                raise Unsupported('havoc of nested vectors')
            for key in ([l.idx, (l.idx, 'id')] if l.kind == 'ptr' else [l.idx]):
                old = eng.get(st, r, key)
                n = r.arity(l)
                new = eng.fresh(r.name + '.new', old.sort())
                vs = [z3.Int('h%d!%d' % (i, uid())) for i in range(n)]
                p = self._pred(l)(*vs)
                if p is not True:
                    st.assume(z3.ForAll(vs, z3.Or(B(p), sel(new, vs) == sel(old, vs)), patterns=[sel(new, vs)]))
                st.mem[(r, key)] = new
            if ('cnt', r) in st.ghost and l.idx == 0:
                st.ghost[('cnt', r)] = eng.fresh('cnt')


class ModField:
    def __init__(self, p, path):
        self.p = p
        self.path = path

    def keys(self, eng):
        r, t = obj_region(self.p)
        lf = r.leaf(self.path)
        if r.rank:
            ks0 = list(t.id) + [eng.decompose(r, t.off)[0]]
            yield (r, lf.idx), lambda *ks: band(*[T(x) == T(y) for x, y in zip(ks, ks0)])
            if lf.kind == 'ptr':
                yield (r, (lf.idx, 'id')), lambda *ks: band(*[T(x) == T(y) for x, y in zip(ks, ks0)])
        else:
            yield (r, lf.idx), None

    def havoc(self, eng, st):
        r, t = obj_region(self.p)
        lf = r.leaf(self.path)
        if r.rank == 0:
            if lf.dims:
                old = eng.get(st, r, lf.idx)
                st.mem[(r, lf.idx)] = eng.fresh(r.name + '.' + lf.name, old.sort())
            elif lf.kind == 'ptr':
                raise Unsupported('havoc of a pointer member')
            else:
                st.mem[(r, lf.idx)] = eng.fresh_leaf(lf, r.name + '.' + lf.name)
        else:
            ks = list(t.id) + [eng.decompose(r, t.off)[0]]
            for key in ([lf.idx, (lf.idx, 'id')] if lf.kind == 'ptr' else [lf.idx]):
                if isinstance(key, tuple) and (lf.target is None or lf.target.rank != 2):
                    continue
                old = eng.get(st, r, key)
                x = eng.fresh(r.name + '.' + lf.name, 'f' if lf.kind == 'f' else 'i')
                if lf.kind == 'i':
                    eng.fact(x, *rng(lf.w, lf.sign))
                st.mem[(r, key)] = sto(old, ks, x)


class ModLen:
    def __init__(self, arr):
        self.arr = arr

    def keys(self, eng):
        a = self.arr
        if a.region.rank == 1:
            yield (a.region, 'len'), None
        else:
            yield (a.region, 'len'), lambda *ks: band(*[T(x) == T(y) for x, y in zip(ks, a.ids)])

    def havoc(self, eng, st):
        a = self.arr
        t = eng.fresh('len')
        eng.fact(t, 0, 1 << 62)
        eng.set_vlen(st, a.region, a.ids, t)
