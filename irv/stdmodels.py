"""Assumed contracts of the C and C++ libraries (and of the logging entry points)."""
import re
import z3
from .values import *
from .mem import *
from .layout import Leaf
from .exec import PIntV, I64

NOPS = re.compile(r'^(free|operator delete(\[\])?\(|llvm\.(lifetime|assume|donothing|experimental|prefetch)|__clang_call_terminate|'
                  r'basicsys::sys_strcombine|std::__1::__throw|__cxa_(guard|atexit|end_catch|begin_catch))')

BASIC = {'int': (4, 'i', 'S'), 'unsigned int': (4, 'i', 'U'), 'float': (4, 'f', 'S'), 'double': (8, 'f', 'S'),
         'unsigned char': (1, 'i', 'U'), 'signed char': (1, 'i', 'S'), 'char': (1, 'i', 'S'), 'short': (2, 'i', 'S'), 'unsigned short': (2, 'i', 'U'),
         'long': (8, 'i', 'S'), 'unsigned long': (8, 'i', 'U'), 'long long': (8, 'i', 'S'), 'unsigned long long': (8, 'i', 'U'), 'bool': (1, 'i', 'U')}


def split_targs(s):
    """top-level template arguments of 'a<...>' contents"""
    out = []
    d = 0
    cur = ''
    for ch in s:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


def type_by_name(eng, nm):
    nm = nm.strip()
    nm = re.sub(r'\bconst\b', '', nm).strip()
    if nm in BASIC:
        s, k, sg = BASIC[nm]
        return s, [Leaf(0, s, k, s * 8, sg)]
    if nm.endswith('*'):
        return 8, [Leaf(0, 8, 'ptr', 64, 'U', (), '', None, nm[:-1].strip())]
    if nm.startswith('std::__1::vector<'):
        e = split_targs(nm[len('std::__1::vector<'):-1])[0]
        return 24, [Leaf(0, 24, 'vec', 0, 'S', (), '', None, ('name', e))]
    if nm.startswith('std::__1::basic_string<'):
        return 24, [Leaf(0, 24, 'str')]
    base = nm
    # strip namespaces outside of template arguments
    head, lt, tail = nm.partition('<')
    short = head.split('::')[-1] + lt + tail
    cands = [short, re.sub(r'\bbasic\w+::', '', short), short.replace('>>', '> >')]
    for c in cands:
        try:
            ref = eng.di.find_type(c)
            return eng.di.size(ref), eng.di.flatten(ref)
        except Unsupported:
            continue
    raise Unsupported('element type ' + nm)


def method(d):
    """'std::__1::vector<T, A>::name(args) const' -> (T, name, args)"""
    p = 'std::__1::vector<'
    i = d.find(p)
    if i < 0 or (i > 0 and d[:i].count('<') != d[:i].count('>')) or '(' in d[:i]:
        return None
    if i > 0 and not re.match(r'^(void|[\w:*&<>, ]+) $', d[:i]):
        return None
    j = i + len(p)
    dep = 1
    while dep:
        if d[j] == '<':
            dep += 1
        elif d[j] == '>':
            dep -= 1
        j += 1
    targs = d[i + len(p):j - 1]
    rest = d[j:]
    if not rest.startswith('::'):
        return None
    rest = rest[2:]
    m = re.match(r'(operator\[\]|operator=|~?\w+)(\[abi:\w+\])?', rest)
    if not m:
        return None
    name = m.group(1)
    rest = rest[m.end():]
    if rest.startswith('<'):
        dep = 0
        for k, ch in enumerate(rest):
            if ch == '<':
                dep += 1
            elif ch == '>':
                dep -= 1
                if dep == 0:
                    rest = rest[k + 1:]
                    break
    return split_targs(targs)[0], name, rest


def vecref(eng, st, p, elem=None):
    """pointer to a std::vector -> (data region, ids, holder)"""
    if not isinstance(p, PtrV):
        raise Unsupported('vector reference %r' % (p,))
    cs = [(c, t) for c, t in p.cases if t is not NULL]
    if len(cs) > 1 and not eng.dry:
        cs = [(c, t) for c, t in cs if eng.feasible(st, c)]
    if len(cs) != 1:
        if eng.dry and cs:
            cs = cs[:1]
        else:
            raise Unsupported('ambiguous vector reference')
    t = cs[0][1]
    r = t.r
    if r.leaves is None:
        r.typed(24, [Leaf(0, 24, 'vec', 0, 'S', (), '', None, ('name', elem))])
    idx, c, rest = eng.decompose(r, t.off)
    for leaf in r.leaves:
        if leaf.kind != 'vec':
            continue
        dk = []
        if leaf.dims:
            f = eng.leaf_at(r, c, rest, 24)
            if f is None or f[0] is not leaf:
                continue
            dk = f[1]
        elif leaf.off != c or rest:
            continue
        if leaf.elem is None and elem is not None:
            leaf.elem = ('name', elem)
        keys = list(t.id) + ([idx] if r.rank else []) + dk
        if r.rank:
            eng.bounds(st, r, t.id, idx, True, 'vector')
        v = eng.rd(st, r, leaf, keys)
        if v.data.leaves is None and elem is not None:
            s, lv = type_by_name(eng, elem)
            v.data.typed(s, lv)
        return v.data, (v.size or ())
    raise Unsupported('no vector at %r' % (t,))


def iv(t):
    return IntV(t, 64, 'N')


def elem_ptr(r, ids, idx):
    return PtrV([(True, Loc(r, lin_of(idx if not isinstance(idx, int) else idx).scale(r.E), tuple(ids)))])


def leaf_keys(r, ids, k):
    return list(ids) + [k]


def copy_elem(eng, st, src, r, ids, k):
    """r[ids][k] := *src for every leaf"""
    for lf in r.leaves:
        if lf.kind == 'vec':
            d2 = eng.inner(r, lf)
            sp = PtrV([(c, t if t is NULL else Loc(t.r, t.off.add(Lin(lf.off)), t.id)) for c, t in src.cases])
            sd, sids = vecref(eng, st, sp, lf.elem[1] if isinstance(lf.elem, tuple) else None)
            copy_vec(eng, st, d2, leaf_keys(r, ids, k), sd, sids)
            continue
        if lf.kind in ('str', 'opaque'):
            continue
        n = 1
        dims = lf.dims
        combos = [[]]
        for cnt, stride in dims:
            if cnt > 16:
                raise Unsupported('copy of a large array member')
            combos = [x + [j] for x in combos for j in range(cnt)]
        for cb in combos:
            off = lf.off + sum(j * s for j, (c, s) in zip(cb, dims))
            sp = PtrV([(c, t if t is NULL else Loc(t.r, t.off.add(Lin(off)), t.id)) for c, t in src.cases])
            ty = ('i', lf.w) if lf.kind == 'i' else ('ptr',) if lf.kind == 'ptr' else (('float',) if lf.w == 32 else ('double',))
            if lf.bits:
                v = eng.access(st, sp, ty, 'copy')
                raise Unsupported('copy of bit-fields')
            v = eng.load(st, sp, ty, 'copy')
            eng.wr(st, r, lf, leaf_keys(r, ids, k) + cb, v)


def copy_vec(eng, st, r, ids, sr, sids):
    if r.leaves is None:
        r.typed(sr.E, [Leaf(l.off, l.size, l.kind, l.w, l.sign, l.dims, l.name, l.bits, l.elem) for l in sr.leaves])
        for a, b in zip(r.leaves, sr.leaves):
            a.target = b.target
    n = eng.vlen(st, sr, sids)
    eng.set_vlen(st, r, ids, n)
    for a, b in zip(r.leaves, sr.leaves):
        if a.kind == 'vec':
            ir, isr = eng.inner(r, a), eng.inner(sr, b)
            fill_fn(eng, st, ir, 'len', list(ids), lambda ks: sel(eng.get(st, isr, 'len'), list(sids) + ks), n_free=r.arity(a) - len(ids), old_len=None)
            for x, y in zip(ir.leaves or [], isr.leaves or []):
                if x.kind == 'vec':
                    raise Unsupported('copy of vectors nested deeper than two')
                fill_fn(eng, st, ir, x.idx, list(ids), lambda ks, y=y: sel(eng.get(st, isr, y.idx), list(sids) + ks), n_free=ir.arity(x) - len(ids))
            continue
        for key, key2 in ([(a.idx, b.idx), ((a.idx, 'id'), (b.idx, 'id'))] if a.kind == 'ptr' and a.target is not None and a.target.rank == 2 else [(a.idx, b.idx)]):
            fill_fn(eng, st, r, key, list(ids), lambda ks, key2=key2: sel(eng.get(st, sr, key2), list(sids) + ks), n_free=r.arity(a) - len(ids))


def fill_fn(eng, st, r, key, ids, f, n_free, old_len=None):
    """contents of r[ids][...] := f(...) for all free indices"""
    if not ids and n_free >= 1:
        probe = [z3.Int('cp%d' % i) for i in range(n_free)]
        t = f(probe)
        # whole-array copy
        if z3.is_select(t) and t.num_args() == n_free + 1 and all(t.arg(i + 1).eq(probe[i]) for i in range(n_free)) and z3.is_const(t.arg(0)):
            st.mem[(r, key)] = t.arg(0)
            return
    old = eng.get(st, r, key)
    new = eng.fresh('%s.copy' % r.name, old.sort())
    vs = [z3.Int('cp%d!%d' % (i, uid())) for i in range(n_free)]
    ivs = [z3.Int('ci%d!%d' % (i, uid())) for i in range(len(ids))]
    full = list(ids) + vs
    s = sel(new, full)
    st.assume(z3.ForAll(vs, s == f(vs), patterns=[s]))
    if ids:
        al = ivs + vs
        s2 = sel(new, al)
        st.assume(z3.ForAll(al, z3.Or(band(*[x == T(y) for x, y in zip(ivs, ids)]), s2 == sel(old, al)), patterns=[s2]))
    st.mem[(r, key)] = new


def fill_range(eng, st, r, ids, lo, hi, vals):
    """elements lo<=k<hi of r[ids] get the leaf values in vals {leaf idx: term or None}; others unchanged"""
    for lf in r.leaves:
        if lf.kind == 'vec':
            ir = eng.inner(r, lf)
            old = eng.get(st, ir, 'len')
            new = eng.fresh(ir.name + '.len', old.sort())
            k = z3.Int('rk!%d' % uid())
            ivs = [z3.Int('ri%d!%d' % (i, uid())) for i in range(len(ids))]
            s = sel(new, ivs + [k])
            inr = band(*[x == T(y) for x, y in zip(ivs, ids)], k >= T(lo), k < T(hi))
            st.assume(z3.ForAll(ivs + [k], s == z3.If(B(inr), T(vals.get(('len', lf.idx), 0)) if not callable(vals.get(('len', lf.idx))) else 0, sel(old, ivs + [k])), patterns=[s]))
            st.mem[(ir, 'len')] = new
            src = vals.get(('src', lf.idx))
            if src is not None:
                sr, sids = src
                for x, y in zip(ir.leaves, sr.leaves):
                    o2 = eng.get(st, ir, x.idx)
                    n2 = eng.fresh(ir.name, o2.sort())
                    j = z3.Int('rj!%d' % uid())
                    s2 = sel(n2, ivs + [k, j])
                    st.assume(z3.ForAll(ivs + [k, j], s2 == z3.If(B(inr), sel(eng.get(st, sr, y.idx), list(sids) + [j]), sel(o2, ivs + [k, j])), patterns=[s2]))
                    st.mem[(ir, x.idx)] = n2
            continue
        if lf.kind in ('str', 'opaque'):
            continue
        for key in ([lf.idx, (lf.idx, 'id')] if lf.kind == 'ptr' and lf.target is not None and lf.target.rank == 2 else [lf.idx]):
            old = eng.get(st, r, key)
            v = vals.get(lf.idx)
            ar = r.arity(lf)
            if v is not None and not ids and isinstance(lo, int) and lo == 0 and r.rank == 1 and ar == 1:
                st.mem[(r, key)] = z3.K(IntS, v)
                continue
            new = eng.fresh(r.name, old.sort())
            vs = [z3.Int('rk%d!%d' % (i, uid())) for i in range(ar)]
            inr = band(*[x == T(y) for x, y in zip(vs, ids)], vs[len(ids)] >= T(lo), vs[len(ids)] < T(hi))
            s = sel(new, vs)
            if v is None:
                st.assume(z3.ForAll(vs, z3.Or(B(inr), s == sel(old, vs)), patterns=[s]))
            else:
                st.assume(z3.ForAll(vs, s == z3.If(B(inr), v, sel(old, vs)), patterns=[s]))
            st.mem[(r, key)] = new


def zero_vals(r):
    out = {}
    for lf in r.leaves:
        if lf.kind == 'i':
            out[lf.idx] = T(0)
        elif lf.kind == 'f':
            out[lf.idx] = z3.RealVal(0)
        elif lf.kind == 'ptr':
            out[lf.idx] = T(-1)
    return out


def elem_vals(eng, st, r, p):
    """leaf values of *p, for filling"""
    out = {}
    for lf in r.leaves:
        if lf.kind == 'vec':
            sp = PtrV([(c, t if t is NULL else Loc(t.r, t.off.add(Lin(lf.off)), t.id)) for c, t in p.cases])
            sd, sids = vecref(eng, st, sp, lf.elem[1] if isinstance(lf.elem, tuple) else None)
            ir = eng.inner(r, lf)
            if ir.leaves is None and sd.leaves is not None:
                ir.typed(sd.E, [Leaf(l.off, l.size, l.kind, l.w, l.sign, l.dims, l.name, l.bits, l.elem) for l in sd.leaves])
            out[('len', lf.idx)] = T(eng.vlen(st, sd, sids))
            if sd.leaves is not None:
                out[('src', lf.idx)] = (sd, sids)
            continue
        if lf.kind in ('str', 'opaque') or lf.dims:
            continue
        sp = PtrV([(c, t if t is NULL else Loc(t.r, t.off.add(Lin(lf.off)), t.id)) for c, t in p.cases])
        ty = ('i', lf.w) if lf.kind == 'i' else ('ptr',) if lf.kind == 'ptr' else (('float',) if lf.w == 32 else ('double',))
        v = eng.load(st, sp, ty, 'read')
        if lf.kind == 'i':
            out[lf.idx] = T(eng.canon(st, v, lf.sign))
        elif lf.kind == 'f':
            out[lf.idx] = v.t
        else:
            out[lf.idx] = eng.enc_ptr(st, r, lf, v)[0]
    return out


def vector_call(eng, st, d, args, rty):
    m = method(d)
    if m is None:
        return None
    elem, name, rest = m
    if name.startswith('__') and name != '__construct_at_end':
        return None
    eng.assumed_models.add('std::vector::' + name)
    this = args[0]
    r, ids = vecref(eng, st, this, elem)
    n = eng.vlen(st, r, ids)
    if name == 'size':
        return iv(n), st
    if name == 'empty':
        return IntV(ite(eng.cmp_t('==', n, 0), 1, 0), 1) if False else BoolV(eng.cmp_t('==', n, 0)), st
    if name in ('operator[]', 'at'):
        i = eng.uns(st, args[1])
        return elem_ptr(r, ids, i), st
    if name == 'front':
        eng.oblige(st, 'bounds', 'front() of a non-empty vector', eng.cmp_t('>', n, 0))
        return elem_ptr(r, ids, 0), st
    if name == 'back':
        eng.oblige(st, 'bounds', 'back() of a non-empty vector', eng.cmp_t('>', n, 0))
        return elem_ptr(r, ids, eng.arith('sub', n, 1)), st
    if name in ('data', 'begin', 'cbegin'):
        return elem_ptr(r, ids, 0), st
    if name in ('end', 'cend'):
        return elem_ptr(r, ids, n), st
    if name == 'capacity':
        c = eng.fresh('capacity')
        eng.fact(c, 0, 1 << 62)
        st.assume(c >= T(n))
        return iv(c), st
    if name in ('reserve', 'shrink_to_fit', '~vector'):
        return None_(st)
    if name == 'clear':
        eng.set_vlen(st, r, ids, 0)
        if ('cnt', r) in st.ghost and not ids:
            st.ghost[('cnt', r)] = z3.IntVal(0)
        return None_(st)
    if name == 'pop_back':
        eng.oblige(st, 'bounds', 'pop_back() of a non-empty vector', eng.cmp_t('>', n, 0))
        eng.set_vlen(st, r, ids, eng.arith('sub', n, 1))
        return None_(st)
    if name in ('push_back', 'emplace_back'):
        if len(args) < 2:
            fill_range(eng, st, r, ids, n, eng.arith('add', n, 1), zero_vals(r))
        else:
            g = st.ghost.get(('cnt', r))
            copy_elem(eng, st, args[1], r, ids, n) if simple_types(r, elem) else None
            if g is not None and not ids:
                st.ghost[('cnt', r)] = g + z3.If(sel(eng.get(st, r, r.leaves[0].idx), [T(n)]) == st.ghost[('cntv', r)], 1, 0)
        eng.set_vlen(st, r, ids, eng.arith('add', n, 1))
        if name == 'emplace_back':
            return elem_ptr(r, ids, n), st
        return None_(st)
    if ('cnt', r) in st.ghost and name in ('resize', 'assign', 'vector', 'operator=', 'swap', 'pop_back'):
        st.ghost[('cnt', r)] = eng.fresh('cnt')
    if name == 'resize':
        k = eng.uns(st, args[1])
        vals = elem_vals(eng, st, r, args[2]) if len(args) > 2 else zero_vals(r)
        fill_range(eng, st, r, ids, n, k, vals)
        eng.set_vlen(st, r, ids, k)
        return None_(st)
    if name == 'insert' and 'unsigned long, ' in rest and len(args) == 4 and isinstance(args[1], PtrV) and len(args[1].cases) == 1:
        # insert(end(), count, value)
        l = args[1].cases[0][1]
        i = eng.decompose(r, l.off)[0] if l is not NULL and l.r is r and list(l.id) == list(ids) else None
        if i is None:
            raise Unsupported('vector method ' + d)
        eng.oblige(st, 'bounds', 'insertion at the end', eng.cmp_t('==', i, n))
        k = eng.arith('add', n, eng.uns(st, args[2]))
        fill_range(eng, st, r, ids, n, k, elem_vals(eng, st, r, args[3]))
        eng.set_vlen(st, r, ids, k)
        return elem_ptr(r, ids, n), st
    if name == 'assign' and '(unsigned long' in rest:
        k = eng.uns(st, args[1])
        fill_range(eng, st, r, ids, 0, k, elem_vals(eng, st, r, args[2]))
        eng.set_vlen(st, r, ids, k)
        return None_(st)
    if name == 'vector':
        if len(args) == 1 or (len(args) == 2 and 'allocator' in rest and 'vector<' not in rest):
            eng.set_vlen(st, r, ids, 0)
            return None_(st)
        if rest.startswith('(unsigned long'):
            k = eng.uns(st, args[1])
            vals = elem_vals(eng, st, r, args[2]) if len(args) > 2 else zero_vals(r)
            fill_range(eng, st, r, ids, 0, k, vals)
            eng.set_vlen(st, r, ids, k)
            return None_(st)
        if 'vector<' in rest and len(args) == 2:
            sr, sids = vecref(eng, st, args[1], elem)
            copy_vec(eng, st, r, ids, sr, sids)
            if '&&' in rest:
                eng.set_vlen(st, sr, sids, 0)
            return None_(st)
        raise Unsupported('constructor ' + d)
    if name == 'operator=':
        sr, sids = vecref(eng, st, args[1], elem)
        copy_vec(eng, st, r, ids, sr, sids)
        if '&&' in rest and sr is not r:
            eng.set_vlen(st, sr, sids, 0)
        return args[0], st
    if name == 'swap':
        sr, sids = vecref(eng, st, args[1], elem)
        if ids or sids:
            raise Unsupported('swap of nested vectors')
        for key in ['len'] + [l.idx for l in r.leaves]:
            a, b = eng.get(st, r, key), eng.get(st, sr, key)
            st.mem[(r, key)], st.mem[(sr, key)] = b, a
        return None_(st)
    raise Unsupported('vector method ' + d)


def std_sort(eng, st, d, args):
    """std::sort(first, last[, less|greater]) of arithmetic elements: an ordered permutation of the range"""
    if 'greater<' in d:
        desc = True
    elif len(args) == 2 or 'less<' in d:
        desc = False
    else:
        raise Unsupported('sort with comparator ' + d)
    a, b = single(args[0]), single(args[1])
    if a.r is not b.r or len(a.r.leaves) != 1:
        raise Unsupported('sort of ' + d)
    r = a.r
    lo, hi = eng.decompose(r, a.off)[0], eng.decompose(r, b.off)[0]
    ids = list(a.id)
    eng.assumed_models.add('std::sort orders its range and permutes it')
    eng.oblige(st, 'bounds', 'sort: a range', T(lo) <= T(hi))
    n = eng.vlen(st, r, ids)
    eng.oblige(st, 'bounds', 'sort: within the storage', z3.And(T(lo) >= 0, T(hi) <= T(n)))
    lf = r.leaves[0]
    old = eng.get(st, r, lf.idx)
    new = eng.fresh(r.name + '.sorted', old.sort())
    vs = [z3.Int('so%d!%d' % (i, uid())) for i in range(r.arity(lf))]
    k, j = z3.Int('so!%d' % uid()), z3.Int('sp!%d' % uid())
    pi = z3.Function('perm!%d' % uid(), IntS, IntS)
    inr = band(*[x == T(y) for x, y in zip(vs, ids)], vs[len(ids)] >= T(lo), vs[len(ids)] < T(hi))
    s = sel(new, vs)
    st.assume(z3.ForAll(vs, z3.Or(B(inr), s == sel(old, vs)), patterns=[s]))
    at = lambda x: sel(new, ids + [x])
    st.assume(z3.ForAll([k, j], z3.Implies(z3.And(T(lo) <= k, k <= j, j < T(hi)), at(k) >= at(j) if desc else at(k) <= at(j)), patterns=[z3.MultiPattern(at(k), at(j))]))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(T(lo) <= k, k < T(hi)), z3.And(pi(k) >= T(lo), pi(k) < T(hi), at(k) == sel(old, ids + [pi(k)]))), patterns=[at(k)]))
    st.assume(z3.ForAll([k, j], z3.Implies(z3.And(T(lo) <= k, k < j, j < T(hi)), pi(k) != pi(j)), patterns=[z3.MultiPattern(pi(k), pi(j))]))
    st.mem[(r, lf.idx)] = new
    if ('cnt', r) in st.ghost:
        st.ghost[('cnt', r)] = st.ghost[('cnt', r)] + 0
    return None_(st)


def simple_types(r, elem):
    return True


def None_(st):
    return (None, st)


def by_case(eng, st, ptrs, n, f):
    """run f(st, [pointer...]) for every combination of targets of the pointers; merge the results"""
    k = eng.uns(st, n)
    combos = [(True, [])]
    for p in ptrs:
        if not isinstance(p, PtrV):
            raise Unsupported('memory function through %r' % (p,))
        nn = [c for c, t in p.cases if t is NULL]
        if nn and len(p.cases) >= 1:
            bad = bor(*nn)
            eng.oblige(st, 'null', 'memory function does not get a null pointer', implies(T(k) > 0 if not isinstance(k, int) else k > 0, bnot(bad)))
        cs = [(c, t) for c, t in p.cases if t is not NULL]
        if not cs:
            return
        combos = [(band(c0, c) if len(cs) > 1 else c0, ts + [t]) for c0, ts in combos for c, t in cs]
    if len(combos) == 1:
        return f(st, [PtrV([(True, t)]) for t in combos[0][1]])
    outs = []
    for c, ts in combos:
        if not eng.dry and not eng.feasible(st, c):
            continue
        s2 = st.copy()
        s2.pc.append(B(c))
        f(s2, [PtrV([(True, t)]) for t in ts])
        outs.append(s2)
    m = eng.merge_states(outs)
    st.mem, st.pc, st.ghost = m.mem, m.pc, m.ghost


def single(p):
    cs = [t for c, t in p.cases if t is not NULL]
    if len(cs) != 1:
        raise Unsupported('ambiguous pointer in a memory function')
    return cs[0]


def mem_fill(eng, st, p, val, n):
    """memset"""
    t = single(p)
    r = t.r
    if r.leaves is None:
        if isinstance(val.t, int) and r.bytes_len is not None:
            r.pending_fill = (val.t,)
            return
        raise Unsupported('memset of untyped memory')
    idx, c, rest = eng.decompose(r, t.off)
    b = eng.uns(st, val)
    k = eng.uns(st, n)
    if r.rank == 0:
        if not isinstance(k, int) or rest:
            # array member of an object
            for lf in r.leaves:
                if len(lf.dims) == 1 and lf.off == c and not rest:
                    cnt, stride = lf.dims[0]
                    L = lin_of(k)
                    if L.divisible(stride) and isinstance(b, int) and b == 0:
                        m = L.div(stride).term()
                        eng.oblige(st, 'bounds', 'memset within ' + lf.name, band(T(m) >= 0, T(m) <= cnt))
                        fill_member(eng, st, r, lf, 0, m, T(0) if lf.kind == 'i' else z3.RealVal(0))
                        return
            raise Unsupported('memset of symbolic size')
        for lf in r.leaves:
            tot = lf.dims[0][0] * lf.dims[0][1] if lf.dims else lf.size
            if c <= lf.off and lf.off + tot <= c + k:
                v = byte_val(lf, b)
                if lf.dims:
                    st.mem[(r, lf.idx)] = konst(eng, r, lf, v)
                else:
                    st.mem[(r, lf.idx)] = IntV(v, lf.w, lf.sign) if lf.kind == 'i' and isinstance(v, int) else FV(v, lf.w) if lf.kind == 'f' else PtrV([(True, NULL)]) if lf.kind == 'ptr' else IntV(v, lf.w, lf.sign)
            elif c <= lf.off < c + k or lf.off <= c < lf.off + tot:
                if lf.dims and len(lf.dims) == 1 and (c - lf.off) % lf.dims[0][1] == 0 and k % lf.dims[0][1] == 0 and lf.off <= c and c + k <= lf.off + tot:
                    lo = (c - lf.off) // lf.dims[0][1]
                    fill_member(eng, st, r, lf, lo, lo + k // lf.dims[0][1], T(byte_val(lf, b)) if lf.kind != 'f' else byte_val(lf, b))
                else:
                    raise Unsupported('partial memset')
        return
    if c or rest:
        raise Unsupported('memset at an interior offset')
    L = lin_of(k)
    if L.divisible(r.E):
        m = L.div(r.E).term()
    elif r.E == 1:
        m = k
    else:
        raise Unsupported('memset of %s bytes over elements of %d' % (k, r.E))
    hi = eng.arith('add', idx, m)
    nlen = eng.vlen(st, r, t.id) if r.bytes_len is None else None
    if nlen is not None:
        eng.oblige(st, 'bounds', 'memset within ' + r.name, band(T(idx) >= 0, T(hi) <= T(nlen), T(m) >= 0))
    else:
        eng.oblige(st, 'bounds', 'memset within ' + r.name, band(T(idx) >= 0, T(hi) * r.E <= T(r.bytes_len), T(m) >= 0))
    vals = {}
    for lf in r.leaves:
        v = byte_val(lf, b)
        vals[lf.idx] = T(v) if lf.kind != 'f' else v
    fill_range(eng, st, r, t.id, idx, hi, vals)


def konst(eng, r, lf, v):
    n = r.arity(lf)
    v = T(v) if lf.kind != 'f' else v
    if n == 1:
        return z3.K(IntS, v)
    a = eng.fresh(r.name, array_sort(n, RealS if lf.kind == 'f' else IntS))
    vs = [z3.Int('kz%d' % i) for i in range(n)]
    eng.axioms.append((str(a), z3.ForAll(vs, sel(a, vs) == v)))
    return a


def fill_member(eng, st, r, lf, lo, hi, v):
    old = eng.get(st, r, lf.idx)
    new = eng.fresh(r.name, old.sort())
    k = z3.Int('fm!%d' % uid())
    s = sel(new, [k])
    st.assume(z3.ForAll([k], s == z3.If(z3.And(k >= T(lo), k < T(hi)), v, sel(old, [k])), patterns=[s]))
    st.mem[(r, lf.idx)] = new


def byte_val(lf, b):
    """value of a leaf whose bytes are all b"""
    if isinstance(b, int):
        u = int.from_bytes(bytes([b & 255]) * lf.size, 'little')
        if lf.bits:
            u = (u >> lf.bits[0]) & ((1 << lf.bits[1]) - 1)
        if lf.kind == 'i':
            return wrap_c(u, lf.w if not lf.bits else lf.bits[1], 'S') if lf.sign == 'S' else u
        if lf.kind == 'f':
            if u == 0:
                return z3.RealVal(0)
            import struct
            f = struct.unpack('<f' if lf.w == 32 else '<d', u.to_bytes(lf.size, 'little'))[0]
            from fractions import Fraction
            fr = Fraction(f)
            return z3.RealVal('%d/%d' % (fr.numerator, fr.denominator))
        if lf.kind == 'ptr':
            if u == 0:
                return -1
            raise Unsupported('memset of pointers to non-zero')
        return 0
    if lf.size == 1 and lf.kind == 'i':
        return b if lf.sign == 'U' else z3.If(b < 128, b, b - 256)
    raise Unsupported('memset of a variable byte over wide elements')


def mem_copy(eng, st, dp, sp, n, overlap=False):
    k = eng.uns(st, n)
    if isinstance(k, int) and k == 0:
        return
    d, s = single(dp), single(sp)
    if d.r.leaves is None and s.r.leaves is not None:
        adopt(eng, d.r, s.r)
    if s.r.leaves is None and d.r.leaves is not None:
        adopt(eng, s.r, d.r)
    if d.r.leaves is None:
        raise Unsupported('memcpy between untyped blocks')
    di, dc, drest = eng.decompose(d.r, d.off)
    si, sc, srest = eng.decompose(s.r, s.off)
    if isinstance(k, int) and not drest and not srest:
        # structure copy
        vals = []
        for lf in d.r.leaves:
            tot = lf.dims[0][0] * lf.dims[0][1] if lf.dims else lf.size
            if lf.off >= dc and lf.off + tot <= dc + k:
                so = lf.off - dc + sc
                src = None
                for l2 in s.r.leaves:
                    if l2.off == so and l2.kind == lf.kind and l2.w == lf.w and len(l2.dims) == len(lf.dims) and l2.bits == lf.bits:
                        src = l2
                if src is None:
                    break
                vals.append((lf, src))
        else:
            if vals and k <= max(d.r.E or 0, 1) * (1 if d.r.rank else 1):
                if d.r.rank:
                    eng.bounds(st, d.r, d.id, di, True, 'memcpy')
                if s.r.rank:
                    eng.bounds(st, s.r, s.id, si, True, 'memcpy')
                todo = []
                for lf, src in vals:
                    dk = list(d.id) + ([di] if d.r.rank else [])
                    sk = list(s.id) + ([si] if s.r.rank else [])
                    if lf.dims:
                        if not dk and not sk:
                            todo.append((lf, None, eng.get(st, s.r, src.idx)))
                            continue
                        cnt = lf.dims[0][0]
                        if len(lf.dims) > 1 or cnt > 64:
                            raise Unsupported('copy of large member arrays')
                        for j in range(cnt):
                            todo.append((lf, dk + [j], eng.rd(st, s.r, src, sk + [j])))
                    elif lf.kind in ('str', 'opaque'):
                        continue
                    elif lf.kind == 'vec':
                        raise Unsupported('raw copy of a vector')
                    else:
                        if lf.kind == 'ptr' and dk and lf.target is None:
                            lf.target = src.target
                        todo.append((lf, dk, eng.rd(st, s.r, src, sk)))
                for lf, dk, v in todo:
                    if dk is None:
                        st.mem[(d.r, lf.idx)] = v
                    elif lf.bits and dk:
                        st.mem[(d.r, lf.idx)] = sto(eng.get(st, d.r, lf.idx), dk, T(v.t))
                    else:
                        eng.wr(st, d.r, lf, dk, v)
                return
    if dc or sc or drest or srest:
        raise Unsupported('memcpy at interior offsets')
    if d.r.rank == 0 or s.r.rank == 0:
        return member_copy(eng, st, d, s, k, dc, sc)
    if d.r.E != s.r.E:
        raise Unsupported('memcpy between different element sizes')
    L = lin_of(k)
    if L.divisible(d.r.E):
        m = L.div(d.r.E).term()
    else:
        raise Unsupported('memcpy of %s bytes over elements of %d' % (k, d.r.E))
    for rr, t, i in ((d.r, d, di), (s.r, s, si)):
        if rr.bytes_len is None:
            goal = band(T(m) >= 0, T(i) >= 0, T(eng.arith('add', i, m)) <= T(eng.vlen(st, rr, t.id)))
        else:
            goal = band(T(m) >= 0, T(i) >= 0, T(eng.arith('add', i, m)) * rr.E <= T(rr.bytes_len))
        eng.oblige(st, 'bounds', 'memcpy within ' + rr.name, implies(T(m) != 0, goal))
    if d.r is s.r and not overlap and all(same(x, y) for x, y in zip(d.id, s.id)):
        eng.oblige(st, 'overlap', 'memcpy ranges do not overlap', bor(T(m) <= 0, T(di) + T(m) <= T(si), T(si) + T(m) <= T(di)))
    ups = []
    for a, b in zip(d.r.leaves, s.r.leaves):
        if a.kind != b.kind or a.off != b.off:
            raise Unsupported('memcpy between different layouts')
        if a.kind in ('str', 'opaque'):
            continue
        if a.kind == 'vec':
            raise Unsupported('raw copy of vectors')
        if a.kind == 'ptr' and a.target is None:
            a.target = b.target
        for key, key2 in ([(a.idx, b.idx), ((a.idx, 'id'), (b.idx, 'id'))] if a.kind == 'ptr' and a.target is not None and a.target.rank == 2 else [(a.idx, b.idx)]):
            old = eng.get(st, d.r, key)
            so = eng.get(st, s.r, key2)
            new = eng.fresh(d.r.name, old.sort())
            ar = d.r.arity(a)
            vs = [z3.Int('mc%d!%d' % (i, uid())) for i in range(ar)]
            nid = d.r.rank - 1
            e = vs[nid]
            inr = band(*[x == T(y) for x, y in zip(vs, d.id)], e >= T(di), e < T(di) + T(m))
            sv = sel(so, list(s.id) + [e - T(di) + T(si)] + vs[nid + 1:])
            if a.kind == 'i' and a.sign != b.sign:
                h = 1 << (a.w - 1)
                sv = z3.If(sv < 0, sv + 2 * h, sv) if a.sign == 'U' else z3.If(sv >= h, sv - 2 * h, sv)
            x = sel(new, vs)
            st.assume(z3.ForAll(vs, x == z3.If(B(inr), sv, sel(old, vs)), patterns=[x]))
            ups.append((key, new))
    for key, new in ups:
        st.mem[(d.r, key)] = new


def member_copy(eng, st, d, s, k, dc, sc):
    """array members of single objects"""
    def side(t, c):
        if t.r.rank:
            return None
        for lf in t.r.leaves:
            if len(lf.dims) == 1 and lf.off <= c < lf.off + lf.dims[0][0] * lf.dims[0][1]:
                return lf
        raise Unsupported('memcpy to a non-array member')
    dl, sl = side(d, d.off.c), side(s, s.off.c)
    ls = dl or d.r.leaves[0]
    l2 = sl or s.r.leaves[0]
    stride = ls.size
    if l2.size != stride or ls.kind != l2.kind:
        raise Unsupported('memcpy between different layouts')
    L = lin_of(k)
    if not L.divisible(stride):
        raise Unsupported('memcpy size')
    m = L.div(stride).term()

    def base(t, lf, l0):
        if lf is None:
            return list(t.id), lin_of(0), eng.vlen(st, t.r, t.id), t.off
        return [], None, lf.dims[0][0], Lin(t.off.c - lf.off, t.off.m)
    di_ids, _, dn, doff = base(d, dl, ls)
    si_ids, _, sn, soff = base(s, sl, l2)
    if not doff.divisible(stride) or not soff.divisible(stride):
        raise Unsupported('memcpy offset')
    di, si = doff.div(stride).term(), soff.div(stride).term()
    eng.oblige(st, 'bounds', 'memcpy within ' + d.r.name, band(T(m) >= 0, T(di) >= 0, T(di) + T(m) <= T(dn)))
    eng.oblige(st, 'bounds', 'memcpy within ' + s.r.name, band(T(m) >= 0, T(si) >= 0, T(si) + T(m) <= T(sn)))
    dleaf, sleaf = dl or d.r.leaves[0], sl or s.r.leaves[0]
    old = eng.get(st, d.r, dleaf.idx)
    so = eng.get(st, s.r, sleaf.idx)
    new = eng.fresh(d.r.name, old.sort())
    ar = d.r.arity(dleaf)
    vs = [z3.Int('mm%d!%d' % (i, uid())) for i in range(ar)]
    e = vs[-1]
    inr = band(*[x == T(y) for x, y in zip(vs, di_ids)], e >= T(di), e < T(di) + T(m))
    x = sel(new, vs)
    st.assume(z3.ForAll(vs, x == z3.If(B(inr), sel(so, si_ids + [e - T(di) + T(si)]), sel(old, vs)), patterns=[x]))
    st.mem[(d.r, dleaf.idx)] = new


def adopt(eng, r, src):
    r.typed(src.E, [Leaf(l.off, l.size, l.kind, l.w, l.sign, l.dims, l.name, l.bits, l.elem) for l in src.leaves])
    for a, b in zip(r.leaves, src.leaves):
        a.target = b.target
    pf = getattr(r, 'pending_fill', None)


def alloc(eng, st, n, what):
    r = Region('%s#%d' % (what, uid()), 1)
    r.bytes_len = n
    r.heap = True
    return PtrV([(True, Loc(r, Lin(0), ()))])


def dispatch(eng, st, name, d, args, rty, atys):
    d = d.replace('[abi:ne180100]', '')
    if d.startswith('basiclog::log_logger::get_logger('):
        eng.assumed_models.add('no logger installed')
        return PtrV([(True, NULL)]), st
    if NOPS.match(d):
        if rty[0] == 'void':
            return None_(st)
        if rty[0] == 'ptr':
            return PtrV([(True, NULL)]), st
        if rty[0] == 'i':
            return IntV(0, rty[1]), st
    v = vector_call(eng, st, d, args, rty) if 'std::__1::vector<' in d else None
    if v is not None:
        return v
    if name.startswith('llvm.memcpy') or name in ('memcpy',):
        eng.assumed_models.add('memcpy')
        by_case(eng, st, args[:2], args[2], lambda s, ps: mem_copy(eng, s, ps[0], ps[1], args[2]))
        return args[0], st
    if name.startswith('llvm.memmove') or name == 'memmove':
        eng.assumed_models.add('memmove')
        by_case(eng, st, args[:2], args[2], lambda s, ps: mem_copy(eng, s, ps[0], ps[1], args[2], True))
        return args[0], st
    if name.startswith('llvm.memset') or name == 'memset':
        eng.assumed_models.add('memset')
        by_case(eng, st, args[:1], args[2], lambda s, ps: mem_fill(eng, s, ps[0], args[1], args[2]))
        return args[0], st
    if name == 'malloc' or d.startswith(('operator new(unsigned long', 'operator new[](unsigned long')):
        eng.assumed_models.add('allocation succeeds')
        return alloc(eng, st, eng.uns(st, args[0]), 'heap'), st
    if name.startswith('llvm.umul.with.overflow'):
        x, y = eng.uns(st, args[0]), eng.uns(st, args[1])
        r = eng.arith('mul', x, y)
        w = args[0].w
        eng.oblige(st, 'overflow', 'allocation size does not overflow', eng.cmp_t('<', r, 1 << w))
        return AggV([IntV(r, w, 'U'), BoolV(False)]), st
    if name.startswith('llvm.uadd.with.overflow'):
        r = eng.arith('add', eng.uns(st, args[0]), eng.uns(st, args[1]))
        w = args[0].w
        eng.oblige(st, 'overflow', 'allocation size does not overflow', eng.cmp_t('<', r, 1 << w))
        return AggV([IntV(r, w, 'U'), BoolV(False)]), st
    if name in ('abs', 'labs') or name.startswith('llvm.abs'):
        x = eng.sgn(st, args[0])
        w = args[0].w
        if isinstance(x, int):
            return IntV(abs(x), w), st
        eng.oblige(st, 'overflow', 'abs of a representable value', x > -(1 << (w - 1)))
        return IntV(z3.If(x >= 0, x, -x), w, 'N'), st
    if name in ('fabs', 'fabsf') or name.startswith('llvm.fabs'):
        t = args[0].t
        return FV(z3.If(t >= 0, t, -t), args[0].w), st
    if name in ('sqrt', 'sqrtf', 'exp', 'expf', 'log', 'logf', 'sin', 'cos', 'tan', 'sinf', 'cosf', 'atan2', 'atan2f', 'pow', 'powf', 'floor', 'ceil', 'floorf', 'ceilf', 'fmod', 'atan', 'acos', 'asin', 'round', 'roundf'):
        eng.assumed_models.add('libm ' + name)
        if name in ('floor', 'floorf'):
            return FV(z3.ToReal(z3.ToInt(args[0].t)), args[0].w), st
        if name in ('ceil', 'ceilf'):
            return FV(-z3.ToReal(z3.ToInt(-args[0].t)), args[0].w), st
        f = eng.uf('libm_' + name, *([RealS] * (len(args) + 1)))
        return FV(f(*[a.t for a in args]), args[0].w), st
    if name.startswith('llvm.fmuladd'):
        w = args[0].w
        eng.float_ops.add('fmul_%d' % w)
        eng.float_ops.add('fadd_%d' % w)
        m = eng.uf('fmul_%d' % w, RealS, RealS, RealS)(args[0].t, args[1].t)
        return FV(eng.uf('fadd_%d' % w, RealS, RealS, RealS)(m, args[2].t), w), st
    if d.startswith('std::__1::basic_string<') or d.startswith('std::__1::char_traits') or 'basic_string<' in d.split('(')[0]:
        eng.assumed_models.add('std::string operations are no-ops on other memory')
        if rty[0] == 'void':
            return None_(st)
        if rty[0] == 'i':
            if rty[1] == 1:
                return BoolV(eng.fresh('str', 'b')), st
            return eng.fresh_int('str', rty[1]), st
        if rty[0] == 'ptr':
            return args[0], st
    if d.startswith(('std::type_info::operator==(', 'std::type_info::operator!=(')):
        # distinct type_info objects denote distinct types
        x, y = single(args[0]).r, single(args[1]).r
        if x.name.startswith('global _ZTI') and y.name.startswith('global _ZTI'):
            return BoolV((x is y) == ('==' in d[:28])), st
    if re.match(r'^void std::__1::sort<', d) and len(args) >= 2:
        return std_sort(eng, st, d, args)
    return None
