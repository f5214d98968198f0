"""Loops: modified set, havoc, invariant inference over a pool (Houdini), final checked iteration."""
import time, re
import z3
from .values import *
from .mem import *
from . import solver
from .contract import LoopView, SV, fa, prove_lemma


def changed(eng, h, b, snap):
    """keys whose content differs between states h and b (regions older than snap)"""
    out = set()
    for key, v in b.mem.items():
        r, k = key
        if r.n > snap:
            continue
        o = h.mem.get(key)
        if o is None:
            o = r.init.get(k)
            if o is None:
                if r.local and not isinstance(v, z3.ExprRef):
                    o = UndefV()
                else:
                    o = eng.default(r, k)
        if o is v:
            continue
        if isinstance(o, (z3.ExprRef, int)) and isinstance(v, (z3.ExprRef, int)):
            if same(o, v):
                continue
        elif isinstance(o, IntV) and isinstance(v, IntV) and same(o.t, v.t) and o.tag == v.tag:
            continue
        elif isinstance(o, PtrV) and isinstance(v, PtrV) and ptr_same(o, v):
            continue
        elif isinstance(o, VecV) and isinstance(v, VecV) and o.data is v.data and o.size == v.size:
            continue
        elif isinstance(o, FV) and isinstance(v, FV) and same(o.t, v.t):
            continue
        out.add(key)
    for key, v in b.ghost.items():
        o = h.ghost.get(key)
        if o is None or not same(o, v):
            out.add(('ghost', key))
    return out


def ptr_same(a, b):
    if len(a.cases) != len(b.cases):
        return False
    for (c1, t1), (c2, t2) in zip(a.cases, b.cases):
        if not same(c1, c2):
            return False
        if (t1 is NULL) != (t2 is NULL):
            return False
        if t1 is NULL:
            continue
        if t1.r is not t2.r or t1.off.key() != t2.off.key() or len(t1.id) != len(t2.id) or not all(same(x, y) for x, y in zip(t1.id, t2.id)):
            return False
    return True


def shapes(v, acc):
    if isinstance(v, PtrV):
        for c, t in v.cases:
            if t is NULL:
                acc.add(NULL)
            else:
                E = t.r.E if t.r.rank else None
                if E:
                    acc.add((t.r, t.off.c % E, len(t.id)))
                else:
                    acc.add((t.r, tuple(sorted((k, c) for k, (x, c) in t.off.m.items())), t.off.c, 0) if False else (t.r, t.off.c, 0))


def havoc(eng, st, mod, shp, snap):
    H = st.copy()
    for key in mod:
        if key[0] == 'ghost':
            o = H.ghost[key[1]]
            H.ghost[key[1]] = eng.fresh('ghost', T(o).sort()) if not isinstance(o, int) else eng.fresh('ghost')
            continue
        r, k = key
        if k == 'len':
            if r.rank == 1:
                t = eng.fresh(r.name + '.len')
                eng.fact(t, 0, 1 << 62)
            else:
                t = eng.fresh(r.name + '.len', array_sort(r.rank - 1, IntS))
            H.mem[key] = t
            continue
        if r.leaves is None:
            continue
        leaf = r.leaves[k[0] if isinstance(k, tuple) else k]
        ar = r.arity(leaf)
        nm = '%s%s' % (r.name, '.' + leaf.name if leaf.name else '')
        if leaf.kind == 'vec':
            raise Unsupported('vector %s is replaced inside a loop' % r.name)
        if ar:
            H.mem[key] = eng.fresh(nm, array_sort(ar, RealS if leaf.kind == 'f' else IntS))
        elif leaf.kind == 'ptr':
            sh = [x for x in shp.get(key, ()) if not (x is not NULL and x[0].n > snap)]
            cases = []
            rem = True
            for j, x in enumerate(sorted(sh, key=lambda x: -1 if x is NULL else x[0].n)):
                if x is NULL:
                    t = NULL
                else:
                    rr, c, nid = x
                    if rr.rank:
                        i = eng.fresh(nm + '.idx')
                        ids = tuple(eng.fresh(nm + '.id') for _ in range(nid))
                        t = Loc(rr, lin_of(i).scale(rr.E).add(Lin(c)), ids)
                    else:
                        t = Loc(rr, Lin(c), ())
                if j == len(sh) - 1:
                    cases.append((rem, t))
                else:
                    b = eng.fresh(nm + '.is', 'b')
                    cases.append((band(rem, b), t))
                    rem = band(rem, bnot(b))
            H.mem[key] = PtrV(cases) if cases else UndefV()
        elif leaf.kind == 'opaque':
            H.mem[key] = OpaqueV('loop')
        else:
            H.mem[key] = eng.fresh_leaf(leaf, nm)
    return H


def compute_mod(eng, fi, h, body, st):
    snap = uid()
    mod = set()
    shp = {}
    eng.dry += 1
    try:
        for it in range(12):
            for key in mod:
                if key[0] != 'ghost':
                    v = st.mem.get(key)
                    if v is not None:
                        shapes(v, shp.setdefault(key, set()))
            H = havoc(eng, st, mod, shp, snap)
            hs = H.copy()
            ex, rt = eng.run_scope(fi, body, h, H, h)
            backs = [e for e in ex if e[0] == h]
            new = set(mod)
            n0 = sum(len(x) for x in shp.values())
            for t, pred, s in backs:
                new |= changed(eng, hs, s, snap)
                for key in new:
                    if key[0] != 'ghost' and key in s.mem:
                        shapes(s.mem[key], shp.setdefault(key, set()))
            if new == mod and n0 == sum(len(x) for x in shp.values()):
                return mod, shp, snap
            mod = new
    finally:
        eng.dry -= 1
    raise Unsupported('loop modified set does not stabilise')


class Cand:
    __slots__ = ('name', 'f', 'quant')

    def __init__(self, name, f):
        self.name = name
        self.f = f


def scalar(eng, s, key):
    """integer reading of a scalar key in state s (None when it has none)"""
    r, k = key
    if k == 'len':
        v = eng.get(s, r, 'len')
        return v if isinstance(v, int) or v.sort() == IntS else None
    if r.leaves is None or isinstance(k, tuple):
        return None
    leaf = r.leaves[k]
    if r.arity(leaf):
        return None
    v = s.mem.get(key)
    if v is None:
        v = r.init.get(k)
    if isinstance(v, IntV):
        return eng.canon(s, v, leaf.sign)
    if isinstance(v, PtrV) and len(v.cases) == 1 and v.cases[0][1] is not NULL:
        t = v.cases[0][1]
        if t.r.rank and t.r.E:
            L = Lin(t.off.c - t.off.c % t.r.E, t.off.m)
            if L.divisible(t.r.E):
                return L.div(t.r.E).term()
    return None


def auto_cands(eng, fi, body, st, mod, H):
    """generic candidates over the scalars a loop changes"""
    out = []
    frame = st.frame
    # scalars modified by the loop which have a value at entry
    ms = []
    for key in sorted((k for k in mod if k[0] != 'ghost'), key=lambda k: (k[0].n, str(k[1]))):
        x0 = scalar(eng, st, key)
        if x0 is None or scalar(eng, H, key) is None:
            continue
        r, k = key
        if r.local or k == 'len':
            ms.append((key, x0))
        else:
            ms.append((key, x0))
    ms = ms[:8]
    # unmodified integers in view
    us = []
    seen = set()
    for nm, rs in frame['vars'].items():
        for r in rs:
            for lf in r.leaves or ():
                key = (r, lf.idx)
                if key in mod or r.arity(lf):
                    continue
                if lf.kind == 'vec':
                    continue
                t = scalar(eng, st, key)
                if t is not None and not isinstance(t, int) and t.get_id() not in seen:
                    seen.add(t.get_id())
                    us.append(('%s%s' % (r.name, '.' + lf.name if lf.name else ''), key, t))
    for key in list(st.mem):
        r, k = key
        if k == 'len' and r.rank == 1 and key not in mod:
            t = st.mem[key]
            if not isinstance(t, int) and t.get_id() not in seen:
                seen.add(t.get_id())
                us.append((r.name + '.len', key, t))
    for key in eng.setup_lens:
        if key not in mod and key not in st.mem:
            t = eng.get(st, *key)
            if not isinstance(t, int) and t.get_id() not in seen:
                seen.add(t.get_id())
                us.append((key[0].name + '.len', key, t))
    us = us[:14]
    consts = set()
    for b in body:
        for i in fi.f.blocks[b]:
            if i.op == 'icmp' and i.ty[0] == 'i' and i.ty[1] >= 16:
                for o in i.a:
                    if o[0] == 'int' and abs(o[1]) < 1 << 31:
                        consts.add(o[1])
    consts -= {0}
    nm_of = lambda key: '%s%s' % (key[0].var or key[0].name, '' if key[1] == 0 else '.%s' % (key[1] if not isinstance(key[1], int) else key[0].leaves[key[1]].name))

    def add(name, f):
        out.append(Cand(name, f))
    for key, x0 in ms:
        g = lambda s, key=key: T(scalar(eng, s, key))
        n = nm_of(key)
        add('%s>=entry' % n, lambda s, g=g, x0=x0: g(s) >= T(x0))
        add('%s<=entry' % n, lambda s, g=g, x0=x0: g(s) <= T(x0))
        add('%s>=0' % n, lambda s, g=g: g(s) >= 0)
        add('%s>=-1' % n, lambda s, g=g: g(s) >= -1)
        for c in sorted(consts)[:6]:
            add('%s<=%d' % (n, c), lambda s, g=g, c=c: g(s) <= c)
            add('%s>=%d' % (n, c), lambda s, g=g, c=c: g(s) >= c)
        for un, uk, t in us:
            add('%s<=%s' % (n, un), lambda s, g=g, t=t: g(s) <= t)
            add('%s<%s' % (n, un), lambda s, g=g, t=t: g(s) < t)
            add('%s>=%s' % (n, un), lambda s, g=g, t=t: g(s) >= t)
            add('%s<=%s+1' % (n, un), lambda s, g=g, t=t: g(s) <= t + 1)
    for a in range(len(ms)):
        for b in range(len(ms)):
            if a == b:
                continue
            (ka, a0), (kb, b0) = ms[a], ms[b]
            ga = lambda s, key=ka: T(scalar(eng, s, key))
            gb = lambda s, key=kb: T(scalar(eng, s, key))
            na, nb = nm_of(ka), nm_of(kb)
            add('%s<=%s' % (na, nb), lambda s, ga=ga, gb=gb: ga(s) <= gb(s))
            add('%s<%s' % (na, nb), lambda s, ga=ga, gb=gb: ga(s) < gb(s))
            if a < b:
                add('%s-%s const' % (na, nb), lambda s, ga=ga, gb=gb, a0=a0, b0=b0: ga(s) - gb(s) == T(a0) - T(b0))
                add('%s+%s const' % (na, nb), lambda s, ga=ga, gb=gb, a0=a0, b0=b0: ga(s) + gb(s) == T(a0) + T(b0))
    out += guard_cands(eng, fi, body)
    # single-case pointers with NULL alternatives are left to contract hints
    # array frames
    for key in sorted((k for k in mod if k[0] != 'ghost'), key=lambda k: (k[0].n, str(k[1]))):
        r, k = key
        if k == 'len' or r.leaves is None or isinstance(k, tuple):
            continue
        leaf = r.leaves[k]
        ar = r.arity(leaf)
        if ar == 0 or leaf.kind == 'vec':
            continue
        a0 = eng.get(st, r, k)
        rn = r.var or r.name
        for key2, x0 in ms:
            g = lambda s, key=key2: T(scalar(eng, s, key))
            n2 = nm_of(key2)
            # the last index is the element index

            def mk(cond, a0=a0, r=r, k=k, ar=ar, g=g):
                def f(s):
                    vs = [z3.Int('fr%d' % i) for i in range(ar)]
                    new = eng.get(s, r, k)
                    last = vs[r.rank - 1] if r.rank else vs[0]
                    return z3.ForAll(vs, z3.Implies(cond(last, g(s)), sel(new, vs) == sel(a0, vs)))
                return f
            add('%s same at >=%s' % (rn, n2), mk(lambda i, x: i >= x))
            add('%s same at <%s' % (rn, n2), mk(lambda i, x: i < x))
            add('%s same at >%s' % (rn, n2), mk(lambda i, x: i > x))
    # contract frame as candidate
    fr = eng.cur_frame
    if fr:
        pre = eng.V0.pre
        for key in mod:
            if key in fr and fr[key] is not None:
                r, k = key
                if k == 'len':
                    continue
                leaf = r.leaves[k[0] if isinstance(k, tuple) else k]
                ar = r.arity(leaf)
                a0 = eng.get(pre, r, k)

                def f(s, r=r, k=k, ar=ar, a0=a0, pred=fr[key]):
                    vs = [z3.Int('fr%d' % i) for i in range(ar)]
                    new = eng.get(s, r, k)
                    return z3.ForAll(vs, z3.Or(B(pred(*vs)), sel(new, vs) == sel(a0, vs)))
                add('frame %s' % r.name, f)
    for key in mod:
        if key[0] == 'ghost':
            o = st.ghost[key[1]]
            add('ghost same', lambda s, key=key, o=o: T(s.ghost[key[1]]) == T(o))
    return out


def guard_cands(eng, fi, body):
    """the loop's own exit test, weakened by one iteration"""
    h = min(body, key=lambda b: fi.rpo[b])
    blocks = [h]
    while True:
        nx = [b for b in fi.succ[blocks[-1]] if b in body and b.strip('"').startswith('land') and b not in blocks]
        if not nx:
            break
        blocks.append(nx[0])
    out = []

    def ev(s, bi, i):
        s2 = s.copy()
        eng.dry += 1
        try:
            for b in blocks[:bi + 1]:
                for x in fi.f.blocks[b]:
                    if x is i:
                        a = eng.operand(s2, i.a[0], i.ty)
                        c = eng.operand(s2, i.a[1], i.ty)
                        if not isinstance(a, IntV) or not isinstance(c, IntV):
                            raise Unsupported('guard')
                        cv = eng.uns if i.x.startswith('u') else eng.sgn
                        return T(cv(s2, a)), T(cv(s2, c))
                    if x.op in ('phi', 'nop', 'dbgdecl', 'br', 'switch', 'ret', 'unreachable'):
                        continue
                    if x.op == 'call':
                        r = eng.do_call(fi, s2, x)
                        if r is None:
                            raise Unsupported('guard')
                        v, s3 = r
                        s2 = s3
                        if x.dest is not None:
                            s2.env[x.dest] = v
                        continue
                    eng.inst(fi, s2, x)
        finally:
            eng.dry -= 1
        raise Unsupported('guard')
    for bi, b in enumerate(blocks):
        for n, i in enumerate(fi.f.blocks[b]):
            if i.op != 'icmp' or i.ty[0] != 'i' or i.ty[1] < 16:
                continue
            op = i.x[1:] if i.x[0] in 'su' and i.x not in ('eq', 'ne') else i.x
            fs = {'lt': [('<=', lambda a, c: a <= c)], 'le': [('<=+1', lambda a, c: a <= c + 1)], 'gt': [('>=', lambda a, c: a >= c)],
                  'ge': [('>=-1', lambda a, c: a >= c - 1)], 'ne': [('<=', lambda a, c: a <= c), ('>=', lambda a, c: a >= c)], 'eq': []}[op]
            for nm, g in fs:
                def f(s, bi=bi, i=i, g=g):
                    a, c = ev(s, bi, i)
                    return g(a, c)
                out.append(Cand('guard%d.%d %s' % (bi, n, nm), f))
    return out


def holds(eng, st, c):
    try:
        return c.f(st)
    except (KeyError, Unsupported, AttributeError, IndexError):
        return None


def filter_cands(eng, st, cands, timeout=1000):
    """keep the candidates that st entails"""
    timeout = getattr(eng.cur, 'inv_timeout', None) or timeout
    t_one = max(timeout, 3000 if eng.hints else 800)
    live = []
    for c in cands:
        f = holds(eng, st, c)
        if f is None or f is False:
            continue
        live.append((c, f))
    if not live:
        return []
    fs = [f for c, f in live if f is not True]
    if fs:
        qf = [f for f in fs if not solver.has_quant(B(f))]
        r = 'unsat'
        if len(qf) == len(fs):
            r, s = eng.prove(st, band(*fs), timeout, 1)
        else:
            for f in fs:
                r, s = eng.prove(st, f, timeout, 1)
                if r != 'unsat':
                    break
        if r == 'unsat':
            return [c for c, f in live]
    out = []
    # QF candidates: use counter-models to drop many at once
    qfl = [(c, f) for c, f in live if f is True or not solver.has_quant(B(f))]
    ql = [(c, f) for c, f in live if not (f is True or not solver.has_quant(B(f)))]
    qst = st.copy()
    qst.pc = [p for p in st.pc if not solver.has_quant(p)]
    cur = qfl
    while True:
        fs = [f for c, f in cur if f is not True]
        if not fs:
            break
        r, s = eng.prove(qst, band(*fs), timeout, 1)
        if r == 'unsat':
            break
        if r != 'sat':
            cur2 = []
            for c, f in cur:
                if f is True or eng.prove(st, f, t_one, 1)[0] == 'unsat':
                    cur2.append((c, f))
            cur = cur2
            break
        m = s.model()
        nxt = []
        retry = []
        for c, f in cur:
            if f is True:
                nxt.append((c, f))
                continue
            v = m.eval(f, model_completion=True)
            if z3.is_true(v):
                nxt.append((c, f))
            else:
                retry.append((c, f))
        # those the QF part refutes may still follow from quantified facts
        for c, f in retry:
            if len(qst.pc) != len(st.pc) and eng.prove(st, f, t_one if solver.CVC5_FIRST else 400, 1)[0] == 'unsat':
                out.append(c)
        if len(nxt) == len(cur):
            cur2 = []
            for c, f in cur:
                if f is True or eng.prove(st, f, t_one, 1)[0] == 'unsat':
                    cur2.append((c, f))
            cur = cur2
            break
        cur = nxt
    out += [c for c, f in cur]
    for c, f in ql:
        if eng.prove(st, f, max(timeout, 3000 if eng.hints else 0), 1)[0] == 'unsat':
            out.append(c)
    order = {id(c): n for n, c in enumerate(cands)}
    out.sort(key=lambda c: order[id(c)])
    return out


def verify_loop(eng, fi, h, body, st, lid):
    mod, shp, snap = compute_mod(eng, fi, h, body, st)
    H = havoc(eng, st, mod, shp, snap)
    if eng.dry:
        ex, rt = eng.run_scope(fi, body, h, H, h)
        return [e for e in ex if e[0] != h], rt
    ctx = tuple(x for x, _ in eng.stack) + (lid,)
    if getattr(eng.cur, 'per_round', False):
        ctx += tuple(eng.rounds)
    ckey = '|'.join(eng.short(x) for x, _ in eng.stack) + '#%d' % fi.headers.index(h)
    L = LoopView(eng, st.frame, eng.m.dem[fi.f.name], fi.headers.index(h), st, eng.V0)
    L.nth = [b for b in fi.f.blocks if b in fi.loops].index(h)      # loops counted in textual order
    L.mod = mod
    L.ckey = ctx
    pool = []
    if eng.cur is not None:
        for nm, f in eng.cur.invs(L):
            pool.append(Cand(nm, lambda s, f=f: f(SV(eng, s, L))))
    auto = eng.cur.auto if eng.cur is not None else True
    if auto:
        pool += [c for c in auto_cands(eng, fi, body, st, mod, H) if auto is True or re.search(auto, c.name)]
    names = {}
    for c in pool:
        while c.name in names:
            c.name += "'"
        names[c.name] = c
    start = None
    prev = eng.loop_cache.get(ctx)
    if prev is not None:
        start = [c for c in pool if c.name in prev]
    elif ckey in eng.hints:
        start = [c for c in pool if c.name in eng.hints[ckey]]
    cands = pool if start is None else start
    cands = filter_cands(eng, st, cands)
    rounds = 0
    tracing = eng.trace
    while True:
        rounds += 1
        s = H.copy()
        for c in cands:
            f = holds(eng, s, c)
            if f is not None:
                s.assume(f)
        use_lemmas(eng, L, s, False)
        eng.silent += 1
        try:
            ex, rt = eng.run_scope(fi, body, h, s, h)
        finally:
            eng.silent -= 1
        backs = [e for e in ex if e[0] == h]
        if not backs:
            break
        for t, pred, bs in backs:
            eng.phis(fi, h, pred, bs)
        keep = cands
        for t, pred, bs in backs:
            keep = filter_cands(eng, bs, keep)
        if tracing:
            print('   ', ckey, 'round', rounds, len(cands), '->', len(keep), [c.name for c in cands if c not in keep][:20])
        if len(keep) == len(cands):
            break
        cands = keep
        if eng.deadline and time.time() > eng.deadline:
            from .exec import Budget
            raise Budget('time budget exhausted in loop inference')
    eng.loop_cache[ctx] = set(c.name for c in cands)
    if not eng.silent:
        eng.new_hints.setdefault(ckey, [])
        for c in cands:
            if c.name not in eng.new_hints[ckey]:
                eng.new_hints[ckey].append(c.name)
    from .exec import Obl
    s = H.copy()
    for c in cands:
        f = holds(eng, s, c)
        if f is not None:
            s.assume(f)
    if not eng.silent:
        for c in cands:
            eng.obls.append(Obl('invariant', 'loop invariant: ' + c.name, 'ok', 0.0, eng.where() + ' [established and preserved]'))
    use_lemmas(eng, L, s, True)
    head = s.copy()
    ex, rt = eng.run_scope(fi, body, h, s, h)
    for t, pred, b in ex:
        extra = changed(eng, head, b, snap) - mod
        if extra:
            raise Unsupported('a loop changes more than expected: %s' % [(k[0].name, k[1]) for k in extra])
    if not eng.silent and eng.cur is not None and eng.cur.terminates:
        termination(eng, fi, h, head, [e for e in ex if e[0] == h], mod, L, st)
    return [e for e in ex if e[0] != h], rt


def use_lemmas(eng, L, s, final):
    if eng.cur is None:
        return
    try:
        ls = eng.cur.lemmas(L, SV(eng, s, L))
    except (KeyError, Unsupported):
        return
    for nm, proofs, concl in ls:
        t = time.time()
        key = (L.ckey, nm)
        if key in eng.lemma_failed:
            continue              # tried with at least the present assumptions
        if not all(prove_lemma(eng, s, p, 3000) for p in proofs):
            eng.lemma_failed.add(key)
            continue
        if final and not eng.silent:
            from .exec import Obl
            eng.obls.append(Obl('lemma', nm, 'ok', time.time() - t, eng.where()))
        s.assume(concl)


def termination(eng, fi, h, head, backs, mod, L, st):
    from .exec import Obl
    if not backs:
        return
    m = eng.cur_measure(L) if hasattr(eng, 'cur_measure') else None
    cands = []
    keys = [k for k in mod if k[0] != 'ghost' and scalar(eng, head, k) is not None]
    gets = [lambda s, k=k: T(scalar(eng, s, k)) for k in keys]
    vals = []
    seen = set()
    for nm, rs in st.frame['vars'].items():
        for r in rs:
            for lf in r.leaves or ():
                if (r, lf.idx) not in mod and not r.arity(lf):
                    t = scalar(eng, st, (r, lf.idx))
                    if t is not None and not isinstance(t, int):
                        vals.append(t)
    for key in list(st.mem) + list(eng.setup_lens):
        if key[1] == 'len' and key[0].rank == 1 and key not in mod:
            t = eng.get(st, *key)
            if not isinstance(t, int) and t.get_id() not in seen:
                seen.add(t.get_id())
                vals.append(t)
    for g in gets:
        cands.append(g)
    for g in gets:
        for t in vals[:12]:
            cands.append(lambda s, g=g, t=t: t - g(s))
        cands.append(lambda s, g=g: (1 << 31) - g(s))
    for g1 in gets[:6]:
        for g2 in gets[:6]:
            if g1 is not g2:
                cands.append(lambda s, g1=g1, g2=g2: g1(s) - g2(s))
    hint = eng.cur.measure(L) if hasattr(eng.cur, 'measure') else None
    if hint is not None:
        cands.insert(0, lambda s: hint(SV(eng, s, L)))
    for m in cands:
        ok = True
        try:
            m0 = m(head)
            for t, pred, b in backs:
                g = z3.And(m(b) < m0, m0 >= 0)
                if not eng.qp(b, g) and not (hint is not None and m is cands[0] and eng.prove_hard(b, g)[0] == 'unsat'):
                    ok = False
                    break
        except (Unsupported, KeyError):
            ok = False
        if ok:
            eng.obls.append(Obl('termination', 'loop measure decreases', 'ok', 0.0, eng.where()))
            return
    eng.obls.append(Obl('termination', 'loop %s terminates' % (eng.short(fi.f.name) + '#%d' % fi.headers.index(h)), 'unknown', 0.0, eng.where(), 'no decreasing measure found'))
