"""Symbolic executor / verification-condition generator over -O0 LLVM IR."""
import re, time
from .irparse import Inst
import z3
from .values import *
from .mem import *
from .layout import DI, Leaf, flatten_ir
from . import solver

I64 = 64


class PIntV:
    """a pointer converted to an integer"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Budget(Exception):
    pass


class Obl:
    __slots__ = ('kind', 'name', 'status', 'time', 'where', 'detail')

    def __init__(self, kind, name, status, t, where, detail=''):
        self.kind = kind
        self.name = name
        self.status = status
        self.time = t
        self.where = where
        self.detail = detail


class FnInfo:
    """CFG facts of one IR function"""

    def __init__(self, f):
        f.parse()
        self.f = f
        self.succ = {}
        for b, insts in f.blocks.items():
            t = insts[-1]
            if t.op in ('br',):
                self.succ[b] = list(t.x)
            elif t.op == 'switch':
                self.succ[b] = [c[1] for c in t.x[0]] + [t.x[1]]
            elif t.op == 'call' and t.x[1]:
                self.succ[b] = [t.x[1]]
            else:
                self.succ[b] = []
            # strip quotes
            self.succ[b] = [self.lab(f, s) for s in self.succ[b]]
        entry = f.order[0]
        self.entry = entry
        # RPO
        seen = set()
        post = []
        stack = [(entry, iter(self.succ[entry]))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    adv = True
                    break
            if not adv:
                post.append(b)
                stack.pop()
        rpo = list(reversed(post))
        self.rpo = {b: i for i, b in enumerate(rpo)}
        self.preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succ[b]:
                self.preds[s].append(b)
        # dominators
        dom = {b: None for b in rpo}
        dom[entry] = entry
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in self.preds[b] if dom[p] is not None]
                n = ps[0]
                for p in ps[1:]:
                    x, y = n, p
                    while x != y:
                        while self.rpo[x] > self.rpo[y]:
                            x = dom[x]
                        while self.rpo[y] > self.rpo[x]:
                            y = dom[y]
                    n = x
                if dom[b] != n:
                    dom[b] = n
                    ch = True
        self.dom = dom
        self.loops = {}
        for b in rpo:
            for s in self.succ[b]:
                if self.rpo[s] <= self.rpo[b]:
                    # back edge (must be to a dominator)
                    x = b
                    while x != s and x != dom[x]:
                        x = dom[x]
                    if x != s:
                        raise Unsupported('irreducible loop in ' + f.name)
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        y = st.pop()
                        if y in body:
                            continue
                        body.add(y)
                        st.extend(self.preds[y])
        self.headers = sorted(self.loops, key=lambda b: self.rpo[b])
        # a value that changes from round to round outside memory (the cursor of an array constructor) becomes a local variable
        for h in self.headers:
            for n, i in enumerate(list(f.blocks[h])):
                if i.op != 'phi':
                    break
                slot = '%round.' + i.dest[1:].strip('"')
                al = Inst('alloca', slot, i.ty, None)
                al.dbg = i.dbg
                f.blocks[entry].insert(0, al)
                for v, l in i.a:
                    b = f.blocks[self.lab(f, l)]
                    sto = Inst('store', None, i.ty, ((i.ty, v), (('ptr',), ('loc', slot))))
                    sto.dbg = b[-1].dbg
                    b.insert(len(b) - 1, sto)
                ld = Inst('load', i.dest, i.ty, (('ptr',), ('loc', slot)))
                ld.dbg = i.dbg
                f.blocks[h][n] = ld
        # debug names
        self.vars = {}
        self.vartypes = {}
        self.allocas = []
        m = f.module
        for insts in f.blocks.values():
            for i in insts:
                if i.op == 'dbgdecl':
                    s = m.md.get(i.x, '')
                    mm = re.search(r'name: "([^"]*)"', s)
                    tt = re.search(r'type: (!\d+)', s)
                    if mm:
                        self.vars[i.a] = mm.group(1)
                    if tt:
                        self.vartypes[i.a] = tt.group(1)
                    if not mm and 'arg:' in s:
                        pass

    @staticmethod
    def lab(f, s):
        if s in f.blocks:
            return s
        q = '"' + s.strip('"') + '"'
        if q in f.blocks:
            return q
        return s.strip('"')


def choices(t, depth=6):
    """the values of a term that is a case distinction between constants, else None"""
    if isinstance(t, int):
        return {t}
    if z3.is_int_value(t):
        return {t.as_long()}
    if depth and z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = choices(t.arg(1), depth - 1), choices(t.arg(2), depth - 1)
        return None if a is None or b is None else a | b
    return None


class Engine:
    def __init__(self, module, contracts=(), timeout=6000):
        self.m = module
        self.di = DI(module)
        self.contracts = list(contracts)
        self.info = {}
        self.range = {}
        self.axioms = []      # (symbol name or None, formula)
        self.obls = []
        self.dry = 0
        self.silent = 0
        self.timeout = timeout
        self.depth = 0
        self.stack = []
        self.track_events = 0
        self.rounds = []       # rounds of the unrolled loops around
        self.tracked = {}      # region -> function updating ghost sums at every element store
        self.cur = None        # contract being verified
        self.hints = {}
        self.lemma_failed = set()
        self.new_hints = {}
        self.globals = {}
        self.qcache = {}
        self.assumed_models = set()
        self.inlined = set()
        self.used_contracts = set()
        self.deadline = None
        self.keep = []
        self.ret_reach = 0
        self.fail_limit = 6
        self.strs = {}
        self.fcache = {}
        self.notes = set()
        self.float_ops = set()
        self.pow2s = {}

    # ------------------------------------------------------------ terms
    def fresh(self, name, sort='i'):
        n = '%s!%d' % (name, uid())
        if isinstance(sort, str):
            return z3.Int(n) if sort == 'i' else z3.Bool(n) if sort == 'b' else z3.Real(n)
        return z3.Const(n, sort)

    def fact(self, t, lo, hi):
        if isinstance(t, int):
            return
        k = t.get_id()
        if k not in self.range:
            f = []
            if lo is not None:
                f.append(t >= lo)
            if hi is not None:
                f.append(t <= hi)
            self.range[k] = (t, z3.And(*f) if len(f) > 1 else f[0])

    def fresh_int(self, name, w, sign='S'):
        t = self.fresh(name)
        self.fact(t, *rng(w, sign))
        return IntV(t, w, sign)

    def fresh_leaf(self, leaf, name):
        if leaf.kind == 'i':
            return self.fresh_int(name, leaf.w, leaf.sign)
        if leaf.kind == 'f':
            return FV(self.fresh(name, 'f'), leaf.w)
        if leaf.kind == 'ptr':
            return UndefV()
        return OpaqueV(name)

    # ------------------------------------------------------------ proving
    def facts_for(self, fs):
        out = []
        done = set()
        names = set()
        work = list(fs)
        seen_ax = set()
        while work:
            f = work.pop()
            ids, nm = solver.terms_of(f)
            names |= nm
            for i in ids:
                if i in done:
                    continue
                done.add(i)
                r = self.range.get(i)
                if r is not None:
                    out.append(r[1])
            if not work:
                for j, (s, a) in enumerate(self.axioms):
                    if j not in seen_ax and (s is None or s in names):
                        seen_ax.add(j)
                        out.append(a)
                        work.append(a)
        return out

    def qp(self, st, cond, timeout=400):
        """quick quantifier-free proof"""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            # only provable on an infeasible path
            return False
        if self.dry:
            return True
        pc = [p for p in st.pc if not solver.has_quant(p)]
        key = (c.get_id(), tuple(p.get_id() for p in pc))
        r = self.qcache.get(key)
        if r is None:
            fs = pc + [z3.Not(c)]
            rel = [x for x in self.facts_for(fs) if not solver.has_quant(x)]
            l = solver.linear_run(fs + rel, timeout)
            x = l[0] if l is not None else None
            if x != 'unsat':
                x, _ = solver.run(fs + rel, timeout, {})
            r = (x == 'unsat', c, pc)
            self.qcache[key] = r
        return r[0]

    def feasible(self, st, cond):
        """False only if pc & cond is unsatisfiable (quick)"""
        if cond is False:
            return False
        if cond is True:
            return True
        return not self.qp(st, bnot(cond), 200)

    def prove(self, st, goal, timeout=None, effort=2):
        """full proof; returns (status, solver)"""
        if goal is True:
            return 'unsat', None
        g = B(goal)
        gs = z3.simplify(g)
        if z3.is_true(gs):
            return 'unsat', None
        fs = list(st.pc) + [z3.Not(g)]
        fs = fs + self.facts_for(fs)
        return solver.check(fs, timeout or self.timeout, effort)

    def prove_hard(self, st, goal, timeout=None):
        """prove, splitting conjunctions and trying cvc5 when z3 gives up"""
        timeout = timeout or self.timeout
        r, s = self.prove(st, goal, timeout)
        if r != 'unknown':
            return r, s
        g = B(goal)
        parts = self.split(g)
        if len(parts) > 1:
            worst = 'unsat'
            for p in parts:
                r, s = self.prove_hard(st, p, timeout)
                if r != 'unsat':
                    return r, s
            return worst, None
        fs = list(st.pc) + [z3.Not(g)]
        fs = fs + self.facts_for(fs)
        for seed in (3, 7):
            r, s = solver.run(fs, timeout, {'smt.mbqi': False, 'smt.auto_config': False, 'smt.random_seed': seed, 'smt.arith.solver': 2 if seed == 3 else 6})
            if r == 'unsat':
                return r, s
        r = solver.cvc5(fs, timeout * 2)
        if r == 'unsat':
            solver.STATS.by['cvc5'] = solver.STATS.by.get('cvc5', 0) + 1
            return r, None
        return 'unknown', s

    def split(self, g):
        if z3.is_and(g):
            return [y for c in g.children() for y in self.split(c)]
        if z3.is_implies(g):
            return [z3.Implies(g.arg(0), c) for c in self.split(g.arg(1))]
        if z3.is_quantifier(g) and g.is_forall():
            vs = [z3.Const('%s!sk%d' % (g.var_name(i), uid()), g.var_sort(i)) for i in range(g.num_vars())]
            body = z3.substitute_vars(g.body(), *reversed(vs))
            ps = self.split(body)
            if len(ps) > 1:
                return ps
            return [body]
        return [g]

    def oblige(self, st, kind, name, goal, assume=True):
        """emit an obligation (unless dry/silent) and assume it afterwards"""
        if goal is True:
            if not self.dry and not self.silent:
                self.obls.append(Obl(kind, name, 'ok', 0.0, self.where()))
            return
        if self.dry:
            return
        if self.silent:
            if assume:
                if not self.qp(st, goal):
                    st.assume(goal)
            return
        t = time.time()
        if not (not isinstance(goal, bool) and solver.has_quant(goal)) and self.qp(st, goal, 1500):
            self.obls.append(Obl(kind, name, 'ok', time.time() - t, self.where()))
            return
        r, s = self.prove_hard(st, goal)
        o = Obl(kind, name, 'ok' if r == 'unsat' else r, time.time() - t, self.where())
        if r != 'unsat':
            o.detail = 'goal: %s\n' % str(goal)[:1500]
            try:
                if r == 'sat':
                    o.detail += 'model: %s' % str(s.model())[:1500]
                elif s is not None:
                    o.detail += 'reason: ' + s.reason_unknown()
            except Exception:
                pass
            if sum(1 for x in self.obls if x.status != 'ok') >= self.fail_limit:
                self.obls.append(o)
                raise Budget('too many failed obligations')
        self.obls.append(o)
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exhausted')
        if assume:
            st.assume(goal)

    def where(self):
        return ' > '.join('%s:%s' % (self.short(f), l) for f, l in self.stack[-3:])

    def short(self, f):
        d = self.m.dem.get(f, f)
        d = d.split('(')[0]
        return d

    # ------------------------------------------------------------ integer forms
    def sgn(self, st, v):
        if isinstance(v, BoolV):
            return ite(v.b, 1, 0)
        if not isinstance(v, IntV):
            raise Unsupported('integer expected, got %r' % (v,))
        if v.tag in ('S', 'N'):
            return v.t
        if isinstance(v.t, int):
            return wrap_c(v.t, v.w, 'S')
        h = 1 << (v.w - 1)
        if self.qp(st, v.t < h):
            return v.t
        return z3.If(v.t < h, v.t, v.t - 2 * h)

    def uns(self, st, v):
        if isinstance(v, BoolV):
            return ite(v.b, 1, 0)
        if not isinstance(v, IntV):
            raise Unsupported('integer expected, got %r' % (v,))
        if v.tag in ('U', 'N'):
            return v.t
        if isinstance(v.t, int):
            return v.t & ((1 << v.w) - 1)
        if self.qp(st, v.t >= 0):
            return v.t
        return z3.If(v.t >= 0, v.t, v.t + (1 << v.w))

    def mk(self, st, t, w, tag):
        return IntV(t, w, tag)

    def canon(self, st, v, sign):
        return self.uns(st, v) if sign == 'U' else self.sgn(st, v)

    # ------------------------------------------------------------ default contents
    def default(self, r, key):
        """initial content of (region, leaf) memory that nothing has written yet"""
        idx = key
        if idx in r.init:
            return r.init[idx]
        if idx == 'len':
            if r.rank == 1:
                t = self.fresh(r.name + '.len')
                self.fact(t, 0, (1 << 62))
            else:
                t = self.fresh(r.name + '.len', array_sort(r.rank - 1, IntS))
            r.init[idx] = t
            return t
        sub = None
        if isinstance(idx, tuple):
            idx, sub = idx
        leaf = r.leaves[idx]
        nm = '%s.%s' % (r.name, leaf.name or leaf.kind)
        ar = r.arity(leaf)
        if leaf.kind == 'vec':
            if ar == 0:
                vr = Region(nm, 1)
                vr.vecelem = leaf.elem
                self.vec_type(vr, leaf.elem)
                v = VecV(vr, None)
            else:
                v = VecV(self.inner(r, leaf), None)
        elif ar == 0:
            v = self.fresh_leaf(leaf, nm)
        else:
            s = RealS if leaf.kind == 'f' else IntS
            v = self.fresh(nm + (sub or ''), array_sort(ar, s))
        r.init[key] = v
        return v

    def inner(self, r, leaf):
        x = r.inner.get(leaf.idx)
        if x is None:
            x = Region('%s.%s[]' % (r.name, leaf.name), r.arity(leaf) + 1)
            self.vec_type(x, leaf.elem)
            r.inner[leaf.idx] = x
        return x

    def vec_type(self, vr, elem):
        if elem is None:
            return
        leaves = self.di.flatten(elem)
        vr.typed(self.di.size(elem), leaves)

    def get(self, st, r, key):
        v = st.mem.get((r, key))
        if v is None:
            v = self.default(r, key)
        return v

    def vlen(self, st, r, ids=()):
        a = self.get(st, r, 'len')
        if r.rank == 1:
            return a
        t = sel(a, ids)
        if not isinstance(t, int):
            self.fact(t, 0, 1 << 62)
        return t

    def set_vlen(self, st, r, ids, n):
        if r.rank == 1:
            st.mem[(r, 'len')] = n
        else:
            st.mem[(r, 'len')] = sto(self.get(st, r, 'len'), ids, T(n))

    # ------------------------------------------------------------ leaf access
    def rd(self, st, r, leaf, keys):
        if leaf.kind == 'vec':
            if not keys:
                v = self.get(st, r, leaf.idx)
                return v
            return VecV(self.inner(r, leaf), tuple(keys))
        if not keys:
            return self.get(st, r, leaf.idx)
        t = sel(self.get(st, r, leaf.idx), keys)
        if leaf.kind == 'i':
            if z3.is_int_value(t):
                return IntV(t.as_long(), leaf.w, leaf.sign)
            lo, hi = rng(leaf.bits[1], leaf.sign) if leaf.bits else rng(leaf.w, leaf.sign)
            self.fact(t, lo, hi)
            return IntV(t, leaf.w, leaf.sign)
        if leaf.kind == 'f':
            return FV(t, leaf.w)
        if leaf.kind == 'ptr':
            return self.dec_ptr(st, r, leaf, keys, t)
        return OpaqueV('mem')

    def dec_ptr(self, st, r, leaf, keys, t):
        tr = leaf.target
        if tr is None:
            raise Unsupported('pointer stored in %s.%s has no declared target' % (r.name, leaf.name))
        ids = ()
        if tr.rank == 2:
            i = sel(self.get(st, r, (leaf.idx, 'id')), keys)
            ids = (i,)
        if tr.rank == 0:
            loc = Loc(tr, Lin(0), ())
        else:
            loc = Loc(tr, lin_of(t).scale(tr.E), ids)
        if z3.is_int_value(t):
            if t.as_long() < 0:
                return PtrV([(True, NULL)])
            return PtrV([(True, loc)])
        if getattr(leaf, 'nonnull', False):
            return PtrV([(True, loc)])
        return PtrV([(t < 0, NULL), (t >= 0, loc)])

    def enc_ptr(self, st, r, leaf, v):
        """(idx term, id term or None)"""
        if isinstance(v, UndefV):
            t = self.fresh('undefptr')
            return t, self.fresh('undefid')
        if not isinstance(v, PtrV):
            raise Unsupported('storing %r as a pointer' % (v,))
        tr = leaf.target
        if tr is None:
            for c, tg in v.cases:
                if tg is not NULL:
                    tr = tg.r
            if tr is None:
                return T(-1), T(-1)
            leaf.target = tr
        idx = idd = None
        for c, tg in reversed(v.cases):
            if tg is NULL:
                a, b = -1, -1
            else:
                if tg.r is not tr:
                    raise Unsupported('pointer into %s stored in %s.%s (declared target %s)' % (tg.r.name, r.name, leaf.name, tr.name))
                if tr.rank == 0:
                    a, b = 0, None
                else:
                    if not tg.off.divisible(tr.E):
                        raise Unsupported('interior pointer stored')
                    a = tg.off.div(tr.E).term()
                    b = tg.id[0] if tr.rank == 2 else None
            if idx is None:
                idx, idd = a, b
            else:
                idx = ite(c, a, idx)
                if tr.rank == 2:
                    idd = ite(c, -1 if b is None else b, -1 if idd is None else idd)
        return T(idx), (T(idd) if tr.rank == 2 and idd is not None else None)

    def wr(self, st, r, leaf, keys, v):
        if leaf.kind == 'vec':
            raise Unsupported('raw store over a vector')
        if not keys:
            if isinstance(v, BoolV):
                v = IntV(ite(v.b, 1, 0), leaf.w, 'N')
            if isinstance(v, IntV) and leaf.kind == 'i' and v.w != leaf.w:
                raise Unsupported('width mismatch storing %r to %r' % (v, leaf))
            if isinstance(v, FV) and leaf.kind != 'f' or isinstance(v, IntV) and leaf.kind not in ('i',) and leaf.kind != 'opaque':
                raise Unsupported('type punning store of %r to %r' % (v, leaf))
            st.mem[(r, leaf.idx)] = v
            for l2 in self.overlaps(r, leaf):
                st.mem[(r, l2.idx)] = self.fresh_leaf(l2, 'union')
            return
        if leaf.kind == 'i':
            if isinstance(v, UndefV):
                t = self.fresh_int('undef', leaf.w, leaf.sign).t
            else:
                t = self.canon(st, v, leaf.sign)
            if leaf.bits:
                raise Unsupported('bit-field store path')
        elif leaf.kind == 'f':
            t = v.t if isinstance(v, FV) else self.fresh('undef', 'f')
        elif leaf.kind == 'ptr':
            t, i = self.enc_ptr(st, r, leaf, v)
            if i is not None:
                st.mem[(r, (leaf.idx, 'id'))] = sto(self.get(st, r, (leaf.idx, 'id')), keys, i)
            if isinstance(t, z3.ExprRef) and z3.is_app_of(t, z3.Z3_OP_ITE):
                c = self.fresh('stored')        # a name for the value: case distinctions are not allowed in triggers
                st.assume(c == t)
                t = c
        else:
            raise Unsupported('store to %r' % leaf)
        old = self.get(st, r, leaf.idx)
        t = T(t) if not isinstance(t, float) else t
        self.track_store(st, r, leaf, keys, old, t)
        st.mem[(r, leaf.idx)] = sto(old, keys, t)
        for l2 in self.overlaps(r, leaf):
            st.mem[(r, l2.idx)] = sto(self.get(st, r, l2.idx), keys, self.fresh('union', 'f' if l2.kind == 'f' else 'i'))

    def overlaps(self, r, leaf):
        """other members of a union at the bytes of a leaf: unknown after it was written (members of one type share one leaf)"""
        d = r.__dict__.setdefault('ovl', {})
        if leaf.idx not in d:
            d[leaf.idx] = [l for l in r.leaves if l is not leaf and not l.bits and not leaf.bits and not l.dims and not leaf.dims and l.kind in 'if' and leaf.kind in 'if'
                           and l.off < leaf.off + leaf.size and leaf.off < l.off + l.size and (l.kind, l.w) != (leaf.kind, leaf.w)]
        return d[leaf.idx]

    def track_store(self, st, r, leaf, keys, old, t):
        """ghost multiplicity of an arbitrary fixed value"""
        g = st.ghost.get(('cnt', r))
        if g is not None and leaf.idx == 0:
            v = st.ghost[('cntv', r)]
            o = sel(old, keys)
            st.ghost[('cnt', r)] = g - z3.If(o == v, 1, 0) + z3.If(t == v, 1, 0)
        if self.cur is not None and r in self.tracked:
            self.tracked[r](st, leaf, keys, sel(old, keys), t)
            self.track_events += 1

    # ------------------------------------------------------------ address resolution
    def decompose(self, r, off):
        """offset -> (element index term or None, constant rest, symbolic rest)"""
        if r.rank == 0:
            return None, off.c, dict(off.m)
        E = r.E
        idx = Lin(off.c // E)
        c = off.c % E
        rest = {}
        for k, (t, co) in off.m.items():
            if co % E == 0:
                idx = idx.add(Lin(0, {k: (t, co // E)}))
            else:
                rest[k] = (t, co)
        return idx.term(), c, rest

    def leaf_at(self, r, c, rest, size, want=None, st=None, cond=True):
        """find the leaf holding `size` bytes at const offset c with symbolic rest -> (leaf, dimkeys) or None"""
        arrays = []
        for leaf in r.leaves:
            if size is not None and leaf.size != size or leaf.bits and size is not None:
                continue
            if not leaf.dims:
                if not rest and leaf.off == c:
                    if want and not self.kind_ok(leaf, want):
                        continue
                    return leaf, []
                continue
            total = leaf.dims[0][0] * leaf.dims[0][1]
            inside = leaf.off <= c < leaf.off + total
            if not inside and (not rest or not want):
                continue
            rc = c - leaf.off
            rr = dict(rest)
            ks = []
            for cnt, stride in leaf.dims:
                L = Lin(rc // stride)
                rc = rc % stride
                for k in list(rr):
                    t, co = rr[k]
                    if co % stride == 0:
                        L = L.add(Lin(0, {k: (t, co // stride)}))
                        del rr[k]
                ks.append(L.term())
            if rr or rc != 0:
                continue
            if want and not self.kind_ok(leaf, want):
                continue
            arrays.append((0 if inside else leaf.off - c if c < leaf.off else c - leaf.off - total + 1, len(arrays), leaf, ks))
        if not arrays:
            return None
        arrays.sort(key=lambda x: x[:2])
        # several array members may match a symbolic index: the one the index provably lies in, else the nearest
        # (the access obliges the index to lie in the chosen one)
        if len(arrays) > 1 and rest and st is not None and not self.dry:
            for d, n, leaf, ks in arrays:
                if self.qp(st, implies(cond, band(*[band(T(k) >= 0, T(k) < cnt) for (cnt, stride), k in zip(leaf.dims, ks)]))):
                    return leaf, ks
        return arrays[0][2:]

    @staticmethod
    def kind_ok(leaf, ty):
        k = ty[0]
        if k == 'i':
            return leaf.kind in ('i', 'opaque')
        if k == 'ptr':
            return leaf.kind in ('ptr', 'opaque')
        if k in ('float', 'double'):
            return leaf.kind == 'f'
        return True

    def ensure_typed(self, r, ty):
        if r.leaves is None:
            if ty is None:
                raise Unsupported('untyped region %s' % r.name)
            if r.on_type:
                r.on_type(r, ty)
                return
            lv = flatten_ir(self.m, ty)
            r.typed(self.m.size_align(ty)[0], lv)

    def bounds(self, st, r, ids, idx, cond, what):
        if r.rank == 0:
            return
        if r.leaves is not None and r.bytes_len is not None:
            n = r.bytes_len
            goal = band(T(idx) >= 0, T(idx) * r.E + r.E <= n)
        else:
            n = self.vlen(st, r, ids)
            goal = band(T(idx) >= 0, T(idx) < n)
        self.oblige(st, 'bounds', '%s index within %s' % (what, r.var or r.name), self.simp(implies(cond, goal)))

    def simp(self, g):
        if isinstance(g, bool):
            return g
        s = z3.simplify(g)
        if z3.is_true(s):
            return True
        return g

    def access(self, st, p, ty, what):
        """resolve every case of pointer p for an access of type ty: [(cond, region, leaf, keys)]"""
        if not isinstance(p, PtrV):
            raise Unsupported('access through %r' % (p,))
        out = []
        for c, tg in p.cases:
            if len(p.cases) > 1 and not self.dry and not self.feasible(st, c):
                continue
            if tg is NULL:
                self.oblige(st, 'null', what + ' through a null pointer', bnot(c))
                continue
            r = tg.r
            self.ensure_typed(r, ty)
            size = self.m.size_align(ty)[0]
            idx, k, rest = self.decompose(r, tg.off)
            f = self.leaf_at(r, k, rest, size, ty, st, c)
            if f is None:
                parts = self.parts_at(r, k, rest, size)
                if parts is None:
                    raise Unsupported('%s of %s at offset %s of %s (%s)' % (what, ty, tg.off.term(), r.name, r.leaves[:12]))
                if r.rank:
                    self.bounds(st, r, tg.id, idx, c, what)
                out.append((c, r, parts, list(tg.id) + ([idx] if r.rank else [])))
                continue
            leaf, dk = f
            if r.rank:
                self.bounds(st, r, tg.id, idx, c, what)
            for (cnt, stride), kk in zip(leaf.dims, dk):
                if isinstance(kk, int):
                    ok = 0 <= kk < cnt
                    if not ok:
                        self.oblige(st, 'bounds', '%s index within %s' % (what, leaf.name), implies(c, False))
                else:
                    self.oblige(st, 'bounds', '%s index within %s' % (what, leaf.name), implies(c, band(kk >= 0, kk < cnt)))
            out.append((c, r, leaf, list(tg.id) + ([idx] if r.rank else []) + dk))
        return out

    def parts_at(self, r, c, rest, size):
        """several leaves (or bit-fields) packed in [c, c+size)"""
        if rest:
            return None
        parts = []
        cov = 0
        for leaf in r.leaves:
            if leaf.dims:
                cnt, stride = leaf.dims[0]
                if len(leaf.dims) == 1 and stride == leaf.size:
                    for j in range(cnt):
                        o = leaf.off + j * stride
                        if c <= o and o + leaf.size <= c + size:
                            parts.append(((o - c) * 8, leaf.size * 8, leaf, [j]))
                continue
            if leaf.bits:
                lo = (leaf.off - c) * 8 + leaf.bits[0]
                w = leaf.bits[1]
                if lo >= 0 and lo + w <= size * 8:
                    parts.append((lo, w, leaf, []))
                elif lo < size * 8 and lo + w > 0:
                    return None
            elif leaf.off >= c and leaf.off + leaf.size <= c + size:
                parts.append(((leaf.off - c) * 8, leaf.size * 8, leaf, []))
        return parts or None

    def vtable(self, cls):
        """region of the table of virtual functions of a class (mangled name), for objects whose dynamic type the contract fixes"""
        from .mem import Region
        t = Region('vtable ' + cls, 1)
        t.vfns = re.findall(r'ptr (?:@([\w.$]+)|null|inttoptr)', self.m.globals['@_ZTV' + cls] if '@_ZTV' + cls in self.m.globals else self.m.globals['_ZTV' + cls])[2:]
        return t

    def load(self, st, p, ty, what='read'):
        if ty[0] == 'ptr' and isinstance(p, PtrV) and len(p.cases) == 1 and p.cases[0][1] is not NULL:
            l = p.cases[0][1]
            if getattr(l.r, 'vfns', None) is not None:
                return FnV(l.r.vfns[int(str(l.off.term())) // 8])
            if getattr(l.r, 'vt', None) is not None and str(l.off.term()) == '0':
                return PtrV([(True, Loc(l.r.vt, Lin(0), ()))])
        acc = self.access(st, p, ty, what)
        res = None
        for c, r, leaf, keys in reversed(acc):
            if isinstance(leaf, list):
                parts = [(lo, w, self.rd_bits(st, r, lf, keys + dk)) for lo, w, lf, dk in leaf]
                v = PackedV(parts, self.m.size_align(ty)[0] * 8)
            else:
                v = self.rd(st, r, leaf, keys)
            res = v if res is None else self.merge_val(c, v, res)
        if res is None:
            return self.undef(ty)
        if isinstance(res, UndefV):
            if ty[0] == 'i':
                # reading an uninitialised scalar: an arbitrary value
                v = self.fresh_int('uninit', ty[1])
                if len(acc) == 1 and not isinstance(acc[0][2], list) and not acc[0][3]:
                    st.mem[(acc[0][1], acc[0][2].idx)] = v
                return v
        if isinstance(res, OpaqueV) and ty[0] == 'i':
            return self.fresh_int('opaque', ty[1])
        return res

    def rd_bits(self, st, r, leaf, keys):
        v = self.rd(st, r, leaf, keys)
        return v

    def undef(self, ty):
        if ty[0] == 'i':
            return self.fresh_int('undef', ty[1]) if ty[1] > 1 else BoolV(self.fresh('undef', 'b'))
        if ty[0] in ('float', 'double'):
            return FV(self.fresh('undef', 'f'), 32 if ty[0] == 'float' else 64)
        return UndefV()

    def store(self, st, p, v, ty, what='write'):
        acc = self.access(st, p, ty, what)
        for c, r, leaf, keys in acc:
            cc = c if len(acc) > 1 else True
            if isinstance(leaf, list):
                self.store_parts(st, r, leaf, keys, v, cc)
                continue
            if isinstance(v, PackedV):
                # unpack exact single part
                if len(v.parts) == 1 and v.parts[0][0] == 0:
                    v = v.parts[0][2]
                else:
                    raise Unsupported('packed store')
            if cc is True:
                self.wr(st, r, leaf, keys, v)
            else:
                old = self.rd(st, r, leaf, keys)
                if isinstance(old, UndefV):
                    nv = v
                else:
                    nv = self.merge_val(cc, v, old)
                self.wr(st, r, leaf, keys, nv)

    def store_parts(self, st, r, parts, keys, v, cc):
        tot = max(lo + w for lo, w, l, d in parts)
        if isinstance(v, IntV) and isinstance(v.t, int):
            u = v.t & ((1 << v.w) - 1)
            vals = {}
            for lo, w, l, d in parts:
                x = (u >> lo) & ((1 << w) - 1)
                if l.kind == 'f':
                    if x != 0:
                        raise Unsupported('raw float store')
                    vals[lo] = FV(z3.RealVal(0), l.w)
                elif l.kind == 'ptr':
                    vals[lo] = PtrV([(True, NULL)])
                else:
                    vals[lo] = IntV(wrap_c(x, w, l.sign), l.w, l.sign)
        elif isinstance(v, PackedV):
            vals = {lo: x for lo, w, x in v.parts}
        elif isinstance(v, UndefV):
            vals = {}
        else:
            raise Unsupported('store of %r over %r' % (v, [p[2] for p in parts]))
        for lo, w, l, d in parts:
            if isinstance(v, PackedV):
                nv = self.packed_part(st, v, lo, w, l)
            elif lo not in vals:
                nv = self.fresh_leaf(l, 'undef')
            else:
                nv = vals[lo]
            if isinstance(nv, IntV) and nv.w != l.w:
                nv = IntV(nv.t, l.w, nv.tag)
            if cc is not True:
                nv = self.merge_val(cc, nv, self.rd(st, r, l, keys + d))
            lb = l.bits
            if lb and keys + d:
                old = self.get(st, r, l.idx)
                st.mem[(r, l.idx)] = sto(old, keys + d, T(self.canon(st, nv, l.sign)))
            else:
                self.wr(st, r, l, keys + d, nv)

    def packed_part(self, st, v, lo, w, leaf):
        """bits lo..lo+w of a packed value"""
        for plo, pw, x in v.parts:
            if plo == lo and pw == w:
                return x
        for plo, pw, x in v.parts:
            if plo <= lo and lo + w <= plo + pw:
                if not isinstance(x, IntV):
                    raise Unsupported('part of %r' % (x,))
                if isinstance(x.t, int):
                    return IntV(wrap_c((x.t >> (lo - plo)) & ((1 << w) - 1), w, leaf.sign), leaf.w, leaf.sign)
                if leaf.sign == 'S':
                    raise Unsupported('part of a signed value')
                u = self.uns(st, x)
                if plo == lo and self.prove(st, band(T(u) >= 0, T(u) < (1 << w)), 2000)[0] == 'unsat':
                    return IntV(u, leaf.w, leaf.sign)
                u = T(u) / (1 << (lo - plo)) if lo > plo else T(u)
                return IntV(u % (1 << w), leaf.w, leaf.sign)
            if plo < lo + w and lo < plo + pw:
                raise Unsupported('overlapping packed store')
        return IntV(0, leaf.w, leaf.sign)

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef) or isinstance(a, int) or isinstance(b, int):
            if same(a, b):
                return a
            return ite(c, a, b)
        if isinstance(a, UndefV) or isinstance(b, UndefV):
            o = b if isinstance(a, UndefV) else a
            if isinstance(o, IntV):
                u = self.fresh_int('undef', o.w, 'S')
            elif isinstance(o, FV):
                u = FV(self.fresh('undef', 'f'), o.w)
            elif isinstance(o, BoolV):
                u = BoolV(self.fresh('undef', 'b'))
            else:
                return o
            a, b = (u, b) if isinstance(a, UndefV) else (a, u)
        if isinstance(a, BoolV) and isinstance(b, IntV):
            a = IntV(ite(a.b, 1, 0), b.w, 'N')
        if isinstance(b, BoolV) and isinstance(a, IntV):
            b = IntV(ite(b.b, 1, 0), a.w, 'N')
        if isinstance(a, IntV) and isinstance(b, IntV):
            if a.w != b.w:
                raise Unsupported('merge widths')
            ta, tb = a.tag, b.tag
            if ta == tb or 'N' in (ta, tb):
                tag = ta if tb == 'N' else tb
                return IntV(ite(c, a.t, b.t), a.w, tag)
            h = 1 << (a.w - 1)
            f = lambda v: v.t if v.tag != 'U' else (wrap_c(v.t, v.w, 'S') if isinstance(v.t, int) else z3.If(v.t < h, v.t, v.t - 2 * h))
            return IntV(ite(c, f(a), f(b)), a.w, 'S')
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            if same(a.b, b.b):
                return a
            return BoolV(self.bite(c, a.b, b.b))
        if isinstance(a, FV) and isinstance(b, FV):
            return FV(ite(c, a.t, b.t), a.w)
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            return self.merge_ptr(c, a, b)
        if isinstance(a, VecV) and isinstance(b, VecV):
            if a.data is b.data and a.size == b.size:
                return a
            raise Unsupported('merging different vectors')
        if isinstance(a, PackedV) and isinstance(b, PackedV):
            return PackedV([(lo, w, self.merge_val(c, x, y)) for (lo, w, x), (_, _, y) in zip(a.parts, b.parts)], a.w)
        if isinstance(a, AggV) and isinstance(b, AggV):
            return AggV([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            return OpaqueV('merged')
        if isinstance(a, FnV) and isinstance(b, FnV) and a.name == b.name:
            return a
        raise Unsupported('merge %r / %r' % (a, b))

    @staticmethod
    def bite(c, a, b):
        if a is True and b is False:
            return c
        if a is False and b is True:
            return bnot(c)
        if a is True:
            return bor(c, b)
        if b is False:
            return band(c, a)
        if a is False:
            return band(bnot(c), b)
        if b is True:
            return bor(bnot(c), a)
        return z3.If(c, a, b)

    def merge_ptr(self, c, a, b):
        cases = []
        bl = [(band(bnot(c), cb), tb) for cb, tb in b.cases]
        for ca, ta in a.cases:
            cc = band(c, ca)
            done = False
            for j, (cb, tb) in enumerate(bl):
                if ta is NULL or tb is NULL:
                    if ta is NULL and tb is NULL:
                        bl[j] = (self.simp_b(bor(cc, cb)), NULL)
                        done = True
                        break
                    continue
                if ta.r is not tb.r:
                    continue
                if ta.off.key() == tb.off.key() and len(ta.id) == len(tb.id) and all(same(x, y) for x, y in zip(ta.id, tb.id)):
                    bl[j] = (self.simp_b(bor(cc, cb)), tb)
                    done = True
                    break
                E = ta.r.E
                if ta.r.rank and E:
                    d = Lin(ta.off.c - tb.off.c).add(Lin(0, ta.off.m)).add(Lin(0, tb.off.m).scale(-1))
                    if d.divisible(E) and d.c % E == 0:
                        # same element phase
                        ra, rb = ta.off.c % E, tb.off.c % E
                        La = Lin(ta.off.c - ra, ta.off.m)
                        Lb = Lin(tb.off.c - rb, tb.off.m)
                        if ra == rb and La.divisible(E) and Lb.divisible(E):
                            t = ite(cc, La.div(E).term(), Lb.div(E).term())
                            off = lin_of(t).scale(E).add(Lin(ra))
                            ids = tuple(ite(cc, x, y) for x, y in zip(ta.id, tb.id))
                            bl[j] = (self.simp_b(bor(cc, cb)), Loc(ta.r, off, ids))
                            done = True
                            break
            if not done:
                cases.append((cc, ta))
        cases += [x for x in bl if x[0] is not False]
        if len(cases) == 1:
            cases = [(True, cases[0][1])]
        return PtrV(cases)

    @staticmethod
    def simp_b(b):
        if isinstance(b, bool):
            return b
        s = z3.simplify(b)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return b

    def merge_states(self, sts):
        """merge states of one program point"""
        sts = list(sts)
        while len(sts) > 1:
            # choose the pair with the longest common prefix
            best = None
            for i in range(len(sts)):
                for j in range(i + 1, len(sts)):
                    a, b = sts[i].pc, sts[j].pc
                    k = 0
                    while k < len(a) and k < len(b) and a[k].eq(b[k]):
                        k += 1
                    if best is None or k > best[0]:
                        best = (k, i, j)
            k, i, j = best
            a, b = sts[i], sts[j]
            m = self.merge2(a, b, k)
            sts = [s for n, s in enumerate(sts) if n not in (i, j)] + [m]
        return sts[0]

    def merge2(self, a, b, k):
        ra, rb = a.pc[k:], b.pc[k:]
        if not ra and not rb:
            c = True
            tail = []
        elif not ra or not rb:
            # one path subsumes: happens only for duplicated edges
            c = band(*ra) if ra else bnot(band(*rb))
            tail = []
        else:
            ca, cb = ra[0], rb[0]
            if same(bnot(ca), cb) or same(ca, bnot(cb)):
                c = ca
                tail = []
                if ra[1:]:
                    tail.append(z3.Implies(c, band(*ra[1:])))
                if rb[1:]:
                    tail.append(z3.Implies(B(bnot(c)), band(*rb[1:])))
            else:
                c = band(*[x for x in ra])
                tail = [z3.Or(band(*ra), band(*rb))]
                if solver.has_quant(c):
                    qf = [x for x in ra if not solver.has_quant(x)]
                    c = band(*qf) if qf else c
        out = State()
        out.pc = a.pc[:k] + tail
        out.frame = a.frame
        if c is True:
            c = z3.BoolVal(True)
        for key in set(a.mem) | set(b.mem):
            x, y = a.mem.get(key), b.mem.get(key)
            if x is None or y is None:
                r, kk = key
                if x is None and (kk in r.init or not r.local):
                    x = self.default(r, kk)
                elif y is None and (kk in r.init or not r.local):
                    y = self.default(r, kk)
            if x is None or y is None:
                out.mem[key] = y if x is None else x
            elif x is y:
                out.mem[key] = x
            else:
                try:
                    out.mem[key] = self.merge_val(c, x, y)
                except Unsupported:
                    if key[0].local:
                        out.mem[key] = UndefV()
                    else:
                        raise
        for key in set(a.env) | set(b.env):
            x, y = a.env.get(key), b.env.get(key)
            if x is None or y is None:
                continue   # not live at the join
            if x is y:
                out.env[key] = x
            else:
                try:
                    out.env[key] = self.merge_val(c, x, y)
                except Unsupported:
                    pass
        for key in set(a.ghost) | set(b.ghost):
            x, y = a.ghost.get(key), b.ghost.get(key)
            if x is None or y is None:
                out.ghost[key] = y if x is None else x
            elif same(x, y):
                out.ghost[key] = x
            else:
                out.ghost[key] = ite(c, x, y)
        return out

    # ------------------------------------------------------------ operands
    def operand(self, st, v, ty):
        k = v[0]
        if k == 'loc':
            r = st.env.get(v[1])
            if r is None:
                raise Unsupported('register %s undefined' % v[1])
            return r
        if k == 'int':
            w = ty[1]
            if w == 1:
                return BoolV(v[1] != 0)
            return IntV(wrap_c(v[1], w, 'S'), w, 'S')
        if k == 'fp':
            return FV(self.fpconst(v[1], ty), 32 if ty[0] == 'float' else 64)
        if k == 'null':
            return PtrV([(True, NULL)])
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            if ty[0] == 'i':
                return IntV(0, ty[1])
            if ty[0] == 'ptr':
                return PtrV([(True, NULL)])
            if ty[0] in ('float', 'double'):
                return FV(z3.RealVal(0), 32 if ty[0] == 'float' else 64)
            rt = self.m.resolve(ty)
            if rt[0] == 'lit':
                return AggV([self.operand(st, ('zero',), f) for f in rt[1]])
            raise Unsupported('zeroinitializer %r' % (ty,))
        if k == 'glb':
            return self.global_ptr(v[1])
        if k == 'cgep':
            base = self.operand(st, v[2][0][1], ('ptr',))
            return self.gep(st, v[1], base, [(t, x) for t, x in v[2][1:]])
        if k == 'agg':
            return AggV([self.operand(st, x, t) for t, x in v[1]])
        if k == 'ccast':
            x = self.operand(st, v[3], v[2])
            return x
        raise Unsupported('operand %r' % (v,))

    def fpconst(self, s, ty):
        if s.startswith('0x'):
            import struct
            if s[2] in 'KLMHR':
                raise Unsupported('fp constant')
            d = struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
            if d != d or d in (float('inf'), float('-inf')):
                # treat infinities as opaque extreme constants
                self.notes.add('infinite/NaN constant treated as an unknown real')
                return z3.Real('fp_special_' + s[2:])
            from fractions import Fraction
            f = Fraction(d)
            return z3.RealVal('%d/%d' % (f.numerator, f.denominator))
        from fractions import Fraction
        f = Fraction(float(s))
        return z3.RealVal('%d/%d' % (f.numerator, f.denominator))

    def global_ptr(self, name):
        nm = name[1:].strip('"')
        if nm in self.m.funcs or nm in self.m.decls:
            return FnV(nm)
        g = self.globals.get(name)
        if g is None:
            d = self.m.globals.get(name)
            g = Region('global ' + nm, 0)
            self.globals[name] = g
            if d is not None:
                self.init_global(g, name, d)
        return PtrV([(True, Loc(g, Lin(0), ()))])

    def init_global(self, g, name, d):
        from .irparse import P, tokenize
        d = re.sub(r', !dbg !\d+', '', d)
        d = re.sub(r', (comdat(\(\S+\))?|align \d+|section "[^"]*")', '', d)
        p = P(tokenize(d))
        const = False
        while p.peek() not in (None, 'global', 'constant'):
            if p.peek() == 'thread_local':
                p.next()
                continue
            p.next()
        if p.peek() is None:
            return
        const = p.next() == 'constant'
        ty = p.type()
        lv = flatten_ir(self.m, ty)
        g.typed(self.m.size_align(ty)[0], lv)
        g.ty = ty
        if p.peek() is None:
            return
        if not const:
            # a mutable global: unknown content unless it is a source-level constant with a start-up initialiser,
            # or local to this translation unit, where nothing but loads mentions it
            if not re.match(r'(dso_local )?internal\b', d) or not self.only_loaded(name):
                self.const_init(g, name)
                return
        try:
            v = p.value(ty)
        except Exception:
            return
        flat = []
        self.flat_const(v, ty, flat)
        # flat: list of (offset, ty, value)
        for lf in g.leaves:
            if not lf.dims:
                for o, t, x in flat:
                    if o == lf.off:
                        g.init[lf.idx] = x
            else:
                tot = 1
                s = RealS if lf.kind == 'f' else IntS
                if lf.kind not in ('i', 'f'):
                    continue
                arr = self.fresh(g.name, array_sort(len(lf.dims), s))
                ok = True
                for o, t, x in flat:
                    rc = o - lf.off
                    if rc < 0 or rc >= lf.dims[0][0] * lf.dims[0][1]:
                        continue
                    ks = []
                    for cnt, stride in lf.dims:
                        ks.append(rc // stride)
                        rc %= stride
                    if rc:
                        continue
                    val = x.t if isinstance(x, FV) else T(self.canon(None, x, lf.sign))
                    arr = sto(arr, ks, val)
                g.init[lf.idx] = arr

    def only_loaded(self, name):
        pat = re.compile(re.escape(name) + r'(?![\w.$"])')
        for f in self.m.funcs.values():
            for line in f.text().split('\n'):
                if pat.search(line) and not re.match(r'\s*%\S+ = load [^,]+, ptr ' + re.escape(name) + r'(,|$)', line):
                    return False
        for n, d in self.m.globals.items():
            if n != name and pat.search(d):
                return False
        return True

    def const_init(self, g, name):
        nm = name[1:].strip('"')
        for i, s in self.m.md.items():
            if 'DIGlobalVariable(' in s and ('linkageName: "%s"' % nm in s or 'linkageName' not in s and 'name: "%s"' % nm in s):
                t, d = self.di.node(i)
                tt, td = self.di.node(d.get('type', ''))
                if td.get('tag') != 'DW_TAG_const_type':
                    return
                break
        else:
            return
        for fn, f in self.m.funcs.items():
            if fn.startswith('__cxx_global_var_init') and re.search(re.escape(name) + r'\b', f.text()):
                st = State()
                st.frame = {'fn': fn, 'vars': {}, 'parent': None, 'regs': {}}
                for lf in g.leaves:
                    if lf.kind != 'i' or lf.dims:
                        return
                    g.init[lf.idx] = IntV(0, lf.w)
                saved = self.silent, self.cur, self.stack
                self.silent, self.cur, self.stack = 1, None, []
                try:
                    r = self.call_body(fn, [], st)
                except Unsupported:
                    r = None
                finally:
                    self.silent, self.cur, self.stack = saved
                for lf in g.leaves:
                    v = r[1].mem.get((g, lf.idx)) if r else None
                    if isinstance(v, IntV):
                        g.init[lf.idx] = v
                    else:
                        g.init.pop(lf.idx, None)
                return

    def flat_const(self, v, ty, out, off=0):
        if v[0] == 'cstr':
            s = v[1][2:-1]
            i = 0
            o = off
            while i < len(s):
                if s[i] == '\\':
                    b = int(s[i + 1:i + 3], 16)
                    i += 3
                else:
                    b = ord(s[i])
                    i += 1
                out.append((o, ('i', 8), IntV(wrap_c(b, 8, 'S'), 8)))
                o += 1
            return
        k = ty[0]
        if k in ('i', 'float', 'double', 'ptr'):
            try:
                out.append((off, ty, self.operand(None, v, ty)))
            except Unsupported:
                pass
            return
        if v[0] == 'zero':
            if k == 'arr':
                for i in range(min(ty[1], 4096)):
                    self.flat_const(v, ty[2], out, off + i * self.m.size_align(ty[2])[0])
                return
            rt = self.m.resolve(ty)
            for i, f in enumerate(rt[1]):
                self.flat_const(v, f, out, off + self.m.field_off(rt, i)[0])
            return
        if v[0] == 'agg':
            if k == 'arr':
                s = self.m.size_align(ty[2])[0]
                for i, (t, x) in enumerate(v[1]):
                    self.flat_const(x, ty[2], out, off + i * s)
            else:
                rt = self.m.resolve(ty)
                for i, (t, x) in enumerate(v[1]):
                    self.flat_const(x, rt[1][i], out, off + self.m.field_off(rt, i)[0])

    # ------------------------------------------------------------ gep
    def gep(self, st, ty, base, idx):
        if isinstance(base, FnV) or not isinstance(base, PtrV):
            raise Unsupported('gep on %r' % (base,))
        off = Lin(0)
        t = ty
        first = True
        for it, iv in idx:
            if first:
                s = self.m.size_align(t)[0]
                x = self.operand(st, iv, it) if isinstance(iv, tuple) else iv
                off = off.add(lin_of(self.sgn(st, x)).scale(s))
                first = False
                continue
            if t[0] == 'struct':
                t = self.m.struct(t[1])
            if t[0] == 'lit':
                o, t = self.m.field_off(t, iv[1])
                off = off.add(Lin(o))
            elif t[0] == 'arr':
                s = self.m.size_align(t[2])[0]
                x = self.operand(st, iv, it)
                off = off.add(lin_of(self.sgn(st, x)).scale(s))
                t = t[2]
            else:
                raise Unsupported('gep into %r' % (t,))
        cases = []
        for c, tg in base.cases:
            if tg is NULL:
                cases.append((c, NULL))
            else:
                if tg.r.leaves is None and ty[0] in ('struct', 'i', 'float', 'double') and not (ty == ('i', 8)) and tg.r.bytes_len is not None:
                    self.ensure_typed(tg.r, ty)
                cases.append((c, Loc(tg.r, tg.off.add(off), tg.id)))
        return PtrV(cases)

    # ------------------------------------------------------------ comparison
    def icmp(self, st, pred, ty, a, b):
        if isinstance(a, PIntV) or isinstance(b, PIntV):
            a = a.p if isinstance(a, PIntV) else (PtrV([(True, NULL)]) if isinstance(a, IntV) and a.t == 0 else a)
            b = b.p if isinstance(b, PIntV) else (PtrV([(True, NULL)]) if isinstance(b, IntV) and b.t == 0 else b)
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            return self.pcmp(st, pred, a, b)
        if isinstance(a, FnV) or isinstance(b, FnV):
            if isinstance(a, FnV) and isinstance(b, FnV):
                e = a.name == b.name
            else:
                e = False
            return e if pred == 'eq' else not e
        if isinstance(a, UndefV) or isinstance(b, UndefV):
            return self.fresh('undefcmp', 'b')
        if isinstance(a, BoolV) and isinstance(b, IntV) or isinstance(b, BoolV) and isinstance(a, IntV):
            a = a if isinstance(a, IntV) else IntV(ite(a.b, 1, 0), b.w, 'N')
            b = b if isinstance(b, IntV) else IntV(ite(b.b, 1, 0), a.w, 'N')
        if isinstance(a, BoolV):
            e = self.beq(a.b, b.b)
            if pred == 'eq':
                return e
            if pred == 'ne':
                return bnot(e)
            raise Unsupported('bool icmp')
        if isinstance(a, PackedV) or isinstance(b, PackedV):
            return self.packed_eq(st, pred, a, b)
        # bool-like integers
        for x, y in ((a, b), (b, a)):
            if isinstance(y.t, int) and pred in ('eq', 'ne') and not isinstance(x.t, int) and z3.is_app_of(x.t, z3.Z3_OP_ITE):
                p, q = x.t.arg(1), x.t.arg(2)
                if z3.is_int_value(p) and z3.is_int_value(q) and p.as_long() != q.as_long():
                    e = None
                    if p.as_long() == y.t:
                        e = x.t.arg(0)
                    elif q.as_long() == y.t:
                        e = bnot(x.t.arg(0))
                    else:
                        e = False
                    return e if pred == 'eq' else bnot(e)
        if pred in ('eq', 'ne'):
            if 'N' in (a.tag, b.tag) or a.tag == b.tag:
                if a.tag == b.tag or (a.tag == 'N' and b.tag == 'N'):
                    x, y = a.t, b.t
                else:
                    # N against S or U: same number in either form
                    x, y = a.t, b.t
            else:
                x, y = self.sgn(st, a), self.sgn(st, b)
            e = self.cmp_t('==', x, y)
            return e if pred == 'eq' else bnot(e)
        if pred[0] == 's':
            x, y = self.sgn(st, a), self.sgn(st, b)
        else:
            x, y = self.uns(st, a), self.uns(st, b)
        op = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pred[1:]]
        return self.cmp_t(op, x, y)

    @staticmethod
    def beq(a, b):
        if isinstance(a, bool):
            return b if a else bnot(b)
        if isinstance(b, bool):
            return a if b else bnot(a)
        return a == b

    def packed_eq(self, st, pred, a, b):
        raise Unsupported('comparison of packed values')

    @staticmethod
    def cmp_t(op, x, y):
        if isinstance(x, int) and isinstance(y, int):
            return {'==': x == y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        if not isinstance(x, int) and not isinstance(y, int) and x.eq(y):
            return op in ('==', '<=', '>=')
        x, y = T(x), T(y)
        return {'==': x == y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]

    def pcmp(self, st, pred, a, b):
        if not isinstance(a, PtrV) or not isinstance(b, PtrV):
            if pred in ('eq', 'ne') and (isinstance(a, FnV) or isinstance(b, FnV)):
                return pred == 'ne'
            raise Unsupported('pointer comparison %r %r' % (a, b))
        if pred in ('eq', 'ne'):
            out = False
            for ca, ta in a.cases:
                for cb, tb in b.cases:
                    c = band(ca, cb)
                    if c is False:
                        continue
                    if ta is NULL and tb is NULL:
                        e = True
                    elif ta is NULL or tb is NULL:
                        e = False
                    elif ta.r is not tb.r:
                        e = False
                    else:
                        # cancel common parts and the element size so that the atom stays simple
                        d = ta.off.add(tb.off.scale(-1))
                        if ta.r.E and d.divisible(ta.r.E):
                            d = d.div(ta.r.E)
                        e = self.cmp_t('==', d.term(), 0)
                        for x, y in zip(ta.id, tb.id):
                            e = band(e, self.cmp_t('==', x, y))
                    out = bor(out, band(c, e))
            out = self.simp_b(out) if isinstance(out, bool) else out
            return out if pred == 'eq' else bnot(out)
        if len(a.cases) == 1 and len(b.cases) == 1 and a.cases[0][1] is not NULL and b.cases[0][1] is not NULL and a.cases[0][1].r is b.cases[0][1].r:
            ta, tb = a.cases[0][1], b.cases[0][1]
            d = ta.off.add(tb.off.scale(-1))
            if ta.r.E and d.divisible(ta.r.E):
                d = d.div(ta.r.E)
            op = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pred[1:]]
            return self.cmp_t(op, d.term(), 0)
        raise Unsupported('pointer order comparison of %r and %r' % (a, b))

    # ------------------------------------------------------------ arithmetic
    def binop(self, st, op, ty, a, b, flags):
        w = ty[1] if ty[0] == 'i' else 0
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return self.fbin(st, op, 32 if ty[0] == 'float' else 64, a, b)
        if isinstance(a, PIntV) and isinstance(b, PIntV) and op == 'sub':
            if len(a.p.cases) == 1 and len(b.p.cases) == 1:
                ta, tb = a.p.cases[0][1], b.p.cases[0][1]
                if ta is not NULL and tb is not NULL and ta.r is tb.r and all(same(x, y) for x, y in zip(ta.id, tb.id)):
                    return IntV(ta.off.add(tb.off.scale(-1)).term(), w, 'S')
                if ta is NULL and tb is NULL:
                    return IntV(0, w)
            out, bad = None, False
            for ca, ta in a.p.cases:
                for cb, tb in b.p.cases:
                    c = band(ca, cb)
                    if c is False:
                        continue
                    if ta is NULL and tb is NULL:
                        d = T(0)
                    elif ta is not NULL and tb is not NULL and ta.r is tb.r and all(same(x, y) for x, y in zip(ta.id, tb.id)):
                        d = T(ta.off.add(tb.off.scale(-1)).term())
                    else:
                        bad = bor(bad, c)
                        continue
                    out = d if out is None else ite(c, d, out)
            if out is None:
                raise Unsupported('difference of unrelated pointers')
            self.oblige(st, 'pointers', 'difference of pointers into the same block', bnot(bad))
            return IntV(out, w, 'S')
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            if op == 'and':
                return BoolV(band(a.b, b.b))
            if op == 'or':
                return BoolV(bor(a.b, b.b))
            if op == 'xor':
                return BoolV(bnot(self.beq(a.b, b.b)))
            raise Unsupported('i1 %s' % op)
        if isinstance(a, PackedV) or isinstance(b, PackedV):
            return self.packed_bin(st, op, w, a, b)
        if isinstance(a, UndefV) or isinstance(b, UndefV):
            return self.fresh_int('undef', w)
        if not isinstance(a, IntV) or not isinstance(b, IntV):
            raise Unsupported('%s on %r, %r' % (op, a, b))
        if isinstance(a.t, int) and isinstance(b.t, int) and op not in ('sdiv', 'srem', 'udiv', 'urem'):
            x, y = a.t, b.t
            r = {'add': x + y, 'sub': x - y, 'mul': x * y, 'and': (x & y), 'or': (x | y), 'xor': (x ^ y)}.get(op)
            if op == 'shl':
                r = x << y if 0 <= y < w else 0
            elif op == 'ashr':
                r = wrap_c(x, w, 'S') >> y
            elif op == 'lshr':
                r = (x & ((1 << w) - 1)) >> y
            if 'nsw' in flags and wrap_c(r, w, 'S') != r and not (x < 0 or y < 0) is None:
                xs, ys = wrap_c(x, w, 'S'), wrap_c(y, w, 'S')
                rs = {'add': xs + ys, 'sub': xs - ys, 'mul': xs * ys}.get(op)
                if rs is not None and wrap_c(rs, w, 'S') != rs:
                    self.oblige(st, 'overflow', 'signed %s does not overflow' % op, False)
            return IntV(wrap_c(r, w, 'S'), w, 'S')
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in flags:
                x, y = self.sgn(st, a), self.sgn(st, b)
                r = self.arith(op, x, y)
                lo, hi = rng(w, 'S')
                if not isinstance(r, int):
                    self.oblige(st, 'overflow', 'signed %s does not overflow' % op, z3.And(r >= lo, r <= hi))
                elif not lo <= r <= hi:
                    self.oblige(st, 'overflow', 'signed %s does not overflow' % op, False)
                return IntV(r, w, 'S')
            if a.tag in ('S',) or b.tag in ('S',):
                # mixed: keep the signed reading when it fits
                x, y = self.sgn(st, a), self.sgn(st, b)
                r = self.arith(op, x, y)
                if isinstance(r, int):
                    return IntV(wrap_c(r, w, 'S'), w, 'S')
                lo, hi = rng(w, 'S')
                if self.qp(st, z3.And(r >= lo, r <= hi)):
                    return IntV(r, w, 'S')
            x, y = self.uns(st, a), self.uns(st, b)
            if op == 'add' and isinstance(y, int) and y >= 1 << (w - 1):
                # adding a negative literal
                op, y = 'sub', (1 << w) - y
            r = self.arith(op, x, y)
            M = 1 << w
            if isinstance(r, int):
                return IntV(r % M, w, 'U')
            if self.qp(st, z3.And(r >= 0, r < M)):
                return IntV(r, w, 'U')
            if op == 'add':
                r = z3.If(r < M, r, r - M)
            elif op == 'sub':
                r = z3.If(r >= 0, r, r + M)
            else:
                r = r % M
            return IntV(r, w, 'U')
        if op in ('udiv', 'urem'):
            x, y = self.uns(st, a), self.uns(st, b)
            if isinstance(y, int) and y == 0 or not isinstance(y, int):
                self.oblige(st, 'div0', 'division by zero', T(y) != 0 if not isinstance(y, int) else False)
            if isinstance(x, int) and isinstance(y, int):
                r = x // y if op == 'udiv' else x % y
            else:
                r = self.zdiv(x, y) if op == 'udiv' else self.zmod(x, y)
            return IntV(r, w, 'U')
        if op in ('sdiv', 'srem'):
            x, y = self.sgn(st, a), self.sgn(st, b)
            if isinstance(y, int):
                if y == 0:
                    self.oblige(st, 'div0', 'division by zero', False)
                    return self.fresh_int('div0', w)
            else:
                self.oblige(st, 'div0', 'division by zero', y != 0)
            if not (isinstance(y, int) and y != -1):
                self.oblige(st, 'overflow', 'signed division does not overflow', bnot(band(self.cmp_t('==', x, -(1 << (w - 1))), self.cmp_t('==', y, -1))))
            if isinstance(x, int) and isinstance(y, int):
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return IntV(q if op == 'sdiv' else x - q * y, w, 'S')
            if 'exact' in flags and op == 'sdiv' and isinstance(y, int):
                L = lin_of(x)
                if L.divisible(y):
                    return IntV(L.div(y).term(), w, 'S')
            xn = self.qp(st, T(x) >= 0)
            yn = y > 0 if isinstance(y, int) else self.qp(st, y > 0)
            if xn and yn:
                r = self.zdiv(x, y) if op == 'sdiv' else self.zmod(x, y)
                return IntV(r, w, 'S')
            x, y = T(x), T(y)
            ax, ay = z3.If(x >= 0, x, -x), z3.If(y >= 0, y, -y)
            q = self.zdiv(ax, ay)
            if op == 'sdiv':
                return IntV(z3.If((x >= 0) == (y >= 0), q, -q), w, 'S')
            rm = self.zmod(ax, ay)
            return IntV(z3.If(x >= 0, rm, -rm), w, 'S')
        if op == 'shl' and isinstance(b.t, int):
            k = b.t
            if 'nsw' in flags:
                pass
            x = self.uns(st, a)
            r = T(x) * (1 << k)
            if self.qp(st, r < (1 << w)):
                return IntV(r, w, 'U')
            return IntV(r % (1 << w), w, 'U')
        if op == 'lshr' and isinstance(b.t, int):
            return IntV(self.zdiv(self.uns(st, a), 1 << b.t), w, 'U')
        if op == 'ashr' and isinstance(b.t, int):
            return IntV(T(self.sgn(st, a)) / (1 << b.t), w, 'S')
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if isinstance(y.t, int):
                    mval = y.t & ((1 << w) - 1)
                    if mval & (mval + 1) == 0:
                        return IntV(T(self.uns(st, x)) % (mval + 1), w, 'N' if mval < 1 << (w - 1) else 'U')
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if isinstance(y.t, int):
                    mval = y.t & ((1 << w) - 1)
                    lo = (mval & -mval).bit_length() - 1
                    if mval and ((mval >> lo) & ((mval >> lo) + 1)) == 0:
                        return IntV(T(self.uns(st, x)) / (1 << lo) % ((mval >> lo) + 1) * (1 << lo), w, 'N' if mval < 1 << (w - 1) else 'U')
        if op == 'or':
            # disjoint bits: high part a multiple of 2^k, low part below 2^k
            for x, y in ((a, b), (b, a)):
                if isinstance(x.t, int) or x.tag == 'S' and not self.qp(st, T(x.t) >= 0):
                    continue
                L = lin_of(x.t)
                g = L.c
                for t, c in L.m.values():
                    import math
                    g = math.gcd(g, c)
                k = (g & -g).bit_length() - 1
                if k > 0 and self.qp(st, z3.And(T(self.uns(st, y)) >= 0, T(self.uns(st, y)) < 1 << k)):
                    return IntV(self.arith('add', self.uns(st, x), self.uns(st, y)), w, 'U')
        if op == 'xor':
            for x, y in ((a, b), (b, a)):
                if isinstance(y.t, int) and y.t == -1:
                    return IntV(-T(self.sgn(st, x)) - 1, w, 'S')
                if isinstance(y.t, int) and y.t == 0:
                    return x
                if isinstance(y.t, int) and y.t > 0 and y.t & (y.t + 1) == 0 and y.t < 1 << (w - 1):
                    u = T(self.uns(st, x))
                    if self.qp(st, u <= y.t):
                        return IntV(self.arith('sub', y.t, u), w, 'N')
                    lo = self.zmod(u, y.t + 1)
                    return IntV(u - lo + (y.t - lo), w, 'U')
        if op == 'or':
            for x, y in ((a, b), (b, a)):
                if isinstance(y.t, int) and y.t == 0:
                    return x
                v = choices(y.t)
                if v is None or isinstance(y.t, int) or min(v) < 0:
                    continue
                u = choices(x.t)
                if u is not None and len(u | v | {0}) == 2:
                    K = max(u | v)
                    return IntV(z3.If(z3.Or(T(x.t) == K, T(y.t) == K), z3.IntVal(K), z3.IntVal(0)), w, 'N')
                g = min(k & -k for k in v if k)
                ux = T(self.uns(st, x))
                if self.qp(st, z3.And(ux >= 0, ux < g)):
                    return IntV(self.arith('add', ux, y.t), w, 'N')
        return self.bvop(st, op, w, a, b)

    def zdiv(self, x, y):
        if isinstance(y, int) and y == 1:
            return x
        return T(x) / T(y)

    def zmod(self, x, y):
        return T(x) % T(y)

    def pow2(self, y):
        """2^y for 0 <= y < 64: a named value of which only bounds are known"""
        y = T(y)
        k = y.get_id()
        if k not in self.pow2s:
            p = self.uf('pow2', IntS, IntS)(y)
            self.pow2s[k] = (p, y)
            self.range[p.get_id()] = (p, z3.And(p >= 1, z3.Implies(y <= 0, p == 1), z3.Implies(y <= 30, p <= 1 << 30), z3.Implies(y <= 62, p <= 1 << 62)))
        return self.pow2s[k][0]

    def bvop(self, st, op, w, a, b):
        x, y = self.uns(st, a), self.uns(st, b)
        if op in ('shl', 'lshr', 'ashr'):
            self.oblige(st, 'shift', 'shift amount below the width', T(y) < w)
            if not isinstance(y, int):
                if op == 'shl' and isinstance(x, int):
                    r = x * self.pow2(y)
                    if self.qp(st, z3.And(T(y) >= 0, T(y) < w)) and self.qp(st, r < 1 << w):
                        return IntV(r, w, 'U')
                elif op == 'lshr':
                    return IntV(self.zdiv(x, self.pow2(y)), w, 'U')
                elif op == 'ashr':
                    xs = self.sgn(st, a)
                    return IntV(T(xs) / self.pow2(y), w, 'N' if a.tag == 'N' else 'S')
        if op == 'and':
            for m, o in ((y, x), (x, y)):
                if isinstance(m, int):
                    continue
                for k, (p, u) in self.pow2s.items():
                    if self.qp(st, T(m) == p - 1):
                        return IntV(T(o) % p, w, 'U' if a.tag != 'N' and b.tag != 'N' else 'N')
        bx, by = z3.Int2BV(T(x), w), z3.Int2BV(T(y), w)
        r = {'and': lambda: bx & by, 'or': lambda: bx | by, 'xor': lambda: bx ^ by, 'shl': lambda: bx << by,
             'lshr': lambda: z3.LShR(bx, by), 'ashr': lambda: bx >> by}[op]()
        t = self.fresh('bv')
        self.fact(t, 0, (1 << w) - 1)
        v = IntV(t, w, 'U')
        st.assume(t == z3.BV2Int(r))
        return v

    def arith(self, op, x, y):
        if isinstance(x, int) and isinstance(y, int):
            return {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
        if op == 'add':
            r = lin_of(x).add(lin_of(y)).term()
        elif op == 'sub':
            r = lin_of(x).add(lin_of(y).scale(-1)).term()
        else:
            if isinstance(x, int):
                r = lin_of(y).scale(x).term()
            elif isinstance(y, int):
                r = lin_of(x).scale(y).term()
            else:
                r = lin_of(x * y).term()
        return r

    def packed_bin(self, st, op, w, a, b):
        """and / or / shifts by constants over bit-field storage"""
        if op in ('or',) and isinstance(a, PackedV) and isinstance(b, PackedV):
            return PackedV(sorted(a.parts + b.parts, key=lambda x: x[0]), w)
        if isinstance(a, PackedV) and isinstance(b, IntV) and isinstance(b.t, int):
            c = b.t & ((1 << w) - 1)
            if op == 'and':
                parts = []
                for lo, pw, v in a.parts:
                    mk = (c >> lo) & ((1 << pw) - 1)
                    if mk == (1 << pw) - 1:
                        parts.append((lo, pw, v))
                    elif mk == 0:
                        continue
                    else:
                        raise Unsupported('partial mask')
                if len(parts) == 1 and parts[0][0] == 0:
                    v = parts[0][2]
                    return IntV(self.uns(st, v) if v.tag == 'U' or v.tag == 'N' else T(v.t) % (1 << parts[0][1]), w, 'N')
                return PackedV(parts, w)
            if op in ('lshr', 'ashr', 'shl'):
                d = c if op == 'shl' else -c
                parts = [(lo + d, pw, v) for lo, pw, v in a.parts if 0 <= lo + d and lo + d + pw <= w]
                if op == 'ashr' and len(parts) == 1 and parts[0][0] == 0 and parts[0][1] + c == w:
                    v = parts[0][2]
                    return IntV(v.t, w, v.tag)
                if len(parts) == 1 and parts[0][0] == 0 and op == 'lshr':
                    v = parts[0][2]
                    pw = parts[0][1]
                    if v.tag in ('U', 'N'):
                        return IntV(v.t, w, 'N')
                return PackedV(parts, w)
            if op == 'or' and c == 0:
                return a
        if isinstance(b, PackedV) and op == 'or' and isinstance(a, IntV):
            return self.packed_bin(st, op, w, b, a)
        if isinstance(a, PackedV) and op == 'or' and isinstance(b, IntV):
            if isinstance(b.t, int):
                # constant set into the gap
                c = b.t & ((1 << w) - 1)
                used = 0
                for lo, pw, v in a.parts:
                    used |= ((1 << pw) - 1) << lo
                lo = (c & -c).bit_length() - 1
                # widest free gap around lo
                hi = lo
                while hi < w and not (used >> hi) & 1:
                    hi += 1
                l2 = lo
                while l2 > 0 and not (used >> (l2 - 1)) & 1:
                    l2 -= 1
                return PackedV(sorted(a.parts + [(l2, hi - l2, IntV(c >> l2, w))], key=lambda x: x[0]), w)
            # a shifted value going into a free gap
            used = 0
            for lo, pw, v in a.parts:
                used |= ((1 << pw) - 1) << lo
            gaps = []
            k = 0
            while k < w:
                if (used >> k) & 1:
                    k += 1
                    continue
                h = k
                while h < w and not (used >> h) & 1:
                    h += 1
                gaps.append((k, h))
                k = h
            u = self.uns(st, b)
            L = lin_of(u)
            for l, h in sorted(gaps, reverse=True):
                if L.divisible(1 << l):
                    x = L.div(1 << l).term()
                    if h == w or self.prove(st, band(T(x) >= 0, T(x) < (1 << (h - l))), 2000)[0] == 'unsat':
                        return PackedV(sorted(a.parts + [(l, h - l, IntV(x, w, 'N'))], key=lambda x: x[0]), w)
        raise Unsupported('packed %s %r %r' % (op, a, b))

    # floats: uninterpreted arithmetic, exact order
    def uf(self, name, *sorts):
        k = (name, len(sorts))
        f = self.fcache.get(k)
        if f is None:
            f = z3.Function(name, *sorts)
            self.fcache[k] = f
        return f

    def fbin(self, st, op, w, a, b):
        self.float_ops.add('%s_%d' % (op, w))
        if not isinstance(a, FV) or not isinstance(b, FV):
            return FV(self.fresh('undef', 'f'), w)
        f = self.uf('%s_%d' % (op, w), RealS, RealS, RealS)
        return FV(f(a.t, b.t), w)

    def fcmp(self, st, pred, a, b):
        if not isinstance(a, FV) or not isinstance(b, FV):
            return self.fresh('undef', 'b')
        x, y = a.t, b.t
        p = pred[1:]
        if pred == 'ord':
            return True
        if pred == 'uno':
            return False
        if pred in ('true', 'false'):
            return pred == 'true'
        return {'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[p]()

    def cast(self, st, op, ft, tt, v):
        if isinstance(v, UndefV):
            return self.undef(tt)
        if op in ('zext', 'sext', 'trunc'):
            w = tt[1]
            if isinstance(v, BoolV):
                if op == 'zext':
                    return IntV(ite(v.b, 1, 0), w, 'N')
                return IntV(ite(v.b, -1, 0), w, 'S')
            if isinstance(v, PackedV):
                if op == 'zext':
                    return PackedV(v.parts, w)
                if op == 'trunc':
                    ps = [p for p in v.parts if p[0] + p[1] <= w]
                    if len(ps) == 1 and ps[0][0] == 0 and ps[0][1] == w:
                        return ps[0][2]
                    return PackedV(ps, w)
                raise Unsupported('sext packed')
            if isinstance(v, PIntV):
                raise Unsupported('cast of pointer integer')
            if w == 1:
                x = self.uns(st, v)
                if isinstance(x, int):
                    return BoolV(x & 1 == 1)
                return BoolV(x % 2 == 1) if not self.qp(st, z3.And(x >= 0, x <= 1)) else BoolV(x == 1)
            if op == 'sext':
                x = self.sgn(st, v)
                return IntV(x, w, 'N' if v.tag == 'N' else 'S')
            if op == 'zext':
                return IntV(self.uns(st, v), w, 'N')
            # trunc
            if isinstance(v.t, int):
                return IntV(wrap_c(v.t, w, 'S'), w, 'S')
            lo, hi = rng(w, 'S')
            if self.qp(st, z3.And(v.t >= lo, v.t <= hi)):
                return IntV(v.t, w, 'S')
            if self.qp(st, z3.And(v.t >= 0, v.t < (1 << w))):
                return IntV(v.t, w, 'U')
            return IntV(v.t % (1 << w), w, 'U')
        if op in ('sitofp', 'uitofp'):
            w = 32 if tt[0] == 'float' else 64
            x = self.sgn(st, v) if op == 'sitofp' else self.uns(st, v)
            fw = ft[1]
            lim = 1 << (24 if w == 32 else 53)
            if isinstance(x, int):
                if abs(x) <= lim:
                    return FV(z3.RealVal(x), w)
            if fw < (24 if w == 32 else 53) or self.qp(st, z3.And(T(x) >= -lim, T(x) <= lim)):
                return FV(z3.ToReal(T(x)), w)
            self.float_ops.add('round_%d' % w)
            f = self.uf('round_%d' % w, RealS, RealS)
            return FV(f(z3.ToReal(T(x))), w)
        if op in ('fptosi', 'fptoui'):
            w = tt[1]
            self.notes.add('float to integer conversion assumed in range')
            x = v.t
            t = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            k = self.fresh('fptoint')
            self.fact(k, *rng(w, 'S' if op == 'fptosi' else 'U'))
            st.assume(k == t)
            return IntV(k, w, 'S' if op == 'fptosi' else 'U')
        if op == 'fpext':
            return FV(v.t, 64 if tt[0] == 'double' else 128)
        if op == 'fptrunc':
            self.float_ops.add('round_32')
            f = self.uf('round_32', RealS, RealS)
            # exact when the value already is a single (an extended single, a small integer)
            if z3.is_rational_value(v.t):
                import struct
                d = float(v.t.numerator_as_long()) / float(v.t.denominator_as_long())
                if struct.unpack('f', struct.pack('f', d))[0] == d:
                    return FV(v.t, 32)
            return FV(f(v.t), 32)
        if op == 'ptrtoint':
            return PIntV(v)
        if op == 'inttoptr':
            if isinstance(v, PIntV):
                return v.p
            raise Unsupported('inttoptr')
        if op == 'bitcast':
            return v
        raise Unsupported(op)

    # ------------------------------------------------------------ functions
    def finfo(self, name):
        i = self.info.get(name)
        if i is None:
            i = FnInfo(self.m.funcs[name])
            self.info[name] = i
        return i

    def call_body(self, name, args, st):
        """execute the body; returns (value, state) or None when no return is reachable"""
        fi = self.finfo(name)
        f = fi.f
        if self.depth > 40:
            raise Unsupported('call depth')
        if sum(1 for x, _ in self.stack if x == name) >= 3:
            raise Unsupported('recursion without contract: ' + self.short(name))
        saved_env, saved_frame = st.env, st.frame
        st.env = {}
        st.frame = {'fn': name, 'vars': {}, 'parent': saved_frame, 'regs': {}}
        if len(args) != len(f.params):
            raise Unsupported('argument count of ' + self.short(name))
        for (t, nm, sret), v in zip(f.params, args):
            if nm:
                st.env[nm] = v
        self.depth += 1
        self.stack.append((name, 0))
        try:
            exits, rets = self.run_scope(fi, set(fi.rpo), fi.entry, st, None)
        finally:
            self.depth -= 1
            self.stack.pop()
        if not rets:
            return None
        for v, s in rets:
            s.env = {'%__ret': v} if v is not None else {}
        m = self.merge_states([s for v, s in rets])
        rv = m.env.get('%__ret')
        m.env = saved_env
        m.frame = saved_frame
        return rv, m

    # scope execution -------------------------------------------------
    def run_scope(self, fi, scope, start, st, header):
        """execute the blocks of `scope` from `start`; returns (exit edges [(target, pred, state)], returns).
        Edges back to `header` are reported with target == header."""
        pending = {start: [(None, st)]}
        exits = []
        rets = []
        first = True
        while pending:
            b = min(pending, key=lambda x: fi.rpo[x])
            ins = pending.pop(b)
            # phis per edge
            for pred, s in ins:
                if pred is not None:
                    self.phis(fi, b, pred, s)
            s = self.merge_states([x[1] for x in ins]) if len(ins) > 1 else ins[0][1]
            if b in fi.loops and not (b == header and first):
                ex, rt = self.do_loop(fi, b, s)
                rets += rt
                outs = ex
            else:
                outs, rt = self.run_block(fi, b, s)
                rets += rt
            first = False
            for tgt, pred, ns in outs:
                if tgt == header or tgt not in scope:
                    exits.append((tgt, pred, ns))
                else:
                    pending.setdefault(tgt, []).append((pred, ns))
        return exits, rets

    def phis(self, fi, b, pred, s):
        new = {}
        for i in fi.f.blocks[b]:
            if i.op != 'phi':
                break
            for v, l in i.a:
                if FnInfo.lab(fi.f, l) == pred:
                    new[i.dest] = self.operand(s, v, i.ty)
                    break
            else:
                raise Unsupported('phi')
        s.env.update(new)

    def run_block(self, fi, b, st):
        insts = fi.f.blocks[b]
        for n, i in enumerate(insts):
            op = i.op
            if op in ('phi', 'nop', 'dbgdecl', 'fence'):
                continue
            if i.dbg is not None and self.stack:
                ln = self.m.line_of(i.dbg)
                if ln:
                    self.stack[-1] = (self.stack[-1][0], ln)
            if op == 'br':
                if len(i.x) == 1:
                    return [(FnInfo.lab(fi.f, i.x[0]), b, st)], []
                c = self.operand(st, i.a, ('i', 1))
                if isinstance(c, IntV):     # a stored i1 (whether a result was built in place)
                    c = BoolV(c.t != 0)
                return self.branch(fi, b, st, c.b, i.x[0], i.x[1]), []
            if op == 'switch':
                return self.switch(fi, b, st, i), []
            if op == 'ret':
                v = self.operand(st, i.a, i.ty) if i.a is not None else None
                return [], [(v, st)]
            if op == 'unreachable':
                return [], []
            if op == 'call':
                r = self.do_call(fi, st, i)
                if r is None:
                    return [], []
                v, st2 = r
                if st2 is not st:
                    # copy back into the same object so callers holding it stay valid
                    st.mem, st.pc, st.ghost, st.env, st.frame = st2.mem, st2.pc, st2.ghost, st2.env, st2.frame
                if i.dest is not None:
                    st.env[i.dest] = v if v is not None else UndefV()
                if i.x[1]:
                    return [(FnInfo.lab(fi.f, i.x[1]), b, st)], []
                continue
            self.inst(fi, st, i)
        return [], []

    def branch(self, fi, b, st, c, l1, l2):
        l1, l2 = FnInfo.lab(fi.f, l1), FnInfo.lab(fi.f, l2)
        c = self.simp_b(c)
        if c is True:
            return [(l1, b, st)]
        if c is False:
            return [(l2, b, st)]
        if l1 == l2:
            return [(l1, b, st)]
        if not self.dry:
            if not self.feasible(st, c):
                return [(l2, b, st)]
            if not self.feasible(st, bnot(c)):
                return [(l1, b, st)]
        s2 = st.copy()
        st.pc.append(c)
        s2.pc.append(bnot(c))
        return [(l1, b, st), (l2, b, s2)]

    def switch(self, fi, b, st, i):
        v = self.operand(st, i.a, i.ty)
        cases, d = i.x
        out = []
        if isinstance(v.t, int):
            for cv, l in cases:
                if wrap_c(cv, v.w, 'S') == wrap_c(v.t, v.w, 'S'):
                    return [(FnInfo.lab(fi.f, l), b, st)]
            return [(FnInfo.lab(fi.f, d), b, st)]
        x = self.sgn(st, v)
        by = {}
        rest = []
        for cv, l in cases:
            c = self.cmp_t('==', x, wrap_c(cv, v.w, 'S'))
            rest.append(bnot(c))
            by.setdefault(l, []).append(c)
        for l, cs in by.items():
            s2 = st.copy()
            s2.pc.append(B(bor(*cs)))
            if self.dry or self.feasible(st, bor(*cs)):
                out.append((FnInfo.lab(fi.f, l), b, s2))
        c = band(*rest)
        if self.dry or self.feasible(st, c):
            s2 = st.copy()
            s2.pc.append(B(c))
            out.append((FnInfo.lab(fi.f, d), b, s2))
        return out

    def inst(self, fi, st, i):
        op = i.op
        if op == 'alloca':
            r = Region('%s' % i.dest[1:].strip('"'), 0)
            r.local = True
            r.fn = fi.f.name
            r.var = fi.vars.get(i.dest)
            if r.var:
                r.name = r.var
                st.frame['vars'].setdefault(r.var, []).append(r)
            st.frame['regs'][i.dest] = r
            tr = fi.vartypes.get(i.dest)
            ok = False
            if tr:
                try:
                    lv = self.di.flatten(tr)
                    if self.di.size(tr) == self.m.size_align(i.ty)[0]:
                        r.typed(self.di.size(tr), lv)
                        ok = True
                except Unsupported:
                    pass
            if not ok:
                lv = flatten_ir(self.m, i.ty)
                # structs without a variable: take the debug-info type of the same name if there is one
                if i.ty[0] == 'struct':
                    nm = i.ty[1].strip('%"').split('::')[-1]
                r.typed(self.m.size_align(i.ty)[0], lv)
            if i.a is not None:
                n = self.operand(st, i.a[1], i.a[0])
                if not (isinstance(n, IntV) and n.t == 1):
                    raise Unsupported('variable-length array')
            st.env[i.dest] = PtrV([(True, Loc(r, Lin(0), ()))])
            return
        if op == 'load':
            p = self.operand(st, i.a[1], i.a[0])
            st.env[i.dest] = self.load_ty(st, p, i.ty)
            return
        if op == 'store':
            (vt, vv), (pt, pv) = i.a
            v = self.operand(st, vv, vt)
            p = self.operand(st, pv, pt)
            self.store_ty(st, p, v, vt)
            return
        if op == 'getelementptr':
            base = self.operand(st, i.a[1], i.a[0])
            st.env[i.dest] = self.gep(st, i.ty, base, i.x)
            return
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a = self.operand(st, i.a[0], i.ty)
            b = self.operand(st, i.a[1], i.ty)
            st.env[i.dest] = self.binop(st, op, i.ty, a, b, i.x)
            return
        if op == 'fneg':
            a = self.operand(st, i.a, i.ty)
            st.env[i.dest] = FV(-a.t, a.w)
            return
        if op == 'icmp':
            a = self.operand(st, i.a[0], i.ty)
            b = self.operand(st, i.a[1], i.ty)
            st.env[i.dest] = BoolV(self.icmp(st, i.x, i.ty, a, b))
            return
        if op == 'fcmp':
            a = self.operand(st, i.a[0], i.ty)
            b = self.operand(st, i.a[1], i.ty)
            st.env[i.dest] = BoolV(self.fcmp(st, i.x, a, b))
            return
        if op == 'select':
            c = self.operand(st, i.a[0], ('i', 1)).b
            a = self.operand(st, i.a[1], i.ty)
            b = self.operand(st, i.a[2], i.ty)
            if c is True:
                st.env[i.dest] = a
            elif c is False:
                st.env[i.dest] = b
            else:
                st.env[i.dest] = self.merge_val(c, a, b)
            return
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            ft, v = i.a
            st.env[i.dest] = self.cast(st, op, ft, i.ty, self.operand(st, v, ft))
            return
        if op == 'extractvalue':
            v = self.operand(st, i.a, i.ty)
            for k in i.x:
                if isinstance(v, UndefV):
                    break
                v = v.items[k]
            st.env[i.dest] = v
            return
        if op == 'insertvalue':
            v, t2, v2 = i.a
            base = self.operand(st, v, i.ty)
            x = self.operand(st, v2, t2)
            if isinstance(base, UndefV):
                rt = self.m.resolve(i.ty)
                n = len(rt[1]) if rt[0] == 'lit' else rt[1]
                base = AggV([UndefV()] * n)
            its = list(base.items)
            if len(i.x) != 1:
                raise Unsupported('nested insertvalue')
            its[i.x[0]] = x
            st.env[i.dest] = AggV(its)
            return
        if op in ('landingpad', 'resume'):
            return
        raise Unsupported('instruction ' + op)

    def load_ty(self, st, p, ty):
        if ty[0] in ('lit', 'struct'):
            rt = self.m.resolve(ty)
            items = []
            for k in range(len(rt[1])):
                o, ft = self.m.field_off(rt, k)
                q = PtrV([(c, t if t is NULL else Loc(t.r, t.off.add(Lin(o)), t.id)) for c, t in p.cases])
                items.append(self.load_ty(st, q, ft))
            return AggV(items)
        return self.load(st, p, ty)

    def store_ty(self, st, p, v, ty):
        if ty[0] in ('lit', 'struct'):
            rt = self.m.resolve(ty)
            if isinstance(v, UndefV):
                return
            for k in range(len(rt[1])):
                o, ft = self.m.field_off(rt, k)
                q = PtrV([(c, t if t is NULL else Loc(t.r, t.off.add(Lin(o)), t.id)) for c, t in p.cases])
                self.store_ty(st, q, v.items[k], ft)
            return
        self.store(st, p, v, ty)

    # ------------------------------------------------------------ calls
    def do_call(self, fi, st, i):
        callee, normal = i.x
        if callee[0] == 'glb':
            name = callee[1][1:].strip('"')
        else:
            v = self.operand(st, callee, ('ptr',))
            if not isinstance(v, FnV):
                raise Unsupported('indirect call')
            name = v.name
        args = [self.operand(st, v, t) for t, v in i.a]
        return self.call(st, name, args, i.ty, [t for t, v in i.a])

    def find_contract(self, name):
        d = self.m.dem.get(name, name)
        for c in self.contracts:
            if c.matches(d) and (self.cur is None or c.serves(self.cur)):
                return c
        return None

    def call(self, st, name, args, rty, atys):
        from . import stdmodels
        c = self.find_contract(name)
        if c is not None and not c.inline:
            return self.apply_contract(st, c, name, args, rty)
        if self.cur is not None:
            h = self.cur.call_hook(self, st, name, self.m.dem.get(name, name), args, rty)
            if h is not None:
                return h
        watch = [(k[1], k, st.ghost[k]) for k in st.ghost if isinstance(k, tuple) and k[0] == 'cnt'] + [(x, None, None) for x in self.tracked]
        ev = self.track_events
        before = [self.get(st, x, x.leaves[0].idx) for x, _, _ in watch]
        r = stdmodels.dispatch(self, st, name, self.m.dem.get(name, name), args, rty, atys)
        if r is not None:
            # a library model that rewrites summed elements without saying how the sum changes: the sum is unknown
            for (x, k, g), b in zip(watch, before):
                if not self.get(r[1], x, x.leaves[0].idx).eq(b):
                    if k is None and self.track_events > ev:
                        continue
                    if k is None:
                        raise Unsupported('a library call changes elements summed up by a ghost')
                    if r[1].ghost[k] is g:
                        r[1].ghost[k] = self.fresh('cnt')
            return r
        if name in self.m.funcs:
            self.inlined.add(self.m.dem.get(name, name))
            return self.call_body(name, args, st)
        raise Unsupported('call to external function ' + self.m.dem.get(name, name))

    # ------------------------------------------------------------ loops
    def do_loop(self, fi, h, st):
        body = fi.loops[h]
        ordinal = fi.headers.index(h)
        lid = '%s#%d' % (fi.f.name, ordinal)
        n = None if self.cur is not None and self.cur.unroll is False else self.try_unroll(fi, h, body, st)
        if n is not None:
            exits, rets = [], []
            cur = st
            for k in range(n + 1):
                self.rounds.append(k)
                ex, rt = self.run_scope(fi, body, h, cur, h)
                self.rounds.pop()
                rets += rt
                backs = [e for e in ex if e[0] == h]
                exits += [e for e in ex if e[0] != h]
                if not backs:
                    return exits, rets
                for t, pred, s in backs:
                    self.phis(fi, h, pred, s)
                cur = self.merge_states([s for t, p, s in backs])
            raise Unsupported('loop did not unroll as predicted: ' + lid)
        from . import loops
        return loops.verify_loop(self, fi, h, body, st, lid)

    def try_unroll(self, fi, h, body, st):
        """number of iterations when constant folding alone ends the loop, else None"""
        cur = st.copy()
        self.dry += 1
        limit = 70
        try:
            for k in range(limit):
                self.const_exit = False
                self._exit_probe = (fi, body)
                ex, rt = self.run_scope(fi, body, h, cur.copy(), h)
                backs = [e for e in ex if e[0] == h]
                outs = [e for e in ex if e[0] != h]
                if not backs:
                    return k
                if outs and k == 0:
                    # the exit test is not constant: only give up if every exit is symbolic
                    if not self.exit_const(fi, h, body, cur):
                        return None
                elif outs and not self.exit_const(fi, h, body, cur):
                    return None
                for t, pred, s in backs:
                    self.phis(fi, h, pred, s)
                cur = self.merge_states([s for t, p, s in backs])
                cur.pc = list(st.pc)
            return None
        except Unsupported:
            return None
        finally:
            self.dry -= 1

    def exit_const(self, fi, h, body, st):
        """does the header's own exit test fold to a constant?"""
        s = st.copy()
        try:
            outs, rt = self.run_block(fi, h, s)
        except Unsupported:
            return False
        return len(outs) == 1

    # ------------------------------------------------------------ contracts at calls
    def apply_contract(self, st, c, name, args, rty):
        from .contract import View
        self.used_contracts.add(c.name)
        v = View(self, c, name, args, st, st)
        v.call_site = True
        if self.cur is not None:
            v.ghosts.update(self.cur.ghosts_for(c, self, st, v) or {})
        for nm, f in c.requires_at(v):
            self.oblige(st, 'precondition', '%s: %s' % (c.name, nm), f)
        if self.cur is c and c.decreases is not None and not self.dry:
            m0 = self.measure0
            m1 = c.decreases(v)
            self.oblige(st, 'termination', '%s: recursion decreases' % c.name, band(T(m1) >= 0, T(m1) < T(m0)))
        pre = st.copy()
        post = st
        v.pre = pre
        v.post = post
        c.havoc(v)
        v.ret = c.make_ret(v, rty)
        for nm, f in c.ensures_at(v):
            post.assume(f)
        return v.ret, post
