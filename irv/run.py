"""Verification of one contract, and the driver used by every check."""
import time, json, os, sys, subprocess, hashlib, tempfile, re, traceback
import z3
from .values import *
from .mem import *
from . import solver
from .irparse import Module
from .exec import Engine, Budget, Obl
from .contract import View, Setup, prove_lemma


def verify(module, contract, contracts, hints=None, deadline=None, trace=False, fname=None):
    """returns a result dict"""
    t0 = time.time()
    cands = [n for n in module.funcs if contract.matches(module.dem[n])]
    res = {'contract': contract.name, 'functions': [], 'obligations': [], 'inlined': [], 'assumed': [], 'error': None, 'float_ops': [], 'contracts_used': []}
    if not cands:
        res['error'] = 'no function matches %s' % contract.match
        res['time'] = time.time() - t0
        return res
    if getattr(contract, 'pick', None):
        cands = [n for n in cands if re.search(contract.pick, module.dem[n])] or cands
    for name in cands[:getattr(contract, 'max_functions', 1)]:
        r = verify_fn(module, contract, contracts, name, hints, deadline, trace)
        res['functions'].append(module.dem[name])
        res['obligations'] += r['obligations']
        res['inlined'] += r['inlined']
        res['assumed'] += r['assumed']
        res['float_ops'] += r['float_ops']
        res['contracts_used'] += r['contracts_used']
        res.setdefault('hints', {}).update(r['hints'])
        if r['error']:
            res['error'] = r['error']
    res['time'] = time.time() - t0
    return res


def verify_fn(module, contract, contracts, name, hints, deadline, trace):
    eng = Engine(module, contracts, timeout=contract.timeout or 6000)
    eng.trace = trace
    eng.hints = hints or {}
    eng.loop_cache = {}
    eng.cur = contract
    eng.deadline = time.time() + deadline if deadline else None
    solver.CVC5_FIRST = contract.cvc5_first
    out = {'error': None, 'hints': {}}
    q0, t0 = solver.STATS.queries, solver.STATS.time
    try:
        st = State()
        st.frame = {'fn': name, 'vars': {}, 'parent': None, 'regs': {}}
        s = Setup(eng, st, contract, name)
        args = s.args()
        contract.prepare(s, args)
        V = View(eng, contract, name, args, st, st)
        V.setup = s
        V.ghosts.update(contract.my_ghosts(eng, st, V) or {})
        for nm, f in contract.requires(V):
            if f is not True:
                st.assume(f)
        pre = st.copy()
        V.pre = pre
        eng.V0 = V
        eng.setup_lens = setup_lens(args, eng, st)
        snap = uid()
        eng.cur_frame = contract.frame(V) if not contract.modifies_all else None
        if contract.decreases is not None:
            eng.measure0 = contract.decreases(V)
        # vacuity: the precondition must be satisfiable
        r, _ = eng.prove(st, False, 3000, 2) if st.pc else ('sat', None)
        if r == 'unsat':
            raise Unsupported('precondition is contradictory')
        for nm, proofs, concl in contract.prelemmas(V):
            # consequences of the precondition that need induction: every premise is proved, then the conclusion assumed
            t = time.time()
            eng.stack = [(name, 0)]
            if all(prove_lemma(eng, st, p, 5000) for p in proofs):
                eng.obls.append(Obl('lemma', nm, 'ok', time.time() - t, eng.where()))
                st.assume(concl)
            elif trace:
                print('lemma not proved:', nm)
            eng.stack = []
        work = st.copy()
        res = eng.call_body(name, args, work)
        if res is None:
            eng.obls.append(Obl('reach', 'a return is reachable', 'fail', 0, name))
        else:
            V.ret, V.post = res
            # vacuity: the return must not be excluded by the assumptions made on the way
            r, _ = eng.prove(V.post, False, 1500, 1)
            if r == 'unsat':
                eng.obls.append(Obl('reach', 'a return is reachable', 'fail', 0, eng.short(name), 'path condition at return is contradictory'))
            eng.stack = [(name, 0)]
            for nm, f in contract.ensures(V):
                eng.oblige(V.post, 'postcondition', nm, f, assume=getattr(contract, 'chain', True))
            if not contract.modifies_all:
                frame_check(eng, V, snap)
            eng.stack = []
    except Budget as e:
        out['error'] = 'budget: %s' % e
    except Unsupported as e:
        out['error'] = 'unsupported: %s (at %s)' % (e, eng.where())
        if trace:
            traceback.print_exc()
    except RecursionError:
        out['error'] = 'unsupported: recursion depth'
    except (KeyError, AttributeError, IndexError, TypeError, z3.Z3Exception) as e:
        out['error'] = 'internal: %r (at %s)' % (e, eng.where())
        if trace:
            traceback.print_exc()
    out['obligations'] = eng.obls
    out['hints'] = eng.new_hints
    out['inlined'] = sorted(eng.inlined)
    out['assumed'] = sorted(eng.assumed_models | eng.notes)
    out['float_ops'] = sorted(eng.float_ops)
    out['contracts_used'] = sorted(eng.used_contracts)
    return out


def setup_lens(args, eng, st):
    out = []
    seen = set()

    def visit(v):
        if isinstance(v, PtrV):
            for c, t in v.cases:
                if t is NULL or t.r.n in seen:
                    continue
                seen.add(t.r.n)
                if t.r.rank == 1:
                    out.append((t.r, 'len'))
                for lf in t.r.leaves or ():
                    if lf.kind == 'vec' and t.r.arity(lf) == 0:
                        vv = eng.get(st, t.r, lf.idx)
                        out.append((vv.data, 'len'))
                        for l2 in vv.data.leaves or ():
                            if l2.kind == 'vec':
                                eng.inner(vv.data, l2)
                    elif lf.kind == 'ptr' and t.r.arity(lf) == 0:
                        visit(eng.get(st, t.r, lf.idx))
    for a in args:
        visit(a)
    return out


def frame_check(eng, V, snap):
    fr = eng.cur_frame or {}
    pre, post = V.pre, V.post
    for key in sorted(post.mem, key=lambda k: (k[0].n, str(k[1]))):
        r, k = key
        if r.n > snap or r.local or r.name.startswith('global ') and False:
            continue
        if getattr(r, 'result', False):
            continue
        new = post.mem[key]
        old = pre.mem.get(key)
        if old is None:
            old = eng.default(r, k)
        if new is old:
            continue
        if key in fr and fr[key] is None:
            continue
        nm = '%s%s unchanged' % (r.name, '' if not isinstance(k, int) or not r.leaves[k].name else '.' + r.leaves[k].name)
        if isinstance(new, z3.ExprRef) and z3.is_array(new):
            ar = new.sort()
            n = r.rank - 1 if k == 'len' else r.arity(r.leaves[k[0] if isinstance(k, tuple) else k])
            vs = [z3.Int('fk%d' % i) for i in range(n)]
            p = fr[key](*vs) if key in fr else False
            goal = bor(p, sel(new, vs) == sel(old, vs))
            eng.oblige(post, 'frame', nm if key not in fr else r.name + ' unchanged outside its frame', goal, assume=False)
        elif isinstance(new, (IntV, FV)):
            if isinstance(old, UndefV):
                continue
            if key in fr:
                continue
            if isinstance(new, IntV):
                lf = r.leaves[k]
                goal = T(eng.canon(post, new, lf.sign)) == T(eng.canon(pre, old, lf.sign))
            else:
                goal = new.t == old.t
            eng.oblige(post, 'frame', nm, goal, assume=False)
        elif isinstance(new, PtrV):
            if key in fr:
                continue
            if isinstance(old, PtrV):
                eng.oblige(post, 'frame', nm, eng.pcmp(post, 'eq', new, old), assume=False)
        elif isinstance(new, (int, z3.ExprRef)):
            if key in fr:
                continue
            eng.oblige(post, 'frame', nm, T(new) == T(old), assume=False)
        elif isinstance(new, VecV):
            if new.data is not old.data:
                eng.oblige(post, 'frame', nm, False, assume=False)
