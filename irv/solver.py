"""Discharging obligations with z3; counts and times every query."""
import z3, time, os, subprocess, tempfile

TRUSTED = 'z3 (python3-vt), z3.get_version_string()'


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}


STATS = Stats()
CVC5_FIRST = False      # back end to ask first about quantified goals; a contract may choose
_hq = {}
_tm = {}


def has_quant(e):
    k = e.get_id()
    r = _hq.get(k)
    if r is not None:
        return r[1]
    stack = [e]
    seen = set()
    found = False
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            found = True
            break
        stack.extend(x.children())
    _hq[k] = (e, found)
    return found


def terms_of(e):
    """ids of constants, selects and uninterpreted applications in e (outside and inside quantifiers),
    and the set of names of uninterpreted symbols"""
    k = e.get_id()
    r = _tm.get(k)
    if r is not None:
        return r[1], r[2]
    out = set()
    names = set()
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            kd = x.decl().kind()
            if kd == z3.Z3_OP_UNINTERPRETED:
                out.add(i)
                names.add(x.decl().name())
            elif kd == z3.Z3_OP_SELECT:
                out.add(i)
            stack.extend(x.children())
    _tm[k] = (e, out, names)
    return out, names


def run(fs, timeout, opts):
    s = z3.Solver()
    s.set('timeout', int(timeout))
    for k, v in opts.items():
        s.set(k, v)
    for f in fs:
        s.add(f)
    t = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS.queries += 1
    STATS.time += time.time() - t
    return str(r), s


_lin = {}


def linear(f):
    """f with every ground non-linear monomial (after expansion) named by a constant: (formula, {name: factors}) or None
    when f has none. f and the result are equivalent under name = product of factors."""
    k = f.get_id()
    r = _lin.get(k)
    if r is not None:
        return r[1]
    memo = {}
    found = {}

    def nonlin(e, seen):
        stack = [e]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen or not z3.is_app(x):
                continue
            seen.add(i)
            if x.decl().kind() == z3.Z3_OP_MUL and sum(1 for a in x.children() if not z3.is_int_value(a)) > 1:
                return True
            stack.extend(x.children())
        return False
    if has_quant(f) or not nonlin(f, set()):
        _lin[k] = (f, None)
        return None
    g = z3.simplify(f, som=True, mul_to_power=False, elim_ite=False) if True else f

    def walk(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        ch = x.children()
        if not ch:
            y = x
        else:
            nc = [walk(c) for c in ch]
            if x.decl().kind() == z3.Z3_OP_MUL and z3.is_int(x):
                num = [c for c in nc if z3.is_int_value(c)]
                fac = sorted((c for c in nc if not z3.is_int_value(c)), key=lambda c: c.get_id())
                if len(fac) > 1:
                    n = 'nl!' + '_'.join(str(c.get_id()) for c in fac)
                    m = z3.Int(n)
                    found[n] = (m, fac)
                    y = m
                    for c in num:
                        y = c * y
                else:
                    y = x.decl()(*nc)
            elif x.decl().kind() == z3.Z3_OP_POWER:
                y = x
            else:
                same = all(a.eq(b) for a, b in zip(ch, nc))
                y = x if same else x.decl()(*nc)
        memo[i] = (x, y)
        return y
    g = walk(g)
    _lin[k] = (f, (g, found, g))
    return _lin[k][1]


def linear_run(fs, timeout, opts={}):
    """unsat of the abstraction (with true facts about the named products) implies unsat of fs"""
    out = []
    names = {}
    for f in fs:
        r = linear(f)
        if r is None:
            out.append(f)
        else:
            out.append(r[0])
            names.update(r[1])
    if not names:
        return None
    for m, fac in names.values():
        if len(fac) == 2:
            a, b = fac
            out.append(z3.And(z3.Implies(z3.And(a >= 0, b >= 0), m >= 0), z3.Implies(z3.And(a >= 1, b >= 1), z3.And(m >= a, m >= b)),
                              z3.Implies(z3.Or(a == 0, b == 0), m == 0), z3.Implies(a == 1, m == b), z3.Implies(b == 1, m == a)))
    return run(out, timeout, opts)


def cvc5(fs, timeout):
    s = z3.Solver()
    for f in fs:
        s.add(f)
    txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-logic ALL)', '')
    t = time.time()
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout), '--lang=smt2', '-'], input=txt, capture_output=True, text=True, timeout=timeout / 1000 + 5)
        out = p.stdout.strip().split('\n')[0]
    except Exception:
        out = 'unknown'
    STATS.queries += 1
    STATS.time += time.time() - t
    return out if out in ('sat', 'unsat') else 'unknown'


def check(fs, timeout=4000, effort=2):
    """'unsat' | 'sat' | 'unknown', and the solver"""
    quant = any(has_quant(f) for f in fs)
    if not quant:
        l = linear_run(fs, min(timeout, 1000))
        if l is not None and l[0] == 'unsat':
            return l
        return run(fs, timeout, {})
    em = {'smt.mbqi': False, 'smt.auto_config': False, 'smt.relevancy': 0}
    if CVC5_FIRST:
        if cvc5(fs, timeout) == 'unsat':
            STATS.by['cvc5'] = STATS.by.get('cvc5', 0) + 1
            return 'unsat', None
        if effort < 2:
            return run(fs, min(timeout, 1000), {'smt.mbqi': False, 'smt.auto_config': False})
    r, s = run(fs, timeout if effort < 2 else max(timeout // 2, 500), em)
    if r == 'unsat':
        return r, s
    return run(fs, timeout if effort >= 2 else min(timeout, 800), {})
