"""The check of one property:  python3-vt -m irv.check <ID>

1. compiles the drivers of contracts/<id>.py (they include / instantiate the sources of /repo) to LLVM IR,
2. generates and discharges the obligations of every contract (one process per contract),
3. compiles harness/<id>.cpp with the sources of /repo and runs it: the same contracts evaluated at run time
   on concrete inputs - the replay search for a failed obligation, and the bounded stand-in where stated,
4. writes the evidence file, prints VIOLATION / KNOWN-FINDING lines.
"""
import sys, os, json, time, importlib, multiprocessing as mp, subprocess, tempfile, shutil, re, hashlib, signal, traceback
from concurrent.futures import ThreadPoolExecutor
sys.setrecursionlimit(20000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from irv import build

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
T0 = time.time()
BUDGET = 780 if TIER == 'quick' else 7200


def left():
    return BUDGET - (time.time() - T0)


# ----------------------------------------------------------------- proofs
def worker(q, mod, c, contracts, hints, mode):
    sys.setrecursionlimit(20000)
    try:
        from irv import run, solver
        import z3
        solver.STATS.__init__()
        t0 = time.time()
        limit = getattr(c, 'budget', 240 if TIER == 'quick' else 1500)
        limit = max(20, min(limit, left() - 60))
        res = run.verify(mod, c, contracts, hints, limit if hints is None else min(limit, getattr(c, 'budget_hints', limit)))
        bad = [o for o in res['obligations'] if o.status != 'ok']
        passes = 1
        if (bad or res['error']) and hints is not None and left() > 120:
            passes = 2
            res2 = run.verify(mod, c, contracts, None, max(20, min(limit, left() - 60)))
            bad2 = [o for o in res2['obligations'] if o.status != 'ok']
            if not (bad2 or res2['error']) or len(bad2) <= len(bad):
                res, bad = res2, bad2
        res['passes'] = passes
        res['queries'] = solver.STATS.queries
        res['solver_time'] = solver.STATS.time
        res['by'] = dict(solver.STATS.by)
        res['obligations'] = [(o.kind, o.name, o.status, round(o.time, 3), o.where, o.detail) for o in res['obligations']]
        q.put(res)
    except BaseException as e:
        q.put({'contract': c.name, 'functions': [], 'obligations': [], 'inlined': [], 'assumed': [], 'error': 'internal: %s' % traceback.format_exc()[-1500:],
               'float_ops': [], 'contracts_used': [], 'time': 0, 'queries': 0, 'solver_time': 0, 'by': {}, 'hints': {}, 'passes': 1})


def prove_all(m, pid):
    from irv.irparse import Module
    contracts = m.CONTRACTS
    todo = [c for c in contracts if not c.trusted and not c.inline]
    if not todo:
        return []
    first = next(iter(m.DRIVERS))
    need = sorted(set(getattr(c, 'driver', first) for c in todo))
    hf = os.path.join(VERIF, 'hints', pid.lower() + '.json')
    hints = json.load(open(hf)) if os.path.exists(hf) and not os.environ.get('VERIF_NOHINTS') else {}

    def comp(k):
        drv = m.DRIVERS[k]
        mod, src = drv[0], drv[1]
        ex = drv[2] if len(drv) > 2 else ()
        return k, build.compile_ir(mod, src_text=src if '\n' in src else None, src_file=None if '\n' in src else src, extra=ex)
    mods, errs = {}, {}
    with ThreadPoolExecutor(JOBS) as ex:
        for k, (ir, info) in ex.map(comp, need):
            if ir is None:
                errs[k] = info
            else:
                mods[k] = Module(ir)
    ctx = mp.get_context('fork')
    results = []
    pend = list(todo)
    # long ones first
    pend.sort(key=lambda c: -hints.get('#time', {}).get(c.name, 0))
    running = []
    while pend or running:
        while pend and len(running) < JOBS:
            c = pend.pop(0)
            k = getattr(c, 'driver', first)
            if k in errs:
                results.append({'contract': c.name, 'functions': [], 'obligations': [], 'inlined': [], 'assumed': [], 'error': 'does not compile: ' + errs[k][-1200:],
                                'float_ops': [], 'contracts_used': [], 'time': 0, 'queries': 0, 'solver_time': 0, 'by': {}, 'hints': {}, 'passes': 0})
                continue
            q = ctx.Queue()
            p = ctx.Process(target=worker, args=(q, mods[k], c, contracts, hints.get(c.name), TIER))
            p.start()
            running.append((p, q, c, time.time()))
        nxt = []
        for p, q, c, t in running:
            r = None
            try:
                r = q.get(timeout=0.05)
            except Exception:
                if not p.is_alive() and q.empty():
                    r = {'contract': c.name, 'functions': [], 'obligations': [], 'inlined': [], 'assumed': [], 'error': 'prover process died',
                         'float_ops': [], 'contracts_used': [], 'time': time.time() - t, 'queries': 0, 'solver_time': 0, 'by': {}, 'hints': {}, 'passes': 1}
                elif left() < 30:
                    p.kill()
                    r = {'contract': c.name, 'functions': [], 'obligations': [], 'inlined': [], 'assumed': [], 'error': 'time budget of the check exhausted',
                         'float_ops': [], 'contracts_used': [], 'time': time.time() - t, 'queries': 0, 'solver_time': 0, 'by': {}, 'hints': {}, 'passes': 1}
            if r is None:
                nxt.append((p, q, c, t))
            else:
                p.join(2)
                if p.is_alive():
                    p.kill()
                results.append(r)
        running = nxt
    if os.environ.get('VERIF_SAVE_HINTS'):
        os.makedirs(os.path.dirname(hf), exist_ok=True)
        h = {r['contract']: r['hints'] for r in results if not r['error'] and all(o[2] == 'ok' for o in r['obligations'])}
        h['#time'] = {r['contract']: round(r['time'], 1) for r in results}
        json.dump(h, open(hf, 'w'), indent=0, sort_keys=True)
    return results


# ----------------------------------------------------------------- harness
SHIM = {'basiclog/src/helper.cpp': ['-include', build.PORT + '/pre_helper.h'], 'basicsys/src/sys_strcombine.cpp': ['-include', build.PORT + '/pre_sys_strcombine.h'],
        'basicsys/src/sys_json.cpp': ['-include', build.PORT + '/pre_sys_json.h'], 'basicimg/src/img_draw_macos_impl.cpp': ['-include', build.PORT + '/pre_img_draw_macos_impl.h'],
        'basicsys/src/sys_path.cpp': ['-DfileNames=filePaths']}


def run_harness(m, pid, work):
    """-> dict(status ok|fail|error, fails [...], evaluations, distinct, samples, log)"""
    h = getattr(m, 'HARNESS', None)
    if not h:
        return None
    out = {'status': 'ok', 'fails': [], 'evaluations': 0, 'distinct': 0, 'samples': [], 'log': '', 'counts': {}}
    san = h.get('sanitize', '-fsanitize=address')
    opt = h.get('opt', ['-O1', '-g1'])
    def expand(lst):
        srcs = []
        for s in lst:
            if s.endswith('/*'):
                d = os.path.join(build.REPO, s[:-2], 'src')
                srcs += ['%s/src/%s' % (s[:-2], f) for f in sorted(os.listdir(d)) if f.endswith('.cpp') and f not in h.get('skip', ())]
            else:
                srcs.append(s)
        return [s for n, s in enumerate(srcs) if s not in srcs[:n]]
    hs = os.path.join(VERIF, 'harness', h.get('file', pid.lower() + '.cpp'))
    done_o = {}
    exe = os.path.join(work, 'h')

    def comp(cmd):
        p = subprocess.run(cmd, capture_output=True, text=True)
        return p.returncode, p.stderr
    # the sources the harness needs; everything when that does not link
    for lst in (h['sources'], list(h['sources']) + ['basicmath/*', 'basicsys/*', 'basiclog/*']):
        jobs, names = [], []
        if hs not in done_o:
            names.append(hs)
            jobs.append([build.CXX] + build.flags(h.get('module', 'basicmath')) + opt + san.split() + h.get('cflags', []) + ['-fopenmp', '-I' + os.path.join(VERIF, 'harness'), '-c', hs, '-o', os.path.join(work, 'h.o')])
        for n, s in enumerate(expand(lst)):
            if s in done_o:
                continue
            names.append(s)
            jobs.append([build.CXX] + build.flags(s.split('/')[0]) + SHIM.get(s, []) + opt + san.split() + h.get('cflags', []) + ['-fopenmp', '-c', os.path.join(build.REPO, s), '-o', os.path.join(work, s.replace('/', '_') + '.o')])
        with ThreadPoolExecutor(JOBS) as ex:
            for nm, cmd, (rc, err) in zip(names, jobs, ex.map(comp, jobs)):
                if rc:
                    out['status'] = 'error'
                    out['log'] = 'harness does not compile: ' + err[-3000:]
                    return out
                done_o[nm] = cmd[-1]
        p = subprocess.run([build.CXX, '-stdlib=libc++', '-fopenmp'] + san.split() + list(done_o.values()) + ['-o', exe, '-lpthread'] + h.get('libs', []), capture_output=True, text=True)
        if p.returncode == 0:
            break
    if p.returncode:
        out['status'] = 'error'
        out['log'] = 'harness does not link: ' + p.stderr[-3000:]
        return out
    res, case = os.path.join(work, 'result.txt'), os.path.join(work, 'case.txt')
    scratch = os.path.join(work, 'scratch')
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:abort_on_error=0:allocator_may_return_null=1:exitcode=99:detect_stack_use_after_return=0' % (1 if h.get('leaks') else 0),
               UBSAN_OPTIONS='halt_on_error=1:exitcode=98:print_stacktrace=1', OMP_NUM_THREADS='4')
    tmo = h.get('timeout', {}).get(TIER, 150 if TIER == 'quick' else 900)
    tmo = max(20, min(tmo, left() - 20))
    t = time.time()
    log = os.path.join(work, 'log.txt')
    with open(log, 'wb') as lf:
        pr = subprocess.Popen([exe, str(SEED), TIER, res, case, scratch], stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=scratch, start_new_session=True)
        try:
            rc = pr.wait(tmo)
        except subprocess.TimeoutExpired:
            os.killpg(pr.pid, signal.SIGKILL)
            pr.wait()
            rc = 'timeout'
    out['time'] = time.time() - t
    txt = open(res, errors='replace').read() if os.path.exists(res) else ''
    done = False
    for l in txt.split('\n'):
        if l.startswith('FAIL '):
            k, _, d = l[5:].partition(' | ')
            out['fails'].append((k, d))
        elif l.startswith('COUNT '):
            _, k, n = l.split(' ', 2)
            out['counts'][k] = int(n)
        elif l.startswith('SAMPLE '):
            out['samples'].append(l[7:])
        elif l.startswith('DONE '):
            done = True
            a = l.split()
            out['evaluations'], out['distinct'] = int(a[1]), int(a[2])
    raw = open(log, 'rb').read()[-6000:].decode('utf8', 'replace') if os.path.exists(log) else ''
    out['log'] = raw
    if not done or rc not in (0,):
        c = open(case, 'rb').read().split(b'\0')[0].decode('utf8', 'replace') if os.path.exists(case) else ''
        k, _, d = c.partition(' | ')
        if rc == 'timeout':
            alive = 'no end within %d s' % tmo
        else:
            alive = 'ended with %s' % rc
        if not (done and out['fails']) and not (done and rc == 0):
            kind = 'crash'
            mm = re.search(r'(ERROR: AddressSanitizer: [\w-]+|ERROR: LeakSanitizer|runtime error: [^\n]*|WATCHDOG)', raw)
            if mm:
                alive += ' (' + mm.group(1) + ')'
            if rc == 'timeout' and not h.get('timeout_is_failure', False):
                out['status'] = 'error'
                out['log'] = 'harness: ' + alive + ' at ' + c + '\n' + raw
                return out
            out['fails'].append(('%s:%s' % (k or 'harness', kind), d + ' -> ' + alive))
    if out['fails']:
        out['status'] = 'fail'
    return out


# ----------------------------------------------------------------- verdict
def main():
    pid = sys.argv[1]
    m = importlib.import_module('contracts.' + pid.lower())
    work = tempfile.mkdtemp(prefix='irv-%s-' % pid)
    try:
        return main2(pid, m, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def known(pid):
    out = []
    f = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            mm = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if mm and mm.group(1) == pid:
                out.append((mm.group(2), mm.group(3).strip()))
    return out


def main2(pid, m, work):
    with ThreadPoolExecutor(1) as ex:
        hf = ex.submit(run_harness, m, pid, work)
        proofs = prove_all(m, pid)
        har = hf.result()
    kn = known(pid)
    viol = []
    hits = set()
    if har:
        for k, d in har['fails']:
            for kk, kd in kn:
                if k == kk:
                    hits.add(kk)
                    break
            else:
                viol.append((k, d))
    failed = []
    for r in proofs:
        for o in r['obligations']:
            if o[2] != 'ok':
                failed.append((r['contract'], r['functions'], o))
        if r['error']:
            failed.append((r['contract'], r['functions'], ('undecided', r['error'], 'undecided', 0, '', '')))
    herr = har and har['status'] == 'error'
    nob = sum(len(r['obligations']) for r in proofs)
    nok = sum(1 for r in proofs for o in r['obligations'] if o[2] == 'ok')
    write_evidence(pid, m, proofs, har, nob, nok, len(viol) + (1 if failed and not viol else 0), failed, kn)
    if os.environ.get('VERIF_VERBOSE'):
        for r in proofs:
            print('  %-34s %4d obligations %6.1fs passes=%s %s' % (r['contract'], len(r['obligations']), r['time'], r['passes'], r['error'] or ''))
        if har:
            print('  harness', har['status'], har['evaluations'], har['distinct'], '%.1fs' % har.get('time', 0), har['counts'])
    for kk, kd in kn:
        if kk in hits:
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, kk, kd))
    if not viol and not failed and not herr:
        print('OK property=%s obligations=%d discharged=%d evaluations=%d wall=%.0fs' % (pid, nob, nok, har['evaluations'] if har else 0, time.time() - T0))
        return 0
    rd = os.path.join(VERIF, 'replays')
    os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, '%s-%s.txt' % (pid, hashlib.sha1(repr((viol[:1], failed[:1])).encode()).hexdigest()[:10]))
    with open(rp, 'w') as f:
        f.write('property %s\nseed %d tier %s\n' % (pid, SEED, TIER))
        if viol:
            f.write('\nFailing inputs, run against the real code (harness/%s):\n' % m.HARNESS.get('file', pid.lower() + '.cpp'))
            for k, d in viol[:20]:
                f.write('  %s | %s\n' % (k, d))
            f.write('\nRe-run: VERIF_SEED=%d VERIF_TIER=%s python3-vt -m irv.check %s\n' % (SEED, TIER, pid))
            if har['log']:
                f.write('\nOutput:\n' + har['log'] + '\n')
        if herr:
            f.write('\n' + har['log'] + '\n')
        if failed:
            f.write('\nObligations not discharged:\n')
            for c, fn, o in failed[:40]:
                f.write('  contract %s of %s\n    [%s] %s: %s at %s\n      %s\n' % (c, ', '.join(x.split('(')[0] for x in fn), o[0], o[1], o[2], o[4], o[5].replace('\n', '\n      ')))
    for c, fn, o in failed[:5]:
        print('  obligation not discharged: %s [%s] %s at %s' % (c, o[0], o[1][:300].replace('\n', ' '), o[4]))
    for k, d in viol[:5]:
        print('  failing input: %s %s' % (k, d[:300]))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    else:
        if herr:
            print('  ' + har['log'][:600].replace('\n', '\n  '))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    return 1


def write_evidence(pid, m, proofs, har, nob, nok, nviol, failed, kn):
    import z3
    level = getattr(m, 'LEVEL', 'proof')
    cov = {}
    if proofs:
        kinds = {}
        for r in proofs:
            for o in r['obligations']:
                kinds[o[0]] = kinds.get(o[0], 0) + 1
        by = {}
        for r in proofs:
            for k, v in r['by'].items():
                by[k] = by.get(k, 0) + v
        cov.update({'obligations': nob, 'discharged': nok,
                    'checker_cmd': 'python3-vt -m irv.check %s' % pid,
                    'trusted_base': ['clang++-18 -O0 (source to LLVM IR)', 'irv (this repository): verification-condition generator for LLVM IR', 'z3 %s (python3-vt), cvc5 as second back end' % z3.get_version_string()],
                    'obligations_by_kind': kinds,
                    'solver': {'queries': sum(r['queries'] for r in proofs), 'seconds': round(sum(r['solver_time'] for r in proofs), 1), 'discharged_by_cvc5': by.get('cvc5', 0)},
                    'contracts': [{'contract': r['contract'], 'functions': [x.split('(')[0] for x in r['functions']], 'obligations': len(r['obligations']),
                                   'discharged': sum(1 for o in r['obligations'] if o[2] == 'ok'), 'seconds': round(r['time'], 1), 'inlined': len(r['inlined']), 'uses': r['contracts_used']} for r in proofs],
                    'failed': ['%s: [%s] %s' % (c, o[0], o[1][:200]) for c, fn, o in failed[:20]]})
    if har:
        h = {'evaluations': har['evaluations'], 'distinct_nontrivial': har['distinct'], 'rule': m.HARNESS.get('rule', ''), 'samples': har['samples'][:6] or ['-'], 'by_group': har['counts'], 'seconds': round(har.get('time', 0), 1)}
        if level == 'proof':
            cov['runtime_contract_check'] = h
        else:
            cov.update(h)
        if har['status'] == 'error':
            cov['harness_error'] = har['log'][:500]
    if getattr(m, 'BOUNDED', None):
        cov['bounded_stand_ins'] = m.BOUNDED
    if level == 'other':
        cov['explanation'] = getattr(m, 'EXPLANATION', '')
    assumed = sorted(set(a for r in proofs for a in r['assumed']))
    fl = sorted(set(a for r in proofs for a in r['float_ops']))
    ass = list(getattr(m, 'ASSUMPTIONS', []))
    ass += ['modelled library operation: ' + a for a in assumed]
    if fl:
        ass.append('floating-point operations are uninterpreted functions of their operands (rounding not modelled): ' + ', '.join(fl))
    ass += ['trusted contract (not verified): %s' % c.name for c in m.CONTRACTS if c.trusted]
    ev = {'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level, 'coverage': cov, 'assumptions': ass, 'wall_s': round(time.time() - T0, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        pid = sys.argv[1]
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        rp = os.path.join(VERIF, 'replays', pid + '-internal.txt')
        open(rp, 'w').write(traceback.format_exc())
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        rc = 1
    sys.stdout.flush()
    os._exit(rc)
