"""developer driver: python3-vt -m irv.dev <contract module> [contract name]"""
import sys, importlib, time
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from irv import build, run
from irv.irparse import Module
m = importlib.import_module('contracts.' + sys.argv[1])
only = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2][:1] != '-' else None
mods = {}
for k, drv in m.DRIVERS.items():
    mod, src = drv[0], drv[1]
    ex = drv[2] if len(drv) > 2 else ()
    ir, err = build.compile_ir(mod, src_text=src if '\n' in src else None, src_file=None if '\n' in src else src, extra=ex)
    if ir is None:
        print(err)
        sys.exit(2)
    mods[k] = Module(ir)
first = next(iter(mods))
for c in m.CONTRACTS:
    if only and c.name != only or c.trusted or c.inline:
        continue
    r = run.verify(mods[getattr(c, 'driver', first)], c, m.CONTRACTS, trace='-t' in sys.argv)
    bad = [o for o in r['obligations'] if o.status != 'ok']
    print('%s %s: %d obligations, %d failed, %.1fs %s' % ('OK ' if not bad and not r['error'] else 'BAD', c.name, len(r['obligations']), len(bad), r['time'], r['error'] or ''))
    for o in bad:
        print('   FAIL', o.kind, o.name, o.status, '%.1f' % o.time, o.where)
        print('       ', o.detail[:1500].replace('\n', '\n        '))
    if '-v' in sys.argv:
        for o in r['obligations']:
            print('     ', o.status, o.kind, o.name, o.where, '%.2f' % o.time)
        print(r['inlined'], r['assumed'])
