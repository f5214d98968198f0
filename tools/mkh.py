"""mkh.py ID PROPERTY NEEDS BREAKS : like mkseed.py, the demonstration is the run-time contract of the property (harness source copied beside it)"""
import sys, json, os, subprocess, shutil, importlib
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, V)
i, p, needs, br = sys.argv[1:5]
m = importlib.import_module('contracts.' + p.lower())
mod = m.HARNESS['module']
d = os.path.join(V, 'seeded', i)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
assert diff.strip(), 'no change'
open(d + '/patch.diff', 'w').write(diff)
shutil.copy(V + '/harness/%s.cpp' % p.lower(), d + '/demo.cpp')
shutil.copy(V + '/harness/h.h', d + '/h.h')
if 'mat_model.h' in open(d + '/demo.cpp').read():
    shutil.copy(V + '/harness/mat_model.h', d + '/mat_model.h')
inc = {'basiclog': 'basiclog basicsys', 'basicsys': 'basicsys basiclog', 'basicmath': 'basicmath basicsys basiclog', 'basicimg': 'basicimg basicmath basicsys basiclog'}[mod]
flags = ' '.join('-I%s/include' % x for x in inc.split()) + ' -I%s/src/stdafx -I%s/src' % (mod, mod)
if mod == 'basicimg':
    flags += ' -fms-extensions -isystem basic_thrid_libs/lib_opencv/341/include'
libs = ' '.join('_build/lib%s.a' % x for x in inc.split())
san = os.environ.get('DEMO_FLAGS', '')
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run in /repo after the build: 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
clang++-18 -std=c++11 -stdlib=libc++ -w -O1 -g -fopenmp %s -include /opt/vp/port/include/compat.h -I/opt/vp/port/include %s \\
	"$here/demo.cpp" -Wl,--start-group %s -Wl,--end-group -lpthread -o "$t/demo" || exit 2
cd "$t" && mkdir s && timeout 250 ./demo 1 quick out cur s >log 2>&1 || { cat cur | tr -d '\\0'; exit 1; }
! grep FAIL out
''' % (san, flags, libs))
json.dump({'property': p, 'needs': needs, 'what_it_breaks': br}, open(d + '/meta.json', 'w'), indent=1)
subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
