"""mkseed.py ID PROPERTY NEEDS BREAKS : takes the present uncommitted change of /repo as patch, /tmp/w/demo.cpp as demonstration"""
import sys, json, os, subprocess, shutil
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
i, p, needs, br = sys.argv[1:5]
mod = sys.argv[5] if len(sys.argv) > 5 else 'basicmath'
d = os.path.join(V, 'seeded', i)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
assert diff.strip(), 'no change'
open(d + '/patch.diff', 'w').write(diff)
shutil.copy('/tmp/w/demo.cpp', d + '/demo.cpp')
inc = {'basiclog': 'basiclog basicsys', 'basicsys': 'basicsys basiclog', 'basicmath': 'basicmath basicsys basiclog', 'basicimg': 'basicimg basicmath basicsys basiclog'}[mod]
flags = ' '.join('-I%s/include' % x for x in inc.split()) + ' -I%s/src/stdafx' % mod
if mod == 'basicimg':
    flags += ' -fms-extensions -isystem basic_thrid_libs/lib_opencv/341/include'
libs = ' '.join('_build/lib%s.a' % x for x in inc.split())
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run in /repo after the build: 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
clang++-18 -std=c++11 -stdlib=libc++ -w -O0 -g -fopenmp%s -include /opt/vp/port/include/compat.h -I/opt/vp/port/include %s \\
	"$here/demo.cpp" -Wl,--start-group %s -Wl,--end-group -lpthread -o "$t/demo" || exit 2
cd "$t" && timeout 60 ./demo
''' % (os.environ.get('DEMO_FLAGS', ''), flags, libs))
json.dump({'property': p, 'needs': needs, 'what_it_breaks': br}, open(d + '/meta.json', 'w'), indent=1)
subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
