"""mkprobe.py ID PROPERTY NEEDS BREAKS : plants the present change of /repo; the demonstration is the run-time contract of an MSER property"""
import sys, json, os, subprocess, shutil
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
i, p, needs, br = sys.argv[1:5]
d = os.path.join(V, 'seeded', i)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
assert diff.strip(), 'no change'
open(d + '/patch.diff', 'w').write(diff)
shutil.copy(V + '/harness/%s.cpp' % p.lower(), d + '/demo.cpp')
for f in ('h.h', 'mser_ref.h', 'mser_probe.h'):
    shutil.copy(V + '/harness/' + f, d)
s = open(V + '/tools/demo/mser_demo.sh').read()
s = s[:s.index('cd "$t"')] + """cd "$t" && mkdir s && ASAN_OPTIONS=detect_leaks=0 timeout 200 ./demo 1 quick out cur s >log 2>&1 || { cat cur | tr -d '\\0'; exit 1; }
! grep FAIL out
"""
open(d + '/demo.sh', 'w').write(s)
json.dump({'property': p, 'needs': needs, 'what_it_breaks': br}, open(d + '/meta.json', 'w'), indent=1)
subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
