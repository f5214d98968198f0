import sys,json,os,glob,importlib
sys.path.insert(0,'/verif')
sys.path.insert(0,'/verif/tools')
out=[]
titles={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); titles[d['id']]=d['title']
ids=[]
for pid in sorted(titles):
    f='/verif/contracts/%s.py'%pid.lower()
    if not os.path.exists(f): continue
    ids.append(pid)
    m=importlib.import_module('contracts.'+pid.lower())
    e=json.load(open('/verif/evidence/%s.json'%pid)) if os.path.exists('/verif/evidence/%s.json'%pid) else {'coverage':{},'wall_s':0}
    out.append('### %s %s\n'%(pid,titles[pid]))
    out.append('* **Decided by**: %s'%m.NOTE)
    out.append('* **Contracts** (%d, O = %s, about %d s): %s'%(len(m.CONTRACTS),e['coverage'].get('obligations',0) or 0,round(e['wall_s']),', '.join('`%s`'%c.name for c in m.CONTRACTS[:24])+(', …' if len(m.CONTRACTS)>24 else '') if m.CONTRACTS else 'none'))
    out.append('* **Run-time check**: %s.'%m.HARNESS['rule'].rstrip('.'))
    out.append('* **Assumed**: '+'; '.join(m.ASSUMPTIONS)+'.')
    if getattr(m,'BOUNDED',None): out.append('* **Bounded only**: '+'; '.join(m.BOUNDED)+'.')
    out.append('')
from na import NA
out.append('## 3. Not claimed\n')
for pid in sorted(titles):
    if pid not in ids: out.append('* **%s %s** — %s'%(pid,titles[pid],NA.get(pid,'contracts not written')))
out.append('\n## 4. Planted bugs\n\nEach lies in `seeded/<id>/`, was confirmed to build, to pass the stable tests and to fail its own demonstration, and is\nreported by the check of its property with a replayed input.\n\n| bug | property | needs | breaks |\n|---|---|---|---|')
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); out.append('| %s | %s | %s | %s |'%(d.split('/')[-2],m['property'],m['needs'].replace('|','/'),m['what_it_breaks'].replace('|','/')))
base=open('/verif/tools/design_head.md').read(); tail=open('/verif/tools/design_tail.md').read()
open('/verif/DESIGN.md','w').write(base+'\n'.join(out)+'\n\n'+tail)
