#!/bin/bash
# seed.sh ID...   confirm planted bugs: demo passes unpatched, patch builds, stable tests pass, demo fails, and what the check says
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
bash /opt/vp/build.sh >/tmp/w/b.log 2>&1
for id in "$@"; do
	s=/verif/seeded/$id
	p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
	bash $s/demo.sh >/tmp/w/d0.log 2>&1; a=$?
	git apply $s/patch.diff || { echo "$id: patch does not apply"; continue; }
	bash /opt/vp/build.sh >/tmp/w/b.log 2>&1; b=$?
	bash /opt/vp/test.sh /tmp/w/t.json >/dev/null 2>&1
	t=$(python3 -c "
import json
a=json.load(open('/tmp/w/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print(len(set(b['stable'])-set(a['passed'])))")
	bash $s/demo.sh >/tmp/w/d1.log 2>&1; d=$?
	if [ -z "$NOCHECK" ]; then
	(cd /verif; VERIF_TIER=quick VERIF_SEED=1 timeout 900 python3-vt -m irv.check $p) >/tmp/w/c-$id.log 2>&1; c=$?
	fi
	git checkout -- .
	bash /opt/vp/build.sh >/tmp/w/b.log 2>&1
	echo "$id: demo clean=$a build=$b stable-missing=$t demo patched=$d check $p=$c $(grep -h VIOLATION /tmp/w/c-$id.log)"
done
bash /opt/vp/build.sh >/tmp/w/b.log 2>&1
