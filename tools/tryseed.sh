#!/bin/bash
# tools/tryseed.sh NAME [-t]: demo on clean tree, demo with the patch, the property's check with the patch, with -t the tests as well.
s=/verif/seeded/$1
prop=$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")
cd /repo; bash $s/demo.sh >/tmp/w/demo0 2>&1; echo "clean demo: $?"
git apply $s/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash $s/demo.sh >/tmp/w/demo1 2>&1; echo "patched demo: $?"; tail -3 /tmp/w/demo1
[ "$2" = -t ] && /tmp/w/rt.sh
h=$(python3 - "$prop" <<'P'
import json,sys,re
m=open('/verif/MANIFEST.json').read()
print(re.search(r'check\.sh (\w+) '+sys.argv[1]+r'\b',m).group(1))
P
)
cd /verif; VERIF_TIER=quick ./check.sh $h $prop > /tmp/w/seedcheck 2>&1; echo "check: $?"; grep VIOLATION /tmp/w/seedcheck | head -3
