#!/bin/bash
# tools/seed.sh ID [nofull]: takes the edit in /tmp/w/s (a copy of /repo), checks build, stable tests and demo, stores the patch
set -e
ID=$1; T=/verif/seeded/$ID; W=/tmp/w/s
cd $W
git diff > $T/patch.diff
[ -s $T/patch.diff ]
cp /verif/tools/seedlib/lib.sh $T/lib.sh
. /opt/vp/env.sh
cargo build --workspace --lib --bins --offline 2>&1 | grep -E "^(error|warning: unused)" | head
cargo test --workspace --lib --bins --tests --no-fail-fast --offline -- --test-threads 8 > /tmp/w/unit.log 2>&1 || true
mkdir -p /tmp/w/res; cp /tmp/w/unit.log /tmp/w/res/unit.log; cargo test --workspace --doc --offline > /tmp/w/res/doc.log 2>&1 || true
python3 /opt/vp/results.py /tmp/w/res/out.json "cargo:/tmp/w/res/*.log" >/dev/null
python3 - <<'P'
import json
o=json.load(open('/tmp/w/res/out.json')); st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
p=set(o.get('passed',o.get('pass',[])))
m=st-p
print("stable tests missing:", sorted(m)[:5] if m else "none"); assert not m
P
if bash $T/demo.sh >/tmp/w/demo_bad.log 2>&1; then echo "DEMO PASSES WITH PATCH (bad)"; tail -5 /tmp/w/demo_bad.log; exit 1; else echo "demo fails with patch: ok"; tail -4 /tmp/w/demo_bad.log; fi
cd /repo; if bash $T/demo.sh >/tmp/w/demo_ok.log 2>&1; then echo "demo passes on clean: ok"; else echo "DEMO FAILS ON CLEAN"; tail -20 /tmp/w/demo_ok.log; exit 1; fi
cd $W
P=$(python3 -c "import json;print(json.load(open('$T/meta.json'))['property'])")
# verdict of the checks
(cd /verif; VQ_REPO=$W VQ_EVID=/tmp/w/ev ./check $P | cut -c1-400 | tail -5) || true
git checkout -q -- .
