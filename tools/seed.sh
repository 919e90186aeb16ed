#!/bin/bash
# seed.sh ID [quick]: confirm a planted bug (run from /verif; needs a clean /repo): patch applies and builds, the demo
# passes without and fails with it, the stable tests still pass (skip with "quick"), and say which check catches it.
id=$1; d=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --short)" ] || { echo dirty repo; exit 2; }
. /opt/vp/lib/env.sh
cd /repo
timeout 300 bash $d/demo.sh >/tmp/seed.$id.0 2>&1 && echo "demo clean: ok" || echo "demo clean: FAILS"
git apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILS"
timeout 300 bash $d/demo.sh >/tmp/seed.$id.1 2>&1 && echo "demo planted: PASSES (bad)" || echo "demo planted: fails (good)"
[ "$2" = quick ] || timeout 900 bash /opt/vp/test.sh /tmp/seed.$id.json 2>&1 | tail -1
cd /verif
for p in $P $3; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 bin/check $p quick >/tmp/seed.$id.$p 2>&1; echo "check $p: exit $? $(grep -c ^VIOLATION /tmp/seed.$id.$p) violations: $(grep -m1 ^VIOLATION /tmp/seed.$id.$p | cut -c1-150)"
done
git -C /repo checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
