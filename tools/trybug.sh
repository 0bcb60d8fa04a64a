#!/bin/bash
# trybug.sh ID...: confirms a planted bug in a scratch copy of /repo (builds, passes the stable tests,
# demonstration passes without and fails with it), then runs the checks of its property against it.
# /repo itself is patched only for the check and restored afterwards.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
s=/tmp/bw/scratch
mkdir -p /tmp/bw
[ -d $s ] || cp -a /repo $s
for id in "$@"; do
  b=/verif/seeded/$id
  git -C $s checkout -q -- . ; git -C $s pull -q /repo 2>/dev/null; git -C $s reset -q --hard
  r="$id:"
  (cd $s && bash $b/demo.sh) >/tmp/bw/$id.demo0 2>&1; [ $? = 0 ] && r="$r demo-clean=ok" || r="$r demo-clean=FAIL"
  git -C $s apply $b/patch.diff || r="$r APPLY-FAIL"
  (cd $s && cargo test --workspace --no-fail-fast --offline -- --test-threads 8) > /tmp/bw/$id.test 2>&1
  [ $? = 0 ] && r="$r tests=ok($(grep -c '^test .* ok$' /tmp/bw/$id.test))" || r="$r tests=FAIL"
  (cd $s && bash $b/demo.sh) >/tmp/bw/$id.demo1 2>&1; [ $? != 0 ] && r="$r demo-bug=ok" || r="$r demo-bug=PASSES"
  git -C $s checkout -q -- .
  p=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")
  git -C /repo apply $b/patch.diff
  for c in ${CHECKS:-$p}; do
    VERIF_SEED=1 VERIF_TIER=quick bash /verif/check.sh $c quick > /tmp/bw/$id.$c.out 2>&1; rc=$?
    r="$r $c=$rc"
  done
  git -C /repo checkout -q -- .
  echo "$r"
done
