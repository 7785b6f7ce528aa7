#!/bin/bash
# plant.sh ID [ID...]: confirm planted bugs in a scratch copy: the patch applies and builds, the stable tests
# pass, the demo fails with it and passes without it, and the check of its property reports a violation.
#   FAST=1 skips the tests; NOCHECK=1 skips the check; CHECKS="C01 C02" runs these checks instead.
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$here/seeded/$id
  prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  s=$(mktemp -d /tmp/plant.XXXXXX)
  cp -a /repo/. "$s/"; git -C "$s" checkout -q -- .
  dd=$(mktemp -d /tmp/demo.XXXXXX); cp -a "$d/." "$dd/"; rm -f "$dd"/*.diff "$dd"/meta.json
  r="$id[$prop]"
  (cd "$s" && PYTHONPATH=$s/src timeout 300 bash "$dd/demo.sh" >/tmp/plant.$id.clean 2>&1) && r="$r demo-clean=ok" || r="$r demo-clean=FAILS"
  if git -C "$s" apply "$d/patch.diff"; then
    (cd "$s" && PYTHONPATH=$s/src timeout 300 bash "$dd/demo.sh" >/tmp/plant.$id.bug 2>&1) && r="$r demo-bug=PASSES" || r="$r demo-bug=ok"
    if [ -z "$FAST" ]; then
      (cd "$s" && REDIS_VERSION=memory PYTHONPATH=$s/src PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 COVERAGE_FILE=$dd/.cov /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:randomly -o addopts=--import-mode=importlib -n 4 --timeout=30 --session-timeout=780 tests >/tmp/plant.$id.tests 2>&1)
      r="$r tests=$(tail -1 /tmp/plant.$id.tests | tr -d '=')"
    fi
    if [ -z "$NOCHECK" ]; then
      for c in ${CHECKS:-$prop}; do
        (cd $here && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick SIM_EVIDENCE=0 SIM_SHRINK=${SIM_SHRINK:-1} DOCKET_SRC=$s/src timeout 900 python3 run_check.py $c --no-shrink >/tmp/plant.$id.$c.check 2>&1); rc=$?
        r="$r $c=$rc($(grep -m1 ' at t=' /tmp/plant.$id.$c.check | cut -c1-110); $(grep -c '' /tmp/plant.$id.$c.check) lines $(grep -o 'wall=[0-9.]*' /tmp/plant.$id.$c.check | head -1))"
      done
    fi
  else r="$r PATCH-DOES-NOT-APPLY"; fi
  echo "$r"
  rm -rf "$s" "$dd"
done
