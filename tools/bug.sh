#!/bin/bash
# Usage: tools/bug.sh <bug id>... : validates planted bugs in a scratch copy of
# /repo and runs the check of the property against the copy.
# NOTEST=1 skips the test suite, NOCHECK=1 the check.
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
for id in "$@"; do
  dir=$here/seeded/$id
  work=/tmp/bug_$id.$$
  cp -a "${SRC:-/repo}" "$work"
  cp -a "$dir" "$work.demo"; rm -f "$work.demo"/*.diff "$work.demo"/meta.json
  verdict=
  ( cd "$work"; generate_protos; timeout 300 bash "$work.demo/demo.sh" >"$work.clean" 2>&1 ) \
    && verdict+="clean:ok " || { verdict+="CLEAN-DEMO-FAILS "; tail -5 "$work.clean"; }
  git -C "$work" apply "$dir/patch.diff" || verdict+="PATCH-FAILS "
  ( cd "$work"; generate_protos; timeout 300 bash "$work.demo/demo.sh" >"$work.bug" 2>&1 ) \
    && verdict+="DEMO-MISSES " || verdict+="demo:$(tail -1 "$work.bug" | cut -c1-90) "
  if [ -z "$NOTEST" ]; then
    ( cd "$work"; TMPDIR=$work TEST_TMPDIR=$work PYTHONPATH=/opt/vp/plugins:$work timeout 600 \
      /opt/venv/bin/python -m pytest -q -n 8 -p putting_dune_pytest -p no:cacheprovider \
      --timeout=300 putting_dune >"$work.tests" 2>&1 );
      verdict+="$(python3 - "$work.tests" <<'P'
import json, re, sys
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
text = open(sys.argv[1]).read()
bad = set()
for m in re.finditer(r'^(?:FAILED|ERROR|SUBFAIL\S*) (\S+?)\.py(?:::(\w+))?(?:::(\w+))?', text, re.M):
  name = m[1].replace('/', '.') + '.' + str(m[2]) + '::' + str(m[3])
  if name in stable or m[2] is None:
    bad.add(name)
passed = re.search(r'(\d+) passed', text)
print('tests:ok' if passed and int(passed[1]) > 140 and not bad else 'TESTS-FAIL ' + ' '.join(sorted(bad))[:200], end=' ')
P
)"
  fi
  if [ -z "$NOCHECK" ]; then
    prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
    PD_REPO=$work bash "$here/run.sh" "$prop" quick >"$work.check" 2>&1
    verdict+="$prop rc=$? $(grep -B40 VIOLATION "$work.check" | grep -v '^$prop quick' | sed -n 2p | cut -c1-70)"
  fi
  echo "$id: $verdict"
  for f in "$work" "$work.demo"; do rm -rf "${f:?}"; done
  rm -f "$work.clean" "$work.bug" "$work.tests" "$work.check"
done
