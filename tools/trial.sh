#!/bin/bash
# Development only: try planted bugs in scratch copies of /repo.
# bash tools/trial.sh ID... : for each seeded/ID, does it apply, build, pass the tests, does the demo fail with
# it and pass without, and which of the checks (CHECKS="C01 C02", default: the property's own) see it?
here="$(cd "$(dirname "$0")/.." && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
one() {
  id=$1; s=$(mktemp -d /tmp/trial-XXXXXX); cp -a /repo "$s/repo"; cp -a "$here" "$s/verif"; mkdir "$s/demo"
  cp "$here/seeded/$id/"* "$s/demo/"; rm -f "$s/demo/patch.diff" "$s/demo/meta.json"
  p=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
  out="$id [$p]"
  (cd "$s/repo" && PYTHONPATH="$s/repo/src" timeout 300 bash "$s/demo/demo.sh" >"$s/d0" 2>&1); d0=$?
  if ! git -C "$s/repo" apply "$here/seeded/$id/patch.diff" 2>"$s/ap"; then echo "$out DOES NOT APPLY $(head -1 $s/ap)"; rm -rf "$s"; return; fi
  (cd "$s/repo" && PYTHONPATH="$s/repo/src" timeout 300 bash "$s/demo/demo.sh" >"$s/d1" 2>&1); d1=$?
  if [ -z "$NOTEST" ]; then
    (cd "$s/repo" && PYTHONPATH="$s/repo/src" /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -n 4 tests 2>&1 | tail -1 > "$s/t"); t="$(cat $s/t)"
  fi
  out="$out demo $d0/$d1 tests: $t"
  for c in ${CHECKS:-$p}; do
    r=$(cd "$s/verif" && QV_REPO_SRC="$s/repo/src" bash run.sh $c --tier ${TIER:-quick} --seed ${SEED:-1} 2>&1); rc=$?
    out="$out | $c rc=$rc $(echo "$r" | grep -c '^VIOLATION') $(echo "$r" | grep -o '^   \[[^]]*\] x[0-9]*' | head -${KEYS:-3} | tr '\n' ' ')"
  done
  [ $d0 -ne 0 ] && tail -3 "$s/d0"
  [ $d1 -eq 0 ] && echo "$id: demo does not fail: $(tail -3 $s/d1)"
  echo "$out"; rm -rf "$s"
}
export -f one; export here NOTEST CHECKS TIER SEED KEYS
printf '%s\n' "$@" | xargs -P ${JOBS:-2} -I{} bash -c 'one {}'
