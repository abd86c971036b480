#!/bin/bash
# bug.sh confirm ID   : scratch copy, apply, build, stable tests, demo before/after
# bug.sh check ID PROP...: apply to /repo, run the checks, undo
R=$(cd "$(dirname "$0")/.." && pwd); cmd=$1; id=$2; shift 2
case $cmd in
confirm)
  B=$(mktemp -d /tmp/sbXXXX); cp -a /repo $B/repo; mkdir $B/vp
  for f in build.sh test.sh; do sed "s#/repo#$B/repo#g; s#/opt/vp/build.sh#$B/vp/build.sh#g" /opt/vp/$f > $B/vp/$f; done
  cd $B/repo; git checkout -q -- .
  bash $B/vp/build.sh >$B/log0 2>&1 || { echo base build failed; tail $B/log0; }
  bash $R/seeded/$id/demo.sh >$B/d0 2>&1; d0=$?
  git apply $R/seeded/$id/patch.diff || echo APPLY FAILED
  bash $B/vp/test.sh $B/out.json >$B/log1 2>&1
  t=$(python3 -c "import json;d=json.load(open('$B/out.json'));print(len(d['passed']),len(d['failed']))")
  bash $R/seeded/$id/demo.sh >$B/d1 2>&1; d1=$?
  echo "$id: demo base=$d0 patched=$d1 tests(pass fail)=$t"; [ $d0 = 0 ] || tail -5 $B/d0; [ $d1 != 0 ] || tail -3 $B/d1; tail -2 $B/d1
  cd /; rm -rf "$B";;
check)
  B=$(mktemp -d /tmp/sbXXXX); git clone -q /repo $B/repo; git -C $B/repo apply $R/seeded/$id/patch.diff || exit 3
  for p in "$@"; do (cd $R; ZV_REPO=$B/repo python3-vt check.py $p); echo "$id $p rc=$?"; done
  rm -rf "$B";;
esac
