#!/bin/bash
# run.sh SET [IDs]: applies the behaviour-preserving edits of SET to a scratch
# clone, builds it and runs its tests (unless NOTEST is set), then the quick
# checks, which all have to stay quiet.
S=$1; shift
T=/tmp/refactortree; H=$(dirname "$(readlink -f "$0")"); V=$H/../..
[ -d $T ] || { git clone -q /repo $T && cp -a /tmp/seedtree/_b $T/_b 2>/dev/null; }
[ -d /tmp/seedtree/_b ] && T=/tmp/seedtree
git -C $T checkout -q -- . ; git -C $T fetch -q /repo HEAD; git -C $T checkout -q FETCH_HEAD
python3 $H/apply.py $T $S || exit 1
if [ -z "$NOTEST" ]; then
  ninja -C $T/_b > /tmp/refactor.log 2>&1 || { grep -m5 error /tmp/refactor.log; exit 1; }
  TEST_SRCDIR=/ TEST_WORKSPACE=repo ctest --test-dir $T/_b -j8 2>&1 | tail -3
fi
cd $V
for i in ${@:-$(python3 -c "import checks;print(*checks.CHECKS)")}; do
  VERIF_REPO=$T timeout 900 python3 run_check.py $i --quick > /tmp/refactor.out 2>&1; r=$?
  [ $r = 0 ] && echo -n "$i ok; " || { echo; echo "$i rc $r"; tail -5 /tmp/refactor.out | cut -c1-600; }
done; echo
git -C $T checkout -q -- .
