#!/bin/bash
# tools/mut.sh [-t] <patch.diff | revert:COMMIT> <property>...   run checks against a scratch copy of /repo with a change
set -u
tests=; [ "$1" = -t ] && { tests=1; shift; }
change=$1; shift
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo "$d/repo"
cd "$d/repo" || exit 3
case $change in
revert:*) git revert -n "${change#revert:}" >/dev/null 2>&1 || { echo "REVERT FAILED $change"; rm -rf "$d"; exit 3; } ;;
*) git apply "$change" || { echo "APPLY FAILED $change"; rm -rf "$d"; exit 3; } ;;
esac
if [ -n "$tests" ]; then
  (. /opt/vp/env.sh >/dev/null 2>&1; cd "$d/repo"; go vet . ./stack ./sinks/... ./runtime_metrics >/dev/null 2>&1; go test . ./stack ./sinks/... ./runtime_metrics 2>&1 | grep -v '^ok' | head -20)
fi
cd /verif
for p in "$@"; do
  t0=$(date +%s)
  out=$(VERIF_REPO="$d/repo" timeout 900 ./check "$p" 2>&1); rc=$?
  echo "[$change] $p rc=$rc $(( $(date +%s)-t0 ))s: $(echo "$out" | grep -v '^VIOLATION' | head -1 | cut -c1-250)"
done
rm -rf "$d"
