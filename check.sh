#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's working tree.
# Exit 0: held. Exit 1 and a VIOLATION line: broken. Anything else: trouble.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
seed="${VERIF_SEED:-1}"
case "$id" in C[0-9][0-9]) ;; *) echo "usage: check.sh PROPERTY [tier]" >&2; exit 3 ;; esac
work="$here/.build/$id-$$"
mkdir -p "$work" || exit 3
trap 'rm -rf "$work"' EXIT
mode=plain
[ "$id" = C04 ] && mode=race
bash "$here/build.sh" "$work" "$mode" || exit 3
"$work/harness" check -prop "$id" -seed "$seed" -tier "$tier" \
  -evidence "$here/evidence/$id.json" -replays "$here/evidence/replays" \
  -meta "$work/simgen.json" -work "$work" -known "$here/known_findings.txt" \
  ${VERIF_JOBS:+-jobs "$VERIF_JOBS"} ${VERIF_RUNS:+-runs "$VERIF_RUNS"}
rc=$?
exit $rc
