#!/bin/bash
# selftest.sh [RUNS] [SEED]: execute the same runs in several processes with
# several worker counts and compare their digests. Exit 0: all identical.
here="$(cd "$(dirname "$0")" && pwd)"
work="$here/.build/selftest-$$"
mkdir -p "$work" || exit 3
trap 'rm -rf "$work"' EXIT
bash "$here/build.sh" "$work" plain || exit 3
"$work/harness" selftest -meta "$work/simgen.json" -work "$work" -n "${1:-200}" -seed "${2:-1}" || exit 3
