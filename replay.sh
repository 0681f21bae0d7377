#!/bin/bash
# replay.sh FILE: rebuild from /repo's working tree and execute a replay file.
# Exit 1 and a VIOLATION line when the violation is reproduced, 0 when not.
here="$(cd "$(dirname "$0")" && pwd)"
file="$(realpath "$1")" || exit 3
id="$(sed -n 's/^ "property": "\(C[0-9]*\)".*/\1/p' "$file" | head -1)"
[ -n "$id" ] || { echo "no property in $file" >&2; exit 3; }
work="$here/.build/replay-$$"
mkdir -p "$work" || exit 3
trap 'rm -rf "$work"' EXIT
mode=plain
[ "$id" = C04 ] && mode=race
bash "$here/build.sh" "$work" "$mode" || exit 3
SIM_RACE_LOG="$work/race" GORACE="log_path=$work/race halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=2" \
  "$work/harness" replay -meta "$work/simgen.json" "$file"
