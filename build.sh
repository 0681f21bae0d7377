#!/bin/bash
# build.sh OUTDIR [race]: instrument /repo's working tree and build the harness.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
out="$1"; mode="${2:-plain}"
repo="${VERIF_REPO:-/repo}"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
export GOCACHE="${GOCACHE:-$HOME/.cache/go-build}"
export PATH="/usr/local/go/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
mkdir -p "$out" || exit 3
(cd "$here/simgen" && go build -o "$out/simgen" .) || { echo "build: simgen failed" >&2; exit 3; }
flags=()
[ "$mode" = race ] && flags=(-race)
for level in 0 1 2; do
  src="$out/src$level"
  mkdir -p "$src/internal/zzsim" "$src/zzharness" || exit 3
  "$out/simgen" -repo "$repo" -out "$src" -level "$level" || { echo "build: instrumentation failed" >&2; exit 3; }
  mod="$(sed -n 's/^module[[:space:]]*//p' "$src/go.mod" | head -1)"
  for d in simrt simsync simatomic simrand simrandv2 simcrand simmaphash; do
    mkdir -p "$src/internal/zzsim/$d"
    for f in "$here/rt/$d"/*.go; do
      sed -e "s#SIMROOT#$mod/internal/zzsim#g" "$f" > "$src/internal/zzsim/$d/$(basename "$f")"
    done
  done
  for f in "$here/harness"/*.go; do
    sed -e "s#SIMROOT#$mod/internal/zzsim#g" -e "s#\"MODROOT\"#\"$mod\"#g" -e "s#MODNAME#$mod#g" "$f" > "$src/zzharness/$(basename "$f")"
  done
  if (cd "$src" && go build -trimpath "${flags[@]}" -o "$out/harness" ./zzharness) 2> "$out/build.log"; then
    cp "$src/simgen.json" "$out/simgen.json"
    exit 0
  fi
  cat "$out/build.log" >&2
done
echo "build: no instrumentation level builds" >&2
exit 3
