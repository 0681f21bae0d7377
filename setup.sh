#!/bin/bash
# Builds both variants once, which fills the compiler cache and fails early.
here="$(cd "$(dirname "$0")" && pwd)"
work="$here/.build/setup-$$"
mkdir -p "$work" || exit 1
trap 'rm -rf "$work"' EXIT
bash "$here/build.sh" "$work/plain" plain && bash "$here/build.sh" "$work/race" race
