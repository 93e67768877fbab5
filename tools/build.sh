#!/bin/bash
# build.sh [KIND...]: builds the simulator together with /repo's current working tree. The kinds of build: full
# (pic-scale with its nightly features), default (its default features alone), bare (none: no vector code, no colour
# spaces). Without arguments: full and default. Prints the binaries' paths, one per line.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
[ $# -gt 0 ] || set -- full default
cd "$here/sim" || exit 3
stamp=$(cksum rustc-sim.sh .cargo/config.toml)
dir_of() { [ "$1" = full ] && echo target || echo "target-$1"; }
build() {
  local dir flags
  dir=$(dir_of "$1")
  case $1 in
  full) flags= ;;
  default) flags="--no-default-features --features standard" ;;
  bare) flags=--no-default-features ;;
  *) echo "build.sh: no build called $1" >&2 && return 3 ;;
  esac
  # cargo does not notice when the wrapper changes
  if [ "$(cat "$dir/wrapper" 2>/dev/null)" != "$stamp" ]; then
    cargo clean --offline --target-dir "$dir" >/dev/null 2>&1
    mkdir -p "$dir" && printf '%s\n' "$stamp" >"$dir/wrapper"
  fi
  # shellcheck disable=SC2086
  if ! cargo build --release --offline --target-dir "$dir" $flags >"build-$1.log" 2>&1; then
    tail -40 "build-$1.log" >&2
    echo "HARNESS: the simulator does not build" >&2
    return 3
  fi
}
running=()
for kind; do
  build "$kind" &
  running+=($!)
done
for pid in "${running[@]}"; do
  wait "$pid" || exit 3
done
for kind; do
  echo "$here/sim/$(dir_of "$kind")/release/pssim"
done
