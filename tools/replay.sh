#!/bin/bash
# replay.sh FILE [--verbose]: re-executes a replay file in the build it was recorded with.
here=$(cd "$(dirname "$0")/.." && pwd)
file=$(realpath "$1") || exit 3
shift
what=full
grep -q '"build": "default features"' "$file" && what=default
grep -q '"build": "no features"' "$file" && what=bare
bin=$("$here/tools/build.sh" $what) || exit 3
exec "$bin" replay "$file" "$@"
