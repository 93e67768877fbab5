#!/bin/bash
# seedtest.sh ID [PROP] [extra pssim args]: runs a check against a scratch copy of /repo with seeded/ID applied.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
patch=$here/seeded/$id/patch.diff
[ -f "$patch" ] || patch=$id
prop=${1:-$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")}
shift || true
slot=${SLOT:-0}
w=/tmp/seedtest.$slot
mkdir -p $w
[ -d $w/repo ] || git clone -q /repo $w/repo
git -C $w/repo fetch -q origin && git -C $w/repo reset -q --hard origin/HEAD
git -C $w/repo apply "$patch" || { echo "patch does not apply"; exit 3; }
rsync -a --exclude 'target*' --exclude 'build*.log' "$here/sim/" $w/sim/ 2>/dev/null || { mkdir -p $w/sim; (cd $here/sim && tar cf - --exclude 'target*' .) | (cd $w/sim && tar xf -); }
sed -i "s#path = \"/repo\"#path = \"$w/repo\"#" $w/sim/Cargo.toml
(cd $w/sim && cargo build --release --offline >$w/build.log 2>&1) || { tail -30 $w/build.log; exit 3; }
mkdir -p $w/replays
$w/sim/target/release/pssim check --property $prop --tier quick --seed ${VERIF_SEED:-1} --replays $w/replays --known $here/known-findings.txt --evidence $w/ev.json "$@" 2>$w/err.log | cut -c1-400 | tail -${TAIL:-12}
echo "seed $id $prop: exit ${PIPESTATUS[0]}"
