#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds against /repo's working tree, searches, writes evidence/PROPERTY.json.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
# the properties judged against a model or across policies also run in builds with fewer features
builds=(full)
case $prop in
P01 | P05 | P06 | P09 | P15) builds+=(default) ;;
esac
case $tier,$prop in
thorough,P01 | thorough,P03 | thorough,P05 | thorough,P06 | thorough,P07 | thorough,P08 | thorough,P09 | thorough,P11) builds+=(bare) ;;
esac
bins=$("$here/tools/build.sh" "${builds[@]}") || exit 3
mapfile -t bin <<<"$bins"
for b in "${bin[@]}"; do [ -x "$b" ] || exit 3; done
mkdir -p "$here/evidence" "$here/replays"
common=(--property "$prop" --tier "$tier" --seed "$seed" --replays "$here/replays" --known "$here/known-findings.txt")
"${bin[0]}" check "${common[@]}" --evidence "$here/evidence/$prop.json"
code=$?
if [ "$tier" = thorough ]; then limit=(--seconds 300); else limit=(--share 6 --seconds 40); fi
for b in "${bin[@]:1}"; do
  [ $code = 0 ] || exit $code
  "$b" check "${common[@]}" "${limit[@]}" --into "$here/evidence/$prop.json"
  code=$?
done
exit $code
