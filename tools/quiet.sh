#!/bin/bash
# quiet.sh PATCH [PROP ...]: runs the checks on copies of the last commits with a patch that changes no
# behaviour applied: all must stay quiet. WORK=1 takes /verif's uncommitted state.
set -u
D=${DIR:-/tmp/quiet}
mkdir -p "$D/log"
[ -d "$D/repo" ] || git clone -q /repo "$D/repo"
git -C "$D/repo" fetch -q origin && git -C "$D/repo" reset -q --hard origin/HEAD
if [ -d "$D/verif" ]; then
  git -C "$D/verif" checkout -q -- . && git -C "$D/verif" pull -q --ff-only || exit 2
else
  git clone -q /verif "$D/verif"
fi
cd "$D/verif" || exit 2
[ -n "${WORK:-}" ] && rsync -a --exclude target --exclude .git --exclude replays --exclude evidence /verif/ "$D/verif/"
sed -i "s#\"/repo\"#\"$D/repo\"#" check sim/Cargo.toml sim/*/Cargo.toml
patch=$1; shift
git -C "$D/repo" apply "$patch" || exit 2
for p in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16}; do
  s=$(date +%s)
  VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 ./check $p quick > "$D/log/$p.log" 2>&1; rc=$?
  echo "$(basename $patch) $p rc=$rc $(($(date +%s)-s))s $(grep -m1 -h -E 'VIOLATION|check:' "$D/log/$p.log" | cut -c1-120)" | tee -a /tmp/quiet.out
done
git -C "$D/repo" checkout -q -- .
