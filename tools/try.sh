#!/bin/bash
# try.sh [ID ...]: runs each planted bug's property's check (or $PROP's) on a copy of the last
# commits with the bug applied. Results also in /tmp/try.out.
set -u
D=${DIR:-/tmp/try}
mkdir -p "$D"
[ -d "$D/repo" ] || git clone -q /repo "$D/repo"
git -C "$D/repo" fetch -q origin && git -C "$D/repo" reset -q --hard origin/HEAD
if [ -d "$D/verif" ]; then
  git -C "$D/verif" checkout -q -- . && git -C "$D/verif" pull -q --ff-only || exit 2
else
  git clone -q /verif "$D/verif"
fi
cd "$D/verif" || exit 2
[ -n "${WORK:-}" ] && rsync -a --exclude target --exclude .git --exclude replays --exclude evidence /verif/ "$D/verif/"
sed -i "s#\"/repo\"#\"$D/repo\"#" check sim/Cargo.toml sim/*/Cargo.toml
mkdir -p "$D/log"
for b in ${@:-$(ls /verif/seeded)}; do
  git -C "$D/repo" apply ${SEEDED:-/verif/seeded}/$b/patch.diff || { echo "$b does not apply"; continue; }
  p=${PROP:-$(python3 -c "import json;print(json.load(open('${SEEDED:-/verif/seeded}/$b/meta.json'))['property'])")}
  s=$(date +%s)
  VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 ./check $p quick > "$D/log/$b.$p.log" 2>&1; rc=$?
  git -C "$D/repo" checkout -q -- .
  echo "$b $p rc=$rc $(($(date +%s)-s))s $(grep -m1 -h VIOLATION "$D/log/$b.$p.log" | cut -c1-120)" | tee -a /tmp/try.out
done
