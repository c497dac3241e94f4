#!/bin/bash
# catch.sh ID [PROP...]: runs checks (by default that of the bug's property) against a tree with a planted bug.
# Both directories are copied to $SLOT (default /tmp/catch-0) and the copies laid over the originals in a mount
# namespace of its own, so that nothing outside sees the change.  For use by hand only.
# CLEAN=1: no bug (ID is ignored).  TIER=thorough: the other tier.  PATCH=file: that patch instead.
set -u
S=${SLOT:-/tmp/catch-0}; id=$1; shift
mkdir -p $S/verif $S/repo
rm -rf $S/repo; cp -a /repo $S/repo
(cd /verif && find . -mindepth 1 -maxdepth 1 ! -name target ! -name .git ! -name replays ! -name evidence -print0 | xargs -0 -I{} cp -a {} $S/verif/ )
mkdir -p $S/verif/target $S/verif/evidence $S/verif/replays
[ -n "${CLEAN:-}" ] || git -C $S/repo apply ${PATCH:-/verif/seeded/$id/patch.diff} || exit 2
props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
find $S/repo/src -name '*.rs' -exec touch {} +
export S id props
exec unshare -m bash -c '
mount --bind $S/repo /repo && mount --bind $S/verif /verif || exit 2
cd /verif
for p in $props; do
  s=$(date +%s); out=$(python3 check.py $p --tier ${TIER:-quick} 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 -A1 VIOLATION | tr "\n" " " | cut -c1-${W:-260})"
  [ $rc -gt 1 ] && echo "$out" | grep -v warning | tail -6 | cut -c1-300
done
true'
