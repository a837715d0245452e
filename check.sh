#!/bin/bash
# check.sh Pxx [quick|thorough]: rebuilds the checker from /repo and runs one check
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here"
[ "${2:-quick}" = thorough ] && export VERIF_TIER=thorough || export VERIF_TIER=quick
mkdir -p evidence target
exec 9>target/.lock; flock 9
if ! bash ws/build.sh >target/build.log 2>&1; then
  tail -40 target/build.log
  echo "the checker does not build against /repo's working tree"
  exit 2
fi
cp -f target/release/mc "target/mc-$$"
flock -u 9
"target/mc-$$" "$1"; rc=$?
rm -f "$here/target/mc-$$"
exit $rc
