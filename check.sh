#!/bin/bash
# check.sh PROPERTY: rebuilds the simulator from /repo's working tree and searches for violations.
# VERIF_SEED selects the seeds, VERIF_TIER (quick or thorough) the amount of search.
V="$(cd "$(dirname "$0")" && pwd)"
P="$1"
TIER="${VERIF_TIER:-quick}"
[ "$2" = thorough ] && TIER=thorough
case "$TIER" in
thorough) BUDGET=600 ;;
*) TIER=quick; BUDGET=45 ;;
esac
bin=sim; arg=
if [ "$P" = C13 ]; then bin=simrace; arg=race; fi
mkdir -p "$V/build"
if ! bash "$V/build.sh" $arg >"$V/build/build.log" 2>&1; then
  cat "$V/build/build.log"
  echo "check: the simulator does not build from this tree"
  exit 2
fi
exec "$V/build/bin/$bin" check -prop "$P" -seed "${VERIF_SEED:-1}" -tier "$TIER" -budget "$BUDGET"
