#!/bin/bash
# usage: run.sh ID quick|thorough      decide property ID on the current working tree of /repo
#        run.sh ID replay FILE         re-run the enumeration and report only the violation recorded in FILE
# exit 0: holds on everything explored; 1: VIOLATION printed; 2: the check could not be built or gave no answer.
set -u
ID=${1:?}; shift
export VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_SEED=${VERIF_SEED:-1}
REPO=${VERIF_REPO:-/repo}
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOCACHE="${GOCACHE:-/root/.cache/go-build}"
H=$(awk -v id="$ID" '$1==id{print $2}' "$VERIF_DIR/harness/MAP")
[ -n "$H" ] || { echo "unknown property $ID"; exit 2; }
TMP=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$TMP"' EXIT
python3 "$VERIF_DIR/tools/build_harness.py" "$REPO" "$H" "$TMP" || { echo "the harness for $ID does not build against $REPO"; exit 2; }
"$TMP/h" "$ID" "$@" 2> >(tee "$TMP/err" >&2)
rc=$?
if [ $rc = 2 ] && sleep 0.3 && grep -q '^panic: ' "$TMP/err" && grep -Eq '^[A-Za-z].*[.]init([.][0-9a-z]+)*[(]|^runtime.doInit' "$TMP/err"; then
  # the code under test compiles, but panics while its packages are initialized: nothing it promises holds
  mkdir -p "$VERIF_DIR/evidence/replay"; R="$VERIF_DIR/evidence/replay/$ID-init.txt"; head -c 4000 "$TMP/err" > "$R"
  echo "VIOLATION property=$ID replay=$R"; echo "  package initialization panics: $(grep -m1 '^panic: ' "$TMP/err")"
  exit 1
fi
exit $rc
