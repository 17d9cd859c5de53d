#!/bin/bash
# builds the repository (VERIF_REPO, else /repo) and runs the stable tests; prints OK or what is missing
O=$(mktemp); L=$(mktemp)
. /opt/vp/env.sh
if [ -n "$VERIF_REPO" ] && [ "$VERIF_REPO" != /repo ]; then cd "$VERIF_REPO" || exit 1; fi
go build $PKGS || { echo BUILD-FAILED; rm -f $O $L; exit 1; }
go test -json -vet=off -count=1 -timeout 10m $PKGS > $L 2>/dev/null
python3 /opt/vp/results.py "$O" "gojson:$L" >/dev/null
python3 - $O <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def passed(d):
    for k in ('passed','pass','stable'):
        if k in d: return set(map(str,d[k]))
    raise SystemExit(list(d))
m=passed(b)-passed(o)
print('STABLE OK' if not m else 'FAILING: %s'%sorted(m))
sys.exit(1 if m else 0)
PY
rc=$?; rm -f $O $L; exit $rc
