#!/bin/bash
# warms the Go build cache: builds every harness once
D="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export VERIF_DIR="$D" HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOCACHE="${GOCACHE:-/root/.cache/go-build}"
for h in $(awk '{print $2}' "$D/harness/MAP" | sort -u); do
  T=$(mktemp -d /tmp/verif.XXXXXX)
  python3 "$D/tools/build_harness.py" "${VERIF_REPO:-/repo}" "$h" "$T" || echo "note: harness $h does not build"
  rm -rf "$T"
done
exit 0
