#!/bin/bash
# check.sh <property> [extra arguments of the check program]
# Builds the check from /repo's working tree and runs it. VERIF_TIER and VERIF_SEED are used.
set -u
prop="$1"; shift
here="$(cd "$(dirname "$0")" && pwd)"
tier="${VERIF_TIER:-quick}"
seed="${VERIF_SEED:-1}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off TZ=UTC GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=readonly
export HOME="${HOME:-/root}"
tmp="$(mktemp -d /tmp/verif-check-XXXXXX)" || exit 3
trap 'rm -rf "$tmp"' EXIT
race=""; israce=""
if [ "$prop" = C15 ]; then race="-race"; israce="-israce"; export CGO_ENABLED=1; fi
( cd "$here/harness" && go1.27 build $race -tags verif -o "$tmp/check" ./cmd/check ) >"$tmp/build.log" 2>&1 || {
  cat "$tmp/build.log"; echo "BUILD-FAILED property=$prop"; exit 3; }
program="$tmp/check"
if [ "$prop" = C32 ]; then
  # the program for a platform of 32 bits, which compares with the one above
  export VERIF_OTHER_PLATFORM="$tmp/check"
  if ( cd "$here/harness" && GOARCH=386 CGO_ENABLED=0 go1.27 build -tags verif -o "$tmp/check386" ./cmd/check ) >"$tmp/build386.log" 2>&1; then
    program="$tmp/check386"
  else
    export VERIF_BUILD_FAILED="$tmp/build386.log"
    set -- "$@" -suite build
  fi
fi
mkdir -p "$here/evidence" "$tmp/tmp"
export TMPDIR="$tmp/tmp"
"$program" -property "$prop" -tier "$tier" -seed "$seed" -evidence "$here/evidence" -known "$here/known_findings.txt" $israce "$@"
