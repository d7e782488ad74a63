#!/bin/bash
# Builds the simulator's driver and runs it: ./run.sh check ID, ./run.sh replay FILE, ...
cd "$(dirname "$0")" || exit 2
go=/opt/veriftools/go1.27.3/bin/go
[ -x "$go" ] || { echo "run.sh: $go is missing" >&2; exit 2; }
mkdir -p .work || exit 2
export GOCACHE="$PWD/.work/gocache" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS= GOWORK=off
bin=".work/vsim-$$"
(cd cmd && "$go" build -trimpath -o "../$bin" ./vsim) || exit 2
"./$bin" "$@"
rc=$?
rm -f "$PWD/$bin"
exit $rc
