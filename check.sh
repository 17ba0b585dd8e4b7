#!/bin/bash
# Usage: check.sh ID            run the check of one property (tier and seed from VERIF_TIER, VERIF_SEED)
#        check.sh replay FILE   re-run one recorded case
#        check.sh setup         build everything once
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
if [ -x /opt/veriftools/go1.27.3/bin/go ]; then PATH=/opt/veriftools/go1.27.3/bin:$PATH; fi
export PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
B=$VERIF_DIR/.build
mkdir -p "$B" || exit 3
export VERIF_BIN=$B
plain() { (cd harness && CGO_ENABLED=0 go build -o "$B/harness" .); }
race() { (cd harness && CGO_ENABLED=1 go build -race -o "$B/harness-race" .); }
jpath() { (cd harness && CGO_ENABLED=0 go build -o "$B/jpath" github.com/forsyth/jsonpath/cmd/jpath); }
id=$1
[ "$id" = replay ] && id=$(sed -n 's/.*"property": "\([^"]*\)".*/\1/p' "$2" | head -1)
case $id in
setup) plain && race && jpath; exit $? ;;
C14) race || { echo "build failed"; exit 3; }; H=$B/harness-race ;;
C19|C20) plain && jpath || { echo "build failed"; exit 3; }; H=$B/harness ;;
*) plain || { echo "build failed"; exit 3; }; H=$B/harness ;;
esac
if [ "$1" = replay ]; then exec "$H" replay "$2"; fi
exec "$H" check "$id"
