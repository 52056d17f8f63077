#!/bin/bash
# check.sh Cxx [quick|thorough]   |   check.sh replay CASE SEED   |   check.sh build
export HOME=${HOME:-/root}
export PATH=$PATH:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
verif=$(cd "$(dirname "$0")" && pwd)
bin=$verif/build/govc
if [ ! -x "$bin" ] || [ -n "$(find "$verif/govc" -name '*.go' -newer "$bin" -print -quit)" ]; then
	mkdir -p "$verif/build" 2>/dev/null
	(cd "$verif/govc" && go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin") || { echo "govc does not build"; exit 2; }
fi
case $1 in
build) exit 0 ;;
replay) exec "$bin" replay "$verif" "$2" "$3" ;;
esac
exec "$bin" check "$verif" "$1" "${2:-${VERIF_TIER:-quick}}"
