#!/bin/bash
# seed.sh ID PROPERTY "needs" "what it breaks"  < python edit script working on cwd (a scratch copy of /repo)
# The demo test must already be at /verif/seeded/ID/demo_test.go (package scte35, TestDemo*), or demo.sh be there.
set -e
id=$1 prop=$2 needs=$3 breaks=$4
d=/verif/seeded/$id; mkdir -p "$d"
t=$(mktemp -d /tmp/seed.XXXXXX)
trap 'rm -rf "$t"' EXIT
cp -a /repo "$t/repo"
cd "$t/repo"; git checkout -q -- . 
python3 -
git diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
python3 - "$d/meta.json" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1],'w'),indent=1)
P
if [ ! -e "$d/demo.sh" ]; then cat > "$d/demo.sh" <<'D'
#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/pkg/scte35/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
go test -vet=off -count=1 -overlay "$t/overlay.json" -run 'TestDemo' ./pkg/scte35
D
fi
bash /verif/tools/seedtest.sh "$id"
