#!/bin/bash
# seedtest.sh ID: confirms a planted bug in a scratch copy
id=$1; d=/verif/seeded/$id
t=$(mktemp -d /tmp/seedt.XXXXXX); trap 'rm -rf "$t"' EXIT
cp -a /repo "$t/repo"; cd "$t/repo"; git checkout -q -- .
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
bash "$d/demo.sh" > "$t/o1" 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -5 "$t/o1"; exit 1; }
git apply "$d/patch.diff" || { echo "$id: does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
go test -vet=off -count=1 ./... > "$t/o2" 2>&1 || { echo "$id: existing tests fail"; grep -E "^(---|FAIL)" "$t/o2" | head; exit 1; }
if bash "$d/demo.sh" > "$t/o3" 2>&1; then echo "$id: demo passes with the patch"; exit 1; fi
echo "$id: ok"
