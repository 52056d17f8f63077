#!/bin/bash
# seedrun.sh [ID...]: runs each planted bug's own check against it (in place, undone straight after)
cd /verif
for id in ${@:-$(ls seeded)}; do
	p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
	git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
	bash check.sh "$p" quick > /tmp/seedrun.out 2>&1; rc=$?
	git -C /repo checkout -q -- .
	echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/seedrun.out) $(grep '^VIOLATION' /tmp/seedrun.out | head -1)"
done
