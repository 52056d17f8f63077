#!/bin/bash
# mkdemo.sh ID < test body: writes seeded/ID/demo_test.go
d=/verif/seeded/$1; mkdir -p $d
cat /verif/tools/demo_helpers.txt - > $d/demo_test.go
