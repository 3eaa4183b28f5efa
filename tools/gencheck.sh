#!/bin/bash
# Development aid: generated expectations against acorn and V8. usage: gencheck.sh N ID...
n=$1; shift
for id in "$@"; do echo "== $id"; VERIF_SEED=${SEED:-1} /verif/harness/target/release/harness dump $id $n 2>/dev/null | node --experimental-vm-modules --no-warnings --stack-size=4000 /verif/tools/acorn_check.js; done
