#!/bin/bash
# developer helper: extract and verify; usage: vx.sh [verus args]
cd /verif && mkdir -p build && extract/target/debug/extract ${SRC:+--src $SRC} --contracts contracts --out build/vx.rs --report build/vx.json --locals contracts/locals.json && timeout 800 verus build/vx.rs --triggers-mode silent --num-threads 8 "$@" 2>&1
