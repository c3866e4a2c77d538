#!/bin/bash
# Cross-validates the reference interpreter against V8: tools/xval.sh [SEED [CASES per profile]]
# memory.grow of a memory without a maximum beyond 32768 pages is the one known difference (a limit of pwart the model follows).
cd "$(dirname "$0")/.." && g++ -std=c++17 -O1 -w -I/repo/include engine/{xval,gen,interp,special,profiles,wasm}.cc -o /tmp/xval || exit 3
for p in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C17; do echo "== $p"; /tmp/xval $p ${1:-1} ${2:-4000} | node --experimental-wasm-multi-memory tools/xval.js; done
