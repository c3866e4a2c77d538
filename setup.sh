#!/bin/bash
# Checks build what they need themselves from /repo's working tree; this only verifies that the tools are there.
set -e
for t in gcc g++ clang python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p "$(dirname "$0")/evidence" "$(dirname "$0")/.build"
