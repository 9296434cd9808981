#!/bin/sh
# Nothing is installed: checks build everything they need from /repo's tree. This only makes sure that the tools are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence _work
for t in gcc clang python3 arm-none-eabi-gcc; do command -v $t >/dev/null || { echo "missing: $t"; exit 1; }; done
python3 -c "import sys; sys.path.insert(0,'.'); sys.dont_write_bytecode=True; import vlib.props"
echo setup ok
