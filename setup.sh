#!/bin/sh
# nothing to build ahead of time: every check extracts and compiles what it needs from /repo's current tree
set -e
cd "$(dirname "$0")"
mkdir -p build evidence replay
python3-vt -c "import z3, sys; print('z3', z3.get_version_string())"
clang++ --version | head -1
opt --version | sed -n 2p
cvc5 --version | head -1
