#!/bin/sh
# nothing to build ahead of time: every check compiles what it needs from /repo's current tree
cd "$(dirname "$0")" && mkdir -p evidence/replay && python3-vt -c 'import z3, cvc5' && test -x /usr/lib/llvm-18/bin/clang++
