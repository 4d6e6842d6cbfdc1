#!/bin/bash
# Checks that the compilers the analyses need are there. Every check builds what
# it needs (analysis engine, LLVM IR of the current sources) when it is missing.
set -e
for t in clang++ g++ python3 bison flex llvm-config-18; do command -v $t >/dev/null || echo "missing $t"; done
exit 0
