#!/bin/bash
# nothing is prebuilt: every check compiles its harness from /repo's current tree.
set -e
cd "$(dirname "$0")"
command -v python3 g++-13 clang++-18 >/dev/null
mkdir -p build evidence
