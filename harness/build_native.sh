#!/bin/bash
# build_native.sh OUT REPO HARNESS: the thread library as it is, without instrumentation
set -e
OUT=$1; REPO=$2; SRC=$3
HERE=$(dirname "$0")
W=$OUT.d; mkdir -p $W
clang++-18 -w -nostdinc++ -std=c++11 -O2 -DNDEBUG -I$REPO/include -c $REPO/src/nanothread.cc -o $W/sut.o
g++-13 -std=gnu++17 -O2 -w -DNDEBUG -I$HERE -I$REPO/src $HERE/$SRC $W/sut.o -o $OUT -pthread
