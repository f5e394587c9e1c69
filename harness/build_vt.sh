#!/bin/bash
# build_vt.sh OUT DIR REPO HARNESS [flags...]: the thread library under the controlled scheduler
set -e
OUT=$1; DIR=$2; REPO=$3; SRC=$4; shift 4
HERE=$(dirname "$0")
W=$OUT.d; mkdir -p $W
# exactly the project's own way of building this file, plus instrumentation
clang++-18 -w -nostdinc++ -std=c++11 -O1 -g1 -fsanitize=thread "$@" -I$REPO/include -c $REPO/src/nanothread.cc -o $W/sut.o
nm -u $W/sut.o | awk '{print $2}' | grep -E '^(pthread_|sched_|gettimeofday$|time$|clock_|nanosleep$|usleep$|sleep$|__assert_fail$|abort$)' | sed 's/.*/& vt_&/' > $W/map
objcopy --redefine-syms=$W/map $W/sut.o $W/sut2.o
g++-13 -std=gnu++17 -O2 -g1 -w "$@" -I$HERE -I$REPO/src $HERE/$SRC $W/sut2.o -o $OUT -pthread 2> $W/err || { cat $W/err; grep -q "undefined reference to .\(vt_\|__tsan\)" $W/err && exit 99; exit 1; }
