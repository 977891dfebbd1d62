#!/bin/bash
# dev helper: build.sh OUTDIR (check.py has its own, equivalent, build)
set -e
OUT=${1:-/tmp/w}; cd "$(dirname "$0")"
B="-std=c++14 ${OPT:--O0} -w -fsanitize=address -I/repo/include"
C="-fsanitize-coverage=trace-pc-guard"
W="-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=posix_memalign,--wrap=strdup"
for f in simcore simalloc rc damage hist hist_shared hist_unsafe hist_skinny hist_sim; do
  [ -n "$ONLY" ] && ! echo " $ONLY " | grep -q " $f " && continue
  case $f in simcore|simalloc|rc|damage) clang++ $B -O1 -c $f.cc -o $OUT/$f.o & ;; *) clang++ $B $C -c $f.cc -o $OUT/$f.o & ;; esac
done; wait
cd $OUT; clang++ $B $C $W hist.o hist_shared.o hist_unsafe.o hist_skinny.o hist_sim.o rc.o damage.o simalloc.o simcore.o -l:libyaml.a -o hist
