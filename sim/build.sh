#!/bin/bash
# build.sh OUTDIR VARIANT...   builds simulator executables from /repo's working tree
set -u
S=$(cd "$(dirname "$0")" && pwd); O=$1; shift; R=${GCEM_REPO:-/repo}
mkdir -p "$O"; rm -f "$O"/*.fail "$O"/sim-*
flags() { case $1 in
 gcc11O0)   echo "g++ -std=c++11 -O0 -fsanitize-coverage=trace-pc,trace-cmp";;
 gcc11O2)   echo "g++ -std=c++11 -O2 -fsanitize-coverage=trace-pc,trace-cmp";;
 gcc17O0)   echo "g++ -std=c++17 -O0 -fsanitize-coverage=trace-pc,trace-cmp";;
 gcc17O2)   echo "g++ -std=c++17 -O2 -fsanitize-coverage=trace-pc,trace-cmp";;
 clang14O1) echo "clang++ -std=c++14 -O1 -fsanitize-coverage=edge,trace-pc -Wno-invalid-constexpr";;
 clang20O2) echo "clang++ -std=c++20 -O2 -fsanitize-coverage=edge,trace-pc -Wno-invalid-constexpr";;
 esac; }
jobs_file=$O/jobs; : >"$jobs_file"
echo "g++ -std=c++17 -O2 -c $S/rt.cpp -o $O/rt.o >$O/rt.log 2>&1 || touch $O/rt.fail" >>"$jobs_file"
echo "g++ -std=c++17 -O2 -c $S/sim.cpp -o $O/sim.o >$O/simo.log 2>&1 || touch $O/sim.fail" >>"$jobs_file"
for v in "$@"; do for g in 0 1 2 3 4 5 6 7; do
  echo "bash $S/compile.sh $O $v $g $(flags $v) -w -fsanitize=thread -frounding-math -ffp-contract=off -I$R/include -I$S" >>"$jobs_file"
done; done
xargs -P "$(nproc)" -d '\n' -I{} bash -c '{}' <"$jobs_file"
if [ -e $O/rt.fail ] || [ -e $O/sim.fail ]; then cat $O/rt.log $O/simo.log >&2; exit 2; fi
for v in "$@"; do
  [ -e $O/$v.fail ] && { echo "variant $v does not build" >&2; continue; }
  g++ -no-pie -Wl,-z,now -o $O/sim-$v $O/sim.o $O/rt.o $O/$v.[0-7].o -ldl -lpthread >$O/$v.link.log 2>&1 || { cat $O/$v.link.log >&2; echo "variant $v does not link" >&2; }
done
exit 0
