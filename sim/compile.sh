#!/bin/bash
# compile.sh OUT VARIANT GROUP COMPILER FLAGS...   one group of calls for one variant; where a function no longer
# compiles for some argument types, those calls alone are left out (the errors name their lines)
S=$(cd "$(dirname "$0")" && pwd); O=$1 v=$2 g=$3; shift 3
"$@" -DGROUP=$g -c $S/ops_group.cpp -o $O/$v.$g.o >$O/$v.$g.log 2>&1 && ok=1
if [ -z "$ok" ]; then
  l=$O/$v.$g.list; { sed -n '/^#define [FUI][12](/p' $S/ops_group.cpp; cat $S/ops_list.inc; } >$l.in
  g++ -E -P -x c++ -DGROUP=$g $l.in 2>/dev/null | sed 's/) *O\([123]\)(/)\nO\1(/g' | grep '^ *O[123](' >$l
  for i in 1 2 3 4 5 6 7 8; do
    "$@" -DGROUP=$g -DOPS_LIST="\"$l\"" -c $S/ops_group.cpp -o $O/$v.$g.o >$O/$v.$g.log 2>&1 && { ok=1; break; }
    n=$(grep -o "$v\.$g\.list:[0-9]*:" $O/$v.$g.log | cut -d: -f2 | sort -un); [ -n "$n" ] || break
    for k in $n; do sed -n "${k}p" $l >>$O/left_out; sed -i "${k}s/.*//" $l; done
  done
fi
[ -n "$ok" ] && bash $S/moveinit.sh $O/$v.$g.o $g >>$O/$v.$g.log 2>&1 || touch $O/$v.fail
