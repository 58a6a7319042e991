#!/bin/bash
# moveinit.sh OBJ G: the static initialisers and finalisers of an object move to sections that
# nothing runs by itself, so that the simulator decides when they run; copies and fills become visible to it
a="--redefine-sym memcpy=sim_memcpy --redefine-sym memmove=sim_memmove --redefine-sym memset=sim_memset --redefine-sym memcmp=sim_memcmp"
for f in clearexcept raiseexcept testexcept setround getround getenv setenv updateenv holdexcept enableexcept disableexcept getexcept setexcept getmode setmode getexceptflag setexceptflag testexceptflag; do a="$a --redefine-sym fe$f=sim_fe$f"; done
for s in $(objdump -h "$1" | awk '$2 ~ /^\.(init_array|ctors)/ {print $2}' | sort -u); do a="$a --rename-section $s=gceminit$2"; done
for s in $(objdump -h "$1" | awk '$2 ~ /^\.(fini_array|dtors)/ {print $2}' | sort -u); do a="$a --rename-section $s=gcemfini$2"; done
objcopy $a "$1"
