#!/bin/bash
# Builds the simulator from /repo's working tree into $1 (default /verif/build).
# usage: build.sh [BUILD_DIR]
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${SKULL_REPO:-/repo}
B=${1:-$here/build}
mkdir -p "$B/obj" "$B/simobj" "$B/gen/skull" || exit 2
LLVM_CONFIG=llvm-config-19
command -v $LLVM_CONFIG >/dev/null || LLVM_CONFIG=llvm-config
LINC=$($LLVM_CONFIG --includedir)
SYMS="main=skull_main malloc=sim_malloc calloc=sim_calloc realloc=sim_realloc free=sim_free strdup=sim_strdup strndup=sim_strndup asprintf=sim_asprintf vasprintf=sim_vasprintf reallocarray=sim_reallocarray aligned_alloc=sim_aligned_alloc posix_memalign=sim_posix_memalign time=sim_time clock_gettime=sim_clock_gettime gettimeofday=sim_gettimeofday clock=sim_clock getenv=sim_getenv secure_getenv=sim_secure_getenv rand=sim_rand random=sim_random lrand48=sim_lrand48 drand48=sim_drand48"
RED=""; for s in $SYMS; do RED="$RED --redefine-sym $s"; done
(cd "$repo" && xxd -i skull/shim.ll) | sed -e 's/skull_shim_ll/LL_SHIM/' -e 's/unsigned char/char/' > "$B/gen/skull/shim.h" || exit 2
CF="-std=c18 -g1 -I$B/gen -I$repo -isystem $LINC -D_GNU_SOURCE -DSKULL_VERSION=\"sim\" -fno-pie -fno-stack-protector -w"
rm -f "$B"/obj/*.o "$B/failed"
export B CF RED repo here LINC
one() {
	f=$1; o="$B/obj/$(echo "$f" | tr '/' '_').o"
	(cd "$repo" && gcc $CF -c "$f" -o "$o") && objcopy $RED "$o" || { echo "$f" >> "$B/failed"; return 1; }
}
export -f one
(cd "$repo" && find skull -name '*.c' | sort) > "$B/sources"
xargs -a "$B/sources" -P 8 -I{} bash -c 'one {}' 2> "$B/cc.log"
[ -e "$B/failed" ] && { echo "compiler sources do not build:"; head -5 "$B/cc.log"; exit 2; }
# the simulator itself (independent of /repo)
sim() {
	f=$1; o="$B/simobj/$f.o"; sum=$(cat "$here/sim/$f" "$here"/sim/*.h | sha256sum)
	[ -e "$o" ] && [ "$(cat "$o.sum" 2>/dev/null)" = "$sum" ] && return 0
	case $f in
	*.cc) g++ -std=c++17 -O1 -g1 -D_GNU_SOURCE -fno-pie -fno-stack-protector -U_FORTIFY_SOURCE -Wall -Wextra -c "$here/sim/$f" -o "$o" ;;
	*.c) gcc -O1 -g1 -D_GNU_SOURCE -fno-pie -isystem $LINC -c "$here/sim/$f" -o "$o" ;;
	esac && echo "$sum" > "$o.sum"
}
export -f sim
printf '%s\n' gen.cc judge.cc driver.cc run.cc kern.cc scen.cc alloc.cc stub.cc warm.c | xargs -P 8 -I{} bash -c 'sim {}' || { echo "simulator does not build"; exit 2; }
H="$B/obj/zz_host.o"
if ! gcc $CF -O1 -c "$here/sim/host.c" -o "$H" 2>> "$B/cc.log"; then
	# the library entry is gone or has changed: no embedding scenarios
	gcc -O1 -fno-pie -c -x c - -o "$H" <<< 'int host_main(int c) { (void)c; return 77; }' || exit 2
	echo "note: no library entry" ; touch "$B/nohost"
else rm -f "$B/nohost"; fi
g++ -no-pie -o "$B/skullsim.new" "$B"/obj/*.o "$B"/simobj/*.o -L"$($LLVM_CONFIG --libdir)" -lLLVM-19 -lm 2> "$B/ld.log" || { head -20 "$B/ld.log"; echo "link failed"; exit 2; }
mv "$B/skullsim.new" "$B/skullsim"
