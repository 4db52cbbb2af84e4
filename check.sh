#!/bin/bash
# check.sh ID quick|thorough: builds libcyaml from /repo's working tree together with the harness of one
# property and explores it.  Exit 0: held on everything explored; 1: VIOLATION; 2: could not build or run.
set -u
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
START=$(date +%s.%N)
umask 022
mkdir -p "$HERE/build" "$HERE/evidence" "$HERE/replays"
B=$(mktemp -d "$HERE/build/$ID.XXXXXX") || exit 2
[ -n "${MC_KEEP:-}" ] || trap 'rm -rf "$B"' EXIT
exec 3>&2
LIBDEF="-DVERSION_MAJOR=2 -DVERSION_MINOR=0 -DVERSION_PATCH=0 -DVERSION_DEVEL=1"
INC="-I$REPO/include -I$REPO/src"
SAN="-fsanitize=address,bounds,shift,signed-integer-overflow,integer-divide-by-zero,bool,unreachable -fno-sanitize-recover=all -fno-omit-frame-pointer"
CXX="g++ -std=c++17 -O2 -g1 -Wall -Wno-format-truncation -I$REPO/include -I$HERE/harness"
WRAP="-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup,--wrap=fopen,--wrap=fclose"
RN="--redefine-sym malloc=cyd_malloc --redefine-sym calloc=cyd_calloc --redefine-sym realloc=cyd_realloc --redefine-sym free=cyd_free --redefine-sym strdup=cyd_strdup --redefine-sym strndup=cyd_strndup"
# The library's writable data gets sections of its own, so that every execution can start from its initial state.
RN="$RN --rename-section .data=cyd_data --rename-section .data.rel.local=cyd_data --rename-section .data.rel=cyd_data --rename-section .bss=cyd_bss"
P="$HERE/harness/props/$ID.cpp"
[ -f "$P" ] || { echo "no check for $ID" >&2; exit 2; }
LEVEL=$(sed -n 's,^// LEVEL: *,,p' "$P")
LIBMODE=$(sed -n 's,^// LIB: *,,p' "$P")      # asan (default) or tsan
EXTRA=$(sed -n 's,^// WITH: *,,p' "$P")       # further sources
GEN=($(sed -n 's,^// GEN: *,,p' "$P"))        # generator of C sources, and how many it makes
pids=()
run() { local e; e=$(mktemp "$B/err.XXXXXX"); "$@" 2>"$e" || { cat "$e" >&3; exit 1; }; }
LINK="-fsanitize=address,undefined"
for f in "$REPO"/src/*.c; do
	o="$B/lib_$(basename "$f" .c).o"
	if [ "$LIBMODE" = tsan ]; then
		# C library functions the instrumentation does not see (harness/tsan.cpp stands in for them).
		RT=; for n in snprintf sprintf vsnprintf strcpy strncpy strcat strncat memcpy memmove memset strlen strcmp strncmp strtok setlocale pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once; do RT="$RT --redefine-sym $n=cyt_$n"; done
		( run clang -std=c11 -O1 -g $LIBDEF $INC -fsanitize=thread -c "$f" -fno-builtin -o "$o" && run objcopy $RN $RT "$o" ) & pids+=($!)
	else
		( run gcc -std=c11 -O1 -g $LIBDEF $INC $SAN -c "$f" -o "$o" && run objcopy $RN "$o" ) & pids+=($!)
	fi
done
[ "$LIBMODE" = tsan ] && LINK=""
for f in "$HERE"/harness/*.cpp "$P"; do
	( run $CXX -c "$f" -o "$B/h_$(basename "$f" .cpp).o" ) & pids+=($!)
done
for f in $EXTRA; do
	case $f in
	*.c) ( run gcc -std=c11 -O1 -g $INC -c "$HERE/harness/props/$f" -o "$B/x_$f.o" ) & pids+=($!) ;;
	*) ( run $CXX -c "$HERE/harness/props/$f" -o "$B/x_$f.o" ) & pids+=($!) ;;
	esac
done
for ((i = 0; i < ${GEN[1]:-0}; i++)); do
	( python3 "$HERE/harness/props/${GEN[0]}" $i ${GEN[1]} >"$B/gen_$i.c" 2>"$B/gen_$i.err" || { cat "$B/gen_$i.err" >&3; exit 1; }
	  run gcc -std=c11 -O0 -g1 -I"$REPO/include" -I"$HERE/harness" -c "$B/gen_$i.c" -o "$B/g_$i.o" ) & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p" || { echo "build failed" >&2; exit 2; }; done
( run g++ $LINK $WRAP "$B"/*.o /usr/lib/x86_64-linux-gnu/libyaml.a -o "$B/mc" ) || { echo "link failed" >&2; exit 2; }
mkdir "$B/scratch"
NOW=$(date +%s.%N)
MC_SPENT=$(awk "BEGIN{print $NOW-$START}") MC_LEVEL=${LEVEL:-model_checking} \
	"$B/mc" "$TIER" "$HERE/evidence/$ID.json" "$HERE/replays" "$B/scratch"
R=$?
case $R in 0|1) exit $R ;; *) echo "harness ended with $R" >&2; exit 2 ;; esac
