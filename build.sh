#!/bin/bash
# Builds the simulator around the sources in /repo's working tree. Everything goes to /verif/build (ignored by git).
# usage: build.sh [variant...]    variants: plain asan norl
here=$(cd "$(dirname "$0")" && pwd)
repo=${VP_REPO:-/repo}
B=$here/build
mkdir -p "$B" || exit 2
exec 9>"$B/.lock"
flock 9
variants=${*:-plain asan norl}
J=$(nproc)
# Redirect everything the program learns about its surroundings to the simulator
SYMS="main=ccalc_main"
for s in malloc calloc realloc reallocarray free strdup strndup asprintf vasprintf getline getdelim fgetc getc getc_unlocked fgetc_unlocked getchar getchar_unlocked fgets fgets_unlocked ungetc fopen fclose readline add_history rl_clear_history rl_bind_key rl_insert \
         isatty time gettimeofday clock_gettime clock rand srand random srandom rand_r drand48 system popen remove unlink rename freopen exit _exit _Exit quick_exit \
         write read open open64 close fdopen fileno dprintf vdprintf access stat stat64 fstat fstat64 poll select sleep usleep nanosleep getenv secure_getenv getpid getppid getuid getcwd realpath \
         fopen64 openat read_history write_history append_history rl_read_init_file; do
    SYMS="$SYMS $s=sim_$s"
done
SYMS="$SYMS __getdelim=sim_getdelim_alias"
ARGS=""
for s in $SYMS; do ARGS="$ARGS --redefine-sym $s"; done

# Simulator itself
mkdir -p "$B/sim"
: > "$B/cmds"
for f in seam core model gen checks main; do
    o=$B/sim/$f.o
    newest=$(ls -t "$here"/sim/*.h "$here/sim/$f.cpp" "$here/build.sh" | head -1)
    if [ ! -f "$o" ] || [ "$newest" -nt "$o" ]; then
        echo "g++ -std=c++17 -O1 -g0 -Wall -Wextra -c '$here/sim/$f.cpp' -o '$o'" >> "$B/cmds"
    fi
done
# Program under test: always compiled anew
INC=""
for d in $(find "$repo/src" -type d); do INC="$INC -I$d"; done
for v in $variants; do
    case $v in
        plain) fl="-O0 -g -DUSE_READLINE" ;;
        asan)  fl="-O1 -g -fsanitize=address -fno-omit-frame-pointer -fno-common -DUSE_READLINE" ;;
        norl)  fl="-O1 -g -fsanitize=address -fno-omit-frame-pointer -fno-common" ;;
        *) echo "unknown variant $v"; exit 2 ;;
    esac
    rm -rf "$B/obj-$v"
    mkdir -p "$B/obj-$v"
    echo "g++ -std=c++17 -O1 -DVARIANT='\"$v\"' -c '$here/sim/variant.cpp' -o '$B/sim/variant-$v.o'" >> "$B/cmds"
    for f in $(cd "$repo/src" && find . -name '*.c' | sort); do
        o="$B/obj-$v/$(echo "$f" | sed 's,^\./,,; s,/,__,g').o"
        echo "gcc $INC -std=c99 -w -U_FORTIFY_SOURCE -fno-builtin -fsanitize-coverage=trace-pc '-DINSTALL_PATH=\"/sim/etc\"' $fl -c '$repo/src/$f' -o '$o' && objcopy $ARGS '$o'" >> "$B/cmds"
    done
done
tr '\n' '\0' < "$B/cmds" | xargs -0 -P "$J" -I{} bash -c '{} || exit 255' || { echo "build failed"; exit 2; }
link() {
    v=$1
    case $v in plain) fl="" ;; *) fl="-fsanitize=address" ;; esac
    g++ $fl -o "$B/sim-$v.tmp" "$B"/sim/{seam,core,model,gen,checks,main}.o "$B/sim/variant-$v.o" "$B/obj-$v"/*.o -lreadline -lm || return 1
    mv "$B/sim-$v.tmp" "$B/sim-$v"
}
rc=0
pids=""
for v in $variants; do link "$v" & pids="$pids $!"; done
for p in $pids; do wait "$p" || rc=2; done
exit $rc
