#!/bin/bash
# Builds the checker from /repo's working tree and prints the directory holding the binaries.
# Everything is cached by content under $VC_BUILD (default /verif/build); safe to run concurrently.
set -euo pipefail
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C
unset CFLAGS CXXFLAGS CPPFLAGS LDFLAGS MAKEFLAGS || true
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VC_REPO:-/repo}
B=${VC_BUILD:-$V/build}
mkdir -p "$B"
exec 9>"$B/.lock"
flock 9

CXX=clang++; CC=clang
LIBSAN="-fsanitize=address,undefined -fno-sanitize=float-cast-overflow,float-divide-by-zero,pointer-overflow,function,signed-integer-overflow,shift-base -fno-sanitize-recover=all"
CXXF="-std=c++17 -O1 -Wall -Wno-unused-parameter -fno-omit-frame-pointer"
TOOLS="v9 $($CXX --version | head -1) $(gcc --version | head -1)"

hash_of() { sha256sum | cut -c1-20; }
repo_files() { (cd "$REPO" && find projectm-eval ns-eel2-shim -type f \( -name '*.c' -o -name '*.h' -o -name '*.y' -o -name '*.l' \) | LC_ALL=C sort); }
LH=$( { echo "$TOOLS $LIBSAN"; (cd "$REPO" && repo_files | while read -r f; do echo "$f"; sha256sum <"$f"; done); cat "$V/build.sh"; } | hash_of)
HH=$( { echo "$TOOLS $CXXF"; for f in "$V"/src/*; do basename "$f"; cat "$f"; done; cat "$REPO"/projectm-eval/api/projectm-eval.h; cat "$REPO"/ns-eel2-shim/ns-eel.h; cat "$V/build.sh"; } | hash_of)
LIB=$B/lib-$LH; OBJ=$B/obj-$HH; BIN=$B/bin-$LH-$HH

if [ -e "$BIN/.done" ]; then touch "$BIN"; echo "$BIN"; exit 0; fi

run_all() { # runs the commands of stdin, 8 at a time; fails if one fails
    xargs -P 8 -d '\n' -I{} bash -c '{} || exit 255'
}

if [ ! -e "$LIB/.done" ]; then
    rm -rf "$LIB"; mkdir -p "$LIB/src" "$LIB/o"
    # The sources, with generated files exactly as the project's build would take or make them.
    (cd "$REPO" && repo_files | tar cf - -T -) | (cd "$LIB/src" && tar xf -)
    P=$LIB/src/projectm-eval
    if ! echo "8eba315a3f8f473bb702aa5f93f4bb12d25e804a57195f01c600199862b92c1d  $P/Compiler.y" | sha256sum --check --status 2>/dev/null; then
        (cd "$P" && rm -f Compiler.c Compiler.h && bison --defines=Compiler.h --no-lines -o Compiler.c Compiler.y) >&2
    fi
    if ! echo "19e8ed66dd8edb3a91fd56d3c56dbd02fc787cf208364581fe141ff5f34bf4a1  $P/Scanner.l" | sha256sum --check --status 2>/dev/null; then
        (cd "$P" && rm -f Scanner.c Scanner.h && flex --noline --prefix=prjm_eval_ --header-file=Scanner.h -o Scanner.c Scanner.l) >&2
    fi
    SRCS=$(cd "$LIB/src" && find projectm-eval -name '*.c' | LC_ALL=C sort)
    INC="-I$LIB/src -I$LIB/src/projectm-eval -I$LIB/src/projectm-eval/api -I$LIB/src/ns-eel2-shim"
    REDEF=""
    for s in malloc calloc realloc free strdup strndup aligned_alloc posix_memalign reallocarray; do REDEF+=" --redefine-sym $s=vc_$s"; done
    {
        for f in $SRCS ns-eel2-shim/ns-eel.c; do
            o=$(echo "$f" | tr '/' '_' ); o=${o%.c}.o
            # instrumented
            echo "$CC -w -O1 -g1 -fno-omit-frame-pointer $LIBSAN $INC -c $LIB/src/$f -o $LIB/o/s_$o && objcopy $REDEF $LIB/o/s_$o"
            # plain builds in several configurations
            case "$f" in ns-eel2-shim/*) continue;; esac
            echo "gcc -w -fPIC -O0 $INC -c $LIB/src/$f -o $LIB/o/d8g0_$o"
            echo "gcc -w -fPIC -O2 $INC -c $LIB/src/$f -o $LIB/o/d8g2_$o"
            echo "gcc -w -fPIC -Ofast -DNDEBUG $INC -c $LIB/src/$f -o $LIB/o/d8gf_$o"
            echo "clang -w -fPIC -O3 -DNDEBUG $INC -c $LIB/src/$f -o $LIB/o/d8c3_$o"
            echo "gcc -w -fPIC -O0 -DPRJM_F_SIZE=4 $INC -c $LIB/src/$f -o $LIB/o/d4g0_$o"
            echo "gcc -w -fPIC -Ofast -DNDEBUG -DPRJM_F_SIZE=4 $INC -c $LIB/src/$f -o $LIB/o/d4gf_$o"
            # for threads
            echo "$CC -w -O1 -g1 -fno-omit-frame-pointer -fsanitize=thread $INC -c $LIB/src/$f -o $LIB/o/t_$o"
            # for coverage-guided fuzzing
            echo "$CC -w -O1 -g1 $LIBSAN -fsanitize=fuzzer-no-link $INC -c $LIB/src/$f -o $LIB/o/z_$o && objcopy $REDEF $LIB/o/z_$o"
        done
    } | run_all >&2
    cat >"$LIB/o/hostlock.c" <<'X'
void projectm_eval_memory_host_lock_mutex(void) {}
void projectm_eval_memory_host_unlock_mutex(void) {}
X
    gcc -fPIC -O1 -c "$LIB/o/hostlock.c" -o "$LIB/o/hostlock.o"
    for c in d8g0 d8g2 d8gf d8c3 d4g0 d4gf; do
        ff=""; case $c in *gf) ff=-Ofast;; esac
        echo "gcc -shared -Wl,-Bsymbolic $LIB/o/${c}_*.o $LIB/o/hostlock.o -lm -o $LIB/$c.so"
    done | run_all >&2
    rm -f "$LIB"/o/d8* "$LIB"/o/d4*
    touch "$LIB/.done"
fi

if [ ! -e "$OBJ/.done" ]; then
    rm -rf "$OBJ"; mkdir -p "$OBJ"
    INC="-I$REPO/projectm-eval/api -I$V/src"
    for f in "$V"/src/*.cpp; do
        o=$(basename "${f%.cpp}")
        case $o in
            eng_main) echo "$CXX $CXXF $INC -I$REPO -c $f -o $OBJ/eng_main.o"; echo "$CXX $CXXF $INC -I$REPO -Wno-unused-function -DVC_FUZZ -c $f -o $OBJ/eng_fuzz.o";;
            host) echo "$CXX $CXXF $INC -c $f -o $OBJ/host.o"; echo "$CXX $CXXF $INC -DVC_SHIM -c $f -o $OBJ/host_shim.o";;
            *) echo "$CXX $CXXF $INC -I$REPO -c $f -o $OBJ/$o.o";;
        esac
    done | run_all >&2
    if [ ! -d "$B/locale" ]; then
        mkdir -p "$B/locale.tmp"
        for l in de_DE tr_TR; do localedef -i $l -f UTF-8 "$B/locale.tmp/$l.UTF-8" >/dev/null 2>&1 || true; done
        mv "$B/locale.tmp" "$B/locale"
    fi
    touch "$OBJ/.done"
fi

rm -rf "$BIN"; mkdir -p "$BIN"
CORE="$OBJ/eng_main.o $OBJ/lang.o $OBJ/model.o $OBJ/gen.o"
PROPS=$(ls "$OBJ"/props_*.o | grep -v -e props_shim -e props_thread)
LIBO=$(ls "$LIB"/o/s_*.o | grep -v s_ns-eel2-shim)
{
    echo "$CXX -fsanitize=address,undefined $CORE $OBJ/host.o $(echo $PROPS) $(echo $LIBO) -o $BIN/vc -ldl -lpthread -lm"
    if [ -e "$OBJ/props_shim.o" ]; then
        echo "$CXX -fsanitize=address,undefined $CORE $OBJ/host_shim.o $OBJ/props_shim.o $(ls $LIB/o/s_*.o | tr '\n' ' ') -o $BIN/vcshim -ldl -lpthread -lm"
    fi
    echo "$CXX -fsanitize=thread $CORE $OBJ/host.o $OBJ/props_thread.o $(ls $LIB/o/t_*.o | tr '\n' ' ') -o $BIN/vcthr -ldl -lpthread -lm"
    echo "$CXX -fsanitize=fuzzer,address,undefined $OBJ/eng_fuzz.o $OBJ/lang.o $OBJ/model.o $OBJ/gen.o $OBJ/host.o $(echo $PROPS) $(ls $LIB/o/z_*.o | tr '\n' ' ') -o $BIN/fuzz -ldl -lpthread -lm"
} | run_all >&2
for c in d8g0 d8g2 d8gf d8c3 d4g0 d4gf; do ln -s "$LIB/$c.so" "$BIN/$c.so"; done
touch "$BIN/.done"

# Keep the cache small.
for pat in bin lib obj; do
    ls -dt "$B/$pat"-* 2>/dev/null | tail -n +7 | while read -r d; do rm -rf "$d"; done
done
echo "$BIN"
