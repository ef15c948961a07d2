#!/bin/bash
# build.sh VARIANT -> builds libratjs.a of /repo's working tree and the harness vrat in $VOUT/VARIANT
# Variants: plain, asan, nocache, gmp, intconv ; the output folder is outside /repo.
set -e
V=${1:-plain}
VERIF=$(cd "$(dirname "$0")/.." && pwd)
VOUT=${VOUT:-$VERIF/out/build}
B=$VOUT/$V
unset O ARCH DEBUG CROSS_COMPILE CLANG M CFLAGS LIBS HOST_CFLAGS HOST_LIBS MAKEFLAGS
mkdir -p "$VERIF/out"; exec 9>"$VERIF/out/.lock-$V"
flock 9
mkdir -p "$B"
X=(); CF="-O1"
case $V in
  asan) CF="-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer -fno-sanitize=alignment,shift,signed-integer-overflow,float-cast-overflow,pointer-overflow,bounds,nonnull-attribute";;
  nocache) X=(ENABLE_BINDING_CACHE=0);;
  gmp) X=(ENABLE_BIG_INT=gmp);;
  intconv) X=(ENC_CONV=internal);;
  iconv) X=(ENC_CONV=iconv);;
  size) X=(OPTIMIZE_FOR_SIZE=1); CF="-Os";;
  clang) CF="-O2 -Wno-implicit-function-declaration"; CCOMP=clang;;
  tsan) CF="-O1 -g -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -fno-builtin-realloc";; # instrumentation only: harness/vconc.c is the run-time
  x-*) IFS=, read -ra X <<<"${V#x-}";;
esac
cd /repo
# start over when the list of files or the options changed; otherwise go by content
key=$({ cat Makefile; echo "$CF ${X[*]}"; find src include gen -type f | LC_ALL=C sort; } | sha256sum)
if [ "$key" != "$(cat "$B/.key" 2>/dev/null)" ]; then
    case "$B" in */build/*) rm -rf -- "$B";; esac
    mkdir -p "$B"
    make -s O="$B" STATIC_LIBRARY_ONLY=1 "${X[@]}" config >/dev/null
    echo "$key" > "$B/.key"
fi
find src include gen -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum > "$B/.sums.new"
if [ -f "$B/.sums" ]; then
    for f in $(LC_ALL=C comm -13 <(LC_ALL=C sort "$B/.sums") <(LC_ALL=C sort "$B/.sums.new") | cut -c67-); do
        # never touch /repo: drop what depends on the changed file
        case $f in
          src/lib/*_inc.c|*.h|gen/*|include/*) find "$B" \( -name '*.o' -o -name '*.ho' -o -name '*-gen' -o -name '*_inc.c' -o -name 'rjs_*.h' ! -name rjs_config.h \) -delete;;
          *.c) rm -f -- "$B/${f%.c}.o";;
        esac
    done
fi
mv "$B/.sums.new" "$B/.sums"
if [ $V = size ]; then # one translation unit, written next to the sources: made in a copy, with the generated files of the plain build
  rm -rf -- "$B/tree"; mkdir -p "$B/tree"; cp -a Makefile src gen include build "$B/tree/"; mkdir -p "$B/src/lib"
  cd "$B/tree"; OPTSIZE=1; X=(OPTIMIZE_FOR_SIZE=1)
  make -s O="$B" STATIC_LIBRARY_ONLY=1 "${X[@]}" -j8 $(cd /repo; make -np O="$B" STATIC_LIBRARY_ONLY=1 2>/dev/null | grep -o "^$B/src/lib/rjs_[a-z_]*_inc.c\|^$B/include/rjs_[a-z_]*.h\|^$B/src/lib/rjs_[a-z_]*.h" | sort -u | tr '\n' ' ') >"$B/.log" 2>&1 || true
fi
# make's own -O2 follows CFLAGS from the environment, so -O1 is given through CC's wrapper variable
make -s --eval='.DELETE_ON_ERROR:' O="$B" STATIC_LIBRARY_ONLY=1 ${OPTSIZE:+OPTIMIZE_FOR_SIZE=1} CC="${CCOMP:-gcc}" -j8 \
   CFLAGS="-Wall -w $CF -Iinclude -I$B/include -I$B/src/lib -DMODULE_DIR=\\\"/nonexistent/ratjs\\\"" "$B/libratjs.a" >"$B/.log" 2>&1 || { tail -20 "$B/.log"; echo "BUILD FAILED"; exit 2; }
LIBS="-lm -lpthread -ldl -lffi"
case $V in intconv|iconv|*ENC_CONV=i[!c]*|*ENC_CONV=ico*) ;; *) LIBS="$LIBS -licuuc -licudata -lstdc++";; esac
[ $V = gmp ] && LIBS="$LIBS -lgmp"
if [ $V = tsan ]; then
  W=; for f in malloc free realloc memcpy memmove memset pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast pthread_once; do W="$W,--wrap=$f"; done
  gcc -O2 -g -w -no-pie -fno-builtin -Wl$W -o "$B/vrat" "$VERIF/harness/vconc.c" -I/repo/include -I"$B/include" -I/repo/src/lib/include "$B/libratjs.a" $LIBS
  echo "$LIBS" > "$B/.libs"; echo "$CF" > "$B/.cflags"; exit 0
fi
gcc $CF -g -w -Wl,--wrap=rjs_gc_add,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free -o "$B/vrat" "$VERIF/harness/vrat.c" -I/repo/include -I"$B/include" "$B/libratjs.a" $LIBS
if [ -n "$RATJS_EXE" ]; then gcc $CF -w '-DMODULE_DIR="/nonexistent/ratjs"' -rdynamic -o "$B/ratjs_exe" /repo/src/exe/rjs_main.c -I/repo/include -I"$B/include" -Wl,--whole-archive "$B/libratjs.a" -Wl,--no-whole-archive $LIBS; fi
echo "$LIBS" > "$B/.libs"; echo "$CF" > "$B/.cflags"
