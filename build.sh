#!/bin/bash
# build.sh sim            build the simulator executables (cached by source hash under build/)
# build.sh images DIR K   build images of the library from /repo's current working tree into DIR
#                         K: plain (variants 0..5), asan, or stm (0..2, of which 1 and 2 with the STM32 example drivers)
set -e
here=$(cd "$(dirname "$0")" && pwd)
B=$here/build
CXX=${CXX:-clang++}
CC=${CC:-clang}
RT=$($CC -print-file-name=libclang_rt.asan-x86_64.so); RT=$(dirname "$RT")
SAN="-fsanitize=address,undefined -fno-sanitize=function,vptr -fno-sanitize-recover=undefined -shared-libasan -Wl,-rpath,$RT"
REPO=${SIM_REPO:-/repo}

build_one() { # name flags link
  local name=$1 flags=$2
  local h
  h=$(cat "$here"/sim/*.cpp "$here"/sim/*.hpp "$here"/build.sh | sha256sum | cut -c1-24)
  local out=$B/$name-$h
  [ -x "$out" ] && { ln -sfn "$out" "$B/$name"; return; }
  local t
  t=$(mktemp -d "$B/tmp.XXXXXX")
  local o=""
  for f in "$here"/sim/*.cpp; do
    local n
    n=$(basename "$f" .cpp)
    $CXX -std=c++17 -O2 -g1 -Wall -Wextra -Wno-unused -Wno-unused-parameter -Wno-unused-command-line-argument $flags -c "$f" -o "$t/$n.o" &
    o="$o $t/$n.o"
  done
  for j in $(jobs -p); do wait "$j"; done
  $CXX $flags -rdynamic $o -o "$t/exe" -ldl
  rm -f "$B/$name"-*
  mv "$t/exe" "$out"
  ln -sfn "$out" "$B/$name"
  rm -rf "$t"
}

sim() {
  mkdir -p "$B"
  exec 9>"$B/lock"
  flock 9
  build_one simrun ""
  build_one simrun-asan "-DSIM_ASAN $SAN"
  exec 9>&-
}

variant() { # dir n opt san queue timeout repeat coils din inreg hreg
  local d=$1 v=$2 opt=$3 san=$4; shift 4
  local stm=${STM:-} # master|slave: with the repository's example driver for that role on emulated hardware
  local s=$d/src$v o=$d/obj$v
  mkdir -p "$s" "$o"
  cp -r "$REPO/src/." "$s/"
  local cfg
  cfg=$(find "$s" -name modbus_config.h | head -1)
  if [ -n "$cfg" ] && [ "$1" != - ]; then
    local i=0
    for m in MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS MODBUS_MASTER_RESP_TIME_OUT_MS MODBUS_MASTER_REQ_REPEAT_ON_ANY_ERROR \
             MAIN_APP_COILS_QTY MAIN_APP_DISCRET_INPUTS_QTY MAIN_APP_INPUT_REG_QTY MAIN_APP_HOLDING_REG_QTY; do
      i=$((i + 1))
      sed -i -E "s/^([[:space:]]*#[[:space:]]*define[[:space:]]+$m[[:space:]]+)[0-9]+[uUlL]*/\1${!i}/" "$cfg"
    done
  fi
  local inc=""
  while IFS= read -r x; do inc="$inc -I$x"; done < <(find "$s" -type d)
  local n=0 objs=""
  local pids=()
  while IFS= read -r f; do
    n=$((n + 1))
    $CC -std=gnu17 -Wno-error=implicit-function-declaration -Wno-error=implicit-int -Wno-error=int-conversion -Wno-error=incompatible-function-pointer-types -D_GNU_SOURCE $opt -g -fPIC -w $san -fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores $inc -c "$f" -o "$o/$n.o" &
    pids+=($!)
    objs="$objs $o/$n.o"
  done < <(find "$s" -name '*.c' | sort)
  local gdef=""
  if [ -n "$stm" ]; then
    local role=0 ex
    [ "$stm" = slave ] && role=1
    ex=$(find "$REPO/examples" -type d -iname "*STM32*$stm" | head -1)
    gdef="-DSTM_ROLE=$role -I$here/sim/stm"
    while IFS= read -r x; do gdef="$gdef -I$x"; done < <(find "$ex" -name '*.h' -not -path '*/CMSIS/Include/*' -printf '%h\n' | sort -u)
    stm_cc() { $CC -std=gnu11 -D_GNU_SOURCE $opt -g -fPIC -w -fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores $inc $gdef \
      -Dget_${stm}_RTU_driver_interface=real_driver_interface -c "$1/$(cat "$d/ex.$stm")" -o "$2"; }
    stm_cc "$d/ex" "$o/driver.o" &
    pids+=($!)
    objs="$objs $o/driver.o"
  fi
  # the glue is the application's side: no preemption points inside it
  $CC -std=gnu11 -O1 -g -fPIC -w ${san:+-fsanitize=address -shared-libasan -Wl,-rpath,$RT} $inc $gdef -c "$here/sim/glue.c" -o "$o/glue.o" &
  pids+=($!)
  for p in "${pids[@]}"; do wait "$p"; done
  $CC -shared $san -Wl,-Bsymbolic -Wl,-z,norelro -Wl,--allow-shlib-undefined $objs "$o/glue.o" -o "$d/v$v.so"
  for k in 0 1 2 3 4 5; do cp "$d/v$v.so" "$d/v${v}_s$k.so"; done
  if [ -n "$stm" ]; then # the same with each known defect of the drivers put back
    local k
    for k in $(cat "$d/ex.fixed"); do
      mkdir -p "$d/known$k"
      stm_cc "$d/ex$k" "$o/driver$k.o"
      $CC -shared -Wl,-Bsymbolic -Wl,-z,norelro -Wl,--allow-shlib-undefined ${objs/driver.o/driver$k.o} "$o/glue.o" -o "$d/known$k/v$v.so"
    done
  fi
}

# The drivers of the examples have known defects which cannot be repaired in /repo (KNOWN_FINDINGS.txt).  So that everything
# else about them is decided too, the scratch copy is built with them repaired, each as long as it is there as known.
stm_tree() { # dir
  local d=$1 r f k t
  : >"$d/ex.fixed"
  for r in master slave; do
    f=$(cd "$REPO" && find examples -path "*STM32*${r^^}*" -name modbus_driver_interface.c | head -1)
    echo "$f" >"$d/ex.$r"
    mkdir -p "$d/ex/$(dirname "$f")"
    cp "$REPO/$f" "$d/ex/$f"
  done
  for f in "$here"/sim/stm/known/*.fix; do
    k=$(basename "$f" .fix)
    patch -d "$d/ex" -p1 -s -f --dry-run <"$f" >/dev/null 2>&1 || continue
    patch -d "$d/ex" -p1 -s -f <"$f"
    if [ -f "${f%.fix}.undo" ]; then echo "$k" >>"$d/ex.fixed"; fi
  done
  for k in $(cat "$d/ex.fixed"); do
    cp -r "$d/ex" "$d/ex$k"
    patch -d "$d/ex$k" -p1 -s -f <"$here/sim/stm/known/$k.undo" >/dev/null 2>&1 || { sed -i "/^$k\$/d" "$d/ex.fixed"; }
  done
}

images() {
  local d=$1 k=$2
  mkdir -p "$d"
  local pids=()
  if [ "$k" = asan ]; then
    variant "$d" 0 -O1 "$SAN" - & pids+=($!)
    variant "$d" 1 -O1 "$SAN" 3 60 2 2100 2100 300 300 & pids+=($!)
    variant "$d" 2 -O0 "$SAN" 1 25 0 20 20 20 20 & pids+=($!)
    variant "$d" 3 -Os "$SAN" 37 700 7 65 33 17 9 & pids+=($!)
    variant "$d" 4 -O2 "$SAN" 2 150 1 250 9 126 124 & pids+=($!)
    variant "$d" 5 -O1 "$SAN" 200 400 1 65535 40000 33000 65535 & pids+=($!)
  elif [ "$k" = stm ]; then
    stm_tree "$d"
    variant "$d" 0 -O1 "" - & pids+=($!)
    STM=master variant "$d" 1 -O1 "" 5 300 3 100 100 100 100 & pids+=($!)
    STM=slave variant "$d" 2 -O1 "" 5 300 3 100 100 100 100 & pids+=($!)
  else
    variant "$d" 0 -O1 "" - & pids+=($!)
    variant "$d" 1 -O2 "" 3 60 2 2100 2100 300 300 & pids+=($!)
    variant "$d" 2 -O0 "" 1 25 0 20 20 20 20 & pids+=($!)
    variant "$d" 3 -Os "" 37 700 7 65 33 17 9 & pids+=($!)
    variant "$d" 4 -O3 "" 2 150 1 250 9 126 124 & pids+=($!)
    variant "$d" 5 -O2 "" 200 400 1 65535 40000 33000 65535 & pids+=($!)
  fi
  for p in "${pids[@]}"; do wait "$p"; done
  local x
  for x in "$d"/known*; do
    [ -d "$x" ] || continue
    for f in "$d"/v*.so; do
      [ -e "$x/$(basename "$f")" ] || ln -s "$f" "$x/"
    done
    for v in 1 2; do
      for k in 0 1 2 3 4 5; do rm "$x/v${v}_s$k.so"; cp "$x/v$v.so" "$x/v${v}_s$k.so"; done
    done
  done
}

case $1 in
sim) sim ;;
images) images "$2" "$3" ;;
*) echo "usage: build.sh sim | images DIR plain|asan|stm" >&2; exit 2 ;;
esac
