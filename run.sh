#!/bin/bash
# run.sh PROPERTY [quick|thorough] [more arguments for the harness, such as --replay FILE]
# Builds the harness against /repo's working tree, and runs the check of one property.
# run.sh setup: builds all of it.
set -u
cd "$(dirname "$0")" || exit 2
here=$PWD
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
case $prop in
  setup) bin=all ;;
  C02|C05|C06|C07|C11|C15|C19|C21) bin=tgt ;;
  C08|C09|C10|C12|C13|C16|C20) bin=drv ;;
  C22) bin=gen ;;
  *) bin=vis ;;
esac
export VERIF_SEED=${VERIF_SEED:-1}
export CARGO_TARGET_DIR=${VERIF_TARGET:-$here/target}
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence" "$here/replays" || exit 2
# Don't rely on modification times to notice that something in /repo changed.
stamp=$(cd /repo && find . \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.md' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
old=$(cat "$CARGO_TARGET_DIR/repo.stamp" 2>/dev/null)
cd harness || exit 2
if [ "$stamp" != "$old" ]; then
  if [ -n "$old" ] || [ -d "$CARGO_TARGET_DIR/debug" ]; then
    cargo clean --offline -p scale-decode -p scale-decode-derive >/dev/null 2>&1
  fi
  echo "$stamp" > "$CARGO_TARGET_DIR/repo.stamp"
fi

build() { # binary
  local what="-p verif-$1"
  [ "$1" = all ] && what=--workspace
  log=$CARGO_TARGET_DIR/build.$1.log
  cargo build --offline -q $what >"$log" 2>&1
}
# Definitions which derive the trait, and don't compile. That's not about something else being wrong, if what
# doesn't have such definitions does compile.
uncompilable() { # binary
  local src
  src=$(grep -A3 '^error' "$log" | grep -o '/[^ :]*/out/m[0-9]*\.rs' | head -1)
  [ -n "$src" ] && [ -f "$src" ] || return 1
  local mine=$log
  build tgt || return 1
  log=$mine
  {
    echo "property $prop"
    echo "The definitions below don't compile:"
    grep -A14 -F "$src" "$log" -B2 | head -40 | sed 's,^,// ,'
    cat "$src"
  } > "$here/replays/$prop.rs"
  sed -n 1,30p "$here/replays/$prop.rs"
  cat > "$here/evidence/$prop.json" <<JSON
{
 "property": "$prop", "tier": "$tier", "seed": $VERIF_SEED, "level": "exploration",
 "coverage": {
  "evaluations": 1, "distinct_nontrivial": 1,
  "rule": "Random modules of type definitions using the derive, compiled. They didn't compile, so that's all there is.",
  "samples": ["see $here/replays/$prop.rs"]
 },
 "wall_s": $SECONDS, "violations": 1
}
JSON
  echo "VIOLATION property=$prop replay=$here/replays/$prop.rs"
  return 0
}
check() { # evidence, more arguments
  local ev=$1
  shift
  if ! build $bin; then
    case $bin in
      drv|gen) uncompilable && return 1 ;;
    esac
    echo "cannot build the harness:"
    grep -E -A8 '^error' "$log" | head -60
    return 2
  fi
  [ $bin = all ] && return 0
  (
    cd "$here" || exit 2
    ulimit -v 24000000
    ulimit -c 0
    exec "$CARGO_TARGET_DIR/debug/$bin" --property "$prop" --tier "$tier" --seed "$VERIF_SEED" \
      --evidence "$ev" --replay-dir "$here/replays" --known "$here/known_findings.txt" "$@"
  )
}
# A share of the same cases with 32 bit pointers.
narrow() { # evidence, more arguments
  case $prop in
    C08|C09|C10|C12|C16|C22) return 0 ;; # (these are about derived code, and nothing there depends on it)
  esac
  local ev=$1 wasm=$CARGO_TARGET_DIR/w32/w32.wasm
  shift
  mkdir -p "$CARGO_TARGET_DIR/w32"
  log=$CARGO_TARGET_DIR/build.w32.log
  command -v node >/dev/null || { echo "no node, so nothing is checked with 32 bit pointers"; return 0; }
  "$here/harness/w32/build.sh" "$wasm" >"$log" 2>&1
  case $? in
    0) ;;
    3) echo "no standard library for wasm32, so nothing is checked with 32 bit pointers:"; tail -3 "$log"; return 0 ;;
    *) echo "cannot build the harness for wasm32:"; grep -E -A8 '^error' "$log" | head -60; return 2 ;;
  esac
  (
    ulimit -c 0
    ulimit -s unlimited 2>/dev/null
    exec node "$here/harness/w32/run.mjs" "$wasm" "$prop" "$tier" "$VERIF_SEED" "$ev" "$here/replays" 0.1 "$@"
  )
}
if [ $prop = C22 ] && [ "$tier" = thorough ] && [ $# = 0 ]; then
  # More programs
  first=$VERIF_SEED
  for i in 1 2 3 4 5 6 7 8 9; do
    VERIF_SEED=$((first * 1000 + i))
    check "$here/evidence/$prop.json" || exit $?
  done
  VERIF_SEED=$first
fi
if [ "${1:-}" = --replay ] && grep -q '^target wasm32' "${2:-/dev/null}"; then
  narrow "" "$@"
  exit $?
fi
check "$here/evidence/$prop.json" "$@" || exit $?
[ $# -gt 0 ] || [ $prop = setup ] || narrow "$here/evidence/$prop.json"
exit $?
