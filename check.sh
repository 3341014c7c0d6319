#!/bin/bash
# check.sh ID [quick|thorough]   decide one property: build from /repo's working tree, search, report
# check.sh replay FILE [-v]      reproduce a violation from its replay file
# check.sh build [plain|instr|helpers]   only build
# Exit 0: held on everything explored; 1: VIOLATION; 2: no answer (the build failed, ...).
set -u
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export RUSTUP_TOOLCHAIN=1.75.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
# A simulated Arc (looks at its counts are scheduling points) needs unstable features, in `spin` only.
export RUSTC_BOOTSTRAP=spin

build() { # plain|instr|helpers
  local feat=()
  [ "$1" != plain ] && feat=(--features "$1")
  export CARGO_TARGET_DIR=$ROOT/target/$1
  mkdir -p "$CARGO_TARGET_DIR"
  local log=$CARGO_TARGET_DIR/build.log ok=0 flags
  # Should the tree use the real Arc in a way which the simulated one does not support, do without it;
  # should it depend on something the lock file does not name, leave the lock file out of it.
  local lock
  for lock in --locked ""; do
    for flags in "--cfg xtra_sim --cfg sim_arc" "--cfg xtra_sim"; do
      cp "$ROOT/harness/Cargo.lock" "$CARGO_TARGET_DIR/Cargo.lock.kept"
      (cd "$ROOT/harness" && RUSTFLAGS=$flags cargo build --release $lock --quiet "${feat[@]}") >"$log" 2>&1 && ok=1
      cmp -s "$ROOT/harness/Cargo.lock" "$CARGO_TARGET_DIR/Cargo.lock.kept" || cp "$CARGO_TARGET_DIR/Cargo.lock.kept" "$ROOT/harness/Cargo.lock"
      [ $ok = 1 ] && break 2
    done
  done
  if [ $ok = 0 ]; then
    cat "$log" >&2
    echo "check.sh: the build failed" >&2
    exit 2
  fi
  XSIM=$CARGO_TARGET_DIR/release/xsim
}
variant() {
  case "$1" in
    C24) echo instr ;;
    C27) echo helpers ;;
    *) echo plain ;;
  esac
}

case "${1:-}" in
  build) build "${2:-plain}"; exit 0 ;;
  replay)
    F=$2; shift 2
    P=$(sed -n 's/^property //p' "$F" | head -1)
    build "$(variant "$P")"
    exec "$XSIM" replay "$F" "$@" ;;
  C[0-9][0-9]) ;;
  *) echo "usage: check.sh ID [quick|thorough] | replay FILE [-v] | build [plain|instr]" >&2; exit 2 ;;
esac

ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
build "$(variant "$ID")"
JOBS=$(nproc); [ "$JOBS" -gt 8 ] && JOBS=8
if [ "$TIER" = thorough ]; then RUNS=1000000000 WALL=720; else RUNS=1200000 WALL=45; fi
exec "$XSIM" check --prop "$ID" --tier "$TIER" --seed "$SEED" --jobs "$JOBS" \
  --runs "${XSIM_RUNS:-$RUNS}" --wall "${XSIM_WALL:-$WALL}" \
  --evidence "evidence/$ID.json" --replays replays --level exploration
