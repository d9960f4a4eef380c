#!/bin/bash
# Builds the harness of one property (or all) from /repo's working tree and runs its check.
#   run.sh ID            check property ID at $VERIF_TIER (quick, thorough)
#   run.sh --setup       build everything
#   run.sh --replay ID   run the execution in replays/ID.json again, verbosely
set -u
V=$(cd "$(dirname "$0")" && pwd)
H=$V/harness
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$H/target CARGO_INCREMENTAL=1
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export VERIF_ROOT=$V VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}

build() { # packages...
  # cargo looks at file times, which copies and checkouts do not keep: go by contents.
  local now old=
  now=$(cd /repo && find . \( -path ./target -o -path ./.git -o -name corpus -o -name artifacts \) -prune -o -type f \( -name '*.rs' -o -name Cargo.toml -o -name Cargo.lock \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  [ -f "$H/target/sources.sha" ] && old=$(cat "$H/target/sources.sha")
  mkdir -p "$H/target"
  if [ "$now" != "$old" ]; then
    rm -f "$H/target/sources.sha"
    (cd "$H" && for b in release plain; do cargo clean --profile $b --offline -p smtp-message -p smtp-server -p smtp-queue; done) >/dev/null 2>&1
  fi
  local args=() p
  for p in "$@"; do args+=(-p "$p"); done
  local log=$H/target/build.$$.log b
  for b in release plain; do # with overflow checks and debug assertions, and without
    if ! (cd "$H" && cargo build --profile $b --offline --locked "${args[@]}") >"$log" 2>&1; then
      cat "$log" >&2; rm -f "$log"
      echo "the harness does not build against /repo" >&2
      exit 2
    fi
  done
  rm -f "$log"
  echo "$now" > "$H/target/sources.sha"
}
bin_of() {
  case $1 in
    M*) echo msg ;; S*) echo srv ;; Q*) echo queue ;;
    *) echo "unknown property $1" >&2; exit 2 ;;
  esac
}
case ${1:-} in
  --setup) for p in msg srv queue; do build $p; done ;; # one by one, as the checks do: features differ
  --replay)
    b=$(bin_of "$2") || exit 2
    build "$b"
    f=$V/replays/$2.json
    sp=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["space"])' "$f")
    pr=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["build"])' "$f")
    ch=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["choices"])' "$f")
    VERIF_TIER=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["tier"])' "$f") \
      exec "$H/target/$pr/$b" --case "$2" "$sp" "$ch" ;;
  ?*)
    b=$(bin_of "$1") || exit 2
    build "$b"
    VERIF_PLAIN_EXE=$H/target/plain/$b exec "$H/target/release/$b" "$1" ;;
  *) sed -n 2,6p "$0"; exit 2 ;;
esac
