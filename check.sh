#!/bin/bash
# check.sh <property> [--quick|--thorough] [--replay FILE] [--space NAME]
# Rebuilds the property's exploration binary against /repo's working tree and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; shift
bin="$(echo "$prop" | tr 'A-Z' 'a-z')"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= MC_ROOT="$here"
unset RUSTFLAGS CARGO_TARGET_DIR
cd "$here/mc" || exit 3
# cargo decides by modification times; decide by content, so that no stale build of the crate is used
stamp="$(cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum | sha256sum)"
fresh() {
  if [ "$stamp" != "$(cat target/repo.stamp 2>/dev/null)" ]; then
    cargo clean --release --offline -p static-math >/dev/null 2>&1
    mkdir -p target; echo "$stamp" >target/repo.stamp
  fi
}
if [ "$prop" = C28 ]; then
  # the other configuration; whether it builds is part of the property
  cd "$here/mc-nostd" || exit 3
  fresh
  cargo build --release --offline >target/build.log 2>&1
  export MC_NOSTD_RC=$? MC_NOSTD_LOG="$here/mc-nostd/target/build.log" MC_NOSTD_BIN="$here/mc-nostd/target/release/mc-nostd"
  cd "$here/mc" || exit 3
fi
fresh
log="$(mktemp)"
if ! cargo build --release --offline --bin "$bin" >"$log" 2>&1; then
  tail -40 "$log" >&2; rm -f "$log"
  echo "check error: build failed" >&2
  exit 3
fi
rm -f "$log"
"./target/release/$bin" "$@"
rc=$?
case $rc in
  132|134|135|136|139)
    # the process itself died in the code under test, without a verdict of its own
    mkdir -p "$here/replay"
    printf 'property=%s\nspace=(process)\ncase=signal:%s\nreplay_cmd=./check.sh %s\n' "$prop" "$((rc - 128))" "$prop" >"$here/replay/$prop-crash.replay"
    echo "VIOLATION property=$prop replay=$here/replay/$prop-crash.replay"
    exit 1 ;;
esac
exit $rc
