# Sourced: build settings. Everything is built below /verif/.build, from /repo's working tree.
here=${here:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}
export HOME=${HOME:-/root} LANG=C.UTF-8
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$here/.build"
export PV_ROOT="$here"
unset RUSTFLAGS CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_OPT_LEVEL
# lalr1_lib/build.rs rewrites tracked files of /repo if these exist
rm -f /repo/target/debug/lalr1_gen /repo/target/debug/alalr1_gen
build() {
    mkdir -p "$CARGO_TARGET_DIR"
    local log="$CARGO_TARGET_DIR/build.log"
    if ! (cd "$here/harness" && cargo build --offline --locked --message-format=json-render-diagnostics > "$CARGO_TARGET_DIR/artifacts.json" 2> "$log"); then
        tail -60 "$log" >&2
        return 1
    fi
}
