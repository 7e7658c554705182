# sourced by check.sh and setup.sh: incremental builds under /verif/target
export HOME=${HOME:-/root}
export PATH=$PATH:/root/.cargo/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
BIN=/verif/target/release/ncasmon
ASAN_BIN=/verif/target/asan/x86_64-unknown-linux-gnu/release/ncasmon

# content of everything compiled from /repo and of the harness: cargo itself goes by modification times
tree_hash() {
    { cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum
      cd /verif/harness && find src Cargo.toml Cargo.lock rustc-wrapper.sh -type f -print0 | sort -z | xargs -0 sha256sum
      cd /verif; } 2>/dev/null | sha256sum | cut -d' ' -f1
}

# $1 stamp file, rest: cargo command
build_with() {
    local stamp=$1; shift
    local h; h=$(tree_hash)
    (
        flock 9
        if [ "$(cat "$stamp" 2>/dev/null)" != "$h" ]; then
            rm -f "$stamp"
            find "$CARGO_TARGET_DIR" -maxdepth 4 -path '*/.fingerprint/ncas*' -prune -exec rm -rf {} + 2>/dev/null
        fi
        cd /verif/harness || exit 1
        RUSTC_WRAPPER=/verif/harness/rustc-wrapper.sh "$@" > "$stamp.log" 2>&1 || { grep -A12 '^error' "$stamp.log" | head -60 >&2; exit 1; }
        echo "$h" > "$stamp"
    ) 9> "$stamp.lock"
}
build_main() {
    mkdir -p /verif/target
    export CARGO_TARGET_DIR=/verif/target
    build_with /verif/target/stamp.main cargo build --release --offline --locked
}
build_asan() {
    mkdir -p /verif/target/asan
    export CARGO_TARGET_DIR=/verif/target/asan
    RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS="-Zsanitizer=address" \
        build_with /verif/target/stamp.asan cargo build --release --offline --locked --target x86_64-unknown-linux-gnu
}
