# The environment of every build and run: offline, and away from /repo.
export HOME=${HOME:-/root}
export CARGO_HOME=${CARGO_HOME:-/root/.cargo}
export RUSTUP_HOME=${RUSTUP_HOME:-/root/.rustup}
export PATH=$CARGO_HOME/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=$PWD/target
export CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS

# Cargo judges by times whether /repo changed; judge by content as well.
mkdir -p "$CARGO_TARGET_DIR"
sum=$(cd /repo && cat Cargo.toml $(find src -type f | LC_ALL=C sort) | sha256sum | cut -d' ' -f1)
if [ "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" != "$sum" ]; then
    for p in "" --release "--profile plain"; do
        (cd harness && cargo clean --offline -q -p bvh_anim $p) >/dev/null 2>&1
    done
    echo "$sum" >"$CARGO_TARGET_DIR/repo.sum"
fi
