#!/bin/bash
# Build the harness from /repo's current working tree (offline).  Freshness is decided by
# content, not by time stamps: when the sources differ from the last build, the crate under
# test and the harness are rebuilt from scratch.
set -e
ROOT=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=$ROOT/target
unset RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.lock"
flock 9
stamp=$( { find "$REPO/src" "$ROOT/harness/src" "$ROOT/port/src" -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum "$REPO/Cargo.toml" "$ROOT"/harness/Cargo.*; } | sha256sum | cut -d' ' -f1)
# further copies of the crate under other names: one is built without default features (no
# allocator) for C21, one without overflow checks and debug assertions for C25
make_copy() {
    local na=$CARGO_TARGET_DIR/$1_src
    rm -rf "$na"
    mkdir -p "$na"
    cp -r "$REPO/src" "$na/src"
    cp "$REPO/Cargo.toml" "$na/Cargo.toml"
    sed -i '0,/^name *= *"texture2ddecoder"/s//name = "t2d_'$1'"/' "$na/Cargo.toml"
    sed -i '/^\[dev-dependencies\]/,/^\[/{/^\[dev-dependencies\]/d;/^[a-zA-Z]/d}' "$na/Cargo.toml"
    printf '\n[workspace]\n' >>"$na/Cargo.toml"
}
if [ "$(cat "$CARGO_TARGET_DIR/.stamp" 2>/dev/null)" != "$stamp" ] || [ ! -x "$CARGO_TARGET_DIR/release/t2dmc" ]; then
    rm -f "$CARGO_TARGET_DIR/.stamp" "$CARGO_TARGET_DIR/release/t2dmc"
    make_copy noalloc
    make_copy plain
    cd "$ROOT/harness"
    cargo clean --release --offline -p texture2ddecoder -p t2d_noalloc -p t2d_plain -p t2dmc >/dev/null 2>&1 || true
    # When only one of the other configurations does not compile, C21 or C25 reports that; the
    # other checks do not depend on it.
    built=
    for features in noalloc,plain plain noalloc ""; do
        if cargo build --release --offline --features "$features" >"$CARGO_TARGET_DIR/build.log" 2>&1; then
            built=yes
            break
        fi
    done
    if [ -z "$built" ]; then
        tail -n 40 "$CARGO_TARGET_DIR/build.log" >&2
        echo "harness build failed" >&2
        exit 3
    fi
    echo "$stamp" >"$CARGO_TARGET_DIR/.stamp"
fi

# the Python module, for C20
if [ "$1" = C20 ] || [ "$1" = all ]; then
    bind=$REPO/bindings/python
    py=$CARGO_TARGET_DIR/py
    python=/opt/vp/venv/bin/python
    [ -x $python ] || python=$(command -v python3)
    stamp=$( { find "$REPO/src" "$bind/src" -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum "$REPO/Cargo.toml" "$bind/Cargo.toml" "$ROOT/py/Cargo.lock"; } | sha256sum | cut -d' ' -f1)
    if [ "$(cat "$py/.stamp" 2>/dev/null)" != "$stamp" ] || [ ! -f "$py/mod/texture2ddecoder_rs.so" ]; then
        rm -rf "$py/.stamp" "$py/mod" "$py/src"
        mkdir -p "$py/src" "$py/mod"
        cp -r "$bind/src" "$py/src/src"
        sed "s#path *= *\"../..\"#path = \"$REPO\"#" "$bind/Cargo.toml" >"$py/src/Cargo.toml"
        printf '\n[workspace]\n[profile.release]\nopt-level = 3\noverflow-checks = true\ndebug-assertions = true\n' >>"$py/src/Cargo.toml"
        cp "$ROOT/py/Cargo.lock" "$py/src/Cargo.lock"
        cd "$py/src"
        export PYO3_PYTHON=$python PYO3_USE_ABI3_FORWARD_COMPATIBILITY=1 CARGO_TARGET_DIR=$py/target
        cargo clean --release --offline -p texture2ddecoder -p texture2ddecoder_rs >/dev/null 2>&1 || true
        if ! cargo build --release --offline >"$py/build.log" 2>&1; then
            tail -n 40 "$py/build.log" >&2
            echo "build of the Python module failed" >&2
            exit 3
        fi
        cp "$py/target/release/libtexture2ddecoder_rs.so" "$py/mod/texture2ddecoder_rs.so"
        echo "$stamp" >"$py/.stamp"
    fi
fi

# the crate for other targets: a WebAssembly module (C23); an s390x program under Miri and a
# bare MIPS program (C24)
port=$ROOT/target/port
sysroot=$(rustc +nightly --print sysroot)
port_stamp=$( { find "$REPO/src" "$ROOT/port" -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum "$REPO/Cargo.toml"; } | sha256sum | cut -d' ' -f1)
# build_port NAME COMMAND...: a failure to compile the crate under test is left to the check to report
build_port() {
    local name=$1
    shift
    rm -rf "$port/.stamp.$name" "$port/$name.broken"
    if ! "$@" >"$port/$name.log" 2>&1; then
        if grep -q 'could not compile `texture2ddecoder`' "$port/$name.log"; then
            cp "$port/$name.log" "$port/$name.broken"
        else
            tail -n 40 "$port/$name.log" >&2
            echo "build for $name failed" >&2
            exit 3
        fi
    fi
    echo "$port_stamp" >"$port/.stamp.$name"
}
# drop what an earlier build left of the two crates (cargo goes by time stamps)
forget() {
    [ -d "$1" ] || return 0
    find "$1" \( -path '*/release/.fingerprint/*' -o -path '*/release/build/*' \) \( -name 'texture2ddecoder*' -o -name 't2dport*' \) -prune -exec rm -rf {} +
}
# bare TARGET CRATE-TYPE: the library of ../port with a standard library built for the target
bare() {
    export CARGO_TARGET_DIR=$port/bare_$1
    local vendor=$port/vendor_$1
    rm -rf "$vendor"
    mkdir -p "$vendor"
    # what the standard library and the crate under test need, in one directory
    cp -rs "$sysroot"/lib/rustlib/src/rust/library/vendor/* "$vendor/"
    cp -r "$(ls -d "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/paste-1.0.15 | head -n 1)" "$vendor/"
    echo '{"files":{},"package":"57c0d7b74b563b49d38dae00a0c37d4d6de9b432382b2892f0574ddcae73fd0a"}' >"$vendor/paste-1.0.15/.cargo-checksum.json"
    forget "$CARGO_TARGET_DIR"
    cd "$ROOT/port"
    cargo +nightly rustc --lib --crate-type "$2" --release --offline --config 'source.crates-io.replace-with="v"' \
        --config "source.v.directory=\"$vendor\"" -Zbuild-std=core,alloc --target "$1"
}
wasm() {
    rm -f "$port/worker.wasm"
    bare wasm32-unknown-unknown cdylib &&
        cp "$CARGO_TARGET_DIR/wasm32-unknown-unknown/release/t2dport.wasm" "$port/worker.wasm"
}
big_endian() {
    rm -f "$port/worker.elf"
    forget "$port/miri"
    "$ROOT/port/miri.sh" setup && "$ROOT/port/miri.sh" build &&
        bare mips-mti-none-elf staticlib &&
        "$sysroot/lib/rustlib/x86_64-unknown-linux-gnu/bin/rust-lld" -flavor gnu -static --gc-sections \
            -T "$ROOT/port/bare.ld" -o "$port/worker.elf" "$CARGO_TARGET_DIR/mips-mti-none-elf/release/libt2dport.a"
}
if [ "$1" = C23 ] || [ "$1" = all ]; then
    mkdir -p "$port"
    if [ "$(cat "$port/.stamp.wasm32" 2>/dev/null)" != "$port_stamp" ]; then
        build_port wasm32 wasm
    fi
fi
if [ "$1" = C24 ] || [ "$1" = C27 ] || [ "$1" = all ]; then
    mkdir -p "$port"
    if [ "$(cat "$port/.stamp.big-endian" 2>/dev/null)" != "$port_stamp" ]; then
        build_port big-endian big_endian
    fi
fi
