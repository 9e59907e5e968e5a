#!/bin/bash
# build.sh VARIANT...: builds, from /repo's current working tree, the driver (and
# for bin-* variants chiwawa's own binary) for wasm32-wasip1 and leaves
#   /verif/build/out/VARIANT.wasm
# Variants: [bin-]{tco|legacy}[-p1][-stats][-trace]
#   -p1: the guarded hook (--cfg chiwawa_verif): the trigger file is looked for
#        before every instruction instead of every 1024.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.97.0 RUSTUP_AUTO_INSTALL=0 CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16
B=$HERE/build
mkdir -p "$B/out" "$B/log"
BASE="-C target-feature=+bulk-memory,+mutable-globals,+nontrapping-fptoint,+reference-types,+sign-ext"

build_one() {
    local v=$1 flags=$BASE feats="" dir
    case $v in *tco*) flags="$flags -C target-feature=+multivalue,+tail-call -C link-arg=-s"; dir=tco; feats=tco;; *) dir=legacy;; esac
    case $v in *-p1*) flags="$flags --cfg chiwawa_verif"; dir=$dir-p1;; esac
    case $v in *-stats*) feats="$feats stats"; dir=$dir-s;; esac
    case $v in *-trace*) feats="$feats trace"; dir=$dir-t;; esac
    if [ "$v" = validator ]; then # the oracle of C14: nothing of /repo in it
        if ! cargo build --manifest-path "$HERE/validator/Cargo.toml" --target wasm32-wasip1 --release --target-dir "$B/t-validator" --locked --offline > "$B/log/$v.log" 2>&1; then
            echo "build.sh: $v failed:" >&2; tail -20 "$B/log/$v.log" >&2; return 1
        fi
        cp "$B/t-validator/wasm32-wasip1/release/cwvalidator.wasm" "$B/out/$v.wasm.tmp.$$" && mv "$B/out/$v.wasm.tmp.$$" "$B/out/$v.wasm"
        return
    fi
    local name=cwdriver manifest=$HERE/driver/Cargo.toml
    case $v in bin-*) name=chiwawa; manifest=/repo/Cargo.toml; feats="$feats wasmtime";; esac
    if ! RUSTFLAGS="$flags" cargo build --manifest-path "$manifest" --bin $name \
        --target wasm32-wasip1 --release --features "$feats" --target-dir "$B/t-$dir" \
        --locked --offline > "$B/log/$v.log" 2>&1; then
        echo "build.sh: $v failed:" >&2; tail -20 "$B/log/$v.log" >&2; return 1
    fi
    local f=$B/t-$dir/wasm32-wasip1/release/$name.wasm
    cmp -s "$f" "$B/out/$v.wasm" || { cp "$f" "$B/out/$v.wasm.tmp.$$" && mv "$B/out/$v.wasm.tmp.$$" "$B/out/$v.wasm"; }
}
( flock 9
pids=()
for v in "$@"; do build_one "$v" & pids+=($!); done
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=1; done
exit $rc
) 9> "$B/lock"
