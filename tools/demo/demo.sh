#!/bin/bash
# Builds the driver beside this file against the crate in the current directory, in a
# scratch directory of its own, and runs demo.js on it (in V8, on an in-memory WASI host).
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d /tmp/cwdemo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
cp -r "$D/driver" "$D/build.sh" "$T/" && sed -i "s#/repo\([/\"]\)#$R\1#" "$T/driver/Cargo.toml" "$T/build.sh"
bash "$T/build.sh" $(cat "$D/variants") || exit 4
CW_BUILD=$T/build/out node --stack-size=3900 "$D/demo.js"
