#!/bin/bash
# tools/seed.sh ID VARIANT...: turns the uncommitted change in /repo into seeded/ID (demo.js, meta.json
# are written beforehand), undoes it, and runs the demonstration with and without it.
cd "$(dirname "$0")/.." || exit 3
ID=$1; shift; S=seeded/$ID; mkdir -p "$S"
if [ -n "$(git -C /repo status --short)" ]; then git -C /repo diff > "$S/patch.diff"; git -C /repo checkout -q -- .; fi
[ $# -gt 0 ] && echo "$*" > "$S/variants"
cp tools/demo/demo.sh tools/demo/kit.js build.sh "$S/"; mkdir -p "$S/driver/src"; cp driver/Cargo.toml driver/Cargo.lock "$S/driver/"; cp driver/src/main.rs "$S/driver/src/"
for f in choices wasi host oracle diffcore migrate wasmenc; do cp lib/$f.js "$S/"; done
sed -i "s#require('\.\./lib/#require('./#" "$S"/*.js
(cd /repo && bash /verif/$S/demo.sh > /tmp/seed.clean 2>&1); a=$?
git -C /repo apply "/verif/$S/patch.diff" || exit 5
(cd /repo && bash /verif/$S/demo.sh > /tmp/seed.bug 2>&1); b=$?
git -C /repo apply -R "/verif/$S/patch.diff"
echo "$ID clean=$a bug=$b"; [ $a -eq 0 ] || tail -5 /tmp/seed.clean; [ $b -ne 0 ] || tail -5 /tmp/seed.bug; grep FAIL /tmp/seed.bug | head -3; grep -l 'error\[' /tmp/seed.bug
