#!/bin/bash
# check.sh build | check.sh Cxx : builds the simulator against /repo's working tree and runs one property's search.
# C14 and C15 concern the VS Code extension: they run its sources from /repo's working tree directly and build nothing.
here=$(cd "$(dirname "$0")" && pwd)
case "$1" in C14 | C15) cd "$here/ext" && VERIF_DIR="$here" exec env -u VERIF_REPO node driver.cjs check "$1"; exit 3 ;; esac
. /opt/vp/env.sh
cd "$here/sim" || exit 3
export CARGO_TARGET_DIR="$here/target" CARGO_INCREMENTAL=0
mkdir -p "$CARGO_TARGET_DIR"
# cargo trusts time stamps; a tree whose contents changed under unchanged time stamps must be rebuilt all the same
sum=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o \( -name '*.rs' -o -name '*.toml' -o -name Cargo.lock \) -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
stamp="$CARGO_TARGET_DIR/repo.sum"
if [ -e "$stamp" ] && [ "$(cat "$stamp")" != "$sum" ]; then
  for p in $(sed -n 's#^\([a-z_]*\) = { path = "/repo/.*#\1#p' Cargo.toml); do cargo clean --offline -q -p "$p" 2>/dev/null; done
fi
rm -f "$stamp"
log=$(cargo build --offline 2>&1) || { echo "$log" | tail -40 >&2; echo "the simulator does not build against this tree" >&2; exit 3; }
echo "$sum" > "$stamp"
[ "$1" = build ] && exit 0
cd "$here" || exit 3
VERIF_DIR="$here" exec "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu/debug/dsim" check "$1"
