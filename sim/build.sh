#!/bin/bash
# builds the simulator, the harness and the simulated repository binaries from /repo's current working tree
# usage: build.sh [package/binary ...]
set -e
VERIF=$(cd "$(dirname "$0")/.." && pwd)
export VERIF
mkdir -p "$VERIF/.build"
exec 9>"$VERIF/.build/lock"; flock 9
gcc -O2 -g -Wall -Wextra -fPIC -c "$VERIF/sim/vsim.c" -o "$VERIF/.build/vsim.o.new"
if cmp -s "$VERIF/.build/vsim.o.new" "$VERIF/.build/vsim.o"; then rm "$VERIF/.build/vsim.o.new"; else
  # the object file is not a dependency cargo knows about: force a relink of the final binaries
  mv "$VERIF/.build/vsim.o.new" "$VERIF/.build/vsim.o"
  find "$VERIF/.build/target/x86_64-unknown-linux-gnu/debug" -maxdepth 1 -type f -executable -delete 2>/dev/null || true
  find "$VERIF/.build/target/x86_64-unknown-linux-gnu/debug/deps" -maxdepth 1 -type f -executable -delete 2>/dev/null || true
fi
. "$VERIF/sim/env.sh"
cd "$VERIF/harness"
cargo build --offline
cd /repo
for pb in "$@"; do
  cargo build --offline --locked -p "${pb%%/*}" --bin "${pb##*/}"
done
