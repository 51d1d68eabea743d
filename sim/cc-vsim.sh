#!/bin/bash
# linker wrapper: drops the stock ThreadSanitizer runtime, the simulator (vsim.o) provides it
args=()
for a in "$@"; do case "$a" in *rt.tsan.a|*rt.tsan*.a) ;; *) args+=("$a");; esac; done
exec cc "${args[@]}"
