# build environment of the simulated binaries (sourced)
. /opt/vp/env.sh
VERIF=${VERIF:-/verif}
export CARGO_TARGET_DIR=$VERIF/.build/target
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=1
export CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_RUSTFLAGS="-Zsanitizer=thread -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Clinker=$VERIF/sim/cc-vsim.sh -Clink-arg=$VERIF/.build/vsim.o -Clink-arg=-lm -Clink-arg=-lc"
export CARGO_BUILD_TARGET=x86_64-unknown-linux-gnu
