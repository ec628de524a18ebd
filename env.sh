# Sourced by setup.sh, check.sh and replay.sh.
export HOME=${HOME:-/root}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
export RUSTUP_TOOLCHAIN=1.72.1 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
export SIM_ROOT="${SIM_ROOT:-$(pwd)}"
# build <crate>: sim (the on-chain programs) or cranksim (the off-chain client and crank)
build() {
    (cd "$1" && cargo build --release --offline --quiet 2> target.log) || { cat "$1/target.log" >&2; return 1; }
    rm -f "$1/target.log"
}
crate_of() { # property id, or replay file
    case "$1" in
        C25 | C26 | C27) echo cranksim ;;
        C*) echo sim ;;
        *) if grep -q '"property": *"C2[567]"' "$1" 2>/dev/null; then echo cranksim; else echo sim; fi ;;
    esac
}
