#!/bin/bash
# Builds the simulator against the current tree of /repo. Sourced or run.
#   build.sh [plain|fine|unopt|all]   fine: with a call at every memory access
#                                     unopt: the library without optimisation
set -eu
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset RUSTFLAGS RUSTDOCFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL LD_LIBRARY_PATH \
  CARGO_PROFILE_RELEASE_OPT_LEVEL CARGO_PROFILE_DEV_DEBUG RUSTC_WORKSPACE_WRAPPER 2>/dev/null || true

build_sim() { # plain|fine|unopt
  profile=release
  case "$1" in
    fine) export CARGO_TARGET_DIR="$here/sim/target-fine" RUSTC_WRAPPER="$here/bin/rustc-fine" ;;
    unopt) export CARGO_TARGET_DIR="$here/sim/target-unopt" RUSTC_WRAPPER=; profile=unopt ;;
    *) export CARGO_TARGET_DIR="$here/sim/target" RUSTC_WRAPPER= ;;
  esac
  mkdir -p "$CARGO_TARGET_DIR"
  exec 9>"$CARGO_TARGET_DIR/.siasim-lock"
  flock 9
  # cargo goes by modification times: go by content
  stamp=$( (cd /repo && find sia sia_derive Cargo.toml Cargo.lock -name target -prune -o -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum
            cd "$here/sim" && find Cargo.toml Cargo.lock src simhook vendor ../bin/rustc-fine -name target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
  if [ ! -x "$CARGO_TARGET_DIR/$profile/siasim" ] || [ "$(cat "$CARGO_TARGET_DIR/.siasim-stamp" 2>/dev/null)" != "$stamp" ]; then
    rm -f "$CARGO_TARGET_DIR/.siasim-stamp"
    rm -rf "$CARGO_TARGET_DIR"/$profile/.fingerprint/sia_sdk-* "$CARGO_TARGET_DIR"/$profile/.fingerprint/sia_sdk_derive-* \
           "$CARGO_TARGET_DIR"/$profile/.fingerprint/siasim-*
    (cd "$here/sim" && cargo build --profile $profile --offline --quiet >"$CARGO_TARGET_DIR/.siasim-build.log" 2>&1) || {
      echo "the simulator does not build against /repo:" >&2
      grep -A12 '^error' "$CARGO_TARGET_DIR/.siasim-build.log" >&2 || tail -40 "$CARGO_TARGET_DIR/.siasim-build.log" >&2
      exit 2
    }
    echo "$stamp" >"$CARGO_TARGET_DIR/.siasim-stamp"
  fi
  flock -u 9
  exec 9>&-
}
# Builds what decides a property and sets $siasim.
build_for() {
  other=$(other_of "$1")
  if [ -n "$other" ]; then
    build_sim "$other"
    export SIASIM_OTHER="$CARGO_TARGET_DIR/$profile/siasim"
  fi
  build_sim "$(build_of "$1")"
  siasim="$CARGO_TARGET_DIR/release/siasim"
}
# Every other batch of a property runs in this build.
other_of() {
  case "$1" in
    S05) echo fine ;;
    S12) echo unopt ;;
  esac
}
# Which build decides a property.
build_of() {
  case "$1" in
    S06) echo fine ;;
    *) echo plain ;;
  esac
}

if [ "${BASH_SOURCE[0]}" = "$0" ]; then
  case "${1:-all}" in
    all) build_sim plain; build_sim fine; build_sim unopt ;;
    *) build_sim "$1" ;;
  esac
fi
