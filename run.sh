#!/bin/bash
# run.sh PROPERTY [quick|thorough]   run one check against /repo's working tree
# run.sh replay FILE                 show what the code does with a reported case
# run.sh setup                       build the checker
set -u
export MC_VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export MC_REPO="${MC_REPO:-/repo}"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN="${MC_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR RUSTC_WRAPPER CARGO_INCREMENTAL
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
what="${1:?usage: run.sh PROPERTY [quick|thorough]}"
tier="${2:-${VERIF_TIER:-quick}}"
# one build directory per state of the code under test and of the checker
h=$( (cd "$MC_REPO" && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum; cd "$MC_VERIF/mc" && find src templates Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-16)
export MC_BUILD="$MC_VERIF/.build/$h"
mkdir -p "$MC_BUILD"
# keep only the most recent build directories
ls -1dt "$MC_VERIF"/.build/*/ 2>/dev/null | tail -n +5 | while read -r d; do rm -rf "$d"; done
touch "$MC_BUILD"
bin=drive
case "$what" in C12|C13) bin=astmc ;; esac
build() {
  ( cd "$MC_VERIF/mc" && cargo build --release --offline --quiet --lib --bin "$1" --target-dir "$MC_BUILD/target" ) >"$MC_BUILD/build-$1.log" 2>&1
}
if [ "$what" = setup ]; then
  build drive && build astmc || { cat "$MC_BUILD"/build-*.log; exit 2; }
  exit 0
fi
if ! build "$bin"; then
  tail -50 "$MC_BUILD/build-$bin.log"
  echo "the checker does not build against $MC_REPO" >&2
  exit 2
fi
ulimit -c 0
if [ "$what" = replay ]; then
  exec "$MC_BUILD/target/release/drive" replay "$2"
fi
exec "$MC_BUILD/target/release/$bin" "$what" "$tier"
