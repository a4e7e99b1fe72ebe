#!/bin/bash
# check.sh ID         runs the check of one property against /repo's working tree (rebuilding what it needs)
# check.sh build      builds only
# check.sh replay F   runs the case of a replay file
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WORKSPACE_WRAPPER
log="$here/scratch/build.$$.log"
mkdir -p "$here/scratch"

harness() {
  CARGO_TARGET_DIR="$here/harness/target" RUSTC_WRAPPER="$here/harness/sancov-rustc.sh" \
    cargo build --offline --locked --release --manifest-path "$here/harness/Cargo.toml" >"$log" 2>&1
}
# The tools of the repository, from a manifest of our own next to their sources, so nothing is written to /repo.
utils() {
  local d="$here/harness/utils-build"
  mkdir -p "$d"
  sed 's#path *= *"\.\./*"#path="/repo"#' /repo/utils/Cargo.toml >"$d/Cargo.toml.new"
  printf '\n[workspace]\n' >>"$d/Cargo.toml.new"
  cmp -s "$d/Cargo.toml.new" "$d/Cargo.toml" || cp "$d/Cargo.toml.new" "$d/Cargo.toml"
  cp "$here/harness/utils.lock" "$d/Cargo.lock"
  ln -sfn /repo/utils/src "$d/src"
  CARGO_TARGET_DIR="$here/harness/target-utils" cargo build --offline --manifest-path "$d/Cargo.toml" >"$log" 2>&1
}
built() {
  "$@" && return
  echo "cannot build ($*)" >&2
  cat "$log" >&2
  rm -f "$log"
  exit 2
}

case "${1:-}" in
  build) built harness; built utils; rm -f "$log"; exit 0 ;;
  replay) built harness; built utils; rm -f "$log"
    UTILS_BIN="$here/harness/target-utils/debug/yamd_utlis" exec "$here/harness/target/release/harness" replay "$2" ;;
  Y28) built harness; built utils ;;
  Y[0-9][0-9]) built harness ;;
  *) echo "usage: check.sh ID | build | replay FILE" >&2; exit 2 ;;
esac
rm -f "$log"
UTILS_BIN="$here/harness/target-utils/debug/yamd_utlis" exec "$here/harness/target/release/harness" check "$1"
