#!/bin/bash
# run.sh setup | check ID | replay ID FILE
# Builds the harness against /repo's working tree (hooks on) and runs one check.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export RUSTUP_TOOLCHAIN="${VERIF_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg keride_verif" CARGO_TERM_COLOR=never
export VERIF_ROOT="$here"
cd "$here/harness" || exit 2
mkdir -p target
log="$here/harness/target/build.log"
(
  flock 9
  # what is built must be what is in the working tree, whatever the file times say
  stamp="$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)"
  if [ "$stamp" != "$(cat target/repo.stamp 2>/dev/null)" ]; then
    find target -maxdepth 3 -path '*/.fingerprint/keride-*' -exec rm -r {} + 2>/dev/null
  fi
  if ! cargo build --offline --locked >"$log" 2>&1; then
    grep -A12 "^error" "$log" >&2 || tail -40 "$log" >&2
    echo "ERROR: the harness does not build against /repo" >&2
    exit 2
  fi
  echo "$stamp" > target/repo.stamp
) 9>target/build.lock || exit 2
case "${1:-}" in
  setup) echo "built" ;;
  check|replay) exec ./target/debug/harness "$@" ;;
  *) echo "usage: run.sh setup | check ID | replay ID FILE" >&2; exit 2 ;;
esac
