#!/bin/bash
# check.sh PROPERTY      builds the monitors against /repo's working tree and decides one property
# check.sh build         only builds
# check.sh replay FILE   re-executes a recorded violation
set -u
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR=/verif/target CARGO_TERM_COLOR=never
mkdir -p target out evidence
build() {
  # one build at a time; the log is shown only when the build fails
  exec 9>target/.lock; flock 9
  ( cd harness && cargo build --release --offline --locked ) >target/build.log 2>&1 || { tail -n 40 target/build.log >&2; exit 2; }
  case "${1:-}" in
    C2[2-9]|C3?|build|replay)
      ( cd /repo && CARGO_TARGET_DIR=/verif/target/repo cargo build --release --offline --locked --bin svgcleaner ) >target/build-repo.log 2>&1 || { tail -n 40 target/build-repo.log >&2; exit 2; } ;;
  esac
  flock -u 9
}
case "${1:-}" in
  build) build build ;;
  replay) build replay; exec target/release/svgmon replay "$2" ;;
  "") echo "usage: check.sh PROPERTY" >&2; exit 2 ;;
  *) build "$1"; exec target/release/svgmon run "$1" ;;
esac
