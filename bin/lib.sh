#!/bin/bash
# lib.sh NAME: builds the crate /verif/NAME, which links /repo's own crates, from
# /repo's working tree, and prints the path of its binary.  Decided by the
# content of the sources, never by time stamps.
set -e
n=$1
. /opt/vp/sbpf/env.sh
export CARGO_TARGET_DIR=/verif/target/$n CARGO_TERM_COLOR=never
h=$( (cd /verif && find $n/Cargo.toml $n/Cargo.lock $n/src mc/Cargo.toml mc/src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum
  cd /repo && find Cargo.toml program/Cargo.toml program/src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-16)
mkdir -p $CARGO_TARGET_DIR
exec 9>$CARGO_TARGET_DIR/lock; flock 9
if [ "$(cat $CARGO_TARGET_DIR/hash 2>/dev/null)" != $h ] || [ ! -x $CARGO_TARGET_DIR/release/tw$n ]; then
  rm -rf $CARGO_TARGET_DIR/release/.fingerprint/tw$n-* $CARGO_TARGET_DIR/release/.fingerprint/twmc-* $CARGO_TARGET_DIR/release/.fingerprint/spl-token-wrap-*
  (cd /verif/$n && cargo build --release --offline --locked) >$CARGO_TARGET_DIR/build.log 2>&1 9>&- || {
    echo "ERROR: /verif/$n does not build:" >&2; tail -30 $CARGO_TARGET_DIR/build.log >&2; exit 2; }
  echo $h >$CARGO_TARGET_DIR/hash
fi
echo $CARGO_TARGET_DIR/release/tw$n
