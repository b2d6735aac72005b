#!/bin/bash
# cli.sh: builds the command line client from /repo's working tree and prints
# the path of its binary.  Decided by the content of the sources.
set -e
. /opt/vp/sbpf/env.sh
export CARGO_TARGET_DIR=/verif/target/cli-bin CARGO_PROFILE_DEV_DEBUG=0
h=$(cd /repo && find Cargo.toml Cargo.lock program/Cargo.toml program/src clients/cli/Cargo.toml clients/cli/src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-16)
mkdir -p $CARGO_TARGET_DIR
exec 9>$CARGO_TARGET_DIR/lock; flock 9
out=$CARGO_TARGET_DIR/out/$h
if [ ! -x $out ]; then
  rm -rf /verif/target/cli-bin/debug/.fingerprint/spl-token-wrap-* /verif/target/cli-bin/debug/incremental
  rm -f /verif/target/cli-bin/debug/spl-token-wrap
  (cd /repo && cargo build --offline --locked -p spl-token-wrap-cli --bin spl-token-wrap) >$CARGO_TARGET_DIR/build.log 2>&1 9>&- || {
    echo "ERROR: the CLI does not build:" >&2; tail -30 $CARGO_TARGET_DIR/build.log >&2; exit 2; }
  rm -rf /verif/target/cli-bin/debug/incremental
  mkdir -p $CARGO_TARGET_DIR/out
  # the last few are kept
  ls -t $CARGO_TARGET_DIR/out | tail -n +4 | while read f; do rm -f /verif/target/cli-bin/out/$f; done
  cp $CARGO_TARGET_DIR/debug/spl-token-wrap $out.tmp; mv $out.tmp $out
fi
echo $out
