#!/bin/bash
# elf.sh: prints the path of the Token Wrap program built for the SVM from
# /repo's working tree.  Builds are cached by the content of the sources, never
# by time stamps.
set -e
h=$(cd /repo && find Cargo.toml Cargo.lock program/Cargo.toml program/src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-16)
d=/verif/target/sbpf/elf; f=$d/$h.so
mkdir -p $d
exec 9>/verif/target/sbpf/lock; flock 9
if [ ! -s $f ]; then
  rm -rf /verif/target/sbpf/sbpf-solana/release/.fingerprint/spl-token-wrap-*
  bash /verif/bin/build-sbf.sh /repo spl-token-wrap >/verif/target/sbpf/build.log 2>&1 9>&- || {
    echo "ERROR: the program does not build:" >&2; tail -30 /verif/target/sbpf/build.log >&2; exit 2; }
  cp /verif/target/sbpf/deploy/spl_token_wrap.so $f.tmp; mv $f.tmp $f
fi
echo $f
