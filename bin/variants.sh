#!/bin/bash
# variants.sh: like elf.sh, for /verif/variants (the customizers) on /repo's tree.
set -e
h=$( (cd /repo && find Cargo.toml Cargo.lock program/Cargo.toml program/src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum
  cd /verif/variants && find Cargo.toml Cargo.lock src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-16)
d=/verif/target/sbpf/variants; f=$d/$h.so
mkdir -p $d
exec 9>/verif/target/sbpf/lock; flock 9
if [ ! -s $f ]; then
  rm -rf /verif/target/sbpf/sbpf-solana/release/.fingerprint/{spl-token-wrap,tw-variants}-*
  bash /verif/bin/build-sbf.sh /verif/variants tw-variants >/verif/target/sbpf/variants.log 2>&1 9>&- || {
    echo "ERROR: the customizer programs do not build:" >&2; tail -30 /verif/target/sbpf/variants.log >&2; exit 2; }
  cp /verif/target/sbpf/deploy/tw_variants.so $f.tmp; mv $f.tmp $f
fi
echo $f
