#!/bin/bash
# build_t22.sh: builds fixtures/spl_token_2022_zk.so (Token-2022 with zk-ops) from
# the cargo cache. Run by hand; the result is committed.
set -e
t=$(mktemp -d /tmp/t22-XXXXXX)
mkdir -p $t/crate/src
cat > $t/crate/Cargo.toml <<'T'
[package]
name = "tw-token-2022"
version = "0.1.0"
edition = "2021"
[lib]
crate-type = ["rlib"]
[dependencies]
spl-token-2022 = "=11.0.0"
[workspace]
T
echo 'pub use spl_token_2022::*;' > $t/crate/src/lib.rs
cp /repo/Cargo.lock $t/crate/
(cd $t/crate && cargo +nightly metadata --offline --format-version 1 >/dev/null)
# little inlining: whole functions must fit the branch range and the 4 KiB frames
sed "s#spl_token_wrap|#spl_token_2022|&#; s#opt=-O2#opt='-O2 --llvm-args=-inline-instr-cost=1000'#
  s#__fixdfdi#&,trunc,round,__floattidf,exp,__truncdfsf2,__floatsidf#" /verif/bin/sbpf-linker > $t/sbpf-linker
chmod +x $t/sbpf-linker
sed "s#/verif/target/sbpf#$t/sbpf#; s#/verif/bin/sbpf-linker#$t/sbpf-linker#
  s#passes=lower-atomic#& -C llvm-args=-inline-instr-cost=1000#" /verif/bin/build-sbf.sh > $t/build.sh
sed -i "s#^out=.*#out=$t/deploy#" $t/build.sh
bash $t/build.sh $t/crate spl-token-2022
cp $t/deploy/spl_token_2022.so /verif/fixtures/spl_token_2022_zk.so
rm -rf "$t"
