#!/bin/bash
# build-sbf.sh MANIFEST_DIR PACKAGE...: builds cdylibs of PACKAGEs (workspace at
# MANIFEST_DIR) for the Solana VM, from the current working tree, into
# /verif/target/sbpf/deploy/<name>.so (sBPF v0).  Same flags as /opt/vp/sbpf.
here=/opt/vp/sbpf
dir=$1; shift
export HOME=/root PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=/verif/target/sbpf CARGO_INCREMENTAL=0
export __CARGO_TESTS_ONLY_SRC_ROOT=$here/rustsrc/library RUSTC_BOOTSTRAP_SYNTHETIC_TARGET=1
export CARGO_PROFILE_RELEASE_OPT_LEVEL=s CARGO_PROFILE_RELEASE_PANIC=abort
export RUSTFLAGS="-C target-cpu=v2 -C passes=lower-atomic"
export CARGO_TARGET_SBPF_SOLANA_LINKER=/verif/bin/sbpf-linker
unset LD_LIBRARY_PATH
common=(--release --offline --lib --target $here/sbpf-solana.json
  -Zjson-target-spec -Zbuild-std=std,panic_abort -Zbuild-std-features=)
out=/verif/target/sbpf/deploy
mkdir -p $out
cd "$dir" || exit 2
for p in "$@"; do
  n=${p//-/_}
  rm -f $out/$n.so
  cargo rustc "${common[@]}" --locked --crate-type cdylib -p $p || exit 2
  cp $CARGO_TARGET_DIR/sbpf-solana/release/lib$n.so $out/$n.so || exit 2
done
