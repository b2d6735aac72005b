#!/bin/bash
# fork.sh ID: prints the path of the Token Wrap program of /repo's working tree
# built as a deployment under another id (only the declared id differs).
set -e
id=$1
h=$( (echo $id; cd /repo && find Cargo.toml Cargo.lock program/Cargo.toml program/src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-16)
d=/verif/target/sbpf/fork; f=$d/$h.so; src=/verif/target/sbpf/fork-src
mkdir -p $d
exec 9>/verif/target/sbpf/lock; flock 9
if [ ! -s $f ]; then
  rm -rf /verif/target/sbpf/fork-src
  mkdir -p $src
  (cd /repo && tar cf - --exclude=./target --exclude=./.git --exclude=node_modules .) | tar xf - -C $src
  sed -i "s/TwRapQCDhWkZRrDaHfZGuHxkZ91gHDRkyuzNqeU5MgR/$id/g" $(grep -rl TwRapQCDhWkZRrDaHfZGuHxkZ91gHDRkyuzNqeU5MgR $src/program/src)
  rm -rf /verif/target/sbpf/sbpf-solana/release/.fingerprint/spl-token-wrap-*
  bash /verif/bin/build-sbf.sh $src spl-token-wrap >/verif/target/sbpf/fork.log 2>&1 9>&- || {
    echo "ERROR: the second deployment does not build:" >&2; tail -30 /verif/target/sbpf/fork.log >&2; exit 2; }
  cp /verif/target/sbpf/deploy/spl_token_wrap.so $f.tmp; mv $f.tmp $f
  rm -rf /verif/target/sbpf/fork-src /verif/target/sbpf/sbpf-solana/release/.fingerprint/spl-token-wrap-*
fi
echo $f
