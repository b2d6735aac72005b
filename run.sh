#!/bin/bash
# run.sh ID [quick|thorough]: decides property ID on /repo's working tree.
id=$1
[ -n "$2" ] && export VERIF_TIER=$2
export RUST_LOG=off HOME=/root PATH="/root/.cargo/bin:$PATH"
cd /verif && mkdir -p out evidence
rm -f /verif/out/$id-*.json /verif/evidence/$id.json
case $id in
  C17)
    TW_ELF=$(bash bin/variants.sh) || exit 2
    bin=$(bash bin/crate.sh mc) || exit 2
    export TW_ELF; exec $bin $id;;
  C07|C15)
    TW_ELF=$(bash bin/elf.sh) || exit 2
    TW_FORK=$(bash bin/fork.sh ForkoftheTokenWrapProgram1111111111111111111) || exit 2
    bin=$(bash bin/lib.sh lib) || exit 2
    export TW_ELF TW_FORK; exec $bin $id;;
  C18|C19|C20|C21|C22|C25|C26)
    TW_ELF=$(bash bin/elf.sh) || exit 2
    TW_CLI=$(bash bin/cli.sh) || exit 2
    bin=$(bash bin/crate.sh cli) || exit 2
    export TW_ELF TW_CLI; exec $bin $id;;
  C23|C24)
    TW_ELF=$(bash bin/elf.sh) || exit 2
    TW_JS=$(bash bin/js.sh) || exit 2
    bin=$(bash bin/crate.sh cli) || exit 2
    export TW_ELF TW_JS; exec $bin $id;;
  C27)
    TW_ELF=$(bash bin/elf.sh) || exit 2
    bin=$(bash bin/crate.sh mc) || exit 2
    export TW_ELF TW_T22=/verif/fixtures/spl_token_2022_zk.so; exec $bin $id;;
  *)
    TW_ELF=$(bash bin/elf.sh) || exit 2
    bin=$(bash bin/crate.sh mc) || exit 2
    export TW_ELF; exec $bin $id;;
esac
