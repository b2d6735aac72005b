#!/bin/bash
# Builds the framework and warms the caches the checks build from.
cd /verif || exit 1
bash bin/crate.sh mc && bash bin/elf.sh && bash bin/variants.sh &&
  bash bin/fork.sh ForkoftheTokenWrapProgram1111111111111111111 && bash bin/lib.sh lib &&
  bash bin/cli.sh && bash bin/js.sh && bash bin/crate.sh cli
