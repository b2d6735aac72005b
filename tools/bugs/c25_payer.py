CLI='clients/cli/src/'
NODE=open('/verif/tools/cli_node.py').read()
id = 'C25-payer-not-loaded'
property = 'C25'
needs = 'a --fee-payer that cannot be loaded, while the default key can'
what_it_breaks = 'the default key pays, and signs for the tokens as their default authority, although the user named another payer'
edits = [
    (CLI+'config.rs',
     '                    allow_null_signer: true,\n                },\n            ),',
     '                    allow_null_signer: true,\n                },\n            )\n            .or_else(|_| {\n                signer_from_path(\n                    &matches,\n                    &cli_config.keypair_path,\n                    "fee_payer",\n                    wallet_manager,\n                )\n            }),'),
]
files = {'cli_node.py': NODE, 'demo.py': r'''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cli_node import *
m = pubkey('mint')
n = Node({m: mint(TOKEN)})
assert n.cli('create-mint', m, T22, '--fee-payer', n.file('second'))[0] == 0
assert n.sent[0].keys[0] == pubkey('second')
open(os.path.join(n.dir.name, 'bad.json'), 'w').write('[1, 2, 3]')
code = n.cli('create-mint', m, T22, '--fee-payer', os.path.join(n.dir.name, 'bad.json'))[0]
assert code != 0 and not n.sent, 'paid for by a key the user did not name'
'''}
demo_sh = '''#!/bin/bash
# Runs demo.py against the built CLI and a mock node.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/sbpf/env.sh
(cd /repo && cargo build -q --offline --locked -p spl-token-wrap-cli --bin spl-token-wrap) || exit 3
PYTHONDONTWRITEBYTECODE=1 python3 "$here/demo.py"
'''
