CLI='clients/cli/src/'
NODE=open('/verif/tools/cli_node.py').read()
id = 'C21-payer-presigner'
property = 'C21'
needs = 'a multisig wrap whose fee payer signs offline too: its address is given as --fee-payer and its signature as --signer'
what_it_breaks = 'the signature of the fee payer is dropped when the transaction is put together, which the node then refuses'
edits = [
    (CLI+'wrap.rs',
     '            signers.push(Arc::from(signer));\n        }\n    }\n\n    let mut transaction',
     '            // the payer has been added already\n            if signer.pubkey() != payer.pubkey() {\n                signers.push(Arc::from(signer));\n            }\n        }\n    }\n\n    let mut transaction'),
]
files = {'cli_node.py': NODE, 'demo.py': r'''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cli_node import *
m, t = pubkey('mint'), pubkey('account')
n = Node({m: mint(TOKEN), t: holding(TOKEN, m, pubkey('multisig'), 50)})
pay, one, two = pubkey('fees'), pubkey('one'), pubkey('two')
base = ['wrap', t, T22, 5, '--transfer-authority', pubkey('multisig'), '--recipient-token-account', pubkey('to'), '--unwrapped-mint', m,
        '--unwrapped-token-program', TOKEN, '--blockhash', b58(bytes([9] * 32))]
def sign(payer, *members):
    args = base + ['--sign-only', '--fee-payer', payer]
    for k in members: args += ['--multisig-signer', k]
    c, o, s = n.cli(*args)
    assert c == 0 and not s
    return o['signOnlyData']['signers']
sigs = sign(n.file('fees'), one, two) + sign(pay, n.file('one'), two) + sign(pay, one, n.file('two'))
args = base + ['--fee-payer', pay]
for k in (one, two): args += ['--multisig-signer', k]
for k in sigs: args += ['--signer', k]
c, o, s = n.cli(*args)
assert len(s) == 1 and not s[0].unsigned(), ('unsigned', s[0].unsigned())
assert c == 0
'''}
demo_sh = '''#!/bin/bash
# Runs demo.py against the built CLI and a mock node.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/sbpf/env.sh
(cd /repo && cargo build -q --offline --locked -p spl-token-wrap-cli --bin spl-token-wrap) || exit 3
PYTHONDONTWRITEBYTECODE=1 python3 "$here/demo.py"
'''
