CLI='clients/cli/src/'
NODE=open('/verif/tools/cli_node.py').read()
id = 'C18-authority-ata'
property = 'C18'
needs = 'wrap without --recipient-token-account by a transfer authority other than the fee payer (a delegate or another holder)'
what_it_breaks = 'the wrapped tokens go to the associated account of the transfer authority instead of that of the fee payer, the documented default'
edits = [
    (CLI+'wrap.rs',
     '    // If no recipient passed, get ATA of payer\n    let recipient_token_account = args.recipient_token_account.unwrap_or_else(|| {\n        get_associated_token_address_with_program_id(\n            &payer.pubkey(),\n            &wrapped_mint_address,\n            &args.wrapped_token_program,\n        )\n    });\n\n',
     ''),
    (CLI+'wrap.rs',
     '    let mut multisig_signers: Vec<Arc<dyn Signer>> = vec![];\n',
     '    // If no recipient passed, get ATA of the party whose tokens are wrapped\n    let recipient_token_account = args.recipient_token_account.unwrap_or_else(|| {\n        get_associated_token_address_with_program_id(\n            &transfer_authority_signer.pubkey(),\n            &wrapped_mint_address,\n            &args.wrapped_token_program,\n        )\n    });\n\n    let mut multisig_signers: Vec<Arc<dyn Signer>> = vec![];\n'),
]
files = {'cli_node.py': NODE, 'demo.py': r'''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cli_node import *
m, t = pubkey('mint'), pubkey('account')
n = Node({m: mint(TOKEN), t: holding(TOKEN, m, pubkey('payer'), 50)})
_, a, s = n.cli('wrap', t, T22, 5)
_, b, r = n.cli('wrap', t, T22, 5, '--transfer-authority', n.file('delegate'))
assert s[0].ixs[0][1][0] == a['recipientTokenAccount']
assert b['recipientTokenAccount'] == a['recipientTokenAccount'] == r[0].ixs[0][1][0], (a, b)
'''}
demo_sh = '''#!/bin/bash
# Runs demo.py against the built CLI and a mock node.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/sbpf/env.sh
(cd /repo && cargo build -q --offline --locked -p spl-token-wrap-cli --bin spl-token-wrap) || exit 3
PYTHONDONTWRITEBYTECODE=1 python3 "$here/demo.py"
'''
