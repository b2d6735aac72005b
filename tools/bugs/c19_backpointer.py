CLI='clients/cli/src/'
NODE=open('/verif/tools/cli_node.py').read()
id = 'C19-backpointer-with-mint'
property = 'C19'
needs = 'a wrapped mint address that was already funded in full by someone while the backpointer was not'
what_it_breaks = 'the backpointer is not topped up when the wrapped mint needs nothing, so the transaction fails'
edits = [
    (CLI+'create_mint.rs',
     '    let funded_backpointer_lamports = backpointer_rent.saturating_sub(backpointer_lamports);\n',
     '    // Both accounts are made together, so a funded mint has its backpointer\n    let funded_backpointer_lamports = match funded_wrapped_mint_lamports {\n        0 => 0,\n        _ => backpointer_rent.saturating_sub(backpointer_lamports),\n    };\n'),
]
files = {'cli_node.py': NODE, 'demo.py': r'''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cli_node import *
m = pubkey('mint')
n = Node({m: mint(T22)})
_, a, s = n.cli('create-mint', m, TOKEN)
assert len(s[0].ixs) == 3
n.accounts[a['wrappedMintAddress']] = dict(lamports=n.rent(82))
c, b, s = n.cli('create-mint', m, TOKEN)
assert b['fundedWrappedMintLamports'] == 0
assert b['fundedBackpointerLamports'] == n.rent(32) and len(s[0].ixs) == 2, b
'''}
demo_sh = '''#!/bin/bash
# Runs demo.py against the built CLI and a mock node.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/sbpf/env.sh
(cd /repo && cargo build -q --offline --locked -p spl-token-wrap-cli --bin spl-token-wrap) || exit 3
PYTHONDONTWRITEBYTECODE=1 python3 "$here/demo.py"
'''
