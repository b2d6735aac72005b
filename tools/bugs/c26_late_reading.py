CLI='clients/cli/src/'
NODE=open('/verif/tools/cli_node.py').read()
id = 'C26-late-reading'
property = 'C26'
needs = 'the wrapped mint address is funded by someone else after the funding was computed and before the result is put together'
what_it_breaks = 'the amounts reported as funded are not those the executed transaction paid'
edits = [
    (CLI+'create_mint.rs',
     '    let latest_blockhash = rpc_client.get_latest_blockhash().await?;\n',
     '''    // What is still missing, for the report
    let funded_wrapped_mint_lamports = match funded_wrapped_mint_lamports {
        0 => 0,
        _ => mint_rent.saturating_sub(rpc_client.get_balance(&wrapped_mint_address).await?),
    };
    let latest_blockhash = rpc_client.get_latest_blockhash().await?;
'''),
]
files = {'cli_node.py': NODE, 'demo.py': r'''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cli_node import *
m = pubkey('mint')
n = Node({m: mint(T22)})
plain, late = n.call, []
def call(k, p):
    if k == 'getBalance': return {'result': {'context': {'slot': 1}, 'value': n.accounts.get(p[0], {}).get('lamports', 0)}}
    if k == 'getMinimumBalanceForRentExemption' and late and p[0] == 32: n.accounts[late[0]] = dict(lamports=7)
    return plain(k, p)
n.call = call
code, a, s = n.cli('create-mint', m, TOKEN)
assert code == 0
late.append(a['wrappedMintAddress'])
code, b, s = n.cli('create-mint', m, TOKEN)
paid = struct.unpack('<Q', s[0].ixs[0][2][4:])[0]
assert b['fundedWrappedMintLamports'] == paid, (b, paid)
'''}
demo_sh = '''#!/bin/bash
# Runs demo.py against the built CLI and a mock node.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/sbpf/env.sh
(cd /repo && cargo build -q --offline --locked -p spl-token-wrap-cli --bin spl-token-wrap) || exit 3
PYTHONDONTWRITEBYTECODE=1 python3 "$here/demo.py"
'''
