CLI='clients/cli/src/'
NODE=open('/verif/tools/cli_node.py').read()
id = 'C25-processed'
property = 'C25'
needs = 'an account whose latest state is not confirmed yet'
what_it_breaks = 'the command reads state that the cluster may still drop and acts on it'
edits = [
    (CLI+'common.rs',
     '''    let owner = rpc_client.get_account(account).await?.owner;
    Ok(owner)
''',
     '''    // the newest state, so that an account can be used as soon as it is created
    rpc_client
        .get_account_with_commitment(account, CommitmentConfig::processed())
        .await?
        .value
        .map(|account| account.owner)
        .ok_or_else(|| format!("AccountNotFound: pubkey={account}").into())
'''),
    (CLI+'common.rs', '    solana_presigner::Presigner,', '    solana_commitment_config::CommitmentConfig,\n    solana_presigner::Presigner,'),
]
files = {'cli_node.py': NODE, 'demo.py': r'''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cli_node import *
m = pubkey('mint')
class N(Node):
    def call(self, method, p):
        o = p[-1] if p and isinstance(p[-1], dict) else {}
        if method == 'getAccountInfo' and p[0] == m and o.get('commitment') != 'processed':
            p = [pubkey('nothing')] + p[1:]
        return super().call(method, p)
n = N({m: mint(TOKEN)})
assert n.cli('find-pdas', m, T22)[0] != 0, 'acted on a mint that is not confirmed'
'''}
demo_sh = '''#!/bin/bash
# Runs demo.py against the built CLI and a mock node.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/sbpf/env.sh
(cd /repo && cargo build -q --offline --locked -p spl-token-wrap-cli --bin spl-token-wrap) || exit 3
PYTHONDONTWRITEBYTECODE=1 python3 "$here/demo.py"
'''
