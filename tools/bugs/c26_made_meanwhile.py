CLI='clients/cli/src/'
NODE=open('/verif/tools/cli_node.py').read()
id = 'C26-made-meanwhile'
property = 'C26'
needs = 'someone else creates the wrapped mint between the reads of the command and its submission'
what_it_breaks = 'the failed submission is reported as a success, with funding that was never paid, though this run executed nothing'
edits = [
    (CLI+'create_mint.rs',
     '    let signature = process_transaction(config, transaction).await?;\n',
     '''    let signature = match process_transaction(config, transaction).await {
        Ok(signature) => signature,
        // Creation is permissionless: if the mint was not there before and is
        // there now, what was asked for has been done
        Err(_)
            if !existed
                && get_account_owner(&rpc_client, &wrapped_mint_address)
                    .await
                    .is_ok_and(|owner| owner == args.wrapped_token_program) =>
        {
            None
        }
        Err(e) => return Err(e),
    };
'''),
    (CLI+'create_mint.rs',
     '    let wrapped_mint_lamports = wrapped_mint_account.map_or(0, |account| account.lamports);\n',
     '''    let existed = wrapped_mint_account
        .as_ref()
        .is_some_and(|account| account.owner == args.wrapped_token_program);
    let wrapped_mint_lamports = wrapped_mint_account.map_or(0, |account| account.lamports);
'''),
    (CLI+"create_mint.rs", "        common::{parse_pubkey,", "        common::{get_account_owner, parse_pubkey,"),
]
files = {'cli_node.py': NODE, 'demo.py': r'''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cli_node import *
m = pubkey('mint')
n = Node({m: mint(T22)})
code, a, s = n.cli('create-mint', m, TOKEN)
assert code == 0 and len(s) == 1
# a rival is faster: the submission fails
plain = n.call
def call(k, p):
    if k != 'sendTransaction': return plain(k, p)
    plain(k, p)
    n.accounts[a['wrappedMintAddress']] = mint(TOKEN)
    return {'error': {'code': -32002, 'message': 'Transaction simulation failed', 'data': {'err': {'InstructionError': [2, {'Custom': 5}]}, 'logs': [], 'accounts': None, 'unitsConsumed': 0, 'returnData': None}}}
n.call = call
code, b, s = n.cli('create-mint', m, TOKEN)
assert code != 0, 'success though nothing was executed'
'''}
demo_sh = '''#!/bin/bash
# Runs demo.py against the built CLI and a mock node.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/sbpf/env.sh
(cd /repo && cargo build -q --offline --locked -p spl-token-wrap-cli --bin spl-token-wrap) || exit 3
PYTHONDONTWRITEBYTECODE=1 python3 "$here/demo.py"
'''
