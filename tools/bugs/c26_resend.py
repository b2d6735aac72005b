CLI='clients/cli/src/'
NODE=open('/verif/tools/cli_node.py').read()
id = 'C26-resend'
property = 'C26'
needs = 'the answer to a submission that was accepted gets lost, and the next blockhash differs'
what_it_breaks = 'the wrap is signed anew with another blockhash and executed a second time'
edits = [
    (CLI+'wrap.rs',
     '        process_transaction(config, transaction.clone()).await?;\n',
     '''        if let Err(error) = process_transaction(config, transaction.clone()).await {
            // A node that did not take the transaction may take it with a newer
            // blockhash
            let refused = error
                .downcast_ref::<solana_client::client_error::ClientError>()
                .is_none_or(|e| e.get_transaction_error().is_some());
            if refused || args.blockhash.is_some() {
                return Err(error);
            }
            let newer = config.rpc_client.get_latest_blockhash().await?;
            transaction.partial_sign(&signers, newer);
            process_transaction(config, transaction.clone()).await?;
        }
'''),
]
files = {'cli_node.py': NODE, 'demo.py': r'''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cli_node import *
m = pubkey('mint')
w = pubkey('payer')
n = Node({m: mint(TOKEN), 'acct': None})
h = pubkey('holding')
n.accounts = {m: mint(TOKEN), h: holding(TOKEN, m, w, 50)}
code, a, s = n.cli('wrap', h, T22, 5)
assert code == 0 and len(s) == 1
plain, hashes = n.call, []
def call(k, p):
    if k == 'getLatestBlockhash':
        hashes.append(0)
        return {'result': {'context': {'slot': 1}, 'value': {'blockhash': b58(bytes([40 + len(hashes)] * 32)), 'lastValidBlockHeight': 200}}}
    r = plain(k, p)
    # the first transaction is taken, and the answer lost
    if k == 'sendTransaction' and len(n.sent) == 1: raise ConnectionError('lost')
    return r
n.call = call
code, b, s = n.cli('wrap', h, T22, 5)
assert len({x.message for x in s}) == 1, 'two different transactions for one wrap'
'''}
demo_sh = '''#!/bin/bash
# Runs demo.py against the built CLI and a mock node.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/sbpf/env.sh
(cd /repo && cargo build -q --offline --locked -p spl-token-wrap-cli --bin spl-token-wrap) || exit 3
PYTHONDONTWRITEBYTECODE=1 python3 "$here/demo.py"
'''
