CLI='clients/cli/src/'
NODE=open('/verif/tools/cli_node.py').read()
id = 'C20-unconfirmed'
property = 'C20'
needs = 'a transaction that passes preflight and then fails when it is executed'
what_it_breaks = 'the submission is reported as a success with exit code 0 though the transaction failed'
edits = [
    (CLI+'common.rs',
     '''        Ok(Some(
            config
                .rpc_client
                .send_and_confirm_transaction_with_spinner(&transaction)
                .await?,
        ))
''',
     '''        let signature = config.rpc_client.send_transaction(&transaction).await?;
        config.rpc_client.poll_for_signature(&signature).await?;
        Ok(Some(signature))
'''),
]
files = {'cli_node.py': NODE, 'demo.py': r'''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cli_node import *
m = pubkey('mint')
n = Node({m: mint(TOKEN)})
assert n.cli('create-mint', m, T22)[0] == 0
n.lands = False
assert n.cli('create-mint', m, T22)[0] != 0, 'a transaction that failed was called a success'
'''}
demo_sh = '''#!/bin/bash
# Runs demo.py against the built CLI and a mock node.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/sbpf/env.sh
(cd /repo && cargo build -q --offline --locked -p spl-token-wrap-cli --bin spl-token-wrap) || exit 3
PYTHONDONTWRITEBYTECODE=1 python3 "$here/demo.py"
'''
