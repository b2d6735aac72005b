CLI='clients/cli/src/'
NODE=open('/verif/tools/cli_node.py').read()
id = 'C25-file-over-url'
property = 'C25'
needs = 'both -C and --url, naming different nodes'
what_it_breaks = 'the node named by --url is passed over for that of the configuration file given with -C'
edits = [
    (CLI+'config.rs',
     'cli.json_rpc_url.unwrap_or(cli_config.json_rpc_url),',
     'match (cli.config_file, cli.json_rpc_url) {\n                (None, Some(url)) => url,\n                _ => cli_config.json_rpc_url,\n            },'),
]
files = {'cli_node.py': NODE, 'demo.py': r'''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cli_node import *
m = pubkey('mint')
a, b = Node({m: mint(TOKEN)}), Node({m: mint(TOKEN)})
assert a.cli('create-mint', m, T22)[0] == 0 and a.sent
a.sent, b.sent = [], []
assert a.cli('create-mint', m, T22, '--url', b.url)[0] == 0
assert b.sent and not a.sent, 'the transaction went to the node of the file, not to that of --url'
'''}
demo_sh = '''#!/bin/bash
# Runs demo.py against the built CLI and a mock node.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/sbpf/env.sh
(cd /repo && cargo build -q --offline --locked -p spl-token-wrap-cli --bin spl-token-wrap) || exit 3
PYTHONDONTWRITEBYTECODE=1 python3 "$here/demo.py"
'''
