CLI='clients/cli/src/'
NODE=open('/verif/tools/cli_node.py').read()
id = 'C25-unreadable-file'
property = 'C25'
needs = 'a -C file that cannot be loaded, and a usable default configuration'
what_it_breaks = 'a configuration file the user named and which cannot be loaded is passed over silently: the command runs with the node and the key of the default configuration'
edits = [
    (CLI+'config.rs',
     '            solana_cli_config::Config::load(config_file)\n                .map_err(|e| anyhow!("Could not load config file: {}", e))?\n        } else',
     '            solana_cli_config::Config::load(config_file)\n                .or_else(|e| match &*solana_cli_config::CONFIG_FILE {\n                    Some(default) => solana_cli_config::Config::load(default),\n                    None => Err(e),\n                })\n                .map_err(|e| anyhow!("Could not load config file: {}", e))?\n        } else'),
]
files = {'cli_node.py': NODE, 'demo.py': r'''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cli_node import *
m = pubkey('mint')
n = Node({m: mint(TOKEN)})
assert n.cli('create-mint', m, T22)[0] == 0 and n.sent
d = os.path.join(n.dir.name, '.config/solana/cli')
os.makedirs(d)
os.rename(os.path.join(n.dir.name, 'config.yml'), os.path.join(d, 'config.yml'))
def run(*o):
    n.sent = []
    return subprocess.run(['/repo/target/debug/spl-token-wrap', *o, 'create-mint', m, T22], cwd=n.dir.name, stdin=subprocess.DEVNULL,
                          env={'HOME': n.dir.name, 'PATH': '/usr/bin:/bin'}, timeout=120).returncode
assert run() == 0 and n.sent
assert run('-C', os.path.join(n.dir.name, 'staging.yml')) != 0 and not n.sent, 'acted with the default configuration instead of the one named'
'''}
demo_sh = '''#!/bin/bash
# Runs demo.py against the built CLI and a mock node.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/sbpf/env.sh
(cd /repo && cargo build -q --offline --locked -p spl-token-wrap-cli --bin spl-token-wrap) || exit 3
PYTHONDONTWRITEBYTECODE=1 python3 "$here/demo.py"
'''
