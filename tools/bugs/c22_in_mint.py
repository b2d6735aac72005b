CLI='clients/cli/src/'
NODE=open('/verif/tools/cli_node.py').read()
id = 'C22-metadata-in-mint-wins'
property = 'C22'
needs = 'a mint that carries TokenMetadata while its metadata pointer names another account'
what_it_breaks = 'the CLI passes no source account though the mint designates another one, and the program refuses'
edits = [
    (CLI+'sync_metadata_to_token2022.rs',
     '        let resolved = match mint_state.get_extension::<MetadataPointer>() {\n',
     '        let in_mint = mint_state\n            .get_extension_types()?\n            .contains(&spl_token_2022_interface::extension::ExtensionType::TokenMetadata);\n        let resolved = match mint_state.get_extension::<MetadataPointer>() {\n            // metadata kept in the mint needs no other account\n            Ok(_) if in_mint => None,\n'),
]
files = {'cli_node.py': NODE, 'demo.py': r'''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cli_node import *
m, elsewhere = pubkey('mint'), pubkey('elsewhere')
ptr = tlv(18, bytes(32) + unb58(elsewhere))
meta = bytes(32) + unb58(m) + struct.pack('<I1sI1sI1sI', 1, b'a', 1, b'b', 1, b'c', 0)
n = Node({m: mint(T22, ptr)})
assert n.cli('sync-metadata-to-token2022', m)[1]['sourceMetadata'] == elsewhere
n.accounts[m] = mint(T22, ptr + tlv(19, meta))
c, o, s = n.cli('sync-metadata-to-token2022', m)
assert c == 0 and o['sourceMetadata'] == elsewhere and elsewhere in s[0].ixs[0][1], o
'''}
demo_sh = '''#!/bin/bash
# Runs demo.py against the built CLI and a mock node.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/sbpf/env.sh
(cd /repo && cargo build -q --offline --locked -p spl-token-wrap-cli --bin spl-token-wrap) || exit 3
PYTHONDONTWRITEBYTECODE=1 python3 "$here/demo.py"
'''
