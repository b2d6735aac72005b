CLI='clients/cli/src/'
NODE=open('/verif/tools/cli_node.py').read()
id = 'C18-trusts-given-mint'
property = 'C18'
needs = 'unwrap with an --unwrapped-mint that is not the mint of the recipient account, and both token programs given as well'
what_it_breaks = 'contradictory options are not refused but submitted: the lookup of the recipient account is skipped when everything is given'
edits = [
    (CLI+'unwrap.rs',
     '    let queried_mint =\n        get_mint_for_token_account(&config.rpc_client, &args.unwrapped_token_recipient).await?;\n',
     '    // (nothing to resolve when the pair is fully given)\n    let queried_mint = match (args.unwrapped_mint, args.unwrapped_token_program) {\n        (Some(mint), Some(_)) if args.wrapped_token_program.is_some() => mint,\n        _ => {\n            get_mint_for_token_account(&config.rpc_client, &args.unwrapped_token_recipient).await?\n        }\n    };\n'),
]
files = {'cli_node.py': NODE, 'demo.py': r'''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cli_node import *
m, o, w, u = pubkey('mint'), pubkey('other mint'), pubkey('wrapped'), pubkey('recipient')
n = Node({m: mint(TOKEN), o: mint(TOKEN), w: holding(T22, pubkey('x'), pubkey('payer'), 9), u: holding(TOKEN, m, pubkey('payer'), 9)})
full = ['--wrapped-token-program', T22, '--unwrapped-token-program', TOKEN]
c, _, s = n.cli('unwrap', w, u, 5, '--unwrapped-mint', m, *full)
assert c == 0 and len(s) == 1
c, _, s = n.cli('unwrap', w, u, 5, '--unwrapped-mint', o, *full)
assert c != 0 and not s, 'an unwrapped mint that contradicts the recipient account was submitted'
'''}
demo_sh = '''#!/bin/bash
# Runs demo.py against the built CLI and a mock node.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/sbpf/env.sh
(cd /repo && cargo build -q --offline --locked -p spl-token-wrap-cli --bin spl-token-wrap) || exit 3
PYTHONDONTWRITEBYTECODE=1 python3 "$here/demo.py"
'''
