# Files of the demonstrations of changes to the JavaScript client: stand-ins
# of its dependencies, and a runner that bundles the client with demo.mjs.
import os
def js_files(demo):
    d = '/verif/js/stubs/'
    f = {n: open(d + n).read() for n in os.listdir(d)}
    f['demo.mjs'] = "import * as client from 'client';\nimport * as kit from '@solana/kit';\n" + RPC + demo
    f['bundle.mjs'] = '''import { createRequire } from 'node:module';
import { dirname, join } from 'node:path';
import { fileURLToPath } from 'node:url';
const { build } = createRequire('/opt/veriftools/node/node_modules/x.js')('esbuild');
const here = dirname(fileURLToPath(import.meta.url));
const at = n => join(here, n);
await build({
    entryPoints: [at('demo.mjs')], outfile: process.argv[2], bundle: true, platform: 'node', format: 'esm', target: 'node22', logLevel: 'error',
    alias: {
        '@solana/kit': at('kit.mjs'), '@solana/program-client-core': at('client-core.mjs'), '@solana-program/system': at('system.mjs'),
        '@solana-program/token': at('token.mjs'), '@solana-program/token-2022': at('token-2022.mjs'), client: '/repo/clients/js/src/index.ts',
    },
});
'''
    return f
RPC = '''
const RENT = 6960n;
const rpc = ledger => ({
    getAccountInfo: k => ({ send: async () => ({ context: { slot: 1n }, value: ledger[k] ?? null }) }),
    getMinimumBalanceForRentExemption: n => ({ send: async () => (BigInt(n) + 128n) * RENT }),
});
const account = (owner, lamports, data = '') => ({ data: [data, 'base64'], executable: false, lamports, owner, rentEpoch: 0n, space: BigInt(Buffer.from(data, 'base64').length) });
const TOKEN = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
const TOKEN22 = 'TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb';
const SYSTEM = '11111111111111111111111111111111';
const keys = ['So11111111111111111111111111111111111111112', 'SysvarC1ock11111111111111111111111111111111', 'SysvarRent111111111111111111111111111111111', 'Vote111111111111111111111111111111111111111', 'Stake11111111111111111111111111111111111111', 'Config1111111111111111111111111111111111111', 'BPFLoaderUpgradeab1e11111111111111111111111', 'ComputeBudget111111111111111111111111111111'];
function check(what, ok) {
    if (!ok) {
        console.error('FAILED: ' + what);
        process.exit(1);
    }
}
'''
DEMO_SH = '''#!/bin/bash
# Bundles the JavaScript client of /repo with demo.mjs and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
node "$here/bundle.mjs" "$t/demo.out.mjs" && node "$t/demo.out.mjs"
'''
