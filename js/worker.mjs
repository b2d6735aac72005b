// Runs the JavaScript client: one request a line on standard input, one
// answer a line on standard output.  What the client asks of the network it
// is answered from the ledger of the request.
import * as client from 'client';
import * as utilities from 'client-utilities';
import * as kit from '@solana/kit';
import { createInterface } from 'node:readline';

function rpc(req) {
    let n = 0;
    const call = f => (...args) => ({
        send: async () => {
            if (req.fault === n++) throw new Error('the node does not answer');
            return f(...args);
        },
    });
    const info = k => {
        const a = req.ledger[k];
        if (!a) return null;
        const data = Buffer.from(a.data, 'base64');
        return { data: [a.data, 'base64'], executable: a.executable, lamports: BigInt(a.lamports), owner: a.owner, rentEpoch: 0n, space: BigInt(data.length) };
    };
    const known = {
        getAccountInfo: call(k => ({ context: { slot: 1n }, value: info(k) })),
        getMultipleAccounts: call(ks => ({ context: { slot: 1n }, value: ks.map(info) })),
        getMinimumBalanceForRentExemption: call(len => (BigInt(len) + 128n) * BigInt(req.rent)),
    };
    const asked = () => n;
    return [new Proxy(known, {
        get: (t, k) => {
            if (!(k in t) && typeof k === 'string' && k !== 'then') throw new Error('UNMODELLED request ' + k);
            return t[k];
        },
    }), asked];
}
// $s: what signs elsewhere; $k: what signs here
const keyed = a => Object.freeze({ ...kit.createNoopSigner(a), keyPair: {} });
function input(v, r) {
    if (Array.isArray(v)) return v.map(x => input(x, r));
    if (v === null || typeof v !== 'object') return v;
    if ('$n' in v) return BigInt(v.$n);
    if ('$b' in v) return Uint8Array.from(Buffer.from(v.$b, 'base64'));
    if ('$s' in v) return (r.signers[v.$s] ??= kit.createNoopSigner(v.$s));
    if ('$k' in v) return (r.signers[v.$k] ??= keyed(v.$k));
    if ('$rpc' in v) return r.rpc;
    if ('$map' in v) return Object.fromEntries(v.$map.map(([k, x]) => [k, input(x, r)]));
    return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, input(x, r)]));
}
function output(v) {
    if (typeof v === 'bigint') return { $n: String(v) };
    if (v instanceof Uint8Array) return { $b: Buffer.from(v).toString('base64') };
    if (typeof v === 'function') return undefined;
    if (Array.isArray(v)) return v.map(output);
    if (v === null || typeof v !== 'object') return v;
    if (kit.isTransactionSigner(v)) return { $s: v.address };
    return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, output(x)]));
}
const own = {
    // a multisig helper, and the transaction its message compiles to
    offline: async ([name, args]) => {
        const m = await client[name](args);
        const c = kit.compileMessage(m);
        // a required signer is to be carried as it was given, to be asked for its signature
        const carried = [m.feePayer, ...m.instructions.flatMap(i => i.accounts.map(a => a.signer ?? null))];
        const given = [args.payer, args.transferAuthority, ...(args.multiSigners ?? [])];
        const asked = c.signers.filter(s => carried.some(x => x && x.address === s && given.includes(x)));
        return { ...c, asked, version: m.version, feePayer: m.feePayer.address, lifetime: m.lifetimeConstraint };
    },
    // signatures keep the order in which they are given
    combine: async ([parts, blockhash]) => {
        const t = client.combinedMultisigTx({ signedTxs: parts, blockhash });
        return { messageBytes: t.messageBytes, signatures: Object.entries(t.signatures), lifetime: t.lifetimeConstraint };
    },
    roundTrip: async ([codec, value]) => {
        const c = client[codec]();
        const bytes = c.encode(value);
        return { bytes, value: c.decode(bytes) };
    },
    decode: async ([codec, bytes]) => client[codec]().decode(bytes),
    identify: async ([bytes]) => [client.identifyTokenWrapInstruction(bytes), client.identifyTokenWrapInstruction({ data: bytes })].map(x => client.TokenWrapInstruction[x]),
    parse: async ([name, ix]) => {
        const [whole, one] = [client.parseTokenWrapInstruction(ix), client[name](ix)];
        return { type: client.TokenWrapInstruction[whole.instructionType], whole, one };
    },
    errors: async () => Object.fromEntries(Object.entries(client).filter(([k]) => k.startsWith('TOKEN_WRAP_ERROR__'))),
    isError: async ([code, program, at]) => {
        const e = new kit.SolanaError(kit.SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM, { code, index: 0 });
        return client.isTokenWrapError(e, { instructions: { 0: { programAddress: program } } }, at);
    },
    plugin: async ([kind, name, args], rpc) => {
        const c = client.tokenWrapProgram()({ rpc });
        return kind === 'accounts' ? await c.tokenWrap.accounts.backpointer[name](...args) : await c.tokenWrap[kind][name](...args);
    },
    discriminators: async ([name]) => client['get' + name + 'DiscriminatorBytes'](),
};
async function answer(req) {
    const [r, asked] = rpc(req);
    try {
        const args = input(req.args, { rpc: r, signers: {} });
        const v = req.fn in own ? await own[req.fn](args, r) : await (client[req.fn] ?? utilities[req.fn])(...args);
        return { ok: output(v) ?? null, asked: asked() };
    } catch (e) {
        const msg = String(e?.message ?? e);
        return msg.startsWith('UNMODELLED') ? { unmodelled: msg } : { err: msg + (req.stack ? '\n' + e?.stack : ''), asked: asked() };
    }
}
for await (const line of createInterface({ input: process.stdin })) {
    process.stdout.write(JSON.stringify(await answer(JSON.parse(line))) + '\n');
}
