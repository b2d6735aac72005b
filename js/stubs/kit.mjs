// Stand-in for @solana/kit v7, written from its documentation: what the
// JavaScript client uses of it (and its near neighbours), with its behaviour.
import { createHash, generateKeyPairSync } from 'node:crypto';

// ---- errors ---------------------------------------------------------------------
export const SOLANA_ERROR__PROGRAM_CLIENTS__INSUFFICIENT_ACCOUNT_METAS = 8500000;
export const SOLANA_ERROR__PROGRAM_CLIENTS__UNRECOGNIZED_INSTRUCTION_TYPE = 8500001;
export const SOLANA_ERROR__PROGRAM_CLIENTS__FAILED_TO_IDENTIFY_INSTRUCTION = 8500002;
export const SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM = 4615026;
export class SolanaError extends Error {
    constructor(code, context = {}) {
        super(`Solana error #${code}`);
        this.name = 'SolanaError';
        this.context = Object.freeze({ __code: code, ...context });
    }
}
export function isSolanaError(e, code) {
    return e instanceof Error && e.name === 'SolanaError' && (code === undefined || e.context.__code === code);
}
export function isProgramError(error, transactionMessage, programAddress, code) {
    if (!isSolanaError(error, SOLANA_ERROR__INSTRUCTION_ERROR__CUSTOM)) return false;
    if (transactionMessage.instructions[error.context.index]?.programAddress !== programAddress) return false;
    return code === undefined || error.context.code === code;
}
const fail = what => {
    throw new SolanaError(what);
};

// ---- base 58 and addresses ----------------------------------------------------------
const ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
function b58decode(s) {
    let n = 0n;
    for (const c of s) {
        const d = ALPHABET.indexOf(c);
        if (d < 0) fail('CODECS__INVALID_STRING_FOR_BASE');
        n = n * 58n + BigInt(d);
    }
    const out = [];
    while (n > 0n) {
        out.unshift(Number(n & 255n));
        n >>= 8n;
    }
    for (const c of s) {
        if (c !== '1') break;
        out.unshift(0);
    }
    return Uint8Array.from(out);
}
function b58encode(b) {
    let n = 0n;
    for (const x of b) n = (n << 8n) | BigInt(x);
    let s = '';
    while (n > 0n) {
        s = ALPHABET[Number(n % 58n)] + s;
        n /= 58n;
    }
    for (const x of b) {
        if (x !== 0) break;
        s = '1' + s;
    }
    return s;
}
const known = new Map();
function addressBytes(a) {
    if (typeof a !== 'string') fail('ADDRESSES__INVALID');
    let b = known.get(a);
    if (!b) {
        b = b58decode(a);
        if (b.length !== 32) fail('ADDRESSES__INVALID_BYTE_LENGTH');
        known.set(a, b);
    }
    return b;
}
export function isAddress(a) {
    try {
        addressBytes(a);
        return true;
    } catch {
        return false;
    }
}
export function assertIsAddress(a) {
    addressBytes(a);
}
export const address = a => (addressBytes(a), a);

const P = (1n << 255n) - 19n;
const mod = x => ((x % P) + P) % P;
function pow(b, e) {
    let r = 1n;
    for (b = mod(b); e > 0n; e >>= 1n) {
        if (e & 1n) r = (r * b) % P;
        b = (b * b) % P;
    }
    return r;
}
const D = mod(-121665n * pow(121666n, P - 2n));
function onCurve(b) {
    let y = 0n;
    for (let i = 31; i >= 0; i--) y = (y << 8n) | BigInt(i === 31 ? b[i] & 127 : b[i]);
    const y2 = mod(y * y);
    const u = mod(y2 - 1n);
    const v = mod(D * y2 + 1n);
    const x2 = mod(u * pow(v, P - 2n));
    return x2 === 0n ? b[31] >> 7 === 0 : pow(x2, (P - 1n) / 2n) === 1n;
}
export const isOffCurveAddress = a => !onCurve(addressBytes(a));
const utf8 = new TextEncoder();
const derived = new Map();
const seedBytes = s => (typeof s === 'string' ? utf8.encode(s) : s);
export async function getProgramDerivedAddress({ programAddress, seeds }) {
    const parts = seeds.map(seedBytes);
    if (parts.length > 15) fail('ADDRESSES__MAX_NUMBER_OF_PDA_SEEDS_EXCEEDED');
    for (const p of parts) if (p.length > 32) fail('ADDRESSES__MAX_PDA_SEED_LENGTH_EXCEEDED');
    const memo = [programAddress, ...parts.map(p => Buffer.from(p).toString('hex'))].join('/');
    let hit = derived.get(memo);
    for (let bump = 255; !hit && bump > 0; bump--) {
        const h = createHash('sha256');
        for (const p of parts) h.update(p);
        const k = h.update(Uint8Array.of(bump)).update(addressBytes(programAddress)).update('ProgramDerivedAddress').digest();
        if (!onCurve(k)) hit = [b58encode(k), bump];
    }
    if (!hit) fail('ADDRESSES__FAILED_TO_FIND_VIABLE_PDA_BUMP_SEED');
    if (derived.size > 200000) derived.clear();
    derived.set(memo, hit);
    return Object.freeze([...hit]);
}

// ---- codecs -------------------------------------------------------------------------
// An encoder has getSizeFromValue and write, a decoder has read, as in kit.
export function createEncoder(e) {
    const size = v => e.fixedSize ?? e.getSizeFromValue(v);
    return Object.freeze({
        ...e,
        encode: v => {
            const b = new Uint8Array(size(v));
            e.write(v, b, 0);
            return b;
        },
    });
}
export function createDecoder(d) {
    return Object.freeze({ ...d, decode: (b, o = 0) => d.read(b, o)[0] });
}
export const getEncodedSize = (v, e) => e.fixedSize ?? e.getSizeFromValue(v);
export function combineCodec(enc, dec) {
    if ((enc.fixedSize === undefined) !== (dec.fixedSize === undefined)) fail('CODECS__ENCODER_DECODER_SIZE_COMPATIBILITY_MISMATCH');
    if (enc.fixedSize !== dec.fixedSize) fail('CODECS__ENCODER_DECODER_FIXED_SIZE_MISMATCH');
    return Object.freeze({ ...dec, ...enc, decode: dec.decode, encode: enc.encode, read: dec.read, write: enc.write });
}
export const createCodec = c => combineCodec(createEncoder(c), createDecoder(c));
export function transformEncoder(enc, f) {
    return createEncoder({
        ...(enc.fixedSize === undefined ? { getSizeFromValue: v => enc.getSizeFromValue(f(v)) } : { fixedSize: enc.fixedSize }),
        write: (v, b, o) => enc.write(f(v), b, o),
    });
}
export function transformDecoder(dec, f) {
    return createDecoder({
        ...dec,
        read: (b, o) => {
            const [v, n] = dec.read(b, o);
            return [f(v, b, o), n];
        },
    });
}
export function transformCodec(c, un, map) {
    return createCodec({ ...transformEncoder(c, un), read: map ? transformDecoder(c, map).read : c.read });
}
const need = (b, o, n) => {
    if (b.length <= o && n > 0) fail('CODECS__CANNOT_DECODE_EMPTY_BYTE_ARRAY');
    if (b.length - o < n) fail('CODECS__INVALID_BYTE_LENGTH');
};
function num(bytes, big) {
    const max = (1n << BigInt(8 * bytes)) - 1n;
    return {
        enc: () =>
            createEncoder({
                fixedSize: bytes,
                write: (v, b, o) => {
                    if (v < 0n || v > max) fail('CODECS__NUMBER_OUT_OF_RANGE');
                    let n = BigInt(v);
                    for (let i = 0; i < bytes; i++, n >>= 8n) b[o + i] = Number(n & 255n);
                    return o + bytes;
                },
            }),
        dec: () =>
            createDecoder({
                fixedSize: bytes,
                read: (b, o) => {
                    need(b, o, bytes);
                    let n = 0n;
                    for (let i = bytes - 1; i >= 0; i--) n = (n << 8n) | BigInt(b[o + i]);
                    return [big ? n : Number(n), o + bytes];
                },
            }),
    };
}
const [u8, u16, u32, u64] = [num(1), num(2), num(4), num(8, true)];
export const getU8Encoder = u8.enc, getU8Decoder = u8.dec, getU8Codec = () => combineCodec(u8.enc(), u8.dec());
export const getU16Encoder = u16.enc, getU16Decoder = u16.dec, getU16Codec = () => combineCodec(u16.enc(), u16.dec());
export const getU32Encoder = u32.enc, getU32Decoder = u32.dec, getU32Codec = () => combineCodec(u32.enc(), u32.dec());
export const getU64Encoder = u64.enc, getU64Decoder = u64.dec, getU64Codec = () => combineCodec(u64.enc(), u64.dec());
export const getBooleanEncoder = (c = {}) => transformEncoder(c.size ?? getU8Encoder(), v => (v ? 1 : 0));
export const getBooleanDecoder = (c = {}) => transformDecoder(c.size ?? getU8Decoder(), v => Number(v) === 1);
export const getBooleanCodec = c => combineCodec(getBooleanEncoder(c), getBooleanDecoder(c));
export const getAddressEncoder = () =>
    createEncoder({ fixedSize: 32, write: (v, b, o) => (b.set(addressBytes(v), o), o + 32) });
export const getAddressDecoder = () =>
    createDecoder({ fixedSize: 32, read: (b, o) => (need(b, o, 32), [b58encode(b.subarray(o, o + 32)), o + 32]) });
export const getAddressCodec = () => combineCodec(getAddressEncoder(), getAddressDecoder());
const variable = (to, from) => ({
    enc: () => createEncoder({ getSizeFromValue: v => to(v).length, write: (v, b, o) => (b.set(to(v), o), o + to(v).length) }),
    dec: () => createDecoder({ read: (b, o) => [from(b.subarray(o)), b.length] }),
});
const str = variable(v => utf8.encode(v), b => new TextDecoder().decode(b).replace(/\u0000/g, ''));
const raw = variable(v => v, b => b.slice());
const b58 = variable(b58decode, b58encode);
const b64 = variable(v => Uint8Array.from(Buffer.from(v, 'base64')), b => Buffer.from(b).toString('base64'));
export const getUtf8Encoder = str.enc, getUtf8Decoder = str.dec, getUtf8Codec = () => combineCodec(str.enc(), str.dec());
export const getBytesEncoder = raw.enc, getBytesDecoder = raw.dec, getBytesCodec = () => combineCodec(raw.enc(), raw.dec());
export const getBase58Encoder = b58.enc, getBase58Decoder = b58.dec, getBase58Codec = () => combineCodec(b58.enc(), b58.dec());
export const getBase64Encoder = b64.enc, getBase64Decoder = b64.dec, getBase64Codec = () => combineCodec(b64.enc(), b64.dec());
const sum = fields => (fields.every(f => f.fixedSize !== undefined) ? fields.reduce((n, f) => n + f.fixedSize, 0) : undefined);
export function getStructEncoder(fields) {
    const fixed = sum(fields.map(f => f[1]));
    return createEncoder({
        ...(fixed === undefined
            ? { getSizeFromValue: v => fields.reduce((n, [k, c]) => n + getEncodedSize(v[k], c), 0) }
            : { fixedSize: fixed }),
        write: (v, b, o) => {
            for (const [k, c] of fields) o = c.write(v[k], b, o);
            return o;
        },
    });
}
export function getStructDecoder(fields) {
    const fixed = sum(fields.map(f => f[1]));
    return createDecoder({
        ...(fixed === undefined ? {} : { fixedSize: fixed }),
        read: (b, o) => {
            const out = {};
            for (const [k, c] of fields) [out[k], o] = c.read(b, o);
            return [out, o];
        },
    });
}
export const getStructCodec = f => combineCodec(getStructEncoder(f), getStructDecoder(f));
export const some = value => ({ __option: 'Some', value });
export const none = () => ({ __option: 'None' });
export const isSome = o => o.__option === 'Some';
export const isNone = o => o.__option === 'None';
export const unwrapOption = (o, fallback) => (isSome(o) ? o.value : fallback ? fallback() : null);
export function containsBytes(data, bytes, offset) {
    const s = offset === 0 && data.length === bytes.length ? data : data.slice(offset, offset + bytes.length);
    return bytesEqual(s, bytes);
}
export const bytesEqual = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);
export const mergeBytes = list => Uint8Array.from(list.flatMap(x => [...x]));

// ---- accounts -----------------------------------------------------------------------
const parsed = (addr, v) =>
    Object.freeze(
        v === null
            ? { address: addr, exists: false }
            : {
                  address: addr, data: Uint8Array.from(Buffer.from(v.data[0], 'base64')), executable: v.executable, exists: true,
                  lamports: v.lamports, programAddress: v.owner, space: v.space,
              },
    );
export async function fetchEncodedAccount(rpc, addr, config = {}) {
    const { abortSignal, ...rest } = config;
    const r = await rpc.getAccountInfo(addr, { ...rest, encoding: 'base64' }).send({ abortSignal });
    return parsed(addr, r.value);
}
export async function fetchEncodedAccounts(rpc, addrs, config = {}) {
    const { abortSignal, ...rest } = config;
    const r = await rpc.getMultipleAccounts(addrs, { ...rest, encoding: 'base64' }).send({ abortSignal });
    return r.value.map((v, i) => parsed(addrs[i], v));
}
export function decodeAccount(a, decoder) {
    if ('exists' in a && !a.exists) return a;
    try {
        return Object.freeze({ ...a, data: decoder.decode(a.data) });
    } catch (e) {
        if (String(e?.message).startsWith('UNMODELLED')) throw e;
        return fail('ACCOUNTS__FAILED_TO_DECODE_ACCOUNT');
    }
}
export function assertAccountExists(a) {
    if (!a.exists) fail('ACCOUNTS__ACCOUNT_NOT_FOUND');
}
export function assertAccountsExist(list) {
    for (const a of list) if (!a.exists) fail('ACCOUNTS__ONE_OR_MORE_ACCOUNTS_NOT_FOUND');
}
export const lamports = n => n;

// ---- instructions, signers and messages -------------------------------------------------
export const AccountRole = Object.freeze({
    READONLY: 0, WRITABLE: 1, READONLY_SIGNER: 2, WRITABLE_SIGNER: 3,
    0: 'READONLY', 1: 'WRITABLE', 2: 'READONLY_SIGNER', 3: 'WRITABLE_SIGNER',
});
export const upgradeRoleToSigner = r => r | 2;
export const downgradeRoleToNonSigner = r => r & 1;
export const upgradeRoleToWritable = r => r | 1;
export const downgradeRoleToReadonly = r => r & 2;
export const isSignerRole = r => r >= 2;
export const isWritableRole = r => (r & 1) === 1;
export const mergeRoles = (a, b) => a | b;
export function assertIsInstructionWithAccounts(i) {
    if (i.accounts === undefined) fail('INSTRUCTION__EXPECTED_TO_HAVE_ACCOUNTS');
}
export function assertIsInstructionWithData(i) {
    if (i.data === undefined) fail('INSTRUCTION__EXPECTED_TO_HAVE_DATA');
}
export const isTransactionSigner = v =>
    typeof v === 'object' && v !== null &&
    ['signTransactions', 'modifyAndSignTransactions', 'signAndSendTransactions'].some(k => typeof v[k] === 'function');
export const isKeyPairSigner = v => isTransactionSigner(v) && 'keyPair' in v;
export const createNoopSigner = addr =>
    Object.freeze({ address: addr, signMessages: async m => m.map(() => ({})), signTransactions: async t => t.map(() => ({})) });
export async function generateKeyPairSigner() {
    const { publicKey, privateKey } = generateKeyPairSync('ed25519');
    const addr = b58encode(publicKey.export({ format: 'der', type: 'spki' }).subarray(-32));
    return Object.freeze({ ...createNoopSigner(addr), keyPair: { privateKey, publicKey } });
}
export const pipe = (x, ...fs) => fs.reduce((v, f) => f(v), x);
export const createTransactionMessage = ({ version }) => Object.freeze({ instructions: Object.freeze([]), version });
export const setTransactionMessageFeePayer = (addr, m) => Object.freeze({ ...m, feePayer: Object.freeze({ address: addr }) });
export const setTransactionMessageFeePayerSigner = (signer, m) => Object.freeze({ ...m, feePayer: signer });
export const setTransactionMessageLifetimeUsingBlockhash = (b, m) =>
    Object.freeze({ ...m, lifetimeConstraint: Object.freeze({ blockhash: b.blockhash, lastValidBlockHeight: b.lastValidBlockHeight }) });
export const appendTransactionMessageInstructions = (ixs, m) =>
    Object.freeze({ ...m, instructions: Object.freeze([...m.instructions, ...ixs]) });
export const appendTransactionMessageInstruction = (i, m) => appendTransactionMessageInstructions([i], m);
export const prependTransactionMessageInstructions = (ixs, m) =>
    Object.freeze({ ...m, instructions: Object.freeze([...ixs, ...m.instructions]) });
export const prependTransactionMessageInstruction = (i, m) => prependTransactionMessageInstructions([i], m);
const short = n => (n < 128 ? [n] : [(n & 127) | 128, n >> 7]);
// The compiled version 0 message, and the signers in its order.
export function compileMessage(m) {
    const roles = new Map();
    const put = (k, r) => roles.set(k, (roles.get(k) ?? 0) | r);
    for (const i of m.instructions) {
        put(i.programAddress, 0);
        for (const a of i.accounts ?? []) put(a.address, a.role);
    }
    const payer = m.feePayer.address;
    put(payer, 3);
    const order = r => [3, 2, 1, 0].indexOf(r);
    const keys = [...roles.keys()].sort((a, b) =>
        a === payer ? -1 : b === payer ? 1 : order(roles.get(a)) - order(roles.get(b)) || (a < b ? -1 : 1),
    );
    const count = f => keys.filter(k => f(roles.get(k))).length;
    const out = [0x80, count(r => r >= 2), count(r => r === 2), count(r => r === 0), ...short(keys.length)];
    for (const k of keys) out.push(...addressBytes(k));
    out.push(...addressBytes(m.lifetimeConstraint.blockhash), ...short(m.instructions.length));
    for (const i of m.instructions) {
        out.push(keys.indexOf(i.programAddress), ...short((i.accounts ?? []).length));
        for (const a of i.accounts ?? []) out.push(keys.indexOf(a.address));
        out.push(...short((i.data ?? []).length), ...(i.data ?? []));
    }
    out.push(0);
    return { messageBytes: Uint8Array.from(out), signers: keys.filter(k => roles.get(k) >= 2) };
}
export const getTransactionSize = t => short(Object.keys(t.signatures).length).length + 64 * Object.keys(t.signatures).length + t.messageBytes.length;
export const isFullySignedTransaction = t => Object.values(t.signatures).every(s => s);
export function assertIsFullySignedTransaction(t) {
    if (!isFullySignedTransaction(t)) fail('TRANSACTION__SIGNATURES_MISSING');
}
export function assertIsTransactionWithinSizeLimit(t) {
    if (getTransactionSize(t) > 1232) fail('TRANSACTION__EXCEEDS_SIZE_LIMIT');
}
export const isSendableTransaction = t => isFullySignedTransaction(t) && getTransactionSize(t) <= 1232;
export function assertIsSendableTransaction(t) {
    assertIsFullySignedTransaction(t);
    assertIsTransactionWithinSizeLimit(t);
}
export const extendClient = (client, more) => Object.freeze({ ...client, ...more });
