// What @solana-program/token and @solana-program/token-2022 share.
import * as k from '@solana/kit';
export const TOKEN_PROGRAM_ADDRESS = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
export const TOKEN_2022_PROGRAM_ADDRESS = 'TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb';
export const ASSOCIATED_TOKEN_PROGRAM_ADDRESS = 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL';
export const RENT = 'SysvarRent111111111111111111111111111111111';
const addressOf = v => (typeof v === 'string' ? v : v.address);
const meta = (v, role) => ({
    address: addressOf(v),
    role: k.isTransactionSigner(v) ? role | 2 : role,
    ...(k.isTransactionSigner(v) ? { signer: v } : {}),
});
export async function findAssociatedTokenPda({ owner, tokenProgram, mint }, { programAddress = ASSOCIATED_TOKEN_PROGRAM_ADDRESS } = {}) {
    const e = k.getAddressEncoder();
    return await k.getProgramDerivedAddress({ programAddress, seeds: [e.encode(owner), e.encode(tokenProgram), e.encode(mint)] });
}
const optional = (dec, prefix) =>
    k.createDecoder({
        fixedSize: prefix + dec.fixedSize,
        read: (b, o) => {
            const [flag] = (prefix === 4 ? k.getU32Decoder() : k.getU8Decoder()).read(b, o);
            const [v, n] = dec.read(b, o + prefix);
            return [flag === 1 ? k.some(v) : k.none(), n];
        },
    });
const state = k.transformDecoder(k.getU8Decoder(), v => {
    if (v > 2) throw new k.SolanaError('CODECS__ENUM_DISCRIMINATOR_OUT_OF_RANGE');
    return v;
});
// Extensions follow the account type byte; the client makes no use of them.
const rest = k.createDecoder({ read: (b, o) => [b.length > o ? k.some([]) : k.none(), b.length] });
export const tokenDecoder = extended =>
    k.getStructDecoder([
        ['mint', k.getAddressDecoder()], ['owner', k.getAddressDecoder()], ['amount', k.getU64Decoder()],
        ['delegate', optional(k.getAddressDecoder(), 4)], ['state', state], ['isNative', optional(k.getU64Decoder(), 4)],
        ['delegatedAmount', k.getU64Decoder()], ['closeAuthority', optional(k.getAddressDecoder(), 4)],
        ...(extended ? [['extensions', rest]] : []),
    ]);
export const mintDecoder = extended =>
    k.getStructDecoder([
        ['mintAuthority', optional(k.getAddressDecoder(), 4)], ['supply', k.getU64Decoder()], ['decimals', k.getU8Decoder()],
        ['isInitialized', k.getBooleanDecoder()], ['freezeAuthority', optional(k.getAddressDecoder(), 4)],
        ...(extended ? [['extensions', rest]] : []),
    ]);
export const AccountState = Object.freeze({ Uninitialized: 0, Initialized: 1, Frozen: 2 });
export function family(program, extended) {
    const decodeToken = a => k.decodeAccount(a, tokenDecoder(extended));
    const decodeMint = a => k.decodeAccount(a, mintDecoder(extended));
    const ata = d => ({ payer, owner, mint, ata, tokenProgram = program, systemProgram = '11111111111111111111111111111111' }) =>
        Object.freeze({
            accounts: [meta(payer, 3), meta(ata, 1), meta(owner, 0), meta(mint, 0), meta(systemProgram, 0), meta(tokenProgram, 0)],
            data: Uint8Array.of(d),
            programAddress: ASSOCIATED_TOKEN_PROGRAM_ADDRESS,
        });
    const derived = make => async input =>
        make({ ...input, ata: input.ata ?? (await findAssociatedTokenPda({ owner: addressOf(input.owner), mint: input.mint, tokenProgram: input.tokenProgram ?? program }))[0] });
    const out = {
        getTokenDecoder: () => tokenDecoder(extended),
        getMintDecoder: () => mintDecoder(extended),
        decodeToken, decodeMint,
        fetchMaybeToken: async (rpc, a, c) => decodeToken(await k.fetchEncodedAccount(rpc, a, c)),
        fetchMaybeMint: async (rpc, a, c) => decodeMint(await k.fetchEncodedAccount(rpc, a, c)),
        getCreateAssociatedTokenInstruction: ata(0),
        getCreateAssociatedTokenIdempotentInstruction: ata(1),
        getInitializeAccountInstruction: ({ account, mint, owner, rent = RENT }) =>
            Object.freeze({
                accounts: [meta(account, 1), meta(mint, 0), meta(owner, 0), meta(rent, 0)],
                data: Uint8Array.of(1),
                programAddress: program,
            }),
    };
    out.fetchToken = async (rpc, a, c) => {
        const t = await out.fetchMaybeToken(rpc, a, c);
        k.assertAccountExists(t);
        return t;
    };
    out.fetchMint = async (rpc, a, c) => {
        const t = await out.fetchMaybeMint(rpc, a, c);
        k.assertAccountExists(t);
        return t;
    };
    out.getCreateAssociatedTokenInstructionAsync = derived(out.getCreateAssociatedTokenInstruction);
    out.getCreateAssociatedTokenIdempotentInstructionAsync = derived(out.getCreateAssociatedTokenIdempotentInstruction);
    return out;
}
