// Stand-in for @solana-program/system.
import { getAddressEncoder, getStructEncoder, getU32Encoder, getU64Encoder, isTransactionSigner } from '@solana/kit';
export const SYSTEM_PROGRAM_ADDRESS = '11111111111111111111111111111111';
const meta = (v, role) => ({
    address: typeof v === 'string' ? v : v.address,
    role: isTransactionSigner(v) ? role | 2 : role,
    ...(isTransactionSigner(v) ? { signer: v } : {}),
});
export function getTransferSolInstruction({ source, destination, amount }) {
    return Object.freeze({
        accounts: [meta(source, 1), meta(destination, 1)],
        data: getStructEncoder([['d', getU32Encoder()], ['amount', getU64Encoder()]]).encode({ d: 2, amount }),
        programAddress: SYSTEM_PROGRAM_ADDRESS,
    });
}
export function getCreateAccountInstruction({ payer, newAccount, lamports, space, programAddress }) {
    return Object.freeze({
        accounts: [meta(payer, 1), meta(newAccount, 1)],
        data: getStructEncoder([['d', getU32Encoder()], ['lamports', getU64Encoder()], ['space', getU64Encoder()], ['owner', getAddressEncoder()]]).encode({
            d: 0, lamports, space, owner: programAddress,
        }),
        programAddress: SYSTEM_PROGRAM_ADDRESS,
    });
}
