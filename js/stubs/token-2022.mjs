// Stand-in for @solana-program/token-2022.
import { family, TOKEN_2022_PROGRAM_ADDRESS } from './token-common.mjs';
export { ASSOCIATED_TOKEN_PROGRAM_ADDRESS, AccountState, findAssociatedTokenPda, TOKEN_2022_PROGRAM_ADDRESS } from './token-common.mjs';
export const { getTokenDecoder, getMintDecoder, decodeToken, decodeMint, fetchMaybeToken, fetchMaybeMint, fetchToken, fetchMint, getCreateAssociatedTokenInstruction, getCreateAssociatedTokenIdempotentInstruction, getCreateAssociatedTokenInstructionAsync, getCreateAssociatedTokenIdempotentInstructionAsync, getInitializeAccountInstruction } =
    family(TOKEN_2022_PROGRAM_ADDRESS, true);
export const extension = (kind, data) => ({ __kind: kind, ...data });
// Lengths of the values of the extensions of fixed length.
const LENGTHS = {
    ConfidentialTransferMint: 65, MetadataPointer: 64, GroupPointer: 64, GroupMemberPointer: 64, TransferHook: 64, TransferFeeConfig: 108,
    MintCloseAuthority: 32, PermanentDelegate: 32, DefaultAccountState: 1, InterestBearingConfig: 52, NonTransferable: 0, PausableConfig: 33,
    ScaledUiAmountConfig: 56, ConfidentialTransferFee: 129,
    ConfidentialTransferAccount: 295, TransferFeeAmount: 8, ImmutableOwner: 0, MemoTransfer: 1, CpiGuard: 1, NonTransferableAccount: 0,
    TransferHookAccount: 1, PausableAccount: 0, ConfidentialTransferFeeAmount: 64,
};
const size = base => extensions => {
    if (extensions == null) return base;
    let n = 166;
    for (const e of extensions) {
        if (!(e.__kind in LENGTHS)) throw new Error('UNMODELLED extension ' + e.__kind);
        n += 4 + LENGTHS[e.__kind];
    }
    return n;
};
export const getMintSize = size(82);
export const getTokenSize = size(165);
