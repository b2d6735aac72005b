// Stand-in for @solana-program/token.
import { family, TOKEN_PROGRAM_ADDRESS } from './token-common.mjs';
export { ASSOCIATED_TOKEN_PROGRAM_ADDRESS, AccountState, findAssociatedTokenPda, TOKEN_PROGRAM_ADDRESS } from './token-common.mjs';
export const { getTokenDecoder, getMintDecoder, decodeToken, decodeMint, fetchMaybeToken, fetchMaybeMint, fetchToken, fetchMint, getCreateAssociatedTokenInstruction, getCreateAssociatedTokenIdempotentInstruction, getCreateAssociatedTokenInstructionAsync, getCreateAssociatedTokenIdempotentInstructionAsync, getInitializeAccountInstruction } =
    family(TOKEN_PROGRAM_ADDRESS, false);
export const getMintSize = () => 82;
export const getTokenSize = () => 165;
