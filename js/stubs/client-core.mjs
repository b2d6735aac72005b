// Stand-in for @solana/program-client-core v7.
import { createDecoder, decodeAccount, fetchEncodedAccount, isTransactionSigner, upgradeRoleToSigner } from '@solana/kit';

const addressOf = v => (typeof v === 'string' ? v : Array.isArray(v) ? v[0] : v.address);
export function getAccountMetaFactory(programAddress, strategy) {
    return (_name, account) => {
        if (!account.value) return strategy === 'omitted' ? undefined : Object.freeze({ address: programAddress, role: 0 });
        const role = account.isWritable ? 1 : 0;
        const signs = isTransactionSigner(account.value);
        return Object.freeze({
            address: addressOf(account.value),
            role: signs ? upgradeRoleToSigner(role) : role,
            ...(signs ? { signer: account.value } : {}),
        });
    };
}
export const addSelfFetchFunctions = (client, codec) =>
    Object.freeze({
        ...codec,
        fetchMaybe: async (addr, config) => decodeAccount(await fetchEncodedAccount(client.rpc, addr, config), createDecoder(codec)),
        fetch: async (addr, config) => {
            const a = decodeAccount(await fetchEncodedAccount(client.rpc, addr, config), createDecoder(codec));
            if (!a.exists) throw new Error('account not found');
            return a;
        },
    });
export const addSelfPlanAndSendFunctions = (_client, input) => Object.freeze({ ...input });
