id='C15-one-member'
property='C15'
needs='a multisig authority one of whose members alone suffices (threshold 1), unwrapping'
what_it_breaks='the unwrap builder marks the authority as a signer when there is a single multisig signer, so a 1-of-n multisig cannot unwrap with it (the multisig account cannot sign)'
edits=[('program/src/instruction.rs','''        AccountMeta::new_readonly(
            *transfer_authority_address,
            multisig_signer_pubkeys.is_empty(),
        ),
''','''        AccountMeta::new_readonly(
            *transfer_authority_address,
            multisig_signer_pubkeys.len() < 2,
        ),
''',1)]
demo='''
use solana_pubkey::Pubkey;
use spl_token_wrap::instruction::{unwrap, wrap};
#[test]
fn a_multisig_does_not_sign() {
    let k: Vec<Pubkey> = (0..16).map(|_| Pubkey::new_unique()).collect();
    for n in 0..=5 {
        let s: Vec<&Pubkey> = k[10..10 + n].iter().collect();
        for ix in [wrap(&k[0], &k[1], &k[2], &k[3], &k[4], &k[5], &k[6], &k[7], &k[8], &k[9], &s, 1), unwrap(&k[0], &k[1], &k[2], &k[3], &k[4], &k[5], &k[6], &k[7], &k[8], &k[9], &s, 1)] {
            assert_eq!(ix.accounts[8].is_signer, n == 0);
            assert_eq!(ix.accounts.len(), 9 + n);
        }
    }
}
'''
