id='C12-fee-saturates'
property='C12'
needs='a Token-2022 source whose seller_fee_basis_points is above 10000'
what_it_breaks='an invalid seller fee is silently lowered to 10000, so a sync succeeds and writes a fee that is not the source one'
edits=[('program/src/metaplex.rs','''                seller_fee_basis_points = value
                    .parse::<u16>()
                    .map_err(|_| ProgramError::InvalidAccountData)?;
''','''                seller_fee_basis_points = value
                    .parse::<u16>()
                    .map_err(|_| ProgramError::InvalidAccountData)?
                    .min(10_000);
''')]
demo='''
use solana_pubkey::Pubkey;
use spl_token_metadata_interface::state::TokenMetadata;
use spl_token_wrap::metaplex::token_2022_metadata_to_metaplex;
#[test]
fn fee_is_carried_over_as_it_is() {
    for f in [0u16, 1, 9_999, 10_000, 10_001, 65_535] {
        let m = TokenMetadata { mint: Pubkey::new_unique(), name: "n".into(), additional_metadata: vec![("seller_fee_basis_points".into(), f.to_string())], ..TokenMetadata::default() };
        assert_eq!(token_2022_metadata_to_metaplex(&m).unwrap().seller_fee_basis_points, f);
    }
}
'''
