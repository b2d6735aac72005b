id='C06-pointer-overwrites'
property='C06'
needs="somebody who is mint authority of any mint, naming an existing pointer or backpointer account of another mint as the pointer to update"
what_it_breaks="the pointer's address is only checked when it is being created, so any mint authority can overwrite every other mint's pointer, and every backpointer"
edits=[('program/src/processor.rs','''    if *canonical_pointer_info.key != expected_pointer_address {
        msg!(''','''    if *canonical_pointer_info.key != expected_pointer_address
        && canonical_pointer_info.owner != program_id
    {
        msg!(''')]
demo='''
use helpers::{common::*, mint_builder::MintBuilder, set_canonical_pointer_builder::SetCanonicalPointerBuilder};
use mollusk_svm::result::Check;
use solana_account::Account;
use solana_program_error::ProgramError;
use solana_pubkey::Pubkey;
use spl_token_wrap::*;
pub mod helpers;
#[test]
fn only_its_own_pointer() {
    for f in [get_canonical_pointer_address, get_wrapped_mint_backpointer_address] {
        let (a, other) = (Pubkey::new_unique(), Pubkey::new_unique());
        let mint = MintBuilder::new().token_program(TokenProgram::SplToken).mint_authority(a).build();
        SetCanonicalPointerBuilder::default().unwrapped_mint_authority(a).unwrapped_mint(mint)
            .canonical_pointer(KeyedAccount { key: f(&other), account: Account { lamports: 10_000_000, data: vec![7; 32], owner: id(), ..Account::default() } })
            .check(Check::err(ProgramError::InvalidArgument)).execute();
    }
}
'''
