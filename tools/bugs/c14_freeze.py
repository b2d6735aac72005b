id='C14-freeze-authority-sets'
property='C14'
needs='a mint whose freeze authority differs from its mint authority'
what_it_breaks='the freeze authority of a mint is accepted as setter of its canonical pointer'
edits=[('program/src/processor.rs','''    if mint_authority != *unwrapped_mint_authority_info.key {
        return Err(ProgramError::IncorrectAuthority);
    }
''','''    let freeze_authority = mint_state.base.freeze_authority;
    let authorities = [Some(mint_authority), freeze_authority.ok_or(()).ok()];
    if !authorities.contains(&Some(*unwrapped_mint_authority_info.key)) {
        return Err(ProgramError::IncorrectAuthority);
    }
''')]
demo='''
use helpers::{common::*, mint_builder::MintBuilder, set_canonical_pointer_builder::SetCanonicalPointerBuilder};
use mollusk_svm::result::Check;
use solana_program_error::ProgramError;
use solana_pubkey::Pubkey;
pub mod helpers;
#[test]
fn freeze_authority_is_refused() {
    let (a, f) = (Pubkey::new_unique(), Pubkey::new_unique());
    for p in [TokenProgram::SplToken, TokenProgram::SplToken2022] {
        let m = || MintBuilder::new().token_program(p).mint_authority(a).freeze_authority(f).build();
        SetCanonicalPointerBuilder::default().unwrapped_mint_authority(a).unwrapped_mint(m()).check(Check::success()).execute();
        SetCanonicalPointerBuilder::default().unwrapped_mint_authority(f).unwrapped_mint(m()).check(Check::err(ProgramError::IncorrectAuthority)).execute();
    }
}
'''
