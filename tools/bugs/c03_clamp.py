id='C03-release-what-is-left'
property='C03'
needs="an escrow that holds less than the amount unwrapped, because the unwrapped mint's permanent delegate took tokens out of it"
what_it_breaks='the release is limited to what the escrow holds while the full amount is burned, so an unwrap succeeds and gives the holder less than was burned'
edits=[('program/src/processor.rs','''    let unwrapped_mint_data = unwrapped_mint.try_borrow_data()?;
    let unwrapped_mint_state = PodStateWithExtensions::<PodMint>::unpack(&unwrapped_mint_data)?;
    let bump_seed = [bump];
''','''    let unwrapped_mint_data = unwrapped_mint.try_borrow_data()?;
    let unwrapped_mint_state = PodStateWithExtensions::<PodMint>::unpack(&unwrapped_mint_data)?;
    // never ask the token program for more than the escrow has
    let amount = {
        let escrow_data = unwrapped_escrow.try_borrow_data()?;
        let escrow = PodStateWithExtensions::<PodAccount>::unpack(&escrow_data)?;
        amount.min(escrow.base.amount.into())
    };
    let bump_seed = [bump];
''')]
demo='''
use helpers::{common::*, unwrap_builder::UnwrapBuilder};
use mollusk_svm::result::Check;
use solana_program_error::ProgramError;
pub mod helpers;
#[test]
fn all_or_nothing() {
    UnwrapBuilder::default().unwrap_amount(500).escrow_starting_amount(500).execute();
    UnwrapBuilder::default().unwrap_amount(500).escrow_starting_amount(499).check(Check::err(ProgramError::Custom(1))).execute();
}
'''
