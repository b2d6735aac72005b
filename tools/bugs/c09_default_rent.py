id='C09-default-rent'
property='C09'
needs='a cluster whose rent differs from the built-in default, and a backpointer account funded between the two minimums'
what_it_breaks='the rent-exempt minimum is taken from the compiled-in default instead of the sysvar, so an under-funded backpointer is let through (dearer cluster) or funded accounts are refused (cheaper cluster)'
edits=[('program/src/processor.rs','''    let rent = Rent::get()?;
    let mint_rent_required''','''    let rent = Rent::default();
    let mint_rent_required''')]
demo='''
use helpers::{common::*, mint_builder::MintBuilder};
use solana_account::Account;
use spl_token_wrap::*;
pub mod helpers;
#[test]
#[allow(deprecated)]
fn creation_needs_the_rent_of_this_cluster() {
    for (rate, short, good) in [(3480, 0, true), (3480, 1, false), (34800, 0, true), (34800, 1, false), (348, 0, true), (348, 1, false)] {
        let mut m = init_mollusk();
        m.sysvars.rent.lamports_per_byte_year = rate;
        let u = MintBuilder::new().token_program(TokenProgram::SplToken).build();
        let t = TokenProgram::SplToken2022.id();
        let w = get_wrapped_mint_address(&u.key, &t);
        let b = get_wrapped_mint_backpointer_address(&w);
        let fund = |l| Account { lamports: l, ..Account::default() };
        let ix = instruction::create_mint(&id(), &w, &b, &u.key, &t, false);
        let r = m.process_instruction(&ix, &[
            (w, fund(m.sysvars.rent.minimum_balance(1000))), (b, fund(m.sysvars.rent.minimum_balance(32) - short)), u.pair(),
            mollusk_svm::program::keyed_account_for_system_program(), TokenProgram::SplToken2022.keyed_account()]);
        assert_eq!(r.program_result.is_ok(), good, "rate {rate}, {short} short: {:?}", r.program_result);
    }
}
'''
