id='C10-surplus-extension'
property='C10'
needs='an escrow made for a mint that was closed and remade at the same address with fewer extensions (a surplus account extension)'
what_it_breaks='an escrow is taken to be healthy when it has at least the required extensions, so one with stale surplus extensions can never be closed and remade'
edits=[('program/src/processor.rs','''    let in_good_state = current_account_extensions.len() == required_account_extensions.len()
        && required_account_extensions
            .iter()
            .all(|item| current_account_extensions.contains(item));
''','''    let in_good_state = required_account_extensions
        .iter()
        .all(|item| current_account_extensions.contains(item));
''')]
demo='''
use helpers::{close_stuck_escrow_builder::CloseStuckEscrowBuilder, common::*, mint_builder::MintBuilder, token_account_builder::TokenAccountBuilder};
use mollusk_svm::result::Check;
use spl_token_2022_interface::extension::ExtensionType::{ImmutableOwner, TransferFeeConfig};
use spl_token_wrap::*;
pub mod helpers;
#[test]
fn surplus_extension_is_stuck() {
    let p = TokenProgram::SplToken2022;
    let mint = MintBuilder::new().token_program(p).build();
    let wm = MintBuilder::new().token_program(p).mint_key(get_wrapped_mint_address(&mint.key, &p.id())).build();
    let esc = TokenAccountBuilder::new().token_program(p).mint(mint.clone()).owner(get_wrapped_mint_authority(&wm.key)).amount(0)
        .account_key(get_escrow_address(&mint.key, &p.id(), &p.id())).with_extension(ImmutableOwner).with_extension(TransferFeeConfig).build();
    CloseStuckEscrowBuilder::default().wrapped_token_program(p).unwrapped_mint(mint).wrapped_mint(wm).escrow_account(esc).check(Check::success()).execute();
}
'''
