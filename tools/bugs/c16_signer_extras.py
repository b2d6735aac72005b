id='C16-signer-extras'
property='C16'
needs="an unwrap by a single-key authority of a mint with a transfer hook, where one of the hook's extra accounts happens to sign the transaction (a fee payer, say)"
what_it_breaks='every extra account that signed is taken for a multisig member, so the burn is refused although all required accounts are there'
edits=[('program/src/processor.rs','''    let multisig_signer_keys = extract_multisig_accounts(transfer_authority, additional_accounts)?
        .iter()
        .map(|a| a.key)
        .collect::<Vec<_>>();
''','''    let multisig_signer_keys = additional_accounts
        .iter()
        .filter(|a| a.is_signer)
        .map(|a| a.key)
        .collect::<Vec<_>>();
'''),('program/src/processor.rs','''    spl_token_2022::onchain::{
        extract_multisig_accounts, invoke_transfer_checked, invoke_transfer_checked_with_fee,
    },
''','''    spl_token_2022::onchain::{invoke_transfer_checked, invoke_transfer_checked_with_fee},
''')]
demo='''
use helpers::{common::*, extensions::MintExtension, mint_builder::MintBuilder, token_account_builder::TokenAccountBuilder};
use mollusk_svm::program::create_program_account_loader_v3;
use solana_account::Account;
use solana_instruction::AccountMeta;
use solana_pubkey::Pubkey;
use spl_token_2022_interface::extension::ExtensionType::{ImmutableOwner, TransferHookAccount};
use spl_token_wrap::*;
pub mod helpers;
#[test]
fn an_extra_account_may_sign() {
    let m = init_mollusk();
    let p = TokenProgram::SplToken2022;
    let hook = test_transfer_hook::id();
    let counter = setup_counter(hook);
    let mint = MintBuilder::new().token_program(p).with_extension(MintExtension::TransferHook).build();
    let val = setup_validation_state_account(&hook, &counter, &mint);
    let wmint = get_wrapped_mint_address(&mint.key, &p.id());
    let auth = get_wrapped_mint_authority(&wmint);
    let user = Pubkey::new_unique();
    let wm = MintBuilder::new().token_program(p).mint_key(wmint).mint_authority(auth).supply(1000).build();
    let esc = TokenAccountBuilder::new().token_program(p).mint(mint.clone()).owner(auth).amount(1000).account_key(get_escrow_address(&mint.key, &p.id(), &p.id()))
        .with_extension(TransferHookAccount).with_extension(ImmutableOwner).build();
    let dst = TokenAccountBuilder::new().token_program(p).mint(mint.clone()).owner(user).amount(0).with_extension(TransferHookAccount).build();
    let w = TokenAccountBuilder::new().token_program(p).mint(wm.clone()).owner(user).amount(1000).build();
    let acc = vec![esc.pair(), dst.pair(), w.pair(), wm.pair(), mint.pair(), (auth, Account::default()), (user, Account::default()), p.keyed_account(),
        counter.pair(), val.pair(), (hook, create_program_account_loader_v3(&hook))];
    for signs in [false, true] {
        let mut ix = instruction::unwrap(&id(), &esc.key, &dst.key, &auth, &mint.key, &p.id(), &p.id(), &w.key, &wmint, &user, &[], 10);
        ix.accounts.push(AccountMeta::new(counter.key, signs));
        ix.accounts.push(AccountMeta::new_readonly(hook, false));
        ix.accounts.push(AccountMeta::new_readonly(val.key, false));
        let r = m.process_instruction(&ix, &acc);
        assert!(!r.program_result.is_err(), "{signs} {:?}", r.program_result);
    }
}
'''
