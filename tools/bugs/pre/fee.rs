
use helpers::{common::*, mint_builder::MintBuilder, token_account_builder::TokenAccountBuilder};
use helpers::extensions::MintExtension;
use mollusk_svm::Mollusk;
use solana_account::Account;
use solana_pubkey::Pubkey;
use spl_token_2022_interface::{extension::{ExtensionType, PodStateWithExtensions, PodStateWithExtensionsMut, BaseStateWithExtensionsMut, BaseStateWithExtensions, transfer_fee::TransferFeeConfig}, pod::{PodAccount, PodMint}};
use spl_token_wrap::*;
pub mod helpers;
fn amount(a: &Account) -> u64 { PodStateWithExtensions::<PodAccount>::unpack(&a.data).unwrap().base.amount.into() }
fn supply(a: &Account) -> u64 { PodStateWithExtensions::<PodMint>::unpack(&a.data).unwrap().base.supply.into() }
struct W { m: Mollusk, acc: Vec<(Pubkey, Account)>, mint: Pubkey, wmint: Pubkey, auth: Pubkey, esc: Pubkey, src: Pubkey, wacc: Pubkey, user: Pubkey }
fn get(acc: &[(Pubkey, Account)], k: &Pubkey) -> Account { acc.iter().find(|x| x.0 == *k).unwrap().1.clone() }
const T22: Pubkey = spl_token_2022_interface::ID;
/// A fee mint: `old` basis points until `at`, `new` from then on; now is epoch `now`.
fn world(old: u16, new: u16, at: u64, now: u64) -> W {
    let mut m = init_mollusk();
    m.sysvars.clock.epoch = now;
    let user = Pubkey::new_unique();
    let mut mint = MintBuilder::new().token_program(TokenProgram::SplToken2022).supply(2_000_000)
        .with_extension(MintExtension::TransferFeeConfig).build();
    {
        let mut s = PodStateWithExtensionsMut::<PodMint>::unpack(&mut mint.account.data).unwrap();
        let c = s.get_extension_mut::<TransferFeeConfig>().unwrap();
        c.older_transfer_fee.transfer_fee_basis_points = old.into();
        c.newer_transfer_fee.transfer_fee_basis_points = new.into();
        c.newer_transfer_fee.epoch = at.into();
    }
    let wmint = get_wrapped_mint_address(&mint.key, &T22);
    let auth = get_wrapped_mint_authority(&wmint);
    let esc = get_escrow_address(&mint.key, &T22, &T22);
    let wm = MintBuilder::new().token_program(TokenProgram::SplToken2022).mint_key(wmint).mint_authority(auth).supply(500_000).build();
    let ta = |k: &KeyedAccount, o: Pubkey, a: u64, e: &[ExtensionType]| {
        let mut b = TokenAccountBuilder::new().token_program(TokenProgram::SplToken2022).mint(k.clone()).owner(o).amount(a);
        for x in e { b = b.with_extension(*x) }
        b.build()
    };
    let fee = ExtensionType::TransferFeeConfig;
    let src = ta(&mint, user, 1_000_000, &[fee]);
    let mut e = ta(&mint, auth, 500_000, &[fee, ExtensionType::ImmutableOwner]); e.key = esc;
    let wacc = ta(&wm, user, 500_000, &[]);
    let acc = vec![src.pair(), e.pair(), wacc.pair(), wm.pair(), mint.pair(), (auth, Account::default()), (user, Account::default()), TokenProgram::SplToken2022.keyed_account()];
    W { m, acc, mint: mint.key, wmint, auth, esc, src: src.key, wacc: wacc.key, user }
}
fn wrap(w: &W, a: u64) -> mollusk_svm::result::InstructionResult {
    w.m.process_instruction(&instruction::wrap(&id(), &w.wacc, &w.wmint, &w.auth, &T22, &T22, &w.src, &w.mint, &w.esc, &w.user, &[], a), &w.acc)
}
fn unwrap(w: &W, a: u64) -> mollusk_svm::result::InstructionResult {
    w.m.process_instruction(&instruction::unwrap(&id(), &w.esc, &w.src, &w.auth, &w.mint, &T22, &T22, &w.wacc, &w.wmint, &w.user, &[], a), &w.acc)
}
