id='C04-unwrap-expected-fee'
property='C04'
needs='a Token-2022 fee mint in the window between a fee change being scheduled and its activation'
what_it_breaks='unwrap states the expected fee from the newer fee configuration, which the token program rejects until the change is in force: nobody can redeem meanwhile'
edits=[('program/src/processor.rs','''    invoke_transfer_checked(
        unwrapped_token_program.key,
        unwrapped_escrow.clone(),
        unwrapped_mint.clone(),
        recipient_unwrapped_token.clone(),
        wrapped_mint_authority.clone(),
        additional_accounts,
        amount,
        unwrapped_mint_state.base.decimals,
        &[&signer_seeds],
    )?;
''','''    match unwrapped_mint_state.get_extension::<TransferFeeConfig>() {
        Ok(cfg) => invoke_transfer_checked_with_fee(
            unwrapped_token_program.key,
            unwrapped_escrow.clone(),
            unwrapped_mint.clone(),
            recipient_unwrapped_token.clone(),
            wrapped_mint_authority.clone(),
            additional_accounts,
            amount,
            unwrapped_mint_state.base.decimals,
            cfg.newer_transfer_fee
                .calculate_fee(amount)
                .ok_or(ProgramError::ArithmeticOverflow)?,
            &[&signer_seeds],
        )?,
        Err(_) => invoke_transfer_checked(
            unwrapped_token_program.key,
            unwrapped_escrow.clone(),
            unwrapped_mint.clone(),
            recipient_unwrapped_token.clone(),
            wrapped_mint_authority.clone(),
            additional_accounts,
            amount,
            unwrapped_mint_state.base.decimals,
            &[&signer_seeds],
        )?,
    }
''')]
PRE=open('/verif/tools/bugs/pre/fee.rs').read()
demo=PRE+'''
#[allow(dead_code)] fn unused(w: &W) { let _ = (wrap(w, 1), supply(&w.acc[3].1)); }
#[test]
fn can_redeem() {
    for (old, new, at, now) in [(100, 200, 5, 3), (200, 100, 5, 3), (100, 200, 5, 5), (100, 200, 5, 9)] {
        let w = world(old, new, at, now);
        let r = unwrap(&w, 500_000);
        assert!(!r.program_result.is_err(), "{old} {new} {at} {now}");
        assert_eq!(amount(&get(&r.resulting_accounts, &w.esc)), 0);
        assert_eq!(amount(&get(&r.resulting_accounts, &w.wacc)), 0);
    }
}
'''
