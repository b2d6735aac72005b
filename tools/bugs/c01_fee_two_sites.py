id='C01-unvalidated-fee'
property='C01'
needs='a Token-2022 fee mint in the window between a fee decrease being scheduled and its activation'
what_it_breaks='wrap predicts the fee from the scheduled configuration and no longer has the token program validate it, so more wrapped tokens are minted than the escrow received'
edits=[('program/src/processor.rs','''        .and_then(|cfg| cfg.calculate_epoch_fee(clock, amount))
''','''        .and_then(|cfg| {
            // A scheduled fee change applies from the next transfer on
            let epoch = clock.max(u64::from(cfg.newer_transfer_fee.epoch));
            cfg.calculate_epoch_fee(epoch, amount)
        })
'''),('program/src/processor.rs','''    if unwrapped_token_program.key == &spl_token_2022_interface::id() {
        // This invoke fn does extra validation on calculated fee
''','''    if fee > 0 && unwrapped_mint_state.get_extension::<TransferFeeConfig>().is_err() {
        // This invoke fn does extra validation on calculated fee
''')]
PRE=open('/verif/tools/bugs/pre/fee.rs').read()
demo=PRE+'''
#[allow(dead_code)] fn unused(w: &W) { let _ = unwrap(w, 1); }
#[test]
fn minted_equals_deposited() {
    for (old, new, at, now) in [(100, 200, 5, 3), (200, 100, 5, 3), (100, 200, 5, 5), (100, 200, 5, 9)] {
        let w = world(old, new, at, now);
        let r = wrap(&w, 100_000);
        assert!(!r.program_result.is_err());
        assert_eq!(amount(&get(&r.resulting_accounts, &w.esc)), supply(&get(&r.resulting_accounts, &w.wmint)));
    }
}
'''
