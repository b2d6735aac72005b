id='C27-empty-first'
property='C27'
needs='an unwrap of the whole plain balance of an account which still has a confidential balance (pending or available)'
what_it_breaks='the last plain tokens of an account cannot be unwrapped while it has a confidential balance, so part of the holding is stuck behind proofs'
edits=[('program/src/processor.rs', '            account_len::try_for_each_required_init_account_extension,\n', '            account_len::try_for_each_required_init_account_extension,\n            confidential_transfer::ConfidentialTransferAccount,\n'), ('program/src/processor.rs', '    // Burn wrapped tokens\n\n    let multisig', '    // An account is emptied only once nothing confidential is left in it\n    if *wrapped_token_program.key == spl_token_2022_interface::id() {\n        let wrapped_data = wrapped_token_account.try_borrow_data()?;\n        let wrapped_state = PodStateWithExtensions::<PodAccount>::unpack(&wrapped_data)?;\n        if u64::from(wrapped_state.base.amount) == amount {\n            if let Ok(confidential) = wrapped_state.get_extension::<ConfidentialTransferAccount>() {\n                confidential.closable()?;\n            }\n        }\n    }\n\n    // Burn wrapped tokens\n\n    let multisig')]
demo='\nuse helpers::{common::*, mint_builder::MintBuilder, token_account_builder::TokenAccountBuilder};\nuse solana_account::Account;\nuse solana_pubkey::Pubkey;\nuse spl_token_2022_interface::extension::ExtensionType::ImmutableOwner;\nuse spl_token_wrap::*;\npub mod helpers;\n/// The account with a confidential balance beside the plain one.\nfn confidential(mut k: KeyedAccount, pending: u64, available: bool) -> KeyedAccount {\n    let d = &mut k.account.data;\n    d.extend([5, 0, 39, 1]);\n    let mut x = [0u8; 295];\n    x[0] = 1;\n    x[1..33].copy_from_slice(&[7; 32]);\n    if available {\n        x[161..225].copy_from_slice(&[9; 64]);\n    }\n    x[261] = 1;\n    x[262] = 1;\n    x[263..271].copy_from_slice(&pending.to_le_bytes());\n    x[271..279].copy_from_slice(&65536u64.to_le_bytes());\n    d.extend(x);\n    k.account.lamports *= 3;\n    k\n}\nfn run(pending: u64, available: bool, amount: u64, unwraps: bool) {\n    let m = init_mollusk();\n    let p = TokenProgram::SplToken2022;\n    let mint = MintBuilder::new().token_program(p).supply(5000).build();\n    let wmint = get_wrapped_mint_address(&mint.key, &p.id());\n    let auth = get_wrapped_mint_authority(&wmint);\n    let user = Pubkey::new_unique();\n    let wm = MintBuilder::new().token_program(p).mint_key(wmint).mint_authority(auth).supply(1000).build();\n    let esc = TokenAccountBuilder::new().token_program(p).mint(mint.clone()).owner(auth).amount(1000).account_key(get_escrow_address(&mint.key, &p.id(), &p.id()))\n        .with_extension(ImmutableOwner).build();\n    let u = TokenAccountBuilder::new().token_program(p).mint(mint.clone()).owner(user).amount(1000).build();\n    let w = confidential(TokenAccountBuilder::new().token_program(p).mint(wm.clone()).owner(user).amount(600).with_extension(ImmutableOwner).build(), pending, available);\n    let acc = vec![esc.pair(), u.pair(), w.pair(), wm.pair(), mint.pair(), (auth, Account::default()), (user, Account::default()), p.keyed_account()];\n    let ix = if unwraps {\n        instruction::unwrap(&id(), &esc.key, &u.key, &auth, &mint.key, &p.id(), &p.id(), &w.key, &wmint, &user, &[], amount)\n    } else {\n        instruction::wrap(&id(), &w.key, &wmint, &auth, &p.id(), &p.id(), &u.key, &mint.key, &esc.key, &user, &[], amount)\n    };\n    let r = m.process_instruction(&ix, &acc);\n    assert!(!r.program_result.is_err(), "{pending} {available} {amount} {unwraps} {:?}", r.program_result);\n}\n#[test]\nfn confidential_balances_are_no_obstacle() {\n    for (pending, available) in [(0, false), (1, false), (0, true), (2, true)] {\n        for amount in [1, 600] {\n            for unwraps in [false, true] {\n                run(pending, available, amount, unwraps);\n            }\n        }\n    }\n}\n'
