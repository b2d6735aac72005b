id='C27-pending-first'
property='C27'
needs='a wrap to an account with a confidential balance that has received more than one confidential credit since its pending balance was last applied'
what_it_breaks='anyone who sends an account confidential credits keeps others from wrapping to it until its holder has applied them'
edits=[('program/src/processor.rs', '            account_len::try_for_each_required_init_account_extension,\n', '            account_len::try_for_each_required_init_account_extension,\n            confidential_transfer::ConfidentialTransferAccount,\n'), ('program/src/processor.rs', '    // Transfer unwrapped tokens from user to escrow\n\n    let unwrapped_mint_data', '    // Credits that have not been applied are settled before more is minted\n    if *wrapped_token_program.key == spl_token_2022_interface::id() {\n        let recipient_data = recipient_wrapped_token_account.try_borrow_data()?;\n        let pending_credits = PodStateWithExtensions::<PodAccount>::unpack(&recipient_data)?\n            .get_extension::<ConfidentialTransferAccount>()\n            .map(|c| u64::from(c.pending_balance_credit_counter))\n            .unwrap_or(0);\n        if pending_credits > 1 {\n            Err(ProgramError::InvalidAccountData)?\n        }\n    }\n\n    // Transfer unwrapped tokens from user to escrow\n\n    let unwrapped_mint_data')]
demo='\nuse helpers::{common::*, mint_builder::MintBuilder, token_account_builder::TokenAccountBuilder};\nuse solana_account::Account;\nuse solana_pubkey::Pubkey;\nuse spl_token_2022_interface::extension::ExtensionType::ImmutableOwner;\nuse spl_token_wrap::*;\npub mod helpers;\n/// The account with a confidential balance beside the plain one.\nfn confidential(mut k: KeyedAccount, pending: u64, available: bool) -> KeyedAccount {\n    let d = &mut k.account.data;\n    d.extend([5, 0, 39, 1]);\n    let mut x = [0u8; 295];\n    x[0] = 1;\n    x[1..33].copy_from_slice(&[7; 32]);\n    if available {\n        x[161..225].copy_from_slice(&[9; 64]);\n    }\n    x[261] = 1;\n    x[262] = 1;\n    x[263..271].copy_from_slice(&pending.to_le_bytes());\n    x[271..279].copy_from_slice(&65536u64.to_le_bytes());\n    d.extend(x);\n    k.account.lamports *= 3;\n    k\n}\nfn run(pending: u64, available: bool, amount: u64, unwraps: bool) {\n    let m = init_mollusk();\n    let p = TokenProgram::SplToken2022;\n    let mint = MintBuilder::new().token_program(p).supply(5000).build();\n    let wmint = get_wrapped_mint_address(&mint.key, &p.id());\n    let auth = get_wrapped_mint_authority(&wmint);\n    let user = Pubkey::new_unique();\n    let wm = MintBuilder::new().token_program(p).mint_key(wmint).mint_authority(auth).supply(1000).build();\n    let esc = TokenAccountBuilder::new().token_program(p).mint(mint.clone()).owner(auth).amount(1000).account_key(get_escrow_address(&mint.key, &p.id(), &p.id()))\n        .with_extension(ImmutableOwner).build();\n    let u = TokenAccountBuilder::new().token_program(p).mint(mint.clone()).owner(user).amount(1000).build();\n    let w = confidential(TokenAccountBuilder::new().token_program(p).mint(wm.clone()).owner(user).amount(600).with_extension(ImmutableOwner).build(), pending, available);\n    let acc = vec![esc.pair(), u.pair(), w.pair(), wm.pair(), mint.pair(), (auth, Account::default()), (user, Account::default()), p.keyed_account()];\n    let ix = if unwraps {\n        instruction::unwrap(&id(), &esc.key, &u.key, &auth, &mint.key, &p.id(), &p.id(), &w.key, &wmint, &user, &[], amount)\n    } else {\n        instruction::wrap(&id(), &w.key, &wmint, &auth, &p.id(), &p.id(), &u.key, &mint.key, &esc.key, &user, &[], amount)\n    };\n    let r = m.process_instruction(&ix, &acc);\n    assert!(!r.program_result.is_err(), "{pending} {available} {amount} {unwraps} {:?}", r.program_result);\n}\n#[test]\nfn confidential_balances_are_no_obstacle() {\n    for (pending, available) in [(0, false), (1, false), (0, true), (2, true)] {\n        for amount in [1, 600] {\n            for unwraps in [false, true] {\n                run(pending, available, amount, unwraps);\n            }\n        }\n    }\n}\n'
