id='C05-derived-authority-signs'
property='C05'
needs='unwrapped tokens held in an account of the derived wrapped mint authority other than the escrow, and a wrap naming that authority, unsigned, as the transfer authority (SPL Token side)'
what_it_breaks='the deposit transfer of wrap is signed with the seeds of the derived authority, so anybody wraps tokens held by it without any signature'
edits=[('program/src/processor.rs','''            &accounts[9..],
            amount,
            unwrapped_mint_state.base.decimals,
            &[],
        )?;
    }

    // Mint wrapped tokens to recipient
    let bump_seed = [bump];
    let signer_seeds = get_wrapped_mint_authority_signer_seeds(wrapped_mint.key, &bump_seed);
''','''            &accounts[9..],
            amount,
            unwrapped_mint_state.base.decimals,
            &[&signer_seeds],
        )?;
    }

    // Mint wrapped tokens to recipient
'''),('program/src/processor.rs','''    // Transfer unwrapped tokens from user to escrow

''','''    // Transfer unwrapped tokens from user to escrow

    let bump_seed = [bump];
    let signer_seeds = get_wrapped_mint_authority_signer_seeds(wrapped_mint.key, &bump_seed);

''')]
demo='''
use helpers::{common::*, mint_builder::MintBuilder, token_account_builder::TokenAccountBuilder};
use solana_account::Account;
use solana_pubkey::Pubkey;
use spl_token_wrap::*;
pub mod helpers;
#[test]
fn nobody_wraps_without_a_signature() {
    let m = init_mollusk();
    let t = TokenProgram::SplToken;
    let mint = MintBuilder::new().token_program(t).build();
    for wp in [TokenProgram::SplToken, TokenProgram::SplToken2022] {
        let wmint = get_wrapped_mint_address(&mint.key, &wp.id());
        let auth = get_wrapped_mint_authority(&wmint);
        let wm = MintBuilder::new().token_program(wp).mint_key(wmint).mint_authority(auth).supply(0).build();
        let esc = TokenAccountBuilder::new().token_program(t).mint(mint.clone()).owner(auth).amount(0)
            .account_key(get_escrow_address(&mint.key, &t.id(), &wp.id())).build();
        let src = TokenAccountBuilder::new().token_program(t).mint(mint.clone()).owner(auth).amount(77).build();
        let thief = TokenAccountBuilder::new().token_program(wp).mint(wm.clone()).owner(Pubkey::new_unique()).build();
        let mut ix = instruction::wrap(&id(), &thief.key, &wmint, &auth, &t.id(), &wp.id(), &src.key, &mint.key, &esc.key, &auth, &[], 77);
        for a in ix.accounts.iter_mut() { a.is_signer = false }
        let mut acc = vec![thief.pair(), wm.pair(), (auth, Account::default()), t.keyed_account(), src.pair(), mint.pair(), esc.pair()];
        if wp != t { acc.push(wp.keyed_account()) }
        let r = m.process_instruction(&ix, &acc);
        assert!(r.program_result.is_err(), "wrapped without a signature");
    }
}
'''
