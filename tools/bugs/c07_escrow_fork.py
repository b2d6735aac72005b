id='C07-escrow-of-fork'
property='C07'
needs='a deployment of the program under another id, asked for the escrow address'
what_it_breaks="the escrow address published for another deployment is derived from this deployment's authority, so two deployments share an escrow address"
edits=[('program/src/lib.rs','''    let mint_authority = get_wrapped_mint_authority_for_program(&wrapped_mint, program_id);

    get_assoc''','''    let mint_authority = get_wrapped_mint_authority(&wrapped_mint);

    get_assoc''')]
demo='''
use solana_pubkey::Pubkey;
use spl_token_wrap::*;
#[test]
fn escrow_of_a_fork() {
    let (fork, mint, t) = (Pubkey::new_unique(), Pubkey::new_unique(), spl_token_2022_interface::id());
    for p in [id(), fork] {
        let a = get_wrapped_mint_authority_for_program(&get_wrapped_mint_address_for_program(&mint, &t, &p), &p);
        assert_eq!(get_escrow_address_for_program(&mint, &t, &t, &p),
            spl_associated_token_account_interface::address::get_associated_token_address_with_program_id(&a, &mint, &t));
    }
}
'''
