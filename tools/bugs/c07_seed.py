id='C07-pointer-shares-seed'
property='C07'
needs="the backpointer of one mint and the canonical pointer of the same address used as an unwrapped mint (a wrapped mint that is wrapped again)"
what_it_breaks="the canonical pointer is derived with the backpointer's seed, so a wrapped mint's backpointer and its own canonical pointer are one account, and setting the pointer cuts the link to the unwrapped mint"
edits=[('program/src/lib.rs','''const CANONICAL_POINTER_SEED: &[u8] = br"canonical_pointer";''','''const CANONICAL_POINTER_SEED: &[u8] = WRAPPED_MINT_BACKPOINTER_SEED;''')]
demo='''
use solana_pubkey::Pubkey;
use spl_token_wrap::*;
#[test]
fn different_accounts() {
    let m = Pubkey::new_unique();
    assert_ne!(get_canonical_pointer_address(&m), get_wrapped_mint_backpointer_address(&m));
}
'''
