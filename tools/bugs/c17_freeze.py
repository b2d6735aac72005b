id='C17-compliance-freeze'
property='C17'
needs='the compliance customizer and an unwrapped mint without a freeze authority'
what_it_breaks='the compliance freeze authority is only set for mints that had one, so such wrapped mints cannot be frozen'
edits=[('program/src/mint_customizer/compliance.rs','''        // By setting a freeze authority, we enable "pausable" functionality. The freeze
        // authority can freeze all token accounts, effectively pausing transfers.
        Ok((Some(FREEZE_AUTHORITY), decimals))
''','''        // By setting a freeze authority, we enable "pausable" functionality. The freeze
        // authority can freeze all token accounts, effectively pausing transfers.
        let freezable = pod_mint.freeze_authority.is_some();
        Ok((freezable.then_some(FREEZE_AUTHORITY), decimals))
''')]
demo='''
use helpers::{common::*, mint_builder::MintBuilder};
use solana_account_info::AccountInfo;
use solana_pubkey::Pubkey;
use spl_token_wrap::mint_customizer::{compliance::*, interface::MintCustomizer};
pub mod helpers;
#[test]
fn always_freezable() {
    for f in [Some(Pubkey::new_unique()), None] {
        let mut b = MintBuilder::new().token_program(TokenProgram::SplToken).decimals(3);
        if let Some(f) = f { b = b.freeze_authority(f) }
        let mut m = b.build();
        let (mut l, o) = (1, m.account.owner);
        let a = AccountInfo::new(&m.key, false, false, &mut l, &mut m.account.data, &o, false);
        assert_eq!(ComplianceMintCustomizer::get_freeze_auth_and_decimals(&a).unwrap(), (Some(FREEZE_AUTHORITY), 3));
    }
}
'''
