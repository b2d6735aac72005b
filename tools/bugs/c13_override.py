id='C13-metaplex-preferred'
property='C13'
needs="a Token-2022 mint whose pointer names the mint itself, and a caller that supplies that mint's Metaplex account, which also exists"
what_it_breaks="a supplied Metaplex account takes precedence over the mint's metadata pointer, so anyone syncing chooses which of two records is copied"
edits=[('program/src/metadata.rs','''    // Pointer points to self, read off unwrapped mint metadata extension
    if metadata_addr == *unwrapped_mint_info.key {
''','''    // Pointer points to self, read off unwrapped mint metadata extension
    if metadata_addr == *unwrapped_mint_info.key {
        if let Some(info) = maybe_source_metadata_info {
            if info.owner == &mpl_token_metadata::ID {
                return read_metaplex_for_mint(unwrapped_mint_info, Some(info));
            }
        }
''')]
demo='''
use helpers::{common::*, extensions::MintExtension, mint_builder::MintBuilder, sync_to_token_2022_builder::SyncToToken2022Builder};
use mpl_token_metadata::{accounts::Metadata as Mp, types::Key};
use solana_account::Account;
use solana_pubkey::Pubkey;
use spl_token_2022_interface::{extension::{BaseStateWithExtensions, PodStateWithExtensions}, pod::PodMint};
use spl_token_metadata_interface::state::TokenMetadata;
pub mod helpers;
#[test]
fn the_pointer_decides() {
    let p = TokenProgram::SplToken2022;
    let k = Pubkey::new_unique();
    let u = MintBuilder::new().token_program(p).mint_key(k)
        .with_extension(MintExtension::TokenMetadata { name: "right".into(), symbol: "S".into(), uri: "u".into(), additional_metadata: vec![] })
        .with_extension(MintExtension::MetadataPointer { metadata_address: Some(k) }).build();
    let mp = Mp { key: Key::MetadataV1, update_authority: Pubkey::new_unique(), mint: k, name: "wrong".into(), symbol: "X".into(), uri: "x".into(), seller_fee_basis_points: 0,
        creators: None, primary_sale_happened: false, is_mutable: true, edition_nonce: None, token_standard: None, collection: None, uses: None, collection_details: None, programmable_config: None };
    let src = KeyedAccount { key: Mp::find_pda(&k).0, account: Account { lamports: 1_000_000_000, data: borsh::to_vec(&mp).unwrap(), owner: mpl_token_metadata::ID, ..Account::default() } };
    let r = SyncToToken2022Builder::new().unwrapped_mint(u).source_metadata(src).execute();
    let s = PodStateWithExtensions::<PodMint>::unpack(&r.wrapped_mint.account.data).unwrap();
    assert_eq!(s.get_variable_len_extension::<TokenMetadata>().unwrap().name, "right");
}
'''
