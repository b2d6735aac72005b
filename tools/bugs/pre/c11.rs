
use helpers::{common::*, extensions::MintExtension, mint_builder::MintBuilder, sync_to_token_2022_builder::SyncToToken2022Builder};
use solana_pubkey::Pubkey;
use spl_token_2022_interface::{extension::{BaseStateWithExtensions, PodStateWithExtensions}, pod::PodMint};
use spl_token_metadata_interface::state::TokenMetadata;
use spl_token_wrap::*;
pub mod helpers;
type L = &'static [(&'static str, &'static str)];
fn md(name: &str, uri: &str, l: L) -> MintExtension {
    MintExtension::TokenMetadata { name: name.into(), symbol: "S".into(), uri: uri.into(), additional_metadata: l.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() }
}
fn sync(old: MintExtension, new: MintExtension) -> TokenMetadata {
    let p = TokenProgram::SplToken2022;
    let k = Pubkey::new_unique();
    let u = MintBuilder::new().token_program(p).mint_key(k).with_extension(new).with_extension(MintExtension::MetadataPointer { metadata_address: Some(k) }).build();
    let w = get_wrapped_mint_address(&k, &p.id());
    let wm = MintBuilder::new().token_program(p).mint_key(w).with_extension(MintExtension::MetadataPointer { metadata_address: Some(w) }).with_extension(old).lamports(1_000_000_000).build();
    let r = SyncToToken2022Builder::new().unwrapped_mint(u).wrapped_mint(wm).execute();
    let s = PodStateWithExtensions::<PodMint>::unpack(&r.wrapped_mint.account.data).unwrap();
    s.get_variable_len_extension::<TokenMetadata>().unwrap()
}
#[test]
fn equal_after_sync() {
    let a: L = &[("k", "v"), ("l", "w")];
    for (x, y) in [(a, &[] as L), (a, &[("l", "x")] as L), (&[] as L, a), (&[] as L, &[] as L)] {
        for (u, v) in [("u", "u"), ("u", ""), ("", "u")] {
            let m = sync(md("n", u, x), md("m", v, y));
            assert_eq!((m.name.as_str(), m.uri.as_str()), ("m", v));
            let mut g: Vec<_> = m.additional_metadata.clone(); g.sort();
            assert_eq!(g, y.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>());
        }
    }
}
