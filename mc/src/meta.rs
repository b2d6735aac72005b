//! Metadata: Metaplex records (own encoder, decoder and rendering), Token-2022
//! metadata, and third-party metadata accounts.
use {
    crate::{builtins, core::*, tok::*},
    solana_account::Account,
    solana_instruction::{AccountMeta, Instruction},
    solana_pubkey::Pubkey,
    spl_token_metadata_interface::state::{Field, TokenMetadata},
    spl_type_length_value::variable_len_pack::VariableLenPack,
};

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Md {
    pub ua: Pubkey,
    pub mint: Pubkey,
    pub name: String,
    pub symbol: String,
    pub uri: String,
    pub fee: u16,
    pub creators: Option<Vec<(Pubkey, bool, u8)>>,
    pub primary_sale: bool,
    pub mutable: bool,
    pub edition_nonce: Option<u8>,
    pub standard: Option<u8>,
    pub collection: Option<(bool, Pubkey)>,
    pub uses: Option<(u8, u64, u64)>,
    /// V1 size, V2
    pub details: Option<Result<u64, ()>>,
    pub config: Option<Option<Pubkey>>,
}
impl Md {
    pub fn new(name: &str, symbol: &str, uri: &str) -> Md {
        Md { name: name.into(), symbol: symbol.into(), uri: uri.into(), mutable: true, ua: key("metaplex-ua"), ..Default::default() }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![4u8];
        let s = |o: &mut Vec<u8>, x: &str| {
            o.extend((x.len() as u32).to_le_bytes());
            o.extend(x.as_bytes());
        };
        o.extend(self.ua.as_ref());
        o.extend(self.mint.as_ref());
        s(&mut o, &self.name);
        s(&mut o, &self.symbol);
        s(&mut o, &self.uri);
        o.extend(self.fee.to_le_bytes());
        self.tail_data(&mut o);
        o.push(self.primary_sale as u8);
        o.push(self.mutable as u8);
        match self.edition_nonce {
            None => o.push(0),
            Some(n) => o.extend([1, n]),
        }
        match self.standard {
            None => o.push(0),
            Some(n) => o.extend([1, n]),
        }
        self.collection_uses(&mut o);
        match self.details {
            None => o.push(0),
            Some(Ok(n)) => {
                o.extend([1, 0]);
                o.extend(n.to_le_bytes())
            }
            Some(Err(())) => {
                o.extend([1, 1]);
                o.extend([0; 8])
            }
        }
        match self.config {
            None => o.push(0),
            Some(None) => o.extend([1, 0, 0]),
            Some(Some(k)) => {
                o.extend([1, 0, 1]);
                o.extend(k.as_ref())
            }
        }
        o
    }
    fn tail_data(&self, o: &mut Vec<u8>) {
        match &self.creators {
            None => o.push(0),
            Some(v) => {
                o.push(1);
                o.extend((v.len() as u32).to_le_bytes());
                for (k, v, s) in v {
                    o.extend(k.as_ref());
                    o.extend([*v as u8, *s]);
                }
            }
        }
    }
    fn collection_uses(&self, o: &mut Vec<u8>) {
        match self.collection {
            None => o.push(0),
            Some((v, k)) => {
                o.extend([1, v as u8]);
                o.extend(k.as_ref());
            }
        }
        match self.uses {
            None => o.push(0),
            Some((m, r, t)) => {
                o.extend([1, m]);
                o.extend(r.to_le_bytes());
                o.extend(t.to_le_bytes());
            }
        }
    }
    pub fn decode(d: &[u8]) -> Option<Md> {
        struct R<'a>(&'a [u8]);
        impl R<'_> {
            fn n(&mut self, n: usize) -> Option<Vec<u8>> {
                if self.0.len() < n {
                    return None;
                }
                let (a, b) = self.0.split_at(n);
                self.0 = b;
                Some(a.to_vec())
            }
            fn u8(&mut self) -> Option<u8> {
                Some(self.n(1)?[0])
            }
            fn u64(&mut self) -> Option<u64> {
                Some(u64::from_le_bytes(self.n(8)?.try_into().unwrap()))
            }
            fn pk(&mut self) -> Option<Pubkey> {
                Some(Pubkey::new_from_array(self.n(32)?.try_into().unwrap()))
            }
            fn s(&mut self) -> Option<String> {
                let l = u32::from_le_bytes(self.n(4)?.try_into().unwrap()) as usize;
                String::from_utf8(self.n(l)?).ok()
            }
            fn opt<T>(&mut self, f: impl Fn(&mut Self) -> Option<T>) -> Option<Option<T>> {
                match self.u8()? {
                    0 => Some(None),
                    1 => Some(Some(f(self)?)),
                    _ => None,
                }
            }
        }
        let mut r = R(d);
        if r.u8()? != 4 {
            return None;
        }
        Some(Md {
            ua: r.pk()?,
            mint: r.pk()?,
            name: r.s()?,
            symbol: r.s()?,
            uri: r.s()?,
            fee: u16::from_le_bytes(r.n(2)?.try_into().unwrap()),
            creators: r.opt(|r| {
                let n = u32::from_le_bytes(r.n(4)?.try_into().unwrap());
                (0..n).map(|_| Some((r.pk()?, r.u8()? == 1, r.u8()?))).collect()
            })?,
            primary_sale: r.u8()? == 1,
            mutable: r.u8()? == 1,
            edition_nonce: r.opt(|r| r.u8())?,
            standard: r.opt(|r| r.u8())?,
            collection: r.opt(|r| Some((r.u8()? == 1, r.pk()?)))?,
            uses: r.opt(|r| Some((r.u8()?, r.u64()?, r.u64()?)))?,
            details: r.opt(|r| match r.u8()? {
                0 => Some(Ok(r.u64()?)),
                _ => {
                    r.n(8)?;
                    Some(Err(()))
                }
            })?,
            config: r.opt(|r| {
                r.u8()?;
                r.opt(|r| r.pk())
            })?,
        })
    }
    /// Creators and collection as they are once copied: nobody has verified them.
    pub fn unverified_creators(&self) -> Option<Vec<(Pubkey, bool, u8)>> {
        self.creators.clone().filter(|c| !c.is_empty()).map(|v| v.into_iter().map(|(k, _, s)| (k, false, s)).collect())
    }
    /// The documented rendering of a Metaplex record as Token-2022 metadata.
    pub fn render(&self) -> Flat {
        let b = |x: bool| x.to_string();
        let mut kv = vec![
            ("key".to_string(), "\"MetadataV1\"".to_string()),
            ("seller_fee_basis_points".into(), self.fee.to_string()),
            ("primary_sale_happened".into(), b(self.primary_sale)),
            ("is_mutable".into(), b(self.mutable)),
        ];
        if let Some(c) = self.unverified_creators() {
            let l: Vec<String> = c.iter().map(|(k, _, s)| format!("{{\"address\":\"{k}\",\"verified\":false,\"share\":{s}}}")).collect();
            kv.push(("creators".into(), format!("[{}]", l.join(","))));
        }
        if let Some(n) = self.edition_nonce {
            kv.push(("edition_nonce".into(), n.to_string()));
        }
        if let Some(s) = self.standard {
            let n = ["NonFungible", "FungibleAsset", "Fungible", "NonFungibleEdition", "ProgrammableNonFungible", "ProgrammableNonFungibleEdition"][s as usize];
            kv.push(("token_standard".into(), format!("\"{n}\"")));
        }
        if let Some((v, k)) = self.collection {
            kv.push(("collection".into(), format!("{{\"verified\":{v},\"key\":\"{k}\"}}")));
        }
        if let Some((m, r, t)) = self.uses {
            let n = ["Burn", "Multiple", "Single"][m as usize];
            kv.push(("uses".into(), format!("{{\"use_method\":\"{n}\",\"remaining\":{r},\"total\":{t}}}")));
        }
        match self.details {
            None => {}
            Some(Ok(n)) => kv.push(("collection_details".into(), format!("{{\"V1\":{{\"size\":{n}}}}}"))),
            Some(Err(())) => kv.push(("collection_details".into(), "{\"V2\":{\"padding\":[0,0,0,0,0,0,0,0]}}".into())),
        }
        if let Some(c) = self.config {
            let k = match c {
                None => "null".to_string(),
                Some(k) => format!("[{}]", k.to_bytes().map(|b| b.to_string()).join(",")),
            };
            kv.push(("programmable_config".into(), format!("{{\"V1\":{{\"rule_set\":{k}}}}}")));
        }
        Flat { name: self.name.clone(), symbol: self.symbol.clone(), uri: self.uri.clone(), kv }
    }
}

/// Token-2022 style metadata: three fields and key-value pairs.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Flat {
    pub name: String,
    pub symbol: String,
    pub uri: String,
    pub kv: Vec<(String, String)>,
}
impl Flat {
    pub fn new(name: &str, symbol: &str, uri: &str, kv: &[(&str, &str)]) -> Flat {
        Flat { name: name.into(), symbol: symbol.into(), uri: uri.into(), kv: kv.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() }
    }
    pub fn of(m: &TokenMetadata) -> Flat {
        Flat { name: m.name.clone(), symbol: m.symbol.clone(), uri: m.uri.clone(), kv: m.additional_metadata.clone() }
    }
    /// With the pairs in canonical order.
    pub fn sorted(&self) -> Flat {
        let mut f = self.clone();
        f.kv.sort();
        f
    }
    pub fn tm(&self, mint: Pubkey, ua: Option<Pubkey>) -> TokenMetadata {
        TokenMetadata {
            update_authority: nullable(ua),
            mint,
            name: self.name.clone(),
            symbol: self.symbol.clone(),
            uri: self.uri.clone(),
            additional_metadata: self.kv.clone(),
        }
    }
    pub fn packed(&self, mint: Pubkey, ua: Option<Pubkey>) -> Vec<u8> {
        let t = self.tm(mint, ua);
        let mut v = vec![0; t.get_packed_len().unwrap()];
        t.pack_into_slice(&mut v).unwrap();
        v
    }
}

/// Stores token metadata in a Token-2022 mint through the token program.
/// `auth` must be the mint's mint authority.
pub fn put_token_metadata(svm: &mut Svm, w: &mut World, mint: &Pubkey, auth: &Pubkey, f: &Flat) -> Result<(), String> {
    let mut t = w.clone();
    t.edit(mint, |a| a.lamports += 1_000_000_000);
    let lam = w.lamports(mint);
    use spl_token_metadata_interface::instruction as mi;
    let mut ixs = vec![mi::initialize(&T22, mint, auth, mint, auth, f.name.clone(), f.symbol.clone(), f.uri.clone())];
    for (k, v) in &f.kv {
        ixs.push(mi::update_field(&T22, mint, auth, Field::Key(k.clone()), v.clone()));
    }
    for ix in ixs {
        svm.try_apply(&mut t, &[ix])?;
    }
    let rent = svm.rent(t.data(mint).len());
    t.edit(mint, |a| a.lamports = rent.max(lam));
    *w = t;
    Ok(())
}

/// A Metaplex record as its program keeps it, written directly.
pub fn put_metaplex(svm: &Svm, w: &mut World, at: Pubkey, md: &Md) {
    let mut data = md.encode();
    let len = data.len().max(607);
    data.resize(len, 0);
    w.set(at, Account { lamports: svm.rent(len) + 10_000_000, data, owner: MPL, ..Default::default() });
}
/// Third-party metadata account served by one of the metadata programs.
pub fn put_external(svm: &Svm, w: &mut World, at: Pubkey, owner: Pubkey, mode: u8, payload: &[u8]) {
    let mut data = vec![mode];
    data.extend_from_slice(payload);
    w.set(at, Account { lamports: svm.rent(data.len()), data, owner, ..Default::default() });
}

/// CreateMetadataAccountV3, to make records as the Metaplex program does.
pub fn mpl_create(mint: &Pubkey, mint_auth: &Pubkey, payer: &Pubkey, ua: &Pubkey, md: &Md) -> Instruction {
    let mut d = vec![33u8];
    d.extend(data_v2(md));
    d.push(md.mutable as u8);
    d.push(0);
    Instruction {
        program_id: MPL,
        accounts: vec![
            AccountMeta::new(mpl_of(mint), false),
            AccountMeta::new_readonly(*mint, false),
            AccountMeta::new_readonly(*mint_auth, true),
            AccountMeta::new(*payer, true),
            AccountMeta::new_readonly(*ua, true),
            AccountMeta::new_readonly(SYS, false),
            AccountMeta::new_readonly(RENT, false),
        ],
        data: d,
    }
}
/// UpdateMetadataAccountV2 with new data only.
pub fn mpl_update(mint: &Pubkey, ua: &Pubkey, md: &Md) -> Instruction {
    let mut d = vec![15u8, 1];
    d.extend(data_v2(md));
    d.extend([0, 0, 0]);
    Instruction { program_id: MPL, accounts: vec![AccountMeta::new(mpl_of(mint), false), AccountMeta::new_readonly(*ua, true)], data: d }
}
fn data_v2(md: &Md) -> Vec<u8> {
    let mut o = vec![];
    for x in [&md.name, &md.symbol, &md.uri] {
        o.extend((x.len() as u32).to_le_bytes());
        o.extend(x.as_bytes());
    }
    o.extend(md.fee.to_le_bytes());
    md.tail_data(&mut o);
    md.collection_uses(&mut o);
    o
}
pub fn metaplex(w: &World, mint: &Pubkey) -> Option<Md> {
    let a = w.get(&mpl_of(mint))?;
    if a.owner != MPL {
        return None;
    }
    Md::decode(&a.data)
}
/// Metaplex pads strings with NULs.
pub fn unpad(s: &str) -> &str {
    s.trim_end_matches('\0')
}
#[allow(dead_code)]
pub fn meta_programs() -> [Pubkey; 2] {
    [builtins::meta_a(), builtins::meta_b()]
}
