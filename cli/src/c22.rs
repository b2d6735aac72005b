//! C22: the CLI resolves the metadata source the program will accept.
use {
    crate::{c18::*, node::*, want::*},
    solana_pubkey::Pubkey,
    twmc::{builtins::*, core::*, meta::*, report::*, tok::*, tw},
};

/// A world with an unwrapped mint whose metadata is kept as `kind` says, both
/// wrapped mints, and other records around.
pub fn sync_world(svm: &mut Svm, kind: &str) -> World {
    let mut w = World { epoch: 5, ..Default::default() };
    for k in ["payer", "other-payer"] {
        w.fund(kp(k), FUNDS);
    }
    w.fund(kp("stranger"), FUNDS);
    let m = um();
    let (ptr, rest) = kind.split_once(' ').unwrap_or((kind, ""));
    let uprog = if ptr == "spl" { TOKEN } else { T22 };
    let exts = match ptr {
        "spl" | "no-pointer" => vec![],
        "unset" => vec![Ext::MetaPtr(None)],
        "self" => vec![Ext::MetaPtr(Some(m))],
        "metaplex" => vec![Ext::MetaPtr(Some(mpl_of(&m)))],
        "other-metaplex" => vec![Ext::MetaPtr(Some(mpl_of(&other_mint())))],
        "other-mint" => vec![Ext::MetaPtr(Some(other_mint()))],
        "external" => vec![Ext::MetaPtr(Some(external()))],
        "missing" => vec![Ext::MetaPtr(Some(key("nothing-here")))],
        "wallet" => vec![Ext::MetaPtr(Some(kp("stranger")))],
        _ => panic!("{kind}"),
    };
    make_mint(svm, &mut w, &MintSpec::new(m, uprog).exts(&exts)).unwrap();
    make_mint(svm, &mut w, &MintSpec::new(other_mint(), T22).exts(&[Ext::MetaPtr(Some(other_mint()))])).unwrap();
    put_token_metadata(svm, &mut w, &other_mint(), &mint_auth(), &Flat::new("other", "O", "http://o", &[("k", "v")])).unwrap();
    let mut md = Md::new("from metaplex", "MPL", "http://m");
    md.mint = other_mint();
    put_metaplex(svm, &mut w, mpl_of(&other_mint()), &md);
    let payload = Flat::new("external", "EXT", "http://e", &[("a", "b")]).packed(m, Some(mint_auth()));
    put_external(svm, &mut w, external(), meta_a(), EMIT, &payload);
    if rest.contains("own") {
        put_token_metadata(svm, &mut w, &m, &mint_auth(), &Flat::new("own", "OWN", "http://own", &[("x", "y")])).unwrap();
    }
    if rest.contains("mpl") {
        md.mint = m;
        md.name = "mine in metaplex".into();
        put_metaplex(svm, &mut w, mpl_of(&m), &md);
    }
    for wprog in [TOKEN, T22] {
        let p = Pair::new(m, uprog, wprog);
        if !rest.contains("unwrapped") {
            make_wrapped(svm, &mut w, &p, 0);
        }
        // the authority pays for a Metaplex record
        w.fund(p.auth, FUNDS);
        // rent for what a sync adds
        w.edit(&p.wmint, |a| a.lamports += if a.lamports > 0 { FUNDS } else { 0 });
    }
    w
}
pub fn um() -> Pubkey {
    key("mint-with-metadata")
}
fn other_mint() -> Pubkey {
    key("mint-with-own-metadata")
}
fn external() -> Pubkey {
    key("external-metadata")
}
pub const KINDS: [&str; 20] = [
    "spl", "spl mpl", "no-pointer", "no-pointer mpl", "unset", "unset mpl", "self", "self own", "self mpl", "self own mpl",
    "metaplex", "metaplex mpl", "other-metaplex", "other-metaplex mpl", "other-mint", "other-mint mpl", "external", "external mpl", "missing mpl", "wallet mpl",
];

#[derive(Clone, Debug)]
pub struct Sync {
    pub to: Pubkey,
    pub mint: Pubkey,
    pub source: Option<Pubkey>,
    pub owner: Option<Pubkey>,
    pub payer: Who,
}
impl Sync {
    pub fn case(&self, w: &World, format: Format, what: String) -> Case {
        let spl = self.to == TOKEN;
        let (cmd, so, oo) = if spl { ("sync-metadata-to-spl-token", "--source-metadata", "--owner-program") } else { ("sync-metadata-to-token2022", "--metadata-account", "--metadata-program-id") };
        let mut args = strs(&[cmd, &self.mint.to_string()]);
        for (o, k) in [(so, self.source), (oo, self.owner)] {
            if let Some(k) = k {
                args.extend([o.into(), k.to_string()]);
            }
        }
        let a = w.get(&self.mint);
        let uprog = a.map_or(SYS, |a| a.owner);
        let p = Pair::new(self.mint, uprog, self.to);
        let mut refuse = false;
        let source = match self.source {
            Some(k) => Some(k),
            None if spl => None,
            None => match a {
                Some(a) if a.owner == TOKEN => Some(mpl_of(&self.mint)),
                Some(a) if is_mint(a) => match pointer(&a.data) {
                    Some(t) if t == self.mint => None,
                    Some(t) => Some(t),
                    None => Some(mpl_of(&self.mint)),
                },
                _ => {
                    refuse = true;
                    None
                }
            },
        };
        if !spl && self.owner.is_some() && self.source.is_none() {
            refuse = true;
        }
        let ix = if spl { tw::sync_spl(&p, source.as_ref(), self.owner.as_ref()) } else { tw::sync22(&p, source.as_ref(), self.owner.as_ref()) };
        let mut want = Want::new(self.payer.key(), vec![ix])
            .pk("unwrappedMint", &self.mint)
            .pk("wrappedMint", &p.wmint)
            .pk("wrappedMintAuthority", &p.auth)
            .opt("sourceMetadata", source.as_ref())
            .opt(if spl { "ownerProgram" } else { "metadataProgramId" }, self.owner.as_ref());
        if spl {
            want = want.pk("metaplexMetadata", &mpl_of(&p.wmint));
        }
        want.signable = self.payer.signs();
        Case {
            what,
            world: w.clone(),
            global: self.payer.arg().map_or(vec![], |a| vec!["--fee-payer".into(), a]),
            args,
            format,
            expect: if refuse { Expect::Refuse } else { Expect::Submit(want) },
        }
    }
}
/// The metadata pointer's target, by walking the extensions.
fn pointer(d: &[u8]) -> Option<Pubkey> {
    let mut i = 166;
    while i + 4 <= d.len() {
        let (t, l) = (u16::from_le_bytes([d[i], d[i + 1]]), u16::from_le_bytes([d[i + 2], d[i + 3]]) as usize);
        if t == 18 {
            let k = Pubkey::new_from_array(d[i + 36..i + 68].try_into().unwrap());
            return (k != SYS).then_some(k);
        }
        if t == 0 {
            return None;
        }
        i += 4 + l;
    }
    None
}

/// The sync that must succeed if the mint has a usable source that needs no
/// owner program, as far as the documentation says.
fn usable(kind: &str) -> bool {
    let (ptr, rest) = kind.split_once(' ').unwrap_or((kind, ""));
    match ptr {
        "spl" | "no-pointer" | "metaplex" => rest.contains("mpl"),
        "self" => rest.contains("own"),
        "other-metaplex" => true,
        _ => false,
    }
}

pub fn run(ctx: &Ctx, pool: &Pool) {
    let worlds: Vec<(&str, World)> = KINDS.iter().map(|k| (*k, pool.one(|svm| sync_world(svm, k)))).collect();
    let mut cases = vec![];
    let mut need = vec![];
    let name = |k: &Option<Pubkey>| k.map_or("none".into(), |k| name_of(&k));
    for (kind, w) in &worlds {
        for to in [TOKEN, T22] {
            let srcs = [None, Some(um()), Some(mpl_of(&um())), Some(mpl_of(&other_mint())), Some(other_mint()), Some(external()), Some(key("nothing-here")), Some(kp("stranger"))];
            let owners = [None, Some(meta_a()), Some(meta_b()), Some(MPL), Some(T22), Some(kp("stranger"))];
            for source in srcs {
                for owner in owners {
                    let s = Sync { to, mint: um(), source, owner, payer: Who::Default };
                    let what = format!("metadata {kind}, to {}, source {}, owner {}", name_of(&to), name(&source), name(&owner));
                    cases.push(s.case(w, Format::Json, what));
                }
            }
            if to == T22 && usable(kind) {
                need.push(cases.len() - srcs.len() * owners.len());
            }
        }
    }
    // these must be accepted by the chain: the CLI found the source
    for &i in &need {
        let Expect::Submit(w) = &cases[i].expect else { panic!("{}", cases[i].what) };
        let e = pool.one(|svm| svm.exec(&cases[i].world, &w.ixs));
        if let Err(e) = e.res {
            ctx.violate("resolution/refused", format!("{}: the program does not accept the designated source: {e}", cases[i].what), &cases[i].world, &w.ixs);
        }
    }
    ctx.put("automatic_resolutions_that_must_succeed", need.len() as u64);
    decide(ctx, pool, "resolution", &cases);

    let mut cases = vec![];
    for (kind, w) in &worlds {
        for to in [TOKEN, T22] {
            for source in [None, Some(mpl_of(&um()))] {
                for f in FORMATS {
                    let s = Sync { to, mint: um(), source, owner: None, payer: Who::Default };
                    cases.push(s.case(w, f, format!("metadata {kind}, to {}, source {}, {f:?}", name_of(&to), name(&source))));
                }
                for payer in [Who::File("other-payer"), Who::Address("other-payer"), Who::Address("payer")] {
                    let s = Sync { to, mint: um(), source, owner: None, payer: payer.clone() };
                    cases.push(s.case(w, Format::Json, format!("metadata {kind}, to {}, source {}, paid by {payer:?}", name_of(&to), name(&source))));
                }
            }
        }
    }
    // an owner program in every format
    let w = &worlds.iter().find(|x| x.0 == "external").unwrap().1;
    for to in [TOKEN, T22] {
        for f in FORMATS {
            let s = Sync { to, mint: um(), source: Some(external()), owner: Some(meta_a()), payer: Who::Default };
            cases.push(s.case(w, f, format!("external metadata, to {}, {f:?}", name_of(&to))));
        }
    }
    // other mints than those with a wrapped mint, and things that are no mint
    for kind in ["spl mpl unwrapped", "self own unwrapped", "no-pointer mpl unwrapped"] {
        let w = pool.one(|svm| sync_world(svm, kind));
        for to in [TOKEN, T22] {
            for source in [None, Some(mpl_of(&um()))] {
                cases.push(Sync { to, mint: um(), source, owner: None, payer: Who::Default }.case(&w, Format::Json, format!("metadata {kind}, to {}", name_of(&to))));
            }
        }
    }
    for (uprog, wprog) in PROGS {
        let mut s = pool.one(|svm| scene(svm, uprog, wprog, &[]));
        for (what, k) in pool.one(|svm| strangers(svm, &mut s)) {
            for to in [TOKEN, T22] {
                for source in [None, Some(kp("stranger"))] {
                    let mut c = Sync { to, mint: k, source, owner: None, payer: Who::Default }.case(&s.w, Format::Json, format!("mint {what}, to {}", name_of(&to)));
                    if ![s.p.umint, s.p.wmint].contains(&k) && !matches!(c.expect, Expect::Refuse) || k == T22 {
                        c.expect = Expect::Fail;
                    }
                    cases.push(c);
                }
            }
        }
    }
    decide(ctx, pool, "sync", &cases);
    let faulty: Vec<Case> = worlds
        .iter()
        .flat_map(|(kind, w)| [TOKEN, T22].into_iter().map(move |to| Sync { to, mint: um(), source: None, owner: None, payer: Who::Default }.case(w, Format::Json, format!("metadata {kind}, to {}", name_of(&to)))))
        .collect();
    decide_faults(ctx, pool, "sync-faults", &faulty, &FAULTS);
    ctx.bound("20 placements of metadata x both destinations x 8 explicit sources x 6 owner programs; 7 formats; 3 payers; 13 accounts that are not the mint; every fault at every request");
}
