//! C11 (sync to Token-2022), C12 (sync to SPL Token), C13 (which source).
use super::{lifecycle::tlv, move_tokens::all_exts};
use crate::{builtins::*, core::*, meta::*, report::Ctx, tok::*, tw::*};
use serde_json::json;
use solana_account::Account;
use solana_pubkey::Pubkey;
use spl_token_2022_interface::extension::ExtensionType;
use std::{collections::{BTreeMap, BTreeSet}, sync::Arc};

fn um() -> Pubkey {
    key("umint")
}

/// Where the unwrapped mint keeps its metadata.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum Kind {
    /// Token-2022, pointer to itself
    Own,
    /// Token-2022, pointer to an account of a third-party program
    External,
    /// SPL Token, Metaplex
    Spl,
    /// Token-2022 without pointer, Metaplex
    NoPointer,
    /// Token-2022, pointer to its Metaplex account
    ToMetaplex,
    /// Token-2022, pointer to some other Metaplex account
    ToOther,
}
const FLAT: [Kind; 2] = [Kind::Own, Kind::External];
const MPLS: [Kind; 4] = [Kind::Spl, Kind::NoPointer, Kind::ToMetaplex, Kind::ToOther];
impl Kind {
    fn prog(self) -> Pubkey {
        if self == Kind::Spl { TOKEN } else { T22 }
    }
    fn target(self) -> Pubkey {
        match self {
            Kind::Own => um(),
            Kind::External => key("external-metadata"),
            Kind::ToOther => key("other-metaplex-record"),
            _ => mpl_of(&um()),
        }
    }
    /// The unwrapped mint, with its pointer.
    fn mint(self, svm: &mut Svm, w: &mut World) {
        let e = match self {
            Kind::Spl | Kind::NoPointer => vec![],
            k => vec![Ext::MetaPtr(Some(k.target()))],
        };
        make_mint(svm, w, &MintSpec::new(um(), self.prog()).exts(&e)).unwrap();
    }
    fn source(self) -> Option<Pubkey> {
        (self != Kind::Own).then(|| self.target())
    }
    fn owner(self) -> Option<Pubkey> {
        (self == Kind::External).then(meta_a)
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Src {
    Flat(Flat),
    Mpl(Md),
}
impl Src {
    fn rendered(&self) -> Flat {
        match self {
            Src::Flat(f) => f.clone(),
            Src::Mpl(m) => m.render(),
        }
    }
}
/// The accounts that make up a source: unwrapped mint and metadata account.
fn source_accounts(svm: &mut Svm, k: Kind, s: &Src) -> Option<Vec<(Pubkey, Arc<Account>)>> {
    let mut w = World { epoch: 5, ..Default::default() };
    k.mint(svm, &mut w);
    match (k, s) {
        (Kind::Own, Src::Flat(f)) => put_token_metadata(svm, &mut w, &um(), &mint_auth(), f).ok()?,
        (Kind::External, Src::Flat(f)) => {
            let b = f.packed(um(), Some(mint_auth()));
            if b.len() > 1024 {
                return None;
            }
            put_external(svm, &mut w, k.target(), meta_a(), EMIT, &b)
        }
        (_, Src::Mpl(m)) => {
            let mut m = m.clone();
            m.mint = if k == Kind::ToOther { key("other-mint") } else { um() };
            put_metaplex(svm, &mut w, k.target(), &m)
        }
        _ => unreachable!(),
    }
    Some(w.acc.into_iter().collect())
}

fn kv_sets(keys: &[&str], vals: &[&str]) -> Vec<Vec<(String, String)>> {
    let mut out = vec![vec![]];
    for k in keys {
        let mut next = vec![];
        for s in &out {
            next.push(s.clone());
            for v in vals {
                let mut t: Vec<(String, String)> = s.clone();
                t.push((k.to_string(), v.to_string()));
                next.push(t);
            }
        }
        out = next;
    }
    out
}
/// Token-2022 style metadata over a small alphabet.
fn flats(thorough: bool) -> Vec<Flat> {
    let mut v = vec![];
    let long = "l".repeat(200);
    for n in ["", "N", "Longer name \u{1F600}"] {
        for s in ["", "S"] {
            for u in ["", "https://u", &long] {
                for kv in [&[][..], &[("a", "1")], &[("a", "2"), ("b", "")]] {
                    v.push(Flat::new(n, s, u, kv));
                }
            }
        }
    }
    let keys: &[&str] = if thorough { &["a", "b", "c", "d"] } else { &["a", "b", "c"] };
    for kv in kv_sets(keys, &["", "1", "two"]) {
        let mut f = Flat::new("N", "S", "U", &[]);
        f.kv = kv.clone();
        v.push(f.clone());
        if kv.len() > 1 {
            f.kv.reverse();
            v.push(f);
        }
    }
    // keys named like the fields, or unusual
    for ks in kv_sets(&["name", "symbol", "uri", "", "key \u{e9}"], &["v"]) {
        let mut f = Flat::new("N", "S", "U", &[]);
        f.kv = ks;
        v.push(f);
    }
    for n in [4, 8, 12, 16] {
        let mut f = Flat::new("N", "S", "U", &[]);
        f.kv = (0..n).map(|i| (format!("k{i}"), format!("v{}", i * n))).collect();
        v.push(f);
    }
    v.push(Flat::new(&"n".repeat(300), &"s".repeat(100), &"u".repeat(300), &[("k", &"v".repeat(100))]));
    v.push(Flat::new("N", "S", "U", &[("k", &"v".repeat(700))]));
    // differing from others in case, spaces or the last character only
    for n in ["n", "N ", " N", "N\0"] {
        v.push(Flat::new(n, "S", "U", &[]));
        v.push(Flat::new("N", &n.replace(['n', 'N'], "s"), "U", &[]));
        v.push(Flat::new("N", "S", &n.replace(['n', 'N'], "u"), &[]));
        v.push(Flat::new("N", "S", "U", &[(&n.replace(['n', 'N'], "a"), "1")]));
        v.push(Flat::new("N", "S", "U", &[("A", "1"), ("a", &n.replace(['n', 'N'], "1"))]));
        v.push(Flat::new("N", "S", "U", &[("a", &n.replace(['n', 'N'], "Two")), ("b", "TWO"), ("c", "twO")]));
    }
    let long = "l".repeat(199);
    v.push(Flat::new("N", "", &format!("{long}L"), &[("a", &format!("{long}1")), ("a2", &format!("{long}2"))]));
    v.push(Flat::new("N", "", &format!("{long}M"), &[("a", &format!("{long}3")), ("a2", &long)]));
    let mut seen = BTreeSet::new();
    v.retain(|f| seen.insert(format!("{f:?}")));
    v
}

fn mds_one_field() -> Vec<Md> {
    let base = Md::new("Name", "SYM", "https://uri");
    let mut v = vec![base.clone()];
    let (c1, c2, c3) = (key("creator-1"), key("creator-2"), key("creator-3"));
    let edits: Vec<Box<dyn Fn(&mut Md)>> = vec![
        Box::new(|m| m.name = "".into()),
        Box::new(|m| m.name = "Name\0\0\0\0".into()),
        Box::new(|m| m.name = "x".repeat(32)),
        Box::new(|m| m.symbol = "".into()),
        Box::new(|m| m.symbol = "TENLETTERS".into()),
        Box::new(|m| m.uri = "".into()),
        Box::new(|m| m.uri = "y".repeat(200)),
        Box::new(|m| { m.name = format!("P{}", "\0".repeat(31)); m.symbol = format!("P{}", "\0".repeat(9)); m.uri = format!("P{}", "\0".repeat(199)) }),
        Box::new(|m| m.fee = 1),
        Box::new(|m| m.fee = 500),
        Box::new(|m| m.fee = 10_000),
        Box::new(|m| m.fee = 10_001),
        Box::new(|m| m.fee = u16::MAX),
        Box::new(|m| m.creators = Some(vec![])),
        Box::new(move |m| m.creators = Some(vec![(c1, true, 100)])),
        Box::new(move |m| m.creators = Some(vec![(c1, false, 100)])),
        Box::new(move |m| m.creators = Some(vec![(c1, true, 60), (c2, false, 40)])),
        Box::new(move |m| m.creators = Some(vec![(c2, true, 60), (c1, true, 40), (c3, true, 0)])),
        Box::new(move |m| m.creators = Some(vec![(c1, true, 50), (c2, false, 40)])),
        Box::new(move |m| m.creators = Some((0..5).map(|i| (key(&format!("cr{i}")), i % 2 == 0, 20)).collect())),
        Box::new(|m| m.primary_sale = true),
        Box::new(|m| m.mutable = false),
        Box::new(|m| m.edition_nonce = Some(0)),
        Box::new(|m| m.edition_nonce = Some(255)),
        Box::new(|m| m.collection = Some((false, key("collection-1")))),
        Box::new(|m| m.collection = Some((true, key("collection-1")))),
        Box::new(|m| m.collection = Some((true, key("collection-2")))),
        Box::new(|m| m.uses = Some((0, 1, 1))),
        Box::new(|m| m.uses = Some((1, 5, 7))),
        Box::new(|m| m.uses = Some((2, 1, 1))),
        Box::new(|m| m.uses = Some((1, u64::MAX, u64::MAX))),
        Box::new(|m| m.uses = Some((0, 0, 0))),
        Box::new(|m| m.details = Some(Ok(0))),
        Box::new(|m| m.details = Some(Ok(u64::MAX))),
        Box::new(|m| m.details = Some(Err(()))),
        Box::new(|m| m.config = Some(None)),
        Box::new(|m| m.config = Some(Some(key("rules")))),
        Box::new(|m| m.ua = key("another-ua")),
        Box::new(move |m| {
            m.fee = 250;
            m.creators = Some(vec![(c1, true, 100)]);
            m.collection = Some((true, key("collection-1")));
            m.uses = Some((1, 2, 3));
            m.edition_nonce = Some(9);
            m.standard = Some(0);
            m.primary_sale = true;
        }),
        Box::new(move |m| {
            m.name = "Other".into();
            m.symbol = "OTH".into();
            m.uri = "ipfs://other".into();
            m.fee = 9;
            m.creators = Some(vec![(c2, false, 70), (c3, true, 30)]);
            m.collection = Some((false, key("collection-2")));
            m.uses = Some((1, 2, 3));
        }),
    ];
    for e in &edits {
        let mut m = base.clone();
        e(&mut m);
        v.push(m);
    }
    for s in 0..6 {
        let mut m = base.clone();
        m.standard = Some(s);
        v.push(m);
    }
    v
}
/// The full product over the optional fields.
fn mds_product(thorough: bool) -> Vec<Md> {
    let mut v = vec![Md::new("Name", "SYM", "https://uri")];
    let c = |a: &str, x: bool, s: u8| (key(a), x, s);
    fn cross(v: Vec<Md>, opts: &[&dyn Fn(&mut Md)]) -> Vec<Md> {
        v.iter().flat_map(|m| opts.iter().map(move |o| { let mut n = m.clone(); o(&mut n); n })).collect()
    }
    // every set of fields present
    let mut w = v.clone();
    let some: [&dyn Fn(&mut Md); 10] = [
        &|m| m.fee = 700,
        &|m| m.creators = Some(vec![c("creator-1", true, 100)]),
        &|m| m.collection = Some((true, key("collection-1"))),
        &|m| m.uses = Some((1, 4, 9)),
        &|m| m.primary_sale = true,
        &|m| m.mutable = false,
        &|m| m.edition_nonce = Some(254),
        &|m| m.standard = Some(4),
        &|m| m.details = Some(Ok(3)),
        &|m| m.config = Some(Some(key("rules"))),
    ];
    for f in some {
        w = cross(w, &[&|_| {}, f]);
    }
    v = cross(v, &[&|_| {}, &|m| m.fee = 700]);
    v = cross(v, &[&|_| {}, &|m| m.creators = Some(vec![]), &|m| m.creators = Some(vec![c("creator-1", true, 100)]), &|m| m.creators = Some(vec![c("creator-1", false, 1), c("creator-2", true, 99)])]);
    v = cross(v, &[&|_| {}, &|m| m.collection = Some((false, key("collection-1"))), &|m| m.collection = Some((true, key("collection-1")))]);
    v = cross(v, &[&|_| {}, &|m| m.uses = Some((0, 1, 1)), &|m| m.uses = Some((1, 4, 9)), &|m| m.uses = Some((2, 1, 1))]);
    v = cross(v, &[&|_| {}, &|m| m.primary_sale = true]);
    v = cross(v, &[&|_| {}, &|m| m.mutable = false]);
    if thorough {
        v = cross(v, &[&|_| {}, &|m| m.edition_nonce = Some(254)]);
        v = cross(v, &[&|_| {}, &|m| m.standard = Some(0), &|m| m.standard = Some(4)]);
        v = cross(v, &[&|_| {}, &|m| m.details = Some(Ok(3)), &|m| m.details = Some(Err(()))]);
        v = cross(v, &[&|_| {}, &|m| m.config = Some(None), &|m| m.config = Some(Some(key("rules")))]);
    } else {
        v = cross(v, &[&|_| {}, &|m| { m.edition_nonce = Some(254); m.standard = Some(4); m.config = Some(Some(key("rules"))) }, &|m| { m.standard = Some(2); m.details = Some(Ok(3)) }]);
    }
    for m in w {
        if !v.contains(&m) {
            v.push(m);
        }
    }
    v
}

fn as_map(kv: &[(String, String)]) -> BTreeMap<String, String> {
    kv.iter().cloned().collect()
}

type Accs = Vec<(Pubkey, Arc<Account>)>;

/// What is wrong with the wrapped mint after a sync from `src`.
fn synced_faults(w: &World, w2: &World, p: &Pair, src: &Flat) -> Vec<String> {
    let mut bad = vec![];
    match token_metadata(w2, &p.wmint) {
        None => bad.push("no metadata".into()),
        Some(t) => {
            if (&t.name, &t.symbol, &t.uri) != (&src.name, &src.symbol, &src.uri) {
                bad.push(format!("fields {:?} instead of {:?}", (&t.name, &t.symbol, &t.uri), (&src.name, &src.symbol, &src.uri)));
            }
            let kv = as_map(&t.additional_metadata);
            if kv != as_map(&src.kv) || kv.len() != t.additional_metadata.len() {
                bad.push(format!("pairs {:?} instead of {:?}", t.additional_metadata, src.kv));
            }
            if t.mint != p.wmint {
                bad.push(format!("metadata names the mint {}", name_of(&t.mint)));
            }
            if t.update_authority != nullable(Some(p.auth)) {
                bad.push(format!("update authority {:?}", t.update_authority));
            }
        }
    }
    let (a, b) = (w.get(&p.wmint).unwrap(), w2.get(&p.wmint).unwrap());
    if a.data[..82] != b.data[..82] {
        bad.push("base mint fields changed".into());
    }
    let md = ExtensionType::TokenMetadata as u16;
    let (mut x, mut y) = (tlv(&a.data), tlv(&b.data));
    x.remove(&md);
    y.remove(&md);
    if x != y {
        bad.push("another extension changed".into());
    }
    let mut v = w2.clone();
    v.edit(&p.wmint, |m| m.data = a.data.clone());
    bad.extend(diff(w, &v));
    bad
}

fn wrapped_with(svm: &mut Svm, p: &Pair, prev: Option<&Flat>) -> Accs {
    let mut w = World { epoch: 5, ..Default::default() };
    make_mint(svm, &mut w, &MintSpec::new(p.umint, p.uprog)).unwrap();
    make_wrapped(svm, &mut w, p, 77);
    if let Some(f) = prev {
        put_token_metadata(svm, &mut w, &p.wmint, &p.auth, f).unwrap();
    }
    w.edit(&p.wmint, |a| a.lamports = 10_000_000_000);
    w.acc.remove(&p.umint);
    w.acc.into_iter().collect()
}

pub fn c11(ctx: &Ctx, pool: &Pool) {
    let fl = flats(ctx.thorough);
    let mut md = mds_one_field();
    let one = md.len();
    md.extend(mds_product(ctx.thorough));
    // sources
    let mut defs: Vec<(Kind, Src)> = vec![];
    for k in FLAT {
        defs.extend(fl.iter().map(|f| (k, Src::Flat(f.clone()))));
    }
    for k in MPLS {
        defs.extend(md.iter().map(|m| (k, Src::Mpl(m.clone()))));
    }
    let p = Pair::new(um(), T22, T22);
    let p_spl = Pair::new(um(), TOKEN, T22);
    assert_eq!(p.wmint, p_spl.wmint);
    let sources: Vec<Option<Accs>> = pool.map(&defs, |svm, (k, s)| source_accounts(svm, *k, s));
    ctx.put("sources_that_cannot_exist", sources.iter().filter(|s| s.is_none()).count() as u64);
    // previous metadata of the wrapped mint: none, any of the flat ones, or the
    // rendering of a Metaplex record
    let mut prevs: Vec<Option<Flat>> = vec![None];
    prevs.extend(fl.iter().cloned().map(Some));
    let nflat = prevs.len();
    prevs.extend(md[..one].iter().map(|m| Some(m.render())));
    let wrapped: Vec<Accs> = pool.map(&prevs, |svm, f| wrapped_with(svm, &p, f.as_ref()));
    let mut items = vec![];
    for (i, (k, s)) in defs.iter().enumerate() {
        let flat = matches!(s, Src::Flat(_));
        let single = !flat && md[..one].iter().any(|m| Src::Mpl(m.clone()) == *s);
        for j in 0..prevs.len() {
            let take = match (flat, single) {
                (true, _) => j < nflat || j % 8 == 0 || ctx.thorough,
                (_, true) => j == 0 || j >= nflat || j % 16 == 0,
                // product: from nothing, and over a few
                _ => j == 0 || (j == prevs.len() - 1 && *k == Kind::Spl) || (ctx.thorough && j >= nflat && j % 12 == 0),
            };
            if take {
                items.push((i, j));
            }
        }
    }
    let by = key("bystander");
    pool.map(&items, |svm, (i, j)| {
        let Some(src) = &sources[*i] else { return };
        if ctx.enough() {
            return;
        }
        let (k, s) = &defs[*i];
        let mut w = World { epoch: 5, ..Default::default() };
        w.acc.extend(wrapped[*j].iter().cloned());
        w.acc.extend(src.iter().cloned());
        w.fund(by, 5);
        w.fund(p.auth, 1_000_000);
        ctx.state();
        let ix = sync22(&p, k.source().as_ref(), k.owner().as_ref());
        let e = svm.exec(&w, std::slice::from_ref(&ix));
        ctx.step();
        ctx.trace();
        let want = s.rendered();
        let say = || format!("{k:?} source {s:?} over {:?}", prevs[*j]);
        // each changed field is a call to Token-2022, which the program's heap of 32 KiB
        // lets it make only so many of
        let calls = match &prevs[*j] {
            Some(f) => as_map(&f.kv).keys().chain(as_map(&want.kv).keys()).collect::<BTreeSet<_>>().len() + 3,
            None => want.kv.len() + 1,
        };
        if e.res.is_err() && calls > 16 {
            ctx.bump("syncs_beyond_the_heap", 1);
            return;
        }
        if let Err(m) = &e.res {
            ctx.violate("refused", format!("{}: {m}", say()), &w, &[ix]);
            return;
        }
        ctx.accept();
        let bad = synced_faults(&w, &e.world, &p, &want);
        if !bad.is_empty() {
            ctx.violate("result", format!("{}: {}", say(), bad.join("; ")), &w, &[ix]);
            return;
        }
        // once more: nothing left to do
        if (i + j) % 3 == 0 || ctx.thorough {
            let f = svm.exec(&e.world, std::slice::from_ref(&ix));
            ctx.step();
            if !f.ok() {
                ctx.violate("again", format!("{}: second sync: {:?}", say(), f.res), &e.world, &[ix]);
            } else {
                let bad = synced_faults(&e.world, &f.world, &p, &want);
                if !bad.is_empty() {
                    ctx.violate("again", format!("{}: second sync: {}", say(), bad.join("; ")), &e.world, &[ix]);
                }
            }
        }
    });
    histories(ctx, pool, &p);
    other_mints(ctx, pool, T22, false);
    ctx.sample(json!(defs.iter().step_by(defs.len() / 6).map(|(k, s)| format!("{k:?} {s:?}")).collect::<Vec<_>>()));
    ctx.bound(format!("{} syncs: {} sources of 6 kinds over {} previous states (all pairs for Token-2022 style metadata; all one-field Metaplex variants over each other; full product of optional Metaplex fields)", items.len(), defs.len(), prevs.len()));
}

/// The source changes kind, program and content under a wrapped mint that is
/// synced after each change, with other mint operations in between.
fn histories(ctx: &Ctx, pool: &Pool, p: &Pair) {
    let md = mds_one_field();
    let srcs: Vec<(Kind, Src)> = vec![
        (Kind::Own, Src::Flat(Flat::new("A", "a", "ua", &[]))),
        (Kind::Own, Src::Flat(Flat::new("A", "a", "ua", &[("k", "1"), ("l", "2")]))),
        (Kind::Own, Src::Flat(Flat::new("B", "a", "", &[("l", "3")]))),
        (Kind::External, Src::Flat(Flat::new("E", "a", "ua", &[("m", ""), ("k", "1")]))),
        (Kind::External, Src::Flat(Flat::new("", "", "", &[]))),
        (Kind::Spl, Src::Mpl(md[0].clone())),
        (Kind::Spl, Src::Mpl(md[md.len() - 8].clone())),
        (Kind::NoPointer, Src::Mpl(md[md.len() - 7].clone())),
        (Kind::ToMetaplex, Src::Mpl(md[16].clone())),
        (Kind::ToOther, Src::Mpl(md[30].clone())),
    ];
    let accs: Vec<Accs> = pool.map(&srcs, |svm, (k, s)| source_accounts(svm, *k, s).unwrap());
    let base = pool.one(|svm| {
        let mut w = World { epoch: 5, ..Default::default() };
        w.acc.extend(wrapped_with(svm, p, None));
        w
    });
    let depth = if ctx.thorough { 6 } else { 4 };
    crate::bfs::explore(ctx, pool, "syncs", vec![crate::bfs::Node::root(base)], depth, 1_000_000, |svm, n| {
        let mut out = vec![];
        for (i, (k, s)) in srcs.iter().enumerate() {
            let mut w = n.w.clone();
            w.acc.retain(|k, _| *k == p.wmint || *k == p.backptr);
            w.acc.extend(accs[i].iter().cloned());
            let ix = sync22(p, k.source().as_ref(), k.owner().as_ref());
            let e = svm.exec(&w, std::slice::from_ref(&ix));
            ctx.step();
            ctx.trace();
            let bad = if e.ok() { synced_faults(&w, &e.world, p, &s.rendered()) } else { vec![format!("{:?}", e.res)] };
            if !bad.is_empty() {
                ctx.violate("history", format!("after {:?}, sync from {k:?} {s:?}: {}", n.history(), bad.join("; ")), &w, &[ix]);
                continue;
            }
            ctx.accept();
            out.push(n.next(format!("sync from {k:?} #{i}"), e.world, 0));
        }
        out
    });
}

/// Syncs for unwrapped mints of other addresses and with further extensions
/// before and after the pointer, the wrapped mint with further ones too.
fn other_mints(ctx: &Ctx, pool: &Pool, wprog: Pubkey, designated: bool) {
    let mut shapes: Vec<(Pubkey, Vec<Ext>, bool, Vec<Ext>)> = vec![];
    for k in odd_mints() {
        shapes.push((*k, vec![], false, vec![]));
    }
    let ex: Vec<Ext> = all_exts().into_iter().filter(|e| !matches!(e, Ext::MetaPtr(_))).collect();
    for (i, e) in ex.iter().enumerate() {
        for first in [false, true] {
            shapes.push((key("umint"), vec![e.clone()], first, vec![]));
            shapes.push((key("umint"), vec![e.clone(), ex[(i + 1) % ex.len()].clone()], first, vec![]));
            if wprog == T22 {
                shapes.push((key("umint"), vec![], first, vec![e.clone()]));
            }
        }
    }
    let mut items = vec![];
    for s in &shapes {
        for k in FLAT.into_iter().chain(MPLS) {
            if s.1.is_empty() || k != Kind::Spl {
                items.push((s.clone(), k));
            }
        }
    }
    let other = key("other-metaplex-record");
    pool.map(&items, |svm, ((um, exts, first, wexts), k)| {
        if ctx.enough() {
            return;
        }
        let pda = mpl_of(um);
        let target = match k {
            Kind::Own => *um,
            Kind::External => key("external-metadata"),
            Kind::ToOther => other,
            _ => pda,
        };
        let mut w = World { epoch: 5, ..Default::default() };
        let mut e = exts.clone();
        if !matches!(k, Kind::Spl | Kind::NoPointer) {
            let at = if *first { 0 } else { e.len() };
            e.insert(at, Ext::MetaPtr(Some(target)));
        }
        if make_mint(svm, &mut w, &MintSpec::new(*um, k.prog()).exts(&e)).is_err() {
            return;
        }
        // metadata everywhere, telling where it is from
        let mark = |s: &str| Flat::new(s, "S", "https://uri", &[("from", s), ("l", "3")]);
        if *k == Kind::Own {
            put_token_metadata(svm, &mut w, um, &mint_auth(), &mark("own")).unwrap();
        }
        put_external(svm, &mut w, key("external-metadata"), meta_a(), EMIT, &mark("external").packed(*um, Some(mint_auth())));
        let mut md = Md::new("pda", "S", "https://uri");
        (md.mint, md.fee, md.collection) = (*um, 77, Some((true, key("collection-1"))));
        put_metaplex(svm, &mut w, pda, &md);
        let mut md2 = md.clone();
        (md2.mint, md2.name, md2.fee) = (key("other-mint"), "other".into(), 78);
        put_metaplex(svm, &mut w, other, &md2);
        let p = Pair::new(*um, k.prog(), wprog);
        if wexts.is_empty() {
            make_wrapped(svm, &mut w, &p, 77);
        } else {
            let mut s = MintSpec::new(p.wmint, T22).exts(wexts);
            if *first {
                s.exts.insert(0, Ext::MetaPtr(Some(p.wmint)));
            } else {
                s.exts.push(Ext::MetaPtr(Some(p.wmint)));
            }
            s.mint_auth = Some(p.auth);
            if make_mint(svm, &mut w, &s).is_err() {
                return;
            }
        }
        w.edit(&p.wmint, |a| a.lamports = 10_000_000_000);
        w.fund(p.auth, 10_000_000_000);
        let src = match k {
            Kind::Own => Src::Flat(mark("own")),
            Kind::External => Src::Flat(mark("external")),
            Kind::ToOther => Src::Mpl(md2.clone()),
            _ => Src::Mpl(md.clone()),
        };
        let source = (*k != Kind::Own).then_some(target);
        let say = format!("mint {} {:?} (first {first}), wrapped mint {wexts:?}, {k:?}", name_of(um), e);
        let sync = |s: Option<&Pubkey>, o: Option<&Pubkey>| if wprog == T22 { sync22(&p, s, o) } else { sync_spl(&p, s, o) };
        ctx.state();
        let ix = sync(source.as_ref(), k.owner().as_ref());
        let e = svm.exec(&w, std::slice::from_ref(&ix));
        ctx.step();
        ctx.trace();
        if let Err(m) = &e.res {
            ctx.violate("mint-refused", format!("{say}: {m}"), &w, &[ix]);
            return;
        }
        ctx.accept();
        if designated {
            let got = if wprog == T22 { token_metadata(&e.world, &p.wmint).map(|t| t.name) } else { metaplex(&e.world, &p.wmint).map(|t| unpad(&t.name).to_string()) };
            if got.as_ref() != Some(&src.rendered().name) {
                ctx.violate("mint-wrong-source", format!("{say}: got {got:?}"), &w, &[ix]);
            }
            // every other source there is
            for s in [None, Some(*um), Some(pda), Some(other), Some(key("external-metadata"))] {
                for o in [None, Some(meta_a())] {
                    if s == source || *k == Kind::Own || s.is_none() && o.is_some() {
                        continue;
                    }
                    let ix = sync(s.as_ref(), o.as_ref());
                    let e = svm.exec(&w, std::slice::from_ref(&ix));
                    ctx.step();
                    if e.ok() {
                        ctx.violate("mint-accepted", format!("{say}: synced from {:?}", s.map(|s| name_of(&s))), &w, &[ix]);
                    }
                }
            }
            return;
        }
        let bad = if wprog == T22 {
            synced_faults(&w, &e.world, &p, &src.rendered())
        } else {
            let m = expected_record(&src, None).unwrap();
            let d = svm.exec(&w, &[mpl_create(&p.wmint, &p.auth, &p.auth, &p.auth, &m)]);
            diff(&d.world, &e.world)
        };
        if !bad.is_empty() {
            ctx.violate("mint-result", format!("{say}: {}", bad.join("; ")), &w, &[ix]);
        }
    });
    ctx.bound(format!("{} syncs of mints with derived addresses of every bump found, further extensions on either mint, before and after the pointer", items.len()));
}

// ---- C12 -----------------------------------------------------------------------------
/// What the Metaplex record must say after a sync from `s`; None if the source
/// is not well-formed.
fn expected_record(s: &Src, existing: Option<&Md>) -> Option<Md> {
    let mut m = match s {
        Src::Mpl(m) => {
            let mut x = Md::new(&m.name, &m.symbol, &m.uri);
            (x.fee, x.collection, x.uses) = (m.fee, m.collection, m.uses);
            x.creators = m.unverified_creators();
            x
        }
        Src::Flat(f) => {
            let mut x = Md::new(&f.name, &f.symbol, &f.uri);
            for (k, v) in &f.kv {
                match k.as_str() {
                    "seller_fee_basis_points" => x.fee = v.parse().ok()?,
                    "creators" => {
                        let l: Vec<serde_json::Value> = serde_json::from_str(v).ok()?;
                        let c = l.iter().map(|c| {
                            c["verified"].as_bool()?;
                            Some((c["address"].as_str()?.parse().ok()?, false, c["share"].as_u64()?.try_into().ok()?))
                        });
                        x.creators = Some(c.collect::<Option<_>>()?);
                    }
                    "collection" => {
                        let c: serde_json::Value = serde_json::from_str(v).ok()?;
                        c["verified"].as_bool()?;
                        x.collection = Some((false, c["key"].as_str()?.parse().ok()?));
                    }
                    "uses" => {
                        let c: serde_json::Value = serde_json::from_str(v).ok()?;
                        let m = ["Burn", "Multiple", "Single"].iter().position(|x| c["use_method"] == *x)?;
                        x.uses = Some((m as u8, c["remaining"].as_u64()?, c["total"].as_u64()?));
                    }
                    _ => {}
                }
            }
            x
        }
    };
    // nobody's verification is invented; one that the collection's own authority
    // made on this very record stays
    if let Some(c) = &mut m.collection {
        c.0 = existing.and_then(|e| e.collection).is_some_and(|x| x == (true, c.1));
    }
    Some(m)
}
fn spl_flats() -> Vec<Flat> {
    let (c1, c2) = (key("creator-1").to_string(), key("creator-2").to_string());
    let fees = ["", "0", "1", "10000", "10001", "65535"];
    let creators = [
        String::new(),
        format!("[{{\"address\":\"{c1}\",\"verified\":true,\"share\":100}}]"),
        format!("[ {{ \"share\": 30, \"address\": \"{c1}\", \"verified\": false }}, {{\"address\":\"{c2}\",\"verified\":true,\"share\":70}} ]"),
        "[]".into(),
    ];
    let coll = [
        String::new(),
        format!("{{\"verified\":false,\"key\":\"{}\"}}", key("collection-1")),
        format!("{{\"verified\":true,\"key\":\"{}\"}}", key("collection-1")),
    ];
    let uses = ["", "{\"use_method\":\"Burn\",\"remaining\":1,\"total\":1}", "{\"use_method\":\"Multiple\",\"remaining\":4,\"total\":9}"];
    let mut v = vec![];
    for f in fees {
        for c in &creators {
            for co in &coll {
                for u in uses {
                    for extra in [false, true] {
                        let mut x = Flat::new("Name", "SYM", "https://u", &[]);
                        for (k, val) in [("seller_fee_basis_points", f), ("creators", c), ("collection", co), ("uses", u)] {
                            if !val.is_empty() {
                                x.kv.push((k.into(), val.into()));
                            }
                        }
                        if extra {
                            x.kv.insert(0, ("is_mutable".into(), "false".into()));
                            x.kv.push(("update_authority".into(), c1.clone()));
                            x.kv.push(("Creators".into(), "nonsense".into()));
                        }
                        v.push(x);
                    }
                }
            }
        }
    }
    for (n, s, u) in [("", "", ""), ("N", "", ""), ("", "S", ""), ("", "", "U"), (&"n".repeat(32), &"s".repeat(10), &"u".repeat(200)), (&"n".repeat(33), "S", "U"), ("N", &"s".repeat(11), "U"), ("N", "S", &"u".repeat(201)), ("Name\0\0", "S\0", "U")] {
        v.push(Flat::new(n, s, u, &[]));
    }
    for (k, val) in malformed() {
        v.push(Flat::new("Name", "SYM", "https://u", &[(k, &val)]));
        v.push(Flat::new("Name", "SYM", "https://u", &[("is_mutable", "false"), (k, &val), ("zz", "")]));
    }
    v
}
/// Values that are no fee, creators, collection or uses.
fn malformed() -> Vec<(&'static str, String)> {
    let mut v: Vec<(&'static str, String)> = vec![];
    for s in ["", " ", "abc", "-1", "65536", "655360", "1e3", "0x10", "5.0", " 5", "5 ", "\"5\"", "null"] {
        v.push(("seller_fee_basis_points", s.into()));
    }
    let c1 = key("creator-1").to_string();
    for s in ["", "nonsense", "{}", "null", "[null]", "[{}]", "[", "[1]"] {
        v.push(("creators", s.into()));
    }
    for (a, ver, share) in [(c1.as_str(), "true", "256"), (&c1, "true", "-1"), (&c1, "true", "1.5"), (&c1, "true", "\"100\""), (&c1, "1", "100"), (&c1, "null", "100"), ("abc", "true", "100"), ("", "true", "100"), (&c1[1..], "true", "100")] {
        v.push(("creators", format!("[{{\"address\":\"{a}\",\"verified\":{ver},\"share\":{share}}}]")));
    }
    v.push(("creators", format!("[{{\"address\":\"{c1}\",\"verified\":true}}]")));
    v.push(("creators", format!("[{{\"address\":\"{c1}\",\"share\":100}}]")));
    v.push(("creators", "[{\"verified\":true,\"share\":100}]".into()));
    v.push(("creators", format!("{{\"address\":\"{c1}\",\"verified\":true,\"share\":100}}")));
    for s in ["", "null", "{}", "[]", "nonsense", "{\"verified\":true}", "{\"verified\":true,\"key\":\"abc\"}", "{\"verified\":true,\"key\":7}"] {
        v.push(("collection", s.into()));
    }
    v.push(("collection", format!("{{\"key\":\"{c1}\"}}")));
    v.push(("collection", format!("\"{c1}\"")));
    for s in ["", "null", "{}", "Burn", "{\"use_method\":\"Burn\",\"remaining\":1}", "{\"use_method\":\"burn\",\"remaining\":1,\"total\":1}", "{\"use_method\":\"Other\",\"remaining\":1,\"total\":1}", "{\"use_method\":\"Burn\",\"remaining\":-1,\"total\":1}", "{\"use_method\":\"Burn\",\"remaining\":1,\"total\":18446744073709551616}", "{\"remaining\":1,\"total\":1}"] {
        v.push(("uses", s.into()));
    }
    v
}

pub fn c12(ctx: &Ctx, pool: &Pool) {
    let p = Pair::new(um(), T22, TOKEN);
    let rec = mpl_of(&p.wmint);
    name_it(rec, "wrapped metaplex record");
    let mut md = mds_one_field();
    let one = md.len();
    md.extend(mds_product(ctx.thorough).into_iter().filter(|m| ctx.thorough || (!m.primary_sale && m.mutable) || m.standard == Some(2)));
    let fl = spl_flats();
    let nmal = 2 * malformed().len();
    let mut defs: Vec<(Kind, Src)> = vec![];
    for k in FLAT {
        defs.extend(fl.iter().map(|f| (k, Src::Flat(f.clone()))));
    }
    for k in MPLS {
        defs.extend(md.iter().map(|m| (k, Src::Mpl(m.clone()))));
    }
    let sources: Vec<Option<Accs>> = pool.map(&defs, |svm, (k, s)| source_accounts(svm, *k, s));
    // the wrapped mint and its record so far
    let mut prevs: Vec<Option<Md>> = vec![None];
    prevs.extend(mds_one_field().into_iter().map(Some));
    let plain = prevs.len();
    for c in ["collection-1", "collection-2"] {
        let mut m = Md::new("Name", "SYM", "https://uri");
        m.collection = Some((false, key(c)));
        prevs.push(Some(m));
    }
    let wrapped: Vec<Option<Accs>> = pool.map(&prevs.iter().cloned().enumerate().collect::<Vec<_>>(), |svm, (i, m)| {
        let mut w = World { epoch: 5, ..Default::default() };
        make_mint(svm, &mut w, &MintSpec::new(um(), T22)).unwrap();
        make_wrapped(svm, &mut w, &p, 77);
        w.acc.remove(&um());
        if let Some(m) = m {
            // as an earlier sync made it
            let m = expected_record(&Src::Mpl(m.clone()), None).unwrap();
            w.fund(p.auth, 1_000_000_000);
            svm.try_apply(&mut w, &[mpl_create(&p.wmint, &p.auth, &p.auth, &p.auth, &m)]).ok()?;
            w.acc.remove(&p.auth);
            if *i >= plain {
                // since verified by the collection's authority
                let mut x = metaplex(&w, &p.wmint).unwrap();
                x.collection.as_mut().unwrap().0 = true;
                let len = w.data(&rec).len();
                let mut d = x.encode();
                d.resize(len, 0);
                w.edit(&rec, |a| a.data[..].copy_from_slice(&d));
            }
        }
        Some(w.acc.into_iter().collect())
    });
    ctx.put("earlier_records_that_metaplex_refuses", wrapped.iter().filter(|s| s.is_none()).count() as u64);
    let rent = pool.one(|svm| {
        // what a creation costs
        let mut w = World { epoch: 5, ..Default::default() };
        w.acc.extend(wrapped[0].clone().unwrap());
        w.fund(p.auth, 1_000_000_000);
        let e = svm.exec(&w, &[mpl_create(&p.wmint, &p.auth, &p.auth, &p.auth, &Md::new("N", "S", "U"))]);
        e.res.clone().unwrap();
        1_000_000_000 - e.world.lamports(&p.auth)
    });
    ctx.put("cost_of_a_record", rent);
    let r0 = pool.one(|svm| svm.rent(0));
    let lamports = [0, 1, rent - 1, rent, rent + 1, rent + r0, 1_000_000_000_000];
    let mut items = vec![];
    for (i, (k, s)) in defs.iter().enumerate() {
        let idx = if matches!(s, Src::Flat(_)) { i % fl.len() } else { (i - 2 * fl.len()) % md.len() };
        for j in 0..prevs.len() {
            let take = match s {
                Src::Flat(_) => j == 0 || j >= plain || (fl.len() - nmal - 9..fl.len() - nmal).contains(&idx) || j % 7 == idx % 7 || ctx.thorough,
                Src::Mpl(_) if idx < one => true,
                _ => j == 0 || (*k == Kind::Spl && (j % 10 == idx % 10 || j >= plain)) || ctx.thorough && j % 4 == 0,
            };
            if !take {
                continue;
            }
            items.push((i, j, 6));
            if j == 0 && (idx < one) {
                items.extend((0..6).map(|l| (i, j, l)));
            } else if j == plain {
                items.push((i, j, 0));
            }
        }
    }
    let by = key("bystander");
    pool.map(&items, |svm, (i, j, l)| {
        let (Some(src), Some(wr)) = (&sources[*i], &wrapped[*j]) else { return };
        if ctx.enough() {
            return;
        }
        let (k, s) = &defs[*i];
        let mut w = World { epoch: 5, ..Default::default() };
        w.acc.extend(wr.iter().cloned());
        w.acc.extend(src.iter().cloned());
        w.fund(by, 5);
        w.fund(p.auth, lamports[*l]);
        ctx.state();
        let ix = sync_spl(&p, k.source().as_ref(), k.owner().as_ref());
        let e = svm.exec(&w, std::slice::from_ref(&ix));
        ctx.step();
        ctx.trace();
        // the same values written with the derived authority's signature
        let existing = metaplex(&w, &p.wmint);
        let Some(m) = expected_record(s, existing.as_ref()) else {
            // values that say nothing Metaplex could record
            if e.ok() {
                ctx.violate("malformed", format!("{k:?} source {s:?} over {existing:?} was synced"), &w, &[ix]);
            }
            ctx.bump("malformed_sources_refused", 1);
            return;
        };
        let direct = if existing.is_some() { mpl_update(&p.wmint, &p.auth, &m) } else { mpl_create(&p.wmint, &p.auth, &p.auth, &p.auth, &m) };
        let d = svm.exec(&w, &[direct]);
        let say = || format!("{k:?} source {s:?} over {existing:?} with {} lamports", lamports[*l]);
        if e.ok() != d.ok() {
            let sig = match (d.ok(), existing.is_some()) { (true, false) => "refused-create", (true, true) => "refused-update", _ => "accepted" };
            ctx.violate(sig, format!("{}: sync {:?}, Metaplex {:?}", say(), e.res, d.res), &w, &[ix]);
            return;
        }
        if !e.ok() {
            return;
        }
        ctx.accept();
        let mut bad = diff(&d.world, &e.world);
        // and the record read back
        let got = metaplex(&e.world, &p.wmint);
        match &got {
            None => bad.push("no record".into()),
            Some(g) => {
                let same = |a: &str, b: &str| unpad(a) == unpad(b);
                if !same(&g.name, &m.name) || !same(&g.symbol, &m.symbol) || !same(&g.uri, &m.uri) || g.fee != m.fee || g.creators != m.creators || g.collection != m.collection || g.uses != m.uses {
                    bad.push(format!("record {g:?} instead of {m:?}"));
                }
                if g.ua != p.auth || !g.mutable || g.mint != p.wmint {
                    bad.push(format!("record of {}, authority {}, mutable {}", name_of(&g.mint), name_of(&g.ua), g.mutable));
                }
            }
        }
        let mut ok = vec![rec, p.auth];
        ok.retain(|k| *k == rec || existing.is_none());
        bad.extend(diff(&w, &e.world).into_iter().filter(|l| !ok.iter().any(|k| l.starts_with(&name_of(k)))));
        if !bad.is_empty() {
            ctx.violate("result", format!("{}: {}", say(), bad.join("; ")), &w, std::slice::from_ref(&ix));
        }
        if (i + j) % 4 == 0 || ctx.thorough {
            let f = svm.exec(&e.world, std::slice::from_ref(&ix));
            ctx.step();
            if !f.ok() || metaplex(&f.world, &p.wmint) != got {
                ctx.violate("again", format!("{}: second sync {:?} {}", say(), f.res, diff(&e.world, &f.world).join("; ")), &e.world, &[ix]);
            }
        }
    });
    other_mints(ctx, pool, TOKEN, false);
    ctx.sample(json!(defs.iter().step_by(defs.len() / 6).map(|(k, s)| format!("{k:?} {s:?}")).collect::<Vec<_>>()));
    ctx.bound(format!("{} syncs: {} sources of 6 kinds over {} earlier records (none, each one-field variant, verified collections) and seven funding levels", items.len(), defs.len(), prevs.len()));
}

// ---- C13 -----------------------------------------------------------------------------
/// What sits at the unwrapped mint's Metaplex address.
const AT_PDA: [&str; 8] = ["nothing", "record", "owned by evil", "owned by system", "owned by Token-2022", "garbage", "not a metadata record", "truncated"];
const AT_EXT: [&str; 7] = ["emits", "silent", "fails", "via another program", "emits garbage", "emits nothing", "emits truncated"];

pub fn c13(ctx: &Ctx, pool: &Pool) {
    let pda = mpl_of(&um());
    name_it(pda, "metaplex(umint)");
    let other_pda = mpl_of(&key("other-mint"));
    name_it(other_pda, "metaplex(other-mint)");
    let ext = key("external-metadata");
    let ext2 = key("external-metadata-2");
    let evil_copy = key("evil-copy");
    let extb = key("external-of-b");
    let stray = key("stray-record");
    let t22_other = key("other-t22-mint");
    let wm = Pair::new(um(), T22, T22).wmint;
    // pointers: absent (None), unset, or to something
    let mut mints: Vec<(Pubkey, Option<Option<Pubkey>>, bool)> = vec![(TOKEN, None, false), (T22, None, false), (T22, Some(None), false)];
    for t in [um(), pda, other_pda, ext, ext2, extb, evil_copy, stray, t22_other, wm, key("missing"), SYS, MPL, TW] {
        for own_md in [false, true] {
            mints.push((T22, Some(Some(t)), own_md));
        }
    }
    mints.push((T22, Some(None), true));
    let passed: Vec<Option<Pubkey>> = [None].into_iter().chain([um(), pda, other_pda, ext, ext2, extb, evil_copy, stray, t22_other, wm, key("missing"), SYS].map(Some)).collect();
    let owners: Vec<Option<Pubkey>> = [None].into_iter().chain([meta_a(), meta_b(), evil(), MPL, T22, TW, SYS, TOKEN, key("missing")].map(Some)).collect();
    let mut items = vec![];
    for m in 0..mints.len() {
        for (ip, _) in AT_PDA.iter().enumerate() {
            for (ie, _) in AT_EXT.iter().enumerate() {
                // the contents matter only where the mint or the caller name them
                if ip > 1 && ie > 0 {
                    continue;
                }
                for wprog in [TOKEN, T22] {
                    items.push((m, ip, ie, wprog));
                }
            }
        }
    }
    let mark = |s: &str| Flat::new(s, "S", "U", &[("from", s)]);
    pool.map(&items, |svm, (m, ip, ie, wprog)| {
        if ctx.enough() {
            return;
        }
        let (prog, ptr, own_md) = mints[*m];
        let mut w = World { epoch: 5, ..Default::default() };
        let e: Vec<Ext> = ptr.iter().map(|t| Ext::MetaPtr(*t)).collect();
        make_mint(svm, &mut w, &MintSpec::new(um(), prog).exts(&e)).unwrap();
        if ptr == Some(None) && own_md {
            // initialised, then unset
        }
        if own_md {
            put_token_metadata(svm, &mut w, &um(), &mint_auth(), &mark("self")).unwrap();
        }
        let mut o = MintSpec::new(t22_other, T22).exts(&[Ext::MetaPtr(Some(t22_other))]);
        o.mint_auth = Some(mint_auth());
        make_mint(svm, &mut w, &o).unwrap();
        put_token_metadata(svm, &mut w, &t22_other, &mint_auth(), &mark("other t22 mint")).unwrap();
        let p = Pair::new(um(), prog, *wprog);
        make_wrapped(svm, &mut w, &p, 1);
        w.edit(&p.wmint, |a| a.lamports = 10_000_000_000);
        w.fund(p.auth, 10_000_000_000);
        // Metaplex
        let mut md = Md::new("pda", "S", "U");
        md.mint = um();
        put_metaplex(svm, &mut w, pda, &md);
        match AT_PDA[*ip] {
            "nothing" => { w.acc.remove(&pda); }
            "owned by evil" => w.edit(&pda, |a| a.owner = evil()),
            "owned by system" => w.edit(&pda, |a| a.owner = SYS),
            "owned by Token-2022" => w.edit(&pda, |a| a.owner = T22),
            "garbage" => w.edit(&pda, |a| a.data.fill(0xff)),
            "not a metadata record" => w.edit(&pda, |a| a.data[0] = 6),
            "truncated" => w.edit(&pda, |a| a.data.truncate(70)),
            _ => {}
        }
        let mut md2 = md.clone();
        (md2.name, md2.mint) = ("other pda".into(), key("other-mint"));
        put_metaplex(svm, &mut w, other_pda, &md2);
        md2.name = "stray".into();
        put_metaplex(svm, &mut w, stray, &md2);
        // third parties
        let packed = |s: &str| mark(s).packed(um(), Some(mint_auth()));
        let (mode, bytes) = match AT_EXT[*ie] {
            "emits" => (EMIT, packed("ext")),
            "silent" => (SILENT, packed("ext")),
            "fails" => (FAIL, packed("ext")),
            "via another program" => (VIA_OTHER, packed("ext")),
            "emits garbage" => (EMIT, vec![0xff; 100]),
            "emits nothing" => (EMIT, vec![]),
            _ => (EMIT, packed("ext")[..70].to_vec()),
        };
        put_external(svm, &mut w, ext, meta_a(), mode, &bytes);
        put_external(svm, &mut w, ext2, meta_a(), EMIT, &packed("ext2"));
        put_external(svm, &mut w, extb, meta_b(), EMIT, &packed("extb"));
        put_external(svm, &mut w, evil_copy, evil(), EMIT, &packed("evil"));
        for src in &passed {
            for own in &owners {
                if src.is_none() && own.is_some() {
                    continue;
                }
                let target = *wprog;
                let ix = if target == T22 { sync22(&p, src.as_ref(), own.as_ref()) } else { sync_spl(&p, src.as_ref(), own.as_ref()) };
                // the oracle, from the statement
                let from_pda = || (*src == Some(pda) && AT_PDA[*ip] == "record").then_some("pda");
                let want: Option<&str> = match ptr {
                    None => from_pda(),
                    Some(None) => None,
                    Some(Some(t)) if t == um() => own_md.then_some("self"),
                    Some(Some(t)) if *src != Some(t) => None,
                    Some(Some(t)) if t == pda => from_pda(),
                    Some(Some(t)) if t == other_pda => Some("other pda"),
                    Some(Some(t)) if t == stray => Some("stray"),
                    Some(Some(t)) if t == ext => (*own == Some(meta_a()) && AT_EXT[*ie] == "emits").then_some("ext"),
                    Some(Some(t)) if t == ext2 => (*own == Some(meta_a())).then_some("ext2"),
                    Some(Some(t)) if t == extb => (*own == Some(meta_b())).then_some("extb"),
                    _ => None,
                };
                ctx.state();
                let e = svm.exec(&w, std::slice::from_ref(&ix));
                ctx.step();
                ctx.trace();
                let got = e.ok().then(|| match target {
                    T22 => token_metadata(&e.world, &p.wmint).map(|t| t.name),
                    _ => metaplex(&e.world, &p.wmint).map(|t| unpad(&t.name).to_string()),
                });
                let got = got.map(|g| g.unwrap_or("no metadata".into()));
                if got.is_some() {
                    ctx.accept();
                }
                if got.as_deref() != want {
                    let sig = match (&got, want) {
                        (None, _) => "refused",
                        (_, None) => "accepted",
                        _ => "wrong-source",
                    };
                    let ptr = ptr.map(|t| t.map(|k| name_of(&k)));
                    ctx.violate(sig, format!("{} mint, pointer {ptr:?}, own metadata {own_md}, at its Metaplex address: {}, external account {}; passing source {:?} and program {:?} to sync to {}: {got:?} {:?} instead of {want:?}",
                        name_of(&prog), AT_PDA[*ip], AT_EXT[*ie], src.map(|k| name_of(&k)), own.map(|k| name_of(&k)), name_of(&target), e.res), &w, &[ix]);
                }
            }
        }
    });
    other_mints(ctx, pool, T22, true);
    other_mints(ctx, pool, TOKEN, true);
    ctx.sample(json!(mints.iter().map(|(p, t, o)| format!("{} pointer {:?} own metadata {o}", name_of(p), t.map(|t| t.map(|k| name_of(&k))))).collect::<Vec<_>>()));
    ctx.bound(format!("{} mints (program, pointer, own metadata) x {} contents of the Metaplex address x {} behaviours of the external account x {} passed sources x {} passed programs x both targets", mints.len(), AT_PDA.len(), AT_EXT.len(), passed.len(), owners.len()));
}
