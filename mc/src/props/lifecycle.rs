//! C08 and C09 (creating a wrapped mint), C10 (stuck escrows), C14 (canonical
//! pointer).
use super::move_tokens::{all_exts, progs};
use crate::{bfs::*, builtins, core::*, meta::*, report::Ctx, tok::*, tw::*};
use serde_json::json;
use solana_account::Account;
use solana_instruction::Instruction;
use solana_pubkey::Pubkey;
use spl_token_2022_interface::{extension::ExtensionType, instruction as ti};
use std::collections::{BTreeMap, BTreeSet};

/// Extensions of a Token-2022 mint as stored: type -> value.
pub fn tlv(data: &[u8]) -> BTreeMap<u16, Vec<u8>> {
    let mut m = BTreeMap::new();
    let mut i = 166;
    while i + 4 <= data.len() {
        let t = u16::from_le_bytes([data[i], data[i + 1]]);
        let l = u16::from_le_bytes([data[i + 2], data[i + 3]]) as usize;
        if t == 0 {
            break;
        }
        m.insert(t, data[i + 4..i + 4 + l].to_vec());
        i += 4 + l;
    }
    m
}
/// Where an extension's value starts.
fn tlv_offset(data: &[u8], ext: u16) -> Option<usize> {
    let mut i = 166;
    while i + 4 <= data.len() {
        let t = u16::from_le_bytes([data[i], data[i + 1]]);
        if t == ext {
            return Some(i + 4);
        }
        if t == 0 {
            return None;
        }
        i += 4 + u16::from_le_bytes([data[i + 2], data[i + 3]]) as usize;
    }
    None
}
fn opt_key(k: &Option<Pubkey>) -> Vec<u8> {
    match k {
        Some(k) => [&[1, 0, 0, 0][..], k.as_ref()].concat(),
        None => vec![0; 36],
    }
}
/// What is wrong with a freshly created wrapped mint and backpointer.
pub fn fresh_mint_faults(w: &World, p: &Pair, decimals: u8, freeze: &Option<Pubkey>, exts: &BTreeMap<u16, Vec<u8>>, len: Option<usize>) -> Vec<String> {
    let mut bad = vec![];
    let Some(m) = w.get(&p.wmint) else { return vec!["no wrapped mint".into()] };
    let mut base = opt_key(&Some(p.auth));
    base.extend([0; 8]);
    base.extend([decimals, 1]);
    base.extend(opt_key(freeze));
    if m.owner != p.wprog {
        bad.push(format!("wrapped mint owned by {}", name_of(&m.owner)));
    }
    if m.data.len() < 82 || m.data[..82] != base[..] {
        bad.push(format!("base fields are {} instead of {}", hex(&m.data[..m.data.len().min(82)]), hex(&base)));
    }
    if p.wprog == T22 {
        if tlv(&m.data) != *exts {
            bad.push(format!("extensions are {:?} instead of {:?}", tlv(&m.data).iter().map(|(t, v)| (t, hex(v))).collect::<Vec<_>>(), exts.iter().map(|(t, v)| (t, hex(v))).collect::<Vec<_>>()));
        }
        if m.data.len() > 165 && m.data[165] != 1 {
            bad.push("account type is not mint".into());
        }
    } else if m.data.len() != 82 {
        bad.push(format!("SPL Token mint of {} bytes", m.data.len()));
    }
    if len.is_some_and(|l| l != m.data.len()) {
        bad.push(format!("wrapped mint has {} bytes instead of {len:?}", m.data.len()));
    }
    match w.get(&p.backptr) {
        Some(b) if b.owner == TW && b.data == p.umint.to_bytes() => {}
        b => bad.push(format!("backpointer is {:?}", b.map(|b| (name_of(&b.owner), hex(&b.data))))),
    }
    bad
}
/// The default customizer's extensions.
pub fn default_exts(p: &Pair) -> BTreeMap<u16, Vec<u8>> {
    // confidential transfer: authority, auto-approve, auditor key
    let mut ct = vec![0u8; 32];
    ct.push(1);
    ct.extend([0; 32]);
    let mp = [p.auth.to_bytes(), p.wmint.to_bytes()].concat();
    if p.wprog == T22 {
        BTreeMap::from([(ExtensionType::ConfidentialTransferMint as u16, ct), (ExtensionType::MetadataPointer as u16, mp)])
    } else {
        BTreeMap::new()
    }
}
/// Accounts other than the two created ones must be as before, and nobody's
/// lamports may have changed.
pub fn others_touched(w: &World, w2: &World, allowed: &[Pubkey]) -> Vec<String> {
    let keys: BTreeSet<_> = w.acc.keys().chain(w2.acc.keys()).collect();
    let mut v = vec![];
    for k in keys {
        if w.lamports(k) != w2.lamports(k) {
            v.push(format!("lamports of {} went from {} to {}", name_of(k), w.lamports(k), w2.lamports(k)));
        }
        if !allowed.contains(k) && w.get(k) != w2.get(k) {
            v.push(format!("{} changed", name_of(k)));
        }
    }
    v
}
fn rents(svm: &mut Svm, w: &World, wprog: &Pubkey) -> (u64, u64) {
    // the documented spaces: an SPL mint, or a Token-2022 mint with confidential
    // transfer (65 bytes) and metadata pointer (64 bytes)
    (svm.rent_in(w, if *wprog == T22 { 166 + 4 + 65 + 4 + 64 } else { 82 }), svm.rent_in(w, 32))
}

/// Lamports per byte-year: the usual, cheaper and dearer clusters, nearly free.
const RATES: [Option<u64>; 4] = [None, Some(1740), Some(34800), Some(1)];
struct C8 {
    u: MintSpec,
    wp: Pubkey,
    idem: bool,
    edit: Option<(&'static str, fn(&mut World, &Pubkey))>,
    good: bool,
}

pub fn c08(ctx: &Ctx, pool: &Pool) {
    let mut cs: Vec<C8> = vec![];
    for (up, wp) in progs() {
        let p = Pair::new(key("umint"), up, wp);
        let freezes = [Some(freeze_auth()), None, Some(mint_auth()), Some(TW), Some(Pubkey::default()), Some(Pubkey::new_from_array([0xff; 32])), Some(p.umint), Some(p.wmint), Some(p.auth), Some(p.backptr), Some(p.escrow)];
        for d in 0..=255u8 {
            for f in freezes {
                for (i, ma) in [Some(mint_auth()), None].into_iter().enumerate() {
                    for supply in [0, 1, 1_000_000, u64::MAX] {
                        if !ctx.thorough && (i + supply as usize % 3) % 2 != d as usize % 2 {
                            continue;
                        }
                        let mut u = MintSpec::new(key("umint"), up);
                        (u.decimals, u.freeze, u.mint_auth, u.supply) = (d, f, ma, supply);
                        cs.push(C8 { u, wp, idem: d % 2 == 0, edit: None, good: true });
                    }
                }
            }
        }
        // every set of at most two (three) extensions
        let ex = all_exts();
        let mut sets: Vec<Vec<Ext>> = vec![];
        if up == T22 {
            for i in 0..ex.len() {
                sets.push(vec![ex[i].clone()]);
                for j in i + 1..ex.len() {
                    sets.push(vec![ex[i].clone(), ex[j].clone()]);
                    if ctx.thorough {
                        for k in j + 1..ex.len() {
                            sets.push(vec![ex[i].clone(), ex[j].clone(), ex[k].clone()]);
                        }
                    }
                }
            }
            sets.push(vec![Ext::MetaPtr(None)]);
            sets.push(vec![Ext::MetaPtr(Some(key("umint")))]);
            sets.push(vec![Ext::Default { frozen: true }]);
            sets.push(vec![Ext::PermissionedBurn]);
            sets.push(ex.clone());
        }
        for s in sets {
            for f in [Some(freeze_auth()), None] {
                for idem in [false, true] {
                    let mut u = MintSpec::new(key("umint"), up).exts(&s);
                    u.freeze = f;
                    cs.push(C8 { u, wp, idem, edit: None, good: true });
                }
            }
        }
        // unusual unwrapped mints
        for k in [spl_token::native_mint::id(), spl_token_2022_interface::native_mint::id(), wmint_of(&key("inner"), &up), Pubkey::new_from_array([0xff; 32])] {
            for idem in [false, true] {
                let mut u = MintSpec::new(k, up);
                u.freeze = None;
                cs.push(C8 { u, wp, idem, edit: None, good: true });
            }
        }
        for k in odd_mints() {
            for idem in [false, true] {
                let e = if up == T22 { vec![Ext::MetaPtr(Some(*k))] } else { vec![] };
                cs.push(C8 { u: MintSpec::new(*k, up).exts(&e), wp, idem, edit: None, good: true });
            }
        }
        // with lamports or TokenMetadata beyond the ordinary
        for idem in [false, true] {
            let u = MintSpec::new(key("umint"), up);
            cs.push(C8 { u: u.clone(), wp, idem, edit: Some(("richer", |w, k| w.edit(k, |a| a.lamports += 5))), good: true });
            // not an initialised mint of a token program
            let bad: &[(&'static str, fn(&mut World, &Pubkey))] = &[
                ("missing", |w, k| { w.acc.remove(k); }),
                ("no data", |w, k| w.edit(k, |a| a.data.clear())),
                ("uninitialised", |w, k| w.edit(k, |a| a.data[45] = 0)),
                ("zeroed", |w, k| w.edit(k, |a| a.data.fill(0))),
                ("81 bytes", |w, k| w.edit(k, |a| a.data.truncate(81))),
                ("83 bytes", |w, k| w.edit(k, |a| { a.data.truncate(82); a.data.push(0) })),
                ("164 bytes", |w, k| w.edit(k, |a| a.data.resize(164, 0))),
                ("one byte", |w, k| w.edit(k, |a| a.data.truncate(1))),
                ("system owned", |w, k| w.edit(k, |a| a.owner = SYS)),
                ("evil owned", |w, k| w.edit(k, |a| a.owner = builtins::evil())),
                ("owned by Token Wrap", |w, k| w.edit(k, |a| a.owner = TW)),
                ("Metaplex owned", |w, k| w.edit(k, |a| a.owner = MPL)),
                ("ATA program owned", |w, k| w.edit(k, |a| a.owner = ATA)),
            ];
            for e in bad {
                cs.push(C8 { u: u.clone(), wp, idem, edit: Some(*e), good: false });
            }
            if up == T22 {
                let x = MintSpec::new(key("umint"), up).exts(&[Ext::Interest]);
                let bad: &[(&'static str, fn(&mut World, &Pubkey))] = &[
                    ("typed as account", |w, k| w.edit(k, |a| a.data[165] = 2)),
                    ("typed as nothing", |w, k| w.edit(k, |a| a.data[165] = 0)),
                    ("extended, uninitialised", |w, k| w.edit(k, |a| a.data[45] = 0)),
                    ("moved to SPL Token", |w, k| w.edit(k, |a| { a.data[45] = 0; a.owner = TOKEN })),
                    ("evil owned", |w, k| w.edit(k, |a| a.owner = builtins::evil())),
                ];
                for e in bad {
                    cs.push(C8 { u: x.clone(), wp, idem, edit: Some(*e), good: false });
                }
            }
            // token accounts and multisigs
            for what in [0, 1, 2] {
                let e: (&'static str, fn(&mut World, &Pubkey)) = match what {
                    0 => ("a token account", |w, k| {
                        let o = w.get(k).unwrap().owner;
                        let mut d = vec![0; 165];
                        d[..32].copy_from_slice(key("some-mint").as_ref());
                        d[32..64].copy_from_slice(key("someone").as_ref());
                        d[108] = 1;
                        w.set(*k, Account { lamports: 10_000_000, owner: o, data: d, ..Default::default() })
                    }),
                    1 => ("a multisig", |w, k| {
                        let o = w.get(k).unwrap().owner;
                        let mut d = vec![0; 355];
                        d[..3].copy_from_slice(&[1, 2, 1]);
                        d[3..35].copy_from_slice(key("m0").as_ref());
                        d[35..67].copy_from_slice(key("m1").as_ref());
                        w.set(*k, Account { lamports: 10_000_000, owner: o, data: d, ..Default::default() })
                    }),
                    _ => ("an account with extensions", |w, k| {
                        let o = w.get(k).unwrap().owner;
                        let mut d = vec![0; 170];
                        d[..32].copy_from_slice(key("some-mint").as_ref());
                        d[108] = 1;
                        d[165] = 2;
                        d[166] = 7;
                        w.set(*k, Account { lamports: 10_000_000, owner: o, data: d, ..Default::default() })
                    }),
                };
                cs.push(C8 { u: u.clone(), wp, idem, edit: Some(e), good: false });
            }
        }
    }
    // wrapped by programs that are no token programs
    for up in [TOKEN, T22] {
        for wp in [SYS, TW, MPL, ATA, builtins::evil(), builtins::hook(), key("nobody")] {
            for idem in [false, true] {
                cs.push(C8 { u: MintSpec::new(key("umint"), up), wp, idem, edit: None, good: false });
            }
        }
    }
    let n = cs.len();
    let refused = pool.map(&cs, |svm, c| {
        if ctx.enough() {
            return 0;
        }
        let mut w = World { epoch: 5, ..Default::default() };
        if make_mint(svm, &mut w, &c.u).is_err() {
            return 1;
        }
        // with metadata of its own
        if c.u.exts.contains(&Ext::MetaPtr(Some(c.u.key))) && c.u.mint_auth.is_some() {
            let auth = c.u.mint_auth.unwrap();
            put_token_metadata(svm, &mut w, &c.u.key, &auth, &Flat::new("Name", "SYM", &"u".repeat(c.u.key.as_ref()[1] as usize), &[("k", "v")])).unwrap();
        }
        if let Some((_, e)) = c.edit {
            e(&mut w, &c.u.key);
        }
        let p = Pair::new(c.u.key, c.u.prog, c.wp);
        let (rm, rb) = rents(svm, &w, &c.wp);
        w.fund(p.wmint, rm + if c.u.decimals % 2 == 0 { 0 } else { 1_000_000 });
        w.fund(p.backptr, rb);
        ctx.state();
        ctx.step();
        ctx.trace();
        let ix = create_mint(&p, c.idem);
        let e = svm.exec(&w, std::slice::from_ref(&ix));
        let say = format!("{} decimals {} freeze {:?} exts {:?} {} wrapped by {}", name_of(&c.u.prog), c.u.decimals, c.u.freeze.map(|k| name_of(&k)), c.u.exts, c.edit.map_or("", |e| e.0), name_of(&c.wp));
        match (&e.res, c.good) {
            (Err(m), true) => ctx.violate("refused", format!("creation for {say} refused: {m}"), &w, &[ix]),
            (Ok(()), false) => ctx.violate("accepted", format!("creation for {say} accepted: {}", diff(&w, &e.world).join("; ")), &w, &[ix]),
            (Ok(()), true) => {
                ctx.accept();
                let mut bad = fresh_mint_faults(&e.world, &p, c.u.decimals, &c.u.freeze, &default_exts(&p), None);
                bad.extend(others_touched(&w, &e.world, &[p.wmint, p.backptr]));
                if !bad.is_empty() {
                    ctx.violate("mint", format!("creation for {say}: {}", bad.join("; ")), &w, &[ix]);
                }
            }
            _ => {}
        }
        0
    });
    ctx.put("configurations_the_token_programs_refuse_to_create", refused.iter().sum::<u64>());
    ctx.sample(json!(cs.iter().filter_map(|c| c.edit.map(|e| e.0)).collect::<BTreeSet<_>>()));
    ctx.sample(json!(cs.iter().step_by(n / 6).map(|c| format!("{:?}", c.u)).collect::<Vec<_>>()));
    ctx.bound(format!("{n} unwrapped mints and look-alikes: all 256 decimals x freeze authorities x mint authority x supplies x programs; all sets of <= {} extensions and all together; unusual addresses; 16 kinds of non-mint; 7 non-token programs", if ctx.thorough { 3 } else { 2 }));
}

// ---- C09 -------------------------------------------------------------------------
pub fn c09(ctx: &Ctx, pool: &Pool) {
    // the grid of lamports, on clusters with different rents
    let mut items = vec![];
    for (up, wp) in progs() {
        for ext in [vec![], vec![Ext::fee(100, 100), Ext::Close], vec![Ext::MetaPtr(Some(key("umint")))]] {
            if up == TOKEN && !ext.is_empty() {
                continue;
            }
            for i in 0..11 {
                for j in 0..11 {
                    for idem in [false, true] {
                        for rate in RATES {
                            items.push((up, wp, ext.clone(), i, j, idem, rate));
                        }
                    }
                }
            }
        }
    }
    let mut items: Vec<_> = items.into_iter().map(|x| (key("umint"), x)).collect();
    for (up, wp) in progs() {
        for k in odd_mints() {
            for (i, j) in [(3, 4), (4, 3), (4, 4), (5, 6)] {
                items.push((*k, (up, wp, vec![], i, j, j == 3, RATES[0])));
            }
        }
    }
    pool.map(&items, |svm, (um, (up, wp, ext, i, j, idem, rate))| {
        if ctx.enough() {
            return;
        }
        let mut w = World { epoch: 5, ..Default::default() };
        make_mint(svm, &mut w, &MintSpec::new(*um, *up).exts(ext)).unwrap();
        let p = Pair::new(*um, *up, *wp);
        w.rent = *rate;
        let (rm, rb) = rents(svm, &w, wp);
        let r0 = svm.rent_in(&w, 0);
        let lv = |r: u64, i: usize| [0, 1, r / 2, r - 1, r, r + 1, r + 2, 2 * r, r + 1_000_000_000, u64::MAX / 4, r0][i];
        w.fund(p.wmint, lv(rm, *i));
        w.fund(p.backptr, lv(rb, *j));
        w.fund(key("bystander"), 77);
        w.fund(p.auth, 5_000_000);
        ctx.state();
        let want = lv(rm, *i) >= rm && lv(rb, *j) >= rb;
        let ix = create_mint(&p, *idem);
        let e = svm.exec(&w, std::slice::from_ref(&ix));
        ctx.step();
        ctx.trace();
        if e.ok() != want {
            ctx.violate("funding", format!("with {} of {rm} and {} of {rb} lamports: {:?}", lv(rm, *i), lv(rb, *j), e.res), &w, std::slice::from_ref(&ix));
        }
        if e.ok() {
            ctx.accept();
            let mut bad = others_touched(&w, &e.world, &[p.wmint, p.backptr]);
            bad.extend(fresh_mint_faults(&e.world, &p, 6, &Some(freeze_auth()), &default_exts(&p), None));
            if !bad.is_empty() {
                ctx.violate("effects", bad.join("; "), &w, &[ix]);
            }
        }
    });
    // all sequences
    let depth = if ctx.thorough { 8 } else { 6 };
    for (up, wp) in progs() {
        let mut w = World { epoch: 5, ..Default::default() };
        let p = Pair::new(key("umint"), up, wp);
        let other = Pair::new(key("umint"), up, if wp == T22 { TOKEN } else { T22 });
        let spec = MintSpec::new(key("umint"), up).exts(if up == T22 { &[Ext::Close, Ext::Interest][..] } else { &[] });
        let user = key("user");
        pool.one(|svm| {
            make_mint(svm, &mut w, &spec).unwrap();
            make_account(svm, &mut w, &AcctSpec::new(key("user-u"), p.umint, user, 3)).unwrap();
            fix_supply(&mut w, &p.umint);
            // metadata source
            let mut md = Md::new("N", "S", "U");
            md.mint = p.umint;
            put_metaplex(svm, &mut w, mpl_of(&p.umint), &md);
            // a token account cannot be made before the mint: keep its image
        });
        w.fund(key("payer"), 1 << 40);
        w.fund(p.auth, 1_000_000_000);
        let name = format!("{}->{}", name_of(&up), name_of(&wp));
        explore(ctx, pool, &name, vec![Node::root(w)], depth, 2_000_000, |svm, n| {
            let mut out = vec![];
            let w = &n.w;
            let (rm, rb) = rents(svm, w, &wp);
            if n.depth == depth {
                return out;
            }
            // lamports arriving
            for (k, r) in [(p.wmint, rm), (p.backptr, rb)] {
                for x in [1, r - 1, r] {
                    if w.lamports(&k) < 2 * r {
                        let mut t = w.clone();
                        t.fund(k, w.lamports(&k) + x);
                        out.push(n.next(format!("send {x} to {}", name_of(&k)), t, 0));
                    }
                }
            }
            for idem in [false, true] {
                let ix = create_mint(&p, idem);
                let e = svm.exec(w, std::slice::from_ref(&ix));
                ctx.step();
                ctx.trace();
                let exists = !w.data(&p.wmint).is_empty() || !w.data(&p.backptr).is_empty();
                let funded = w.lamports(&p.wmint) >= rm && w.lamports(&p.backptr) >= rb;
                let want = if exists { idem } else { funded };
                let mut h = n.history();
                h.push(format!("create (idempotent {idem})"));
                if e.ok() != want {
                    ctx.violate("sequence", format!("{name}: {:?}, expected {}; history {h:?}", e.res, if want { "success" } else { "failure" }), w, std::slice::from_ref(&ix));
                }
                if e.ok() {
                    ctx.accept();
                    let bad = if exists { diff(w, &e.world) } else {
                        let mut b = others_touched(w, &e.world, &[p.wmint, p.backptr]);
                        b.extend(fresh_mint_faults(&e.world, &p, 6, &Some(freeze_auth()), &default_exts(&p), None));
                        b
                    };
                    if !bad.is_empty() {
                        ctx.violate("sequence-effects", format!("{name}: {}; history {h:?}", bad.join("; ")), w, std::slice::from_ref(&ix));
                    }
                    out.push(n.next(h.last().unwrap().clone(), e.world, 0));
                }
            }
            // life of the pair
            let mut others: Vec<(String, Vec<Instruction>)> = vec![
                ("make the escrow".into(), vec![create_ata(&key("payer"), &p.auth, &p.umint, &up)]),
                ("make the holder's account".into(), vec![create_ata(&key("payer"), &user, &p.wmint, &wp)]),
                ("wrap 2".into(), vec![wrap(&p, &key("user-u"), &ata_of(&user, &p.wmint, &wp), &Auth::single(&user), &[], 2)]),
                ("unwrap 1".into(), vec![unwrap(&p, &ata_of(&user, &p.wmint, &wp), &key("user-u"), &Auth::single(&user), &[], 1)]),
                ("revoke the unwrapped mint's freeze authority".into(), vec![ti::set_authority(&up, &p.umint, None, ti::AuthorityType::FreezeAccount, &freeze_auth(), &[]).unwrap()]),
                ("create the sibling pair".into(), vec![create_mint(&other, true)]),
            ];
            let src = mpl_of(&p.umint);
            others.push(if wp == T22 { ("sync".into(), vec![sync22(&p, Some(&src), None)]) } else { ("sync".into(), vec![sync_spl(&p, Some(&src), None)]) });
            for (l, ixs) in others {
                if l.starts_with("revoke") && w.get(&p.wmint).is_none_or(|m| m.data.is_empty()) {
                    continue; // would change what creation has to give
                }
                let e = svm.exec(w, &ixs);
                ctx.step();
                if e.ok() {
                    out.push(n.next(l, e.world, 0));
                }
            }
            out
        });
    }
    ctx.bound(format!("11 x 11 lamport levels x flags x mint kinds, four of them over addresses of every bump found; all sequences of <= {depth} steps over funding, plain and idempotent creation, escrow and account creation, wrap, unwrap, sync"));
}

// ---- C10 -------------------------------------------------------------------------
struct C10 {
    old: Vec<Ext>,
    new: Vec<Ext>,
    wp: Pubkey,
    tweak: u8,
    dest: u8,
    um: Pubkey,
}

pub fn c10(ctx: &Ctx, pool: &Pool) {
    // extensions that give token accounts extensions, and ones that do not
    let acc = [Ext::fee(100, 50), Ext::Hook(None), Ext::NonTransferable, Ext::Pausable { paused: false }];
    let mut sets: Vec<Vec<Ext>> = vec![];
    for m in 0..16u32 {
        sets.push((0..4).filter(|i| m >> i & 1 == 1).map(|i| acc[i].clone()).collect());
    }
    for e in [Ext::PermDelegate, Ext::Interest, Ext::Confidential, Ext::MetaPtr(None), Ext::Default { frozen: false }, Ext::Default { frozen: true }] {
        sets.push(vec![e.clone()]);
        let mut v = vec![acc[0].clone(), e.clone()];
        if e == Ext::Confidential {
            v.push(Ext::ConfidentialFee);
        }
        sets.push(v);
    }
    let mut cs = vec![];
    for o in &sets {
        for n in &sets {
            for wp in [TOKEN, T22] {
                let plain = o.iter().chain(n).all(|e| acc.contains(e));
                let tweaks = if plain || ctx.thorough { 0..9u8 } else { 0..1u8 };
                for tweak in tweaks {
                    let dests = if tweak == 0 && (ctx.thorough || plain) { 0..6u8 } else { 0..1 };
                    for dest in dests {
                        cs.push(C10 { old: o.clone(), new: n.clone(), wp, tweak, dest, um: key("umint") });
                    }
                }
            }
        }
    }
    for um in odd_mints() {
        for wp in [TOKEN, T22] {
            for (o, n) in [(0, 1), (1, 0), (1, 1), (3, 3)] {
                cs.push(C10 { old: sets[o].clone(), new: sets[n].clone(), wp, tweak: 0, dest: 1, um: *um });
            }
        }
    }
    let n = cs.len();
    pool.map(&cs, |svm, c| {
        if ctx.enough() {
            return;
        }
        let mut w = World { epoch: 5, ..Default::default() };
        let um = c.um;
        let p = Pair::new(um, T22, c.wp);
        let spec = |e: &[Ext]| {
            let mut v = vec![Ext::Close];
            v.extend_from_slice(e);
            MintSpec::new(um, T22).exts(&v)
        };
        // life of the first mint
        make_mint(svm, &mut w, &spec(&c.old)).unwrap();
        let (rm, rb) = rents(svm, &w, &c.wp);
        w.fund(p.wmint, rm);
        w.fund(p.backptr, rb);
        svm.must(&mut w, "create", &[create_mint(&p, false)]);
        make_escrow(svm, &mut w, &p).unwrap();
        w.fund(key("closed-mint-rent"), 1);
        svm.must(&mut w, "close mint", &[ti::close_account(&T22, &um, &key("closed-mint-rent"), &close_auth(), &[]).unwrap()]);
        // and of the second
        make_mint(svm, &mut w, &spec(&c.new)).unwrap();
        let user = key("user");
        make_account(svm, &mut w, &AcctSpec::new(key("user-u"), um, user, 1000)).unwrap();
        fix_supply(&mut w, &um);
        make_account(svm, &mut w, &AcctSpec::new(key("user-w"), p.wmint, user, 0)).unwrap();
        // what a fresh associated account of the new mint has
        let probe = key("probe-owner");
        let mut t = w.clone();
        make_ata(svm, &mut t, &probe, &um, &T22).unwrap();
        let set = |a: &Account| -> BTreeSet<u16> { acct_exts(a).unwrap().into_iter().map(|x| x as u16).collect() };
        let fresh = set(t.get(&ata_of(&probe, &um, &T22)).unwrap());
        let mut refuse = None;
        match c.tweak {
            1 => {
                w.edit(&p.escrow, |a| a.data[64] = 1);
                refuse = Some("holds a token");
            }
            2 => {
                w.edit(&p.escrow, |a| a.data[71] = 1);
                refuse = Some("holds 2^56 tokens");
            }
            3 => {
                w.edit(&p.escrow, |a| a.data[108] = 2);
                refuse = Some("is frozen");
            }
            4 => w.edit(&p.escrow, |a| a.lamports += 123_456_789),
            5 => {
                w.edit(&p.escrow, |a| a.data[32..64].copy_from_slice(user.as_ref()));
                refuse = Some("belongs to someone else");
            }
            6 => {
                w.acc.remove(&p.escrow);
                refuse = Some("does not exist");
            }
            7 => {
                w.edit(&p.escrow, |a| a.owner = TOKEN);
                refuse = Some("is no Token-2022 account");
            }
            8 => {
                // fees withheld in it, to be harvested first
                let Some(at) = tlv_offset(w.data(&p.escrow), ExtensionType::TransferFeeAmount as u16) else { return };
                w.edit(&p.escrow, |a| a.data[at] = 1);
                refuse = Some("holds withheld fees");
            }
            _ => {}
        }
        let frozen = w.get(&p.escrow).is_some_and(|a| a.data[108] == 2);
        if frozen && refuse.is_none() {
            refuse = Some("was created frozen");
        }
        let stuck = w.get(&p.escrow).is_some_and(|a| a.owner == T22 && set(a) != fresh);
        let dest = match c.dest {
            0 => key("rescue"),
            1 => {
                w.fund(key("rescue"), 555);
                key("rescue")
            }
            2 => p.auth,
            3 => p.wmint,
            4 => key("user-u"),
            _ => p.umint,
        };
        ctx.state();
        let ix = close_stuck(&p, &dest);
        let e = svm.exec(&w, std::slice::from_ref(&ix));
        ctx.step();
        ctx.trace();
        let want = refuse.is_none() && stuck;
        let say = || format!("escrow made for {:?}, mint now {:?}, wrapped by {}, {}, to {}", c.old, c.new, name_of(&c.wp), refuse.unwrap_or("empty"), name_of(&dest));
        // the unwrapped mint and the escrow are no destinations: nothing is promised
        if e.ok() != want && !(want && c.dest == 5) {
            ctx.violate(if want { "refused" } else { "closed" }, format!("{}: close {:?}", say(), e.res), &w, std::slice::from_ref(&ix));
        }
        if !e.ok() {
            // still healthy ones keep working
            if !stuck && refuse.is_none() && !c.new.contains(&Ext::NonTransferable) && !c.new.iter().any(|e| matches!(e, Ext::Default { frozen: true })) {
                round_trip(ctx, svm, &w, &p, &say());
            }
            return;
        }
        ctx.accept();
        let mut expect = w.clone();
        let lam = w.lamports(&p.escrow);
        expect.acc.remove(&p.escrow);
        expect.fund(dest, w.lamports(&dest) + lam);
        let d = diff(&expect, &e.world);
        if !d.is_empty() {
            ctx.violate("effects", format!("{}: {}", say(), d.join("; ")), &w, std::slice::from_ref(&ix));
        }
        // a second close finds nothing
        let again = svm.exec(&e.world, std::slice::from_ref(&ix));
        ctx.step();
        if again.ok() {
            ctx.violate("twice", format!("{}: closed twice", say()), &e.world, std::slice::from_ref(&ix));
        }
        let mut w = e.world;
        if let Err(m) = make_escrow(svm, &mut w, &p) {
            ctx.violate("recreate", format!("{}: escrow cannot be made again: {m}", say()), &w, &[]);
            return;
        }
        let e = svm.exec(&w, std::slice::from_ref(&ix));
        ctx.step();
        if e.ok() {
            ctx.violate("healthy-closed", format!("{}: the new escrow was closed", say()), &w, &[ix]);
        }
        if !c.new.contains(&Ext::NonTransferable) && !c.new.iter().any(|e| matches!(e, Ext::Default { frozen: true })) {
            round_trip(ctx, svm, &w, &p, &say());
        }
    });
    // SPL Token escrows are never stuck
    for wp in [TOKEN, T22] {
        pool.one(|svm| {
            let mut w = World { epoch: 5, ..Default::default() };
            make_mint(svm, &mut w, &MintSpec::new(key("umint"), TOKEN)).unwrap();
            let p = Pair::new(key("umint"), TOKEN, wp);
            make_wrapped(svm, &mut w, &p, 0);
            make_escrow(svm, &mut w, &p).unwrap();
            ctx.state();
            for prog in [T22, TOKEN] {
                let mut ix = close_stuck(&p, &key("rescue"));
                ix.accounts[5].pubkey = prog;
                let e = svm.exec(&w, std::slice::from_ref(&ix));
                ctx.step();
                if e.ok() {
                    ctx.violate("spl", "an SPL Token escrow was closed", &w, &[ix]);
                }
            }
        });
    }
    ctx.sample(json!(sets.iter().take(8).map(|s| format!("{s:?}")).collect::<Vec<_>>()));
    ctx.bound(format!("{n} histories: all {0} x {0} pairs of extension sets (before, after re-creation), both wrapped programs, balances, frozen, foreign, missing, richer escrows, six destinations, derived addresses of every bump found; then close again, re-create, close the healthy one, wrap and unwrap", sets.len()));
}
fn round_trip(ctx: &Ctx, svm: &mut Svm, w: &World, p: &Pair, say: &str) {
    let user = key("user");
    let a = wrap(p, &key("user-u"), &key("user-w"), &Auth::single(&user), &[], 1000);
    let e = svm.exec(w, std::slice::from_ref(&a));
    ctx.step();
    let fee = fee_of(w, &p.umint, 1000);
    if !e.ok() || amount(&e.world, &key("user-w")) != Some(1000 - fee) {
        ctx.violate("wrap", format!("{say}: wrapping does not work: {:?}", e.res), w, &[a]);
        return;
    }
    let b = unwrap(p, &key("user-w"), &key("user-u"), &Auth::single(&user), &[], 1000 - fee);
    let f = svm.exec(&e.world, std::slice::from_ref(&b));
    ctx.step();
    if !f.ok() {
        ctx.violate("unwrap", format!("{say}: unwrapping does not work: {:?}", f.res), &e.world, &[b]);
    }
}

// ---- C14 -------------------------------------------------------------------------
pub fn c14(ctx: &Ctx, pool: &Pool) {
    let (x, y) = (key("authority-x"), key("authority-y"));
    let forks = [key("fork-1"), key("fork-2"), TW, SYS];
    let depth = if ctx.thorough { 7 } else { 5 };
    let mut scenes: Vec<(String, MintSpec)> = vec![];
    for prog in [TOKEN, T22] {
        let mut m = MintSpec::new(key("umint"), prog);
        m.mint_auth = Some(x);
        scenes.push((name_of(&prog), m.clone()));
        if prog == T22 {
            m.exts = vec![Ext::Close, Ext::fee(1, 1), Ext::MetaPtr(Some(key("umint"))), Ext::PermDelegate];
            scenes.push(("t22-extended".into(), m));
        }
    }
    let scenes: Vec<_> = scenes.into_iter().flat_map(|s| RATES.map(|r| (r, s.clone()))).collect();
    for (rate, (name, spec)) in scenes {
        let mut w = World { epoch: 5, ..Default::default() };
        let name = format!("{name} rent {rate:?}");
        let um = spec.key;
        pool.one(|svm| {
            make_mint(svm, &mut w, &spec).unwrap();
            // another mint, whose authority is y
            let mut o = MintSpec::new(key("other-mint"), spec.prog);
            o.mint_auth = Some(y);
            make_mint(svm, &mut w, &o).unwrap();
        });
        let c = canon_of(&um);
        name_it(c, "canonical pointer");
        let other = canon_of(&key("other-mint"));
        w.fund(other, 10_000_000);
        w.rent = rate;
        let rent = pool.one(|svm| svm.rent_in(&w, 32));
        let starts: Vec<Node> = [0, 1, rent - 1, rent, rent + 1, 10 * rent].iter().map(|l| {
            let mut t = w.clone();
            t.fund(c, *l);
            Node::root(t)
        }).collect();
        explore(ctx, pool, &name, starts, depth, 2_000_000, |svm, n| {
            let mut out = vec![];
            if n.depth == depth {
                return out;
            }
            let w = &n.w;
            let current = coption(&w.data(&um)[..36]);
            let who = [x, y, freeze_auth(), close_auth(), key("stranger"), um, c];
            for a in who {
                for signed in [true, false] {
                    for f in &forks {
                        let ix = set_canonical(&um, if signed { signer(&a) } else { ro(&a) }, f);
                        let e = svm.exec(w, std::slice::from_ref(&ix));
                        ctx.step();
                        ctx.trace();
                        let exists = !w.data(&c).is_empty();
                        let want = signed && current == Some(a) && (exists || w.lamports(&c) >= rent);
                        let l = format!("{} ({signed}) points at {}", name_of(&a), name_of(f));
                        if e.ok() != want {
                            ctx.violate(if want { "refused" } else { "accepted" }, format!("{name}: '{l}' gave {:?}; history {:?}", e.res, n.history()), w, std::slice::from_ref(&ix));
                        }
                        if e.ok() {
                            ctx.accept();
                            let mut expect = w.clone();
                            expect.edit(&c, |p| {
                                p.owner = TW;
                                p.data = f.to_bytes().to_vec();
                            });
                            let d = diff(&expect, &e.world);
                            if !d.is_empty() {
                                ctx.violate("effects", format!("{name}: '{l}': {}; history {:?}", d.join("; "), n.history()), w, std::slice::from_ref(&ix));
                            }
                            out.push(n.next(l, e.world, 0));
                        }
                    }
                }
            }
            // the other mint's pointer and authority are of no use here
            for (m, ptr) in [(um, other), (key("other-mint"), c)] {
                for a in [x, y] {
                    let mut ix = set_canonical(&m, signer(&a), &forks[0]);
                    ix.accounts[1].pubkey = ptr;
                    let e = svm.exec(w, std::slice::from_ref(&ix));
                    ctx.step();
                    if e.ok() {
                        ctx.violate("wrong-pointer", format!("{name}: pointer of another mint was set; history {:?}", n.history()), w, &[ix]);
                    }
                }
            }
            // authority moves
            if let Some(cur) = current {
                for to in [Some(x), Some(y), None] {
                    let ix = ti::set_authority(&spec.prog, &um, to.as_ref(), ti::AuthorityType::MintTokens, &cur, &[]).unwrap();
                    let e = svm.exec(w, &[ix]);
                    ctx.step();
                    if e.ok() {
                        out.push(n.next(format!("authority to {:?}", to.map(|k| name_of(&k))), e.world, 0));
                    }
                }
            }
            // lamports
            if w.lamports(&c) < rent {
                let mut t = w.clone();
                t.fund(c, rent);
                out.push(n.next("fund the pointer", t, 0));
            }
            out
        });
    }
    // kinds of mint and look-alikes
    type E = fn(&mut World, &Pubkey);
    let lookalikes: &[(&str, bool, E)] = &[
        ("genuine", true, |_, _| {}),
        ("richer", true, |w, k| w.edit(k, |a| a.lamports += 9)),
        ("missing", false, |w, k| { w.acc.remove(k); }),
        ("uninitialised", false, |w, k| w.edit(k, |a| a.data[45] = 0)),
        ("evil owned", false, |w, k| w.edit(k, |a| a.owner = builtins::evil())),
        ("system owned", false, |w, k| w.edit(k, |a| a.owner = SYS)),
        ("Token Wrap owned", false, |w, k| w.edit(k, |a| a.owner = TW)),
        ("short", false, |w, k| w.edit(k, |a| a.data.truncate(81))),
        ("as multisig", false, |w, k| w.edit(k, |a| { a.data.truncate(82); a.data.resize(355, 0) })),
        ("as account", false, |w, k| w.edit(k, |a| { a.data.truncate(82); a.data.resize(165, 0); a.data[108] = 1; })),
        ("as extended account", false, |w, k| w.edit(k, |a| { a.data.truncate(82); a.data.resize(170, 0); a.data[108] = 1; a.data[165] = 2; a.data[166] = 7 })),
        ("no authority", false, |w, k| w.edit(k, |a| a.data[0..36].fill(0))),
        ("authority tag off, key left", false, |w, k| w.edit(k, |a| a.data[0] = 0)),
    ];
    let mut items = vec![];
    for prog in [TOKEN, T22] {
        let mut sets = vec![vec![]];
        if prog == T22 {
            for (i, e) in all_exts().iter().enumerate() {
                sets.push(vec![e.clone()]);
                for f in &all_exts()[i + 1..] {
                    sets.push(vec![e.clone(), f.clone()]);
                }
            }
        }
        for s in sets {
            for l in lookalikes {
                for lam in [0, 1, 2] {
                    items.push((key("umint"), prog, s.clone(), l, lam));
                }
            }
        }
        for k in odd_mints() {
            items.extend([0, 1].map(|lam| (*k, prog, vec![], &lookalikes[0], lam)));
        }
    }
    pool.map(&items, |svm, (um, prog, exts, (what, good, edit), lam)| {
        let mut w = World { epoch: 5, ..Default::default() };
        let mut m = MintSpec::new(*um, *prog).exts(exts);
        m.mint_auth = Some(x);
        if ctx.enough() || make_mint(svm, &mut w, &m).is_err() {
            return;
        }
        edit(&mut w, &m.key);
        let c = canon_of(&m.key);
        let rent = svm.rent(32);
        let l = [0, rent, 1 << 40][*lam];
        w.fund(c, l);
        ctx.state();
        for (a, signed) in [(x, true), (x, false), (y, true), (Pubkey::default(), true)] {
            let ix = set_canonical(&m.key, if signed { signer(&a) } else { ro(&a) }, &forks[0]);
            let e = svm.exec(&w, std::slice::from_ref(&ix));
            ctx.step();
            ctx.trace();
            let want = *good && signed && a == x && l >= rent;
            if e.ok() != want {
                ctx.violate("kind", format!("{} mint {exts:?} {what}, {} lamports, by {} signed {signed}: {:?}", name_of(prog), l, name_of(&a), e.res), &w, std::slice::from_ref(&ix));
            }
            if e.ok() {
                ctx.accept();
                let mut expect = w.clone();
                expect.edit(&c, |p| {
                    p.owner = TW;
                    p.data = forks[0].to_bytes().to_vec();
                });
                let d = diff(&expect, &e.world);
                if !d.is_empty() {
                    ctx.violate("kind-effects", format!("{} mint {exts:?} {what}: {}", name_of(prog), d.join("; ")), &w, std::slice::from_ref(&ix));
                }
            }
        }
    });
    ctx.bound(format!("all histories of <= {depth} steps from 6 funding levels over setting by 7 keys (signed or not) to 4 ids, authority transfers and revocation; {} kinds of mint and look-alike", items.len()));
}
