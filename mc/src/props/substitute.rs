//! C06: any account in any position.
use crate::{builtins, core::*, meta::*, report::Ctx, tok::*, tw::*};
use solana_account::Account;
use solana_instruction::{AccountMeta, Instruction};
use solana_pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Spl,
    T22Self,
    T22External,
    T22Metaplex,
    T22NoPointer,
    /// one pair's escrow is stuck
    Stuck,
}
fn attacker() -> Pubkey {
    key("attacker")
}
fn victim() -> Pubkey {
    key("victim")
}

struct Scene {
    kind: Kind,
    w: World,
    pairs: Vec<Pair>,
    names: BTreeMap<Pubkey, &'static str>,
    bases: Vec<(String, Instruction, Pubkey)>,
    universe: Vec<Pubkey>,
}

fn scene(svm: &mut Svm, kind: Kind) -> Scene {
    let mut w = World { epoch: 5, ..Default::default() };
    let up = if kind == Kind::Spl { TOKEN } else { T22 };
    let other = if up == T22 { TOKEN } else { T22 };
    let (a, b, c, f) = (key("mint-A"), key("mint-B"), key("mint-C"), key("mint-F"));
    let (ext_a, ext_b) = (key("ext-A"), key("ext-B"));
    let exts = |m: Pubkey, e: Pubkey| -> Vec<Ext> {
        let mut v = match kind {
            Kind::Spl => return vec![],
            Kind::T22Self => vec![Ext::MetaPtr(Some(m))],
            Kind::T22External => vec![Ext::MetaPtr(Some(e))],
            Kind::T22Metaplex => vec![Ext::MetaPtr(Some(mpl_of(&m)))],
            Kind::T22NoPointer => vec![],
            Kind::Stuck => vec![Ext::MetaPtr(Some(m))],
        };
        v.push(Ext::fee(100, 50));
        v
    };
    let mut names = BTreeMap::new();
    for (m, name, auth, prog, e) in
        [(a, "Name-A", mint_auth(), up, ext_a), (b, "Name-B", attacker(), up, ext_b), (c, "Name-C", mint_auth(), other, ext_a), (f, "Name-F", mint_auth(), up, ext_b)]
    {
        let mut s = MintSpec::new(m, prog);
        s.mint_auth = Some(auth);
        if prog == up {
            s.exts = exts(m, e);
        } else if prog == T22 {
            s.exts = vec![Ext::MetaPtr(Some(m))];
        }
        make_mint(svm, &mut w, &s).unwrap();
        names.insert(m, name);
        let fl = Flat::new(name, "SYM", "uri", &[("owner", name)]);
        if s.exts.contains(&Ext::MetaPtr(Some(m))) {
            put_token_metadata(svm, &mut w, &m, &auth, &fl).unwrap();
        }
        if prog == TOKEN || matches!(kind, Kind::T22Metaplex | Kind::T22NoPointer) {
            let mut md = Md::new(name, "SYM", "uri");
            md.mint = m;
            put_metaplex(svm, &mut w, mpl_of(&m), &md);
        }
    }
    put_external(svm, &mut w, ext_a, builtins::meta_a(), builtins::EMIT, &Flat::new("Name-A", "S", "u", &[]).packed(a, None));
    put_external(svm, &mut w, ext_b, builtins::meta_a(), builtins::EMIT, &Flat::new("Name-B", "S", "u", &[]).packed(b, None));
    put_external(svm, &mut w, key("ext-forged"), builtins::meta_b(), builtins::EMIT, &Flat::new("Name-X", "S", "u", &[]).packed(a, None));
    put_external(svm, &mut w, key("ext-evil"), builtins::evil(), builtins::EMIT, &Flat::new("Name-X", "S", "u", &[]).packed(a, None));
    let mut md = Md::new("Name-X", "S", "u");
    md.mint = a;
    put_metaplex(svm, &mut w, key("forged-metaplex"), &md);
    w.edit(&key("forged-metaplex"), |x| x.owner = builtins::evil());
    // a genuine Metaplex record, of an unrelated mint
    md.mint = key("mint-X");
    put_metaplex(svm, &mut w, mpl_of(&key("mint-X")), &md);
    name_it(mpl_of(&key("mint-X")), "metaplex-X");

    let mut pairs = vec![];
    for (m, prog) in [(a, up), (b, up), (c, other)] {
        for wp in [TOKEN, T22] {
            let p = Pair::new(m, prog, wp);
            make_wrapped(svm, &mut w, &p, 0);
            if kind == Kind::Stuck && m == a && wp == T22 {
                // as left behind by an earlier mint without fees
                let mut t = w.clone();
                t.acc.remove(&a);
                let mut s = MintSpec::new(a, T22);
                s.exts = vec![];
                make_mint(svm, &mut t, &s).unwrap();
                make_escrow(svm, &mut t, &p).unwrap();
                w.set(p.escrow, t.get(&p.escrow).unwrap().clone());
            } else {
                make_escrow(svm, &mut w, &p).unwrap();
                w.edit(&p.escrow, |x| x.data[64..72].copy_from_slice(&700_000u64.to_le_bytes()));
            }
            w.edit(&p.wmint, |x| x.lamports += 20_000_000);
            w.fund(p.auth, 100_000_000);
            pairs.push(p);
        }
    }
    let pf: Vec<Pair> = [TOKEN, T22].iter().map(|wp| Pair::new(f, up, *wp)).collect();
    for p in &pf {
        w.fund(p.wmint, 50_000_000);
        w.fund(p.backptr, 50_000_000);
    }
    for who in [attacker(), victim()] {
        let n = name_of(&who);
        for (i, m) in [a, b, c].iter().enumerate() {
            make_account(svm, &mut w, &AcctSpec::new(key(&format!("{n}-u{}", ["A", "B", "C"][i])), *m, who, 100_000)).unwrap();
        }
        for p in &pairs[..4] {
            let k = key(&format!("{n}-w{}{}", if p.umint == a { "A" } else { "B" }, if p.wprog == T22 { "22" } else { "" }));
            let amt = if escrow_amount(&w, p) == Some(0) { 0 } else { 100_000 };
            make_account(svm, &mut w, &AcctSpec::new(k, p.wmint, who, amt)).unwrap();
        }
        w.fund(who, 1_000_000_000);
    }
    // the victim has approved the pair authorities of B, and attacker's escrow-likes
    for p in &pairs[..2] {
        let t = if p.wprog == T22 { "22" } else { "" };
        // a genuine token account of mint A in the name of A's authority, but not the escrow
        make_account(svm, &mut w, &AcctSpec::new(key(&format!("second-escrow{t}")), a, p.auth, 5_000)).unwrap();
        // an ordinary mint of the attacker's under A's authority, with an account
        let pm = key(&format!("pda-mint{t}"));
        let mut s = MintSpec::new(pm, p.wprog);
        s.mint_auth = Some(p.auth);
        make_mint(svm, &mut w, &s).unwrap();
        make_account(svm, &mut w, &AcctSpec::new(key(&format!("attacker-pda{t}")), pm, attacker(), 50_000)).unwrap();
        // A's authority also holds B tokens
        make_account(svm, &mut w, &AcctSpec::new(key(&format!("B-of-authA{t}")), b, p.auth, 5_000)).unwrap();
    }
    // anyone can open an associated account of any mint for any authority
    for p in &pairs[..4] {
        for (m, prog) in [(a, up), (b, up), (c, other)] {
            if m != p.umint {
                let k = ata_of(&p.auth, &m, &prog);
                make_ata(svm, &mut w, &p.auth, &m, &prog).unwrap();
                w.edit(&k, |x| x.data[64..72].copy_from_slice(&5_000u64.to_le_bytes()));
                name_it(k, &format!("crossed({},{})", name_of(&p.auth), name_of(&m)));
            }
        }
    }
    // forgeries
    let e = builtins::evil();
    let fake_mint = w.get(&a).unwrap().clone();
    w.set(key("forged-mint"), Account { owner: e, ..fake_mint });
    let fake_esc = w.get(&pairs[1].escrow).unwrap().clone();
    w.set(key("forged-account"), Account { owner: e, ..fake_esc });
    let fake_w = w.get(&pairs[1].wmint).unwrap().clone();
    w.set(key("forged-wmint"), Account { owner: e, ..fake_w });
    w.set(key("forged-backptr"), Account { lamports: 10_000_000, owner: e, data: a.to_bytes().to_vec(), ..Default::default() });
    w.set(key("forged-sys-mint"), Account { lamports: 10_000_000, owner: SYS, data: vec![], ..Default::default() });
    for m in [a, b, c, f] {
        w.fund(canon_of(&m), 10_000_000);
        name_it(canon_of(&m), &format!("canon({})", name_of(&m)));
    }
    w.set(canon_of(&a), Account { lamports: 10_000_000, owner: TW, data: key("fork-A").to_bytes().to_vec(), ..Default::default() });
    for k in [a, b, c, f] {
        fix_supply(&mut w, &k);
    }
    for p in &pairs {
        fix_supply(&mut w, &p.wmint);
    }
    let all = [pairs.clone(), pf.clone()].concat();
    for p in &all {
        name_it(mpl_of(&p.wmint), &format!("metaplex({})", name_of(&p.wmint)));
    }

    let at = attacker();
    let mut bases: Vec<(String, Instruction, Pubkey)> = vec![];
    let sync_only = !matches!(kind, Kind::Spl | Kind::T22Self | Kind::Stuck);
    for p in &pairs[..4] {
        let m = if p.umint == a { "A" } else { "B" };
        let t = if p.wprog == T22 { "22" } else { "" };
        let acct = |n: &str, k: &str| key(&format!("{n}-{k}{m}{}", if k == "w" { t } else { "" }));
        if !sync_only {
            for who in [at, victim()] {
                let n = name_of(&who);
                let au = Auth::single(&who);
                bases.push((format!("wrap {m}{t}"), wrap(p, &acct(&n, "u"), &acct(&n, "w"), &au, &[], 1000), who));
                bases.push((format!("unwrap {m}{t}"), unwrap(p, &acct(&n, "w"), &acct(&n, "u"), &au, &[], 1000), who));
            }
        }
        if kind == Kind::Stuck || kind == Kind::T22Self {
            bases.push((format!("close {m}{t}"), close_stuck(p, &at), at));
        }
        let src = match kind {
            Kind::Spl | Kind::T22Metaplex | Kind::T22NoPointer => Some(mpl_of(&p.umint)),
            Kind::T22External => Some(if p.umint == a { ext_a } else { ext_b }),
            _ => None,
        };
        let own = (kind == Kind::T22External).then(builtins::meta_a);
        if kind != Kind::Stuck {
            if p.wprog == T22 {
                bases.push((format!("sync22 {m}"), sync22(p, src.as_ref(), own.as_ref()), at));
            } else {
                bases.push((format!("sync-spl {m}"), sync_spl(p, src.as_ref(), own.as_ref()), at));
            }
        }
    }
    if !sync_only {
        for p in pf.iter().chain(&pairs[..2]) {
            for i in [false, true] {
                bases.push((format!("create {} {i}", name_of(&p.umint)), create_mint(p, i), at));
            }
        }
        for m in [a, b] {
            bases.push((format!("canonical {}", name_of(&m)), set_canonical(&m, signer(&at), &key("fork-new")), at));
        }
    }
    let mut universe: BTreeSet<Pubkey> = w.acc.keys().copied().collect();
    universe.extend([TW, TOKEN, T22, ATA, MPL, SYS, RENT, e, builtins::meta_a(), builtins::meta_b(), builtins::hook(), key("empty")]);
    for p in &all {
        universe.extend([p.wmint, p.auth, p.backptr, p.escrow]);
        if p.wprog == TOKEN {
            universe.insert(mpl_of(&p.wmint));
        }
    }
    // derived with programs that are no token programs
    let (we, ue) = (Pair::new(a, up, e), Pair::new(a, e, T22));
    universe.extend([we.wmint, we.auth, we.backptr, we.escrow, ue.escrow]);
    w.fund(we.wmint, 50_000_000);
    w.fund(we.backptr, 50_000_000);
    Scene { kind, w, pairs: all, names, bases, universe: universe.into_iter().collect() }
}

/// What a successful instruction did that nothing justifies.
fn unsafe_effects(s: &Scene, w2: &World, ix: &Instruction) -> Vec<String> {
    let w = &s.w;
    let signed: BTreeSet<Pubkey> = ix.accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey).collect();
    let mut bad = vec![];
    let none = Account::default();
    let tag = ix.data[0];
    let spendable = |w: &World, p: &Pair| escrow_amount(w, p).unwrap_or(0) as i128;
    let sup = |w: &World, k: &Pubkey| supply(w, k).unwrap_or(0) as i128;
    for p in &s.pairs {
        let (ds, de) = (sup(w2, &p.wmint) - sup(w, &p.wmint), spendable(w2, p) - spendable(w, p));
        // releasing to another escrow is a gift to it
        let gift = ds == 0 && de > 0 && tag == 2;
        if ds != de && !gift {
            bad.push(format!("supply of {} changed by {ds}, its escrow by {de}", name_of(&p.wmint)));
        }
    }
    let keys: BTreeSet<_> = w.acc.keys().chain(w2.acc.keys()).collect();
    for k in keys {
        let (x, y) = (w.get(k).unwrap_or(&none), w2.get(k).unwrap_or(&none));
        if x == y {
            continue;
        }
        let n = name_of(k);
        let pair_of = |f: fn(&Pair) -> Pubkey| s.pairs.iter().find(|p| f(p) == *k);
        if y.lamports < x.lamports {
            let closing = tag == 3 && pair_of(|p| p.escrow).is_some();
            let paying = tag == 5 && pair_of(|p| p.auth).is_some_and(|p| p.wprog == TOKEN && ix.accounts[3].pubkey == p.umint);
            if !closing && !paying {
                bad.push(format!("{n} lost {} lamports", x.lamports - y.lamports));
            }
        }
        if x.data == y.data && x.owner == y.owner {
            continue;
        }
        if is_token_account(x) && is_token_account(y) && x.owner == y.owner {
            if !matches!(tag, 1 | 2) {
                bad.push(format!("{n}: token account changed"));
            }
            let (a0, a1) = (amount(w, k).unwrap(), amount(w2, k).unwrap());
            let escrow = pair_of(|p| p.escrow).is_some();
            let by_auth = signed.contains(&acct_owner(x)) || acct_delegate(x).is_some_and(|(d, n)| signed.contains(&d) && n >= a0.saturating_sub(a1));
            if a1 < a0 && !by_auth && !(escrow && tag == 2) {
                bad.push(format!("{n} lost {} tokens without its authority", a0 - a1));
            }
            let same = |r: std::ops::Range<usize>| x.data.get(r.clone()) == y.data.get(r);
            if !same(0..64) || !same(108..121) || !same(129..165) {
                bad.push(format!("{n}: fields changed"));
            }
            continue;
        }
        if is_mint(x) && is_mint(y) && x.owner == y.owner {
            let p = pair_of(|p| p.wmint);
            let Some(p) = p else {
                bad.push(format!("{n}: a mint that is no wrapped mint changed"));
                continue;
            };
            match tag {
                1 | 2 => {
                    let mut z = x.data.clone();
                    z[36..44].copy_from_slice(&y.data[36..44]);
                    if z != y.data {
                        bad.push(format!("{n}: more than the supply changed"));
                    }
                }
                4 => {
                    if p.wprog != T22 || x.data[..82] != y.data[..82] || ix.accounts[2].pubkey != p.umint {
                        bad.push(format!("{n} changed by a sync of {}", name_of(&ix.accounts[2].pubkey)));
                    }
                    let m = token_metadata(w2, k);
                    if m.as_ref().map(|m| m.name.as_str()) != s.names.get(&p.umint).copied() {
                        bad.push(format!("{n} got metadata {:?}", m.map(|m| m.name)));
                    }
                }
                _ => bad.push(format!("{n}: mint changed")),
            }
            continue;
        }
        match tag {
            0 => {
                let p = s.pairs.iter().find(|p| (p.wmint == *k || p.backptr == *k) && p.umint == ix.accounts[2].pubkey);
                let ok = p.is_some_and(|p| {
                    x.data.is_empty()
                        && x.owner == SYS
                        && s.names.contains_key(&p.umint)
                        && w2.get(&p.wmint).is_some_and(|m| is_mint(m) && m.owner == p.wprog && coption(&m.data[..36]) == Some(p.auth) && m.data[36..44] == [0; 8])
                        && w2.get(&p.backptr).is_some_and(|b| b.owner == TW && b.data == p.umint.to_bytes())
                });
                if !ok {
                    bad.push(format!("{n} was written by a creation for {}", name_of(&ix.accounts[2].pubkey)));
                }
            }
            3 if pair_of(|p| p.escrow).is_some() && w2.get(k).is_none() => {
                let p = pair_of(|p| p.escrow).unwrap();
                if !(s.kind == Kind::Stuck && p.umint == key("mint-A") && p.wprog == T22) {
                    bad.push(format!("{n} was closed"));
                }
                let got: i128 = w2.lamports(&ix.accounts[1].pubkey) as i128 - w.lamports(&ix.accounts[1].pubkey) as i128;
                if got != x.lamports as i128 {
                    bad.push(format!("{n}'s lamports did not go to the destination"));
                }
            }
            5 => {
                let p = s.pairs.iter().find(|p| mpl_of(&p.wmint) == *k && p.wprog == TOKEN && ix.accounts[3].pubkey == p.umint);
                let m = Md::decode(&y.data);
                if p.is_none() || y.owner != MPL {
                    bad.push(format!("{n} was written by a sync of {}", name_of(&ix.accounts[3].pubkey)));
                } else if m.as_ref().map(|m| unpad(&m.name)) != s.names.get(&p.unwrap().umint).copied() {
                    bad.push(format!("{n} got metadata {:?}", m.map(|m| m.name)));
                }
            }
            6 => {
                let m = s.names.keys().find(|m| canon_of(m) == *k);
                let ok = m.is_some_and(|m| {
                    *m == ix.accounts[2].pubkey && signed.contains(&coption(&w.data(m)[..36]).unwrap()) && y.owner == TW && y.data == ix.data[1..]
                });
                if !ok {
                    bad.push(format!("{n} was set by {:?} for {}", signed.iter().map(name_of).collect::<Vec<_>>(), name_of(&ix.accounts[2].pubkey)));
                }
            }
            _ => bad.push(format!("{n} changed")),
        }
    }
    bad
}

fn leaks(ix: &Instruction, calls: &[Call]) -> Vec<String> {
    let signed: BTreeSet<Pubkey> = ix.accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey).collect();
    let mut v = vec![];
    for c in calls.iter().filter(|c| c.depth > 1) {
        if [TOKEN, T22, MPL, SYS].contains(&c.program) {
            continue;
        }
        for (k, s, _) in &c.accounts {
            if *s && !signed.contains(k) {
                v.push(format!("the signature of {} reached program {}", name_of(k), name_of(&c.program)));
            }
        }
    }
    v
}

fn check(ctx: &Ctx, svm: &mut Svm, s: &Scene, name: &str, ix: &Instruction) {
    let (e, calls) = svm.exec_traced(&s.w, std::slice::from_ref(ix));
    ctx.step();
    ctx.trace();
    for l in leaks(ix, &calls) {
        ctx.violate("signer-leak", format!("{:?} {name}: {l}", s.kind), &s.w, std::slice::from_ref(ix));
    }
    if !e.ok() {
        return;
    }
    ctx.accept();
    let bad = unsafe_effects(s, &e.world, ix);
    if !bad.is_empty() {
        let at: Vec<String> = ix.accounts.iter().map(|m| name_of(&m.pubkey)).collect();
        ctx.violate(&format!("unsafe:{}", ix.data[0]), format!("{:?} {name} with {at:?}: {}", s.kind, bad.join("; ")), &s.w, std::slice::from_ref(ix));
    }
}

/// Attackers choose flags too: everything writable, and the one key that signs.
fn flags(ix: &mut Instruction, svm_prog: &dyn Fn(&Pubkey) -> bool, who: &Pubkey) {
    for m in &mut ix.accounts {
        m.is_signer = m.pubkey == *who;
        m.is_writable = !svm_prog(&m.pubkey) && m.pubkey != RENT;
    }
}

pub fn run(ctx: &Ctx, pool: &Pool) {
    let kinds = [Kind::Spl, Kind::T22Self, Kind::Stuck, Kind::T22External, Kind::T22Metaplex, Kind::T22NoPointer];
    let scenes: Vec<Scene> = pool.one(|svm| kinds.iter().map(|k| scene(svm, *k)).collect());
    let mut nbases = 0;
    for s in &scenes {
        ctx.state();
        // every base instruction, as it stands
        let ok: Vec<bool> = pool.one(|svm| {
            s.bases
                .iter()
                .map(|(n, ix, _)| {
                    let e = svm.exec(&s.w, std::slice::from_ref(ix));
                    check(ctx, svm, s, n, ix);
                    e.ok()
                })
                .collect()
        });
        ctx.put(&format!("valid_base_instructions[{:?}]", s.kind), serde_json::json!(s.bases.iter().zip(&ok).filter(|x| *x.1).map(|x| x.0 .0.clone()).collect::<Vec<_>>()));
        nbases += s.bases.len();
        // work items: (base, position i, position j >= i)
        let mut items = vec![];
        for (b, (_, ix, who)) in s.bases.iter().enumerate() {
            let n = ix.accounts.len();
            // one appended account, too
            for i in 0..=n {
                for j in i..=n {
                    if *who == victim() && i != j && !ctx.thorough {
                        continue;
                    }
                    items.push((b, i, j));
                }
            }
        }
        pool.map(&items, |svm, (b, i, j)| {
            let (name, base, who) = &s.bases[*b];
            let progs: BTreeSet<Pubkey> = s.universe.iter().filter(|k| svm.is_program(k)).copied().collect();
            let is_prog = |k: &Pubkey| progs.contains(k);
            let put = |ix: &mut Instruction, at: usize, k: &Pubkey| {
                if at < ix.accounts.len() {
                    ix.accounts[at].pubkey = *k;
                } else {
                    ix.accounts.push(AccountMeta::new(*k, false));
                }
            };
            for k in &s.universe {
                if ctx.enough() {
                    return;
                }
                if i == j {
                    let mut ix = base.clone();
                    put(&mut ix, *i, k);
                    let plain = ix.clone();
                    flags(&mut ix, &is_prog, who);
                    check(ctx, svm, s, name, &ix);
                    // with the flags of the position
                    let mut ix = plain;
                    for m in &mut ix.accounts {
                        m.is_signer &= m.pubkey == *who;
                        m.is_writable &= !is_prog(&m.pubkey) && m.pubkey != RENT;
                    }
                    check(ctx, svm, s, name, &ix);
                    continue;
                }
                for l in &s.universe {
                    let (a, b) = (interesting(k), interesting(l));
                    let (c, d) = (choice(k), choice(l));
                    if !(c && d || ctx.thorough && (a && b)) {
                        continue;
                    }
                    let mut ix = base.clone();
                    put(&mut ix, *i, k);
                    put(&mut ix, *j, l);
                    flags(&mut ix, &is_prog, who);
                    check(ctx, svm, s, name, &ix);
                }
            }
        });
        // consistent forgeries: every (mint, unwrapped program, wrapped program),
        // all addresses derived from it, then one substitution
        let mints: Vec<Pubkey> = ["mint-A", "mint-B", "mint-C", "forged-mint", "forged-wmint", "pda-mint22", "attacker-uA", "forged-sys-mint"]
            .iter()
            .map(|n| key(n))
            .chain([s.pairs[0].wmint, s.pairs[1].wmint, s.pairs[0].escrow])
            .collect();
        let programs = [TOKEN, T22, SYS, MPL, builtins::evil()];
        let mut items = vec![];
        for m in &mints {
            for up in programs {
                for wp in programs {
                    items.push(Pair::new(*m, up, wp));
                }
            }
        }
        let accts: Vec<Pubkey> = s.universe.clone();
        pool.map(&items, |svm, p| {
            if ctx.enough() {
                return;
            }
            let at = attacker();
            let progs: BTreeSet<Pubkey> = s.universe.iter().filter(|k| svm.is_program(k)).copied().collect();
            let au = Auth::single(&at);
            let mut v = vec![];
            for i in [false, true] {
                v.push(create_mint(p, i));
            }
            let light = !ctx.thorough && matches!(s.kind, Kind::T22External | Kind::T22Metaplex | Kind::T22NoPointer | Kind::Stuck);
            let uacc = [key("attacker-uA"), key("forged-account"), key("attacker-pda22"), key("attacker-wA22")];
            let wacc = [key("attacker-wA"), key("attacker-wA22"), key("forged-account"), key("attacker-pda22")];
            for x in uacc {
                for y in wacc {
                    if !light {
                        v.push(wrap(p, &x, &y, &au, &[], 1000));
                        v.push(unwrap(p, &y, &x, &au, &[], 1000));
                    }
                }
            }
            v.push(close_stuck(p, &at));
            v.push(set_canonical(&p.umint, signer(&at), &key("fork-new")));
            let nosub = v.len();
            for src in [None, Some(mpl_of(&p.umint)), Some(key("ext-A")), Some(key("ext-forged")), Some(key("ext-evil")), Some(key("forged-metaplex")), Some(mpl_of(&key("mint-X")))] {
                for own in [None, Some(builtins::meta_a()), Some(builtins::meta_b()), Some(builtins::evil()), Some(MPL), Some(T22)] {
                    if src.is_none() && own.is_some() {
                        continue;
                    }
                    v.push(sync22(p, src.as_ref(), own.as_ref()));
                    v.push(sync_spl(p, src.as_ref(), own.as_ref()));
                }
            }
            for (bi, base) in v.into_iter().enumerate() {
                // quick: metadata instructions as derived only
                let nsub = if ctx.thorough || bi < nosub { base.accounts.len() } else { 0 };
                check_tuple(ctx, svm, s, &base, &progs, &at);
                for i in 0..nsub {
                    for k in &accts {
                        // quick: only substitutes an attacker made or that hold value
                        if !(if ctx.thorough { interesting(k) } else { choice(k) }) {
                            continue;
                        }
                        let mut ix = base.clone();
                        ix.accounts[i].pubkey = *k;
                        check_tuple(ctx, svm, s, &ix, &progs, &at);
                    }
                }
            }
        });
    }
    for s in &scenes {
        mixed(ctx, pool, s);
    }
    ctx.bound("every mix of three unwrapped mints, four wrapped mints and one more under a pair's authority, their authorities, the associated accounts of each authority for each mint, and token programs, in every instruction");
    ctx.sample(serde_json::json!(scenes[1].bases.iter().map(|b| b.0.clone()).collect::<Vec<_>>()));
    ctx.sample(serde_json::json!(scenes[1].universe.iter().map(name_of).collect::<Vec<_>>()));
    ctx.bound(format!("{} ledgers, {nbases} base instructions, universe of about {} accounts and programs: every substitution in one position (both flag choices) and in every pair of positions {} (one position for instructions signed by the victim{}), one appended account included; plus all addresses derived consistently from 11 mints and look-alikes x 5 x 5 programs, with every single substitution from {} accounts",
        scenes.len(), scenes[0].universe.len(), if ctx.thorough { "(both from some 30 forgeries and valuables)" } else { "(both from 12 forgeries and valuables)" }, if ctx.thorough { " too: pairs" } else { "" }, if ctx.thorough { "30 forgeries and valuables" } else { "12 forgeries and valuables; metadata instructions unsubstituted" }));
    ctx.assume("attackers cannot create accounts at program-derived addresses of other programs");
}
/// Genuine parts of different pairs, in every combination.
fn mixed(ctx: &Ctx, pool: &Pool, s: &Scene) {
    let real = &s.pairs[..4];
    let up = real[0].uprog;
    let other = if up == T22 { TOKEN } else { T22 };
    let mints = [(key("mint-A"), "A", up), (key("mint-B"), "B", up), (key("mint-C"), "C", other)];
    let mut wmints: Vec<(Pubkey, Pubkey)> = real.iter().map(|p| (p.wmint, key(&format!("attacker-w{}{}", if p.umint == mints[0].0 { "A" } else { "B" }, if p.wprog == T22 { "22" } else { "" })))).collect();
    wmints.push((key("pda-mint22"), key("attacker-pda22")));
    let mut items = vec![];
    for m in &mints {
        for w in &wmints {
            for p in real {
                items.push((*m, *w, *p));
            }
        }
    }
    let sync_only = !matches!(s.kind, Kind::Spl | Kind::T22Self | Kind::Stuck);
    pool.map(&items, |svm, ((m, mn, mprog), (wm, wacct), p)| {
        if ctx.enough() {
            return;
        }
        let at = attacker();
        let progs: BTreeSet<Pubkey> = s.universe.iter().filter(|k| svm.is_program(k)).copied().collect();
        let au = Auth::single(&at);
        for wprog in [TOKEN, T22] {
            for uprog in [TOKEN, T22] {
                let mut v = vec![];
                let q = Pair { umint: *m, uprog, wprog, wmint: *wm, auth: p.auth, backptr: p.backptr, escrow: p.escrow };
                if !sync_only {
                    for o in real {
                        for (em, _, eprog) in &mints {
                            let q = Pair { escrow: ata_of(&o.auth, em, eprog), ..q };
                            let u = key(&format!("attacker-u{mn}"));
                            v.push(wrap(&q, &u, wacct, &au, &[], 1000));
                            v.push(unwrap(&q, wacct, &u, &au, &[], 1000));
                            v.push(close_stuck(&q, &at));
                        }
                        for idem in [false, true] {
                            v.push(create_mint(&Pair { backptr: o.backptr, ..q }, idem));
                        }
                    }
                }
                if uprog == *mprog {
                    for (src, own) in mints.iter().map(|x| (Some(mpl_of(&x.0)), None)).chain([(None, None), (Some(*m), None), (Some(key("ext-A")), Some(builtins::meta_a())), (Some(key("ext-B")), Some(builtins::meta_a()))]) {
                        v.push(sync22(&q, src.as_ref(), own.as_ref()));
                        for r in real {
                            let mut ix = sync_spl(&q, src.as_ref(), own.as_ref());
                            ix.accounts[0].pubkey = mpl_of(&r.wmint);
                            v.push(ix);
                        }
                    }
                }
                for ix in v {
                    check_tuple(ctx, svm, s, &ix, &progs, &at);
                }
            }
        }
    });
}
fn check_tuple(ctx: &Ctx, svm: &mut Svm, s: &Scene, ix: &Instruction, progs: &BTreeSet<Pubkey>, at: &Pubkey) {
    let mut ix = ix.clone();
    flags(&mut ix, &|k| progs.contains(k), at);
    check(ctx, svm, s, "derived", &ix);
}
fn interesting(k: &Pubkey) -> bool {
    let n = name_of(k);
    ["forged-", "second-escrow", "evil", "ext-", "victim-uA", "victim-wA", "escrow(mint-A", "auth(mint-A", "wmint(mint-A", "backptr(mint-A", "mint-A", "pda-mint", "metaplex-X", "attacker-u"].iter().any(|p| n.starts_with(p))
}
fn choice(k: &Pubkey) -> bool {
    let n = name_of(k);
    ["forged-account", "forged-mint", "forged-wmint", "second-escrow", "evil-program", "ext-forged", "metaplex-X", "victim-uA", "victim-wA", "mint-B", "pda-mint22", "escrow(mint-A/TokenzQ", "auth(mint-A/Tokenz", "wmint(mint-A/Tokenz"].iter().any(|p| n == *p || p.contains('(') && n.starts_with(p))
}
