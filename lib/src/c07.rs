//! Addresses: the published derivations against the documented ones, and both
//! against what two deployments of the program accept and create.
use crate::FORK;
use serde_json::json;
use solana_account::Account;
use solana_instruction::{AccountMeta, Instruction};
use solana_pubkey::Pubkey;
use spl_token_wrap as lib;
use std::collections::{BTreeMap, BTreeSet};
use twmc::{bfs::*, core::*, report::Ctx, tok::*};

// ---- the documented derivations ---------------------------------------------------
fn pda(seeds: &[&[u8]], p: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(seeds, p).0
}
fn d_wmint(u: &Pubkey, wp: &Pubkey, dep: &Pubkey) -> Pubkey {
    pda(&[b"mint", u.as_ref(), wp.as_ref()], dep)
}
fn d_auth(w: &Pubkey, dep: &Pubkey) -> Pubkey {
    pda(&[b"authority", w.as_ref()], dep)
}
fn d_back(w: &Pubkey, dep: &Pubkey) -> Pubkey {
    pda(&[b"backpointer", w.as_ref()], dep)
}
fn d_canon(u: &Pubkey, dep: &Pubkey) -> Pubkey {
    pda(&[b"canonical_pointer", u.as_ref()], dep)
}
fn d_escrow(u: &Pubkey, up: &Pubkey, wp: &Pubkey, dep: &Pubkey) -> Pubkey {
    ata_of(&d_auth(&d_wmint(u, wp, dep), dep), u, up)
}

struct Seen(BTreeMap<Pubkey, String>);
impl Seen {
    /// One derived address: equal to the documented one, and nobody else's.
    fn check(&mut self, ctx: &Ctx, what: String, got: Pubkey, want: Option<Pubkey>) {
        ctx.step();
        if want.is_some_and(|w| w != got) {
            ctx.violate_json("derivation", format!("{what}: the library says {got}, the documented derivation {}", want.unwrap()), json!({"inputs": what, "got": got.to_string()}));
        }
        match self.0.get(&got) {
            Some(o) if *o != what => {
                ctx.violate_json("collision", format!("{what} and {o} are both {got}"), json!({"a": what, "b": o, "address": got.to_string()}));
            }
            Some(_) => {}
            None => {
                self.0.insert(got, what);
            }
        }
    }
}

fn all_for(ctx: &Ctx, seen: &mut Seen, u: &Pubkey, dep: &Pubkey, progs: &[Pubkey]) {
    ctx.state();
    let n = |k: &Pubkey| k.to_string();
    for wp in progs {
        let w = lib::get_wrapped_mint_address_for_program(u, wp, dep);
        seen.check(ctx, format!("wrapped mint of {} under {} in {}", n(u), n(wp), n(dep)), w, Some(d_wmint(u, wp, dep)));
        let a = lib::get_wrapped_mint_authority_for_program(&w, dep);
        seen.check(ctx, format!("authority of {} in {}", n(&w), n(dep)), a, Some(d_auth(&w, dep)));
        let b = lib::get_wrapped_mint_backpointer_address_for_program(&w, dep);
        seen.check(ctx, format!("backpointer of {} in {}", n(&w), n(dep)), b, Some(d_back(&w, dep)));
        for up in progs {
            let e = lib::get_escrow_address_for_program(u, up, wp, dep);
            seen.check(ctx, format!("escrow of {} ({}) under {} in {}", n(u), n(up), n(wp), n(dep)), e, Some(d_escrow(u, up, wp, dep)));
        }
        if *dep == TW {
            for (what, x, y) in [
                ("get_wrapped_mint_address", lib::get_wrapped_mint_address(u, wp), w),
                ("get_wrapped_mint_authority", lib::get_wrapped_mint_authority(&w), a),
                ("get_wrapped_mint_backpointer_address", lib::get_wrapped_mint_backpointer_address(&w), b),
                ("get_escrow_address", lib::get_escrow_address(u, &progs[0], wp), d_escrow(u, &progs[0], wp, dep)),
                ("get_escrow_address", lib::get_escrow_address(u, &progs[1], wp), d_escrow(u, &progs[1], wp, dep)),
            ] {
                ctx.step();
                if x != y {
                    ctx.violate_json("default-deployment", format!("{what}({}, {}) is {x} instead of {y}", n(u), n(wp)), json!({"unwrapped_mint": n(u), "wrapped_program": n(wp)}));
                }
            }
        }
    }
    let c = lib::get_canonical_pointer_address_for_program(u, dep);
    seen.check(ctx, format!("canonical pointer of {} in {}", n(u), n(dep)), c, Some(d_canon(u, dep)));
    if *dep == TW && lib::get_canonical_pointer_address(u) != c {
        ctx.violate_json("default-deployment", format!("get_canonical_pointer_address({}) differs", n(u)), json!({"unwrapped_mint": n(u)}));
    }
}

/// Every way to change one byte of a key.
fn neighbours(k: &Pubkey, all: bool) -> Vec<Pubkey> {
    let mut v = vec![];
    for i in 0..32 {
        for x in 1..=255u8 {
            if !all && x.count_ones() != 1 && x != 255 {
                continue;
            }
            let mut b = k.to_bytes();
            b[i] ^= x;
            v.push(Pubkey::new_from_array(b));
        }
    }
    v
}

fn native(ctx: &Ctx) {
    let evil = key("some-other-token-program");
    let deps = [TW, FORK, key("deployment-3"), SYS, Pubkey::new_from_array([0xff; 32])];
    let mut mints: Vec<Pubkey> = (0..if ctx.thorough { 400 } else { 40 }).map(|i| key(&format!("m{i}"))).collect();
    mints.extend([SYS, Pubkey::new_from_array([0xff; 32]), TOKEN, T22, TW, FORK, spl_token_native(), key("x")]);
    for d in [TW, FORK] {
        for wp in [TOKEN, T22] {
            let w = d_wmint(&mints[0], &wp, &d);
            // wrapped mints, and every other derived address, used as mints
            mints.extend([w, d_auth(&w, &d), d_back(&w, &d), d_canon(&mints[0], &d), d_escrow(&mints[0], &TOKEN, &wp, &d), d_wmint(&w, &T22, &TW)]);
        }
    }
    mints.sort();
    mints.dedup();
    let mut seen = Seen(BTreeMap::new());
    for d in &deps {
        for m in &mints {
            all_for(ctx, &mut seen, m, d, &[TOKEN, T22, evil]);
        }
    }
    // all one-byte changes of each input
    let all = ctx.thorough;
    for m in neighbours(&key("m0"), all) {
        all_for(ctx, &mut seen, &m, &TW, &[TOKEN, T22]);
    }
    for d in neighbours(&FORK, all) {
        all_for(ctx, &mut seen, &key("m0"), &d, &[TOKEN, T22]);
    }
    for p in neighbours(&T22, all) {
        all_for(ctx, &mut seen, &key("m0"), &FORK, &[p, TOKEN]);
    }
    ctx.put("distinct_addresses", seen.0.len());
    ctx.sample(json!({"addresses": seen.0.iter().take(3).map(|(k, v)| format!("{v} = {k}")).collect::<Vec<_>>()}));
    ctx.bound(format!("derivations: {} deployments x {} mints x 3 token programs, and every {} of one byte of a mint, deployment and program", deps.len(), mints.len(), if all { "value" } else { "single-bit or full flip" }));
}
fn spl_token_native() -> Pubkey {
    Pubkey::from_str_const("So11111111111111111111111111111111111111112")
}

// ---- on chain -------------------------------------------------------------------------
fn rw(k: &Pubkey) -> AccountMeta {
    AccountMeta::new(*k, false)
}
fn ro(k: &Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(*k, false)
}
fn i_create(dep: &Pubkey, w: &Pubkey, b: &Pubkey, u: &Pubkey, wp: &Pubkey) -> Instruction {
    Instruction { program_id: *dep, accounts: vec![rw(w), rw(b), ro(u), ro(&SYS), ro(wp)], data: vec![0, 0] }
}
fn i_pointer(dep: &Pubkey, auth: &Pubkey, c: &Pubkey, u: &Pubkey, p: &Pubkey) -> Instruction {
    Instruction { program_id: *dep, accounts: vec![AccountMeta::new_readonly(*auth, true), rw(c), ro(u), ro(&SYS)], data: [&[6], p.as_ref()].concat() }
}
fn i_wrap(dep: &Pubkey, d: &D, src: &Pubkey, dst: &Pubkey, who: &Pubkey, n: u64) -> Instruction {
    let a = vec![rw(dst), rw(&d.w), ro(&d.a), ro(&d.up), ro(&d.wp), rw(src), ro(&d.u), rw(&d.e), AccountMeta::new_readonly(*who, true)];
    Instruction { program_id: *dep, accounts: a, data: [&[1][..], &n.to_le_bytes()].concat() }
}
fn i_unwrap(dep: &Pubkey, d: &D, src: &Pubkey, dst: &Pubkey, who: &Pubkey, n: u64) -> Instruction {
    let a = vec![rw(&d.e), rw(dst), ro(&d.a), ro(&d.u), ro(&d.wp), ro(&d.up), rw(src), rw(&d.w), AccountMeta::new_readonly(*who, true)];
    Instruction { program_id: *dep, accounts: a, data: [&[2][..], &n.to_le_bytes()].concat() }
}
/// What the library publishes for one asset.
#[derive(Clone)]
struct D {
    u: Pubkey,
    up: Pubkey,
    wp: Pubkey,
    w: Pubkey,
    a: Pubkey,
    b: Pubkey,
    e: Pubkey,
    c: Pubkey,
}
fn published(u: &Pubkey, up: &Pubkey, wp: &Pubkey, dep: &Pubkey) -> D {
    let w = lib::get_wrapped_mint_address_for_program(u, wp, dep);
    D {
        u: *u,
        up: *up,
        wp: *wp,
        w,
        a: lib::get_wrapped_mint_authority_for_program(&w, dep),
        b: lib::get_wrapped_mint_backpointer_address_for_program(&w, dep),
        e: lib::get_escrow_address_for_program(u, up, wp, dep),
        c: lib::get_canonical_pointer_address_for_program(u, dep),
    }
}
/// From a wrapped mint alone: its backpointer, through it the unwrapped mint,
/// and from that the wrapped mint again.
fn link_faults(w: &World, wm: &Pubkey, u: &Pubkey, dep: &Pubkey) -> Option<String> {
    let b = lib::get_wrapped_mint_backpointer_address_for_program(wm, dep);
    let Some(a) = w.get(&b) else { return Some(format!("no backpointer at {b}")) };
    if a.owner != *dep {
        return Some(format!("the backpointer belongs to {}", name_of(&a.owner)));
    }
    if a.data.len() != 32 {
        return Some(format!("the backpointer has {} bytes", a.data.len()));
    }
    if a.data != u.to_bytes() {
        return Some(format!("the backpointer names {}", hex(&a.data)));
    }
    let wp = w.get(wm)?.owner;
    let named = Pubkey::new_from_array(a.data.clone().try_into().unwrap());
    let back = lib::get_wrapped_mint_address_for_program(&named, &wp, dep);
    (back != *wm).then(|| format!("its unwrapped mint wraps to {back}"))
}
fn system(svm: &Svm, w: &mut World, k: &Pubkey, len: usize) {
    w.set(*k, Account { lamports: svm.rent(len), ..Default::default() });
}

struct Asset {
    u: Pubkey,
    up: Pubkey,
    wp: Pubkey,
    dep: Pubkey,
    deep: bool,
}

fn chain_case(ctx: &Ctx, svm: &mut Svm, c: &Asset) {
    ctx.state();
    let other = if c.dep == TW { FORK } else { TW };
    let mut w = World::default();
    let mut spec = MintSpec::new(c.u, c.up);
    spec.freeze = None;
    if make_mint(svm, &mut w, &spec).is_err() {
        return;
    }
    let owp = if c.wp == TOKEN { T22 } else { TOKEN };
    let (d, o) = (published(&c.u, &c.up, &c.wp, &c.dep), published(&c.u, &c.up, &c.wp, &other));
    let (x, nb) = (published(&c.u, &c.up, &owp, &c.dep), published(&key("another"), &c.up, &c.wp, &c.dep));
    for k in [&d.w, &d.b, &d.c, &o.w, &o.b, &o.c, &x.w, &x.b, &nb.w, &nb.b, &nb.c, &d.a] {
        system(svm, &mut w, k, 400);
    }
    let sig = |s: &str| format!("{s}-{}", if c.dep == TW { "main" } else { "fork" });
    // created where, and only where, the library says
    let mut wrong_w = vec![o.w, x.w, nb.w, d.b, d.a, d.c, c.u];
    let mut wrong_b = vec![o.b, x.b, nb.b, d.w, d.a, d.c, d_back(&d.w, &other), d_back(&c.u, &c.dep), d_back(&x.w, &c.dep)];
    if c.deep {
        // every other bump that gives an address
        for bump in 0..=255u8 {
            if let Ok(k) = Pubkey::create_program_address(&[b"mint", c.u.as_ref(), c.wp.as_ref(), &[bump]], &c.dep) {
                wrong_w.push(k);
            }
            if let Ok(k) = Pubkey::create_program_address(&[b"backpointer", d.w.as_ref(), &[bump]], &c.dep) {
                wrong_b.push(k);
            }
        }
    }
    let tries: Vec<_> = wrong_w.iter().map(|k| (*k, d.b)).chain(wrong_w.iter().map(|k| (*k, d_back(k, &c.dep)))).chain(wrong_b.iter().map(|k| (d.w, *k))).filter(|t| *t != (d.w, d.b)).collect();
    for (a, b) in tries {
        ctx.step();
        let mut w2 = w.clone();
        for k in [&a, &b] {
            if w2.get(k).is_none() {
                system(svm, &mut w2, k, 400);
            }
        }
        let ix = i_create(&c.dep, &a, &b, &c.u, &c.wp);
        let e = svm.exec(&w2, &[ix.clone()]);
        if e.ok() {
            ctx.violate(&sig("create-elsewhere"), format!("a mint is created at {} with backpointer {}", name_of(&a), name_of(&b)), &w2, &[ix]);
        }
    }
    // the other deployment's code refuses this deployment's addresses
    for ix in [i_create(&other, &d.w, &d.b, &c.u, &c.wp), i_create(&other, &o.w, &d.b, &c.u, &c.wp)] {
        ctx.step();
        if svm.exec(&w, &[ix.clone()]).ok() {
            ctx.violate("create-in-other-deployment", "one deployment creates at another's addresses", &w, &[ix]);
        }
    }
    ctx.step();
    let ix = i_create(&c.dep, &d.w, &d.b, &c.u, &c.wp);
    let e = svm.exec(&w, &[ix.clone()]);
    ctx.trace();
    if let Err(err) = &e.res {
        ctx.violate(&sig("create-refused"), format!("creation at the published addresses is refused: {err}"), &w, &[ix]);
        return;
    }
    ctx.accept();
    let w0 = w.clone();
    w = e.world;
    if let Some(f) = link_faults(&w, &d.w, &c.u, &c.dep) {
        ctx.violate(&sig("link"), f, &w0, &[ix]);
        return;
    }
    // the authority the chain gave it
    let auth = coption(&w.data(&d.w)[0..36]);
    if auth != Some(d.a) {
        ctx.violate(&sig("authority"), format!("the wrapped mint's authority is {auth:?}, published {}", d.a), &w0, &[ix]);
    }
    // pointer
    for k in [o.c, nb.c, x.b, d.b, d.a] {
        ctx.step();
        let ix = i_pointer(&c.dep, &mint_auth(), &k, &c.u, &FORK);
        if svm.exec(&w, &[ix.clone()]).ok() {
            ctx.violate(&sig("pointer-elsewhere"), format!("a canonical pointer is written to {}", name_of(&k)), &w, &[ix]);
        }
    }
    ctx.step();
    let ix = i_pointer(&c.dep, &mint_auth(), &d.c, &c.u, &FORK);
    let e = svm.exec(&w, &[ix.clone()]);
    ctx.trace();
    if !e.ok() || e.world.data(&d.c) != FORK.as_ref() {
        ctx.violate(&sig("pointer-refused"), format!("the published canonical pointer cannot be set: {:?}", e.res), &w, &[ix.clone()]);
    } else {
        ctx.accept();
        let w1 = w.clone();
        w = e.world;
        if let Some(f) = link_faults(&w, &d.w, &c.u, &c.dep) {
            ctx.violate(&sig("link-after-pointer"), f, &w1, &[ix]);
        }
    }
    // escrow: wrap and unwrap through the published one only
    for (owner, k) in [(d.a, &d), (o.a, &o), (x.a, &x)] {
        make_ata(svm, &mut w, &owner, &c.u, &c.up).unwrap();
        debug_assert_eq!(ata_of(&owner, &c.u, &c.up), k.e);
    }
    let user = key("user");
    let (src, dst) = (key("src"), key("dst"));
    make_account(svm, &mut w, &AcctSpec::new(src, c.u, user, 100)).unwrap();
    make_account(svm, &mut w, &AcctSpec::new(dst, d.w, user, 0)).unwrap();
    for k in [o.e, x.e] {
        ctx.step();
        let ix = i_wrap(&c.dep, &D { e: k, ..d.clone() }, &src, &dst, &user, 7);
        if svm.exec(&w, &[ix.clone()]).ok() {
            ctx.violate(&sig("wrap-elsewhere"), format!("wrapped into {}", name_of(&k)), &w, &[ix]);
        }
    }
    for n in [(true, 7u64), (false, 3)] {
        ctx.step();
        let ix = if n.0 { i_wrap(&c.dep, &d, &src, &dst, &user, n.1) } else { i_unwrap(&c.dep, &d, &dst, &src, &user, n.1) };
        let e = svm.exec(&w, &[ix.clone()]);
        ctx.trace();
        if !e.ok() {
            ctx.violate(&sig("move-refused"), format!("the published addresses are refused: {:?}", e.res), &w, &[ix]);
            return;
        }
        ctx.accept();
        w = e.world;
    }
    if amount(&w, &d.e) != Some(4) || amount(&w, &dst) != Some(4) {
        ctx.violate_json(&sig("escrow"), "the published escrow did not receive the tokens", json!({"umint": c.u.to_string()}));
    }
}

// ---- histories over two deployments ------------------------------------------------------
struct Cand {
    dep: usize,
    u: Pubkey,
    up: Pubkey,
    wp: Pubkey,
    w: Pubkey,
}
fn histories(ctx: &Ctx, pool: &Pool) {
    let deps = [TW, FORK];
    let u = [(key("h1"), T22), (key("h2"), TOKEN)];
    let mut cands: Vec<Cand> = vec![];
    let mut layer: Vec<(Pubkey, Pubkey)> = u.to_vec();
    for l in 0..2 {
        let mut next = vec![];
        for (m, mp) in &layer {
            for (di, d) in deps.iter().enumerate() {
                for wp in [TOKEN, T22] {
                    let w = d_wmint(m, &wp, d);
                    name_it(w, &format!("w{l}({},{},{})", name_of(m), di, if wp == T22 { "T22" } else { "SPL" }));
                    cands.push(Cand { dep: di, u: *m, up: *mp, wp, w });
                    next.push((w, wp));
                }
            }
        }
        // wrapped mints of the first mint are wrapped again
        layer = next.into_iter().take(4).collect();
    }
    let init = pool.one(|svm| {
        let mut w = World::default();
        for (m, p) in &u {
            make_mint(svm, &mut w, &MintSpec::new(*m, *p)).unwrap();
        }
        for c in &cands {
            let d = published(&c.u, &c.up, &c.wp, &deps[c.dep]);
            system(svm, &mut w, &d.w, 400);
            system(svm, &mut w, &d.b, 400);
            for dd in &deps {
                system(svm, &mut w, &d_canon(&c.u, dd), 400);
            }
        }
        w
    });
    let targets = [TW, FORK, key("h1")];
    let depth = if ctx.thorough { 5 } else { 3 };
    // ghost: bit i = candidate i was created; then 3 bits per pointer
    let ghost_ptr = |g: u64, i: usize| (g >> (40 + 2 * i)) & 3;
    let cands = &cands;
    let ok = explore(ctx, pool, "two deployments", vec![Node::root(init)], depth, 3_000_000, |svm, n| {
        let mut out = vec![];
        // invariants
        for (i, c) in cands.iter().enumerate() {
            let made = n.ghost >> i & 1 == 1;
            let is_mint = n.w.get(&c.w).is_some_and(|a| a.owner == c.wp && a.data.len() >= 82);
            if made != is_mint {
                ctx.violate_json("exists", format!("{} {}", name_of(&c.w), if is_mint { "exists without having been created" } else { "is gone" }), json!({"history": n.history()}));
            }
            if made {
                if let Some(f) = link_faults(&n.w, &c.w, &c.u, &deps[c.dep]) {
                    ctx.violate_json("history-link", format!("{}: {f}", name_of(&c.w)), json!({"history": n.history()}));
                }
            }
        }
        for (i, (di, (m, _))) in (0..2).flat_map(|d| u.iter().map(move |m| (d, m))).enumerate() {
            let c = lib::get_canonical_pointer_address_for_program(m, &deps[di]);
            let want: Vec<u8> = match ghost_ptr(n.ghost, i) {
                0 => vec![],
                t => targets[t as usize - 1].to_bytes().to_vec(),
            };
            if n.w.data(&c) != want {
                ctx.violate_json("history-pointer", format!("canonical pointer {i} holds {}", hex(n.w.data(&c))), json!({"history": n.history()}));
            }
        }
        if n.depth == depth {
            return out;
        }
        for (i, c) in cands.iter().enumerate() {
            let dep = &deps[c.dep];
            let d = published(&c.u, &c.up, &c.wp, dep);
            ctx.step();
            let ix = i_create(dep, &d.w, &d.b, &c.u, &c.wp);
            let e = svm.exec(&n.w, &[ix.clone()]);
            ctx.trace();
            let made = n.ghost >> i & 1 == 1;
            let src_there = n.w.get(&c.u).is_some_and(|a| a.owner == c.up);
            if e.ok() != (!made && src_there) {
                ctx.violate("history-create", format!("creating {}: {:?}, expected {}", name_of(&c.w), e.res, !made && src_there), &n.w, &[ix]);
            } else if e.ok() {
                ctx.accept();
                out.push(n.next(format!("create {}", name_of(&c.w)), e.world, n.ghost | 1 << i));
            }
        }
        for (i, (di, (m, _))) in (0..2).flat_map(|d| u.iter().map(move |m| (d, m))).enumerate() {
            for (t, target) in targets.iter().enumerate() {
                ctx.step();
                let c = lib::get_canonical_pointer_address_for_program(m, &deps[di]);
                let ix = i_pointer(&deps[di], &mint_auth(), &c, m, target);
                let e = svm.exec(&n.w, &[ix.clone()]);
                ctx.trace();
                if !e.ok() {
                    ctx.violate("history-pointer-refused", format!("{:?}", e.res), &n.w, &[ix]);
                    continue;
                }
                ctx.accept();
                let g = n.ghost & !(3 << (40 + 2 * i)) | (t as u64 + 1) << (40 + 2 * i);
                out.push(n.next(format!("point {i} to {t}"), e.world, g));
            }
        }
        out
    });
    ctx.bound(format!("histories: {} wrapped mints over two deployments and two layers, 4 pointers x 3 targets, every history of at most {depth} steps{}", cands.len(), if ok { "" } else { " (cut)" }));
}

pub fn run(ctx: &Ctx, pool: &Pool) {
    native(ctx);
    let n = if ctx.thorough { 600 } else { 40 };
    let mut cs = vec![];
    let inner = d_wmint(&key("inner"), &T22, &TW);
    for dep in [TW, FORK] {
        for (up, wp) in [(TOKEN, TOKEN), (TOKEN, T22), (T22, TOKEN), (T22, T22)] {
            for i in 0..n {
                cs.push(Asset { u: key(&format!("c{i}")), up, wp, dep, deep: ctx.thorough || i < 6 });
            }
            for u in [inner, d_wmint(&key("inner"), &TOKEN, &FORK), Pubkey::new_from_array([0xff; 32]), Pubkey::new_from_array([1; 32])] {
                cs.push(Asset { u, up, wp, dep, deep: true });
            }
        }
    }
    let bumps: BTreeSet<u8> = cs.iter().map(|c| Pubkey::find_program_address(&[b"mint", c.u.as_ref(), c.wp.as_ref()], &c.dep).1).collect();
    ctx.put("distinct_mint_bumps", bumps.len());
    pool.map(&cs, |svm, c| if !ctx.enough() { chain_case(ctx, svm, c) });
    ctx.bound(format!("on chain: {} assets over 2 deployments x 4 directions, each created, pointed to, wrapped and unwrapped at the published addresses and refused at every other (other deployment, program, mint, kind, bump)", cs.len()));
    histories(ctx, pool);
    ctx.assume("the second deployment is this tree's program with only the declared id changed");
    ctx.assume("collision freedom is decided over the enumerated inputs; beyond them it rests on SHA-256");
}
