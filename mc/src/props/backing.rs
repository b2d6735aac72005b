//! C01 (backing) and C04 (redemption): every history of instructions and token
//! operations up to a depth.
use crate::{bfs::*, core::*, report::Ctx, tok::*, tw::*};
use solana_instruction::Instruction;
use solana_pubkey::Pubkey;
use spl_token_2022_interface::{extension, instruction as ti};

/// Who acts.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum By {
    /// holders, attackers, anyone
    User,
    /// authority of the unwrapped mint: may block (freeze, pause)
    Blocks,
    /// authority of the unwrapped mint: may take tokens out of the escrow
    Drains,
    /// authority of the unwrapped mint, harmless
    Issuer,
}

pub struct Act {
    pub label: String,
    pub by: By,
    pub tw: Option<usize>,
    pub ixs: Vec<Instruction>,
    pub epoch: u64,
}

pub struct Scene {
    pub name: String,
    pub u: MintSpec,
    pub pairs: Vec<Pair>,
    pub start: World,
    pub users: Vec<Pubkey>,
}

pub fn ua(u: &Pubkey) -> Pubkey {
    key(&format!("{}-u", name_of(u)))
}
pub fn wa(u: &Pubkey, i: usize) -> Pubkey {
    key(&format!("{}-w{i}", name_of(u)))
}

pub fn scenes(svm: &mut Svm, thorough: bool) -> Vec<Scene> {
    let mk = |e: &[Ext]| e.to_vec();
    let mut specs: Vec<(&str, Pubkey, Vec<Ext>)> = vec![
        ("spl-token", TOKEN, vec![]),
        ("t22-fee25%", T22, mk(&[Ext::fee(2500, 1000)])),
        ("t22-fee-change+permanent-delegate", T22, mk(&[Ext::Fee { older: (1000, 2), newer: (5000, 3), newer_epoch: 1 }, Ext::PermDelegate])),
        ("t22-pausable+close", T22, mk(&[Ext::Pausable { paused: false }, Ext::Close])),
    ];
    if thorough {
        specs.push(("t22-plain", T22, vec![]));
        specs.push(("t22-fee100%", T22, mk(&[Ext::fee(10_000, u64::MAX)])));
        specs.push(("t22-permanent-delegate+hook", T22, mk(&[Ext::PermDelegate, Ext::Hook(None)])));
        specs.push(("t22-interest+scaled", T22, mk(&[Ext::Interest])));
        specs.push(("t22-default-state", T22, mk(&[Ext::Default { frozen: false }, Ext::ScaledUi])));
        specs.push(("t22-confidential+metadata-pointer", T22, mk(&[Ext::Confidential, Ext::MetaPtr(None)])));
    }
    specs
        .into_iter()
        .map(|(name, prog, exts)| {
            let mut w = World { epoch: 0, ..Default::default() };
            let u = MintSpec::new(key("umint"), prog).exts(&exts);
            make_mint(svm, &mut w, &u).unwrap();
            let pairs = vec![Pair::new(u.key, prog, TOKEN), Pair::new(u.key, prog, T22)];
            let users = vec![key("alice"), key("mallory")];
            for (i, p) in pairs.iter().enumerate() {
                make_wrapped(svm, &mut w, p, 0);
                make_escrow(svm, &mut w, p).unwrap();
                for x in &users {
                    make_account(svm, &mut w, &AcctSpec::new(wa(x, i), p.wmint, *x, 0)).unwrap();
                }
            }
            for (x, n) in users.iter().zip([7, 3]) {
                make_account(svm, &mut w, &AcctSpec::new(ua(x), u.key, *x, n)).unwrap();
            }
            fix_supply(&mut w, &u.key);
            w.fund(key("payer"), 1_000_000_000);
            Scene { name: name.into(), u, pairs, start: w, users }
        })
        .collect()
}

impl Scene {
    /// Every action enabled to be tried in a state.
    pub fn actions(&self, w: &World) -> Vec<Act> {
        let mut v = vec![];
        let mut add = |label: String, by, tw, ixs| v.push(Act { label, by, tw, ixs, epoch: w.epoch });
        let bal = |k: &Pubkey| amount(w, k).unwrap_or(0);
        let amts = |b: u64| {
            let mut a = vec![1, 2, 3, b / 2, b];
            a.retain(|x| *x > 0 && *x <= b);
            a.sort();
            a.dedup();
            if a.is_empty() {
                a.push(1);
            }
            a
        };
        let n = |k: &Pubkey| name_of(k);
        let (up, um, d) = (self.u.prog, self.u.key, self.u.decimals);
        for (i, p) in self.pairs.iter().enumerate() {
            for (xi, x) in self.users.iter().enumerate() {
                let y = &self.users[1 - xi];
                for a in amts(bal(&ua(x))) {
                    add(format!("{} wraps {a} into {}", n(x), n(&wa(x, i))), By::User, Some(i), vec![wrap(p, &ua(x), &wa(x, i), &Auth::single(x), &[], a)]);
                }
                for a in amts(bal(&wa(x, i))) {
                    add(format!("{} unwraps {a} from {}", n(x), n(&wa(x, i))), By::User, Some(i), vec![unwrap(p, &wa(x, i), &ua(x), &Auth::single(x), &[], a)]);
                }
                // to the other user, to the pair's or the other pair's escrow, past the balance
                let over = bal(&wa(x, i)) + 1;
                add(format!("{} unwraps {over} (too much)", n(x)), By::User, Some(i), vec![unwrap(p, &wa(x, i), &ua(x), &Auth::single(x), &[], over)]);
                add(format!("{} unwraps 1 to {}", n(x), n(&ua(y))), By::User, Some(i), vec![unwrap(p, &wa(x, i), &ua(y), &Auth::single(x), &[], 1)]);
                add(format!("{} unwraps 1 to the other pair's escrow", n(x)), By::User, Some(i), vec![unwrap(p, &wa(x, i), &self.pairs[1 - i].escrow, &Auth::single(x), &[], 1)]);
                add(format!("{} unwraps 2 to the escrow itself", n(x)), By::User, Some(i), vec![unwrap(p, &wa(x, i), &p.escrow, &Auth::single(x), &[], 2)]);
                // with the other pair's wrapped tokens or escrow
                let mut q = *p;
                q.escrow = self.pairs[1 - i].escrow;
                add(format!("{} wraps 1 into the other pair's escrow", n(x)), By::User, Some(i), vec![wrap(&q, &ua(x), &wa(x, i), &Auth::single(x), &[], 1)]);
                add(format!("{} unwraps 1 from the other pair's escrow", n(x)), By::User, Some(i), vec![unwrap(&q, &wa(x, i), &ua(x), &Auth::single(x), &[], 1)]);
                add(format!("{} transfers 1 {} to the other", n(x), n(&wa(x, i))), By::User, None, vec![transfer_checked(&p.wprog, &wa(x, i), &p.wmint, &wa(y, i), signer(x), &[], 1, d)]);
                add(format!("{} donates 1 to escrow {i}", n(x)), By::User, None, vec![transfer_checked(&up, &ua(x), &um, &p.escrow, signer(x), &[], 1, d)]);
                if xi == 0 {
                    add(format!("{} burns 1 wrapped {i}", n(x)), By::User, None, vec![burn(&p.wprog, &wa(x, i), &p.wmint, signer(x), &[], 1)]);
                }
            }
            let (a, m) = (&self.users[0], &self.users[1]);
            add(format!("alice lets mallory spend 2 wrapped {i}"), By::User, None, vec![ti::approve(&p.wprog, &wa(a, i), m, a, &[], 2).unwrap()]);
            add(format!("mallory unwraps 2 of alice's {i} to herself"), By::User, Some(i), vec![unwrap(p, &wa(a, i), &ua(m), &Auth::single(m), &[], 2)]);
            add(format!("mallory wraps 1 of alice's into hers {i}"), By::User, Some(i), vec![wrap(p, &ua(a), &wa(m, i), &Auth::single(m), &[], 1)]);
            add(format!("create mint {i} again, idempotent"), By::User, Some(i), vec![create_mint(p, true)]);
            add(format!("close escrow {i} as stuck"), By::User, Some(i), vec![close_stuck(p, m)]);
            if self.has_perm() {
                let pd = perm_delegate();
                add(format!("permanent delegate wraps 2 from escrow {i} itself"), By::Drains, Some(i), vec![wrap(p, &p.escrow, &wa(m, i), &Auth::single(&pd), &[], 2)]);
                add(format!("permanent delegate wraps 1 from the other escrow into {i}"), By::Drains, Some(i), vec![wrap(p, &self.pairs[1 - i].escrow, &wa(m, i), &Auth::single(&pd), &[], 1)]);
                add(format!("permanent delegate takes 1 from escrow {i}"), By::Drains, None, vec![transfer_checked(&up, &p.escrow, &um, &ua(m), signer(&pd), &[], 1, d)]);
                add(format!("permanent delegate wraps alice's 2 into {i}"), By::Issuer, Some(i), vec![wrap(p, &ua(a), &wa(m, i), &Auth::single(&pd), &[], 2)]);
            }
            if i == 1 {
                add(format!("freeze escrow {i}"), By::Blocks, None, vec![ti::freeze_account(&up, &p.escrow, &um, &freeze_auth(), &[]).unwrap()]);
                add(format!("thaw escrow {i}"), By::Issuer, None, vec![ti::thaw_account(&up, &p.escrow, &um, &freeze_auth(), &[]).unwrap()]);
            }
            if self.has_fee() {
                add(format!("harvest fees of escrow {i}"), By::User, None, vec![extension::transfer_fee::instruction::harvest_withheld_tokens_to_mint(&T22, &um, &[&p.escrow]).unwrap()]);
                add(format!("withdraw fees of escrow {i}"), By::Issuer, None, vec![extension::transfer_fee::instruction::withdraw_withheld_tokens_from_accounts(&T22, &um, &ua(m), &withdraw_auth(), &[], &[&p.escrow]).unwrap()]);
            }
        }
        let a = &self.users[0];
        add("issue 2 to alice".into(), By::Issuer, None, vec![mint_to(&up, &um, &ua(a), &mint_auth(), 2)]);
        add("alice sends 1 unwrapped to mallory".into(), By::User, None, vec![transfer_checked(&up, &ua(a), &um, &ua(&self.users[1]), signer(a), &[], 1, d)]);
        add("alice lets mallory spend 1 unwrapped".into(), By::User, None, vec![ti::approve(&up, &ua(a), &self.users[1], a, &[], 1).unwrap()]);
        if self.has_fee() {
            for (b, m) in [(0, 0), (5000, 2), (10_000, 1_000_000)] {
                add(format!("set fee to {b} bps, at most {m}"), By::Issuer, None, vec![extension::transfer_fee::instruction::set_transfer_fee(&T22, &um, &fee_auth(), &[], b, m).unwrap()]);
            }
        }
        if self.u.exts.iter().any(|e| matches!(e, Ext::Pausable { .. })) {
            add("pause".into(), By::Blocks, None, vec![extension::pausable::instruction::pause(&T22, &um, &pause_auth(), &[]).unwrap()]);
            add("resume".into(), By::Issuer, None, vec![extension::pausable::instruction::resume(&T22, &um, &pause_auth(), &[]).unwrap()]);
        }
        if self.has_fee() && w.epoch < 3 {
            v.push(Act { label: "next epoch".into(), by: By::User, tw: None, ixs: vec![], epoch: w.epoch + 1 });
        }
        v
    }
    fn has_fee(&self) -> bool {
        self.u.exts.iter().any(|e| matches!(e, Ext::Fee { .. }))
    }
    fn has_perm(&self) -> bool {
        self.u.exts.contains(&Ext::PermDelegate)
    }
}

fn books(w: &World, p: &Pair) -> (i128, i128) {
    (supply(w, &p.wmint).unwrap_or(0) as i128, escrow_amount(w, p).unwrap_or(0) as i128)
}

pub fn c01(ctx: &Ctx, pool: &Pool) {
    let scenes = pool.one(|svm| scenes(svm, ctx.thorough));
    let depth = if ctx.thorough { 4 } else { 3 };
    for s in &scenes {
        explore(ctx, pool, &s.name, vec![Node::root(s.start.clone())], depth, 3_000_000, |svm, n| {
            let mut out = vec![];
            for a in s.actions(&n.w) {
                ctx.step();
                let mut w = n.w.clone();
                w.epoch = a.epoch;
                if !a.ixs.is_empty() {
                    let e = svm.exec(&w, &a.ixs);
                    if !e.ok() {
                        continue;
                    }
                    w = e.world;
                    ctx.accept();
                }
                let mut ghost = n.ghost;
                let fail = |sig: &str, what: String| {
                    let mut h = n.history();
                    h.push(a.label.clone());
                    ctx.violate(sig, format!("{}: {what}; history: {h:?}", s.name), &n.w, &a.ixs);
                };
                for (j, p) in s.pairs.iter().enumerate() {
                    let ((s0, e0), (s1, e1)) = (books(&n.w, p), books(&w, p));
                    match a.tw {
                        Some(i) => {
                            ctx.trace();
                            // issuer-signed deposits out of another escrow are the
                            // issuer's own removal from that escrow
                            let issuer = a.by == By::Drains && j != i && e1 < e0 && s1 == s0;
                            // sending one's release to another escrow is a donation to it
                            let gift = j != i && s1 == s0 && e1 > e0;
                            if issuer {
                                ghost |= 1 << j;
                            } else if !gift && s1 - s0 != e1 - e0 {
                                fail("unequal", format!("'{}' changed the supply of pair {j} by {} but its escrow by {}", a.label, s1 - s0, e1 - e0));
                            } else if j != i && !gift && (s1 != s0 || e1 != e0) {
                                fail("other-pair", format!("'{}' touched pair {j}: supply {}, escrow {}", a.label, s1 - s0, e1 - e0));
                            }
                        }
                        None => {
                            if s1 > s0 {
                                fail("supply-grew", format!("'{}' grew the wrapped supply of pair {j} by {}", a.label, s1 - s0));
                            }
                            if e1 < e0 {
                                if a.by == By::Drains {
                                    ghost |= 1 << j;
                                } else {
                                    fail("escrow-shrank", format!("'{}' took {} from escrow {j}", a.label, e0 - e1));
                                }
                            }
                        }
                    }
                    if ghost >> j & 1 == 0 && s1 > e1 {
                        fail("unbacked", format!("after '{}' pair {j} has supply {s1} over escrow {e1}", a.label));
                    }
                }
                out.push(n.next(a.label, w, ghost));
            }
            out
        });
    }
    ctx.bound(format!("{} scenes, all histories of at most {depth} steps, two users, two pairs over one mint, all issuer actions", scenes.len()));
}

pub fn c04(ctx: &Ctx, pool: &Pool) {
    let scenes = pool.one(|svm| scenes(svm, ctx.thorough));
    let depth = if ctx.thorough { 4 } else { 3 };
    for s in &scenes {
        explore(ctx, pool, &s.name, vec![Node::root(s.start.clone())], depth, 3_000_000, |svm, n| {
            redeem(ctx, svm, s, n);
            if n.depth == depth {
                return vec![];
            }
            let mut out = vec![];
            for a in s.actions(&n.w) {
                if matches!(a.by, By::Blocks | By::Drains) {
                    continue;
                }
                ctx.step();
                let mut w = n.w.clone();
                w.epoch = a.epoch;
                if !a.ixs.is_empty() {
                    let e = svm.exec(&w, &a.ixs);
                    if !e.ok() {
                        continue;
                    }
                    w = e.world;
                }
                out.push(n.next(a.label, w, 0));
            }
            out
        });
    }
    ctx.bound(format!("{} scenes, every state within {depth} steps: each holder redeems 1, half and all of each balance; then all redeem one after another", scenes.len()));
}

fn redeem(ctx: &Ctx, svm: &mut Svm, s: &Scene, n: &Node) {
    let mut all = n.w.clone();
    for (i, p) in s.pairs.iter().enumerate() {
        for x in &s.users {
            let b = amount(&n.w, &wa(x, i)).unwrap_or(0);
            let mut am = vec![1, b / 2, b];
            am.retain(|a| *a > 0 && *a <= b);
            am.dedup();
            for a in am {
                let ix = unwrap(p, &wa(x, i), &ua(x), &Auth::single(x), &[], a);
                let e = svm.exec(&n.w, &[ix.clone()]);
                ctx.step();
                ctx.trace();
                let u = |w: &World| amount(w, &ua(x)).unwrap_or(0);
                let want = a - fee_of(&n.w, &s.u.key, a);
                match &e.res {
                    Err(m) => ctx.violate("stuck", format!("{}: {} cannot redeem {a} of {b} wrapped: {m}; history: {:?}", s.name, name_of(x), n.history()), &n.w, &[ix]),
                    Ok(()) if u(&e.world) - u(&n.w) != want || amount(&e.world, &wa(x, i)) != Some(b - a) => {
                        ctx.violate("short", format!("{}: redeeming {a} of {b} paid {} instead of {want}; history: {:?}", s.name, u(&e.world) as i128 - u(&n.w) as i128, n.history()), &n.w, &[ix])
                    }
                    Ok(()) => ctx.accept(),
                }
            }
            let b = amount(&all, &wa(x, i)).unwrap_or(0);
            if b > 0 {
                let ix = unwrap(p, &wa(x, i), &ua(x), &Auth::single(x), &[], b);
                let e = svm.exec(&all, &[ix.clone()]);
                ctx.step();
                if let Err(m) = &e.res {
                    ctx.violate("run", format!("{}: when all redeem, {} cannot redeem {b}: {m}; history: {:?}", s.name, name_of(x), n.history()), &all, &[ix]);
                }
                all = e.world;
            }
        }
        let left = supply(&all, &p.wmint).unwrap_or(0);
        if left != 0 {
            ctx.violate("left", format!("{}: wrapped supply {left} of pair {i} remains after everyone redeemed; history: {:?}", s.name, n.history()), &n.w, &[]);
        }
    }
}
