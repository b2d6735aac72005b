//! Wraps and unwraps over parts of different pairs: every mix of two unwrapped
//! mints, their wrapped mints, authorities and escrows, each authority having
//! (as anyone can arrange) an associated account of every mint.
use super::move_tokens::{compare, Dir};
use crate::{core::*, report::Ctx, tok::*, tw::*};
use solana_instruction::Instruction;
use solana_pubkey::Pubkey;

pub struct Cross {
    pub w: World,
    pub pairs: Vec<Pair>,
    pub mints: [Pubkey; 2],
    pub user: Pubkey,
}
pub fn ua(m: &Pubkey) -> Pubkey {
    key(&format!("user-of-{}", name_of(m)))
}
pub fn wa(m: &Pubkey) -> Pubkey {
    key(&format!("user-of-{}", name_of(m)))
}
pub fn build(svm: &mut Svm, uprog: Pubkey, fee: bool) -> Cross {
    let mut w = World { epoch: 5, ..Default::default() };
    let mints = [key("mint-A"), key("mint-B")];
    let user = key("user");
    w.fund(user, 1_000_000_000);
    for m in &mints {
        let mut s = MintSpec::new(*m, uprog);
        if fee {
            s.exts = vec![Ext::fee(100, 50)];
        }
        make_mint(svm, &mut w, &s).unwrap();
        make_account(svm, &mut w, &AcctSpec::new(ua(m), *m, user, 100_000)).unwrap();
    }
    let mut pairs = vec![];
    for m in mints {
        for wp in [TOKEN, T22] {
            let p = Pair::new(m, uprog, wp);
            make_wrapped(svm, &mut w, &p, 0);
            make_account(svm, &mut w, &AcctSpec::new(wa(&p.wmint), p.wmint, user, 10_000)).unwrap();
            pairs.push(p);
        }
    }
    for p in &pairs {
        for m in &mints {
            make_ata(svm, &mut w, &p.auth, m, &uprog).unwrap();
            let k = ata_of(&p.auth, m, &uprog);
            w.edit(&k, |a| a.data[64..72].copy_from_slice(&50_000u64.to_le_bytes()));
            if p.umint != *m {
                name_it(k, &format!("account of {} under {}", name_of(m), name_of(&p.auth)));
            }
        }
    }
    // the user's own, in the place of an escrow
    for m in &mints {
        make_ata(svm, &mut w, &user, m, &uprog).unwrap();
        let k = ata_of(&user, m, &uprog);
        w.edit(&k, |a| a.data[64..72].copy_from_slice(&50_000u64.to_le_bytes()));
    }
    for m in mints.iter().copied().chain(pairs.iter().map(|p| p.wmint)) {
        fix_supply(&mut w, &m);
    }
    Cross { w, pairs, mints, user }
}
/// The authorities of the pairs, and the user itself.
fn owners(x: &Cross) -> Vec<Pubkey> {
    x.pairs.iter().map(|p| p.auth).chain([x.user]).collect()
}
/// The user signs wherever it is named.
fn signed(mut ix: Instruction, user: &Pubkey) -> Instruction {
    for m in ix.accounts.iter_mut().filter(|m| m.pubkey == *user) {
        m.is_signer = true;
    }
    ix
}
/// Closing over parts of different pairs, every associated account in question
/// being empty and made for an earlier mint of the same address.
pub fn run_close(ctx: &Ctx, pool: &Pool) {
    let x = pool.one(|svm| {
        let mut x = build(svm, T22, false);
        for m in x.mints {
            for o in owners(&x) {
                let k = ata_of(&o, &m, &T22);
                x.w.edit(&k, |a| a.data[64..72].fill(0));
            }
            let mut s = MintSpec::new(m, T22);
            s.exts = vec![Ext::fee(100, 50)];
            make_mint(svm, &mut x.w, &s).unwrap();
        }
        x
    });
    ctx.state();
    let mut mixes = vec![];
    for &umint in &x.mints {
        for a in &x.pairs {
            for b in owners(&x) {
                for c in owners(&x) {
                    for m in &x.mints {
                        mixes.push(Pair { umint, wmint: a.wmint, auth: b, escrow: ata_of(&c, m, &T22), ..*a });
                    }
                }
            }
        }
    }
    pool.map(&mixes, |svm, p| {
        let real = x.pairs.iter().any(|q| q.umint == p.umint && q.wmint == p.wmint && q.auth == p.auth && q.escrow == p.escrow);
        let ix = signed(close_stuck(p, &key("collector")), &x.user);
        let e = svm.exec(&x.w, &[ix.clone()]);
        ctx.step();
        ctx.trace();
        if e.ok() != real {
            let verdict = if e.ok() { "succeeded" } else { "was refused" };
            ctx.violate("mixed", format!("closing {} of {} through wrapped mint {}, authority {} {verdict}; it did: {}", name_of(&p.escrow), name_of(&p.umint), name_of(&p.wmint), name_of(&p.auth), diff(&x.w, &e.world).join("; ")), &x.w, &[ix]);
        }
    });
    ctx.put("mixed_closes", mixes.len() as u64);
    ctx.bound("closing: every mix of 2 unwrapped mints, 4 wrapped mints, 5 authorities and 10 accounts, all of them empty and stale");
}
pub fn run(ctx: &Ctx, pool: &Pool, dirs: &[Dir]) {
    let mut n = 0u64;
    for (uprog, fee) in [(TOKEN, false), (T22, false), (T22, true)] {
        let x = pool.one(|svm| build(svm, uprog, fee));
        ctx.state();
        let mut mixes = vec![];
        for &umint in &x.mints {
            for a in &x.pairs {
                for b in owners(&x) {
                    for c in owners(&x) {
                        for m in &x.mints {
                            for uprog in [TOKEN, T22] {
                                for wprog in [TOKEN, T22] {
                                    mixes.push(Pair { umint, uprog, wprog, wmint: a.wmint, auth: b, escrow: ata_of(&c, m, &x.pairs[0].uprog), ..*a });
                                }
                            }
                        }
                    }
                }
            }
        }
        n += mixes.len() as u64 * dirs.len() as u64;
        let same = |p: &Pair, q: &Pair| p.umint == q.umint && p.uprog == q.uprog && p.wprog == q.wprog && p.wmint == q.wmint && p.auth == q.auth && p.escrow == q.escrow;
        pool.map(&mixes, |svm, p| {
            if ctx.enough() {
                return;
            }
            let auth = Auth::single(&x.user);
            for dir in dirs {
                // holdings that fit the mints given
                let (u, w) = (ua(&p.umint), wa(&p.wmint));
                let (src, dst) = if *dir == Dir::Wrap { (u, w) } else { (w, u) };
                if x.pairs.iter().any(|q| same(p, q)) {
                    compare(ctx, svm, *dir, "pair", &x.w, p, &src, &dst, &auth, &[], 100);
                    continue;
                }
                let ix = if *dir == Dir::Wrap { wrap(p, &src, &dst, &auth, &[], 100) } else { unwrap(p, &src, &dst, &auth, &[], 100) };
                let ix = signed(ix, &x.user);
                let e = svm.exec(&x.w, &[ix.clone()]);
                ctx.step();
                ctx.trace();
                if e.ok() {
                    ctx.violate("mixed", format!("{dir:?} of {} through wrapped mint {}, authority {} and {} succeeded; it did: {}", name_of(&p.umint), name_of(&p.wmint), name_of(&p.auth), name_of(&p.escrow), diff(&x.w, &e.world).join("; ")), &x.w, &[ix]);
                }
            }
        });
    }
    ctx.put("mixed_pairs", n);
    ctx.bound("every mix of 2 unwrapped mints, 4 wrapped mints, 5 authorities, 10 escrows and 4 program choices, escrows of all mixes existing");
}
