//! C05: who may wrap from an account and unwrap from an account.
use super::move_tokens::{base, build, delegate, progs, user, Dir};
use crate::{core::*, report::Ctx, tok::*, tw::*};
use solana_instruction::AccountMeta;
use solana_pubkey::Pubkey;

struct Case {
    block: &'static str,
    dir: Dir,
    up: Pubkey,
    wp: Pubkey,
    perm: bool,
    /// owner of the source, when not the user
    owner: Option<Pubkey>,
    /// delegate and allowance of the source
    delegate: Option<(Pubkey, u64)>,
    close: bool,
    /// multisig placed at this address: (address, m, n, how)
    multisig: Option<(Pubkey, u8, usize, MsState)>,
    mains: Vec<AccountMeta>,
    tails: Vec<Vec<AccountMeta>>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum MsState {
    Good,
    WrongProgram,
    SystemOwned,
    Uninitialised,
    Short,
}
const AMOUNT: u64 = 1000;

fn member(i: usize) -> Pubkey {
    key(&format!("member{i}"))
}

/// Whether the property's own words allow the debit; None where they only
/// forbid nothing and promise nothing.
fn authorised(w: &World, src: &Pubkey, perm: bool, prog: &Pubkey, main: &AccountMeta, tail: &[AccountMeta]) -> Option<bool> {
    let a = w.get(src).unwrap();
    let owner = acct_owner(a) == main.pubkey;
    let deleg = acct_delegate(a).is_some_and(|(d, n)| d == main.pubkey && n >= AMOUNT);
    let permd = perm && main.pubkey == perm_delegate();
    if !(owner || deleg || permd) {
        return Some(false);
    }
    // one account listed twice in a transaction signs or not as a whole
    let signs = |k: &Pubkey| main.is_signer && main.pubkey == *k || tail.iter().any(|t| t.is_signer && t.pubkey == *k);
    // a multisig kept by the other token program is still a multisig: its
    // members must sign, but nothing is promised
    let ms = w.get(&main.pubkey).filter(|m| is_token_prog(&m.owner) && m.data.len() == 355);
    match ms {
        Some(m) => {
            let (need, n) = (m.data[0] as usize, m.data[1] as usize);
            let list: Vec<Pubkey> = (0..n).map(|i| Pubkey::try_from(&m.data[3 + 32 * i..35 + 32 * i]).unwrap()).collect();
            let met = list.iter().filter(|k| signs(k)).count() >= need || m.owner != *prog && signs(&main.pubkey);
            // well-formed: exactly signed, distinct members
            let neat = m.owner == *prog
                && m.data[2] == 1
                && !main.is_signer
                && tail.iter().all(|t| t.is_signer && list.contains(&t.pubkey))
                && tail.iter().enumerate().all(|(i, t)| tail[..i].iter().all(|u| u.pubkey != t.pubkey));
            if !met {
                Some(false)
            } else if neat {
                Some(true)
            } else {
                None
            }
        }
        None if !signs(&main.pubkey) => Some(false),
        None if tail.is_empty() && w.get(&main.pubkey).is_none_or(|m| m.data.is_empty()) => Some(true),
        None => None,
    }
}

fn sequences(alphabet: &[AccountMeta], max: usize) -> Vec<Vec<AccountMeta>> {
    let mut out: Vec<Vec<AccountMeta>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..max {
        let mut next = vec![];
        for s in &last {
            for a in alphabet {
                let mut t = s.clone();
                t.push(a.clone());
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

fn cases(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let both = |k: Pubkey| [signer(&k), ro(&k)];
    for dir in [Dir::Wrap, Dir::Unwrap] {
        for (up, wp) in progs() {
            let p = Pair::new(key("umint"), up, wp);
            let perms: &[bool] = if up == T22 { &[false, true] } else { &[false] };
            for &perm in perms {
                // A: plain keys
                let mut mains = vec![];
                for k in [
                    user(), delegate(), key("closer"), mint_auth(), freeze_auth(), perm_delegate(), key("stranger"), key("other-user"),
                    key("user-u"), key("user-w"), key("other-u"), key("other-w"), member(0),
                ] {
                    mains.extend(both(k));
                }
                for k in [p.auth, p.wmint, p.umint, p.escrow, p.backptr, TW, up, Pair::new(key("foreign-umint"), up, wp).auth] {
                    mains.push(ro(&k));
                }
                let mut alpha = vec![];
                for k in [user(), delegate(), key("stranger"), perm_delegate()] {
                    alpha.extend(both(k));
                }
                alpha.push(ro(&p.auth));
                let tails = sequences(&alpha, if thorough { 2 } else { 1 });
                let dels = [
                    None, Some((delegate(), AMOUNT - 1)), Some((delegate(), AMOUNT)), Some((delegate(), AMOUNT + 1)), Some((delegate(), u64::MAX)),
                    Some((delegate(), 0)), Some((key("other-user"), AMOUNT)), Some((mint_auth(), 1)),
                ];
                for d in dels {
                    for close in [false, true] {
                        out.push(Case { block: "single", dir, up, wp, perm, owner: None, delegate: d, close, multisig: None, mains: mains.clone(), tails: tails.clone() });
                    }
                }
                // E: accounts held by, delegated to, or in the hands of a multisig
                // with the program's own derived addresses, which nobody signs for
                let sib = Pair::new(key("umint"), up, if wp == T22 { TOKEN } else { T22 });
                let derived = [p.auth, p.wmint, p.escrow, p.backptr, canon_of(&p.umint), sib.auth, TW, Pair::new(key("foreign-umint"), up, wp).auth];
                let mut mains = vec![ro(&user()), signer(&user()), ro(&delegate()), signer(&delegate()), signer(&key("stranger"))];
                mains.extend(derived.iter().map(ro));
                let mut alpha: Vec<AccountMeta> = derived[..6].iter().map(ro).collect();
                alpha.extend([signer(&user()), signer(&member(0)), ro(&user())]);
                let tails = sequences(&alpha, if thorough { 3 } else { 2 });
                for k in derived {
                    for (o, d) in [(Some(k), None), (None, Some((k, u64::MAX))), (Some(k), Some((delegate(), AMOUNT))), (Some(k), Some((k, u64::MAX)))] {
                        out.push(Case { block: "derived", dir, up, wp, perm, owner: o, delegate: d, close: false, multisig: None, mains: mains.clone(), tails: tails.clone() });
                    }
                }
                for m in 1..=2u8 {
                    out.push(Case {
                        block: "derived-multisig", dir, up, wp, perm, owner: None, delegate: None, close: false, multisig: Some((user(), m, 4, MsState::Good)),
                        mains: vec![ro(&user())], tails: tails.clone(),
                    });
                }
                // B: small multisigs, all sequences of trailing accounts
                let roles: &[(Pubkey, Option<(Pubkey, u64)>)] = &[
                    (user(), None),
                    (user(), Some((delegate(), u64::MAX))),
                    (delegate(), Some((delegate(), AMOUNT))),
                    (delegate(), Some((delegate(), AMOUNT - 1))),
                    (perm_delegate(), None),
                ];
                for (at, d) in roles {
                    if *at == perm_delegate() && !perm {
                        continue;
                    }
                    for n in 1..=3usize {
                        for m in 1..=n as u8 {
                            let mut alpha = vec![];
                            for i in 0..n {
                                alpha.extend(both(member(i)));
                            }
                            alpha.extend([signer(&key("stranger")), ro(at), signer(&user())]);
                            out.push(Case {
                                block: "multisig", dir, up, wp, perm, owner: None, delegate: *d, close: false, multisig: Some((*at, m, n, MsState::Good)),
                                mains: vec![ro(at), signer(at)], tails: sequences(&alpha, if thorough { 4 } else { 3 }),
                            });
                        }
                    }
                    // D: things that look like multisigs
                    for st in [MsState::WrongProgram, MsState::SystemOwned, MsState::Uninitialised, MsState::Short] {
                        let mut alpha = vec![];
                        for i in 0..2 {
                            alpha.extend(both(member(i)));
                        }
                        alpha.push(ro(at));
                        out.push(Case {
                            block: "fake-multisig", dir, up, wp, perm, owner: None, delegate: *d, close: false, multisig: Some((*at, 1, 2, st)),
                            mains: vec![ro(at), signer(at)], tails: sequences(&alpha, 3),
                        });
                    }
                }
                // C: every subset of signers of multisigs of up to 11 members
                if perm {
                    continue;
                }
                for n in 4..=11usize {
                    let mut tails: Vec<Vec<AccountMeta>> = vec![];
                    for s in 0u32..1 << n {
                        let t: Vec<AccountMeta> = (0..n).filter(|i| s >> i & 1 == 1).map(|i| signer(&member(i))).collect();
                        if thorough {
                            let mut r = t.clone();
                            r.reverse();
                            tails.push(r);
                            if t.len() > 2 {
                                let mut r = t.clone();
                                r.rotate_left(t.len() / 2);
                                tails.push(r);
                            }
                            // one more, not signed
                            for i in (0..n).filter(|i| s >> i & 1 == 0).take(2) {
                                let mut r = t.clone();
                                r.push(ro(&member(i)));
                                tails.push(r);
                            }
                        }
                        tails.push(t);
                    }
                    for m in 1..=n as u8 {
                        out.push(Case {
                            block: "large-multisig", dir, up, wp, perm, owner: None, delegate: None, close: false, multisig: Some((user(), m, n, MsState::Good)),
                            mains: vec![ro(&user())], tails: tails.clone(),
                        });
                    }
                }
            }
        }
    }
    out
}

pub fn run(ctx: &Ctx, pool: &Pool) {
    let cs = cases(ctx.thorough);
    let mut blocks = std::collections::BTreeMap::<&str, u64>::new();
    for c in &cs {
        *blocks.entry(c.block).or_default() += (c.mains.len() * c.tails.len()) as u64;
    }
    let r = pool.map(&cs, |svm, c| {
        let mut b = base("authority", c.up, c.wp, c.dir);
        if c.perm {
            b.u.exts = vec![Ext::PermDelegate];
        }
        let s = if c.dir == Dir::Wrap { &mut b.ua } else { &mut b.wa };
        s.delegate = c.delegate;
        if let Some(o) = c.owner {
            s.owner = o;
        }
        s.close = c.close.then(|| key("closer"));
        let (mut w, p) = build(svm, &b).unwrap();
        let prog = if c.dir == Dir::Wrap { c.up } else { c.wp };
        if let Some((at, m, n, st)) = c.multisig {
            let derived = c.block == "derived-multisig";
            let list: Vec<Pubkey> = if derived { vec![p.auth, p.wmint, p.escrow, member(0)] } else { (0..n).map(member).collect() };
            let mp = if st == MsState::WrongProgram { if prog == T22 { TOKEN } else { T22 } } else { prog };
            make_multisig(svm, &mut w, at, &mp, m, &list);
            match st {
                MsState::SystemOwned => w.edit(&at, |a| a.owner = SYS),
                MsState::Uninitialised => w.edit(&at, |a| a.data[2] = 0),
                MsState::Short => w.edit(&at, |a| a.data.truncate(354)),
                _ => {}
            }
        }
        ctx.state();
        let (src, dst) = if c.dir == Dir::Wrap { (key("user-u"), key("user-w")) } else { (key("user-w"), key("user-u")) };
        let perm = c.perm && c.dir == Dir::Wrap;
        let mut undetermined = 0u64;
        for main in &c.mains {
            for tail in &c.tails {
                if ctx.enough() {
                    return 0;
                }
                let auth = Auth { main: main.clone(), members: tail.clone() };
                let ix = match c.dir {
                    Dir::Wrap => wrap(&p, &src, &dst, &auth, &[], AMOUNT),
                    Dir::Unwrap => unwrap(&p, &src, &dst, &auth, &[], AMOUNT),
                };
                let want = authorised(&w, &src, perm, &prog, main, tail);
                let e = svm.exec(&w, std::slice::from_ref(&ix));
                ctx.step();
                ctx.trace();
                let say = || format!("{:?} by {}{} with {:?}, source owner {:?} delegate {:?}, multisig {:?}", c.dir, name_of(&main.pubkey), if main.is_signer { " (signed)" } else { "" },
                    tail.iter().map(|t| format!("{}{}", name_of(&t.pubkey), if t.is_signer { "(s)" } else { "" })).collect::<Vec<_>>(), c.owner.map(|o| name_of(&o)), c.delegate.map(|d| (name_of(&d.0), d.1)), c.multisig.map(|m| (name_of(&m.0), m.1, m.2, m.3)));
                match (want, &e.res) {
                    (Some(false), Ok(())) => ctx.violate(&format!("{}:accepted", c.block), format!("accepted without authority: {}", say()), &w, std::slice::from_ref(&ix)),
                    (Some(true), Err(m)) => ctx.violate(&format!("{}:refused", c.block), format!("refused ({m}) though authorised: {}", say()), &w, std::slice::from_ref(&ix)),
                    (None, _) => undetermined += 1,
                    _ => {}
                }
                if e.ok() {
                    ctx.accept();
                    let touched: Vec<Pubkey> = w.acc.keys().filter(|k| w.get(k) != e.world.get(k)).copied().collect();
                    let allowed = [src, dst, p.escrow, p.wmint];
                    if let Some(k) = touched.iter().find(|k| !allowed.contains(k)) {
                        ctx.violate("touched", format!("changed {}: {}", name_of(k), say()), &w, std::slice::from_ref(&ix));
                    }
                    if amount(&w, &src).unwrap() - amount(&e.world, &src).unwrap() != AMOUNT {
                        ctx.violate("amount", format!("debit is not {AMOUNT}: {}", say()), &w, std::slice::from_ref(&ix));
                    }
                }
            }
        }
        undetermined
    });
    for c in cs.iter().step_by(cs.len() / 5 + 1) {
        ctx.sample(serde_json::json!(format!("{} {:?}: multisig {:?}, {} authorities x {} tails, e.g. {:?}", c.block, c.dir, c.multisig.map(|m| (name_of(&m.0), m.1, m.2, m.3)), c.mains.len(), c.tails.len(),
            c.tails.last().unwrap().iter().map(|t| name_of(&t.pubkey)).collect::<Vec<_>>())));
    }
    ctx.put("operations_per_block", serde_json::json!(blocks));
    ctx.put("operations_only_checked_not_to_exceed_authority", r.iter().sum::<u64>());
    ctx.bound(format!("{} configurations: 34 authorities x signed or not x tails of <= {} accounts; multisigs m-of-n, n <= 3, all tails of <= {} accounts over members signed or not, stranger, owner and the multisig itself; every subset of signers for n = 4..11 and every m; accounts owned by, delegated to or under a multisig with eight derived or program addresses, all tails of <= {} accounts; four kinds of false multisig; owner, delegate and permanent delegate roles; both programs on both sides",
        cs.len(), if ctx.thorough { 2 } else { 1 }, if ctx.thorough { 4 } else { 3 }, if ctx.thorough { 3 } else { 2 }));
    ctx.assume("the runtime passes signer flags only for accounts whose signatures it verified");
}
