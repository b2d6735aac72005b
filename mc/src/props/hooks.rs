//! C16: transfer hooks and multisigs.
use super::move_tokens::{judge, oracle, Dir, Oracle};
use crate::{builtins::*, core::*, report::Ctx, tok::*, tw::*};
use serde_json::json;
use solana_account::Account;
use solana_instruction::AccountMeta;
use solana_pubkey::Pubkey;
use spl_tlv_account_resolution::{account::ExtraAccountMeta, seeds::Seed, state::ExtraAccountMetaList};
use spl_transfer_hook_interface::instruction::ExecuteInstruction;

/// What a hook may ask for besides the transfer's own accounts.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum X {
    Ro,
    /// written by the hook
    Counter,
    /// somebody else's, writable
    RwOther,
    /// derived by the hook program from source, mint and destination
    Pda,
    /// derived from the authority, and written
    PdaRw,
    /// must sign
    Signer,
}
const KINDS: [X; 6] = [X::Ro, X::Counter, X::RwOther, X::Pda, X::PdaRw, X::Signer];

#[derive(Clone, Debug)]
struct Case {
    wrap: bool,
    wp: Pubkey,
    fee: bool,
    /// None: the hook needs no account list
    extras: Option<Vec<X>>,
    /// multisig (m, n), or a single authority
    multi: Option<(u8, u8)>,
    delegate: bool,
    mode: Mode,
    amount: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Complete,
    Reversed,
    /// with accounts nobody asked for before, between and after
    Junk,
    /// the hook rejects, told so by this extra
    Reject(usize),
    /// this extra is left out
    Drop(usize),
    DropProgram,
    /// one multisig member does not sign
    Unsigned,
    /// more members than the threshold sign
    Surplus,
}

fn member(i: u8) -> Pubkey {
    key(&format!("ms-member-{i}"))
}

fn cases(t: bool) -> Vec<Case> {
    let mut lists: Vec<Option<Vec<X>>> = vec![None, Some(vec![])];
    let mut last: Vec<Vec<X>> = vec![vec![]];
    for _ in 0..if t { 4 } else { 3 } {
        last = last.iter().flat_map(|l| KINDS.iter().map(move |k| { let mut m = l.clone(); m.push(*k); m })).collect();
        lists.extend(last.iter().cloned().map(Some));
    }
    for n in 4..=10usize {
        for s in 0..6 {
            lists.push(Some((0..n).map(|i| KINDS[(i * (s + 1) + s) % 6]).collect()));
        }
    }
    let mut shapes: Vec<Option<(u8, u8)>> = vec![None];
    for n in 1..=11u8 {
        for m in 1..=n {
            shapes.push(Some((m, n)));
        }
    }
    let mut out = vec![];
    for wrap in [true, false] {
        for wp in [TOKEN, T22] {
            for fee in [false, true] {
                let c0 = Case { wrap, wp, fee, extras: None, multi: None, delegate: false, mode: Mode::Complete, amount: 1000 };
                for (i, l) in lists.iter().enumerate() {
                    let n = l.as_ref().map_or(0, |l| l.len());
                    let mut ms = vec![Mode::Complete, Mode::Junk, Mode::DropProgram];
                    if n > 1 {
                        ms.push(Mode::Reversed);
                    }
                    for j in 0..n {
                        ms.push(Mode::Reject(j));
                        ms.push(Mode::Drop(j));
                    }
                    // every list for a single authority, a delegate, 2 of 3 and 1 of 11
                    for (k, multi) in [None, None, Some((2, 3)), Some((1, 11)), Some((11, 11))].into_iter().enumerate() {
                        if !t && i > 45 && (i + k) % 3 != 0 {
                            continue;
                        }
                        for mode in &ms {
                            out.push(Case { extras: l.clone(), multi, delegate: k == 1, mode: *mode, ..c0.clone() });
                        }
                    }
                }
                // every multisig shape for some lists
                for multi in &shapes {
                    for l in [None, Some(vec![]), Some(vec![X::Counter]), Some(vec![X::PdaRw, X::Ro]), Some(vec![X::Signer, X::Counter, X::Pda]), Some(vec![X::Ro, X::Counter, X::Pda, X::RwOther, X::PdaRw, X::Ro])] {
                        for mode in [Mode::Complete, Mode::Unsigned, Mode::Surplus, Mode::Reversed, Mode::Drop(0), Mode::Reject(0)] {
                            let has = l.as_ref().is_some_and(|l| !l.is_empty());
                            if matches!(mode, Mode::Drop(_) | Mode::Reject(_)) && !has {
                                continue;
                            }
                            if matches!(mode, Mode::Unsigned | Mode::Surplus) && multi.is_none() {
                                continue;
                            }
                            if mode == Mode::Surplus && multi.is_some_and(|(m, n)| m == n) {
                                continue;
                            }
                            out.push(Case { extras: l.clone(), multi: *multi, mode, ..c0.clone() });
                        }
                    }
                }
                for amount in [1, 2, 255, 256, 65_536, 999_999, 1_000_000] {
                    out.push(Case { extras: Some(vec![X::Counter, X::Pda]), amount, ..c0.clone() });
                    out.push(Case { extras: Some(vec![X::Counter, X::Pda]), amount, multi: Some((2, 2)), ..c0.clone() });
                }
            }
        }
    }
    out
}

/// C16's operations in the given directions, judged by the oracle that is set.
pub fn run(ctx: &Ctx, pool: &Pool, dirs: &[Dir]) {
    let mut cs = cases(ctx.thorough);
    cs.retain(|c| dirs.contains(&if c.wrap { Dir::Wrap } else { Dir::Unwrap }));
    if oracle() == Oracle::Verdict {
        cs.retain(|c| c.multi.is_some() || c.delegate);
    }
    let n = cs.len();
    pool.map(&cs, |svm, c| {
        if ctx.enough() {
            return;
        }
        one(ctx, svm, c);
    });
    ctx.sample(json!(cs.iter().step_by(n / 8).map(|c| format!("{c:?}")).collect::<Vec<_>>()));
    ctx.bound(format!("{n} operations of a mint with a transfer hook: all lists of <= {} extra accounts over 6 kinds and longer ones up to 10, all multisig shapes m of n <= 11, both directions, both wrapped programs, with and without a transfer fee; complete, reordered, padded, rejected by the hook at each extra, each account left out", if ctx.thorough { 4 } else { 3 }));
}

fn one(ctx: &Ctx, svm: &mut Svm, c: &Case) {
    let (um, user) = (key("umint"), key("user"));
    let p = Pair::new(um, T22, c.wp);
    let mut w = World { epoch: 5, ..Default::default() };
    let mut ex = vec![Ext::Hook(Some(hook()))];
    if c.fee {
        ex.push(Ext::fee(100, 5000));
    }
    make_mint(svm, &mut w, &MintSpec::new(um, T22).exts(&ex)).unwrap();
    make_escrow(svm, &mut w, &p).unwrap();
    make_wrapped(svm, &mut w, &p, 0);
    let (ua, wa) = (key("user-u"), key("user-w"));
    // who may move the source
    let prog = if c.wrap { T22 } else { c.wp };
    let who = match (c.multi, c.delegate) {
        (Some((m, n)), _) => {
            let all: Vec<Pubkey> = (0..n).map(member).collect();
            make_multisig(svm, &mut w, key("multisig"), &prog, m, &all);
            key("multisig")
        }
        (_, true) => key("delegate"),
        _ => user,
    };
    let owner = if c.delegate { user } else { who };
    let (uo, wo) = if c.wrap { (owner, user) } else { (user, owner) };
    let mut au = AcctSpec::new(ua, um, uo, 1_000_000);
    let mut aw = AcctSpec::new(wa, p.wmint, wo, 1_000_000);
    if c.delegate {
        if c.wrap { &mut au } else { &mut aw }.delegate = Some((who, c.amount));
    }
    make_account(svm, &mut w, &au).unwrap();
    make_account(svm, &mut w, &aw).unwrap();
    w.edit(&p.escrow, |a| a.data[64..72].copy_from_slice(&1_000_000u64.to_le_bytes()));
    fix_supply(&mut w, &um);
    fix_supply(&mut w, &p.wmint);

    let (src, dst, auth_key) = if c.wrap { (ua, p.escrow, who) } else { (p.escrow, ua, p.auth) };
    let valid = Pubkey::find_program_address(&[b"extra-account-metas", um.as_ref()], &hook()).0;
    name_it(valid, "hook's account list");
    // the extras: their keys and what the list says of them
    let mut extras: Vec<AccountMeta> = vec![];
    let mut expect: Vec<(Pubkey, bool, bool)> = vec![];
    if let Some(l) = &c.extras {
        let mut metas = vec![];
        for (i, x) in l.iter().enumerate() {
            let lit = format!("x{i}");
            let (k, s, wr, m, own) = match x {
                X::Ro => { let k = key(&format!("extra-{i}")); (k, false, false, ExtraAccountMeta::new_with_pubkey(&k, false, false).unwrap(), evil()) }
                X::Counter => { let k = key(&format!("extra-{i}")); (k, false, true, ExtraAccountMeta::new_with_pubkey(&k, false, true).unwrap(), hook()) }
                X::RwOther => { let k = key(&format!("extra-{i}")); (k, false, true, ExtraAccountMeta::new_with_pubkey(&k, false, true).unwrap(), evil()) }
                X::Signer => { let k = key(&format!("extra-{i}")); (k, true, false, ExtraAccountMeta::new_with_pubkey(&k, true, false).unwrap(), SYS) }
                X::Pda => {
                    let seeds = [Seed::Literal { bytes: lit.clone().into_bytes() }, Seed::AccountKey { index: 0 }, Seed::AccountKey { index: 1 }, Seed::AccountKey { index: 2 }];
                    let k = Pubkey::find_program_address(&[lit.as_bytes(), src.as_ref(), um.as_ref(), dst.as_ref()], &hook()).0;
                    (k, false, false, ExtraAccountMeta::new_with_seeds(&seeds, false, false).unwrap(), hook())
                }
                X::PdaRw => {
                    let seeds = [Seed::Literal { bytes: lit.clone().into_bytes() }, Seed::AccountKey { index: 3 }, Seed::InstructionData { index: 8, length: 8 }];
                    let k = Pubkey::find_program_address(&[lit.as_bytes(), auth_key.as_ref(), &c.amount.to_le_bytes()], &hook()).0;
                    (k, false, true, ExtraAccountMeta::new_with_seeds(&seeds, false, true).unwrap(), hook())
                }
            };
            metas.push(m);
            expect.push((k, s, wr));
            extras.push(AccountMeta { pubkey: k, is_signer: s, is_writable: wr });
            let flag = if c.mode == Mode::Reject(i) { 0xff } else { 0 };
            w.set(k, Account { lamports: 1_000_000_000, owner: own, data: vec![flag, 7], ..Default::default() });
        }
        let mut d = vec![0; ExtraAccountMetaList::size_of(metas.len()).unwrap()];
        ExtraAccountMetaList::init::<ExecuteInstruction>(&mut d, &metas).unwrap();
        w.set(valid, Account { lamports: svm.rent(d.len()), owner: hook(), data: d, ..Default::default() });
    }
    let mut auth = match c.multi {
        None => Auth::single(&who),
        Some((m, n)) => {
            let k = match c.mode {
                Mode::Unsigned => m - 1,
                Mode::Surplus => n,
                _ => m,
            };
            // not only the first ones, and not in order
            let mut v: Vec<Pubkey> = (0..k).map(|i| member((i * 3 + m) % n)).collect();
            if n % 3 == 0 {
                v = (0..k).rev().map(|i| member((i + m) % n)).collect();
            }
            Auth::multi(&who, &v)
        }
    };
    if c.mode == Mode::Unsigned && c.multi.is_some_and(|(m, _)| m > 1) {
        // and one there without signature
        let (m, n) = c.multi.unwrap();
        let out = (0..n).map(member).find(|k| auth.members.iter().all(|a| a.pubkey != *k)).unwrap();
        if m % 2 == 0 {
            auth.members.push(ro(&out));
        }
    }
    let mut tail = extras.clone();
    if let Mode::Drop(i) = c.mode {
        tail.remove(i);
    }
    if c.extras.is_some() {
        tail.push(ro(&valid));
    }
    if c.mode != Mode::DropProgram {
        tail.push(ro(&hook()));
    }
    match c.mode {
        Mode::Reversed => tail.reverse(),
        Mode::Junk => {
            tail.insert(0, ro(&key("junk-1")));
            tail.insert(tail.len() / 2, rw(&key("junk-2")));
            tail.push(ro(&evil()));
        }
        _ => {}
    }
    let dir = if c.wrap { Dir::Wrap } else { Dir::Unwrap };
    let good = matches!(c.mode, Mode::Complete | Mode::Reversed | Mode::Junk | Mode::Surplus);
    let ix = if c.wrap { wrap(&p, &ua, &wa, &auth, &tail, c.amount) } else { unwrap(&p, &wa, &ua, &auth, &tail, c.amount) };
    ctx.state();
    take_seen();
    let e = svm.exec(&w, std::slice::from_ref(&ix));
    let seen: Vec<Seen> = take_seen().into_iter().filter(|s| s.program == hook()).collect();
    ctx.step();
    ctx.trace();
    if oracle() != Oracle::Full {
        if e.ok() {
            ctx.accept();
        }
        let (s, d) = if c.wrap { (ua, wa) } else { (wa, ua) };
        judge(ctx, svm, dir, "hook", &w, &p, &s, &d, &auth, &tail, c.amount, e, ix);
        return;
    }
    if e.ok() != good {
        ctx.violate(if good { "refused" } else { "accepted" }, format!("{c:?}: {:?}", e.res), &w, &[ix]);
        return;
    }
    if !e.ok() {
        return;
    }
    ctx.accept();
    let mut bad = vec![];
    if seen.len() != 1 {
        bad.push(format!("the hook ran {} times", seen.len()));
    }
    for s in &seen {
        let keys: Vec<Pubkey> = s.accounts.iter().map(|a| a.0).collect();
        let mut want = vec![src, um, dst, auth_key];
        if c.extras.is_some() {
            want.push(valid);
            want.extend(expect.iter().map(|e| e.0));
        }
        if keys != want {
            bad.push(format!("the hook saw {:?} instead of {:?}", keys.iter().map(name_of).collect::<Vec<_>>(), want.iter().map(name_of).collect::<Vec<_>>()));
        } else if c.extras.is_some() {
            // writable where the list asks for it (Token-2022 itself takes
            // signer privileges of extra accounts away)
            for (a, x) in s.accounts[5..].iter().zip(&expect) {
                if x.2 && !a.2 {
                    bad.push(format!("extra {} was passed with signer {} writable {}", name_of(&a.0), a.1, a.2));
                }
            }
        }
        let mut d = vec![105, 37, 101, 197, 75, 251, 102, 26];
        d.extend(c.amount.to_le_bytes());
        if s.data != d {
            bad.push(format!("the hook was told {}", hex(&s.data)));
        }
    }
    let spec = if c.wrap { spec_wrap(svm, &w, &p, &ua, &wa, &auth, &tail, c.amount) } else { spec_unwrap(svm, &w, &p, &wa, &ua, &auth, &tail, c.amount) };
    match spec {
        Ok(s) => bad.extend(diff(&s, &e.world)),
        Err(m) => bad.push(format!("the token programs refuse: {m}")),
    }
    if !bad.is_empty() {
        ctx.violate("effects", format!("{c:?}: {}", bad.join("; ")), &w, &[ix]);
    }
}
