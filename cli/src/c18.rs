//! C18: the CLI submits exactly the transaction the user asked for.
use {
    crate::{node::*, want::*},
    solana_pubkey::Pubkey,
    twmc::{core::*, report::*, tok::*, tw},
};

/// A signer as given on the command line.
#[derive(Clone, Debug)]
pub enum Who {
    /// not given: the configured payer
    Default,
    File(&'static str),
    /// the address alone
    Address(&'static str),
}
impl Who {
    pub fn key(&self) -> Pubkey {
        match self {
            Who::Default => kp("payer"),
            Who::File(n) | Who::Address(n) => kp(n),
        }
    }
    pub fn signs(&self) -> bool {
        !matches!(self, Who::Address(_))
    }
    pub fn arg(&self) -> Option<String> {
        match self {
            Who::Default => None,
            Who::File(n) => Some(format!("@{n}")),
            Who::Address(n) => Some(kp(n).to_string()),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Move {
    pub unwrap: bool,
    /// source and, for unwrap, recipient
    pub src: Pubkey,
    pub dst: Option<Pubkey>,
    /// wrapped token program: required for wrap
    pub wprog: Option<Pubkey>,
    pub uprog: Option<Pubkey>,
    pub mint: Option<Pubkey>,
    pub amount: u64,
    pub payer: Who,
    pub auth: Who,
    pub members: Vec<Who>,
    pub hash: Option<[u8; 32]>,
}
impl Move {
    pub fn wrap(s: &Scene, amount: u64) -> Move {
        Move {
            unwrap: false, src: s.u("payer"), dst: None, wprog: Some(s.p.wprog), uprog: None, mint: None, amount,
            payer: Who::Default, auth: Who::Default, members: vec![], hash: None,
        }
    }
    pub fn unwrap(s: &Scene, amount: u64) -> Move {
        Move {
            unwrap: true, src: s.wr("payer"), dst: Some(s.u("payer")), wprog: None, uprog: None, mint: None, amount,
            payer: Who::Default, auth: Who::Default, members: vec![], hash: None,
        }
    }
    pub fn global(&self) -> Vec<String> {
        self.payer.arg().map_or(vec![], |a| vec!["--fee-payer".into(), a])
    }
    pub fn args(&self) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        let opt = |v: &mut Vec<String>, n: &str, k: Option<String>| {
            if let Some(k) = k {
                v.push(n.into());
                v.push(k);
            }
        };
        if self.unwrap {
            v.extend(["unwrap".into(), self.src.to_string(), self.dst.unwrap().to_string(), self.amount.to_string()]);
            opt(&mut v, "--wrapped-token-program", self.wprog.map(|k| k.to_string()));
        } else {
            v.extend(["wrap".into(), self.src.to_string(), self.wprog.unwrap().to_string(), self.amount.to_string()]);
            opt(&mut v, "--recipient-token-account", self.dst.map(|k| k.to_string()));
        }
        opt(&mut v, "--unwrapped-mint", self.mint.map(|k| k.to_string()));
        opt(&mut v, "--unwrapped-token-program", self.uprog.map(|k| k.to_string()));
        opt(&mut v, "--transfer-authority", self.auth.arg());
        opt(&mut v, "--blockhash", self.hash.map(|h| hash_str(&h)));
        for m in &self.members {
            opt(&mut v, "--multisig-signer", Some(m.arg().unwrap_or_else(|| "@payer".into())));
        }
        v
    }
    /// What is asked for in this world.
    pub fn expect(&self, w: &World) -> Expect {
        let token_mint = |k: &Pubkey| w.get(k).filter(|a| is_token_account(a)).map(acct_mint);
        let owner = |k: &Pubkey, svm_prog: bool| w.get(k).map(|a| a.owner).or(svm_prog.then_some(SYS));
        let (wprog, mint, uprog);
        if self.unwrap {
            let Some(q) = owner(&self.src, false) else { return Expect::Refuse };
            if self.wprog.is_some_and(|p| p != q) {
                return Expect::Refuse;
            }
            let Some(m) = token_mint(&self.dst.unwrap()) else { return Expect::Refuse };
            if self.mint.is_some_and(|g| g != m) {
                return Expect::Refuse;
            }
            let Some(u) = owner(&m, false) else { return Expect::Refuse };
            if self.uprog.is_some_and(|g| g != u) {
                return Expect::Refuse;
            }
            if !is_token_prog(&q) || !is_token_prog(&u) {
                return Expect::Fail;
            }
            (wprog, mint, uprog) = (q, m, u);
        } else {
            wprog = self.wprog.unwrap();
            let Some(m) = self.mint.or_else(|| token_mint(&self.src)) else { return Expect::Refuse };
            let Some(u) = self.uprog.or_else(|| owner(&self.src, false)) else { return Expect::Refuse };
            if !is_token_prog(&u) {
                return Expect::Fail;
            }
            (mint, uprog) = (m, u);
        }
        let p = Pair::new(mint, uprog, wprog);
        let payer = self.payer.key();
        let auth = if matches!(self.auth, Who::Default) { self.payer.clone() } else { self.auth.clone() };
        let dst = self.dst.unwrap_or_else(|| ata_of(&payer, &p.wmint, &wprog));
        let mut signable = self.payer.signs();
        let a = if self.members.is_empty() {
            signable &= auth.signs() || auth.key() == payer;
            tw::Auth::single(&auth.key())
        } else {
            signable &= self.members.iter().all(|m| m.signs());
            tw::Auth::multi(&auth.key(), &self.members.iter().map(|m| m.key()).collect::<Vec<_>>())
        };
        let ix = if self.unwrap {
            tw::unwrap(&p, &self.src, &dst, &a, &[], self.amount)
        } else {
            tw::wrap(&p, &self.src, &dst, &a, &[], self.amount)
        };
        let mut want = Want::new(payer, vec![ix]);
        want.blockhash = self.hash;
        want.signable = signable && self.hash.map_or(true, |h| [HASH, OLD_HASH].contains(&h));
        want = want.pk("unwrappedMintAddress", &mint).pk("wrappedMintAddress", &p.wmint).pk("escrowAccount", &p.escrow).field("amount", self.amount);
        want = if self.unwrap {
            want.pk("unwrappedTokenProgram", &uprog).pk("wrappedTokenAccount", &self.src).pk("recipientTokenAccount", &dst)
        } else {
            want.pk("unwrappedTokenAccount", &self.src).pk("recipientTokenAccount", &dst)
        };
        Expect::Submit(want)
    }
    pub fn case(&self, what: impl Into<String>, w: &World, format: Format) -> Case {
        Case { what: what.into(), world: w.clone(), global: self.global(), args: self.args(), format, expect: self.expect(w) }
    }
}

fn short(k: &Pubkey) -> String {
    name_of(k)
}

/// Things that are not what is asked for.
pub fn strangers(svm: &mut Svm, s: &mut Scene) -> Vec<(&'static str, Pubkey)> {
    let ms = key("a-multisig");
    make_multisig(svm, &mut s.w, ms, &s.p.uprog, 1, &[kp("payer")]);
    let ms2 = key("a-multisig-of-the-wrapped-program");
    make_multisig(svm, &mut s.w, ms2, &s.p.wprog, 1, &[kp("payer")]);
    let blob = key("a-blob");
    let mut a = s.w.get(&s.u("holder")).unwrap().clone();
    a.owner = key("some-program");
    s.w.set(blob, a);
    vec![
        ("nothing", key("nothing-here")),
        ("a wallet", kp("stranger")),
        ("the unwrapped mint", s.p.umint),
        ("the wrapped mint", s.p.wmint),
        ("a multisig", ms),
        ("a multisig of the wrapped program", ms2),
        ("another program's account laid out as a token account", blob),
        ("the backpointer", s.p.backptr),
        ("an account of another mint", s.other_acct),
        ("the payer's unwrapped account", s.u("payer")),
        ("the payer's wrapped account", s.wr("payer")),
        ("the escrow", s.p.escrow),
        ("a program", T22),
    ]
}

fn wraps(ctx: &Ctx, pool: &Pool, scenes: &[Scene]) {
    let mut cases = vec![];
    for s in scenes {
        let p = s.p;
        for mint in [None, Some(p.umint), Some(s.other)] {
            for uprog in [None, Some(p.uprog), Some(other_prog(&p.uprog))] {
                for dst in [None, Some(s.wr("stranger")), Some(s.other_acct)] {
                    for (src, auth) in [
                        ("payer", Who::Default), ("holder", Who::File("holder")), ("holder", Who::Address("holder")),
                        ("holder", Who::Default), ("payer", Who::File("holder")), ("payer", Who::File("payer")), ("payer", Who::Address("payer")),
                    ] {
                        for amount in [1, HELD] {
                            let m = Move { mint, uprog, dst, src: s.u(src), auth: auth.clone(), amount, ..Move::wrap(s, 0) };
                            cases.push(m.case(
                                format!("wrap {amount} of {src}'s {}->{}, mint {:?}, program {:?}, to {:?}, authority {auth:?}", short(&p.uprog), short(&p.wprog), mint.map(|k| short(&k)), uprog.map(|k| short(&k)), dst.map(|k| short(&k))),
                                &s.w, Format::Json,
                            ));
                        }
                    }
                }
            }
        }
    }
    decide(ctx, pool, "wrap", &cases);
}

fn unwraps(ctx: &Ctx, pool: &Pool, scenes: &[Scene]) {
    let mut cases = vec![];
    for s in scenes {
        let p = s.p;
        for mint in [None, Some(p.umint), Some(s.other), Some(p.wmint)] {
            for uprog in [None, Some(p.uprog), Some(other_prog(&p.uprog))] {
                for wprog in [None, Some(p.wprog), Some(other_prog(&p.wprog))] {
                    for (src, dst, auth) in [
                        ("payer", "payer", Who::Default), ("holder", "stranger", Who::File("holder")), ("holder", "holder", Who::Address("holder")),
                        ("holder", "payer", Who::Default), ("payer", "stranger", Who::File("holder")), ("payer", "stranger", Who::Address("payer")),
                    ] {
                        for amount in [1, HELD] {
                            let m = Move { mint, uprog, wprog, dst: Some(s.u(dst)), src: s.wr(src), auth: auth.clone(), amount, ..Move::unwrap(s, 0) };
                            cases.push(m.case(
                                format!("unwrap {amount} of {src}'s {}->{} to {dst}, mint {:?}, programs {:?} {:?}, authority {auth:?}", short(&p.wprog), short(&p.uprog), mint.map(|k| short(&k)), uprog.map(|k| short(&k)), wprog.map(|k| short(&k))),
                                &s.w, Format::Json,
                            ));
                        }
                    }
                }
            }
        }
    }
    decide(ctx, pool, "unwrap", &cases);
}

fn both(s: &Scene, amount: u64) -> [Move; 2] {
    [Move::wrap(s, amount), Move::unwrap(s, amount)]
}

fn amounts(ctx: &Ctx, pool: &Pool, scenes: &[Scene]) {
    let mut cases = vec![];
    for s in scenes {
        for a in [0, 1, 2, 255, 256, HELD - 1, HELD, HELD + 1, u32::MAX as u64, 1 << 32, u64::MAX - 1, u64::MAX] {
            for m in both(s, a) {
                cases.push(m.case(format!("amount {a}"), &s.w, Format::Json));
            }
        }
        // amounts that no double holds, in full
        let mut w = s.w.clone();
        let rich = 1u64 << 62;
        for k in [s.u("payer"), s.wr("payer"), s.p.escrow] {
            w.edit(&k, |a| a.data[64..72].copy_from_slice(&rich.to_le_bytes()));
        }
        for k in ["other-payer", "holder", "stranger"] {
            w.edit(&s.wr(k), |a| a.data[64..72].copy_from_slice(&[0; 8]));
        }
        fix_supply(&mut w, &s.p.umint);
        fix_supply(&mut w, &s.p.wmint);
        for a in [(1 << 53) - 1, (1 << 53) + 1, rich - 1, rich] {
            for m in both(s, a) {
                cases.push(m.case(format!("amount {a}"), &w, Format::Json));
            }
        }
        for bad in ["18446744073709551616", "-1", "1.5", "1e3", "abc", "", "1 ", "0x10", "1,000", "ALL"] {
            for m in both(s, 1) {
                let mut c = m.case(format!("amount {bad:?}"), &s.w, Format::Json);
                c.args[3] = bad.into();
                c.expect = Expect::Refuse;
                cases.push(c);
            }
        }
    }
    decide(ctx, pool, "amounts", &cases);
}

fn payers(ctx: &Ctx, pool: &Pool, scenes: &[Scene]) {
    let mut cases = vec![];
    for s in scenes {
        for payer in [Who::Default, Who::File("other-payer"), Who::Address("other-payer"), Who::Address("payer"), Who::File("payer")] {
            for auth in [Who::Default, Who::File("payer"), Who::File("other-payer"), Who::File("holder"), Who::Address("payer")] {
                for hash in [None, Some(HASH), Some(OLD_HASH), Some([77; 32])] {
                    for mut m in both(s, 7) {
                        m.payer = payer.clone();
                        m.auth = auth.clone();
                        m.hash = hash;
                        let holder = match &auth {
                            Who::Default => payer.key(),
                            a => a.key(),
                        };
                        let holder = ["payer", "other-payer", "holder"].into_iter().find(|n| kp(n) == holder).unwrap();
                        m.src = if m.unwrap { s.wr(holder) } else { s.u(holder) };
                        let w = format!("{} paid by {payer:?}, authority {auth:?}, blockhash {:?}", if m.unwrap { "unwrap" } else { "wrap" }, hash.map(|h| h[0]));
                        cases.push(m.case(w, &s.w, Format::Json));
                    }
                }
            }
        }
    }
    // where the address of the node and the payer come from
    let s = &scenes[0];
    for (cfg_url, cfg_payer) in [("@url", "payer"), ("@url", "other-payer"), ("http://127.0.0.1:9", "payer"), ("http://127.0.0.1:9", "other-payer")] {
        for url in [None, Some("@url")] {
            for mut m in both(s, 7) {
                let payer = if cfg_payer == "payer" { Who::Default } else { Who::File("other-payer") };
                m.payer = payer.clone();
                m.src = if m.unwrap { s.wr(cfg_payer) } else { s.u(cfg_payer) };
                let mut c = m.case(format!("configuration names {cfg_url} and {cfg_payer}, -u {url:?}"), &s.w, Format::Json);
                let f = format!("config-{}-{cfg_payer}.yml", cfg_url == "@url");
                c.global = vec!["-C".into(), format!("@dir/{f}")];
                if let Some(u) = url {
                    c.global.extend(["-u".into(), u.into()]);
                } else if cfg_url != "@url" {
                    c.expect = Expect::Refuse;
                }
                cases.push(c);
            }
        }
    }
    let mut c = Move::wrap(s, 7).case("the configuration file does not exist", &s.w, Format::Json);
    c.global = vec!["-C".into(), "@dir/no-such-config.yml".into()];
    c.expect = Expect::Refuse;
    cases.push(c);
    decide(ctx, pool, "payers", &cases);
}

fn wrong_kinds(ctx: &Ctx, pool: &Pool, scenes: &[Scene]) {
    let mut cases = vec![];
    for s in scenes {
        let mut s = s.clone();
        let st = pool.one(|svm| strangers(svm, &mut s));
        for (what, k) in &st {
            for m in both(&s, 5) {
                let name = if m.unwrap { "unwrap" } else { "wrap" };
                let src = Move { src: *k, ..m.clone() };
                cases.push(loose(src.case(format!("{name} from {what}"), &s.w, Format::Json), k));
                let dst = Move { dst: Some(*k), ..m.clone() };
                cases.push(loose(dst.case(format!("{name} to {what}"), &s.w, Format::Json), k));
                let mint = Move { mint: Some(*k), ..m.clone() };
                cases.push(loose(mint.case(format!("{name} of mint {what}"), &s.w, Format::Json), k));
                let full = Move { src: *k, mint: Some(s.p.umint), uprog: Some(s.p.uprog), ..m.clone() };
                cases.push(loose(full.case(format!("{name} from {what}, everything given"), &s.w, Format::Json), k));
            }
        }
        // a program that is no token program
        for bad in [SYS, ATA, TW, kp("stranger"), s.p.umint] {
            for m in both(&s, 5) {
                let mut c = Move { uprog: Some(bad), ..m.clone() }.case(format!("unwrapped program {}", short(&bad)), &s.w, Format::Json);
                c.expect = Expect::Refuse;
                cases.push(c);
                let mut c = Move { wprog: Some(bad), ..m.clone() }.case(format!("wrapped program {}", short(&bad)), &s.w, Format::Json);
                c.expect = Expect::Refuse;
                cases.push(c);
            }
        }
        // the pair is not ready
        for (what, k) in [("wrapped mint", s.p.wmint), ("escrow", s.p.escrow), ("unwrapped mint", s.p.umint), ("source", s.u("payer")), ("wrapped account", s.wr("payer"))] {
            let mut w = s.w.clone();
            w.acc.remove(&k);
            for m in both(&s, 5) {
                cases.push(m.case(format!("without {what}"), &w, Format::Json));
            }
        }
    }
    // keep the block from being all refusals
    cases.push(Move::wrap(&scenes[0], 5).case("as it should be", &scenes[0].w, Format::Json));
    decide(ctx, pool, "wrong-kind", &cases);
}
/// A program's account is known to the node though not in the world: what the
/// CLI makes of it may fail before or after submission.
fn loose(mut c: Case, k: &Pubkey) -> Case {
    let blob = c.world.get(k).is_some_and(|a| a.owner == key("some-program"));
    if *k == T22 || blob {
        c.expect = Expect::Fail;
    }
    c
}

fn formats(ctx: &Ctx, pool: &Pool, scenes: &[Scene]) {
    let mut cases = vec![];
    for s in scenes {
        for f in FORMATS {
            for m in both(s, 7) {
                cases.push(m.case(format!("{f:?}"), &s.w, f));
            }
            for e in find_pdas(s, f) {
                cases.push(e);
            }
        }
    }
    decide(ctx, pool, "formats", &cases);
}

pub fn find_pdas(s: &Scene, f: Format) -> Vec<Case> {
    let mut v = vec![];
    for (m, known) in [(s.p.umint, true), (s.other, true), (s.p.wmint, true), (key("nothing-here"), false)] {
        for wprog in [TOKEN, T22] {
            let uprog = s.w.get(&m).map_or(SYS, |a| a.owner);
            let p = Pair::new(m, uprog, wprog);
            let want = Want::new(kp("payer"), vec![])
                .pk("wrappedMintAddress", &p.wmint)
                .pk("wrappedMintAuthority", &p.auth)
                .pk("wrappedBackpointerAddress", &p.backptr)
                .pk("unwrappedEscrow", &p.escrow);
            v.push(Case {
                what: format!("find-pdas {} {f:?}", short(&m)),
                world: s.w.clone(),
                global: vec![],
                args: strs(&["find-pdas", &m.to_string(), &wprog.to_string()]),
                format: f,
                expect: if known { Expect::Nothing(want) } else { Expect::Refuse },
            });
        }
    }
    v
}

fn exts(ctx: &Ctx, pool: &Pool) {
    let mut cases = vec![];
    let sets: Vec<Vec<Ext>> = vec![
        vec![Ext::fee(1234, 40)], vec![Ext::Close], vec![Ext::PermDelegate, Ext::Pausable { paused: false }], vec![Ext::Pausable { paused: true }],
        vec![Ext::Interest], vec![Ext::ScaledUi], vec![Ext::MetaPtr(Some(key("elsewhere")))], vec![Ext::Hook(None)], vec![Ext::Confidential],
    ];
    for wprog in [TOKEN, T22] {
        for e in &sets {
            let s = pool.one(|svm| scene(svm, T22, wprog, e));
            for a in [1, 7, HELD] {
                for m in both(&s, a) {
                    cases.push(m.case(format!("{a} of a mint with {e:?}"), &s.w, Format::Json));
                }
            }
        }
    }
    decide(ctx, pool, "extensions", &cases);
}

// ---- close-stuck-escrow --------------------------------------------------------------
pub fn stuck(svm: &mut Svm, wprog: Pubkey) -> Scene {
    let mut s = scene(svm, T22, wprog, &[]);
    // everything has been unwrapped, and the mint made anew with a fee
    for k in [s.p.escrow] {
        s.w.edit(&k, |a| a.data[64..72].fill(0));
    }
    for who in ["payer", "other-payer", "holder", "stranger"] {
        let k = s.wr(who);
        s.w.edit(&k, |a| a.data[64..72].fill(0));
    }
    s.w.edit(&s.p.wmint, |a| a.data[36..44].fill(0));
    s.w.acc.remove(&s.p.umint);
    make_mint(svm, &mut s.w, &MintSpec::new(s.p.umint, T22).exts(&[Ext::fee(100, 10)])).unwrap();
    s
}
pub fn close_case(s: &Scene, mint: &Pubkey, dest: &Pubkey, wprog: &Pubkey, payer: Who, format: Format, what: String) -> Case {
    let expect = match s.w.get(mint) {
        Some(a) if a.owner == T22 => {
            let p = Pair::new(*mint, T22, *wprog);
            let mut w = Want::new(payer.key(), vec![tw::close_stuck(&p, dest)]).pk("unwrappedMint", mint).pk("escrowAccount", &p.escrow);
            w.signable = payer.signs();
            Expect::Submit(w)
        }
        _ => Expect::Refuse,
    };
    Case {
        what,
        world: s.w.clone(),
        global: payer.arg().map_or(vec![], |a| vec!["--fee-payer".into(), a]),
        args: strs(&["close-stuck-escrow", &mint.to_string(), &dest.to_string(), &wprog.to_string()]),
        format,
        expect,
    }
}
fn closes(ctx: &Ctx, pool: &Pool) {
    let mut cases = vec![];
    for wprog in [TOKEN, T22] {
        let stuck = pool.one(|svm| stuck(svm, wprog));
        let fresh = pool.one(|svm| scene(svm, T22, wprog, &[]));
        let empty = {
            let mut s = fresh.clone();
            s.w.edit(&s.p.escrow, |a| a.data[64..72].fill(0));
            s
        };
        let spl = pool.one(|svm| scene(svm, TOKEN, wprog, &[]));
        let mut none = stuck.clone();
        none.w.acc.remove(&none.p.escrow);
        for (n, s) in [("stuck", &stuck), ("in use", &fresh), ("empty", &empty), ("of an SPL Token mint", &spl), ("missing", &none)] {
            for dest in [kp("payer"), kp("stranger"), key("new-wallet"), s.p.escrow, s.p.auth, s.u("holder")] {
                for wp in [TOKEN, T22] {
                    cases.push(close_case(s, &s.p.umint, &dest, &wp, Who::Default, Format::Json, format!("escrow {n}, to {}, wrapped program {}", short(&dest), short(&wp))));
                }
            }
        }
        for payer in [Who::File("other-payer"), Who::Address("other-payer")] {
            cases.push(close_case(&stuck, &stuck.p.umint, &kp("stranger"), &wprog, payer.clone(), Format::Json, format!("paid by {payer:?}")));
        }
        for f in FORMATS {
            cases.push(close_case(&stuck, &stuck.p.umint, &kp("stranger"), &wprog, Who::Default, f, format!("{f:?}")));
        }
        let mut s = stuck.clone();
        for (what, k) in pool.one(|svm| strangers(svm, &mut s)) {
            let mut c = close_case(&s, &k, &kp("stranger"), &wprog, Who::Default, Format::Json, format!("mint {what}"));
            if k != s.p.umint && !matches!(c.expect, Expect::Refuse) {
                c.expect = Expect::Fail;
            }
            cases.push(c);
        }
    }
    decide(ctx, pool, "close-stuck-escrow", &cases);
}

pub fn run(ctx: &Ctx, pool: &Pool) {
    let scenes: Vec<Scene> = PROGS.iter().map(|(u, w)| pool.one(|svm| scene(svm, *u, *w, &[]))).collect();
    ctx.bound("wrap and unwrap: 4 program pairs x presence and correctness of every option x 6-7 source/authority combinations x 2 amounts; 26 amounts; 5 payers x 5 authorities x 4 blockhashes; 13 wrong accounts in every position; 7 output formats; 9 extension sets; close-stuck-escrow: 5 escrow states x 6 destinations x both programs; find-pdas");
    wraps(ctx, pool, &scenes);
    unwraps(ctx, pool, &scenes);
    amounts(ctx, pool, &scenes);
    payers(ctx, pool, &scenes);
    wrong_kinds(ctx, pool, &scenes);
    formats(ctx, pool, &scenes);
    exts(ctx, pool);
    closes(ctx, pool);
}
