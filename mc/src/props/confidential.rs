//! C27: confidential balances of wrapped tokens.
//!
//! The proof program is an oracle here: it certifies exactly the true statements.
//! A step that needs proofs finds verified contexts in accounts of the proof
//! program, as after real verification, and they are gone afterwards. Amounts are
//! committed to with opening zero, deposits by the token program with opening one.
use crate::{bfs::*, core::*, report::Ctx, tok::*, tw::*};
use solana_account::Account;
use solana_instruction::Instruction;
use solana_pubkey::Pubkey;
use solana_zk_sdk_pod::encryption::{
    auth_encryption::PodAeCiphertext,
    elgamal::{PodElGamalCiphertext, PodElGamalPubkey},
};
use spl_token_2022_interface::{
    extension::{
        confidential_transfer::{instruction as ci, ConfidentialTransferAccount},
        BaseStateWithExtensions, ExtensionType, PodStateWithExtensions,
    },
    instruction as ti,
    pod::{PodAccount, PodMint},
};
use spl_token_confidential_transfer_proof_extraction::instruction::ProofLocation;
use std::{cell::RefCell, collections::HashMap};

const ZK: Pubkey = Pubkey::from_str_const("ZkE1Gama1Proof11111111111111111111111111111");
/// Small balances that are read back from their commitments.
const SMALL: u64 = 40;
const MAX_CREDITS: u64 = 2;

/// What a deposit's opening has become once it is applied: lo + 2^16 hi.
const APPLIED: u64 = 65_537;

type Table = HashMap<[u8; 32], (u64, u64)>;
thread_local! {
    static POINTS: RefCell<(HashMap<(u64, u64), [u8; 32]>, Table)> = RefCell::default();
}
/// The commitment to n with opening r: n G + r H.
fn com_r(n: u64, r: u64) -> [u8; 32] {
    if let Some(x) = POINTS.with(|c| c.borrow().0.get(&(n, r)).copied()) {
        return x;
    }
    use curve25519_dalek::{ristretto::{CompressedRistretto, RistrettoPoint}, scalar::Scalar};
    const H: [u8; 32] = [
        140, 146, 64, 180, 86, 169, 230, 220, 101, 195, 119, 161, 4, 141, 116, 95, 148, 160, 140, 219, 127, 68, 203, 205, 123, 70, 243, 64, 72, 135, 17, 52,
    ];
    let mut p = RistrettoPoint::mul_base(&Scalar::from(n));
    if r > 0 {
        p += CompressedRistretto(H).decompress().unwrap() * Scalar::from(r);
    }
    let x = p.compress().to_bytes();
    POINTS.with(|c| {
        let mut c = c.borrow_mut();
        c.0.insert((n, r), x);
        c.1.insert(x, (n, r));
    });
    x
}
fn com(n: u64) -> [u8; 32] {
    com_r(n, 0)
}
/// The amount and the opening of a small balance.
fn uncom(x: &[u8]) -> Option<(u64, u64)> {
    if POINTS.with(|c| !c.borrow().0.contains_key(&(SMALL - 1, 9 * APPLIED))) {
        for n in 0..SMALL {
            for r in (0..=MAX_CREDITS).chain((1..10).map(|k| k * APPLIED)) {
                com_r(n, r);
            }
        }
    }
    POINTS.with(|c| c.borrow().1.get(x).copied())
}
/// The ciphertext of n with opening r for the key k G: commitment and handle.
fn ct(n: u64, r: u64, k: u64) -> [u8; 64] {
    let mut out = [0; 64];
    out[..32].copy_from_slice(&com_r(n, r));
    out[32..].copy_from_slice(&com(r * k));
    out
}
fn ae(n: u64) -> PodAeCiphertext {
    let mut b = [0; 36];
    b[..8].copy_from_slice(&n.to_le_bytes());
    PodAeCiphertext(b)
}

fn proof(w: &mut World, name: &str, ty: u8, parts: &[&[u8]]) -> Pubkey {
    let k = key(name);
    let mut data = key("prover").to_bytes().to_vec();
    data.push(ty);
    for p in parts {
        data.extend_from_slice(p);
    }
    w.set(k, Account { lamports: 10_000_000, owner: ZK, data, ..Default::default() });
    k
}
fn range(w: &mut World, ty: u8, com: &[([u8; 32], u8)]) -> Pubkey {
    let (mut c, mut b) = ([0u8; 256], [0u8; 8]);
    for (i, (x, n)) in com.iter().enumerate() {
        c[i * 32..][..32].copy_from_slice(x);
        b[i] = *n;
    }
    proof(w, "proof-range", ty, &[&c, &b])
}
fn proved(mut w: World) -> World {
    for k in ["proof-range", "proof-equal", "proof-valid", "proof-key"] {
        w.acc.remove(&key(k));
    }
    w
}

/// A holder: the owner of the accounts and, for a multisig, who signs.
#[derive(Clone, Debug)]
pub struct Who {
    owner: Pubkey,
    members: Vec<Pubkey>,
    /// the encryption key is elgamal G
    elgamal: u64,
}
impl Who {
    fn auth(&self) -> Auth {
        if self.members.is_empty() {
            Auth::single(&self.owner)
        } else {
            Auth::multi(&self.owner, &self.members)
        }
    }
    fn as_signed_by(&self, k: &Pubkey) -> Who {
        Who { owner: *k, members: vec![], elgamal: self.elgamal }
    }
}

/// What an account's confidential extension says.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Conf {
    approved: bool,
    pending: u64,
    available: u64,
    open: u64,
    shown: u64,
    credits: u64,
    conf: bool,
    plain: bool,
}
impl Conf {
    fn have(&self) -> (u64, u64) {
        (self.available, self.open)
    }
}
fn conf_of(w: &World, k: &Pubkey) -> Result<Option<Conf>, String> {
    let a = w.get(k).ok_or("no account")?;
    let st = PodStateWithExtensions::<PodAccount>::unpack(&a.data).map_err(|e| e.to_string())?;
    let Ok(x) = st.get_extension::<ConfidentialTransferAccount>() else { return Ok(None) };
    let rd = |b: &PodElGamalCiphertext| {
        let (n, r) = uncom(&b.0[..32]).ok_or("a balance that no step made")?;
        let key = x.elgamal_pubkey.0;
        if !(0..2).any(|h| key == com(1000 + h) && b.0[32..] == com(r * (1000 + h))) {
            return Err("a balance that its holder cannot read".to_string());
        }
        Ok((n, r))
    };
    let (available, open) = rd(&x.available_balance)?;
    Ok(Some(Conf {
        approved: x.approved.into(),
        pending: rd(&x.pending_balance_lo)?.0 + (rd(&x.pending_balance_hi)?.0 << 16),
        available,
        open,
        shown: u64::from_le_bytes(x.decryptable_available_balance.0[..8].try_into().unwrap()),
        credits: x.pending_balance_credit_counter.into(),
        conf: x.allow_confidential_credits.into(),
        plain: x.allow_non_confidential_credits.into(),
    }))
}

/// A token account of a mint with confidential transfers.
#[derive(Clone, Copy)]
struct At<'a> {
    mint: Pubkey,
    acct: Pubkey,
    who: &'a Who,
    dec: u8,
}
type Built = (World, Vec<Instruction>);
impl At<'_> {
    fn main(&self) -> (Pubkey, Vec<&Pubkey>) {
        (self.who.owner, self.who.members.iter().collect())
    }
    fn configure(&self, w: &World) -> Built {
        let mut w = w.clone();
        let (o, m) = self.main();
        let k = proof(&mut w, "proof-key", 4, &[&com(self.who.elgamal)]);
        let r = ti::reallocate(&T22, &self.acct, &key("payer"), &o, &m, &[ExtensionType::ConfidentialTransferAccount]).unwrap();
        let c = ci::inner_configure_account(&T22, &self.acct, &self.mint, &ae(0), MAX_CREDITS, &o, &m, ProofLocation::ContextStateAccount(&k)).unwrap();
        (w, vec![r, c])
    }
    fn deposit(&self, w: &World, n: u64) -> Built {
        let (o, m) = self.main();
        (w.clone(), vec![ci::deposit(&T22, &self.acct, &self.mint, n, self.dec, &o, &m).unwrap()])
    }
    fn apply(&self, w: &World, credits: u64, now: u64) -> Built {
        let (o, m) = self.main();
        (w.clone(), vec![ci::inner_apply_pending_balance(&T22, &self.acct, credits, &ae(now), &o, &m).unwrap()])
    }
    fn withdraw(&self, w: &World, (have, open): (u64, u64), n: u64) -> Built {
        let mut w = w.clone();
        let (o, m) = self.main();
        let rest = have - n;
        let e = proof(&mut w, "proof-equal", 3, &[&com(self.who.elgamal), &ct(rest, open, self.who.elgamal), &com(rest)]);
        let r = range(&mut w, 6, &[(com(rest), 64)]);
        let i = ci::inner_withdraw(&T22, &self.acct, &self.mint, n, self.dec, &ae(rest), &o, &m, ProofLocation::ContextStateAccount(&e), ProofLocation::ContextStateAccount(&r)).unwrap();
        (w, vec![i])
    }
    fn send(&self, w: &World, to: &At, (have, open): (u64, u64), n: u64, auditor: [u8; 32]) -> Built {
        let mut w = w.clone();
        let (o, m) = self.main();
        let (rest, lo, hi) = (have - n, n & 0xffff, n >> 16);
        let e = proof(&mut w, "proof-equal", 3, &[&com(self.who.elgamal), &ct(rest, open, self.who.elgamal), &com(rest)]);
        let g = |n: u64| {
            let mut b = [0; 128];
            b[..32].copy_from_slice(&com(n));
            b
        };
        let v = proof(&mut w, "proof-valid", 12, &[&com(self.who.elgamal), &com(to.who.elgamal), &auditor, &g(lo), &g(hi)]);
        let r = range(&mut w, 7, &[(com(rest), 64), (com(lo), 16), (com(hi), 32), (com(0), 16)]);
        let i = ci::inner_transfer(
            &T22, &self.acct, &self.mint, &to.acct, &ae(rest), &PodElGamalCiphertext(ct(lo, 0, 0)), &PodElGamalCiphertext(ct(hi, 0, 0)), &o, &m,
            ProofLocation::ContextStateAccount(&e), ProofLocation::ContextStateAccount(&v), ProofLocation::ContextStateAccount(&r),
        )
        .unwrap();
        (w, vec![i])
    }
    fn credits(&self, w: &World, confidential: bool, on: bool) -> Built {
        let (o, m) = self.main();
        let f = match (confidential, on) {
            (true, true) => ci::enable_confidential_credits,
            (true, false) => ci::disable_confidential_credits,
            (false, true) => ci::enable_non_confidential_credits,
            (false, false) => ci::disable_non_confidential_credits,
        };
        (w.clone(), vec![f(&T22, &self.acct, &o, &m).unwrap()])
    }
}

struct Scene {
    name: String,
    u: MintSpec,
    p: Pair,
    who: [Who; 2],
    /// what the wrapped mint's confidential settings must stay
    settings: Vec<u8>,
    start: World,
}
impl Scene {
    fn w(&self, x: usize) -> At<'_> {
        At { mint: self.p.wmint, acct: key(&format!("cw{x}")), who: &self.who[x], dec: self.u.decimals }
    }
    fn u(&self, x: usize) -> At<'_> {
        At { mint: self.p.umint, acct: key(&format!("cu{x}")), who: &self.who[x], dec: self.u.decimals }
    }
    fn both(&self) -> bool {
        self.u.exts.contains(&Ext::Confidential)
    }
}
fn settings(w: &World, mint: &Pubkey) -> Vec<u8> {
    w.get(mint)
        .and_then(|a| PodStateWithExtensions::<PodMint>::unpack(&a.data).ok()?.get_extension_bytes::<spl_token_2022_interface::extension::confidential_transfer::ConfidentialTransferMint>().ok().map(|b| b.to_vec()))
        .unwrap_or_default()
}

/// Scenes made through the program itself: `have` unwrapped tokens each.
fn scene(svm: &mut Svm, name: &str, prog: Pubkey, exts: &[Ext], multi: bool, have: u64) -> Result<Scene, String> {
    let mut w = World { epoch: 2, ..Default::default() };
    let u = MintSpec::new(key("umint"), prog).exts(exts);
    make_mint(svm, &mut w, &u).unwrap();
    let p = Pair::new(u.key, prog, T22);
    w.fund(key("payer"), 1_000_000_000_000);
    let n = svm.rent(400);
    w.fund(p.wmint, n);
    w.fund(p.backptr, n);
    svm.try_apply(&mut w, &[create_mint(&p, false)]).map_err(|e| format!("{name}: creating the wrapped mint failed: {e}"))?;
    make_escrow(svm, &mut w, &p).unwrap();
    let mut who = vec![];
    for (x, n) in ["alice", "bob"].iter().enumerate() {
        let e = 1000 + x as u64;
        if multi && x == 0 {
            // two of three, one key for each program
            let ms = [key("ms0"), key("ms1"), key("ms2")];
            make_multisig(svm, &mut w, key("alice-ms"), &T22, 2, &ms);
            who.push(Who { owner: key("alice-ms"), members: vec![ms[2], ms[0]], elgamal: e });
        } else {
            who.push(Who { owner: key(n), members: vec![], elgamal: e });
        }
    }
    let who: [Who; 2] = who.try_into().unwrap();
    let mut s = Scene { name: name.into(), u, p, who, settings: vec![], start: w };
    for x in 0..2 {
        let mut w = s.start.clone();
        make_account(svm, &mut w, &AcctSpec::new(s.w(x).acct, p.wmint, s.who[x].owner, 0)).map_err(|e| format!("{name}: no account of the wrapped mint can be made: {e}"))?;
        make_account(svm, &mut w, &AcctSpec::new(s.u(x).acct, p.umint, s.who[x].owner, have)).unwrap();
        s.start = w;
    }
    fix_supply(&mut s.start, &p.umint);
    s.settings = settings(&s.start, &p.wmint);
    Ok(s)
}

struct Books {
    plain: [u64; 2],
    conf: [Option<Conf>; 2],
}
fn books(s: &Scene, w: &World) -> Result<Books, String> {
    let mut b = Books { plain: [0; 2], conf: [None; 2] };
    for x in 0..2 {
        b.plain[x] = amount(w, &s.w(x).acct).ok_or("wrapped account gone")?;
        b.conf[x] = conf_of(w, &s.w(x).acct)?;
    }
    Ok(b)
}

enum Want {
    /// exactly the ledger of the token programs' own steps, or refused
    Tokens(Result<World, String>),
    /// must succeed: change of plain, pending and available per holder
    Moves([(i64, i64, i64); 2]),
    /// refused
    Refused,
    /// as the token program likes; the invariants are checked
    Any,
}
struct Op {
    label: String,
    build: Built,
    want: Want,
}

fn ops(svm: &mut Svm, s: &Scene, w: &World, b: &Books) -> Vec<Op> {
    let mut v = vec![];
    let some = |n: u64| {
        let mut a = vec![1, n];
        a.retain(|x| *x > 0 && *x <= n);
        a.dedup();
        a
    };
    for x in 0..2 {
        let (me, un, auth) = (s.w(x), s.u(x), s.who[x].auth());
        let n = name_of(&s.who[x].owner);
        let have = amount(w, &un.acct).unwrap_or(0);
        let mut a = some(have);
        a.push(have + 1);
        for a in a {
            let want = spec_wrap(svm, w, &s.p, &un.acct, &me.acct, &auth, &[], a);
            v.push(Op { label: format!("{n} wraps {a}"), build: (w.clone(), vec![wrap(&s.p, &un.acct, &me.acct, &auth, &[], a)]), want: Want::Tokens(want) });
        }
        // never what is confidential
        let plain = b.plain[x];
        let mut a = some(plain);
        a.push(plain + 1);
        if let Some(c) = b.conf[x] {
            a.push(plain + c.pending + c.available);
        }
        a.sort();
        a.dedup();
        for a in a.into_iter().filter(|a| *a > 0) {
            let want = if a > plain { Err("more than the plain balance".into()) } else { spec_unwrap(svm, w, &s.p, &me.acct, &un.acct, &auth, &[], a) };
            v.push(Op { label: format!("{n} unwraps {a}"), build: (w.clone(), vec![unwrap(&s.p, &me.acct, &un.acct, &auth, &[], a)]), want: Want::Tokens(want) });
        }
        if plain > 0 {
            let t = transfer_checked(&T22, &me.acct, &s.p.wmint, &s.w(1 - x).acct, auth.main.clone(), &auth.members, 1, s.u.decimals);
            v.push(Op { label: format!("{n} sends 1 openly"), build: (w.clone(), vec![t]), want: Want::Any });
        }
        let moves = |m: (i64, i64, i64)| {
            let mut d = [(0, 0, 0); 2];
            d[x] = m;
            Want::Moves(d)
        };
        let Some(c) = b.conf[x] else {
            v.push(Op { label: format!("{n} configures"), build: me.configure(w), want: moves((0, 0, 0)) });
            continue;
        };
        for a in some(plain) {
            let ok = c.conf && c.credits < MAX_CREDITS;
            v.push(Op { label: format!("{n} deposits {a}"), build: me.deposit(w, a), want: if ok { moves((-(a as i64), a as i64, 0)) } else { Want::Refused } });
        }
        v.push(Op { label: format!("{n} deposits more than the plain balance"), build: me.deposit(w, plain + 1), want: Want::Refused });
        if c.credits > 0 {
            let q = c.pending as i64;
            v.push(Op { label: format!("{n} applies"), build: me.apply(w, c.credits, c.available + c.pending), want: moves((0, -q, q)) });
        }
        for a in some(c.available) {
            v.push(Op { label: format!("{n} withdraws {a}"), build: me.withdraw(w, c.have(), a), want: moves((a as i64, 0, -(a as i64))) });
            if let Some(d) = b.conf[1 - x] {
                let mut m = [(0, 0, 0); 2];
                m[x].2 = -(a as i64);
                m[1 - x].1 = a as i64;
                let ok = d.conf && d.credits < MAX_CREDITS;
                v.push(Op { label: format!("{n} sends {a} confidentially"), build: me.send(w, &s.w(1 - x), c.have(), a, [0; 32]), want: if ok { Want::Moves(m) } else { Want::Refused } });
            }
        }
        for (conf, on) in [(true, !c.conf), (false, !c.plain)] {
            v.push(Op { label: format!("{n} {} {} credits", if on { "enables" } else { "disables" }, if conf { "confidential" } else { "open" }), build: me.credits(w, conf, on), want: moves((0, 0, 0)) });
        }
        // the unwrapped side has confidential balances as well
        if s.both() {
            match conf_of(w, &un.acct).ok().flatten() {
                None => v.push(Op { label: format!("{n} configures the unwrapped account"), build: un.configure(w), want: Want::Any }),
                Some(c) => {
                    if have > 0 {
                        v.push(Op { label: format!("{n} deposits 1 unwrapped"), build: un.deposit(w, 1), want: Want::Any });
                    }
                    if c.credits > 0 {
                        v.push(Op { label: format!("{n} applies unwrapped"), build: un.apply(w, c.credits, c.available + c.pending), want: Want::Any });
                    }
                    if c.available > 0 {
                        v.push(Op { label: format!("{n} withdraws 1 unwrapped"), build: un.withdraw(w, c.have(), 1), want: Want::Any });
                    }
                    v.push(Op { label: format!("{n} {} open credits of the unwrapped account", if c.plain { "disables" } else { "enables" }), build: un.credits(w, false, !c.plain), want: Want::Any });
                }
            }
        }
    }
    v
}

/// What holds in every state: the wrapped supply is the holders' plain and
/// confidential balances together and lies in the escrow; nobody waits for leave.
fn invariant(s: &Scene, w: &World) -> Result<Books, String> {
    let b = books(s, w)?;
    let mut sum = 0;
    for x in 0..2 {
        sum += b.plain[x];
        if let Some(c) = b.conf[x] {
            sum += c.pending + c.available;
            if !c.approved {
                return Err(format!("{}'s account waits for an approval", name_of(&s.who[x].owner)));
            }
        }
    }
    let (n, e) = (supply(w, &s.p.wmint).unwrap_or(u64::MAX), escrow_amount(w, &s.p).unwrap_or(0));
    if n != sum {
        return Err(format!("the wrapped supply is {n}, the holders have {sum}"));
    }
    if n != e {
        return Err(format!("the wrapped supply is {n}, the escrow holds {e}"));
    }
    if settings(w, &s.p.wmint) != s.settings {
        return Err("the mint's confidential settings changed".into());
    }
    Ok(b)
}

fn redeem(ctx: &Ctx, svm: &mut Svm, s: &Scene, n: &Node) {
    let mut w = n.w.clone();
    for x in 0..2 {
        let (me, un) = (s.w(x), s.u(x));
        let name = name_of(&s.who[x].owner);
        let go = |svm: &mut Svm, what: &str, (pw, ixs): Built, w: &mut World| {
            ctx.step();
            let e = svm.exec(&pw, &ixs);
            match e.res {
                Ok(()) => *w = proved(e.world),
                Err(m) => ctx.violate("stuck", format!("{}: {name} cannot {what}: {m}; history: {:?}", s.name, n.history()), &pw, &ixs),
            }
        };
        if let Ok(Some(c)) = conf_of(&w, &me.acct) {
            if c.credits > 0 {
                go(svm, "apply what is pending", me.apply(&w, c.credits, c.available + c.pending), &mut w);
            }
            let have = c.available + c.pending;
            if have > 0 {
                let Ok(Some(c)) = conf_of(&w, &me.acct) else { return };
                go(svm, &format!("withdraw {have}"), me.withdraw(&w, c.have(), have), &mut w);
            }
        }
        // restrictions the holder put on the own account aside
        if s.both() && matches!(conf_of(&w, &un.acct), Ok(Some(c)) if !c.plain) {
            go(svm, "enable open credits", un.credits(&w, false, true), &mut w);
        }
        let all = amount(&w, &me.acct).unwrap_or(0);
        if all > 0 {
            let b = (w.clone(), vec![unwrap(&s.p, &me.acct, &un.acct, &s.who[x].auth(), &[], all)]);
            go(svm, &format!("unwrap {all}"), b, &mut w);
        }
    }
    if supply(&w, &s.p.wmint) != Some(0) {
        ctx.violate("left", format!("{}: after everyone redeemed the wrapped supply is {:?}; history: {:?}", s.name, supply(&w, &s.p.wmint), n.history()), &n.w, &[]);
    }
}

/// Runs one operation and judges it; the successor if it succeeded.
fn judge(ctx: &Ctx, svm: &mut Svm, s: &Scene, w: &World, b: &Books, o: &Op, hist: &[String]) -> Option<World> {
    ctx.step();
    let e = svm.exec(&o.build.0, &o.build.1);
    let next = proved(e.world);
    let fail = |sig: &str, what: String| ctx.violate(sig, format!("{}: '{}' {what}; after {hist:?}", s.name, o.label), &o.build.0, &o.build.1);
    match (&o.want, &e.res) {
        (Want::Tokens(want), got) => {
            ctx.trace();
            match (want, got) {
                (Ok(m), Ok(())) => {
                    let d = diff(m, &next);
                    if !d.is_empty() {
                        fail("ledger", format!("differs from the token programs' own steps: {}", d.join("; ")));
                    }
                }
                (Ok(_), Err(m)) => fail("refused", format!("refused: {m}")),
                (Err(m), Ok(())) => fail("accepted", format!("accepted, though: {m}")),
                (Err(_), Err(_)) => {}
            }
        }
        (Want::Moves(_), Err(m)) => fail("needs-leave", format!("refused: {m}")),
        (Want::Moves(d), Ok(())) => match books(s, &next) {
            Err(m) => fail("books", m),
            Ok(n) => {
                for x in 0..2 {
                    let of = |b: &Books| (b.plain[x] as i64, b.conf[x].map_or(0, |c| c.pending as i64), b.conf[x].map_or(0, |c| c.available as i64));
                    let (a, z) = (of(b), of(&n));
                    let got = (z.0 - a.0, z.1 - a.1, z.2 - a.2);
                    if got != d[x] {
                        fail("moves", format!("changed plain, pending, available of holder {x} by {got:?} instead of {:?}", d[x]));
                    }
                }
            }
        },
        (Want::Refused, Ok(())) => fail("accepted", "accepted".into()),
        _ => {}
    }
    if e.res.is_err() {
        if next.hash() != proved(w.clone()).hash() {
            fail("failed-but-changed", "failed but changed the ledger".into());
        }
        return None;
    }
    ctx.accept();
    if let Err(m) = invariant(s, &next) {
        fail("invariant", format!("leaves {m}"));
        return None;
    }
    Some(next)
}

pub fn run(ctx: &Ctx, pool: &Pool) {
    let fee = Ext::fee(2500, 1000);
    let plan: Vec<(&str, Pubkey, Vec<Ext>, bool)> = vec![
        ("spl-token", TOKEN, vec![], false),
        ("t22", T22, vec![], true),
        ("t22-fee25%", T22, vec![fee.clone()], false),
        ("t22-confidential", T22, vec![Ext::Confidential], false),
        ("t22-close+permanent-delegate+pausable", T22, vec![Ext::Close, Ext::PermDelegate, Ext::Pausable { paused: false }], true),
    ];
    let depth = if ctx.thorough { 6 } else { 4 };
    for (name, prog, exts, multi) in &plan {
        let s = match pool.one(|svm| scene(svm, name, *prog, exts, *multi, 4)) {
            Ok(s) => s,
            Err(m) => {
                ctx.violate("set-up", m, &World::default(), &[]);
                continue;
            }
        };
        // from nothing, from two configured accounts, from balances of every kind
        let mut roots = vec![Node::root(s.start.clone())];
        let long: &[&[&str]] = &[
            &["alice wraps 4", "alice configures", "bob configures"],
            &["alice wraps 4", "alice configures", "bob configures", "alice deposits ALL", "alice applies", "alice sends 1 confidentially", "alice withdraws 1", "bob wraps 1"],
        ];
        for h in long {
            let got = pool.one(|svm| {
                let mut n = Node::root(s.start.clone());
                for step in *h {
                    let b = invariant(&s, &n.w).ok()?;
                    let all = step.replace("ALL", &b.plain[0].to_string()).replace("alice", &name_of(&s.who[0].owner));
                    let o = ops(svm, &s, &n.w, &b).into_iter().find(|o| o.label == all)?;
                    let w = judge(ctx, svm, &s, &n.w, &b, &o, &n.history())?;
                    n = n.next(o.label, w, 0);
                }
                Some(n)
            });
            match got {
                Some(mut n) => {
                    n.depth = 0;
                    roots.push(n);
                }
                None if ctx.violations() == 0 => ctx.violate("prefix", format!("{}: the history {h:?} is not possible", s.name), &s.start, &[]),
                None => {}
            }
        }
        for (i, root) in roots.into_iter().enumerate() {
            explore(ctx, pool, &format!("{name}/{i}"), vec![root], depth, 2_000_000, |svm, n| {
                let Ok(b) = invariant(&s, &n.w) else { return vec![] };
                redeem(ctx, svm, &s, n);
                if n.depth == depth {
                    return vec![];
                }
                let mut out = vec![];
                for o in ops(svm, &s, &n.w, &b) {
                    if let Some(w) = judge(ctx, svm, &s, &n.w, &b, &o, &n.history()) {
                        out.push(n.next(o.label, w, 0));
                    }
                }
                out
            });
        }
        strangers(ctx, pool, &s);
    }
    journeys(ctx, pool);
    ctx.bound(format!(
        "{} kinds of unwrapped mint, holders with single and multisig authority; all histories of at most {depth} steps from 3 states (nothing; accounts configured; plain, pending and available balances) of wrap, unwrap, configure, deposit, apply, withdraw, confidential and open transfer, enabling and disabling credits; redemption by all from every state",
        plan.len()
    ));
    ctx.assume("the proof program certifies exactly the true statements (its contexts are made by the checker, transfers committed to with opening zero)");
}

/// Nobody but the holder moves, blocks or watches a confidential balance.
fn strangers(ctx: &Ctx, pool: &Pool, s: &Scene) {
    pool.one(|svm| {
        let mut w = s.start.clone();
        let who = |x: usize| s.w(x);
        let go = |svm: &mut Svm, w: &mut World, (pw, ixs): Built| {
            let e = svm.exec(&pw, &ixs);
            let ok = e.ok();
            if ok {
                *w = proved(e.world);
            }
            ok
        };
        let auth = s.who[0].auth();
        let first = (w.clone(), vec![wrap(&s.p, &s.u(0).acct, &who(0).acct, &auth, &[], 4)]);
        let mut ok = go(svm, &mut w, first);
        for x in 0..2 {
            let b = who(x).configure(&w);
            ok &= go(svm, &mut w, b);
        }
        let b = who(0).deposit(&w, 2);
        ok &= go(svm, &mut w, b);
        let b = who(0).apply(&w, 1, 2);
        ok &= go(svm, &mut w, b);
        let b = who(0).deposit(&w, 1);
        ok &= go(svm, &mut w, b);
        if !ok {
            if ctx.violations() == 0 {
                ctx.violate("set-up", format!("{}: a holder cannot make a confidential balance", s.name), &w, &[]);
            }
            return;
        }
        let keys = [mint_auth(), freeze_auth(), misc_auth(), close_auth(), perm_delegate(), pause_auth(), key("bob"), key("stranger"), s.p.auth, s.p.wmint, s.p.umint, s.p.backptr, TW, Pubkey::default(), key("ms0")];
        for k in keys {
            ctx.state();
            let as_k = s.who[0].as_signed_by(&k);
            let a = At { who: &as_k, ..who(0) };
            let mut tries: Vec<(String, Built)> = vec![
                ("deposit".into(), a.deposit(&w, 1)),
                ("apply".into(), a.apply(&w, 1, 3)),
                ("withdraw".into(), a.withdraw(&w, (2, APPLIED), 1)),
                ("send".into(), a.send(&w, &who(1), (2, APPLIED), 1, [0; 32])),
            ];
            for (c, on) in [(true, false), (true, true), (false, false), (false, true)] {
                tries.push((format!("credits {c} {on}"), a.credits(&w, c, on)));
            }
            for (auto, aud) in [(true, None), (false, None), (true, Some(com(77)))] {
                let aud = aud.map(PodElGamalPubkey);
                tries.push((format!("change the mint ({auto}, {aud:?})"), (w.clone(), vec![ci::update_mint(&T22, &s.p.wmint, &k, &[], auto, aud).unwrap()])));
            }
            tries.push(("approve".into(), (w.clone(), vec![ci::approve_account(&T22, &who(0).acct, &s.p.wmint, &k, &[]).unwrap()])));
            tries.push(("unwrap".into(), (w.clone(), vec![unwrap(&s.p, &who(0).acct, &s.u(1).acct, &Auth::single(&k), &[], 1)])));
            for (what, (pw, ixs)) in tries {
                ctx.step();
                let e = svm.exec(&pw, &ixs);
                if e.ok() {
                    ctx.violate("stranger", format!("{}: {} can {what} alice's confidential account", s.name, name_of(&k)), &pw, &ixs);
                }
            }
        }
        // an auditor cannot be slipped in
        for aud in [com(77), com(s.who[0].elgamal), com(s.who[1].elgamal)] {
            let (pw, ixs) = who(0).send(&w, &who(1), (2, APPLIED), 1, aud);
            ctx.step();
            if svm.exec(&pw, &ixs).ok() {
                ctx.violate("auditor", format!("{}: a transfer with an auditor is accepted", s.name), &pw, &ixs);
            }
        }
    });
}

/// The whole way of one amount, for amounts around the limits of the encoding.
fn journeys(ctx: &Ctx, pool: &Pool) {
    let mut cases = vec![];
    let amounts = [1, 2, 999, 65_535, 65_536, 65_537, (1 << 32) - 1, 1 << 32, (1 << 48) - 2, (1u64 << 48) - 1];
    for (name, prog, exts) in [("spl-token", TOKEN, vec![]), ("t22", T22, vec![]), ("t22-fee", T22, vec![Ext::fee(2500, 1000)]), ("t22-confidential", T22, vec![Ext::Confidential]), ("t22-hook-off", T22, vec![Ext::Hook(None), Ext::ScaledUi])] {
        for multi in [false, true] {
            if multi && prog == TOKEN {
                continue;
            }
            for a in amounts {
                for part in [1, a / 2, a] {
                    if part > 0 {
                        cases.push((name, prog, exts.clone(), multi, a, part));
                    }
                }
            }
        }
    }
    let n = cases.len();
    pool.map(&cases, |svm, (name, prog, exts, multi, a, part)| {
        if ctx.enough() {
            return;
        }
        ctx.state();
        let s = match scene(svm, name, *prog, exts, *multi, *a) {
            Ok(s) => s,
            Err(m) => return ctx.violate("set-up", m, &World::default(), &[]),
        };
        let mut w = s.start.clone();
        let net = *a - fee_of(&w, &s.p.umint, *a);
        let part = (*part).min(net);
        if net == 0 {
            return;
        }
        let (me, to) = (s.w(0), s.w(1));
        let mut done = vec![];
        let mut go = |w: &mut World, what: &str, b: Built, plain: [u64; 2], pend: [u64; 2], avail: [u64; 2]| -> bool {
            ctx.step();
            ctx.trace();
            let e = svm.exec(&b.0, &b.1);
            done.push(what.to_string());
            let fail = |sig: &str, m: String| {
                ctx.violate(sig, format!("{name}{}: the way of {a}, {part} of it sent, fails at {done:?}: {m}", if *multi { ", multisig" } else { "" }), &b.0, &b.1);
                false
            };
            if let Err(m) = &e.res {
                return fail("journey", m.clone());
            }
            ctx.accept();
            *w = proved(e.world);
            for x in 0..2 {
                if amount(w, &s.w(x).acct) != Some(plain[x]) {
                    return fail("journey", format!("plain balance {:?} of holder {x} instead of {}", amount(w, &s.w(x).acct), plain[x]));
                }
                let st = PodStateWithExtensions::<PodAccount>::unpack(w.data(&s.w(x).acct)).unwrap();
                if let Ok(c) = st.get_extension::<ConfidentialTransferAccount>() {
                    let lo_hi = (c.pending_balance_lo.0, c.pending_balance_hi.0, c.available_balance.0);
                    // the first holder's are from a deposit, the second's sent
                    let (k, d) = (s.who[x].elgamal, (x == 0) as u64);
                    let (q, r) = (d * (pend[x] > 0) as u64, d * APPLIED * done.iter().any(|s| s == "apply") as u64);
                    if lo_hi != (ct(pend[x] & 0xffff, q, k), ct(pend[x] >> 16, q, k), ct(avail[x], r, k)) {
                        return fail("journey", format!("confidential balance of holder {x} is not {} pending, {} available", pend[x], avail[x]));
                    }
                }
            }
            let sum: u64 = plain.iter().chain(&pend).chain(&avail).sum();
            if (supply(w, &s.p.wmint), escrow_amount(w, &s.p)) != (Some(sum), Some(sum)) {
                return fail("journey", format!("supply {:?} and escrow {:?} instead of {sum}", supply(w, &s.p.wmint), escrow_amount(w, &s.p)));
            }
            true
        };
        let rest = net - part;
        let (auth0, auth1) = (s.who[0].auth(), s.who[1].auth());
        let _ = (|| {
            let b = (w.clone(), vec![wrap(&s.p, &s.u(0).acct, &me.acct, &auth0, &[], *a)]);
            go(&mut w, "wrap", b, [net, 0], [0; 2], [0; 2]).then_some(())?;
            let b = me.configure(&w);
            go(&mut w, "configure", b, [net, 0], [0; 2], [0; 2]).then_some(())?;
            let b = to.configure(&w);
            go(&mut w, "the other configures", b, [net, 0], [0; 2], [0; 2]).then_some(())?;
            let b = me.deposit(&w, net);
            go(&mut w, "deposit", b, [0, 0], [net, 0], [0; 2]).then_some(())?;
            let b = me.apply(&w, 1, net);
            go(&mut w, "apply", b, [0, 0], [0, 0], [net, 0]).then_some(())?;
            let b = me.send(&w, &to, (net, APPLIED), part, [0; 32]);
            go(&mut w, "send", b, [0, 0], [0, part], [rest, 0]).then_some(())?;
            let b = to.apply(&w, 1, part);
            go(&mut w, "the other applies", b, [0, 0], [0, 0], [rest, part]).then_some(())?;
            let b = to.withdraw(&w, (part, 0), part);
            go(&mut w, "the other withdraws", b, [0, part], [0, 0], [rest, 0]).then_some(())?;
            let b = (w.clone(), vec![unwrap(&s.p, &to.acct, &s.u(1).acct, &auth1, &[], part)]);
            go(&mut w, "the other unwraps", b, [0, 0], [0, 0], [rest, 0]).then_some(())?;
            if rest > 0 {
                let b = me.withdraw(&w, (rest, APPLIED), rest);
                go(&mut w, "withdraw the rest", b, [rest, 0], [0, 0], [0, 0]).then_some(())?;
                let b = (w.clone(), vec![unwrap(&s.p, &me.acct, &s.u(0).acct, &auth0, &[], rest)]);
                go(&mut w, "unwrap the rest", b, [0, 0], [0, 0], [0, 0]).then_some(())?;
            }
            Some(())
        })();
    });
    ctx.bound(format!("{n} whole journeys: wrap, deposit, apply, send a part, apply, withdraw, unwrap by both, for 10 amounts up to 2^48 - 1"));
}
