//! C02 / C03: wrap and unwrap against the reference composition of token
//! program instructions, whole-ledger equality.
use crate::{core::*, report::Ctx, tok::*, tw::*};
use serde_json::json;
use solana_instruction::{AccountMeta, Instruction};
use solana_pubkey::Pubkey;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dir {
    Wrap,
    Unwrap,
}

#[derive(Clone, Debug)]
pub enum WVar {
    Plain,
    /// extra extensions on a Token-2022 wrapped mint (forked customizers)
    Exts(Vec<Ext>),
    /// with TokenMetadata stored, as after a sync
    Metadata,
}

#[derive(Clone, Debug)]
pub struct Case {
    pub block: &'static str,
    pub u: MintSpec,
    pub wprog: Pubkey,
    pub wvar: WVar,
    pub epoch: u64,
    pub escrow: u64,
    pub escrow_edit: Option<fn(&mut World, &Pair)>,
    /// user's unwrapped / wrapped account; `mint` is filled in
    pub ua: AcctSpec,
    pub wa: AcctSpec,
    /// supply of the wrapped mint beyond what accounts hold
    pub extra_supply: u64,
    pub src: Role,
    pub dst: Role,
    pub auth: Auth,
    pub amounts: Vec<u64>,
    /// last edit of the world
    pub edit: Option<fn(&mut World, &Pair)>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Role {
    Own,
    Escrow,
    /// account of the right mint owned by someone else
    Other,
    /// account of an unrelated mint
    Foreign,
    /// missing account
    Missing,
    /// the user's account of the opposite side
    Opposite,
}

pub fn user() -> Pubkey {
    key("user")
}
pub fn delegate() -> Pubkey {
    key("delegate")
}
pub fn base(block: &'static str, uprog: Pubkey, wprog: Pubkey, dir: Dir) -> Case {
    let z = Pubkey::default();
    let _ = dir;
    Case {
        block,
        u: MintSpec::new(key("umint"), uprog),
        wprog,
        wvar: WVar::Plain,
        epoch: 5,
        escrow: 1_000_000,
        escrow_edit: None,
        ua: AcctSpec::new(key("user-u"), z, user(), 1_000_000),
        wa: AcctSpec::new(key("user-w"), z, user(), 1_000_000),
        extra_supply: 0,
        src: Role::Own,
        dst: Role::Own,
        auth: Auth::single(&user()),
        amounts: vec![1, 1_000_000],
        edit: None,
    }
}

/// Which property judges the operations.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Oracle {
    /// C02, C03: verdict and whole ledger
    Full,
    /// C01: supply and escrow move together
    Books,
    /// C04: what the token programs allow is not refused, and pays in full
    Redeem,
    /// C05: refused or not as the token programs would
    Verdict,
}
static ORACLE: std::sync::Mutex<Oracle> = std::sync::Mutex::new(Oracle::Full);
pub fn set_oracle(o: Oracle) {
    *ORACLE.lock().unwrap() = o;
}
pub fn oracle() -> Oracle {
    *ORACLE.lock().unwrap()
}

pub const BIG: &[u64] = &[
    0, 1, 2, 99, 100, 255, 256, 9_999, 10_000, 10_001, 65_535, 65_536, 1_000_000, (1 << 31) - 1, 1 << 31, u32::MAX as u64,
    1 << 32, (1 << 32) + 1, (1 << 53) + 1, i64::MAX as u64, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX,
];

pub fn fee_exts() -> Vec<Ext> {
    let m = u64::MAX;
    let f = |o: (u16, u64), n: (u16, u64), e| Ext::Fee { older: o, newer: n, newer_epoch: e };
    vec![
        Ext::fee(0, 0),
        Ext::fee(0, m),
        Ext::fee(1, m),
        Ext::fee(1, 1),
        Ext::fee(250, 5_000),
        Ext::fee(9_999, m),
        Ext::fee(10_000, m),
        Ext::fee(10_000, 0),
        Ext::fee(10_000, 1_000),
        // epoch is 5: before, at and after the change
        f((100, 1_000), (300, 50_000), 4),
        f((100, 1_000), (300, 50_000), 5),
        f((100, 1_000), (300, 50_000), 6),
        f((10_000, m), (0, 0), 5),
        f((10_000, m), (0, 0), 6),
        f((0, 0), (10_000, m), 5),
        f((0, 0), (10_000, m), 6),
        f((50, m), (50, 10), 6),
        f((50, 10), (50, m), 5),
    ]
}
/// One value of every mint extension that can matter.
pub fn all_exts() -> Vec<Ext> {
    vec![
        Ext::fee(123, 77_777),
        Ext::Hook(None),
        Ext::PermDelegate,
        Ext::Close,
        Ext::Default { frozen: false },
        Ext::Pausable { paused: false },
        Ext::Pausable { paused: true },
        Ext::Interest,
        Ext::ScaledUi,
        Ext::NonTransferable,
        Ext::Confidential,
        Ext::MetaPtr(Some(key("some-metadata"))),
        Ext::GroupPtr,
        Ext::MemberPtr,
    ]
}
fn confidential_fee(set: &mut Vec<Ext>) {
    let has = |t| set.iter().any(|e: &Ext| e.ty() as u16 == t as u16);
    use spl_token_2022_interface::extension::ExtensionType as E;
    // Token-2022 demands the three together
    if has(E::TransferFeeConfig) && has(E::ConfidentialTransferMint) {
        set.push(Ext::ConfidentialFee);
    }
}
pub fn progs() -> [(Pubkey, Pubkey); 4] {
    [(TOKEN, TOKEN), (TOKEN, T22), (T22, TOKEN), (T22, T22)]
}

pub fn cases(dir: Dir, thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    // A: amounts x balances x fee schedules x programs
    for (up, wp) in progs() {
        let mut fees: Vec<Vec<Ext>> = vec![vec![]];
        if up == T22 {
            fees.extend(fee_exts().into_iter().map(|e| vec![e]));
        }
        for ext in fees {
            let bals: &[u64] = if thorough { BIG } else { &[0, 1, 10_000, 1_000_000, u32::MAX as u64 + 1, u64::MAX / 4, u64::MAX - 1] };
            for &b in bals {
                let mut c = base("amounts", up, wp, dir);
                c.u.exts = ext.clone();
                let mut am: Vec<u64> = BIG.to_vec();
                am.extend([b, b / 2, b.saturating_add(1), b.saturating_sub(1)]);
                am.sort();
                am.dedup();
                c.amounts = am;
                match dir {
                    Dir::Wrap => {
                        c.ua.amount = b;
                        c.escrow = 0;
                        c.wa.amount = 0;
                    }
                    Dir::Unwrap => {
                        c.wa.amount = b;
                        c.escrow = b;
                        c.ua.amount = 0;
                    }
                }
                out.push(c);
            }
        }
    }
    // B: every set of up to two (thorough: three) extensions
    let ex = all_exts();
    let mut sets: Vec<Vec<Ext>> = vec![];
    for i in 0..ex.len() {
        sets.push(vec![ex[i].clone()]);
        for j in i + 1..ex.len() {
            if ex[i].ty() as u16 == ex[j].ty() as u16 {
                continue;
            }
            sets.push(vec![ex[i].clone(), ex[j].clone()]);
            if thorough {
                for k in j + 1..ex.len() {
                    if ex[j].ty() as u16 != ex[k].ty() as u16 {
                        sets.push(vec![ex[i].clone(), ex[j].clone(), ex[k].clone()]);
                    }
                }
            }
        }
    }
    sets.push(ex.iter().filter(|e| !matches!(e, Ext::Pausable { paused: true } | Ext::NonTransferable)).cloned().collect());
    for mut s in sets {
        confidential_fee(&mut s);
        for wp in [TOKEN, T22] {
            let mut c = base("extensions", T22, wp, dir);
            c.u.exts = s.clone();
            c.amounts = vec![1, 333_333, 1_000_000, 1_000_001];
            out.push(c);
        }
    }
    // C: source condition x destination condition x authority x programs
    let src_mods: &[(&str, fn(&mut AcctSpec))] = &[
        ("plain", |_| {}),
        ("frozen", |a| a.frozen = true),
        ("delegate-all", |a| a.delegate = Some((delegate(), 1_000_000))),
        ("delegate-part", |a| a.delegate = Some((delegate(), 500))),
        ("cpi-guard", |a| a.cpi_guard = true),
        ("cpi-guard+delegate", |a| { a.cpi_guard = true; a.delegate = Some((delegate(), 1_000_000)) }),
        ("immutable", |a| a.immutable = true),
        ("memo", |a| a.memo = true),
        ("close-auth", |a| a.close = Some(key("closer"))),
        ("other-owner", |a| a.owner = key("other-user")),
    ];
    let dst_mods: &[(&str, fn(&mut AcctSpec))] = &[
        ("plain", |_| {}),
        ("frozen", |a| a.frozen = true),
        ("other-owner", |a| a.owner = key("other-user")),
        ("memo", |a| a.memo = true),
        ("cpi-guard", |a| a.cpi_guard = true),
        ("immutable", |a| a.immutable = true),
        ("delegated", |a| { a.delegate = Some((delegate(), 7)); a.close = Some(key("closer")) }),
    ];
    let auths = [
        Auth::single(&user()),
        Auth::unsigned(&user()),
        Auth::single(&delegate()),
        Auth::unsigned(&delegate()),
        Auth::single(&perm_delegate()),
        Auth::single(&key("stranger")),
        Auth::single(&mint_auth()),
    ];
    for (up, wp) in progs() {
        for (_, sm) in src_mods {
            for (_, dm) in dst_mods {
                for a in &auths {
                    let mut c = base("conditions", up, wp, dir);
                    if up == T22 {
                        c.u.exts = vec![Ext::PermDelegate];
                    }
                    let (s, d) = if dir == Dir::Wrap { (&mut c.ua, &mut c.wa) } else { (&mut c.wa, &mut c.ua) };
                    sm(s);
                    dm(d);
                    c.auth = a.clone();
                    c.amounts = vec![500, 501];
                    out.push(c);
                }
            }
        }
    }
    // D: decimals x freeze authority x mint authority
    for (up, wp) in progs() {
        for d in 0..=255u8 {
            let mut c = base("decimals", up, wp, dir);
            c.u.decimals = d;
            c.u.mint_auth = (d % 2 == 0).then(mint_auth);
            c.u.freeze = (d % 3 != 0).then(freeze_auth);
            c.amounts = vec![1, 1000];
            out.push(c);
        }
    }
    // E: overflow boundaries of destination, escrow and supply
    for (up, wp) in progs() {
        for hi in [u64::MAX, u64::MAX - 1, u64::MAX - 1000, 1 << 63] {
            for which in 0..3 {
                let mut c = base("overflow", up, wp, dir);
                c.ua.amount = 2000;
                c.wa.amount = 2000;
                c.escrow = 2000;
                match which {
                    0 if dir == Dir::Wrap => c.wa.amount = hi,
                    0 => c.ua.amount = hi,
                    1 => c.escrow = hi,
                    _ => c.extra_supply = hi - 2000,
                }
                c.amounts = vec![1, 2, 999, 1000, 1001, 2000, 2001];
                out.push(c);
            }
        }
    }
    // F: who plays source and destination
    for (up, wp) in progs() {
        for src in [Role::Own, Role::Escrow, Role::Other, Role::Foreign, Role::Missing, Role::Opposite] {
            for dst in [Role::Own, Role::Escrow, Role::Other, Role::Foreign, Role::Missing, Role::Opposite] {
                for a in [user(), perm_delegate(), key("other-user")] {
                    for fee in [false, true] {
                        if fee && up != T22 {
                            continue;
                        }
                        let mut c = base("roles", up, wp, dir);
                        if up == T22 {
                            c.u.exts = vec![Ext::PermDelegate];
                            if fee {
                                c.u.exts.push(Ext::fee(100, 1000));
                            }
                        }
                        c.src = src;
                        c.dst = dst;
                        c.auth = Auth::single(&a);
                        c.amounts = vec![1, 1000];
                        out.push(c);
                    }
                }
            }
        }
    }
    // G: state of the escrow
    let esc: &[fn(&mut World, &Pair)] = &[
        |w, p| { w.acc.remove(&p.escrow); },
        |w, p| w.edit(&p.escrow, |a| a.data[108] = 2),
        |w, p| w.edit(&p.escrow, |a| a.data[108] = 0),
        |w, p| w.edit(&p.escrow, |a| a.data[32..64].copy_from_slice(key("thief").as_ref())),
        |w, p| w.edit(&p.escrow, |a| a.data[0..32].copy_from_slice(key("foreign-umint").as_ref())),
        |w, p| w.edit(&p.escrow, |a| a.owner = SYS),
        |w, p| w.edit(&p.escrow, |a| a.owner = if a.owner == T22 { TOKEN } else { T22 }),
        |w, p| w.edit(&p.escrow, |a| { a.data.truncate(100) }),
        |w, p| w.edit(&p.escrow, |a| { a.data.clear() }),
        |w, p| w.edit(&p.escrow, |a| a.lamports += 12345),
        |w, p| w.edit(&p.escrow, |a| { a.data[72..76].copy_from_slice(&1u32.to_le_bytes()); a.data[76..108].copy_from_slice(user().as_ref()); a.data[121..129].copy_from_slice(&u64::MAX.to_le_bytes()); }),
        |w, p| w.edit(&p.escrow, |a| { a.data[129..133].copy_from_slice(&1u32.to_le_bytes()); a.data[133..165].copy_from_slice(user().as_ref()); }),
    ];
    let mints: &[fn(&mut World, &Pair)] = &[
        |w, p| { w.acc.remove(&p.umint); },
        |w, p| { w.acc.remove(&p.wmint); },
        |w, p| w.edit(&p.umint, |a| a.data[45] = 0),
        |w, p| w.edit(&p.wmint, |a| a.data[45] = 0),
        |w, p| w.edit(&p.umint, |a| a.owner = SYS),
        |w, p| w.edit(&p.wmint, |a| a.owner = SYS),
        |w, p| w.edit(&p.umint, |a| a.owner = if a.owner == T22 { TOKEN } else { T22 }),
        |w, p| w.edit(&p.wmint, |a| a.owner = if a.owner == T22 { TOKEN } else { T22 }),
        |w, p| w.edit(&p.wmint, |a| a.data[0..36].fill(0)),
        |w, p| w.edit(&p.wmint, |a| a.data[4..36].copy_from_slice(user().as_ref())),
        |w, p| w.edit(&p.wmint, |a| a.data[44] ^= 1),
        |w, p| { w.acc.remove(&p.backptr); },
        |w, p| w.fund(p.auth, 1_000_000_000),
    ];
    for (up, wp) in progs() {
        for e in esc {
            let mut c = base("escrow-state", up, wp, dir);
            c.escrow_edit = Some(*e);
            c.amounts = vec![1, 1000, 1_000_000];
            out.push(c);
        }
        for e in mints {
            let mut c = base("mint-state", up, wp, dir);
            c.edit = Some(*e);
            c.amounts = vec![1, 1000, 1_000_000];
            out.push(c);
        }
        // H: unusual unwrapped mints
        for k in [spl_token::native_mint::id(), spl_token_2022_interface::native_mint::id()] {
            for a in &auths {
                let mut c = base("native", up, wp, dir);
                c.u.key = k;
                c.u.freeze = None;
                c.u.decimals = 9;
                c.auth = a.clone();
                c.amounts = vec![1, 999_999, 1_000_000, 1_000_001];
                out.push(c);
            }
        }
        if up == T22 {
            for via in [TOKEN, T22] {
                // wrapping a mint that is itself a wrapped mint
                let mut c = base("wrapped-again", up, wp, dir);
                c.u.key = wmint_of(&key("inner-mint"), &via);
                c.u.exts = vec![Ext::Confidential, Ext::MetaPtr(Some(c.u.key))];
                c.amounts = vec![1, 1_000_000];
                out.push(c);
            }
        }
        if wp == T22 {
            // I: wrapped mints of other shapes
            let mut vars = vec![WVar::Metadata];
            for e in all_exts() {
                vars.push(WVar::Exts(vec![e.clone()]));
                vars.push(WVar::Exts(vec![Ext::Confidential, e]));
            }
            for v in vars {
                for a in [user(), perm_delegate()] {
                    let mut c = base("wrapped-shape", up, wp, dir);
                    if let WVar::Exts(e) = &v {
                        if e.len() == 2 && e[0].ty() as u16 == e[1].ty() as u16 {
                            continue;
                        }
                        let mut e = e.clone();
                        confidential_fee(&mut e);
                        c.wvar = WVar::Exts(e);
                    } else {
                        c.wvar = v.clone();
                    }
                    c.auth = Auth::single(&a);
                    c.amounts = vec![1, 1000, 1_000_000];
                    out.push(c);
                }
            }
        }
    }
    // J: an escrow that does not match the supply (the permanent delegate took
    // from it, tokens were sent to it): every escrow x holder x other supply
    let marks: &[u64] = if thorough { &[0, 1, 2, 3, 499, 500, 501, 999, 1000, 1001, 2000, 5000, 1 << 32, u64::MAX / 2] } else { &[0, 1, 499, 500, 501, 1000, 5000] };
    for (up, wp) in progs() {
        let mut fees = vec![vec![]];
        if up == T22 {
            fees.extend([vec![Ext::PermDelegate], vec![Ext::PermDelegate, Ext::fee(1000, 7)], vec![Ext::fee(10_000, u64::MAX)]]);
        }
        for f in fees {
            for &escrow in marks {
                for &held in marks {
                    for extra in [0, 1, 1_000] {
                        let mut c = base("escrow-against-supply", up, wp, dir);
                        c.u.exts = f.clone();
                        c.escrow = escrow;
                        c.wa.amount = held;
                        c.ua.amount = 1000;
                        c.extra_supply = extra;
                        c.amounts = marks.iter().copied().chain([2, 998, 999]).collect();
                        c.amounts.sort();
                        c.amounts.dedup();
                        out.push(c);
                    }
                }
            }
        }
    }
    // K: mints whose derived addresses have other bumps
    for (up, wp) in progs() {
        for k in odd_mints() {
            let mut c = base("derivation", up, wp, dir);
            c.u.key = *k;
            if up == T22 && k.as_ref()[0] % 2 == 0 {
                c.u.exts = vec![Ext::fee(123, 77)];
            }
            c.amounts = vec![1, 1000, 1_000_000, 1_000_001];
            out.push(c);
        }
    }
    out
}

/// The world of a case; Err when the token programs refuse such a mint.
pub fn build(svm: &mut Svm, c: &Case) -> Result<(World, Pair), String> {
    let mut w = World { epoch: c.epoch, ..Default::default() };
    let p = Pair::new(c.u.key, c.u.prog, c.wprog);
    make_mint(svm, &mut w, &c.u)?;
    make_escrow(svm, &mut w, &p)?;
    match &c.wvar {
        WVar::Plain => make_wrapped(svm, &mut w, &p, 0),
        WVar::Exts(e) => {
            let mut s = MintSpec::new(p.wmint, c.wprog).exts(e);
            s.mint_auth = Some(p.auth);
            s.decimals = c.u.decimals;
            make_mint(svm, &mut w, &s)?;
        }
        WVar::Metadata => {
            make_wrapped(svm, &mut w, &p, 0);
            w.edit(&p.wmint, |a| a.lamports += 10_000_000);
            let ix = spl_token_metadata_interface::instruction::initialize(
                &T22, &p.wmint, &p.auth, &p.wmint, &p.auth, "Name".into(), "SYM".into(), "https://uri".into());
            svm.must(&mut w, "metadata", &[ix]);
        }
    }
    let mut ua = c.ua.clone();
    ua.mint = p.umint;
    make_account(svm, &mut w, &ua)?;
    let mut wa = c.wa.clone();
    wa.mint = p.wmint;
    make_account(svm, &mut w, &wa)?;
    let f = MintSpec::new(key("foreign-umint"), c.u.prog);
    make_mint(svm, &mut w, &f)?;
    make_account(svm, &mut w, &AcctSpec::new(key("foreign-u"), f.key, user(), 1_000_000))?;
    let fp = Pair::new(f.key, c.u.prog, c.wprog);
    make_wrapped(svm, &mut w, &fp, 0);
    make_account(svm, &mut w, &AcctSpec::new(key("foreign-w"), fp.wmint, user(), 1_000_000))?;
    make_account(svm, &mut w, &AcctSpec::new(key("other-u"), p.umint, key("other-user"), 1_000_000))?;
    make_account(svm, &mut w, &AcctSpec::new(key("other-w"), p.wmint, key("other-user"), 1_000_000))?;
    let esc = c.escrow;
    let native = [spl_token::native_mint::id(), spl_token_2022_interface::native_mint::id()].contains(&p.umint);
    w.edit(&p.escrow, |a| {
        a.data[64..72].copy_from_slice(&esc.to_le_bytes());
        if native && a.data[109] == 1 {
            a.lamports += esc;
        }
    });
    fix_supply(&mut w, &f.key);
    fix_supply(&mut w, &fp.wmint);
    fix_supply(&mut w, &p.umint);
    fix_supply(&mut w, &p.wmint);
    if c.extra_supply > 0 {
        let x = c.extra_supply;
        w.edit(&p.wmint, |a| {
            let s = u64::from_le_bytes(a.data[36..44].try_into().unwrap()).saturating_add(x);
            a.data[36..44].copy_from_slice(&s.to_le_bytes())
        });
    }
    if let Some(e) = c.escrow_edit {
        e(&mut w, &p);
    }
    if let Some(e) = c.edit {
        e(&mut w, &p);
    }
    Ok((w, p))
}

fn role(r: Role, p: &Pair, unwrapped: bool) -> Pubkey {
    let s = |u: &str, w: &str| key(if unwrapped { u } else { w });
    match r {
        Role::Own => s("user-u", "user-w"),
        Role::Escrow => p.escrow,
        Role::Other => s("other-u", "other-w"),
        Role::Foreign => s("foreign-u", "foreign-w"),
        Role::Missing => key("missing-account"),
        Role::Opposite => s("user-w", "user-u"),
    }
}

fn books(w: &World, p: &Pair) -> (i128, i128) {
    (supply(w, &p.wmint).unwrap_or(0) as i128, escrow_amount(w, p).unwrap_or(0) as i128)
}

/// Runs implementation and reference on one operation and compares.
pub fn compare(ctx: &Ctx, svm: &mut Svm, dir: Dir, sig: &str, w: &World, p: &Pair, src: &Pubkey, dst: &Pubkey, auth: &Auth, extra: &[AccountMeta], amount: u64) -> Option<World> {
    let ix = match dir {
        Dir::Wrap => wrap(p, src, dst, auth, extra, amount),
        Dir::Unwrap => unwrap(p, src, dst, auth, extra, amount),
    };
    let imp = svm.exec(w, &[ix.clone()]);
    ctx.step();
    ctx.trace();
    if imp.ok() {
        ctx.accept();
    }
    judge(ctx, svm, dir, sig, w, p, src, dst, auth, extra, amount, imp, ix)
}

pub fn judge(ctx: &Ctx, svm: &mut Svm, dir: Dir, sig: &str, w: &World, p: &Pair, src: &Pubkey, dst: &Pubkey, auth: &Auth, extra: &[AccountMeta], value: u64, imp: Exec, ix: Instruction) -> Option<World> {
    let oracle = oracle();
    if oracle == Oracle::Books {
        if imp.ok() {
            let ((s0, e0), (s1, e1)) = (books(w, p), books(&imp.world, p));
            // more tokens than can exist: only made up to see the overflow refused
            let impossible = dir == Dir::Wrap && e0 + value as i128 > u64::MAX as i128;
            if s1 - s0 != e1 - e0 && !impossible {
                ctx.violate(&format!("{sig}:books"), format!("{dir:?} {value} changed the wrapped supply by {} and the escrow by {}", s1 - s0, e1 - e0), w, &[ix]);
            }
            return Some(imp.world);
        }
        return None;
    }
    let spec = match dir {
        Dir::Wrap => spec_wrap(svm, w, p, src, dst, auth, extra, value),
        Dir::Unwrap => spec_unwrap(svm, w, p, src, dst, auth, extra, value),
    };
    match (&imp.res, spec) {
        (_, Err(e)) if e.starts_with("MODEL") => panic!("{e}"),
        (Ok(()), Ok(sw)) => {
            let bal = |w: &World, k: &Pubkey| amount(w, k).unwrap_or(0);
            if oracle == Oracle::Full {
                let d = diff(&sw, &imp.world);
                if !d.is_empty() {
                    ctx.violate(&format!("{sig}:ledger"), format!("{dir:?} {value}: ledger differs from transfer+mint/burn+transfer: {}", d.join("; ")), w, &[ix]);
                }
            } else if oracle == Oracle::Redeem && (bal(&imp.world, dst) < bal(&sw, dst) || bal(&imp.world, src) < bal(&sw, src)) {
                ctx.violate(&format!("{sig}:short"), format!("{dir:?} {value}: the recipient has {} instead of {}, the holder {} instead of {}", bal(&imp.world, dst), bal(&sw, dst), bal(&imp.world, src), bal(&sw, src)), w, &[ix]);
            }
            return Some(imp.world);
        }
        (Ok(()), Err(e)) if matches!(oracle, Oracle::Full | Oracle::Verdict) => {
            let d = diff(w, &imp.world);
            ctx.violate(&format!("{sig}:accepted"), format!("{dir:?} {value} succeeded but must be refused ({e}); it did: {}", d.join("; ")), w, &[ix]);
        }
        (Err(e), Ok(_)) => {
            ctx.violate(&format!("{sig}:refused"), format!("{dir:?} {value} was refused ({e}) but the token programs allow both halves"), w, &[ix]);
        }
        _ => {}
    }
    None
}

/// The operations of C02 or C03 whose block is among `blocks`, all if none is named.
pub fn run(ctx: &Ctx, pool: &Pool, dir: Dir, only: &[&str]) {
    let mut cs = cases(dir, ctx.thorough);
    cs.retain(|c| only.is_empty() || only.contains(&c.block));
    let mut blocks = std::collections::BTreeMap::<&str, u64>::new();
    for c in &cs {
        *blocks.entry(c.block).or_default() += c.amounts.len() as u64;
    }
    let res = pool.map(&cs, |svm, c| {
        if ctx.enough() {
            return 0;
        }
        let Ok((w, p)) = build(svm, c) else { return 1 };
        ctx.state();
        let (s, d) = (role(c.src, &p, dir == Dir::Wrap), role(c.dst, &p, dir == Dir::Unwrap));
        for &a in &c.amounts {
            compare(ctx, svm, dir, c.block, &w, &p, &s, &d, &c.auth, &[], a);
        }
        0
    });
    ctx.put("configurations_the_token_programs_refuse_to_create", res.iter().sum::<u64>());
    ctx.put(if dir == Dir::Wrap { "wraps_per_block" } else { "unwraps_per_block" }, json!(blocks));
    for c in cs.iter().step_by(cs.len() / 5 + 1) {
        ctx.sample(json!(format!("{:?} {} exts={:?} auth={} amounts={:?}", dir, c.block, c.u.exts, name_of(&c.auth.main.pubkey), &c.amounts[..c.amounts.len().min(6)])));
    }
    ctx.bound(format!("{} configurations, each block a full product: amounts x balances x fee schedules x programs; all sets of <= {} mint extensions; source x destination x authority conditions; 256 decimals; overflow boundaries; account roles; escrow and mint states; derived addresses of every bump found; native and re-wrapped mints; wrapped mint shapes; escrow balance x holder balance x other supply x amount", cs.len(), if ctx.thorough { 3 } else { 2 }));
    ctx.assume("Token, Token-2022, associated token account and system programs (the deployed ELFs) behave as they do in the SVM");
}
