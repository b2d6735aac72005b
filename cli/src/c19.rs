//! C19: the CLI's account creation tops up exactly what is missing.
use {
    crate::{c18::*, node::*, want::*},
    solana_instruction::{AccountMeta, Instruction},
    solana_pubkey::Pubkey,
    twmc::{core::*, report::*, tok::*, tw},
};

fn transfer(from: &Pubkey, to: &Pubkey, lamports: u64) -> Instruction {
    let mut data = 2u32.to_le_bytes().to_vec();
    data.extend(lamports.to_le_bytes());
    Instruction { program_id: SYS, accounts: vec![AccountMeta::new(*from, true), AccountMeta::new(*to, false)], data }
}
/// Lengths of the default wrapped mint and of the backpointer.
fn lens(wprog: &Pubkey) -> (usize, usize) {
    use spl_token_2022_interface::{extension::ExtensionType as E, state::Mint};
    let m = if *wprog == T22 { E::try_calculate_account_len::<Mint>(&[E::ConfidentialTransferMint, E::MetadataPointer]).unwrap() } else { 82 };
    (m, 32)
}

/// The create-mint command in a world.
pub fn create(svm: &mut Svm, w: &World, umint: &Pubkey, wprog: &Pubkey, idempotent: bool, payer: Who, format: Format, what: String) -> Case {
    let uprog = w.get(umint).map_or(SYS, |a| a.owner);
    let p = Pair::new(*umint, uprog, *wprog);
    let (lm, lb) = lens(wprog);
    let fm = svm.rent_in(w, lm).saturating_sub(w.lamports(&p.wmint));
    let fb = svm.rent_in(w, lb).saturating_sub(w.lamports(&p.backptr));
    let mut ixs = vec![];
    for (k, f) in [(p.wmint, fm), (p.backptr, fb)] {
        if f > 0 {
            ixs.push(transfer(&payer.key(), &k, f));
        }
    }
    ixs.push(tw::create_mint(&p, idempotent));
    let mut want = Want::new(payer.key(), ixs)
        .pk("unwrappedMintAddress", umint)
        .pk("wrappedMintAddress", &p.wmint)
        .pk("wrappedBackpointerAddress", &p.backptr)
        .field("fundedWrappedMintLamports", fm)
        .field("fundedBackpointerLamports", fb);
    want.signable = payer.signs();
    let mut args = strs(&["create-mint", &umint.to_string(), &wprog.to_string()]);
    if idempotent {
        args.push("--idempotent".into());
    }
    Case { what, world: w.clone(), global: payer.arg().map_or(vec![], |a| vec!["--fee-payer".into(), a]), args, format, expect: Expect::Submit(want) }
}

/// A world with the unwrapped mint only.
pub fn bare(svm: &mut Svm, uprog: Pubkey, exts: &[Ext]) -> (World, Pubkey) {
    let mut w = World { epoch: 5, ..Default::default() };
    for k in ["payer", "other-payer"] {
        w.fund(kp(k), FUNDS);
    }
    let m = key("unwrapped-mint");
    make_mint(svm, &mut w, &MintSpec::new(m, uprog).exts(exts)).unwrap();
    (w, m)
}

fn levels(ctx: &Ctx, pool: &Pool) {
    let mut jobs = vec![];
    for uprog in [TOKEN, T22] {
        for wprog in [TOKEN, T22] {
            for rate in [None, Some(1), Some(2), Some(7)] {
                for idem in [false, true] {
                    jobs.push((uprog, wprog, rate, idem));
                }
            }
        }
    }
    let cases: Vec<Case> = pool
        .map(&jobs, |svm, (uprog, wprog, rate, idem)| {
            let (mut w, m) = bare(svm, *uprog, &[]);
            w.rent = *rate;
            let p = Pair::new(m, *uprog, *wprog);
            let (lm, lb) = lens(wprog);
            let (nm, nb) = (svm.rent_in(&w, lm), svm.rent_in(&w, lb));
            let around = |n: u64| {
                let mut v = vec![0, 1, 2, n / 2, n.saturating_sub(2), n.saturating_sub(1), n, n + 1, 2 * n, 1 << 32, (1 << 32) + n, n.saturating_sub(256), n + 65536];
                v.sort();
                v.dedup();
                v
            };
            let mut grid = vec![];
            if ctx.thorough || *idem == rate.is_none() {
                for a in around(nm) {
                    for b in around(nb) {
                        grid.push((a, b));
                    }
                }
            }
            // with the cheapest rent, every single level
            if *rate == Some(1) && (*uprog == TOKEN || ctx.thorough) && (*idem || ctx.thorough) {
                for a in 0..=nm + 2 {
                    grid.push((a, 0));
                    grid.push((a, nb));
                }
                for b in 0..=nb + 2 {
                    grid.push((0, b));
                    grid.push((nm, b));
                }
                // and where both fall short by the same
                for k in 0..=nb {
                    grid.push((nm - k, nb - k));
                }
            }
            grid.sort();
            grid.dedup();
            grid.into_iter()
                .map(|(a, b)| {
                    let mut w = w.clone();
                    w.fund(p.wmint, a);
                    w.fund(p.backptr, b);
                    create(svm, &w, &m, wprog, *idem, Who::Default, Format::Json, format!("wrapped mint has {a} of {nm}, backpointer {b} of {nb}, rate {rate:?}"))
                })
                .collect::<Vec<_>>()
        })
        .into_iter()
        .flatten()
        .collect();
    decide(ctx, pool, "levels", &cases);
}

/// Histories around creation: exists already, half, another payer, poor payer.
fn mints(ctx: &Ctx, pool: &Pool) {
    let mut cases = vec![];
    pool.one(|svm| {
        for uprog in [TOKEN, T22] {
            for wprog in [TOKEN, T22] {
                let (w, m) = bare(svm, uprog, &[]);
                let p = Pair::new(m, uprog, wprog);
                let (lm, lb) = lens(&wprog);
                let need = svm.rent(lm) + svm.rent(lb);
                for idem in [false, true] {
                    for f in FORMATS {
                        cases.push(create(svm, &w, &m, &wprog, idem, Who::Default, f, format!("{f:?}")));
                    }
                    for payer in [Who::File("other-payer"), Who::Address("other-payer"), Who::Address("payer")] {
                        cases.push(create(svm, &w, &m, &wprog, idem, payer.clone(), Format::Json, format!("paid by {payer:?}")));
                    }
                    for have in [1, need - 1, need, need + 1] {
                        let mut w = w.clone();
                        w.fund(kp("payer"), have);
                        cases.push(create(svm, &w, &m, &wprog, idem, Who::Default, Format::Json, format!("payer has {have} of {need}")));
                    }
                    // exists, as made by the program, and with a lamport more
                    let mut made = w.clone();
                    let c = create(svm, &w, &m, &wprog, false, Who::Default, Format::Json, String::new());
                    let Expect::Submit(x) = &c.expect else { unreachable!() };
                    svm.must(&mut made, "create", &x.ixs);
                    for f in FORMATS {
                        cases.push(create(svm, &made, &m, &wprog, idem, Who::Default, f, format!("exists already, {f:?}")));
                    }
                    made.edit(&p.wmint, |a| a.lamports += 1);
                    made.edit(&p.backptr, |a| a.lamports += 1);
                    cases.push(create(svm, &made, &m, &wprog, idem, Who::Default, Format::Json, "exists already with more".into()));
                    // rent has risen since
                    made.rent = Some(10_000);
                    cases.push(create(svm, &made, &m, &wprog, idem, Who::Default, Format::Json, "exists already, rent has risen".into()));
                    // the other wrapped mint exists
                    let mut w2 = w.clone();
                    let q = Pair::new(m, uprog, other_prog(&wprog));
                    make_wrapped(svm, &mut w2, &q, 5);
                    cases.push(create(svm, &w2, &m, &wprog, idem, Who::Default, Format::Json, "the other program's exists".into()));
                    // wrong kinds of mint
                    let mut s = scene(svm, uprog, wprog, &[]);
                    for (what, k) in strangers(svm, &mut s) {
                        let mut c = create(svm, &s.w, &k, &wprog, idem, Who::Default, Format::Json, format!("mint {what}"));
                        if ![s.p.umint, s.p.wmint].contains(&k) {
                            c.expect = Expect::Fail;
                        }
                        cases.push(c);
                    }
                }
                for bad in [SYS, TW, kp("payer")] {
                    let mut c = create(svm, &w, &m, &wprog, true, Who::Default, Format::Json, "no token program".into());
                    c.args[2] = bad.to_string();
                    c.expect = Expect::Refuse;
                    cases.push(c);
                }
                if uprog == T22 {
                    for e in [vec![Ext::fee(100, 5)], vec![Ext::Hook(Some(twmc::builtins::hook()))], vec![Ext::NonTransferable], vec![Ext::Default { frozen: true }], vec![Ext::MetaPtr(None), Ext::Close]] {
                        let (w, m) = bare(svm, uprog, &e);
                        cases.push(create(svm, &w, &m, &wprog, false, Who::Default, Format::Json, format!("mint with {e:?}")));
                    }
                }
            }
        }
    });
    decide(ctx, pool, "create-mint", &cases);
    let f = thin(ctx, cases, |c| !c.what.starts_with("mint "));
    decide_faults(ctx, pool, "create-mint-faults", &f, &FAULTS);
}

/// The cases to run with faults: on every change, of half the pairs.
fn thin(ctx: &Ctx, cases: Vec<Case>, f: impl Fn(&Case) -> bool) -> Vec<Case> {
    let t22 = T22.to_string();
    cases
        .into_iter()
        .filter(|c| c.format == Format::Json && f(c))
        .filter(|c| {
            let mixed = c.world.get(&key("unwrapped-mint")).is_some_and(|a| a.owner == T22) != c.args.contains(&t22);
            ctx.thorough || mixed
        })
        .collect()
}

pub fn escrow_case(svm: &mut Svm, w: &World, umint: &Pubkey, wprog: &Pubkey, idempotent: bool, payer: Who, format: Format, what: String) -> Case {
    let _ = svm;
    let mut args = strs(&["create-escrow-account", &umint.to_string(), &wprog.to_string()]);
    if idempotent {
        args.push("--idempotent".into());
    }
    let expect = match w.get(umint) {
        Some(a) if is_mint(a) => {
            let p = Pair::new(*umint, a.owner, *wprog);
            let want = |ixs| {
                let mut w = Want::new(payer.key(), ixs).pk("escrowAccountAddress", &p.escrow).pk("escrowAccountOwner", &p.auth).pk("unwrappedTokenProgramId", &p.uprog);
                w.signable = payer.signs();
                w
            };
            match w.get(&p.escrow) {
                Some(a) if a.owner != SYS => {
                    if idempotent {
                        Expect::Nothing(want(vec![]))
                    } else {
                        Expect::Refuse
                    }
                }
                _ => Expect::Submit(want(vec![create_ata(&payer.key(), &p.auth, umint, &p.uprog)])),
            }
        }
        _ => Expect::Refuse,
    };
    Case { what, world: w.clone(), global: payer.arg().map_or(vec![], |a| vec!["--fee-payer".into(), a]), args, format, expect }
}

fn escrows(ctx: &Ctx, pool: &Pool) {
    let mut cases = vec![];
    pool.one(|svm| {
        for (uprog, wprog) in PROGS {
            let mut exts = vec![vec![]];
            if uprog == T22 {
                exts.extend([vec![Ext::fee(100, 5)], vec![Ext::Hook(Some(twmc::builtins::hook()))], vec![Ext::NonTransferable], vec![Ext::Default { frozen: true }], vec![Ext::Pausable { paused: true }, Ext::Confidential]]);
            }
            for e in exts {
                for wrapped in [false, true] {
                    let (mut w, m) = bare(svm, uprog, &e);
                    let p = Pair::new(m, uprog, wprog);
                    if wrapped {
                        make_wrapped(svm, &mut w, &p, 0);
                    }
                    let mut states = vec![("missing".to_string(), w.clone())];
                    let full = svm.rent(400);
                    for l in [1, 890_880, svm.rent(165) - 1, svm.rent(165), svm.rent(170), full, FUNDS] {
                        let mut w = w.clone();
                        w.fund(p.escrow, l);
                        states.push((format!("only {l} lamports"), w));
                    }
                    let mut made = w.clone();
                    make_escrow(svm, &mut made, &p).unwrap();
                    states.push(("exists".into(), made.clone()));
                    made.edit(&p.escrow, |a| a.data[64..72].copy_from_slice(&9u64.to_le_bytes()));
                    states.push(("exists and holds tokens".into(), made.clone()));
                    made.edit(&p.escrow, |a| a.data[108] = 2);
                    states.push(("exists, frozen".into(), made.clone()));
                    // the pair of the other wrapped program has one
                    let mut o = w.clone();
                    make_escrow(svm, &mut o, &Pair::new(m, uprog, other_prog(&wprog))).unwrap();
                    states.push(("the other program's exists".into(), o));
                    for (what, w) in states {
                        for idem in [false, true] {
                            let fs: &[Format] = if e.is_empty() { &FORMATS } else { &[Format::Json] };
                            for f in fs {
                                cases.push(escrow_case(svm, &w, &m, &wprog, idem, Who::Default, *f, format!("escrow {what}, {f:?}, idempotent {idem}, mint with {e:?}")));
                            }
                            for payer in [Who::File("other-payer"), Who::Address("other-payer")] {
                                cases.push(escrow_case(svm, &w, &m, &wprog, idem, payer.clone(), Format::Json, format!("escrow {what}, paid by {payer:?}, idempotent {idem}, mint with {e:?}")));
                            }
                        }
                    }
                }
            }
            let mut s = scene(svm, uprog, wprog, &[]);
            for (what, k) in strangers(svm, &mut s) {
                for idem in [false, true] {
                    cases.push(escrow_case(svm, &s.w, &k, &wprog, idem, Who::Default, Format::Json, format!("mint {what}")));
                }
            }
        }
    });
    decide(ctx, pool, "create-escrow", &cases);
    let f = thin(ctx, cases, |c| c.what.contains("mint with []"));
    decide_faults(ctx, pool, "create-escrow-faults", &f, &FAULTS);
}

pub fn run(ctx: &Ctx, pool: &Pool) {
    ctx.bound("create-mint: 13 x 13 prior lamport levels of wrapped mint and backpointer x 4 rent rates x 4 program pairs x idempotent or not, and at the cheapest rent every level of either account; 7 histories; create-escrow-account: 12 prior states x 6 extension sets x 4 program pairs; every fault at every request");
    levels(ctx, pool);
    mints(ctx, pool);
    escrows(ctx, pool);
}

/// create-mint and create-escrow-account where they succeed and where not.
pub fn plain(svm: &mut Svm, uprog: Pubkey, wprog: Pubkey, format: Format) -> Vec<Case> {
    let n = format!("{}->{}", name_of(&uprog), name_of(&wprog));
    let (w, m) = bare(svm, uprog, &[]);
    let p = Pair::new(m, uprog, wprog);
    let mut made = w.clone();
    make_wrapped(svm, &mut made, &p, 0);
    let mut poor = w.clone();
    poor.fund(kp("payer"), 10);
    let mut esc = w.clone();
    make_escrow(svm, &mut esc, &p).unwrap();
    vec![
        create(svm, &w, &m, &wprog, false, Who::Default, format, format!("create-mint {n}, good")),
        create(svm, &made, &m, &wprog, false, Who::Default, format, format!("create-mint {n}, refused")),
        create(svm, &poor, &m, &wprog, false, Who::Default, format, format!("create-mint {n}, no funds")),
        escrow_case(svm, &w, &m, &wprog, false, Who::Default, format, format!("create-escrow {n}, good")),
        escrow_case(svm, &poor, &m, &wprog, false, Who::Default, format, format!("create-escrow {n}, no funds")),
        escrow_case(svm, &esc, &m, &wprog, true, Who::Default, format, format!("create-escrow {n}, exists")),
    ]
}
