//! C23: the JavaScript client builds what the program accepts.
use {
    crate::{js::*, node::kp, want::{other_prog, scene, Scene, FUNDS, HELD, PROGS}},
    serde_json::{json, Value},
    solana_account::Account,
    solana_instruction::{AccountMeta, Instruction},
    solana_pubkey::Pubkey,
    twmc::{core::*, report::*, tok::*, tw},
};

enum Expect {
    /// the call is rejected
    Refuse,
    /// these instructions (the order of leading transfers aside) and fields
    Exact(Vec<Instruction>, Vec<(&'static str, Value)>),
    /// rejected, or instructions that the chain refuses
    Harmless,
}
struct Case {
    what: String,
    world: World,
    f: &'static str,
    args: Value,
    /// where the instructions are in the answer; the whole answer if empty
    at: &'static str,
    expect: Expect,
}
type Bad = (String, String);

fn sort_transfers(v: &mut [Instruction]) {
    let n = v.iter().take_while(|i| i.program_id == SYS).count();
    v[..n].sort_by(|a, b| (a.accounts.get(1).map(|m| m.pubkey), &a.data).cmp(&(b.accounts.get(1).map(|m| m.pubkey), &b.data)));
}
fn judge(svm: &mut Svm, c: &Case, ans: &Ans) -> Result<bool, Bad> {
    let bad = |s: &str, w: String| Err((s.to_string(), format!("{}: {w}", c.what)));
    let v = match ans {
        Ans::Unmodelled(_) => return Ok(false),
        Ans::Err(e) => {
            return match c.expect {
                Expect::Exact(..) => bad("rejected", format!("is rejected: {e}")),
                _ => Ok(false),
            }
        }
        Ans::Ok(v) => v,
    };
    let list = if c.at.is_empty() { json!([v]) } else { v[c.at].clone() };
    match &c.expect {
        Expect::Refuse => bad("accepted", format!("gives {v} instead of a rejection")),
        Expect::Harmless => match ixs_of(&list) {
            Some(ixs) if svm.exec(&c.world, &ixs).ok() => bad("contradiction", "the instructions for contradictory arguments are executed".into()),
            _ => Ok(false),
        },
        Expect::Exact(want, fields) => {
            let Some(mut got) = ixs_of(&list) else { return bad("malformed", format!("no well-formed instructions: {list}")) };
            let mut want = want.clone();
            sort_transfers(&mut got);
            sort_transfers(&mut want);
            if let Some(d) = differ(&got, &want) {
                return bad("instructions", d);
            }
            for (k, f) in fields {
                if v[*k] != *f {
                    return bad("fields", format!("reports {k} {} instead of {f}", v[*k]));
                }
            }
            Ok(svm.exec(&c.world, &got).ok())
        }
    }
}
fn decide(ctx: &Ctx, pool: &Pool, block: &str, must_execute: bool, cases: &[Case]) {
    let t = std::time::Instant::now();
    let rs = pool.map(cases, |svm, c| {
        ctx.state();
        let (ans, n) = call(svm, Some(&c.world), c.f, c.args.clone(), None);
        (0..=n).for_each(|_| ctx.step());
        let mut r = judge(svm, c, &ans);
        // every request failing in turn
        if r.is_ok() {
            ctx.trace();
            for k in 0..n {
                ctx.step();
                if let (Ans::Ok(v), _) = call(svm, Some(&c.world), c.f, c.args.clone(), Some(k)) {
                    r = Err(("failed-lookup".into(), format!("{}: request {k} fails, and the answer is {v}", c.what)));
                    break;
                }
            }
        }
        (r, ans)
    });
    let (mut ok, mut done) = (0u64, 0u64);
    for (c, (r, ans)) in cases.iter().zip(&rs) {
        match r {
            Ok(true) => {
                ok += 1;
                ctx.accept();
                if ok % 199 == 1 {
                    ctx.sample(json!({"block": block, "call": c.f, "arguments": c.args}));
                }
            }
            Ok(false) => {
                if must_execute && matches!(c.expect, Expect::Exact(..)) && matches!(ans, Ans::Ok(_)) {
                    ctx.violate_json(&format!("{block}/not-executed"), format!("{}: the chain refuses the instructions", c.what), json!({"args": c.args, "world": world_json(&c.world)}));
                }
            }
            Err((s, w)) => ctx.violate_json(&format!("{block}/{s}"), w.clone(), json!({"call": c.f, "args": c.args, "answer": format!("{ans:?}"), "world": world_json(&c.world)})),
        }
        done += !matches!(ans, Ans::Unmodelled(_)) as u64;
    }
    ctx.put(&format!("calls_{block}"), cases.len() as u64);
    ctx.put(&format!("executed_{block}"), ok);
    if std::env::var("TW_TRACE").is_ok() {
        eprintln!("{block}: {} calls, {ok} executed, {:.1}s", cases.len(), t.elapsed().as_secs_f64());
    }
    if ok == 0 && done > 0 && rs.iter().all(|r| r.0.is_ok()) {
        eprintln!("ERROR: block {block} is vacuous");
        std::process::exit(2);
    }
}

// ---- wrap and unwrap -----------------------------------------------------------------
#[derive(Clone)]
struct Move {
    unwrap: bool,
    payer: &'static str,
    src: Pubkey,
    dst: Option<Pubkey>,
    wprog: Option<Pubkey>,
    uprog: Option<Pubkey>,
    mint: Option<Pubkey>,
    /// the authority, and whether given as what signs
    auth: Option<(&'static str, bool)>,
    amount: Value,
}
impl Move {
    fn new(s: &Scene, unwrap: bool) -> Move {
        let (src, dst) = if unwrap { (s.wr("payer"), Some(s.u("payer"))) } else { (s.u("payer"), None) };
        Move { unwrap, payer: "payer", src, dst, wprog: (!unwrap).then_some(s.p.wprog), uprog: None, mint: None, auth: None, amount: big(1) }
    }
    fn case(&self, what: String, w: &World) -> Case {
        let mut a = json!({"rpc": rpc(), "payer": signer_of(&kp(self.payer)), "amount": self.amount});
        let mut set = |k: &str, v: Option<Value>| {
            if let Some(v) = v {
                a[k] = v;
            }
        };
        set(if self.unwrap { "wrappedTokenAccount" } else { "unwrappedTokenAccount" }, Some(pk(&self.src)));
        set(if self.unwrap { "recipientUnwrappedToken" } else { "recipientWrappedTokenAccount" }, self.dst.as_ref().map(pk));
        set("wrappedTokenProgram", self.wprog.as_ref().map(pk));
        set("unwrappedTokenProgram", self.uprog.as_ref().map(pk));
        set("unwrappedMint", self.mint.as_ref().map(pk));
        set("transferAuthority", self.auth.map(|(n, s)| if s { signer_of(&kp(n)) } else { pk(&kp(n)) }));
        let expect = self.expect(w);
        Case { what, world: w.clone(), f: if self.unwrap { "singleSignerUnwrap" } else { "singleSignerWrap" }, args: json!([a]), at: "ixs", expect }
    }
    fn expect(&self, w: &World) -> Expect {
        let account = |k: &Pubkey| w.get(k).filter(|a| is_token_account(a));
        let amount = match &self.amount {
            Value::Number(n) => n.as_u64(),
            v => num_of(v),
        };
        let Some(amount) = amount else { return Expect::Refuse };
        let (p, dst);
        if self.unwrap {
            let d = self.dst.unwrap();
            // whatever is looked up must be there
            if w.get(&self.src).is_none() || w.get(&d).is_none() && (self.mint.is_none() || self.uprog.is_none()) {
                return if [TOKEN, T22].contains(&d) || [TOKEN, T22].contains(&self.src) { Expect::Harmless } else { Expect::Refuse };
            }
            let (Some(a), Some(u)) = (account(&self.src), account(&d)) else { return Expect::Harmless };
            let q = Pair::new(acct_mint(u), u.owner, a.owner);
            if acct_mint(a) != q.wmint || self.mint.is_some_and(|m| m != q.umint) || self.uprog.is_some_and(|x| x != q.uprog) || self.wprog.is_some_and(|x| x != q.wprog) {
                return Expect::Harmless;
            }
            (p, dst) = (q, d);
        } else {
            if w.get(&self.src).is_none() && (self.mint.is_none() || self.uprog.is_none()) {
                return if [TOKEN, T22].contains(&self.src) { Expect::Harmless } else { Expect::Refuse };
            }
            let Some(a) = account(&self.src) else { return Expect::Harmless };
            let q = Pair::new(acct_mint(a), a.owner, self.wprog.unwrap());
            if self.mint.is_some_and(|m| m != q.umint) || self.uprog.is_some_and(|x| x != q.uprog) {
                return Expect::Harmless;
            }
            (p, dst) = (q, self.dst.unwrap_or_else(|| ata_of(&kp(self.payer), &q.wmint, &q.wprog)));
        }
        let (who, signs) = self.auth.unwrap_or((self.payer, true));
        let auth = if signs { tw::Auth::single(&kp(who)) } else { tw::Auth::unsigned(&kp(who)) };
        let ix = if self.unwrap { tw::unwrap(&p, &self.src, &dst, &auth, &[], amount) } else { tw::wrap(&p, &self.src, &dst, &auth, &[], amount) };
        let fields = if self.unwrap {
            vec![("recipientUnwrappedToken", pk(&dst)), ("amount", big(amount))]
        } else {
            vec![("recipientWrappedTokenAccount", pk(&dst)), ("escrowAccount", pk(&p.escrow)), ("amount", big(amount))]
        };
        Expect::Exact(vec![ix], fields)
    }
}
fn moves(ctx: &Ctx, pool: &Pool, scenes: &[Scene], strangers: &[Vec<(&'static str, Pubkey)>]) {
    let mut cases = vec![];
    for s in scenes {
        for unwrap in [false, true] {
            let wprogs = if unwrap { vec![None, Some(s.p.wprog), Some(other_prog(&s.p.wprog))] } else { vec![Some(s.p.wprog)] };
            for wprog in wprogs {
                for mint in [None, Some(s.p.umint), Some(s.other), Some(s.p.wmint)] {
                    for uprog in [None, Some(s.p.uprog), Some(other_prog(&s.p.uprog))] {
                        for payer in ["payer", "other-payer"] {
                            for who in ["payer", "holder"] {
                                for auth in [None, Some(("payer", true)), Some(("payer", false)), Some(("holder", true)), Some(("holder", false))] {
                                    for to in [None, Some("payer"), Some("stranger")] {
                                        let mut m = Move { wprog, mint, uprog, payer, auth, amount: big(HELD), ..Move::new(s, unwrap) };
                                        if unwrap {
                                            let Some(to) = to else { continue };
                                            (m.src, m.dst) = (s.wr(who), Some(s.u(to)));
                                        } else {
                                            (m.src, m.dst) = (s.u(who), to.map(|t| s.wr(t)));
                                        }
                                        cases.push(m.case(
                                            format!("{} by {payer} from {who} to {to:?}, authority {auth:?}, mint {:?}, programs {:?} {:?}", if unwrap { "unwrap" } else { "wrap" }, mint.map(|k| name_of(&k)), uprog.map(|k| name_of(&k)), wprog.map(|k| name_of(&k))),
                                            &s.w,
                                        ));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    decide(ctx, pool, "moves", false, &cases);
    let mut cases = vec![];
    for s in scenes {
        let amounts = [0, 1, 2, 255, 256, 65535, 65536, HELD - 1, HELD, HELD + 1, u32::MAX as u64, 1 << 32, (1 << 53) - 1, 1 << 53, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX];
        for unwrap in [false, true] {
            let mut values: Vec<Value> = amounts.iter().map(big).collect();
            values.extend(amounts.iter().filter(|a| **a < 1 << 53).map(|a| json!(a)));
            values.extend([big("-1"), big("18446744073709551616"), big("36893488147419103232"), json!(-1), json!(1.5), json!("abc")]);
            for amount in values {
                let m = Move { amount: amount.clone(), ..Move::new(s, unwrap) };
                cases.push(m.case(format!("amount {amount}, unwrap {unwrap}"), &s.w));
            }
        }
    }
    decide(ctx, pool, "amounts", false, &cases);
    let mut cases = vec![];
    for (s, odd) in scenes.iter().zip(strangers) {
        for unwrap in [false, true] {
            for (n, k) in odd {
                for given in [false, true] {
                    for second in [false, true] {
                        let mut m = Move::new(s, unwrap);
                        if given {
                            (m.mint, m.uprog, m.wprog) = (Some(s.p.umint), Some(s.p.uprog), Some(s.p.wprog));
                        }
                        if second {
                            m.dst = Some(*k);
                        } else {
                            m.src = *k;
                        }
                        cases.push(m.case(format!("{} is {n}, given {given}, unwrap {unwrap}", if second { "recipient" } else { "source" }), &s.w));
                    }
                }
            }
        }
    }
    decide(ctx, pool, "strangers", false, &cases);
}

/// Token-2022 accounts with every required extension, and such mints.
fn extended(ctx: &Ctx, pool: &Pool) {
    let sets: Vec<Vec<Ext>> = vec![
        vec![Ext::fee(100, 5)], vec![Ext::MetaPtr(Some(key("elsewhere")))], vec![Ext::NonTransferable], vec![Ext::Close],
        vec![Ext::fee(100, 5), Ext::MetaPtr(None), Ext::Close],
    ];
    let mut jobs = vec![];
    for wprog in [TOKEN, T22] {
        for e in &sets {
            jobs.push((wprog, e.clone()));
        }
    }
    let cases: Vec<Case> = pool
        .map(&jobs, |svm, (wprog, e)| {
            let s = scene(svm, T22, *wprog, e);
            [false, true].map(|u| Move { amount: big(7), ..Move::new(&s, u) }.case(format!("mint with {e:?}, unwrap {u}"), &s.w))
        })
        .into_iter()
        .flatten()
        .collect();
    decide(ctx, pool, "extensions", false, &cases);
}

// ---- creation ------------------------------------------------------------------------
fn transfer(from: &Pubkey, to: &Pubkey, lamports: u64) -> Instruction {
    let mut data = 2u32.to_le_bytes().to_vec();
    data.extend(lamports.to_le_bytes());
    Instruction { program_id: SYS, accounts: vec![AccountMeta::new(*from, true), AccountMeta::new(*to, false)], data }
}
fn create(svm: &mut Svm, w: &World, p: &Pair, idempotent: Option<bool>, payer: &str, what: String) -> Case {
    use spl_token_2022_interface::{extension::ExtensionType as E, state::Mint};
    let lm = if p.wprog == T22 { E::try_calculate_account_len::<Mint>(&[E::ConfidentialTransferMint, E::MetadataPointer]).unwrap() } else { 82 };
    let fm = svm.rent_in(w, lm).saturating_sub(w.lamports(&p.wmint));
    let fb = svm.rent_in(w, 32).saturating_sub(w.lamports(&p.backptr));
    let mut ixs = vec![];
    for (k, f) in [(p.wmint, fm), (p.backptr, fb)] {
        if f > 0 {
            ixs.push(transfer(&kp(payer), &k, f));
        }
    }
    ixs.push(tw::create_mint(p, idempotent.unwrap_or(false)));
    let mut a = json!({"rpc": rpc(), "unwrappedMint": pk(&p.umint), "wrappedTokenProgram": pk(&p.wprog), "payer": signer_of(&kp(payer))});
    if let Some(i) = idempotent {
        a["idempotent"] = i.into();
    }
    let fields = vec![("wrappedMint", pk(&p.wmint)), ("backpointer", pk(&p.backptr)), ("fundedWrappedMintLamports", big(fm)), ("fundedBackpointerLamports", big(fb))];
    Case { what, world: w.clone(), f: "createMint", args: json!([a]), at: "ixs", expect: Expect::Exact(ixs, fields) }
}
fn bare(svm: &mut Svm, uprog: Pubkey, exts: &[Ext]) -> (World, Pubkey) {
    let mut w = World { epoch: 5, ..Default::default() };
    for k in ["payer", "other-payer"] {
        w.fund(kp(k), FUNDS);
    }
    let m = key("unwrapped-mint");
    make_mint(svm, &mut w, &MintSpec::new(m, uprog).exts(exts)).unwrap();
    (w, m)
}
fn creation(ctx: &Ctx, pool: &Pool, scenes: &[Scene]) {
    let mut jobs = vec![];
    for (uprog, wprog) in PROGS {
        for rate in [None, Some(1), Some(2), Some(7)] {
            jobs.push((uprog, wprog, rate));
        }
    }
    let cases: Vec<Case> = pool
        .map(&jobs, |svm, (uprog, wprog, rate)| {
            use spl_token_2022_interface::{extension::ExtensionType as E, state::Mint};
            let (mut w, m) = bare(svm, *uprog, &[]);
            w.rent = *rate;
            let p = Pair::new(m, *uprog, *wprog);
            let lm = if *wprog == T22 { E::try_calculate_account_len::<Mint>(&[E::ConfidentialTransferMint, E::MetadataPointer]).unwrap() } else { 82 };
            let (nm, nb) = (svm.rent_in(&w, lm), svm.rent_in(&w, 32));
            let around = |n: u64| {
                let mut v = vec![0, 1, 2, n / 2, n - 2, n - 1, n, n + 1, 2 * n, 1 << 32, (1 << 32) + n, 1 << 53, (1 << 53) + 1, n.saturating_sub(256), n + 65536];
                v.sort();
                v.dedup();
                v
            };
            let mut grid: Vec<(u64, u64)> = around(nm).iter().flat_map(|a| around(nb).into_iter().map(|b| (*a, b))).collect();
            if *rate == Some(1) {
                let step = if ctx.thorough { 1 } else { 7 };
                grid.extend((0..=nm + 2).step_by(step).flat_map(|a| [(a, 0), (a, nb)]));
                grid.extend((0..=nb + 2).flat_map(|b| [(0, b), (nm, b)]));
                grid.extend((0..=nb).map(|k| (nm - k, nb - k)));
            }
            grid.sort();
            grid.dedup();
            let mut out = vec![];
            for (i, (a, b)) in grid.into_iter().enumerate() {
                let mut w = w.clone();
                w.fund(p.wmint, a);
                w.fund(p.backptr, b);
                let idem = [None, Some(false), Some(true)][i % 3];
                let payer = ["payer", "other-payer"][i % 2];
                out.push(create(svm, &w, &p, idem, payer, format!("wrapped mint has {a} of {nm}, backpointer {b} of {nb}, rate {rate:?}, idempotent {idem:?}")));
            }
            out
        })
        .into_iter()
        .flatten()
        .collect();
    decide(ctx, pool, "create mint", true, &cases);
    let cases: Vec<Case> = pool
        .map(scenes, |svm, s| {
            let mut out = vec![];
            for idem in [None, Some(false), Some(true)] {
                for less in [0, 1, 200] {
                    let mut w = s.w.clone();
                    w.edit(&s.p.wmint, |a| a.lamports -= less);
                    w.edit(&s.p.backptr, |a| a.lamports -= less / 2);
                    out.push(create(svm, &w, &s.p, idem, "payer", format!("the pair exists, {less} lamports short, idempotent {idem:?}")));
                }
            }
            out
        })
        .into_iter()
        .flatten()
        .collect();
    decide(ctx, pool, "existing mint", false, &cases);
}

// ---- the escrow ----------------------------------------------------------------------
fn escrows(ctx: &Ctx, pool: &Pool) {
    let sets: Vec<Vec<Ext>> = vec![vec![], vec![Ext::fee(100, 5)], vec![Ext::NonTransferable], vec![Ext::fee(1, 1), Ext::MetaPtr(None), Ext::Close]];
    let mut jobs = vec![];
    for (uprog, wprog) in PROGS {
        for e in &sets {
            if uprog == T22 || e.is_empty() {
                jobs.push((uprog, wprog, e.clone()));
            }
        }
    }
    let call_args = |p: &Pair| json!([{"rpc": rpc(), "payer": signer_of(&kp("payer")), "unwrappedMint": pk(&p.umint), "wrappedTokenProgram": pk(&p.wprog)}]);
    let made: Vec<(Vec<Case>, Vec<(String, World, Pair)>)> = pool.map(&jobs, |svm, (uprog, wprog, e)| {
        let (w, m) = bare(svm, *uprog, e);
        let p = Pair::new(m, *uprog, *wprog);
        let mut whole = w.clone();
        make_escrow(svm, &mut whole, &p).unwrap();
        let full = svm.rent(whole.data(&p.escrow).len());
        let mut create = vec![];
        let mut exists = vec![];
        let ix = Instruction {
            program_id: ATA,
            accounts: vec![AccountMeta::new(kp("payer"), true), rw(&p.escrow), ro(&p.auth), ro(&p.umint), ro(&SYS), ro(&p.uprog)],
            data: vec![0],
        };
        for funds in [0, 1, 890_880, full - 1, full, full + 1, FUNDS] {
            let mut w = w.clone();
            w.fund(p.escrow, funds);
            create.push(Case {
                what: format!("escrow of {} with {e:?} has {funds} lamports and no data", name_of(uprog)),
                world: w,
                f: "createEscrowAccount",
                args: call_args(&p),
                at: "ixs",
                expect: Expect::Exact(vec![ix.clone()], vec![("kind", "instructions_to_create".into()), ("address", pk(&p.escrow))]),
            });
        }
        for amount in [0u64, 1, u64::MAX] {
            let mut w = whole.clone();
            w.edit(&p.escrow, |a| a.data[64..72].copy_from_slice(&amount.to_le_bytes()));
            exists.push((format!("escrow of {} with {e:?} holds {amount}", name_of(uprog)), w, p));
        }
        let mut froz = whole.clone();
        froz.edit(&p.escrow, |a| a.data[108] = 2);
        exists.push(("frozen escrow".into(), froz, p));
        let mut none = w.clone();
        none.acc.remove(&m);
        create.push(Case { what: "the unwrapped mint does not exist".into(), world: none, f: "createEscrowAccount", args: call_args(&p), at: "ixs", expect: Expect::Refuse });
        (create, exists)
    });
    let (create, exists): (Vec<_>, Vec<_>) = made.into_iter().unzip();
    decide(ctx, pool, "create escrow", true, &create.into_iter().flatten().collect::<Vec<_>>());
    let exists: Vec<_> = exists.into_iter().flatten().collect();
    let rs = pool.map(&exists, |svm, (what, w, p)| {
        ctx.state();
        ctx.step();
        let (ans, _) = call(svm, Some(w), "createEscrowAccount", call_args(p), None);
        let a = w.get(&p.escrow).unwrap();
        let r = match &ans {
            Ans::Unmodelled(_) => None,
            Ans::Err(e) => Some(format!("{what}: rejected: {e}")),
            Ans::Ok(v) => {
                let d = &v["account"]["data"];
                (v["kind"] != "already_exists"
                    || pk_of(&v["account"]["address"]) != Some(p.escrow)
                    || pk_of(&d["mint"]) != Some(p.umint)
                    || pk_of(&d["owner"]) != Some(p.auth)
                    || num_of(&d["amount"]) != Some(u64::from_le_bytes(a.data[64..72].try_into().unwrap())))
                .then(|| format!("{what}: gives {v}"))
            }
        };
        if r.is_none() {
            ctx.trace();
        }
        r
    });
    for (x, r) in exists.iter().zip(rs) {
        if let Some(r) = r {
            ctx.violate_json("existing escrow", r, json!({"world": world_json(&x.1)}));
        }
    }
    // accounts for the wrapped tokens
    let cases: Vec<Case> = pool
        .map(&PROGS, |svm, (u, w)| {
            let s = scene(svm, *u, *w, &[]);
            [(s.p.wmint, *w), (s.p.umint, *u)].map(|(mint, prog)| (s.w.clone(), mint, prog))
        })
        .into_iter()
        .flatten()
        .map(|(w, mint, prog)| Case {
            what: format!("account of {}", name_of(&mint)),
            world: w,
            f: "createTokenAccount",
            args: json!([{"rpc": rpc(), "payer": signer_of(&kp("payer")), "mint": pk(&mint), "owner": pk(&kp("holder")), "tokenProgram": pk(&prog)}]),
            at: "ixs",
            expect: Expect::Harmless,
        })
        .collect();
    let rs = pool.map(&cases, |svm, c| {
        ctx.state();
        ctx.step();
        let (ans, _) = call(svm, Some(&c.world), c.f, c.args.clone(), None);
        let mint = pk_of(&c.args[0]["mint"]).unwrap();
        let prog = pk_of(&c.args[0]["tokenProgram"]).unwrap();
        match &ans {
            Ans::Ok(v) => {
                let (Some(ixs), Some(k)) = (ixs_of(&v["ixs"]), pk_of(&v["keyPair"]["$s"])) else { return Some(format!("{}: {v}", c.what)) };
                let e = svm.exec(&c.world, &ixs);
                let Some(a) = e.world.get(&k).filter(|_| e.ok()) else { return Some(format!("{}: not created: {:?}", c.what, e.res)) };
                (a.owner != prog || acct_mint(a) != mint || acct_owner(a) != kp("holder")).then(|| format!("{}: another account is created", c.what))
            }
            // not part of the published interface
            _ => None,
        }
    });
    for (c, r) in cases.iter().zip(rs) {
        if let Some(r) = r {
            ctx.violate_json("token account", r, json!({"world": world_json(&c.world)}));
        }
    }
}

// ---- generated builders and parsers ---------------------------------------------------
fn with_role(m: &AccountMeta) -> Value {
    json!({"address": pk(&m.pubkey), "role": m.is_signer as u8 * 2 + m.is_writable as u8})
}
fn generated(ctx: &Ctx, pool: &Pool) {
    // name, fields in order, what the program expects
    struct B {
        name: &'static str,
        parse: &'static str,
        fields: &'static [&'static str],
        optional: &'static [&'static str],
        data: Option<&'static str>,
    }
    let builders = [
        B { name: "CreateMint", parse: "parseCreateMintInstruction", fields: &["wrappedMint", "backpointer", "unwrappedMint", "systemProgram", "wrappedTokenProgram"], optional: &["systemProgram"], data: Some("idempotent") },
        B {
            name: "Wrap", parse: "parseWrapInstruction",
            fields: &["recipientWrappedTokenAccount", "wrappedMint", "wrappedMintAuthority", "unwrappedTokenProgram", "wrappedTokenProgram", "unwrappedTokenAccount", "unwrappedMint", "unwrappedEscrow", "transferAuthority"],
            optional: &[], data: Some("amount"),
        },
        B {
            name: "Unwrap", parse: "parseUnwrapInstruction",
            fields: &["unwrappedEscrow", "recipientUnwrappedToken", "wrappedMintAuthority", "unwrappedMint", "wrappedTokenProgram", "unwrappedTokenProgram", "wrappedTokenAccount", "wrappedMint", "transferAuthority"],
            optional: &[], data: Some("amount"),
        },
        B { name: "CloseStuckEscrow", parse: "parseCloseStuckEscrowInstruction", fields: &["escrow", "destination", "unwrappedMint", "wrappedMint", "wrappedMintAuthority", "token2022Program"], optional: &["token2022Program"], data: None },
        B { name: "SyncMetadataToToken2022", parse: "parseSyncMetadataToToken2022Instruction", fields: &["wrappedMint", "wrappedMintAuthority", "unwrappedMint", "token2022Program", "sourceMetadata", "ownerProgram"], optional: &["token2022Program", "sourceMetadata", "ownerProgram"], data: None },
        B {
            name: "SyncMetadataToSplToken", parse: "parseSyncMetadataToSplTokenInstruction",
            fields: &["metaplexMetadata", "wrappedMintAuthority", "wrappedMint", "unwrappedMint", "metaplexProgram", "systemProgram", "rentSysvar", "sourceMetadata", "ownerProgram"],
            optional: &["metaplexProgram", "systemProgram", "rentSysvar", "sourceMetadata", "ownerProgram"], data: None,
        },
    ];
    // writable positions and the defaults of what is left out
    let writable: [&[usize]; 6] = [&[0, 1], &[0, 1, 5, 7], &[0, 1, 6, 7], &[0, 1], &[0], &[0, 1]];
    let default = |n: &str| match n {
        "systemProgram" => SYS,
        "token2022Program" => T22,
        "metaplexProgram" => MPL,
        "rentSysvar" => RENT,
        _ => TW,
    };
    let mut n = 0u64;
    pool.one(|svm| {
        let bad = |sig: &str, what: String| ctx.violate_json(&format!("generated/{sig}"), what, json!({}));
        for (tag, b) in builders.iter().enumerate() {
            let datas: Vec<(Value, Vec<u8>)> = match b.data {
                Some("amount") => [0u64, 1, 255, 256, 1 << 32, (1 << 53) + 1, 1 << 63, u64::MAX].iter().map(|a| (big(a), a.to_le_bytes().to_vec())).collect(),
                Some(_) => vec![(json!(false), vec![0]), (json!(true), vec![1]), (Value::Null, vec![0])],
                None => vec![(Value::Null, vec![])],
            };
            let multi = matches!(b.name, "Wrap" | "Unwrap");
            for mask in 0..1u32 << b.optional.len() {
                for members in 0..=if multi { 11 } else { 0 } {
                    for signs in if multi { vec![false, true] } else { vec![false] } {
                        for (v, d) in &datas {
                            for program in [None, Some(key("another deployment"))] {
                                ctx.state();
                                ctx.step();
                                n += 1;
                                let mut a = json!({});
                                let mut want = vec![];
                                for (i, f) in b.fields.iter().enumerate() {
                                    let left = b.optional.iter().position(|o| o == f).is_some_and(|o| mask >> o & 1 == 1);
                                    let k = if left { if default(f) == TW { program.unwrap_or(TW) } else { default(f) } } else { key(&format!("account {f}")) };
                                    let sign = *f == "transferAuthority" && signs;
                                    if !left {
                                        a[*f] = if sign { signer_of(&k) } else { pk(&k) };
                                    }
                                    want.push(AccountMeta { pubkey: k, is_signer: sign, is_writable: writable[tag].contains(&i) });
                                }
                                let ms: Vec<Pubkey> = (0..members).map(|i| key(&format!("member {i}"))).collect();
                                if members > 0 {
                                    a["multiSigners"] = ms.iter().map(signer_of).collect();
                                }
                                want.extend(ms.iter().map(signer));
                                if let (Some(f), false) = (b.data, v.is_null()) {
                                    a[f] = v.clone();
                                }
                                let mut data = vec![tag as u8];
                                data.extend(d);
                                let want = Instruction { program_id: program.unwrap_or(TW), accounts: want, data: data.clone() };
                                let cfg = program.map_or(json!({}), |p| json!({"programAddress": pk(&p)}));
                                let what = format!("get{}Instruction with {a}", b.name);
                                let (ans, _) = call(svm, None, &format!("get{}Instruction", b.name), json!([a, cfg]), None);
                                match &ans {
                                    Ans::Unmodelled(_) => continue,
                                    Ans::Err(e) => bad("rejected", format!("{what}: {e}")),
                                    Ans::Ok(v) => match ix_of(v) {
                                        None => bad("malformed", format!("{what}: {v}")),
                                        Some(got) => match differ(std::slice::from_ref(&got), std::slice::from_ref(&want)) {
                                            Some(d) => bad("builder", format!("{what}: {d}")),
                                            None => ctx.trace(),
                                        },
                                    },
                                }
                                if program.is_none() {
                                    let (p, _) = call(svm, None, "plugin", json!(["instructions", b.name[..1].to_lowercase() + &b.name[1..], [a]]), None);
                                    if let Ans::Ok(v) = &p {
                                        if ix_of(v).is_none_or(|g| differ(&[g], std::slice::from_ref(&want)).is_some()) {
                                            bad("plugin", format!("{what}: the plugin builds {v}"));
                                        }
                                    } else if let Ans::Err(e) = &p {
                                        bad("plugin", format!("{what}: {e}"));
                                    }
                                }
                                // back again
                                let raw = json!({"programAddress": pk(&want.program_id), "accounts": want.accounts.iter().map(with_role).collect::<Vec<_>>(), "data": bytes(&want.data)});
                                let (ans, _) = call(svm, None, "parse", json!([b.parse, raw]), None);
                                match &ans {
                                    Ans::Unmodelled(_) => {}
                                    Ans::Err(e) => bad("parse", format!("{what}: cannot be parsed: {e}")),
                                    Ans::Ok(v) => {
                                        if v["type"] != b.name {
                                            bad("parse", format!("{what}: parsed as {}", v["type"]));
                                        }
                                        for w in [&v["whole"], &v["one"]] {
                                            if pk_of(&w["programAddress"]) != Some(want.program_id) {
                                                bad("parse", format!("{what}: parsed with program {}", w["programAddress"]));
                                            }
                                            for (f, m) in b.fields.iter().zip(&want.accounts) {
                                                let placeholder = b.optional.contains(f) && m.pubkey == TW;
                                                let got = &w["accounts"][*f];
                                                if if placeholder { !got.is_null() } else { *got != with_role(m) } {
                                                    bad("parse", format!("{what}: {f} parsed as {got}"));
                                                }
                                            }
                                            if w["data"]["discriminator"] != tag {
                                                bad("parse", format!("{what}: discriminator {}", w["data"]["discriminator"]));
                                            }
                                            if let Some(f) = b.data {
                                                let expect = if v.is_null() { json!(false) } else if f == "idempotent" { json!(d[0] == 1) } else { big(u64::from_le_bytes(d[..8].try_into().unwrap())) };
                                                if w["data"][f] != expect {
                                                    bad("parse", format!("{what}: {f} parsed as {} instead of {expect}", w["data"][f]));
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            // codecs
            for (v, d) in &datas {
                ctx.step();
                let mut val = json!({});
                if let (Some(f), false) = (b.data, v.is_null()) {
                    val[f] = v.clone();
                }
                let (ans, _) = call(svm, None, "roundTrip", json!([format!("get{}InstructionDataCodec", b.name), val]), None);
                if let Ans::Ok(v) = &ans {
                    let mut data = vec![tag as u8];
                    data.extend(d);
                    if bytes_of(&v["bytes"]) != Some(data.clone()) || v["value"]["discriminator"] != tag {
                        bad("codec", format!("{} {val} gives {v}", b.name));
                    }
                } else if let Ans::Err(e) = &ans {
                    bad("codec", format!("{} {val}: {e}", b.name));
                }
            }
            let (ans, _) = call(svm, None, "discriminators", json!([b.name]), None);
            if ans.ok().is_some_and(|v| bytes_of(v) != Some(vec![tag as u8])) {
                bad("codec", format!("discriminator of {}: {ans:?}", b.name));
            }
            // too few accounts, too little data
            for k in 0..b.fields.len() {
                ctx.step();
                let raw = json!({"programAddress": pk(&TW), "accounts": (0..k).map(|i| json!({"address": pk(&key(&format!("{i}"))), "role": 0})).collect::<Vec<_>>(), "data": bytes(&[vec![tag as u8], vec![0; 8]].concat())});
                if let (Ans::Ok(v), _) = call(svm, None, "parse", json!([b.parse, raw]), None) {
                    bad("parse", format!("{} with {k} accounts parsed as {v}", b.name));
                }
            }
        }
        for t in 0..=255u8 {
            for rest in [vec![], vec![0; 8], vec![1; 32]] {
                ctx.step();
                let data = [vec![t], rest].concat();
                let (ans, _) = call(svm, None, "identify", json!([bytes(&data)]), None);
                let want = builders.get(t as usize).map(|b| b.name);
                let right = match (&ans, want) {
                    (Ans::Unmodelled(_), _) => true,
                    (Ans::Ok(v), Some(w)) => *v == json!([w, w]),
                    (Ans::Err(_), None) => true,
                    _ => false,
                };
                if !right {
                    bad("identify", format!("tag {t} is taken for {ans:?} instead of {want:?}"));
                }
            }
        }
    });
    ctx.put("generated_builds", n);
}

// ---- addresses and accounts -------------------------------------------------------------
fn addresses(ctx: &Ctx, pool: &Pool) {
    let mut keys: Vec<Pubkey> = (0..if ctx.thorough { 400 } else { 60 }).map(|i| key(&format!("js mint {i}"))).collect();
    keys.extend([SYS, TW, TOKEN, T22, Pubkey::new_from_array([255; 32]), Pubkey::new_from_array([0; 31].iter().copied().chain([1]).collect::<Vec<_>>().try_into().unwrap())]);
    let deployments = [None, Some(TW), Some(key("deployment")), Some(T22)];
    let jobs: Vec<_> = keys.iter().flat_map(|k| deployments.iter().map(move |d| (*k, *d))).collect();
    let find = |seeds: &[&[u8]], prog: &Pubkey| {
        let (k, b) = Pubkey::find_program_address(seeds, prog);
        json!([pk(&k), b])
    };
    let rs = pool.map(&jobs, |svm, (k, d)| {
        let prog = d.unwrap_or(TW);
        let cfg = d.map_or(json!({}), |p| json!({"programAddress": pk(&p)}));
        let mut out = vec![];
        let mut check = |f: &str, plug: &str, seeds: Value, want: Value| {
            ctx.state();
            ctx.step();
            let (a, _) = call(svm, None, f, json!([seeds, cfg]), None);
            let (b, _) = call(svm, None, "plugin", json!(["pdas", plug, [seeds, cfg]]), None);
            for a in [a, b] {
                match a {
                    Ans::Unmodelled(_) => {}
                    Ans::Ok(v) if v == want => ctx.trace(),
                    a => out.push(format!("{f} of {seeds} under {prog}: {a:?} instead of {want}")),
                }
            }
        };
        for p in [TOKEN, T22, key("some token program")] {
            check("findWrappedMintPda", "wrappedMint", json!({"unwrappedMint": pk(k), "wrappedTokenProgram": pk(&p)}), find(&[b"mint", k.as_ref(), p.as_ref()], &prog));
        }
        check("findBackpointerPda", "backpointer", json!({"wrappedMint": pk(k)}), find(&[b"backpointer", k.as_ref()], &prog));
        check("findWrappedMintAuthorityPda", "wrappedMintAuthority", json!({"wrappedMint": pk(k)}), find(&[b"authority", k.as_ref()], &prog));
        out
    });
    for w in rs.into_iter().flatten() {
        ctx.violate_json("addresses", w, json!({}));
    }
    ctx.put("addresses", jobs.len() as u64 * 5);
}
fn backpointers(ctx: &Ctx, pool: &Pool, scenes: &[Scene]) {
    let rs = pool.map(scenes, |svm, s| {
        let mut out = vec![];
        let p = s.p;
        let mut bad = |w: String| out.push(w);
        // what creation on chain leaves
        let mut short = s.w.clone();
        short.edit(&p.backptr, |a| a.data.truncate(31));
        let mut gone = s.w.clone();
        gone.acc.remove(&p.backptr);
        let mut empty = gone.clone();
        empty.fund(p.backptr, 1);
        let (a, from) = (pk(&p.backptr), json!({"wrappedMint": pk(&p.wmint)}));
        for (w, there, name) in [(&s.w, Some(true), "created"), (&short, None, "short"), (&gone, Some(false), "missing"), (&empty, None, "funded only")] {
            let calls = [
                ("fetchBackpointer", json!([rpc(), a]), true, false), ("fetchMaybeBackpointer", json!([rpc(), a]), false, false),
                ("fetchAllBackpointer", json!([rpc(), [a]]), true, true), ("fetchAllMaybeBackpointer", json!([rpc(), [a]]), false, true),
                ("fetchBackpointerFromSeeds", json!([rpc(), from]), true, false), ("fetchMaybeBackpointerFromSeeds", json!([rpc(), from]), false, false),
                ("plugin", json!(["accounts", "fetch", [a]]), true, false), ("plugin", json!(["accounts", "fetchMaybe", [a]]), false, false),
            ];
            for (f, args, must, list) in calls {
                ctx.state();
                ctx.step();
                let (ans, n) = call(svm, Some(w), f, args.clone(), None);
                let right = match (&ans, there) {
                    (Ans::Unmodelled(_), _) => true,
                    (Ans::Ok(v), Some(true)) => {
                        let v = if list { &v[0] } else { v };
                        pk_of(&v["data"]["unwrappedMint"]) == Some(p.umint) && pk_of(&v["address"]) == Some(p.backptr) && v["exists"] != false && pk_of(&v["programAddress"]) == Some(TW)
                    }
                    (Ans::Ok(v), Some(false)) => !must && (if list { &v[0] } else { v })["exists"] == false,
                    (Ans::Err(_), t) => t.is_none() || t == Some(false) && must,
                    _ => false,
                };
                if right {
                    ctx.trace();
                } else {
                    bad(format!("{f} of a {name} backpointer: {ans:?}"));
                }
                for k in 0..n {
                    if let (Ans::Ok(v), _) = call(svm, Some(w), f, args.clone(), Some(k)) {
                        bad(format!("{f} with a failing lookup: {v}"));
                    }
                }
            }
        }
        let other = json!({"unwrappedMint": pk(&p.umint)});
        let (ans, _) = call(svm, None, "roundTrip", json!(["getBackpointerCodec", other]), None);
        if ans.ok().is_some_and(|v| bytes_of(&v["bytes"]) != Some(p.umint.to_bytes().to_vec()) || v["value"] != other) {
            bad(format!("backpointer codec: {ans:?}"));
        }
        let (ans, _) = call(svm, None, "getBackpointerSize", json!([]), None);
        if ans.ok().is_some_and(|v| *v != s.w.data(&p.backptr).len()) {
            bad(format!("backpointer size: {ans:?}"));
        }
        out
    });
    for w in rs.into_iter().flatten() {
        ctx.violate_json("backpointer", w, json!({}));
    }
}

// ---- errors ----------------------------------------------------------------------------
/// The pair with another wrapped mint, and whatever follows from it as it was
/// or as it would be: in which order the program looks is its own affair.
fn with_wmint(p: &Pair, wmint: Pubkey) -> Vec<Pair> {
    let a = auth_of(&wmint);
    let mut v = vec![];
    for auth in [p.auth, a] {
        for escrow in [p.escrow, ata_of(&a, &p.umint, &p.uprog)] {
            for backptr in [p.backptr, backptr_of(&wmint)] {
                v.push(Pair { wmint, auth, escrow, backptr, ..*p });
            }
        }
    }
    v
}
fn with_auth(p: &Pair, auth: Pubkey) -> Vec<Pair> {
    [p.escrow, ata_of(&auth, &p.umint, &p.uprog)].map(|escrow| Pair { auth, escrow, ..*p }).to_vec()
}
/// Transactions that the program itself refuses, with the error each must
/// have; of several transactions, one of them.
fn refusals(svm: &mut Svm) -> Vec<(&'static str, World, Vec<Instruction>)> {
    let mut out: Vec<(&'static str, World, Vec<Instruction>)> = vec![];
    let s = scene(svm, T22, T22, &[]);
    let p = s.p;
    let me = tw::Auth::single(&kp("payer"));
    let wrap = |p: &Pair, n| tw::wrap(p, &s.u("payer"), &s.wr("payer"), &me, &[], n);
    let unwrap = |p: &Pair, n| tw::unwrap(p, &s.wr("payer"), &s.u("payer"), &me, &[], n);
    let close = |p: &Pair, _| tw::close_stuck(p, &kp("payer"));
    for f in [&wrap as &dyn Fn(&Pair, u64) -> Instruction, &unwrap, &close] {
        let all = |v: Vec<Pair>| v.iter().map(|p| f(p, 1)).collect::<Vec<_>>();
        out.push(("WRAPPED_MINT_MISMATCH", s.w.clone(), all(with_wmint(&p, s.other))));
        out.push(("MINT_AUTHORITY_MISMATCH", s.w.clone(), all(with_auth(&p, key("nobody")))));
        out.push(("ESCROW_MISMATCH", s.w.clone(), vec![f(&Pair { escrow: s.u("stranger"), ..p }, 1)]));
    }
    for f in [&wrap as &dyn Fn(&Pair, u64) -> Instruction, &unwrap] {
        out.push(("ZERO_WRAP_AMOUNT", s.w.clone(), vec![f(&p, 0)]));
    }
    out.push(("WRAPPED_MINT_MISMATCH", s.w.clone(), with_wmint(&p, s.other).iter().map(|p| tw::create_mint(p, true)).collect()));
    out.push(("BACKPOINTER_MISMATCH", s.w.clone(), vec![tw::create_mint(&Pair { backptr: key("nobody"), ..p }, true)]));
    let mut w = s.w.clone();
    w.edit(&p.escrow, |a| a.data[64..72].fill(0));
    out.push(("ESCROW_IN_GOOD_STATE", w, vec![tw::close_stuck(&p, &kp("payer"))]));
    // creation over accounts of the wrong owners
    let foreign = |w: &mut World, k: &Pubkey| w.set(*k, Account { lamports: FUNDS, data: vec![1], owner: key("some program"), executable: false, rent_epoch: 0 });
    let mut w = s.w.clone();
    foreign(&mut w, &p.wmint);
    out.push(("INVALID_WRAPPED_MINT_OWNER", w, vec![tw::create_mint(&p, true)]));
    let mut w = s.w.clone();
    foreign(&mut w, &p.backptr);
    out.push(("INVALID_BACKPOINTER_OWNER", w, vec![tw::create_mint(&p, true)]));
    // metadata
    for (e, ext, src) in [("METADATA_POINTER_UNSET", Ext::MetaPtr(None), None), ("METADATA_POINTER_MISMATCH", Ext::MetaPtr(Some(key("elsewhere"))), Some(key("somewhere else")))] {
        let s = scene(svm, T22, T22, &[ext.clone()]);
        out.push((e, s.w.clone(), vec![tw::sync22(&s.p, src.as_ref(), None)]));
        let s = scene(svm, T22, TOKEN, &[ext]);
        out.push((e, s.w.clone(), vec![tw::sync_spl(&s.p, src.as_ref(), None)]));
    }
    let s = scene(svm, TOKEN, T22, &[]);
    let mut w = s.w.clone();
    let wrong = mpl_of(&s.other);
    w.set(wrong, Account { lamports: FUNDS, data: vec![4; 679], owner: MPL, executable: false, rent_epoch: 0 });
    out.push(("METAPLEX_METADATA_MISMATCH", w, vec![tw::sync22(&s.p, Some(&wrong), None)]));
    let s = scene(svm, T22, T22, &[]);
    out.push(("NO_SYNCING_TO_TOKEN2022", s.w.clone(), vec![tw::sync_spl(&s.p, None, None)]));
    out.push(("MINT_AUTHORITY_MISMATCH", s.w.clone(), with_auth(&s.p, key("nobody")).iter().map(|p| tw::sync22(p, None, None)).collect()));
    out.push(("WRAPPED_MINT_MISMATCH", s.w.clone(), with_wmint(&s.p, s.other).iter().map(|p| tw::sync22(p, None, None)).collect()));
    out
}
fn errors(ctx: &Ctx, pool: &Pool) {
    pool.one(|svm| {
        let (ans, _) = call(svm, None, "errors", json!([]), None);
        let Ans::Ok(codes) = ans else { return };
        for (name, w, ixs) in refusals(svm) {
            ctx.state();
            let rs: Vec<String> = ixs
                .iter()
                .map(|ix| {
                    ctx.step();
                    format!("{:?}", svm.exec(&w, &[ix.clone()]).res)
                })
                .collect();
            let r = rs.join("; ");
            let code = codes[format!("TOKEN_WRAP_ERROR__{name}")].as_u64();
            let want = format!("Custom({})", code.map_or("none".into(), |c| c.to_string()));
            if r.contains(&want) && rs.iter().all(|r| r.starts_with("Err")) {
                ctx.trace();
            } else {
                ctx.violate_json("errors", format!("what the client calls {name} ({want}) the program refuses with {r}"), json!({"world": world_json(&w)}));
            }
        }
        // codes are recognised for the program and no other
        for (name, code) in codes.as_object().into_iter().flatten() {
            for (prog, at, want) in [(TW, code.clone(), true), (TW, Value::Null, true), (T22, code.clone(), false), (TW, json!(code.as_u64().unwrap_or(0) + 1), false)] {
                ctx.step();
                let args = if at.is_null() { json!([code, pk(&prog)]) } else { json!([code, pk(&prog), at]) };
                let (ans, _) = call(svm, None, "isError", args, None);
                if ans.ok().is_some_and(|v| *v != want) || matches!(ans, Ans::Err(_)) {
                    ctx.violate_json("errors", format!("{name} raised by {}: recognised as {at}: {ans:?}", name_of(&prog)), json!({}));
                }
            }
        }
    });
}

pub fn run(ctx: &Ctx, pool: &Pool) {
    let mut strangers = vec![];
    let mut scenes = vec![];
    for (u, w) in PROGS {
        let (s, k) = pool.one(|svm| {
            let mut s = scene(svm, u, w, &[]);
            let k = crate::c18::strangers(svm, &mut s);
            (s, k)
        });
        scenes.push(s);
        strangers.push(k);
    }
    moves(ctx, pool, &scenes, &strangers);
    extended(ctx, pool);
    creation(ctx, pool, &scenes);
    escrows(ctx, pool);
    generated(ctx, pool);
    addresses(ctx, pool);
    backpointers(ctx, pool, &scenes);
    errors(ctx, pool);
    ctx.bound("singleSignerWrap and singleSignerUnwrap: every presence and correctness of mint, token programs and recipient x payers x sources x authorities given as address or signer, 4 program pairs; amounts as bigint and number at the edges; 13 unsuitable accounts in each position; every request failing");
    ctx.bound("createMint: 15 x 15 lamport levels x 4 rent rates x 4 pairs, with the cheapest rent every backpointer level; createEscrowAccount: lamport levels, existing accounts and extension sets");
    ctx.bound("generated builders: every presence of optional accounts x 0..11 members x data values x deployments, parsed back; addresses of 66 keys x 4 deployments; backpointers; 25 refusals of the program by error code");
}
