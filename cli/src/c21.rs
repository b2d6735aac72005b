//! C21: offline signing assembles the same transaction for every party.
use {
    crate::{c18::*, node::*, want::*},
    base64::{prelude::BASE64_STANDARD as B64, Engine},
    serde_json::json,
    solana_pubkey::Pubkey,
    std::collections::{BTreeMap, BTreeSet},
    twmc::{core::*, report::*, tok::*},
};

pub const MEMBERS: [&str; 4] = ["member-1", "member-2", "member-3", "member-4"];

/// One assembly: what is signed, and who signs in which run.
#[derive(Clone)]
struct Job {
    what: String,
    world: World,
    m: Move,
    /// run in which each required signer signs; 0 is the final one
    group: BTreeMap<&'static str, usize>,
    /// the final run takes the signatures in reverse order
    reverse: bool,
}

pub fn perms(v: &[&'static str], k: usize) -> Vec<Vec<&'static str>> {
    if k == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for x in v {
        let rest: Vec<_> = v.iter().filter(|y| *y != x).copied().collect();
        for mut p in perms(&rest, k - 1) {
            p.insert(0, *x);
            out.push(p);
        }
    }
    out
}
/// Every division of signers among a final run (0) and separate earlier runs.
fn divisions(signers: &[&'static str]) -> Vec<BTreeMap<&'static str, usize>> {
    let mut out: Vec<(BTreeMap<&'static str, usize>, usize)> = vec![(BTreeMap::new(), 0)];
    for s in signers {
        let mut next = vec![];
        for (m, max) in out {
            for g in 0..=max + 1 {
                let mut m = m.clone();
                m.insert(*s, g);
                next.push((m, max.max(g)));
            }
        }
        out = next;
    }
    out.into_iter().map(|x| x.0).collect()
}

/// The command of one run: those of `files` with their keys, others by address.
fn with_keys(m: &Move, payer: &'static str, files: &BTreeSet<&'static str>) -> Move {
    let who = |n: &'static str| if files.contains(n) { Who::File(n) } else { Who::Address(n) };
    let mut m = m.clone();
    m.payer = who(payer);
    for x in &mut m.members {
        let (Who::File(n) | Who::Address(n)) = *x else { unreachable!() };
        *x = who(n);
    }
    if m.members.is_empty() {
        if let Who::File(n) | Who::Address(n) = m.auth {
            m.auth = who(n);
        }
    }
    m
}
fn argv(m: &Move, format: Format, sign_only: bool, presigned: &[String]) -> Vec<String> {
    let mut v = m.global();
    v.extend(format.args());
    v.extend(m.args());
    for s in presigned {
        v.extend(["--signer".into(), s.clone()]);
    }
    if sign_only {
        v.push("--sign-only".into());
    }
    v
}

struct Signed {
    message: Vec<u8>,
    pairs: Vec<String>,
}
/// One sign-only run and what must hold of it.
fn sign_run(svm: &mut Svm, j: &Job, payer: &'static str, files: &BTreeSet<&'static str>, want: &Want, n: &mut usize) -> Result<Signed, (String, String)> {
    let bad = |s: &str, w: String| Err((s.to_string(), w));
    let m = with_keys(&j.m, payer, files);
    let a = argv(&m, Format::Json, true, &[]);
    let o = cli(svm, &j.world, &a, &Plan::default());
    *n += o.methods.len() + 1;
    if !o.sent.is_empty() || o.junk > 0 {
        return bad("sign-only-submits", format!("signing as {files:?} submits ({})", o.tail()));
    }
    if o.code != 0 {
        return bad("sign-only-fails", format!("signing as {files:?} fails ({})", o.tail()));
    }
    let d = &o.json()["signOnlyData"];
    let Some(message) = d["message"].as_str().and_then(|s| B64.decode(s).ok()) else { return bad("no-message", format!("no message ({})", o.tail())) };
    let Some(tx) = Tx::message(&message) else { return bad("no-message", "the message is no message".into()) };
    if let Some(e) = same_ixs(&tx, want) {
        return bad("message", format!("signing as {files:?}: {e}"));
    }
    let list = |k: &str| -> Vec<String> { d[k].as_array().into_iter().flatten().map(|s| s.as_str().unwrap_or("").to_string()).collect() };
    let pairs = list("signers");
    let mut expect: BTreeSet<String> = BTreeSet::new();
    for f in files {
        expect.insert(format!("{}={}", kp(f), sign(f, &message)));
    }
    if pairs.iter().cloned().collect::<BTreeSet<_>>() != expect {
        return bad("signatures", format!("signing as {files:?} gives {pairs:?} instead of {expect:?}"));
    }
    let absent: BTreeSet<String> = tx.signers().iter().filter(|k| !files.iter().any(|f| kp(f) == **k)).map(|k| k.to_string()).collect();
    if list("absent").into_iter().collect::<BTreeSet<_>>() != absent || !list("badSig").is_empty() {
        return bad("absent", format!("reports absent {:?} instead of {absent:?}", list("absent")));
    }
    if d["blockhash"] != hash_str(&tx.blockhash) {
        return bad("blockhash", "reports another blockhash than that of the message".into());
    }
    Ok(Signed { message, pairs })
}

fn payer_of(m: &Move) -> &'static str {
    match m.payer {
        Who::Default => "payer",
        Who::File(n) | Who::Address(n) => n,
    }
}

/// Signs in parts, assembles, and tries every assembly lacking one signature.
fn assemble(svm: &mut Svm, j: &Job, n: &mut usize) -> Result<bool, (String, String)> {
    let payer = payer_of(&j.m);
    let all: BTreeSet<&'static str> = j.group.keys().copied().collect();
    let Expect::Submit(want) = with_keys(&j.m, payer, &all).expect(&j.world) else { panic!() };
    let groups: BTreeSet<usize> = j.group.values().copied().filter(|g| *g != 0).collect();
    let of = |g: usize| -> BTreeSet<&'static str> { j.group.iter().filter(|x| *x.1 == g).map(|x| *x.0).collect() };
    let mut message: Option<Vec<u8>> = None;
    let mut pairs = vec![];
    for g in groups {
        let s = sign_run(svm, j, payer, &of(g), &want, n)?;
        if message.as_ref().is_some_and(|m| *m != s.message) {
            return Err(("messages-differ".into(), format!("the run of {:?} signs another message than the run before", of(g))));
        }
        message = Some(s.message);
        pairs.extend(s.pairs);
    }
    if j.reverse {
        pairs.reverse();
    }
    let fin = with_keys(&j.m, payer, &of(0));
    let case = |what: String, expect| Case { what, world: j.world.clone(), global: vec![], args: argv(&fin, Format::Json, false, &pairs), format: Format::Default, expect };
    let mut c = case(j.what.clone(), Expect::Submit(want.clone()));
    c.args = argv(&fin, Format::Json, false, &pairs);
    let o = cli(svm, &j.world, &c.args, &Plan::default());
    *n += o.methods.len() + 1;
    if let (Some(m), Some((t, _))) = (&message, o.sent.first()) {
        if t.message != *m {
            return Err(("messages-differ".into(), "the final run sends another message than was signed".into()));
        }
    }
    c.format = Format::Json;
    let ok = judge(svm, &c, &o)?;
    // every required signature left out
    for (i, p) in pairs.iter().enumerate() {
        let mut less = pairs.clone();
        less.remove(i);
        let mut c = case(format!("{} without the signature {p}", j.what), Expect::Fail);
        c.args = argv(&fin, Format::Json, false, &less);
        let o = cli(svm, &j.world, &c.args, &Plan::default());
        *n += o.methods.len() + 1;
        judge(svm, &c, &o)?;
    }
    for f in of(0) {
        let mut fewer = of(0);
        fewer.remove(f);
        let m = with_keys(&j.m, payer, &fewer);
        let mut c = case(format!("{} without the key of {f}", j.what), Expect::Fail);
        c.args = argv(&m, Format::Json, false, &pairs);
        let o = cli(svm, &j.world, &c.args, &Plan::default());
        *n += o.methods.len() + 1;
        judge(svm, &c, &o)?;
    }
    Ok(ok)
}

/// Token accounts owned by the multisig of `members` with threshold m.
pub fn multisig_world(svm: &mut Svm, s: &Scene, unwrap: bool, m: u8, members: &[Pubkey]) -> World {
    let mut w = s.w.clone();
    for k in MEMBERS {
        w.fund(kp(k), FUNDS);
    }
    let (prog, mint) = if unwrap { (s.p.wprog, s.p.wmint) } else { (s.p.uprog, s.p.umint) };
    make_multisig(svm, &mut w, kp("multisig"), &prog, m, members);
    make_account(svm, &mut w, &AcctSpec::new(source(), mint, kp("multisig"), HELD)).unwrap();
    // where a payer that is a member receives wrapped tokens
    for k in MEMBERS {
        make_ata(svm, &mut w, &kp(k), &s.p.wmint, &s.p.wprog).unwrap();
    }
    w.edit(&s.p.escrow, |a| a.data[64..72].copy_from_slice(&(10 * HELD).to_le_bytes()));
    fix_supply(&mut w, &mint);
    w
}
pub fn source() -> Pubkey {
    key("account-of-the-multisig")
}

fn jobs(ctx: &Ctx, pool: &Pool, scenes: &[Scene]) -> Vec<Job> {
    let mut out = vec![];
    let nmax = if ctx.thorough { 4 } else { 3 };
    for (si, s) in scenes.iter().enumerate() {
        for unwrap in [false, true] {
            for n in 1..=nmax {
                for m in 1..=n {
                    let members: Vec<Pubkey> = MEMBERS[..n].iter().map(|k| kp(k)).collect();
                    let w = pool.one(|svm| multisig_world(svm, s, unwrap, m as u8, &members));
                    // exactly the threshold, or one more
                    for k in m..=(m + 1).min(n) {
                        let ps = perms(&MEMBERS[..n], k);
                        for signers in &ps {
                            for payer in ["payer", "other-payer", signers[0], signers[k - 1]].into_iter().collect::<BTreeSet<_>>() {
                                let mut mv = if unwrap { Move::unwrap(s, 5) } else { Move::wrap(s, 5) };
                                mv.src = source();
                                mv.auth = Who::Address("multisig");
                                mv.members = signers.iter().map(|k| Who::Address(k)).collect();
                                mv.payer = Who::Address(payer);
                                mv.hash = Some(OLD_HASH);
                                let mut req: Vec<&'static str> = signers.clone();
                                if !req.contains(&payer) {
                                    req.push(payer);
                                }
                                let divs = divisions(&req);
                                for (di, group) in divs.into_iter().enumerate() {
                                    // many signers: every order with the signing done at once or by
                                    // each apart, every division for the first and the last order
                                    let runs = group.values().collect::<BTreeSet<_>>().len();
                                    let plain = runs == 1 || runs == req.len();
                                    let ordered = signers.windows(2).all(|p| p[0] < p[1]) || signers.windows(2).all(|p| p[0] > p[1]);
                                    let long = n == 4 && k > 2 || !ctx.thorough && (k > m || k == 3);
                                    if long && (!plain && !ordered || n == 4 && payer == "other-payer") || !ctx.thorough && (k > m || k == 3) && si != 1 && !(plain && ordered) {
                                        continue;
                                    }
                                    if n == 4 && (si != 1 && !(plain && ordered) || k == 4 && !(ordered && (plain || payer == "payer"))) {
                                        continue;
                                    }
                                    let what = format!(
                                        "{} by {signers:?} of {m}-of-{n} paid by {payer}, signing in runs {group:?}",
                                        if unwrap { "unwrap" } else { "wrap" }
                                    );
                                    out.push(Job { what, world: w.clone(), m: mv.clone(), group, reverse: di % 2 == 1 });
                                }
                            }
                        }
                    }
                }
            }
            // no multisig: the authority signs elsewhere
            for (payer, auth) in [("payer", "holder"), ("holder", "holder"), ("other-payer", "holder")] {
                let mut mv = if unwrap { Move::unwrap(s, 5) } else { Move::wrap(s, 5) };
                mv.src = if unwrap { s.wr(auth) } else { s.u(auth) };
                mv.auth = Who::Address(auth);
                mv.payer = Who::Address(payer);
                mv.hash = Some(HASH);
                let req: Vec<&'static str> = [payer, auth].into_iter().collect::<BTreeSet<_>>().into_iter().collect();
                for group in divisions(&req) {
                    for reverse in [false, true] {
                        let what = format!("{} by {auth} paid by {payer}, signing in runs {group:?}", if unwrap { "unwrap" } else { "wrap" });
                        out.push(Job { what, world: s.w.clone(), m: mv.clone(), group: group.clone(), reverse });
                    }
                }
            }
        }
    }
    out
}

/// Signatures that do not belong: another key's, another message's, garbage.
fn foreign(ctx: &Ctx, pool: &Pool, scenes: &[Scene]) {
    let mut cases = vec![];
    for s in scenes {
        for unwrap in [false, true] {
            let members: Vec<Pubkey> = MEMBERS[..3].iter().map(|k| kp(k)).collect();
            let w = pool.one(|svm| multisig_world(svm, s, unwrap, 2, &members));
            let mk = |amount, hash, who: [&'static str; 2]| {
                let mut mv = if unwrap { Move::unwrap(s, amount) } else { Move::wrap(s, amount) };
                mv.src = source();
                mv.auth = Who::Address("multisig");
                mv.members = who.iter().map(|k| Who::Address(k)).collect();
                mv.payer = Who::File("payer");
                mv.hash = Some(hash);
                mv
            };
            // the messages to sign, from sign-only runs
            let message = |mv: &Move| -> Vec<u8> {
                let o = pool.one(|svm| cli(svm, &w, &argv(mv, Format::Json, true, &[]), &Plan::default()));
                o.json()["signOnlyData"]["message"].as_str().and_then(|s| B64.decode(s).ok()).unwrap_or_default()
            };
            let base = mk(5, HASH, ["member-1", "member-2"]);
            let msg = message(&base);
            let others = [
                ("another amount", message(&mk(6, HASH, ["member-1", "member-2"]))),
                ("another blockhash", message(&mk(5, OLD_HASH, ["member-1", "member-2"]))),
                ("another order of members", message(&mk(5, HASH, ["member-2", "member-1"]))),
                ("nothing", vec![]),
            ];
            let pair = |k: &str, sig: String| format!("{}={sig}", kp(k));
            let good = [pair("member-1", sign("member-1", &msg)), pair("member-2", sign("member-2", &msg))];
            let mut tries = vec![("both signatures".to_string(), good.to_vec(), true)];
            for (what, m) in &others {
                for i in 0..2 {
                    let mut v = good.to_vec();
                    let k = MEMBERS[i];
                    v[i] = pair(k, sign(k, m));
                    tries.push((format!("{k}'s signature is of {what}"), v, false));
                }
            }
            for i in 0..2 {
                let k = MEMBERS[i];
                let mut v = good.to_vec();
                v[i] = pair(k, sign("member-3", &msg));
                tries.push((format!("{k}'s signature is another's"), v, false));
                let mut v = good.to_vec();
                v[i] = pair("member-3", sign("member-3", &msg));
                tries.push((format!("member-3 instead of {k}"), v, false));
                let mut v = good.to_vec();
                v[i] = pair(k, bs58::encode([0; 64]).into_string());
                tries.push((format!("{k}'s signature is zero"), v, false));
                for junk in ["x", "x=y", "=", "", &kp(k).to_string(), &format!("{}=", kp(k))] {
                    let mut v = good.to_vec();
                    v[i] = junk.into();
                    tries.push((format!("{junk:?} instead of a signature"), v, false));
                }
                tries.push((format!("only one of them twice, {k}"), vec![good[i].clone(), good[i].clone()], false));
            }
            for (what, sigs, ok) in tries {
                let Expect::Submit(mut want) = base.expect(&w) else { panic!() };
                want.signable = true;
                cases.push(Case {
                    what: format!("{} 2-of-3, {what}", if unwrap { "unwrap" } else { "wrap" }),
                    world: w.clone(),
                    global: vec![],
                    args: argv(&base, Format::Default, false, &sigs),
                    format: Format::Json,
                    expect: if ok { Expect::Submit(want) } else { Expect::Fail },
                });
            }
            // not enough members, members of another multisig
            for who in [vec!["member-1"], vec!["member-1", "member-4"], vec!["member-4", "stranger"], vec!["member-1", "member-1"]] {
                let mut mv = base.clone();
                mv.members = who.iter().map(|k| Who::File(k)).collect();
                let mut c = mv.case(format!("2-of-3 by {who:?}"), &w, Format::Json);
                if who == ["member-1", "member-1"] {
                    c.expect = Expect::Fail;
                }
                cases.push(c);
            }
            // enough of them, all with their keys at hand
            for who in perms(&MEMBERS[..3], 2).into_iter().chain(perms(&MEMBERS[..3], 3)) {
                let mut mv = base.clone();
                mv.members = who.iter().map(|k| Who::File(k)).collect();
                cases.push(mv.case(format!("2-of-3 by {who:?}"), &w, Format::Json));
            }
        }
    }
    decide(ctx, pool, "signatures", &cases);
}

pub fn run_formats(ctx: &Ctx, pool: &Pool, scenes: &[Scene]) {
    // what a person copies from the other formats
    let mut items = vec![];
    for s in scenes {
        for unwrap in [false, true] {
            let members: Vec<Pubkey> = MEMBERS[..2].iter().map(|k| kp(k)).collect();
            let w = pool.one(|svm| multisig_world(svm, s, unwrap, 2, &members));
            for f in FORMATS {
                for file in MEMBERS[..2].iter().copied().chain(["payer"]) {
                    let mut mv = if unwrap { Move::unwrap(s, 5) } else { Move::wrap(s, 5) };
                    mv.src = source();
                    mv.auth = Who::Address("multisig");
                    mv.members = MEMBERS[..2].iter().map(|k| Who::Address(k)).collect();
                    mv.payer = Who::Address("payer");
                    mv.hash = Some(HASH);
                    items.push((w.clone(), with_keys(&mv, "payer", &[file].into_iter().collect()), f, file));
                }
            }
        }
    }
    let rs = pool.map(&items, |svm, (w, mv, f, file)| {
        ctx.state();
        ctx.step();
        let o = cli(svm, w, &argv(mv, *f, true, &[]), &Plan::default());
        let mut p = argv(mv, Format::Json, true, &[]);
        p.retain(|_| true);
        let msg = cli(svm, w, &p, &Plan::default()).json()["signOnlyData"]["message"].as_str().unwrap_or("").to_string();
        let sig = format!("{}={}", kp(file), sign(file, &B64.decode(&msg).unwrap_or_default()));
        ctx.trace();
        if o.code != 0 || !o.sent.is_empty() {
            return Some(format!("{f:?}: {}", o.tail()));
        }
        (*f != Format::Quiet && !(o.stdout.contains(&sig) && o.stdout.contains(&msg))).then(|| format!("{f:?} does not show {sig} and the message ({})", o.tail()))
    });
    for ((w, mv, f, _), r) in items.iter().zip(rs) {
        if let Some(e) = r {
            ctx.violate_json("formats/shown", e, json!({"args": argv(mv, *f, true, &[]), "world": world_json(w)}));
        } else {
            ctx.accept();
        }
    }
}

pub fn run(ctx: &Ctx, pool: &Pool) {
    let scenes: Vec<Scene> = PROGS.iter().map(|(u, w)| pool.one(|svm| scene(svm, *u, *w, &[]))).collect();
    let js = jobs(ctx, pool, &scenes);
    let rs = pool.map(&js, |svm, j| {
        ctx.state();
        let mut n = 0;
        let r = assemble(svm, j, &mut n);
        for _ in 0..n {
            ctx.step();
        }
        if stopped() {
            return Ok(true);
        }
        count_bad(&r);
        if r.is_ok() {
            ctx.trace();
            ctx.accept();
        }
        r
    });
    for (j, r) in js.iter().zip(&rs) {
        match r {
            Ok(true) => ctx.sample(json!(j.what)),
            Ok(false) => ctx.violate_json("assembly/refused-by-chain", format!("{}: the chain does not accept what was asked for", j.what), json!({"world": world_json(&j.world)})),
            Err((sig, what)) => ctx.violate_json(&format!("assembly/{sig}"), format!("{}: {what}", j.what), json!({"case": j.what, "args": argv(&j.m, Format::Json, false, &[]), "world": world_json(&j.world)})),
        }
    }
    ctx.put("assemblies", js.len() as u64);
    if !stopped() {
        foreign(ctx, pool, &scenes);
        run_formats(ctx, pool, &scenes);
    }
    ctx.bound(format!("multisigs of up to {} members, every threshold, every ordered choice of threshold or threshold+1 signers, every division of the signing among a final and earlier runs ({}), fee payer apart or a member; both directions, 4 program pairs; every single missing signature or key; 25 foreign or malformed signatures", if ctx.thorough { 4 } else { 3 },
        if ctx.thorough { "with three or four of four members: every division for members in ascending and descending order, every other order with all signing in one run or each apart" } else { "with three signers or more than the threshold: every division for members in ascending and descending order and every other order with all signing in one run or each apart for SPL Token to Token-2022, and the latter in these two orders for the other pairs" }));
}
