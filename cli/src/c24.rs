//! C24: the JavaScript client's offline multisig signing.
use {
    crate::{c21::*, js::*, node::*, want::*},
    ed25519_dalek::Signer,
    serde_json::{json, Value},
    solana_pubkey::Pubkey,
    std::collections::BTreeSet,
    twmc::{core::*, report::*, tok::*, tw},
};

/// What is to be signed.
#[derive(Clone)]
struct Job {
    what: String,
    world: World,
    p: Pair,
    unwrap: bool,
    src: Pubkey,
    dst: Pubkey,
    payer: &'static str,
    /// the authority, and whether it signs itself
    auth: (&'static str, bool),
    members: Vec<&'static str>,
    amount: Value,
    hash: [u8; 32],
}
impl Job {
    fn required(&self) -> Vec<&'static str> {
        let mut v = vec![self.payer];
        for k in self.auth.1.then_some(self.auth.0).into_iter().chain(self.members.iter().copied()) {
            if !v.contains(&k) {
                v.push(k);
            }
        }
        v
    }
    fn ix(&self) -> solana_instruction::Instruction {
        let auth = tw::Auth { main: if self.auth.1 { signer(&kp(self.auth.0)) } else { ro(&kp(self.auth.0)) }, members: self.members.iter().map(|k| signer(&kp(k))).collect() };
        let n = self.amount.as_u64().or_else(|| num_of(&self.amount)).unwrap();
        if self.unwrap {
            tw::unwrap(&self.p, &self.src, &self.dst, &auth, &[], n)
        } else {
            tw::wrap(&self.p, &self.src, &self.dst, &auth, &[], n)
        }
    }
    /// The message as the party that holds the keys of `mine` makes it.
    fn message(&self, svm: &mut Svm, mine: &BTreeSet<&'static str>) -> (Ans, Value) {
        let who = |k: &'static str| if mine.contains(k) { key_of(&kp(k)) } else { signer_of(&kp(k)) };
        let mut a = json!({
            "payer": who(self.payer), "blockhash": lifetime(&self.hash), "wrappedTokenProgram": pk(&self.p.wprog), "unwrappedTokenProgram": pk(&self.p.uprog),
            "amount": self.amount, "wrappedMint": pk(&self.p.wmint), "wrappedMintAuthority": pk(&self.p.auth), "unwrappedMint": pk(&self.p.umint),
            "transferAuthority": if self.auth.1 { who(self.auth.0) } else { pk(&kp(self.auth.0)) },
            "multiSigners": self.members.iter().map(|k| who(k)).collect::<Vec<_>>(),
        });
        a[if self.unwrap { "wrappedTokenAccount" } else { "unwrappedTokenAccount" }] = pk(&self.src);
        a[if self.unwrap { "recipientUnwrappedToken" } else { "recipientWrappedTokenAccount" }] = pk(&self.dst);
        let f = if self.unwrap { "multisigOfflineSignUnwrap" } else { "multisigOfflineSignWrap" };
        (call(svm, None, "offline", json!([f, a]), None).0, a)
    }
}
fn lifetime(h: &[u8; 32]) -> Value {
    json!({"blockhash": hash_str(h), "lastValidBlockHeight": big(1000)})
}
/// A transaction over `msg` with the signatures of `who`.
fn part(msg: &[u8], order: &[Pubkey], names: &[&'static str], who: &BTreeSet<&'static str>) -> Value {
    let sigs: Vec<Value> = order
        .iter()
        .map(|k| match names.iter().find(|n| kp(n) == *k && who.contains(*n)) {
            Some(n) => json!([pk(k), bytes(&secret(n).sign(msg).to_bytes())]),
            None => json!([pk(k), null]),
        })
        .collect();
    json!({"messageBytes": bytes(msg), "signatures": {"$map": sigs}, "lifetimeConstraint": lifetime(&OLD_HASH)})
}
fn combine(svm: &mut Svm, parts: &[Value], hash: &[u8; 32]) -> Ans {
    call(svm, None, "combine", json!([parts, lifetime(hash)]), None).0
}
fn subsets(v: &[&'static str]) -> Vec<BTreeSet<&'static str>> {
    let n = v.len() as u32;
    // of many, those that lack or have a few
    (0..1u32 << n).filter(|m| n <= 6 || m.count_ones() <= 1 || m.count_ones() >= n - 2).map(|m| v.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect()).collect()
}
/// The transaction on the wire.
fn wire(v: &Value) -> Option<(Vec<u8>, Vec<Pubkey>)> {
    let sigs = v["signatures"].as_array()?;
    let mut out = vec![sigs.len() as u8];
    let mut keys = vec![];
    for s in sigs {
        keys.push(pk_of(&s[0])?);
        out.extend(bytes_of(&s[1]).filter(|b| b.len() == 64)?);
    }
    out.extend(bytes_of(&v["messageBytes"])?);
    Some((out, keys))
}

type Bad = (&'static str, String);
fn decide(ctx: &Ctx, svm: &mut Svm, j: &Job, families: usize) -> Result<bool, Bad> {
    let req = j.required();
    let want = j.ix();
    let all: BTreeSet<_> = req.iter().copied().collect();
    let mut msg: Option<(Vec<u8>, Vec<Pubkey>)> = None;
    for mine in subsets(&req) {
        ctx.state();
        ctx.step();
        let (ans, args) = j.message(svm, &mine);
        let v = match ans {
            Ans::Unmodelled(_) => return Ok(false),
            Ans::Err(e) => return Err(("rejected", format!("{}: {mine:?} cannot make the message: {e}", j.what))),
            Ans::Ok(v) => v,
        };
        let Some(m) = bytes_of(&v["messageBytes"]) else { return Err(("message", format!("{}: no message for {args}", j.what))) };
        let Some(tx) = Tx::message(&m) else { return Err(("message", format!("{}: {mine:?} makes no message", j.what))) };
        if let Some(e) = mismatch(&tx, &kp(j.payer), std::slice::from_ref(&want), Some(j.hash)) {
            return Err(("message", format!("{}: the message of {mine:?}: {e}", j.what)));
        }
        let asked: BTreeSet<_> = v["asked"].as_array().into_iter().flatten().filter_map(pk_of).collect();
        if let Some(k) = req.iter().find(|k| !asked.contains(&kp(k))) {
            return Err(("not-asked", format!("{}: the signature of {k} is never asked for", j.what)));
        }
        if v["lifetime"] != lifetime(&j.hash) {
            return Err(("lifetime", format!("{}: lifetime {} of the message", j.what, v["lifetime"])));
        }
        if msg.as_ref().is_some_and(|x| x.0 != m) {
            return Err(("messages-differ", format!("{}: {mine:?} makes another message than the others", j.what)));
        }
        ctx.trace();
        msg = Some((m, tx.signers()));
    }
    let (msg, order) = msg.unwrap();
    if order.len() != req.len() {
        return Err(("message", format!("{}: {} signers instead of {}", j.what, order.len(), req.len())));
    }
    let fits = 1 + 64 * order.len() + msg.len() <= 1232;
    let direct = svm.exec(&j.world, std::slice::from_ref(&want));
    let mut executed = None;
    let subs = subsets(&req);
    let parts: Vec<Value> = subs.iter().map(|s| part(&msg, &order, &req, s)).collect();
    // every family of signed parts, in every order
    let mut families_of: Vec<Vec<usize>> = vec![vec![]];
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..families {
        layer = layer.iter().flat_map(|f| (0..subs.len()).map(move |i| [f.clone(), vec![i]].concat())).collect();
        families_of.extend(layer.iter().cloned());
    }
    for f in &families_of {
        ctx.state();
        ctx.step();
        let got: BTreeSet<&'static str> = f.iter().flat_map(|i| subs[*i].iter().copied()).collect();
        let complete = got == all && !f.is_empty();
        let given: Vec<Value> = f.iter().map(|i| parts[*i].clone()).collect();
        let names: Vec<_> = f.iter().map(|i| &subs[*i]).collect();
        match combine(svm, &given, &j.hash) {
            Ans::Unmodelled(_) => return Ok(false),
            Ans::Err(e) => {
                if complete && fits {
                    return Err(("complete-refused", format!("{}: all signatures are there in {names:?}, and are refused: {e}", j.what)));
                }
            }
            Ans::Ok(v) => {
                if !complete || !fits {
                    let why = if fits { "lacking signatures" } else { "too large" };
                    return Err(("incomplete-accepted", format!("{}: {why}, {names:?} are accepted", j.what)));
                }
                let tx = wire(&v).and_then(|(w, k)| Tx::decode(&w).filter(|t| t.signers() == k));
                if !tx.as_ref().is_some_and(|t| t.signed() && t.message == msg) {
                    return Err(("assembled", format!("{}: {names:?} give a transaction that is not the one signed: {v}", j.what)));
                }
                if v["lifetime"] != lifetime(&j.hash) {
                    return Err(("lifetime", format!("{}: lifetime {} of the transaction", j.what, v["lifetime"])));
                }
                if executed.is_none() {
                    let e = svm.exec(&j.world, &tx.unwrap().ixs);
                    if e.res != direct.res || e.world.acc != direct.world.acc {
                        return Err(("executed", format!("{}: executes with {:?} instead of {:?}", j.what, e.res, direct.res)));
                    }
                    executed = Some(e.ok());
                }
                ctx.trace();
            }
        }
    }
    Ok(executed.unwrap_or(!fits))
}
/// Parts over different messages, anywhere in the list.
fn different(ctx: &Ctx, svm: &mut Svm, j: &Job) -> Result<u64, Bad> {
    let req = j.required();
    let all: BTreeSet<_> = req.iter().copied().collect();
    let none = BTreeSet::new();
    let of = |svm: &mut Svm, j: &Job| match j.message(svm, &none).0 {
        Ans::Ok(v) => bytes_of(&v["messageBytes"]),
        _ => None,
    };
    let Some(msg) = of(svm, j) else { return Ok(0) };
    let Some(order) = Tx::message(&msg).map(|t| t.signers()) else { return Ok(0) };
    let mut others: Vec<(String, Vec<u8>)> = vec![];
    let mut other = |svm: &mut Svm, what: &str, f: &dyn Fn(&mut Job)| {
        let mut k = j.clone();
        f(&mut k);
        others.extend(of(svm, &k).map(|m| (what.to_string(), m)));
    };
    other(svm, "another amount", &|k| k.amount = big(6));
    other(svm, "another blockhash", &|k| k.hash = [9; 32]);
    other(svm, "another payer", &|k| k.payer = "stranger");
    other(svm, "the members in another order", &|k| k.members.reverse());
    other(svm, "another recipient", &|k| k.dst = key("elsewhere"));
    other(svm, "another source", &|k| k.src = key("elsewhere"));
    other(svm, "another pair", &|k| k.p = Pair::new(key("other-mint"), k.p.uprog, k.p.wprog));
    other(svm, "another member", &|k| k.members[0] = "stranger");
    other(svm, "one member fewer", &|k| k.members.truncate(1));
    for i in 0..msg.len() {
        for x in [1, 0x80] {
            let mut m = msg.clone();
            m[i] ^= x;
            others.push((format!("byte {i} changed by {x}"), m));
        }
    }
    for k in [1, 2, 32, msg.len() - 1, msg.len()] {
        others.push((format!("{k} bytes shorter"), msg[..msg.len() - k].to_vec()));
        others.push((format!("{k} bytes fewer in front"), msg[k..].to_vec()));
        others.push((format!("{k} bytes longer"), [msg.clone(), vec![0; k]].concat()));
    }
    others.retain(|o| o.1 != msg);
    let good = part(&msg, &order, &req, &all);
    let mut n = 0;
    for (what, m) in &others {
        for who in [&all, &none] {
            let odd = part(m, &order, &req, who);
            for list in [vec![&good, &odd], vec![&odd, &good], vec![&good, &good, &odd], vec![&good, &odd, &good], vec![&odd, &good, &good], vec![&odd, &odd, &good]] {
                ctx.state();
                ctx.step();
                n += 1;
                let list: Vec<Value> = list.into_iter().cloned().collect();
                if let Ans::Ok(_) = combine(svm, &list, &j.hash) {
                    return Err(("different-accepted", format!("{}: a part signs {what}, and the parts are combined", j.what)));
                }
                ctx.trace();
            }
        }
    }
    Ok(n)
}

fn jobs(ctx: &Ctx, pool: &Pool, scenes: &[Scene]) -> Vec<(Job, usize)> {
    let mut out = vec![];
    let nmax = if ctx.thorough { 4 } else { 3 };
    for s in scenes {
        for unwrap in [false, true] {
            let dst = if unwrap { s.u("payer") } else { s.wr("payer") };
            let verb = if unwrap { "unwrap" } else { "wrap" };
            for n in 1..=nmax {
                for m in 1..=n {
                    let keys: Vec<Pubkey> = MEMBERS[..n].iter().map(|k| kp(k)).collect();
                    let w = pool.one(|svm| multisig_world(svm, s, unwrap, m as u8, &keys));
                    for k in m..=(m + 1).min(n) {
                        for members in perms(&MEMBERS[..n], k) {
                            for payer in ["payer", "other-payer", members[0], members[k - 1]].into_iter().collect::<BTreeSet<_>>() {
                                let what = format!("{verb} by {members:?} of {m}-of-{n} paid by {payer}");
                                let j = Job { what, world: w.clone(), p: s.p, unwrap, src: source(), dst, payer, auth: ("multisig", false), members: members.clone(), amount: big(5), hash: OLD_HASH };
                                let q = j.required().len();
                                let families = if q <= 2 { 4 } else if q == 3 { 3 } else { 2 };
                                out.push((j, families));
                            }
                        }
                    }
                }
            }
            // amounts, and an authority that signs itself
            for amount in [0, 1, HELD, HELD + 1, (1 << 53) + 1, u64::MAX].iter().map(big).chain([json!(5), json!((1u64 << 53) - 1)]) {
                for (payer, auth) in [("payer", ("holder", true)), ("holder", ("holder", true)), ("payer", ("holder", false))] {
                    let src = if unwrap { s.wr("holder") } else { s.u("holder") };
                    let what = format!("{verb} of {amount} by {auth:?} paid by {payer}");
                    out.push((Job { what, world: s.w.clone(), p: s.p, unwrap, src, dst, payer, auth, members: vec![], amount: amount.clone(), hash: HASH }, 2));
                }
            }
            // as many members as there can be: too large from some number on
            for n in 4..=11 {
                let names: Vec<&'static str> = (0..n).map(|i| ["member-1", "member-2", "member-3", "member-4", "member-5", "member-6", "member-7", "member-8", "member-9", "member-10", "member-11"][i]).collect();
                let keys: Vec<Pubkey> = names.iter().map(|k| kp(k)).collect();
                let w = pool.one(|svm| {
                    let mut w = multisig_world(svm, s, unwrap, n as u8, &keys);
                    keys.iter().for_each(|k| w.fund(*k, FUNDS));
                    w
                });
                let what = format!("{verb} by all of {n} members");
                out.push((Job { what, world: w, p: s.p, unwrap, src: source(), dst, payer: "payer", auth: ("multisig", false), members: names, amount: big(5), hash: HASH }, 1));
            }
        }
    }
    out
}
pub fn run(ctx: &Ctx, pool: &Pool) {
    let scenes: Vec<Scene> = PROGS.iter().map(|(u, w)| pool.one(|svm| scene(svm, *u, *w, &[]))).collect();
    let jobs = jobs(ctx, pool, &scenes);
    let rs = pool.map(&jobs, |svm, (j, f)| decide(ctx, svm, j, *f));
    let mut ok = 0;
    for ((j, _), r) in jobs.iter().zip(&rs) {
        match r {
            Ok(true) => {
                ok += 1;
                ctx.accept();
                if ok % 97 == 1 {
                    ctx.sample(json!({"signed": j.what}));
                }
            }
            Ok(false) => {}
            Err((s, w)) => ctx.violate_json(s, w.clone(), json!({"world": world_json(&j.world), "instruction": ix_json(&j.ix())})),
        }
    }
    ctx.put("signings", jobs.len() as u64);
    ctx.put("signings_executed", ok);
    let pick: Vec<&Job> = jobs.iter().map(|x| &x.0).filter(|j| j.members.len() == 2 && j.payer == "payer" && (ctx.thorough || j.what.contains("2-of-2"))).collect();
    let rs = pool.map(&pick, |svm, j| different(ctx, svm, j));
    let mut n = 0;
    for (j, r) in pick.iter().zip(rs) {
        match r {
            Ok(k) => n += k,
            Err((s, w)) => ctx.violate_json(s, w, json!({"world": world_json(&j.world), "instruction": ix_json(&j.ix())})),
        }
    }
    ctx.put("mixed_messages", n);
    if ok == 0 && UNMODELLED.load(std::sync::atomic::Ordering::Relaxed) == 0 && ctx.violations() == 0 {
        eprintln!("ERROR: nothing was signed");
        std::process::exit(2);
    }
    ctx.bound(format!("multisigs of up to {} members, every threshold, every ordered choice of threshold or threshold+1 signers, fee payer apart or a member, both directions, 4 program pairs; the message of every set of keys at hand; every family of up to 4 (2 signers), 3 (3 signers) or 2 (more) parts signed by every set of signers", if ctx.thorough { 4 } else { 3 }));
    ctx.bound("two members: a part over another message (9 changed arguments, two changed bits of every byte, 5 lengths) at every position of two or three parts; all of 4..11 members (over 6 signers: sets of at most one or all but two), up to and beyond the transaction size limit");
}
