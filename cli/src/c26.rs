//! C26: what others do during a run, and answers that get lost, never make the
//! CLI do anything but what was asked for, once.
use {
    crate::{c18::*, c19, c20::claims_success, c22::*, node::*, want::*},
    serde_json::json,
    solana_pubkey::Pubkey,
    std::collections::BTreeMap,
    twmc::{core::*, report::*, tok::*},
};

/// A command, of which any world tells what it asks for there.
type Command = std::sync::Arc<dyn Fn(&mut Svm, &World) -> Case + std::marker::Send + std::marker::Sync>;
struct Cmd {
    what: String,
    world: World,
    make: Command,
}
fn commands(ctx: &Ctx, svm: &mut Svm) -> Vec<Cmd> {
    let f = Format::Json;
    let mut v: Vec<Cmd> = vec![];
    let mut add = |what: String, world: &World, make: Command| v.push(Cmd { what, world: world.clone(), make });
    for (u, w) in PROGS {
        let n = format!("{}->{}", name_of(&u), name_of(&w));
        let s = scene(svm, u, w, &[]);
        let full = |m: Move, p: Pair| Move { mint: Some(p.umint), uprog: Some(p.uprog), wprog: Some(p.wprog), ..m };
        for (k, m) in [
            ("wrap", Move::wrap(&s, 7)),
            ("unwrap", Move::unwrap(&s, 7)),
            ("wrap, all given,", full(Move::wrap(&s, 7), s.p)),
            ("unwrap, all given,", full(Move::unwrap(&s, 7), s.p)),
            ("wrap all", Move::wrap(&s, HELD)),
        ] {
            add(format!("{k} {n}"), &s.w, std::sync::Arc::new(move |_, w| m.case("", w, f)));
        }
        let (bare, m) = c19::bare(svm, u, &[]);
        for (what, world) in [("", bare.clone()), (" half there", {
            let mut b = bare.clone();
            let p = Pair::new(m, u, w);
            b.fund(p.wmint, 5);
            make_escrow(svm, &mut b, &Pair::new(m, u, other_prog(&w))).unwrap();
            b
        })] {
            for idem in [false, true] {
                add(format!("create-mint {n}{what}, idempotent {idem}"), &world, std::sync::Arc::new(move |svm, x| c19::create(svm, x, &m, &w, idem, Who::Default, f, String::new())));
                add(format!("create-escrow-account {n}{what}, idempotent {idem}"), &world, std::sync::Arc::new(move |svm, x| c19::escrow_case(svm, x, &m, &w, idem, Who::Default, f, String::new())));
            }
        }
    }
    for w in [TOKEN, T22] {
        let s = stuck(svm, w);
        let x = s.w.clone();
        add(format!("close-stuck-escrow {}", name_of(&w)), &x, std::sync::Arc::new(move |_, w2| {
            let s = Scene { w: w2.clone(), ..s.clone() };
            close_case(&s, &s.p.umint, &kp("stranger"), &w, Who::Default, f, String::new())
        }));
        for kind in ["spl mpl", "self own", "metaplex mpl", "external", "no-pointer mpl", "unset mpl", "other-mint mpl"] {
            if !ctx.thorough && w == TOKEN && kind != "spl mpl" && kind != "self own" {
                continue;
            }
            let x = sync_world(svm, kind);
            let src = if w == TOKEN && kind != "self own" { Some(mpl_of(&um())) } else { None };
            add(format!("sync {kind} to {}", name_of(&w)), &x, std::sync::Arc::new(move |_, w2| {
                Sync { to: w, mint: um(), source: src, owner: None, payer: Who::Default }.case(w2, f, String::new())
            }));
        }
    }
    v
}

/// What others may do to one account.
fn changes(svm: &mut Svm, w: &World, k: &Pubkey) -> Vec<(&'static str, World)> {
    let mut v: Vec<(&'static str, World)> = vec![];
    let Some(a) = w.get(k) else {
        for (what, l) in [("gets a lamport", 1), ("is funded", svm.rent(300)), ("is funded in part", 1_000_000)] {
            let mut x = w.clone();
            x.fund(*k, l);
            v.push((what, x));
        }
        return v;
    };
    if svm.is_program(k) {
        return v;
    }
    let mut edit = |what, f: &dyn Fn(&mut solana_account::Account)| {
        let mut x = w.clone();
        x.edit(k, |a| f(a));
        if x.acc != w.acc {
            v.push((what, x));
        }
    };
    let other: Pubkey = key("other-mint");
    edit("gets a lamport", &|a| a.lamports += 1);
    edit("is emptied to rent's edge", &|a| a.lamports = 1);
    if a.owner == TOKEN || a.owner == T22 {
        edit("changes program", &|a| a.owner = other_prog(&a.owner));
    }
    edit("goes to the system", &|a| a.owner = SYS);
    if !a.data.is_empty() {
        edit("loses its data", &|a| a.data.clear());
        edit("is zeroed", &|a| a.data.fill(0));
    }
    if a.data.len() >= 165 {
        edit("is of another mint", &|a| a.data[..32].copy_from_slice(other.as_ref()));
        edit("is of another holder", &|a| a.data[32..64].copy_from_slice(kp("stranger").as_ref()));
        edit("is spent", &|a| a.data[64..72].fill(0));
        edit("is frozen", &|a| a.data[108] = 2);
    } else if a.data.len() == 82 {
        edit("has another supply", &|a| a.data[36] ^= 1);
    }
    // a metadata pointer that is turned elsewhere, or unset
    if let Some(i) = (166..a.data.len().saturating_sub(68)).find(|i| a.data[*i..*i + 4] == [18, 0, 64, 0]) {
        for (what, t) in [("points to itself", *k), ("points to Metaplex", mpl_of(k)), ("points elsewhere", other), ("points nowhere", SYS)] {
            edit(what, &|a| a.data[i + 36..i + 68].copy_from_slice(t.as_ref()));
        }
    }
    let mut x = w.clone();
    x.acc.remove(k);
    v.push(("is closed", x));
    v
}

/// The worlds a reader may have pieced together who saw some accounts before
/// and some after; also the owner of one time with the content of the other.
fn mixes(a: &World, b: &World) -> Vec<World> {
    let keys: Vec<Pubkey> = a.acc.keys().chain(b.acc.keys()).filter(|k| a.acc.get(*k) != b.acc.get(*k)).copied().collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let mut v = vec![a.clone()];
    for k in keys {
        let (x, y) = (a.acc.get(&k).cloned(), b.acc.get(&k).cloned());
        let mut forms = vec![x.clone(), y.clone()];
        if let (Some(x), Some(y)) = (x, y) {
            if x.owner != y.owner && x.data != y.data {
                for (d, o) in [(&x, &y), (&y, &x)] {
                    let mut m = (**d).clone();
                    m.owner = o.owner;
                    forms.push(Some(m.into()));
                }
            }
        }
        v = v
            .iter()
            .flat_map(|w| {
                forms.iter().map(|f| {
                    let mut w = w.clone();
                    match f {
                        Some(f) => w.acc.insert(k, f.clone()),
                        None => w.acc.remove(&k),
                    };
                    w
                })
            })
            .collect();
    }
    v
}

/// At most one transaction, one that was asked for in a state that was seen;
/// and success means that it was executed, and says what it did.
fn judge(cands: &[Case], o: &Outcome, silent: bool) -> Result<bool, (&'static str, String)> {
    if o.code == -3 {
        return Ok(false);
    }
    if o.junk > 0 {
        return Err(("undecodable", "submits something that is no transaction".into()));
    }
    let done: Vec<&Tx> = o.sent.iter().filter(|s| s.1.is_ok()).map(|s| &s.0).collect();
    if done.len() > 1 {
        return Err(("twice", format!("had {} transactions executed ({})", done.len(), o.tail())));
    }
    if o.code == -2 {
        return Err(("hangs", "does not finish".into()));
    }
    let unclear = cands.iter().any(|c| matches!(c.expect, Expect::Fail | Expect::Refuse));
    let wants: Vec<(&Case, &Want)> = cands.iter().filter_map(|c| if let Expect::Submit(w) = &c.expect { Some((c, w)) } else { None }).collect();
    for (t, r) in &o.sent {
        if r.is_err() && unclear {
            continue;
        }
        let e: Vec<String> = wants.iter().filter_map(|(_, w)| same_ixs(t, w)).collect();
        if e.len() == wants.len() {
            return Err(("transaction", format!("submits what was not asked for in any state it saw: {e:?}")));
        }
    }
    if o.code == 0 {
        let mut e = vec![];
        for c in cands {
            let r = match (&c.expect, done.first()) {
                (Expect::Submit(w), Some(t)) => same_ixs(t, w).or_else(|| report(c, o, w, Some(t))),
                (Expect::Nothing(w), None) => report(c, o, w, None),
                (Expect::Submit(_), None) => Some("nothing was executed".into()),
                _ => Some("nothing of that kind was to be done".into()),
            };
            match r {
                None => return Ok(true),
                Some(x) => e.push(x),
            }
        }
        return Err(("false-success", format!("reports success that no state it saw explains: {e:?} ({})", o.tail())));
    }
    if claims_success(o) {
        return Err(("reports-success", format!("fails and yet reports success ({})", o.tail())));
    }
    if !done.is_empty() && !silent {
        return Err(("fails-after", format!("fails though its transaction was executed and it was told so ({})", o.tail())));
    }
    Ok(false)
}

pub fn run(ctx: &Ctx, pool: &Pool) {
    let cmds = pool.one(|svm| commands(ctx, svm));
    // the requests of an undisturbed run, and what it submits
    let base: Vec<(Case, Outcome)> = pool.map(&cmds, |svm, c| {
        let case = (c.make)(svm, &c.world);
        let o = cli(svm, &c.world, &case.argv(), &Plan::default());
        (case, o)
    });
    for ((case, o), c) in base.iter().zip(&cmds) {
        if let Err((sig, what)) = judge(std::slice::from_ref(case), o, false) {
            ctx.violate_json(&format!("undisturbed/{sig}"), format!("{}: {what}", c.what), case.detail(o));
        }
    }
    ctx.put("commands", cmds.len() as u64);
    ctx.put("commands_that_succeed_undisturbed", base.iter().filter(|b| b.1.code == 0).count() as u64);

    // races: the change and when it comes, and in pairs when it is undone
    struct Job {
        i: usize,
        what: String,
        after: World,
        from: usize,
        until: Option<usize>,
    }
    let lists: Vec<Vec<Job>> = pool.map(&(0..cmds.len()).collect::<Vec<_>>(), |svm, &i| {
        let c = &cmds[i];
        let (case, o) = &base[i];
        let n = o.methods.iter().position(|m| m == "sendTransaction").map_or(o.methods.len(), |p| p + 1);
        let mut seen: BTreeMap<Pubkey, ()> = Default::default();
        let mut alts: Vec<(String, World)> = vec![];
        if let Expect::Submit(w) = &case.expect {
            for k in w.ixs.iter().flat_map(|i| i.accounts.iter().map(|a| a.pubkey)).chain([w.payer]) {
                if seen.insert(k, ()).is_none() {
                    alts.extend(changes(svm, &c.world, &k).into_iter().map(|(what, x)| (format!("{} {what}", name_of(&k)), x)));
                }
            }
            // a rival does the same, or a part of it
            for m in 1..=w.ixs.len() {
                let e = svm.exec(&c.world, &w.ixs[..m]);
                if e.ok() {
                    alts.push((format!("someone executes its first {m} instructions"), e.world));
                }
            }
        }
        let mut v = vec![];
        for (what, after) in alts {
            for from in 0..n {
                v.push(Job { i, what: what.clone(), after: after.clone(), from, until: None });
                for until in from + 1..n {
                    // undone again: on every change, right away
                    if ctx.thorough || until == from + 1 {
                        v.push(Job { i, what: what.clone(), after: after.clone(), from, until: Some(until) });
                    }
                }
            }
        }
        v
    });
    let jobs: Vec<Job> = lists.into_iter().flatten().collect();
    let rs = pool.map(&jobs, |svm, j| {
        let c = &cmds[j.i];
        let argv = base[j.i].0.argv();
        let mut race = vec![(j.from, Hidden(j.after.clone()))];
        if let Some(u) = j.until {
            race.push((u, Hidden(c.world.clone())));
        }
        ctx.state();
        let o = cli(svm, &c.world, &argv, &Plan { race, ..Default::default() });
        for _ in &o.methods {
            ctx.step();
        }
        let cands: Vec<Case> = mixes(&c.world, &j.after).iter().map(|w| (c.make)(svm, w)).collect();
        let r = judge(&cands, &o, false);
        count_bad(&r);
        if r.is_ok() {
            ctx.trace();
        }
        (r, o)
    });
    let mut ok = 0u64;
    for (j, (r, o)) in jobs.iter().zip(rs) {
        match r {
            Ok(x) => {
                ok += x as u64;
                if x {
                    ctx.accept();
                    if ok % 499 == 1 {
                        ctx.sample(json!({"command": cmds[j.i].what, "change": j.what, "before request": j.from, "undone before": j.until, "requests": o.methods}));
                    }
                }
            }
            Err((sig, what)) => {
                let mut d = base[j.i].0.detail(&o);
                d["change"] = json!([j.what, j.from, j.until]);
                d["after"] = world_json(&j.after);
                ctx.violate_json(&format!("races/{sig}"), format!("{}: {} before request {} (undone before {:?}): {what}", cmds[j.i].what, j.what, j.from, j.until), d);
            }
        }
    }
    ctx.put("races", jobs.len() as u64);
    ctx.put("races_that_succeed", ok);
    if std::env::var("TW_TRACE").is_ok() {
        eprintln!("races: {} runs, {ok} succeeded, {:.1}s", jobs.len(), ctx.secs());
    }

    // lost answers: each blockhash is a new one, so that whatever is built
    // anew would be executed again
    let lands = [Land::Lands, Land::Fails].into_iter().chain(FAULTS.map(Land::Silent)).collect::<Vec<_>>();
    let idx: Vec<(usize, Land)> = (0..cmds.len()).flat_map(|i| lands.iter().map(move |l| (i, *l))).filter(|x| base[x.0].1.code == 0).collect();
    let depth = if ctx.thorough { 3 } else { 2 };
    let rs = pool.map(&idx, |svm, &(i, land)| {
        let (c, (case, _)) = (&cmds[i], &base[i]);
        let mut todo = vec![vec![]];
        let (mut out, mut runs) = (vec![], 0u64);
        while let Some(faults) = todo.pop() {
            let plan = Plan { faults: faults.clone(), land, fresh: true, ..Default::default() };
            let o = cli(svm, &c.world, &case.argv(), &plan);
            runs += 1;
            ctx.state();
            for _ in &o.methods {
                ctx.step();
            }
            let lost = |f: &Fault| if land == Land::Lands || matches!(land, Land::Silent(_)) { true } else { *f == Fault::Drop };
            let max = if matches!(land, Land::Silent(_)) { depth - 1 } else { depth };
            if faults.len() < max {
                let next = faults.last().map_or(0, |f: &(usize, Fault)| f.0 + 1);
                for n in next..o.methods.len() {
                    todo.extend(FAULTS.iter().filter(|f| lost(f)).map(|f| [&faults[..], &[(n, *f)]].concat()));
                }
            }
            let silent = !faults.is_empty() || matches!(land, Land::Silent(_));
            let r = judge(std::slice::from_ref(case), &o, silent);
            count_bad(&r);
            match r {
                Ok(x) => {
                    ctx.trace();
                    if x {
                        ctx.accept()
                    }
                }
                Err((sig, what)) => out.push((sig, what, o, format!("{plan:?}"))),
            }
        }
        (runs, out)
    });
    let mut runs = 0;
    for ((i, _), (n, v)) in idx.iter().zip(rs) {
        runs += n;
        for (sig, what, o, plan) in v {
            let mut d = base[*i].0.detail(&o);
            d["plan"] = json!(plan);
            ctx.violate_json(&format!("lost-answers/{sig}"), format!("{}: {what} [{plan}]", cmds[*i].what), d);
        }
    }
    ctx.put("runs_with_lost_answers", runs);
    if std::env::var("TW_TRACE").is_ok() {
        eprintln!("lost answers: {runs} runs, {:.1}s", ctx.secs());
    }
    ctx.bound(format!(
        "{} commands over 4 program pairs; every account of the wanted transaction changed in up to 12 ways, or the command's own effect brought about by a rival, before every request up to the submission, and undone before {} later one; every combination of {} faults at the requests of a run, the submission executed or not, its answer lost in 5 ways, every blockhash new",
        cmds.len(), if ctx.thorough { "every" } else { "the next" }, depth
    ));
}
