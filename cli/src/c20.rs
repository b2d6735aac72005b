//! C20: dry-run and sign-only never submit, and failures are never called
//! success.
use {
    crate::{c18::*, c19, c22::*, node::*, want::*},
    base64::{prelude::BASE64_STANDARD as B64, Engine},
    serde_json::json,
    twmc::{core::*, report::*},
};

/// Every command once where the chain accepts it and once where it does not.
fn commands(svm: &mut Svm, format: Format) -> Vec<Case> {
    let mut v = vec![];
    for (uprog, wprog) in PROGS {
        let s = scene(svm, uprog, wprog, &[]);
        let n = format!("{}->{}", name_of(&uprog), name_of(&wprog));
        for (a, r) in [(7, "good"), (HELD + 1, "refused")] {
            v.push(Move::wrap(&s, a).case(format!("wrap {n}, {r}"), &s.w, format));
            v.push(Move::unwrap(&s, a).case(format!("unwrap {n}, {r}"), &s.w, format));
        }
        v.extend(c19::plain(svm, uprog, wprog, format));
    }
    for wprog in [TOKEN, T22] {
        let s = stuck(svm, wprog);
        v.push(close_case(&s, &s.p.umint, &kp("stranger"), &wprog, Who::Default, format, "close-stuck-escrow, good".into()));
        let s = scene(svm, T22, wprog, &[]);
        v.push(close_case(&s, &s.p.umint, &kp("stranger"), &wprog, Who::Default, format, "close-stuck-escrow, refused".into()));
        for (kind, src, r) in [("self own", None, "good"), ("spl mpl", Some(mpl_of(&um())), "good"), ("self", None, "refused"), ("missing mpl", Some(mpl_of(&um())), "refused")] {
            let w = sync_world(svm, kind);
            v.push(Sync { to: wprog, mint: um(), source: src, owner: None, payer: Who::Default }.case(&w, format, format!("sync to {}, {r}", name_of(&wprog))));
        }
    }
    v
}

const SIMS: [Sim; 4] = [Sim::Real, Sim::Bare, Sim::Fails, Sim::FailsBare];

pub fn claims_success(o: &Outcome) -> bool {
    let t = o.stdout.to_lowercase();
    t.contains("succe") || t.contains("consumed") || serde_json::from_str::<serde_json::Value>(&o.stdout).is_ok_and(|v| v.is_object())
}

/// Output that a program reading it would trip over.
fn other_format(f: Format, o: &Outcome) -> Option<String> {
    if f.json() && serde_json::from_str::<serde_json::Value>(&o.stdout).is_err() {
        return Some(format!("the output is not one JSON document ({})", o.tail()));
    }
    (f.quiet() && !o.stdout.trim().is_empty()).then(|| format!("prints though told to be quiet ({})", o.tail()))
}

/// A dry run: nothing submitted, and exit 0 only after a simulation of exactly
/// this that succeeded.
fn judge_dry(c: &Case, o: &Outcome, faulty: bool) -> Result<bool, (String, String)> {
    let bad = |sig: &str, what: String| Err((sig.to_string(), format!("{}: {what}", c.what)));
    if !o.sent.is_empty() || o.junk > 0 || o.methods.iter().any(|m| m == "sendTransaction") {
        return bad("dry-run-submits", format!("submits ({})", o.tail()));
    }
    if o.world.acc != c.world.acc {
        return bad("dry-run-acts", "changes the chain".into());
    }
    if o.code == -2 {
        return bad("hangs", "does not finish".into());
    }
    let Expect::Submit(w) = &c.expect else {
        return match (&c.expect, o.code) {
            (Expect::Nothing(_), 0) => Ok(true),
            (Expect::Nothing(_), _) if faulty => Ok(false),
            (Expect::Nothing(_), _) => bad("dry-run-fails", o.tail()),
            (_, 0) => bad("dry-run-accepts", o.tail()),
            _ => Ok(false),
        };
    };
    for (t, _) in &o.simulated {
        if let Some(e) = same_ixs(t, w) {
            return bad("dry-run-other", format!("simulates something else: {e}"));
        }
    }
    let good = o.simulated.last().is_some_and(|s| s.1);
    if o.code == 0 {
        if !good {
            return bad("dry-run-false-success", format!("exits 0 though the simulation failed ({})", o.tail()));
        }
        if let Some(e) = other_format(c.format, o) {
            return bad("dry-run-format", e);
        }
        return Ok(true);
    }
    if claims_success(o) {
        return bad("dry-run-reports-success", format!("fails and yet reports success ({})", o.tail()));
    }
    if good && !faulty {
        return bad("dry-run-fails", format!("fails though the simulation succeeded ({})", o.tail()));
    }
    Ok(false)
}

/// A sign-only run: nothing submitted; what it says was signed is what was
/// asked for.
fn judge_sign(c: &Case, o: &Outcome, faulty: bool) -> Result<bool, (String, String)> {
    let bad = |sig: &str, what: String| Err((sig.to_string(), format!("{}: {what}", c.what)));
    if !o.sent.is_empty() || o.junk > 0 || o.methods.iter().any(|m| m == "sendTransaction") {
        return bad("sign-only-submits", format!("submits ({})", o.tail()));
    }
    if o.world.acc != c.world.acc {
        return bad("sign-only-acts", "changes the chain".into());
    }
    if o.code != 0 {
        return if faulty || !matches!(c.expect, Expect::Submit(_)) { Ok(false) } else { bad("sign-only-fails", o.tail()) };
    }
    let Expect::Submit(w) = &c.expect else { return bad("sign-only-accepts", o.tail()) };
    if let Some(e) = other_format(c.format, o) {
        return bad("sign-only-format", e);
    }
    if c.format.json() {
        let m = o.json()["signOnlyData"]["message"].as_str().and_then(|s| B64.decode(s).ok()).and_then(|b| Tx::message(&b));
        match m {
            None => return bad("sign-only-message", "no message".into()),
            Some(t) => {
                if let Some(e) = same_ixs(&t, w) {
                    return bad("sign-only-message", e);
                }
            }
        }
    }
    Ok(true)
}

fn dry_args(c: &Case, how: usize) -> Vec<String> {
    let mut a = c.argv();
    match how {
        0 => a.insert(0, "--dry-run".into()),
        1 => a.push("--dry-run".into()),
        _ => a.push("--dryrun".into()),
    }
    a
}

pub fn run(ctx: &Ctx, pool: &Pool) {
    let mut cases = vec![];
    for f in FORMATS {
        cases.extend(pool.one(|svm| commands(svm, f)));
    }
    let report = |c: &Case, args: &[String], o: &Outcome, block: &str, sig: &str, what: String, plan: &Plan| {
        let mut d = c.detail(o);
        d["args"] = json!(args);
        d["plan"] = json!(format!("{plan:?}"));
        ctx.violate_json(&format!("{block}/{sig}"), format!("{what} [{plan:?}]"), d)
    };
    // one run of each: (case, arguments, plan, mode)
    #[derive(Clone, Copy, PartialEq)]
    enum Mode {
        Dry,
        Sign,
        Send,
        /// for a confirmation that does not come
        Wait,
        /// for one that comes late
        Late,
    }
    let is_move = |c: &Case| ["wrap", "unwrap"].contains(&c.args[0].as_str());
    let mut jobs: Vec<(usize, Vec<String>, Plan, Mode)> = vec![];
    for (i, c) in cases.iter().enumerate() {
        for sim in SIMS {
            for how in 0..3 {
                jobs.push((i, dry_args(c, how), Plan { sim, ..Default::default() }, Mode::Dry));
            }
        }
        for land in [Land::Fails, Land::Lost] {
            jobs.push((i, c.argv(), Plan { land, ..Default::default() }, Mode::Send));
        }
        if is_move(c) {
            for hash in [None, Some(OLD_HASH)] {
                for dry in [false, true] {
                    let mut a = c.argv();
                    a.push("--sign-only".into());
                    if let Some(h) = hash {
                        a.extend(["--blockhash".into(), hash_str(&h)]);
                    }
                    if dry {
                        a.push("--dry-run".into());
                    }
                    for sim in SIMS {
                        jobs.push((i, a.clone(), Plan { sim, ..Default::default() }, Mode::Sign));
                    }
                }
            }
        }
    }
    let step = |o: &Outcome| {
        ctx.state();
        for _ in 0..=o.methods.len() {
            ctx.step();
        }
    };
    let judge_mode = |svm: &mut Svm, c: &Case, o: &Outcome, mode: Mode, faulty: bool| match mode {
        _ if o.code == -3 => Ok(false),
        Mode::Dry => judge_dry(c, o, faulty),
        Mode::Sign => judge_sign(c, o, faulty),
        // how long it waits is its own affair
        Mode::Wait if o.code == -2 => Ok(true),
        Mode::Late => judge(svm, c, o),
        Mode::Send | Mode::Wait => {
            let lost = o.sent.iter().all(|s| s.1.is_err());
            if o.code == 0 && lost && !matches!(c.expect, Expect::Nothing(_)) {
                return Err(("send-false-success".into(), format!("{}: exits 0 though nothing was executed ({})", c.what, o.tail())));
            }
            if o.code != 0 && claims_success(o) {
                return Err(("send-reports-success".into(), format!("{}: fails and yet reports success ({})", c.what, o.tail())));
            }
            judge_faulty(svm, c, o)
        }
    };
    // confirmation that never comes, or comes late
    for (i, c) in cases.iter().enumerate() {
        if c.format == Format::Json && matches!(c.expect, Expect::Submit(_)) {
            jobs.push((i, c.argv(), Plan { land: Land::Unconfirmed, limit: 4, ..Default::default() }, Mode::Wait));
            for n in [1, 3] {
                jobs.push((i, c.argv(), Plan { land: Land::Late(n), ..Default::default() }, Mode::Late));
            }
        }
    }
    let rs = pool.map(&jobs, |svm, (i, a, plan, mode)| {
        let o = cli(svm, &cases[*i].world, a, plan);
        step(&o);
        let r = judge_mode(svm, &cases[*i], &o, *mode, false);
        count_bad(&r);
        if r.is_ok() {
            ctx.trace();
        }
        (r, o)
    });
    let mut ok = [0u64; 5];
    for ((i, a, plan, mode), (r, o)) in jobs.iter().zip(rs) {
        match r {
            Ok(x) => {
                if x {
                    ctx.accept();
                    ok[*mode as usize] += 1;
                    if ok[*mode as usize] % 151 == 1 {
                        ctx.sample(json!({"args": a, "requests": o.methods, "stdout": o.stdout.chars().take(200).collect::<String>()}));
                    }
                }
            }
            Err((sig, what)) => report(&cases[i.clone()], a, &o, "modes", &sig, what, plan),
        }
    }
    ctx.put("runs_modes", jobs.len() as u64);
    ctx.put("dry_runs_succeeded", ok[0]);
    ctx.put("sign_only_runs_succeeded", ok[1]);
    ctx.put("runs_that_wait_for_a_confirmation_that_never_comes", ok[3]);
    ctx.put("runs_confirmed_late", ok[4]);
    if std::env::var("TW_TRACE").is_ok() {
        eprintln!("modes: {} runs, succeeded {ok:?}, {:.1}s", jobs.len(), ctx.secs());
    }

    // every fault at every request, in every mode
    let mut base: Vec<(usize, Vec<String>, Mode)> = vec![];
    for (i, c) in cases.iter().enumerate() {
        let f = c.format;
        if !(f == Format::Json || ctx.thorough && (f == Format::Default || f == Format::V)) {
            continue;
        }
        base.push((i, c.argv(), Mode::Send));
        base.push((i, dry_args(c, 0), Mode::Dry));
        if is_move(c) {
            for h in [None, Some(OLD_HASH)] {
                let mut a = c.argv();
                a.push("--sign-only".into());
                if let Some(h) = h {
                    a.extend(["--blockhash".into(), hash_str(&h)]);
                }
                base.push((i, a, Mode::Sign));
            }
        }
    }
    let depth = if ctx.thorough { 3 } else { 2 };
    let rs = pool.map(&base, |svm, (i, a, mode)| {
        let c = &cases[*i];
        let mut out = vec![];
        let mut runs = 0u64;
        // the tree of faults: after a fault the run may go on to new requests
        let first = cli(svm, &c.world, a, &Plan::default());
        let mut todo: Vec<Vec<(usize, Fault)>> = (0..first.methods.len()).flat_map(|n| FAULTS.map(|f| vec![(n, f)])).collect();
        while let Some(faults) = todo.pop() {
            let plan = Plan { faults: faults.clone(), ..Default::default() };
            let o = cli(svm, &c.world, a, &plan);
            runs += 1;
            step(&o);
            if faults.len() < depth {
                for n in faults[faults.len() - 1].0 + 1..o.methods.len() {
                    todo.extend(FAULTS.map(|f| [&faults[..], &[(n, f)]].concat()));
                }
            }
            let r = judge_mode(svm, c, &o, *mode, true);
            count_bad(&r);
            match r {
                Ok(_) => ctx.trace(),
                Err((sig, what)) => out.push((sig, what, o, plan)),
            }
        }
        (runs, out)
    });
    let mut runs = 0;
    for ((i, a, _), (n, v)) in base.iter().zip(rs) {
        runs += n;
        for (sig, what, o, plan) in v {
            report(&cases[*i], a, &o, "faults", &sig, what, &plan);
        }
    }
    ctx.put("runs_faults", runs);
    ctx.bound("8 commands over 4 program pairs, accepted and refused by the chain x 7 output formats x (dry-run in 3 positions x 4 simulation outcomes; sign-only with and without blockhash and dry-run; submissions that fail on chain, never land, are never confirmed or late); 5 kinds of fault at every request of every run, and at every further request the run makes after one (in the thorough tier after two)");
}
