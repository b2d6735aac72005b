//! What a run must do, and the judgement of what it did.
use {
    crate::node::*,
    serde_json::{json, Value},
    solana_instruction::Instruction,
    solana_pubkey::Pubkey,
    twmc::{core::*, report::*, tok::*},
};

#[derive(Clone, Debug)]
pub struct Want {
    pub payer: Pubkey,
    pub ixs: Vec<Instruction>,
    /// when the user gave one
    pub blockhash: Option<[u8; 32]>,
    /// whether the keys or signatures given cover all required signers
    pub signable: bool,
    /// what must be reported, by JSON field
    pub fields: Vec<(&'static str, Value)>,
}
impl Want {
    pub fn new(payer: Pubkey, ixs: Vec<Instruction>) -> Want {
        Want { payer, ixs, blockhash: None, signable: true, fields: vec![] }
    }
    pub fn field(mut self, k: &'static str, v: impl Into<Value>) -> Want {
        self.fields.push((k, v.into()));
        self
    }
    pub fn pk(self, k: &'static str, v: &Pubkey) -> Want {
        self.field(k, v.to_string())
    }
    pub fn opt(self, k: &'static str, v: Option<&Pubkey>) -> Want {
        self.field(k, v.map_or(Value::Null, |v| v.to_string().into()))
    }
}
#[derive(Clone, Debug)]
pub enum Expect {
    /// fails before anything is submitted
    Refuse,
    /// fails, and changes nothing
    Fail,
    /// submits exactly this; succeeds exactly when the chain accepts it
    Submit(Want),
    /// succeeds with nothing to submit
    Nothing(Want),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Format {
    Default,
    Display,
    Json,
    Compact,
    Quiet,
    Verbose,
    V,
}
pub const FORMATS: [Format; 7] = [Format::Default, Format::Display, Format::Json, Format::Compact, Format::Quiet, Format::Verbose, Format::V];
impl Format {
    pub fn args(self) -> Vec<String> {
        let v: &[&str] = match self {
            Format::Default => &[],
            Format::Display => &["--output", "display"],
            Format::Json => &["--output", "json"],
            Format::Compact => &["--output", "json-compact"],
            Format::Quiet => &["--output", "quiet"],
            Format::Verbose => &["--output", "verbose"],
            Format::V => &["-v"],
        };
        v.iter().map(|s| s.to_string()).collect()
    }
    pub fn quiet(self) -> bool {
        self == Format::Quiet
    }
    pub fn json(self) -> bool {
        matches!(self, Format::Json | Format::Compact)
    }
}

pub struct Case {
    pub what: String,
    pub world: World,
    /// the command and what belongs to it; global options come first
    pub global: Vec<String>,
    pub args: Vec<String>,
    pub format: Format,
    pub expect: Expect,
}
impl Case {
    pub fn argv(&self) -> Vec<String> {
        let mut v = self.global.clone();
        v.extend(self.format.args());
        v.extend(self.args.iter().cloned());
        v
    }
    pub fn detail(&self, o: &Outcome) -> Value {
        json!({"case": self.what, "args": self.argv(), "outcome": o.tail(), "stderr": o.stderr,
            "submitted": o.sent.iter().map(|(t, r)| json!([t.json(), format!("{r:?}")])).collect::<Vec<_>>(),
            "expected": format!("{:?}", match &self.expect { Expect::Submit(w) => w.ixs.iter().map(ix_json).collect::<Vec<_>>(), _ => vec![] }),
            "world": world_json(&self.world)})
    }
}
pub fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

pub fn same_ixs(tx: &Tx, w: &Want) -> Option<String> {
    // the associated token account program takes no data for 0
    let mut t = tx.clone();
    for i in &mut t.ixs {
        if i.program_id == ATA && i.data.is_empty() {
            i.data = vec![0];
        }
    }
    // the order of funding transfers does not matter
    let mut want = w.ixs.clone();
    for v in [&mut t.ixs, &mut want] {
        let n = v.iter().take_while(|i| i.program_id == SYS).count();
        v[..n].sort_by(|a, b| (a.accounts.get(1).map(|m| m.pubkey), &a.data).cmp(&(b.accounts.get(1).map(|m| m.pubkey), &b.data)));
    }
    mismatch(&t, &w.payer, &want, w.blockhash)
}

/// What the text formats call the fields. The text is for people: a label may
/// be missing or worded otherwise, but under these names stand these values.
const LABELS: [(&str, &str); 26] = [
    ("unwrapped mint address", "unwrappedMintAddress"),
    ("unwrapped mint", "unwrappedMint"),
    ("wrapped mint address", "wrappedMintAddress"),
    ("wrapped mint", "wrappedMint"),
    ("wrapped mint authority", "wrappedMintAuthority"),
    ("wrapped backpointer address", "wrappedBackpointerAddress"),
    ("unwrapped escrow address", "unwrappedEscrow"),
    ("unwrapped token account", "unwrappedTokenAccount"),
    ("wrapped token account", "wrappedTokenAccount"),
    ("recipient wrapped token account", "recipientTokenAccount"),
    ("recipient unwrapped token account", "recipientTokenAccount"),
    ("unwrapped token program", "unwrappedTokenProgram"),
    ("escrow account", "escrowAccount"),
    ("escrow account address", "escrowAccountAddress"),
    ("escrow account owner (wrapped mint authority)", "escrowAccountOwner"),
    ("unwrapped token program id", "unwrappedTokenProgramId"),
    ("amount", "amount"),
    ("amount unwrapped", "amount"),
    ("amount wrapped", "amount"),
    ("funded wrapped mint lamports", "fundedWrappedMintLamports"),
    ("funded backpointer lamports", "fundedBackpointerLamports"),
    ("metaplex metadata account", "metaplexMetadata"),
    ("source metadata", "sourceMetadata"),
    ("owner program", "ownerProgram"),
    ("metadata program id", "metadataProgramId"),
    ("signature", "signature"),
];
/// What the lines of a text report say that is not so.
fn lines_say(text: &str, fields: &[(&str, Value)], sigs: &[String]) -> Option<String> {
    let value = |f: &str| match fields.iter().find(|x| x.0 == f).map(|x| &x.1) {
        Some(Value::String(s)) => Some(s.clone()),
        Some(Value::Null) | None => None,
        Some(v) => Some(v.to_string()),
    };
    for l in text.lines() {
        if let Some((label, v)) = l.split_once(':') {
            let (label, v) = (label.trim().to_lowercase(), v.trim());
            let Some((_, f)) = LABELS.iter().find(|x| x.0 == label) else { continue };
            if v.is_empty() {
                continue;
            }
            let want = if *f == "signature" { sigs.first().cloned() } else { value(f) };
            // fields the check says nothing about are no matter
            let known = *f == "signature" || fields.iter().any(|x| x.0 == *f);
            if known && want.as_deref() != Some(v) {
                return Some(format!("says '{}' where it should say {want:?}", l.trim()));
            }
        }
        // the lines about what is being done
        let w: Vec<&str> = l.split_whitespace().collect();
        let says: &[(usize, &str)] = match (w.first(), w.len()) {
            (Some(&"Wrapping"), 6) => &[(1, "amount"), (5, "unwrappedMintAddress")],
            (Some(&"Unwrapping"), 8) => &[(1, "amount"), (5, "wrappedMintAddress"), (7, "unwrappedMintAddress")],
            (Some(&"Creating"), 5) => &[(4, "unwrappedMintAddress")],
            (Some(&"Funding"), 7) if w[1].starts_with("wrapped") => &[(2, "wrappedMintAddress"), (4, "fundedWrappedMintLamports")],
            (Some(&"Funding"), 7) => &[(2, "wrappedBackpointerAddress"), (4, "fundedBackpointerLamports")],
            (Some(&"Closing"), 8) => &[(4, "escrowAccount"), (7, "unwrappedMint")],
            (Some(&"Syncing"), _) if w.len() >= 3 => &[(w.len() - 3, "wrappedMint"), (w.len() - 1, "unwrappedMint")],
            _ => &[],
        };
        for (i, f) in says {
            if let Some(v) = value(f) {
                // only where an address or a number stands there
                let same_kind = w[*i].len() > 30 || w[*i].bytes().all(|b| b.is_ascii_digit());
                if same_kind && w[*i] != v {
                    return Some(format!("says '{l}' where {f} is {v}"));
                }
            }
        }
    }
    None
}

/// What must hold of the report of a success.
pub fn report(case: &Case, o: &Outcome, w: &Want, tx: Option<&Tx>) -> Option<String> {
    let j = o.json();
    let sigs: Vec<String> = tx.map(|t| t.signature_strings()).unwrap_or_default();
    match case.format {
        Format::Json | Format::Compact => {
            let Some(m) = j.as_object() else { return Some("the output is not one JSON object".into()) };
            if case.format == Format::Compact && o.stdout.trim().lines().count() != 1 {
                return Some("compact JSON on several lines".into());
            }
            for (k, v) in &w.fields {
                if m.get(*k).unwrap_or(&Value::Null) != v {
                    return Some(format!("reports {k} {:?} instead of {v}", m.get(*k)));
                }
            }
            // in base 58, or as bytes
            let mut got: Vec<String> = vec![];
            for v in m.get("signature").into_iter().chain(m.get("signatures").and_then(|v| v.as_array()).into_iter().flatten()) {
                match v {
                    Value::Null => {}
                    Value::String(s) => got.push(s.clone()),
                    v => got.push(bs58::encode(v.as_array().into_iter().flatten().map(|b| b.as_u64().unwrap_or(0) as u8).collect::<Vec<_>>()).into_string()),
                }
            }
            let one = m.contains_key("signature");
            if tx.is_some() && got != if one { sigs[..1].to_vec() } else { sigs.clone() } || tx.is_none() && got.iter().any(|s| s.trim_matches('1') != "") {
                return Some(format!("reports signatures {got:?} instead of {sigs:?}"));
            }
        }
        Format::Quiet => {
            if !o.stdout.trim().is_empty() {
                return Some("quiet output is not empty".into());
            }
        }
        _ => {
            for (k, v) in &w.fields {
                let s = match v {
                    Value::Null => continue,
                    Value::String(s) => s.clone(),
                    v => v.to_string(),
                };
                if !o.stdout.contains(&s) {
                    return Some(format!("does not report {k} {s}"));
                }
            }
            if let Some(s) = sigs.iter().find(|s| !o.stdout.contains(*s)) {
                return Some(format!("does not report signature {s}"));
            }
            if let Some(e) = lines_say(&o.stdout, &w.fields, &sigs) {
                return Some(e);
            }
        }
    }
    None
}

/// The judgement of a plain run on a healthy node.
pub fn judge(svm: &mut Svm, c: &Case, o: &Outcome) -> Result<bool, (String, String)> {
    let bad = |sig: &str, what: String| Err((sig.to_string(), format!("{}: {what}", c.what)));
    if o.code == -3 {
        return Ok(false);
    }
    if o.junk > 0 {
        return bad("undecodable", "submits something that is no transaction".into());
    }
    if o.sent.len() > 1 {
        return bad("submits-more", format!("submits {} transactions", o.sent.len()));
    }
    if o.code == -2 {
        return bad("hangs", "does not finish".into());
    }
    match &c.expect {
        Expect::Refuse | Expect::Fail => {
            if o.code == 0 {
                return bad("accepts", format!("succeeds instead of refusing ({})", o.tail()));
            }
            if o.world.acc != c.world.acc {
                return bad("acts", "the transaction it should not make was executed".into());
            }
            if matches!(c.expect, Expect::Refuse) && !o.sent.is_empty() {
                return bad("submits-before-refusing", format!("submits {}", o.sent[0].0.json()));
            }
            Ok(false)
        }
        Expect::Nothing(w) => {
            if !o.sent.is_empty() {
                return bad("submits-needlessly", format!("submits {}", o.sent[0].0.json()));
            }
            if o.code != 0 {
                return bad("fails", format!("fails though there is nothing to do ({})", o.tail()));
            }
            if let Some(e) = report(c, o, w, None) {
                return bad("report", e);
            }
            Ok(true)
        }
        Expect::Submit(w) => {
            for (t, _) in &o.sent {
                if let Some(e) = same_ixs(t, w) {
                    return bad("transaction", format!("the submitted transaction is not the one asked for: {e}"));
                }
            }
            let e = svm.exec(&c.world, &w.ixs);
            if e.ok() && w.signable {
                if o.sent.is_empty() {
                    return bad("not-submitted", format!("does not submit the transaction asked for ({})", o.tail()));
                }
                if let Err(e) = &o.sent[0].1 {
                    return bad("not-accepted", format!("the transaction was not executed: {e} ({})", o.tail()));
                }
                if o.code != 0 {
                    return bad("fails", format!("fails though the transaction was executed ({})", o.tail()));
                }
                let d = diff(&e.world, &o.world);
                if !d.is_empty() {
                    return bad("effect", format!("the effect differs: {d:?}"));
                }
                if let Some(e) = report(c, o, w, Some(&o.sent[0].0)) {
                    return bad("report", e);
                }
                Ok(true)
            } else {
                if o.code == 0 {
                    return bad("false-success", format!("succeeds where the chain refuses ({})", o.tail()));
                }
                if o.world.acc != c.world.acc {
                    return bad("acts", "a transaction was executed that the chain must refuse".into());
                }
                Ok(false)
            }
        }
    }
}

/// Runs and judges every case.
pub fn decide(ctx: &Ctx, pool: &Pool, block: &str, cases: &[Case]) {
    let t = std::time::Instant::now();
    let rs = pool.map(cases, |svm, c| {
        ctx.state();
        let o = cli(svm, &c.world, &c.argv(), &Plan::default());
        for _ in &o.methods {
            ctx.step();
        }
        let r = judge(svm, c, &o);
        count_bad(&r);
        if r.is_ok() {
            ctx.trace();
        }
        (r, o)
    });
    let mut ok = 0;
    for (c, (r, o)) in cases.iter().zip(&rs) {
        match r {
            Ok(true) => {
                ok += 1;
                ctx.accept();
                if ok % 97 == 1 {
                    ctx.sample(json!({"block": block, "args": c.argv(), "requests": o.methods, "submitted": o.sent.first().map(|t| t.0.json())}));
                }
            }
            Ok(false) => {}
            Err((sig, what)) => ctx.violate_json(&format!("{block}/{sig}"), what.clone(), c.detail(o)),
        }
    }
    ctx.put(&format!("runs_{block}"), cases.len() as u64);
    ctx.put(&format!("succeeded_{block}"), ok as u64);
    if std::env::var("TW_TRACE").is_ok() {
        eprintln!("{block}: {} runs, {ok} succeeded, {:.1}s", cases.len(), t.elapsed().as_secs_f64());
    }
    if ok == 0 && !stopped() && !cases.is_empty() && rs.iter().all(|r| r.0.is_ok()) {
        eprintln!("ERROR: block {block} is vacuous");
        std::process::exit(2);
    }
}

/// The judgement of a run with a fault somewhere: it may fail, but what it
/// submits is what was asked for, and success means success.
pub fn judge_faulty(svm: &mut Svm, c: &Case, o: &Outcome) -> Result<bool, (String, String)> {
    let bad = |sig: &str, what: String| Err((sig.to_string(), format!("{}: {what}", c.what)));
    if o.code == -3 {
        return Ok(false);
    }
    if o.code == -2 {
        return bad("hangs", "does not finish".into());
    }
    if o.code == 0 {
        return judge(svm, c, o);
    }
    if o.stdout.contains("\"signature\": \"") || o.stdout.to_lowercase().contains("succeeded") {
        return bad("reports-success", format!("fails and yet reports success ({})", o.tail()));
    }
    let Expect::Submit(w) = &c.expect else {
        if !o.sent.is_empty() {
            return bad("submits-needlessly", format!("submits {}", o.sent[0].0.json()));
        }
        return Ok(false);
    };
    for (t, _) in &o.sent {
        if let Some(e) = same_ixs(t, w) {
            return bad("transaction", format!("the submitted transaction is not the one asked for: {e}"));
        }
    }
    Ok(false)
}

/// Every case with every fault at every request of its run.
pub fn decide_faults(ctx: &Ctx, pool: &Pool, block: &str, cases: &[Case], faults: &[Fault]) {
    let rs = pool.map(cases, |svm, c| {
        let mut out = vec![];
        let base = cli(svm, &c.world, &c.argv(), &Plan::default());
        for n in 0..base.methods.len() {
            for f in faults {
                ctx.state();
                let o = cli(svm, &c.world, &c.argv(), &Plan { faults: vec![(n, *f)], ..Default::default() });
                for _ in &o.methods {
                    ctx.step();
                }
                let r = judge_faulty(svm, c, &o);
                count_bad(&r);
                match &r {
                    Ok(true) => ctx.accept(),
                    Ok(false) => {}
                    Err(_) => out.push((n, *f, base.methods[n].clone(), r, o)),
                }
                ctx.trace();
            }
        }
        out
    });
    for (c, v) in cases.iter().zip(rs) {
        for (n, f, m, r, o) in v {
            if let Err((sig, what)) = r {
                ctx.violate_json(&format!("{block}/{sig}"), format!("{f:?} at request {n} ({m}): {what}"), c.detail(&o));
            }
        }
    }
    ctx.put(&format!("runs_{block}"), cases.len() as u64);
}

// ---- common worlds ----------------------------------------------------------------
pub fn other_prog(p: &Pubkey) -> Pubkey {
    if *p == T22 {
        TOKEN
    } else {
        T22
    }
}
pub const PROGS: [(Pubkey, Pubkey); 4] = [(TOKEN, TOKEN), (TOKEN, T22), (T22, TOKEN), (T22, T22)];

/// A pair with mint, escrow, wrapped mint, and token accounts on both sides of
/// the payer ("payer"), another holder ("holder") and a stranger ("stranger").
#[derive(Clone)]
pub struct Scene {
    pub p: Pair,
    pub w: World,
    /// another mint of the same program, and an account of it
    pub other: Pubkey,
    pub other_acct: Pubkey,
}
pub const FUNDS: u64 = 10_000_000_000;
impl Scene {
    pub fn u(&self, who: &str) -> Pubkey {
        ata_of(&kp(who), &self.p.umint, &self.p.uprog)
    }
    pub fn wr(&self, who: &str) -> Pubkey {
        ata_of(&kp(who), &self.p.wmint, &self.p.wprog)
    }
}
pub const HELD: u64 = 1000;
pub fn scene(svm: &mut Svm, uprog: Pubkey, wprog: Pubkey, exts: &[Ext]) -> Scene {
    let mut w = World { epoch: 5, ..Default::default() };
    for k in ["payer", "other-payer", "holder", "stranger"] {
        w.fund(kp(k), FUNDS);
    }
    let umint = key("unwrapped-mint");
    let p = Pair::new(umint, uprog, wprog);
    let exts = if uprog == T22 { exts } else { &[] };
    make_mint(svm, &mut w, &MintSpec::new(umint, uprog).exts(exts)).unwrap();
    let other = key("other-mint");
    make_mint(svm, &mut w, &MintSpec::new(other, uprog)).unwrap();
    make_wrapped(svm, &mut w, &p, 0);
    make_escrow(svm, &mut w, &p).unwrap();
    let holders = ["payer", "other-payer", "holder", "stranger"];
    for who in holders {
        let who = kp(who);
        make_ata(svm, &mut w, &who, &umint, &uprog).unwrap();
        make_ata(svm, &mut w, &who, &p.wmint, &wprog).unwrap();
        for (m, pr) in [(umint, uprog), (p.wmint, wprog)] {
            w.edit(&ata_of(&who, &m, &pr), |a| a.data[64..72].copy_from_slice(&HELD.to_le_bytes()));
        }
    }
    w.edit(&p.escrow, |a| a.data[64..72].copy_from_slice(&(HELD * holders.len() as u64).to_le_bytes()));
    fix_supply(&mut w, &umint);
    fix_supply(&mut w, &p.wmint);
    let other_acct = key("account-of-other-mint");
    make_account(svm, &mut w, &AcctSpec::new(other_acct, other, kp("payer"), HELD)).unwrap();
    fix_supply(&mut w, &other);
    Scene { p, w, other, other_acct }
}
