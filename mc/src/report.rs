//! Verdicts, replays, known findings and evidence.
use {
    crate::core::*,
    serde_json::{json, Map, Value},
    solana_instruction::Instruction,
    std::{
        sync::{
            atomic::{AtomicU64, Ordering::Relaxed},
            Mutex,
        },
        time::Instant,
    },
};

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    start: Instant,
    viol: Mutex<Vec<(String, String, Value)>>,
    nviol: AtomicU64,
    known: Vec<(String, String)>,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    accepted: AtomicU64,
    samples: Mutex<Vec<Value>>,
    extra: Mutex<Map<String, Value>>,
    bounds: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
}

impl Ctx {
    pub fn new(id: &str) -> Ctx {
        let kf = std::fs::read_to_string("/verif/known_findings.txt").unwrap_or_default();
        let known = kf
            .lines()
            .filter_map(|l| l.strip_prefix("known: property=")?.strip_prefix(id)?.strip_prefix(" signature="))
            .filter_map(|l| l.split_once(' ').map(|(s, w)| (s.to_string(), w.to_string())))
            .collect();
        Ctx {
            id: id.into(),
            thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            start: Instant::now(),
            viol: Default::default(),
            nviol: 0.into(),
            known,
            states: 0.into(),
            transitions: 0.into(),
            traces: 0.into(),
            accepted: 0.into(),
            samples: Default::default(),
            extra: Default::default(),
            bounds: Default::default(),
            assumptions: Default::default(),
        }
    }
    pub fn secs(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn state(&self) {
        self.states.fetch_add(1, Relaxed);
    }
    pub fn step(&self) {
        self.transitions.fetch_add(1, Relaxed);
    }
    pub fn trace(&self) {
        self.traces.fetch_add(1, Relaxed);
    }
    /// Counts transitions the implementation accepted (vacuity guard).
    pub fn accept(&self) {
        self.accepted.fetch_add(1, Relaxed);
    }
    pub fn accepted(&self) -> u64 {
        self.accepted.load(Relaxed)
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v);
        }
    }
    pub fn put(&self, k: &str, v: impl Into<Value>) {
        self.extra.lock().unwrap().insert(k.into(), v.into());
    }
    pub fn bump(&self, k: &str, n: u64) {
        let mut e = self.extra.lock().unwrap();
        let v = e.get(k).and_then(|v| v.as_u64()).unwrap_or(0);
        e.insert(k.into(), (v + n).into());
    }
    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn violations(&self) -> u64 {
        self.nviol.load(Relaxed)
    }
    pub fn enough(&self) -> bool {
        self.violations() >= 50
    }

    pub fn violate(&self, sig: &str, what: impl Into<String>, w: &World, ixs: &[Instruction]) {
        self.violate_json(sig, what, json!({"world": world_json(w), "instructions": ixs.iter().map(ix_json).collect::<Vec<_>>()}))
    }
    pub fn violate_json(&self, sig: &str, what: impl Into<String>, detail: Value) {
        self.nviol.fetch_add(1, Relaxed);
        let mut v = self.viol.lock().unwrap();
        if v.len() < 1000 && v.iter().filter(|x: &&(String, String, Value)| x.0 == sig).count() < 5 {
            v.push((sig.into(), what.into(), detail));
        }
    }

    pub fn finish(self, execs: u64) -> ! {
        let mut unlisted = vec![];
        let mut known_hit = std::collections::BTreeSet::new();
        for (sig, what, detail) in self.viol.into_inner().unwrap() {
            if let Some((s, w)) = self.known.iter().find(|(s, _)| *s == sig) {
                known_hit.insert((s.clone(), w.clone()));
            } else {
                unlisted.push((sig, what, detail));
            }
        }
        for (s, w) in &known_hit {
            println!("KNOWN-FINDING: property={} {s}: {w}", self.id);
        }
        let (st, tr, va) = (self.states.load(Relaxed), self.transitions.load(Relaxed), self.traces.load(Relaxed));
        let mut cov = self.extra.into_inner().unwrap();
        cov.insert("states".into(), st.into());
        cov.insert("transitions".into(), tr.into());
        cov.insert("traces_validated_against_impl".into(), va.into());
        cov.insert("transitions_accepted_by_implementation".into(), self.accepted.load(Relaxed).into());
        cov.insert("svm_transactions_executed".into(), execs.into());
        cov.insert("bounds".into(), self.bounds.into_inner().unwrap().into());
        cov.insert("exhaustive".into(), true.into());
        let mut samples = self.samples.into_inner().unwrap();
        if samples.is_empty() {
            samples.push(json!("none"));
        }
        cov.insert("samples".into(), samples.into());
        let ev = json!({
            "property": self.id, "tier": if self.thorough {"thorough"} else {"quick"}, "seed": self.seed,
            "level": "model_checking", "coverage": cov,
            "assumptions": self.assumptions.into_inner().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(), "violations": unlisted.len(),
        });
        let _ = std::fs::create_dir_all("/verif/evidence");
        std::fs::write(format!("/verif/evidence/{}.json", self.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        println!(
            "{}: states={st} transitions={tr} validated={va} accepted={} execs={execs} {:.1}s",
            self.id, self.accepted.load(Relaxed), self.start.elapsed().as_secs_f64()
        );
        if st == 0 || tr == 0 {
            eprintln!("ERROR: nothing explored");
            std::process::exit(2);
        }
        if unlisted.is_empty() {
            std::process::exit(0);
        }
        let _ = std::fs::create_dir_all("/verif/out");
        let mut seen = std::collections::BTreeSet::new();
        for (i, (sig, what, detail)) in unlisted.into_iter().enumerate() {
            if !seen.insert(sig.clone()) || seen.len() > 5 {
                continue;
            }
            let path = format!("/verif/out/{}-{i}.json", self.id);
            let v = json!({"property": self.id, "signature": sig, "what": what, "detail": detail});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
            println!("VIOLATION property={} replay={path}", self.id);
            println!("  [{sig}] {what}");
        }
        std::process::exit(1);
    }
}

pub fn ix_json(ix: &Instruction) -> Value {
    json!({
        "program": name_of(&ix.program_id),
        "program_id": ix.program_id.to_string(),
        "data": hex(&ix.data),
        "accounts": ix.accounts.iter().map(|m| json!([m.pubkey.to_string(), m.is_signer, m.is_writable, name_of(&m.pubkey)])).collect::<Vec<_>>(),
    })
}
pub fn world_json(w: &World) -> Value {
    json!({
        "epoch": w.epoch,
        "rent": w.rent,
        "accounts": w.acc.iter().map(|(k, a)| json!({
            "key": k.to_string(), "name": name_of(k), "lamports": a.lamports, "owner": a.owner.to_string(),
            "data": hex(&a.data), "executable": a.executable,
        })).collect::<Vec<_>>(),
    })
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// Re-executes a replay file on the present build, printing what happens.
pub fn replay(path: &str) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    println!("{}: {}", v["signature"], v["what"]);
    let d = &v["detail"];
    let mut w = World { epoch: d["world"]["epoch"].as_u64().unwrap_or(0), rent: d["world"]["rent"].as_u64(), ..Default::default() };
    let pk = |v: &Value| -> solana_pubkey::Pubkey { v.as_str().unwrap().parse().unwrap() };
    for a in d["world"]["accounts"].as_array().into_iter().flatten() {
        name_it(pk(&a["key"]), a["name"].as_str().unwrap());
        w.set(
            pk(&a["key"]),
            solana_account::Account {
                lamports: a["lamports"].as_u64().unwrap(),
                owner: pk(&a["owner"]),
                data: unhex(a["data"].as_str().unwrap()),
                executable: a["executable"].as_bool().unwrap(),
                ..Default::default()
            },
        );
    }
    let ixs: Vec<Instruction> = d["instructions"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|i| Instruction {
            program_id: pk(&i["program_id"]),
            data: unhex(i["data"].as_str().unwrap()),
            accounts: i["accounts"]
                .as_array()
                .unwrap()
                .iter()
                .map(|m| solana_instruction::AccountMeta {
                    pubkey: pk(&m[0]),
                    is_signer: m[1].as_bool().unwrap(),
                    is_writable: m[2].as_bool().unwrap(),
                })
                .collect(),
        })
        .collect();
    let mut svm = Svm::new(&Env::load());
    for ix in ixs {
        println!("{}", serde_json::to_string(&ix_json(&ix)).unwrap());
        let e = svm.exec(&w, &[ix]);
        println!("  -> {:?}", e.res);
        for l in diff(&w, &e.world) {
            println!("     {l}");
        }
        w = e.world;
    }
}
