//! A Solana node under the checker's control, and runs of the real CLI
//! against it.  The node executes what it is sent on the SVM; which request
//! fails, and how, is chosen by the checker.
use {
    base64::{prelude::BASE64_STANDARD as B64, Engine},
    ed25519_dalek::{Signature, Signer, SigningKey, VerifyingKey},
    serde_json::{json, Value},
    solana_instruction::{AccountMeta, Instruction},
    solana_pubkey::Pubkey,
    std::{
        io::{ErrorKind, Read, Write},
        net::{TcpListener, TcpStream},
        path::PathBuf,
        process::{Command, Stdio},
        sync::atomic::{AtomicUsize, Ordering},
        time::{Duration, Instant},
    },
    twmc::core::*,
};

// ---- keys -----------------------------------------------------------------------
pub fn secret(name: &str) -> SigningKey {
    SigningKey::from_bytes(&key(&format!("seed of {name}")).to_bytes())
}
/// The public key of the named key pair.
pub fn kp(name: &str) -> Pubkey {
    let k = Pubkey::new_from_array(secret(name).verifying_key().to_bytes());
    name_it(k, name);
    k
}
pub fn sign(name: &str, msg: &[u8]) -> String {
    bs58::encode(secret(name).sign(msg).to_bytes()).into_string()
}

// ---- transactions ---------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub struct Tx {
    pub sigs: Vec<[u8; 64]>,
    pub message: Vec<u8>,
    /// key, signer, writable; the payer first
    pub keys: Vec<(Pubkey, bool, bool)>,
    pub blockhash: [u8; 32],
    pub ixs: Vec<Instruction>,
}
struct Rd<'a>(&'a [u8]);
impl Rd<'_> {
    fn take(&mut self, n: usize) -> Option<Vec<u8>> {
        (self.0.len() >= n).then(|| {
            let (a, b) = self.0.split_at(n);
            self.0 = b;
            a.to_vec()
        })
    }
    fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    fn len(&mut self) -> Option<usize> {
        let mut n = 0usize;
        for i in 0..3 {
            let b = self.u8()?;
            n |= ((b & 0x7f) as usize) << (7 * i);
            if b & 0x80 == 0 {
                return Some(n);
            }
        }
        None
    }
}
impl Tx {
    pub fn decode(b: &[u8]) -> Option<Tx> {
        let mut r = Rd(b);
        let n = r.len()?;
        let sigs = (0..n).map(|_| r.take(64)?.try_into().ok()).collect::<Option<Vec<[u8; 64]>>>()?;
        let mut t = Tx::message(r.0)?;
        t.sigs = sigs;
        Some(t)
    }
    /// A message without its signatures.
    pub fn message(b: &[u8]) -> Option<Tx> {
        let mut r = Rd(b);
        let message = b.to_vec();
        let v0 = b.first()? & 0x80 != 0;
        if v0 && r.u8()? != 0x80 {
            return None;
        }
        let (req, ros, rou) = (r.u8()? as usize, r.u8()? as usize, r.u8()? as usize);
        let n = r.len()?;
        let raw = (0..n).map(|_| Some(Pubkey::new_from_array(r.take(32)?.try_into().ok()?))).collect::<Option<Vec<_>>>()?;
        if req == 0 || req > n || ros >= req || rou > n - req {
            return None;
        }
        let keys: Vec<_> = raw
            .iter()
            .enumerate()
            .map(|(i, k)| (*k, i < req, if i < req { i < req - ros } else { i < n - rou }))
            .collect();
        let blockhash = r.take(32)?.try_into().ok()?;
        let m = r.len()?;
        let mut ixs = vec![];
        for _ in 0..m {
            let p = r.u8()? as usize;
            let l = r.len()?;
            let idx = r.take(l)?;
            let l = r.len()?;
            let data = r.take(l)?;
            ixs.push(Instruction {
                program_id: keys.get(p)?.0,
                accounts: idx
                    .iter()
                    .map(|i| keys.get(*i as usize).map(|(k, s, w)| AccountMeta { pubkey: *k, is_signer: *s, is_writable: *w }))
                    .collect::<Option<Vec<_>>>()?,
                data,
            });
        }
        if v0 && r.len()? != 0 {
            return None;
        }
        let mut u = raw.clone();
        u.sort();
        u.dedup();
        if !r.0.is_empty() || u.len() != raw.len() {
            return None;
        }
        Some(Tx { sigs: vec![], message, keys, blockhash, ixs })
    }
    pub fn signers(&self) -> Vec<Pubkey> {
        self.keys.iter().filter(|k| k.1).map(|k| k.0).collect()
    }
    pub fn signed(&self) -> bool {
        let s = self.signers();
        s.len() == self.sigs.len()
            && s.iter().zip(&self.sigs).all(|(k, s)| {
                VerifyingKey::from_bytes(&k.to_bytes()).is_ok_and(|v| v.verify_strict(&self.message, &Signature::from_bytes(s)).is_ok())
            })
    }
    pub fn id(&self) -> String {
        self.sigs.first().map_or(String::new(), |s| bs58::encode(s).into_string())
    }
    pub fn signature_strings(&self) -> Vec<String> {
        self.sigs.iter().map(|s| bs58::encode(s).into_string()).collect()
    }
    pub fn json(&self) -> Value {
        json!({
            "keys": self.keys.iter().map(|(k, s, w)| format!("{}{}{}", name_of(k), if *s {" signer"} else {""}, if *w {" writable"} else {""})).collect::<Vec<_>>(),
            "instructions": self.ixs.iter().map(twmc::report::ix_json).collect::<Vec<_>>(),
        })
    }
}

/// How the wanted transaction must look: the payer, then these instructions,
/// each account with the privileges the instructions give it and no others.
/// Returns what is wrong.
pub fn mismatch(tx: &Tx, payer: &Pubkey, ixs: &[Instruction], blockhash: Option<[u8; 32]>) -> Option<String> {
    if tx.keys[0] != (*payer, true, true) {
        return Some(format!("paid by {} instead of {}", name_of(&tx.keys[0].0), name_of(payer)));
    }
    if let Some(b) = blockhash {
        if b != tx.blockhash {
            return Some("another blockhash than given".into());
        }
    }
    if tx.ixs.len() != ixs.len() {
        return Some(format!("{} instructions instead of {}", tx.ixs.len(), ixs.len()));
    }
    let mut want = std::collections::BTreeMap::<Pubkey, (bool, bool)>::new();
    want.insert(*payer, (true, true));
    for (i, (a, b)) in tx.ixs.iter().zip(ixs).enumerate() {
        if a.program_id != b.program_id {
            return Some(format!("instruction {i} calls {} instead of {}", name_of(&a.program_id), name_of(&b.program_id)));
        }
        if a.data != b.data {
            return Some(format!("instruction {i} has data {} instead of {}", hex(&a.data), hex(&b.data)));
        }
        let ka: Vec<_> = a.accounts.iter().map(|m| m.pubkey).collect();
        let kb: Vec<_> = b.accounts.iter().map(|m| m.pubkey).collect();
        if let Some(j) = (0..ka.len().max(kb.len())).find(|&j| ka.get(j) != kb.get(j)) {
            return Some(format!(
                "instruction {i} account {j} is {} instead of {}",
                ka.get(j).map_or("missing".into(), name_of), kb.get(j).map_or("nothing".into(), name_of)
            ));
        }
        want.entry(b.program_id).or_default();
        for m in &b.accounts {
            let e = want.entry(m.pubkey).or_default();
            e.0 |= m.is_signer;
            e.1 |= m.is_writable;
        }
    }
    let got: std::collections::BTreeMap<_, _> = tx.keys.iter().map(|(k, s, w)| (*k, (*s, *w))).collect();
    for k in got.keys().chain(want.keys()) {
        if got.get(k) != want.get(k) {
            return Some(format!("{} is passed as (signer, writable) {:?} instead of {:?}", name_of(k), got.get(k), want.get(k)));
        }
    }
    None
}

// ---- the node ---------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Fault {
    RpcError,
    Http500,
    /// the connection is closed without an answer
    Drop,
    Garbage,
    /// a well-formed answer whose result is null
    Null,
}
pub const FAULTS: [Fault; 5] = [Fault::RpcError, Fault::Http500, Fault::Drop, Fault::Garbage, Fault::Null];

/// What a simulation answers.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sim {
    /// executes
    Real,
    /// executes, but reports no consumed units and no logs
    Bare,
    /// fails whatever the transaction does, with units and logs
    Fails,
    /// fails without units and logs, as for an unknown fee payer
    FailsBare,
}
/// What becomes of a transaction the node has accepted.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Land {
    Lands,
    /// executes and fails, by a change since preflight
    Fails,
    /// never lands; its blockhash expires
    Lost,
    /// is processed by one fork, which nobody confirms
    Unconfirmed,
    /// lands, which the node knows only after so many questions
    Late(u8),
    /// lands, but the submission is answered so
    Silent(Fault),
}
#[derive(Clone)]
pub struct Hidden(pub World);
impl std::fmt::Debug for Hidden {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "another world")
    }
}
#[derive(Clone, Debug)]
pub struct Plan {
    /// these requests fail so
    pub faults: Vec<(usize, Fault)>,
    pub sim: Sim,
    pub land: Land,
    /// the home directory, within the place's
    pub home: &'static str,
    /// what a reader of unconfirmed state sees
    pub processed: Option<Hidden>,
    /// before it answers these requests the world turns into these, as long
    /// as nothing has been submitted
    pub race: Vec<(usize, Hidden)>,
    /// each request for a blockhash gets a new one
    pub fresh: bool,
    /// seconds the CLI gets
    pub limit: u64,
}
impl Default for Plan {
    fn default() -> Plan {
        Plan { faults: vec![], sim: Sim::Real, land: Land::Lands, home: "", processed: None, race: vec![], fresh: false, limit: 30 }
    }
}

#[derive(Clone, Default)]
pub struct Outcome {
    /// exit code; -1 when ended by a signal, -2 when the CLI hung
    pub code: i32,
    pub stdout: String,
    pub stderr: String,
    pub methods: Vec<String>,
    /// submitted transactions, and whether the node executed them
    pub sent: Vec<(Tx, Result<(), String>)>,
    /// undecodable submissions
    pub junk: usize,
    pub simulated: Vec<(Tx, bool)>,
    pub world: World,
    /// what was asked of the other node, and whom else it tried to reach
    pub elsewhere: Vec<String>,
}
impl Outcome {
    pub fn json(&self) -> Value {
        serde_json::from_str(&self.stdout).unwrap_or(Value::Null)
    }
    pub fn tail(&self) -> String {
        let e = self.stderr.trim();
        let e = e.lines().last().unwrap_or("").to_string();
        format!("exit {}; stdout {:?}; stderr {:?}; requests {:?}", self.code, self.stdout.chars().take(300).collect::<String>(), e.chars().take(300).collect::<String>(), self.methods)
    }
}

pub const HASH: [u8; 32] = [9; 32];
/// A valid blockhash other than the latest.
pub const OLD_HASH: [u8; 32] = [8; 32];
pub fn hash_str(h: &[u8; 32]) -> String {
    bs58::encode(h).into_string()
}

struct Node<'a> {
    svm: &'a mut Svm,
    plan: Plan,
    out: Outcome,
    landed: Vec<(String, Result<(), String>)>,
    polls: u8,
    hashes: Vec<[u8; 32]>,
}

impl Node<'_> {
    fn account(&self, k: &str, p: &Value) -> Value {
        let Ok(k) = k.parse::<Pubkey>() else { return Value::Null };
        let w = match &self.plan.processed {
            Some(w) if p["commitment"] == "processed" => &w.0,
            _ => &self.out.world,
        };
        let Some(a) = w.get(&k).cloned().or_else(|| self.svm.program_account(&k)) else { return Value::Null };
        json!({"data": [B64.encode(&a.data), "base64"], "executable": a.executable, "lamports": a.lamports,
               "owner": a.owner.to_string(), "rentEpoch": 0, "space": a.data.len()})
    }
    fn tx(&self, p: &Value) -> Option<Tx> {
        let s = p[0].as_str()?;
        let b = match p[1]["encoding"].as_str() {
            Some("base64") => B64.decode(s).ok()?,
            _ => bs58::decode(s).into_vec().ok()?,
        };
        Tx::decode(&b)
    }
    fn exec(&mut self, t: &Tx) -> Exec {
        let called: Vec<Pubkey> = t.ixs.iter().map(|i| i.program_id).collect();
        let ixs: Vec<Instruction> = t
            .ixs
            .iter()
            .cloned()
            .map(|mut i| {
                for m in &mut i.accounts {
                    if called.contains(&m.pubkey) || self.svm.is_program(&m.pubkey) {
                        m.is_writable = false;
                    }
                }
                i
            })
            .collect();
        let payer = self.out.world.get(&t.keys[0].0).is_some_and(|a| a.owner == SYS && a.data.is_empty());
        if !payer {
            return Exec { res: Err("no fee payer".into()), world: self.out.world.clone(), return_data: vec![] };
        }
        let w = self.out.world.clone();
        self.svm.exec(&w, &ixs)
    }
    fn ctx(v: Value) -> Result<Value, Value> {
        Ok(json!({"context": {"slot": 100, "apiVersion": "3.1.0"}, "value": v}))
    }
    fn call(&mut self, m: &str, p: &Value) -> Result<Value, Value> {
        match m {
            "getAccountInfo" => Node::ctx(self.account(p[0].as_str().unwrap_or(""), &p[1])),
            "getMultipleAccounts" => {
                let v: Vec<Value> = p[0].as_array().into_iter().flatten().map(|k| self.account(k.as_str().unwrap_or(""), &p[1])).collect();
                Node::ctx(v.into())
            }
            "getBalance" => {
                let k: Pubkey = p[0].as_str().unwrap_or("").parse().unwrap_or_default();
                Node::ctx(self.out.world.lamports(&k).into())
            }
            "getLatestBlockhash" if self.plan.processed.is_some() && p[0]["commitment"] == "processed" => Node::ctx(json!({"blockhash": hash_str(&[66; 32]), "lastValidBlockHeight": 200})),
            "getLatestBlockhash" if self.plan.fresh => {
                let h = [100 + self.hashes.len() as u8; 32];
                self.hashes.push(h);
                Node::ctx(json!({"blockhash": hash_str(&h), "lastValidBlockHeight": 200}))
            }
            "getLatestBlockhash" => Node::ctx(json!({"blockhash": hash_str(&HASH), "lastValidBlockHeight": 200})),
            "isBlockhashValid" => {
                let ok = self.hashes.iter().any(|h| p[0] == hash_str(h)) && self.plan.land != Land::Lost;
                Node::ctx(ok.into())
            }
            "getMinimumBalanceForRentExemption" => {
                let w = self.out.world.clone();
                Ok(self.svm.rent_in(&w, p[0].as_u64().unwrap_or(0) as usize).into())
            }
            "getFeeForMessage" => Node::ctx(json!(5000)),
            "getSlot" | "getBlockHeight" | "getTransactionCount" => Ok(json!(100)),
            "getVersion" => Ok(json!({"solana-core": "3.1.0", "feature-set": 1})),
            "getHealth" => Ok(json!("ok")),
            "getGenesisHash" => Ok(json!(hash_str(&[1; 32]))),
            "getEpochInfo" => Ok(json!({"absoluteSlot": 100, "blockHeight": 100, "epoch": self.out.world.epoch, "slotIndex": 1, "slotsInEpoch": 432000, "transactionCount": 1})),
            "simulateTransaction" => {
                let Some(t) = self.tx(p) else { return Err(json!({"code": -32602, "message": "invalid transaction"})) };
                let known = self.hashes.contains(&t.blockhash);
                let e = self.exec(&t);
                let mut ok = known && e.ok();
                let mut v = json!({"err": null, "logs": ["Program log: simulated"], "accounts": null, "unitsConsumed": 12345, "returnData": null, "innerInstructions": null});
                if !ok {
                    v["err"] = json!({"InstructionError": [0, {"Custom": 1}]});
                }
                match self.plan.sim {
                    Sim::Real => {}
                    Sim::Bare => {
                        v["logs"] = Value::Null;
                        v["unitsConsumed"] = Value::Null;
                    }
                    Sim::Fails => {
                        ok = false;
                        v["err"] = json!({"InstructionError": [0, {"Custom": 3}]});
                    }
                    Sim::FailsBare => {
                        ok = false;
                        v["err"] = json!("AccountNotFound");
                        v["logs"] = json!([]);
                        v["unitsConsumed"] = Value::Null;
                    }
                }
                self.out.simulated.push((t, ok));
                Node::ctx(v)
            }
            "sendTransaction" => {
                let Some(t) = self.tx(p) else {
                    self.out.junk += 1;
                    return Err(json!({"code": -32602, "message": "invalid transaction"}));
                };
                if !t.signed() {
                    self.out.sent.push((t, Err("not signed by all".into())));
                    return Err(json!({"code": -32003, "message": "Transaction signature verification failure"}));
                }
                if !self.hashes.contains(&t.blockhash) {
                    self.out.sent.push((t, Err("unknown blockhash".into())));
                    return Err(json!({"code": -32002, "message": "Transaction simulation failed: Blockhash not found",
                        "data": {"err": "BlockhashNotFound", "logs": [], "accounts": null, "unitsConsumed": 0, "returnData": null, "innerInstructions": null}}));
                }
                // the same once more
                if self.landed.iter().any(|l| l.0 == t.id() && l.1.is_ok()) {
                    return Ok(t.id().into());
                }
                let e = self.exec(&t);
                if let Err(why) = e.res {
                    if p[1]["skipPreflight"] == true {
                        let id = t.id();
                        self.out.sent.push((t, Err(why)));
                        self.landed.push((id.clone(), Err("failed".into())));
                        return Ok(id.into());
                    }
                    self.out.sent.push((t, Err(why)));
                    return Err(json!({"code": -32002, "message": "Transaction simulation failed: Error processing Instruction 0: custom program error: 0x1",
                        "data": {"err": {"InstructionError": [0, {"Custom": 1}]}, "logs": ["Program log: failed"], "accounts": null, "unitsConsumed": 0, "returnData": null, "innerInstructions": null}}));
                }
                let id = t.id();
                match self.plan.land {
                    Land::Lands | Land::Late(_) | Land::Silent(_) => {
                        self.out.world = e.world;
                        self.out.sent.push((t, Ok(())));
                        self.landed.push((id.clone(), Ok(())));
                    }
                    Land::Fails => {
                        self.out.sent.push((t, Err("failed on chain".into())));
                        self.landed.push((id.clone(), Err("failed".into())));
                    }
                    Land::Lost => self.out.sent.push((t, Err("lost".into()))),
                    Land::Unconfirmed => {
                        self.out.sent.push((t, Err("not confirmed".into())));
                        self.landed.push((id.clone(), Ok(())));
                    }
                }
                Ok(id.into())
            }
            "getSignatureStatuses" => {
                self.polls = self.polls.saturating_add(1);
                let late = matches!(self.plan.land, Land::Late(n) if self.polls <= n);
                let (conf, how) = if self.plan.land == Land::Unconfirmed { (json!(0), "processed") } else { (Value::Null, "finalized") };
                let v: Vec<Value> = p[0]
                    .as_array()
                    .into_iter()
                    .flatten()
                    .map(|s| match self.landed.iter().find(|l| *s == l.0 && !late) {
                        None => Value::Null,
                        Some((_, r)) => {
                            let err = if r.is_ok() { Value::Null } else { json!({"InstructionError": [0, {"Custom": 7}]}) };
                            let st = if r.is_ok() { json!({"Ok": null}) } else { json!({"Err": err}) };
                            json!({"slot": 100, "confirmations": conf, "err": err, "status": st, "confirmationStatus": how})
                        }
                    })
                    .collect();
                Node::ctx(v.into())
            }
            _ => {
                eprintln!("the node does not know {m}");
                Err(json!({"code": -32601, "message": "Method not found"}))
            }
        }
    }

    /// The bytes to answer, or None to hang up.
    fn answer(&mut self, body: &[u8]) -> Option<Vec<u8>> {
        let http = |status: &str, b: String| {
            Some(format!("HTTP/1.1 {status}\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n{b}", b.len()).into_bytes())
        };
        let Ok(v) = serde_json::from_slice::<Value>(body) else { return http("400 Bad Request", "{}".into()) };
        let m = v["method"].as_str().unwrap_or("").to_string();
        let n = self.out.methods.len();
        self.out.methods.push(m.clone());
        let id = v["id"].clone();
        if self.out.sent.is_empty() {
            if let Some((_, w)) = self.plan.race.iter().find(|r| r.0 == n) {
                self.out.world = w.0.clone();
            }
        }
        let mut fault = self.plan.faults.iter().find(|f| f.0 == n).map(|f| f.1);
        let mut r = None;
        if fault.is_none() {
            let before = self.landed.len();
            r = Some(self.call(&m, &v["params"]));
            if let Land::Silent(f) = self.plan.land {
                fault = (self.landed.len() > before).then_some(f);
            }
        }
        if let Some(f) = fault {
            return match f {
                Fault::RpcError => http("200 OK", json!({"jsonrpc": "2.0", "id": id, "error": {"code": -32005, "message": "Node is unhealthy"}}).to_string()),
                Fault::Http500 => http("500 Internal Server Error", "oops".into()),
                Fault::Drop => None,
                Fault::Garbage => http("200 OK", "{\"jsonrpc\":".into()),
                Fault::Null => http("200 OK", json!({"jsonrpc": "2.0", "id": id, "result": null}).to_string()),
            };
        }
        let r = match r.unwrap() {
            Ok(r) => json!({"jsonrpc": "2.0", "id": id, "result": r}),
            Err(e) => json!({"jsonrpc": "2.0", "id": id, "error": e}),
        };
        http("200 OK", r.to_string())
    }
}

// ---- the CLI ------------------------------------------------------------------------
static N: AtomicUsize = AtomicUsize::new(0);
pub static RUNS: AtomicUsize = AtomicUsize::new(0);

/// Once enough is known to be wrong, no more is run: code -3, which no
/// judgement holds against the CLI.
static BAD: AtomicUsize = AtomicUsize::new(0);
pub fn stopped() -> bool {
    BAD.load(Ordering::Relaxed) > 300
}
pub fn count_bad<T, E>(r: &Result<T, E>) {
    if r.is_err() {
        BAD.fetch_add(1, Ordering::Relaxed);
    }
}

/// One worker's place: a port and a home directory with a configuration.
pub struct Place {
    listener: TcpListener,
    /// another node, which nobody should ask unless told to
    second: TcpListener,
    /// what the outside world is reached through
    proxy: TcpListener,
    pub dir: PathBuf,
    pub url: String,
    pub url2: String,
    proxy_url: String,
    keys: std::cell::RefCell<std::collections::BTreeSet<String>>,
}
impl Place {
    fn new() -> Place {
        let bind = || {
            let l = TcpListener::bind("127.0.0.1:0").unwrap();
            l.set_nonblocking(true).unwrap();
            let url = format!("http://127.0.0.1:{}", l.local_addr().unwrap().port());
            (l, url)
        };
        let ((listener, url), (second, url2), (proxy, proxy_url)) = (bind(), bind(), bind());
        let dir = std::env::temp_dir().join(format!("twcli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(dir.join(".config/solana/cli")).unwrap();
        let p = Place { listener, second, proxy, dir, url, url2, proxy_url, keys: Default::default() };
        std::fs::write(p.dir.join(".config/solana/cli/config.yml"), p.config(&p.url, "payer")).unwrap();
        for url in [&p.url[..], "http://127.0.0.1:9"] {
            for payer in ["payer", "other-payer"] {
                std::fs::write(p.dir.join(format!("config-{}-{payer}.yml", url == p.url)), p.config(url, payer)).unwrap();
            }
        }
        p.homes();
        p
    }
    /// Other home directories, and other configurations.
    fn homes(&self) {
        let conf = |h: &str, c: Option<String>| {
            let d = self.dir.join(h).join(".config/solana/cli");
            std::fs::create_dir_all(&d).unwrap();
            if let Some(c) = c {
                std::fs::write(d.join("config.yml"), c).unwrap();
            }
        };
        conf("home-second", Some(self.config(&self.url2, "other-payer")));
        conf("home-none", None);
        conf("home-id", None);
        std::fs::copy(self.file("other-payer"), self.dir.join("home-id/.config/solana/id.json")).unwrap();
        conf("home-bad", Some("{ json_rpc_url: [".into()));
        conf("home-nokey", Some(self.config(&self.url, "payer").replace("payer.json", "no-such-file.json")));
        std::fs::write(self.dir.join("not-a-key.json"), "[1,2,3]").unwrap();
        conf("home-badkey", Some(self.config(&self.url, "payer").replace("payer.json", "not-a-key.json")));
        std::fs::write(self.dir.join("config-second.yml"), self.config(&self.url2, "other-payer")).unwrap();
        std::fs::write(self.dir.join("config-bad.yml"), "{ json_rpc_url: [").unwrap();
        // the commitment is the CLI's own
        std::fs::write(self.dir.join("config-processed.yml"), self.config(&self.url, "payer").replace("commitment: confirmed", "commitment: processed")).unwrap();
    }
    /// A configuration file's content.
    pub fn config(&self, url: &str, payer: &str) -> String {
        format!("---\njson_rpc_url: \"{url}\"\nwebsocket_url: \"\"\nkeypair_path: {}\naddress_labels: {{}}\ncommitment: confirmed\n", self.file(payer))
    }
    /// Path of a file holding the named key pair.
    pub fn file(&self, name: &str) -> String {
        let p = self.dir.join(format!("{}.json", name.replace('/', "_")));
        if self.keys.borrow_mut().insert(name.into()) {
            let s = secret(name);
            let mut b = s.to_bytes().to_vec();
            b.extend(s.verifying_key().to_bytes());
            std::fs::write(&p, serde_json::to_string(&b).unwrap()).unwrap();
        }
        p.to_str().unwrap().into()
    }
}
impl Drop for Place {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
thread_local! {
    static PLACE: Place = Place::new();
}
pub fn place<R>(f: impl FnOnce(&Place) -> R) -> R {
    PLACE.with(f)
}

/// Runs the CLI with `args` against the world.
/// `@name` is replaced with the path of that key pair's file, `@url` and
/// `@dir` with the node's address and the scratch directory.
pub fn cli(svm: &mut Svm, world: &World, args: &[String], plan: &Plan) -> Outcome {
    if stopped() {
        return Outcome { code: -3, world: world.clone(), ..Default::default() };
    }
    RUNS.fetch_add(1, Ordering::Relaxed);
    place(|p| run_in(p, svm, world, args, plan))
}
fn run_in(p: &Place, svm: &mut Svm, world: &World, args: &[String], plan: &Plan) -> Outcome {
    let bin = std::env::var("TW_CLI").expect("TW_CLI");
    let args: Vec<String> = args
        .iter()
        .map(|a| match a.strip_prefix('@') {
            Some("url") => p.url.clone(),
            Some("url2") => p.url2.clone(),
            Some(n) => match n.strip_prefix("dir/") {
                Some(f) => p.dir.join(f).to_str().unwrap().into(),
                None => p.file(n),
            },
            None => a.clone(),
        })
        .collect();
    let (so, se) = (p.dir.join("stdout"), p.dir.join("stderr"));
    let mut child = Command::new(bin)
        .args(&args)
        .env_clear()
        .env("HOME", p.dir.join(plan.home))
        // nobody outside is reached, and who is tried is seen
        .envs(["HTTP_PROXY", "HTTPS_PROXY", "http_proxy", "https_proxy"].map(|v| (v, &p.proxy_url)))
        .env("NO_PROXY", "127.0.0.1")
        .env("PATH", "/usr/bin:/bin")
        .current_dir(&p.dir)
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&so).unwrap())
        .stderr(std::fs::File::create(&se).unwrap())
        .spawn()
        .expect("the CLI starts");
    let mut node = Node { svm, plan: plan.clone(), out: Outcome { world: world.clone(), ..Default::default() }, landed: vec![], polls: 0, hashes: vec![HASH, OLD_HASH] };
    let mut elsewhere = vec![];
    let mut others: Vec<(TcpStream, Vec<u8>)> = vec![];
    let start = Instant::now();
    let mut conns: Vec<(TcpStream, Vec<u8>)> = vec![];
    let code = loop {
        let mut busy = false;
        while let Ok((s, _)) = p.listener.accept() {
            s.set_nonblocking(true).unwrap();
            let _ = s.set_nodelay(true);
            conns.push((s, vec![]));
            busy = true;
        }
        for l in [&p.second, &p.proxy] {
            while let Ok((s, _)) = l.accept() {
                s.set_nonblocking(true).unwrap();
                others.push((s, vec![]));
                busy = true;
            }
        }
        // they say who was asked for, and hang up
        others.retain_mut(|(s, b)| {
            let mut buf = [0u8; 4096];
            match s.read(&mut buf) {
                Ok(n) if n > 0 => b.extend_from_slice(&buf[..n]),
                Err(e) if e.kind() == ErrorKind::WouldBlock => return true,
                _ => return false,
            }
            let Some(line) = String::from_utf8_lossy(b).split_once("\r\n").map(|l| l.0.to_string()) else { return true };
            let port = s.local_addr().unwrap().port();
            elsewhere.push(if p.url2.ends_with(&format!(":{port}")) { "second".into() } else { line });
            false
        });
        let mut i = 0;
        while i < conns.len() {
            let mut keep = true;
            let mut buf = [0u8; 16384];
            match conns[i].0.read(&mut buf) {
                Ok(0) => keep = false,
                Ok(n) => {
                    busy = true;
                    conns[i].1.extend_from_slice(&buf[..n]);
                    while let Some((len, body)) = request(&conns[i].1) {
                        conns[i].1.drain(..len);
                        match node.answer(&body) {
                            Some(a) => {
                                let _ = conns[i].0.set_nonblocking(false);
                                let _ = conns[i].0.write_all(&a);
                                let _ = conns[i].0.set_nonblocking(true);
                            }
                            None => {
                                keep = false;
                                break;
                            }
                        }
                    }
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => {}
                Err(_) => keep = false,
            }
            if keep {
                i += 1;
            } else {
                conns.remove(i);
            }
        }
        if !busy {
            if let Some(s) = child.try_wait().unwrap() {
                break s.code().unwrap_or(-1);
            }
            if start.elapsed() > Duration::from_secs(plan.limit) {
                let _ = child.kill();
                let _ = child.wait();
                break -2;
            }
            std::thread::sleep(Duration::from_micros(150));
        }
    };
    drop(conns);
    let mut out = node.out;
    out.code = code;
    out.elsewhere = elsewhere;
    out.stdout = std::fs::read_to_string(&so).unwrap_or_default();
    out.stderr = std::fs::read_to_string(&se).unwrap_or_default();
    out
}
/// A complete request in the buffer: its length and its body.
fn request(b: &[u8]) -> Option<(usize, Vec<u8>)> {
    let h = b.windows(4).position(|w| w == b"\r\n\r\n")? + 4;
    let head = String::from_utf8_lossy(&b[..h]).to_ascii_lowercase();
    let n: usize = head.lines().find_map(|l| l.strip_prefix("content-length:"))?.trim().parse().ok()?;
    (b.len() >= h + n).then(|| (h + n, b[h..h + n].to_vec()))
}
