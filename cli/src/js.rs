//! The JavaScript client, run in a process per thread.
use {
    base64::{prelude::BASE64_STANDARD as B64, Engine},
    serde_json::{json, Map, Value},
    solana_instruction::{AccountMeta, Instruction},
    solana_pubkey::Pubkey,
    std::{
        cell::RefCell,
        io::{BufRead, BufReader, Write},
        process::{Child, ChildStdin, ChildStdout, Command, Stdio},
        sync::atomic::{AtomicU64, Ordering::Relaxed},
    },
    twmc::core::*,
};

pub static CALLS: AtomicU64 = AtomicU64::new(0);
/// Calls that needed something of a dependency that has no stand-in.
pub static UNMODELLED: AtomicU64 = AtomicU64::new(0);

struct Js {
    child: Child,
    to: Option<ChildStdin>,
    from: BufReader<ChildStdout>,
}
impl Js {
    fn start() -> Js {
        let mut child = Command::new("node")
            .arg(std::env::var("TW_JS").expect("TW_JS"))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("node");
        let to = child.stdin.take();
        let from = BufReader::new(child.stdout.take().unwrap());
        Js { child, to, from }
    }
}
impl Drop for Js {
    fn drop(&mut self) {
        self.to.take();
        let _ = self.child.wait();
    }
}
thread_local!(static JS: RefCell<Option<Js>> = const { RefCell::new(None) });

#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    Ok(Value),
    /// refused, with this message
    Err(String),
    Unmodelled(String),
}
impl Ans {
    pub fn ok(&self) -> Option<&Value> {
        match self {
            Ans::Ok(v) => Some(v),
            _ => None,
        }
    }
}

fn ledger(w: &World) -> Value {
    let mut m: Map<String, Value> = w
        .acc
        .iter()
        .map(|(k, a)| (k.to_string(), json!({"lamports": a.lamports.to_string(), "owner": a.owner.to_string(), "data": B64.encode(&a.data), "executable": a.executable})))
        .collect();
    for p in [TW, TOKEN, T22, ATA, MPL, SYS] {
        m.insert(p.to_string(), json!({"lamports": "1", "owner": "BPFLoaderUpgradeab1e11111111111111111111111", "data": B64.encode([0; 36]), "executable": true}));
    }
    Value::Object(m)
}
/// One call: the answer, and how many requests it made of the node.
pub fn call(svm: &mut Svm, w: Option<&World>, f: &str, args: Value, fault: Option<usize>) -> (Ans, usize) {
    CALLS.fetch_add(1, Relaxed);
    let mut req = json!({"fn": f, "args": args, "ledger": {}, "rent": "0"});
    if let Some(w) = w {
        req["ledger"] = ledger(w);
        req["rent"] = (svm.rent_in(w, 0) / 128).to_string().into();
    }
    if let Some(n) = fault {
        req["fault"] = n.into();
    }
    let line = JS.with_borrow_mut(|js| {
        let js = js.get_or_insert_with(Js::start);
        let mut s = req.to_string();
        s.push('\n');
        js.to.as_mut().unwrap().write_all(s.as_bytes()).unwrap();
        let mut line = String::new();
        js.from.read_line(&mut line).unwrap();
        line
    });
    let Ok(v) = serde_json::from_str::<Value>(&line) else {
        // a crash of the client itself
        JS.with_borrow_mut(|js| *js = None);
        return (Ans::Err("the client crashed".into()), 0);
    };
    let asked = v["asked"].as_u64().unwrap_or(0) as usize;
    if let Some(s) = v["unmodelled"].as_str() {
        if UNMODELLED.fetch_add(1, Relaxed) == 0 {
            eprintln!("NOTE: {s}: calls that use it are not decided");
        }
        return (Ans::Unmodelled(s.into()), asked);
    }
    if let Some(s) = v["err"].as_str() {
        return (Ans::Err(s.into()), asked);
    }
    (Ans::Ok(v["ok"].clone()), asked)
}

// ---- values ---------------------------------------------------------------------
pub fn big(n: impl ToString) -> Value {
    json!({"$n": n.to_string()})
}
pub fn bytes(b: &[u8]) -> Value {
    json!({"$b": B64.encode(b)})
}
pub fn pk(k: &Pubkey) -> Value {
    k.to_string().into()
}
pub fn signer_of(k: &Pubkey) -> Value {
    json!({"$s": k.to_string()})
}
/// The same with its key at hand.
pub fn key_of(k: &Pubkey) -> Value {
    json!({"$k": k.to_string()})
}
pub fn rpc() -> Value {
    json!({"$rpc": true})
}
pub fn bytes_of(v: &Value) -> Option<Vec<u8>> {
    B64.decode(v["$b"].as_str()?).ok()
}
pub fn num_of(v: &Value) -> Option<u64> {
    v["$n"].as_str()?.parse().ok()
}
pub fn pk_of(v: &Value) -> Option<Pubkey> {
    v.as_str()?.parse().ok()
}
/// An instruction as the client returns it. A signer must come with what signs.
pub fn ix_of(v: &Value) -> Option<Instruction> {
    let accounts = v["accounts"]
        .as_array()?
        .iter()
        .map(|a| {
            let role = a["role"].as_u64().filter(|r| *r < 4)?;
            let k = pk_of(&a["address"])?;
            match &a["signer"] {
                Value::Null if role >= 2 => return None,
                Value::Null => {}
                s if pk_of(&s["$s"]) != Some(k) || role < 2 => return None,
                _ => {}
            }
            Some(AccountMeta { pubkey: k, is_signer: role >= 2, is_writable: role & 1 == 1 })
        })
        .collect::<Option<Vec<_>>>()?;
    Some(Instruction { program_id: pk_of(&v["programAddress"])?, accounts, data: bytes_of(&v["data"])? })
}
pub fn ixs_of(v: &Value) -> Option<Vec<Instruction>> {
    v.as_array()?.iter().map(ix_of).collect()
}
/// Where two lists of instructions first differ.
pub fn differ(got: &[Instruction], want: &[Instruction]) -> Option<String> {
    if got.len() != want.len() {
        return Some(format!("{} instructions instead of {}", got.len(), want.len()));
    }
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        if a.program_id != b.program_id {
            return Some(format!("instruction {i} calls {} instead of {}", name_of(&a.program_id), name_of(&b.program_id)));
        }
        if a.data != b.data {
            return Some(format!("instruction {i} has data {} instead of {}", hex(&a.data), hex(&b.data)));
        }
        let show = |m: Option<&AccountMeta>| m.map_or("nothing".into(), |m| format!("{}{}{}", name_of(&m.pubkey), if m.is_signer { " signer" } else { "" }, if m.is_writable { " writable" } else { "" }));
        for j in 0..a.accounts.len().max(b.accounts.len()) {
            if a.accounts.get(j) != b.accounts.get(j) {
                return Some(format!("instruction {i} account {j} is {} instead of {}", show(a.accounts.get(j)), show(b.accounts.get(j))));
            }
        }
    }
    None
}
