//! The execution substrate: worlds (ledgers) and the SVM that runs the real
//! programs on them.
use {
    mollusk_svm::{program::Builtin, InvocationInspectCallback, Mollusk},
    solana_account::Account,
    solana_instruction::Instruction,
    solana_program_runtime::invoke_context::InvokeContext,
    solana_pubkey::Pubkey,
    solana_transaction_context::InstructionAccount,
    std::{
        cell::RefCell,
        collections::BTreeMap,
        hash::Hasher,
        rc::Rc,
        sync::{
            atomic::{AtomicUsize, Ordering},
            Arc, Mutex,
        },
    },
};

pub const TW: Pubkey = Pubkey::from_str_const("TwRapQCDhWkZRrDaHfZGuHxkZ91gHDRkyuzNqeU5MgR");
pub const TOKEN: Pubkey = Pubkey::from_str_const("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
pub const T22: Pubkey = Pubkey::from_str_const("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");
pub const ATA: Pubkey = Pubkey::from_str_const("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
pub const MPL: Pubkey = Pubkey::from_str_const("metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s");
pub const SYS: Pubkey = Pubkey::from_str_const("11111111111111111111111111111111");
pub const RENT: Pubkey = Pubkey::from_str_const("SysvarRent111111111111111111111111111111111");

static NAMES: Mutex<BTreeMap<Pubkey, String>> = Mutex::new(BTreeMap::new());
thread_local! {
    static KEYS: RefCell<std::collections::HashMap<String, Pubkey>> = RefCell::default();
}
pub fn name_it(k: Pubkey, n: &str) {
    NAMES.lock().unwrap().insert(k, n.into());
}
pub fn name_of(k: &Pubkey) -> String {
    match NAMES.lock().unwrap().get(k) {
        Some(n) => n.clone(),
        None => k.to_string(),
    }
}
/// Deterministic named key.
pub fn key(name: &str) -> Pubkey {
    if let Some(k) = KEYS.with(|m| m.borrow().get(name).copied()) {
        return k;
    }
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new_with_keys(i, 7);
        h.write(name.as_bytes());
        out[i as usize * 8..][..8].copy_from_slice(&h.finish().to_le_bytes());
    }
    let k = Pubkey::new_from_array(out);
    KEYS.with(|m| m.borrow_mut().insert(name.into(), k));
    name_it(k, name);
    k
}

// ---- addresses, derived independently of /repo ------------------------------
pub fn wmint_of(umint: &Pubkey, wprog: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"mint", umint.as_ref(), wprog.as_ref()], &TW).0
}
pub fn auth_of(wmint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"authority", wmint.as_ref()], &TW).0
}
pub fn backptr_of(wmint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"backpointer", wmint.as_ref()], &TW).0
}
pub fn canon_of(umint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"canonical_pointer", umint.as_ref()], &TW).0
}
pub fn ata_of(owner: &Pubkey, mint: &Pubkey, prog: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[owner.as_ref(), prog.as_ref(), mint.as_ref()], &ATA).0
}
pub fn mpl_of(mint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"metadata", MPL.as_ref(), mint.as_ref()], &MPL).0
}

/// Unwrapped mints whose derived addresses together have every bump down to the
/// lowest found, and a few of unusual bytes.
pub fn odd_mints() -> &'static [Pubkey] {
    static M: std::sync::OnceLock<Vec<Pubkey>> = std::sync::OnceLock::new();
    M.get_or_init(|| {
        let bump = |s: &[&[u8]], p: &Pubkey| {
            let (k, b) = Pubkey::find_program_address(s, p);
            (k, b)
        };
        let mut seen = std::collections::BTreeSet::new();
        let mut out = vec![Pubkey::new_from_array([0xff; 32]), Pubkey::new_from_array(std::array::from_fn(|i| i as u8)), Pubkey::new_from_array([1; 32])];
        for i in 0..700 {
            let u = key(&format!("bump-{i}"));
            let mut v = vec![bump(&[b"canonical_pointer", u.as_ref()], &TW).1, bump(&[b"metadata", MPL.as_ref(), u.as_ref()], &MPL).1];
            for wp in [TOKEN, T22] {
                let (wm, b) = bump(&[b"mint", u.as_ref(), wp.as_ref()], &TW);
                let (au, c) = bump(&[b"authority", wm.as_ref()], &TW);
                v.extend([b, c, bump(&[b"backpointer", wm.as_ref()], &TW).1, bump(&[b"metadata", MPL.as_ref(), wm.as_ref()], &MPL).1]);
                for up in [TOKEN, T22] {
                    v.push(bump(&[au.as_ref(), up.as_ref(), u.as_ref()], &ATA).1);
                }
            }
            let new: Vec<_> = v.into_iter().enumerate().filter(|x| !seen.contains(x)).collect();
            if !new.is_empty() {
                seen.extend(new);
                out.push(u);
            }
        }
        out
    })
}

/// The addresses of one (unwrapped mint, unwrapped program, wrapped program).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Pair {
    pub umint: Pubkey,
    pub uprog: Pubkey,
    pub wprog: Pubkey,
    pub wmint: Pubkey,
    pub auth: Pubkey,
    pub backptr: Pubkey,
    pub escrow: Pubkey,
}
impl Pair {
    pub fn new(umint: Pubkey, uprog: Pubkey, wprog: Pubkey) -> Pair {
        let wmint = wmint_of(&umint, &wprog);
        let auth = auth_of(&wmint);
        let n = |k: Pubkey| k.to_string()[..6].to_string();
        let t = format!("{}/{}", name_of(&umint), n(wprog));
        name_it(wmint, &format!("wmint({t})"));
        name_it(auth, &format!("auth({t})"));
        name_it(backptr_of(&wmint), &format!("backptr({t})"));
        name_it(ata_of(&auth, &umint, &uprog), &format!("escrow({t}/{})", n(uprog)));
        Pair {
            umint,
            uprog,
            wprog,
            wmint,
            auth,
            backptr: backptr_of(&wmint),
            escrow: ata_of(&auth, &umint, &uprog),
        }
    }
}

// ---- worlds ------------------------------------------------------------------
#[derive(Clone, Default)]
pub struct World {
    pub acc: BTreeMap<Pubkey, Arc<Account>>,
    pub epoch: u64,
    /// lamports per byte-year, when not the default
    pub rent: Option<u64>,
}
impl World {
    pub fn get(&self, k: &Pubkey) -> Option<&Account> {
        self.acc.get(k).map(|a| &**a)
    }
    pub fn set(&mut self, k: Pubkey, a: Account) {
        if a.lamports == 0 {
            self.acc.remove(&k);
        } else {
            self.acc.insert(k, Arc::new(a));
        }
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.get(k).map_or(0, |a| a.lamports)
    }
    pub fn data(&self, k: &Pubkey) -> &[u8] {
        self.get(k).map_or(&[], |a| &a.data)
    }
    pub fn fund(&mut self, k: Pubkey, lamports: u64) {
        let mut a = self.get(&k).cloned().unwrap_or_default();
        a.lamports = lamports;
        self.set(k, a);
    }
    pub fn edit(&mut self, k: &Pubkey, f: impl FnOnce(&mut Account)) {
        let mut a = self.get(k).cloned().unwrap_or_default();
        f(&mut a);
        self.set(*k, a);
    }
    pub fn hash(&self) -> u128 {
        let mut out = 0u128;
        for s in [0x9e37u64, 0x79b9] {
            #[allow(deprecated)]
            let mut h = std::hash::SipHasher::new_with_keys(s, !s);
            h.write_u64(self.epoch);
            h.write_u64(self.rent.unwrap_or(u64::MAX));
            for (k, a) in &self.acc {
                h.write(k.as_ref());
                h.write_u64(a.lamports);
                h.write(a.owner.as_ref());
                h.write_u64(a.data.len() as u64);
                h.write(&a.data);
                h.write_u8(a.executable as u8);
            }
            out = out << 64 | h.finish() as u128;
        }
        out
    }
}

/// First differences between two worlds, written out.
pub fn diff(a: &World, b: &World) -> Vec<String> {
    let mut out = vec![];
    if a.epoch != b.epoch {
        out.push(format!("epoch {} -> {}", a.epoch, b.epoch));
    }
    let keys: std::collections::BTreeSet<_> = a.acc.keys().chain(b.acc.keys()).collect();
    for k in keys {
        let d = Account::default();
        let (x, y) = (a.get(k).unwrap_or(&d), b.get(k).unwrap_or(&d));
        if x == y {
            continue;
        }
        let mut s = format!("{}:", name_of(k));
        if x.lamports != y.lamports {
            s += &format!(" lamports {} -> {}", x.lamports, y.lamports);
        }
        if x.owner != y.owner {
            s += &format!(" owner {} -> {}", x.owner, y.owner);
        }
        if x.data != y.data {
            if x.data.len() != y.data.len() {
                s += &format!(" len {} -> {}", x.data.len(), y.data.len());
            }
            let n = x.data.len().min(y.data.len());
            if let Some(i) = (0..n).find(|&i| x.data[i] != y.data[i]) {
                let j = (i + 16).min(n);
                s += &format!(" data[{i}..] {} -> {}", hex(&x.data[i..j]), hex(&y.data[i..j]));
            }
        }
        if x.executable != y.executable {
            s += " executable changed";
        }
        out.push(s);
    }
    out
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

// ---- CPI trace ----------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Call {
    pub depth: usize,
    pub program: Pubkey,
    /// (key, signer, writable)
    pub accounts: Vec<(Pubkey, bool, bool)>,
    pub data: Vec<u8>,
}
#[derive(Default)]
struct Tracer {
    on: RefCell<bool>,
    calls: RefCell<Vec<Call>>,
}
struct TracerRef(Rc<Tracer>);
impl InvocationInspectCallback for TracerRef {
    fn before_invocation(
        &self,
        _: &Mollusk,
        _: &Pubkey,
        _: &[u8],
        _: &[InstructionAccount],
        _: &InvokeContext,
    ) {
    }
    fn after_invocation(&self, _: &Mollusk, ic: &InvokeContext, _: bool) {
        if !*self.0.on.borrow() {
            return;
        }
        let tc = &ic.transaction_context;
        let mut v = self.0.calls.borrow_mut();
        v.clear();
        for i in 0..tc.get_instruction_trace_length() {
            let Ok(c) = tc.get_instruction_context_at_index_in_trace(i) else { continue };
            let Ok(program) = c.get_program_key() else { continue };
            let n = c.get_number_of_instruction_accounts();
            v.push(Call {
                depth: c.get_stack_height(),
                program: *program,
                accounts: (0..n)
                    .filter_map(|j| {
                        Some((
                            *c.get_key_of_instruction_account(j).ok()?,
                            c.is_instruction_account_signer(j).unwrap_or(false),
                            c.is_instruction_account_writable(j).unwrap_or(false),
                        ))
                    })
                    .collect(),
                data: c.get_instruction_data().to_vec(),
            });
        }
    }
}

// ---- the SVM ------------------------------------------------------------------
pub struct Env {
    pub elf: Vec<u8>,
    pub t22_elf: Vec<u8>,
    pub mpl_elf: Vec<u8>,
}
impl Env {
    pub fn load() -> Env {
        let p = std::env::var("TW_ELF").expect("TW_ELF: the program as bin/elf.sh built it");
        let rd = |p: &str| {
            std::fs::read(p).unwrap_or_else(|e| {
                eprintln!("cannot read {p}: {e}");
                std::process::exit(2)
            })
        };
        Env {
            elf: rd(&p),
            // C27 runs with a build that has the confidential operations
            t22_elf: rd(&std::env::var("TW_T22").unwrap_or("/verif/fixtures/spl_token_2022.so".into())),
            mpl_elf: rd("/verif/fixtures/mpl_token_metadata.so"),
        }
    }
}

pub struct Exec {
    pub res: Result<(), String>,
    pub world: World,
    pub return_data: Vec<u8>,
}
impl Exec {
    pub fn ok(&self) -> bool {
        self.res.is_ok()
    }
}

pub struct Svm {
    pub m: Mollusk,
    tracer: Rc<Tracer>,
    progs: BTreeMap<Pubkey, Account>,
    pub execs: u64,
    rate: u64,
}

impl Svm {
    pub fn new(env: &Env) -> Svm {
        let mut m = Mollusk::default();
        m.logger = None;
        let l3 = solana_sdk_ids::bpf_loader_upgradeable::id();
        m.add_program_with_loader_and_elf(&TW, &l3, &env.elf);
        m.add_program_with_loader_and_elf(&T22, &l3, &env.t22_elf);
        m.add_program_with_loader_and_elf(&MPL, &l3, &env.mpl_elf);
        mollusk_svm_programs_token::token::add_program(&mut m);
        mollusk_svm_programs_token::associated_token::add_program(&mut m);
        let mut progs = BTreeMap::new();
        progs.insert(TW, mollusk_svm::program::create_program_account_loader_v3(&TW));
        progs.insert(T22, mollusk_svm::program::create_program_account_loader_v3(&T22));
        progs.insert(MPL, mollusk_svm::program::create_program_account_loader_v3(&MPL));
        progs.insert(TOKEN, mollusk_svm_programs_token::token::account());
        progs.insert(ATA, mollusk_svm_programs_token::associated_token::account());
        let (k, a) = mollusk_svm::program::keyed_account_for_system_program();
        progs.insert(k, a);
        let (k, a) = m.sysvars.keyed_account_for_rent_sysvar();
        progs.insert(k, a);
        for b in crate::builtins::ALL {
            let id = (b.0)();
            progs.insert(id, mollusk_svm::program::create_keyed_account_for_builtin_program(&id, b.1).1);
            m.program_cache.add_builtin(Builtin { program_id: id, name: b.1, entrypoint: b.2 });
        }
        let tracer = Rc::new(Tracer::default());
        m.invocation_inspect_callback = Box::new(TracerRef(tracer.clone()));
        #[allow(deprecated)]
        let rate = m.sysvars.rent.lamports_per_byte_year;
        Svm { m, tracer, progs, execs: 0, rate }
    }

    /// The rent-exempt minimum on the usual cluster.
    #[allow(deprecated)]
    pub fn rent(&self, len: usize) -> u64 {
        let mut r = self.m.sysvars.rent.clone();
        r.lamports_per_byte_year = self.rate;
        r.minimum_balance(len)
    }
    /// The rent-exempt minimum in a world's cluster.
    pub fn rent_in(&mut self, w: &World, len: usize) -> u64 {
        self.set_rent(w);
        self.m.sysvars.rent.minimum_balance(len)
    }
    #[allow(deprecated)]
    fn set_rent(&mut self, w: &World) {
        let r = w.rent.unwrap_or(self.rate);
        if self.m.sysvars.rent.lamports_per_byte_year != r {
            self.m.sysvars.rent.lamports_per_byte_year = r;
            let (k, a) = self.m.sysvars.keyed_account_for_rent_sysvar();
            self.progs.insert(k, a);
        }
    }
    /// Deploys one more program.
    pub fn deploy(&mut self, id: Pubkey, elf: &[u8]) {
        self.m.add_program_with_loader_and_elf(&id, &solana_sdk_ids::bpf_loader_upgradeable::id(), elf);
        self.progs.insert(id, mollusk_svm::program::create_program_account_loader_v3(&id));
    }
    /// A program or sysvar account as a node shows it.
    pub fn program_account(&self, k: &Pubkey) -> Option<Account> {
        self.progs.get(k).cloned()
    }
    pub fn is_program(&self, k: &Pubkey) -> bool {
        self.progs.contains_key(k)
    }

    pub fn exec(&mut self, w: &World, ixs: &[Instruction]) -> Exec {
        self.execs += 1;
        let mut keys: Vec<Pubkey> = vec![];
        for ix in ixs {
            keys.push(ix.program_id);
            keys.extend(ix.accounts.iter().map(|m| m.pubkey));
        }
        keys.sort();
        keys.dedup();
        self.set_rent(w);
        let accounts: Vec<(Pubkey, Account)> = keys
            .iter()
            .map(|k| {
                let a = match self.progs.get(k) {
                    Some(p) if w.get(k).is_none() => p.clone(),
                    _ => w.get(k).cloned().unwrap_or_default(),
                };
                (*k, a)
            })
            .collect();
        self.m.sysvars.clock.epoch = w.epoch;
        let r = self.m.process_transaction_instructions(ixs, &accounts);
        let res = match &r.raw_result {
            Ok(()) => Ok(()),
            Err(e) => Err(format!("{e:?}")),
        };
        let mut world = w.clone();
        if res.is_ok() {
            for ((k, old), (k2, new)) in accounts.iter().zip(r.resulting_accounts) {
                debug_assert_eq!(*k, k2);
                if *old != new {
                    world.set(k2, new);
                }
            }
        }
        Exec { res, world, return_data: r.return_data }
    }

    /// As exec, with the full CPI trace.
    pub fn exec_traced(&mut self, w: &World, ixs: &[Instruction]) -> (Exec, Vec<Call>) {
        *self.tracer.on.borrow_mut() = true;
        let e = self.exec(w, ixs);
        *self.tracer.on.borrow_mut() = false;
        let calls = self.tracer.calls.borrow().clone();
        (e, calls)
    }

    /// Runs set-up instructions that must succeed.
    pub fn must(&mut self, w: &mut World, what: &str, ixs: &[Instruction]) {
        if let Err(e) = self.try_apply(w, ixs) {
            panic!("set-up step '{what}' failed: {e}");
        }
    }
    pub fn try_apply(&mut self, w: &mut World, ixs: &[Instruction]) -> Result<(), String> {
        let e = self.exec(w, ixs);
        if e.ok() {
            *w = e.world;
        }
        e.res
    }
}

// ---- parallel map --------------------------------------------------------------
pub fn threads() -> usize {
    std::env::var("TW_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map_or(8, |n| n.get())
    })
}

struct SendSvm(Svm);
// The Rcs inside never leave the Svm, and one thread at a time holds the Mutex.
unsafe impl Send for SendSvm {}

pub struct Pool {
    svms: Vec<Mutex<SendSvm>>,
}
impl Pool {
    pub fn new(env: &Env) -> Pool {
        Pool::with(env, &[])
    }
    pub fn with(env: &Env, more: &[(Pubkey, Vec<u8>)]) -> Pool {
        let make = || {
            let mut s = Svm::new(env);
            for (id, elf) in more {
                s.deploy(*id, elf);
            }
            SendSvm(s)
        };
        let make = &make;
        let svms = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads()).map(|_| s.spawn(move || make())).collect();
            hs.into_iter().map(|h| Mutex::new(h.join().unwrap())).collect()
        });
        Pool { svms }
    }
    pub fn execs(&self) -> u64 {
        self.svms.iter().map(|s| s.lock().unwrap().0.execs).sum()
    }
    pub fn one<R>(&self, f: impl FnOnce(&mut Svm) -> R) -> R {
        f(&mut self.svms[0].lock().unwrap().0)
    }
    /// Runs f on every item, on all cores, each with its own SVM; results in order.
    pub fn map<T: Sync, R: Send>(&self, items: &[T], f: impl Fn(&mut Svm, &T) -> R + Sync) -> Vec<R> {
        let next = AtomicUsize::new(0);
        let out = Mutex::new(Vec::<(usize, R)>::with_capacity(items.len()));
        let (next, out_, f) = (&next, &out, &f);
        std::thread::scope(|s| {
            for svm in self.svms.iter().take(items.len()) {
                s.spawn(move || {
                    let mut svm = svm.lock().unwrap();
                    let mut local = vec![];
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= items.len() {
                            break;
                        }
                        local.push((i, f(&mut svm.0, &items[i])));
                    }
                    out_.lock().unwrap().append(&mut local);
                });
            }
        });
        let mut v = out.into_inner().unwrap();
        v.sort_by_key(|x| x.0);
        v.into_iter().map(|x| x.1).collect()
    }
}
