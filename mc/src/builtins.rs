//! Programs of the environment, written natively: transfer hook, third-party
//! metadata programs, and malicious programs.
use {
    crate::core::key,
    solana_instruction::{AccountMeta, Instruction},
    solana_instruction_error::InstructionError,
    solana_program_runtime::{declare_process_instruction, invoke_context::{BuiltinFunctionWithContext, InvokeContext}},
    solana_pubkey::Pubkey,
    std::cell::RefCell,
};

#[derive(Clone, Debug, PartialEq)]
pub struct Seen {
    pub program: Pubkey,
    pub accounts: Vec<(Pubkey, bool, bool)>,
    pub data: Vec<u8>,
}
thread_local! {
    pub static SEEN: RefCell<Vec<Seen>> = const { RefCell::new(vec![]) };
}
pub fn take_seen() -> Vec<Seen> {
    SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()))
}

pub fn hook() -> Pubkey {
    key("transfer-hook-program")
}
/// Third-party metadata program; obeys the metadata account's first byte.
pub fn meta_a() -> Pubkey {
    key("metadata-program-a")
}
pub fn meta_b() -> Pubkey {
    key("metadata-program-b")
}
/// Says yes to everything and does nothing.
pub fn evil() -> Pubkey {
    key("evil-program")
}

pub const ALL: &[(fn() -> Pubkey, &str, BuiltinFunctionWithContext)] = &[
    (hook, "hook", HookEntry::vm),
    (meta_a, "meta_a", MetaEntry::vm),
    (meta_b, "meta_b", MetaEntry::vm),
    (evil, "evil", EvilEntry::vm),
];

fn record(ic: &InvokeContext) -> Result<Seen, InstructionError> {
    let c = ic.transaction_context.get_current_instruction_context()?;
    let n = c.get_number_of_instruction_accounts();
    let mut accounts = vec![];
    for i in 0..n {
        accounts.push((
            *c.get_key_of_instruction_account(i)?,
            c.is_instruction_account_signer(i)?,
            c.is_instruction_account_writable(i)?,
        ));
    }
    let s = Seen { program: *c.get_program_key()?, accounts, data: c.get_instruction_data().to_vec() };
    SEEN.with(|v| v.borrow_mut().push(s.clone()));
    Ok(s)
}

fn data_of(ic: &InvokeContext, i: u16) -> Result<Vec<u8>, InstructionError> {
    let c = ic.transaction_context.get_current_instruction_context()?;
    let a = c.try_borrow_instruction_account(i)?;
    Ok(a.get_data().to_vec())
}

// Transfer hook: rejects when any extra account holds a first byte of 0xff;
// counts itself in each extra account it may write and owns.
declare_process_instruction!(HookEntry, 1, |invoke_context| {
    let s = record(invoke_context)?;
    for i in 5..s.accounts.len() as u16 {
        let d = data_of(invoke_context, i)?;
        if d.first() == Some(&0xff) {
            return Err(InstructionError::Custom(0xbad));
        }
        let c = invoke_context.transaction_context.get_current_instruction_context()?;
        let mut a = c.try_borrow_instruction_account(i)?;
        if a.is_writable() && *a.get_owner() == hook() && !d.is_empty() {
            let mut d = d;
            d[0] = d[0].wrapping_add(1);
            a.set_data_from_slice(&d)?;
        }
    }
    Ok(())
});

pub const EMIT: u8 = 0;
pub const SILENT: u8 = 1;
pub const FAIL: u8 = 2;
pub const VIA_OTHER: u8 = 3;

// Metadata program: byte 0 of the account selects the behaviour, the rest is
// what it emits.
declare_process_instruction!(MetaEntry, 1, |invoke_context| {
    let s = record(invoke_context)?;
    let d = data_of(invoke_context, 0)?;
    let Some((mode, rest)) = d.split_first() else { return Err(InstructionError::InvalidAccountData) };
    match *mode {
        EMIT => {}
        SILENT => return Ok(()),
        VIA_OTHER if s.program == meta_a() => {
            // another program sets the return data
            let ix = Instruction {
                program_id: meta_b(),
                accounts: vec![AccountMeta::new_readonly(s.accounts[0].0, false)],
                data: s.data.clone(),
            };
            return invoke_context.native_invoke(ix, &[]);
        }
        VIA_OTHER => {}
        _ => return Err(InstructionError::Custom(0xfa11)),
    }
    invoke_context.transaction_context.set_return_data(s.program, rest.to_vec())
});

declare_process_instruction!(EvilEntry, 1, |invoke_context| {
    record(invoke_context)?;
    Ok(())
});
