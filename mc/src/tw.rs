//! Token Wrap instructions, encoded from their documentation (not with /repo's
//! builders), and the reference semantics.
use {
    crate::{core::*, tok::*},
    solana_instruction::{AccountMeta, Instruction},
    solana_pubkey::Pubkey,
};

fn ix(accounts: Vec<AccountMeta>, tag: u8, rest: &[u8]) -> Instruction {
    let mut data = vec![tag];
    data.extend_from_slice(rest);
    Instruction { program_id: TW, accounts, data }
}
pub fn create_mint(p: &Pair, idempotent: bool) -> Instruction {
    ix(vec![rw(&p.wmint), rw(&p.backptr), ro(&p.umint), ro(&SYS), ro(&p.wprog)], 0, &[idempotent as u8])
}
/// An authority as passed: the account and its trailing multisig members.
#[derive(Clone, Debug)]
pub struct Auth {
    pub main: AccountMeta,
    pub members: Vec<AccountMeta>,
}
impl Auth {
    pub fn single(k: &Pubkey) -> Auth {
        Auth { main: signer(k), members: vec![] }
    }
    pub fn unsigned(k: &Pubkey) -> Auth {
        Auth { main: ro(k), members: vec![] }
    }
    pub fn multi(k: &Pubkey, members: &[Pubkey]) -> Auth {
        Auth { main: ro(k), members: members.iter().map(signer).collect() }
    }
}
pub fn wrap(p: &Pair, src: &Pubkey, dst: &Pubkey, auth: &Auth, extra: &[AccountMeta], amount: u64) -> Instruction {
    let mut a = vec![
        rw(dst), rw(&p.wmint), ro(&p.auth), ro(&p.uprog), ro(&p.wprog), rw(src), ro(&p.umint), rw(&p.escrow), auth.main.clone(),
    ];
    a.extend(auth.members.iter().cloned());
    a.extend_from_slice(extra);
    ix(a, 1, &amount.to_le_bytes())
}
pub fn unwrap(p: &Pair, src: &Pubkey, dst: &Pubkey, auth: &Auth, extra: &[AccountMeta], amount: u64) -> Instruction {
    let mut a = vec![
        rw(&p.escrow), rw(dst), ro(&p.auth), ro(&p.umint), ro(&p.wprog), ro(&p.uprog), rw(src), rw(&p.wmint), auth.main.clone(),
    ];
    a.extend(auth.members.iter().cloned());
    a.extend_from_slice(extra);
    ix(a, 2, &amount.to_le_bytes())
}
pub fn close_stuck(p: &Pair, dest: &Pubkey) -> Instruction {
    ix(vec![rw(&p.escrow), rw(dest), ro(&p.umint), ro(&p.wmint), ro(&p.auth), ro(&T22)], 3, &[])
}
pub fn sync22(p: &Pair, src: Option<&Pubkey>, owner: Option<&Pubkey>) -> Instruction {
    let mut a = vec![rw(&p.wmint), ro(&p.auth), ro(&p.umint), ro(&T22)];
    a.extend(src.map(ro));
    a.extend(owner.map(ro));
    ix(a, 4, &[])
}
pub fn sync_spl(p: &Pair, src: Option<&Pubkey>, owner: Option<&Pubkey>) -> Instruction {
    let mut a = vec![rw(&mpl_of(&p.wmint)), rw(&p.auth), ro(&p.wmint), ro(&p.umint), ro(&MPL), ro(&SYS), ro(&RENT)];
    a.extend(src.map(ro));
    a.extend(owner.map(ro));
    ix(a, 5, &[])
}
pub fn set_canonical(umint: &Pubkey, authority: AccountMeta, program: &Pubkey) -> Instruction {
    ix(vec![authority, rw(&canon_of(umint)), ro(umint), ro(&SYS)], 6, program.as_ref())
}

// ---- reference semantics ----------------------------------------------------------
fn cpi_guarded(w: &World, acct: &Pubkey, authority: &Pubkey) -> bool {
    use spl_token_2022_interface::{
        extension::{cpi_guard::CpiGuard, BaseStateWithExtensions, PodStateWithExtensions},
        pod::PodAccount,
    };
    let Some(a) = w.get(acct) else { return false };
    if a.owner != T22 || !is_token_account(a) {
        return false;
    }
    let Ok(st) = PodStateWithExtensions::<PodAccount>::unpack(&a.data) else { return false };
    st.get_extension::<CpiGuard>().is_ok_and(|g| bool::from(g.lock_cpi)) && acct_owner(a) == *authority
}

/// What a wrap through the pair's own accounts must do: exactly a transfer to
/// the escrow by the token program, then a mint of what the escrow received.
pub fn spec_wrap(svm: &mut Svm, w: &World, p: &Pair, src: &Pubkey, dst: &Pubkey, auth: &Auth, extra: &[AccountMeta], amount: u64) -> Result<World, String> {
    if amount == 0 {
        return Err("zero amount".into());
    }
    if *src == p.escrow {
        return Err("source is the escrow".into());
    }
    let before = escrow_amount(w, p).ok_or("no escrow")?;
    if cpi_guarded(w, src, &auth.main.pubkey) {
        return Err("CPI guard".into());
    }
    let mut tail = auth.members.clone();
    tail.extend_from_slice(extra);
    let e = svm.exec(w, &[transfer_checked(&p.uprog, src, &p.umint, &p.escrow, auth.main.clone(), &tail, amount, decimals(w, &p.umint))]);
    e.res.map_err(|e| format!("transfer: {e}"))?;
    let net = escrow_amount(&e.world, p).ok_or("escrow gone")? - before;
    let fee = fee_of(w, &p.umint, amount);
    if net != amount - fee {
        return Err(format!("MODEL: escrow got {net}, fee definition says {}", amount - fee));
    }
    let e = svm.exec(&e.world, &[mint_to(&p.wprog, &p.wmint, dst, &p.auth, net)]);
    e.res.map_err(|e| format!("mint: {e}"))?;
    Ok(e.world)
}

pub fn spec_unwrap(svm: &mut Svm, w: &World, p: &Pair, src: &Pubkey, dst: &Pubkey, auth: &Auth, extra: &[AccountMeta], amount: u64) -> Result<World, String> {
    if amount == 0 {
        return Err("zero amount".into());
    }
    if *dst == p.escrow {
        return Err("recipient is the escrow".into());
    }
    if cpi_guarded(w, src, &auth.main.pubkey) {
        return Err("CPI guard".into());
    }
    let e = svm.exec(w, &[burn(&p.wprog, src, &p.wmint, auth.main.clone(), &auth.members, amount)]);
    e.res.map_err(|e| format!("burn: {e}"))?;
    let e = svm.exec(&e.world, &[transfer_checked(&p.uprog, &p.escrow, &p.umint, dst, signer(&p.auth), extra, amount, decimals(w, &p.umint))]);
    e.res.map_err(|e| format!("transfer: {e}"))?;
    Ok(e.world)
}

/// Balance of the escrow if it is one: a token account of the pair's unwrapped
/// mint owned by the pair's authority.
pub fn escrow_amount(w: &World, p: &Pair) -> Option<u64> {
    let a = w.get(&p.escrow)?;
    (is_token_account(a) && acct_owner(a) == p.auth).then(|| amount(w, &p.escrow))?
}
