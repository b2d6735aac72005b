//! Token fixtures: mints and accounts made by the token programs' own
//! initialisation instructions, plus readers and token instructions.
use {
    crate::core::*,
    solana_account::Account,
    solana_instruction::{AccountMeta, Instruction},
    solana_nullable::MaybeNull,
    solana_pubkey::Pubkey,
    spl_token_2022_interface::{
        extension::{
            self, transfer_fee::TransferFeeConfig, BaseStateWithExtensions, BaseStateWithExtensionsMut,
            ExtensionType, PodStateWithExtensions, PodStateWithExtensionsMut, StateWithExtensions,
        },
        instruction as ti,
        pod::{PodAccount, PodMint},
        state::{Account as TAcc, AccountState, Mint},
    },
    spl_token_metadata_interface::state::TokenMetadata,
};

pub fn mint_auth() -> Pubkey {
    key("mint-authority")
}
pub fn freeze_auth() -> Pubkey {
    key("freeze-authority")
}
pub fn fee_auth() -> Pubkey {
    key("fee-authority")
}
pub fn withdraw_auth() -> Pubkey {
    key("withdraw-authority")
}
pub fn perm_delegate() -> Pubkey {
    key("permanent-delegate")
}
pub fn close_auth() -> Pubkey {
    key("mint-close-authority")
}
pub fn pause_auth() -> Pubkey {
    key("pause-authority")
}
pub fn misc_auth() -> Pubkey {
    key("misc-authority")
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ext {
    Fee { older: (u16, u64), newer: (u16, u64), newer_epoch: u64 },
    Hook(Option<Pubkey>),
    PermDelegate,
    Close,
    Default { frozen: bool },
    Pausable { paused: bool },
    Interest,
    ScaledUi,
    NonTransferable,
    Confidential,
    ConfidentialFee,
    MetaPtr(Option<Pubkey>),
    GroupPtr,
    MemberPtr,
    PermissionedBurn,
}
impl Ext {
    pub fn fee(bps: u16, max: u64) -> Ext {
        Ext::Fee { older: (bps, max), newer: (bps, max), newer_epoch: 0 }
    }
    pub fn ty(&self) -> ExtensionType {
        match self {
            Ext::Fee { .. } => ExtensionType::TransferFeeConfig,
            Ext::Hook(_) => ExtensionType::TransferHook,
            Ext::PermDelegate => ExtensionType::PermanentDelegate,
            Ext::Close => ExtensionType::MintCloseAuthority,
            Ext::Default { .. } => ExtensionType::DefaultAccountState,
            Ext::Pausable { .. } => ExtensionType::Pausable,
            Ext::Interest => ExtensionType::InterestBearingConfig,
            Ext::ScaledUi => ExtensionType::ScaledUiAmount,
            Ext::NonTransferable => ExtensionType::NonTransferable,
            Ext::Confidential => ExtensionType::ConfidentialTransferMint,
            Ext::ConfidentialFee => ExtensionType::ConfidentialTransferFeeConfig,
            Ext::MetaPtr(_) => ExtensionType::MetadataPointer,
            Ext::GroupPtr => ExtensionType::GroupPointer,
            Ext::MemberPtr => ExtensionType::GroupMemberPointer,
            Ext::PermissionedBurn => ExtensionType::PermissionedBurn,
        }
    }
    fn init(&self, m: &Pubkey) -> Instruction {
        use extension::*;
        let a = Some(misc_auth());
        match self {
            Ext::Fee { older, .. } => transfer_fee::instruction::initialize_transfer_fee_config(
                &T22, m, Some(&fee_auth()), Some(&withdraw_auth()), older.0, older.1),
            Ext::Hook(p) => transfer_hook::instruction::initialize(&T22, m, a, *p),
            Ext::PermDelegate => ti::initialize_permanent_delegate(&T22, m, &perm_delegate()),
            Ext::Close => ti::initialize_mint_close_authority(&T22, m, Some(&close_auth())),
            Ext::Default { frozen } => default_account_state::instruction::initialize_default_account_state(
                &T22, m, &if *frozen { AccountState::Frozen } else { AccountState::Initialized }),
            Ext::Pausable { .. } => pausable::instruction::initialize(&T22, m, &pause_auth()),
            Ext::Interest => interest_bearing_mint::instruction::initialize(&T22, m, a, 500),
            Ext::ScaledUi => scaled_ui_amount::instruction::initialize(&T22, m, a, 1.5),
            Ext::NonTransferable => ti::initialize_non_transferable_mint(&T22, m),
            Ext::Confidential => confidential_transfer::instruction::initialize_mint(&T22, m, a, true, None),
            Ext::ConfidentialFee => confidential_transfer_fee::instruction::initialize_confidential_transfer_fee_config(
                &T22, m, a, &solana_zk_sdk_pod::encryption::elgamal::PodElGamalPubkey([7; 32])),
            Ext::MetaPtr(t) => metadata_pointer::instruction::initialize(&T22, m, a, t.filter(|t| *t != SYS)),
            Ext::GroupPtr => group_pointer::instruction::initialize(&T22, m, a, Some(*m)),
            Ext::MemberPtr => group_member_pointer::instruction::initialize(&T22, m, a, Some(*m)),
            Ext::PermissionedBurn => permissioned_burn::instruction::initialize(&T22, m, &misc_auth()),
        }
        .unwrap()
    }
}

#[derive(Clone, Debug)]
pub struct MintSpec {
    pub key: Pubkey,
    pub prog: Pubkey,
    pub decimals: u8,
    pub supply: u64,
    pub mint_auth: Option<Pubkey>,
    pub freeze: Option<Pubkey>,
    pub exts: Vec<Ext>,
}
impl MintSpec {
    pub fn new(key: Pubkey, prog: Pubkey) -> MintSpec {
        MintSpec {
            key,
            prog,
            decimals: 6,
            supply: 0,
            mint_auth: Some(mint_auth()),
            freeze: Some(freeze_auth()),
            exts: vec![],
        }
    }
    pub fn exts(mut self, e: &[Ext]) -> Self {
        self.exts = e.to_vec();
        self
    }
}

pub fn make_mint(svm: &mut Svm, w: &mut World, s: &MintSpec) -> Result<(), String> {
    let len = if s.prog == T22 {
        let tys: Vec<_> = s.exts.iter().map(|e| e.ty()).collect();
        ExtensionType::try_calculate_account_len::<Mint>(&tys).unwrap()
    } else {
        82
    };
    let mut t = w.clone();
    t.set(s.key, Account { lamports: svm.rent(len), data: vec![0; len], owner: s.prog, ..Default::default() });
    let ma = mint_auth();
    let mut ixs: Vec<_> = s.exts.iter().map(|e| e.init(&s.key)).collect();
    ixs.push(ti::initialize_mint2(&s.prog, &s.key, s.mint_auth.as_ref().unwrap_or(&ma), s.freeze.as_ref(), s.decimals).unwrap());
    svm.try_apply(&mut t, &ixs)?;
    t.edit(&s.key, |a| {
        a.data[36..44].copy_from_slice(&s.supply.to_le_bytes());
        if s.mint_auth.is_none() {
            a.data[0..36].fill(0);
        }
    });
    for e in &s.exts {
        match e {
            Ext::Fee { older, newer, newer_epoch } => set_fee(&mut t, &s.key, *older, *newer, *newer_epoch),
            Ext::Pausable { paused } => set_paused(&mut t, &s.key, *paused),
            _ => {}
        }
    }
    *w = t;
    Ok(())
}

pub fn set_fee(w: &mut World, mint: &Pubkey, older: (u16, u64), newer: (u16, u64), newer_epoch: u64) {
    w.edit(mint, |a| {
        let mut st = PodStateWithExtensionsMut::<PodMint>::unpack(&mut a.data).unwrap();
        let c = st.get_extension_mut::<TransferFeeConfig>().unwrap();
        c.older_transfer_fee.transfer_fee_basis_points = older.0.into();
        c.older_transfer_fee.maximum_fee = older.1.into();
        c.older_transfer_fee.epoch = 0.into();
        c.newer_transfer_fee.transfer_fee_basis_points = newer.0.into();
        c.newer_transfer_fee.maximum_fee = newer.1.into();
        c.newer_transfer_fee.epoch = newer_epoch.into();
    })
}
pub fn set_paused(w: &mut World, mint: &Pubkey, paused: bool) {
    w.edit(mint, |a| {
        let mut st = PodStateWithExtensionsMut::<PodMint>::unpack(&mut a.data).unwrap();
        st.get_extension_mut::<extension::pausable::PausableConfig>().unwrap().paused = paused.into();
    })
}

#[derive(Clone, Debug, PartialEq)]
pub struct AcctSpec {
    pub key: Pubkey,
    pub mint: Pubkey,
    pub owner: Pubkey,
    pub amount: u64,
    pub delegate: Option<(Pubkey, u64)>,
    pub frozen: bool,
    pub immutable: bool,
    pub cpi_guard: bool,
    pub memo: bool,
    pub close: Option<Pubkey>,
}
impl AcctSpec {
    pub fn new(key: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) -> AcctSpec {
        AcctSpec { key, mint, owner, amount, delegate: None, frozen: false, immutable: false, cpi_guard: false, memo: false, close: None }
    }
}

/// Makes a token account with the extensions its mint requires.
pub fn make_account(svm: &mut Svm, w: &mut World, s: &AcctSpec) -> Result<(), String> {
    let m = w.get(&s.mint).ok_or("no mint")?;
    let prog = m.owner;
    let mut t = w.clone();
    let native = s.mint == spl_token::native_mint::id() || s.mint == spl_token_2022_interface::native_mint::id();
    let mut tys = vec![];
    if prog == T22 {
        let st = StateWithExtensions::<Mint>::unpack(&m.data).map_err(|e| e.to_string())?;
        tys = ExtensionType::get_required_init_account_extensions(&st.get_extension_types().unwrap());
        if s.immutable {
            tys.push(ExtensionType::ImmutableOwner);
        }
        if s.cpi_guard {
            tys.push(ExtensionType::CpiGuard);
        }
        if s.memo {
            tys.push(ExtensionType::MemoTransfer);
        }
    }
    let len = if tys.is_empty() { 165 } else { ExtensionType::try_calculate_account_len::<TAcc>(&tys).unwrap() };
    let rent = svm.rent(len);
    let lamports = rent + if native { s.amount } else { 0 };
    t.set(s.key, Account { lamports, data: vec![0; len], owner: prog, ..Default::default() });
    let mut ixs = vec![];
    if s.immutable && prog == T22 {
        ixs.push(ti::initialize_immutable_owner(&prog, &s.key).unwrap());
    }
    ixs.push(ti::initialize_account3(&prog, &s.key, &s.mint, &s.owner).unwrap());
    svm.try_apply(&mut t, &ixs)?;
    if s.cpi_guard && prog == T22 {
        t.edit(&s.key, |a| {
            let mut st = PodStateWithExtensionsMut::<PodAccount>::unpack(&mut a.data).unwrap();
            st.init_extension::<extension::cpi_guard::CpiGuard>(true).unwrap().lock_cpi = true.into();
        });
    }
    if s.memo && prog == T22 {
        t.edit(&s.key, |a| {
            let mut st = PodStateWithExtensionsMut::<PodAccount>::unpack(&mut a.data).unwrap();
            st.init_extension::<extension::memo_transfer::MemoTransfer>(true).unwrap().require_incoming_transfer_memos = true.into();
        });
    }
    t.edit(&s.key, |a| {
        a.data[64..72].copy_from_slice(&s.amount.to_le_bytes());
        if let Some((d, n)) = s.delegate {
            a.data[72..76].copy_from_slice(&1u32.to_le_bytes());
            a.data[76..108].copy_from_slice(d.as_ref());
            a.data[121..129].copy_from_slice(&n.to_le_bytes());
        }
        if s.frozen {
            a.data[108] = 2;
        }
        if let Some(c) = s.close {
            a.data[129..133].copy_from_slice(&1u32.to_le_bytes());
            a.data[133..165].copy_from_slice(c.as_ref());
        }
    });
    *w = t;
    Ok(())
}

/// The escrow, made by the associated token account program.
pub fn make_escrow(svm: &mut Svm, w: &mut World, p: &Pair) -> Result<(), String> {
    make_ata(svm, w, &p.auth, &p.umint, &p.uprog)
}
pub fn make_ata(svm: &mut Svm, w: &mut World, owner: &Pubkey, mint: &Pubkey, prog: &Pubkey) -> Result<(), String> {
    let payer = key("ata-payer");
    let mut t = w.clone();
    t.fund(payer, 1_000_000_000);
    let e = svm.exec(&t, &[create_ata(&payer, owner, mint, prog)]);
    e.res?;
    t = e.world;
    t.acc.remove(&payer);
    *w = t;
    Ok(())
}
pub fn create_ata(payer: &Pubkey, owner: &Pubkey, mint: &Pubkey, prog: &Pubkey) -> Instruction {
    Instruction {
        program_id: ATA,
        accounts: vec![
            AccountMeta::new(*payer, true),
            AccountMeta::new(ata_of(owner, mint, prog), false),
            AccountMeta::new_readonly(*owner, false),
            AccountMeta::new_readonly(*mint, false),
            AccountMeta::new_readonly(SYS, false),
            AccountMeta::new_readonly(*prog, false),
        ],
        data: vec![0],
    }
}

/// A wrapped mint as the documentation describes it, and its backpointer,
/// made without Token Wrap.
pub fn make_wrapped(svm: &mut Svm, w: &mut World, p: &Pair, supply: u64) {
    let u = w.get(&p.umint).expect("unwrapped mint");
    let (decimals, freeze) = (u.data[44], coption(&u.data[46..82]));
    let mut t = w.clone();
    let len = if p.wprog == T22 {
        ExtensionType::try_calculate_account_len::<Mint>(&[ExtensionType::ConfidentialTransferMint, ExtensionType::MetadataPointer]).unwrap()
    } else {
        82
    };
    t.set(p.wmint, Account { lamports: svm.rent(len), data: vec![0; len], owner: p.wprog, ..Default::default() });
    let mut ixs = vec![];
    if p.wprog == T22 {
        ixs.push(extension::confidential_transfer::instruction::initialize_mint(&T22, &p.wmint, None, true, None).unwrap());
        ixs.push(extension::metadata_pointer::instruction::initialize(&T22, &p.wmint, Some(p.auth), Some(p.wmint)).unwrap());
    }
    ixs.push(ti::initialize_mint2(&p.wprog, &p.wmint, &p.auth, freeze.as_ref(), decimals).unwrap());
    svm.must(&mut t, "wrapped mint", &ixs);
    t.edit(&p.wmint, |a| a.data[36..44].copy_from_slice(&supply.to_le_bytes()));
    t.set(p.backptr, Account { lamports: svm.rent(32), data: p.umint.to_bytes().to_vec(), owner: TW, ..Default::default() });
    *w = t;
}

pub fn make_multisig(svm: &mut Svm, w: &mut World, k: Pubkey, prog: &Pubkey, m: u8, members: &[Pubkey]) {
    w.set(k, Account { lamports: svm.rent(355), data: vec![0; 355], owner: *prog, ..Default::default() });
    let refs: Vec<_> = members.iter().collect();
    svm.must(w, "multisig", &[ti::initialize_multisig2(prog, &k, &refs, m).unwrap()]);
}

// ---- readers ------------------------------------------------------------------
pub fn coption(b: &[u8]) -> Option<Pubkey> {
    (b[..4] == [1, 0, 0, 0]).then(|| Pubkey::try_from(&b[4..36]).unwrap())
}
fn u64_at(b: &[u8], i: usize) -> Option<u64> {
    b.get(i..i + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap()))
}
/// Amount of a token account of one of the token programs.
pub fn amount(w: &World, k: &Pubkey) -> Option<u64> {
    let a = w.get(k)?;
    is_token_account(a).then(|| u64_at(&a.data, 64))?
}
pub fn supply(w: &World, k: &Pubkey) -> Option<u64> {
    let a = w.get(k)?;
    is_mint(a).then(|| u64_at(&a.data, 36))?
}
pub fn is_token_prog(k: &Pubkey) -> bool {
    *k == TOKEN || *k == T22
}
pub fn is_token_account(a: &Account) -> bool {
    is_token_prog(&a.owner)
        && (a.data.len() == 165 || (a.owner == T22 && a.data.len() > 165 && a.data.len() != 355 && a.data[165] == 2))
        && matches!(a.data[108], 1 | 2)
}
pub fn is_mint(a: &Account) -> bool {
    is_token_prog(&a.owner)
        && (a.data.len() == 82 || (a.owner == T22 && a.data.len() > 165 && a.data.len() != 355 && a.data[165] == 1))
        && a.data[45] == 1
}
pub fn acct_mint(a: &Account) -> Pubkey {
    Pubkey::try_from(&a.data[0..32]).unwrap()
}
pub fn acct_owner(a: &Account) -> Pubkey {
    Pubkey::try_from(&a.data[32..64]).unwrap()
}
pub fn acct_delegate(a: &Account) -> Option<(Pubkey, u64)> {
    coption(&a.data[72..108]).map(|d| (d, u64_at(&a.data, 121).unwrap()))
}
pub fn withheld(w: &World, k: &Pubkey) -> u64 {
    let Some(a) = w.get(k) else { return 0 };
    let Ok(st) = PodStateWithExtensions::<PodAccount>::unpack(&a.data) else { return 0 };
    st.get_extension::<extension::transfer_fee::TransferFeeAmount>().map_or(0, |e| e.withheld_amount.into())
}
pub fn fee_config(w: &World, mint: &Pubkey) -> Option<TransferFeeConfig> {
    let a = w.get(mint)?;
    let st = PodStateWithExtensions::<PodMint>::unpack(&a.data).ok()?;
    st.get_extension::<TransferFeeConfig>().ok().copied()
}
/// The transfer fee in force, computed from its definition.
pub fn fee_of(w: &World, mint: &Pubkey, amount: u64) -> u64 {
    let Some(c) = fee_config(w, mint) else { return 0 };
    let newer = w.epoch >= u64::from(c.newer_transfer_fee.epoch);
    let f = if newer { c.newer_transfer_fee } else { c.older_transfer_fee };
    let bps = u16::from(f.transfer_fee_basis_points) as u128;
    let max = u64::from(f.maximum_fee) as u128;
    (amount as u128 * bps).div_ceil(10_000).min(max) as u64
}
pub fn token_metadata(w: &World, mint: &Pubkey) -> Option<TokenMetadata> {
    let a = w.get(mint)?;
    let st = PodStateWithExtensions::<PodMint>::unpack(&a.data).ok()?;
    st.get_variable_len_extension::<TokenMetadata>().ok()
}
pub fn mint_exts(a: &Account) -> Option<Vec<ExtensionType>> {
    PodStateWithExtensions::<PodMint>::unpack(&a.data).ok()?.get_extension_types().ok()
}
pub fn acct_exts(a: &Account) -> Option<Vec<ExtensionType>> {
    PodStateWithExtensions::<PodAccount>::unpack(&a.data).ok()?.get_extension_types().ok()
}
/// Sets the mint's supply to what its accounts hold (if that fits).
pub fn fix_supply(w: &mut World, mint: &Pubkey) {
    let sum: u128 = w
        .acc
        .iter()
        .filter(|(_, a)| is_token_account(a) && acct_mint(a) == *mint)
        .map(|(k, _)| amount(w, k).unwrap() as u128 + withheld(w, k) as u128)
        .sum();
    w.edit(mint, |a| a.data[36..44].copy_from_slice(&(sum.min(u64::MAX as u128) as u64).to_le_bytes()));
}
pub fn decimals(w: &World, mint: &Pubkey) -> u8 {
    w.data(mint).get(44).copied().unwrap_or(0)
}
pub fn nullable(k: Option<Pubkey>) -> MaybeNull<Pubkey> {
    k.map(MaybeNull::from).unwrap_or_default()
}

// ---- token instructions ---------------------------------------------------------
pub fn transfer_checked(prog: &Pubkey, src: &Pubkey, mint: &Pubkey, dst: &Pubkey, auth: AccountMeta, extra: &[AccountMeta], amount: u64, decimals: u8) -> Instruction {
    let mut accounts = vec![
        AccountMeta::new(*src, false),
        AccountMeta::new_readonly(*mint, false),
        AccountMeta::new(*dst, false),
        auth,
    ];
    accounts.extend_from_slice(extra);
    let mut data = vec![12];
    data.extend(amount.to_le_bytes());
    data.push(decimals);
    Instruction { program_id: *prog, accounts, data }
}
pub fn mint_to(prog: &Pubkey, mint: &Pubkey, dst: &Pubkey, auth: &Pubkey, amount: u64) -> Instruction {
    let mut data = vec![7];
    data.extend(amount.to_le_bytes());
    Instruction {
        program_id: *prog,
        accounts: vec![AccountMeta::new(*mint, false), AccountMeta::new(*dst, false), AccountMeta::new_readonly(*auth, true)],
        data,
    }
}
pub fn burn(prog: &Pubkey, acct: &Pubkey, mint: &Pubkey, auth: AccountMeta, signers: &[AccountMeta], amount: u64) -> Instruction {
    let mut data = vec![8];
    data.extend(amount.to_le_bytes());
    let mut accounts = vec![AccountMeta::new(*acct, false), AccountMeta::new(*mint, false), auth];
    accounts.extend_from_slice(signers);
    Instruction { program_id: *prog, accounts, data }
}
pub fn signer(k: &Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(*k, true)
}
pub fn ro(k: &Pubkey) -> AccountMeta {
    AccountMeta::new_readonly(*k, false)
}
pub fn rw(k: &Pubkey) -> AccountMeta {
    AccountMeta::new(*k, false)
}
