//! C17: the shipped mint customizers, each in a program built from /repo's
//! processor (see /verif/variants).
use super::lifecycle::{fresh_mint_faults, others_touched};
use super::move_tokens::{all_exts, progs};
use crate::{core::*, report::Ctx, tok::*, tw::*};
use serde_json::json;
use solana_instruction::Instruction;
use solana_pubkey::Pubkey;
use spl_token_2022_interface::extension::ExtensionType as E;
use std::collections::BTreeMap;

const NAMES: [&str; 3] = ["default", "no extensions", "compliance"];
const PERMANENT_DELEGATE: Pubkey = Pubkey::from_str_const("deLpBmD7UP27BHTuhnxR7mBE9rEV6mWUnwWsXMXTFwR");
const CONFIDENTIAL: Pubkey = Pubkey::from_str_const("con2YXp7bKscyhzJzbSQgwz6RFcXqe6otUGK5Rr8saK");
const FREEZE: Pubkey = Pubkey::from_str_const("freTRAXwCVELv5k7V6UobnCiG1hmhnj79AezxRwAR3h");
const PAUSE: Pubkey = Pubkey::from_str_const("pauySfjziLCpPMoaeFsWgvBCe7ygHKr6wXCyvTNZyGv");
/// yonKhqkoXNvMbN/tU6fjHFhfZuNPpvMj8L55aP2bBG4=
const AUDITOR: [u8; 32] = [
    0xca, 0x89, 0xca, 0x86, 0xa9, 0x28, 0x5c, 0xdb, 0xcc, 0x6c, 0xdf, 0xed, 0x53, 0xa7, 0xe3, 0x1c, 0x58, 0x5f, 0x66, 0xe3, 0x4f, 0xa6, 0xf3, 0x23, 0xf0,
    0xbe, 0x79, 0x68, 0xfd, 0x9b, 0x04, 0x6e,
];

/// The documented extensions (type -> value) of customizer k.
fn exts(k: u8, p: &Pair) -> BTreeMap<u16, Vec<u8>> {
    if p.wprog != T22 {
        return BTreeMap::new();
    }
    let ct = |authority: &[u8], auditor: &[u8]| [authority, &[1], auditor].concat();
    match k {
        0 => BTreeMap::from([
            (E::ConfidentialTransferMint as u16, ct(&[0; 32], &[0; 32])),
            (E::MetadataPointer as u16, [p.auth.to_bytes(), p.wmint.to_bytes()].concat()),
        ]),
        1 => BTreeMap::new(),
        _ => BTreeMap::from([
            (E::ConfidentialTransferMint as u16, ct(CONFIDENTIAL.as_ref(), &AUDITOR)),
            (E::PermanentDelegate as u16, PERMANENT_DELEGATE.to_bytes().to_vec()),
            (E::DefaultAccountState as u16, vec![1]),
            (E::Pausable as u16, [PAUSE.as_ref(), &[0]].concat()),
        ]),
    }
}
fn len(k: u8, wprog: &Pubkey) -> usize {
    match (*wprog == T22, k) {
        (false, _) | (_, 1) => 82,
        (_, 0) => 166 + (4 + 65) + (4 + 64),
        _ => 166 + (4 + 65) + (4 + 32) + (4 + 1) + (4 + 33),
    }
}
fn create(k: u8, p: &Pair, idem: bool) -> Instruction {
    let mut i = create_mint(p, idem);
    i.data.insert(0, k);
    i
}

struct C {
    k: u8,
    u: MintSpec,
    wp: Pubkey,
    idem: bool,
    /// lamports on the two accounts, relative to what is needed
    fund: (i64, i64),
}

pub fn run(ctx: &Ctx, pool: &Pool) {
    let mut cs = vec![];
    for (up, wp) in progs() {
        for k in 0..3u8 {
            for d in 0..=255u8 {
                for f in [Some(freeze_auth()), None, Some(FREEZE), Some(mint_auth()), Some(Pubkey::new_from_array([255; 32])), Some(SYS)] {
                    for ma in [Some(mint_auth()), None] {
                        for supply in [0, 1, u64::MAX] {
                            if !ctx.thorough && (d as usize + supply as usize % 3 + ma.is_some() as usize) % 3 != 0 {
                                continue;
                            }
                            let mut u = MintSpec::new(key("umint"), up);
                            (u.decimals, u.freeze, u.mint_auth, u.supply) = (d, f, ma, supply);
                            cs.push(C { k, u, wp, idem: d % 2 == 0, fund: (0, 0) });
                        }
                    }
                }
            }
            if up == T22 {
                let ex = all_exts();
                let mut sets: Vec<Vec<Ext>> = vec![ex.clone(), vec![Ext::Default { frozen: true }], vec![Ext::MetaPtr(None)]];
                for i in 0..ex.len() {
                    sets.push(vec![ex[i].clone()]);
                    for j in i + 1..ex.len() {
                        sets.push(vec![ex[i].clone(), ex[j].clone()]);
                        for l in j + 1..ex.len() {
                            if ctx.thorough {
                                sets.push(vec![ex[i].clone(), ex[j].clone(), ex[l].clone()]);
                            }
                        }
                    }
                }
                for s in sets {
                    for f in [Some(freeze_auth()), None] {
                        for idem in [false, true] {
                            let mut u = MintSpec::new(key("umint"), up).exts(&s);
                            u.freeze = f;
                            cs.push(C { k, u, wp, idem, fund: (0, 0) });
                        }
                    }
                }
            }
            for a in [-1_000_000_000, -1, 0, 1, 1_000_000_000] {
                for b in [-1_000_000_000, -1, 0, 1, 1_000_000_000] {
                    for idem in [false, true] {
                        cs.push(C { k, u: MintSpec::new(key("umint"), up), wp, idem, fund: (a, b) });
                    }
                }
            }
        }
    }
    let n = cs.len();
    let refused = pool.map(&cs, |svm, c| {
        if ctx.enough() {
            return 0u64;
        }
        let mut w = World { epoch: 5, ..Default::default() };
        if make_mint(svm, &mut w, &c.u).is_err() {
            return 1;
        }
        let p = Pair::new(c.u.key, c.u.prog, c.wp);
        let sum = |len: usize, d: i64| (svm.rent(len) as i64 + d).max(0) as u64;
        w.fund(p.wmint, sum(len(c.k, &c.wp), c.fund.0));
        w.fund(p.backptr, sum(32, c.fund.1));
        w.fund(key("bystander"), 77);
        ctx.state();
        ctx.step();
        ctx.trace();
        let ix = create(c.k, &p, c.idem);
        let (e, calls) = svm.exec_traced(&w, std::slice::from_ref(&ix));
        let want = c.fund.0 >= 0 && c.fund.1 >= 0;
        let say = format!(
            "customizer {}, {} decimals {} freeze {:?} exts {:?} wrapped by {}, funding {:+?}",
            NAMES[c.k as usize], name_of(&c.u.prog), c.u.decimals, c.u.freeze.map(|k| name_of(&k)), c.u.exts, name_of(&c.wp), c.fund
        );
        if e.ok() != want {
            ctx.violate("outcome", format!("{say}: {:?}", e.res), &w, &[ix]);
            return 0;
        }
        if !e.ok() {
            return 0;
        }
        ctx.accept();
        let freeze = if c.k == 2 { Some(FREEZE) } else { c.u.freeze };
        let mut bad = fresh_mint_faults(&e.world, &p, c.u.decimals, &freeze, &exts(c.k, &p), Some(len(c.k, &c.wp)));
        bad.extend(others_touched(&w, &e.world, &[p.wmint, p.backptr]));
        if c.wp == TOKEN && calls.iter().any(|c| c.program == T22) {
            bad.push("Token-2022 was invoked for an SPL Token mint".into());
        }
        // a second request
        let again = svm.exec(&e.world, &[create(c.k, &p, true)]);
        ctx.step();
        if !again.ok() || !diff(&e.world, &again.world).is_empty() {
            bad.push(format!("an idempotent request afterwards: {:?} {}", again.res, diff(&e.world, &again.world).join("; ")));
        }
        if !bad.is_empty() {
            ctx.violate("mint", format!("{say}: {}", bad.join("; ")), &w, &[ix]);
        }
        0
    });
    ctx.put("configurations_the_token_programs_refuse_to_create", refused.iter().sum::<u64>());
    ctx.sample(json!(cs.iter().step_by(n / 6).map(|c| format!("{} {:?}", NAMES[c.k as usize], c.u)).collect::<Vec<_>>()));
    ctx.bound(format!("{n} creations: 3 customizers x 4 program pairs x all 256 decimals x freeze authorities x mint authorities x supplies; all sets of <= {} Token-2022 extensions and all together; 5 x 5 funding levels around the declared space's rent; each followed by an idempotent repeat", if ctx.thorough { 3 } else { 2 }));
}
