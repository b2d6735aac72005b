//! The instruction encoding and the published builders: the library's pack and
//! unpack against the documented layout, and the deployed program against both.
use serde_json::{json, Value};
use solana_instruction::{AccountMeta, Instruction};
use solana_pubkey::Pubkey;
use spl_token_2022_interface::instruction as ti;
use spl_token_wrap::instruction::{self as lib, TokenWrapInstruction as L};
use twmc::{core::*, meta::*, report::Ctx, tok::*, tw};

/// The documented instructions.
#[derive(Clone, Debug, PartialEq)]
enum I {
    Create(bool),
    Wrap(u64),
    Unwrap(u64),
    Close,
    Sync22,
    SyncSpl,
    Pointer([u8; 32]),
}
fn encode(i: &I) -> Vec<u8> {
    match i {
        I::Create(b) => vec![0, *b as u8],
        I::Wrap(n) => [&[1][..], &n.to_le_bytes()].concat(),
        I::Unwrap(n) => [&[2][..], &n.to_le_bytes()].concat(),
        I::Close => vec![3],
        I::Sync22 => vec![4],
        I::SyncSpl => vec![5],
        I::Pointer(k) => [&[6][..], k].concat(),
    }
}
fn decode(b: &[u8]) -> Option<I> {
    let n = |r: &[u8]| r.iter().rev().fold(0u64, |a, x| a << 8 | *x as u64);
    Some(match (b.first()?, b.len()) {
        (0, 2) if b[1] < 2 => I::Create(b[1] == 1),
        (1, 9) => I::Wrap(n(&b[1..])),
        (2, 9) => I::Unwrap(n(&b[1..])),
        (3, 1) => I::Close,
        (4, 1) => I::Sync22,
        (5, 1) => I::SyncSpl,
        (6, 33) => I::Pointer(b[1..].try_into().unwrap()),
        _ => return None,
    })
}
fn to_lib(i: &I) -> L {
    match i {
        I::Create(b) => L::CreateMint { idempotent: *b },
        I::Wrap(n) => L::Wrap { amount: *n },
        I::Unwrap(n) => L::Unwrap { amount: *n },
        I::Close => L::CloseStuckEscrow,
        I::Sync22 => L::SyncMetadataToToken2022,
        I::SyncSpl => L::SyncMetadataToSplToken,
        I::Pointer(k) => L::SetCanonicalPointer { program_id: Pubkey::new_from_array(*k) },
    }
}

fn check_bytes(ctx: &Ctx, b: &[u8]) {
    let got = std::panic::catch_unwind(|| L::unpack(b));
    let want = decode(b);
    let ok = match (&got, &want) {
        (Ok(Ok(g)), Some(w)) => *g == to_lib(w) && g.pack() == b,
        (Ok(Err(_)), None) => true,
        _ => false,
    };
    if !ok {
        ctx.violate_json("decode", format!("{} decodes to {:?} instead of {want:?}", hex(b), got.map_err(|_| "a panic")), json!({"bytes": hex(b)}));
    }
}
fn check_value(ctx: &Ctx, i: &I) {
    ctx.step();
    let l = to_lib(i);
    let b = l.pack();
    if b != encode(i) || L::unpack(&b).ok().as_ref() != Some(&l) {
        ctx.violate_json("encode", format!("{i:?} encodes to {} instead of {}", hex(&b), hex(&encode(i))), json!({"value": format!("{i:?}")}));
    }
}

fn amounts() -> Vec<u64> {
    let mut v = vec![0, 1, 2, u64::MAX, u64::MAX - 1, 0x0102030405060708, 0x8070605040302010];
    for k in 0..64 {
        v.extend([1u64 << k, (1u64 << k) - 1, (1u64 << k).wrapping_add(1), !(1u64 << k)]);
    }
    for p in 0..8 {
        for x in 0..=255u64 {
            v.extend([x << (8 * p), 0x0101010101010101 ^ x << (8 * p)]);
        }
    }
    v.sort();
    v.dedup();
    v
}
fn keys() -> Vec<[u8; 32]> {
    let base: [u8; 32] = std::array::from_fn(|i| i as u8 * 7 + 1);
    let mut v = vec![[0; 32], [0xff; 32], base];
    for p in 0..32 {
        for x in 0..=255u8 {
            let (mut a, mut z) = (base, [0; 32]);
            a[p] = x;
            z[p] = x;
            v.extend([a, z]);
        }
    }
    v.sort();
    v.dedup();
    v
}
fn values() -> Vec<I> {
    let mut v = vec![I::Create(false), I::Create(true), I::Close, I::Sync22, I::SyncSpl];
    v.extend(amounts().into_iter().flat_map(|n| [I::Wrap(n), I::Unwrap(n)]));
    v.extend(keys().into_iter().map(I::Pointer));
    v
}
/// Longer strings, per tag: every length with several fillings, and for each
/// position every byte.
fn long(tag: u8, maxlen: usize, f: &mut dyn FnMut(&[u8])) {
    for len in 1..=maxlen {
        for fill in 0..4u8 {
            let mut b: Vec<u8> = (0..len)
                .map(|i| match fill {
                    0 => 0,
                    1 => 0xff,
                    2 => 1,
                    _ => i as u8,
                })
                .collect();
            b[0] = tag;
            f(&b);
        }
        let mut b = vec![1u8; len];
        b[0] = tag;
        for p in 1..len {
            for x in 0..=255u8 {
                b[p] = x;
                f(&b);
            }
            b[p] = 1;
        }
    }
}

fn native(ctx: &Ctx) {
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    let vs = values();
    for v in &vs {
        ctx.state();
        check_value(ctx, v);
        // every truncation and one-byte extension of its encoding
        let e = encode(v);
        for n in 0..e.len() {
            check_bytes(ctx, &e[..n]);
        }
        for x in 0..=255u8 {
            check_bytes(ctx, &[&e[..], &[x]].concat());
        }
    }
    check_bytes(ctx, &[]);
    let mut n = 1u64;
    std::thread::scope(|s| {
        for t in 0..threads() {
            s.spawn(move || {
                for a in (t..256).step_by(threads()) {
                    let a = a as u8;
                    check_bytes(ctx, &[a]);
                    for b in 0..=255u8 {
                        check_bytes(ctx, &[a, b]);
                        for c in 0..=255u8 {
                            check_bytes(ctx, &[a, b, c]);
                        }
                    }
                    long(a, if ctx.thorough { 200 } else { 70 }, &mut |b| check_bytes(ctx, b));
                }
            });
        }
    });
    n += 256 + 65536 + (1 << 24);
    long(0, if ctx.thorough { 200 } else { 70 }, &mut |_| n += 256);
    ctx.transitions.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
    std::panic::set_hook(hook);
    // different values never share an encoding
    let mut e: Vec<_> = vs.iter().map(|v| to_lib(v).pack()).collect();
    let k = e.len();
    e.sort();
    e.dedup();
    if e.len() != k {
        ctx.violate_json("encode-collision", "two instruction values have one encoding", json!({}));
    }
    ctx.bound(format!("decoder: all strings of at most 3 bytes, for each tag every length to {} with 4 fillings and every byte at every position; encoder: {k} values with all truncations and one-byte extensions", if ctx.thorough { 200 } else { 70 }));
}

// ---- scenes in which each instruction succeeds ----------------------------------------
struct Scene {
    name: &'static str,
    w: World,
    ix: Instruction,
    tag: u8,
    p: Pair,
}
fn scenes(svm: &mut Svm) -> Vec<Scene> {
    let mut v = vec![];
    let um = key("umint");
    let user = key("user");
    for wp in [TOKEN, T22] {
        let p = Pair::new(um, T22, wp);
        let mut w = World { epoch: 5, ..Default::default() };
        make_mint(svm, &mut w, &MintSpec::new(um, T22).exts(&[Ext::MetaPtr(Some(um)), Ext::Close])).unwrap();
        put_token_metadata(svm, &mut w, &um, &mint_auth(), &Flat::new("Name", "SYM", "uri", &[])).unwrap();
        let mut c = w.clone();
        for k in [&p.wmint, &p.backptr] {
            c.fund(*k, svm.rent(500));
        }
        v.push(Scene { name: "create", w: c, ix: tw::create_mint(&p, false), tag: 0, p });
        make_wrapped(svm, &mut w, &p, 0);
        make_escrow(svm, &mut w, &p).unwrap();
        let mut m = w.clone();
        make_account(svm, &mut m, &AcctSpec::new(key("u"), um, user, u64::MAX)).unwrap();
        make_account(svm, &mut m, &AcctSpec::new(key("w"), p.wmint, user, 0)).unwrap();
        v.push(Scene { name: "wrap", ix: tw::wrap(&p, &key("u"), &key("w"), &tw::Auth::single(&user), &[], 1), w: m.clone(), tag: 1, p });
        m.edit(&key("u"), |a| a.data[64..72].fill(0));
        m.edit(&key("w"), |a| a.data[64..72].fill(0xff));
        m.edit(&p.escrow, |a| a.data[64..72].fill(0xff));
        m.edit(&p.wmint, |a| a.data[36..44].fill(0xff));
        v.push(Scene { name: "unwrap", ix: tw::unwrap(&p, &key("w"), &key("u"), &tw::Auth::single(&user), &[], 1), w: m, tag: 2, p });
        if wp == T22 {
            let mut s = w.clone();
            s.edit(&p.wmint, |a| a.lamports += 1_000_000_000);
            v.push(Scene { name: "sync to Token-2022", ix: tw::sync22(&p, None, None), w: s, tag: 4, p });
        } else {
            let mut s = w.clone();
            s.fund(p.auth, 10_000_000_000);
            v.push(Scene { name: "sync to SPL Token", ix: tw::sync_spl(&p, None, None), w: s, tag: 5, p });
        }
        let mut s = w.clone();
        s.fund(canon_of(&um), svm.rent(32));
        v.push(Scene { name: "pointer", ix: tw::set_canonical(&um, signer(&mint_auth()), &key("canon")), w: s, tag: 6, p });
        // the mint is closed and made again with another shape
        let mut s = w.clone();
        svm.must(&mut s, "close mint", &[ti::close_account(&T22, &um, &key("dest"), &close_auth(), &[]).unwrap()]);
        make_mint(svm, &mut s, &MintSpec::new(um, T22).exts(&[Ext::fee(100, 5)])).unwrap();
        v.push(Scene { name: "close", ix: tw::close_stuck(&p, &key("dest")), w: s, tag: 3, p });
    }
    v
}

fn on_chain(ctx: &Ctx, pool: &Pool, sc: &[Scene]) {
    // the documented encodings do what they say
    pool.map(sc, |svm, s| {
        ctx.state();
        let mut datas = vec![];
        match s.tag {
            0 => datas.extend([I::Create(false), I::Create(true)]),
            1 => datas.extend(amounts().into_iter().filter(|n| *n > 0).map(I::Wrap)),
            2 => datas.extend(amounts().into_iter().filter(|n| *n > 0).map(I::Unwrap)),
            6 => datas.extend(keys().into_iter().map(I::Pointer)),
            _ => datas.push(decode(&s.ix.data).unwrap()),
        }
        for i in datas {
            let mut ix = s.ix.clone();
            ix.data = encode(&i);
            let e = svm.exec(&s.w, &[ix.clone()]);
            ctx.step();
            ctx.trace();
            if let Err(err) = &e.res {
                ctx.violate(&format!("encoding-refused-{}", s.tag), format!("{} with data {}: {err}", s.name, hex(&ix.data)), &s.w, &[ix]);
                continue;
            }
            ctx.accept();
            let bad = match &i {
                I::Wrap(n) => (amount(&e.world, &key("w")) != Some(*n)).then_some("another amount was wrapped"),
                I::Unwrap(n) => (amount(&e.world, &key("u")) != Some(*n)).then_some("another amount was unwrapped"),
                I::Pointer(k) => (e.world.data(&canon_of(&s.p.umint)) != k).then_some("another program was written"),
                I::Create(idem) => {
                    let again = svm.exec(&e.world, &[ix.clone()]);
                    (again.ok() != *idem).then_some("the idempotency flag is not obeyed")
                }
                _ => None,
            };
            if let Some(b) = bad {
                ctx.violate(&format!("encoding-meaning-{}", s.tag), format!("{} with data {}: {b}", s.name, hex(&ix.data)), &s.w, &[ix]);
            }
        }
    });
    // every other string is refused, whatever the accounts
    let heads: Vec<u16> = (0..=256).collect();
    let jobs: Vec<(usize, u16)> = (0..sc.len()).flat_map(|s| heads.iter().map(move |h| (s, *h))).collect();
    pool.map(&jobs, |svm, (si, h)| {
        let s = &sc[*si];
        let mut refuse = |b: &[u8]| {
            if decode(b).is_some() || ctx.enough() {
                return;
            }
            ctx.step();
            let mut ix = s.ix.clone();
            ix.data = b.to_vec();
            if svm.exec(&s.w, &[ix.clone()]).ok() {
                ctx.violate(&format!("accepts-garbage-{}", s.tag), format!("in the scene for {}, data {} is accepted", s.name, hex(b)), &s.w, &[ix]);
            }
        };
        if *h == 256 {
            refuse(&[]);
            return;
        }
        let a = *h as u8;
        refuse(&[a]);
        // with the scene's own tag, and its neighbours, all two-byte strings
        for b in 0..=255u8 {
            refuse(&[a, b]);
            if a == s.tag && ctx.thorough {
                for c in 0..=255u8 {
                    refuse(&[a, b, c]);
                }
            }
        }
        let good = encode(&decode(&s.ix.data).unwrap());
        let mut b = good.clone();
        b[0] = a;
        refuse(&b);
        if a < 8 || ctx.thorough {
            for len in 3..=if ctx.thorough { 70 } else { 40 } {
                for fill in [0, 1, 0xff] {
                    let mut b = vec![fill; len];
                    b[0] = a;
                    refuse(&b);
                    // the proper payload followed by something, or cut
                    let mut b = good.clone();
                    b[0] = a;
                    b.resize(len, fill);
                    refuse(&b);
                }
            }
        }
        if a == s.tag {
            for n in 0..good.len() {
                refuse(&good[..n]);
            }
            for x in 0..=255u8 {
                refuse(&[&good[..], &[x]].concat());
                refuse(&[&[x], &good[..]].concat());
                refuse(&[&good[..], &[0, x]].concat());
            }
        }
    });
    ctx.bound("deployed program: 12 scenes in which the proper instruction succeeds (every valid amount and key pattern applied), each with all strings of at most two bytes, wrong lengths and trailing bytes");
}

// ---- builders ------------------------------------------------------------------------
fn m(k: &Pubkey, s: bool, w: bool) -> AccountMeta {
    AccountMeta { pubkey: *k, is_signer: s, is_writable: w }
}
fn same(ctx: &Ctx, what: String, got: Instruction, prog: Pubkey, acc: Vec<AccountMeta>, data: Vec<u8>) {
    ctx.step();
    let want = Instruction { program_id: prog, accounts: acc, data };
    if got != want {
        ctx.violate_json("builder", format!("{what}: the builder gives another instruction than documented"), json!({"got": twmc::report::ix_json(&got), "documented": twmc::report::ix_json(&want)}));
    }
}
fn builders(ctx: &Ctx) {
    let k: Vec<Pubkey> = (0..12).map(|i| key(&format!("arg{i}"))).collect();
    let signers: Vec<Pubkey> = (0..16).map(|i| key(&format!("signer{i}"))).collect();
    for prog in [TW, crate::FORK, key("some-deployment")] {
        // arguments all different, and with repeats among them
        for same_arg in 0..=9usize {
            let a = |i: usize| if same_arg == i { &k[(i + 1) % 10] } else { &k[i] };
            ctx.state();
            for idem in [false, true] {
                same(ctx, "create_mint".into(), lib::create_mint(&prog, a(0), a(1), a(2), a(3), idem), prog,
                    vec![m(a(0), false, true), m(a(1), false, true), m(a(2), false, false), m(&SYS, false, false), m(a(3), false, false)],
                    encode(&I::Create(idem)));
            }
            for n in 0..=signers.len() {
                let s: Vec<&Pubkey> = signers[..n].iter().collect();
                for amt in [0, 1, 0x0807060504030201, u64::MAX] {
                    let tail = |acc: &mut Vec<AccountMeta>| acc.extend(s.iter().map(|k| m(k, true, false)));
                    let mut acc = vec![m(a(0), false, true), m(a(1), false, true), m(a(2), false, false), m(a(3), false, false), m(a(4), false, false), m(a(5), false, true), m(a(6), false, false), m(a(7), false, true), m(a(8), n == 0, false)];
                    tail(&mut acc);
                    same(ctx, format!("wrap with {n} multisig signers"), lib::wrap(&prog, a(0), a(1), a(2), a(3), a(4), a(5), a(6), a(7), a(8), &s, amt), prog, acc, encode(&I::Wrap(amt)));
                    let mut acc = vec![m(a(0), false, true), m(a(1), false, true), m(a(2), false, false), m(a(3), false, false), m(a(4), false, false), m(a(5), false, false), m(a(6), false, true), m(a(7), false, true), m(a(8), n == 0, false)];
                    tail(&mut acc);
                    same(ctx, format!("unwrap with {n} multisig signers"), lib::unwrap(&prog, a(0), a(1), a(2), a(3), a(4), a(5), a(6), a(7), a(8), &s, amt), prog, acc, encode(&I::Unwrap(amt)));
                }
            }
            same(ctx, "close_stuck_escrow".into(), lib::close_stuck_escrow(&prog, a(0), a(1), a(2), a(3), a(4)), prog,
                vec![m(a(0), false, true), m(a(1), false, true), m(a(2), false, false), m(a(3), false, false), m(a(4), false, false), m(&T22, false, false)], encode(&I::Close));
            for (src, own) in [(None, None), (Some(a(4)), None), (None, Some(a(5))), (Some(a(4)), Some(a(5)))] {
                let opt = |acc: &mut Vec<AccountMeta>| acc.extend(src.iter().chain(own.iter()).map(|k| m(k, false, false)));
                let mut acc = vec![m(a(0), false, true), m(a(1), false, false), m(a(2), false, false), m(&T22, false, false)];
                opt(&mut acc);
                same(ctx, format!("sync_metadata_to_token_2022({src:?}, {own:?})"), lib::sync_metadata_to_token_2022(&prog, a(0), a(1), a(2), src, own), prog, acc, encode(&I::Sync22));
                let mut acc = vec![m(a(0), false, true), m(a(1), false, true), m(a(2), false, false), m(a(3), false, false), m(&MPL, false, false), m(&SYS, false, false), m(&RENT, false, false)];
                opt(&mut acc);
                same(ctx, format!("sync_metadata_to_spl_token({src:?}, {own:?})"), lib::sync_metadata_to_spl_token(&prog, a(0), a(1), a(2), a(3), src, own), prog, acc, encode(&I::SyncSpl));
            }
            for key in [a(4), &TW, &SYS] {
                same(ctx, "set_canonical_pointer".into(), lib::set_canonical_pointer(&prog, a(0), a(1), a(2), key), prog,
                    vec![m(a(0), true, false), m(a(1), false, true), m(a(2), false, false), m(&SYS, false, false)], encode(&I::Pointer(key.to_bytes())));
            }
        }
    }
    ctx.bound("builders: 3 deployments x 10 argument patterns x 0..16 multisig signers x all optional account combinations");
}
/// The builders' instructions are what the program accepts.
fn builders_on_chain(ctx: &Ctx, pool: &Pool, sc: &[Scene]) {
    pool.map(sc, |svm, s| {
        let (p, u) = (&s.p, key("user"));
        let ix = match s.tag {
            0 => lib::create_mint(&TW, &p.wmint, &p.backptr, &p.umint, &p.wprog, false),
            1 => lib::wrap(&TW, &key("w"), &p.wmint, &p.auth, &p.uprog, &p.wprog, &key("u"), &p.umint, &p.escrow, &u, &[], 1),
            2 => lib::unwrap(&TW, &p.escrow, &key("u"), &p.auth, &p.umint, &p.wprog, &p.uprog, &key("w"), &p.wmint, &u, &[], 1),
            3 => lib::close_stuck_escrow(&TW, &p.escrow, &key("dest"), &p.umint, &p.wmint, &p.auth),
            4 => lib::sync_metadata_to_token_2022(&TW, &p.wmint, &p.auth, &p.umint, None, None),
            5 => lib::sync_metadata_to_spl_token(&TW, &mpl_of(&p.wmint), &p.auth, &p.wmint, &p.umint, None, None),
            _ => lib::set_canonical_pointer(&TW, &mint_auth(), &canon_of(&p.umint), &p.umint, &key("canon")),
        };
        ctx.step();
        ctx.trace();
        let (e, o) = (svm.exec(&s.w, &[ix.clone()]), svm.exec(&s.w, &[s.ix.clone()]));
        if !e.ok() || !diff(&e.world, &o.world).is_empty() {
            ctx.violate("builder-refused", format!("{}: the builder's instruction gives {:?}", s.name, e.res), &s.w, &[ix]);
        } else {
            ctx.accept();
        }
    });
}

// ---- the published interface description -------------------------------------------------
fn idl(ctx: &Ctx) {
    let Ok(text) = std::fs::read_to_string("/repo/idl.json") else {
        ctx.bound("idl.json: absent");
        return;
    };
    let v: Value = serde_json::from_str(&text).expect("idl.json");
    // name -> tag, accounts as (writable, signer: Some(false) / Some(true) / None = either), arguments
    type Row = (&'static str, u64, &'static [(bool, Option<bool>)], &'static [&'static str]);
    const N: Option<bool> = Some(false);
    let rows: &[Row] = &[
        ("createMint", 0, &[(true, N), (true, N), (false, N), (false, N), (false, N)], &["bool"]),
        ("wrap", 1, &[(true, N), (true, N), (false, N), (false, N), (false, N), (true, N), (false, N), (true, N), (false, None)], &["u64"]),
        ("unwrap", 2, &[(true, N), (true, N), (false, N), (false, N), (false, N), (false, N), (true, N), (true, N), (false, None)], &["u64"]),
        ("closeStuckEscrow", 3, &[(true, N), (true, N), (false, N), (false, N), (false, N), (false, N)], &[]),
        ("syncMetadataToToken2022", 4, &[(true, N), (false, N), (false, N), (false, N), (false, N), (false, N)], &[]),
        ("syncMetadataToSplToken", 5, &[(true, N), (true, N), (false, N), (false, N), (false, N), (false, N), (false, N), (false, N), (false, N)], &[]),
        ("setCanonicalPointer", 6, &[(false, Some(true)), (true, N), (false, N), (false, N)], &["publicKey"]),
    ];
    let mut seen = 0;
    for i in v["program"]["instructions"].as_array().into_iter().flatten() {
        let name = i["name"].as_str().unwrap_or("");
        ctx.step();
        let fail = |what: String| ctx.violate_json("idl", format!("idl.json, {name}: {what}"), json!({"instruction": name}));
        let Some((_, tag, accs, args)) = rows.iter().find(|r| r.0 == name) else {
            fail("no such instruction".into());
            continue;
        };
        seen += 1;
        let got: Vec<(bool, Option<bool>)> = i["accounts"].as_array().into_iter().flatten().map(|a| (a["isWritable"] == true, a["isSigner"].as_bool())).collect();
        if got != *accs {
            fail(format!("accounts {got:?} instead of {accs:?}"));
        }
        let a: Vec<&Value> = i["arguments"].as_array().into_iter().flatten().collect();
        if a.first().map(|d| (&d["defaultValue"]["number"], &d["type"]["format"])) != Some((&json!(tag), &json!("u8"))) {
            fail("discriminator".into());
        }
        let kinds: Vec<String> = a.iter().skip(1).map(|d| match d["type"]["kind"].as_str() {
            Some("booleanTypeNode") if d["type"]["size"]["format"] == "u8" => "bool".into(),
            Some("numberTypeNode") if d["type"]["endian"] == "le" => d["type"]["format"].as_str().unwrap_or("").into(),
            Some("publicKeyTypeNode") => "publicKey".into(),
            k => format!("{k:?}"),
        }).collect();
        if kinds != *args {
            fail(format!("arguments {kinds:?} instead of {args:?}"));
        }
    }
    ctx.put("idl_instructions_checked", seen);
    ctx.bound("idl.json: every instruction's discriminator, argument formats, account order and flags");
}

pub fn run(ctx: &Ctx, pool: &Pool) {
    native(ctx);
    builders(ctx);
    idl(ctx);
    let sc = pool.one(scenes);
    builders_on_chain(ctx, pool, &sc);
    on_chain(ctx, pool, &sc);
    ctx.sample(json!({"scenes": sc.iter().map(|s| s.name).collect::<Vec<_>>()}));
    if ctx.accepted() < 1000 && ctx.violations() == 0 {
        panic!("vacuous: only {} accepted", ctx.accepted());
    }
    ctx.assume("the documented layout and account lists are those of the instruction documentation, transcribed independently");
}
