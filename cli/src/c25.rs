//! C25: the CLI acts through the node and with the keys the user chose, on
//! confirmed state.
use {
    crate::{c18::*, c19, c22::*, node::*, want::*},
    serde_json::json,
    twmc::{core::*, report::*},
};

/// Whom the command's requests go to.
#[derive(Clone, Debug, PartialEq)]
enum Node {
    First,
    Second,
    /// someone beyond this machine, or a port nobody listens on
    Host(&'static str),
    Dead,
}
/// A configuration: its node, and its key if that can be read.
type Conf = (Node, Option<&'static str>);

const HOMES: [&str; 7] = ["", "home-second", "home-none", "home-id", "home-bad", "home-nokey", "home-badkey"];
const MAIN: Node = Node::Host("api.mainnet-beta.solana.com");
fn of_home(h: &str) -> Conf {
    match h {
        "" => (Node::First, Some("payer")),
        "home-second" => (Node::Second, Some("other-payer")),
        "home-none" | "home-bad" => (MAIN, None),
        "home-id" => (MAIN, Some("other-payer")),
        _ => (Node::First, None),
    }
}
/// Files for -C; None where they cannot be read.
const FILES: [(&str, Option<Conf>); 6] = [
    ("config-true-other-payer.yml", Some((Node::First, Some("other-payer")))),
    ("config-second.yml", Some((Node::Second, Some("other-payer")))),
    ("config-false-payer.yml", Some((Node::Dead, Some("payer")))),
    ("config-processed.yml", Some((Node::First, Some("payer")))),
    ("config-bad.yml", None),
    ("no-such-config.yml", None),
];
const URLS: [(&str, Option<Node>); 12] = [
    ("@url", Some(Node::First)),
    ("@url2", Some(Node::Second)),
    ("http://127.0.0.1:9", Some(Node::Dead)),
    ("mainnet-beta", Some(MAIN)),
    ("m", Some(MAIN)),
    ("devnet", Some(Node::Host("api.devnet.solana.com"))),
    ("d", Some(Node::Host("api.devnet.solana.com"))),
    ("testnet", Some(Node::Host("api.testnet.solana.com"))),
    ("t", Some(Node::Host("api.testnet.solana.com"))),
    ("localhost", Some(Node::Host("localhost:8899"))),
    ("nonsense", None),
    ("", None),
];
/// For --fee-payer: whose signature that gives, if the option is any good.
const PAYERS: [(&str, Option<&str>); 5] =
    [("@payer", Some("payer")), ("@other-payer", Some("other-payer")), ("@stranger", Some("stranger")), ("@dir/no-such-file.json", None), ("@dir/not-a-key.json", None)];

const COMMANDS: [&str; 8] = ["wrap", "unwrap", "create-mint", "create-escrow-account", "close-stuck-escrow", "sync-metadata-to-spl-token", "sync-metadata-to-token2022", "find-pdas"];

/// The command, to be paid for by `payer`.
fn command(svm: &mut Svm, cmd: &str, payer: &'static str) -> Case {
    let who = Who::File(payer);
    let (u, w) = (T22, TOKEN);
    let f = Format::Json;
    let mut c = match cmd {
        "wrap" | "unwrap" => {
            let s = scene(svm, u, w, &[]);
            let m = if cmd == "wrap" {
                Move { payer: who, src: s.u(payer), ..Move::wrap(&s, 7) }
            } else {
                Move { payer: who, src: s.wr(payer), dst: Some(s.u(payer)), ..Move::unwrap(&s, 7) }
            };
            m.case(cmd, &s.w, f)
        }
        "create-mint" | "create-escrow-account" => {
            let (mut world, m) = c19::bare(svm, u, &[]);
            world.fund(kp("stranger"), FUNDS);
            if cmd == "create-mint" {
                c19::create(svm, &world, &m, &w, false, who, f, cmd.into())
            } else {
                c19::escrow_case(svm, &world, &m, &w, false, who, f, cmd.into())
            }
        }
        "close-stuck-escrow" => {
            let s = stuck(svm, w);
            close_case(&s, &s.p.umint, &kp("holder"), &w, who, f, cmd.into())
        }
        "find-pdas" => {
            let s = scene(svm, u, w, &[]);
            find_pdas(&s, f).remove(0)
        }
        _ => {
            let to = if cmd.ends_with("2022") { T22 } else { TOKEN };
            let world = sync_world(svm, "no-pointer mpl");
            Sync { to, mint: um(), source: Some(mpl_of(&um())), owner: None, payer: who }.case(&world, f, cmd.into())
        }
    };
    c.global = vec![];
    c
}

/// One way of choosing node and payer, and what it chooses; None where
/// nothing may come of it.
#[derive(Clone, Debug)]
struct Setup {
    home: &'static str,
    opts: Vec<(String, String)>,
    chosen: Option<(Node, &'static str)>,
}
fn setups(ctx: &Ctx) -> Vec<Setup> {
    let mut v = vec![];
    for home in HOMES {
        for file in [None].into_iter().chain(FILES.iter().map(Some)) {
            for url in [None].into_iter().chain(URLS.iter().map(Some)) {
                for payer in [None].into_iter().chain(PAYERS.iter().map(Some)) {
                    // the moniker's meaning has nothing to do with the rest
                    let plain_url = url.map_or(true, |u| URLS[..3].contains(u));
                    if !ctx.thorough && !plain_url && (file.is_some() || !["", "home-second"].contains(&home)) {
                        continue;
                    }
                    let mut opts: Vec<(String, String)> = vec![];
                    let conf = match file {
                        None => Some(of_home(home)),
                        Some((f, c)) => {
                            opts.push(("-C".into(), format!("@dir/{f}")));
                            c.clone()
                        }
                    };
                    if let Some((u, _)) = url {
                        opts.push(("-u".into(), u.to_string()));
                    }
                    if let Some((p, _)) = payer {
                        opts.push(("--fee-payer".into(), p.to_string()));
                    }
                    let chosen = conf.and_then(|(n, k)| {
                        let node = url.map_or(Some(n), |u| u.1.clone())?;
                        let key = payer.map_or(k, |p| p.1)?;
                        Some((node, key))
                    });
                    v.push(Setup { home, opts, chosen });
                }
            }
        }
    }
    v
}

pub fn run(ctx: &Ctx, pool: &Pool) {
    let mut base = std::collections::BTreeMap::new();
    for c in COMMANDS {
        for p in ["payer", "other-payer", "stranger"] {
            base.insert((c, p), pool.one(|svm| command(svm, c, p)));
        }
    }
    let all = setups(ctx);
    let mut jobs: Vec<(&Case, &Setup, Vec<String>)> = vec![];
    for (i, s) in all.iter().enumerate() {
        for (k, cmd) in COMMANDS.iter().enumerate() {
            // every setup for two commands, every command for the simple setups
            if !ctx.thorough && s.opts.len() > 1 && (i + k) % 4 != 0 {
                continue;
            }
            let c = &base[&(*cmd, s.chosen.as_ref().map_or("payer", |c| c.1))];
            let long = |o: &str| if o == "-C" { "--config".to_string() } else if o == "-u" { "--url".into() } else { o.to_string() };
            let before: Vec<String> = s.opts.iter().flat_map(|(o, v)| [o.clone(), v.clone()]).collect();
            let after: Vec<String> = s.opts.iter().rev().map(|(o, v)| format!("{}={v}", long(o))).collect();
            let json = ["--output".to_string(), "json".into()];
            let mut forms = vec![[&before[..], &json, &c.args].concat()];
            if !s.opts.is_empty() && (i + k) % 3 == 0 || ctx.thorough {
                // `@...` needs a word of its own
                let words: Vec<String> = s.opts.iter().flat_map(|(o, v)| [long(o), v.clone()]).collect();
                forms.push([&c.args[..], &json, &words].concat());
                let (a, b) = words.split_at(words.len().min(2));
                forms.push([a, &c.args[..], b, &json].concat());
                if after.iter().all(|o| !o.contains("=@")) {
                    forms.push([&c.args[..], &after, &json].concat());
                }
            }
            for f in forms {
                jobs.push((c, s, f));
            }
        }
    }
    let rs = pool.map(&jobs, |svm, (c, s, args)| {
        ctx.state();
        let o = cli(svm, &c.world, args, &Plan { home: s.home, ..Default::default() });
        for _ in 0..=o.methods.len() {
            ctx.step();
        }
        let bad = |sig: &str, what: String| Err((sig.to_string(), what));
        let asked = !o.methods.is_empty();
        let r = match &s.chosen {
            _ if o.code == -3 => Ok(false),
            Some((Node::First, _)) if !o.elsewhere.is_empty() => bad("other-node", format!("asks {:?} too", o.elsewhere)),
            Some((Node::First, _)) => judge(svm, c, &o),
            None if o.code == 0 => bad("accepts", format!("succeeds though an option or the configuration cannot be read ({})", o.tail())),
            // what cannot be read may come to light late, but before submission
            None if o.world.acc != c.world.acc || !o.sent.is_empty() => bad("submits", format!("submits though an option or the configuration cannot be read ({})", o.tail())),
            None => Ok(false),
            Some((n, _)) if asked => bad("other-node", format!("asks a node that was not chosen, {n:?} was ({})", o.tail())),
            Some((n, _)) if o.code == 0 => bad("false-success", format!("succeeds though {n:?} answers nothing ({})", o.tail())),
            Some((Node::Dead, _)) if !o.elsewhere.is_empty() => bad("other-node", format!("asks {:?}", o.elsewhere)),
            Some((Node::Dead, _)) => Ok(false),
            Some((Node::Second, _)) if o.elsewhere.is_empty() || o.elsewhere.iter().any(|e| e != "second") => bad("other-node", format!("asks {:?} instead of the second node ({})", o.elsewhere, o.tail())),
            Some((Node::Second, _)) => Ok(true),
            Some((Node::Host(h), _)) if o.elsewhere.is_empty() || o.elsewhere.iter().any(|e| !e.contains(h)) => bad("other-node", format!("asks {:?} instead of {h} ({})", o.elsewhere, o.tail())),
            Some(_) => Ok(true),
        };
        count_bad(&r);
        if r.is_ok() {
            ctx.trace();
        }
        (r, o)
    });
    let mut ok = 0u64;
    for ((c, s, args), (r, o)) in jobs.iter().zip(rs) {
        match r {
            Ok(x) => {
                if x {
                    ctx.accept();
                    ok += 1;
                    if ok % 501 == 1 {
                        ctx.sample(json!({"home": s.home, "args": args, "chosen": format!("{:?}", s.chosen), "requests": o.methods, "elsewhere": o.elsewhere}));
                    }
                }
            }
            Err((sig, what)) => {
                let mut d = c.detail(&o);
                d["args"] = json!(args);
                d["setup"] = json!(format!("{s:?}"));
                d["elsewhere"] = json!(o.elsewhere);
                ctx.violate_json(&format!("chosen/{sig}"), format!("{} with {:?}, home {:?}: {what}", c.what, s.opts, s.home), d)
            }
        }
    }
    ctx.put("runs_chosen", jobs.len() as u64);
    ctx.put("runs_that_reached_the_chosen_node", ok);

    // formats that contradict each other, or are none
    let mut cases = vec![];
    for cmd in COMMANDS {
        let c = &base[&(cmd, "payer")];
        for (o, good) in [
            (&["--output", "yaml"][..], false), (&["--output", "JSON"], false), (&["--output"], false), (&["--output", "json", "-v"], false), (&["-v", "--output=display"], false),
            (&["--output=json"], true), (&["--output", "json-compact"], true), (&["--no-such-option"], false),
        ] {
            for after in [false, true] {
                let mut n = Case { what: format!("{cmd} {o:?}"), world: c.world.clone(), global: vec![], args: vec![], format: if o.contains(&"json-compact") { Format::Compact } else { Format::Json }, expect: c.expect.clone() };
                n.args = if after { [&c.args[..], &strs(o)].concat() } else { [&strs(o)[..], &c.args].concat() };
                if !good {
                    n.expect = Expect::Refuse;
                }
                cases.push(n);
            }
        }
    }
    let rs = pool.map(&cases, |svm, c| {
        ctx.state();
        let o = cli(svm, &c.world, &c.args, &Plan::default());
        for _ in 0..=o.methods.len() {
            ctx.step();
        }
        let r = judge(svm, c, &o);
        count_bad(&r);
        (r, o)
    });
    for (c, (r, o)) in cases.iter().zip(rs) {
        match r {
            Ok(x) => {
                ctx.trace();
                if x {
                    ctx.accept();
                }
            }
            Err((sig, what)) => ctx.violate_json(&format!("options/{sig}"), what, c.detail(&o)),
        }
    }

    // state that is processed but not confirmed is not what commands go by
    let mut jobs: Vec<(&Case, &str, Vec<String>, World)> = vec![];
    for cmd in COMMANDS {
        let c = &base[&(cmd, "payer")];
        let empty = World { epoch: 5, ..Default::default() };
        let after = match &c.expect {
            Expect::Submit(w) => pool.one(|svm| svm.exec(&c.world, &w.ixs).world),
            _ => empty.clone(),
        };
        let mut rich = c.world.clone();
        for a in [empty, after, {
            for k in c.world.acc.keys() {
                rich.edit(k, |a| a.lamports += 1_000_000_000);
            }
            if let Expect::Submit(w) = &c.expect {
                for m in w.ixs.iter().flat_map(|i| &i.accounts) {
                    if rich.get(&m.pubkey).is_none() {
                        rich.fund(m.pubkey, 1_000_000_000);
                    }
                }
            }
            rich
        }] {
            for o in [&[][..], &["-C", "@dir/config-processed.yml"]] {
                jobs.push((c, cmd, [&strs(o)[..], &strs(&["--output", "json"]), &c.args].concat(), a.clone()));
            }
        }
    }
    let rs = pool.map(&jobs, |svm, (c, _, args, unconfirmed)| {
        ctx.state();
        let o = cli(svm, &c.world, args, &Plan { processed: Some(Hidden(unconfirmed.clone())), ..Default::default() });
        for _ in 0..=o.methods.len() {
            ctx.step();
        }
        let r = judge(svm, c, &o);
        count_bad(&r);
        (r, o)
    });
    for ((c, _, args, _), (r, o)) in jobs.iter().zip(rs) {
        match r {
            Ok(_) => {
                ctx.trace();
                ctx.accept();
            }
            Err((sig, what)) => {
                let mut d = c.detail(&o);
                d["args"] = json!(args);
                ctx.violate_json(&format!("unconfirmed/{sig}"), format!("state that is not confirmed: {what}"), d)
            }
        }
    }
    ctx.bound(format!("{} setups: 7 home directories x 7 -C files x 13 -u values (monikers included) x 6 --fee-payer values, for the 8 commands, with options before, after and around the command; 8 sets of contradictory or unknown options; 3 unconfirmed states for every command", all.len()));
}
