#![allow(clippy::all)]
//! Properties of the command line client, C18 to C22, C25 and C26: the real binary, run
//! against a node the checker controls; and of the JavaScript client, C23 and C24.
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod js;
mod node;
mod want;
use twmc::{core::*, report::Ctx};

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::new(&id);
    let env = Env::load();
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        hook(i);
        eprintln!("ERROR: the check itself failed");
        std::process::exit(2);
    }));
    let pool = Pool::new(&env);
    match id.as_str() {
        "C18" => c18::run(&ctx, &pool),
        "C19" => c19::run(&ctx, &pool),
        "C20" => c20::run(&ctx, &pool),
        "C21" => c21::run(&ctx, &pool),
        "C22" => c22::run(&ctx, &pool),
        "C23" => c23::run(&ctx, &pool),
        "C24" => c24::run(&ctx, &pool),
        "C25" => c25::run(&ctx, &pool),
        "C26" => c26::run(&ctx, &pool),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
    let n = pool.execs();
    use std::sync::atomic::Ordering::Relaxed;
    if ["C23", "C24"].contains(&id.as_str()) {
        ctx.put("js_calls", js::CALLS.load(Relaxed));
        ctx.put("js_calls_not_decided", js::UNMODELLED.load(Relaxed));
        ctx.assume("the JavaScript client runs on node with stand-ins for @solana/kit, @solana/program-client-core and @solana-program/{system,token,token-2022} written from their documentation, which are not installed here; the node is the checker's; instructions are executed on the SVM with the real Token Wrap, Token-2022 and Metaplex programs");
        ctx.finish(n)
    }
    ctx.put("cli_runs", node::RUNS.load(Relaxed) as u64);
    ctx.assume("the node the CLI talks to is the checker's: it verifies signatures and executes the submitted message on the SVM with the real Token Wrap, Token-2022 and Metaplex programs; fees are not charged");
    // what the workers left of their scratch directories
    let me = format!("twcli-{}-", std::process::id());
    for e in std::fs::read_dir(std::env::temp_dir()).into_iter().flatten().flatten() {
        if e.file_name().to_string_lossy().starts_with(&me) {
            let _ = std::fs::remove_dir_all(e.path());
        }
    }
    ctx.finish(n)
}
