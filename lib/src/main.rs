#![allow(clippy::all)]
//! Properties that also concern the published library: C07 and C15.
mod c07;
mod c15;
use twmc::{core::*, report::Ctx};

pub const FORK: solana_pubkey::Pubkey = solana_pubkey::Pubkey::from_str_const("ForkoftheTokenWrapProgram1111111111111111111");

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let ctx = Ctx::new(&id);
    let env = Env::load();
    let fork = std::fs::read(std::env::var("TW_FORK").expect("TW_FORK")).expect("the second deployment");
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        hook(i);
        eprintln!("ERROR: the check itself failed");
        std::process::exit(2);
    }));
    let pool = Pool::with(&env, &[(FORK, fork)]);
    match id.as_str() {
        "C07" => c07::run(&ctx, &pool),
        "C15" => c15::run(&ctx, &pool),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
    let n = pool.execs();
    ctx.finish(n)
}
