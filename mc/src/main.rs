#![allow(clippy::all)]
use twmc::{core::*, props::*, report::{self, Ctx}};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("replay") {
        return report::replay(&args[2]);
    }
    let id = args.get(1).cloned().unwrap_or_default();
    let ctx = Ctx::new(&id);
    let env = Env::load();
    // A panic anywhere is an error of the check, never a verdict.
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        hook(i);
        eprintln!("ERROR: the check itself failed");
        std::process::exit(2);
    }));
    let pool = Pool::new(&env);
    use move_tokens::{set_oracle, Dir, Oracle};
    let both = [Dir::Wrap, Dir::Unwrap];
    match id.as_str() {
        "C01" => {
            set_oracle(Oracle::Books);
            for d in both {
                move_tokens::run(&ctx, &pool, d, &[]);
            }
            hooks::run(&ctx, &pool, &both);
            crossed::run(&ctx, &pool, &both);
            backing::c01(&ctx, &pool)
        }
        "C04" => {
            set_oracle(Oracle::Redeem);
            move_tokens::run(&ctx, &pool, Dir::Unwrap, &[]);
            hooks::run(&ctx, &pool, &[Dir::Unwrap]);
            backing::c04(&ctx, &pool)
        }
        "C05" => {
            set_oracle(Oracle::Verdict);
            for d in both {
                move_tokens::run(&ctx, &pool, d, &["conditions", "roles", "native", "wrapped-shape", "derivation"]);
            }
            hooks::run(&ctx, &pool, &both);
            authority::run(&ctx, &pool)
        }
        "C06" => substitute::run(&ctx, &pool),
        "C08" => lifecycle::c08(&ctx, &pool),
        "C09" => lifecycle::c09(&ctx, &pool),
        "C10" => {
            lifecycle::c10(&ctx, &pool);
            crossed::run_close(&ctx, &pool);
        }
        "C14" => lifecycle::c14(&ctx, &pool),
        "C11" => metadata::c11(&ctx, &pool),
        "C12" => metadata::c12(&ctx, &pool),
        "C13" => metadata::c13(&ctx, &pool),
        "C17" => customizers::run(&ctx, &pool),
        "C16" => hooks::run(&ctx, &pool, &both),
        "C27" => confidential::run(&ctx, &pool),
        "C02" | "C03" => {
            let d = if id == "C02" { Dir::Wrap } else { Dir::Unwrap };
            crossed::run(&ctx, &pool, &[d]);
            hooks::run(&ctx, &pool, &[d]);
            move_tokens::run(&ctx, &pool, d, &[])
        }
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
    let n = pool.execs();
    ctx.finish(n)
}
