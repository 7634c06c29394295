//! dst: deterministic simulation of cathlamet.
//!
//!   dst check <property> [--tier quick|thorough] [--seed N]   the registered checks
//!   dst replay <file>                                          re-execute a recorded violation
//!   dst trace <property> --run N [--seed N]                    show one generated run
//!   dst selftest [--runs N]                                    determinism of every scenario
//!   dst list                                                   properties and classes
//! (worker, exec, shrink, digest are internal)
mod interpose;
mod proto;
mod runner;
mod scen;

use std::process::exit;

#[global_allocator]
static ALLOCATOR: simrt::mem::Counting = simrt::mem::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.first().map(|s| s.as_str()).unwrap_or("");
    let rest = &args[1.min(args.len())..];
    let code = match cmd {
        "check" => runner::check(rest),
        "worker" => runner::worker(rest),
        "exec" => runner::exec(rest),
        "shrink" => runner::shrink_cmd(rest),
        "replay" => runner::replay(rest),
        "trace" => runner::trace(rest),
        "selftest" => runner::selftest(rest),
        "digest" => runner::digest(rest),
        "list" => {
            for p in scen::PROPS {
                println!("{} {:?}", p.id, p.owns);
            }
            0
        }
        _ => {
            eprintln!("usage: dst check|replay|trace|selftest|list ...");
            2
        }
    };
    exit(code);
}
