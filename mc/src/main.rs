#![allow(dead_code)]
mod adv;
mod asyn;
mod attacks;
mod checks;
mod closed;
mod evid;
mod ext;
mod local;
mod node;
mod open;
mod proto;
mod report;
mod serial;
mod shapes;
mod sp;
mod sysrun;
mod world;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 || args[1] != "check" {
        eprintln!("usage: mc check <property> [--only <configuration>]");
        std::process::exit(2);
    }
    std::panic::set_hook(Box::new(|info| {
        report::LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
        if std::env::var("MC_PANICS").is_ok() {
            eprintln!("{info}");
        }
    }));
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let only = args.iter().position(|a| a == "--only").map(|i| args[i + 1].clone());
    let root = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
    let ctx = report::Ctx::new(&root, &args[2], thorough, seed, only);
    std::process::exit(checks::run(&ctx));
}
