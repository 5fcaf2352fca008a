mod code;
mod crash;
mod hostile;
mod nvim;
mod proc;
mod props;
mod runner;
mod sim;
mod tape;
mod text;
mod wire;
mod world;

use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let id = args.first().cloned().unwrap_or_default();
    let flag = |name: &str| -> Option<String> {
        args.iter()
            .position(|a| a == name)
            .and_then(|p| args.get(p + 1).cloned())
    };
    // Child processes of checks that need to be killed.
    if id.starts_with("__") {
        if std::env::var("USER").is_err() {
            std::env::set_var("USER", "verif");
        }
        props::child(&id, args.get(1).map_or("", String::as_str));
    }
    let Some(prop) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!(
            "usage: verif <ID> [--replay FILE] [--cases N] [--only I] [--keep-going]; ids: {}",
            props::all().iter().map(|p| p.id).collect::<Vec<_>>().join(" ")
        );
        std::process::exit(2);
    };
    // The name under which cursors are published.
    if std::env::var("USER").is_err() {
        std::env::set_var("USER", "verif");
    }
    runner::install_panic_hook();
    if let Some(f) = flag("--replay") {
        runner::replay(&prop, &PathBuf::from(f));
    }
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let opts = runner::Opts {
        thorough,
        cases: flag("--cases").and_then(|s| s.parse().ok()),
        only: flag("--only").and_then(|s| s.parse().ok()),
        keep_going: args.iter().any(|a| a == "--keep-going"),
        budget_s: flag("--budget")
            .and_then(|s| s.parse().ok())
            .unwrap_or(if thorough { 3600 } else { 600 }),
    };
    runner::run(&prop, &opts);
}
