use pv::run::*;
use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(id) = args.first().cloned() else {
        eprintln!("usage: pv PROPERTY [--replay FILE] [--suite NAME]");
        std::process::exit(3);
    };
    if id == "worker" {
        std::process::exit(pv::worker::run(args.get(1).map_or("", |s| s)));
    }
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let root = PathBuf::from(std::env::var("PV_ROOT").unwrap_or_else(|_| ".".into()));
    install_panic_hook();
    let Some(p) = pv::props::get(&id) else {
        eprintln!("unknown property {id}");
        std::process::exit(3);
    };
    // a run that takes far too long gives no answer rather than a wrong one
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|v| v == "thorough");
    let limit: u64 = std::env::var("PV_WATCHDOG").ok().and_then(|v| v.parse().ok()).unwrap_or(if thorough { 3400 } else { 840 });
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("ERROR: watchdog: no result after {limit} s");
        remove_scratch();
        std::process::exit(4);
    });
    if let Some(f) = opt("--replay") {
        let rc = replay(&p, &PathBuf::from(f));
        remove_scratch();
        std::process::exit(rc);
    }
    let cfg = Cfg {
        property: id.clone(),
        seed: std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1),
        thorough,
        scale: std::env::var("PV_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0),
        known: known(&root, &id),
        only: opt("--suite"),
        time: std::env::var("PV_TIME").ok().and_then(|v| v.parse().ok()).unwrap_or(if thorough { 2400.0 } else { 360.0 }),
    };
    let rc = run_prop(&p, &cfg, &root);
    remove_scratch();
    std::process::exit(rc);
}

/// Lines `known: property=<id> sig=<signature> <description>` of KNOWN_FINDINGS.txt.
fn known(root: &std::path::Path, id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root.join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut v = vec![];
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("known: property=")
            && let Some(rest) = rest.strip_prefix(&format!("{id} sig="))
        {
            let (sig, desc) = rest.split_once(' ').unwrap_or((rest, ""));
            v.push((sig.to_string(), desc.to_string()));
        }
    }
    v
}
