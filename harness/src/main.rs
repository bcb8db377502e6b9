mod alloc;
mod canon;
mod codecs;
mod enums;
mod image;
mod io;
mod iso;
mod props;
mod rng;
mod run;
mod tiffmodel;

#[cfg_attr(not(miri), global_allocator)] // Miri checks layouts itself
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    run::install_panic_hook();
    let out = std::path::PathBuf::from(get("--out").unwrap_or_else(|| "/verif".into()));
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let prop = a.get(2).expect("property id").clone();
            let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let thorough = get("--tier").as_deref() == Some("thorough");
            let mut r = run::Runner::new(&prop, seed, thorough, out);
            if let (Some(f), Some(i)) = (get("--family"), get("--index")) {
                r.only = Some((f, i.parse().unwrap()));
            }
            std::process::exit(props::run(r));
        }
        Some("replay") => {
            let p = a.get(2).expect("replay file");
            let j: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(p).expect("read")).expect("json");
            let mut r = run::Runner::new(
                j["property"].as_str().unwrap(),
                j["seed"].as_u64().unwrap(),
                j["tier"] == "thorough",
                out,
            );
            r.only = Some((j["family"].as_str().unwrap().into(), j["index"].as_u64().unwrap()));
            std::process::exit(props::run(r));
        }
        Some("digest") => props::conc::print_digest(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap()),
        Some("canon") => props::history::print_canon(&a[2]),
        Some("selftest") => props::sani::selftest(a.get(2).map(|s| s.as_str()).unwrap_or("")),
        Some("worker") => {
            let prop = a.get(2).expect("property id").clone();
            let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let dir = std::path::PathBuf::from(get("--dir").expect("--dir"));
            let mut r = run::Runner::new(&prop, seed, get("--tier").as_deref() == Some("thorough"), out);
            r.last = Some(std::fs::File::create(dir.join("last")).expect("last"));
            r.worker_dir = Some(dir);
            alloc::REFUSE.store(16 << 30, std::sync::atomic::Ordering::Relaxed);
            r.threads = std::env::var("VMON_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            r.keep_going = std::env::var_os("VMON_KEEP_GOING").is_some();
            if let Some((k, n)) = get("--shard").and_then(|s| s.split_once('/').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap()))) {
                r.shard = Some((k, n));
            }
            if let (Some(f), Some(i)) = (get("--family"), get("--index")) {
                r.only = Some((f, i.parse().unwrap()));
            }
            std::process::exit(props::run(r));
        }
        _ => {
            eprintln!("usage: vmon run <ID> [--seed N] [--tier quick|thorough] | replay <file>");
            std::process::exit(64);
        }
    }
}
