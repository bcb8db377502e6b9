//! Process isolation: the cases of a property run in worker processes, so that aborts, stack
//! overflows, sanitizer reports and runaway loops are observed instead of ending the check.
use crate::run::{Agg, Runner};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

/// CPU seconds one case may burn before it counts as not terminating.
const CPU_LIMIT: f64 = 75.0;
/// Wall-clock seconds without using any CPU time before a case counts as blocked for ever.
const IDLE_LIMIT: u64 = 100;

pub struct Opts<'a> {
    pub bin: PathBuf,
    pub env: Vec<(&'a str, String)>,
    /// only process deaths and sanitizer reports count (the worker's own oracle is ignored)
    pub deaths_only: bool,
    pub prop: &'a str,
    /// prefix for family names in reports
    pub label: &'a str,
    /// worker deaths that are no verdict are noted, not errors
    pub soft: bool,
}

struct W {
    child: Child,
    dir: PathBuf,
    last: (String, f64, Instant),
    killed: bool,
    soft: bool,
}

fn cpu_seconds(pid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let t: f64 = f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?;
    Some(t / unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64)
}

fn spawn(r: &Runner, o: &Opts, dir: &Path, shard: Option<(usize, usize)>, only: Option<(&str, u64)>) -> std::io::Result<Child> {
    let mut c = Command::new(&o.bin);
    c.arg("worker").arg(o.prop)
        .args(["--seed", &r.seed.to_string(), "--tier", if r.thorough { "thorough" } else { "quick" }])
        .args(["--dir", dir.to_str().unwrap()]);
    if let Some((k, n)) = shard {
        c.args(["--shard", &format!("{k}/{n}")]);
    }
    if let Some((f, i)) = only {
        c.args(["--family", f, "--index", &i.to_string()]);
    }
    for (k, v) in &o.env {
        c.env(k, v);
    }
    std::os::unix::process::CommandExt::process_group(&mut c, 0);
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(std::fs::File::create(dir.join("stderr"))?);
    c.spawn()
}

fn kill(c: &mut Child) {
    unsafe { libc::kill(-(c.id() as i32), libc::SIGKILL) };
    let _ = c.kill();
}
fn last_case(dir: &Path) -> String {
    let mut s = String::new();
    if let Ok(mut f) = std::fs::File::open(dir.join("last")) {
        let _ = f.read_to_string(&mut s);
    }
    s.lines().next().unwrap_or("").trim().to_string()
}
fn stderr_of(dir: &Path) -> String {
    let s = std::fs::read(dir.join("stderr")).unwrap_or_default();
    let s = String::from_utf8_lossy(&s).to_string();
    if let Some(p) = s.find("==ERROR:").or(s.find("WARNING: ThreadSanitizer")).or(s.find("runtime error:")).or(s.find("error: Undefined Behavior")) {
        return s[p.saturating_sub(10)..].chars().take(3000).collect();
    }
    let n = s.chars().count();
    s.chars().skip(n.saturating_sub(600)).collect()
}

enum End {
    Ok,
    Died(String),
    Hung,
}

fn wait(w: &mut W, deadline: Instant) -> Option<End> {
    if let Ok(Some(st)) = w.child.try_wait() {
        if w.killed {
            return Some(End::Hung);
        }
        if st.success() {
            return Some(End::Ok);
        }
        let why = match st.signal() {
            Some(s) => format!("killed by signal {s}"),
            None => format!("exit status {:?}", st.code()),
        };
        return Some(End::Died(why));
    }
    let now = last_case(&w.dir);
    let cpu = cpu_seconds(w.child.id()).unwrap_or(0.0);
    if now != w.last.0 {
        w.last = (now, cpu, Instant::now());
    } else if cpu - w.last.1 > CPU_LIMIT || (!w.soft && w.last.2.elapsed().as_secs() > IDLE_LIMIT && cpu - w.last.1 < 1.0) {
        w.killed = true;
        kill(&mut w.child);
    }
    if Instant::now() > deadline {
        kill(&mut w.child);
        let _ = w.child.wait();
        return Some(End::Died("WATCHDOG".into()));
    }
    None
}

/// Re-run one case alone and say whether it dies or hangs again.
fn confirm(r: &Runner, o: &Opts, base: &Path, fam: &str, idx: u64) -> Option<String> {
    let dir = base.join("confirm");
    let _ = std::fs::create_dir_all(&dir);
    let child = spawn(r, o, &dir, None, Some((fam, idx))).ok()?;
    let mut w = W { child, dir: dir.clone(), last: (String::new(), 0.0, Instant::now()), killed: false, soft: o.soft };
    let deadline = Instant::now() + Duration::from_secs(300);
    loop {
        match wait(&mut w, deadline) {
            None => std::thread::sleep(Duration::from_millis(20)),
            Some(End::Ok) => return None,
            Some(End::Hung) => return Some(format!("does not terminate: one case used more than {CPU_LIMIT} s of CPU time, or blocked for more than {IDLE_LIMIT} s")),
            Some(End::Died(why)) if why == "WATCHDOG" => return None,
            Some(End::Died(why)) => return Some(format!("the process died ({why}): {}", stderr_of(&dir))),
        }
    }
}

/// Run all cases of `o.prop` in worker processes and merge what they observed into `r`.
pub fn run(r: &mut Runner, o: &Opts) {
    let base = r.out_dir.join("target").join(format!("iso-{}-{}-{}", r.prop, o.label, std::process::id()));
    let _ = std::fs::remove_dir_all(&base);
    std::fs::create_dir_all(&base).expect("scratch");
    let t0 = Instant::now();
    if let Some((f, i)) = r.only.clone() {
        let f = f.strip_prefix(o.label).map(|x| x.trim_start_matches(':')).unwrap_or(&f).to_string();
        let dir = base.join("only");
        let _ = std::fs::create_dir_all(&dir);
        let child = spawn(r, o, &dir, None, Some((&f, i))).expect("spawn");
        let mut w = W { child, dir: dir.clone(), last: (String::new(), 0.0, Instant::now()), killed: false, soft: o.soft };
        let deadline = Instant::now() + Duration::from_secs(600);
        let end = loop {
            if let Some(e) = wait(&mut w, deadline) { break e; }
            std::thread::sleep(Duration::from_millis(20));
        };
        absorb(r, o, &dir);
        let msg = match end { End::Ok => None, End::Hung => Some("does not terminate".to_string()), End::Died(w) => Some(format!("the process died ({w}): {}", stderr_of(&dir))) };
        if let Some(m) = msg { r.agg.lock().unwrap().violations.push((f, i, m)); }
        let _ = std::fs::remove_dir_all(&base);
        return;
    }
    let n = r.threads;
    let deadline = Instant::now() + Duration::from_secs(if r.thorough { 6500 } else { 700 });
    let mut ws: Vec<Option<W>> = (0..n).map(|k| {
        let dir = base.join(format!("{k}"));
        std::fs::create_dir_all(&dir).unwrap();
        let child = spawn(r, o, &dir, Some((k, n)), None).expect("spawn worker");
        Some(W { child, dir, last: (String::new(), 0.0, Instant::now()), killed: false, soft: o.soft })
    }).collect();
    let mut deaths: Vec<(PathBuf, String)> = vec![];
    let mut stop_at: Option<Instant> = None;
    while ws.iter().any(|w| w.is_some()) {
        let bad = !deaths.is_empty() || !r.agg.lock().unwrap().violations.is_empty();
        if bad && stop_at.is_none() { stop_at = Some(Instant::now() + Duration::from_secs(20)); }
        if stop_at.is_some_and(|t| Instant::now() > t) {
            for w in ws.iter_mut().flatten() { kill(&mut w.child); let _ = w.child.wait(); }
            break;
        }
        for s in ws.iter_mut() {
            let Some(w) = s else { continue };
            let Some(end) = wait(w, deadline) else { continue };
            let dir = w.dir.clone();
            *s = None;
            match end {
                End::Ok => absorb(r, o, &dir),
                End::Hung => deaths.push((dir, "HUNG".into())),
                End::Died(why) => deaths.push((dir, why)),
            }
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    for (n, (dir, why)) in deaths.into_iter().enumerate() {
        if n > 1 && !r.agg.lock().unwrap().violations.is_empty() { break; }
        let last = last_case(&dir);
        let mut it = last.rsplitn(2, ' ');
        let idx: u64 = it.next().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
        let fam = it.next().unwrap_or("").to_string();
        let first = stderr_of(&dir);
        let mut a = r.agg.lock().unwrap();
        if why == "WATCHDOG" {
            a.errors.push(format!("{}: worker ran out of time at {last}", o.label));
            continue;
        }
        if fam.is_empty() {
            a.errors.push(format!("{}: worker ended before its first case ({why}): {first}", o.label));
            continue;
        }
        drop(a);
        if !r.agg.lock().unwrap().violations.is_empty() && why == "HUNG" { continue; }
        let again = (0..if why == "HUNG" { 2 } else { 5 }).find_map(|_| confirm(r, o, &base, &fam, idx));
        let mut a = r.agg.lock().unwrap();
        let famx = if o.label.is_empty() { fam.clone() } else { format!("{}:{fam}", o.label) };
        // under deaths_only a death that is no memory error or race belongs to another property
        let counts = |m: &str| !o.deaths_only || ["Sanitizer", "unsafe precondition", "wrong layout", "Undefined Behavior", "signal 11", "signal 7", "signal 4"].iter().any(|k| m.contains(k));
        let again = match again {
            Some(m) if !counts(&m) => {
                a.errors.push(format!("{famx}#{idx} ends its process, without a memory error: {m}"));
                continue;
            }
            x => x,
        };
        match again {
            Some(m) => a.violations.push((famx, idx, m)),
            // a sanitizer report is evidence by itself
            None if first.contains("Sanitizer") || first.contains("Undefined Behavior") => a.violations.push((famx, idx, first)),
            None => a.errors.push(format!("worker ended at {fam}#{idx} ({why}) but the case alone does not: {first}")),
        }
    }
    if o.soft {
        let errs: Vec<String> = std::mem::take(&mut r.agg.lock().unwrap().errors);
        for e in errs { eprintln!("[{}] {}: inconclusive: {e}", r.prop, o.label); r.assumptions.push(format!("inconclusive part: {}", e.chars().take(300).collect::<String>())); }
    }
    let _ = std::fs::remove_dir_all(&base);
    eprintln!("[{}] {} {} workers in {:.2}s", r.prop, o.label, n, t0.elapsed().as_secs_f64());
}

fn absorb(r: &mut Runner, o: &Opts, dir: &Path) {
    let v: Value = match std::fs::read(dir.join("partial.json")).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(v) => v,
        None => {
            r.agg.lock().unwrap().errors.push(format!("{}: worker left no results", o.label));
            return;
        }
    };
    let strs = |k: &str| -> Vec<String> { v[k].as_array().map(|a| a.iter().filter_map(|s| s.as_str().map(String::from)).collect()).unwrap_or_default() };
    if r.rules.is_empty() || !o.label.is_empty() {
        for s in strs("rules") { if !r.rules.contains(&s) { r.rules.push(s); } }
    }
    for s in strs("assumptions") { if !r.assumptions.contains(&s) { r.assumptions.push(s); } }
    if o.label.is_empty() {
        for s in strs("required") { if !r.required.iter().any(|x| *x == s) { r.required.push(Box::leak(s.into_boxed_str())); } }
    }
    r.evaluations.fetch_add(v["evaluations"].as_u64().unwrap_or(0), Ordering::SeqCst);
    let mut a = r.agg.lock().unwrap();
    for s in v["sigs"].as_array().unwrap_or(&vec![]) { a.sigs.insert(s.as_u64().unwrap_or(0)); }
    let name = |k: &str| if o.label.is_empty() { k.to_string() } else { format!("{}:{k}", o.label) };
    for (k, n) in v["counters"].as_object().into_iter().flatten() { *a.counters.entry(name(k)).or_default() += n.as_u64().unwrap_or(0); }
    for (k, n) in v["families"].as_object().into_iter().flatten() { *a.families.entry(name(k)).or_default() += n.as_u64().unwrap_or(0); }
    for (k, n) in v["sets"].as_object().into_iter().flatten() {
        let s: HashSet<u64> = n.as_array().map(|x| x.iter().filter_map(|y| y.as_u64()).collect()).unwrap_or_default();
        let key: &'static str = match a.sets.keys().find(|x| **x == k) { Some(x) => x, None => Box::leak(k.clone().into_boxed_str()) };
        a.sets.entry(key).or_default().extend(s);
    }
    for s in v["samples"].as_array().unwrap_or(&vec![]) {
        let f = s["family"].clone();
        if a.samples.iter().filter(|x| x["family"] == f).count() < 2 && a.samples.len() < 40 { a.samples.push(s.clone()); }
    }
    if !o.deaths_only {
        for x in v["violations"].as_array().unwrap_or(&vec![]) {
            a.violations.push((x[0].as_str().unwrap_or("").into(), x[1].as_u64().unwrap_or(0), x[2].as_str().unwrap_or("").into()));
        }
        for x in v["errors"].as_array().unwrap_or(&vec![]) { a.errors.push(x.as_str().unwrap_or("").into()); }
    }
}

pub fn write_partial(r: &Runner, a: &Agg, dir: &Path) -> i32 {
    let v = json!({
        "rules": r.rules, "assumptions": r.assumptions, "required": r.required,
        "evaluations": r.evaluations.load(Ordering::SeqCst),
        "sigs": a.sigs, "counters": a.counters, "sets": a.sets, "samples": a.samples, "families": a.families,
        "violations": a.violations, "errors": a.errors,
    });
    match std::fs::write(dir.join("partial.json"), serde_json::to_vec(&v).unwrap()) {
        Ok(()) => 0,
        Err(e) => { eprintln!("cannot write partial results: {e}"); 74 }
    }
}
