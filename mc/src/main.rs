//! Explicit-state exploration of the real unixfs-v1 crate in lockstep with reference models.
//!
//! `mc check PROP TIER` supervises `mc child ...`, which enumerates every execution of every
//! scenario of the property within its bounds.

mod enc;
mod explore;
mod memo;
mod model;
mod props;
mod shm;

use explore::{explore, minimize, run_choices, Fail, Scenario, Stats};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: memo::Counting = memo::Counting;

thread_local! {
    static PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
}

pub fn take_panic() -> (String, String) {
    PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<panic>".into());
        let loc = info.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = (msg, loc));
    }));
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    fn parse(s: &str) -> Tier {
        match s {
            "quick" => Tier::Quick,
            "thorough" => Tier::Thorough,
            _ => die(&format!("unknown tier {s}")),
        }
    }
    fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    /// quick value or thorough value
    pub fn of<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

fn die(msg: &str) -> ! {
    eprintln!("mc: {msg}");
    std::process::exit(2)
}

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.get(1..).unwrap_or(&[]) {
        ["check", prop, tier] => std::process::exit(supervise(prop, Tier::parse(tier))),
        ["child", prop, tier, slots] => {
            install_hook();
            std::process::exit(child(prop, Tier::parse(tier), slots))
        }
        ["one", prop, tier, sc, choices] => {
            install_hook();
            let choices: Vec<u16> = choices.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            std::process::exit(one(prop, Tier::parse(tier), sc.parse().unwrap(), &choices, false))
        }
        ["replay", file] => {
            install_hook();
            let v: Value = serde_json::from_slice(&std::fs::read(file).unwrap_or_else(|e| die(&format!("{file}: {e}")))).unwrap();
            let tier = Tier::parse(v["tier"].as_str().unwrap());
            let prop = v["property"].as_str().unwrap();
            let name = v["scenario"].as_str().unwrap();
            let scs = props::scenarios(prop, tier);
            let i = scs.iter().position(|s| s.name == name).unwrap_or_else(|| die("no such scenario"));
            let choices: Vec<u16> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect();
            std::process::exit(one(prop, tier, i, &choices, true))
        }
        ["list"] => {
            for p in props::ALL {
                for t in [Tier::Quick, Tier::Thorough] {
                    for s in props::scenarios(p, t) {
                        println!("{p} {} {}: {}", t.name(), s.name, s.bounds);
                    }
                }
            }
        }
        _ => die("usage: mc check PROP quick|thorough | mc replay FILE | mc list"),
    }
}

fn one(prop: &str, tier: Tier, i: usize, choices: &[u16], verbose: bool) -> i32 {
    let scs = props::scenarios(prop, tier);
    let sc = &scs[i];
    let h = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, || run_choices(sc, choices, None))
            .unwrap()
            .join()
            .unwrap()
    });
    if verbose {
        println!("scenario {}: {}", sc.name, sc.bounds);
        for l in &h.2 {
            println!("  {l}");
        }
    }
    match h.0 {
        Ok(()) => {
            if verbose {
                println!("held");
            }
            0
        }
        Err(f) => {
            println!("FAIL [{}] {}", f.key, f.msg);
            1
        }
    }
}

// --- known findings -------------------------------------------------------------------------

/// (property, key, description)
fn known_findings() -> Vec<(String, String, String)> {
    let p = verif().join("known_findings.txt");
    let text = std::fs::read_to_string(&p).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines() {
        // known: property=C00 key="..." description
        if let Some(rest) = l.strip_prefix("known: property=") {
            let (prop, rest) = rest.split_once(' ').unwrap_or((rest, ""));
            if let Some(r) = rest.strip_prefix("key=\"") {
                if let Some((key, desc)) = r.split_once('"') {
                    out.push((prop.to_string(), key.to_string(), desc.trim().to_string()));
                }
            }
        }
    }
    out
}

// --- supervising process --------------------------------------------------------------------

fn limits(gb: u64) {
    unsafe {
        let r = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

fn supervise(prop: &str, tier: Tier) -> i32 {
    if !props::ALL.contains(&prop) {
        die(&format!("unknown property {prop}"));
    }
    let t0 = Instant::now();
    let dir = verif().join("target/run");
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(&format!("{}: {e}", dir.display())));
    std::fs::create_dir_all(verif().join("evidence")).ok();
    let slots_path = dir.join(format!("{prop}-{}-{}.slots", tier.name(), std::process::id()));
    let found_path = found_marker(&slots_path.to_string_lossy());
    let slots = shm::map(slots_path.to_str().unwrap(), true);
    let exe = std::env::current_exe().unwrap();
    let mut cmd = Command::new(&exe);
    cmd.args(["child", prop, tier.name(), slots_path.to_str().unwrap()]);
    unsafe {
        cmd.pre_exec(|| {
            limits(20);
            Ok(())
        });
    }
    let mut ch = cmd.spawn().unwrap_or_else(|e| die(&format!("spawn: {e}")));
    let mut seen: Vec<((u64, u64), Instant)> = slots.iter().map(|_| ((0, 0), Instant::now())).collect();
    let mut found_at: Option<Instant> = None;
    let mut hung = false;
    let status = loop {
        if let Ok(Some(st)) = ch.try_wait() {
            break st;
        }
        std::thread::sleep(Duration::from_millis(25));
        for (i, s) in slots.iter().enumerate() {
            let q = s.seq.load(Acquire);
            let now = (q, s.beats.load(Relaxed));
            if now != seen[i].0 {
                seen[i] = (now, Instant::now());
            } else if q & 1 == 1 && seen[i].1.elapsed() > Duration::from_secs(120) {
                hung = true;
            }
        }
        if found_at.is_none() && found_path.exists() {
            found_at = Some(Instant::now());
        }
        if hung || found_at.is_some_and(|t| t.elapsed() > Duration::from_secs(40)) {
            ch.kill().ok();
            break ch.wait().unwrap();
        }
    };
    let cleanup = || {
        std::fs::remove_file(&slots_path).ok();
        std::fs::remove_file(&found_path).ok();
    };
    if found_path.exists() {
        cleanup();
        return 1;
    }
    if let Some(c) = status.code() {
        if c == 0 || c == 1 || c == 2 {
            cleanup();
            return c;
        }
    }
    // The exploring process died (or was stopped because an execution did not end): find the
    // execution which does that by replaying the ones which were under way, each on its own.
    eprintln!("exploration ended abnormally ({status}, hung: {hung}), replaying the executions under way");
    let active: Vec<(usize, u32, Vec<u16>)> = slots
        .iter()
        .enumerate()
        .filter(|(_, s)| s.seq.load(Acquire) & 1 == 1)
        .map(|(i, s)| (i, s.scenario.load(Acquire), s.read()))
        .collect();
    cleanup();
    let scs = props::scenarios(prop, tier);
    for (_, sc, choices) in active {
        let joined = choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
        let mut cmd = Command::new(&exe);
        cmd.args(["one", prop, tier.name(), &sc.to_string(), &joined]).stdout(Stdio::piped()).stderr(Stdio::null());
        unsafe {
            cmd.pre_exec(|| {
                limits(4);
                Ok(())
            });
        }
        let mut c = cmd.spawn().unwrap();
        let start = Instant::now();
        let what = loop {
            if let Ok(Some(st)) = c.try_wait() {
                break match (st.code(), st.signal()) {
                    (Some(0), _) => None,
                    (Some(1), _) => {
                        let mut s = String::new();
                        use std::io::Read;
                        c.stdout.take().unwrap().read_to_string(&mut s).ok();
                        Some(s.trim().to_string())
                    }
                    (_, Some(sig)) => Some(format!("killed by signal {sig} (abort, stack overflow or out of memory)")),
                    (code, _) => Some(format!("exit code {code:?}")),
                };
            }
            if start.elapsed() > Duration::from_secs(120) {
                c.kill().ok();
                c.wait().ok();
                break Some("did not end within 120 s".into());
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        if let Some(what) = what {
            let sc = &scs[sc as usize];
            let f = Fail { key: format!("{}: abnormal end", sc.name), msg: what };
            let path = write_replay(prop, tier, sc, &choices, &f, &[]);
            println!("{}: {}", sc.name, f.msg);
            println!("VIOLATION property={prop} replay={}", path.display());
            write_evidence(prop, tier, &[], t0.elapsed().as_secs_f64(), vec![format!("{}: {}", sc.name, f.msg)], vec![]);
            return 1;
        }
    }
    eprintln!("no execution under way reproduces the abnormal end");
    2
}

fn found_marker(slots: &str) -> PathBuf {
    PathBuf::from(format!("{slots}.found"))
}

fn write_replay(prop: &str, tier: Tier, sc: &Scenario, choices: &[u16], f: &Fail, log: &[String]) -> PathBuf {
    let dir = verif().join("replays");
    std::fs::create_dir_all(&dir).ok();
    let path = dir.join(format!("{prop}-{}.json", sc.name.replace(' ', "-")));
    let v = json!({
        "property": prop, "tier": tier.name(), "scenario": sc.name, "choices": choices,
        "key": f.key, "what": f.msg, "log": log,
        "how": "bash /verif/run.sh replay <this file>",
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n").ok();
    path
}

// --- exploring process ----------------------------------------------------------------------

fn child(prop: &str, tier: Tier, slots_path: &str) -> i32 {
    let t0 = Instant::now();
    let slots = shm::map(slots_path, false);
    let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 32)
    });
    let scs = props::scenarios(prop, tier);
    let known: Vec<_> = known_findings().into_iter().filter(|k| k.0 == prop).collect();
    let is_known = |k: &str| known.iter().any(|x| x.1 == k);
    let cap = Duration::from_secs(std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.of(240, 780)));
    let end = t0 + cap;
    let mut results: Vec<(&Scenario, Stats)> = vec![];
    let mut printed: Vec<String> = vec![];
    let only = std::env::var("MC_ONLY").ok();
    for (i, sc) in scs.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != sc.name) {
            continue;
        }
        for s in slots {
            s.scenario.store(i as u32, Release);
        }
        let left = end.saturating_duration_since(Instant::now());
        let slice = left / ((scs.len() - i) as u32).min(3);
        let (st, found) = explore(sc, threads, slots, Instant::now() + slice, &is_known);
        println!(
            "{prop} {}: {} executions, {} states, {} transitions, {:.1} s{}",
            sc.name, st.executions, st.states, st.transitions, st.wall,
            if st.complete { "" } else { " (stopped at the time limit)" }
        );
        std::io::stdout().flush().ok();
        for (k, n, _) in &st.known {
            let line = format!("KNOWN-FINDING: property={prop} {} ({k})", known.iter().find(|x| &x.1 == k).unwrap().2);
            if !printed.contains(&line) {
                println!("{line}");
                printed.push(line);
            }
            let _ = n;
        }
        results.push((sc, st));
        if let Some((path, f)) = found {
            let choices: Vec<u16> = path.iter().map(|x| x.0).collect();
            let rp = write_replay(prop, tier, sc, &choices, &f, &[]);
            println!("{}: [{}] {}", sc.name, f.key, f.msg);
            println!("VIOLATION property={prop} replay={}", rp.display());
            std::io::stdout().flush().ok();
            std::fs::write(found_marker(slots_path), b"").ok();
            write_evidence(prop, tier, &results, t0.elapsed().as_secs_f64(), vec![format!("{}: {}", sc.name, f.msg)], vec![]);
            // a smaller execution that fails as well reads better
            let small = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                        let small = minimize(sc, &path, Instant::now() + Duration::from_secs(10));
                        let (r, p, log, _) = run_choices(sc, &small, None);
                        (r, p, log)
                    })
                    .unwrap()
                    .join()
            });
            if let Ok((Err(g), p, log)) = small {
                let c: Vec<u16> = p.iter().map(|x| x.0).collect();
                write_replay(prop, tier, sc, &c, &g, &log);
                println!("minimized: [{}] {}", g.key, g.msg);
            } else {
                println!("note: the failing execution does not fail every time it is repeated");
            }
            return 1;
        }
    }
    let samples = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, || {
                let mut samples = vec![];
                for (sc, st) in &results {
                    let mut done: Vec<&Vec<(u16, u16)>> = vec![];
                    for p in st.sample_paths.iter().rev().take(2) {
                        if done.contains(&p) {
                            continue;
                        }
                        done.push(p);
                        let c: Vec<u16> = p.iter().map(|x| x.0).collect();
                        let (r, _, mut log, _) = run_choices(sc, &c, None);
                        if log.len() > 24 {
                            let n = log.len() - 20;
                            log.splice(12..log.len() - 8, [format!("... {n} more steps ...")]);
                        }
                        for l in &mut log {
                            if l.len() > 300 {
                                let mut cut = 300;
                                while !l.is_char_boundary(cut) {
                                    cut -= 1;
                                }
                                l.truncate(cut);
                                l.push_str("...");
                            }
                        }
                        samples.push(json!({"scenario": sc.name, "choices": c.iter().take(200).collect::<Vec<_>>(), "steps": log, "verdict": if r.is_ok() {"conforms to the model"} else {"known finding"}}));
                    }
                }
                samples
            })
            .unwrap()
            .join()
            .unwrap_or_default()
    });
    write_evidence(prop, tier, &results, t0.elapsed().as_secs_f64(), vec![], samples);
    println!("{prop} {}: held on everything explored, {:.1} s", tier.name(), t0.elapsed().as_secs_f64());
    0
}

fn write_evidence(prop: &str, tier: Tier, results: &[(&Scenario, Stats)], wall: f64, violations: Vec<String>, samples: Vec<Value>) {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let states: u64 = results.iter().map(|r| r.1.states).sum();
    let transitions: u64 = results.iter().map(|r| r.1.transitions).sum();
    let traces: u64 = results.iter().map(|r| r.1.executions).sum();
    let exhaustive = !results.is_empty() && results.iter().all(|r| r.1.complete) && violations.is_empty();
    let per: Vec<Value> = results
        .iter()
        .map(|(sc, st)| {
            json!({"scenario": sc.name, "bounds": sc.bounds, "executions": st.executions, "states": st.states,
                   "states_is_lower_bound": st.states_capped, "distinct_outcomes": st.outcomes,
                   "transitions": st.transitions, "longest_choice_sequence": st.max_choices,
                   "complete_within_bounds": st.complete, "wall_s": st.wall})
        })
        .collect();
    let v = json!({
        "property": prop,
        "tier": tier.name(),
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "exhaustive": exhaustive,
            "samples": samples,
            "scenarios": per,
            "explanation": "Every combination of the choices of each scenario was executed on the real crate built from /repo, in lockstep with a reference model; each execution is one trace of the model validated against the implementation. States are distinct sequences of observations; transitions are calls into the implementation (or observations made on it).",
        },
        "assumptions": props::assumptions(prop),
        "violations": violations.len(),
        "violation_messages": violations,
        "wall_s": wall,
    });
    std::fs::create_dir_all(verif().join("evidence")).ok();
    std::fs::write(verif().join(format!("evidence/{prop}.json")), serde_json::to_string_pretty(&v).unwrap() + "\n").ok();
}
