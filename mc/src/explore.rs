//! Stateless exhaustive exploration over choice vectors.
//!
//! A scenario is a deterministic function of the answers given by `Cx::choose`. The explorer
//! enumerates every answer vector depth first; each one is one complete execution of the real
//! code in lockstep with a reference model. Workers share the tree by donating subtrees.

use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

use crate::shm::Slot;

/// A deviation of the implementation from the model.
#[derive(Clone, Debug)]
pub struct Fail {
    /// Stable identification of what failed, used to match known findings.
    pub key: String,
    pub msg: String,
}

pub type R<T = ()> = Result<T, Fail>;

pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> R<T> {
    Err(Fail { key: key.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $key:expr, $($arg:tt)*) => {
        if !$cond { return $crate::explore::fail($key, format!($($arg)*)); }
    };
}

/// FNV-1a style 64 bit hasher with a final mix; deterministic over runs.
#[derive(Clone, Copy)]
pub struct H64(pub u64);
impl Default for H64 {
    fn default() -> Self {
        H64(0xcbf29ce484222325)
    }
}
impl Hasher for H64 {
    fn write(&mut self, bytes: &[u8]) {
        let mut h = self.0;
        let mut it = bytes.chunks_exact(8);
        for c in &mut it {
            h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9E3779B97F4A7C15);
            h ^= h >> 29;
        }
        for b in it.remainder() {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        self.0 = h ^ (h >> 31);
    }
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x = (x ^ (x >> 32)).wrapping_mul(0xd6e8feb86659fd93);
        x ^ (x >> 32)
    }
}

#[derive(Default, Clone, Copy)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
pub type Set64 = HashSet<u64, BuildHasherDefault<Ident>>;

/// Upper bound of remembered state hashes per worker and scenario; beyond it the reported number
/// of states is a lower bound.
const STATE_CAP: usize = 3_000_000;

/// One execution.
pub struct Cx<'a> {
    prefix: &'a [(u16, u16)],
    pub path: Vec<(u16, u16)>,
    slot: Option<&'a Slot>,
    pub calls: u64,
    roll: H64,
    states: Option<&'a mut Set64>,
    pub log: Option<Vec<String>>,
    diverged: Option<String>,
}

impl<'a> Cx<'a> {
    pub fn replay(prefix: &'a [(u16, u16)], slot: Option<&'a Slot>) -> Self {
        Cx {
            prefix,
            path: Vec::new(),
            slot,
            calls: 0,
            roll: H64::default(),
            states: None,
            log: Some(Vec::new()),
            diverged: None,
        }
    }

    /// A nondeterministic choice of `0..n`.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0 && n < u16::MAX as usize, "bad choice arity {n}");
        if n == 1 {
            return 0;
        }
        let at = self.path.len();
        let c = match self.prefix.get(at) {
            Some(&(c, a)) => {
                if (a != 0 && a as usize != n) || c as usize >= n {
                    self.diverged = Some(format!("choice {at}: recorded {c} of {a}, now of {n}"));
                }
                (c as usize).min(n - 1)
            }
            None => 0,
        };
        self.path.push((c as u16, n as u16));
        if let Some(slot) = self.slot {
            slot.push(c as u16);
        }
        c
    }

    pub fn pick<'t, T>(&mut self, xs: &'t [T]) -> &'t T {
        &xs[self.choose(xs.len())]
    }

    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }

    /// Records one transition of the implementation with what was observed. The rolling hash of
    /// all observations of the execution identifies the state reached.
    /// Tells the supervisor that this execution is long but getting on.
    pub fn alive(&self) {
        if let Some(slot) = self.slot {
            slot.beats.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
    }

    pub fn step<T: Hash + ?Sized>(&mut self, observed: &T) {
        self.calls += 1;
        observed.hash(&mut self.roll);
        if let Some(s) = self.states.as_mut() {
            if s.len() < STATE_CAP {
                s.insert(self.roll.finish());
            }
        }
    }

    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = self.log.as_mut() {
            if l.len() < 400 {
                let mut s = f();
                if s.len() > 1200 {
                    let mut cut = 1200;
                    while !s.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    s.truncate(cut);
                    s.push_str("...");
                }
                l.push(s);
            }
        }
    }
}

pub type Run = Box<dyn Fn(&mut Cx) -> R + Send + Sync>;

pub struct Scenario {
    pub name: &'static str,
    /// The bounds in words, for the evidence.
    pub bounds: String,
    pub run: Run,
}

pub fn scenario(
    name: &'static str,
    bounds: impl Into<String>,
    run: impl Fn(&mut Cx) -> R + Send + Sync + 'static,
) -> Scenario {
    Scenario { name, bounds: bounds.into(), run: Box::new(run) }
}

/// Runs one execution, turning panics into failures.
pub fn execute(sc: &Scenario, cx: &mut Cx) -> R {
    let res = catch_unwind(AssertUnwindSafe(|| (sc.run)(cx)));
    let res = match res {
        Ok(r) => r,
        Err(_) => {
            let (msg, loc) = crate::take_panic();
            fail(format!("panic at {}", loc.rsplit_once(':').map(|x| x.0).unwrap_or(&loc).rsplit_once(':').map(|x| x.0).unwrap_or(&loc)), format!("panicked at {loc}: {msg}"))
        }
    };
    // The scenarios are functions of their choices and of what the library returns.
    match (res, cx.diverged.take()) {
        (Ok(()), Some(d)) => fail(NOT_REPEATED, format!("the same calls with the same arguments take another course than when they were made before: {d}")),
        (Ok(()), None) if cx.path.len() < cx.prefix.len() => {
            fail(NOT_REPEATED, format!("the same calls with the same arguments take another course than when they were made before: no more than {} choices", cx.path.len()))
        }
        (res, _) => res,
    }
}

/// The library's results depend on something besides the arguments.
const NOT_REPEATED: &str = "results are not repeated";

#[derive(Default, Clone)]
pub struct Stats {
    pub executions: u64,
    pub transitions: u64,
    pub states: u64,
    pub states_capped: bool,
    pub outcomes: u64,
    pub max_choices: usize,
    pub complete: bool,
    pub wall: f64,
    /// known findings seen: key -> (count, choices)
    pub known: Vec<(String, u64, Vec<u16>)>,
    pub sample_paths: Vec<Vec<(u16, u16)>>,
}

struct Job {
    /// choice, arity, limit (exclusive) of the choice within this job
    path: Vec<(u16, u16, u16)>,
    floor: usize,
}

struct Shared {
    queue: Mutex<(Vec<Job>, usize)>,
    cond: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    timed_out: AtomicBool,
    found: Mutex<Option<(Vec<(u16, u16)>, Fail)>>,
    executions: AtomicU64,
}

struct Local {
    states: Set64,
    outcomes: Set64,
    executions: u64,
    transitions: u64,
    max_choices: usize,
    known: Vec<(String, u64, Vec<u16>)>,
    longest: (u64, Vec<(u16, u16)>),
    first: Option<Vec<(u16, u16)>>,
}

/// Explores all executions of the scenario; stops at the first failure which is not known.
pub fn explore(
    sc: &Scenario,
    threads: usize,
    slots: &[Slot],
    deadline: Instant,
    is_known: &(dyn Fn(&str) -> bool + Sync),
) -> (Stats, Option<(Vec<(u16, u16)>, Fail)>) {
    let t0 = Instant::now();
    let shared = Shared {
        queue: Mutex::new((vec![Job { path: vec![], floor: 0 }], 0)),
        cond: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        timed_out: AtomicBool::new(false),
        found: Mutex::new(None),
        executions: AtomicU64::new(0),
    };
    let locals: Vec<Local> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|i| {
                let shared = &shared;
                let slot = &slots[i];
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || worker(sc, shared, slot, threads, deadline, is_known))
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("worker panicked")).collect()
    });
    let mut st = Stats::default();
    let mut states = Set64::default();
    let mut outcomes = Set64::default();
    for l in locals {
        st.executions += l.executions;
        st.transitions += l.transitions;
        st.max_choices = st.max_choices.max(l.max_choices);
        st.states_capped |= l.states.len() >= STATE_CAP;
        if states.is_empty() {
            states = l.states;
        } else {
            states.extend(l.states);
        }
        outcomes.extend(l.outcomes);
        for (k, n, p) in l.known {
            match st.known.iter_mut().find(|x| x.0 == k) {
                Some(x) => x.1 += n,
                None => st.known.push((k, n, p)),
            }
        }
        if let Some(f) = l.first {
            if st.sample_paths.is_empty() {
                st.sample_paths.push(f);
            }
        }
        if l.longest.0 > 0 && st.sample_paths.len() < 3 {
            st.sample_paths.push(l.longest.1);
        }
    }
    st.states = states.len() as u64;
    st.outcomes = outcomes.len() as u64;
    st.complete = !shared.timed_out.load(SeqCst);
    st.wall = t0.elapsed().as_secs_f64();
    let found = shared.found.into_inner().unwrap();
    (st, found)
}

fn worker(
    sc: &Scenario,
    sh: &Shared,
    slot: &Slot,
    threads: usize,
    deadline: Instant,
    is_known: &(dyn Fn(&str) -> bool + Sync),
) -> Local {
    let mut l = Local {
        states: Set64::default(),
        outcomes: Set64::default(),
        executions: 0,
        transitions: 0,
        max_choices: 0,
        known: vec![],
        longest: (0, vec![]),
        first: None,
    };
    let mut prefix: Vec<(u16, u16)> = Vec::new();
    let slow = Duration::from_millis(std::env::var("MC_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(3_600_000));
    loop {
        // take a job
        let mut job = {
            let mut q = sh.queue.lock().unwrap();
            loop {
                if sh.stop.load(SeqCst) {
                    return l;
                }
                if let Some(j) = q.0.pop() {
                    q.1 += 1;
                    break j;
                }
                if q.1 == 0 {
                    sh.cond.notify_all();
                    return l;
                }
                sh.idle.fetch_add(1, SeqCst);
                q = sh.cond.wait(q).unwrap();
                sh.idle.fetch_sub(1, SeqCst);
            }
        };
        loop {
            if sh.stop.load(Relaxed) {
                break;
            }
            prefix.clear();
            prefix.extend(job.path.iter().map(|x| (x.0, x.1)));
            slot.begin();
            let began = Instant::now();
            let mut cx = Cx {
                prefix: &prefix,
                path: Vec::with_capacity(32),
                slot: Some(slot),
                calls: 0,
                roll: H64::default(),
                states: Some(&mut l.states),
                log: None,
                diverged: None,
            };
            let res = execute(sc, &mut cx);
            slot.end();
            let took = began.elapsed();
            if took > slow {
                eprintln!("slow: {} {:?} {:.2} s", sc.name, cx.path.iter().map(|x| x.0).collect::<Vec<_>>(), took.as_secs_f64());
            }
            let path = std::mem::take(&mut cx.path);
            let calls = cx.calls;
            let roll = cx.roll.finish();
            l.executions += 1;
            l.transitions += calls;
            l.max_choices = l.max_choices.max(path.len());
            if l.outcomes.len() < STATE_CAP {
                l.outcomes.insert(roll);
            }
            if l.first.is_none() {
                l.first = Some(path.clone());
            }
            if calls > l.longest.0 {
                l.longest = (calls, path.clone());
            }
            if let Err(f) = res {
                if is_known(&f.key) {
                    match l.known.iter_mut().find(|x| x.0 == f.key) {
                        Some(x) => x.1 += 1,
                        None => l.known.push((f.key, 1, path.iter().map(|x| x.0).collect())),
                    }
                } else {
                    let mut found = sh.found.lock().unwrap();
                    if found.is_none() {
                        *found = Some((path.clone(), f));
                    }
                    sh.stop.store(true, SeqCst);
                    sh.cond.notify_all();
                    break;
                }
            }
            if l.executions % 64 == 0 {
                sh.executions.fetch_add(64, Relaxed);
                if Instant::now() > deadline {
                    sh.timed_out.store(true, SeqCst);
                    sh.stop.store(true, SeqCst);
                    sh.cond.notify_all();
                    break;
                }
            }
            // extend the job's path with the newly made choices, then advance the odometer
            for &(c, a) in path.iter().skip(job.path.len()) {
                job.path.push((c, a, a));
            }
            let mut more = false;
            while job.path.len() > job.floor {
                let last = job.path.last_mut().unwrap();
                if last.0 + 1 < last.2 {
                    last.0 += 1;
                    more = true;
                    break;
                }
                job.path.pop();
            }
            if !more {
                break;
            }
            // donate the shallowest remaining alternatives
            if sh.idle.load(Relaxed) > 0 && threads > 1 {
                if let Some(i) = (job.floor..job.path.len()).find(|&i| job.path[i].0 + 1 < job.path[i].2) {
                    let mut p: Vec<_> = job.path[..=i].to_vec();
                    p[i].0 += 1;
                    job.path[i].2 = job.path[i].0 + 1;
                    // levels above are fixed for the receiver
                    let mut q = sh.queue.lock().unwrap();
                    q.0.push(Job { path: p, floor: i });
                    sh.cond.notify_one();
                }
            }
        }
        let mut q = sh.queue.lock().unwrap();
        q.1 -= 1;
        if q.1 == 0 && q.0.is_empty() {
            sh.cond.notify_all();
        }
    }
}

/// Runs the scenario on given choices (missing ones are 0).
pub fn run_choices(sc: &Scenario, choices: &[u16], slot: Option<&Slot>) -> (R, Vec<(u16, u16)>, Vec<String>, u64) {
    let prefix: Vec<(u16, u16)> = choices.iter().map(|c| (*c, 0)).collect();
    if let Some(s) = slot {
        s.begin()
    }
    let mut cx = Cx::replay(&prefix, slot);
    let r = execute(sc, &mut cx);
    let path = std::mem::take(&mut cx.path);
    let log = cx.log.take().unwrap_or_default();
    (r, path, log, cx.roll.finish())
}

/// As `run_choices` but gives `None` when the choices do not fit the scenario.
fn try_choices(sc: &Scenario, choices: &[u16]) -> Option<(R, Vec<(u16, u16)>)> {
    let prefix: Vec<(u16, u16)> = choices.iter().map(|c| (*c, 0)).collect();
    let mut cx = Cx::replay(&prefix, None);
    cx.log = None;
    let res = catch_unwind(AssertUnwindSafe(|| (sc.run)(&mut cx)));
    if cx.diverged.is_some() {
        return None;
    }
    let path = std::mem::take(&mut cx.path);
    match res {
        Ok(r) => Some((r, path)),
        Err(_) => {
            crate::take_panic();
            Some((fail("panic", "panic"), path))
        }
    }
}

/// Greedily lowers choices while the execution keeps failing.
pub fn minimize(sc: &Scenario, path: &[(u16, u16)], deadline: Instant) -> Vec<u16> {
    let mut cur: Vec<u16> = path.iter().map(|x| x.0).collect();
    let mut progress = true;
    while progress && Instant::now() < deadline {
        progress = false;
        for i in 0..cur.len() {
            if Instant::now() > deadline || i >= cur.len() {
                break;
            }
            let was = cur[i];
            for v in 0..was.min(12) {
                let mut c = cur.clone();
                c[i] = v;
                let mut hit = None;
                for cand in [c.clone(), c[..=i].to_vec()] {
                    if let Some((Err(_), p)) = try_choices(sc, &cand) {
                        hit = Some(p);
                        break;
                    }
                }
                if let Some(p) = hit {
                    cur = p.iter().map(|x| x.0).collect();
                    progress = true;
                    break;
                }
            }
        }
    }
    cur
}
