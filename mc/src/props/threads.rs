//! C28: operations moved between threads and interleaved with each other, compared with each run
//! alone on one thread.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::{channel, Sender};
use std::sync::{Arc, OnceLock};

use unixfs_v1::dir::builder::{BufferingTreeBuilder, PostOrderIterator, TreeOptions};
use unixfs_v1::file::adder::{BalancedCollector, Chunker, FileAdder};
use unixfs_v1::symlink::serialize_symlink_block;
use unixfs_v1::{dagpb, Metadata};

use super::caches::{self, Caches, Machine};
use crate::enc::*;
use crate::ensure;
use crate::explore::*;
use crate::model::*;
use crate::Tier;

/// An operation in progress, and whatever it owns.
trait Op {
    /// One step; what is observed.
    fn step(&mut self) -> String;
    fn done(&self) -> bool;
}

/// Whether the operations are `Send` is checked on its own, for a report instead of a failing build.
struct Moved(Box<dyn Op>);
unsafe impl Send for Moved {}

/// A walk, visit or lookup with a cache of its own
struct Reading {
    m: Machine<'static>,
    k: Caches,
}

impl Op for Reading {
    fn step(&mut self) -> String {
        self.m.step(&mut self.k)
    }
    fn done(&self) -> bool {
        self.m.done()
    }
}

struct Import {
    a: Option<FileAdder>,
    rest: Vec<&'static [u8]>,
}

impl Op for Import {
    fn step(&mut self) -> String {
        let show = |bs: Vec<(libipld::Cid, Vec<u8>)>| bs.iter().map(|(c, b)| format!("{} {}", hex(&c.to_bytes()), hex(b))).collect::<Vec<_>>().join(", ");
        if self.rest.is_empty() {
            return show(self.a.take().unwrap().finish().collect());
        }
        let a = self.a.as_mut().unwrap();
        let now = self.rest.remove(0);
        let (it, n) = a.push(now);
        let blocks: Vec<_> = it.collect();
        if n > 0 && n < now.len() {
            self.rest.insert(0, &now[n..]);
        }
        format!("{n} of {}: {} {a:?}", now.len(), show(blocks))
    }
    fn done(&self) -> bool {
        self.a.is_none()
    }
}

enum Build {
    Adding(BufferingTreeBuilder, Vec<(&'static str, Option<u64>)>, Metadata),
    Building(PostOrderIterator),
    Built,
}

impl Op for Build {
    fn step(&mut self) -> String {
        match std::mem::replace(self, Build::Built) {
            Build::Adding(mut t, mut left, m) => {
                if left.is_empty() {
                    *self = Build::Building(t.build());
                    return "build".into();
                }
                let (path, size) = left.remove(0);
                let r = match size {
                    Some(n) => t.put_link(path, to_cid(&fake_cid(1, n as u32)), n),
                    None => t.set_metadata(path, m.clone()),
                };
                *self = Build::Adding(t, left, m);
                format!("{path} {r:?}")
            }
            Build::Building(mut it) => {
                let s = match it.next_borrowed() {
                    Some(Ok(n)) => format!("{:?} {} {} {}", n.path, hex(&n.cid.to_bytes()), n.total_size, hex(n.block)),
                    Some(Err(e)) => format!("{e:?}"),
                    None => return "end".into(),
                };
                *self = Build::Building(it);
                s
            }
            Build::Built => unreachable!(),
        }
    }
    fn done(&self) -> bool {
        matches!(self, Build::Built)
    }
}

/// Operations of a single call each, one after another, with their results kept over the steps.
struct Calls {
    at: usize,
    buffer: Vec<u8>,
    wrapped: Option<dagpb::NodeData<Vec<u8>>>,
}

impl Op for Calls {
    fn step(&mut self) -> String {
        self.at += 1;
        match self.at {
            1 | 2 => {
                serialize_symlink_block(if self.at == 1 { "target" } else { "../x" }, &mut self.buffer);
                hex(&self.buffer)
            }
            3 => {
                let w = dagpb::wrap_node_data(std::mem::take(&mut self.buffer));
                let s = format!("{w:?}");
                self.wrapped = w.ok();
                s
            }
            _ => {
                let w = self.wrapped.take().unwrap();
                format!("{} {}", hex(w.node_data()), hex(&w.into_inner()))
            }
        }
    }
    fn done(&self) -> bool {
        self.at == 4
    }
}

struct Case {
    what: String,
    /// No fewer than its steps on code which is right
    steps: usize,
    make: Arc<dyn Fn() -> Moved + Send + Sync>,
    solo: OnceLock<Vec<String>>,
}

impl Case {
    fn new(what: impl Into<String>, steps: usize, make: impl Fn() -> Box<dyn Op> + Send + Sync + 'static) -> Case {
        Case { what: what.into(), steps, make: Arc::new(move || Moved(make())), solo: OnceLock::new() }
    }
    /// Alone, on one thread
    fn solo(&self) -> &Vec<String> {
        self.solo.get_or_init(|| {
            let mut m = (self.make)();
            let mut v = vec![];
            while !m.0.done() {
                v.push(m.0.step());
                assert!(v.len() < 1000, "no end");
            }
            v
        })
    }
}

fn cases() -> Vec<Case> {
    let mut v = vec![];
    for cs in [caches::file_cases(), caches::lookup_cases()] {
        let cs: &'static Vec<caches::Case> = Box::leak(Box::new(cs));
        for c in cs {
            // a borrowed needle is moved together with what it borrows from
            v.push(Case::new(c.what(), c.blocks(), move || Box::new(Reading { m: Machine::new(c), k: Caches::default() })));
        }
    }
    const C: &[u8] = b"abcdefghijklmnop";
    for (what, steps, pushes, chunk, bf) in [
        ("import in chunks", 4, vec![&C[..2], &C[2..4], &C[4..6]], 2, 2),
        ("import in bytes", 6, vec![&C[..1], &C[1..2], &C[2..3], &C[3..4], &C[4..5]], 2, 2),
        ("import in one push", 6, vec![&C[..5]], 1, 2),
        ("import of a part of a chunk", 4, vec![&C[..3], &C[..0], &C[3..4]], 100, 174),
    ] {
        v.push(Case::new(what, steps, move || {
            let a = FileAdder::builder()
                .with_chunker(Chunker::Size(chunk))
                .with_collector(BalancedCollector::with_branching_factor(bf))
                .build();
            Box::new(Import { a: Some(a), rest: pushes.clone() })
        }));
    }
    for (what, steps, adds, wrap, limit) in [
        ("build", 7, vec![("a/b/x", Some(1)), ("a/y", Some(2)), ("a/b", None)], false, None),
        ("build of directories in directories", 6, vec![("a/x", Some(1)), ("a/b/y", Some(2))], false, None),
        ("wide build", 10, vec![("a/b/x", Some(1)), ("a/c/x", Some(2)), ("d/e", Some(3))], true, None),
        ("wrapped build", 7, vec![("a", Some(5)), ("b/c", Some(6)), ("b/c", Some(7))], true, None),
        ("build over the limit", 6, vec![("a/b/x", Some(1)), ("a/c", Some(2))], true, Some(60)),
    ] {
        v.push(Case::new(what, steps, move || {
            let mut o = TreeOptions::default();
            if wrap {
                o.wrap_with_directory();
            }
            o.block_size_limit(limit);
            let m = block(&[], &U { ty: DIR, mode: Some(0o750), ..U::default() });
            let m = unixfs_v1::FlatUnixFs::try_from(&m[..]).map(|f| Metadata::from(&f.data)).unwrap_or_default();
            Box::new(Build::Adding(BufferingTreeBuilder::new(o), adds.clone(), m))
        }));
    }
    v.push(Case::new("symlinks and data", 4, || Box::new(Calls { at: 0, buffer: vec![], wrapped: None })));
    v
}

type Job = Box<dyn FnOnce() + Send>;

/// New threads for each execution, so that whatever the code keeps per thread starts out new
struct Pool(Vec<Sender<Job>>, Vec<Option<std::thread::JoinHandle<()>>>);

impl Pool {
    fn new(n: usize) -> Pool {
        let mut p = Pool(vec![], vec![]);
        for _ in 0..n {
            let (tx, rx) = channel::<Job>();
            p.0.push(tx);
            p.1.push(Some(std::thread::spawn(move || {
                for job in rx {
                    job();
                }
            })));
        }
        p
    }

    fn step(&self, on: usize, mut m: Moved) -> R<(Moved, String)> {
        let (tx, rx) = channel();
        self.0[on]
            .send(Box::new(move || {
                let whole = &mut m;
                let r = catch_unwind(AssertUnwindSafe(|| whole.0.step())).map_err(|_| crate::take_panic());
                let _ = tx.send((m, r));
            }))
            .expect("the threads run as long as the pool");
        match rx.recv().expect("every step is answered") {
            (m, Ok(s)) => Ok((m, s)),
            (_, Err((msg, loc))) => fail("threads: panic", format!("panicked at {loc}: {msg}")),
        }
    }
}

impl Drop for Pool {
    fn drop(&mut self) {
        self.0.clear();
        for h in &mut self.1 {
            let _ = h.take().unwrap().join();
        }
    }
}

impl Pool {
    fn make(&self, on: usize, case: &Case) -> R<Moved> {
        let (tx, rx) = channel();
        let make = case.make.clone();
        self.0[on]
            .send(Box::new(move || {
                let r = catch_unwind(AssertUnwindSafe(|| make())).map_err(|_| crate::take_panic());
                let _ = tx.send(r);
            }))
            .expect("the threads run as long as the pool");
        match rx.recv().expect("every step is answered") {
            Ok(m) => Ok(m),
            Err((msg, loc)) => fail("threads: panic", format!("panicked at {loc}: {msg}")),
        }
    }
}

/// `n` operations; the steps in every order, and moved to the other thread `moves` times.
fn interleave(name: &'static str, cases: Arc<Vec<Case>>, n: usize, max_steps: usize, moves: usize) -> Scenario {
    let short: Vec<usize> = (0..cases.len()).filter(|i| cases[*i].steps <= max_steps).collect();
    let bounds = format!(
        "every interleaving of the steps of every {n} of {} operations of at most {max_steps} steps (also several times the same), each starting on {} of two new threads and moved to the other one before any {moves} of the steps; {}",
        short.len(),
        if n == 2 { "either" } else { "one" },
        if moves == 0 { "all created before the first step" } else { "each created just before its first step" },
    );
    scenario(name, bounds, move |cx| {
        let mut live: Vec<(usize, usize, usize, Option<Moved>)> = vec![];
        let pool = Pool::new(2);
        let mut from = 0;
        for _ in 0..n {
            from += cx.choose(short.len() - from);
            let on = match live.len() {
                1 if n == 2 => cx.choose(2),
                l => l % 2,
            };
            let c = short[from];
            // all of them before the first step of any, or each just before its own
            let early = match moves {
                0 => Some(pool.make(on, &cases[c])?),
                _ => None,
            };
            live.push((c, on, 0, early));
        }
        let mut moves = moves;
        while !live.is_empty() {
            let i = cx.choose(live.len());
            let (c, mut on, at, m) = live.remove(i);
            if moves > 0 && at > 0 && cx.flag() {
                on = 1 - on;
                moves -= 1;
            }
            let (case, want) = (&cases[c], cases[c].solo());
            ensure!(want.len() <= case.steps, "threads: more steps", "{} takes {} steps alone", case.what, want.len());
            let m = match m {
                Some(m) => m,
                None => pool.make(on, case)?,
            };
            let (m, got) = pool.step(on, m)?;
            cx.step(&(on, &got));
            cx.log(|| format!("thread {on}: {} step {at}: {got}", case.what));
            ensure!(at < want.len(), "threads: goes on", "{} goes on after its end with {got}", case.what);
            ensure!(got == want[at], "threads: changes the result", "step {at} of {} gives {got} instead of {}", case.what, want[at]);
            ensure!(m.0.done() == (at + 1 == want.len()), "threads: changes the end", "{} ends at another step", case.what);
            if m.0.done() {
                drop(m);
            } else {
                live.insert(i, (c, on, at + 1, Some(m)));
            }
        }
        Ok(())
    })
}

struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> No for Probe<T> {}
struct SendProbe<T: ?Sized>(std::marker::PhantomData<T>);
impl<T: ?Sized> No for SendProbe<T> {}
#[allow(dead_code)]
impl<T: ?Sized + Send> SendProbe<T> {
    const SEND: bool = true;
}
#[allow(dead_code)]
impl<T: ?Sized + Sync> Probe<T> {
    const SYNC: bool = true;
}

macro_rules! kinds {
    ($($t:ty),* $(,)?) => { vec![$((stringify!($t), <SendProbe<$t>>::SEND, <Probe<$t>>::SYNC)),*] };
}

fn kinds() -> Scenario {
    let all: Vec<(&'static str, bool, bool)> = kinds![
        unixfs_v1::walk::Walker,
        unixfs_v1::walk::ContinuedWalk<'static>,
        unixfs_v1::walk::FileSegment<'static>,
        unixfs_v1::walk::Error,
        unixfs_v1::file::visit::IdleFileVisit,
        unixfs_v1::file::visit::FileVisit,
        unixfs_v1::file::visit::Cache,
        unixfs_v1::file::FileReadFailed,
        unixfs_v1::file::FileError,
        unixfs_v1::file::adder::FileAdder,
        unixfs_v1::file::adder::FileAdderBuilder,
        unixfs_v1::file::adder::Chunker,
        unixfs_v1::file::adder::Collector,
        unixfs_v1::dir::ShardedLookup<'static>,
        unixfs_v1::dir::Cache,
        unixfs_v1::MaybeResolved<'static>,
        unixfs_v1::ResolveError,
        unixfs_v1::LookupError,
        BufferingTreeBuilder,
        PostOrderIterator,
        TreeOptions,
        unixfs_v1::dir::builder::OwnedTreeNode,
        unixfs_v1::dir::builder::TreeBuildingFailed,
        unixfs_v1::dir::builder::TreeConstructionFailed,
        dagpb::NodeData<Vec<u8>>,
        Metadata,
        unixfs_v1::InvalidCidInLink,
        unixfs_v1::UnexpectedNodeType,
        unixfs_v1::PBNode<'static>,
        unixfs_v1::PBLink<'static>,
        unixfs_v1::UnixFs<'static>,
        unixfs_v1::FlatUnixFs<'static>,
    ];
    scenario("kinds", format!("each of {} public types: may its values be moved to and shared with other threads", all.len()), move |cx| {
        let (t, send, sync) = *cx.pick(&all);
        cx.step(&(t, send, sync));
        ensure!(send, "threads: not Send", "values of {t} cannot be moved to another thread");
        ensure!(sync, "threads: not Sync", "values of {t} cannot be shared with another thread");
        Ok(())
    })
}

pub fn c28(tier: Tier) -> Vec<Scenario> {
    let c = Arc::new(cases());
    vec![
        kinds(),
        interleave("one operation", c.clone(), 1, 100, 100),
        interleave("two operations", c.clone(), 2, 5, tier.of(1, 2)),
        interleave("two operations in place", c.clone(), 2, tier.of(6, 9), 0),
        interleave("three operations", c, 3, 3, tier.of(0, 1)),
    ]
}
