//! C19: operations sharing a cache, in every interleaving, compared with each run alone.
use std::collections::HashMap;
use std::collections::VecDeque;
use std::ops::Range;
use std::sync::{Arc, OnceLock};

use libipld::Cid;
use unixfs_v1::dir;
use unixfs_v1::file::visit::{self, FileVisit, IdleFileVisit};
use unixfs_v1::walk::Walker;
use unixfs_v1::{resolve, MaybeResolved};

use super::resolve::{lookup_err, norm, pending_of_lookup, resolve_err, Got};
use crate::enc::*;
use crate::ensure;
use crate::explore::*;
use crate::model::*;
use crate::Tier;

pub type Blocks = HashMap<Vec<u8>, Vec<u8>>;

#[derive(Clone)]
pub enum Prog {
    Walk { name: &'static str },
    Visit { range: Option<Range<u64>> },
    /// resolves the segments one after another
    Lookup { path: Vec<&'static str>, owned: bool },
}

pub struct Case {
    what: &'static str,
    blocks: Blocks,
    root: Vec<u8>,
    prog: Prog,
    solo: OnceLock<Vec<String>>,
}

/// The caches operations share, one per kind.
#[derive(Default)]
pub struct Caches {
    files: Option<visit::Cache>,
    dirs: Option<dir::Cache>,
}

pub enum State<'c> {
    Walk(Box<Walker>),
    Visit(Option<FileVisit>),
    Seg(usize, Vec<u8>),
    Look(usize, Option<dir::ShardedLookup<'c>>),
    Done,
}

pub struct Machine<'c> {
    c: &'c Case,
    st: State<'c>,
    steps: usize,
}

fn show(p: &[Vec<u8>]) -> String {
    p.iter().map(|c| hex(c)).collect::<Vec<_>>().join(" ")
}

impl<'c> Machine<'c> {
    pub fn new(c: &'c Case) -> Machine<'c> {
        let st = match &c.prog {
            Prog::Walk { name } => State::Walk(Box::new(Walker::new(to_cid(&c.root), name.to_string()))),
            Prog::Visit { .. } => State::Visit(None),
            Prog::Lookup { .. } => State::Seg(0, c.root.clone()),
        };
        Machine { c, st, steps: 0 }
    }

    pub fn done(&self) -> bool {
        matches!(self.st, State::Done)
    }

    fn block(&self, cid: &[u8]) -> Result<&'c [u8], String> {
        self.c.blocks.get(cid).map(|b| &b[..]).ok_or_else(|| format!("asks for unknown block {}", hex(cid)))
    }

    /// One step; what is observed.
    pub fn step(&mut self, k: &mut Caches) -> String {
        self.steps += 1;
        let st = std::mem::replace(&mut self.st, State::Done);
        match st {
            State::Walk(mut w) => {
                let pend = pending_of_walk(&w);
                let b = match self.block(&pend[0]) {
                    Ok(b) => b,
                    Err(e) => return e,
                };
                let r = w.next(b, &mut k.files);
                let out = match &r {
                    Ok(s) => format!("{:?}", seen(s)),
                    Err(e) => format!("{e:?}"),
                };
                let more = w.should_continue();
                let pend = if more { show(&pending_of_walk(&w)) } else { String::new() };
                if more {
                    self.st = State::Walk(w);
                }
                format!("{out} more {more} [{pend}]")
            }
            State::Visit(v) => {
                let Prog::Visit { range } = &self.c.prog else { unreachable!() };
                let (out, next) = match v {
                    None => {
                        let mut idle = IdleFileVisit::default();
                        if let Some(r) = range {
                            idle = idle.with_target_range(r.clone());
                        }
                        let b = match self.block(&self.c.root) {
                            Ok(b) => b,
                            Err(e) => return e,
                        };
                        match idle.start(b) {
                            Ok((b, size, m, n)) => (format!("{} {size} {:?}", hex(b), meta_of(&m)), n),
                            Err(e) => (format!("{e:?}"), None),
                        }
                    }
                    Some(v) => {
                        let pend = pending_of_visit(&v);
                        let b = match self.block(&pend[0]) {
                            Ok(b) => b,
                            Err(e) => return e,
                        };
                        match v.continue_walk(b, &mut k.files) {
                            Ok((b, n)) => (hex(b), n),
                            Err(e) => (format!("{e:?}"), None),
                        }
                    }
                };
                let pend = match &next {
                    Some(n) => format!("{} {:?} [{}]", n.file_size(), meta_of(n.as_ref()), show(&pending_of_visit(n))),
                    None => "end".into(),
                };
                if next.is_some() {
                    self.st = State::Visit(next);
                }
                format!("{out} {pend}")
            }
            State::Seg(i, cid) => {
                let Prog::Lookup { path, .. } = &self.c.prog else { unreachable!() };
                let b = match self.block(&cid) {
                    Ok(b) => b,
                    Err(e) => return e,
                };
                let r = match resolve(b, path[i], &mut k.dirs) {
                    Ok(m) => Ok(m),
                    Err(e) => Err(resolve_err(&e)),
                };
                self.looked(i, r)
            }
            State::Look(i, l) => {
                let l = l.unwrap();
                let pend = pending_of_lookup(&l);
                let b = match self.block(&pend[0]) {
                    Ok(b) => b,
                    Err(e) => return e,
                };
                let r = match l.continue_walk(b, &mut k.dirs) {
                    Ok(m) => Ok(m),
                    Err(e) => Err(lookup_err(&e)),
                };
                self.looked(i, r)
            }
            State::Done => unreachable!(),
        }
    }

    fn looked(&mut self, i: usize, r: Result<MaybeResolved<'c>, String>) -> String {
        let Prog::Lookup { path, owned } = &self.c.prog else { unreachable!() };
        let (got, l) = match r {
            Ok(m) => norm(m),
            Err(e) => (Got::Err(e), None),
        };
        if let Some(l) = l {
            self.st = State::Look(i, Some(if *owned { l.with_owned_needle() } else { l }));
        } else if let Got::Found(c) = &got {
            if i + 1 < path.len() {
                self.st = State::Seg(i + 1, c.clone());
            }
        }
        format!("{got:?}")
    }
}

impl Case {
    pub fn blocks(&self) -> usize {
        self.blocks.len()
    }

    pub fn what(&self) -> &'static str {
        self.what
    }

    /// The operation on its own, with a new cache for every step.
    fn solo(&self) -> &Vec<String> {
        self.solo.get_or_init(|| {
            let mut m = Machine::new(self);
            let mut v = vec![];
            if std::env::var_os("MC_SOLO").is_some() {
                let mut m = Machine::new(self);
                while !m.done() {
                    eprintln!("{}: {}", self.what, m.step(&mut Caches::default()));
                }
            }
            while !m.done() {
                v.push(m.step(&mut Caches::default()));
                assert!(v.len() < 1000, "no end");
            }
            v
        })
    }
}

fn advance(cx: &mut Cx, m: &mut Machine, k: &mut Caches) -> R {
    let want = m.c.solo();
    let i = m.steps;
    let got = m.step(k);
    cx.step(&got);
    cx.log(|| format!("{} step {i}: {got}", m.c.what));
    ensure!(i < want.len(), "cache: goes on", "{} goes on after its end with {got}", m.c.what);
    ensure!(got == want[i], "cache: changes the result", "step {i} of {} gives {got} instead of {}", m.c.what, want[i]);
    ensure!(m.done() == (i + 1 == want.len()), "cache: changes the end", "{} ends at another step", m.c.what);
    Ok(())
}

/// A cache to start with.
fn start(kind: usize) -> Caches {
    // short of, or beyond, what the operations have pending themselves
    let n = if kind == 3 { 300 } else { 3 };
    let junk: Vec<(Cid, Range<u64>)> = (0..n).map(|i| (to_cid(&fake_cid(0, 900 + i)), 0..5)).collect();
    match kind {
        0 => Caches::default(),
        1 => Caches { files: Some(visit::Cache::default()), dirs: Some(VecDeque::new().into()) },
        _ => Caches { dirs: Some(junk.iter().map(|x| x.0).collect::<VecDeque<_>>().into()), files: Some(junk.into()) },
    }
}

fn case(what: &'static str, list: Vec<(Vec<u8>, Vec<u8>)>, prog: Prog) -> Case {
    let root = list[0].0.clone();
    Case { what, blocks: list.into_iter().collect(), root, prog, solo: OnceLock::new() }
}

fn id(n: u32) -> Vec<u8> {
    fake_cid(4, n)
}

fn leaf_block(d: &[u8]) -> Vec<u8> {
    block(&[], &U { ty: FILE, data: Some(d.to_vec()), filesize: Some(d.len() as u64), ..U::default() })
}

fn inner_block(kids: &[(Vec<u8>, u64)], mode: Option<u32>) -> Vec<u8> {
    let links: Vec<L> = kids.iter().map(|(c, s)| L::new(c, "", *s)).collect();
    block(&links, &U { ty: FILE, filesize: Some(kids.iter().map(|k| k.1).sum()), blocksizes: kids.iter().map(|k| k.1).collect(), mode, ..U::default() })
}

fn dir_block(kids: &[(&str, Vec<u8>)], mode: Option<u32>) -> Vec<u8> {
    let links: Vec<L> = kids.iter().map(|(n, c)| L::new(c, n, 1)).collect();
    block(&links, &U { ty: DIR, mode, ..U::default() })
}

fn shard_block(kids: &[(&str, Vec<u8>)]) -> Vec<u8> {
    let links: Vec<L> = kids.iter().map(|(n, c)| L::new(c, n, 1)).collect();
    block(&links, &U { data: Some(vec![1]), ..U::shard() })
}

/// Walks and visits; `base` keeps the CIDs of the cases apart.
pub fn file_cases() -> Vec<Case> {
    let mut base = 0;
    let mut next = || {
        base += 100;
        base
    };
    let two = |b: u32, mode| {
        vec![
            (id(b), inner_block(&[(id(b + 1), 2), (id(b + 2), 3)], mode)),
            (id(b + 1), leaf_block(b"ab")),
            (id(b + 2), leaf_block(b"cde")),
        ]
    };
    let deep = |b: u32| {
        vec![
            (id(b), inner_block(&[(id(b + 1), 4), (id(b + 2), 3)], None)),
            (id(b + 1), inner_block(&[(id(b + 3), 1), (id(b + 4), 3)], None)),
            (id(b + 2), leaf_block(b"xyz")),
            (id(b + 3), leaf_block(b"1")),
            (id(b + 4), leaf_block(b"234")),
        ]
    };
    let mut v = vec![];
    v.push(case("visit of two leaves", two(next(), Some(0o644)), Prog::Visit { range: None }));
    v.push(case("visit of a deep file", deep(next()), Prog::Visit { range: None }));
    v.push(case("visit of a range", deep(next()), Prog::Visit { range: Some(1..3) }));
    v.push(case("visit of a range after the end", deep(next()), Prog::Visit { range: Some(100..200) }));
    v.push(case("walk of a file", two(next(), None), Prog::Walk { name: "f" }));
    {
        // two multi-block files in a directory, with a symlink between
        let b = next();
        let mut l = vec![(id(b), dir_block(&[("f", id(b + 10)), ("g", id(b + 3)), ("h", id(b + 20))], Some(0o755)))];
        l.extend(two(b + 10, Some(0o600)));
        l.extend(two(b + 20, None));
        l.push((id(b + 3), block(&[], &U { ty: SYM, data: Some(b"to".to_vec()), ..U::default() })));
        v.push(case("walk of two files", l, Prog::Walk { name: "" }));
    }
    {
        let b = next();
        let mut l = vec![(id(b), shard_block(&[("00", id(b + 1)), ("01z", id(b + 10))])), (id(b + 1), shard_block(&[("AAf", id(b + 20))]))];
        l.extend(two(b + 10, None));
        l.push((id(b + 20), leaf_block(b"q")));
        v.push(case("walk of shards", l, Prog::Walk { name: "s" }));
    }
    {
        // fails at the second leaf
        let b = next();
        let mut l = two(b, None);
        l[2].1 = b"\x0a\x05junk!".to_vec();
        v.push(case("visit failing at a leaf", l.clone(), Prog::Visit { range: None }));
        v.push(case("walk failing at a leaf", l, Prog::Walk { name: "f" }));
    }
    {
        // the second link is broken
        let b = next();
        let links = [L::new(&id(b + 1), "", 2), L::new(&[1, 2, 3], "", 2)];
        let l = vec![(id(b), block(&links, &U { ty: FILE, filesize: Some(4), blocksizes: vec![2, 2], ..U::default() })), (id(b + 1), leaf_block(b"ab"))];
        v.push(case("visit failing at a link", l.clone(), Prog::Visit { range: None }));
        v.push(case("walk failing at a link", l, Prog::Walk { name: "" }));
    }
    {
        // fails at a link inside of a file, with links pending
        let b = next();
        let links = [L::new(&id(b + 3), "", 2), L::new(&[9], "", 2)];
        let l = vec![
            (id(b), inner_block(&[(id(b + 1), 4), (id(b + 2), 3)], None)),
            (id(b + 1), block(&links, &U { ty: FILE, filesize: Some(4), blocksizes: vec![2, 2], ..U::default() })),
            (id(b + 2), leaf_block(b"xyz")),
        ];
        v.push(case("visit failing at an inner link", l.clone(), Prog::Visit { range: None }));
        let mut m = vec![(id(b + 50), dir_block(&[("a", id(b)), ("b", id(b + 2))], None))];
        m.extend(l);
        v.push(case("walk failing at an inner link", m, Prog::Walk { name: "" }));
    }
    {
        let b = next();
        let mut l = vec![(id(b), dir_block(&[("d", id(b + 1)), ("f", id(b + 10))], None)), (id(b + 1), dir_block(&[], Some(1)))];
        l.extend(deep(b + 10));
        v.push(case("walk of a directory with a deep file", l, Prog::Walk { name: "x/y" }));
    }
    v
}

pub fn lookup_cases() -> Vec<Case> {
    let mut base = 0;
    let mut next = || {
        base += 100;
        base
    };
    let look = |path: &[&'static str], owned| Prog::Lookup { path: path.to_vec(), owned };
    let mut v = vec![];
    let tree = |b: u32| {
        vec![
            (id(b), shard_block(&[("00", id(b + 1)), ("01", id(b + 2)), ("02first", id(b + 50))])),
            (id(b + 1), shard_block(&[("10a", id(b + 51)), ("11", id(b + 3))])),
            (id(b + 2), shard_block(&[("20b", id(b + 52)), ("FF", id(b + 4))])),
            (id(b + 3), shard_block(&[("30c", id(b + 53))])),
            (id(b + 4), shard_block(&[])),
        ]
    };
    v.push(case("found at once, buckets left", tree(next()), look(&["first"], false)));
    v.push(case("found in a bucket", tree(next()), look(&["a"], false)));
    v.push(case("found in the other bucket", tree(next()), look(&["b"], true)));
    v.push(case("found in the last bucket", tree(next()), look(&["c"], false)));
    v.push(case("not found", tree(next()), look(&["zz"], true)));
    {
        // two segments: a shard, then a shard
        let b = next();
        let mut l = vec![(id(b), shard_block(&[("00", id(b + 9)), ("02x", id(b + 10))]))];
        l.extend(tree(b + 10));
        v.push(case("two segments", l, look(&["x", "b"], false)));
    }
    {
        let b = next();
        let l = vec![(id(b), dir_block(&[("d", id(b + 1)), ("e", id(b + 2))], None)), (id(b + 1), shard_block(&[("00", id(b + 2))])), (id(b + 2), shard_block(&[]))];
        v.push(case("plain then empty shards", l, look(&["d", "n"], false)));
    }
    {
        let b = next();
        let mut l = tree(b);
        l[1].1 = b"\x0a\x09junk".to_vec();
        v.push(case("unreadable bucket", l, look(&["b"], false)));
        let mut l = tree(next());
        l[2].1 = node(&[], None);
        v.push(case("empty bucket", l, look(&["zz"], false)));
        let mut l = tree(next());
        l[1].1 = leaf_block(b"file");
        v.push(case("file for a bucket", l, look(&["b"], true)));
        let b = next();
        let mut l = tree(b);
        l[1].1 = shard_block(&[("11", id(b + 3)), ("10a", id(b + 51)), ("12a", id(b + 52))]);
        v.push(case("several matches", l, look(&["a"], false)));
        let b = next();
        let mut l = tree(b);
        l[0].1 = shard_block(&[("00", id(b + 1)), ("10a", id(b + 51)), ("12a", id(b + 52))]);
        v.push(case("several matches at once", l, look(&["a"], false)));
        let b = next();
        let mut l = tree(b);
        l[0].1 = shard_block(&[("00", id(b + 1)), ("01", vec![1, 2])]);
        v.push(case("broken bucket link", l, look(&["a"], false)));
        let mut l = tree(next());
        l[0].1 = block(&[], &U { ty: HAMT, hash_type: Some(1), fanout: Some(256), ..U::default() });
        v.push(case("unsupported shard", l, look(&["a"], false)));
        let b = next();
        let l = vec![(id(b), dir_block(&[("d", id(b + 1))], None))];
        v.push(case("not in a plain directory", l, look(&["x"], false)));
    }
    v
}

/// Operations which end, or fail, with hundreds of links pending, and short ones.
fn wide_cases() -> Vec<Case> {
    const N: u32 = 300;
    let name = |i: u32| format!("{:X}{:X}", i / 16 % 16, i % 16);
    let mut v = vec![];
    let look = |path: &[&'static str]| Prog::Lookup { path: path.to_vec(), owned: false };
    let shard = |b: u32, found: u32| {
        let mut kids: Vec<(String, Vec<u8>)> = (0..N).map(|i| (name(i), id(b + 10 + i))).collect();
        kids.insert(found as usize, ("00first".into(), id(b + 1)));
        let kids: Vec<(&str, Vec<u8>)> = kids.iter().map(|(n, c)| (n.as_str(), c.clone())).collect();
        shard_block(&kids)
    };
    for (what, found) in [("found before 300 buckets", 0), ("found behind 300 buckets", N)] {
        let b = 1000 * (found + 1);
        v.push(case(what, vec![(id(b), shard(b, found))], look(&["first"])));
        v.push(case("found with 300 buckets pending", vec![(id(b), shard(b, found)), (id(b + 10), shard_block(&[("10x", id(b + 9))]))], look(&["x"])));
        v.push(case("unreadable with 300 buckets pending", vec![(id(b), shard(b, found)), (id(b + 10), b"\x0a\x09junk".to_vec())], look(&["x"])));
        v.push(case("no data with 300 buckets pending", vec![(id(b), shard(b, found)), (id(b + 10), node(&[], None))], look(&["x"])));
        // fails for the files
        let kids: Vec<(Vec<u8>, u64)> = (0..N).map(|i| (id(b + 400 + i), 1)).collect();
        let l = vec![(id(b + 399), inner_block(&kids, None)), (id(b + 400), leaf_block(b"a")), (id(b + 401), b"\x0a\x05junk!".to_vec())];
        v.push(case("visit failing with 300 links pending", l.clone(), Prog::Visit { range: None }));
        v.push(case("walk failing with 300 links pending", l, Prog::Walk { name: "" }));
    }
    {
        let b = 600_000;
        v.push(case("not found", vec![(id(b), shard_block(&[("00", id(b + 1))])), (id(b + 1), shard_block(&[]))], look(&["x"])));
        v.push(case("not found at once", vec![(id(b), shard_block(&[("00y", id(b + 1))]))], look(&["x"])));
        v.push(case("found in a bucket", vec![(id(b), shard_block(&[("00", id(b + 1))])), (id(b + 1), shard_block(&[("00x", id(b + 2))]))], look(&["x"])));
        let l = vec![(id(b), inner_block(&[(id(b + 1), 2), (id(b + 2), 3)], None)), (id(b + 1), leaf_block(b"ab")), (id(b + 2), leaf_block(b"cde"))];
        v.push(case("visit of two leaves", l.clone(), Prog::Visit { range: None }));
        v.push(case("walk of two leaves", l, Prog::Walk { name: "f" }));
    }
    v
}

/// All interleavings of `n` operations.
fn interleave(name: &'static str, cases: Arc<Vec<Case>>, n: usize, max_steps: usize, starts: usize, resets: bool) -> Scenario {
    let short: Vec<usize> = {
        // the number of blocks bounds the steps
        (0..cases.len()).filter(|i| cases[*i].blocks.len() <= max_steps).collect()
    };
    let bounds = format!(
        "every interleaving of the steps of every {n} of {} operations (also several times the same), {starts} kinds of initial cache{}",
        short.len(),
        if resets { ", the cache taken away or replaced by a new one before any one step" } else { "" }
    );
    scenario(name, bounds, move |cx| {
        let mut k = start(cx.choose(starts));
        let mut picks = vec![];
        let mut from = 0;
        for _ in 0..n {
            from += cx.choose(short.len() - from);
            picks.push(short[from]);
        }
        let mut ms: Vec<Machine> = picks.iter().map(|i| Machine::new(&cases[*i])).collect();
        let mut reset = resets;
        loop {
            let live: Vec<usize> = (0..n).filter(|i| !ms[*i].done()).collect();
            if live.is_empty() {
                return Ok(());
            }
            if reset {
                match cx.choose(3) {
                    0 => {}
                    x => {
                        reset = false;
                        k = start(x - 1);
                        cx.log(|| "cache replaced".into());
                    }
                }
            }
            let i = live[cx.choose(live.len())];
            advance(cx, &mut ms[i], &mut k)?;
        }
    })
}

/// Operations one after another, each abandoned at any of its steps or run to its end.
fn serial(name: &'static str, cases: Arc<Vec<Case>>, n: usize) -> Scenario {
    scenario(
        name,
        format!("every sequence of {n} of {} operations sharing a cache, each run to its end or abandoned after any of its steps, 4 kinds of initial cache", cases.len()),
        move |cx| {
            let mut k = start(cx.choose(4));
            for i in 0..n {
                let c = &cases[cx.choose(cases.len())];
                let mut m = Machine::new(c);
                let len = c.solo().len();
                let stop = if i + 1 == n { len } else { len - cx.choose(len) };
                for _ in 0..stop {
                    advance(cx, &mut m, &mut k)?;
                }
            }
            Ok(())
        },
    )
}

pub fn c19(tier: Tier) -> Vec<Scenario> {
    let f = Arc::new(file_cases());
    let l = Arc::new(lookup_cases());
    vec![
        interleave("two files", f.clone(), 2, 100, 3, false),
        interleave("two files and new caches", f.clone(), 2, tier.of(5, 7), 3, true),
        interleave("three files", f.clone(), 3, tier.of(3, 5), 3, false),
        interleave("two lookups", l.clone(), 2, 100, 3, true),
        interleave("three lookups", l.clone(), 3, 100, tier.of(1, 3), false),
        serial("files in sequence", f, tier.of(3, 4)),
        serial("lookups in sequence", l, tier.of(4, 5)),
        serial("hundreds pending", Arc::new(wide_cases()), tier.of(3, 4)),
    ]
}
