//! C13..C16, C26: the directory tree builder.
use crate::enc::*;
use crate::ensure;
use crate::explore::*;
use crate::model::{hex, meta_of, to_cid};
use crate::Tier;
use std::collections::BTreeMap;
use unixfs_v1::dir::builder::{BufferingTreeBuilder, PostOrderIterator, TreeBuildingFailed, TreeConstructionFailed, TreeOptions};
use unixfs_v1::walk::{ContinuedWalk, Walker};
use unixfs_v1::{Metadata, UnixFs};

// --- model ----------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum T {
    Leaf(Vec<u8>, u64),
    Dir(D),
}

#[derive(Clone, Debug, Default)]
struct D {
    kids: BTreeMap<String, T>,
    meta: Meta,
}

/// A built directory.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Out {
    pub path: String,
    pub block: Vec<u8>,
    pub cid: Vec<u8>,
    pub total: u64,
}

fn join(a: &str, b: &str) -> String {
    if a.is_empty() {
        b.to_string()
    } else {
        format!("{a}/{b}")
    }
}

impl D {
    fn render(&self, path: &str, out: &mut Vec<Out>) -> (Vec<u8>, u64) {
        let mut links = vec![];
        let mut total = 0u64;
        for (name, t) in &self.kids {
            let (cid, ts) = match t {
                T::Leaf(c, ts) => (c.clone(), *ts),
                T::Dir(d) => d.render(&join(path, name), out),
            };
            total = total.wrapping_add(ts);
            links.push(L::new(&cid, name, ts));
        }
        let u = U { ty: DIR, mode: self.meta.0, mtime: self.meta.1.map(|(s, n)| (s, if n == 0 { None } else { Some(n) })), ..U::default() };
        let b = block(&links, &u);
        let cid = cid1(&b);
        total = total.wrapping_add(b.len() as u64);
        out.push(Out { path: path.to_string(), block: b, cid: cid.clone(), total });
        (cid, total)
    }

    fn expected(&self, wrap: bool) -> Vec<Out> {
        let mut out = vec![];
        self.render("", &mut out);
        if !wrap {
            out.pop();
        }
        out
    }
}

/// A registration.
#[derive(Clone, Debug, Hash)]
enum Op {
    Link(String, Vec<u8>, u64),
    Dir(String, Meta),
}

impl Op {
    fn path(&self) -> &str {
        match self {
            Op::Link(p, ..) | Op::Dir(p, _) => p,
        }
    }
}

/// Metadata as read from a node.
pub fn metadata(m: Meta) -> Metadata {
    let mut u = UnixFs::default();
    u.mode = m.0;
    if let Some((s, n)) = m.1 {
        u.mtime = Some(Default::default());
        let t = u.mtime.as_mut().unwrap();
        t.Seconds = s;
        t.FractionalNanoseconds = Some(n);
    }
    let r = Metadata::from(&u);
    assert!(meta_of(&r) == m);
    r
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Problem {
    Rooted,
    Repeat,
    Slash,
    TooMany,
    Duplicate,
    LeafAsDir,
}

/// The problems of a registration; without any it is applied.
fn apply(root: &mut D, wrap: bool, op: &Op) -> Vec<Problem> {
    let p = op.path();
    let mut errs = vec![];
    if p.ends_with('/') {
        errs.push(Problem::Slash);
    }
    if p.contains("//") {
        errs.push(Problem::Repeat);
    }
    if p.starts_with('/') {
        errs.push(Problem::Rooted);
    }
    let segs: Vec<&str> = p.split('/').collect();
    if !wrap && !root.kids.is_empty() && !root.kids.contains_key(segs[0]) {
        errs.push(Problem::TooMany);
    }
    {
        let mut d = &*root;
        for (i, s) in segs.iter().enumerate() {
            let last = i + 1 == segs.len();
            match d.kids.get(*s) {
                Some(T::Leaf(..)) => {
                    errs.push(if last && matches!(op, Op::Link(..)) { Problem::Duplicate } else { Problem::LeafAsDir });
                    break;
                }
                Some(T::Dir(_)) if last => {
                    if matches!(op, Op::Link(..)) {
                        errs.push(Problem::Duplicate);
                    }
                }
                Some(T::Dir(n)) => d = n,
                None => break,
            }
        }
    }
    if !errs.is_empty() {
        return errs;
    }
    let mut d = root;
    for s in &segs[..segs.len() - 1] {
        d = match d.kids.entry(s.to_string()).or_insert_with(|| T::Dir(D::default())) {
            T::Dir(n) => n,
            _ => unreachable!(),
        };
    }
    let last = segs[segs.len() - 1].to_string();
    match op {
        Op::Link(_, c, t) => {
            d.kids.insert(last, T::Leaf(c.clone(), *t));
        }
        Op::Dir(_, m) => match d.kids.entry(last).or_insert_with(|| T::Dir(D::default())) {
            T::Dir(n) => n.meta = *m,
            _ => unreachable!(),
        },
    }
    errs
}

fn options(wrap: bool, limit: Option<Option<u64>>) -> TreeOptions {
    let mut o = TreeOptions::default();
    if wrap {
        o.wrap_with_directory();
    }
    if let Some(l) = limit {
        o.block_size_limit(l);
    }
    o
}

fn register(b: &mut BufferingTreeBuilder, op: &Op) -> Result<(), TreeBuildingFailed> {
    match op {
        Op::Link(p, c, t) => b.put_link(p, to_cid(c), *t),
        Op::Dir(p, m) => b.set_metadata(p, metadata(*m)),
    }
}

fn problem(e: &TreeBuildingFailed) -> (Problem, Option<&str>) {
    use TreeBuildingFailed::*;
    let _ = format!("{e} {e:?}");
    match e {
        RootedPath(p) => (Problem::Rooted, Some(p)),
        RepeatSlashesInPath(p) => (Problem::Repeat, Some(p)),
        PathEndsInSlash(p) => (Problem::Slash, Some(p)),
        TooManyRootLevelEntries => (Problem::TooMany, None),
        DuplicatePath(p) => (Problem::Duplicate, Some(p)),
        LeafAsDirectory(p) => (Problem::LeafAsDir, Some(p)),
    }
}

/// Registers with the implementation and the model and compares the verdicts.
fn both(cx: &mut Cx, b: &mut BufferingTreeBuilder, root: &mut D, wrap: bool, op: &Op) -> R {
    let want = apply(root, wrap, op);
    let got = register(b, op);
    let got = match &got {
        Ok(()) => None,
        Err(e) => {
            let (p, path) = problem(e);
            if let Some(path) = path {
                ensure!(path == op.path(), "register: error path", "{op:?} fails with {e:?}, naming another path");
            }
            Some(p)
        }
    };
    cx.step(&(op, got.map(|p| p as u8)));
    cx.log(|| format!("{op:?} -> {got:?}"));
    match got {
        None => ensure!(want.is_empty(), "register: accepted", "{op:?} succeeds although {want:?}"),
        Some(p) if want.is_empty() => return fail("register: refused", format!("{op:?} fails with {p:?} although nothing is wrong with it")),
        Some(p) => ensure!(want.contains(&p), "register: wrong error", "{op:?} fails with {p:?} but its problems are {want:?}"),
    }
    Ok(())
}

/// The next node, taken as owned or as borrowed value.
fn next(it: &mut PostOrderIterator, borrowed: bool) -> Option<Result<Out, TreeConstructionFailed>> {
    if borrowed {
        it.next_borrowed().map(|r| {
            r.map(|n| {
                let _ = format!("{n:?}");
                Out { path: n.path.to_string(), block: n.block.to_vec(), cid: n.cid.to_bytes(), total: n.total_size }
            })
        })
    } else {
        it.next().map(|r| r.map(|n| Out { path: n.path, block: n.block.to_vec(), cid: n.cid.to_bytes(), total: n.total_size }))
    }
}

fn observe(cx: &mut Cx, o: &Out) {
    cx.step(o);
    cx.log(|| format!("built {:?} cid {} total {} block {}", o.path, hex(&o.cid), o.total, hex(&o.block)));
}

fn build(cx: &mut Cx, b: BufferingTreeBuilder, borrowed: &mut dyn FnMut(&mut Cx) -> bool) -> R<Vec<Out>> {
    let mut it = b.build();
    let mut out = vec![];
    loop {
        match next(&mut it, borrowed(cx)) {
            None => break,
            Some(Ok(o)) => {
                observe(cx, &o);
                out.push(o);
            }
            Some(Err(e)) => return fail("build: fails", format!("building fails with {e} after {} directories", out.len())),
        }
        ensure!(out.len() < 200_000, "build: endless", "building yields more than 200000 directories");
    }
    ensure!(next(&mut it, false).is_none() && next(&mut it, true).is_none(), "build: end", "the iteration continues after its end");
    Ok(out)
}

fn is_below(a: &str, b: &str) -> bool {
    // b is a proper ancestor of a
    b.is_empty() && !a.is_empty() || a.len() > b.len() && a.starts_with(b) && a.as_bytes()[b.len()] == b'/'
}

/// Exactly the expected directories, children before parents, the wrapping one last.
fn same_tree(got: &[Out], want: &[Out], wrap: bool) -> R {
    let mut g: Vec<&Out> = got.iter().collect();
    let mut w: Vec<&Out> = want.iter().collect();
    g.sort();
    w.sort();
    let gp: Vec<&str> = g.iter().map(|o| o.path.as_str()).collect();
    let wp: Vec<&str> = w.iter().map(|o| o.path.as_str()).collect();
    ensure!(gp == wp, "build: directories", "the directories built are {gp:?} instead of {wp:?}");
    for (a, b) in g.iter().zip(&w) {
        ensure!(a.block == b.block, "build: block", "the block of {:?} is {} instead of {}", a.path, hex(&a.block), hex(&b.block));
        ensure!(a.cid == b.cid, "build: cid", "the CID of {:?} is {} instead of {}", a.path, hex(&a.cid), hex(&b.cid));
        ensure!(a.total == b.total, "build: total size", "the total size of {:?} is {} instead of {}", a.path, a.total, b.total);
    }
    if wrap {
        ensure!(got.last().map_or(true, |o| o.path.is_empty()), "build: order", "the wrapping directory is not the last one");
    }
    // the paths are distinct but for an entry with an empty name below the wrapping root
    let mut open: BTreeMap<&str, usize> = BTreeMap::new();
    for (i, o) in got.iter().enumerate() {
        open.insert(&o.path, i);
    }
    for (i, o) in got.iter().enumerate() {
        let mut at = o.path.as_str();
        while let Some((parent, _)) = at.rsplit_once('/') {
            ensure!(open.get(parent).is_some_and(|j| *j > i), "build: order", "{:?} is built after {:?}", o.path, parent);
            at = parent;
        }
    }
    if got.len() > 1 && got.len() < 40 {
        // post-order: whatever comes between two directories of one subtree is in it
        for (i, o) in got.iter().enumerate() {
            if o.path.is_empty() {
                // the wrapping directory, or an empty one with an empty name
                continue;
            }
            let n = got.iter().filter(|x| is_below(&x.path, &o.path)).count();
            if n > i {
                continue;
            }
            ensure!(got[i - n..i].iter().all(|x| is_below(&x.path, &o.path)), "build: order", "the directories below {:?} do not directly precede it", o.path);
        }
    }
    Ok(())
}

fn owned(_: &mut Cx) -> bool {
    false
}

fn run_ops(cx: &mut Cx, ops: &[Op], wrap: bool, borrowed: &mut dyn FnMut(&mut Cx) -> bool) -> R<(Vec<Out>, D)> {
    let mut b = BufferingTreeBuilder::new(options(wrap, Some(None)));
    let mut root = D::default();
    for op in ops {
        both(cx, &mut b, &mut root, wrap, op)?;
    }
    let got = build(cx, b, borrowed)?;
    same_tree(&got, &root.expected(wrap), wrap)?;
    Ok((got, root))
}

// --- generators -----------------------------------------------------------------------------

struct Src {
    n: u32,
}

impl Src {
    fn link(&mut self, path: String) -> Op {
        self.n += 1;
        Op::Link(path, fake_cid(self.n as usize % CID_VARIANTS, self.n), [100, 0, 127, 128, 70000, 1 << 40][self.n as usize % 6])
    }
}

/// out of order, prefixes of each other and sorting differently from whole paths
const NAMES: [&str; 8] = ["b", "a", "a.b", "a b", "é", "ab", "Z", "0"];

/// Every hierarchy of up to `budget` entries with one registration per link and, by choice, per
/// directory.
fn gen_ops(cx: &mut Cx, s: &mut Src, path: &str, budget: &mut usize, depth: usize, max_kids: usize, least: usize, explicit: bool, ops: &mut Vec<Op>) {
    let n = least + cx.choose((max_kids.min(*budget) + 1).saturating_sub(least).max(1));
    *budget = budget.saturating_sub(n);
    for i in 0..n {
        let p = join(path, NAMES[i % NAMES.len()]);
        let dir = depth > 0 && cx.flag();
        if !dir {
            ops.push(s.link(p));
            continue;
        }
        let before = ops.len();
        gen_ops(cx, s, &p, budget, depth - 1, max_kids, 0, explicit, ops);
        if ops.len() == before || explicit && cx.flag() {
            ops.push(Op::Dir(p, (None, None)));
        }
    }
}

/// What the small hierarchies leave out.
const FAMILY: &str = "flat, two-level and alternating hierarchies of 1..=20, 64, 127..=130, 255..=257, 300, 1024 and 4097 links; chains of 1..=40 directories with a link at the end and others at any one of 5 levels; every pair out of unusual and confusable names, beside, below and within each other; 8 links with the same CID and size each";

fn family(cx: &mut Cx) -> (bool, Vec<Op>) {
    let wrap = cx.flag();
    let top = if wrap { "" } else { "t" };
    let mut s = Src { n: 0 };
    let mut ops = vec![];
    match cx.choose(5) {
        0 | 1 => {
            let w = cx.choose(32);
            let w = if w < 20 { w + 1 } else { [64, 127, 128, 129, 130, 255, 256, 257, 300, 1024, 4097, 21][w - 20] };
            let kind = cx.choose(3);
            for i in 0..w {
                let n = (i * 7919) % 10007;
                let p = match kind {
                    0 => format!("{n}"),
                    1 => format!("d{}/{n}", n % 16),
                    _ if i % 2 == 0 => format!("{n}"),
                    _ => format!("{n}/{i}"),
                };
                ops.push(s.link(join(top, &p)));
            }
        }
        2 => {
            let d = 1 + cx.choose(40);
            let at = cx.choose(5).min(d - 1) * d.div_ceil(5).max(1);
            let dirs = |n: usize| vec!["d"; n].join("/");
            ops.push(s.link(join(top, &format!("{}/x", dirs(d)))));
            if at < d {
                ops.push(s.link(join(top, &join(&dirs(at), "y"))));
                ops.push(s.link(join(top, &join(&dirs(at), "a/z"))));
            }
        }
        3 => {
            let mut names: Vec<String> = odd_names();
            names.extend(CONFUSABLE.iter().map(|n| n.to_string()));
            names.sort();
            names.dedup();
            let i = cx.choose(names.len());
            let j = (i + 1 + cx.choose(names.len() - 1)) % names.len();
            let (a, b) = (&names[i], &names[j]);
            let paths = match cx.choose(3) {
                0 => vec![a.clone(), b.clone()],
                1 => vec![format!("{a}/{b}"), format!("{b}/{a}"), format!("{a}/{a}")],
                _ => vec![format!("{a}/{b}/x"), format!("{a}/x"), b.clone()],
            };
            ops.extend(paths.iter().map(|p| s.link(join(top, p))));
        }
        _ => {
            let (c, t) = (fake_cid(cx.choose(CID_VARIANTS), 5), *cx.pick(&[0u64, 1, 1 << 33]));
            for p in ["a", "b", "d/a", "d/b", "d/d/a", "e/a", "e/d/a", "f"] {
                ops.push(Op::Link(join(top, p), c.clone(), t));
            }
        }
    }
    (wrap, ops)
}

fn reorder(cx: &mut Cx, ops: &mut Vec<Op>) {
    let n = ops.len();
    match cx.choose(5) {
        0 => ops.reverse(),
        1 => ops.rotate_left(n / 2),
        2 => ops.sort_by(|a, b| a.path().cmp(b.path())),
        3 => ops.sort_by(|a, b| b.path().cmp(a.path())),
        _ => {
            // every third first
            let all = std::mem::take(ops);
            for k in 0..3 {
                ops.extend(all.iter().skip(k).step_by(3).cloned());
            }
        }
    }
}

/// The directories a path runs through.
fn implied(ops: &[Op]) -> Vec<String> {
    let mut v: Vec<String> = ops.iter().flat_map(|o| o.path().match_indices('/').map(|(i, _)| o.path()[..i].to_string()).collect::<Vec<_>>()).collect();
    v.sort();
    v.dedup();
    v
}

fn permute(cx: &mut Cx, ops: &mut Vec<Op>) {
    for i in 0..ops.len() {
        let j = i + cx.choose(ops.len() - i);
        let o = ops.remove(j);
        ops.insert(i, o);
    }
}

fn odd_names() -> Vec<String> {
    let mut v: Vec<String> = [
        "a", "b", "A", "aa", "a.", "a-", "a b", "a0", ".", "..", "...", " ", "\t", "\n", "\0", "\u{1}", "\u{7f}", "\u{80}", "é", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}",
        "\u{10ffff}", "z", "~", "\\", "C:", "00", "FFx", "%2F", "a\u{301}", "-", "*", "QmX",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.push("n".repeat(126));
    v.push("n".repeat(127));
    v.push("n".repeat(128));
    v.push("n".repeat(300));
    v.push("é".repeat(8200));
    v
}

fn odd_cids() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = (0..CID_VARIANTS).map(|i| fake_cid(i, 9)).collect();
    // digests of 0, 1, 63 and 64 bytes
    v.push(vec![1, 0x55, 0, 0]);
    v.push(vec![1, 0x55, 0, 1, 7]);
    for n in [63u8, 64] {
        let mut c = vec![1, 0x70, 0x13, n];
        c.extend(vec![0xab; n as usize]);
        v.push(c);
    }
    // codecs and hash codes at other varint widths
    for (codec, mh) in [(0x7fu64, 0x12u64), (0x80, 0x12), (0x3fff, 0x1b), (0x4000, 0xb220), (1 << 35, 0x12), (0x70, 1 << 35), (u64::MAX >> 1, u64::MAX >> 1)] {
        let mut c = vec![1];
        varint(&mut c, codec);
        varint(&mut c, mh);
        c.push(32);
        c.extend([0xcd; 32]);
        v.push(c);
    }
    v
}

fn edges(bits: u32) -> Vec<u64> {
    let mut v = vec![0u64, 1];
    for k in (7..bits).step_by(7) {
        v.push((1 << k) - 1);
        v.push(1 << k);
    }
    v
}

// --- C13 ------------------------------------------------------------------------------------

pub fn c13(tier: Tier) -> Vec<Scenario> {
    let n = tier.of(7, 9);
    let shapes = scenario(
        "shapes",
        format!("every hierarchy of up to {n} entries (at most 4 per directory, depth 4), directories registered or implied, wrapped and unwrapped"),
        move |cx| {
            let wrap = cx.flag();
            let mut ops = vec![];
            let mut budget = n;
            gen_ops(cx, &mut Src { n: 0 }, "", &mut budget, 4, if wrap { 4 } else { 1 }, 0, true, &mut ops);
            run_ops(cx, &ops, wrap, &mut owned).map(|_| ())
        },
    );
    let below = tier.of(7, 9);
    let unwrapped = scenario(
        "unwrapped",
        format!("every hierarchy of up to {below} entries (at most 4 per directory, depth 4) below one top directory, unwrapped"),
        move |cx| {
            let mut ops = vec![];
            let mut budget = below;
            gen_ops(cx, &mut Src { n: 0 }, "top", &mut budget, 4, 4, 1, true, &mut ops);
            run_ops(cx, &ops, false, &mut owned).map(|_| ())
        },
    );
    let confusable = scenario(
        "confusable names",
        format!("every pair out of {} names differing in case, form of a letter, width or invisible characters, as links, as directories or nested in each other", CONFUSABLE.len()),
        |cx| {
            let i = cx.choose(CONFUSABLE.len());
            let j = (i + 1 + cx.choose(CONFUSABLE.len() - 1)) % CONFUSABLE.len();
            let (a, b) = (CONFUSABLE[i], CONFUSABLE[j]);
            let mut s = Src { n: 0 };
            let wrap = cx.flag();
            let top = if wrap { "" } else { "t" };
            let ops = match cx.choose(4) {
                0 => vec![s.link(join(top, a)), s.link(join(top, b))],
                1 => vec![Op::Dir(join(top, a), (Some(1), None)), Op::Dir(join(top, b), (Some(2), None))],
                2 => vec![s.link(join(top, &format!("{a}/x"))), s.link(join(top, &format!("{b}/x"))), s.link(join(top, &format!("{a}/y")))],
                _ => vec![s.link(join(top, &format!("{a}/{a}"))), s.link(join(top, &format!("{a}/{b}/{a}"))), s.link(join(top, b))],
            };
            run_ops(cx, &ops, wrap, &mut owned).map(|_| ())
        },
    );
    let names = odd_names();
    let k = tier.of(2, 3);
    let names2 = scenario(
        "names",
        format!("every choice of {k} different names out of {} unusual ones (control characters, all UTF-8 lengths, lengths around varint steps), as links, as directories, or nested in each other", names.len()),
        move |cx| {
            let mut picked: Vec<&String> = vec![];
            for _ in 0..k {
                let left: Vec<&String> = names.iter().filter(|n| !picked.contains(n)).collect();
                picked.push(left[cx.choose(left.len())]);
            }
            let mut s = Src { n: 0 };
            let wrap = cx.flag();
            let top = if wrap { "" } else { "t" };
            let ops: Vec<Op> = match cx.choose(4) {
                0 => picked.iter().map(|n| s.link(join(top, n))).collect(),
                1 => picked.iter().map(|n| s.link(join(top, &format!("{n}/{}", picked[0])))).collect(),
                2 => picked.iter().map(|n| Op::Dir(join(top, n), (None, None))).collect(),
                _ => {
                    let all: Vec<&str> = picked.iter().map(|s| s.as_str()).collect();
                    vec![s.link(join(top, &all.join("/"))), s.link(join(top, &format!("{}/{}", picked[0], picked[0]))), s.link(join(top, &format!("{}/x/{}", picked[0], picked[1])))]
                }
            };
            run_ops(cx, &ops, wrap, &mut owned).map(|_| ())
        },
    );
    let cids = odd_cids();
    let sizes = {
        let mut v = edges(63);
        v.push(u64::MAX >> 1);
        v
    };
    let links = scenario(
        "links",
        format!("two links with every pair out of {} CIDs (versions, codecs, hash functions, digest lengths) and every total size out of {} (varint steps up to 2^63)", cids.len(), sizes.len()),
        move |cx| {
            let a = cx.pick(&cids).clone();
            let b = cx.pick(&cids).clone();
            let t = *cx.pick(&sizes);
            let deep = cx.flag();
            let ops = vec![
                Op::Link(if deep { "d/e/x" } else { "d/x" }.into(), a, t),
                Op::Link("d/y".into(), b, t / 2),
            ];
            let wrap = cx.flag();
            run_ops(cx, &ops, wrap, &mut owned).map(|_| ())
        },
    );
    let max = scenario("largest-sizes", "total sizes which sum up to exactly the largest 64-bit number, split over two links at two levels", |cx| {
        let deep = cx.flag();
        let wrap = cx.flag();
        let p = if deep { ["d/e/x", "d/y"] } else { ["d/x", "d/y"] };
        let cid = fake_cid(0, 1);
        // what the blocks add, for the width of the sizes at hand
        let split = *cx.pick(&[0u64, 1, 1 << 32, 1 << 62, 1 << 63]);
        let mut root = D::default();
        let guess = u64::MAX - 4096 - split;
        apply(&mut root, wrap, &Op::Link(p[0].into(), cid.clone(), guess));
        apply(&mut root, wrap, &Op::Link(p[1].into(), cid.clone(), split));
        let over = root.expected(wrap).last().unwrap().total - guess - split;
        let t = u64::MAX - over - split;
        let ops = vec![Op::Link(p[0].into(), cid.clone(), t), Op::Link(p[1].into(), cid, split)];
        let (got, _) = run_ops(cx, &ops, wrap, &mut owned)?;
        assert!(got.last().unwrap().total > u64::MAX - 16, "{}", u64::MAX - got.last().unwrap().total);
        Ok(())
    });
    let big = tier.of(300, 3000);
    let large = scenario(
        "large",
        format!("directories of up to {big} links, nesting up to 400 levels, up to 300 subdirectories, wrapped and unwrapped"),
        move |cx| {
            let wrap = cx.flag();
            let mut s = Src { n: 0 };
            let mut ops = vec![];
            match cx.choose(4) {
                0 => {
                    let w = *cx.pick(&[1usize, 2, 10, 127, 128, 129, 255, 256, 257, 300, 3000]);
                    for i in 0..w.min(big) {
                        ops.push(s.link(format!("t/{}", (i * 7919) % 10007)));
                    }
                }
                1 => {
                    let d = *cx.pick(&[1usize, 2, 3, 10, 64, 65, 100, 255, 256, 400]);
                    ops.push(s.link(vec!["d"; d].join("/")));
                    ops.push(s.link(format!("{}/x", vec!["d"; d / 2 + 1].join("/"))));
                    if d / 2 + 1 == d {
                        ops.pop();
                    }
                }
                2 => {
                    for i in 0..300 {
                        ops.push(s.link(format!("t/{:03}/{}", (i * 101) % 300, i)));
                    }
                }
                _ => {
                    // the same names over again at every level, leaving several levels at once
                    for a in ["x", "y"] {
                        for b in ["x", "y"] {
                            for c in ["x", "y"] {
                                for d in ["x", "y"] {
                                    ops.push(s.link(format!("x/{a}/{b}/{c}/{d}")));
                                }
                            }
                        }
                    }
                    ops.push(s.link("x/xx/x/x".into()));
                }
            }
            run_ops(cx, &ops, wrap, &mut owned).map(|_| ())
        },
    );
    let vast = scenario(
        "beyond 16 bits",
        "directories of 65535, 65537 and 70000 links, 70000 directories with a link each, 70000 empty ones, 1500 levels with a link at each",
        |cx| {
            let wrap = cx.flag();
            let mut s = Src { n: 0 };
            let mut ops = vec![];
            let k = cx.choose(6);
            match k {
                0..=2 => (0..[65535usize, 65537, 70000][k]).for_each(|i| ops.push(s.link(format!("t/{}", (i * 7919) % 100_003)))),
                3 => (0..70000).for_each(|i| ops.push(s.link(format!("t/{}/x", (i * 7919) % 100_003)))),
                4 => (0..70000).for_each(|i| ops.push(Op::Dir(format!("t/{}", (i * 7919) % 100_003), (Some(i), None)))),
                _ => {
                    let mut p = String::from("d");
                    for _ in 0..1500 {
                        p += "/d";
                        ops.push(s.link(format!("{p}l")));
                    }
                }
            }
            run_ops(cx, &ops, wrap, &mut owned).map(|_| ())
        },
    );
    let deep = tier.of(24, 64);
    let depths = scenario(
        "depths",
        format!("two chains of directories parting after any of up to {deep} levels, each going on for 0 to 3, up to 7, levels from there, ending in links, directories or directories with a link added after both; and a third from any level above"),
        move |cx| {
            let wrap = cx.flag();
            let shared = 1 + cx.choose(deep);
            let up = cx.choose(shared) + 1;
            let base = |n: usize| vec!["d"; n].join("/");
            let mut s = Src { n: 0 };
            let mut ops = vec![];
            let mut below = vec![];
            for name in ["a", "b"] {
                let n = *cx.pick(&[0usize, 1, 2, 3, 7]);
                let p = format!("{}/{}", base(shared), vec![name; n + 1].join("/"));
                match cx.choose(3) {
                    0 => ops.push(s.link(p)),
                    1 => ops.push(Op::Dir(p, (Some(n as u32), None))),
                    _ => {
                        below.push(s.link(format!("{p}/{name}")));
                        ops.push(Op::Dir(p, (Some(n as u32), None)));
                    }
                }
            }
            ops.append(&mut below);
            ops.push(s.link(format!("{}/{}", base(up), ["c/c", "c", "0/d/d"][cx.choose(3)])));
            run_ops(cx, &ops, wrap, &mut owned).map(|_| ())
        },
    );
    vec![shapes, unwrapped, confusable, names2, links, max, depths, large, vast]
}

// --- C14 ------------------------------------------------------------------------------------

pub fn c14(tier: Tier) -> Vec<Scenario> {
    let order = move |n: usize, perms: usize| {
        move |cx: &mut Cx| -> R {
            let wrap = cx.flag();
            let mut ops = vec![];
            let mut budget = n;
            gen_ops(cx, &mut Src { n: 0 }, if wrap { "" } else { "a" }, &mut budget, 3, 3, 1, true, &mut ops);
            if ops.len() > perms {
                return Ok(());
            }
            let (base, _) = run_ops(cx, &ops, wrap, &mut owned)?;
            permute(cx, &mut ops);
            let (other, _) = run_ops(cx, &ops, wrap, &mut |_| true)?;
            ensure!(base == other, "build: depends on order", "registering as {ops:?} gives {:?} instead of {:?}", short(&other), short(&base));
            Ok(())
        }
    };
    let n = tier.of(6, 7);
    let perms = tier.of(6, 7);
    let m = tier.of(6, 7);
    let mix = scenario(
        "owned-and-borrowed",
        format!("every hierarchy of up to {m} entries (at most 3 per directory, depth 3), every sequence of owned and borrowed steps"),
        move |cx| {
            let wrap = cx.flag();
            let mut ops = vec![];
            let mut budget = m;
            gen_ops(cx, &mut Src { n: 0 }, if wrap { "" } else { "a" }, &mut budget, 3, 3, 1, false, &mut ops);
            let (base, _) = run_ops(cx, &ops, wrap, &mut owned)?;
            let (other, _) = run_ops(cx, &ops, wrap, &mut |cx| cx.flag())?;
            ensure!(base == other, "build: depends on iteration", "taking borrowed values gives {:?} instead of {:?}", short(&other), short(&base));
            Ok(())
        },
    );
    let deep = tier.of(5, 6);
    let implied = scenario(
        "explicit-or-implied",
        format!("{deep} paths of one deep hierarchy whose directories are registered explicitly in every subset and at every position of the sequence"),
        move |cx| {
            let mut s = Src { n: 0 };
            let base: Vec<Op> = ["a/b/c/x", "a/b/y", "a/d/z"].iter().map(|p| s.link(p.to_string())).collect();
            let (want, _) = run_ops(cx, &base, false, &mut owned)?;
            let mut ops = base.clone();
            for d in ["a", "a/b", "a/b/c", "a/d"] {
                // absent, or at any position
                let at = cx.choose(ops.len() + 2);
                if at > 0 {
                    ops.insert(at - 1, Op::Dir(d.into(), (None, None)));
                }
                if deep > 5 && d == "a/b" && cx.flag() {
                    // twice
                    ops.push(Op::Dir(d.into(), (None, None)));
                }
            }
            let wrap = false;
            let (got, _) = run_ops(cx, &ops, wrap, &mut owned)?;
            ensure!(got == want, "build: depends on explicit directories", "registering as {ops:?} gives {:?} instead of {:?}", short(&got), short(&want));
            Ok(())
        },
    );
    vec![
        scenario(
            "permutations",
            format!("every hierarchy of up to {n} entries (at most 3 per directory, depth 3) with up to {perms} registrations, links and directories, in every order, wrapped and below one directory"),
            order(n, perms),
        ),
        mix,
        implied,
        scenario("orders of more", format!("{FAMILY}; registered in 5 other orders, taken as owned, as borrowed or alternately"), |cx| {
            let (wrap, mut ops) = family(cx);
            let (base, _) = run_ops(cx, &ops, wrap, &mut owned)?;
            reorder(cx, &mut ops);
            let how = cx.choose(3);
            let mut i = 0;
            let (other, _) = run_ops(cx, &ops, wrap, &mut |_| {
                i += 1;
                how == 1 || how == 2 && i % 2 == 0
            })?;
            ensure!(base == other, "build: depends on order", "registering in another order gives {:?} instead of {:?}", short(&other), short(&base));
            Ok(())
        }),
        scenario("implied in more", format!("{FAMILY}; all directories, each second, or each third, registered explicitly as well, before or after the links"), |cx| {
            let (wrap, ops) = family(cx);
            let (base, _) = run_ops(cx, &ops, wrap, &mut owned)?;
            let (start, step) = *cx.pick(&[(0, 1), (0, 2), (1, 2), (0, 3), (1, 3), (2, 3)]);
            let dirs: Vec<Op> = self::implied(&ops).into_iter().skip(start).step_by(step).map(|d| Op::Dir(d, (None, None))).collect();
            let mut all = if cx.flag() { [ops, dirs].concat() } else { [dirs, ops].concat() };
            if cx.flag() {
                all.reverse();
            }
            let (other, _) = run_ops(cx, &all, wrap, &mut owned)?;
            ensure!(base == other, "build: depends on explicit directories", "registering directories explicitly gives {:?} instead of {:?}", short(&other), short(&base));
            Ok(())
        }),
    ]
}

fn short(o: &[Out]) -> Vec<(String, String, u64)> {
    o.iter().map(|o| (o.path.clone(), hex(&o.cid), o.total)).collect()
}

// --- C15 ------------------------------------------------------------------------------------

fn sequences(paths: &'static [&'static str], len: usize, limit: Option<Option<u64>>) -> impl Fn(&mut Cx) -> R + Send + Sync {
    move |cx: &mut Cx| {
        let wrap = cx.flag();
        let mut b = BufferingTreeBuilder::new(options(wrap, limit));
        let mut root = D::default();
        let n = cx.choose(len + 1);
        for i in 0..n {
            let p = cx.pick(paths).to_string();
            let op = if cx.flag() { Op::Dir(p, (Some(i as u32 + 1), None)) } else { Op::Link(p, fake_cid(0, i as u32), i as u64 + 1) };
            both(cx, &mut b, &mut root, wrap, &op)?;
        }
        let _ = format!("{b:?}");
        let got = build(cx, b, &mut owned)?;
        same_tree(&got, &root.expected(wrap), wrap)
    }
}

pub fn c15(tier: Tier) -> Vec<Scenario> {
    const MANY: &[&str] = &[
        "a", "b", "a/b", "a/c", "b/a", "a/b/c", "a/b/d", "", "/", "//", "///", "/a", "//a", "/a/", "a/", "a//", "a//b", "a/b/", "a/b//c", "a//b/", "/a/b", "/a//b", ".", "..", "a/.", "a/..", "a/b/c/d", "ab",
        "a ", "/b", "b/", "c//",
    ];
    const SOME: &[&str] = &["a", "b", "a/b", "a/b/c", "a/c", "a/b/c/d", "", "/a", "a/", "a//b", "b/"];
    const FEW: &[&str] = &["a", "a/b", "a/b/c", "a/c", "b", "a//b"];
    const TWO: &[&str] = &["a", "a/b", "b"];
    let many = tier.of(3, 4);
    let some = tier.of(4, 5);
    let few = tier.of(5, 7);
    let two = tier.of(7, 9);
    let again = tier.of(4, 5);
    vec![
        scenario("all-paths", format!("every sequence of up to {many} registrations, links or directories, over {} paths with every combination of slashes", MANY.len()), sequences(MANY, many, Some(None))),
        scenario("long", format!("every sequence of up to {some} registrations over {} paths", SOME.len()), sequences(SOME, some, None)),
        scenario("longer", format!("every sequence of up to {few} registrations over {} paths", FEW.len()), sequences(FEW, few, None)),
scenario(
            "repeats",
            format!("every sequence of up to {again} registrations of 4 paths with values out of few, so that they repeat: 2 CIDs, sizes of 0 and 5, no metadata, or one of 2"),
            move |cx| {
                let wrap = cx.flag();
                let mut b = BufferingTreeBuilder::new(options(wrap, None));
                let mut root = D::default();
                for _ in 0..cx.choose(again + 1) {
                    let p = cx.pick(&["a", "a/b", "a/c", "b"]).to_string();
                    let op = match cx.choose(7) {
                        k @ 0..=3 => Op::Link(p, fake_cid(0, k as u32 & 1), [0, 5][k >> 1]),
                        4 => Op::Dir(p, (None, None)),
                        5 => Op::Dir(p, (Some(0o755), None)),
                        _ => Op::Dir(p, (None, Some((7, 8)))),
                    };
                    both(cx, &mut b, &mut root, wrap, &op)?;
                }
                let got = build(cx, b, &mut owned)?;
                same_tree(&got, &root.expected(wrap), wrap)
            },
        ),
                scenario("longest", format!("every sequence of up to {two} registrations over {} paths", TWO.len()), sequences(TWO, two, None)),
        scenario("near names", format!("a name of each of {} lengths up to 65537 and one near it: {NEAR_TEXT}; a link or directory with the one, at the top or below it, and one with the other", LENGTHS.len()), |cx| {
            let wrap = cx.flag();
            let (a, b) = near(*cx.pick(&LENGTHS), cx.choose(NEARS));
            let (a, b) = match cx.choose(4) {
                0 => (a, b),
                1 => (b, a),
                2 => (format!("d/{a}"), format!("d/{b}")),
                _ => (format!("{a}/x"), format!("{b}/x")),
            };
            let mut t = BufferingTreeBuilder::new(options(wrap, Some(None)));
            let mut root = D::default();
            for (i, p) in [a, b].into_iter().enumerate() {
                let op = if cx.flag() { Op::Dir(p, (Some(i as u32 + 1), None)) } else { Op::Link(p, fake_cid(0, i as u32), i as u64 + 1) };
                both(cx, &mut t, &mut root, wrap, &op)?;
            }
            let got = build(cx, t, &mut owned)?;
            same_tree(&got, &root.expected(wrap), wrap)
        }),
        scenario("far slashes", "paths with one or two additional slashes behind a name of each of the same lengths, or a chain of 2 to 300 names, at the end, before, or after another name", |cx| {
            let wrap = cx.flag();
            let base = match cx.choose(2) {
                0 => near(*cx.pick(&LENGTHS), 0).0,
                _ => vec!["d"; 2 + cx.choose(299)].join("/"),
            };
            let p = match cx.choose(6) {
                0 => format!("{base}/"),
                1 => format!("{base}//x"),
                2 => format!("/{base}"),
                3 => format!("{base}/x/"),
                4 => format!("x/{base}//{base}"),
                _ => format!("{base}/x"),
            };
            let mut t = BufferingTreeBuilder::new(options(wrap, Some(None)));
            let mut root = D::default();
            let op = if cx.flag() { Op::Dir(p, (Some(1), None)) } else { Op::Link(p, fake_cid(0, 1), 1) };
            both(cx, &mut t, &mut root, wrap, &op)?;
            both(cx, &mut t, &mut root, wrap, &Op::Link(format!("{base}/y"), fake_cid(0, 2), 2))?;
            let got = build(cx, t, &mut owned)?;
            same_tree(&got, &root.expected(wrap), wrap)
        }),
        scenario("confusable names", format!("every pair, equal ones included, out of {} names differing in case, form of a letter, width or invisible characters, registered each as a link or directory, at the top, below a directory, or one below the other", CONFUSABLE.len()), |cx| {
            let wrap = cx.flag();
            let (a, b) = (*cx.pick(&CONFUSABLE), *cx.pick(&CONFUSABLE));
            let paths = match cx.choose(4) {
                0 => [a.to_string(), b.to_string()],
                1 => [format!("d/{a}"), format!("d/{b}")],
                2 => [a.to_string(), format!("{b}/x")],
                _ => [format!("{a}/x"), b.to_string()],
            };
            let mut t = BufferingTreeBuilder::new(options(wrap, None));
            let mut root = D::default();
            for (i, p) in paths.into_iter().enumerate() {
                let op = if cx.flag() { Op::Dir(p, (Some(i as u32 + 1), None)) } else { Op::Link(p, fake_cid(0, i as u32), i as u64 + 1) };
                both(cx, &mut t, &mut root, wrap, &op)?;
            }
            let got = build(cx, t, &mut owned)?;
            same_tree(&got, &root.expected(wrap), wrap)
        }),
        scenario("depths", "a link, or directory, at every depth of up to 40; then one at any of its prefixes, at itself or up to 3 levels below, with any of 5 flaws in slashes at any of its segments or none; then one beside it, registered as first or as last", |cx| {
            let wrap = cx.flag();
            let depth = 1 + cx.choose(40);
            let path = |n: usize| vec!["d"; n].join("/");
            let op = |cx: &mut Cx, p: String, n: u32| if cx.flag() { Op::Dir(p, (Some(n), None)) } else { Op::Link(p, fake_cid(0, n), n as u64) };
            let mut ops = vec![op(cx, path(depth), 1)];
            let n = 1 + cx.choose(depth + 3);
            let mut p = path(n);
            match cx.choose(4) {
                0 | 1 => {}
                2 => p = ["/d", "d/", "/d/"][cx.choose(3)].replace('d', &p),
                _ => {
                    // an additional slash after one of the segments
                    let at = 1 + 2 * cx.choose(n);
                    p.insert_str(at, ["/", "//"][cx.choose(2)]);
                }
            }
            ops.push(op(cx, p, 2));
            let beside = format!("{}/e", path(depth));
            let o = Op::Link(if depth > 1 { path(depth - 1) + "/e" } else { beside }, fake_cid(0, 3), 3);
            ops.insert(if cx.flag() { 0 } else { 2 }, o);
            let mut b = BufferingTreeBuilder::new(options(wrap, None));
            let mut root = D::default();
            for op in &ops {
                both(cx, &mut b, &mut root, wrap, op)?;
            }
            let got = build(cx, b, &mut owned)?;
            same_tree(&got, &root.expected(wrap), wrap)
        }),
    ]
}

// --- C16 ------------------------------------------------------------------------------------

/// Builds with the limit and compares with what an unlimited build gave.
fn limited(cx: &mut Cx, ops: &[Op], wrap: bool, base: &[Out], limit: Option<Option<u64>>, mixed: bool) -> R {
    let effective = match limit {
        None => Some(512 * 1024),
        Some(l) => l,
    };
    let mut b = if limit.is_none() && !wrap && mixed { BufferingTreeBuilder::default() } else { BufferingTreeBuilder::new(options(wrap, limit)) };
    for op in ops {
        if let Err(e) = register(&mut b, op) {
            return fail("register: refused", format!("{op:?} fails with {e} although it succeeded before"));
        }
    }
    build_limited(cx, b, base, effective, mixed)
}

fn build_limited(cx: &mut Cx, b: BufferingTreeBuilder, base: &[Out], effective: Option<u64>, mixed: bool) -> R {
    let bad = base.iter().position(|o| effective.is_some_and(|l| o.block.len() as u64 > l));
    let mut it = b.build();
    for (i, want) in base.iter().enumerate() {
        let borrowed = mixed && cx.flag();
        let got = next(&mut it, borrowed);
        let size = want.block.len() as u64;
        if bad == Some(i) {
            match got {
                Some(Err(TreeConstructionFailed::TooLargeBlock(s))) => {
                    cx.step(&("too large", s, TreeConstructionFailed::TooLargeBlock(s).to_string()));
                    ensure!(s == size, "limit: size", "the block of {:?} has {size} bytes but is reported with {s}", want.path);
                }
                Some(Err(e)) => return fail("limit: other error", format!("{e:?}")),
                Some(Ok(o)) => return fail("limit: not enforced", format!("{:?} of {} bytes is built with limit {effective:?}", o.path, o.block.len())),
                None => return fail("limit: ends", format!("building ends instead of refusing {:?} of {size} bytes with limit {effective:?}", want.path)),
            }
            break;
        }
        match got {
            Some(Ok(o)) => {
                observe(cx, &o);
                ensure!(&o == want, "limit: changes blocks", "with limit {effective:?} {:?} is {} instead of {:?} {}", o.path, hex(&o.block), want.path, hex(&want.block));
            }
            Some(Err(e)) => return fail("limit: refused", format!("{:?} of {size} bytes is refused with limit {effective:?}: {e:?}", want.path)),
            None => return fail("limit: ends", format!("building ends before {:?}", want.path)),
        }
    }
    for _ in 0..3 {
        let borrowed = mixed && cx.flag();
        let got = next(&mut it, borrowed);
        cx.step(&got.is_none());
        ensure!(got.is_none(), "limit: continues", "the iteration gives {got:?} after its end");
    }
    Ok(())
}

fn any_limit(cx: &mut Cx, base: &[Out]) -> Option<Option<u64>> {
    let mut v = vec![Some(None), None];
    v.extend([0, 1, u64::MAX, 1 << 8, 1 << 16, 1 << 32, (1 << 32) + 1, 1 << 63].map(|l| Some(Some(l))));
    for o in base {
        let s = o.block.len() as u64;
        v.extend([Some(Some(s)), Some(Some(s - 1)), Some(Some(s + 1))]);
    }
    v.dedup();
    *cx.pick(&v)
}

pub fn c16(tier: Tier) -> Vec<Scenario> {
    let n = tier.of(8, 10);
    let shapes = scenario(
        "shapes",
        format!("every hierarchy of up to {n} entries (at most 3 per directory, depth 4), limits of none, default, 0, 1, powers of two up to 2^63, the largest and every directory's size -1, +0, +1"),
        move |cx| {
            let wrap = cx.flag();
            let mut ops = vec![];
            let mut budget = n;
            gen_ops(cx, &mut Src { n: 0 }, if wrap { "" } else { "a" }, &mut budget, 4, 3, 0, false, &mut ops);
            if ops.is_empty() && !wrap {
                return Ok(());
            }
            let (base, _) = run_ops(cx, &ops, wrap, &mut owned)?;
            let limit = any_limit(cx, &base);
            limited(cx, &ops, wrap, &base, limit, false)
        },
    );
    let m = tier.of(5, 6);
    let mixed = scenario(
        "continuing",
        format!("every hierarchy of up to {m} entries (at most 3 per directory, depth 3), the same limits, every sequence of owned and borrowed steps including three after the end or error"),
        move |cx| {
            let wrap = cx.flag();
            let mut ops = vec![];
            let mut budget = m;
            gen_ops(cx, &mut Src { n: 0 }, if wrap { "" } else { "a" }, &mut budget, 3, 2, 0, false, &mut ops);
            let (base, _) = run_ops(cx, &ops, wrap, &mut owned)?;
            let limit = any_limit(cx, &base);
            limited(cx, &ops, wrap, &base, limit, true)
        },
    );
    let more = scenario("more", format!("{FAMILY}; the same limits, around the sizes of up to the first and last 6 directories"), |cx| {
        let (wrap, ops) = family(cx);
        let (base, _) = run_ops(cx, &ops, wrap, &mut owned)?;
        let n = base.len();
        let some: Vec<Out> = base.iter().enumerate().filter(|(i, _)| *i < 6 || i + 6 >= n).map(|(_, o)| o.clone()).collect();
        let limit = any_limit(cx, &some);
        limited(cx, &ops, wrap, &base, limit, false)
    });
    let meta = scenario("metadata", "directories whose size comes from metadata, on any of three nested ones, limits around every size", |cx| {
        let wrap = cx.flag();
        let mut s = Src { n: 0 };
        let mut ops = vec![s.link("a/b/c".into())];
        for d in ["a", "a/b", "a/e"] {
            match cx.choose(4) {
                0 => {}
                1 => ops.push(Op::Dir(d.into(), (Some(u32::MAX), None))),
                2 => ops.push(Op::Dir(d.into(), (Some(0), Some((-1, 0))))),
                _ => ops.push(Op::Dir(d.into(), (None, Some((1 << 40, 5))))),
            }
        }
        let (base, _) = run_ops(cx, &ops, wrap, &mut owned)?;
        let limit = any_limit(cx, &base);
        limited(cx, &ops, wrap, &base, limit, false)
    });
    let default = scenario(
        "default-limit",
        "a directory of exactly 512 KiB -2..+2 bytes at each of three levels, by few long or many short names, with the default options, with limits around it and without limit",
        move |cx| {
            let wrap = cx.flag();
            let size = 512 * 1024 - 2 + cx.choose(5);
            let many = cx.flag();
            let level = cx.choose(3);
            let dir = ["t", "t/u", "t/u/v"][level];
            let cid = fake_cid(0, 1);
            let mut ops = vec![];
            let used = if many {
                for i in 0..8000 {
                    ops.push(Op::Link(format!("{dir}/{i:05}"), cid.clone(), 1));
                }
                8000 * (2 + L::new(&cid, "00000", 1).enc().len())
            } else {
                0
            };
            // fill up with one long name, or two where the length field makes a step
            let rest = size - used - (4);
            let len = |n: usize| {
                let mut o = vec![];
                lf(&mut o, 2, &L::new(&cid, &"n".repeat(n), 1).enc());
                o.len()
            };
            let mut n = rest.saturating_sub(60);
            while len(n) < rest {
                n += 1;
            }
            if len(n) != rest {
                return Ok(());
            }
            ops.push(Op::Link(format!("{dir}/{}", "n".repeat(n)), cid.clone(), 1));
            let (base, _) = run_ops(cx, &ops, wrap, &mut owned)?;
            assert!(base[0].block.len() == size);
            let limit = *cx.pick(&[None, Some(None), Some(Some(size as u64)), Some(Some(size as u64 - 1))]);
            limited(cx, &ops, wrap, &base, limit, false)
        },
    );
    vec![shapes, mixed, more, meta, default]
}

// --- C26 ------------------------------------------------------------------------------------

/// Walks what was built from its last block and compares the metadata of every directory.
fn walk_metadata(cx: &mut Cx, built: &[Out], root: &D, wrap: bool, leaves: &BTreeMap<Vec<u8>, Vec<u8>>) -> R {
    let Some(top) = built.last() else { return Ok(()) };
    let mut w = Walker::new(to_cid(&top.cid), top.path.clone());
    let mut seen = BTreeMap::new();
    while w.should_continue() {
        let cid = w.pending_links().0.to_bytes();
        let block = match built.iter().find(|o| o.cid == cid) {
            Some(o) => o.block.clone(),
            None => match leaves.get(&cid) {
                Some(b) => b.clone(),
                None => return fail("walk: unknown block", format!("the walk asks for {} which was not built", hex(&cid))),
            },
        };
        match w.next(&block, &mut None) {
            Ok(ContinuedWalk::Directory(_, p, m)) | Ok(ContinuedWalk::RootDirectory(_, p, m)) => {
                cx.step(&(p, meta_of(m)));
                let p = p.to_string_lossy().to_string();
                cx.log(|| format!("walk {p:?} {:?}", meta_of(m)));
                seen.insert(p, meta_of(m));
            }
            Ok(ContinuedWalk::Bucket(..)) => return fail("walk: bucket", "a built directory is walked as bucket"),
            Ok(_) => {}
            Err(e) => return fail("walk: fails", format!("walking the built tree fails: {e}")),
        }
    }
    fn metas(d: &D, path: &str, out: &mut BTreeMap<String, Meta>) {
        for (n, t) in &d.kids {
            if let T::Dir(d) = t {
                let p = join(path, n);
                out.insert(p.clone(), d.meta);
                metas(d, &p, out);
            }
        }
    }
    let mut want = BTreeMap::new();
    metas(root, "", &mut want);
    if wrap {
        want.insert(String::new(), (None, None));
    }
    ensure!(seen == want, "metadata: read back", "the walk reports {seen:?} instead of {want:?}");
    Ok(())
}

fn leaf_block(b: u8) -> Vec<u8> {
    block(&[], &U { ty: FILE, data: Some(vec![b]), filesize: Some(1), mode: Some(0o100_000 + b as u32), mtime: Some((b as i64, None)), ..U::default() })
}

fn with_metadata(cx: &mut Cx, ops: &[Op], wrap: bool) -> R {
    let mut leaves = BTreeMap::new();
    let ops: Vec<Op> = ops
        .iter()
        .enumerate()
        .map(|(i, o)| match o {
            Op::Link(p, _, _) => {
                let b = leaf_block(i as u8);
                let c = cid1(&b);
                leaves.insert(c.clone(), b.clone());
                Op::Link(p.clone(), c, b.len() as u64)
            }
            o => o.clone(),
        })
        .collect();
    let (built, root) = run_ops(cx, &ops, wrap, &mut owned)?;
    walk_metadata(cx, &built, &root, wrap, &leaves)
}

pub fn c26(tier: Tier) -> Vec<Scenario> {
    let modes = {
        let mut v: Vec<Option<u32>> = vec![None, Some(0o755), Some(0o100_644), Some(u32::MAX), Some(1 << 31)];
        v.extend(edges(32).into_iter().map(|m| Some(m as u32)));
        v
    };
    let secs = {
        let mut v: Vec<Option<i64>> = vec![None, Some(-1), Some(i64::MIN), Some(i64::MAX), Some(i64::MIN + 1), Some(1 << 31), Some(-(1 << 31)), Some(1_600_000_000)];
        v.extend(edges(63).into_iter().map(|m| Some(m as i64)));
        v
    };
    let nanos = [0u32, 1, 999_999_999, 1_000_000_000, u32::MAX, 1 << 31];
    let values = scenario(
        "values",
        format!("every combination of {} modes, {} seconds and {} nanoseconds, on a directory with entries, an empty one, a top one, a nested one", modes.len(), secs.len(), nanos.len()),
        move |cx| {
            let mode = *cx.pick(&modes);
            let mtime = match *cx.pick(&secs) {
                None => None,
                Some(s) => Some((s, *cx.pick(&nanos))),
            };
            let m = (mode, mtime);
            let mut s = Src { n: 0 };
            let (wrap, ops) = match cx.choose(4) {
                0 => (true, vec![s.link("a/x".into()), Op::Dir("a".into(), m)]),
                1 => (true, vec![Op::Dir("a".into(), m)]),
                2 => (false, vec![Op::Dir("a".into(), m), s.link("a/b/x".into())]),
                _ => (false, vec![Op::Dir("a/b".into(), m), s.link("a/x".into())]),
            };
            with_metadata(cx, &ops, wrap)
        },
    );
    let n = tier.of(4, 5);
    const DIRS: [&str; 6] = ["a", "a/b", "a/b/c", "a/d", "a.b", "e"];
    const METAS: [Meta; 4] = [(Some(0o755), None), (None, Some((-5, 7))), (Some(7), Some((1, 0))), (None, None)];
    let histories = scenario(
        "histories",
        format!("every sequence of up to {n} registrations of metadata over {} directories and of links below them, repeated ones included", DIRS.len()),
        move |cx| {
            let len = cx.choose(n + 1);
            let mut ops = vec![];
            for i in 0..len {
                let d = *cx.pick(&DIRS);
                if cx.choose(3) == 0 {
                    ops.push(Op::Link(format!("{d}/{i}"), vec![], 0));
                } else {
                    // distinguishable from all others, or none
                    let mut m = METAS[(i + d.len()) % 3];
                    if let Some(x) = m.0.as_mut() {
                        *x += i as u32;
                    }
                    if let Some(x) = m.1.as_mut() {
                        x.0 += i as i64;
                    }
                    ops.push(Op::Dir(d.into(), if cx.flag() { m } else { METAS[3] }));
                }
            }
            with_metadata(cx, &ops, true)
        },
    );
    let k = tier.of(5, 6);
    let orders = scenario(
        "orders",
        format!("metadata on every subset of the directories of every hierarchy of up to {k} entries (at most 3 per directory, depth 3), registered in every order"),
        move |cx| {
            let wrap = cx.flag();
            let mut ops = vec![];
            let mut budget = k;
            gen_ops(cx, &mut Src { n: 0 }, if wrap { "" } else { "a" }, &mut budget, 3, 3, 1, true, &mut ops);
            for (i, o) in ops.iter_mut().enumerate() {
                if let Op::Dir(_, m) = o {
                    *m = (Some(i as u32), Some((i as i64, i as u32)));
                }
            }
            if !ops.iter().any(|o| matches!(o, Op::Dir(..))) || ops.len() > k + 1 {
                return Ok(());
            }
            permute(cx, &mut ops);
            with_metadata(cx, &ops, wrap)
        },
    );
    let more = scenario("more", format!("{FAMILY}; metadata on all, each second or each third of its directories, registered before or after the links"), |cx| {
        let (wrap, ops) = family(cx);
        if ops.iter().any(|o| o.path().split('/').any(|n| [".", ".."].contains(&n))) {
            // no walk accepts them
            return Ok(());
        }
        let (start, step) = *cx.pick(&[(0, 1), (0, 2), (1, 2), (0, 3), (1, 3), (2, 3)]);
        let dirs: Vec<Op> = implied(&ops)
            .into_iter()
            .skip(start)
            .step_by(step)
            .enumerate()
            .map(|(i, d)| Op::Dir(d, (Some(i as u32), Some((-(i as i64), 1 + i as u32)))))
            .collect();
        let all = if cx.flag() { [ops, dirs].concat() } else { [dirs, ops].concat() };
        with_metadata(cx, &all, wrap)
    });
    vec![values, histories, orders, more]
}

// --- C29 ------------------------------------------------------------------------------------

pub fn c29_builder(tier: Tier) -> Vec<Scenario> {
    let k = tier.of(4, 6);
    // one root, two roots, a directory beyond the default limit and one just within it
    let trees: Vec<Vec<Op>> = {
        let mut s = Src { n: 0 };
        let long = "n".repeat(512 * 1024 - 56);
        vec![
            vec![s.link("a/b/c".into()), s.link("a/d".into())],
            vec![s.link("a/b".into()), s.link("c/d".into()), s.link("e".into())],
            vec![s.link(format!("a/{long}0123456789"))],
            vec![s.link(format!("a/{}", &long[..long.len() - 64]))],
        ]
    };
    vec![scenario(
        "tree builder",
        format!("every sequence of up to {k} of wrapping, 6 limits and copying the options, and no options at all; trees of one root, of several, and (sequences of up to 3) with directories around the default limit"),
        move |cx| {
            let t = cx.choose(trees.len());
            let ops = &trees[t];
            let (mut wrap, mut limit) = (false, Some(512 * 1024));
            let mut o = TreeOptions::default();
            let n = cx.choose(if t < 2 { k + 1 } else { 4 });
            // 75 is between the sizes of the two directories of the first tree
            let limits = [None, Some(0), Some(75), Some(512 * 1024), Some(1 << 20), Some(u64::MAX)];
            for _ in 0..n {
                let i = cx.choose(2 + limits.len());
                match i {
                    0 => {
                        o.wrap_with_directory();
                        wrap = true;
                    }
                    1 => o = o.clone(),
                    i => {
                        o.block_size_limit(limits[i - 2]);
                        limit = limits[i - 2];
                    }
                }
                cx.step(&i);
                cx.log(|| format!("setting {i}: wrap {wrap} limit {limit:?}"));
            }
            let base = {
                let mut b = BufferingTreeBuilder::new(options(wrap, Some(None)));
                let mut root = D::default();
                for op in ops {
                    let _ = apply(&mut root, wrap, op);
                    let _ = register(&mut b, op);
                }
                let base = build(cx, b, &mut owned)?;
                same_tree(&base, &root.expected(wrap), wrap)?;
                base
            };
            let mut b = if n == 0 && cx.flag() { BufferingTreeBuilder::default() } else { BufferingTreeBuilder::new(o) };
            let mut root = D::default();
            for op in ops {
                both(cx, &mut b, &mut root, wrap, op)?;
            }
            build_limited(cx, b, &base, limit, false)
        },
    )]
}
