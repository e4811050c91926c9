//! C01..C03: importing files.
use crate::enc::*;
use crate::ensure;
use crate::explore::*;
use crate::model::hex;
use crate::Tier;
use std::collections::HashMap;
use libipld::Cid;
use std::path::Path;
use unixfs_v1::file::adder::{BalancedCollector, Chunker, Collector, FileAdder, FileAdderBuilder};
use unixfs_v1::file::visit::IdleFileVisit;
use unixfs_v1::walk::{ContinuedWalk, Walker};

type Blocks = Vec<(Vec<u8>, Vec<u8>)>;

#[derive(Clone, Copy, Debug)]
struct Conf {
    chunk: usize,
    bf: usize,
    default: bool,
}

fn adder(c: Conf) -> FileAdder {
    if c.default {
        FileAdder::default()
    } else {
        FileAdder::builder()
            .with_chunker(Chunker::Size(c.chunk))
            .with_collector(BalancedCollector::with_branching_factor(c.bf))
            .build()
    }
}

const DEFAULT: Conf = Conf { chunk: 256 * 1024, bf: 174, default: true };

fn conf(chunk: usize, bf: usize) -> Conf {
    Conf { chunk, bf, default: false }
}

/// 0: all blocks differ, 1: all bytes equal, 2: short period, 3: zeroes
fn content(n: usize, pattern: usize) -> Vec<u8> {
    match pattern {
        0 => {
            let mut x = 0x9E3779B97F4A7C15u64;
            (0..n)
                .map(|i| {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    (x >> 24) as u8 ^ i as u8
                })
                .collect()
        }
        1 => vec![b'a'; n],
        2 => (0..n).map(|i| b"ab\x00"[i % 3]).collect(),
        _ => vec![0; n],
    }
}

#[derive(Clone)]
struct T {
    cid: Vec<u8>,
    total: u64,
    size: u64,
}

fn reference_leaf(c: &[u8]) -> (T, Vec<u8>) {
    let u = U { ty: FILE, data: if c.is_empty() { None } else { Some(c.to_vec()) }, filesize: Some(c.len() as u64), ..U::default() };
    let b = block(&[], &u);
    (T { cid: cid1(&b), total: b.len() as u64, size: c.len() as u64 }, b)
}

/// The reference layout: all blocks by level, root last.
fn reference(data: &[u8], chunk: usize, bf: usize) -> Blocks {
    let mut out = Vec::new();
    let mut level: Vec<T> = Vec::new();
    let chunks: Vec<&[u8]> = if data.is_empty() { vec![&[]] } else { data.chunks(chunk).collect() };
    for c in chunks {
        let (t, b) = reference_leaf(c);
        out.push((t.cid.clone(), b));
        level.push(t);
    }
    reference_levels(level, bf, &mut out);
    out
}

fn reference_levels(mut level: Vec<T>, bf: usize, out: &mut Blocks) {
    while level.len() > 1 {
        let mut up = Vec::new();
        for group in level.chunks(bf) {
            let links: Vec<L> = group.iter().map(|t| L::new(&t.cid, "", t.total)).collect();
            let size = group.iter().map(|t| t.size).sum();
            let u = U { ty: FILE, filesize: Some(size), blocksizes: group.iter().map(|t| t.size).collect(), ..U::default() };
            let b = block(&links, &u);
            let cid = cid1(&b);
            up.push(T { cid: cid.clone(), total: b.len() as u64 + group.iter().map(|t| t.total).sum::<u64>(), size });
            out.push((cid, b));
        }
        level = up;
    }
}

/// Imports `len` zero bytes, more than can be held: of the leaves only the first and the last one
/// are kept. All leaves are compared with the first one, or the last one, as they come.
struct Vast {
    /// every block in the order of emission, leaves with nothing for a block
    order: Blocks,
    leaves: [(T, Vec<u8>); 2],
}

fn vast(cx: &mut Cx, len: u64, c: Conf) -> R<Vast> {
    let zeros = vec![0u8; c.chunk];
    let tail = (len % c.chunk as u64) as usize;
    let leaves = [reference_leaf(&zeros), reference_leaf(&zeros[..tail])];
    let mut a = adder(c);
    let mut order: Blocks = vec![];
    let mut at = 0u64;
    let mut seen = 0u64;
    let mut take = |cid: Cid, b: Vec<u8>, order: &mut Blocks| -> R {
        let cid = cid.to_bytes();
        // leaves have no links
        if b.first() == Some(&0x0a) {
            let (t, want) = &leaves[(seen == len / c.chunk as u64) as usize];
            seen += 1;
            ensure!(&b == want && cid == t.cid, "import: leaf", "leaf #{seen} is {} with CID {} instead of {}", hex(&b), hex(&cid), hex(want));
            order.push((cid, vec![]));
        } else {
            order.push((cid, b));
        }
        Ok(())
    };
    while at < len {
        let n = (len - at).min(c.chunk as u64) as usize;
        let (it, used) = a.push(&zeros[..n]);
        for (cid, b) in it {
            take(cid, b, &mut order)?;
        }
        ensure!(used > 0 && used <= n, "push: no progress", "a push of {n} bytes at {at} consumes {used}");
        at += used as u64;
        cx.step(&(used, order.len()));
        cx.alive();
    }
    for (cid, b) in a.finish() {
        take(cid, b, &mut order)?;
    }
    cx.log(|| format!("{len} bytes imported as {} blocks", order.len()));
    Ok(Vast { order, leaves })
}

/// Sizes of imports beyond 32 bits.
const VAST: u64 = (1 << 32) + (1 << 26) + 5;

struct Import {
    blocks: Blocks,
    pushes: usize,
}

/// Imports `data`, asking `split` for the size of the next push (0 makes an empty push). `check`
/// turns on the observations of C02.
fn import(cx: &mut Cx, data: &[u8], c: Conf, check: bool, split: &mut dyn FnMut(&mut Cx, usize) -> usize) -> R<Import> {
    import_by(cx, adder(c), data, c, check, split)
}

fn import_by(cx: &mut Cx, mut a: FileAdder, data: &[u8], c: Conf, check: bool, split: &mut dyn FnMut(&mut Cx, usize) -> usize) -> R<Import> {
    let mut at = 0;
    let mut blocks: Blocks = vec![];
    let mut leaves = 0usize;
    let mut pushes = 0;
    let small = data.len() < 4096;
    if check {
        let _ = format!("{a:?}");
    }
    let mut idle = 0;
    while at < data.len() {
        let n = split(cx, data.len() - at).min(data.len() - at);
        let (it, used) = a.push(&data[at..at + n]);
        let new: Blocks = it.map(|(c, b)| (c.to_bytes(), b)).collect();
        pushes += 1;
        if small {
            cx.step(&(used, &new));
        } else {
            cx.step(&(used, new.len(), at));
        }
        cx.log(|| format!("push {n} bytes -> consumed {used}, {} blocks", new.len()));
        if check {
            let hint = a.size_hint();
            ensure!(hint == c.chunk, "size hint", "the size hint is {hint} with chunks of {}", c.chunk);
        }
        ensure!(used <= n, "push: consumed too much", "a push of {n} bytes consumed {used}");
        idle = if n > 0 && used == 0 { idle + 1 } else { 0 };
        if check {
            let dbg = format!("{a:?}");
            ensure!(!dbg.is_empty(), "debug", "empty debug output");
            ensure!(n == 0 || used > 0, "push: consumed nothing", "a push of {n} bytes at {at} consumed nothing");
            ensure!(new.len() <= 2, "push: more than two blocks", "a push of {n} bytes at {at} emitted {} blocks", new.len());
        }
        ensure!(idle < 3, "push: no progress", "repeated pushes at {at} consume nothing");
        at += used;
        for (_, b) in &new {
            // leaves have no links
            if b.first() == Some(&0x0a) {
                leaves += 1;
            }
        }
        if check {
            ensure!(leaves == at / c.chunk, "push: late chunk", "after {at} bytes {leaves} chunks of {} were emitted", c.chunk);
        }
        blocks.extend(new);
    }
    // empty pushes at the end
    if split(cx, 0) == 1 {
        let (it, used) = a.push(&[]);
        let new: Blocks = it.map(|(c, b)| (c.to_bytes(), b)).collect();
        cx.step(&(used, new.len()));
        cx.log(|| format!("empty push at the end -> consumed {used}, {} blocks", new.len()));
        ensure!(used == 0 && new.is_empty(), "push: empty push", "an empty push at the end consumed {used} and emitted {} blocks", new.len());
        if check {
            let _ = format!("{a:?}");
        }
    }
    let last: Blocks = a.finish().map(|(c, b)| (c.to_bytes(), b)).collect();
    if small {
        cx.step(&last);
    } else {
        cx.step(&last.len());
    }
    cx.log(|| format!("finish -> {} blocks, root {}", last.len(), last.last().map(|x| hex(&x.0)).unwrap_or_default()));
    blocks.extend(last);
    Ok(Import { blocks, pushes })
}

fn check_layout(got: &Blocks, want: &Blocks) -> R {
    // every block once
    let mut count: HashMap<&(Vec<u8>, Vec<u8>), i64> = HashMap::new();
    for b in want {
        *count.entry(b).or_default() += 1;
    }
    for (i, b) in got.iter().enumerate() {
        match count.get_mut(b) {
            Some(n) => *n -= 1,
            None => {
                return fail("import: unexpected block", format!("block #{i} {} with CID {} is not one of the canonical layout", hex(&b.1), hex(&b.0)));
            }
        }
    }
    // identical subtrees may be emitted as often as they occur
    if let Some((b, n)) = count.iter().find(|x| *x.1 != 0) {
        return fail("import: block count", format!("block {} is emitted {} time(s) {}", hex(&b.1), n.abs(), if *n > 0 { "too few" } else { "too many" }));
    }
    ensure!(got.last() == want.last(), "import: root", "the last block is {} instead of the root", got.last().map(|b| hex(&b.1)).unwrap_or_default());
    // children before parents
    let mut emitted: HashMap<&[u8], ()> = HashMap::new();
    for (cid, b) in got {
        for l in links_of(b) {
            ensure!(emitted.contains_key(l), "import: order", "block {} is emitted before its child {}", hex(cid), hex(l));
        }
        emitted.insert(cid, ());
    }
    Ok(())
}

/// Link hashes of a canonical block.
fn links_of(b: &[u8]) -> Vec<&[u8]> {
    let mut out = vec![];
    let mut at = 0;
    let rd = |at: &mut usize| {
        let (mut v, mut s) = (0usize, 0);
        loop {
            let x = b[*at];
            *at += 1;
            v |= ((x & 0x7f) as usize) << s;
            s += 7;
            if x < 0x80 {
                return v;
            }
        }
    };
    while at < b.len() && b[at] == 0x12 {
        at += 1;
        let len = rd(&mut at);
        let end = at + len;
        let mut p = at + 1;
        let hl = rd(&mut p);
        out.push(&b[p..p + hl]);
        at = end;
    }
    out
}

fn read_back(cx: &mut Cx, imp: &Import, data: &[u8]) -> R {
    let map: HashMap<&[u8], &[u8]> = imp.blocks.iter().map(|(c, b)| (&c[..], &b[..])).collect();
    ensure!(!imp.blocks.is_empty(), "import: no blocks", "no blocks emitted");
    let (root_cid, root) = imp.blocks.last().unwrap();
    let small = data.len() < 4096;

    // visit
    let mut got = Vec::new();
    let (b, size, _, mut next) = match IdleFileVisit::default().start(root) {
        Ok(x) => x,
        Err(e) => return fail("read: start", format!("reading the imported root fails: {e:?}")),
    };
    got.extend_from_slice(b);
    ensure!(size == data.len() as u64, "read: size", "the size is {size} instead of {}", data.len());
    let mut cache = None;
    while let Some(v) = next {
        ensure!(v.file_size() == data.len() as u64, "read: size", "file_size() is {} instead of {}", v.file_size(), data.len());
        let cid = v.pending_links().0.to_bytes();
        for c in v.pending_links().1.take(if small { usize::MAX } else { 2 }) {
            ensure!(map.contains_key(&c.to_bytes()[..]), "read: unknown block", "pending block {} was never emitted", hex(&c.to_bytes()));
        }
        let Some(block) = map.get(&cid[..]) else {
            return fail("read: unknown block", format!("asks for block {} which was never emitted", hex(&cid)));
        };
        let (b, n) = match v.continue_walk(block, &mut cache) {
            Ok(x) => x,
            Err(e) => return fail("read: continue", format!("reading imported block {} fails: {e:?}", hex(&cid))),
        };
        if small {
            cx.step(&(b, &cid));
        } else {
            cx.step(&(b.len(), &cid));
        }
        got.extend_from_slice(b);
        next = n;
    }
    cx.log(|| format!("visit from {} gives {}", hex(root_cid), hex(&got)));
    ensure!(got == data, "read: content", "the visit gives {} bytes {} instead of {} bytes {}", got.len(), hex(&got), data.len(), hex(data));

    // walk
    let mut w = Walker::new(crate::model::to_cid(root_cid), "name".into());
    let mut got = Vec::new();
    let mut cache = None;
    while w.should_continue() {
        let cid = w.pending_links().0.to_bytes();
        let Some(block) = map.get(&cid[..]) else {
            return fail("walk: unknown block", format!("the walk asks for block {} which was never emitted", hex(&cid)));
        };
        let r = w.next(block, &mut cache);
        match r {
            Ok(ContinuedWalk::File(s, c, p, _, size)) => {
                ensure!(p == Path::new("name"), "walk: path", "path {p:?}");
                ensure!(c.to_bytes() == *root_cid, "walk: cid", "walk reports CID {} instead of {}", hex(&c.to_bytes()), hex(root_cid));
                ensure!(size == data.len() as u64, "walk: size", "the walk reports size {size} instead of {}", data.len());
                got.extend_from_slice(s.as_bytes());
                cx.step(&(s.as_bytes().len(), cid));
            }
            other => return fail("walk: result", format!("walking an imported file gives {other:?}")),
        }
    }
    cx.log(|| format!("walk from {} gives {}", hex(root_cid), hex(&got)));
    ensure!(got == data, "walk: content", "the walk gives {} bytes {} instead of {} bytes {}", got.len(), hex(&got), data.len(), hex(data));
    Ok(())
}

/// Any next push, and an empty push possibly before any other.
fn any_split(empties: bool) -> impl FnMut(&mut Cx, usize) -> usize {
    let mut was_empty = false;
    move |cx: &mut Cx, left: usize| {
        if left == 0 {
            return if empties { cx.choose(2) } else { 0 };
        }
        if empties && !was_empty {
            let c = cx.choose(left + 1);
            // 0 is the largest push, so that the default is simplest
            if c == left {
                was_empty = true;
                return 0;
            }
            return left - c;
        }
        was_empty = false;
        left - cx.choose(left)
    }
}

fn fixed_split(sizes: Vec<usize>) -> impl FnMut(&mut Cx, usize) -> usize {
    let mut i = 0;
    move |_cx: &mut Cx, left: usize| {
        if left == 0 {
            return 1;
        }
        i += 1;
        sizes[(i - 1) % sizes.len()]
    }
}

fn whole(_: &mut Cx, left: usize) -> usize {
    left
}

/// Larger imports: (content length, chunk, branching factor, pattern)
fn big_cases(tier: Tier) -> Vec<(usize, Conf)> {
    let mut v = vec![];
    let k = 256 * 1024;
    for n in [0, 1, k - 1, k, k + 1, 2 * k - 1, 2 * k, 2 * k + 1, 3 * k + 7] {
        v.push((n, DEFAULT));
    }
    for c in [1usize, 63, 64, 126, 127, 128, 129, 255, 256, 1000, 16381, 16382, 16383, 16384, 16385, 65536] {
        for n in [c - 1, c, c + 1, 2 * c, 3 * c - 1, 5 * c] {
            v.push((n, conf(c, 2)));
            v.push((n, conf(c, 174)));
        }
    }
    for c in [2097150usize, 2097151, 2097152, 2097153] {
        v.push((c, conf(c, 2)));
        v.push((c + 1, conf(c, 2)));
    }
    // the default branching factor around its first and second level
    for n in [173, 174, 175, 176, 347, 348, 349, 174 * 3, 174 * 3 + 1] {
        v.push((n, conf(1, 174)));
        v.push((2 * n, conf(2, 174)));
        v.push((3 * n - 1, conf(3, 174)));
    }
    for n in [174 * 174 - 1, 174 * 174, 174 * 174 + 1, 174 * 174 + 174, 174 * 174 + 175] {
        v.push((n, conf(1, 174)));
    }
    for bf in [100usize, 127, 128, 129, 173, 175, 200, 255, 256, 257, 1000] {
        for n in [bf - 1, bf, bf + 1, 2 * bf, 2 * bf + 1] {
            v.push((n, conf(1, bf)));
        }
    }
    // counts beyond 16 bits
    for (n, bf) in [(65535, 174), (65537, 174), (65537, 2), (70000, 70000), (70001, 70000)] {
        v.push((n, conf(1, bf)));
    }
    if tier.thorough() {
        v.push((174 * k, DEFAULT));
        v.push((174 * k + 1, DEFAULT));
        v.push((175 * k, DEFAULT));
        for n in [174 * 174 * 2, 174 * 174 * 2 + 1, 100_000] {
            v.push((n, conf(1, 174)));
        }
    }
    v
}

fn contents_scenario(f: impl Fn(&mut Cx, &[u8], Conf, Vec<usize>) -> R + Send + Sync + 'static) -> Scenario {
    let all = odd_contents();
    scenario(
        "contents",
        format!("{} contents ({ODD_CONTENTS}), once or three times in a row, in chunks of 1 and 2 bytes, of the length of the content and one more, pushed in whole or in parts", all.len()),
        move |cx| {
            let one = cx.pick(&all);
            let times = [1, 3][cx.choose(2)];
            let chunk = [1, 2, one.len(), one.len() + 1][cx.choose(4)];
            let sizes = [vec![usize::MAX], vec![one.len()], vec![1, 2]][cx.choose(3)].clone();
            f(cx, &one.repeat(times), conf(chunk, 2), sizes)
        },
    )
}

/// Settings far beyond any content, up to the largest there are.
const HUGE: [usize; 14] =
    [1 << 21, 1 << 24, (1 << 24) + 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 47, 1 << 56, 1 << 62, usize::MAX / 2, usize::MAX - 1, usize::MAX];

fn huge_scenario(f: impl Fn(&mut Cx, &[u8], Conf, Vec<usize>) -> R + Send + Sync + 'static) -> Scenario {
    scenario(
        "huge settings",
        format!("chunk sizes, branching factors and both of {} values from 2^21 to the largest there is; 0, 1, 2, 300 and 2^24 + 5 bytes, pushed in whole or in parts", HUGE.len()),
        move |cx| {
            let big = cx.flag();
            let chunk = [1, 100, usize::MAX][cx.choose(if big { 1 } else { 3 })];
            let chunk = if big || chunk == usize::MAX { *cx.pick(&HUGE) } else { chunk };
            let bf = if big { 2 } else { *cx.pick(&HUGE) };
            let len = if big { (1 << 24) + 5 } else { [0, 1, 2, 300][cx.choose(4)] };
            let sizes = if big { [vec![usize::MAX], vec![1 << 23]] } else { [vec![usize::MAX], vec![1, 0, 2]] };
            let sizes = sizes[cx.choose(2)].clone();
            f(cx, &content(len, 0), conf(chunk, bf), sizes)
        },
    )
}

pub fn c01(tier: Tier) -> Vec<Scenario> {
    let n = tier.of(8, 11);
    let counts = tier.of(140, 600);
    let big = big_cases(tier);
    let nbig = big.len();
    vec![
        scenario(
            "splits",
            format!("contents of 0..={n} bytes, 3 patterns, chunk sizes 1..=4, branching factors 2..=4, every split into pushes; read back by visit and walk"),
            move |cx| {
                let chunk = 1 + cx.choose(4);
                let bf = 2 + cx.choose(3);
                let pat = cx.choose(3);
                let len = cx.choose(n + 1);
                let data = content(len, pat);
                let imp = import(cx, &data, conf(chunk, bf), false, &mut any_split(false))?;
                read_back(cx, &imp, &data)
            },
        ),
        scenario(
            "counts",
            format!("contents of every length 0..={counts} with chunk sizes 1..=3 (last chunk full or short), branching factors 2..=9, 4 patterns, whole pushes and pushes of 1 and 2 bytes"),
            move |cx| {
                let bf = 2 + cx.choose(8);
                let chunk = 1 + cx.choose(3);
                let pat = cx.choose(4);
                let sizes = [vec![usize::MAX], vec![1], vec![2, 1]][cx.choose(3)].clone();
                let len = cx.choose(counts + 1);
                let data = content(len, pat);
                let imp = import(cx, &data, conf(chunk, bf), false, &mut fixed_split(sizes))?;
                read_back(cx, &imp, &data)
            },
        ),
        scenario(
            "large",
            format!("{nbig} combinations of chunk sizes up to 2 MiB and branching factors up to 1000 at their boundaries, defaults included, 2 patterns"),
            move |cx| {
                let (len, c) = *cx.pick(&big);
                let pat = if len > 5_000_000 { 0 } else { cx.choose(2) };
                let data = content(len, pat);
                let mut sp = |_: &mut Cx, left: usize| left.min(c.chunk * 2 / 3 + 1);
                let imp = import(cx, &data, c, false, &mut sp)?;
                read_back(cx, &imp, &data)
            },
        ),
        contents_scenario(|cx, data, c, sizes| {
            let imp = import(cx, data, c, false, &mut fixed_split(sizes))?;
            read_back(cx, &imp, data)
        }),
        huge_scenario(|cx, data, c, sizes| {
            let imp = import(cx, data, c, false, &mut fixed_split(sizes))?;
            read_back(cx, &imp, data)
        }),
        scenario("beyond 32 bits", format!("a file of {VAST} bytes in chunks of 64 MiB, branching factors 3 and 174"), |cx| {
            let c = conf(1 << 26, [174, 3][cx.choose(2)]);
            let v = vast(cx, VAST, c)?;
            read_back_vast(cx, &v, VAST)
        }),
    ]
}

fn read_back_vast(cx: &mut Cx, v: &Vast, len: u64) -> R {
    let map: HashMap<&[u8], &[u8]> = v.order.iter().filter(|b| !b.1.is_empty()).map(|(c, b)| (&c[..], &b[..])).chain(v.leaves.iter().map(|(t, b)| (&t.cid[..], &b[..]))).collect();
    let root_cid = &v.order.last().expect("blocks").0;
    let zeros = vec![0u8; 1 << 26];
    let is_zero = |b: &[u8]| b.len() <= zeros.len() && b == &zeros[..b.len()];
    let mut cache = None;
    let mut got = 0u64;
    let (b, size, _, mut next) = match IdleFileVisit::default().start(map[&root_cid[..]]) {
        Ok(x) => x,
        Err(e) => return fail("read: start", format!("reading the imported root fails: {e:?}")),
    };
    ensure!(b.is_empty() && size == len, "read: size", "the size is {size} instead of {len}, the root has {} bytes", b.len());
    while let Some(v) = next {
        ensure!(v.file_size() == len, "read: size", "file_size() is {} instead of {len}", v.file_size());
        let cid = v.pending_links().0.to_bytes();
        let Some(block) = map.get(&cid[..]) else {
            return fail("read: unknown block", format!("asks for block {} which was never emitted", hex(&cid)));
        };
        let (b, n) = match v.continue_walk(block, &mut cache) {
            Ok(x) => x,
            Err(e) => return fail("read: continue", format!("reading block {} after {got} bytes fails: {e:?}", hex(&cid))),
        };
        ensure!(is_zero(b), "read: content", "the block after {got} bytes gives other bytes: {}", hex(b));
        got += b.len() as u64;
        cx.step(&(b.len(), &cid));
        cx.alive();
        next = n;
    }
    ensure!(got == len, "read: content", "the visit gives {got} bytes instead of {len}");

    let mut w = Walker::new(crate::model::to_cid(root_cid), "name".into());
    let mut got = 0u64;
    while w.should_continue() {
        let cid = w.pending_links().0.to_bytes();
        let Some(block) = map.get(&cid[..]) else {
            return fail("walk: unknown block", format!("the walk asks for block {} which was never emitted", hex(&cid)));
        };
        match w.next(block, &mut cache) {
            Ok(ContinuedWalk::File(s, c, _, _, size)) => {
                ensure!(c.to_bytes() == *root_cid, "walk: cid", "walk reports CID {} instead of {}", hex(&c.to_bytes()), hex(root_cid));
                ensure!(size == len, "walk: size", "the walk reports size {size} instead of {len}");
                ensure!(is_zero(s.as_bytes()), "walk: content", "the block after {got} bytes gives other bytes: {}", hex(s.as_bytes()));
                got += s.as_bytes().len() as u64;
                cx.step(&(s.as_bytes().len(), cid));
                cx.alive();
            }
            other => return fail("walk: result", format!("walking an imported file gives {other:?}")),
        }
    }
    ensure!(got == len, "walk: content", "the walk gives {got} bytes instead of {len}");
    Ok(())
}

pub fn c02(tier: Tier) -> Vec<Scenario> {
    let n = tier.of(7, 9);
    let ladder = tier.of(90, 300);
    let big = big_cases(tier);
    let nbig = big.len();
    let cmp = |imp: &Import, want: &Import| -> R {
        if imp.blocks != want.blocks {
            let i = imp.blocks.iter().zip(&want.blocks).position(|(a, b)| a != b).unwrap_or(imp.blocks.len().min(want.blocks.len()));
            return fail(
                "import: depends on the split",
                format!("{} pushes give {} blocks, {} pushes give {}; the first difference is at #{i}", imp.pushes, imp.blocks.len(), want.pushes, want.blocks.len()),
            );
        }
        Ok(())
    };
    vec![
        scenario(
            "splits",
            format!("contents of 0..={n} bytes, chunk sizes 1..=4 and 6, branching factors 2..=4, every split into pushes with an empty push possibly before each and at the end"),
            move |cx| {
                let chunk = [1, 2, 3, 4, 6][cx.choose(5)];
                let bf = 2 + cx.choose(3);
                let len = cx.choose(n + 1);
                let data = content(len, 0);
                let c = conf(chunk, bf);
                let imp = import(cx, &data, c, true, &mut any_split(true))?;
                let want = import(cx, &data, c, true, &mut whole)?;
                cmp(&imp, &want)
            },
        ),
        scenario(
            "periodic",
            format!("contents of 0..={ladder} bytes, chunk sizes 1..=5, branching factors 2..=5, pushes alternating between two sizes of 0..=6 or everything"),
            move |cx| {
                let chunk = 1 + cx.choose(5);
                let bf = 2 + cx.choose(4);
                let a = 1 + cx.choose(6);
                let b = [0, 1, 2, 3, 4, 5, 6, usize::MAX][cx.choose(8)];
                let len = cx.choose(ladder + 1);
                let data = content(len, 0);
                let c = conf(chunk, bf);
                let imp = import(cx, &data, c, true, &mut fixed_split(vec![a, b]))?;
                let want = import(cx, &data, c, true, &mut whole)?;
                cmp(&imp, &want)
            },
        ),
        scenario(
            "large",
            format!("{nbig} combinations of chunk sizes up to 2 MiB and branching factors up to 1000 at their boundaries, defaults included; pushes of five sizes relative to the chunk"),
            move |cx| {
                let (len, c) = *cx.pick(&big);
                let data = content(len, 0);
                let s = match cx.choose(if len > 5_000_000 { 2 } else { 5 }) {
                    0 => c.chunk / 2 + 1,
                    1 => c.chunk + 1,
                    2 => c.chunk.max(2) - 1,
                    3 => c.chunk / 3 + 1,
                    _ => 2 * c.chunk,
                };
                let imp = import(cx, &data, c, len < 2000, &mut fixed_split(vec![s, 0]))?;
                let want = import(cx, &data, c, len < 2000, &mut whole)?;
                cmp(&imp, &want)
            },
        ),
        huge_scenario(move |cx, data, c, sizes| {
            let imp = import(cx, data, c, true, &mut fixed_split(sizes))?;
            let want = import(cx, data, c, true, &mut whole)?;
            cmp(&imp, &want)
        }),
    ]
}

pub fn c03(tier: Tier) -> Vec<Scenario> {
    let n = tier.of(64, 130);
    let counts = tier.of(300, 1100);
    let big = big_cases(tier);
    let nbig = big.len();
    vec![
        scenario(
            "small",
            format!("contents of 0..={n} bytes, 4 patterns, chunk sizes 1..=6, branching factors 2..=6, pushed whole, by 1, 2+3 and 7 bytes"),
            move |cx| {
                let chunk = 1 + cx.choose(6);
                let bf = 2 + cx.choose(5);
                let pat = cx.choose(4);
                let sizes = [vec![usize::MAX], vec![1], vec![2, 3], vec![7]][cx.choose(4)].clone();
                let len = cx.choose(n + 1);
                let data = content(len, pat);
                let imp = import(cx, &data, conf(chunk, bf), false, &mut fixed_split(sizes))?;
                check_layout(&imp.blocks, &reference(&data, chunk, bf))
            },
        ),
        scenario(
            "counts",
            format!("every number of chunks 0..={counts} with branching factors 2..=20"),
            move |cx| {
                let bf = 2 + cx.choose(19);
                let len = cx.choose(counts + 1);
                let data = content(len, 0);
                let imp = import(cx, &data, conf(1, bf), false, &mut whole)?;
                check_layout(&imp.blocks, &reference(&data, 1, bf))
            },
        ),
        scenario(
            "leaf sizes",
            "every chunk size 1..=400 with contents of one chunk, one chunk and a byte, three chunks".to_string(),
            move |cx| {
                let chunk = 1 + cx.choose(400);
                let len = [chunk, chunk + 1, 3 * chunk][cx.choose(3)];
                let data = content(len, 0);
                let imp = import(cx, &data, conf(chunk, 2), false, &mut whole)?;
                check_layout(&imp.blocks, &reference(&data, chunk, 2))
            },
        ),
        scenario(
            "large",
            format!("{nbig} combinations of chunk sizes up to 2 MiB and branching factors up to 1000 at their boundaries, defaults included, 2 patterns, 2 ways of pushing"),
            move |cx| {
                let (len, c) = *cx.pick(&big);
                let (pat, s) = if len > 5_000_000 { (0, 0) } else { (cx.choose(2), cx.choose(2)) };
                let data = content(len, pat);
                let sizes = if s == 0 { vec![usize::MAX] } else { vec![c.chunk / 2 + 1] };
                let imp = import(cx, &data, c, false, &mut fixed_split(sizes))?;
                check_layout(&imp.blocks, &reference(&data, c.chunk, c.bf))
            },
        ),
        contents_scenario(|cx, data, c, sizes| {
            let imp = import(cx, data, c, false, &mut fixed_split(sizes))?;
            check_layout(&imp.blocks, &reference(data, c.chunk, c.bf))
        }),
        huge_scenario(|cx, data, c, sizes| {
            let imp = import(cx, data, c, false, &mut fixed_split(sizes))?;
            check_layout(&imp.blocks, &reference(data, c.chunk, c.bf))
        }),
        scenario("beyond 32 bits", format!("a file of {VAST} bytes in chunks of 64 MiB, branching factors 3 and 174"), |cx| {
            let c = conf(1 << 26, [174, 3][cx.choose(2)]);
            let v = vast(cx, VAST, c)?;
            let n = VAST / c.chunk as u64;
            let mut level = vec![v.leaves[0].0.clone(); n as usize];
            level.push(v.leaves[1].0.clone());
            let mut want: Blocks = level.iter().map(|t| (t.cid.clone(), vec![])).collect();
            reference_levels(level, c.bf, &mut want);
            check_layout(&v.order, &want)
        }),
    ]
}

// --- C29 ------------------------------------------------------------------------------------

/// Applies a setting, and to the model.
fn set(cx: &mut Cx, b: FileAdderBuilder, c: &mut Conf) -> FileAdderBuilder {
    let i = cx.choose(11);
    let bf = BalancedCollector::with_branching_factor;
    let b = match i {
        0 => b.with_chunker(Chunker::Size(1)),
        1 => b.with_chunker(Chunker::Size(3).clone()),
        2 => b.with_chunker(Chunker::Size(4096)),
        3 => b.with_chunker(Chunker::default()),
        4 => b.with_collector(bf(2)),
        5 => b.with_collector(Collector::from(bf(3)).clone()),
        6 => b.with_collector(Collector::Balanced(bf(5).clone())),
        7 => b.with_collector(BalancedCollector::default()),
        8 => b.with_collector(Collector::default()),
        9 => b.with_chunker(Chunker::Size(usize::MAX)),
        _ => b.with_collector(bf(usize::MAX)),
    };
    match i {
        9 => c.chunk = usize::MAX,
        10 => c.bf = usize::MAX,
        0..=3 => c.chunk = [1, 3, 4096, DEFAULT.chunk][i],
        _ => c.bf = [2, 3, 5, DEFAULT.bf, DEFAULT.bf][i - 4],
    }
    cx.step(&i);
    cx.log(|| format!("setting {i}: {c:?}"));
    b
}

pub fn c29_imports(tier: Tier) -> Vec<Scenario> {
    let k = tier.of(3, 4);
    vec![scenario(
        "importer",
        format!("every sequence of up to {k} of 5 chunkers and 6 collectors (the defaults and the largest values among them), files of 0, 1, 7 and, with small chunks, 176 chunks, the last one full or not, pushed in whole or by the size hint; the default importer"),
        move |cx| {
            let mut c = Conf { default: false, ..DEFAULT };
            let mut b = if cx.flag() { FileAdder::builder() } else { FileAdderBuilder::default() };
            let n = cx.choose(k + 1);
            for _ in 0..n {
                b = set(cx, b, &mut c);
            }
            let a = if n == 0 && cx.flag() { FileAdder::default() } else { b.build() };
            let hint = a.size_hint();
            ensure!(hint == c.chunk, "size hint", "the size hint is {hint} with chunks of {}", c.chunk);
            let mut sizes = vec![0, c.chunk, c.chunk.saturating_mul(7), c.chunk.saturating_mul(7) - c.chunk / 2];
            if c.chunk == usize::MAX {
                sizes = vec![0, 1, 5000];
            } else if c.chunk <= 4096 {
                sizes.extend([174 * c.chunk, 176 * c.chunk]);
            } else if n == 0 {
                sizes.push(174 * c.chunk + 1);
            }
            let len = *cx.pick(&sizes);
            let data = content(len, 0);
            let mut parts = if cx.flag() { fixed_split(vec![hint]) } else { fixed_split(vec![usize::MAX]) };
            let imp = import_by(cx, a, &data, c, true, &mut parts)?;
            check_layout(&imp.blocks, &reference(&data, c.chunk, c.bf))
        },
    )]
}
