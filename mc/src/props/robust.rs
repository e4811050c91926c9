//! C07 and C08: whatever bytes are handed in.
use std::ops::Range;

use quick_protobuf::{BytesReader, MessageRead};
use unixfs_v1::dagpb::{node_data, wrap_node_data};
use unixfs_v1::dir::{self, MaybeResolved};
use unixfs_v1::file::visit::{self, FileVisit, IdleFileVisit};
use unixfs_v1::walk::{ContinuedWalk, Walker};
use unixfs_v1::{resolve, FlatUnixFs, PBLink, PBNode, UnixFs};

use crate::enc::*;
use crate::ensure;
use crate::explore::*;
use crate::memo;
use crate::model::*;
use crate::Tier;

/// What one call may hold beyond what was there before, given the bytes handed in so far.
fn allowed(total: usize) -> usize {
    (256 << 10) + 256 * total
}

fn bounded(peak: usize, total: usize, what: &str) -> R {
    ensure!(peak <= allowed(total), format!("{what}: allocates too much"), "{what} held {peak} bytes after {total} bytes of blocks");
    Ok(())
}

/// Everything an error says, with its causes.
fn said(e: &dyn std::error::Error) -> String {
    let mut s = format!("{e} {e:?} {e:#?}");
    let mut c = e.source();
    let mut n = 0;
    while let Some(e) = c {
        s += &format!(": {e} {e:?}");
        c = e.source();
        n += 1;
        assert!(n < 100, "an error is its own cause");
    }
    s
}

// --- C07: walks and visits --------------------------------------------------------------------

/// A walk as it goes on, fed anything.
struct AnyWalk {
    w: Walker,
    cache: Option<visit::Cache>,
    fed: usize,
}

impl AnyWalk {
    fn new(name: &str) -> AnyWalk {
        AnyWalk { w: Walker::new(to_cid(&fake_cid(0, 1)), name.to_string()), cache: None, fed: name.len() }
    }

    /// Feeds a block; whether the walk goes on.
    fn feed(&mut self, cx: &mut Cx, b: &[u8]) -> R<bool> {
        self.fed += b.len();
        let (w, cache) = (&mut self.w, &mut self.cache);
        let (r, peak) = memo::peak(|| {
            w.next(b, cache).map(|c| {
                // everything a result gives access to
                if let ContinuedWalk::File(s, ..) = &c {
                    assert!(!(s.as_bytes().len() > b.len()), "a segment longer than the block");
                }
                let s = seen(&c);
                (s.kind as u8, s.bytes.len(), s.path.as_os_str().len(), s.first, s.last, s.size)
            })
        });
        bounded(peak, self.fed, "walk")?;
        let more = self.w.should_continue();
        match &r {
            Ok(o) => cx.step(&(b, o, more)),
            Err(e) => {
                let text = said(&e);
                cx.step(&(b, more, text.len()));
                ensure!(!more, "walk: continues after an error", "after {e:?} on {} the walk wants to continue", hex(b));
            }
        }
        cx.log(|| format!("walk fed {} -> {r:?}, continues {more}", hex(b)));
        if more {
            let (p, peak) = memo::peak(|| {
                let (first, rest) = self.w.pending_links();
                let _ = first.to_bytes();
                rest.count()
            });
            bounded(peak, self.fed, "walk: pending")?;
            cx.step(&p);
        }
        Ok(more)
    }
}

struct AnyVisit {
    v: Option<FileVisit>,
    range: Option<Range<u64>>,
    cache: Option<visit::Cache>,
    fed: usize,
    begun: bool,
}

impl AnyVisit {
    fn new(range: Option<Range<u64>>) -> AnyVisit {
        AnyVisit { v: None, range, cache: None, fed: 0, begun: false }
    }

    fn feed(&mut self, cx: &mut Cx, b: &[u8]) -> R<bool> {
        self.fed += b.len();
        let v = self.v.take();
        let (range, cache, begun) = (&self.range, &mut self.cache, self.begun);
        let (r, peak) = memo::peak(|| {
            if !begun {
                let mut idle = IdleFileVisit::default();
                if let Some(r) = range {
                    idle = idle.with_target_range(r.clone());
                }
                idle.start(b).map(|(d, _, _, n)| (d.len(), n))
            } else {
                v.unwrap().continue_walk(b, cache).map(|(d, n)| (d.len(), n))
            }
        });
        self.begun = true;
        bounded(peak, self.fed, "visit")?;
        match r {
            Ok((n, next)) => {
                ensure!(n <= b.len(), "visit: too many bytes", "{n} bytes out of a block of {}", b.len());
                self.v = next;
                cx.step(&(b, n, self.v.is_some()));
            }
            Err(e) => {
                let text = said(&e);
                cx.step(&(b, text.len()));
            }
        }
        cx.log(|| format!("visit {:?} fed {} -> continues {}", self.range, hex(b), self.v.is_some()));
        if let Some(v) = &self.v {
            let (first, rest) = v.pending_links();
            let p = (first.to_bytes(), rest.count());
            let _ = (v.file_size(), meta_of(v.as_ref()));
            cx.step(&p.1);
        }
        Ok(self.v.is_some())
    }
}

/// No cache, one made of a used vector, or one left by a finished visit.
fn visit_cache(k: usize) -> Option<visit::Cache> {
    match k {
        0 => None,
        1 => Some(visit::Cache::from(vec![(to_cid(&fake_cid(2, 77)), 3..4), (to_cid(&fake_cid(2, 78)), 0..u64::MAX)])),
        _ => {
            let mut cache = None;
            let (_, _, _, v) = IdleFileVisit::default().start(&file(None, Some(1), &[1])).expect("a file");
            let _ = v.expect("goes on").continue_walk(&file(Some(b"a"), Some(1), &[]), &mut cache);
            cache
        }
    }
}

/// No cache, one made of a used queue, or one left by a lookup which found its name early.
fn lookup_cache(k: usize) -> Option<dir::Cache> {
    match k {
        0 => None,
        1 => Some(dir::Cache::from(std::collections::VecDeque::from(vec![to_cid(&fake_cid(2, 77)), to_cid(&fake_cid(2, 78))]))),
        _ => {
            let mut cache = None;
            let _ = resolve(&block(&links(&["00", "01", "02early"]), &U::shard()), "early", &mut cache);
            cache
        }
    }
}

enum Any {
    W(AnyWalk),
    V(AnyVisit),
}

const RANGES: [(u64, u64); 9] = [(0, 0), (0, 1), (1, 2), (2, u64::MAX), (u64::MAX, u64::MAX), (3, 1), (u64::MAX, 0), (1 << 63, (1 << 63) + 1), (0, u64::MAX)];

impl Any {
    /// A walk with one of three names, or a visit with one of the ranges, inverted ones included.
    fn pick(cx: &mut Cx, names: usize, ranges: usize) -> Any {
        let n = cx.choose(names + 1 + ranges);
        if n < names {
            Any::W(AnyWalk::new(["", "r", "a/b", "..", "/"][n]))
        } else if n == names {
            Any::V(AnyVisit::new(None))
        } else {
            let (s, e) = RANGES[n - names - 1];
            #[allow(clippy::reversed_empty_ranges)]
            Any::V(AnyVisit::new(Some(s..e)))
        }
    }

    fn with_cache(mut self, k: usize) -> Any {
        match &mut self {
            Any::W(w) => w.cache = visit_cache(k),
            Any::V(v) => v.cache = visit_cache(k),
        }
        self
    }

    fn feed(&mut self, cx: &mut Cx, b: &[u8]) -> R<bool> {
        match self {
            Any::W(w) => w.feed(cx, b),
            Any::V(v) => v.feed(cx, b),
        }
    }
}

fn id(n: u32) -> Vec<u8> {
    fake_cid(4, n)
}

fn links(names: &[&str]) -> Vec<L> {
    names.iter().enumerate().map(|(i, n)| L::new(&id(i as u32 + 10), n, i as u64)).collect()
}

fn file(data: Option<&[u8]>, filesize: Option<u64>, sizes: &[u64]) -> Vec<u8> {
    let l: Vec<&str> = sizes.iter().map(|_| "").collect();
    block(&links(&l), &U { ty: FILE, data: data.map(|d| d.to_vec()), filesize, blocksizes: sizes.to_vec(), ..U::default() })
}

fn raw_link(hash: Option<&[u8]>, name: Option<&[u8]>) -> L {
    L { hash: hash.map(|h| h.to_vec()), name: name.map(|n| n.to_vec()), tsize: None }
}

/// Blocks of every kind, well-formed and not.
fn pool() -> Vec<Vec<u8>> {
    let d = |l: &[L], f: &dyn Fn(&mut U)| {
        let mut u = U::ty(DIR);
        f(&mut u);
        block(l, &u)
    };
    let s = |l: &[L], f: &dyn Fn(&mut U)| {
        let mut u = U::shard();
        f(&mut u);
        block(l, &u)
    };
    let ok = id(5);
    vec![
        file(Some(b"abc"), Some(3), &[]),
        file(None, Some(4), &[2, 2]),
        d(&links(&["a", "b"]), &|_| {}),
        s(&links(&["00", "01x"]), &|_| {}),
        block(&[], &U { ty: SYM, data: Some(b"t".to_vec()), ..U::default() }),
        vec![],
        vec![0xff],
        node(&[], None),
        node(&links(&["x"]), Some(&[])),
        node(&links(&["x"]), Some(b"\xff")),
        // files
        file(None, None, &[]),
        file(None, Some(0), &[]),
        file(Some(b"abc"), None, &[]),
        file(Some(b"abc"), Some(2), &[]),
        file(Some(b"a"), Some(1000), &[]),
        file(Some(b""), Some(u64::MAX), &[]),
        file(Some(b"a"), Some(u64::MAX), &[]),
        file(None, Some(0), &[0]),
        file(None, Some(2), &[2]),
        file(None, Some(u64::MAX), &[u64::MAX]),
        file(None, Some(u64::MAX), &[u64::MAX, 1]),
        file(None, Some(4), &[1 << 63, 1 << 63]),
        file(None, Some(2), &[2, 2, 2]),
        file(Some(b"abc"), Some(5), &[2, 3]),
        block(&[], &U { ty: FILE, filesize: Some(2), blocksizes: vec![1, 1], ..U::default() }),
        block(&links(&["", ""]), &U { ty: FILE, filesize: Some(2), ..U::default() }),
        block(&[raw_link(None, None), raw_link(Some(&ok), None)], &U { ty: FILE, filesize: Some(2), blocksizes: vec![1, 1], ..U::default() }),
        block(&[raw_link(Some(&ok), None), raw_link(Some(&[1]), Some(b"n"))], &U { ty: RAW, filesize: Some(4), blocksizes: vec![2, 2], ..U::default() }),
        block(&[], &U { ty: RAW, data: Some(b"r".to_vec()), filesize: Some(1), mode: Some(1), mtime: Some((-1, Some(u32::MAX))), ..U::default() }),
        block(&[], &U { ty: RAW, data: Some(b"r".to_vec()), hash_type: Some(0), ..U::default() }),
        // directories
        d(&[], &|_| {}),
        d(&links(&["", "a"]), &|_| {}),
        d(&links(&[".", "a"]), &|_| {}),
        d(&links(&["..", ".."]), &|_| {}),
        d(&links(&["a/b"]), &|_| {}),
        d(&links(&["/"]), &|_| {}),
        d(&links(&["a", "a"]), &|_| {}),
        d(&links(&["\0"]), &|_| {}),
        d(&[raw_link(None, Some(b"x")), raw_link(Some(&ok), None)], &|_| {}),
        d(&[raw_link(Some(&ok), None)], &|_| {}),
        d(&links(&["a"]), &|u| u.data = Some(b"d".to_vec())),
        d(&links(&["a"]), &|u| u.filesize = Some(3)),
        d(&links(&["a"]), &|u| u.blocksizes = vec![3]),
        d(&links(&["a"]), &|u| u.mode = Some(u32::MAX)),
        // shards
        s(&[], &|_| {}),
        s(&links(&["00"]), &|_| {}),
        s(&links(&["00", "FF", "00"]), &|_| {}),
        s(&links(&["", "0", "00"]), &|_| {}),
        s(&links(&["é", "aéb"]), &|_| {}),
        s(&links(&["€"]), &|_| {}),
        s(&links(&["aéb"]), &|_| {}),
        s(&links(&["00/"]), &|_| {}),
        s(&links(&["00.."]), &|_| {}),
        s(&links(&["0/a"]), &|_| {}),
        s(&links(&["00a"]), &|u| u.fanout = Some(u64::MAX)),
        s(&links(&["00a"]), &|u| u.fanout = None),
        s(&links(&["00a"]), &|u| u.filesize = Some(0)),
        s(&[raw_link(None, Some(b"00")), raw_link(Some(&ok), Some(b"00y"))], &|_| {}),
        // others
        block(&links(&["a"]), &U { ty: SYM, ..U::default() }),
        block(&[], &U { ty: SYM, data: Some(vec![0xff, 0, b'/']), filesize: Some(7), ..U::default() }),
        block(&links(&["a"]), &U::ty(META)),
        block(&links(&["a"]), &U::ty(6)),
        block(&links(&["a"]), &U::ty(u64::MAX)),
        vec![0x12, 0x80],
        vec![0x0a, 0xff, 0xff, 0xff, 0xff, 0x0f],
        vec![0x0a, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01],
        vec![0x0a, 2, 0x12, 0x7f],
        vec![0x1a, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01],
    ]
}

/// Well-formed trees as the sequence of blocks in the order they are asked for.
fn trees() -> Vec<Vec<Vec<u8>>> {
    let l = |n: u32, name: &str| L::new(&fake_cid(1, n), name, 1000 + n as u64);
    let leaf = |d: &[u8]| file(Some(d), Some(d.len() as u64), &[]);
    let time = Some((1_600_000_000, Some(5)));
    vec![
        vec![file(None, Some(5), &[2, 3]), leaf(b"ab"), leaf(b"cde")],
        vec![file(None, Some(6), &[3, 3]), file(None, Some(3), &[1, 2]), leaf(b"1"), leaf(b"23"), leaf(b"456")],
        vec![
            block(&[l(1, "d"), l(2, "f"), l(3, "s")], &U { ty: DIR, mode: Some(0o755), mtime: time, ..U::default() }),
            block(&[l(4, "é")], &U::ty(DIR)),
            leaf(b"x"),
            block(&[l(5, ""), l(6, "")], &U { ty: FILE, filesize: Some(3), blocksizes: vec![1, 2], mode: Some(0o600), ..U::default() }),
            leaf(b"1"),
            leaf(b"23"),
            block(&[], &U { ty: SYM, data: Some(b"../f".to_vec()), ..U::default() }),
        ],
        vec![
            block(&[l(1, "00"), l(2, "0Ax"), l(3, "FF")], &U { data: Some(vec![3, 0x80]), mtime: time, ..U::shard() }),
            block(&[l(4, "01y")], &U::shard()),
            leaf(b"y"),
            leaf(b"x"),
            block(&[l(5, "02z")], &U::shard()),
            block(&[], &U { ty: DIR, ..U::default() }),
        ],
        vec![block(&[], &U { ty: SYM, data: Some(b"target".to_vec()), mode: Some(1), mtime: Some((-1, None)), ..U::default() })],
    ]
}

const TOKENS: [u8; 14] = [0x00, 0x01, 0x02, 0x05, 0x08, 0x0a, 0x0d, 0x12, 0x15, 0x18, 0x20, 0x2f, 0x80, 0xff];

/// One change of a block: a byte replaced, left out, inserted, doubled, or the block cut.
fn mutate(cx: &mut Cx, b: &mut Vec<u8>, two: bool) {
    if b.is_empty() {
        return;
    }
    match cx.choose(if two { 6 } else { 5 }) {
        0 => {
            let i = cx.choose(b.len());
            b[i] = cx.choose(256) as u8;
        }
        1 => {
            let i = cx.choose(b.len());
            b.remove(i);
        }
        2 => {
            let i = cx.choose(b.len() + 1);
            b.insert(i, *cx.pick(&TOKENS));
        }
        3 => {
            let i = cx.choose(b.len());
            b.truncate(i);
        }
        4 => {
            // a part of the block again
            let i = cx.choose(b.len());
            let n = 1 + cx.choose((b.len() - i).min(12));
            let part = b[i..i + n].to_vec();
            b.splice(i..i, part);
        }
        _ => {
            let i = cx.choose(b.len());
            let j = cx.choose(b.len());
            b[i] = *cx.pick(&TOKENS);
            b[j] = *cx.pick(&TOKENS);
        }
    }
}

/// First blocks after which a walk or visit goes on.
fn firsts() -> Vec<Vec<u8>> {
    vec![
        file(None, Some(4), &[2, 2]),
        block(&links(&["a", "b"]), &U::ty(DIR)),
        block(&links(&["00", "01x"]), &U::shard()),
        file(None, Some(u64::MAX), &[u64::MAX]),
    ]
}

pub fn c07(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    {
        let p = pool();
        let n = tier.of(4usize, 5);
        v.push(scenario(
            "pools",
            format!("every sequence of up to {n} of {} blocks of every kind (well-formed, contradictory, extreme sizes, bad names, broken links, unparsable) fed to walks with 5 root names and visits without and with 9 ranges (inverted and extreme ones included), each without a cache, with one made of a used vector and with one left by another visit", p.len()),
            move |cx| {
                let a = Any::pick(cx, 5, 9);
                let mut a = a.with_cache(cx.choose(3));
                for _ in 0..n {
                    let b = &p[cx.choose(p.len())];
                    if !a.feed(cx, b)? {
                        break;
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let p = pool();
        let n = tier.of(2usize, 3);
        v.push(scenario(
            "formatting",
            format!("every sequence of up to {n} of {} blocks of every kind fed to walks with 2 root names and visits without and with 2 ranges, the walk or visit being formatted for debugging after each", p.len()),
            move |cx| {
                let mut a = Any::pick(cx, 2, 2);
                for _ in 0..n {
                    let b = &p[cx.choose(p.len())];
                    let more = a.feed(cx, b)?;
                    let text = match &a {
                        Any::W(w) => format!("{:?} {:#?}", w.w, w.w),
                        Any::V(v) => format!("{:?} {:#?}", v.v, v.v),
                    };
                    cx.step(&text.len());
                    if !more {
                        break;
                    }
                }
                Ok(())
            },
        ));
    }
    {
        // extreme numbers in file nodes, at any level
        let nums: Vec<Option<u64>> = vec![None, Some(0), Some(1), Some(2), Some(1 << 63), Some(u64::MAX - 1), Some(u64::MAX)];
        let n = tier.of(2usize, 3);
        v.push(scenario(
            "sizes",
            format!("every sequence of up to {n} file blocks with 0..=2 links, sizes and block sizes of {} values each (the root's and any others'), content absent or of 2 bytes, visited without and with 9 ranges", nums.len() - 1),
            move |cx| {
                let mut a = Any::pick(cx, 1, 9);
                for i in 0..n {
                    let k = cx.choose(3);
                    let fs = *cx.pick(&nums);
                    let data: Option<&[u8]> = if (k == 0 || i == 0) && cx.flag() { Some(b"xy") } else { None };
                    let sizes: Vec<u64> = (0..k).map(|_| nums[1 + cx.choose(nums.len() - 1)].unwrap()).collect();
                    let b = file(data, fs, &sizes);
                    if !a.feed(cx, &b)? {
                        break;
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let t = trees();
        let two = tier.of(false, true);
        v.push(scenario(
            "mutations",
            format!("{} trees of up to 7 blocks, walked and visited (without and with 4 ranges), any one block changed: each byte to each value, left out, {} values inserted anywhere, cut anywhere, any part of up to 12 bytes doubled{}; the following blocks handed in as before", t.len(), TOKENS.len(), if two { ", any two bytes replaced by those values" } else { "" }),
            move |cx| {
                let mut a = Any::pick(cx, 2, 4);
                let tree = &t[cx.choose(t.len())];
                let at = cx.choose(tree.len());
                for (i, b) in tree.iter().enumerate() {
                    let more = if i == at {
                        let mut b = b.clone();
                        mutate(cx, &mut b, two);
                        a.feed(cx, &b)?
                    } else {
                        a.feed(cx, b)?
                    };
                    if !more {
                        break;
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let n = tier.of(2usize, 3);
        let f = firsts();
        v.push(scenario("short", format!("all byte strings of 0..={n} bytes as first block or after each of {} others, walked and visited (also with 2 ranges if at most two bytes); also as the UnixFS message or as the only link of a block", f.len()), move |cx| {
            let k = cx.choose(n + 1);
            let mut a = Any::pick(cx, 1, if k > 2 { 0 } else { 2 });
            let first = cx.choose(f.len() + 1);
            if first > 0 && !a.feed(cx, &f[first - 1])? {
                return Ok(());
            }
            let form = cx.choose(3);
            let s: Vec<u8> = (0..k).map(|_| cx.choose(256) as u8).collect();
            let b = match form {
                0 => s,
                1 => node(&links(&["", ""]), Some(&s)),
                _ => {
                    let mut b = vec![];
                    lf(&mut b, 2, &s);
                    lf(&mut b, 1, &U::ty(DIR).enc());
                    b
                }
            };
            a.feed(cx, &b)?;
            Ok(())
        }));
    }
    {
        let n = tier.of(4usize, 5);
        let f = firsts();
        v.push(scenario("tokens", format!("all strings of 0..={n} of {} bytes with a meaning in the encodings or paths: as first block or after each of {} others; as the whole block, the UnixFS message, the only link, the name of a link of a directory and of a shard, the hash of a link", TOKENS.len(), f.len()), move |cx| {
            let mut a = Any::pick(cx, 1, 2);
            let first = cx.choose(f.len() + 1);
            if first > 0 && !a.feed(cx, &f[first - 1])? {
                return Ok(());
            }
            let form = cx.choose(6);
            let k = cx.choose(n + 1);
            let s: Vec<u8> = (0..k).map(|_| TOKENS[cx.choose(TOKENS.len())]).collect();
            let b = match form {
                0 => s,
                1 => node(&links(&["", ""]), Some(&s)),
                2 => {
                    let mut b = vec![];
                    lf(&mut b, 2, &s);
                    lf(&mut b, 1, &U::ty(DIR).enc());
                    b
                }
                3 => block(&[raw_link(Some(&id(3)), Some(&s))], &U::ty(DIR)),
                4 => block(&[raw_link(Some(&id(3)), Some(&s))], &U::shard()),
                _ => block(&[raw_link(Some(&s), Some(b"00"))], &U { ty: [DIR, HAMT, FILE][a_kind(&s)], filesize: (a_kind(&s) == 2).then_some(1), blocksizes: if a_kind(&s) == 2 { vec![1] } else { vec![] }, hash_type: (a_kind(&s) == 1).then_some(0x22), fanout: (a_kind(&s) == 1).then_some(256), ..U::default() }),
            };
            if a.feed(cx, &b)? {
                a.feed(cx, &file(Some(b"z"), Some(1), &[]))?;
            }
            Ok(())
        }));
    }
    {
        let n = tier.of(2usize, 3);
        let p = pool();
        v.push(scenario("long", format!("walks and visits of 1200 to 2500 blocks: every sequence of {n} of {} blocks repeated over and over; blocks with 20000 links, with names of 100 kB, with 100 kB of content, with 20000 block sizes", p.len()), move |cx| {
            let mut a = Any::pick(cx, 1, 1);
            match cx.choose(5) {
                0 => {
                    let seq: Vec<&Vec<u8>> = (0..n).map(|_| &p[cx.choose(p.len())]).collect();
                    for i in 0..1200 {
                        if !a.feed(cx, seq[i % n])? {
                            break;
                        }
                    }
                }
                1 => {
                    let k = cx.choose(4);
                    let l: Vec<L> = (0..20000).map(|i| L::new(&id(i), &if k == 1 { format!("{:02X}{i}", i % 256) } else { format!("n{i}") }, 1)).collect();
                    let b = match k {
                        0 => block(&l, &U::ty(DIR)),
                        1 => block(&l, &U::shard()),
                        2 => block(&l, &U { ty: FILE, filesize: Some(20000), blocksizes: vec![1; 20000], ..U::default() }),
                        _ => block(&[], &U { ty: FILE, filesize: Some(20000), blocksizes: vec![1; 20000], ..U::default() }),
                    };
                    for _ in 0..5 {
                        if !a.feed(cx, &b)? {
                            break;
                        }
                    }
                }
                2 => {
                    let name = "n".repeat(100_000);
                    let b = block(&links(&[&name, &name]), &[U::ty(DIR), U::shard()][cx.choose(2)]);
                    for _ in 0..8 {
                        if !a.feed(cx, &b)? {
                            break;
                        }
                    }
                }
                3 => {
                    let d = vec![7u8; 100_000];
                    let b = block(&[], &U { ty: [FILE, RAW, DIR, META, SYM, HAMT][cx.choose(6)], data: Some(d), filesize: [None, Some(100_000), Some(1)][cx.choose(3)], ..U::default() });
                    a.feed(cx, &b)?;
                }
                _ => {
                    // one block over and over: ever deeper
                    let b = [
                        block(&links(&["d"]), &U::ty(DIR)),
                        block(&links(&["00"]), &U::shard()),
                        file(None, Some(1), &[1]),
                        file(None, Some(0), &[0, 0]),
                        block(&links(&["a", "b", "c"]), &U::ty(DIR)),
                    ];
                    let b = cx.pick(&b);
                    for _ in 0..2500 {
                        if !a.feed(cx, b)? {
                            break;
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    v
}

fn a_kind(s: &[u8]) -> usize {
    s.len() % 3
}

// --- C08: resolving, lookups, parsing -----------------------------------------------------------

const NEEDLES: [&str; 8] = ["", "a", "x", "é", "00", "\0", "b", "n/m"];

fn parse_all(cx: &mut Cx, b: &[u8]) -> R {
    let (n, peak) = memo::peak(|| {
        let mut n = 0usize;
        if let Ok(l) = PBLink::from_reader(&mut BytesReader::from_bytes(b), b) {
            n += format!("{l:?}").len();
        }
        match PBNode::try_from(b) {
            Ok(p) => {
                n += p.Links.len();
                n += UnixFs::try_from(&p).is_ok() as usize;
            }
            Err(e) => n += said(&e).len(),
        }
        match FlatUnixFs::try_parse(b) {
            Ok(f) => n += f.links.len(),
            Err(e) => n += said(&e).len(),
        }
        n += FlatUnixFs::try_from(b).is_ok() as usize;
        n += UnixFs::try_from(Some(b)).is_ok() as usize;
        n += UnixFs::try_from(None).is_ok() as usize;
        n
    });
    // the debug forms and the parsed links count as well
    bounded(peak, b.len() * 2, "parse")?;
    let (m, peak) = memo::peak(|| {
        let mut m = 0;
        if let Ok(Some(d)) = node_data(b) {
            m += d.len();
        }
        if let Ok(w) = wrap_node_data(b.to_vec()) {
            let _ = format!("{w:?}");
            m += w.node_data().len() + w.get_ref().len();
            assert!(w.into_inner() == b);
        }
        m
    });
    bounded(peak, b.len(), "extract")?;
    cx.step(&(b, n, m));
    Ok(())
}

struct AnyLookup<'n> {
    needle: &'n str,
    l: Option<dir::ShardedLookup<'n>>,
    cache: Option<dir::Cache>,
    fed: usize,
    begun: bool,
}

impl<'n> AnyLookup<'n> {
    fn new(needle: &'n str) -> Self {
        AnyLookup { needle, l: None, cache: None, fed: needle.len(), begun: false }
    }

    fn feed(&mut self, cx: &mut Cx, b: &[u8]) -> R<bool> {
        self.fed += b.len();
        let l = self.l.take();
        let (needle, cache, begun) = (self.needle, &mut self.cache, self.begun);
        let (r, peak) = memo::peak(|| {
            if begun {
                l.unwrap().continue_walk(b, cache).map_err(|e| {
                    let s = said(&e);
                    format!("{s} {}", e.into_resolve_error())
                })
            } else {
                resolve(b, needle, cache).map_err(|e| said(&e))
            }
        });
        self.begun = true;
        bounded(peak, self.fed * 4, "lookup")?;
        match r {
            Ok(MaybeResolved::Found(c)) => {
                cx.step(&(b, c.to_bytes()));
            }
            Ok(MaybeResolved::NotFound) => cx.step(&(b, 0)),
            Ok(MaybeResolved::NeedToLoadMore(l)) => {
                let _ = format!("{l:?}");
                let (first, rest) = l.pending_links();
                cx.step(&(b, first.to_bytes(), rest.count()));
                self.l = Some(l);
            }
            Err(e) => cx.step(&(b, e.len())),
        }
        cx.log(|| format!("lookup of {needle:?} fed {} -> continues {}", hex(b), self.l.is_some()));
        Ok(self.l.is_some())
    }
}

pub fn c08(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    {
        let p = pool();
        let n = tier.of(4usize, 6);
        v.push(scenario(
            "pools",
            format!("every sequence of up to {n} of {} blocks of every kind fed to resolving each of {} names and continuing the lookup, each without a cache, with one made of a used queue and with one left by another lookup", p.len(), NEEDLES.len()),
            move |cx| {
                let mut a = AnyLookup::new(NEEDLES[cx.choose(NEEDLES.len())]);
                a.cache = lookup_cache(cx.choose(3));
                for _ in 0..n {
                    let b = &p[cx.choose(p.len())];
                    parse_all(cx, b)?;
                    if !a.feed(cx, b)? {
                        break;
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let t: Vec<Vec<u8>> = trees().into_iter().flatten().chain([block(&links(&["00", "00a", "01b", "FF"]), &U::shard()), block(&links(&["a", "b"]), &U { mode: Some(1), ..U::ty(DIR) }), node(&links(&["a", "b"]), None)]).collect();
        let two = tier.of(false, true);
        v.push(scenario(
            "mutations",
            format!("{} blocks, as the first one or as a bucket, each changed: each byte to each value, left out, {} values inserted anywhere, cut anywhere, any part of up to 12 bytes doubled{}; 4 names", t.len(), TOKENS.len(), if two { ", any two bytes replaced by those values" } else { "" }),
            move |cx| {
                let mut a = AnyLookup::new(["a", "", "x", "é"][cx.choose(4)]);
                let mut b = t[cx.choose(t.len())].clone();
                if cx.flag() {
                    a.feed(cx, &block(&links(&["00", "01"]), &U::shard()))?;
                }
                mutate(cx, &mut b, two);
                parse_all(cx, &b)?;
                if a.feed(cx, &b)? {
                    a.feed(cx, &block(&links(&["00a"]), &U::shard()))?;
                }
                Ok(())
            },
        ));
    }
    {
        let n = tier.of(2usize, 3);
        v.push(scenario("short", format!("all byte strings of 0..={n} bytes: as the block, the UnixFS message, the only link of a node or directory; resolved, continued with, parsed and extracted"), move |cx| {
            let mut a = AnyLookup::new(["a", ""][cx.choose(2)]);
            if cx.flag() {
                a.feed(cx, &block(&links(&["00"]), &U::shard()))?;
            }
            let form = cx.choose(4);
            let k = cx.choose(n + 1);
            let s: Vec<u8> = (0..k).map(|_| cx.choose(256) as u8).collect();
            let b = match form {
                0 => s,
                1 => node(&links(&["a", "b"]), Some(&s)),
                f => {
                    let mut b = vec![];
                    lf(&mut b, 2, &s);
                    lf(&mut b, 1, &if f == 2 { U::ty(DIR) } else { U::shard() }.enc());
                    b
                }
            };
            parse_all(cx, &b)?;
            a.feed(cx, &b)?;
            Ok(())
        }));
    }
    {
        let n = tier.of(5usize, 6);
        v.push(scenario("tokens", format!("all strings of 0..={n} of {} bytes with a meaning in the encodings or paths: as the block, the UnixFS message, the only link, the name of a link of a directory and of a shard, the hash of a link, and as the needle", TOKENS.len()), move |cx| {
            let form = cx.choose(9);
            let k = cx.choose(n + 1);
            let s: Vec<u8> = (0..k).map(|_| TOKENS[cx.choose(TOKENS.len())]).collect();
            let text = String::from_utf8_lossy(&s).into_owned();
            let b = match form {
                0 => s.clone(),
                1 => node(&links(&["a", "b"]), Some(&s)),
                2 | 3 => {
                    let mut b = vec![];
                    lf(&mut b, 2, &s);
                    lf(&mut b, 1, &if form == 2 { U::ty(DIR) } else { U::shard() }.enc());
                    b
                }
                4 => block(&[raw_link(Some(&id(3)), Some(&s))], &U::ty(DIR)),
                5 => block(&[raw_link(Some(&id(3)), Some(&s))], &U::shard()),
                6 => block(&[raw_link(Some(&s), Some(b"a"))], &U::ty(DIR)),
                7 => block(&[raw_link(Some(&s), Some(b"00"))], &U::shard()),
                _ => block(&links(&["00", "01\u{0}", "02/", "03\u{1}"]), &U::shard()),
            };
            parse_all(cx, &b)?;
            let mut a = AnyLookup::new(if form >= 4 { &text } else { "a" });
            if a.feed(cx, &b)? {
                a.feed(cx, &b)?;
            }
            Ok(())
        }));
    }
    {
        let p = pool();
        v.push(scenario("long", format!("lookups of 1200 blocks: every pair of {} blocks repeated; blocks with 20000 links, with names, data and needles of 100 kB", p.len()), move |cx| {
            let big = "n".repeat(100_000);
            match cx.choose(4) {
                0 => {
                    let (x, y) = (&p[cx.choose(p.len())], &p[cx.choose(p.len())]);
                    let mut a = AnyLookup::new("zz");
                    for i in 0..1200 {
                        if !a.feed(cx, if i % 2 == 0 { x } else { y })? {
                            break;
                        }
                    }
                }
                1 => {
                    let l: Vec<L> = (0..20000).map(|i| L::new(&id(i), &if i % 3 == 0 { format!("{:02X}", i % 256) } else { format!("{:02X}{i}", i % 256) }, 1)).collect();
                    let b = block(&l, &[U::ty(DIR), U::shard(), U::ty(FILE)][cx.choose(3)]);
                    parse_all(cx, &b)?;
                    let mut a = AnyLookup::new("zz");
                    for _ in 0..5 {
                        if !a.feed(cx, &b)? {
                            break;
                        }
                    }
                }
                2 => {
                    let b = block(&links(&[&big, "00", &format!("00{big}")]), &[U::ty(DIR), U::shard()][cx.choose(2)]);
                    parse_all(cx, &b)?;
                    AnyLookup::new(&big).feed(cx, &b)?;
                }
                _ => {
                    let b = block(&links(&["a"]), &U { ty: cx.choose(6) as u64, data: Some(big.clone().into_bytes()), blocksizes: vec![1; 20000], ..U::default() });
                    parse_all(cx, &b)?;
                    AnyLookup::new("a").feed(cx, &b)?;
                }
            }
            Ok(())
        }));
    }
    v
}
