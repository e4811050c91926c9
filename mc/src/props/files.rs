//! C04..C06: reading files.
use crate::enc::*;
use crate::ensure;
use crate::explore::*;
use crate::model::*;
use crate::Tier;
use std::ops::Range;
use unixfs_v1::file::visit::{FileVisit, IdleFileVisit};
use unixfs_v1::file::{FileError, FileReadFailed};
use unixfs_v1::walk::{self, ContinuedWalk, Walker};
use std::rc::Rc;

pub const WIDE_META: [(Option<u32>, Option<(i64, Option<u32>)>); 12] = [
    (None, None),
    (Some(0o644), None),
    (Some(0), Some((0, None))),
    (Some(u32::MAX), Some((-1, Some(999_999_999)))),
    (None, Some((i64::MAX, Some(1)))),
    (None, Some((i64::MIN, None))),
    (Some(0o100755), Some((1_600_000_000, Some(0)))),
    (Some(0x8000_0000), Some((127, Some(127)))),
    (Some(127), Some((128, Some(128)))),
    (Some(128), Some((-128, Some(u32::MAX)))),
    (Some(16384), Some((1 << 35, None))),
    (Some(1), Some((-(1 << 40), Some(0x0100_0000)))),
];

/// Bytes of a leaf: all leaves of a tree have different bytes.
fn bytes_of(next: &mut u32, len: usize) -> Vec<u8> {
    (0..len)
        .map(|_| {
            *next += 1;
            *next as u8
        })
        .collect()
}

/// Every tree with at most `nodes` blocks, leaf sizes below `sizes`.
pub fn plain_tree(cx: &mut Cx, nodes: usize, depth: usize, kids: usize, sizes: &[usize], root: LeafOpt) -> Rc<N> {
    let mut budget = nodes;
    let mut ids = Ids::new();
    let next = std::cell::Cell::new(0u32);
    let r2 = root.clone();
    gen_file(
        cx,
        &mut ids,
        &mut budget,
        depth,
        kids,
        true,
        &mut |cx, ids, is_root| {
            let len = *cx.pick(sizes);
            let mut k = next.get();
            let d = bytes_of(&mut k, len);
            next.set(k);
            leaf(ids.cid(), &d, &if is_root { root.clone() } else { LeafOpt::default() })
        },
        &mut |_, ids, kids, is_root| inner(ids.cid(), kids, &if is_root { r2.clone() } else { LeafOpt::default() }),
    )
}

/// A chain of single-child link blocks above a two leaf node.
pub fn chain(depth: usize, ids: &mut Ids, sizes: (usize, usize)) -> Rc<N> {
    let mut n = inner(
        ids.cid(),
        vec![leaf(ids.cid(), &vec![1u8; sizes.0], &LeafOpt::default()), leaf(ids.cid(), &vec![2u8; sizes.1], &LeafOpt::default())],
        &LeafOpt::default(),
    );
    for _ in 0..depth {
        n = inner(ids.cid(), vec![n], &LeafOpt::default());
    }
    n
}

/// Skewed trees: at each level one leaf and one subtree, the leaf first or last.
pub fn skewed(depth: usize, ids: &mut Ids, leaf_first: bool, len: usize) -> Rc<N> {
    let mut k = 0u32;
    let mut n = leaf(ids.cid(), &bytes_of(&mut k, len), &LeafOpt::default());
    for _ in 0..depth {
        let l = leaf(ids.cid(), &bytes_of(&mut k, len), &LeafOpt::default());
        n = inner(ids.cid(), if leaf_first { vec![l, n] } else { vec![n, l] }, &LeafOpt::default());
    }
    n
}

/// `width` leaves of `len` bytes under one root.
pub fn wide(width: usize, ids: &mut Ids, len: usize) -> Rc<N> {
    let mut k = 0u32;
    let kids = (0..width).map(|_| leaf(ids.cid(), &bytes_of(&mut k, len), &LeafOpt::default())).collect();
    inner(ids.cid(), kids, &LeafOpt::default())
}

/// Balanced tree.
pub fn balanced(leaves: usize, bf: usize, ids: &mut Ids, len: usize, last_len: usize) -> Rc<N> {
    let mut k = 0u32;
    let mut level: Vec<Rc<N>> = (0..leaves)
        .map(|i| leaf(ids.cid(), &bytes_of(&mut k, if i + 1 == leaves { last_len } else { len }), &LeafOpt::default()))
        .collect();
    while level.len() > 1 {
        level = level.chunks(bf).map(|g| inner(ids.cid(), g.to_vec(), &LeafOpt::default())).collect();
    }
    level.pop().unwrap()
}

/// A trickle-like tree: leaves first, then subtrees of growing depth.
pub fn trickle(depth: usize, leaves: usize, ids: &mut Ids, len: usize, k: &mut u32) -> Rc<N> {
    let mut kids: Vec<Rc<N>> = (0..leaves).map(|_| leaf(ids.cid(), &bytes_of(k, len), &LeafOpt::default())).collect();
    for d in 0..depth {
        kids.push(trickle(d, leaves, ids, len, k));
    }
    inner(ids.cid(), kids, &LeafOpt::default())
}

/// Two kinds of leaves in a binary tree of `levels` levels, at each level the one half is the other
/// one with the kinds exchanged (Thue and Morse's sequence). Few blocks and a huge file.
pub fn huge(levels: usize, ids: &mut Ids, len: usize) -> Rc<N> {
    let mut k = 0u32;
    let mut p = leaf(ids.cid(), &bytes_of(&mut k, len), &LeafOpt::default());
    k = 100;
    let mut q = leaf(ids.cid(), &bytes_of(&mut k, len), &LeafOpt::default());
    for i in 0..levels {
        let p2 = inner(ids.cid(), vec![p.clone(), q.clone()], &LeafOpt::default());
        if i + 1 < levels {
            q = inner(ids.cid(), vec![q, p], &LeafOpt::default());
        }
        p = p2;
    }
    p
}

const HUGE: [(usize, usize); 7] = [(33, 1), (62, 1), (63, 1), (32, 3), (62, 3), (23, 1000), (17, 1 << 16)];

/// A range in or around a huge file, and of how many blocks it is at least.
fn huge_range(cx: &mut Cx, size: u64) -> Range<u64> {
    let mut pts: Vec<u64> = [0u64, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 63, size / 2, size, u64::MAX - 1]
        .iter()
        .flat_map(|p| [p.saturating_sub(2), p.saturating_sub(1), *p, p.saturating_add(1)])
        .collect();
    pts.sort_unstable();
    pts.dedup();
    let s = *cx.pick(&pts);
    let e: Vec<u64> = pts.into_iter().filter(|e| *e >= s).collect();
    s..*cx.pick(&e)
}

fn visit_huge(cx: &mut Cx, mask: u32, steps: usize) -> R {
    let mut ids = Ids::new();
    let (levels, len) = HUGE[cx.choose(HUGE.len())];
    let t = huge(levels, &mut ids, len);
    let r = huge_range(cx, t.size());
    cx.log(|| format!("file of {} bytes, range {r:?}", t.size()));
    let mut v = VisitRun::new(t, Some(r), mask);
    let mut cache = None;
    for _ in 0..steps {
        if v.done {
            return v.finish();
        }
        v.step(cx, &mut cache)?;
    }
    Ok(())
}

/// More blocks than 16 bits can count, from `i`, one of 6.
pub const MANY: usize = 6;

pub fn many(i: usize, ids: &mut Ids) -> Rc<N> {
    match i {
        0 => wide(65535, ids, 1),
        1 => wide(65537, ids, 1),
        2 => wide(70000, ids, 2),
        3 => balanced(70000, 174, ids, 1, 1),
        4 => skewed(2000, ids, true, 1),
        _ => skewed(2000, ids, false, 1),
    }
}

/// Drops a chain without recursion.
pub fn undo(mut t: Rc<N>) {
    while let Ok(n) = Rc::try_unwrap(t) {
        match n.what {
            What::Inner(mut k, _) if k.len() == 1 => t = k.pop().unwrap().0,
            _ => return,
        }
    }
}

pub fn many_kept(i: usize) -> Rc<N> {
    thread_local! { static KEPT: std::cell::RefCell<[Option<Rc<N>>; MANY]> = const { std::cell::RefCell::new([const { None }; MANY]) }; }
    KEPT.with(|k| k.borrow_mut()[i].get_or_insert_with(|| many(i, &mut Ids::new())).clone())
}

fn special(cx: &mut Cx, tier: Tier) -> Rc<N> {
    let ids = &mut Ids::new();
    let deep = tier.of(12, 40);
    match cx.choose(7) {
        0 => {
            let d = cx.choose(deep);
            let s = [(2, 3), (0, 2), (2, 0), (1, 1)][cx.choose(4)];
            chain(d, ids, s)
        }
        1 => {
            let d = cx.choose(deep);
            let f = cx.flag();
            skewed(d, ids, f, 1)
        }
        2 => {
            let w = 1 + cx.choose(tier.of(20, 60));
            wide(w, ids, 2)
        }
        3 => {
            let n = 1 + cx.choose(tier.of(30, 80));
            let bf = 2 + cx.choose(3);
            balanced(n, bf, ids, 2, 1)
        }
        4 => {
            let d = cx.choose(4);
            let l = 1 + cx.choose(2);
            trickle(d, l, ids, 1, &mut 0)
        }
        5 => {
            // leaves larger than one byte of varint
            let len = [100, 127, 128, 129, 255, 300][cx.choose(6)];
            balanced(3, 2, ids, len, len - 1)
        }
        _ => {
            // the same subtree repeatedly
            let l = leaf(ids.cid(), b"xy", &LeafOpt::default());
            let m = inner(ids.cid(), vec![l.clone(), l.clone()], &LeafOpt::default());
            match cx.choose(3) {
                0 => inner(ids.cid(), vec![l.clone(), l.clone(), l], &LeafOpt::default()),
                1 => inner(ids.cid(), vec![m.clone(), m.clone()], &LeafOpt::default()),
                _ => {
                    let t = inner(ids.cid(), vec![m.clone(), l.clone(), m.clone()], &LeafOpt::default());
                    inner(ids.cid(), vec![t.clone(), m, t], &LeafOpt::default())
                }
            }
        }
    }
}

/// Every start <= end in 0..=size+2 and some up to the limit.
fn any_range(cx: &mut Cx, size: u64) -> Range<u64> {
    let far = [1u64 << 32, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX];
    let near = size + 3;
    let total = near as usize + far.len();
    let at = |i: usize| if (i as u64) < near { i as u64 } else { far[i - near as usize] };
    let s = cx.choose(total);
    let e = s + cx.choose(total - s);
    at(s)..at(e)
}

pub const LARGE: [usize; 13] = [127, 128, 255, 256, 257, 300, 16383, 16384, 65535, 65536, 70_000, (1 << 21) + 5, (1 << 24) + 3];

/// One large block alone or among small ones, raw or file, with or without its size. Its place in
/// the file, and its length.
pub fn large_block(cx: &mut Cx, ids: &mut Ids, lens: usize) -> (Rc<N>, u64, u64) {
    let len = *cx.pick(&LARGE[..lens]);
    let o = LeafOpt { raw: cx.flag(), no_size: cx.flag(), ..LeafOpt::default() };
    // no two places look alike
    let data: Vec<u8> = (0..len as u32).map(|i| (i ^ (i >> 8).wrapping_mul(31) ^ (i >> 16).wrapping_mul(101)) as u8).collect();
    let big = leaf(ids.cid(), &data, &o);
    let small = leaf(ids.cid(), b"xyz", &LeafOpt::default());
    let kids = match cx.choose(5) {
        0 => return (big, 0, len as u64),
        1 => vec![big, small],
        2 => vec![small, big],
        3 => vec![small.clone(), big, small],
        _ => vec![inner(ids.cid(), vec![small.clone(), big], &LeafOpt::default()), small],
    };
    let at = if kids[0].size() == len as u64 { 0 } else { 3 };
    (inner(ids.cid(), kids, &LeafOpt::default()), at, len as u64)
}

pub const LARGE_BOUNDS: &str = "one block of 127 to 2^24+3 bytes (13 lengths around powers of two), raw or file, with or without its size, alone, first, last or in the middle of small ones or nested";

/// A file with one of the contents in one or more of its leaves.
pub fn odd_file(cx: &mut Cx, ids: &mut Ids, odd: &[Vec<u8>]) -> Rc<N> {
    let d = cx.pick(odd);
    let o = LeafOpt { raw: cx.flag(), no_size: cx.flag(), ..LeafOpt::default() };
    let mut part = |d: &[u8]| leaf(ids.cid(), d, &o);
    let kids = match cx.choose(3) {
        0 => return part(d),
        1 => vec![part(d), part(d)],
        _ => vec![part(b"before"), part(d), part(b"after")],
    };
    inner(ids.cid(), kids, &LeafOpt::default())
}

pub fn c04(tier: Tier) -> Vec<Scenario> {
    let nodes = tier.of(8, 9);
    let mask = BYTES | METADATA | SIZE;
    vec![
        scenario(
            "trees",
            format!("every tree of up to {nodes} blocks (up to 4 links per block, 4 levels) with leaf sizes 0..=2, and every range with both ends in 0..=size+2 or one of 5 far values"),
            move |cx| {
                let t = plain_tree(cx, nodes, 4, 4, &[0, 1, 2], LeafOpt { mode: Some(0o600), mtime: Some((-5, Some(7))), ..LeafOpt::default() });
                let r = any_range(cx, t.size());
                cx.log(|| format!("file of {} bytes, range {r:?}", t.size()));
                visit(cx, &t, Some(r), mask).map(|_| ())
            },
        ),
        scenario(
            "leaf sizes",
            "trees of up to 5 blocks with leaf sizes 0, 1, 3 and 5, every range".to_string(),
            move |cx| {
                let t = plain_tree(cx, 5, 3, 3, &[0, 1, 3, 5], LeafOpt::default());
                let r = any_range(cx, t.size());
                cx.log(|| format!("file of {} bytes, range {r:?}", t.size()));
                visit(cx, &t, Some(r), mask).map(|_| ())
            },
        ),
        scenario(
            "special",
            "chains, skewed, wide, balanced, trickle-like and deduplicated trees, every range".to_string(),
            move |cx| {
                let t = special(cx, tier);
                let r = if t.size() > 120 {
                    // ends around the leaves' ends
                    let mut pts = vec![0u64];
                    let mut ls = vec![];
                    t.leaves(&mut ls);
                    let mut at = 0;
                    for l in &ls {
                        at += l.len() as u64;
                        pts.extend([at - 1, at, at + 1]);
                    }
                    pts.push(u64::MAX);
                    let s = cx.choose(pts.len());
                    let e = s + cx.choose(pts.len() - s);
                    pts[s]..pts[e]
                } else {
                    any_range(cx, t.size())
                };
                cx.log(|| format!("file of {} bytes, range {r:?}", t.size()));
                visit(cx, &t, Some(r), mask).map(|_| ())
            },
        ),
        scenario(
            "leaf kinds",
            "two leaves and a nested pair, each raw or file, with or without size and with empty data present, CIDs of 6 kinds, every range".to_string(),
            move |cx| {
                let mut ids = Ids::rotating(cx.choose(CID_VARIANTS));
                let opt = |cx: &mut Cx| LeafOpt { raw: cx.flag(), no_size: cx.flag(), empty_data: true, ..LeafOpt::default() };
                let a = leaf(ids.cid(), &b"abc"[..cx.choose(3)], &opt(cx));
                let b = leaf(ids.cid(), &b"de"[..cx.choose(3)], &opt(cx));
                let o = opt(cx);
                let m = inner(ids.cid(), vec![b, leaf(ids.cid(), b"f", &LeafOpt::default())], &LeafOpt { raw: o.raw, empty_data: o.no_size, ..LeafOpt::default() });
                let t = inner(ids.cid(), vec![a, m], &LeafOpt::default());
                let r = any_range(cx, t.size());
                cx.log(|| format!("file of {} bytes, range {r:?}", t.size()));
                visit(cx, &t, Some(r), mask).map(|_| ())
            },
        ),
        scenario(
            "beyond 32 bits",
            "7 binary trees of up to 63 levels and up to 3 * 2^62 bytes, leaves of 1, 3, 1000 and 2^16 bytes, every range with both ends around 0, 2^8, 2^16, 2^31, 2^32, 2^33, 2^63, the middle, the end and the greatest number; the first 260 blocks of each visit".to_string(),
            move |cx| visit_huge(cx, mask, 260),
        ),
        scenario(
            "beyond 16 bits",
            "65535, 65537 and 70000 leaves below one block, 70000 in a balanced tree, skewed trees of 2000 levels; ranges of up to 2 bytes around 0, 255, 32768, 65536 and the end".to_string(),
            move |cx| {
                let i = cx.choose(MANY);
                let t = many_kept(i);
                let s = (*cx.pick(&[0u64, 255, 32767, 65535, t.size() - 2])).min(t.size() - 2) + cx.choose(3) as u64;
                let r = s..s + cx.choose(3) as u64;
                cx.log(|| format!("file of {} bytes, range {r:?}", t.size()));
                visit(cx, &t, Some(r), mask).map(|_| ())
            },
        ),
        scenario("large blocks", format!("{} (without the longest); every range with both ends around its ends, its middle and 2^7, 2^8 and 2^16 bytes within it", LARGE_BOUNDS), move |cx| {
            let (t, at, len) = large_block(cx, &mut Ids::new(), 12);
            let mut pts: Vec<u64> = vec![0, at, at + 1, at + 127, at + 128, at + 255, at + 256, at + 257, at + 65535, at + 65536, at + len / 2, at + len - 1, at + len, at + len + 1, t.size() + 1, u64::MAX];
            pts.retain(|p| *p <= t.size() + 1 || *p == u64::MAX);
            pts.sort();
            pts.dedup();
            let s = cx.choose(pts.len());
            let r = pts[s]..pts[s + cx.choose(pts.len() - s)];
            cx.log(|| format!("file of {} bytes, range {r:?}", t.size()));
            visit(cx, &t, Some(r), mask).map(|_| ())
        }),
    ]
}

pub fn c11_visits(tier: Tier) -> Vec<Scenario> {
    let nodes = tier.of(8, 9);
    vec![
        scenario(
            "visits",
            format!("every state of the visits of every file tree of up to {nodes} blocks (up to 4 links per block, 4 levels), in full and with every range with both ends in 0..=size+2 or one of 5 far values"),
            move |cx| {
                let t = plain_tree(cx, nodes, 4, 4, &[0, 1], LeafOpt::default());
                let r = if cx.flag() { Some(any_range(cx, t.size())) } else { None };
                cx.log(|| format!("file of {} bytes, range {r:?}", t.size()));
                visit(cx, &t, r, PENDING).map(|_| ())
            },
        ),
        scenario("special visits", "chains, skewed, wide, balanced, trickle-like and deduplicated trees, in full and with ranges from and to every tenth of the file", move |cx| {
            let t = special(cx, tier);
            let r = if cx.flag() {
                let s = cx.choose(12) as u64;
                let e = s + cx.choose(12 - s as usize) as u64;
                let at = |i: u64| t.size() * i / 10;
                Some(at(s)..at(e))
            } else {
                None
            };
            visit(cx, &t, r, PENDING).map(|_| ())
        }),
        scenario("repeated blocks", "every tree of three link blocks linking up to 4 times to two leaves and to each other, in full and with every range", move |cx| {
            let mut ids = Ids::rotating(1);
            let a = leaf(ids.cid(), b"a", &LeafOpt::default());
            let e = leaf(ids.cid(), b"", &LeafOpt::default());
            let mut pool = vec![a, e];
            for _ in 0..3 {
                let n = 1 + cx.choose(if pool.len() == 4 { 4 } else { 2 });
                let kids = (0..n).map(|_| cx.pick(&pool).clone()).collect();
                let k = inner(ids.cid(), kids, &LeafOpt::default());
                pool.push(k);
            }
            let t = pool.pop().unwrap();
            let r = if cx.flag() { Some(any_range(cx, t.size())) } else { None };
            visit(cx, &t, r, PENDING).map(|_| ())
        }),
        scenario("visits beyond 32 bits", "7 binary trees of up to 63 levels and up to 3 * 2^62 bytes, every range with both ends around 0, 2^8, 2^16, 2^31, 2^32, 2^33, 2^63, the middle, the end and the greatest number; the first 130 blocks of each visit", |cx| {
            visit_huge(cx, PENDING, 130)
        }),
        scenario("visits beyond 16 bits", "65535, 65537 and 70000 leaves below one block, 70000 in a balanced tree, skewed trees of 2000 levels, in full; all pending links at the start, the end and every power of two, otherwise the first one", |cx| {
            let t = many_kept(cx.choose(MANY));
            visit_lean(cx, &t, None, PENDING)
        }),
    ]
}

/// A tree whose blocks each take one of several encodings.
pub fn varied_tree(cx: &mut Cx, nodes: usize, ids: &mut Ids, root_meta: (Option<u32>, Option<(i64, Option<u32>)>)) -> Rc<N> {
    let mut budget = nodes;
    let next = std::cell::Cell::new(0u32);
    gen_file(
        cx,
        ids,
        &mut budget,
        3,
        3,
        true,
        &mut |cx, ids, is_root| {
            // content, type, size
            let (len, raw, no_size, empty) = [
                (1, false, false, false),
                (0, false, false, false),
                (0, false, false, true),
                (0, true, true, true),
                (0, false, true, false),
                (2, true, false, false),
                (2, false, true, false),
                (1, true, true, false),
            ][cx.choose(8)];
            let mut k = next.get();
            let d = bytes_of(&mut k, len);
            next.set(k);
            let (mode, mtime) = if is_root { root_meta } else { (None, None) };
            leaf(ids.cid(), &d, &LeafOpt { raw, no_size, empty_data: empty, mode, mtime })
        },
        &mut |cx, ids, kids, is_root| {
            let (raw, empty) = [(false, false), (true, false), (false, true)][cx.choose(3)];
            let (mode, mtime) = if is_root { root_meta } else { (None, None) };
            inner(ids.cid(), kids, &LeafOpt { raw, empty_data: empty, mode, mtime, ..LeafOpt::default() })
        },
    )
}

pub fn c05(tier: Tier) -> Vec<Scenario> {
    let nodes = tier.of(10, 12);
    let vn = tier.of(6, 7);
    let odd = odd_contents();
    vec![
        scenario(
            "shapes",
            format!("every tree of up to {nodes} blocks, up to 5 links per block and 6 levels, leaf sizes 0..=1"),
            move |cx| {
                let t = plain_tree(cx, nodes, 6, 5, &[1, 0], LeafOpt::default());
                visit(cx, &t, None, ALL).map(|_| ())
            },
        ),
        scenario(
            "encodings",
            format!("every tree of up to {vn} blocks, each leaf in 8 encodings (type, size, content), each link block in 3, CIDs of 6 kinds in rotation"),
            move |cx| {
                let mut ids = Ids::rotating(cx.choose(CID_VARIANTS));
                let t = varied_tree(cx, vn, &mut ids, (Some(0o644), Some((1, Some(2)))));
                visit(cx, &t, None, ALL).map(|_| ())
            },
        ),
        scenario(
            "metadata",
            "the 12 metadata combinations on roots of trees of up to 4 blocks, each block in all its encodings".to_string(),
            move |cx| {
                let m = *cx.pick(&WIDE_META);
                let mut ids = Ids::new();
                let t = varied_tree(cx, 4, &mut ids, m);
                visit(cx, &t, None, ALL).map(|_| ())
            },
        ),
        scenario("contents", format!("leaves of {} contents ({ODD_CONTENTS}), raw or file, with or without size, alone, twice below a root, or between others", odd.len()), move |cx| {
            let mut ids = Ids::new();
            let t = odd_file(cx, &mut ids, &odd);
            visit(cx, &t, None, ALL).map(|_| ())
        }),
        scenario(
            "special",
            "chains, skewed, wide, balanced, trickle-like and deduplicated trees".to_string(),
            move |cx| {
                let t = special(cx, Tier::Thorough);
                visit(cx, &t, None, ALL).map(|_| ())
            },
        ),
        scenario(
            "dedup",
            "every way of linking up to 5 of {leaf A, leaf B, empty leaf, node AA, node AB} below a root, names and cumulative sizes on the links present, absent or wrong".to_string(),
            move |cx| {
                let ids = &mut Ids::new();
                let o = LeafOpt::default();
                let a = leaf(ids.cid(), b"A", &o);
                let b = leaf(ids.cid(), b"bb", &o);
                let e = leaf(ids.cid(), b"", &o);
                let aa = inner(ids.cid(), vec![a.clone(), a.clone()], &o);
                let ab = inner(ids.cid(), vec![a.clone(), b.clone()], &o);
                let pool = [a, b, e, aa, ab];
                let n = 1 + cx.choose(5);
                let kids: Vec<Rc<N>> = (0..n).map(|_| cx.pick(&pool).clone()).collect();
                let link_kind = cx.choose(4);
                let sizes: Vec<u64> = kids.iter().map(|k| k.size()).collect();
                let links: Vec<L> = kids
                    .iter()
                    .enumerate()
                    .map(|(i, k)| L {
                        hash: Some(k.cid.clone()),
                        name: [Some(vec![]), None, Some(format!("n{i}").into_bytes()), Some(b"same/../name".to_vec())][link_kind].clone(),
                        tsize: [Some(k.block.len() as u64), None, Some(0), Some(u64::MAX)][link_kind],
                    })
                    .collect();
                let total = sizes.iter().sum();
                let u = U { ty: FILE, filesize: Some(total), blocksizes: sizes.clone(), ..U::default() };
                let t = Rc::new(N {
                    cid: ids.cid(),
                    block: block(&links, &u),
                    meta: (None, None),
                    what: What::Inner(kids.into_iter().zip(sizes).collect(), total),
                });
                visit(cx, &t, None, ALL).map(|_| ())
            },
        ),
        scenario(
            "widths",
            "leaf sizes 0, 1, 126..=129, 16382..=16386 and pairs of them; root with 1..=300 links".to_string(),
            move |cx| {
                let ids = &mut Ids::new();
                let s = [0usize, 1, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 16386, 70000];
                let t = match cx.choose(2) {
                    0 => {
                        let a = vec![7u8; *cx.pick(&s)];
                        let b = vec![8u8; *cx.pick(&s)];
                        let k = vec![leaf(ids.cid(), &a, &LeafOpt::default()), leaf(ids.cid(), &b, &LeafOpt::default())];
                        inner(ids.cid(), k, &LeafOpt::default())
                    }
                    _ => {
                        let w = 1 + cx.choose(300);
                        wide(w, ids, 1)
                    }
                };
                visit(cx, &t, None, ALL).map(|_| ())
            },
        ),
        scenario("large blocks", LARGE_BOUNDS, |cx| {
            let (t, ..) = large_block(cx, &mut Ids::new(), 13);
            visit(cx, &t, None, ALL).map(|_| ())
        }),
        scenario("beyond 16 bits", "65535, 65537 and 70000 leaves below one block, 70000 in a balanced tree, skewed trees of 2000 levels, a chain of 70000", |cx| {
            let i = cx.choose(MANY + 1);
            let t = if i == MANY { chain(70000, &mut Ids::new(), (1, 2)) } else { many_kept(i) };
            let r = visit_lean(cx, &t, None, ALL);
            undo(t);
            r
        }),
        scenario("beyond 32 bits", "a file of 260 leaves of 16 MiB, 4.06 GiB, in a balanced tree", |cx| {
            let len = 1 << 24;
            let ids = &mut Ids::new();
            let kinds = [0, 100].map(|k| leaf(ids.cid(), &bytes_of(&mut { k }, len), &LeafOpt::default()));
            let mut level: Vec<Rc<N>> = (0..260u32).map(|i| kinds[(i.count_ones() % 2) as usize].clone()).collect();
            while level.len() > 1 {
                level = level.chunks(20).map(|g| inner(ids.cid(), g.to_vec(), &LeafOpt::default())).collect();
            }
            visit_lean(cx, &level[0], None, ALL)
        }),
    ]
}


// --- C06 ------------------------------------------------------------------------------------

/// Normalised errors of visits and walks.
pub fn file_err(e: &FileError) -> String {
    match e {
        FileError::NonRootDefinesMetadata(m) => format!("NonRootDefinesMetadata {:?}", meta_of(m)),
        FileError::UnexpectedRawOrFileProperties { hash_type, fanout } => format!("UnexpectedRawOrFileProperties {hash_type:?} {fanout:?}"),
        e => format!("{e:?}"),
    }
}

pub fn ut(t: &unixfs_v1::UnexpectedNodeType) -> String {
    let d = format!("{t:?}");
    let n: String = d.chars().take_while(|c| c.is_ascii_digit() || *c == '-').collect();
    format!("{n} dir={} file={}", t.is_directory(), t.is_file())
}

pub fn ut_of(ty: u64) -> String {
    format!("{ty} dir={} file={}", ty == DIR || ty == HAMT, ty == FILE)
}

pub fn cid_err(e: &unixfs_v1::InvalidCidInLink) -> String {
    format!("InvalidCid #{} hash {} name {:?}", e.nth, hex(&e.hash), e.name)
}

pub fn visit_err(e: &FileReadFailed) -> String {
    let _ = format!("{e} {e:?}");
    match e {
        FileReadFailed::File(e) => file_err(e),
        FileReadFailed::UnexpectedType(t) => format!("UnexpectedType {}", ut(t)),
        FileReadFailed::Read(Some(_)) => "Read".into(),
        FileReadFailed::Read(None) => "Empty".into(),
        FileReadFailed::InvalidCid(c) => cid_err(c),
    }
}

pub fn walk_err(e: &walk::Error) -> String {
    let _ = format!("{e} {e:?}");
    match e {
        walk::Error::File(e) => file_err(e),
        walk::Error::UnexpectedType(t) => format!("UnexpectedType {}", ut(t)),
        walk::Error::UnsupportedType(t) => format!("UnsupportedType {}", ut(t)),
        walk::Error::DagPbParsingFailed(_) => "Read".into(),
        walk::Error::UnixFsParsingFailed(_) => "Unixfs".into(),
        walk::Error::EmptyDagPbNode => "Empty".into(),
        walk::Error::InvalidCid(c) => cid_err(c),
        walk::Error::InvalidLinkName { nth, name } => format!("InvalidLinkName #{nth} {name:?}"),
        walk::Error::UnsupportedDirectory(_) => "UnsupportedDirectory".into(),
        walk::Error::UnsupportedHAMTShard(_) => "UnsupportedHAMTShard".into(),
    }
}

/// A block of which any rule may be broken.
#[derive(Clone, Debug, Default)]
struct B {
    u: U,
    nlinks: usize,
}

impl B {
    fn encode(&self, ids: &mut Ids) -> (Vec<Vec<u8>>, Vec<u8>) {
        let cids: Vec<Vec<u8>> = (0..self.nlinks).map(|_| ids.cid()).collect();
        let links: Vec<L> = cids.iter().map(|c| L::new(c, "", 1)).collect();
        (cids, block(&links, &self.u))
    }
}

enum Prev {
    Nothing,
    /// where the preceding leaf ended by its declared size
    Leaf(u64),
    /// offset and declared end of the preceding link block
    Inner(u64, u64),
}

/// The rules a block breaks; `at` is the range its link claims.
fn broken(b: &B, at: &Range<u64>, prev: &Prev, root: bool, ranged: bool) -> (Vec<String>, bool) {
    let u = &b.u;
    let mut errs = vec![];
    let mut optional = false;
    match prev {
        Prev::Leaf(end) if *end != at.start => errs.push("TreeJumpsBetweenLinks".to_string()),
        Prev::Inner(off, end) if at.end > *end => {
            errs.push("TreeExpandsOnLinks".into());
            if ranged && at.start > *off {
                errs.push("TreeOverlapsBetweenLinks".into());
                // wholly behind the end it could as well be what follows a block of which nothing
                // was requested
                optional = at.start >= *end;
            }
        }
        _ => {}
    }
    let n = errs.len();
    if u.ty != FILE && u.ty != RAW {
        errs.push(format!("UnexpectedType {}", ut_of(u.ty)));
    }
    if b.nlinks != u.blocksizes.len() {
        errs.push("LinksAndBlocksizesMismatch".into());
    }
    let empty = u.data.as_ref().map_or(true, |d| d.is_empty());
    if u.filesize.unwrap_or(0) != 0 && empty && b.nlinks == 0 {
        errs.push("NoLinksNoContent".into());
    }
    if b.nlinks > 0 && u.filesize.is_none() {
        errs.push("IntermediateNodeWithoutFileSize".into());
    }
    if u.hash_type.is_some() || u.fanout.is_some() {
        errs.push(format!("UnexpectedRawOrFileProperties {:?} {:?}", u.hash_type, u.fanout));
    }
    if !root && (u.mode.is_some() || u.mtime.is_some()) {
        errs.push(format!("NonRootDefinesMetadata {:?}", u.meta()));
    }
    // sizes which do not fit
    let declared = u.filesize.unwrap_or(u.data.as_ref().map_or(0, |d| d.len() as u64));
    let sum = u.blocksizes.iter().try_fold(at.start, |a, b| a.checked_add(*b));
    if at.start.checked_add(declared).is_none() || (b.nlinks > 0 && sum.is_none()) {
        errs.push("TreeExpandsOnLinks".into());
    }
    if errs.len() > n {
        optional = false;
    }
    (errs, optional)
}

/// Presents blocks chosen by `next` (given the depth of the block in the sequence) to a visit, or
/// to a file inside a walk, in lockstep with the rules.
fn adversary(cx: &mut Cx, in_walk: bool, range: Option<Range<u64>>, max: usize, next: &mut dyn FnMut(&mut Cx, usize) -> B) -> R {
    let mut ids = Ids::new();
    let mut stack: Vec<(Vec<u8>, Range<u64>)> = vec![];
    let mut prev = Prev::Nothing;
    let mut visit: Option<FileVisit> = None;
    let mut cache = None;
    let mut walker = None;
    let file_cid = ids.cid();
    let after_cid = ids.cid();
    if in_walk {
        let root = dir(
            ids.cid(),
            vec![
                ("f".into(), leaf(file_cid.clone(), b"", &LeafOpt::default())),
                ("g".into(), leaf(after_cid.clone(), b"after", &LeafOpt::default())),
            ],
            None,
            None,
        );
        let mut w = Walker::new(to_cid(&root.cid), String::new());
        if let Err(e) = w.next(&root.block, &mut cache) {
            return fail("walk: directory", format!("{e:?}"));
        }
        walker = Some(w);
    }
    for i in 0..max {
        let b = next(cx, i);
        let (cids, blk) = b.encode(&mut ids);
        let at = if i == 0 { 0..b.u.filesize.unwrap_or(0) } else { stack.pop().unwrap().1 };
        let (errs, optional) = broken(&b, &at, &prev, i == 0, range.is_some());
        let res: Result<bool, String> = if let Some(w) = &mut walker {
            let r = match w.next(&blk, &mut cache) {
                Ok(ContinuedWalk::File(s, c, ..)) => {
                    ensure!(c.to_bytes() == file_cid, "walk: cid", "segment of another file");
                    Ok(!s.is_last())
                }
                Ok(o) => return fail("walk: kind", format!("a block of a file gives {o:?}")),
                Err(e) => Err(walk_err(&e)),
            };
            if r.is_err() {
                ensure!(!w.should_continue(), "walk: continues after error", "the walk wants to continue after an error");
            }
            r
        } else {
            let r = if i == 0 {
                let mut idle = IdleFileVisit::default();
                if let Some(r) = &range {
                    idle = idle.with_target_range(r.clone());
                }
                idle.start(&blk).map(|x| x.3)
            } else {
                visit.take().unwrap().continue_walk(&blk, &mut cache).map(|x| x.1)
            };
            match r {
                Ok(n) => {
                    visit = n;
                    Ok(visit.is_some())
                }
                Err(e) => Err(visit_err(&e)),
            }
        };
        cx.step(&(&blk, &res));
        cx.log(|| format!("block #{i} at {at:?}: {:?} with {} links -> {res:?}; rules broken: {errs:?}", b.u, b.nlinks));
        match &res {
            Err(e) => {
                ensure!(
                    errs.contains(e),
                    format!("file: error {}", e.split(' ').next().unwrap_or("")),
                    "block #{i} at {at:?} ({:?} with {} links) fails with {e}, it breaks {errs:?}", b.u, b.nlinks
                );
                return Ok(());
            }
            Ok(_) => ensure!(
                errs.is_empty() || optional,
                format!("file: accepted {}", errs[0].split(' ').next().unwrap_or("")),
                "block #{i} at {at:?} ({:?} with {} links) is accepted though it breaks {errs:?}", b.u, b.nlinks
            ),
        }
        if b.nlinks == 0 {
            let d = b.u.filesize.unwrap_or(b.u.data.as_ref().map_or(0, |d| d.len() as u64));
            prev = Prev::Leaf(at.start + d);
        } else {
            prev = Prev::Inner(at.start, at.start + b.u.filesize.unwrap());
            let mut s = at.start;
            let mut kids = vec![];
            for (c, z) in cids.into_iter().zip(&b.u.blocksizes) {
                let r = s..s + z;
                s += z;
                kids.push((c, r));
            }
            // of a ranged visit only what it asks for counts
            if range.is_some() {
                let pend: Vec<Vec<u8>> = visit.as_ref().map(pending_of_visit).unwrap_or_default();
                kids.retain(|k| pend.contains(&k.0));
            }
            stack.extend(kids.into_iter().rev());
        }
        let more = *res.as_ref().unwrap();
        ensure!(more == !stack.is_empty(), "file: end", "after block #{i} {} blocks are outstanding, the file {}", stack.len(), if more { "continues" } else { "ends" });
        if let Some(w) = &walker {
            ensure!(w.should_continue(), "walk: end", "the walk ends before the next entry");
        }
        if !more {
            return Ok(());
        }
    }
    Ok(())
}

fn any_data(cx: &mut Cx, most: usize) -> Option<Vec<u8>> {
    match cx.choose(most + 2) {
        0 => None,
        n => Some(vec![b'x'; n - 1]),
    }
}

/// Any combination of broken rules.
fn any_block(cx: &mut Cx, sizes: &[u64], filesizes: &[u64]) -> B {
    let mut u = U::ty([FILE, RAW, DIR, META, SYM, HAMT][cx.choose(6)]);
    u.data = any_data(cx, 1);
    u.filesize = match cx.choose(filesizes.len() + 1) {
        0 => None,
        n => Some(filesizes[n - 1]),
    };
    let nlinks = cx.choose(3);
    let nsizes = cx.choose(4);
    for _ in 0..nsizes {
        u.blocksizes.push(if nsizes > 2 { 1 } else { *cx.pick(sizes) });
    }
    match cx.choose(5) {
        0 => {}
        1 => u.hash_type = Some(0x22),
        2 => u.fanout = Some(256),
        3 => {
            u.hash_type = Some(0);
            u.fanout = Some(0)
        }
        _ => u.fanout = Some(0),
    }
    match cx.choose(5) {
        0 => {}
        1 => u.mode = Some(0o644),
        2 => u.mtime = Some((3, None)),
        3 => u.mode = Some(0),
        _ => u.mtime = Some((0, Some(0))),
    }
    B { u, nlinks }
}

/// Blocks which at most break the rules about sizes of neighbours.
fn size_block(cx: &mut Cx, max: u64, leaf_only: bool) -> B {
    let mut u = U::ty(FILE);
    let n = if leaf_only { 0 } else { cx.choose(3) };
    if n == 0 {
        // declared size, with content unless it is zero
        let d = cx.choose(max as usize + 1) as u64;
        u.filesize = Some(d);
        if d > 0 {
            u.data = Some(vec![b'y'; d as usize]);
        }
    } else {
        for _ in 0..n {
            u.blocksizes.push(cx.choose(max as usize + 1) as u64);
        }
        u.filesize = Some(cx.choose(2 * max as usize + 1) as u64);
    }
    B { u, nlinks: n }
}

const LIMITS: [u64; 6] = [0, 1, u64::MAX, u64::MAX - 1, 1 << 63, 2];

pub fn c06(tier: Tier) -> Vec<Scenario> {
    let len = tier.of(5, 7);
    vec![
        scenario(
            "first block",
            "as first block, alone and inside a walk: 6 types, content absent/empty/present, size absent or one of 6 up to 2^64-1, 0..=2 links, 0..=3 block sizes of the 6 values, every mix of directory properties and metadata".to_string(),
            move |cx| {
                let in_walk = cx.flag();
                let mut b = any_block(cx, &LIMITS, &LIMITS);
                if in_walk && b.u.ty != RAW {
                    b.u.ty = FILE;
                }
                adversary(cx, in_walk, None, 1, &mut |_, _| b.clone())
            },
        ),
        scenario(
            "second block",
            "as second block below a root with 1 or 2 links of sizes 0..=2: any combination of broken rules, alone and inside a walk".to_string(),
            move |cx| {
                let in_walk = cx.flag();
                adversary(cx, in_walk, None, 2, &mut |cx, i| {
                    if i == 0 {
                        let mut u = U::ty(FILE);
                        let n = 1 + cx.choose(2);
                        u.filesize = Some(cx.choose(4) as u64);
                        for _ in 0..n {
                            u.blocksizes.push(cx.choose(3) as u64);
                        }
                        B { u, nlinks: n }
                    } else {
                        any_block(cx, &[0, 1, u64::MAX], &[0, 1, 2, u64::MAX])
                    }
                })
            },
        ),
        scenario(
            "third block",
            "as third block, after a leaf or a link block: any combination of broken rules, alone and inside a walk".to_string(),
            move |cx| {
                let in_walk = cx.flag();
                let nested = cx.flag();
                adversary(cx, in_walk, None, 3, &mut |cx, i| match i {
                    0 => B { u: U { blocksizes: vec![2, 1], filesize: Some(3), ..U::ty(FILE) }, nlinks: 2 },
                    1 if nested => B { u: U { blocksizes: vec![1, 1], filesize: Some(2), ..U::ty(RAW) }, nlinks: 2 },
                    1 => B { u: U { data: Some(vec![1, 2]), filesize: [None, Some(2), Some(1)][cx.choose(3)], ..U::ty(FILE) }, nlinks: 0 },
                    _ => any_block(cx, &[0, 1, u64::MAX - 1], &[0, 1, 2, u64::MAX - 1]),
                })
            },
        ),
        scenario(
            "sizes",
            format!("every sequence of up to {len} blocks, each a leaf of declared size 0..=1 or a link block with 1..=2 links of sizes 0..=1 and size 0..=2"),
            move |cx| adversary(cx, false, None, len, &mut |cx, i| size_block(cx, 1, i + 1 == len)),
        ),
        scenario(
            "wider sizes",
            format!("every sequence of up to {} blocks, leaves of size 0..=2, link blocks with 1..=2 links of sizes 0..=2 and size 0..=4, alone and inside a walk", len - 1),
            move |cx| {
                let in_walk = cx.flag();
                adversary(cx, in_walk, None, len - 1, &mut |cx, i| size_block(cx, 2, i + 2 >= len))
            },
        ),
        scenario(
            "limits",
            "sequences of 3 blocks, leaves and link blocks with sizes among 0, 1, 2^63, 2^64-2, 2^64-1, size or content short of it".to_string(),
            move |cx| {
                adversary(cx, false, None, 3, &mut |cx, _| {
                    let s = [0u64, 1, 1 << 63, u64::MAX - 1, u64::MAX];
                    let n = cx.choose(3);
                    let mut u = U::ty(FILE);
                    u.filesize = Some(*cx.pick(&s));
                    for _ in 0..n {
                        u.blocksizes.push(*cx.pick(&s));
                    }
                    if n == 0 {
                        u.data = Some(vec![0]);
                    }
                    B { u, nlinks: n }
                })
            },
        ),
        scenario(
            "ranged limits",
            "sequences of 3 blocks as in \"limits\", with sizes among 0, 1, 2, 2^64-2, 2^64-1, visited with ranges among 0..1, 1..2, 2..4, 3..2^64-1, 2^64-2..2^64-1",
            move |cx| {
                let r = cx.pick(&[0..1, 1..2, 2..4, 3..u64::MAX, u64::MAX - 1..u64::MAX]).clone();
                adversary(cx, false, Some(r), 3, &mut |cx, _| {
                    let s = [0u64, 1, 2, u64::MAX - 1, u64::MAX];
                    let n = cx.choose(3);
                    let mut u = U::ty(FILE);
                    u.filesize = Some(*cx.pick(&s));
                    for _ in 0..n {
                        u.blocksizes.push(*cx.pick(&s));
                    }
                    if n == 0 {
                        u.data = Some(vec![0]);
                    }
                    B { u, nlinks: n }
                })
            },
        ),
        scenario(
            "ranged",
            format!("every sequence of up to {} blocks as in \"wider sizes\", visited with every range within 0..=4", len - 2),
            move |cx| {
                let s = cx.choose(5);
                let e = s + cx.choose(5 - s);
                adversary(cx, false, Some(s as u64..e as u64), len - 2, &mut |cx, i| size_block(cx, 2, i + 3 >= len))
            },
        ),
    ]
}

// --- C29 ------------------------------------------------------------------------------------

pub fn c29_visits(tier: Tier) -> Vec<Scenario> {
    let k = tier.of(3, 4);
    vec![scenario(
        "file visit",
        format!("every sequence of up to {k} target ranges, of 9 within, at the ends of, beyond, and all of the file, empty ones included; files of one block, 8 leaves in 1 and in 3 levels, and an empty one"),
        move |cx| {
            let mut ids = Ids::new();
            let root = match cx.choose(4) {
                0 => leaf(ids.cid(), b"abcdefgh", &LeafOpt::default()),
                1 => balanced(8, 8, &mut ids, 1, 1),
                2 => balanced(8, 2, &mut ids, 1, 1),
                _ => leaf(ids.cid(), b"", &LeafOpt::default()),
            };
            let all = [0..8, 0..3, 3..6, 5..8, 2..2, 0..0, 6..20, 9..12, 0..u64::MAX];
            let n = cx.choose(k + 1);
            let mut ranges: Vec<Range<u64>> = (0..n).map(|_| cx.pick(&all).clone()).collect();
            let last = ranges.pop();
            let mut v = VisitRun::new(root, last, ALL);
            v.earlier = ranges;
            while !v.done {
                v.step(cx, &mut None)?;
            }
            v.finish()
        },
    )]
}
