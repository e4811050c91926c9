//! C27: importing and reading hold only what is outstanding.
use super::files::balanced;
use super::walks::G;
use crate::enc::*;
use crate::ensure;
use crate::explore::*;
use crate::memo;
use crate::model::*;
use crate::Tier;
use std::collections::HashMap;
use std::ops::Range;
use std::rc::Rc;
use unixfs_v1::dir::{self, MaybeResolved};
use unixfs_v1::file::adder::{BalancedCollector, Chunker, FileAdder};
use unixfs_v1::file::visit::{self, IdleFileVisit};
use unixfs_v1::resolve;
use unixfs_v1::walk::Walker;

/// Bytes of content which no operation may keep.
const BIG: usize = 60_000;

/// Runs a call on the implementation and adds what it leaves allocated.
fn on<T>(held: &mut isize, f: impl FnOnce() -> T) -> T {
    let before = memo::now();
    let r = f();
    *held += memo::now() - before;
    r
}

fn check(what: &str, held: isize, allowed: usize, when: impl FnOnce() -> String) -> R {
    ensure!(held <= allowed as isize, format!("{what}: holds too much"), "the {what} holds {held} bytes, at most {allowed} are accounted for, {}", when());
    Ok(())
}

// --- importing --------------------------------------------------------------------------------

/// A chunk (in a buffer with room), a branching factor of links with scratch space, and a link
/// per link block emitted.
fn import_allowed(chunk: usize, bf: usize, chunks: usize) -> usize {
    8192 + 3 * chunk + 700 * bf + 320 * (chunks / bf)
}

fn import(cx: &mut Cx, chunk: usize, bf: usize, bytes: usize, default: bool, split: &[usize]) -> R {
    let data = vec![5u8; split.iter().copied().max().unwrap().max(1)];
    let mut held = 0;
    let mut a = on(&mut held, || {
        if default {
            FileAdder::default()
        } else {
            FileAdder::builder().with_chunker(Chunker::Size(chunk)).with_collector(BalancedCollector::with_branching_factor(bf)).build()
        }
    });
    let (mut at, mut i, mut most) = (0, 0, 0);
    while at < bytes {
        let n = split[i % split.len()].min(bytes - at);
        i += 1;
        let (used, blocks) = on(&mut held, || {
            let (it, used) = a.push(&data[..n]);
            (used, it.map(|(_, b)| b.len()).sum::<usize>())
        });
        at += used;
        ensure!(used > 0, "push: no progress", "a push of {n} bytes consumes nothing");
        most = most.max(held);
        if i % 16 == 0 || bytes < 100 * chunk {
            cx.step(&(used, blocks));
        }
        check("importer", held, import_allowed(chunk, bf, at.div_ceil(chunk)), || format!("after {at} bytes in {i} pushes, chunks of {chunk}, branching factor {bf}"))?;
    }
    on(&mut held, || a.finish().for_each(drop));
    cx.log(|| format!("{bytes} bytes, chunks of {chunk}, branching factor {bf}, {i} pushes: held at most {most}, allowed {}", import_allowed(chunk, bf, bytes.div_ceil(chunk))));
    cx.step(&(at, i));
    check("importer", held, 4096, || "after it has ended".into())
}

// --- reading ----------------------------------------------------------------------------------

fn index(n: &Rc<N>, out: &mut HashMap<Vec<u8>, Rc<N>>) {
    let mut todo = vec![n.clone()];
    while let Some(n) = todo.pop() {
        match &n.what {
            What::Dir(k) | What::Shard(k) => todo.extend(k.iter().map(|x| x.1.clone())),
            What::Inner(k, _) => todo.extend(k.iter().map(|x| x.0.clone())),
            _ => {}
        }
        out.insert(n.cid.clone(), n);
    }
}

/// Drops a long chain without recursion.
fn dismantle(t: Rc<N>) {
    let mut todo = vec![t];
    while let Some(t) = todo.pop() {
        if let Ok(n) = Rc::try_unwrap(t) {
            if let What::Dir(k) | What::Shard(k) = n.what {
                todo.extend(k.into_iter().map(|x| x.1));
            }
        }
    }
}

fn reading_allowed(pending: usize, names: usize) -> usize {
    12_000 + 600 * (pending + 1) + 3 * names
}

fn measure_visit(cx: &mut Cx, root: &Rc<N>, range: Option<Range<u64>>) -> R {
    let mut blocks = HashMap::new();
    index(root, &mut blocks);
    let (mut held, mut most) = (0, 0);
    let mut cache: Option<visit::Cache> = None;
    let mut idle = IdleFileVisit::default();
    if let Some(r) = range {
        idle = idle.with_target_range(r);
    }
    let mut v = match on(&mut held, || idle.start(&root.block).map(|r| r.3)) {
        Ok(v) => v,
        Err(e) => return fail("visit: fails", format!("{e:?}")),
    };
    let mut i = 0;
    while let Some(x) = v.take() {
        let (first, rest) = x.pending_links();
        most = most.max(1 + rest.count());
        let b = &blocks[&first.to_bytes()];
        if i < 64 || i % 16 == 0 {
            cx.step(&(i, most));
        }
        check("visit", held, reading_allowed(most, 0), || format!("before block {i}, at most {most} links having been pending"))?;
        v = match on(&mut held, || x.continue_walk(&b.block, &mut cache).map(|r| r.1)) {
            Ok(v) => v,
            Err(e) => return fail("visit: fails", format!("{e:?}")),
        };
        i += 1;
    }
    cx.step(&(i, most));
    check("visit", held, reading_allowed(most, 0), || format!("after {i} blocks with its cache, at most {most} links having been pending"))?;
    on(&mut held, || drop(cache));
    cx.log(|| format!("visit of {i} blocks, at most {most} pending"));
    check("visit", held, 4096, || "after it has ended".into())
}

fn measure_walk(cx: &mut Cx, root: &Rc<N>, name: usize) -> R {
    let mut blocks = HashMap::new();
    index(root, &mut blocks);
    let (mut held, mut most, mut i) = (0, 0, 0);
    let mut cache: Option<visit::Cache> = None;
    let cid = to_cid(&root.cid);
    let mut w = on(&mut held, || Walker::new(cid, "root".into()));
    while w.should_continue() {
        let (first, rest) = w.pending_links();
        most = most.max(1 + rest.count());
        let b = &blocks[&first.to_bytes()];
        if i < 64 || i % 16 == 0 {
            cx.step(&(i, most));
        }
        check("walk", held, reading_allowed(most, most * name + 40 * name), || format!("before block {i}, at most {most} links having been pending"))?;
        if let Err(e) = on(&mut held, || w.next(&b.block, &mut cache).map(|_| ())) {
            return fail("walk: fails", format!("{e:?}"));
        }
        i += 1;
    }
    cx.step(&(i, most));
    check("walk", held, reading_allowed(most, most * name + 40 * name), || format!("after {i} blocks with its cache"))?;
    on(&mut held, || drop((w, cache)));
    cx.log(|| format!("walk of {i} blocks, at most {most} pending"));
    check("walk", held, 4096, || "after it has ended".into())
}

/// Looks an absent name up in all shards below the root.
fn measure_lookup(cx: &mut Cx, root: &Rc<N>, needle: &str) -> R {
    let mut blocks = HashMap::new();
    index(root, &mut blocks);
    let (mut held, mut most, mut i) = (0, 0, 0);
    let mut cache: Option<dir::Cache> = None;
    let mut r = match on(&mut held, || resolve(&root.block, needle, &mut cache)) {
        Ok(r) => r,
        Err(e) => return fail("resolve: fails", format!("{e:?}")),
    };
    while let MaybeResolved::NeedToLoadMore(l) = r {
        let l = if i == 1 { on(&mut held, || l.with_owned_needle()) } else { l };
        let (first, rest) = l.pending_links();
        most = most.max(1 + rest.count());
        let b = &blocks[&first.to_bytes()];
        if i < 64 || i % 16 == 0 {
            cx.step(&(i, most));
        }
        check("lookup", held, reading_allowed(most, needle.len()), || format!("before block {i}, at most {most} buckets having been pending"))?;
        r = match on(&mut held, || l.continue_walk(&b.block, &mut cache)) {
            Ok(r) => r,
            Err(e) => return fail("lookup: fails", format!("{e:?}")),
        };
        i += 1;
    }
    let found = matches!(r, MaybeResolved::Found(_));
    cx.step(&(i, most, found));
    check("lookup", held, reading_allowed(most, needle.len()), || format!("after {i} blocks with its cache"))?;
    on(&mut held, || drop((r, cache)));
    cx.log(|| format!("lookup over {i} blocks, at most {most} pending, found {found}"));
    check("lookup", held, 4096, || "after it has ended".into())
}

/// Every tree of up to `budget` entries whose files, symlinks and names are long.
fn gen(cx: &mut Cx, g: &mut G, budget: &mut usize, depth: usize, bucket: bool, name: usize) -> Rc<N> {
    *budget -= 1;
    let kind = if bucket { 4 } else { cx.choose(if depth == 0 { 3 } else { 5 }) };
    match kind {
        0 => return g.file(BIG),
        1 => {
            let t = vec![b't'; BIG];
            return sym(g.ids.cid(), &t, None, None);
        }
        2 => {
            let k = vec![g.part(BIG), g.part(BIG)];
            return inner(g.ids.cid(), k, &LeafOpt::default());
        }
        _ => {}
    }
    let n = if depth == 0 { 0 } else { cx.choose(4.min(*budget + 1)) };
    *budget -= n;
    let mut kids = vec![];
    for i in 0..n {
        *budget += 1;
        let b = kind == 4 && cx.flag();
        let k = gen(cx, g, budget, depth - 1, b, name);
        let base = if b { format!("{i:02X}") } else { format!("{i:02X}{}", "n".repeat(name)) };
        kids.push((base, k));
    }
    if kind == 4 {
        g.shard(kids)
    } else {
        g.dir(kids)
    }
}

pub fn c27(tier: Tier) -> Vec<Scenario> {
    let n = tier.of(700, 4000);
    let long = tier.of(20_000, 120_000);
    let nodes = tier.of(8, 9);
    let entries = tier.of(6, 7);
    let links = tier.of(9, 10);
    vec![
        scenario(
            "import",
            format!("contents of {n} chunks of 1..=5, 64 and 1000 bytes, branching factors 2..=8 and 174, 10 ways of splitting into pushes; what the importer holds after every push"),
            move |cx| {
                let chunk = *cx.pick(&[1usize, 2, 3, 4, 5, 64, 1000]);
                let bf = *cx.pick(&[2usize, 3, 4, 5, 6, 7, 8, 174]);
                let c = chunk;
                let splits = [vec![1], vec![c], vec![c + 1], vec![3 * c], vec![1, c], vec![c, 1], vec![2, 7], vec![c.max(2) - 1], vec![c, c + 3, 0, 1], vec![1, 64 * c + 20_000]];
                let s = cx.pick(&splits);
                // an empty push consumes nothing
                let s: Vec<usize> = s.iter().copied().filter(|x| *x > 0).collect();
                import(cx, chunk, bf, n * chunk + 1, false, &s)
            },
        ),
        scenario("long import", format!("contents of {long} chunks of 1 and 2 bytes, branching factors 2, 3, 10, 174; 64 MiB with the defaults, by pushes of 4 KiB, 256 KiB and 1 MiB"), move |cx| {
            if cx.flag() {
                let s = *cx.pick(&[4096usize, 256 << 10, 1 << 20]);
                return import(cx, 256 << 10, 174, 64 << 20, true, &[s]);
            }
            let chunk = *cx.pick(&[1usize, 2]);
            let bf = *cx.pick(&[2usize, 3, 10, 174]);
            let s = *cx.pick(&[1usize, 2, 5]);
            import(cx, chunk, bf, long * chunk, false, &[s])
        }),
        scenario("files", format!("every file tree of up to {nodes} blocks with leaves of {BIG} bytes or none, visited in full and in 4 ranges and walked; what is held between blocks"), move |cx| {
            let mut ids = Ids::new();
            let mut budget = nodes;
            let t = gen_file(
                cx,
                &mut ids,
                &mut budget,
                4,
                4,
                true,
                &mut |cx, ids, _| {
                    let d = vec![7u8; if cx.flag() { 0 } else { BIG }];
                    leaf(ids.cid(), &d, &LeafOpt::default())
                },
                &mut |_, ids, kids, _| inner(ids.cid(), kids, &LeafOpt::default()),
            );
            let b = BIG as u64;
            match cx.choose(6) {
                0 => measure_walk(cx, &t, 0),
                1 => measure_visit(cx, &t, None),
                k => measure_visit(cx, &t, [0..1, 1..b + 5, b..3 * b, 2 * b + 1..u64::MAX].get(k - 2).cloned()),
            }
        }),
        scenario("trees", format!("every tree of up to {entries} entries, with files and symlinks of {BIG} bytes and names of 3 and 2000 bytes, walked; what is held between blocks"), move |cx| {
            let name = *cx.pick(&[3usize, 2000]);
            let g = &mut G::new();
            let mut budget = entries;
            let t = gen(cx, g, &mut budget, 4, false, name);
            measure_walk(cx, &t, name + 2)
        }),
        scenario("lookups", format!("every tree of up to {links} shards, each with 30 entries with names of 2000 bytes, looking up an absent, a present and a long name"), move |cx| {
            fn shards(cx: &mut Cx, g: &mut G, budget: &mut usize, depth: usize, id: &mut u32) -> Rc<N> {
                let n = if depth == 0 { 0 } else { cx.choose(4.min(*budget + 1)) };
                *budget -= n;
                let mut links = vec![];
                let mut kids = vec![];
                for i in 0..n {
                    let k = shards(cx, g, budget, depth - 1, id);
                    links.push(L::new(&k.cid, &format!("{i:02X}"), 1));
                    kids.push((format!("{i:02X}"), k));
                }
                for _ in 0..30 {
                    *id += 1;
                    links.push(L::new(&fake_cid(0, 5000 + *id), &format!("AA{}{id}", "x".repeat(2000)), 1));
                }
                Rc::new(N { cid: g.ids.cid(), block: block(&links, &U::shard()), meta: (None, None), what: What::Shard(kids) })
            }
            let g = &mut G::new();
            let mut budget = links - 1;
            let t = shards(cx, g, &mut budget, 4, &mut 0);
            let present = format!("{}31", "x".repeat(2000));
            let needle = ["absent", &present, &"y".repeat(BIG)][cx.choose(3)].to_string();
            measure_lookup(cx, &t, &needle)
        }),
        scenario("long reads", format!("files of up to {long} leaves under branching factors 2, 10, 174; directories of 200 directories of 50 files; shards of 256 buckets of 256 entries; chains of {long} buckets with 0 to 2 entries each; every operation over all of it"), move |cx| {
            match cx.choose(5) {
                4 => {
                    let g = &mut G::new();
                    let entries = cx.choose(3);
                    let mut t = g.shard(vec![]);
                    for i in 0..*cx.pick(&[1000, long]) {
                        let mut kids: Vec<_> = (0..entries).map(|j| (format!("{j:02X}{i}x{j}"), g.file(100))).collect();
                        kids.insert(kids.len() / 2, ("FF".into(), t));
                        t = g.shard(kids);
                    }
                    let r = if cx.flag() { measure_walk(cx, &t, 12) } else { measure_lookup(cx, &t, "absent") };
                    dismantle(t);
                    r
                }
                0 => {
                    let n = *cx.pick(&[500usize, 5000, long]);
                    let bf = *cx.pick(&[2usize, 10, 174]);
                    let t = balanced(n, bf, &mut Ids::new(), 1, 1);
                    match cx.choose(3) {
                        0 => measure_walk(cx, &t, 0),
                        1 => measure_visit(cx, &t, None),
                        _ => measure_visit(cx, &t, Some(17..n as u64 - 3)),
                    }
                }
                1 => {
                    let g = &mut G::new();
                    let files = cx.flag();
                    let dirs = (0..200)
                        .map(|i| {
                            let k = (0..50).map(|j| (format!("{j}"), if files { g.file(1) } else { g.dir(vec![]) })).collect();
                            (format!("{i}"), g.dir(k))
                        })
                        .collect();
                    let t = g.dir(dirs);
                    measure_walk(cx, &t, 4)
                }
                k => {
                    let g = &mut G::new();
                    let buckets = (0..256)
                        .map(|i| {
                            let f: Vec<_> = (0..256).map(|j| (format!("{j:02X}{i}x{j}"), g.file(1))).collect();
                            (format!("{i:02X}"), g.shard(f))
                        })
                        .collect();
                    let t = g.shard(buckets);
                    if k == 2 {
                        measure_walk(cx, &t, 12)
                    } else {
                        let needle = *cx.pick(&["absent", "255x255", "0x0"]);
                        measure_lookup(cx, &t, needle)
                    }
                }
            }
        }),
    ]
}
