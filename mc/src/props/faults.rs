//! C25: what is wrong with a block is reported precisely, wherever the block lies.
use std::collections::BTreeMap;
use std::ops::Range;
use std::rc::Rc;

use libipld::Cid;
use unixfs_v1::dir::{ResolveError, ShardError};
use unixfs_v1::file::FileReadFailed;
use unixfs_v1::{walk, InvalidCidInLink, LookupError};

use super::codec::{parse_node, parse_unixfs, P};
use super::files::{balanced, chain, plain_tree, skewed, ut_of, visit_err, walk_err, wide};
use super::resolve::{gen_shard, lookup, lookup_err, resolve_err, Blk, Dat, Shards};
use super::walks::{gen_ent, gen_walk_file, G};
use crate::enc::*;
use crate::ensure;
use crate::explore::*;
use crate::model::*;
use crate::Tier;

/// Hashes which are no CIDs.
fn bad_hashes() -> Vec<Option<Vec<u8>>> {
    let mut extra = fake_cid(0, 7);
    extra.truncate(33);
    let v = vec![
        None,
        Some(vec![]),
        Some(extra),
        Some(vec![0xff; 36]),
        Some(b"QmRgutAxd8t7oGkSm4wmeuByG6M51wcTso6cubDdQtuEfL".to_vec()),
        Some(vec![1]),
        Some(vec![0]),
        Some(vec![1, 0x70, 0x12, 0x20]),
        Some(vec![1, 0x70, 0x12, 0x21, 9]),
    ];
    v.into_iter().filter(|h| is_bad(h.as_deref())).collect()
}

fn is_bad(h: Option<&[u8]>) -> bool {
    Cid::try_from(h.unwrap_or_default()).is_err()
}

/// Every proper prefix of every kind of CID which is no CID itself.
fn cut_cids() -> Vec<Option<Vec<u8>>> {
    let mut out = vec![];
    for v in 0..CID_VARIANTS {
        let c = fake_cid(v, 3);
        for n in 0..c.len() {
            if is_bad(Some(&c[..n])) {
                out.push(Some(c[..n].to_vec()));
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

fn links_of(b: &[u8]) -> (Vec<L>, Vec<u8>) {
    match parse_node(b) {
        P::Ok(n) => (n.links, n.data.unwrap().1),
        _ => panic!("a block of the model does not parse"),
    }
}

fn cid_want(i: usize, l: &L) -> String {
    format!(
        "InvalidCid #{i} hash {} name {:?}",
        hex(l.hash.as_deref().unwrap_or_default()),
        String::from_utf8_lossy(l.name.as_deref().unwrap_or_default())
    )
}

/// The error of a walk with all that its kind makes known.
fn full_walk_err(e: &walk::Error) -> String {
    match e {
        walk::Error::UnsupportedHAMTShard(ShardError::UnsupportedProperties { hash_type, fanout }) => format!("Shard unsupported {hash_type:?} {fanout:?}"),
        walk::Error::UnsupportedHAMTShard(ShardError::UnexpectedProperties { filesize, blocksizes }) => format!("Shard unexpected {filesize:?} {blocksizes:?}"),
        e => walk_err(e),
    }
}

/// The undefined types; the last is -1.
const UNDEFINED: [u64; 6] = [6, 7, 127, 128, i32::MAX as u64, u64::MAX];

/// Which part of an operation a block is handed to.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Place {
    Walk(Role),
    Visit,
}

fn parse_want(place: Place, inner: bool) -> Vec<String> {
    match place {
        Place::Walk(Role::Part) if inner => vec!["Read".into(), "Unixfs".into()],
        Place::Walk(_) if inner => vec!["Unixfs".into()],
        _ => vec!["Read".into()],
    }
}

/// A faulty replacement of the whole block of the node and the errors which say so.
fn block_fault(cx: &mut Cx, n: &N, place: Place) -> (Vec<u8>, Vec<String>) {
    let (links, data) = links_of(&n.block);
    let P::Ok(u) = parse_unixfs(&data) else { panic!("model data") };
    let part = |ty: u64| {
        let mut v = u.clone();
        v.ty = ty;
        block(&links, &v)
    };
    match cx.choose(7) {
        // nothing at all, no data, empty data
        0 => {
            let b = match cx.choose(5) {
                0 => vec![],
                1 => node(&links, None),
                2 => node(&links, Some(b"")),
                3 => node(&[], Some(b"")),
                // only an unknown field
                _ => vec![0x18, 1],
            };
            (b, vec!["Empty".into()])
        }
        // the outer message is broken
        1 => {
            let b = match cx.choose(6) {
                0 => n.block[..n.block.len() - 1].to_vec(),
                1 => vec![0xff],
                2 => [&n.block[..], &[0x0a][..]].concat(),
                3 => [&n.block[..], &[0x12, 0x05, 0x0a][..]].concat(),
                // a link name that is not UTF-8
                4 => {
                    let mut l = links.clone();
                    l.push(L { hash: Some(fake_cid(0, 1)), name: Some(vec![0xc3, 0x28]), tsize: None });
                    node(&l, Some(&data))
                }
                _ => vec![0x0a, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01],
            };
            (b, parse_want(place, false))
        }
        // the inner message is broken
        2 => {
            let d = match cx.choose(4) {
                0 => vec![0xff],
                1 => vec![0x08, 0x02, 0x12, 0x05, 1],
                2 => [&data[..], &[0x42, 0x02, 0x08][..]].concat(),
                _ => vec![0x08, 0x80],
            };
            (node(&links, Some(&d)), parse_want(place, true))
        }
        3 => {
            let ty = *cx.pick(&UNDEFINED);
            (part(ty), parse_want(place, true))
        }
        4 => {
            let want = match place {
                Place::Visit => vec![format!("UnexpectedType {}", ut_of(META))],
                Place::Walk(Role::Entry) => vec![format!("UnsupportedType {}", ut_of(META))],
                Place::Walk(_) => vec![format!("UnexpectedType {}", ut_of(META)), format!("UnsupportedType {}", ut_of(META))],
            };
            (part(META), want)
        }
        // a type that does not belong there
        5 => {
            let tys: &[u64] = match place {
                Place::Visit | Place::Walk(Role::Part) => &[DIR, SYM, HAMT],
                Place::Walk(Role::Bucket) => &[RAW, DIR, FILE, SYM],
                // anything goes
                Place::Walk(Role::Entry) => &[],
            };
            if tys.is_empty() {
                return (vec![], vec!["Empty".into()]);
            }
            let ty = *cx.pick(tys);
            (part(ty), vec![format!("UnexpectedType {}", ut_of(ty))])
        }
        // properties of others
        _ => {
            let plain_dir = matches!(place, Place::Walk(Role::Entry));
            let shards = matches!(place, Place::Walk(Role::Entry | Role::Bucket));
            if !shards {
                return (vec![], vec!["Empty".into()]);
            }
            // links without names are only right in files
            let links: Vec<L> = links.into_iter().filter(|l| l.name.as_ref().is_some_and(|n| n.len() > 2)).collect();
            if plain_dir && cx.flag() {
                let mut u = U::ty(DIR);
                match cx.choose(6) {
                    0 => u.filesize = Some(0),
                    1 => u.filesize = Some(u64::MAX),
                    2 => u.blocksizes = vec![0],
                    3 => u.hash_type = Some(0),
                    4 => u.fanout = Some(256),
                    _ => u.data = Some(vec![0]),
                }
                (block(&links, &u), vec!["UnsupportedDirectory".into()])
            } else {
                let mut u = U::shard();
                let want = match cx.choose(8) {
                    k @ 0..=4 => {
                        match k {
                            0 => u.hash_type = None,
                            1 => u.hash_type = Some(0x12),
                            2 => u.fanout = None,
                            3 => u.fanout = Some(255),
                            _ => u.fanout = Some((1 << 32) + 256),
                        }
                        format!("Shard unsupported {:?} {:?}", u.hash_type, u.fanout)
                    }
                    k => {
                        match k {
                            5 => u.filesize = Some(0),
                            6 => u.filesize = Some(1 << 40),
                            _ => u.blocksizes = vec![0, 7],
                        }
                        format!("Shard unexpected {:?} {:?}", u.filesize, u.blocksizes)
                    }
                };
                (block(&links, &u), vec![want])
            }
        }
    }
}

/// Makes some of the links at `at` of the node broken, or none when there are no such links.
fn link_fault(cx: &mut Cx, n: &N, at: &[usize], hashes: &[Option<Vec<u8>>]) -> Option<(Vec<u8>, Vec<String>)> {
    if at.is_empty() {
        return None;
    }
    let (mut links, data) = links_of(&n.block);
    let mut want = vec![];
    let first = cx.choose(at.len());
    // and perhaps a later one, too
    let second = first + cx.choose(at.len() - first);
    let mut which = vec![at[first]];
    if second != first {
        which.push(at[second]);
    }
    let tsize = if second == first { cx.choose(2) } else { 0 };
    for (k, &i) in which.iter().enumerate() {
        links[i].hash = if k == 0 { cx.pick(hashes).clone() } else { Some(vec![0xee, i as u8]) };
        if tsize == 1 {
            links[i].tsize = None;
        }
        want.push(cid_want(i, &links[i]));
    }
    Some((node(&links, Some(&data)), want))
}

fn check(cx: &mut Cx, b: &[u8], got: &str, want: &[String], what: &str) -> R {
    cx.step(&(b, got));
    cx.log(|| format!("{what}: {} -> {got}, expected {want:?}", hex(b)));
    let kind = |s: &str| s.split(' ').next().unwrap().to_string();
    let key = if want.iter().any(|w| kind(w) == kind(got)) { "details" } else { "kind of error" };
    ensure!(want.iter().any(|w| w == got), format!("{what}: {key}"), "block {} fails with {got} instead of {want:?}", hex(b));
    Ok(())
}

/// Walks up to any block, which is replaced by a faulty one.
fn faulty_walk(cx: &mut Cx, root: &Rc<N>, name: &str, hashes: &[Option<Vec<u8>>], blocks: bool) -> R {
    let at = cx.choose(root.count());
    let mut w = WalkRun::new(root, name, 0);
    let mut cache = None;
    for _ in 0..at {
        w.step(cx, &mut cache)?;
    }
    let (n, role) = w.peek();
    let links = match &n.what {
        What::Dir(k) | What::Shard(k) => k.len(),
        What::Inner(k, _) => k.len(),
        _ => 0,
    };
    let fault = if blocks && cx.flag() {
        Some(block_fault(cx, &n, Place::Walk(role)))
    } else {
        link_fault(cx, &n, &(0..links).collect::<Vec<_>>(), hashes)
    };
    let Some((b, want)) = fault else { return Ok(()) };
    let e = w.refused(&b, &mut cache)?;
    check(cx, &b, &full_walk_err(&e), &want, "walk")
}

/// Visits up to any block, which is replaced by a faulty one.
fn faulty_visit(cx: &mut Cx, root: &Rc<N>, range: Option<Range<u64>>, hashes: &[Option<Vec<u8>>], blocks: bool) -> R {
    let at = cx.choose(root.count());
    let mut v = VisitRun::new(root.clone(), range.clone(), 0);
    let mut cache = None;
    for _ in 0..at {
        v.step(cx, &mut cache)?;
        if v.done {
            return Ok(());
        }
    }
    let (n, lies, _) = v.peek();
    let fault = if blocks && cx.flag() {
        Some(block_fault(cx, &n, Place::Visit))
    } else {
        let mut followed = vec![];
        if let What::Inner(k, _) = &n.what {
            let mut start = lies.start;
            for (i, (_, size)) in k.iter().enumerate() {
                let r = start..start + size;
                start = r.end;
                if range.as_ref().is_none_or(|t| relevant(&r, t).0) {
                    followed.push(i);
                }
            }
        }
        link_fault(cx, &n, &followed, hashes)
    };
    let Some((b, want)) = fault else { return Ok(()) };
    let e = v.refused(&b, &mut cache)?;
    check(cx, &b, &visit_err(&e), &want, "visit")
}

/// Replaces the data of a bucket, or the hash of one of its links.
fn damage(cx: &mut Cx, b: &mut Blk) -> bool {
    let k = cx.choose(2);
    if k == 0 {
        let dats = [
            Dat::None,
            Dat::Empty,
            Dat::Bad(vec![0xff]),
            Dat::Bad(vec![8, 5, 0x28, 0x22, 0x30]),
            Dat::Unixfs(U::ty(RAW)),
            Dat::Unixfs(U::ty(DIR)),
            Dat::Unixfs(U::ty(FILE)),
            Dat::Unixfs(U::ty(META)),
            Dat::Unixfs(U::ty(SYM)),
            Dat::Unixfs(U::ty(6)),
            Dat::Unixfs(U::ty(u64::MAX)),
            Dat::Unixfs(U { hash_type: Some(0x23), ..U::shard() }),
            Dat::Unixfs(U { fanout: Some(0), ..U::shard() }),
            Dat::Unixfs(U { filesize: Some(0), ..U::shard() }),
            Dat::Unixfs(U { blocksizes: vec![1, 2], ..U::shard() }),
        ];
        b.dat = cx.pick(&dats).clone();
        true
    } else {
        if b.links.is_empty() {
            return false;
        }
        let i = cx.choose(b.links.len());
        b.links[i].hash = cx.pick(&bad_hashes()).clone();
        true
    }
}

/// The text of what an error was caused by.
fn source(e: &dyn std::error::Error) -> Option<String> {
    e.source().map(|s| s.to_string())
}

fn cid_source(c: &InvalidCidInLink) -> R {
    let want = Cid::try_from(&c.hash[..]).err().map(|e| e.to_string());
    ensure!(want.is_some(), "causes: no error", "the hash {} is a CID", hex(&c.hash));
    ensure!(source(c) == want, "causes: link", "the source of {c:?} is {:?} instead of {want:?}", source(c));
    Ok(())
}

fn lookup_source(e: LookupError) -> R {
    let (as_lookup, text) = (lookup_err(&e), e.to_string());
    match &e {
        LookupError::Read(Some(p)) => ensure!(source(&e) == Some(p.to_string()), "causes: lookup", "the source of {e:?} is {:?}", source(&e)),
        LookupError::InvalidCid(c) => cid_source(c)?,
        _ => {}
    }
    let parser = if matches!(e, LookupError::Read(_)) { source(&e) } else { None };
    let r = e.into_resolve_error();
    ensure!(matches!(r, ResolveError::Lookup(_)) && resolve_err(&r) == as_lookup, "causes: conversion", "{text} turns into {r:?}");
    if parser.is_some() {
        ensure!(source(&r) == parser, "causes: conversion", "the source of {r:?} is {:?} instead of {parser:?}", source(&r));
    }
    Ok(())
}

/// Makes one operation fail, checks what the error is caused by.
fn causes(cx: &mut Cx) -> R {
    let at = cx.choose(4);
    let sharded = at >= 2;
    let mut links: Vec<L> = (0..3).map(|i| L::new(&fake_cid(0, i), &if sharded { "0A".to_string() } else if at == 1 { "me".to_string() } else { String::new() }, 1)).collect();
    let u = match at {
        0 => U { blocksizes: vec![1; 3], filesize: Some(3), ..U::ty(FILE) },
        1 => U::ty(DIR),
        _ => U::shard(),
    };
    let sound = block(&links, &u);
    let fault = cx.choose(5);
    let b = match fault {
        // cut anywhere
        0 => sound[..cx.choose(sound.len())].to_vec(),
        // in the inner message
        1 => {
            let d = u.enc();
            node(&links, Some(&d[..cx.choose(d.len())]))
        }
        // any byte after a sound block
        2 => [&sound[..], &[cx.choose(256) as u8]].concat(),
        // a broken link
        3 => {
            let i = cx.choose(3);
            links[i].hash = cx.pick(&bad_hashes()).clone();
            block(&links, &u)
        }
        _ => node(&links, Some(&U { ty: cx.choose(8) as u64, ..u.clone() }.enc())),
    };
    let further = cx.flag();
    let mut cache = None;
    let mut file_cache = None;
    cx.log(|| format!("operation {at}, fault {fault}, {further}: {}", hex(&b)));
    match at {
        0 => {
            use unixfs_v1::file::visit::IdleFileVisit;
            let root = block(&[L::new(&fake_cid(0, 9), "", 1)], &U { blocksizes: vec![3], filesize: Some(3), ..U::ty(FILE) });
            let r = if further {
                match IdleFileVisit::default().start(&root) {
                    Ok((_, _, _, Some(v))) => v.continue_walk(&b, &mut file_cache).map(|_| ()),
                    o => return fail("causes: start", format!("{:?}", o.map(|_| ()))),
                }
            } else {
                IdleFileVisit::default().start(&b).map(|_| ())
            };
            let Err(e) = r else { return Ok(()) };
            cx.step(&visit_err(&e));
            match &e {
                FileReadFailed::Read(Some(p)) => ensure!(source(&e) == Some(p.to_string()), "causes: visit", "the source of {e:?} is {:?}", source(&e)),
                FileReadFailed::InvalidCid(c) => {
                    cid_source(c)?;
                    ensure!(source(&e) == Some(c.to_string()), "causes: visit", "the source of {e:?} is {:?}", source(&e));
                }
                _ => {}
            }
        }
        3 => {
            let root = Blk::shard(vec![L::new(&fake_cid(0, 1), "0A", 1)]).enc();
            let l = match unixfs_v1::resolve(&root, "me", &mut cache) {
                Ok(unixfs_v1::dir::MaybeResolved::NeedToLoadMore(l)) => l,
                o => return fail("causes: start", format!("{o:?}")),
            };
            let l = if further { l.with_owned_needle() } else { l };
            let Err(e) = l.continue_walk(&b, &mut cache) else { return Ok(()) };
            cx.step(&lookup_err(&e));
            lookup_source(e)?;
        }
        _ => {
            let r = unixfs_v1::resolve(&b, "me", &mut cache).map(|_| ());
            let Err(e) = r else { return Ok(()) };
            cx.step(&resolve_err(&e));
            match e {
                ResolveError::Read(ref p) => ensure!(source(&e) == Some(p.to_string()), "causes: resolution", "the source of {e:?} is {:?}", source(&e)),
                ResolveError::Lookup(l) => lookup_source(l)?,
                _ => {}
            }
        }
    }
    Ok(())
}

pub fn c25(tier: Tier) -> Vec<Scenario> {
    let n = tier.of(4, 6);
    let v = tier.of(6, 7);
    let s = tier.of(5, 6);
    vec![
        scenario(
            "causes",
            "visits, resolutions, lookups, from the start or continued, which fail at a block cut anywhere, with an inner message cut anywhere, any byte added, a broken link or another type: the cause of the error, and of a lookup's turned into a resolution's",
            causes,
        ),
        scenario(
            "walks",
            format!("every tree of up to {n} entries; any one block of it is missing, empty, broken, of an undefined, unsupported or unexpected type, an unsupported directory or shard, or has one or two of its links broken in 9 ways"),
            move |cx| {
                let mut g = G::new();
                let t = gen_ent(cx, &mut g, &mut { n }, 4, false, 3);
                faulty_walk(cx, &t, "x", &bad_hashes(), true)
            },
        ),
        scenario(
            "visits",
            format!("every file tree of up to {v} blocks with leaves of 0 or 2 bytes, whole or with every range; any one block faulty or with one or two broken links among those to follow"),
            move |cx| {
                let t = plain_tree(cx, v, 4, 4, &[2, 0], LeafOpt::default());
                let size = t.size();
                let range = if cx.flag() {
                    let a = cx.choose(size as usize + 1);
                    let b = a + cx.choose(size as usize + 1 - a);
                    Some(a as u64..b as u64)
                } else {
                    None
                };
                faulty_visit(cx, &t, range, &bad_hashes()[..tier.of(4, 9)], true)
            },
        ),
        scenario(
            "files in walks",
            format!("every file tree of up to {v} blocks walked between two other files of a directory; any one block faulty"),
            move |cx| {
                let g = &mut G::new();
                let f = gen_walk_file(cx, g, v, &[1, 0]);
                let a = g.multi(2);
                let z = g.file(1);
                let t = g.dir(vec![("a".into(), a), ("f".into(), f), ("z".into(), z)]);
                faulty_walk(cx, &t, "", &bad_hashes()[..3], true)
            },
        ),
        scenario(
            "lookups",
            format!("every tree of shards of up to {s} links; any one of its buckets faulty or with a broken link; the name in it or not"),
            move |cx| {
                let mut sh = Shards::new();
                let mut budget = s;
                let mut root = gen_shard(cx, &mut sh, &mut budget, 3, 3, 3);
                let which = cx.choose(sh.blocks.len() + 1);
                let done = match which {
                    0 => damage(cx, &mut root),
                    k => {
                        let b = sh.blocks.values_mut().nth(k - 1).unwrap();
                        damage(cx, b)
                    }
                };
                if !done {
                    return Ok(());
                }
                let needle = *cx.pick(&["a", "zz"]);
                lookup(cx, &sh.blocks, &root, needle, 0, false).map(|_| ())
            },
        ),
        scenario(
            "hashes",
            "every proper prefix of CIDs of 6 kinds as the hash of any one of the links of a directory, shard, bucket, file or file part in a walk, a file visit, a lookup or a resolution".to_string(),
            move |cx| {
                let cuts = cut_cids();
                let g = &mut G::new();
                let a = g.file(1);
                let m = g.multi(2);
                let b = g.sym();
                match cx.choose(6) {
                    0 => {
                        let t = g.dir(vec![("a".into(), a), ("m".into(), m), ("b".into(), b)]);
                        faulty_walk(cx, &t, "r", &cuts, false)
                    }
                    1 => {
                        let k = g.shard(vec![("07b".into(), b), ("08m".into(), m)]);
                        let t = g.shard(vec![("a0a".into(), a), ("FF".into(), k)]);
                        faulty_walk(cx, &t, "", &cuts, false)
                    }
                    2 => {
                        let t = balanced(4, 2, &mut g.ids, 2, 1);
                        faulty_walk(cx, &t, "", &cuts, false)
                    }
                    3 => {
                        let t = balanced(4, 2, &mut g.ids, 2, 1);
                        let range = if cx.flag() { Some(1..7) } else { None };
                        faulty_visit(cx, &t, range, &cuts, false)
                    }
                    k => {
                        let i = cx.choose(3);
                        let sharded = k == 4;
                        let p = if sharded { "00" } else { "" };
                        let mut links = vec![
                            L::new(&fake_cid(0, 1), &format!("{p}x"), 1),
                            L::new(&fake_cid(1, 2), &format!("{p}a"), 1),
                            L::new(&fake_cid(2, 3), if sharded { "42" } else { "b" }, 1),
                        ];
                        links[i].hash = cx.pick(&cuts).clone();
                        let blk = if sharded { Blk::shard(links) } else { Blk { links, dat: Dat::Unixfs(U::ty(DIR)) } };
                        let needle = *cx.pick(&["a", "x", "b", "zz"]);
                        let mut blocks = BTreeMap::new();
                        blocks.insert(fake_cid(2, 3), Blk::shard(vec![]));
                        lookup(cx, &blocks, &blk, needle, 0, false).map(|_| ())
                    }
                }
            },
        ),
        scenario(
            "names",
            "broken links with no name, an empty name or names of various lengths, in directories, shards and files".to_string(),
            move |cx| {
                let names: [Option<String>; 9] = [
                    None,
                    Some("".into()),
                    Some("a".into()),
                    Some("ab".into()),
                    Some("00a".into()),
                    Some("..".into()),
                    Some("\u{e9}\u{65e5}\u{1f600}".into()),
                    Some("n".repeat(127)),
                    Some("n".repeat(300)),
                ];
                let name = cx.pick(&names).clone();
                let at = cx.choose(3);
                let hash = cx.pick(&bad_hashes()).clone();
                let bad = L { hash, name: name.as_ref().map(|n| n.as_bytes().to_vec()), tsize: None };
                let kind = cx.choose(4);
                let u = match kind {
                    0 => U::ty(DIR),
                    1 => U::shard(),
                    _ => U { blocksizes: vec![1, 1, 1], filesize: Some(3), ..U::ty(FILE) },
                };
                let mut links: Vec<L> = (0..2).map(|i| L::new(&fake_cid(i, i as u32), if kind < 2 { ["01x", "02y"][i] } else { "" }, 1)).collect();
                links.insert(at, bad.clone());
                let b = block(&links, &u);
                let mut want = vec![cid_want(at, &bad)];
                let (got, what) = if kind == 3 {
                    let r = unixfs_v1::file::visit::IdleFileVisit::default().start(&b).map(|_| ());
                    (r.map_err(|e| visit_err(&e)), "visit")
                } else {
                    // the name may be what is complained about
                    want.push(format!("InvalidLinkName #{at} {:?}", name.unwrap_or_default()));
                    let mut w = walk::Walker::new(to_cid(&fake_cid(0, 9)), "r".into());
                    let r = w.next(&b, &mut None).map(|_| ());
                    (r.map_err(|e| full_walk_err(&e)), "walk")
                };
                let got = got.err().unwrap_or_else(|| "no error".into());
                check(cx, &b, &got, &want, what)
            },
        ),
        scenario(
            "far away",
            format!("any one link or block of files of up to {} leaves in wide, balanced, chained and skewed trees, and of directories and shards of up to 300 entries", tier.of(60, 200)),
            move |cx| {
                let g = &mut G::new();
                let most = tier.of(60, 200);
                let some = &bad_hashes()[..2];
                match cx.choose(7) {
                    0 => {
                        let t = wide(most, &mut g.ids, 1);
                        faulty_visit(cx, &t, None, some, true)
                    }
                    1 => {
                        let t = balanced(most, 3, &mut g.ids, 1, 1);
                        faulty_visit(cx, &t, None, some, true)
                    }
                    2 => {
                        let t = chain(most / 2, &mut g.ids, (1, 1));
                        faulty_walk(cx, &t, "c", some, true)
                    }
                    3 => {
                        let first = cx.flag();
                        let t = skewed(most / 2, &mut g.ids, first, 1);
                        faulty_walk(cx, &t, "c", some, true)
                    }
                    k @ (4 | 5) => {
                        // one long list
                        let p = if k == 5 { "00" } else { "" };
                        let i = cx.choose(300);
                        let links: Vec<L> = (0..300)
                            .map(|j| {
                                let mut l = L::new(&fake_cid(j % CID_VARIANTS, j as u32), &format!("{p}n{j}"), 1);
                                if j == i {
                                    l.hash = None;
                                }
                                l
                            })
                            .collect();
                        let b = block(&links, &if k == 5 { U::shard() } else { U::ty(DIR) });
                        let mut w = walk::Walker::new(to_cid(&fake_cid(0, 9)), "r".into());
                        let r = w.next(&b, &mut None).map(|_| ());
                        let got = r.map_err(|e| full_walk_err(&e)).err().unwrap_or_else(|| "no error".into());
                        check(cx, &b, &got, &[cid_want(i, &links[i])], "walk")
                    }
                    _ => {
                        // nested directories and shards
                        let depth = 1 + cx.choose(tier.of(10, 30));
                        let mut t = g.file(1);
                        for i in 0..depth {
                            let f = g.file(1);
                            let s = g.sym();
                            t = if i % 2 == 0 {
                                g.dir(vec![("f".into(), f), ("t".into(), t), ("s".into(), s)])
                            } else {
                                let k = g.shard(vec![("01t".into(), t)]);
                                g.shard(vec![("00f".into(), f), ("01".into(), k), ("02s".into(), s)])
                            };
                        }
                        faulty_walk(cx, &t, "x", some, true)
                    }
                }
            },
        ),
        scenario(
            "beyond 16 bits",
            "lists of 70000 links with one broken link at 9 places around 0, 2^8, 2^15, 2^16 and the end, in a directory, shard, bucket and file of a walk, a file visit, a resolution, a lookup and a bucket of one",
            |cx| {
                let i = *cx.pick(&[0usize, 255, 256, 32767, 32768, 65535, 65536, 65537, 69999]);
                let kind = cx.choose(8);
                let sharded = matches!(kind, 1 | 2 | 6 | 7);
                let mut links: Vec<L> = (0..70000u32)
                    .map(|j| {
                        let name = match kind {
                            0 => format!("n{j}"),
                            1 | 2 => format!("00n{j}"),
                            6 | 7 => "0A".to_string(),
                            _ => String::new(),
                        };
                        L::new(&fake_cid(0, j), &name, 1)
                    })
                    .collect();
                links[i].hash = Some(vec![7; 5]);
                if kind == 5 {
                    links[i].name = Some(b"me".to_vec());
                }
                let u = match kind {
                    0 | 5 => U::ty(DIR),
                    _ if sharded => U::shard(),
                    _ => U { blocksizes: vec![1; 70000], filesize: Some(70000), ..U::ty(FILE) },
                };
                let b = block(&links, &u);
                let want = [cid_want(i, &links[i])];
                let mut cache = None;
                let got = match kind {
                    4 => unixfs_v1::file::visit::IdleFileVisit::default().start(&b).map(|_| ()).map_err(|e| visit_err(&e)),
                    5 | 6 => unixfs_v1::resolve(&b, "me", &mut cache).map(|_| ()).map_err(|e| resolve_err(&e)),
                    7 => {
                        let root = Blk::shard(vec![L::new(&fake_cid(0, 1), "0A", 1)]).enc();
                        match unixfs_v1::resolve(&root, "me", &mut cache) {
                            Ok(unixfs_v1::dir::MaybeResolved::NeedToLoadMore(l)) => l.continue_walk(&b, &mut cache).map(|_| ()).map_err(|e| lookup_err(&e)),
                            o => return fail("lookup: start", format!("{o:?}")),
                        }
                    }
                    2 => {
                        let mut w = walk::Walker::new(to_cid(&fake_cid(0, 9)), "r".into());
                        let root = Blk::shard(vec![L::new(&fake_cid(0, 1), "0A", 1)]).enc();
                        if let Err(e) = w.next(&root, &mut None) {
                            return fail("walk: start", format!("{e:?}"));
                        }
                        w.next(&b, &mut None).map(|_| ()).map_err(|e| full_walk_err(&e))
                    }
                    _ => walk::Walker::new(to_cid(&fake_cid(0, 9)), "r".into()).next(&b, &mut None).map(|_| ()).map_err(|e| full_walk_err(&e)),
                };
                let got = got.err().unwrap_or_else(|| "no error".into());
                check(cx, &b, &got, &want, "many")
            },
        ),
    ]
}
