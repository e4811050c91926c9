//! C24: importing, building, walking and resolving together.
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};

use unixfs_v1::dir::builder::{BufferingTreeBuilder, TreeOptions};
use unixfs_v1::file::adder::{BalancedCollector, Chunker, FileAdder};
use unixfs_v1::symlink::serialize_symlink_block;
use unixfs_v1::walk::Walker;
use unixfs_v1::{resolve, MaybeResolved, Metadata};

use super::codec::{parse_node, P};
use crate::enc::*;
use crate::ensure;
use crate::explore::*;
use crate::model::{hex, seen, to_cid, Ev};
use crate::Tier;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum K {
    /// content, chunk size, branching factor
    File(Vec<u8>, usize, usize),
    Sym(String),
    /// registered explicitly
    Dir,
}

type Store = HashMap<Vec<u8>, Vec<u8>>;

/// What a path leads to.
#[derive(Clone, Debug)]
enum E {
    File(Vec<u8>, Vec<u8>),
    Sym(Vec<u8>, String),
    Dir(BTreeMap<String, E>),
}

fn put(store: &mut Store, cid: Vec<u8>, b: Vec<u8>) -> R {
    ensure!(cid == cid1(&b), "store: cid", "a block is emitted with CID {} instead of {}", hex(&cid), hex(&cid1(&b)));
    store.insert(cid, b);
    Ok(())
}

/// Adds the blocks of an entry to the store, gives its CID and the bytes of all its blocks.
fn ingest(cx: &mut Cx, store: &mut Store, k: &K) -> R<Option<(Vec<u8>, u64)>> {
    Ok(match k {
        K::File(content, chunk, bf) => {
            let mut a = FileAdder::builder()
                .with_chunker(Chunker::Size(*chunk))
                .with_collector(BalancedCollector::with_branching_factor(*bf))
                .build();
            let mut at = 0;
            let mut total = 0u64;
            let mut last = vec![];
            let mut blocks = vec![];
            while at < content.len() {
                let (it, n) = a.push(&content[at..]);
                blocks.extend(it.map(|(c, b)| (c.to_bytes(), b)));
                ensure!(n > 0, "import: no progress", "a push consumes nothing");
                at += n;
            }
            blocks.extend(a.finish().map(|(c, b)| (c.to_bytes(), b)));
            cx.step(&blocks.len());
            for (c, b) in blocks {
                total += b.len() as u64;
                last = c.clone();
                put(store, c, b)?;
            }
            Some((last, total))
        }
        K::Sym(t) => {
            let mut b = vec![];
            serialize_symlink_block(t, &mut b);
            cx.step(&b);
            let cid = cid1(&b);
            let n = b.len() as u64;
            put(store, cid.clone(), b)?;
            Some((cid, n))
        }
        K::Dir => None,
    })
}

/// Whether `path` can be added as `k`.
fn insert(root: &mut BTreeMap<String, E>, path: &str, e: Option<E>) -> bool {
    let segs: Vec<&str> = path.split('/').collect();
    let mut d = root;
    for s in &segs[..segs.len() - 1] {
        if matches!(d.get(*s), Some(E::File(..) | E::Sym(..))) {
            return false;
        }
        d = match d.entry(s.to_string()).or_insert_with(|| E::Dir(BTreeMap::new())) {
            E::Dir(n) => n,
            _ => unreachable!(),
        };
    }
    let last = segs[segs.len() - 1];
    match (d.get(last), e) {
        (None, Some(e)) => {
            d.insert(last.to_string(), e);
            true
        }
        (None, None) => {
            d.insert(last.to_string(), E::Dir(BTreeMap::new()));
            true
        }
        (Some(E::Dir(_)), None) => true,
        _ => false,
    }
}

/// The bytes of a block and all below it, each as often as it is linked; checks the links' sizes.
fn cumulative(store: &Store, cid: &[u8]) -> R<u64> {
    let Some(b) = store.get(cid) else { return fail("tree: missing block", format!("block {} is linked but was never emitted", hex(cid))) };
    let P::Ok(n) = parse_node(b) else { return fail("tree: bad block", format!("block {} is not a dag-pb node", hex(b))) };
    let mut sum = b.len() as u64;
    for l in n.links {
        let below = cumulative(store, l.hash.as_deref().unwrap_or_default())?;
        ensure!(l.tsize == Some(below), "tree: link size", "the link {l:?} of {} has another size than the {below} bytes below it", hex(b));
        sum += below;
    }
    Ok(sum)
}

fn flatten(e: &E, path: PathBuf, out: &mut Vec<(Ev, PathBuf, Vec<u8>)>, top: bool) {
    match e {
        E::File(_, c) => out.push((Ev::File, path, c.clone())),
        E::Sym(_, t) => out.push((Ev::Sym, path, t.as_bytes().to_vec())),
        E::Dir(d) => {
            out.push((if top { Ev::RootDir } else { Ev::Dir }, path.clone(), vec![]));
            for (n, k) in d {
                flatten(k, path.join(n), out, false);
            }
        }
    }
}

struct Case {
    entries: Vec<(String, K)>,
    wrap: bool,
    name: &'static str,
    /// names to look for besides the registered ones
    absent: Vec<String>,
}

fn run(cx: &mut Cx, c: Case) -> R {
    let mut store = Store::new();
    let mut root: BTreeMap<String, E> = BTreeMap::new();
    let mut b = BufferingTreeBuilder::new({
        let mut o = TreeOptions::default();
        if c.wrap {
            o.wrap_with_directory();
        }
        o
    });
    for (path, k) in &c.entries {
        let got = ingest(cx, &mut store, k)?;
        let e = match (k, &got) {
            (K::File(content, ..), Some((cid, _))) => Some(E::File(cid.clone(), content.clone())),
            (K::Sym(t), Some((cid, _))) => Some(E::Sym(cid.clone(), t.clone())),
            _ => None,
        };
        let mut copy = root.clone();
        let ok = insert(&mut copy, path, e) && (c.wrap || copy.len() <= 1);
        let res = match &got {
            Some((cid, total)) => b.put_link(path, to_cid(cid), *total),
            None => b.set_metadata(path, Metadata::default()),
        };
        cx.log(|| format!("register {path:?} {k:?} as {got:?} -> {res:?}"));
        ensure!(res.is_ok() == ok, "build: registration", "registering {path:?} gives {res:?}");
        if ok {
            root = copy;
        }
    }
    if root.is_empty() && !c.wrap {
        ensure!(b.build().next_borrowed().is_none(), "build: empty", "an empty unwrapped tree has a directory");
        return Ok(());
    }
    let mut it = b.build();
    let mut last = None;
    let mut built: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    while let Some(n) = it.next_borrowed() {
        match n {
            Ok(n) => {
                let cid = n.cid.to_bytes();
                cx.step(&cid);
                cx.log(|| format!("built {:?} as {} {}", n.path, hex(&cid), hex(n.block)));
                put(&mut store, cid.clone(), n.block.to_vec())?;
                let below = cumulative(&store, &cid)?;
                ensure!(n.total_size == below, "tree: total size", "{:?} has total size {} instead of {below}", n.path, n.total_size);
                built.insert(n.path.to_string(), cid.clone());
                last = Some(cid);
            }
            Err(e) => return fail("build: fails", format!("{e:?}")),
        }
    }
    let top = if c.wrap { E::Dir(root) } else { root.into_values().next().unwrap() };
    let top_cid = match &top {
        E::Dir(_) => match last {
            Some(c) => c,
            None => return fail("build: no directory", "nothing was built"),
        },
        E::File(c, _) | E::Sym(c, _) => {
            ensure!(last.is_none(), "build: directories", "a single file has directories");
            c.clone()
        }
    };
    cumulative(&store, &top_cid)?;

    // walk
    let mut want = vec![];
    flatten(&top, PathBuf::from(c.name), &mut want, true);
    let mut got: Vec<(Ev, PathBuf, Vec<u8>)> = vec![];
    let mut walker = Walker::new(to_cid(&top_cid), c.name.to_string());
    let mut cache = None;
    let mut open = false;
    while walker.should_continue() {
        let cid = walker.pending_links().0.to_bytes();
        let Some(block) = store.get(&cid) else { return fail("walk: unknown block", format!("the walk asks for {} which was never emitted", hex(&cid))) };
        let s = match walker.next(block, &mut cache) {
            Ok(w) => seen(&w),
            Err(e) => return fail("walk: fails", format!("{e:?} at {}", hex(&cid))),
        };
        cx.step(&s);
        cx.log(|| format!("walk {:?} {:?} {}", s.kind, s.path, hex(&s.bytes)));
        ensure!(s.meta == Some((None, None)), "walk: metadata", "{:?} has metadata {:?}", s.path, s.meta);
        if open {
            let l = got.last_mut().unwrap();
            ensure!(s.kind == Ev::File && s.path == l.1 && !s.first, "walk: interrupted file", "{s:?} comes before the end of {:?}", l.1);
            l.2.extend(&s.bytes);
        } else {
            ensure!(s.kind != Ev::File || s.first, "walk: file start", "{s:?} does not start with the first segment");
            got.push((s.kind.clone(), s.path.clone(), s.bytes.clone()));
        }
        open = s.kind == Ev::File && !s.last;
        if s.kind == Ev::File && s.last {
            ensure!(s.size == got.last().unwrap().2.len() as u64, "walk: size", "{s:?} reports another size than {}", got.last().unwrap().2.len());
        }
    }
    ensure!(!open, "walk: file end", "the walk ends within {:?}", got.last());
    if got != want {
        let n = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return fail("walk: entries", format!("walking reports as entry {n} {:?} instead of {:?} ({} entries instead of {})", got.get(n), want.get(n), got.len(), want.len()));
    }

    // resolve, going down from the top
    let mut cache = None;
    let mut todo: Vec<(&E, Vec<u8>, String)> = vec![(&top, top_cid, String::new())];
    while let Some((e, cid, path)) = todo.pop() {
        match e {
            E::File(c, _) | E::Sym(c, _) => ensure!(*c == cid, "resolve: cid", "{path:?} resolves to {} instead of {}", hex(&cid), hex(c)),
            E::Dir(d) => {
                let block = match store.get(&cid) {
                    Some(b) => b,
                    None => return fail("resolve: cid", format!("{path:?} resolves to {} which was never emitted", hex(&cid))),
                };
                for (n, k) in d {
                    match resolve(block, n, &mut cache) {
                        Ok(MaybeResolved::Found(c)) => {
                            cx.step(&c.to_bytes());
                            todo.push((k, c.to_bytes(), if path.is_empty() { n.clone() } else { format!("{path}/{n}") }));
                        }
                        other => return fail("resolve: registered", format!("{n:?} in {path:?} gives {other:?}")),
                    }
                }
                for n in c.absent.iter().filter(|n| !d.contains_key(*n)) {
                    match resolve(block, n, &mut cache) {
                        Ok(MaybeResolved::NotFound) => cx.step(&0u8),
                        other => return fail("resolve: not registered", format!("{n:?} in {path:?} gives {other:?}")),
                    }
                }
                if c.wrap {
                    ensure!(built.get(&path) == Some(&cid), "resolve: directory", "{path:?} resolves to {} but was built as {:?}", hex(&cid), built.get(&path).map(|c| hex(c)));
                }
            }
        }
    }
    Ok(())
}

fn bytes(n: usize, salt: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(37) ^ salt).collect()
}

fn kinds() -> Vec<K> {
    vec![
        K::File(vec![], 4, 2),
        K::File(b"x".to_vec(), 4, 2),
        K::File(bytes(7, 1), 2, 2),
        K::File(vec![b'z'; 9], 1, 3),
        K::Sym("../t".into()),
        K::Dir,
    ]
}

pub fn c24(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    let absent = |more: &[&str]| -> Vec<String> { ["", "a", "b", "c", "A", "aa", "a/b", "zz", "."].iter().chain(more).map(|s| s.to_string()).collect() };
    {
        let n = tier.of(3, 4);
        let paths = ["a", "b", "a/a", "a/b", "b/a", "a/a/a", "a/a/b", "a/b/c", "b/c/a", "c/a/b/a", "aa", "a.b/c d"];
        v.push(scenario(
            "hierarchies",
            format!("every set of 1..={n} of {} paths of depth 1..=4 x {} kinds of entries (empty, one block, three level and deduplicated files, symlinks, directories), registered in order or reversed, wrapped or not; conflicting registrations refused", paths.len(), kinds().len()),
            move |cx| {
                let wrap = !cx.flag();
                let n = cx.choose(n) + 1;
                let mut entries = vec![];
                let mut from = 0;
                let ks = kinds();
                for i in 0..n {
                    let left = n - i - 1;
                    let p = from + cx.choose(paths.len() - from - left);
                    from = p + 1;
                    entries.push((paths[p].to_string(), cx.pick(&ks).clone()));
                }
                if n > 1 && cx.flag() {
                    entries.reverse();
                }
                run(cx, Case { entries, wrap, name: if wrap { "" } else { "top" }, absent: absent(&[]) })
            },
        ));
    }
    {
        let len = tier.of(40usize, 150);
        v.push(scenario(
            "files",
            format!("a file of every length 0..={len}, chunk sizes 1..=3, branching factors 2..=5, at the first, middle or last place of a directory, equal or different bytes, beside a second file of the same or another content"),
            move |cx| {
                let bf = cx.choose(4) + 2;
                let chunk = cx.choose(3) + 1;
                let n = cx.choose(len + 1);
                let c = if cx.flag() { vec![b'q'; n] } else { bytes(n, 9) };
                let k = K::File(c, chunk, bf);
                let place = *cx.pick(&["d/0", "d/m", "d/z", "d", "e/e/e"]);
                let second = if cx.flag() { k.clone() } else { K::File(bytes(5, 3), 2, 2) };
                let entries = vec![("d/a".to_string(), K::Sym("to".into())), (place.to_string(), k), ("d/y".to_string(), second), ("f/x".to_string(), K::File(vec![], 1, 2))];
                let entries = if place == "d" { entries.into_iter().skip(1).collect() } else { entries };
                run(cx, Case { entries, wrap: true, name: "", absent: absent(&["d", "m"]) })
            },
        ));
    }
    {
        let names: Vec<String> = [
            "a", "A", "...", "..a", "a.", " ", " a", "a ", "é", "e\u{301}", "\u{0}", "\n", "\\", "-", "00", "00a", "FF", "~", "\u{10ffff}", "a\u{0}", "*", "C:", "%2e", "日本",
        ]
        .iter()
        .map(|s| s.to_string())
        .chain([127, 128, 255, 16384].map(|n| "n".repeat(n)))
        .collect();
        assert!(names.iter().all(|n| Path::new(n).components().count() == 1));
        v.push(scenario(
            "names",
            format!("every pair (also equal ones) of {} plain names, side by side or one in the other, file, symlink or directory, wrapped or not", names.len()),
            move |cx| {
                let wrap = cx.flag();
                let a = cx.pick(&names).clone();
                let b = cx.pick(&names).clone();
                let nest = cx.choose(3);
                let ks = [K::File(bytes(3, 2), 2, 2), K::Sym(b.clone()), K::Dir];
                let k = cx.pick(&ks).clone();
                let entries = match nest {
                    0 => vec![(a.clone(), k), (b.clone(), K::File(vec![1], 1, 2))],
                    1 => vec![(format!("{a}/{b}"), k), (a.clone(), K::Dir)],
                    _ => vec![(format!("x/{a}"), K::Sym(a.clone())), (format!("x/{b}/{a}"), k)],
                };
                run(cx, Case { entries, wrap, name: "r", absent: names.clone() })
            },
        ));
    }
    {
        let ts: Vec<String> = ["", "/", "a", "../../x", "ä", "\u{0}\n", "a//b/", "."].iter().map(|s| s.to_string()).chain([127, 128, 16384].map(|n| "t".repeat(n))).collect();
        v.push(scenario("symlinks", format!("{0} x {0} symlink targets at two places of a tree", ts.len()), move |cx| {
            let a = cx.pick(&ts).clone();
            let b = cx.pick(&ts).clone();
            let at = *cx.pick(&["l", "d/l", "d/d/l"]);
            let wrap = at == "l" || cx.flag();
            let entries = vec![(at.to_string(), K::Sym(a)), (format!("{}m", at), K::Sym(b)), ("d/f".into(), K::File(vec![2], 1, 2))];
            run(cx, Case { entries, wrap, name: "x/y", absent: absent(&["l"]) })
        }));
    }
    v.push(scenario(
        "confusable names",
        format!("every pair of {} names differing in case, form of a letter, width or invisible characters, as files, symlinks and directories side by side or below one another", CONFUSABLE.len()),
        |cx| {
            let i = cx.choose(CONFUSABLE.len());
            let j = (i + 1 + cx.choose(CONFUSABLE.len() - 1)) % CONFUSABLE.len();
            let (a, b) = (CONFUSABLE[i], CONFUSABLE[j]);
            let ks = [K::File(bytes(3, 2), 2, 2), K::Sym(b.to_string()), K::Dir];
            let k = cx.pick(&ks).clone();
            let entries = match cx.choose(3) {
                0 => vec![(a.to_string(), k), (b.to_string(), K::File(vec![1], 1, 2))],
                1 => vec![(format!("{a}/x"), k), (format!("{b}/x"), K::File(vec![1], 1, 2))],
                _ => vec![(format!("d/{a}"), K::Sym(b.to_string())), (format!("d/{b}/{a}"), k)],
            };
            run(cx, Case { entries, wrap: true, name: "r", absent: CONFUSABLE.iter().map(|s| s.to_string()).collect() })
        },
    ));
    {
        let all = odd_contents();
        v.push(scenario(
            "contents",
            format!("files of {} contents ({ODD_CONTENTS}) in chunks of 1, 3 and all of its bytes, and symlinks to it, beside another file", all.len()),
            move |cx| {
                let c = cx.pick(&all);
                let k = match cx.choose(4) {
                    3 => match std::str::from_utf8(c) {
                        Ok(t) => K::Sym(t.to_string()),
                        Err(_) => return Ok(()),
                    },
                    i => K::File(c.clone(), [1, 3, c.len()][i], 2),
                };
                let entries = vec![("d/f".to_string(), k), ("d/g".to_string(), K::File(vec![1], 1, 2))];
                run(cx, Case { entries, wrap: true, name: "r", absent: vec!["a".into()] })
            },
        ));
    }
    {
        let (wide, deep) = tier.of((300usize, 60usize), (1500, 300));
        v.push(scenario("wide and deep", format!("directories of every number 0..={wide} of entries; chains of every depth 1..={deep}; every order of names ascending or descending"), move |cx| {
            let ks = kinds();
            let wrap = cx.flag();
            if cx.flag() {
                let n = cx.choose(wide + 1);
                let mut entries: Vec<(String, K)> = (0..n).map(|i| (format!("d/{i}"), ks[i % ks.len()].clone())).collect();
                if cx.flag() {
                    entries.reverse();
                }
                run(cx, Case { entries, wrap, name: "", absent: absent(&["d", "x1"]) })
            } else {
                let n = cx.choose(deep) + 1;
                let entries = vec![(vec!["p"; n].join("/"), cx.pick(&ks).clone())];
                run(cx, Case { entries, wrap, name: "n", absent: absent(&["p", "pp"]) })
            }
        }));
    }
    v
}
