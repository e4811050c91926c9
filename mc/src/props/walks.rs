//! C09..C12, C20: walking trees.
use super::files::{balanced, chain, huge, skewed, walk_err, WIDE_META};
use crate::enc::*;
use crate::ensure;
use crate::explore::*;
use crate::model::*;
use crate::Tier;
use std::path::PathBuf;
use std::rc::Rc;
use unixfs_v1::walk::Walker;
use unixfs_v1::{FlatUnixFs, Metadata};

type M = (Option<u32>, Option<(i64, Option<u32>)>);

/// Distinct metadata for consecutive nodes, every third without any.
pub struct Metas(u32);

impl Metas {
    pub fn new() -> Metas {
        Metas(0)
    }
    fn next(&mut self) -> M {
        self.0 += 1;
        let n = self.0;
        match n % 4 {
            0 => (None, None),
            1 => (Some(n), Some((n as i64, Some(n)))),
            2 => (None, Some((-(n as i64), None))),
            _ => (Some(n), None),
        }
    }
}

fn lo(m: M) -> LeafOpt {
    LeafOpt { mode: m.0, mtime: m.1, ..LeafOpt::default() }
}

pub struct G {
    pub ids: Ids,
    pub metas: Metas,
    pub bytes: u32,
}

impl G {
    pub fn new() -> G {
        G { ids: Ids::new(), metas: Metas::new(), bytes: 0 }
    }
    fn data(&mut self, n: usize) -> Vec<u8> {
        (0..n)
            .map(|_| {
                self.bytes += 1;
                self.bytes as u8
            })
            .collect()
    }
    pub fn file(&mut self, n: usize) -> Rc<N> {
        let d = self.data(n);
        let m = self.metas.next();
        leaf(self.ids.cid(), &d, &lo(m))
    }
    pub fn part(&mut self, n: usize) -> Rc<N> {
        let d = self.data(n);
        leaf(self.ids.cid(), &d, &LeafOpt::default())
    }
    /// a file of a root and `n` leaves
    pub fn multi(&mut self, n: usize) -> Rc<N> {
        let kids = (0..n).map(|_| self.part(1)).collect();
        let m = self.metas.next();
        inner(self.ids.cid(), kids, &lo(m))
    }
    pub fn deep_file(&mut self) -> Rc<N> {
        let a = self.part(1);
        let b = self.part(0);
        let c = self.part(2);
        let l = inner(self.ids.cid(), vec![a, b], &LeafOpt::default());
        let m = self.metas.next();
        inner(self.ids.cid(), vec![l, c], &lo(m))
    }
    pub fn sym(&mut self) -> Rc<N> {
        let d = self.data(1);
        let m = self.metas.next();
        sym(self.ids.cid(), &d, m.0, m.1)
    }
    pub fn dir(&mut self, kids: Vec<(String, Rc<N>)>) -> Rc<N> {
        let m = self.metas.next();
        dir(self.ids.cid(), kids, m.0, m.1)
    }
    pub fn shard(&mut self, kids: Vec<(String, Rc<N>)>) -> Rc<N> {
        let m = self.metas.next();
        shard(self.ids.cid(), kids, m.0, m.1)
    }
}

fn name_of(i: usize) -> String {
    // neither sorted nor of one length
    ["f", "a", "cc", "b", "a.b", "e", "dd"][i % 7].to_string() + &if i >= 7 { i.to_string() } else { String::new() }
}

/// Every tree of up to `budget` entries (a multi block file counts once).
pub fn gen_ent(cx: &mut Cx, g: &mut G, budget: &mut usize, depth: usize, bucket: bool, max_kids: usize) -> Rc<N> {
    *budget -= 1;
    // kinds: file, symlink, empty file, multi block file, directory, shard
    let kind = if bucket {
        5
    } else if depth == 0 {
        cx.choose(4)
    } else {
        cx.choose(6)
    };
    match kind {
        0 => return g.file(1),
        1 => return g.sym(),
        2 => return g.file(0),
        3 => return g.multi(2),
        _ => {}
    }
    let most = if depth == 0 { 0 } else { max_kids.min(*budget) };
    let n = cx.choose(most + 1);
    *budget -= n;
    let mut kids = vec![];
    for i in 0..n {
        *budget += 1;
        if kind == 5 {
            let b = cx.flag();
            let k = gen_ent(cx, g, budget, depth - 1, b, max_kids);
            kids.push((if b { format!("{i:02X}") } else { format!("{i:02X}{}", name_of(i)) }, k));
        } else {
            let k = gen_ent(cx, g, budget, depth - 1, false, max_kids);
            kids.push((name_of(i), k));
        }
    }
    if kind == 5 {
        g.shard(kids)
    } else {
        g.dir(kids)
    }
}

const ROOT_NAMES: [&str; 34] = [
    "", "r", "foo/bar", "/", "/abs", "/abs/two", "a/b/c/d", "trailing/", "./dot", "dot/./mid", ".", "..", "../up", "a/../b", "//two", "a//b",
    "with space", "\u{65e5}\u{672c}", "...", "name.txt", "/tmp/../x/", "-", "nul\0", "\0", " ", "end ", " start", "x\n", "end.", "\u{feff}x", "x\u{200b}", "E\u{301}", "C:\\x\\", "~",
];

/// A few trees containing every kind of transition between entries.
fn fixed_tree(g: &mut G, i: usize) -> Rc<N> {
    let s = |x: &str| x.to_string();
    match i {
        0 => g.file(3),
        1 => g.sym(),
        2 => g.multi(2),
        3 => g.dir(vec![]),
        4 => g.shard(vec![]),
        5 => {
            let (a, b, c) = (g.file(1), g.deep_file(), g.sym());
            let inner = g.file(1);
            let d = g.dir(vec![(s("x"), inner)]);
            g.dir(vec![(s("b"), a), (s("a"), b), (s("d"), d), (s("c"), c)])
        }
        6 => {
            let (a, b, c) = (g.file(1), g.file(1), g.multi(3));
            let deep = g.sym();
            let b2 = g.shard(vec![(s("0Bdeep"), deep)]);
            let b1 = g.shard(vec![(s("00a"), a), (s("AA"), b2), (s("01b"), b)]);
            let sub = g.file(0);
            let plain = g.dir(vec![(s("in"), sub)]);
            g.shard(vec![(s("FFfirst"), c), (s("10"), b1), (s("11plain"), plain)])
        }
        7 => {
            let f = g.file(1);
            let b = g.shard(vec![(s("00f"), f)]);
            let sh = g.shard(vec![(s("AB"), b)]);
            let d3 = g.dir(vec![(s("sh"), sh)]);
            let d2 = g.dir(vec![(s("d3"), d3)]);
            let last = g.file(2);
            g.dir(vec![(s("d2"), d2), (s("last"), last)])
        }
        8 => {
            // a shard as an entry of a shard, followed by buckets of both
            let (f1, f2, f3) = (g.file(1), g.file(1), g.sym());
            let nb = g.shard(vec![(s("00n"), f1)]);
            let nested = g.shard(vec![(s("77"), nb)]);
            let e = g.shard(vec![]);
            let ob = g.shard(vec![(s("01m"), f2), (s("55"), e)]);
            g.shard(vec![(s("00nested"), nested), (s("88"), ob), (s("99l"), f3)])
        }
        _ => {
            // directories nested, each followed by a file higher up
            let mut k = g.dir(vec![]);
            for i in 0..4 {
                let f = g.multi(2);
                k = g.dir(vec![(format!("d{i}"), k), (format!("f{i}"), f)]);
            }
            k
        }
    }
}
const FIXED: usize = 10;

fn deep_tree(cx: &mut Cx, tier: Tier) -> Rc<N> {
    let g = &mut G::new();
    match cx.choose(4) {
        0 => {
            // depth, with a following file at every or only the last level
            let depth = 1 + cx.choose(tier.of(14, 40));
            let every = cx.flag();
            let shards = cx.flag();
            let mut k = g.file(1);
            for i in 0..depth {
                let p = if shards { "0F" } else { "" };
                let mut kids = vec![(format!("{p}d{i}"), k)];
                if every || i + 1 == depth {
                    kids.push((format!("{p}z{i}"), g.file(1)));
                }
                k = if shards { g.shard(kids) } else { g.dir(kids) };
            }
            k
        }
        1 => {
            let w = [2, 50, 127, 128, 255, 300][cx.choose(6)];
            let kinds = cx.choose(3);
            let kids = (0..w)
                .map(|i| {
                    let k = match (i + kinds) % 3 {
                        0 => g.file(1),
                        1 => g.sym(),
                        _ => g.multi(2),
                    };
                    (format!("e{i}"), k)
                })
                .collect();
            g.dir(kids)
        }
        2 => {
            // all 256 buckets with an entry each
            let w = [2, 16, 255, 256][cx.choose(4)];
            let kids = (0..w)
                .map(|i| {
                    let f = g.file(1);
                    let b = g.shard(vec![(format!("00e{i}"), f)]);
                    (format!("{i:02X}"), b)
                })
                .collect();
            g.shard(kids)
        }
        _ => {
            // chain of buckets
            let depth = 1 + cx.choose(tier.of(12, 40));
            let mut k = g.shard(vec![]);
            for i in 0..depth {
                let f = g.file(1);
                let mut kids = vec![(format!("{i:02X}"), k), (format!("{:02X}x{i}", i + 1), f)];
                if i % 2 == 1 {
                    kids.reverse();
                }
                k = g.shard(kids);
            }
            k
        }
    }
}

const NAMES: [&str; 30] = [
    "a", "", ".", "..", "a/b", "/a", "a/", "/", "./a", "../a", "a//b", "...", "..a", ".a", "a..", "a b", "\u{e9}", "\u{65e5}\u{672c}.txt", "\n", "\0", "a\0b",
    "C:\\x", "-", "~", "con", "\u{202e}x", "%2F", "\\", "*", "a.",
];

fn plain_ok(n: &str) -> bool {
    !n.is_empty() && n != "." && n != ".." && !n.contains('/')
}

/// Links with arbitrary names: either the right paths are reported or a wrong name is refused.
fn names_case(cx: &mut Cx, sharded: bool, nested: bool, names: Vec<Option<Vec<u8>>>) -> R {
    let g = &mut G::new();
    let mut bad = vec![];
    let mut kids = vec![];
    let mut links = vec![];
    let leaf_shard = |g: &mut G| g.shard(vec![]);
    for (i, n) in names.iter().enumerate() {
        let s = n.as_ref().map(|n| String::from_utf8(n.clone()).unwrap());
        let t = s.clone().unwrap_or_default();
        let (node, name, ok) = if sharded {
            if t.len() == 2 {
                (leaf_shard(g), t.clone(), true)
            } else {
                let rest = t.get(2..);
                (g.file(1), t.clone(), t.len() > 2 && rest.is_some_and(plain_ok))
            }
        } else {
            (g.file(1), t.clone(), plain_ok(&t))
        };
        if !ok {
            bad.push(format!("InvalidLinkName #{i} {t:?}"));
        }
        links.push(L { hash: Some(node.cid.clone()), name: n.clone(), tsize: Some(1) });
        kids.push((name, node));
    }
    let u = if sharded { U::shard() } else { U::ty(DIR) };
    let node = Rc::new(N {
        cid: g.ids.cid(),
        block: block(&links, &u),
        meta: (None, None),
        what: if sharded { What::Shard(kids) } else { What::Dir(kids) },
    });
    cx.log(|| format!("link names {:?}", names.iter().map(|n| n.as_ref().map(|n| String::from_utf8_lossy(n).into_owned())).collect::<Vec<_>>()));
    let root = if nested {
        let z = g.file(1);
        g.dir(vec![("sub".into(), node.clone()), ("z".into(), z)])
    } else {
        node.clone()
    };
    if bad.is_empty() {
        let seen = walk(cx, &root, "root", ALL)?;
        for s in seen {
            ensure!(s.path.starts_with("root") && !s.path.components().any(|c| c == std::path::Component::ParentDir), "walk: escape", "path {:?} leaves the root", s.path);
        }
        return Ok(());
    }
    let mut w = Walker::new(to_cid(&root.cid), "root".into());
    if nested {
        if let Err(e) = w.next(&root.block, &mut None) {
            return fail("walk: fails", format!("{e:?}"));
        }
    }
    let r = match w.next(&node.block, &mut None) {
        Ok(o) => Ok(format!("{o:?}")),
        Err(e) => Err(walk_err(&e)),
    };
    cx.step(&r);
    cx.log(|| format!("-> {r:?}"));
    match r {
        Err(e) => ensure!(bad.contains(&e), "walk: name error", "names {names:?} fail with {e}, expected one of {bad:?}"),
        Ok(o) => return fail("walk: bad name accepted", format!("names {names:?} are accepted: {o}")),
    }
    ensure!(!w.should_continue(), "walk: continues after error", "walk wants to continue after an error");
    Ok(())
}

/// Trees of more entries, levels, blocks or bytes than 16 or 32 bits can count.
const VAST: usize = 10;
const VAST_TEXT: &str = "directories of 65535, 65537 and 70000 entries, a shard of 70000 and one of 256 buckets of 300, directories nested 2000 levels, 5000 levels of buckets, files of 70000 leaves in one block and in a balanced tree and followed by another file, a file skewed over 2000 levels";

fn vast_tree(i: usize, g: &mut G) -> Rc<N> {
    let entry = |g: &mut G, i: usize| match i % 5 {
        0 => g.sym(),
        1 => g.dir(vec![]),
        2 => g.multi(1),
        _ => g.file(1),
    };
    match i {
        0..=2 => {
            let kids = (0..[65535, 65537, 70000][i]).map(|i| (format!("n{i}"), entry(g, i))).collect();
            g.dir(kids)
        }
        3 => {
            let kids = (0..70000).map(|i| (format!("{:02X}n{i}", i % 256), entry(g, i))).collect();
            g.shard(kids)
        }
        4 => {
            let kids = (0..256)
                .map(|b| {
                    let kids = (0..300).map(|i| (format!("{:02X}n{i}", i % 256), entry(g, i))).collect();
                    (format!("{b:02X}"), g.shard(kids))
                })
                .collect();
            g.shard(kids)
        }
        5 => {
            let mut k = g.dir(vec![]);
            for i in 0..2000 {
                let f = g.file(1);
                let mut kids = vec![("d".to_string(), k), ("f".to_string(), f)];
                if i % 3 == 0 {
                    kids.reverse();
                }
                k = g.dir(kids);
            }
            k
        }
        6 => {
            let mut k = g.shard(vec![]);
            for i in 0..5000 {
                let f = g.file(1);
                let mut kids = vec![("AB".to_string(), k), (format!("12f{i}"), f)];
                if i % 3 == 0 {
                    kids.reverse();
                }
                k = g.shard(kids);
            }
            k
        }
        7 => g.multi(70000),
        8 => {
            let f = balanced(70000, 174, &mut g.ids, 1, 1);
            let z = g.multi(2);
            g.dir(vec![("f".into(), f), ("z".into(), z)])
        }
        _ => {
            let f = skewed(2000, &mut g.ids, true, 1);
            let z = g.multi(2);
            g.dir(vec![("f".into(), f), ("z".into(), z)])
        }
    }
}

fn vast_walk(cx: &mut Cx, mask: u32) -> R {
    let i = cx.choose(VAST);
    let g = &mut G::new();
    let t = vast_tree(i, g);
    walk_lean(cx, &t, "top", mask)
}

pub fn c09(tier: Tier) -> Vec<Scenario> {
    let n = tier.of(6, 7);
    let mask = KIND | PATH | CID | METADATA | ORDER;
    vec![
        scenario(
            "trees",
            format!("every tree of up to {n} entries (files of 0, 1 and 2 leaves, symlinks, directories, shards with entries and buckets, up to 4 links each, 5 levels)"),
            move |cx| {
                let mut g = G::new();
                let t = gen_ent(cx, &mut g, &mut { n }, 5, false, 4);
                walk(cx, &t, "", mask).map(|_| ())
            },
        ),
        scenario(
            "root names",
            format!("{} root names with every tree of up to 4 entries and {FIXED} larger ones", ROOT_NAMES.len()),
            move |cx| {
                let name = *cx.pick(&ROOT_NAMES);
                let mut g = G::new();
                let i = cx.choose(FIXED + 1);
                let t = if i == FIXED { gen_ent(cx, &mut g, &mut 4, 4, false, 3) } else { fixed_tree(&mut g, i) };
                cx.log(|| format!("root name {name:?}"));
                walk(cx, &t, name, mask).map(|_| ())
            },
        ),
        scenario(
            "long root names",
            format!("root names of 1..=300 components, below '/' or not, of 3 lengths, and of one component of 1..=300 and 70000 bytes, with each of {FIXED} trees"),
            move |cx| {
                let name = match cx.choose(601) {
                    600 => "n".repeat(70000),
                    i if i >= 300 => "n".repeat(i - 299),
                    i => {
                        let c = *cx.pick(&["c", "component", "\u{e9}\u{65e5}"]);
                        let slash = if cx.flag() { "/" } else { "" };
                        format!("{slash}{}", vec![c; i + 1].join("/"))
                    }
                };
                let i = cx.choose(FIXED);
                let t = fixed_tree(&mut G::new(), i);
                cx.log(|| format!("root name of {} bytes {name:.40}", name.len()));
                walk(cx, &t, &name, mask).map(|_| ())
            },
        ),
        scenario(
            "confusable names",
            format!("directories and shards, top level or nested, with every pair, equal ones included, out of {} names differing in case, form of a letter, width or invisible characters", CONFUSABLE.len()),
            move |cx| {
                let sharded = cx.flag();
                let nested = cx.flag();
                let p = if sharded { "0A" } else { "" };
                let names = (0..2).map(|_| Some(format!("{p}{}", cx.pick(&CONFUSABLE)).into_bytes())).collect();
                names_case(cx, sharded, nested, names)
            },
        ),
        scenario(
            "deep and wide",
            "nesting up to 14 (40) levels, up to 300 entries, 256 buckets, chains of buckets".to_string(),
            move |cx| {
                let t = deep_tree(cx, tier);
                walk(cx, &t, "top", mask).map(|_| ())
            },
        ),
        scenario(
            "link names",
            format!("directories and shards, top level or nested, with every pair of {} names or none, for shards behind 6 prefixes", NAMES.len()),
            move |cx| {
                let sharded = cx.flag();
                let nested = cx.flag();
                let count = 1 + cx.choose(2);
                let mut names = vec![];
                for _ in 0..count {
                    let i = cx.choose(NAMES.len() + 1);
                    if i == NAMES.len() {
                        names.push(None);
                    } else if sharded {
                        let p = *cx.pick(&["AB", "", "A", "\u{e9}", "x\u{e9}", "\u{65e5}"]);
                        names.push(Some(format!("{p}{}", NAMES[i]).into_bytes()));
                    } else {
                        names.push(Some(NAMES[i].as_bytes().to_vec()));
                    }
                }
                names_case(cx, sharded, nested, names)
            },
        ),
        scenario(
            "name lengths",
            "names of 1..=300 and around 16384 bytes, also of 2 and 3 byte characters".to_string(),
            move |cx| {
                let sharded = cx.flag();
                let n = match cx.choose(304) {
                    i @ 0..=299 => i + 1,
                    i => 16382 + i - 300,
                };
                let c = ["x", "\u{e9}", "\u{20ac}", "."][cx.choose(4)];
                let base = c.repeat(n / c.len() + 1);
                let base = if c == "." { base + "." } else { base };
                let name = if sharded { format!("7F{base}") } else { base };
                names_case(cx, sharded, false, vec![Some(name.into_bytes())])
            },
        ),
        scenario(
            "shared nodes",
            "every directory or shard of up to 4 links to 5 shared nodes, names repeating or not".to_string(),
            move |cx| {
                let g = &mut G::new();
                let f = g.file(1);
                let m = g.deep_file();
                let y = g.sym();
                let d = g.dir(vec![("f".into(), f.clone()), ("m".into(), m.clone())]);
                let s = g.shard(vec![("00f".into(), f.clone()), ("01d".into(), d.clone())]);
                let pool = [f, m, y, d, s];
                let sharded = cx.flag();
                let same = cx.flag();
                let n = cx.choose(5);
                let kids: Vec<(String, Rc<N>)> = (0..n)
                    .map(|i| {
                        let k = cx.pick(&pool).clone();
                        let name = if same { "n".to_string() } else { name_of(i) };
                        (if sharded { format!("AA{name}") } else { name }, k)
                    })
                    .collect();
                let t = if sharded { g.shard(kids) } else { g.dir(kids) };
                walk(cx, &t, "t", mask).map(|_| ())
            },
        ),
        scenario("beyond 16 bits", VAST_TEXT, move |cx| vast_walk(cx, mask)),
    ]
}

fn neighbour(cx: &mut Cx, g: &mut G) -> Option<Rc<N>> {
    match cx.choose(8) {
        0 => None,
        1 => Some(g.file(1)),
        2 => Some(g.file(0)),
        3 => Some(g.multi(2)),
        4 => Some(g.sym()),
        5 => Some(g.dir(vec![])),
        6 => {
            let f = g.multi(1);
            Some(g.dir(vec![("in".into(), f)]))
        }
        _ => {
            let f = g.file(1);
            let b = g.shard(vec![("00b".into(), f)]);
            Some(g.shard(vec![("AA".into(), b)]))
        }
    }
}

/// A file tree of up to `nodes` blocks with root metadata.
pub fn gen_walk_file(cx: &mut Cx, g: &mut G, nodes: usize, sizes: &'static [usize]) -> Rc<N> {
    let mut ids = std::mem::replace(&mut g.ids, Ids::new());
    let g = std::cell::RefCell::new(g);
    let t = gen_file(
        cx,
        &mut ids,
        &mut { nodes },
        4,
        4,
        true,
        &mut |cx, ids, root| {
            let n = *cx.pick(sizes);
            let d = g.borrow_mut().data(n);
            let o = if root { lo(g.borrow_mut().metas.next()) } else { LeafOpt::default() };
            leaf(ids.cid(), &d, &o)
        },
        &mut |_, ids, kids, root| {
            let o = if root { lo(g.borrow_mut().metas.next()) } else { LeafOpt::default() };
            inner(ids.cid(), kids, &o)
        },
    );
    g.borrow_mut().ids = ids;
    t
}

fn file_in_walk(cx: &mut Cx, file: &Rc<N>, root: &Rc<N>, path: &str) -> R {
    let seen = walk(cx, root, "w", KIND | BYTES | FLAGS | CID | PATH | METADATA | SIZE | ORDER)?;
    let want = visit(cx, file, None, BYTES)?;
    let got: Vec<Vec<u8>> = seen.iter().filter(|s| s.kind == Ev::File && s.path == PathBuf::from(path)).map(|s| s.bytes.clone()).collect();
    ensure!(got == want, "walk: segments", "the walk gives segments {got:?}, the visit {want:?}");
    Ok(())
}

pub fn c10(tier: Tier) -> Vec<Scenario> {
    let n = tier.of(7, 9);
    let odd = odd_contents();
    vec![
        scenario("contents", format!("leaves of {} contents ({ODD_CONTENTS}), raw or file, with or without size, alone, twice below a root, or between others; the file as root or in a directory or shard before another one", odd.len()), move |cx| {
            let g = &mut G::new();
            let f = super::files::odd_file(cx, &mut g.ids, &odd);
            match cx.choose(3) {
                0 => file_in_walk(cx, &f, &f, "w"),
                1 => {
                    let h = g.file(1);
                    let t = g.dir(vec![("f".into(), f.clone()), ("h".into(), h)]);
                    file_in_walk(cx, &f, &t, "w/f")
                }
                _ => {
                    let h = g.file(1);
                    let t = g.shard(vec![("00f".into(), f.clone()), ("01h".into(), h)]);
                    file_in_walk(cx, &f, &t, "w/f")
                }
            }
        }),
        scenario(
            "positions",
            format!("every file tree of up to {n} blocks (leaves of 0 and 1 byte) as root, or in a directory or shard between each pair of 8 kinds of neighbours"),
            move |cx| {
                let g = &mut G::new();
                let place = cx.choose(4);
                if place == 0 {
                    let f = gen_walk_file(cx, g, n, &[1, 0]);
                    return file_in_walk(cx, &f, &f, "w");
                }
                let before = neighbour(cx, g);
                let after = neighbour(cx, g);
                let f = gen_walk_file(cx, g, if place == 1 { n } else { n - 1 }, &[1, 0]);
                let p = if place == 1 { "" } else { "00" };
                let mut kids: Vec<(String, Rc<N>)> = vec![];
                if let Some(b) = before {
                    kids.push((format!("{p}before"), b));
                }
                kids.push((format!("{p}file"), f.clone()));
                if let Some(a) = after {
                    kids.push((format!("{p}after"), a));
                }
                match place {
                    1 => {
                        let t = g.dir(kids);
                        file_in_walk(cx, &f, &t, "w/file")
                    }
                    2 => {
                        let t = g.shard(kids);
                        file_in_walk(cx, &f, &t, "w/file")
                    }
                    _ => {
                        // last in a bucket of a nested shard, something following above
                        let b = g.shard(kids);
                        let s = g.shard(vec![("42".into(), b)]);
                        let z = g.file(1);
                        let t = g.dir(vec![("s".into(), s), ("z".into(), z)]);
                        file_in_walk(cx, &f, &t, "w/s/file")
                    }
                }
            },
        ),
        scenario(
            "sizes",
            "every file tree of up to 5 blocks with leaves of 0, 1 and 3 bytes, before another such file of up to 3 blocks".to_string(),
            move |cx| {
                let g = &mut G::new();
                let f = gen_walk_file(cx, g, 5, &[0, 1, 3]);
                let h = gen_walk_file(cx, g, 3, &[0, 2]);
                let t = g.dir(vec![("f".into(), f.clone()), ("h".into(), h.clone())]);
                file_in_walk(cx, &f, &t, "w/f")?;
                file_in_walk(cx, &h, &t, "w/h")
            },
        ),
        scenario("large blocks", format!("{}; as root and in a directory before another file", super::files::LARGE_BOUNDS), |cx| {
            let g = &mut G::new();
            let (f, ..) = super::files::large_block(cx, &mut g.ids, 13);
            if cx.flag() {
                return file_in_walk(cx, &f, &f, "w");
            }
            let h = g.file(1);
            let t = g.dir(vec![("f".into(), f.clone()), ("h".into(), h)]);
            file_in_walk(cx, &f, &t, "w/f")
        }),
        scenario(
            "large",
            "chains, skewed and balanced trees of up to 40 levels and 80 leaves, alone and followed by a file".to_string(),
            move |cx| {
                let g = &mut G::new();
                let f = match cx.choose(3) {
                    0 => {
                        let d = cx.choose(40);
                        chain(d, &mut g.ids, (1, 2))
                    }
                    1 => {
                        let d = cx.choose(40);
                        let first = cx.flag();
                        skewed(d, &mut g.ids, first, 1)
                    }
                    _ => {
                        let l = 1 + cx.choose(80);
                        let bf = 2 + cx.choose(4);
                        balanced(l, bf, &mut g.ids, 2, 1)
                    }
                };
                if cx.flag() {
                    return file_in_walk(cx, &f, &f, "w");
                }
                let z = g.multi(2);
                let t = g.dir(vec![("f".into(), f.clone()), ("z".into(), z)]);
                file_in_walk(cx, &f, &t, "w/f")
            },
        ),
        scenario(
            "shared",
            "every directory or shard of up to 4 links to 5 files sharing leaves, subtrees or everything, each also met below another directory".to_string(),
            move |cx| {
                let g = &mut G::new();
                let (a, b) = (g.part(2), g.part(1));
                let m = g.metas.next();
                let ab = inner(g.ids.cid(), vec![a.clone(), b.clone()], &LeafOpt::default());
                let files = [
                    a.clone(),
                    inner(g.ids.cid(), vec![a.clone(), a.clone()], &lo(m)),
                    ab.clone(),
                    inner(g.ids.cid(), vec![ab.clone(), b, ab.clone()], &LeafOpt::default()),
                    inner(g.ids.cid(), vec![ab.clone(), ab], &lo(g.metas.next())),
                ];
                let sharded = cx.flag();
                let p = if sharded { "00" } else { "" };
                let nested = cx.flag();
                let n = 1 + cx.choose(4);
                let picked: Vec<_> = (0..n).map(|_| cx.pick(&files).clone()).collect();
                let mut kids: Vec<_> = picked.iter().enumerate().map(|(i, f)| (format!("{p}{}", name_of(i)), f.clone())).collect();
                if nested {
                    let d = g.dir(vec![("in".into(), picked[0].clone())]);
                    kids.insert(1, (format!("{p}d"), d));
                }
                let t = if sharded { g.shard(kids) } else { g.dir(kids) };
                for (i, f) in picked.iter().enumerate() {
                    file_in_walk(cx, f, &t, &format!("w/{}", name_of(i)))?;
                }
                if nested {
                    file_in_walk(cx, &picked[0], &t, "w/d/in")?;
                }
                Ok(())
            },
        ),
        scenario("beyond 16 bits", VAST_TEXT, |cx| vast_walk(cx, KIND | BYTES | FLAGS | SIZE)),
        scenario("beyond 32 bits", "files of 260 leaves of 16 MiB and of 2^63 bytes, the first 300 blocks", |cx| {
            let g = &mut G::new();
            let f = if cx.flag() {
                let len = 1 << 24;
                let kinds = [1u8, 2].map(|b| leaf(g.ids.cid(), &vec![b; len], &LeafOpt::default()));
                let mut level: Vec<Rc<N>> = (0..260u32).map(|i| kinds[(i.count_ones() % 2) as usize].clone()).collect();
                while level.len() > 1 {
                    level = level.chunks(20).map(|k| inner(g.ids.cid(), k.to_vec(), &LeafOpt::default())).collect();
                }
                level.pop().unwrap()
            } else {
                huge(62, &mut g.ids, 2)
            };
            let z = g.multi(2);
            let t = g.dir(vec![("f".into(), f), ("z".into(), z)]);
            let mut w = WalkRun::new(&t, "w", KIND | BYTES | FLAGS | SIZE);
            w.lean = true;
            let mut cache = None;
            for _ in 0..300 {
                if w.done {
                    break;
                }
                w.step(cx, &mut cache)?;
            }
            Ok(())
        }),
    ]
}

pub fn c11_walks(tier: Tier) -> Vec<Scenario> {
    let n = tier.of(7, 8);
    let mask = PENDING | ORDER;
    vec![
        scenario(
            "walks",
            format!("every tree of up to {n} entries, CIDs of 6 kinds in rotation"),
            move |cx| {
                let mut g = G::new();
                g.ids = Ids::rotating(0);
                let t = gen_ent(cx, &mut g, &mut { n }, 5, false, 4);
                walk(cx, &t, "x", mask).map(|_| ())
            },
        ),
        scenario(
            "file walks",
            "every file tree of up to 7 blocks in a directory or shard, between every pair of 8 kinds of neighbours".to_string(),
            move |cx| {
                let g = &mut G::new();
                let before = neighbour(cx, g);
                let after = neighbour(cx, g);
                let f = gen_walk_file(cx, g, 7, &[1]);
                let sharded = cx.flag();
                let p = if sharded { "00" } else { "" };
                let mut kids: Vec<(String, Rc<N>)> = vec![];
                if let Some(b) = before {
                    kids.push((format!("{p}before"), b));
                }
                kids.push((format!("{p}file"), f.clone()));
                if let Some(a) = after {
                    kids.push((format!("{p}after"), a));
                }
                let t = if sharded { g.shard(kids) } else { g.dir(kids) };
                walk(cx, &t, "x", mask).map(|_| ())
            },
        ),
        scenario(
            "deep and wide",
            "nesting up to 14 (40) levels, up to 300 entries, 256 buckets, chains of buckets".to_string(),
            move |cx| {
                let t = deep_tree(cx, tier);
                walk(cx, &t, "top", mask).map(|_| ())
            },
        ),
        scenario(
            "repeated links",
            "every directory or shard of up to 4 links to 5 shared nodes".to_string(),
            move |cx| {
                let g = &mut G::new();
                let p = g.part(1);
                let m0 = inner(g.ids.cid(), vec![p.clone(), p.clone()], &LeafOpt::default());
                let m = inner(g.ids.cid(), vec![m0.clone(), p.clone(), m0], &LeafOpt::default());
                let y = g.sym();
                let d = g.dir(vec![("f".into(), p.clone()), ("m".into(), m.clone()), ("n".into(), m.clone())]);
                let s = g.shard(vec![("00f".into(), p.clone()), ("01d".into(), d.clone())]);
                let e = g.shard(vec![("01".into(), s.clone()), ("02".into(), s.clone())]);
                let pool = [p, m, y, d, s, e];
                let n = cx.choose(5);
                let kids: Vec<(String, Rc<N>)> = (0..n).map(|i| (name_of(i), cx.pick(&pool).clone())).collect();
                let t = g.dir(kids);
                walk(cx, &t, "t", mask).map(|_| ())
            },
        ),
        scenario("walks beyond 16 bits", format!("{VAST_TEXT}; all pending links at every power of two and with fewer than 8 of them, otherwise the first one"), move |cx| vast_walk(cx, mask)),
    ]
}

fn meta_entry(g: &mut G, kind: usize, m: M) -> Rc<N> {
    let o = lo(m);
    match kind {
        0 => {
            let d = g.data(1);
            leaf(g.ids.cid(), &d, &o)
        }
        1 => {
            let k = vec![g.part(1), g.part(1)];
            inner(g.ids.cid(), k, &o)
        }
        2 => sym(g.ids.cid(), b"t", m.0, m.1),
        3 => dir(g.ids.cid(), vec![], m.0, m.1),
        4 => shard(g.ids.cid(), vec![], m.0, m.1),
        5 => leaf(g.ids.cid(), b"", &LeafOpt { raw: true, ..o }),
        6 => {
            // shard whose bucket has metadata of its own
            let f = leaf(g.ids.cid(), b"n", &LeafOpt::default());
            let b = shard(g.ids.cid(), vec![("00f".into(), f)], Some(0o7777), Some((77, Some(77))));
            shard(g.ids.cid(), vec![("AA".into(), b)], m.0, m.1)
        }
        _ => {
            let f = leaf(g.ids.cid(), b"n", &LeafOpt::default());
            dir(g.ids.cid(), vec![("n".into(), f)], m.0, m.1)
        }
    }
}

/// Sorted boundary values of one, two, ... encoded bytes.
fn edges(bits: u32) -> Vec<u64> {
    let mut v = vec![0u64];
    for b in 0..bits {
        let p = 1u64 << b;
        v.extend([p - 1, p, p.wrapping_add(1)]);
    }
    v.push(if bits == 64 { u64::MAX } else { (1 << bits) - 1 });
    v.sort();
    v.dedup();
    v
}

pub fn c12(tier: Tier) -> Vec<Scenario> {
    let few = tier.of(4, 7);
    vec![
        scenario(
            "orders",
            format!("directories and shards, with {few} metadata values, of every sequence of up to 3 entries of 8 kinds with each of {few} metadata values"),
            move |cx| {
                let g = &mut G::new();
                let metas = &WIDE_META[..few];
                let sharded = cx.flag();
                let rm = *cx.pick(metas);
                let n = 1 + cx.choose(3);
                let kids: Vec<(String, Rc<N>)> = (0..n)
                    .map(|i| {
                        let k = cx.choose(8);
                        let m = *cx.pick(metas);
                        let e = meta_entry(g, k, m);
                        (format!("{}{}", if sharded { "00" } else { "" }, name_of(i)), e)
                    })
                    .collect();
                let t = if sharded { shard(g.ids.cid(), kids, rm.0, rm.1) } else { dir(g.ids.cid(), kids, rm.0, rm.1) };
                walk(cx, &t, "", METADATA | KIND).map(|_| ())
            },
        ),
        scenario(
            "values",
            "every kind of entry, as root, in a directory, visited and parsed: modes at all powers of two and their neighbours; seconds likewise in both signs; nanoseconds absent and likewise".to_string(),
            move |cx| {
                let kind = cx.choose(8);
                let mode = edges(32);
                let sec = edges(63);
                let m: M = match cx.choose(5) {
                    0 => (Some(*cx.pick(&mode) as u32), None),
                    1 => {
                        let s = *cx.pick(&sec) as i64;
                        (None, Some((s, None)))
                    }
                    2 => {
                        let s = *cx.pick(&sec) as i64;
                        (Some(1), Some((-s, Some(5))))
                    }
                    3 => (Some(u32::MAX), Some((3, Some(*cx.pick(&mode) as u32)))),
                    _ => (None, Some((i64::MIN, Some(*cx.pick(&mode) as u32)))),
                };
                let g = &mut G::new();
                let e = meta_entry(g, kind, m);
                cx.log(|| format!("kind {kind}, metadata {m:?}"));
                walk(cx, &e, "r", METADATA)?;
                let z = meta_entry(g, 0, (None, None));
                let d = dir(g.ids.cid(), vec![("e".into(), e.clone()), ("z".into(), z)], None, None);
                walk(cx, &d, "r", METADATA)?;
                if e.is_file() {
                    visit(cx, &e, None, METADATA)?;
                    visit(cx, &e, Some(0..1), METADATA)?;
                    visit(cx, &e, Some(1..1), METADATA)?;
                }
                let flat = match FlatUnixFs::try_parse(&e.block) {
                    Ok(f) => f,
                    Err(e) => return fail("parse", format!("{e:?}")),
                };
                let parsed = Metadata::from(&flat.data);
                let got = meta_of(&parsed);
                ensure!(got == e.meta, "parsed: metadata", "parsed metadata {got:?} instead of {:?}", e.meta);
                let ft = parsed.mtime_as_filetime().map(|t| (t.unix_seconds(), t.nanoseconds()));
                ensure!(ft == e.meta.1, "parsed: file time", "the file time is {ft:?} instead of {:?}", e.meta.1);
                Ok(())
            },
        ),
        scenario(
            "visits",
            "file trees of up to 6 blocks with each of 12 metadata values, visited in full and in every range".to_string(),
            move |cx| {
                let m = *cx.pick(&WIDE_META);
                let t = super::files::plain_tree(cx, 6, 4, 3, &[1, 0], lo(m));
                let s = t.size();
                let a = cx.choose(s as usize + 2) as u64;
                let b = a + cx.choose((s + 2 - a) as usize) as u64;
                visit(cx, &t, if a == 0 && b == s { None } else { Some(a..b) }, METADATA).map(|_| ())
            },
        ),
        scenario(
            "trees",
            format!("every tree of up to {} entries with distinct metadata", tier.of(6, 7)),
            move |cx| {
                let mut g = G::new();
                let t = gen_ent(cx, &mut g, &mut { tier.of(6, 7) }, 5, false, 3);
                walk(cx, &t, "m", METADATA).map(|_| ())
            },
        ),
    ]
}

// --- C20 ------------------------------------------------------------------------------------

fn sym_block(target: &[u8], form: usize) -> Option<Vec<u8>> {
    let mut u = U { data: Some(target.to_vec()), ..U::ty(SYM) };
    Some(match form {
        0 => block(&[], &u),
        1 => {
            // size and metadata as other implementations write them
            u.filesize = Some(target.len() as u64);
            u.mode = Some(0o777);
            u.mtime = Some((1, None));
            block(&[], &u)
        }
        2 => {
            // data before type
            let mut o = vec![];
            lf(&mut o, 2, target);
            vf(&mut o, 1, SYM);
            node(&[], Some(&o))
        }
        3 => {
            if !target.is_empty() {
                return None;
            }
            u.data = None;
            block(&[], &u)
        }
        4 => {
            // unknown fields around, non-minimal type
            let mut o = vec![];
            vf(&mut o, 20, 7);
            varint(&mut o, 8);
            varint_padded(&mut o, SYM, 3);
            lf(&mut o, 30, b"zz");
            lf(&mut o, 2, target);
            f32f(&mut o, 31, 9);
            node(&[], Some(&o))
        }
        5 => {
            // repeated data, the last counts
            let mut o = vec![];
            vf(&mut o, 1, SYM);
            lf(&mut o, 2, b"other");
            lf(&mut o, 2, target);
            node(&[], Some(&o))
        }
        _ => {
            // a link in a symlink is not followed
            block(&[L::new(&fake_cid(0, 999), "x", 1)], &u)
        }
    })
}

fn raw_sym(cid: Vec<u8>, target: &[u8], block: Vec<u8>, meta: Meta) -> Rc<N> {
    Rc::new(N { cid, block, meta, what: What::Sym(target.to_vec()) })
}

fn serialized(cx: &mut Cx, target: &str, before: &[u8]) -> R {
    serialized_into(cx, target, before, before.to_vec())
}

fn serialized_into(cx: &mut Cx, target: &str, before: &[u8], mut buf: Vec<u8>) -> R {
    unixfs_v1::symlink::serialize_symlink_block(target, &mut buf);
    cx.step(&buf);
    cx.log(|| format!("{target:?} after {} bytes -> {}", before.len(), hex(&buf)));
    let want = sym_block(target.as_bytes(), 0).unwrap();
    ensure!(buf.len() >= before.len() && buf[..before.len()] == *before, "symlink: buffer", "what was in the buffer changed");
    ensure!(buf[before.len()..] == want[..], "symlink: encoding", "target {target:?} gives {} instead of {}", hex(&buf[before.len()..]), hex(&want));
    let s = raw_sym(cid1(&want), target.as_bytes(), buf[before.len()..].to_vec(), (None, None));
    walk(cx, &s, "link", BYTES | KIND | METADATA).map(|_| ())
}

pub fn c20(tier: Tier) -> Vec<Scenario> {
    let len = tier.of(6, 7);
    let odd = odd_contents();
    vec![
        scenario("contents", format!("targets of {} contents ({ODD_CONTENTS}), written where they are text, and read in 7 encodings, alone and before a file", odd.len()), move |cx| {
            let t = cx.pick(&odd);
            let form = cx.choose(8);
            if form == 7 {
                return match std::str::from_utf8(t) {
                    Ok(t) => serialized(cx, t, b""),
                    Err(_) => Ok(()),
                };
            }
            let Some(b) = sym_block(t, form) else { return Ok(()) };
            let g = &mut G::new();
            let meta = if form == 1 { (Some(0o777), Some((1, 0))) } else { (None, None) };
            let s = raw_sym(g.ids.cid(), t, b, meta);
            let z = g.file(1);
            let root = if cx.flag() { g.dir(vec![("s".into(), s), ("z".into(), z)]) } else { s };
            walk(cx, &root, "base", BYTES | KIND | METADATA | PATH | CID).map(|_| ())
        }),
        scenario(
            "targets",
            format!("every target of up to {len} characters of a, /, ., NUL, e-acute, a 3 and a 4 byte character; empty buffer or with 3 bytes"),
            move |cx| {
                let a = ["a", "/", ".", "\0", "\u{e9}", "\u{65e5}", "\u{1f600}"];
                let n = cx.choose(len + 1);
                let t: String = (0..n).map(|_| *cx.pick(&a)).collect();
                let before: &[u8] = if n < len && cx.flag() { &[0x0a, 0xff, 0] } else { &[] };
                serialized(cx, &t, before)
            },
        ),
        scenario(
            "lengths",
            "targets of 0..=600 bytes, around 16384 and 2097152; buffers with 0, 1, 127, 300 bytes before".to_string(),
            move |cx| {
                let n = match cx.choose(601 + 16 + 16) {
                    i @ 0..=600 => i,
                    i @ 601..=616 => 16384 - 12 + (i - 601),
                    i => 2097152 - 12 + (i - 617),
                };
                let b = [0usize, 1, 127, 300][if n > 1000 { 1 } else { cx.choose(4) }];
                serialized(cx, &"p/".repeat(n / 2 + 1)[..n], &vec![0xaa; b])
            },
        ),
        scenario(
            "buffers",
            "buffers with 0..=64, 255..=257, 4095..=4097, 65535..=65537, 2097151..=2097153 bytes before, exactly as long as allocated, or longer by 1 to 16 or a lot; with the block of another symlink; targets of 0, 1, 200 and 70000 bytes".to_string(),
            move |cx| {
                let n = cx.choose(65 + 12);
                let n = if n < 65 { n } else { [256, 4096, 65536, 2097152][(n - 65) / 3] + (n - 65) % 3 - 1 };
                let t = "t".repeat(*cx.pick(&[0usize, 1, 200, 70000]));
                let spare = *cx.pick(&[0usize, 1, 2, 4, 8, 16, 100_000]);
                let mut before = vec![];
                if cx.flag() {
                    before = sym_block(b"other", 0).unwrap();
                }
                before.resize(n.max(before.len()), 0x0a);
                let mut buf = Vec::with_capacity(before.len() + spare);
                buf.extend_from_slice(&before);
                serialized_into(cx, &t, &before, buf)
            },
        ),
        scenario(
            "reading",
            "targets of every pair of bytes, in 7 encodings, as root, in directories and shards, after files, symlinks, directories and buckets, and before one".to_string(),
            move |cx| {
                let form = cx.choose(7);
                let place = cx.choose(6);
                let mut t = vec![];
                match cx.choose(4) {
                    0 => {}
                    1 => t.push(cx.choose(256) as u8),
                    2 => t.extend([cx.choose(256) as u8, [0u8, 0x2f, 0x80, 0xc3, 0xff][cx.choose(5)]]),
                    _ => t.extend(vec![b'l'; 120 + cx.choose(20)]),
                }
                let Some(b) = sym_block(&t, form) else { return Ok(()) };
                let g = &mut G::new();
                let meta = if form == 1 { (Some(0o777), Some((1, 0))) } else { (None, None) };
                let s = raw_sym(g.ids.cid(), &t, b, meta);
                let root = match place {
                    0 => s,
                    1 => g.dir(vec![("s".into(), s)]),
                    2 => {
                        let f = g.multi(2);
                        let z = g.file(1);
                        g.dir(vec![("f".into(), f), ("s".into(), s), ("z".into(), z)])
                    }
                    3 => {
                        let y = g.sym();
                        g.shard(vec![("00y".into(), y), ("01s".into(), s)])
                    }
                    4 => {
                        let f = g.file(1);
                        let bk = g.shard(vec![("00f".into(), f)]);
                        g.shard(vec![("AA".into(), bk), ("01s".into(), s)])
                    }
                    _ => {
                        let f = g.file(1);
                        let d = g.dir(vec![("f".into(), f)]);
                        let d2 = g.dir(vec![("d".into(), d), ("s".into(), s.clone())]);
                        g.dir(vec![("d".into(), d2), ("s".into(), s)])
                    }
                };
                walk(cx, &root, "base", BYTES | KIND | METADATA | PATH | CID).map(|_| ())
            },
        ),
    ]
}
