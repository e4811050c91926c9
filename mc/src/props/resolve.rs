//! C17, C18 and the lookup side of C11: resolving names and looking them up in shards.
use super::files::{cid_err, ut, ut_of};
use crate::enc::*;
use crate::ensure;
use crate::explore::*;
use crate::model::*;
use crate::Tier;
use libipld::Cid;
use std::collections::{BTreeMap, BTreeSet};
use unixfs_v1::dir::{Cache, MaybeResolved, MultipleMatchingLinks, ResolveError, ShardError, ShardedLookup};
use unixfs_v1::{resolve, LookupError};

// --- normalised results ---------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Got {
    Found(Vec<u8>),
    NotFound,
    /// the pending links
    More(Vec<Vec<u8>>),
    Err(String),
}

fn multi(m: &MultipleMatchingLinks) -> String {
    match m {
        MultipleMatchingLinks::Two { first, second } => format!("Two #{} {} #{} {}", first.0, hex(&first.1.to_bytes()), second.0, hex(&second.1.to_bytes())),
        MultipleMatchingLinks::OneValid { first, second } => format!("OneValid #{} {} and {}", first.0, hex(&first.1.to_bytes()), cid_err(second)),
    }
}

/// Taking the first of several matches.
fn taken(m: MultipleMatchingLinks) -> R {
    let want = match &m {
        MultipleMatchingLinks::Two { first, .. } => first.1,
        MultipleMatchingLinks::OneValid { first, .. } => first.1,
    };
    let got = m.into_inner();
    ensure!(got == want, "resolve: first match", "the first match taken is {got} instead of {want}");
    Ok(())
}

pub fn lookup_err(e: &LookupError) -> String {
    let _ = format!("{e} {e:?}");
    match e {
        LookupError::Multiple(m) => multi(m),
        LookupError::InvalidCid(c) => cid_err(c),
        LookupError::UnexpectedBucketType(t) => format!("UnexpectedBucketType {}", ut(t)),
        LookupError::Shard(ShardError::UnsupportedProperties { hash_type, fanout }) => format!("Shard unsupported {hash_type:?} {fanout:?}"),
        LookupError::Shard(ShardError::UnexpectedProperties { filesize, blocksizes }) => format!("Shard unexpected {filesize:?} {blocksizes:?}"),
        LookupError::Read(Some(_)) => "Read".into(),
        LookupError::Read(None) => "Empty".into(),
    }
}

pub fn resolve_err(e: &ResolveError) -> String {
    let _ = format!("{e} {e:?}");
    match e {
        ResolveError::UnexpectedType(t) => format!("UnexpectedType {}", ut(t)),
        ResolveError::UnexpectedDirProperties(_) => "UnexpectedDirProperties".into(),
        ResolveError::Read(_) => "Read".into(),
        ResolveError::Lookup(e) => lookup_err(e),
    }
}

pub fn pending_of_lookup(l: &ShardedLookup) -> Vec<Vec<u8>> {
    let (first, rest) = l.pending_links();
    std::iter::once(first).chain(rest).map(|c| c.to_bytes()).collect()
}

/// The normalised result together with the lookup to continue.
pub fn norm<'n>(m: MaybeResolved<'n>) -> (Got, Option<ShardedLookup<'n>>) {
    match m {
        MaybeResolved::Found(c) => (Got::Found(c.to_bytes()), None),
        MaybeResolved::NotFound => (Got::NotFound, None),
        MaybeResolved::NeedToLoadMore(l) => (Got::More(pending_of_lookup(&l)), Some(l)),
    }
}

// --- model ----------------------------------------------------------------------------------

/// What a block carries as its data.
#[derive(Clone, Debug)]
pub enum Dat {
    None,
    Empty,
    /// not a UnixFS message
    Bad(Vec<u8>),
    Unixfs(U),
}

impl Dat {
    pub fn enc(&self) -> Option<Vec<u8>> {
        match self {
            Dat::None => None,
            Dat::Empty => Some(vec![]),
            Dat::Bad(b) => Some(b.clone()),
            Dat::Unixfs(u) => Some(u.enc()),
        }
    }
}

fn valid(l: &L) -> Option<Vec<u8>> {
    Cid::try_from(l.hash.as_deref().unwrap_or_default()).ok().map(|c| c.to_bytes())
}

fn invalid(i: usize, l: &L) -> String {
    format!("InvalidCid #{i} hash {} name {:?}", hex(l.hash.as_deref().unwrap_or_default()), String::from_utf8_lossy(l.name.as_deref().unwrap_or_default()))
}

fn name(l: &L) -> &[u8] {
    l.name.as_deref().unwrap_or_default()
}

/// The errors several matches may give.
fn several(i: usize, a: &L, j: usize, b: &L) -> Vec<Got> {
    match (valid(a), valid(b)) {
        (Some(x), Some(y)) => vec![Got::Err(format!("Two #{i} {} #{j} {}", hex(&x), hex(&y)))],
        (Some(x), None) => vec![Got::Err(format!("OneValid #{i} {} and {}", hex(&x), invalid(j, b)))],
        (None, Some(y)) => vec![Got::Err(invalid(i, a)), Got::Err(format!("OneValid #{j} {} and {}", hex(&y), invalid(i, a)))],
        (None, None) => vec![Got::Err(invalid(i, a)), Got::Err(invalid(j, b))],
    }
}

/// What a plain directory or dag-pb node gives.
fn plain(links: &[L], needle: &str) -> Vec<Got> {
    let m: Vec<usize> = (0..links.len()).filter(|i| name(&links[*i]) == needle.as_bytes()).collect();
    match m.len() {
        0 => vec![Got::NotFound],
        1 => vec![match valid(&links[m[0]]) {
            Some(c) => Got::Found(c),
            None => Got::Err(invalid(m[0], &links[m[0]])),
        }],
        _ => several(m[0], &links[m[0]], m[1], &links[m[1]]),
    }
}

/// What is wrong with the properties of a shard.
fn shard_problems(u: &U) -> Vec<String> {
    let mut v = vec![];
    if u.hash_type != Some(0x22) || u.fanout != Some(256) {
        v.push(format!("Shard unsupported {:?} {:?}", u.hash_type, u.fanout));
    }
    if u.filesize.is_some() || !u.blocksizes.is_empty() {
        v.push(format!("Shard unexpected {:?} {:?}", u.filesize, u.blocksizes));
    }
    v
}

/// What one block of shards gives, before counting what else is pending: the acceptable final
/// results, or the buckets to load.
fn shard_step(links: &[L], needle: &str) -> Result<Vec<Vec<u8>>, Vec<Got>> {
    let m: Vec<usize> = (0..links.len()).filter(|i| name(&links[*i]).len() > 2 && name(&links[*i])[2..] == *needle.as_bytes()).collect();
    let buckets: Vec<usize> = (0..links.len()).filter(|i| name(&links[*i]).len() == 2).collect();
    let broken: Vec<Got> = buckets.iter().filter(|i| valid(&links[**i]).is_none()).map(|i| Got::Err(invalid(*i, &links[*i]))).collect();
    let mut ok = match m.len() {
        0 => vec![],
        1 => vec![match valid(&links[m[0]]) {
            Some(c) => Got::Found(c),
            None => Got::Err(invalid(m[0], &links[m[0]])),
        }],
        _ => several(m[0], &links[m[0]], m[1], &links[m[1]]),
    };
    if ok.is_empty() && broken.is_empty() {
        return Ok(buckets.iter().map(|i| valid(&links[*i]).unwrap()).collect());
    }
    ok.extend(broken);
    Err(ok)
}

/// The block of a node of links and data.
#[derive(Clone, Debug)]
pub struct Blk {
    pub links: Vec<L>,
    pub dat: Dat,
}

impl Blk {
    pub fn enc(&self) -> Vec<u8> {
        node(&self.links, self.dat.enc().as_deref())
    }
    pub fn shard(links: Vec<L>) -> Blk {
        Blk { links, dat: Dat::Unixfs(U::shard()) }
    }
}

fn more(pending: Vec<Vec<u8>>) -> Vec<Got> {
    if pending.is_empty() {
        vec![Got::NotFound]
    } else {
        vec![Got::More(pending)]
    }
}

/// Acceptable results of resolving in the first block. Pending links are in link order.
pub fn expect_resolve(b: &Blk, needle: &str) -> Vec<Got> {
    match &b.dat {
        Dat::None | Dat::Empty | Dat::Bad(_) => plain(&b.links, needle),
        Dat::Unixfs(u) if u.ty > HAMT => plain(&b.links, needle),
        Dat::Unixfs(u) if u.ty == DIR => {
            if u.filesize.is_some() || !u.blocksizes.is_empty() || u.hash_type.is_some() || u.fanout.is_some() || u.data.as_ref().is_some_and(|d| !d.is_empty()) {
                vec![Got::Err("UnexpectedDirProperties".into())]
            } else {
                plain(&b.links, needle)
            }
        }
        Dat::Unixfs(u) if u.ty == HAMT => {
            let p = shard_problems(u);
            if !p.is_empty() {
                return p.into_iter().map(Got::Err).collect();
            }
            match shard_step(&b.links, needle) {
                Ok(b) => more(b),
                Err(v) => v,
            }
        }
        Dat::Unixfs(u) => vec![Got::Err(format!("UnexpectedType {}", ut_of(u.ty)))],
    }
}

/// Acceptable results of continuing with a block, `rest` being pending still.
pub fn expect_continue(b: &Blk, needle: &str, rest: &[Vec<u8>]) -> Vec<Got> {
    match &b.dat {
        Dat::None | Dat::Empty => vec![Got::Err("Empty".into())],
        Dat::Bad(_) => vec![Got::Err("Read".into())],
        Dat::Unixfs(u) if u.ty > HAMT => vec![Got::Err("Read".into())],
        Dat::Unixfs(u) if u.ty == HAMT => {
            let p = shard_problems(u);
            if !p.is_empty() {
                return p.into_iter().map(Got::Err).collect();
            }
            match shard_step(&b.links, needle) {
                Ok(own) => more(own.into_iter().chain(rest.iter().cloned()).collect()),
                Err(v) => v,
            }
        }
        Dat::Unixfs(u) => vec![Got::Err(format!("UnexpectedBucketType {}", ut_of(u.ty)))],
    }
}

/// Whether `got` is `own` inserted at any places of `rest`.
fn inserted(got: &[Vec<u8>], own_and_rest: &[Vec<u8>], rest: &[Vec<u8>]) -> bool {
    let (mut a, mut b) = (got.to_vec(), own_and_rest.to_vec());
    a.sort();
    b.sort();
    if a != b {
        return false;
    }
    let mut it = got.iter();
    rest.iter().all(|r| it.any(|g| g == r))
}

/// Compares; pending links of a lookup may come in any order, but with `order` the ones pending
/// before keep theirs.
pub fn agree(got: &Got, want: &[Got], rest: &[Vec<u8>], order: bool) -> R {
    for w in want {
        match (got, w) {
            (Got::More(g), Got::More(w)) => {
                if inserted(g, w, if order { rest } else { &[] }) {
                    return Ok(());
                }
            }
            (g, w) if g == w => return Ok(()),
            _ => {}
        }
    }
    let key = match (got, &want[0]) {
        (Got::More(_), Got::More(_)) => "lookup: pending",
        (Got::Err(_), Got::Err(_)) => "resolve: wrong error",
        (Got::Err(_), _) => "resolve: fails",
        (_, Got::Err(_)) => "resolve: no error",
        _ => "resolve: wrong result",
    };
    fail(key, format!("the result is {got:?} instead of {want:?}"))
}

/// Resolves in one block and compares.
pub fn first_step<'n>(cx: &mut Cx, b: &Blk, needle: &'n str, cache: &mut Option<Cache>, order: bool) -> R<(Got, Option<ShardedLookup<'n>>)> {
    let enc = b.enc();
    let (got, l) = match resolve(&enc, needle, cache) {
        Ok(m) => norm(m),
        Err(e) => {
            let text = resolve_err(&e);
            if let ResolveError::Lookup(LookupError::Multiple(m)) = e {
                taken(m)?;
            }
            (Got::Err(text), None)
        }
    };
    cx.step(&(&enc, needle, &got));
    cx.log(|| format!("resolve {needle:?} in {} -> {got:?}", hex(&enc)));
    agree(&got, &expect_resolve(b, needle), &[], order)?;
    Ok((got, l))
}

/// Runs a whole lookup over the given blocks, in lockstep with the model. Returns the result.
pub fn lookup(cx: &mut Cx, blocks: &BTreeMap<Vec<u8>, Blk>, root: &Blk, needle: &str, owned_at: usize, order: bool) -> R<Got> {
    let mut cache = None;
    let (mut got, mut l) = first_step(cx, root, needle, &mut cache, order)?;
    let mut steps = 0;
    while let Some(mut lk) = l.take() {
        if steps == owned_at {
            lk = lk.with_owned_needle();
        }
        let _ = format!("{lk:?}");
        let pend = pending_of_lookup(&lk);
        let Got::More(want) = &got else { unreachable!() };
        ensure!(&pend == want, "lookup: pending", "pending links change by taking the needle");
        let Some(b) = blocks.get(&pend[0]) else {
            return fail("lookup: asks for unlinked block", format!("{} is not linked", hex(&pend[0])));
        };
        let rest = &pend[1..];
        let enc = b.enc();
        let res = lk.continue_walk(&enc, &mut cache);
        let (g, n) = match res {
            Ok(m) => norm(m),
            Err(e) => {
                let text = lookup_err(&e);
                if let LookupError::Multiple(m) = e {
                    taken(m)?;
                }
                (Got::Err(text), None)
            }
        };
        cx.step(&(&enc, &g));
        cx.log(|| format!("continue with {} -> {g:?}", hex(&pend[0])));
        agree(&g, &expect_continue(b, needle, rest), rest, order)?;
        got = g;
        l = n;
        steps += 1;
        ensure!(steps < 10_000, "lookup: endless", "no end after {steps} blocks");
    }
    Ok(got)
}

// --- C17 ------------------------------------------------------------------------------------

fn hashes() -> Vec<Option<Vec<u8>>> {
    vec![
        Some(fake_cid(0, 1)),
        Some(fake_cid(1, 2)),
        Some(fake_cid(2, 3)),
        None,
        Some(vec![]),
        Some(fake_cid(0, 1)[..20].to_vec()),
        Some(vec![0xff; 36]),
        Some(fake_cid(5, 4)),
    ]
}

fn dats() -> Vec<Dat> {
    let mut meta = U::ty(DIR);
    meta.mode = Some(0o755);
    meta.mtime = Some((-1, Some(5)));
    let mut empty = U::ty(DIR);
    empty.data = Some(vec![]);
    vec![
        Dat::Unixfs(U::ty(DIR)),
        Dat::None,
        Dat::Empty,
        Dat::Bad(b"not a unixfs message".to_vec()),
        Dat::Unixfs(U::ty(6)),
        Dat::Bad(vec![8, 1, 18, 200, 1, 1]),
        Dat::Unixfs(meta),
        Dat::Unixfs(empty),
        Dat::Bad(vec![0x08, 0x80]),
    ]
}

pub fn c17(tier: Tier) -> Vec<Scenario> {
    let n = tier.of(3, 4);
    let hs = hashes();
    let ds = dats();
    let ndat = tier.of(9, 9);
    let lists = scenario(
        "link-lists",
        format!("every list of up to {n} links with names out of 6 (missing, empty, the name, a prefix, a longer one, another) and hashes out of 5 kinds (valid ones, missing, empty, damaged), in {ndat} kinds of nodes, resolving 3 names"),
        move |cx| {
            let k = cx.choose(n + 1);
            let dat = ds[cx.choose(ndat)].clone();
            let needle = *cx.pick(&["ab", "", "b"]);
            let mut links = vec![];
            for i in 0..k {
                let name = cx.pick(&[Some("ab"), None, Some(""), Some("a"), Some("abc"), Some("b")]).map(|s| s.as_bytes().to_vec());
                let hash = match cx.choose(5) {
                    // distinct per link
                    0 => Some(fake_cid(0, 10 + i as u32)),
                    1 => Some(fake_cid(1 + i % 5, 20 + i as u32)),
                    2 => None,
                    3 => Some(vec![]),
                    _ => Some(fake_cid(0, 1)[..20 + i].to_vec()),
                };
                links.push(L { hash, name, tsize: Some(i as u64) });
            }
            first_step(cx, &Blk { links, dat }, needle, &mut None, false).map(|_| ())
        },
    );
    let m = tier.of(6, 8);
    let dupes = scenario(
        "duplicates",
        format!("every list of up to {m} links which match or not and have a valid hash or not"),
        move |cx| {
            let k = cx.choose(m + 1);
            let dat = if cx.flag() { Dat::None } else { Dat::Unixfs(U::ty(DIR)) };
            let mut links = vec![];
            for i in 0..k {
                let (name, ok) = ([("x", true), ("x", false), ("y", true), ("y", false)])[cx.choose(4)];
                links.push(L::new(&if ok { fake_cid(i % CID_VARIANTS, i as u32) } else { vec![i as u8 + 9; 3] }, name, 1));
            }
            first_step(cx, &Blk { links, dat }, "x", &mut None, false).map(|_| ())
        },
    );
    let types = scenario(
        "types-and-properties",
        "a node with a matching link of every type 0..6 with every combination of the other properties absent, zero and non-zero, resolving a present and an absent name",
        |cx| {
            let mut u = U::ty(cx.choose(7) as u64);
            u.data = cx.pick(&[None, Some(vec![]), Some(vec![0x80, 1])]).clone();
            u.filesize = *cx.pick(&[None, Some(0), Some(5)]);
            u.blocksizes = cx.pick(&[vec![], vec![0], vec![5, 6]]).clone();
            u.hash_type = *cx.pick(&[None, Some(0), Some(0x22), Some(0x12)]);
            u.fanout = *cx.pick(&[None, Some(0), Some(256), Some(257), Some(1 << 32 | 256)]);
            u.mode = *cx.pick(&[None, Some(0), Some(0o755)]);
            u.mtime = *cx.pick(&[None, Some((0, None)), Some((-1, Some(1)))]);
            let name = cx.pick(&["a", "00a"]);
            let needle = *cx.pick(&["a", "b"]);
            let links = vec![L::new(&fake_cid(0, 1), name, 1)];
            first_step(cx, &Blk { links, dat: Dat::Unixfs(u) }, needle, &mut None, false).map(|_| ())
        },
    );
    let mut names: Vec<String> = ["", "a", "A", "ab", "a ", " a", "a/b", "/a", "a/", ".", "..", "\0", "a\0", "é", "e\u{301}", "\u{10ffff}", "00a", "0", "00", "aa", "%61", "a\n"].iter().map(|s| s.to_string()).collect();
    for n in [127, 128, 300, 17000] {
        names.push("x".repeat(n));
        names.push("x".repeat(n) + "y");
    }
    let k = names.len();
    let needles = scenario(
        "needles",
        format!("every pair out of {k} link names and needles (normalisation, case, whitespace, control characters, lengths around varint steps), the link alone, first or last of three"),
        move |cx| {
            let name = cx.pick(&names);
            let needle = cx.pick(&names).clone();
            let dat = cx.pick(&[Dat::None, Dat::Unixfs(U::ty(DIR))]).clone();
            let l = L::new(&fake_cid(0, 1), name, 1);
            let o = |i| L::new(&fake_cid(0, i), &format!("other{i}"), 1);
            let links = match cx.choose(3) {
                0 => vec![l],
                1 => vec![l, o(3), o(4)],
                _ => vec![o(3), o(4), l],
            };
            first_step(cx, &Blk { links, dat }, &needle, &mut None, false).map(|_| ())
        },
    );
    let confusable = scenario(
        "confusable names",
        format!("every three out of {} names differing in case, form of a letter, width or invisible characters as two links, equal ones included, and a needle", CONFUSABLE.len()),
        |cx| {
            let dat = cx.pick(&[Dat::None, Dat::Unixfs(U::ty(DIR))]).clone();
            let links = (0..2).map(|i| L::new(&fake_cid(0, i), cx.pick(&CONFUSABLE), 1)).collect();
            let needle = *cx.pick(&CONFUSABLE);
            first_step(cx, &Blk { links, dat }, needle, &mut None, false).map(|_| ())
        },
    );
    let nears = scenario("near names", format!("a name of each of {} lengths up to 65537 and one near it: {NEAR_TEXT}; as link and as needle, either way round, the other one linked before or after, or not", LENGTHS.len()), |cx| {
        let dat = cx.pick(&[Dat::None, Dat::Unixfs(U::ty(DIR))]).clone();
        let (mut name, mut needle) = near(*cx.pick(&LENGTHS), cx.choose(NEARS));
        if cx.flag() {
            std::mem::swap(&mut name, &mut needle);
        }
        let mut links = vec![L::new(&fake_cid(0, 1), &name, 1)];
        match cx.choose(3) {
            0 => {}
            1 => links.push(L::new(&fake_cid(0, 2), &needle, 1)),
            _ => links.insert(0, L::new(&fake_cid(0, 2), &needle, 1)),
        }
        first_step(cx, &Blk { links, dat }, &needle, &mut None, false).map(|_| ())
    });
    let all = hs.len();
    let cids = scenario(
        "hashes",
        format!("every pair of {all} hashes, valid and damaged, on the matching link and on another one before or after it; and every truncation and every single bit of a CID"),
        move |cx| {
            let needle = "x";
            let dat = cx.pick(&[Dat::None, Dat::Unixfs(U::ty(DIR))]).clone();
            let links = match cx.choose(4) {
                0 | 1 => {
                    let a = L { hash: cx.pick(&hs).clone(), name: Some(b"x".to_vec()), tsize: None };
                    let b = L { hash: cx.pick(&hs).clone(), name: Some(b"y".to_vec()), tsize: None };
                    if cx.flag() {
                        vec![a, b]
                    } else {
                        vec![b, a]
                    }
                }
                2 => {
                    let c = fake_cid(cx.choose(CID_VARIANTS), 77);
                    let n = cx.choose(c.len() + 1);
                    vec![L::new(&c[..n], "x", 1)]
                }
                _ => {
                    let mut c = fake_cid(cx.choose(CID_VARIANTS), 77);
                    let i = cx.choose(c.len() * 8);
                    c[i / 8] ^= 1 << (i % 8);
                    vec![L::new(&c, "x", 1)]
                }
            };
            first_step(cx, &Blk { links, dat }, needle, &mut None, false).map(|_| ())
        },
    );
    let wide = scenario("wide", "one match at every position of 300 links, and a second one at every later position of 60", |cx| {
        let dat = cx.pick(&[Dat::None, Dat::Unixfs(U::ty(DIR))]).clone();
        let two = cx.flag();
        let n = if two { 60 } else { 300 };
        let i = cx.choose(n);
        let j = if two { i + cx.choose(n - i) } else { i };
        let links = (0..n).map(|k| L::new(&fake_cid(k % CID_VARIANTS, k as u32), if k == i || k == j { "x" } else { "y" }, 1)).collect();
        first_step(cx, &Blk { links, dat }, "x", &mut None, false).map(|_| ())
    });
    let equal = scenario(
        "equal-targets",
        format!("every list of up to {} links with 3 names and hashes out of a pool of 2 valid and 2 damaged ones, the same target under several names and several times under one name included", m - 1),
        move |cx| {
            let k = cx.choose(m);
            let dat = cx.pick(&[Dat::None, Dat::Unixfs(U::ty(DIR))]).clone();
            let pool = [fake_cid(0, 1), fake_cid(1, 2), vec![9, 9, 9], vec![]];
            let links = (0..k).map(|_| { let nm = *cx.pick(&["x", "y"]); L::new(cx.pick(&pool), nm, 1) }).collect();
            let needle = *cx.pick(&["x", "z"]);
            first_step(cx, &Blk { links, dat }, needle, &mut None, false).map(|_| ())
        },
    );
    let far = scenario("beyond 16 bits", "70000 links with a match and possibly a second one, with valid hashes or not, at each pair of 9 places around 0, 2^8, 2^15, 2^16 and the end", |cx| {
        const AT: [usize; 9] = [0, 255, 256, 32767, 32768, 65535, 65536, 65537, 69999];
        let dat = cx.pick(&[Dat::None, Dat::Unixfs(U::ty(DIR))]).clone();
        let i = cx.choose(AT.len());
        let j = i + cx.choose(AT.len() - i);
        let ok = [cx.flag(), i == j || cx.flag()];
        let links = (0..70000)
            .map(|k| {
                let c = fake_cid(0, k as u32);
                if k == AT[i] {
                    L::new(if ok[0] { &c } else { b"bad" }, "x", 1)
                } else if k == AT[j] {
                    L::new(if ok[1] { &c } else { b"bad" }, "x", 1)
                } else {
                    L::new(&c, "y", 1)
                }
            })
            .collect();
        first_step(cx, &Blk { links, dat }, "x", &mut None, false).map(|_| ())
    });
    vec![lists, dupes, types, needles, confusable, nears, cids, wide, equal, far]
}

// --- C18 ------------------------------------------------------------------------------------

pub struct Shards {
    pub blocks: BTreeMap<Vec<u8>, Blk>,
    next: u32,
}

impl Shards {
    pub fn new() -> Shards {
        Shards { blocks: BTreeMap::new(), next: 0 }
    }
    fn id(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    pub fn put(&mut self, b: Blk) -> Vec<u8> {
        let i = self.id();
        let c = fake_cid(i as usize % CID_VARIANTS, 1000 + i);
        self.blocks.insert(c.clone(), b);
        c
    }
}

const ENTRIES: [&str; 7] = ["00a", "01b", "FFa", "02aa", "a", "", "a0é"];

/// Every tree of shards of at most `budget` links.
pub fn gen_shard(cx: &mut Cx, s: &mut Shards, budget: &mut usize, depth: usize, max: usize, kinds: usize) -> Blk {
    let n = cx.choose(max.min(*budget) + 1);
    *budget -= n;
    let mut links = vec![];
    for i in 0..n {
        // a bucket, the bucket of the link before once more, or an entry
        let k = cx.choose(kinds + if depth > 0 { 1 } else { 0 });
        if k == kinds {
            let b = gen_shard(cx, s, budget, depth - 1, max, kinds);
            let c = s.put(b);
            links.push(L::new(&c, &format!("{i:02X}"), 1));
        } else {
            let id = s.id();
            links.push(L::new(&fake_cid(id as usize % CID_VARIANTS, id), ENTRIES[k], 1));
        }
    }
    Blk::shard(links)
}

/// The buckets reachable, to check that all that are needed are known.
fn all_entries(b: &Blk, blocks: &BTreeMap<Vec<u8>, Blk>, out: &mut BTreeSet<Vec<u8>>) {
    for l in &b.links {
        let n = name(l);
        if n.len() == 2 {
            if let Some(b) = l.hash.as_ref().and_then(|h| blocks.get(h)) {
                all_entries(b, blocks, out);
            }
        } else if n.len() > 2 {
            out.insert(n[2..].to_vec());
        }
    }
}

/// The overall answer: found exactly if some shard has the name, given no faults.
fn overall(got: &Got, root: &Blk, blocks: &BTreeMap<Vec<u8>, Blk>, needle: &str) -> R {
    let mut all = BTreeSet::new();
    all_entries(root, blocks, &mut all);
    let there = all.contains(needle.as_bytes());
    match got {
        Got::NotFound => ensure!(!there, "lookup: missed", "{needle:?} is in the shards but reported as not found"),
        Got::Found(_) => ensure!(there, "lookup: invented", "{needle:?} is found but is in no shard"),
        _ => {}
    }
    Ok(())
}

pub fn c18(tier: Tier) -> Vec<Scenario> {
    let n = tier.of(7, 9);
    let trees = scenario(
        "trees",
        format!("every tree of shards of up to {n} links (at most 3 per shard, depth 3): buckets, the name under two prefixes, other names; present and absent needles, borrowed and owned"),
        move |cx| {
            let mut s = Shards::new();
            let mut budget = n;
            let root = gen_shard(cx, &mut s, &mut budget, 3, 3, 3);
            let needle = *cx.pick(&["a", "b", "00", "c"]);
            let owned_at = if cx.flag() { 0 } else { 99 };
            let got = lookup(cx, &s.blocks, &root, needle, owned_at, false)?;
            overall(&got, &root, &s.blocks, needle)
        },
    );
    let m = tier.of(5, 6);
    let kinds = scenario(
        "entry-kinds",
        format!("every tree of shards of up to {m} links (at most 4 per shard, depth 2) with all entry names, too short ones included, and 9 needles, the needle taken at every step"),
        move |cx| {
            let mut s = Shards::new();
            let mut budget = m;
            let root = gen_shard(cx, &mut s, &mut budget, 2, 4, ENTRIES.len());
            let needle = *cx.pick(&["a", "aa", "é", "", "0é", "00a", "00", "b", "\u{a9}"]);
            let owned_at = cx.choose(3);
            let got = lookup(cx, &s.blocks, &root, needle, owned_at, false)?;
            overall(&got, &root, &s.blocks, needle)
        },
    );
    let dup = scenario(
        "repeated-buckets",
        "up to 4 links to up to 2 buckets and an entry each, the same bucket linked repeatedly, on two levels",
        |cx| {
            let mut s = Shards::new();
            let leaf1 = Blk::shard(vec![L::new(&fake_cid(0, 1), "00x", 1)]);
            let leaf2 = Blk::shard(vec![L::new(&fake_cid(0, 2), "01y", 1)]);
            let c1 = s.put(leaf1);
            let c2 = s.put(leaf2);
            let mid = Blk::shard((0..cx.choose(4)).map(|i| L::new(if cx.flag() { &c1 } else { &c2 }, &format!("{i:02X}"), 1)).collect());
            let c3 = s.put(mid);
            let root = Blk::shard((0..cx.choose(5)).map(|i| L::new(*cx.pick(&[&c1, &c2, &c3]), &format!("{i:02X}"), 1)).collect());
            let needle = *cx.pick(&["x", "y", "z"]);
            let got = lookup(cx, &s.blocks, &root, needle, 99, false)?;
            overall(&got, &root, &s.blocks, needle)
        },
    );
    let props = scenario(
        "properties",
        "root and bucket shards with every combination of hash function, fanout (absent, zero, right, neighbouring, too wide for 32 bits), file size, block sizes, data and metadata",
        |cx| {
            let mut u = U::ty(HAMT);
            u.hash_type = *cx.pick(&[Some(0x22), None, Some(0), Some(0x12), Some(0x23), Some(1 << 32 | 0x22)]);
            u.fanout = *cx.pick(&[Some(256), None, Some(0), Some(255), Some(257), Some(1 << 32 | 256), Some(8)]);
            u.filesize = *cx.pick(&[None, Some(0), Some(5)]);
            u.blocksizes = cx.pick(&[vec![], vec![0], vec![5, 6]]).clone();
            u.data = cx.pick(&[Some(vec![0x80, 1]), None, Some(vec![])]).clone();
            u.mode = *cx.pick(&[None, Some(0o755)]);
            let mut s = Shards::new();
            let odd = Blk { links: vec![L::new(&fake_cid(0, 1), "00a", 1)], dat: Dat::Unixfs(u) };
            let root = if cx.flag() {
                let c = s.put(odd);
                Blk::shard(vec![L::new(&fake_cid(0, 2), "01b", 1), L::new(&c, "AA", 1)])
            } else {
                odd
            };
            let needle = *cx.pick(&["a", "c"]);
            lookup(cx, &s.blocks, &root, needle, 99, false).map(|_| ())
        },
    );
    let others = scenario(
        "other-blocks",
        "every kind of node in place of a bucket at depth 1 and 2, before or after a bucket with the name",
        |cx| {
            let mut s = Shards::new();
            let mut other = match cx.choose(4) {
                0 => Dat::None,
                1 => Dat::Empty,
                2 => Dat::Bad(cx.pick(&[vec![0xffu8; 3], vec![8], vec![8, 5, 18, 9, 1], vec![8, 6]]).clone()),
                _ => Dat::Unixfs(U::ty(cx.choose(8) as u64)),
            };
            if let Dat::Unixfs(u) = &mut other {
                if cx.flag() {
                    u.hash_type = Some(0x22);
                    u.fanout = Some(256);
                }
            }
            let other = Blk { links: vec![L::new(&fake_cid(0, 1), "00a", 1), L::new(&fake_cid(0, 3), "00", 1)], dat: other };
            let mut c = s.put(other);
            if cx.flag() {
                c = s.put(Blk::shard(vec![L::new(&c, "0A", 1)]));
            }
            let good = s.put(Blk::shard(vec![L::new(&fake_cid(1, 5), "CCa", 1)]));
            let mut links = vec![L::new(&c, "AA", 1), L::new(&good, "BB", 1)];
            if cx.flag() {
                links.reverse();
            }
            // what the odd block links to is not a shard with the name either
            s.blocks.insert(fake_cid(0, 3), Blk::shard(vec![]));
            let owned = if cx.flag() { 0 } else { 99 };
            lookup(cx, &s.blocks, &Blk::shard(links), "a", owned, false).map(|_| ())
        },
    );
    let k = tier.of(3, 4);
    let broken = scenario(
        "broken-links",
        format!("every list of up to {k} links in a root shard or in a bucket, each a bucket, a match or another entry, with a valid, missing or damaged hash"),
        move |cx| {
            let mut s = Shards::new();
            let empty = s.put(Blk::shard(vec![]));
            let n = cx.choose(k + 1);
            let mut links = vec![];
            for i in 0..n {
                let nm = *cx.pick(&["0A", "00a", "00b"]);
                let hash = match cx.choose(3) {
                    0 if nm.len() == 2 => Some(empty.clone()),
                    0 => Some(fake_cid(i % CID_VARIANTS, i as u32)),
                    1 => None,
                    _ => Some(fake_cid(0, 7)[..9 + i].to_vec()),
                };
                links.push(L { hash, name: Some(nm.as_bytes().to_vec()), tsize: Some(1) });
            }
            let mut root = Blk::shard(links);
            if cx.flag() {
                let c = s.put(root);
                root = Blk::shard(vec![L::new(&c, "FF", 1), L::new(&empty, "FE", 1)]);
            }
            lookup(cx, &s.blocks, &root, "a", 99, false).map(|_| ())
        },
    );
    let w = tier.of(256, 256);
    let large = scenario(
        "large",
        format!("shards of {w} buckets with {w} entries each, a chain of 300 nested buckets, the name in any of several positions or nowhere"),
        move |cx| {
            let mut s = Shards::new();
            match cx.choose(3) {
                0 => {
                    let at = *cx.pick(&[0usize, 1, 127, 128, 254, 255, 999]);
                    let links = (0..w)
                        .map(|i| {
                            let b = Blk::shard(
                                (0..8).map(|j| L::new(&fake_cid(0, (i * 8 + j) as u32), &format!("{j:02X}{}", if i == at && j == 5 { "a".to_string() } else { format!("n{i}x{j}") }), 1)).collect(),
                            );
                            let c = s.put(b);
                            L::new(&c, &format!("{i:02X}"), 1)
                        })
                        .collect();
                    let root = Blk::shard(links);
                    let got = lookup(cx, &s.blocks, &root, "a", 1, false)?;
                    overall(&got, &root, &s.blocks, "a")
                }
                1 => {
                    let at = cx.choose(257);
                    let links = (0..w).map(|j| L::new(&fake_cid(0, j as u32), &format!("{j:02X}{}", if j == at { "a" } else { "b" }), 1)).collect();
                    let root = Blk::shard(links);
                    let got = lookup(cx, &s.blocks, &root, "a", 1, false)?;
                    overall(&got, &root, &s.blocks, "a")
                }
                _ => {
                    let depth = *cx.pick(&[1usize, 2, 50, 300]);
                    let there = cx.flag();
                    let mut b = Blk::shard(if there { vec![L::new(&fake_cid(0, 9), "00a", 1)] } else { vec![] });
                    for i in 0..depth {
                        let c = s.put(b);
                        b = Blk::shard(vec![L::new(&c, &format!("{:02X}", i % 256), 1), L::new(&fake_cid(0, 8), "00c", 1)]);
                    }
                    let got = lookup(cx, &s.blocks, &b, "a", 3, false)?;
                    overall(&got, &b, &s.blocks, "a")
                }
            }
        },
    );
    let q = tier.of(3, 4);
    let equal = scenario(
        "equal-targets",
        format!("every list of up to {q} links in a root shard and up to 3 in its bucket: buckets, the name under two prefixes and another name, all targets out of a pool of 3 (entries and buckets with the same target, equal entries and repeated names included)"),
        move |cx| {
            let mut s = Shards::new();
            let leaf = s.put(Blk::shard(vec![L::new(&fake_cid(0, 1), "00a", 1)]));
            let mut pool = vec![leaf, fake_cid(1, 2)];
            s.blocks.insert(fake_cid(1, 2), Blk::shard(vec![]));
            let list = |cx: &mut Cx, q: usize, pool: &[Vec<u8>]| {
                let n = cx.choose(q + 1);
                Blk::shard((0..n).map(|_| { let nm = *cx.pick(&["0A", "00a", "01a", "00b"]); L::new(cx.pick(pool), nm, 1) }).collect())
            };
            let mid = list(cx, 3, &pool);
            pool.push(s.put(mid));
            let root = list(cx, q, &pool);
            let needle = *cx.pick(&["a", "c"]);
            let got = lookup(cx, &s.blocks, &root, needle, 99, false)?;
            overall(&got, &root, &s.blocks, needle)
        },
    );
    let mut names: Vec<String> = ["", "a", "A", "ab", "a ", " a", "a/b", "/a", ".", "..", "\0", "a\0", "é", "e\u{301}", "\u{10ffff}", "00a", "0", "00", "aa", "%61", "\u{a9}a", "本"].iter().map(|s| s.to_string()).collect();
    for n in [125, 126, 127, 128, 300, 17000] {
        names.push("x".repeat(n));
        names.push("x".repeat(n) + "y");
    }
    let nn = names.len();
    let needles = scenario(
        "needles",
        format!("every pair out of {nn} names and needles (normalisation, case, whitespace, control characters, lengths around varint steps), the name behind 8 prefixes, also of other lengths than two and splitting characters, alone, first or last of three, in the root or a bucket"),
        move |cx| {
            let p = *cx.pick(&["00", "FF", "é", "日", "x", "xé", "", "\u{10348}"]);
            let name = format!("{p}{}", cx.pick(&names));
            let needle = cx.pick(&names).clone();
            let mut s = Shards::new();
            let empty = s.put(Blk::shard(vec![]));
            // two bytes are a bucket, whatever they are
            let l = L::new(&if name.len() == 2 { empty } else { fake_cid(0, 1) }, &name, 1);
            let o = |i| L::new(&fake_cid(0, i), &format!("00other{i}"), 1);
            let links = match cx.choose(3) {
                0 => vec![l],
                1 => vec![l, o(3), o(4)],
                _ => vec![o(3), o(4), l],
            };
            let mut root = Blk::shard(links);
            if cx.flag() {
                let c = s.put(root);
                root = Blk::shard(vec![L::new(&c, "AB", 1)]);
            }
            let owned_at = if cx.flag() { 0 } else { 99 };
            let got = lookup(cx, &s.blocks, &root, &needle, owned_at, false)?;
            overall(&got, &root, &s.blocks, &needle)
        },
    );
    let confusable = scenario(
        "confusable names",
        format!("every three out of {} names differing in case, form of a letter, width or invisible characters as two entries, equal ones included, and a needle, in the root, a bucket, or one in each", CONFUSABLE.len()),
        |cx| {
            let mut s = Shards::new();
            let place = cx.choose(3);
            let mut links: Vec<L> = (0..2).map(|i| L::new(&fake_cid(0, 1 + i), &format!("{i:02X}{}", cx.pick(&CONFUSABLE)), 1)).collect();
            let needle = *cx.pick(&CONFUSABLE);
            let root = match place {
                0 => Blk::shard(links),
                1 => {
                    let c = s.put(Blk::shard(links));
                    Blk::shard(vec![L::new(&c, "AB", 1)])
                }
                _ => {
                    let last = links.pop().unwrap();
                    let c = s.put(Blk::shard(vec![last]));
                    links.push(L::new(&c, "AB", 1));
                    Blk::shard(links)
                }
            };
            let got = lookup(cx, &s.blocks, &root, needle, 99, false)?;
            overall(&got, &root, &s.blocks, needle)
        },
    );
    let nears = scenario("near names", format!("an entry with a name of each of {} lengths up to 65537 and one near it: {NEAR_TEXT}; as entry and as needle, either way round, in the root or a bucket, the other one in another bucket before or after, or not", LENGTHS.len()), |cx| {
        let mut s = Shards::new();
        let (mut name, mut needle) = near(*cx.pick(&LENGTHS), cx.choose(NEARS));
        if cx.flag() {
            std::mem::swap(&mut name, &mut needle);
        }
        let mut links = vec![L::new(&fake_cid(0, 1), &format!("0A{name}"), 1)];
        if cx.flag() {
            links = vec![L::new(&s.put(Blk::shard(links)), "0A", 1)];
        }
        let at = cx.choose(3);
        if at > 0 {
            let c = s.put(Blk::shard(vec![L::new(&fake_cid(0, 2), &format!("B1{needle}"), 1)]));
            links.insert(if at == 1 { 0 } else { links.len() }, L::new(&c, "B1", 1));
        }
        let root = Blk::shard(links);
        let got = lookup(cx, &s.blocks, &root, &needle, 99, false)?;
        overall(&got, &root, &s.blocks, &needle)
    });
    let far = scenario(
        "beyond 16 bits",
        "shards of 70000 entries, in the root or a bucket, with the name and possibly the name again, with valid hashes or not, at each pair of 9 places around 0, 2^8, 2^15, 2^16 and the end; ones of 300 to 66000 links to the same bucket, with the name in the first, second or fifth; chains of 3000 buckets",
        |cx| {
            const AT: [usize; 9] = [0, 255, 256, 32767, 32768, 65535, 65536, 65537, 69999];
            let mut s = Shards::new();
            match cx.choose(6) {
                0..=3 => {
                    let i = cx.choose(AT.len());
                    let j = i + cx.choose(AT.len() - i);
                    let ok = [cx.flag(), i == j || cx.flag()];
                    let links = (0..70000)
                        .map(|k| {
                            let c = fake_cid(0, k as u32);
                            if k == AT[i] {
                                L::new(if ok[0] { &c } else { b"bad" }, "00x", 1)
                            } else if k == AT[j] {
                                L::new(if ok[1] { &c } else { b"bad" }, "FFx", 1)
                            } else {
                                L::new(&c, "00y", 1)
                            }
                        })
                        .collect();
                    let mut root = Blk::shard(links);
                    if cx.flag() {
                        let c = s.put(root);
                        root = Blk::shard(vec![L::new(&c, "AB", 1)]);
                    }
                    lookup(cx, &s.blocks, &root, "x", 99, false).map(|_| ())
                }
                4 => {
                    // all there is is pending at once; one of the first of them ends the lookup
                    let n = *cx.pick(&[300, 1000, 5000, 66000]);
                    let at = *cx.pick(&[0, 1, 4]);
                    let c = s.put(Blk::shard(vec![L::new(&fake_cid(0, 5), "00x", 1)]));
                    let none = s.put(Blk::shard(vec![L::new(&fake_cid(0, 5), "00y", 1)]));
                    let root = Blk::shard((0..n).map(|i| L::new(if i < at { &none } else { &c }, "AB", 1)).collect());
                    lookup(cx, &s.blocks, &root, "x", 99, false).map(|_| ())
                }
                _ => {
                    let there = cx.flag();
                    let mut b = Blk::shard(if there { vec![L::new(&fake_cid(0, 9), "00a", 1)] } else { vec![] });
                    for i in 0..3000 {
                        let c = s.put(b);
                        b = Blk::shard(vec![L::new(&c, &format!("{:02X}", i % 256), 1), L::new(&fake_cid(0, 8), "00c", 1)]);
                    }
                    let got = lookup(cx, &s.blocks, &b, "a", 2500, false)?;
                    overall(&got, &b, &s.blocks, "a")
                }
            }
        },
    );
    vec![trees, kinds, dup, props, others, broken, large, equal, needles, confusable, nears, far]
}

// --- C11 ------------------------------------------------------------------------------------

pub fn c11_lookups(tier: Tier) -> Vec<Scenario> {
    let n = tier.of(8, 10);
    vec![
        scenario(
            "lookups",
            format!("every state of looking up an absent name and present ones in every tree of shards of up to {n} links (at most 3 per shard, depth 4)"),
            move |cx| {
                let mut s = Shards::new();
                let mut budget = n;
                let root = gen_shard(cx, &mut s, &mut budget, 4, 3, 1);
                let needle = *cx.pick(&["c", "a"]);
                let owned = if cx.flag() { 1 } else { 99 };
                lookup(cx, &s.blocks, &root, needle, owned, true).map(|_| ())
            },
        ),
        scenario("repeated-buckets", "every list of up to 4 links to two buckets on two levels, repeatedly linked ones included, every state of the lookup", |cx| {
            let mut s = Shards::new();
            let c1 = s.put(Blk::shard(vec![L::new(&fake_cid(0, 1), "00x", 1)]));
            let c2 = s.put(Blk::shard(vec![]));
            let mid = Blk::shard((0..cx.choose(5)).map(|i| L::new(if cx.flag() { &c1 } else { &c2 }, &format!("{i:02X}"), 1)).collect());
            let c3 = s.put(mid);
            let root = Blk::shard((0..cx.choose(5)).map(|i| L::new(*cx.pick(&[&c1, &c2, &c3]), &format!("{i:02X}"), 1)).collect());
            lookup(cx, &s.blocks, &root, "z", 99, true).map(|_| ())
        }),
    ]
}
