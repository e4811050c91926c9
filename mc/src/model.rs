//! Abstract trees with their encoding, and the reference models of visits and walks, run in
//! lockstep with the implementation.

use crate::enc::*;
use crate::ensure;
use crate::explore::*;
use libipld::Cid;
use std::ops::Range;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use unixfs_v1::file::visit::{Cache, FileVisit, IdleFileVisit};
use unixfs_v1::file::FileReadFailed;
use unixfs_v1::walk::{self, ContinuedWalk, Walker};
use unixfs_v1::Metadata;

pub struct N {
    pub cid: Vec<u8>,
    pub block: Vec<u8>,
    pub meta: Meta,
    pub what: What,
}

pub enum What {
    Dir(Vec<(String, Rc<N>)>),
    /// Full link names, prefixes included; exactly two bytes means a continuation bucket.
    Shard(Vec<(String, Rc<N>)>),
    /// A file block with links; `u64` is the block size of the link.
    Inner(Vec<(Rc<N>, u64)>, u64),
    Leaf(Vec<u8>),
    Sym(Vec<u8>),
}

impl N {
    pub fn size(&self) -> u64 {
        match &self.what {
            What::Inner(_, s) => *s,
            What::Leaf(d) => d.len() as u64,
            _ => 0,
        }
    }
    pub fn is_file(&self) -> bool {
        matches!(self.what, What::Inner(..) | What::Leaf(_))
    }
    pub fn content(&self) -> Vec<u8> {
        match &self.what {
            What::Leaf(d) => d.clone(),
            What::Inner(k, _) => k.iter().flat_map(|(n, _)| n.content()).collect(),
            _ => vec![],
        }
    }
    /// Appends what lies in `r`, this being at `at`. Does not touch what lies elsewhere, for there
    /// may be more of it than anyone can hold.
    pub fn content_in(&self, at: u64, r: &Range<u64>, out: &mut Vec<u8>) {
        if r.end <= at || at + self.size() <= r.start {
            return;
        }
        match &self.what {
            What::Leaf(d) => out.extend_from_slice(slice_of(d, at, &Some(r.clone()))),
            What::Inner(k, _) => {
                let mut at = at;
                for (n, s) in k {
                    n.content_in(at, r, out);
                    at += s;
                }
            }
            _ => {}
        }
    }
    pub fn leaves(&self, out: &mut Vec<Vec<u8>>) {
        match &self.what {
            What::Leaf(d) => out.push(d.clone()),
            What::Inner(k, _) => k.iter().for_each(|(n, _)| n.leaves(out)),
            _ => {}
        }
    }
    pub fn count(&self) -> usize {
        1 + match &self.what {
            What::Dir(k) | What::Shard(k) => k.iter().map(|x| x.1.count()).sum(),
            What::Inner(k, _) => k.iter().map(|x| x.0.count()).sum::<usize>(),
            _ => 0,
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let s: String = b.iter().take(48).map(|x| format!("{x:02x}")).collect();
    if b.len() > 48 {
        format!("{s}..({} bytes)", b.len())
    } else {
        s
    }
}

/// Source of made up CIDs.
pub struct Ids {
    next: u32,
    pub variant: usize,
    pub rotate: bool,
}

impl Ids {
    pub fn new() -> Ids {
        Ids { next: 1, variant: 0, rotate: false }
    }
    /// Every following CID is of another version, codec and hash function.
    pub fn rotating(start: usize) -> Ids {
        Ids { next: 1, variant: start, rotate: true }
    }
    pub fn cid(&mut self) -> Vec<u8> {
        let c = fake_cid(self.variant, self.next);
        self.next += 1;
        if self.rotate {
            self.variant = (self.variant + 1) % CID_VARIANTS;
        }
        c
    }
}

// --- building -------------------------------------------------------------------------------

#[derive(Clone, Debug, Default)]
pub struct LeafOpt {
    pub raw: bool,
    /// leave out the size
    pub no_size: bool,
    /// encode empty content as a present field
    pub empty_data: bool,
    pub mode: Option<u32>,
    pub mtime: Option<(i64, Option<u32>)>,
}

/// A link of a tree which is read. What its cumulative size says, or a name on a link within a
/// file, is of no importance; they take different values over the links of a tree.
fn link(parent: &[u8], i: usize, to: &N, name: Option<&str>) -> L {
    let salt = i + parent.iter().map(|b| *b as usize).sum::<usize>();
    let real = to.block.len() as u64;
    L {
        hash: Some(to.cid.clone()),
        name: match name {
            Some(n) => Some(n.as_bytes().to_vec()),
            None => [Some(&b""[..]), None, Some(&b""[..]), Some(&b"x"[..]), Some(&b"00"[..])][salt % 5].map(|n| n.to_vec()),
        },
        tsize: [Some(real), Some(0), Some(real), None, Some(1), Some(u64::MAX), Some(1 << 32)][salt % 7],
    }
}

pub fn leaf(cid: Vec<u8>, data: &[u8], o: &LeafOpt) -> Rc<N> {
    let u = U {
        ty: if o.raw { RAW } else { FILE },
        data: if data.is_empty() && !o.empty_data { None } else { Some(data.to_vec()) },
        filesize: if o.no_size { None } else { Some(data.len() as u64) },
        mode: o.mode,
        mtime: o.mtime,
        ..U::default()
    };
    Rc::new(N { cid, block: block(&[], &u), meta: u.meta(), what: What::Leaf(data.to_vec()) })
}

pub fn inner(cid: Vec<u8>, kids: Vec<Rc<N>>, o: &LeafOpt) -> Rc<N> {
    let sizes: Vec<u64> = kids.iter().map(|k| k.size()).collect();
    let total = sizes.iter().sum::<u64>();
    let links: Vec<L> = kids.iter().enumerate().map(|(i, k)| link(&cid, i, k, None)).collect();
    let u = U {
        ty: if o.raw { RAW } else { FILE },
        data: if o.empty_data { Some(vec![]) } else { None },
        filesize: Some(total),
        blocksizes: sizes.clone(),
        mode: o.mode,
        mtime: o.mtime,
        ..U::default()
    };
    let b = block(&links, &u);
    Rc::new(N { cid, block: b, meta: u.meta(), what: What::Inner(kids.into_iter().zip(sizes).collect(), total) })
}

pub fn dir(cid: Vec<u8>, kids: Vec<(String, Rc<N>)>, mode: Option<u32>, mtime: Option<(i64, Option<u32>)>) -> Rc<N> {
    let links: Vec<L> = kids.iter().enumerate().map(|(i, (n, k))| link(&cid, i, k, Some(n))).collect();
    // empty data is as good as none
    let data = if cid.last().is_some_and(|b| b % 4 == 1) { Some(vec![]) } else { None };
    let u = U { ty: DIR, data, mode, mtime, ..U::default() };
    Rc::new(N { cid, block: block(&links, &u), meta: u.meta(), what: What::Dir(kids) })
}

pub fn shard(cid: Vec<u8>, kids: Vec<(String, Rc<N>)>, mode: Option<u32>, mtime: Option<(i64, Option<u32>)>) -> Rc<N> {
    let links: Vec<L> = kids.iter().enumerate().map(|(i, (n, k))| link(&cid, i, k, Some(n))).collect();
    // the bit field is not looked at
    let data = match cid.last().map_or(0, |b| b % 8) {
        1 => None,
        3 => Some(vec![]),
        5 => Some(vec![0xff; 32]),
        _ => Some(vec![0x80, 0x01]),
    };
    let u = U { mode, mtime, data, ..U::shard() };
    Rc::new(N { cid, block: block(&links, &u), meta: u.meta(), what: What::Shard(kids) })
}

pub fn sym(cid: Vec<u8>, target: &[u8], mode: Option<u32>, mtime: Option<(i64, Option<u32>)>) -> Rc<N> {
    let u = U { ty: SYM, data: Some(target.to_vec()), mode, mtime, ..U::default() };
    Rc::new(N { cid, block: block(&[], &u), meta: u.meta(), what: What::Sym(target.to_vec()) })
}

pub fn meta_of(m: &Metadata) -> Meta {
    (m.mode(), m.mtime())
}

pub fn to_cid(b: &[u8]) -> Cid {
    Cid::try_from(b).expect("made up CID is valid")
}

// --- what is compared -----------------------------------------------------------------------

pub const KIND: u32 = 1;
pub const PATH: u32 = 2;
pub const CID: u32 = 4;
pub const METADATA: u32 = 8;
pub const BYTES: u32 = 16;
pub const FLAGS: u32 = 32;
pub const SIZE: u32 = 64;
pub const PENDING: u32 = 128;
pub const ORDER: u32 = 256;
pub const ALL: u32 = 511;

// --- visit ----------------------------------------------------------------------------------

struct Part {
    n: Rc<N>,
    at: Range<u64>,
}

pub fn relevant(at: &Range<u64>, r: &Range<u64>) -> (bool, bool) {
    let must = at.start.max(r.start) < at.end.min(r.end);
    let may = at.start.max(r.start) <= at.end.min(r.end);
    (must, may)
}

fn slice_of<'a>(d: &'a [u8], start: u64, r: &Option<Range<u64>>) -> &'a [u8] {
    match r {
        None => d,
        Some(r) => {
            let end = start + d.len() as u64;
            let s = r.start.clamp(start, end);
            let e = r.end.clamp(s, end);
            &d[(s - start) as usize..(e - start) as usize]
        }
    }
}

/// Which of `kids` the implementation chose to ask for: `added` has to be their CIDs in order,
/// including all that have to be and none that must not be there.
fn embed(kids: &[(Rc<N>, Range<u64>, bool, bool)], added: &[Vec<u8>], from: usize, out: &mut Vec<usize>) -> bool {
    let had = out.len();
    for (i, (n, _, must, may)) in kids.iter().enumerate().skip(from) {
        let same = *may && out.len() < added.len() && added[out.len()] == n.cid;
        if same && !must {
            out.push(i);
            if embed(kids, added, i + 1, out) {
                return true;
            }
            out.pop();
        } else if same {
            out.push(i);
        } else if *must {
            out.truncate(had);
            return false;
        }
    }
    if added.len() == out.len() {
        return true;
    }
    out.truncate(had);
    false
}

pub fn pending_of_visit(v: &FileVisit) -> Vec<Vec<u8>> {
    let (first, rest) = v.pending_links();
    std::iter::once(first).chain(rest).map(|c| c.to_bytes()).collect()
}

/// Whether all the pending links are to be looked at. There may be too many for always.
fn look(lean: bool, steps: u64, pending: usize) -> bool {
    !lean || pending < 8 || steps.is_power_of_two()
}

fn show(p: &[Vec<u8>]) -> String {
    p.iter().map(|c| hex(c)).collect::<Vec<_>>().join(" ")
}

pub struct VisitRun {
    root: Rc<N>,
    range: Option<Range<u64>>,
    /// ranges set before
    pub earlier: Vec<Range<u64>>,
    mask: u32,
    stack: Vec<Part>,
    pub bytes: Vec<u8>,
    pub segments: Vec<Vec<u8>>,
    visit: Option<FileVisit>,
    started: bool,
    pub done: bool,
    /// for files which are too large to be held, or of too many blocks to look at all the pending
    /// ones all the time
    pub lean: bool,
    steps: u64,
}

impl VisitRun {
    pub fn new(root: Rc<N>, range: Option<Range<u64>>, mask: u32) -> VisitRun {
        VisitRun { root, range, earlier: vec![], mask, stack: vec![], bytes: vec![], segments: vec![], visit: None, started: false, done: false, lean: false, steps: 0 }
    }

    fn idle(&self) -> IdleFileVisit {
        let mut idle = IdleFileVisit::default();
        for r in self.earlier.iter().chain(&self.range) {
            idle = idle.with_target_range(r.clone());
        }
        idle
    }

    /// The node whose block is next, where it lies, and whether it is the root.
    pub fn peek(&self) -> (Rc<N>, Range<u64>, bool) {
        match self.stack.last() {
            Some(p) if self.started => (p.n.clone(), p.at.clone(), false),
            _ => (self.root.clone(), 0..self.root.size(), true),
        }
    }

    /// Hands in any bytes as the next block, which are expected to be refused.
    pub fn refused(&mut self, bytes: &[u8], cache: &mut Option<Cache>) -> R<FileReadFailed> {
        let res = if self.started {
            self.visit.take().unwrap().continue_walk(bytes, cache).map(|r| r.0)
        } else {
            let idle = self.idle();
            idle.start(bytes).map(|r| r.0)
        };
        match res {
            Err(e) => Ok(e),
            Ok(b) => fail("visit: no error", format!("the faulty block {} is read as {}", hex(bytes), hex(b))),
        }
    }

    /// One step of the implementation and of the model. Returns a hash worthy summary.
    pub fn step(&mut self, cx: &mut Cx, cache: &mut Option<Cache>) -> R {
        let mask = self.mask;
        let (part, got, size, meta, next) = if !self.started {
            self.started = true;
            let root = self.root.clone();
            let idle = self.idle();
            let res = idle.start(&root.block);
            let part = Part { at: 0..root.size(), n: root.clone() };
            match res {
                Ok((b, size, meta, next)) => (part, b.to_vec(), size, meta_of(&meta), next),
                Err(e) => return fail("visit: start fails", format!("starting the visit of a well-formed tree fails: {e:?}")),
            }
        } else {
            let v = self.visit.take().unwrap();
            let part = self.stack.pop().unwrap();
            let (size, meta) = (v.file_size(), meta_of(v.as_ref()));
            let block_node = part.n.clone();
            let res = v.continue_walk(&block_node.block, cache);
            match res {
                Ok((b, next)) => {
                    if let Some(n) = &next {
                        if mask & SIZE != 0 {
                            ensure!(n.file_size() == self.root.size(), "visit: file size", "file_size() is {} instead of {}", n.file_size(), self.root.size());
                        }
                        if mask & METADATA != 0 {
                            ensure!(meta_of(n.as_ref()) == self.root.meta, "visit: metadata", "metadata is {:?} instead of {:?}", meta_of(n.as_ref()), self.root.meta);
                        }
                    }
                    (part, b.to_vec(), size, meta, next)
                }
                Err(e) => return fail("visit: continue fails", format!("continuing the visit of a well-formed tree fails: {e:?}")),
            }
        };
        self.steps += 1;
        let grown = match &part.n.what {
            What::Inner(kids, _) => kids.len(),
            _ => 0,
        };
        let full = look(self.lean, self.steps, self.stack.len()) || grown > 0;
        let pend = match &next {
            None => vec![],
            Some(v) if full => pending_of_visit(v),
            Some(v) => vec![v.pending_links().0.to_bytes()],
        };
        if self.lean {
            cx.step(&(got.len(), size, meta, &pend));
            cx.alive();
        } else {
            cx.step(&(&got, size, meta, &pend));
        }
        cx.log(|| format!("visit block {} -> bytes {} size {size} meta {meta:?} pending [{}]", hex(&part.n.cid), hex(&got), show(&pend)));
        if mask & SIZE != 0 {
            ensure!(size == self.root.size(), "visit: file size", "file size is {size} instead of {}", self.root.size());
        }
        if mask & METADATA != 0 {
            ensure!(meta == self.root.meta, "visit: metadata", "metadata is {meta:?} instead of {:?}", self.root.meta);
        }
        match &part.n.what {
            What::Leaf(d) => {
                let want = slice_of(d, part.at.start, &self.range);
                if mask & BYTES != 0 {
                    ensure!(got == want, "visit: bytes", "block at {:?} gives {} instead of {} (range {:?})", part.at, hex(&got), hex(want), self.range);
                }
            }
            What::Inner(kids, _) => {
                if mask & BYTES != 0 {
                    ensure!(got.is_empty(), "visit: bytes", "a link block gives bytes {}", hex(&got));
                }
                let mut at = part.at.start;
                let kids: Vec<_> = kids
                    .iter()
                    .map(|(k, s)| {
                        let r = at..at + s;
                        at += s;
                        let (must, may) = match &self.range {
                            None => (true, true),
                            Some(t) => relevant(&r, t),
                        };
                        (k.clone(), r, must, may)
                    })
                    .collect();
                let rest: Vec<Vec<u8>> = self.stack.iter().rev().map(|p| p.n.cid.clone()).collect();
                ensure!(
                    pend.len() >= rest.len() && pend[pend.len() - rest.len()..] == rest[..],
                    "visit: pending",
                    "the links pending before, [{}], are not the last ones of [{}]",
                    show(&rest), show(&pend)
                );
                let mut chosen = vec![];
                ensure!(
                    embed(&kids, &pend[..pend.len() - rest.len()], 0, &mut chosen),
                    "visit: asked blocks",
                    "with range {:?} the links {:?} lead to asking for [{}]",
                    self.range,
                    kids.iter().map(|k| (hex(&k.0.cid), &k.1)).collect::<Vec<_>>(),
                    show(&pend)
                );
                for i in chosen.into_iter().rev() {
                    self.stack.push(Part { n: kids[i].0.clone(), at: kids[i].1.clone() });
                }
            }
            _ => unreachable!(),
        }
        let want: Vec<Vec<u8>> = self.stack.iter().rev().take(if full { usize::MAX } else { 1 }).map(|p| p.n.cid.clone()).collect();
        ensure!(pend == want, "visit: pending", "pending links are [{}] instead of [{}]", show(&pend), show(&want));
        ensure!(next.is_some() == !self.stack.is_empty(), "visit: end", "the visit {} with {} blocks outstanding", if next.is_some() { "continues" } else { "ends" }, self.stack.len());
        if !self.lean {
            self.bytes.extend_from_slice(&got);
            self.segments.push(got);
        }
        self.visit = next;
        self.done = self.visit.is_none();
        Ok(())
    }

    pub fn finish(&self) -> R {
        if self.mask & BYTES != 0 && !self.lean {
            let mut want = vec![];
            self.root.content_in(0, &self.range.clone().unwrap_or(0..u64::MAX), &mut want);
            ensure!(self.bytes == want, "visit: content", "the visit gives {} instead of {}", hex(&self.bytes), hex(&want));
        }
        Ok(())
    }
}

/// Visits a file of many blocks or bytes.
pub fn visit_lean(cx: &mut Cx, root: &Rc<N>, range: Option<Range<u64>>, mask: u32) -> R {
    let mut v = VisitRun::new(root.clone(), range, mask);
    v.lean = true;
    let mut cache = None;
    while !v.done {
        v.step(cx, &mut cache)?;
    }
    Ok(())
}

pub fn visit(cx: &mut Cx, root: &Rc<N>, range: Option<Range<u64>>, mask: u32) -> R<Vec<Vec<u8>>> {
    let mut v = VisitRun::new(root.clone(), range, mask);
    let mut cache = None;
    while !v.done {
        v.step(cx, &mut cache)?;
    }
    v.finish()?;
    Ok(v.segments)
}

// --- walk -----------------------------------------------------------------------------------

struct FileCtx {
    n: Rc<N>,
    path: PathBuf,
}

enum Item {
    Ent { n: Rc<N>, path: PathBuf, bucket: bool },
    Part { n: Rc<N>, ctx: Rc<FileCtx> },
}

impl Item {
    fn node(&self) -> &Rc<N> {
        match self {
            Item::Ent { n, .. } | Item::Part { n, .. } => n,
        }
    }
}

/// What a block of a walk is there for.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Role {
    /// an entry of its own
    Entry,
    /// a continuation bucket
    Bucket,
    /// a block of a file below its root
    Part,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Bucket,
    Dir,
    RootDir,
    File,
    Sym,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Seen {
    pub kind: Ev,
    pub cid: Vec<u8>,
    pub path: PathBuf,
    pub meta: Option<Meta>,
    pub bytes: Vec<u8>,
    pub first: bool,
    pub last: bool,
    pub size: u64,
}

pub fn seen(w: &ContinuedWalk<'_>) -> Seen {
    let mk = |kind, cid: &Cid, path: &Path, meta: Option<&Metadata>| Seen {
        kind,
        cid: cid.to_bytes(),
        path: path.to_owned(),
        meta: meta.map(meta_of),
        bytes: vec![],
        first: false,
        last: false,
        size: 0,
    };
    match w {
        ContinuedWalk::Bucket(c, p) => mk(Ev::Bucket, c, p, None),
        ContinuedWalk::Directory(c, p, m) => mk(Ev::Dir, c, p, Some(m)),
        ContinuedWalk::RootDirectory(c, p, m) => mk(Ev::RootDir, c, p, Some(m)),
        ContinuedWalk::File(s, c, p, m, size) => {
            let mut e = mk(Ev::File, c, p, Some(m));
            e.bytes = s.as_bytes().to_vec();
            assert!(s.as_ref() == s.as_bytes());
            e.first = s.is_first();
            e.last = s.is_last();
            e.size = *size;
            e
        }
        ContinuedWalk::Symlink(t, c, p, m) => {
            let mut e = mk(Ev::Sym, c, p, Some(m));
            e.bytes = t.to_vec();
            e
        }
    }
}

pub fn pending_of_walk(w: &Walker) -> Vec<Vec<u8>> {
    let (first, rest) = w.pending_links();
    std::iter::once(first).chain(rest).map(|c| c.to_bytes()).collect()
}

pub struct WalkRun {
    walker: Walker,
    stack: Vec<Item>,
    mask: u32,
    first: bool,
    pub done: bool,
    pub seen: Vec<Seen>,
    pub keep: bool,
    /// as of visits
    pub lean: bool,
    steps: u64,
}

impl WalkRun {
    pub fn new(root: &Rc<N>, name: &str, mask: u32) -> WalkRun {
        WalkRun {
            walker: Walker::new(to_cid(&root.cid), name.to_string()),
            stack: vec![Item::Ent { n: root.clone(), path: PathBuf::from(name), bucket: false }],
            mask,
            first: true,
            done: false,
            seen: vec![],
            keep: false,
            lean: false,
            steps: 0,
        }
    }

    /// The node whose block is next and the role it has.
    pub fn peek(&self) -> (Rc<N>, Role) {
        let i = self.stack.last().unwrap();
        let role = match i {
            Item::Part { .. } => Role::Part,
            Item::Ent { bucket: true, .. } => Role::Bucket,
            _ => Role::Entry,
        };
        (i.node().clone(), role)
    }

    /// Hands in any bytes as the next block, which are expected to be refused.
    pub fn refused(&mut self, bytes: &[u8], cache: &mut Option<Cache>) -> R<walk::Error> {
        match self.walker.next(bytes, cache) {
            Err(e) => {
                ensure!(!self.walker.should_continue(), "walk: continues after an error", "after {e:?} the walk wants to continue");
                Ok(e)
            }
            Ok(w) => fail("walk: no error", format!("the faulty block {} is reported as {:?}", hex(bytes), seen(&w))),
        }
    }

    pub fn step(&mut self, cx: &mut Cx, cache: &mut Option<Cache>) -> R {
        let mask = self.mask;
        self.steps += 1;
        let full = look(self.lean, self.steps, self.stack.len());
        let pend = if full { pending_of_walk(&self.walker) } else { vec![self.walker.pending_links().0.to_bytes()] };
        let item = self.stack.pop().unwrap();
        ensure!(pend[0] == item.node().cid, "walk: next block", "the next block is {} instead of {}", hex(&pend[0]), hex(&item.node().cid));
        if mask & PENDING != 0 && full {
            let want: Vec<Vec<u8>> = std::iter::once(&item).chain(self.stack.iter().rev()).map(|i| i.node().cid.clone()).collect();
            ensure!(pend == want, "walk: pending", "pending links are [{}] instead of [{}]", show(&pend), show(&want));
        }
        let node = item.node().clone();
        let got = match self.walker.next(&node.block, cache) {
            Ok(w) => seen(&w),
            Err(e) => return fail("walk: fails", format!("walking a well-formed tree fails at {}: {e:?}", hex(&node.cid))),
        };
        if self.lean {
            cx.step(&(&got.kind, got.bytes.len(), &got.cid, &got.path, got.first, got.last, &pend[0]));
            cx.alive();
        } else {
            cx.step(&(&got, &pend));
        }
        cx.log(|| format!("walk block {} -> {:?} {:?} cid {} meta {:?} bytes {} first {} last {} size {}", hex(&node.cid), got.kind, got.path, hex(&got.cid), got.meta, hex(&got.bytes), got.first, got.last, got.size));

        let (cid, path, meta, part) = match &item {
            Item::Ent { n, path, .. } => (&n.cid, path, n.meta, false),
            Item::Part { ctx, .. } => (&ctx.n.cid, &ctx.path, ctx.n.meta, true),
        };
        let kinds: &[Ev] = match (&node.what, &item) {
            (What::Dir(_), _) if self.first => &[Ev::RootDir],
            (What::Dir(_), _) => &[Ev::Dir],
            (What::Shard(_), Item::Ent { bucket: true, .. }) => &[Ev::Bucket],
            (What::Shard(_), _) if self.first => &[Ev::RootDir],
            (What::Shard(_), _) => &[Ev::Dir, Ev::RootDir],
            (What::Inner(..) | What::Leaf(_), _) => &[Ev::File],
            (What::Sym(_), _) => &[Ev::Sym],
        };
        ensure!(kinds.contains(&got.kind), "walk: kind", "{:?} is reported as {:?} instead of {:?}", path, got.kind, kinds);
        if mask & CID != 0 {
            ensure!(&got.cid == cid, "walk: cid", "{:?} is reported with CID {} instead of {}", path, hex(&got.cid), hex(cid));
        }
        if mask & PATH != 0 {
            ensure!(&got.path == path, "walk: path", "the path is {:?} instead of {:?}", got.path, path);
        }
        if mask & METADATA != 0 {
            if let Some(m) = got.meta {
                ensure!(m == meta, "walk: metadata", "the metadata of {:?} is {:?} instead of {:?}", path, m, meta);
            }
        }
        let mut kids: Vec<Item> = vec![];
        match (&node.what, &item) {
            (What::Dir(ks), Item::Ent { path, .. }) => {
                for (name, k) in ks {
                    kids.push(Item::Ent { n: k.clone(), path: path.join(name), bucket: false });
                }
            }
            (What::Shard(ks), Item::Ent { path, .. }) => {
                for (name, k) in ks {
                    if name.len() == 2 {
                        kids.push(Item::Ent { n: k.clone(), path: path.clone(), bucket: true });
                    } else {
                        kids.push(Item::Ent { n: k.clone(), path: path.join(&name[2..]), bucket: false });
                    }
                }
            }
            (What::Inner(ks, _), _) => {
                let ctx = match &item {
                    Item::Part { ctx, .. } => ctx.clone(),
                    Item::Ent { n, path, .. } => Rc::new(FileCtx { n: n.clone(), path: path.clone() }),
                };
                for (k, _) in ks {
                    kids.push(Item::Part { n: k.clone(), ctx: ctx.clone() });
                }
            }
            (What::Leaf(d), _) => {
                if mask & BYTES != 0 {
                    ensure!(&got.bytes == d, "walk: bytes", "a block of {:?} gives {} instead of {}", path, hex(&got.bytes), hex(d));
                }
            }
            (What::Sym(t), _) => {
                if mask & BYTES != 0 {
                    ensure!(&got.bytes == t, "walk: target", "symlink {:?} has target {} instead of {}", path, hex(&got.bytes), hex(t));
                }
            }
            _ => unreachable!(),
        }
        if matches!(node.what, What::Inner(..)) && mask & BYTES != 0 {
            ensure!(got.bytes.is_empty(), "walk: bytes", "a link block of {:?} gives bytes", path);
        }
        let file_over = match (&node.what, &item) {
            (What::Inner(ks, _), Item::Ent { .. }) => ks.is_empty(),
            (_, Item::Ent { .. }) => true,
            (_, Item::Part { ctx, .. }) => {
                kids.is_empty() && !matches!(self.stack.last(), Some(Item::Part { ctx: c, .. }) if Rc::ptr_eq(c, ctx))
            }
        };
        if node.is_file() {
            let total = match &item {
                Item::Ent { n, .. } => n.size(),
                Item::Part { ctx, .. } => ctx.n.size(),
            };
            if mask & FLAGS != 0 {
                ensure!(got.first == !part, "walk: first", "a segment of {:?} is flagged first: {}, expected: {}", path, got.first, !part);
                ensure!(got.last == file_over, "walk: last", "a segment of {:?} is flagged last: {}, expected: {}", path, got.last, file_over);
            }
            if mask & SIZE != 0 {
                ensure!(got.size == total, "walk: size", "the size of {:?} is {} instead of {}", path, got.size, total);
            }
        }
        self.stack.extend(kids.into_iter().rev());
        let more = self.walker.should_continue();
        ensure!(more == !self.stack.is_empty(), "walk: end", "the walk {} with {} blocks outstanding after {:?}", if more { "continues" } else { "ends" }, self.stack.len(), got.path);
        self.first = false;
        self.done = !more;
        if self.keep {
            self.seen.push(got);
        }
        Ok(())
    }
}

/// Walks a tree of many blocks or bytes.
pub fn walk_lean(cx: &mut Cx, root: &Rc<N>, name: &str, mask: u32) -> R {
    let mut w = WalkRun::new(root, name, mask);
    w.lean = true;
    let mut cache = None;
    while !w.done {
        w.step(cx, &mut cache)?;
    }
    Ok(())
}

pub fn walk(cx: &mut Cx, root: &Rc<N>, name: &str, mask: u32) -> R<Vec<Seen>> {
    let mut w = WalkRun::new(root, name, mask);
    w.keep = true;
    let mut cache = None;
    let start = w.walker.should_continue();
    ensure!(start, "walk: start", "a new walk does not want to continue");
    while !w.done {
        w.step(cx, &mut cache)?;
    }
    Ok(w.seen)
}

// --- generators -----------------------------------------------------------------------------

/// Every file tree shape with at most `nodes` blocks. `budget` is decreased. `mk` makes a leaf.
pub fn gen_file(
    cx: &mut Cx,
    ids: &mut Ids,
    budget: &mut usize,
    depth: usize,
    max_kids: usize,
    root: bool,
    lf: &mut dyn FnMut(&mut Cx, &mut Ids, bool) -> Rc<N>,
    nd: &mut dyn FnMut(&mut Cx, &mut Ids, Vec<Rc<N>>, bool) -> Rc<N>,
) -> Rc<N> {
    // the block itself
    *budget -= 1;
    let most = if depth == 0 { 0 } else { max_kids.min(*budget) };
    let kids = cx.choose(most + 1);
    if kids == 0 {
        return lf(cx, ids, root);
    }
    // the following siblings need one block each
    let mut out = vec![];
    *budget -= kids;
    for _ in 0..kids {
        *budget += 1;
        out.push(gen_file(cx, ids, budget, depth - 1, max_kids, false, lf, nd));
    }
    nd(cx, ids, out, root)
}
