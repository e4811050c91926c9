#![allow(dead_code)]
//! Helpers shared by the demonstrations: a small encoder, a block store, a reader and a walker.
use libipld::multihash::{Code, MultihashDigest};
use libipld::Cid;
use std::collections::HashMap;
use std::convert::TryFrom;
use std::ops::Range;
use unixfs_v1::file::adder::{BalancedCollector, Chunker, FileAdder};
use unixfs_v1::file::visit::IdleFileVisit;
use unixfs_v1::walk::{ContinuedWalk, Walker};

pub fn vi(o: &mut Vec<u8>, mut v: u64) {
    while v > 127 {
        o.push(v as u8 | 128);
        v >>= 7;
    }
    o.push(v as u8);
}
pub fn vf(f: u64, v: u64) -> Vec<u8> {
    let mut o = vec![];
    vi(&mut o, f << 3);
    vi(&mut o, v);
    o
}
pub fn lf(f: u64, b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    vi(&mut o, f << 3 | 2);
    vi(&mut o, b.len() as u64);
    o.extend_from_slice(b);
    o
}
pub fn link(cid: &[u8], name: &str, tsize: u64) -> Vec<u8> {
    lf(2, &[lf(1, cid), lf(2, name.as_bytes()), vf(3, tsize)].concat())
}
pub fn node(links: &[Vec<u8>], unixfs: &[Vec<u8>]) -> Vec<u8> {
    [links.concat(), lf(1, &unixfs.concat())].concat()
}
pub fn mode(m: u32) -> Vec<u8> {
    vf(7, m as u64)
}
pub fn mtime(s: i64, n: Option<u32>) -> Vec<u8> {
    let mut b = vf(1, s as u64);
    if let Some(n) = n {
        b.push(21);
        b.extend_from_slice(&n.to_le_bytes());
    }
    lf(8, &b)
}
pub fn cid(block: &[u8]) -> Cid {
    Cid::new_v1(0x70, Code::Sha2_256.digest(block))
}
/// A file leaf
pub fn leaf(data: &[u8]) -> Vec<u8> {
    node(&[], &[vf(1, 2), lf(2, data), vf(3, data.len() as u64)])
}

#[derive(Default)]
pub struct Store(pub HashMap<Cid, Vec<u8>>);
impl Store {
    pub fn put(&mut self, block: Vec<u8>) -> Cid {
        let c = cid(&block);
        self.0.insert(c, block);
        c
    }
    pub fn get(&self, c: &Cid) -> &[u8] {
        self.0.get(c).unwrap_or_else(|| panic!("asked for an unknown block {}", c))
    }
    pub fn leaf(&mut self, data: &[u8]) -> Cid {
        self.put(leaf(data))
    }
    /// An intermediate file block over children and their sizes
    pub fn inner(&mut self, kids: &[(Cid, u64)], extra: &[Vec<u8>]) -> Cid {
        let links: Vec<_> = kids.iter().map(|(c, _)| link(&c.to_bytes(), "", 100)).collect();
        let mut u = vec![vf(1, 2), vf(3, kids.iter().map(|k| k.1).sum())];
        u.extend(kids.iter().map(|k| vf(4, k.1)));
        u.extend_from_slice(extra);
        self.put(node(&links, &u))
    }
    pub fn dir(&mut self, kids: &[(&str, Cid)], extra: &[Vec<u8>]) -> Cid {
        let links: Vec<_> = kids.iter().map(|(n, c)| link(&c.to_bytes(), n, 100)).collect();
        let u = [vec![vf(1, 1)], extra.to_vec()].concat();
        self.put(node(&links, &u))
    }
    pub fn shard(&mut self, kids: &[(&str, Cid)], extra: &[Vec<u8>]) -> Cid {
        let links: Vec<_> = kids.iter().map(|(n, c)| link(&c.to_bytes(), n, 100)).collect();
        let u = [vec![vf(1, 5), vf(5, 34), vf(6, 256)], extra.to_vec()].concat();
        self.put(node(&links, &u))
    }
    /// Reads a file, all of it or a range. Returns content, file size and the blocks asked for.
    pub fn read(&self, c: Cid, range: Option<Range<u64>>) -> Result<(Vec<u8>, u64, Vec<Cid>), String> {
        let mut asked = vec![c];
        let mut visit = IdleFileVisit::default();
        if let Some(r) = range {
            visit = visit.with_target_range(r);
        }
        let (b, size, _, mut step) = visit.start(self.get(&c)).map_err(|e| format!("{:?}", e))?;
        let mut out = b.to_vec();
        while let Some(v) = step {
            let next = *v.pending_links().0;
            asked.push(next);
            let (b, s) = v.continue_walk(self.get(&next), &mut None).map_err(|e| format!("{:?}", e))?;
            out.extend_from_slice(b);
            step = s;
        }
        Ok((out, size, asked))
    }
    /// One line for each step of a walk
    pub fn walk(&self, c: Cid, root: &str) -> Vec<String> {
        let mut w = Walker::new(c, root.to_string());
        let mut out = vec![];
        while w.should_continue() {
            let pending: Vec<Cid> = {
                let (f, r) = w.pending_links();
                std::iter::once(f).chain(r).copied().collect()
            };
            let block = self.get(&pending[0]);
            out.push(match w.next(block, &mut None) {
                Err(e) => format!("error {:?}", e),
                Ok(ContinuedWalk::Bucket(c, p)) => format!("bucket {} {:?}", c, p),
                Ok(ContinuedWalk::Directory(c, p, m)) => format!("dir {} {:?} {:?}", c, p, m),
                Ok(ContinuedWalk::RootDirectory(c, p, m)) => format!("rootdir {} {:?} {:?}", c, p, m),
                Ok(ContinuedWalk::Symlink(b, c, p, m)) => format!("link {:?} {} {:?} {:?}", b, c, p, m),
                Ok(ContinuedWalk::File(s, c, p, m, size)) => format!(
                    "file {:?} {} {} {} {:?} {:?} {}",
                    s.as_bytes(), s.is_first(), s.is_last(), c, p, m, size
                ),
            });
        }
        out
    }
}
/// Imports content in pushes of the given length
pub fn import(content: &[u8], chunk: usize, branching: usize, push: usize) -> Vec<(Cid, Vec<u8>)> {
    let mut a = FileAdder::builder()
        .with_chunker(Chunker::Size(chunk))
        .with_collector(BalancedCollector::with_branching_factor(branching))
        .build();
    let mut out = vec![];
    let mut rest = content;
    while !rest.is_empty() {
        let (blocks, n) = a.push(&rest[..push.min(rest.len())]);
        out.extend(blocks);
        rest = &rest[n..];
    }
    out.extend(a.finish());
    out
}
pub fn bytes(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 7 + i / 251) as u8).collect()
}
pub fn to_cid(b: &[u8]) -> Cid {
    Cid::try_from(b).unwrap()
}
