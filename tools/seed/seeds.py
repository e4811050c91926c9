SEEDS = {}
def seed(sid, property, needs, breaks, edits, demo):
    SEEDS[sid] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)

V='src/file/visit.rs'; R='src/file/reader.rs'; A='src/file/adder.rs'; W='src/walk.rs'; SL='src/dir/sharded_lookup.rs'
D='src/dir.rs'; IT='src/dir/builder/iter.rs'; BU='src/dir/builder/buffered.rs'; DB='src/dir/builder/dir_builder.rs'; CP='src/dir/builder/custom_pb.rs'
PBU='src/pb/unixfs.rs'; PBM='src/pb/merkledag.rs'; PB='src/pb.rs'; DP='src/dagpb.rs'; SY='src/symlink.rs'; LIB='src/lib.rs'

seed('c01-reverse-last-subtree','C01','a file with at least three levels, so that an intermediate block is the last pending work',
 'the links of an intermediate block are visited in reverse when nothing else is pending',
 [(V,"(&mut self.pending[before..]).reverse();","if before > 0 {\n                    self.pending[before..].reverse();\n                }")],
'''fn main() {
    let content = bytes(9);
    let blocks = import(&content, 1, 3, 9);
    let mut s = Store::default();
    let root = blocks.last().unwrap().0;
    for (_, b) in blocks { s.put(b); }
    assert_eq!(s.read(root, None).unwrap().0, content);
    // a tree whose last subtree is intermediate
    let content = bytes(5);
    let blocks = import(&content, 1, 3, 9);
    let root = blocks.last().unwrap().0;
    for (_, b) in blocks { s.put(b); }
    assert_eq!(s.read(root, None).unwrap(), (content, 5, s.read(root, None).unwrap().2));
}
''')
seed('c02-push-flushes-twice','C02','a push which completes the links of two levels at once while earlier, higher level links are pending',
 'link blocks are flushed a chunk early on some levels, so one push can emit three blocks',
 [(A,"if !finishing && pending[first_at..].len() <= self.branching_factor {","if !finishing && pending[first_at..].len() < self.branching_factor {")],
'''use unixfs_v1::file::adder::*;
fn main() {
    for branching in 2..4 {
        for n in 1..40usize {
            let content = bytes(n);
            let mut a = FileAdder::builder().with_chunker(Chunker::Size(1))
                .with_collector(BalancedCollector::with_branching_factor(branching)).build();
            for i in 0..n {
                let (blocks, used) = a.push(&content[i..]);
                assert_eq!(used, 1);
                let emitted = blocks.count();
                assert!(emitted <= 2, "push {} emitted {} blocks", i, emitted);
            }
        }
    }
}
''')
seed('c03-total-size-carried-over','C03','finishing an import which leaves two link blocks on one level to be created',
 'the cumulative size (Tsize) of the second link block of a level includes the one before it',
 [(A,"                let mut nested_size = 0;\n                let mut nested_total_size = 0;\n","                let mut nested_size = 0;\n"),
  (A,"            let mut last_overwrite = None;\n","            let mut last_overwrite = None;\n            let mut nested_total_size = 0;\n")],
'''use unixfs_v1::PBNode;
use std::convert::TryFrom;
fn main() {
    for n in 1..30usize {
        for branching in 2..5 {
            let blocks = import(&bytes(n), 1, branching, n);
            let mut s = Store::default();
            for (_, b) in &blocks { s.put(b.clone()); }
            fn total(s: &Store, c: &libipld::Cid) -> u64 {
                let b = s.get(c);
                let node = PBNode::try_from(b).unwrap();
                let mut sum = b.len() as u64;
                for l in &node.Links {
                    let t = total(s, &to_cid(l.Hash.as_deref().unwrap()));
                    assert_eq!(l.Tsize, Some(t), "Tsize");
                    sum += t;
                }
                sum
            }
            total(&s, &blocks.last().unwrap().0);
        }
    }
}
''')
seed('c04-nested-links-not-filtered','C04','a ranged visit of a file with at least three levels',
 'below the root, blocks outside of the range are asked for',
 [(V,"                    if !block_is_in_target_range(&range, self.range.as_ref()) {\n                        continue;\n                    }\n\n                    self.pending.push(to_pending(i, link, range)?);","                    self.pending.push(to_pending(i, link, range)?);")],
'''fn main() {
    let mut s = Store::default();
    let l: Vec<_> = (0..4u8).map(|i| s.leaf(&[i, i, i])).collect();
    let a = s.inner(&[(l[0], 3), (l[1], 3)], &[]);
    let b = s.inner(&[(l[2], 3), (l[3], 3)], &[]);
    let root = s.inner(&[(a, 6), (b, 6)], &[]);
    let (got, size, asked) = s.read(root, Some(1..2)).unwrap();
    assert_eq!((got, size), (vec![0], 12));
    assert_eq!(asked, vec![root, a, l[0]]);
}
''')
seed('c05-single-child-subtree','C05','an intermediate block, not the root\'s first, covering its parent exactly (a single child)',
 'file trees in which a block has just one child are refused as expanding',
 [(R,"Ending::TreeCoverage(cover_end) if next.start <= offset && &next.end > cover_end => {","Ending::TreeCoverage(cover_end)\n                if next.start <= offset && &next.end >= cover_end && next.start > 0 =>\n            {")],
'''fn main() {
    let mut s = Store::default();
    let l: Vec<_> = (0..3u8).map(|i| s.leaf(&[i, i])).collect();
    let a = s.inner(&[(l[0], 2), (l[1], 2)], &[]);
    let b = s.inner(&[(l[2], 2)], &[]);
    let root = s.inner(&[(a, 4), (b, 2)], &[]);
    assert_eq!(s.read(root, None).unwrap().0, vec![0, 0, 1, 1, 2, 2]);
}
''')
seed('c06-metadata-needs-both','C06','a non-root file block which has a mode but no mtime, or the other way round',
 'metadata on a block which is not the root is accepted when only one of mode and mtime is given',
 [(R,"if inner.data.mode.is_some() || inner.data.mtime.is_some() {","if inner.data.mode.is_some() && inner.data.mtime.is_some() {")],
'''fn main() {
    let mut s = Store::default();
    for extra in [vec![mode(0o644)], vec![mtime(1, None)], vec![mode(0), mtime(0, None)]] {
        let l = s.put(node(&[], &[&[vf(1, 2), lf(2, b"ab"), vf(3, 2)][..], &extra[..]].concat()));
        let root = s.inner(&[(l, 2)], &[]);
        let e = s.read(root, None).unwrap_err();
        assert!(e.contains("NonRootDefinesMetadata"), "{}", e);
    }
}
''')
seed('c06-more-blocksizes-than-links','C06','a file block with more block sizes than links',
 'surplus block sizes are ignored instead of being refused',
 [(R,"} else if inner.links.len() != inner.data.blocksizes.len() {","} else if inner.links.len() > inner.data.blocksizes.len() {")],
'''fn main() {
    let mut s = Store::default();
    let l = s.leaf(b"ab");
    for n in [0, 2, 3] {
        let mut u = vec![vf(1, 2), vf(3, 2 * n)];
        u.extend((0..n).map(|_| vf(4, 2)));
        let root = s.put(node(&[link(&l.to_bytes(), "", 9)], &u));
        let e = s.read(root, None).unwrap_err();
        assert!(e.contains("LinksAndBlocksizesMismatch"), "{}", e);
    }
}
''')
seed('c07-continue-after-file-error','C07','a block failing in the middle of a multi-block file of a walk, and the caller asking whether it can continue',
 'the walk claims it can continue after a failed file block, and then panics',
 [(W,"        *should_continue = false;\n\n        if let Some(InnerEntry {","        if let Some(InnerEntry {"),
  (W,"            if file_continues || next.is_some() {\n                *should_continue = true;\n            }\n","            *should_continue = file_continues || next.is_some();\n"),
  (W,"        let flat = FlatUnixFs::try_from(bytes)?;\n        let metadata = Metadata::from(&flat.data);\n","        *should_continue = false;\n\n        let flat = FlatUnixFs::try_from(bytes)?;\n        let metadata = Metadata::from(&flat.data);\n")],
'''use unixfs_v1::walk::Walker;
fn main() {
    let mut s = Store::default();
    let l = s.leaf(b"ab");
    let root = s.inner(&[(l, 2), (l, 2)], &[]);
    let mut w = Walker::new(root, String::new());
    w.next(s.get(&root), &mut None).unwrap();
    assert!(w.should_continue());
    let e = w.next(b"\\xff\\xff", &mut None).is_err();
    assert!(e && !w.should_continue());
}
''')
seed('c08-directory-as-bucket','C08','a sharded directory whose bucket link leads to a plain directory',
 'a lookup panics on an assertion instead of failing',
 [(SL,"Ok(hamt) if hamt.data.Type == UnixFsType::HAMTShard => hamt,","Ok(hamt)\n                if hamt.data.Type == UnixFsType::HAMTShard\n                    || hamt.data.Type == UnixFsType::Directory =>\n            {\n                hamt\n            }")],
'''use unixfs_v1::{resolve, MaybeResolved};
fn main() {
    let mut s = Store::default();
    let d = s.dir(&[], &[]);
    let root = s.shard(&[("00", d)], &[]);
    match resolve(s.get(&root), "foo", &mut None).unwrap() {
        MaybeResolved::NeedToLoadMore(l) => assert!(l.continue_walk(s.get(&d), &mut None).is_err()),
        x => panic!("{:?}", x),
    }
}
''')
seed('c08-empty-lookup','C08','a sharded directory with links of which none is a bucket or the name, after an earlier lookup left its cache',
 'the lookup asks for more without having a next block, panicking in pending_links',
 [(SL,"        } else if links.is_empty() {\n            *cache = Some(links.into());\n            Ok(MaybeResolved::NotFound)","        } else if links.capacity() == 0 {\n            Ok(MaybeResolved::NotFound)")],
'''use unixfs_v1::{resolve, MaybeResolved};
fn main() {
    let mut s = Store::default();
    let l = s.leaf(b"x");
    let root = s.shard(&[("00", l), ("01foo", l)], &[]);
    let other = s.shard(&[("01bar", l)], &[]);
    let mut cache = None;
    assert!(matches!(resolve(s.get(&root), "foo", &mut cache), Ok(MaybeResolved::Found(_))));
    match resolve(s.get(&other), "foo", &mut cache).unwrap() {
        MaybeResolved::NeedToLoadMore(l) => { l.pending_links(); panic!("nothing to load") }
        MaybeResolved::NotFound => {}
        x => panic!("{:?}", x),
    }
}
''')
seed('c09-shortest-paths-first','C09','a shard in which a bucket link precedes an entry',
 'entries of a shard are visited before its buckets instead of in link order',
 [(W,"""                // TODO: it might be worthwhile to lose the `rev` and sort the pushed links using
                // the depth ascending. This should make sure we are first visiting the shortest
                // path items.
                for link in links {
                    pending.push(link?);
                }
""","""                let before = pending.len();
                for link in links {
                    pending.push(link?);
                }
                pending[before..].sort_by_key(|(_, _, depth)| *depth);
""")],
'''fn main() {
    let mut s = Store::default();
    let l: Vec<_> = (0..3u8).map(|i| s.leaf(&[i])).collect();
    let b = s.shard(&[("00x", l[0])], &[]);
    let root = s.shard(&[("00", b), ("01y", l[1]), ("02z", l[2])], &[]);
    let w = s.walk(root, "r");
    let names: Vec<_> = w.iter().map(|l| ["r/x", "r/y", "r/z"].iter().position(|n| l.contains(n))).collect();
    assert_eq!(names, vec![None, None, Some(0), Some(1), Some(2)], "{:#?}", w);
}
''')
seed('c10-last-flag-of-the-walk','C10','a multi-block file which is not the last entry of the walk',
 'the last segment of a file is flagged last only when the whole walk ends there',
 [(W,"""            let segment = FileSegment::later(bytes, !file_continues);
            *visit = step;
            if file_continues || next.is_some() {
                *should_continue = true;
            }
""","""            *visit = step;
            if file_continues || next.is_some() {
                *should_continue = true;
            }
            let segment = FileSegment::later(bytes, !*should_continue);
""")],
'''fn main() {
    let mut s = Store::default();
    let l = s.leaf(b"ab");
    let f = s.inner(&[(l, 2), (l, 2)], &[]);
    let root = s.dir(&[("a", f), ("b", l)], &[]);
    let w = s.walk(root, "");
    assert!(w[1].contains("] true false"), "{:#?}", w);
    assert!(w[2].contains("] false false"), "{:#?}", w);
    assert!(w[3].contains("] false true"), "{:#?}", w);
    assert!(w[4].contains("] true true"), "{:#?}", w);
}
''')
seed('c11-next-not-pending-in-file','C11','looking at the pending links while inside of a multi-block file followed by another entry',
 'the entry following the file is missing from the pending links until the file is done',
 [(W,"                let next = self.next.iter().map(|(cid, _, _)| cid);\n                (first, Either::Left(rest.chain(next.chain(cids))))","                (first, Either::Left(rest.chain(cids)))")],
'''use unixfs_v1::walk::Walker;
fn main() {
    let mut s = Store::default();
    let l = s.leaf(b"ab");
    let (x, y) = (s.leaf(b"x"), s.leaf(b"y"));
    let f = s.inner(&[(l, 2), (l, 2)], &[]);
    let root = s.dir(&[("a", f), ("b", x), ("c", y)], &[]);
    let mut w = Walker::new(root, String::new());
    w.next(s.get(&root), &mut None).unwrap();
    w.next(s.get(&f), &mut None).unwrap();
    let (first, rest) = w.pending_links();
    assert_eq!((*first, rest.copied().collect::<Vec<_>>()), (l, vec![l, x, y]));
}
''')
seed('c11-duplicate-buckets-dropped','C11','a shard linking the same bucket twice',
 'a lookup lists a bucket only once although it is linked twice',
 [(SL,"                work.push_back(cid);","                if !work.contains(&cid) {\n                    work.push_back(cid);\n                }")],
'''use unixfs_v1::{resolve, MaybeResolved};
fn main() {
    let mut s = Store::default();
    let e = s.shard(&[], &[]);
    let root = s.shard(&[("00", e), ("01", e)], &[]);
    match resolve(s.get(&root), "foo", &mut None).unwrap() {
        MaybeResolved::NeedToLoadMore(l) => {
            assert_eq!(l.pending_links().1.count(), 1);
            assert!(matches!(l.continue_walk(s.get(&e), &mut None), Ok(MaybeResolved::NeedToLoadMore(_))));
        }
        x => panic!("{:?}", x),
    }
}
''')
seed('c12-shard-keeps-old-metadata','C12','a sharded directory below another directory, with different metadata',
 'a nested sharded directory is reported with the metadata of the entry before it',
 [(W,"""                self.kind = RootBucket;
                self.set_path(name, depth);
                self.metadata = metadata;
""","""                self.kind = RootBucket;
                self.set_path(name, depth);
                if metadata != Metadata::default() {
                    self.metadata = metadata;
                }
""")],
'''fn main() {
    let mut s = Store::default();
    let h = s.shard(&[], &[]);
    let root = s.dir(&[("h", h)], &[mode(0o755)]);
    let w = s.walk(root, "");
    assert!(w[0].contains("mode: Some(493)") && w[1].contains("mode: None"), "{:#?}", w);
}
''')
seed('c12-zero-nanos-drop-mtime','C12','an mtime without fractional nanoseconds',
 'a modification time with whole seconds before 1970 is shifted by a second',
 [(LIB,"            .map(|ut| (ut.Seconds, ut.FractionalNanoseconds.unwrap_or(0)));","            .map(|ut| match ut.FractionalNanoseconds {\n                Some(nanos) => (ut.Seconds, nanos),\n                None if ut.Seconds < 0 => (ut.Seconds - 1, 0),\n                None => (ut.Seconds, 0),\n            });")],
'''fn main() {
    let mut s = Store::default();
    let root = s.dir(&[], &[mtime(-5, None)]);
    let w = s.walk(root, "");
    assert!(w[0].contains("Some((-5, 0))"), "{:#?}", w);
}
''')
seed('c13-wide-codec-size','C13','a link to a CID whose codec takes more than one byte',
 'the size of the link is computed too small and the directory cannot be rendered',
 [(CP,"let codec_len = sizeof_varint(self.0.codec());","let codec_len = 1;")],
'''use unixfs_v1::dir::builder::*;
use libipld::{Cid, multihash::{Code, MultihashDigest}};
fn main() {
    let c = Cid::new_v1(0x129, Code::Sha2_256.digest(b"x"));
    let mut b = BufferingTreeBuilder::default();
    b.put_link("d/x", c, 10).unwrap();
    let nodes: Vec<_> = b.build().map(|r| r.unwrap()).collect();
    let want = node(&[link(&c.to_bytes(), "x", 10)], &[vf(1, 1)]);
    assert_eq!(&nodes[0].block[..], &want[..]);
}
''')
seed('c13-path-shortcut-too-eager','C13','nested directories of the same name, the deeper one rendered just before',
 'a directory is reported under the path of its equally named descendant',
 [(IT,"if *old_depth == depth && Some(&full_path[(slash_at + 1)..]) == name {","if Some(&full_path[(slash_at + 1)..]) == name {"),
  (IT,"                    // going from a/b/foo/zz => a/b/foo does not need to go through the a/b\n                    return;","                    // going from a/b/foo/zz => a/b/foo does not need to go through the a/b\n                    *old_depth = depth;\n                    return;")],
'''use unixfs_v1::dir::builder::*;
fn main() {
    let c = cid(b"x");
    let mut b = BufferingTreeBuilder::default();
    b.put_link("a/b/b/x", c, 10).unwrap();
    let paths: Vec<_> = b.build().map(|r| r.unwrap().path).collect();
    assert_eq!(paths, vec!["a/b/b", "a/b", "a"]);
}
''')
seed('c14-id-not-consumed','C14','a directory registered explicitly before another one is implied',
 'two directories share an id when one was registered explicitly, and the build mixes up or panics',
 [(BU,"                if next_id.is_none() {\n                    *counter += 1;\n                }\n","                if ret.is_err() && next_id.is_none() {\n                    *counter += 1;\n                }\n")],
'''use unixfs_v1::dir::builder::*;
fn main() {
    let c = cid(b"x");
    let build = |explicit: bool| {
        let mut b = BufferingTreeBuilder::default();
        b.put_link("a/z", c, 1).unwrap();
        if explicit { b.set_metadata("a/b", Default::default()).unwrap(); }
        b.put_link("a/c/x/y", c, 10).unwrap();
        b.put_link("a/b/x/y", c, 10).unwrap();
        b.put_link("a/b/w/y", c, 10).unwrap();
        b.build().map(|r| r.unwrap()).map(|n| (n.path, n.cid)).collect::<Vec<_>>()
    };
    assert_eq!(build(false), build(true));
}
''')
seed('c15-late-slash-check','C15','a path ending in a slash below directories which are not there yet',
 'a refused registration leaves implied directories behind',
 [(BU,"""        if full_path.ends_with('/') {
            return Err(TreeBuildingFailed::PathEndsInSlash(full_path.to_string()));
        }

""",""),
  (BU,"""                (_, "", true) => unreachable!("already validated: path does not end in slash"),""","""                (_, "", true) => {
                    return Err(TreeBuildingFailed::PathEndsInSlash(full_path.to_string()))
                }""")],
'''use unixfs_v1::dir::builder::*;
fn main() {
    let c = cid(b"x");
    let mut b = BufferingTreeBuilder::default();
    b.put_link("a/x", c, 1).unwrap();
    assert!(matches!(b.put_link("a/b/c/", c, 1), Err(TreeBuildingFailed::PathEndsInSlash(_))));
    let paths: Vec<_> = b.build().map(|r| r.unwrap().path).collect();
    assert_eq!(paths, vec!["a"]);
}
''')
seed('c16-limit-off-by-one','C16','a directory block of exactly the limit',
 'a directory block exactly as large as the limit is refused',
 [(IT,"            if *limit < size {","            if *limit <= size {")],
'''use unixfs_v1::dir::builder::*;
fn main() {
    let c = cid(b"x");
    let want = node(&[link(&c.to_bytes(), "x", 1)], &[vf(1, 1)]).len() as u64;
    for limit in want - 1..want + 2 {
        let mut o = TreeOptions::default();
        o.block_size_limit(Some(limit));
        let mut b = BufferingTreeBuilder::new(o);
        b.put_link("a/x", c, 1).unwrap();
        assert_eq!(b.build().next().unwrap().is_ok(), limit >= want, "{}", limit);
    }
}
''')
seed('c17-positions-of-matches','C17','several links of the same name which are not the first links of the directory',
 'the reported positions count only matching links',
 [(D,"""    let mut matching = links.into_iter().enumerate().filter_map(|(i, link)| {
        match link.Name.as_deref().unwrap_or_default() {
            x if x == needle => Some((i, link)),
            _ => None,
        }
    });
""","""    let mut matching = links
        .into_iter()
        .filter(|link| link.Name.as_deref().unwrap_or_default() == needle)
        .enumerate();
""")],
'''use unixfs_v1::{resolve, dir::ResolveError, LookupError, dir::MultipleMatchingLinks};
fn main() {
    let mut s = Store::default();
    let l = s.leaf(b"x");
    let root = s.dir(&[("a", l), ("b", l), ("c", l), ("b", l)], &[]);
    match resolve(s.get(&root), "b", &mut None) {
        Err(ResolveError::Lookup(LookupError::Multiple(MultipleMatchingLinks::Two { first, second }))) => {
            assert_eq!((first.0, second.0), (1, 3))
        }
        x => panic!("{:?}", x),
    }
}
''')
seed('c18-buckets-unchecked','C18','a supported sharded directory with a bucket of unsupported fanout, hash or file properties',
 'only the first shard of a lookup is checked to be supported',
 [(SL,"        Self::check_supported(&mut hamt)?;\n\n        let found = Self::partition(\n            hamt.links.into_iter(),\n            self.needle.as_ref(),","        let found = Self::partition(\n            core::mem::take(&mut hamt.links).into_iter(),\n            self.needle.as_ref(),")],
'''use unixfs_v1::{resolve, MaybeResolved};
fn main() {
    let mut s = Store::default();
    let l = s.leaf(b"x");
    let b = s.put(node(&[link(&l.to_bytes(), "0foo", 1)], &[vf(1, 5), vf(5, 34), vf(6, 16)]));
    let root = s.shard(&[("00", b)], &[]);
    match resolve(s.get(&root), "foo", &mut None).unwrap() {
        MaybeResolved::NeedToLoadMore(l) => assert!(l.continue_walk(s.get(&b), &mut None).is_err()),
        x => panic!("{:?}", x),
    }
}
''')
seed('c19-lookup-cache-not-cleared','C19','a lookup that found its name with buckets left over, and another lookup using its cache',
 'the second lookup asks for the buckets the first one had left',
 [(SL,"    fn from(mut buffer: VecDeque<Cid>) -> Self {\n        buffer.clear();","    fn from(buffer: VecDeque<Cid>) -> Self {")],
'''use unixfs_v1::{resolve, MaybeResolved};
fn main() {
    let mut s = Store::default();
    let l = s.leaf(b"x");
    let root = s.shard(&[("00", l), ("01foo", l)], &[]);
    let other = s.shard(&[("01bar", l)], &[]);
    let mut cache = None;
    assert!(matches!(resolve(s.get(&root), "foo", &mut cache), Ok(MaybeResolved::Found(_))));
    assert!(matches!(resolve(s.get(&other), "foo", &mut cache), Ok(MaybeResolved::NotFound)));
}
''')
seed('c20-buffer-replaced','C20','serializing into a buffer with something in it already',
 'what was in the buffer is lost',
 [(SY,"    let mut writer = Writer::new(block_buffer);\n","    block_buffer.clear();\n    block_buffer.reserve(node.get_size());\n    let mut writer = Writer::new(&mut *block_buffer);\n")],
'''fn main() {
    let mut buf = vec![1, 2, 3];
    unixfs_v1::symlink::serialize_symlink_block("../x", &mut buf);
    let want = [&[1, 2, 3][..], &node(&[], &[vf(1, 4), lf(2, b"../x")])].concat();
    assert_eq!(buf, want);
}
''')
seed('c21-big-blocksizes','C21','a block size of 4 GiB or more',
 'the announced size of a UnixFS message with large block sizes is too small, corrupting nested lengths',
 [(PBU,"                .map(|s| 1 + sizeof_varint(*(s) as u64))","                .map(|s| 1 + sizeof_varint(*(s) as u32 as u64))")],
'''use unixfs_v1::{UnixFs, UnixFsType};
use quick_protobuf::MessageWrite;
fn main() {
    for v in [0u64, 127, 128, 1 << 31, 1 << 32, 1 << 40] {
        let u = UnixFs { Type: UnixFsType::File, blocksizes: vec![v], ..Default::default() };
        assert_eq!(u.get_size(), [vf(1, 2), vf(4, v)].concat().len());
    }
}
''')
seed('c22-first-filesize-wins','C22','an encoding with the filesize field twice',
 'the first of several filesize fields wins instead of the last',
 [(PBU,"Ok(24) => msg.filesize = Some(r.read_uint64(bytes)?),","Ok(24) => {\n                    let filesize = r.read_uint64(bytes)?;\n                    msg.filesize.get_or_insert(filesize);\n                }")],
'''use unixfs_v1::FlatUnixFs;
fn main() {
    let b = node(&[], &[vf(1, 2), vf(3, 5), vf(3, 7)]);
    assert_eq!(FlatUnixFs::try_parse(&b).unwrap().data.filesize, Some(7));
}
''')
seed('c22-string-lossy-last-link','C22','a UnixTime with nanoseconds before seconds in another order',
 'mtime fields after the fraction are not read',
 [(PBU,"                Ok(21) => msg.FractionalNanoseconds = Some(r.read_fixed32(bytes)?),","                Ok(21) => {\n                    // the last field\n                    msg.FractionalNanoseconds = Some(r.read_fixed32(bytes)?);\n                    r.read_to_end();\n                }")],
'''use unixfs_v1::FlatUnixFs;
fn main() {
    let t = [&[21u8, 9, 0, 0, 0][..], &vf(1, 77)].concat();
    let b = node(&[], &[vf(1, 1), lf(8, &t)]);
    let u = FlatUnixFs::try_parse(&b).unwrap().data;
    let m = u.mtime.unwrap();
    assert_eq!((m.Seconds, m.FractionalNanoseconds), (77, Some(9)));
}
''')
seed('c23-empty-data-is-none','C23','a node with an empty data field',
 'a present but empty data field is reported as missing',
 [(DP,"""        Some(Cow::Borrowed(slice)) => Some(slice),
        Some(Cow::Owned(_)) => unreachable!("never converted to owned"),
        None => None,
""","""        Some(Cow::Borrowed(slice)) if !slice.is_empty() => Some(slice),
        Some(Cow::Owned(_)) => unreachable!("never converted to owned"),
        Some(Cow::Borrowed(_)) | None => None,
""")],
'''fn main() {
    assert_eq!(unixfs_v1::dagpb::node_data(&[10, 0]).unwrap(), Some(&[][..]));
    assert_eq!(unixfs_v1::dagpb::node_data(&[]).unwrap(), None);
}
''')
seed('c24-same-content-counted-once','C24','a directory with two entries of the same content',
 'links to the same block are counted once in the total size of a directory',
 [(IT,"""        let combined_from_links = links
            .iter()
            .map(|opt| {
                opt.as_ref()
                    .map(|NamedLeaf(_, _, total_size)| total_size)
                    .unwrap()
            })
            .sum::<u64>();
""","""        let mut seen = std::collections::HashSet::new();
        let combined_from_links = links
            .iter()
            .map(|opt| opt.as_ref().unwrap())
            .filter(|NamedLeaf(_, cid, _)| seen.insert(*cid))
            .map(|NamedLeaf(_, _, total_size)| total_size)
            .sum::<u64>();
""")],
'''use unixfs_v1::dir::builder::*;
fn main() {
    let c = cid(b"x");
    let mut b = BufferingTreeBuilder::default();
    b.put_link("a/x", c, 7).unwrap();
    b.put_link("a/y", c, 7).unwrap();
    let n = b.build().next().unwrap().unwrap();
    assert_eq!(n.total_size, n.block.len() as u64 + 14);
}
''')
seed('c25-position-within-range','C25','a ranged visit with a broken link which is in the range, after links which are not',
 'the reported position of the broken link counts only links in the range',
 [(V,"""                let pending = iter.enumerate().filter_map(|(i, (link, range))| {
                    if !block_is_in_target_range(&range, self.range.as_ref()) {
                        return None;
                    }

                    Some(to_pending(i, link, range))
                });
""","""                let target = self.range.as_ref();
                let pending = iter
                    .filter(|(_, range)| block_is_in_target_range(range, target))
                    .enumerate()
                    .map(|(i, (link, range))| to_pending(i, link, range));
""")],
'''use unixfs_v1::file::{visit::IdleFileVisit, FileReadFailed};
fn main() {
    let mut s = Store::default();
    let l = s.leaf(b"abc");
    let b = node(&[link(&l.to_bytes(), "", 1), link(b"bad", "", 1)], &[vf(1, 2), vf(3, 6), vf(4, 3), vf(4, 3)]);
    match IdleFileVisit::default().with_target_range(4..5).start(&b) {
        Err(FileReadFailed::InvalidCid(e)) => assert_eq!(e.nth, 1),
        x => panic!("{:?}", x.is_ok()),
    };
}
''')
seed('c26-merged-metadata','C26','registering metadata for the same directory twice',
 'the second registration is merged into the first instead of replacing it',
 [(DB,"        self.metadata = metadata;\n","        let old = core::mem::replace(&mut self.metadata, metadata);\n        if self.metadata == Metadata::default() {\n            self.metadata = old;\n        }\n")],
'''use unixfs_v1::{dir::builder::*, FlatUnixFs, Metadata};
fn main() {
    let b = node(&[], &[vf(1, 1), mode(0o755)]);
    let meta = Metadata::from(&FlatUnixFs::try_parse(&b).unwrap().data);
    let mut t = BufferingTreeBuilder::default();
    t.set_metadata("a", meta).unwrap();
    t.set_metadata("a", Metadata::default()).unwrap();
    assert_eq!(&t.build().next().unwrap().unwrap().block[..], &node(&[], &[vf(1, 1)])[..]);
}
''')

# --- second batch -------------------------------------------------------------------------------

del SEEDS['c03-total-size-carried-over'], SEEDS['c05-single-child-subtree'], SEEDS['c24-same-content-counted-once']
seed('c03-lone-subtree-carried-up','C03','finishing with a single link block left over at the end of a level above the lowest',
 'a lone trailing link block is linked directly from two levels above, so the tree is not balanced',
 [(A,"                reused_links.clear();\n                reused_blocksizes.clear();\n\n                let mut nested_size = 0;","                if finishing && level > 0 && first_at + 1 == pending.len() {\n                    // nothing to group this one with\n                    let index = last_overwrite.map(|i| i + 1).unwrap_or(first_at);\n                    pending.swap(index, first_at);\n                    pending[index].depth = level + 1;\n                    last_overwrite = Some(index);\n                    break;\n                }\n\n                reused_blocksizes.clear();\n                reused_links.clear();\n\n                let mut nested_size = 0;")],
'''use unixfs_v1::PBNode;
use std::convert::TryFrom;
fn main() {
    for branching in 2..4 {
        for n in 1..60usize {
            let blocks = import(&bytes(n), 1, branching, n);
            let mut s = Store::default();
            for (_, b) in &blocks { s.put(b.clone()); }
            // all leaves at the same depth
            fn depths(s: &Store, c: &libipld::Cid, d: usize, out: &mut std::collections::BTreeSet<usize>) {
                let node = PBNode::try_from(s.get(c)).unwrap();
                if node.Links.is_empty() { out.insert(d); }
                for l in &node.Links { depths(s, &to_cid(l.Hash.as_deref().unwrap()), d + 1, out); }
            }
            let mut out = Default::default();
            depths(&s, &blocks.last().unwrap().0, 0, &mut out);
            assert_eq!(out.len(), 1, "{} chunks, {} links: leaves at depths {:?}", n, branching, out);
        }
    }
}
''')
seed('c05-raw-with-links','C05','a tree with intermediate blocks typed raw, as in trickle trees',
 'intermediate blocks of type raw below the root are refused',
 [(R,"        let mut reader = Self::from_parts(inner, offset, traversal.metadata)?;","        if inner.data.Type == UnixFsType::Raw && !inner.links.is_empty() && offset > 0 {\n            return Err(FileReadFailed::UnexpectedType(inner.data.Type.into()));\n        }\n\n        let mut reader = Self::from_parts(inner, offset, traversal.metadata)?;"),
  (R,"        if inner.data.mode.is_some() || inner.data.mtime.is_some() {","        if inner.data.mtime.is_some() || inner.data.mode.is_some() {")],
'''fn main() {
    let mut s = Store::default();
    let l = s.leaf(b"ab");
    let raw = s.put(node(&[link(&l.to_bytes(), "", 9)], &[vf(1, 0), vf(3, 2), vf(4, 2)]));
    let root = s.inner(&[(l, 2), (raw, 2)], &[]);
    assert_eq!(s.read(root, None).unwrap().0, b"abab");
}
''')
SEEDS['c14-id-not-consumed']['needs'] = 'a directory registered explicitly, and then something in a directory below it'
SEEDS['c14-id-not-consumed']['breaks'] = 'registering below an explicitly registered directory panics, while it works for an implied one'
SEEDS['c14-id-not-consumed']['demo'] = '''use unixfs_v1::dir::builder::*;
fn main() {
    let c = cid(b"x");
    let build = |explicit: bool| {
        let mut b = BufferingTreeBuilder::default();
        b.put_link("a/z", c, 1).unwrap();
        if explicit { b.set_metadata("a/b", Default::default()).unwrap(); }
        b.put_link("a/b/x/y", c, 10).unwrap();
        b.build().map(|r| r.unwrap()).map(|n| (n.path, n.cid)).collect::<Vec<_>>()
    };
    assert_eq!(build(false), build(true));
}
'''
seed('c24-names-ignore-case','C24','resolving a name which differs from a registered one by case only',
 'a name which was not registered is found',
 [(D,"            x if x == needle => Some((i, link)),","            x if x.eq_ignore_ascii_case(needle) => Some((i, link)),")],
'''use unixfs_v1::{dir::builder::*, resolve, MaybeResolved};
fn main() {
    let c = cid(b"x");
    let mut b = BufferingTreeBuilder::default();
    b.put_link("a/readme", c, 1).unwrap();
    let n = b.build().next().unwrap().unwrap();
    assert!(matches!(resolve(&n.block, "README", &mut None), Ok(MaybeResolved::NotFound)));
    assert!(matches!(resolve(&n.block, "readme", &mut None), Ok(MaybeResolved::Found(_))));
}
''')
seed('c06-holes-accepted','C06','a leaf which declares less than the block size of its link, followed by another leaf',
 'a hole between a leaf and the next block is accepted',
 [(R,"Ending::Chunk(chunk_end) if &next.start != chunk_end => {","Ending::Chunk(chunk_end) if &next.start < chunk_end => {")],
'''fn main() {
    let mut s = Store::default();
    let l = s.leaf(b"ab");
    let root = s.inner(&[(l, 4), (l, 2)], &[]);
    let e = s.read(root, None).unwrap_err();
    assert!(e.contains("TreeJumpsBetweenLinks"), "{}", e);
}
''')
seed('c09-symlink-after-bucket','C09','a symlink as first entry of a continuation bucket of the root shard',
 'a symlink directly following a continuation bucket panics the walk',
 [(W,"            Bucket\n            | BucketAtRoot\n            | Directory\n            | File(None, _)\n            | RootBucket\n            | RootDirectory\n            | Symlink => {\n                self.cid = cid;\n                self.kind = Symlink;","            BucketAtRoot\n            | Directory\n            | File(None, _)\n            | RootBucket\n            | RootDirectory\n            | Symlink => {\n                self.cid = cid;\n                self.kind = Symlink;")],
'''fn main() {
    let mut s = Store::default();
    let l = s.put(node(&[], &[vf(1, 4), lf(2, b"t")]));
    let b = s.shard(&[("00l", l)], &[]);
    let root = s.shard(&[("00", b)], &[]);
    let w = s.walk(root, "");
    assert!(w.len() == 3 && w[2].starts_with("link"), "{:#?}", w);
}
''')
seed('c09-bucket-after-deep-entry','C09','a bucket following an entry at least two levels deeper',
 'only one path component is dropped when a bucket follows a nested entry, and the walk panics',
 [(W,"                while self.depth > depth {\n                    assert!(self.path.pop());","                if self.depth > depth {\n                    assert!(self.path.pop());")],
'''fn main() {
    let mut s = Store::default();
    let l = s.leaf(b"x");
    let d = s.dir(&[("f", l)], &[]);
    let b = s.shard(&[("00z", l)], &[]);
    let root = s.shard(&[("00d", d), ("01", b)], &[]);
    let w = s.walk(root, "r");
    assert!(w[3].starts_with("bucket") && w[3].ends_with("\\"r\\"") && w[4].contains("r/z"), "{:#?}", w);
}
''')
seed('c11-visit-rest-reversed','C11','a visit with more than two pending blocks',
 'all pending links of a visit but the first are listed last to first',
 [(V,"        let mut iter = self.pending.iter().rev().map(|(link, _)| link);\n        let first = iter\n            .next()\n            .expect(\"the presence of links has been validated\");\n        (first, iter)","        let (first, rest) = self\n            .pending\n            .split_last()\n            .expect(\"the presence of links has been validated\");\n        (&first.0, rest.iter().map(|(link, _)| link))")],
'''use unixfs_v1::file::visit::IdleFileVisit;
fn main() {
    let mut s = Store::default();
    let l: Vec<_> = (0..3u8).map(|i| s.leaf(&[i])).collect();
    let root = s.inner(&[(l[0], 1), (l[1], 1), (l[2], 1)], &[]);
    let (_, _, _, v) = IdleFileVisit::default().start(s.get(&root)).unwrap();
    let v = v.unwrap();
    let (first, rest) = v.pending_links();
    assert_eq!((*first, rest.copied().collect::<Vec<_>>()), (l[0], vec![l[1], l[2]]));
}
''')
seed('c12-mode-permission-bits','C12','a mode with file type bits, or any above the permissions',
 'only the permission bits of the mode are reported',
 [(LIB,"        let mode = data.mode;","        let mode = data.mode.map(|mode| mode & 0o7777);")],
'''fn main() {
    let mut s = Store::default();
    let root = s.dir(&[], &[mode(0o40755)]);
    let w = s.walk(root, "");
    assert!(w[0].contains("Some(16877)"), "{:#?}", w);
}
''')
seed('c13-long-names','C13','a name of 128 bytes or more',
 'the size of a link with a long name is computed too small',
 [(CP,"        1 + sizeof_len((self.0).0.len())","        2 + (self.0).0.len()")],
'''use unixfs_v1::dir::builder::*;
fn main() {
    let c = cid(b"x");
    for n in [1, 127, 128, 300] {
        let name = "n".repeat(n);
        let mut b = BufferingTreeBuilder::default();
        b.put_link(&format!("d/{}", name), c, 10).unwrap();
        let block = b.build().next().unwrap().unwrap().block;
        assert_eq!(&block[..], &node(&[link(&c.to_bytes(), &name, 10)], &[vf(1, 1)])[..]);
    }
}
''')
seed('c15-link-replaces-empty-directory','C15','a link registered over a directory which was registered without entries',
 'an explicitly registered empty directory is replaced by a link instead of being refused as duplicate',
 [(DB,"            Occupied(_) => Err(DuplicateName),","            Occupied(mut oe) => match oe.get_mut().as_dir_builder() {\n                Ok(dir) if dir.is_empty() => {\n                    oe.insert(Entry::Leaf(leaf));\n                    Ok(())\n                }\n                _ => Err(DuplicateName),\n            },")],
'''use unixfs_v1::dir::builder::*;
fn main() {
    let c = cid(b"x");
    let mut b = BufferingTreeBuilder::default();
    b.set_metadata("a/b", Default::default()).unwrap();
    assert!(matches!(b.put_link("a/b", c, 1), Err(TreeBuildingFailed::DuplicatePath(_))));
}
''')
seed('c17-fanout-on-directory','C17','a plain directory with a fanout but no other foreign property',
 'a plain directory carrying a fanout is resolved instead of being refused',
 [("src/dir/directory.rs","        || flat.data.hashType.is_some()\n        || flat.data.fanout.is_some()\n","        || flat.data.hashType.is_some()\n")],
'''use unixfs_v1::resolve;
fn main() {
    let mut s = Store::default();
    let d = s.dir(&[], &[vf(6, 256)]);
    assert!(resolve(s.get(&d), "a", &mut None).is_err());
}
''')
seed('c18-same-target-twice','C18','two entries of the looked up name in one bucket which link to the same CID',
 'duplicate entries are accepted if they link to the same block',
 [(SL,"""                if let Some(first) = found.take() {
                    return Err(MultipleMatchingLinks::from((first, (i, link))).into());
                } else {
                    found = Some((i, try_convert_cid(i, link)?));
                }
""","""                let before: Option<(usize, Cid)> = found.take();
                match before {
                    Some((j, first))
                        if link.Hash.as_deref() != Some(first.to_bytes().as_slice()) =>
                    {
                        return Err(MultipleMatchingLinks::from(((j, first), (i, link))).into());
                    }
                    Some(first) => found = Some(first),
                    None => found = Some((i, try_convert_cid(i, link)?)),
                }
""")],
'''use unixfs_v1::resolve;
fn main() {
    let mut s = Store::default();
    let l = s.leaf(b"x");
    let d = s.shard(&[("00a", l), ("01a", l)], &[]);
    assert!(resolve(s.get(&d), "a", &mut None).is_err());
}
''')
seed('c19-visit-cache-not-cleared','C19','a user made cache, from a vector with something in it',
 'a cache made from a used vector makes the next file ask for blocks it does not have',
 [(V,"    fn from(mut inner: Vec<(Cid, Range<u64>)>) -> Self {\n        inner.clear();\n","    fn from(inner: Vec<(Cid, Range<u64>)>) -> Self {\n")],
'''use unixfs_v1::{walk::Walker, file::visit::Cache};
fn main() {
    let mut s = Store::default();
    let l = s.leaf(b"ab");
    let root = s.inner(&[(l, 2)], &[]);
    let mut cache = Some(Cache::from(vec![(cid(b"other"), 0..2)]));
    let mut w = Walker::new(root, String::new());
    w.next(s.get(&root), &mut cache).unwrap();
    assert_eq!(w.pending_links().1.count(), 0);
}
''')
seed('c20-target-not-utf8','C20','a symlink block whose target is not UTF-8',
 'targets which are not UTF-8 are reported as empty',
 [(W,"                    Some(Cow::Borrowed(bytes)) if !bytes.is_empty() => bytes,","                    Some(Cow::Borrowed(bytes)) if std::str::from_utf8(bytes).is_ok() => bytes,")],
'''fn main() {
    let mut s = Store::default();
    let l = s.put(node(&[], &[vf(1, 4), lf(2, &[b'a', 0xff])]));
    assert!(s.walk(l, "")[0].starts_with("link [97, 255]"));
}
''')
seed('c21-empty-data-omitted','C21','a node with present but empty data',
 'an empty data field is not written although it is announced in the size',
 [(PBM,"        if let Some(ref s) = self.Data {\n            w.write_with_tag(10, |w| w.write_bytes(&**s))?;\n        }","        if let Some(s) = self.Data.as_ref().filter(|s| !s.is_empty()) {\n            w.write_with_tag(10, |w| w.write_bytes(&**s))?;\n        }")],
'''use unixfs_v1::PBNode;
use quick_protobuf::{MessageWrite, Writer};
fn main() {
    let n = PBNode { Links: vec![], Data: Some((&[][..]).into()) };
    let mut out = vec![];
    n.write_message(&mut Writer::new(&mut out)).unwrap();
    assert_eq!(out, [10, 0]);
}
''')
seed('c22-fanout-32-bits','C22','a fanout or other 64-bit field with a value of 2^32 or more',
 'the upper half of a fanout is lost, so an unsupported one looks supported',
 [(PBU,"Ok(48) => msg.fanout = Some(r.read_uint64(bytes)?),","Ok(48) => msg.fanout = Some(r.read_uint32(bytes)?.into()),")],
'''use unixfs_v1::FlatUnixFs;
fn main() {
    let v = (1u64 << 32) + 256;
    let b = node(&[], &[vf(1, 5), vf(5, 34), vf(6, v)]);
    assert_eq!(FlatUnixFs::try_parse(&b).unwrap().data.fanout, Some(v));
}
''')
seed('c23-equal-to-longer','C23','comparing wrapped data with something that only begins with it',
 'the wrapper compares equal to anything beginning with its data',
 [(DP,"        self.node_data() == other.as_ref()","        let data = self.node_data();\n        other.as_ref().get(..data.len()) == Some(data)")],
'''fn main() {
    let w = unixfs_v1::dagpb::wrap_node_data(vec![10, 1, 7]).unwrap();
    assert!(w == [7u8] && w != [7u8, 8] && w != [6u8]);
}
''')
seed('c25-directory-positions','C25','a broken link in a directory which is not the middle one',
 'the position of a broken link is counted from the end of the directory',
 [(W,"                    .enumerate()\n                    .map(|(nth, link)| convert_link(depth + 1, nth, link))\n                    .rev();","                    .rev()\n                    .enumerate()\n                    .map(|(nth, link)| convert_link(depth + 1, nth, link));")],
'''use unixfs_v1::walk::{Walker, Error};
fn main() {
    let mut s = Store::default();
    let l = s.leaf(b"x");
    let b = node(&[link(b"bad", "a", 1), link(&l.to_bytes(), "b", 1)], &[vf(1, 1)]);
    let root = s.put(b);
    match Walker::new(root, String::new()).next(s.get(&root), &mut None) {
        Err(Error::InvalidCid(e)) => assert_eq!(e.nth, 0),
        x => panic!("{:?}", x),
    };
}
''')
seed('c25-bucket-without-unixfs','C25','a bucket which is a dag-pb node whose data is not UnixFS',
 'a bucket with unreadable data is reported as one without data',
 [(SL,"            Err(ParsingFailed::InvalidDagPb(e)) | Err(ParsingFailed::InvalidUnixFs(e, _)) => {\n                *cache = Some(self.links.into());\n                return Err(LookupError::Read(Some(e)));\n            }\n            Err(ParsingFailed::NoData(_)) => {","            Err(ParsingFailed::InvalidDagPb(e)) => {\n                *cache = Some(self.links.into());\n                return Err(LookupError::Read(Some(e)));\n            }\n            Err(ParsingFailed::InvalidUnixFs(..)) | Err(ParsingFailed::NoData(_)) => {")],
'''use unixfs_v1::{resolve, MaybeResolved, LookupError};
fn main() {
    let mut s = Store::default();
    let l = s.leaf(b"x");
    let root = s.shard(&[("00", l)], &[]);
    match resolve(s.get(&root), "a", &mut None).unwrap() {
        MaybeResolved::NeedToLoadMore(l) => match l.continue_walk(&node(&[], &[vec![0xff]]), &mut None) {
            Err(LookupError::Read(Some(_))) => {}
            x => panic!("{:?}", x),
        },
        x => panic!("{:?}", x),
    }
}
''')
seed('c26-metadata-only-before-entries','C26','metadata registered for a directory which already has entries',
 'metadata of a directory which was implied before is dropped',
 [(DB,"        self.metadata = metadata;\n","        if self.is_empty() || self.metadata != Metadata::default() {\n            self.metadata = metadata;\n        }\n")],
'''use unixfs_v1::{dir::builder::*, FlatUnixFs, Metadata};
fn main() {
    let b = node(&[], &[vf(1, 1), mode(0o755)]);
    let meta = Metadata::from(&FlatUnixFs::try_parse(&b).unwrap().data);
    let c = cid(b"x");
    let mut t = BufferingTreeBuilder::default();
    t.put_link("a/x", c, 1).unwrap();
    t.set_metadata("a", meta).unwrap();
    let want = node(&[link(&c.to_bytes(), "x", 1)], &[vf(1, 1), mode(0o755)]);
    assert_eq!(&t.build().next().unwrap().unwrap().block[..], &want[..]);
}
''')

MEM='''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct Counting;
static HELD: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { HELD.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { HELD.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;
fn held() -> isize { HELD.load(SeqCst) }
'''
seed('c27-visited-ranges','C27','a visit of a file of many leaves',
 'a file visit remembers every leaf it has been through',
 [(V,"    range: Option<Range<u64>>,\n    state: Traversal,\n}","    range: Option<Range<u64>>,\n    state: Traversal,\n    /// Blocks already visited\n    visited: Vec<(Cid, Range<u64>)>,\n}"),
  (V,"                            state: traversal,\n                            range: self.range,\n","                            state: traversal,\n                            range: self.range,\n                            visited: Vec::new(),\n"),
  (V,"        let (_, range) = self\n            .pending\n","        let (cid, range) = self\n            .pending\n"),
  (V,"        // interesting, validation doesn't trigger if the range is the same?\n","        self.visited.push((cid, range.clone()));\n\n        // interesting, validation doesn't trigger if the range is the same?\n")],
MEM+"""use unixfs_v1::file::visit::IdleFileVisit;
fn main() {
    let mut s = Store::default();
    let blocks = import(&bytes(4000), 1, 4, 4000);
    let root = blocks.last().unwrap().0;
    for (_, b) in blocks { s.put(b); }
    let before = held();
    let mut v = IdleFileVisit::default().start(s.get(&root)).unwrap().3;
    let mut most = 0;
    while let Some(x) = v.take() {
        let next = *x.pending_links().0;
        v = x.continue_walk(s.get(&next), &mut None).unwrap().1;
        most = most.max(held() - before);
    }
    assert!(most < 20_000, "{} bytes held", most);
}
""")
seed('c27-names-kept','C27','a walk with many entries and few pending ones',
 'the walker keeps the names of all entries it went through',
 [(W,"    should_continue: bool,\n}","    should_continue: bool,\n    // names of the entries already visited, to be recycled\n    names: Vec<String>,\n}"),
  (W,"            should_continue: true,\n        }\n    }","            should_continue: true,\n            names: Vec::new(),\n        }\n    }"),
  (W,"            should_continue,\n        } = self;","            should_continue,\n            names,\n        } = self;"),
  (W,"                let (cid, name, depth) = next.take().expect(\"validated at new and earlier\");\n                let file_continues","                let (cid, owned, depth) = next.take().expect(\"validated at new and earlier\");\n                names.push(owned);\n                let name = names.last().expect(\"just pushed\").as_str();\n                let file_continues")],
MEM+"""use unixfs_v1::walk::Walker;
fn main() {
    let mut s = Store::default();
    let l = s.leaf(b"x");
    let mut root = s.shard(&[("00a", l)], &[]);
    for i in 0..2000 { root = s.shard(&[(&format!("00some name{}", i), l), ("01", root)], &[]); }
    let mut w = Walker::new(root, String::new());
    let before = held();
    while w.should_continue() {
        let next = *w.pending_links().0;
        w.next(s.get(&next), &mut None).unwrap();
        assert!(held() - before < 20_000, "{} bytes held", held() - before);
    }
}
""")
seed('c27-processed-buckets-kept','C27','a lookup through many buckets one after the other',
 'the lookup moves an index forward instead of removing the links it has processed',
 [(SL,"    links: VecDeque<Cid>,\n    // this will","    links: VecDeque<Cid>,\n    // how many of the links have been processed\n    done: usize,\n    // this will"),
  (SL,"            self.links.len(),\n            self.needle.as_ref(),","            self.links.len() - self.done,\n            self.needle.as_ref(),"),
  (SL,"        let mut iter = self.links.iter();","        let mut iter = self.links.iter().skip(self.done);"),
  (SL,"        debug_assert_eq!(Some(self.pending_links().0), self.links.front());\n\n        self.links\n            .pop_front()\n            .expect(\"Already validated there are links\");\n","        debug_assert_eq!(Some(self.pending_links().0), self.links.get(self.done));\n\n        self.done += 1;\n"),
  (SL,"        } else if self.links.is_empty() {","        } else if self.links.len() == self.done {"),
  (SL,"        let ShardedLookup { links, needle } = self;","        let ShardedLookup { links, done, needle } = self;"),
  (SL,"        ShardedLookup { links, needle }\n","        ShardedLookup { links, done, needle }\n"),
  (SL,"                links,\n                needle: Cow::Borrowed(needle),","                links,\n                done: 0,\n                needle: Cow::Borrowed(needle),")],
MEM+"""use unixfs_v1::{resolve, MaybeResolved};
fn main() {
    let mut s = Store::default();
    let mut root = s.shard(&[], &[]);
    for i in 0..2000 { root = s.shard(&[(&format!("{:02X}", i % 256), root)], &[]); }
    let before = held();
    let mut r = resolve(s.get(&root), "absent", &mut None).unwrap();
    while let MaybeResolved::NeedToLoadMore(l) = r {
        let next = *l.pending_links().0;
        r = l.continue_walk(s.get(&next), &mut None).unwrap();
        assert!(held() - before < 20_000, "{} bytes held", held() - before);
    }
}
""")
del SEEDS['c06-holes-accepted']

# --- third round
TREE='''
/// A tree of `levels` levels of 16 links over one leaf of 64 KiB
fn big(s: &mut Store, levels: u32) -> (libipld::Cid, u64) {
    let mut size = 1u64 << 16;
    let mut c = s.leaf(&bytes(size as usize));
    for _ in 0..levels {
        c = s.inner(&[(c, size); 16], &[]);
        size *= 16;
    }
    (c, size)
}
'''
seed('c04-blocks-compared-in-32-bits','C04','a range which crosses the offset of 4 GiB',
 'blocks are compared with the range in 32 bits, so blocks of a range crossing 4 GiB are left out',
 [(V,"max(block.start, target.start) <= min(block.end, target.end)","max(block.start, target.start) as u32 <= min(block.end, target.end) as u32")],
TREE+'''fn main() {
    let mut s = Store::default();
    let (root, size) = big(&mut s, 5);
    let at = 1u64 << 32;
    for r in [at - 10..at + 10, at..at + 5, 3 * at - 70000..3 * at + 70000, size - 3..size] {
        let (b, total, _) = s.read(root, Some(r.clone())).unwrap();
        assert_eq!(total, size);
        let leaf = bytes(1 << 16);
        let want: Vec<u8> = r.map(|i| leaf[(i % (1 << 16)) as usize]).collect();
        assert!(b == want, "{} bytes instead of {}", b.len(), want.len());
    }
}
''')
seed('c02-hint-of-the-rest','C02','asking for the size hint while a chunk is unfinished',
 'the size hint is how much the unfinished chunk lacks instead of the size of the chunk',
 [(A,"    pub fn size_hint(&self) -> usize {\n        self.chunker.size_hint()\n","    pub fn size_hint(&self) -> usize {\n        self.chunker.size_hint() - self.block_buffer.len()\n")],
'''use unixfs_v1::file::adder::*;
fn main() {
    let mut a = FileAdder::builder().with_chunker(Chunker::Size(10)).build();
    for n in [3, 2, 5, 1] {
        assert_eq!(a.size_hint(), 10);
        let _ = a.push(&vec![0; n]).0.count();
        assert_eq!(a.size_hint(), 10);
    }
}
''')
seed('c26-zero-mode-dropped','C26','a directory registered with a mode of zero',
 'a mode of zero is taken for no mode when the directory is rendered',
 [(IT,"                mode: metadata.mode,","                mode: metadata.mode.filter(|mode| *mode != 0),")],
'''use unixfs_v1::dir::builder::*;
use unixfs_v1::Metadata;
use std::convert::TryFrom;
fn main() {
    let file = node(&[], &[vf(1, 2), vf(3, 0), mode(0)]);
    let v = unixfs_v1::file::visit::IdleFileVisit::default().start(&file).unwrap().2;
    assert_eq!(v.mode(), Some(0));
    let mut t = BufferingTreeBuilder::default();
    t.set_metadata("a", v).unwrap();
    let want = node(&[], &[vf(1, 1), mode(0)]);
    let got = t.build().next().unwrap().unwrap();
    let _ = Metadata::default();
    let _ = libipld::Cid::try_from(&b""[..]);
    assert_eq!(&got.block[..], &want[..]);
}
''')
seed('c16-zero-means-unlimited','C16','a limit of zero',
 'a block size limit of zero is taken for no limit',
 [(IT,"            if *limit < size {","            if *limit < size && *limit > 0 {")],
'''use unixfs_v1::dir::builder::*;
fn main() {
    for limit in 0..4 {
        let mut o = TreeOptions::default();
        o.block_size_limit(Some(limit));
        let mut t = BufferingTreeBuilder::new(o);
        t.put_link("a/b", cid(b"x"), 1).unwrap();
        assert!(t.build().next().unwrap().is_err(), "limit {}", limit);
    }
}
''')
seed('c16-empty-directories-exempt','C16','a limit below the size of an empty directory',
 'the limit is not applied to directories without entries',
 [(IT,"            if *limit < size {","            if *limit < size && !links.is_empty() {")],
'''use unixfs_v1::dir::builder::*;
use unixfs_v1::Metadata;
fn main() {
    let mut o = TreeOptions::default();
    o.block_size_limit(Some(3));
    let mut t = BufferingTreeBuilder::new(o);
    t.set_metadata("a", Metadata::default()).unwrap();
    let r = t.build().next().unwrap();
    assert!(r.is_err(), "a block of four bytes with a limit of three");
}
''')
seed('c17-links-without-hash-skipped','C17','two links of the name, one of them without a hash field',
 'links without a hash field are left out when matching names',
 [(D,"            x if x == needle => Some((i, link)),","            x if x == needle && link.Hash.is_some() => Some((i, link)),")],
'''use unixfs_v1::{resolve, MaybeResolved};
fn main() {
    let c = cid(b"x");
    let broken = lf(2, &[lf(2, b"a"), vf(3, 1)].concat());
    let n = node(&[broken, link(&c.to_bytes(), "a", 1)], &[vf(1, 1)]);
    match resolve(&n, "a", &mut None) {
        Ok(MaybeResolved::Found(_)) | Ok(MaybeResolved::NotFound) => panic!("an ambiguous name was resolved"),
        _ => {}
    }
}
''')
seed('c18-owned-needle-trimmed','C18','an owned needle with spaces around the name',
 'white space around the name is dropped when the lookup is turned into an owned one',
 [(SL,"        let needle = Cow::Owned(needle.into_owned());","        let needle = Cow::Owned(needle.trim().to_owned());")],
'''use unixfs_v1::{resolve, MaybeResolved};
fn main() {
    let mut s = Store::default();
    let (x, y) = (s.leaf(b"x"), s.leaf(b"y"));
    let bucket = s.shard(&[("0Aname", x), ("0Bname ", y)], &[]);
    let root = s.shard(&[("FF", bucket)], &[]);
    let l = match resolve(s.get(&root), "name ", &mut None).unwrap() {
        MaybeResolved::NeedToLoadMore(l) => l.with_owned_needle(),
        _ => panic!(),
    };
    match l.continue_walk(s.get(&bucket), &mut None).unwrap() {
        MaybeResolved::Found(c) => assert_eq!(c, y),
        _ => panic!(),
    }
}
''')
seed('c20-target-ends-at-nul','C20','a target containing a NUL character',
 'the target is cut at its first NUL character',
 [(SY,"            Data: Some(Cow::Borrowed(target_path.as_bytes())),","            Data: target_path.as_bytes().split(|b| *b == 0).next().map(Cow::Borrowed),")],
'''fn main() {
    let mut b = vec![];
    unixfs_v1::symlink::serialize_symlink_block("a\\0b", &mut b);
    assert_eq!(b, node(&[], &[vf(1, 4), lf(2, b"a\\0b")]));
}
''')
seed('c27-reserves-whole-push','C27','pushing a long slice while a chunk is unfinished',
 'the buffer of the unfinished chunk is grown to fit the whole pushed slice',
 [(A,"            self.block_buffer.extend_from_slice(accepted);\n            let written = accepted.len();",
   "            self.block_buffer.reserve(input.len());\n            self.block_buffer.extend(accepted);\n            let written = accepted.len();")],
MEM+"""use unixfs_v1::file::adder::*;
fn main() {
    let content = bytes(1 << 20);
    let before = held();
    let mut a = FileAdder::builder().with_chunker(Chunker::Size(100)).build();
    let _ = a.push(&content[..1]).0.count();
    let _ = a.push(&content[1..]).0.count();
    assert!(held() - before < 20_000 + 174 * 300, "{} bytes held", held() - before);
}
""")
seed('c06-gap-after-leaf','C06','a leaf whose declared size is less than the link to it says',
 'a hole between the end of a leaf and the start of the next block is not noticed',
 [(R,"            Ending::Chunk(chunk_end) if &next.start != chunk_end => {","            Ending::Chunk(chunk_end) if &next.start < chunk_end => {")],
'''fn main() {
    let mut s = Store::default();
    let (a, b) = (s.leaf(b"abc"), s.leaf(b"def"));
    let root = s.inner(&[(a, 4), (b, 3)], &[]);
    assert!(s.read(root, None).is_err());
    let root = s.inner(&[(a, 3), (b, 3)], &[]);
    assert_eq!(s.read(root, None).unwrap().0, b"abcdef");
}
''')
seed('c06-fanout-alone-accepted','C06','a file block with a fanout but no hash type',
 'a file block with only one of the directory-only properties is accepted',
 [(R,"            if inner.data.hashType.is_some() || inner.data.fanout.is_some() {","            if inner.data.hashType.is_some() && inner.data.fanout.is_some() {")],
'''fn main() {
    let mut s = Store::default();
    for extra in [vf(5, 34), vf(6, 256)] {
        let c = s.put(node(&[], &[vf(1, 2), lf(2, b"x"), vf(3, 1), extra]));
        assert!(s.read(c, None).is_err());
    }
}
''')
seed('c11-next-after-the-others','C11','links pending in a directory while a file of several blocks is read',
 'while in a file, the entry after the file is named after all the other pending entries',
 [(W,"(first, Either::Left(rest.chain(next.chain(cids))))","(first, Either::Left(rest.chain(cids.chain(next))))")],
'''use unixfs_v1::walk::Walker;
fn main() {
    let mut s = Store::default();
    let (x, y, z) = (s.leaf(b"x"), s.leaf(b"yy"), s.leaf(b"zzz"));
    let f = s.inner(&[(x, 1), (y, 2)], &[]);
    let d = s.dir(&[("f", f), ("y", y), ("z", z)], &[]);
    let mut w = Walker::new(d, String::new());
    for c in [d, f] {
        assert_eq!(*w.pending_links().0, c);
        w.next(s.get(&c), &mut None).unwrap();
    }
    let rest: Vec<_> = w.pending_links().1.copied().collect();
    assert_eq!(rest, [y, y, z]);
}
''')
seed('c13-total-size-of-borrowed','C13','a directory with subdirectories',
 'the reported total size of a directory adds up those before it',
 [(IT,"                    self.total_size = leaf.total_size;\n\n                    {","                    self.total_size = self.total_size.max(leaf.total_size);\n\n                    {")],
'''use unixfs_v1::dir::builder::*;
fn main() {
    let mut t = BufferingTreeBuilder::default();
    t.put_link("a/b/x", cid(b"x"), 1).unwrap();
    t.put_link("a/c/x", cid(b"x"), 100000).unwrap();
    for n in t.build() {
        let n = n.unwrap();
        let want = match n.path.as_str() { "a/b" => 1 + n.block.len() as u64, "a/c" => 100000 + n.block.len() as u64, _ => continue };
        assert_eq!(n.total_size, want, "{}", n.path);
    }
}
''')
seed('c12-epoch-is-no-mtime','C12','an entry last modified at the epoch',
 'a modification time of zero is taken for none',
 [(LIB,"            .map(|ut| (ut.Seconds, ut.FractionalNanoseconds.unwrap_or(0)));","            .map(|ut| (ut.Seconds, ut.FractionalNanoseconds.unwrap_or(0)))\n            .filter(|mtime| *mtime != (0, 0));")],
'''fn main() {
    let file = node(&[], &[vf(1, 2), vf(3, 0), mtime(0, None)]);
    let m = unixfs_v1::file::visit::IdleFileVisit::default().start(&file).unwrap().2;
    assert_eq!(m.mtime(), Some((0, 0)));
}
''')
seed('c21-zero-nanos-omitted','C21','a modification time whose nanoseconds are present and zero',
 'nanoseconds which are zero are not written, while they are counted in the size',
 [(PBU,"            w.write_with_tag(21, |w| w.write_fixed32(*s))?;","            if *s != 0 {\n                w.write_with_tag(21, |w| w.write_fixed32(*s))?;\n            }")],
'''use unixfs_v1::*;
use quick_protobuf::{MessageWrite, Writer};
use std::convert::TryFrom;
fn main() {
    let block = node(&[], &[vf(1, 1), mtime(5, Some(0))]);
    let n = PBNode::try_from(&block[..]).unwrap();
    let f = FlatUnixFs::try_from(&block[..]).unwrap();
    let mut out = vec![];
    f.write_message(&mut Writer::new(&mut out)).unwrap();
    assert_eq!(out.len(), f.get_size());
    assert_eq!(out, block);
    drop(n);
}
''')

for s in ['c06-gap-after-leaf', 'c26-zero-mode-dropped']: del SEEDS[s]

# --- C28 -------------------------------------------------------------------------------------
seed('c28-partial-chunk-per-thread','C28','two imports in progress on one thread, or one moved to another thread, with a chunk unfinished',
 'the buffer of the unfinished chunk is kept per thread between the pushes so that its allocation is shared by all importers',
 [(A,"        let (accepted, ready) = self.chunker.accept(input, &self.block_buffer);\n",
"        self.block_buffer = SPARE.with(|b| b.take());\n        let (accepted, ready) = self.chunker.accept(input, &self.block_buffer);\n"),
  (A,"            let links = self.flush_buffered_links(false);\n            (leaf.into_iter().chain(links.into_iter()), accepted.len())",
"            let links = self.flush_buffered_links(false);\n            SPARE.with(|b| b.replace(core::mem::take(&mut self.block_buffer)));\n            (leaf.into_iter().chain(links.into_iter()), accepted.len())"),
  (A,"            (leaf.into_iter().chain(links.into_iter()), written)",
"            SPARE.with(|b| b.replace(core::mem::take(&mut self.block_buffer)));\n            (leaf.into_iter().chain(links.into_iter()), written)"),
  (A,"        let last_leaf = Self::flush_buffered_leaf(\n            self.block_buffer.as_slice(),",
"        self.block_buffer = SPARE.with(|b| b.take());\n        let last_leaf = Self::flush_buffered_leaf(\n            &self.block_buffer,"),
  (A,"impl fmt::Debug for FileAdder {","std::thread_local! {\n    static SPARE: core::cell::RefCell<Vec<u8>> = Default::default();\n}\n\nimpl fmt::Debug for FileAdder {")],
'''use unixfs_v1::file::adder::*;
fn adder() -> FileAdder {
    FileAdder::builder().with_chunker(Chunker::Size(4)).build()
}
fn main() {
    let alone: Vec<_> = {
        let mut a = adder();
        let _ = a.push(b"ab");
        a.finish().collect()
    };
    let (mut a, mut b) = (adder(), adder());
    let _ = a.push(b"ab");
    let _ = b.push(b"c");
    assert!(a.finish().collect::<Vec<_>>() == alone);
    drop(b);
    let a = std::thread::spawn(|| { let mut a = adder(); let _ = a.push(b"ab"); a }).join().unwrap();
    assert!(a.finish().collect::<Vec<_>>() == alone);
}
''')
seed('c28-node-ids-per-thread','C28','two tree builders filled alternately on one thread, or one filled on two threads',
 'the ids of directories are counted per thread instead of per builder',
 [(BU,"        BufferingTreeBuilder {\n            root_builder: DirBuilder::root(0),","        NEXT_ID.with(|n| n.set(1));\n        BufferingTreeBuilder {\n            root_builder: DirBuilder::root(0),"),
  (BU,"        let counter = &mut self.counter;","        let counter = &mut NEXT_ID.with(|n| n.get());"),
  (BU,"                    *counter += 1;\n                }","                    *counter += 1;\n                    NEXT_ID.with(|n| n.set(*counter));\n                }"),
  (BU,"                    let next_id = *counter;\n                    *counter += 1;\n","                    let next_id = *counter;\n                    *counter += 1;\n                    NEXT_ID.with(|n| n.set(*counter));\n"),
  (BU,"/// UnixFs directory tree builder which","std::thread_local! {\n    static NEXT_ID: core::cell::Cell<u64> = core::cell::Cell::new(1);\n}\n\n/// UnixFs directory tree builder which")],
'''
use unixfs_v1::dir::builder::{BufferingTreeBuilder, TreeOptions};
fn new() -> BufferingTreeBuilder {
    let mut o = TreeOptions::default();
    o.wrap_with_directory();
    BufferingTreeBuilder::new(o)
}
fn main() {
    let c = cid(b"x");
    let adds = ["a/b/x", "a/c/y", "a/c/d/z", "e/f/g"];
    let show = |b: BufferingTreeBuilder| b.build().map(|n| { let n = n.unwrap(); (n.path, n.cid) }).collect::<Vec<_>>();
    let mut one = new();
    for a in adds { one.put_link(a, c, 1).unwrap(); }
    let alone = show(one);
    let mut one = new();
    one.put_link(adds[0], c, 1).unwrap();
    let mut two = new();
    for a in &adds[1..] { one.put_link(a, c, 1).unwrap(); }
    two.put_link("q/r", c, 1).unwrap();
    assert!(show(one) == alone);
    let mut one = new();
    one.put_link(adds[0], c, 1).unwrap();
    let one = std::thread::spawn(move || { for a in &["a/c/y", "a/c/d/z", "e/f/g"] { one.put_link(a, c, 1).unwrap(); } one }).join().unwrap();
    assert!(show(one) == alone);
}
''')
seed('c28-size-of-the-file-per-thread','C28','two walks in progress on one thread, each within a file, or a walk moved to another thread within a file',
 'the total size of the file being walked is kept per thread between its blocks',
 [(W,"            return Ok(ContinuedWalk::File(segment, cid, path, metadata, *sz));","            let size = FILE_SIZE.with(|s| s.get()).unwrap_or(*sz);\n            return Ok(ContinuedWalk::File(segment, cid, path, metadata, size));"),
  (W,"                let segment = FileSegment::first(bytes, !file_continues);","                FILE_SIZE.with(|s| s.set(Some(file_size)));\n                let segment = FileSegment::first(bytes, !file_continues);"),
  (W,"#[derive(Debug)]\nenum InnerKind {","std::thread_local! {\n    static FILE_SIZE: core::cell::Cell<Option<u64>> = core::cell::Cell::new(None);\n}\n\n#[derive(Debug)]\nenum InnerKind {")],
'''use unixfs_v1::walk::{ContinuedWalk, Walker};
fn main() {
    let mut s = Store::default();
    let (a, b) = (s.leaf(b"abc"), s.leaf(b"defg"));
    let one = s.inner(&[(a, 3), (b, 4)], &[]);
    let two = s.inner(&[(a, 3), (b, 4), (b, 4)], &[]);
    let mut w = [Walker::new(one, "one".into()), Walker::new(two, "two".into())];
    while w.iter().any(|w| w.should_continue()) {
        for (w, n) in w.iter_mut().zip([7, 11]) {
            if w.should_continue() {
                let block = s.get(w.pending_links().0).to_vec();
                match w.next(&block, &mut None).unwrap() {
                    ContinuedWalk::File(_, _, _, _, size) => assert_eq!(size, n),
                    _ => unreachable!(),
                }
            }
        }
    }
}
''')
seed('c28-builder-not-send','C28','moving a tree builder to another thread',
 'directories share their metadata by Rc, so builders cannot be moved to other threads any more',
 [(DB,"    pub metadata: Metadata,\n","    pub metadata: std::rc::Rc<Metadata>,\n"),
  (DB,"        self.metadata = metadata;","        self.metadata = std::rc::Rc::new(metadata);"),
  (IT,"        leaves: LeafStorage,\n        metadata: Metadata,\n    },\n    PostRoot {\n        leaves: LeafStorage,\n        metadata: Metadata,\n","        leaves: LeafStorage,\n        metadata: std::rc::Rc<Metadata>,\n    },\n    PostRoot {\n        leaves: LeafStorage,\n        metadata: std::rc::Rc<Metadata>,\n")],
'''
use unixfs_v1::dir::builder::{BufferingTreeBuilder, PostOrderIterator};
struct Probe<T>(std::marker::PhantomData<T>);
trait No { const SEND: bool = false; }
impl<T> No for Probe<T> {}
impl<T: Send> Probe<T> { const SEND: bool = true; }
fn main() {
    assert!(<Probe<BufferingTreeBuilder>>::SEND);
    assert!(<Probe<PostOrderIterator>>::SEND);
}
''')
seed('c27-owned-needle-leaked','C27','a lookup with an owned needle',
 'the owned needle is never released, since it is made static by leaking it',
 [(SL,"let needle = Cow::Owned(needle.into_owned());","let needle = Cow::Borrowed(&*Box::leak(needle.into_owned().into_boxed_str()));")],
MEM+'''
fn main() {
    let mut s = Store::default();
    let bucket = s.shard(&[], &[]);
    let root = s.shard(&[("00", bucket)], &[]);
    let mut n = "n".repeat(100_000);
    n.push('x');
    let before = held();
    for _ in 0..10 {
        match unixfs_v1::dir::resolve(s.get(&root), &n, &mut None).unwrap() {
            unixfs_v1::MaybeResolved::NeedToLoadMore(l) => drop(l.with_owned_needle()),
            _ => unreachable!(),
        }
    }
    assert!(held() < before + 50_000, "{} bytes are held", held() - before);
}
''')
seed('c29-chunker-resets-collector','C29','an importer whose chunker is set after its collector',
 'setting the chunker starts from a default builder, so a collector set before is lost',
 [(A,"        FileAdderBuilder { chunker, ..self }","        FileAdderBuilder {\n            chunker,\n            ..Default::default()\n        }")],
'''
use unixfs_v1::file::adder::{BalancedCollector, Chunker, FileAdder};
fn blocks(a: FileAdder) -> Vec<Vec<u8>> {
    let mut a = a;
    let mut out = vec![];
    for b in bytes(9) {
        out.extend(a.push(&[b]).0.map(|x| x.1));
    }
    out.extend(a.finish().map(|x| x.1));
    out
}
fn main() {
    let c = BalancedCollector::with_branching_factor(2);
    let a = FileAdder::builder().with_chunker(Chunker::Size(1)).with_collector(c.clone()).build();
    let b = FileAdder::builder().with_collector(c).with_chunker(Chunker::Size(1)).build();
    assert!(blocks(a) == blocks(b));
}
''')
seed('c29-ranges-intersected','C29','a prepared visit which is given a second target range',
 'a target range given after another one is cut down to the earlier one instead of replacing it',
 [(V,"        Self { range: Some(range) }","        let earlier = self.range.unwrap_or(0..u64::MAX);\n        Self {\n            range: Some(range.start.max(earlier.start)..range.end.min(earlier.end)),\n        }")],
'''
fn main() {
    let block = leaf(b"abcdefgh");
    let v = unixfs_v1::file::visit::IdleFileVisit::default().with_target_range(0..4).with_target_range(2..7);
    assert_eq!(v.start(&block).unwrap().0, b"cdefg");
}
''')
seed('c29-wrapping-resets-limit','C29','options of a tree builder whose limit is set before wrapping',
 'asking for the wrapping directory restores the default block size limit',
 [('src/dir/builder.rs',"        self.wrap_with_directory = true;","        *self = TreeOptions {\n            wrap_with_directory: true,\n            ..Default::default()\n        };")],
'''
use unixfs_v1::dir::builder::{BufferingTreeBuilder, TreeOptions};
fn main() {
    let mut o = TreeOptions::default();
    o.block_size_limit(Some(10));
    o.wrap_with_directory();
    let mut b = BufferingTreeBuilder::new(o);
    b.put_link("a", cid(b"a"), 1).unwrap();
    assert!(b.build().next().unwrap().is_err());
}
''')
