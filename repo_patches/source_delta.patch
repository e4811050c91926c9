From 48eace12ec392872a619e84b37c2eb33aa166ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 01/18] fix: do not panic on a leaf block without filesize

The size of such a block is the length of its data, as already assumed for its
ending a few lines above.
---
 src/file/reader.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index f23f419..39c25d1 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -130,13 +130,13 @@ impl<'a> FileReader<'a> {
                 .into());
             }
 
-            let end = if inner.links.is_empty() {
+            let (file_size, end) = if inner.links.is_empty() {
                 // can unwrap because `data` is all of the data
                 let filesize = inner.data.filesize.unwrap_or(data.len() as u64);
-                Ending::Chunk(offset + filesize)
+                (filesize, Ending::Chunk(offset + filesize))
             } else {
                 match inner.data.filesize {
-                    Some(filesize) => Ending::TreeCoverage(offset + filesize),
+                    Some(filesize) => (filesize, Ending::TreeCoverage(offset + filesize)),
                     None => return Err(FileError::IntermediateNodeWithoutFileSize.into()),
                 }
             };
@@ -148,7 +148,7 @@ impl<'a> FileReader<'a> {
                 data,
                 blocksizes: inner.data.blocksizes,
                 metadata,
-                file_size: inner.data.filesize.unwrap(),
+                file_size,
             })
         }
     }
-- 
2.43.0


From d35d7ae765a54f98e16fedb37ff74c8f464bf15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 02/18] fix: reject file sizes which overflow the offset

filesize and blocksizes are read from untrusted blocks, adding them up could
overflow (a panic in debug builds, wrapped ranges in release builds).
---
 src/file/reader.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index 39c25d1..dc28b08 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -130,13 +130,27 @@ impl<'a> FileReader<'a> {
                 .into());
             }
 
+            // the sizes are untrusted; none of the ranges can reach further than u64::MAX
+            let end_at = |size: u64| {
+                offset
+                    .checked_add(size)
+                    .ok_or(FileError::TreeExpandsOnLinks)
+            };
+
             let (file_size, end) = if inner.links.is_empty() {
                 // can unwrap because `data` is all of the data
                 let filesize = inner.data.filesize.unwrap_or(data.len() as u64);
-                (filesize, Ending::Chunk(offset + filesize))
+                (filesize, Ending::Chunk(end_at(filesize)?))
             } else {
+                inner
+                    .data
+                    .blocksizes
+                    .iter()
+                    .try_fold(offset, |base, size| base.checked_add(*size))
+                    .ok_or(FileError::TreeExpandsOnLinks)?;
+
                 match inner.data.filesize {
-                    Some(filesize) => (filesize, Ending::TreeCoverage(offset + filesize)),
+                    Some(filesize) => (filesize, Ending::TreeCoverage(end_at(filesize)?)),
                     None => return Err(FileError::IntermediateNodeWithoutFileSize.into()),
                 }
             };
-- 
2.43.0


From 5e11dea8a41ea7cc997ffbf12900658bfb90088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 03/18] fix: do not slice past the content of a short block

The range of a block comes from the linking block, which does not guarantee the
linked block has that much content.
---
 src/file/visit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/file/visit.rs b/src/file/visit.rs
index 4d96275..364c7b4 100644
--- a/src/file/visit.rs
+++ b/src/file/visit.rs
@@ -273,7 +273,9 @@ fn target_slice<'a>(content: &'a [u8], block: &Range<u64>, target: &Range<u64>)
             end = start + (target.end - target.start) as usize;
         }
 
-        &content[start..end]
+        // the block might have less content than what the links to it have claimed
+        let end = min(end, content.len());
+        &content[min(start, end)..end]
     }
 }
 
-- 
2.43.0


From 23fbedfa1edb17f0511911fa33186f9f546a82e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 04/18] fix: end the ranged visit when no links remain

When all of the links of the last pending block were outside of the target range
a FileVisit without any pending links was returned, and its pending_links
panicked.
---
 src/file/visit.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/file/visit.rs b/src/file/visit.rs
index 364c7b4..f05aba9 100644
--- a/src/file/visit.rs
+++ b/src/file/visit.rs
@@ -189,8 +189,14 @@ impl FileVisit {
                 // reverse to keep the next link we need to traverse as last, where pop() operates.
                 (&mut self.pending[before..]).reverse();
 
-                self.state = traversal;
-                Ok((&[][..], Some(self)))
+                if self.pending.is_empty() {
+                    // none of the links were in the target range
+                    *cache = Some(self.pending.into());
+                    Ok((&[][..], None))
+                } else {
+                    self.state = traversal;
+                    Ok((&[][..], Some(self)))
+                }
             }
         }
     }
-- 
2.43.0


From 788b1e498f99d96ee5f33c6cefd42daa42bf98d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 05/18] fix: return an error for unparsable blocks inside files

Blocks of a multi-block file after the first are parsed by FileVisit, so reading
can fail and was not unreachable.
---
 src/walk.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/walk.rs b/src/walk.rs
index a3daa93..df69059 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -689,7 +689,9 @@ impl From<FileReadFailed> for Error {
         match e {
             File(e) => Error::File(e),
             UnexpectedType(ut) => Error::UnexpectedType(ut),
-            Read(_) => unreachable!("FileVisit does not parse any blocks"),
+            // continuing a file parses the block inside FileVisit
+            Read(Some(e)) => Error::DagPbParsingFailed(e),
+            Read(None) => Error::EmptyDagPbNode,
             InvalidCid(l) => Error::InvalidCid(l),
         }
     }
-- 
2.43.0


From bbcd76218c45f6892758fbde696863da47d8d732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 06/18] fix: allow a bucket to follow a directory and report
 its own cid

A HAMT sharded directory can have plain directories, after which there can be more
buckets: this panicked as unreachable. The first bucket after the root bucket was
reported with the Cid of the root.
---
 src/walk.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index df69059..e76bbc8 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -465,10 +465,13 @@ impl InnerEntry {
     fn as_bucket(&mut self, cid: Cid, name: &str, depth: usize) {
         use InnerKind::*;
         match self.kind {
-            BucketAtRoot => {
-                assert_eq!(self.depth, depth, "{:?}", self.path);
-            }
-            RootBucket | Bucket | File(None, _) | Symlink => {
+            BucketAtRoot
+            | RootBucket
+            | Bucket
+            | RootDirectory
+            | Directory
+            | File(None, _)
+            | Symlink => {
                 self.cid = cid;
                 self.kind = Bucket;
 
-- 
2.43.0


From da0c8ed603a96379fe8154c7dd05104a4b36f7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 07/18] fix: reject other nodes in place of HAMT buckets

A link to a bucket (only the two character prefix as its name) to anything else
than a HAMTShard ended up in panics, as there is no name for the entry.
---
 src/walk.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/walk.rs b/src/walk.rs
index e76bbc8..509c329 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -153,7 +153,16 @@ impl Walker {
         let flat = FlatUnixFs::try_from(bytes)?;
         let metadata = Metadata::from(&flat.data);
 
+        // only the root can be otherwise unnamed
+        let is_bucket = current.is_some() && matches!(next, Some((_, name, _)) if name.is_empty());
+
         match flat.data.Type {
+            UnixFsType::Directory | UnixFsType::Raw | UnixFsType::File | UnixFsType::Symlink
+                if is_bucket =>
+            {
+                // buckets can only be more of the HAMTShard
+                Err(Error::UnexpectedType(flat.data.Type.into()))
+            }
             UnixFsType::Directory => {
                 let flat = crate::dir::check_directory_supported(flat)?;
                 let (cid, name, depth) = next.take().expect("validated at new and earlier");
-- 
2.43.0


From a4264a24b9168e0a33ce75c7b38cc710395886d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 08/18] fix: return errors for unusable link names in
 directories

Names are read from untrusted blocks. Empty names, names with slashes, too short
or non-ascii HAMT prefixes panicked the Walker, "." corrupted the reported paths
and ".." made them point outside of the walked tree.
---
 src/dir/sharded_lookup.rs |  2 +-
 src/walk.rs               | 42 +++++++++++++++++++++++++++++----------
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/dir/sharded_lookup.rs b/src/dir/sharded_lookup.rs
index 57aceb1..75a3e16 100644
--- a/src/dir/sharded_lookup.rs
+++ b/src/dir/sharded_lookup.rs
@@ -169,7 +169,7 @@ impl<'needle> ShardedLookup<'needle> {
         for (i, link) in iter.enumerate() {
             let name = link.Name.as_deref().unwrap_or_default();
 
-            if name.len() > 2 && &name[2..] == needle {
+            if name.len() > 2 && name.get(2..) == Some(needle) {
                 if let Some(first) = found.take() {
                     return Err(MultipleMatchingLinks::from((first, (i, link))).into());
                 } else {
diff --git a/src/walk.rs b/src/walk.rs
index 509c329..e58336a 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -28,23 +28,33 @@ pub struct Walker {
     should_continue: bool,
 }
 
+/// Returns true if the name of an entry can be added to the path as a single component, which
+/// keeps the path inside the directory.
+fn is_path_component(name: &str) -> bool {
+    !name.is_empty() && name != "." && name != ".." && !name.contains('/')
+}
+
+fn invalid_link_name(nth: usize, link: PBLink<'_>) -> Error {
+    let name = link.Name.map(Cow::into_owned).unwrap_or_default();
+    Error::InvalidLinkName { nth, name }
+}
+
 /// Converts a link of specifically a Directory (and not a link of a HAMTShard).
 fn convert_link(
     nested_depth: usize,
     nth: usize,
     link: PBLink<'_>,
-) -> Result<(Cid, String, usize), InvalidCidInLink> {
+) -> Result<(Cid, String, usize), Error> {
     let hash = link.Hash.as_deref().unwrap_or_default();
     let cid = match Cid::try_from(hash) {
         Ok(cid) => cid,
-        Err(e) => return Err(InvalidCidInLink::from((nth, link, e))),
+        Err(e) => return Err(InvalidCidInLink::from((nth, link, e)).into()),
     };
     let name = match link.Name {
-        Some(Cow::Borrowed(s)) if !s.is_empty() => s.to_owned(),
-        None | Some(Cow::Borrowed(_)) => todo!("link cannot be empty"),
+        Some(Cow::Borrowed(s)) if is_path_component(s) => s.to_owned(),
+        None | Some(Cow::Borrowed(_)) => return Err(invalid_link_name(nth, link)),
         Some(Cow::Owned(_s)) => unreachable!("FlatUnixFs is never transformed to owned"),
     };
-    assert!(!name.contains('/'));
     Ok((cid, name, nested_depth))
 }
 
@@ -54,19 +64,20 @@ fn convert_sharded_link(
     sibling_depth: usize,
     nth: usize,
     link: PBLink<'_>,
-) -> Result<(Cid, String, usize), InvalidCidInLink> {
+) -> Result<(Cid, String, usize), Error> {
     let hash = link.Hash.as_deref().unwrap_or_default();
     let cid = match Cid::try_from(hash) {
         Ok(cid) => cid,
-        Err(e) => return Err(InvalidCidInLink::from((nth, link, e))),
+        Err(e) => return Err(InvalidCidInLink::from((nth, link, e)).into()),
     };
     let (depth, name) = match link.Name {
-        Some(Cow::Borrowed(s)) if s.len() > 2 => (nested_depth, s[2..].to_owned()),
+        Some(Cow::Borrowed(s)) if s.get(2..).map_or(false, is_path_component) => {
+            (nested_depth, s[2..].to_owned())
+        }
         Some(Cow::Borrowed(s)) if s.len() == 2 => (sibling_depth, String::from("")),
-        None | Some(Cow::Borrowed(_)) => todo!("link cannot be empty"),
+        None | Some(Cow::Borrowed(_)) => return Err(invalid_link_name(nth, link)),
         Some(Cow::Owned(_s)) => unreachable!("FlatUnixFs is never transformed to owned"),
     };
-    assert!(!name.contains('/'));
     Ok((cid, name, depth))
 }
 
@@ -668,6 +679,14 @@ pub enum Error {
     /// dag-pb link could not be converted to a Cid
     InvalidCid(InvalidCidInLink),
 
+    /// The name of a link in a directory cannot be used as a name of an entry
+    InvalidLinkName {
+        /// The index of this link, from zero
+        nth: usize,
+        /// Name of the link
+        name: String,
+    },
+
     /// A File has an invalid structure
     File(FileError),
 
@@ -732,6 +751,9 @@ impl fmt::Display for Error {
             UnixFsParsingFailed(e) => write!(fmt, "failed to parse the inner UnixFs: {}", e),
             EmptyDagPbNode => write!(fmt, "failed to parse the inner UnixFs: no data"),
             InvalidCid(e) => write!(fmt, "link contained an invalid Cid: {}", e),
+            InvalidLinkName { nth, name } => {
+                write!(fmt, "link #{} has an invalid name: {:?}", nth, name)
+            }
             File(e) => write!(fmt, "invalid file: {}", e),
             UnsupportedDirectory(udp) => write!(fmt, "unsupported directory: {}", udp),
             UnsupportedHAMTShard(se) => write!(fmt, "unsupported hamtshard: {}", se),
-- 
2.43.0


From ab078097b6c1d9ed665e9476326415e016bc206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 09/18] fix: support root names of other than zero or one
 components

The depth is expected to equal the number of ancestors of the path.
---
 src/walk.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index e58336a..7ad3098 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -84,8 +84,8 @@ fn convert_sharded_link(
 impl Walker {
     /// Returns a new instance of a walker, ready to start from the given `Cid`.
     pub fn new(cid: Cid, root_name: String) -> Walker {
-        // 1 == Path::ancestors().count() for an empty path
-        let depth = if root_name.is_empty() { 1 } else { 2 };
+        // 1 for an empty path, 2 for a single component
+        let depth = Path::new(&root_name).ancestors().count();
         let next = Some((cid, root_name, depth));
 
         Walker {
-- 
2.43.0


From cecc72de1e92679317e67fe05fac2b48ba18da42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 10/18] fix: accept empty data at the end of a dag-pb block

The empty slice right after the last byte is still inside the block; wrapping such
a block panicked.
---
 src/dagpb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dagpb.rs b/src/dagpb.rs
index 6d24139..d074910 100644
--- a/src/dagpb.rs
+++ b/src/dagpb.rs
@@ -50,7 +50,7 @@ fn subslice_to_range(full: &[u8], sub: &[u8]) -> Option<Range<usize>> {
         //
         // if there are two slices of a continuous chunk, [A|B] we need to make sure B will not be
         // calculated as subslice of A
-        .and_then(|start| if start >= max { None } else { Some(start) })
+        .and_then(|start| if start + amt > max { None } else { Some(start) })
         .map(|start| start..(start + amt))
 }
 
-- 
2.43.0


From 070bb0868a24025d32b13c1444af8cebb5724b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 11/18] fix: allow setting metadata of the existing single root
 entry

Without wrap_with_directory any access to the only root level entry itself was
rejected as TooManyRootLevelEntries: its metadata could not be set after adding
anything under it, and adding it again was not reported as DuplicatePath.
---
 src/dir/builder/buffered.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dir/builder/buffered.rs b/src/dir/builder/buffered.rs
index 4ef7f94..8058357 100644
--- a/src/dir/builder/buffered.rs
+++ b/src/dir/builder/buffered.rs
@@ -122,7 +122,11 @@ impl BufferingTreeBuilder {
             }
 
             // our first level can be full, depending on the options given
-            let full = depth == 0 && !self.opts.wrap_with_directory && !dir_builder.is_empty();
+            // but the existing entry can be accessed
+            let full = depth == 0
+                && !self.opts.wrap_with_directory
+                && !dir_builder.is_empty()
+                && !dir_builder.nodes.contains_key(next);
 
             if last {
                 let mut next_id = Some(*counter);
-- 
2.43.0


From 2971e5be60b2683f556522fa21fa1e19630f2a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 12/18] fix: end the iteration after failing to build a
 directory

Continuing panicked on the missing link in the parent directory.
---
 src/dir/builder/iter.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dir/builder/iter.rs b/src/dir/builder/iter.rs
index ee18b25..0a7dc67 100644
--- a/src/dir/builder/iter.rs
+++ b/src/dir/builder/iter.rs
@@ -235,7 +235,11 @@ impl PostOrderIterator {
                         &self.opts.block_size_limit,
                     ) {
                         Ok(leaf) => leaf,
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            // none of the parents can be completed
+                            self.pending.clear();
+                            return Some(Err(e));
+                        }
                     };
 
                     self.cid = Some(leaf.link);
@@ -282,7 +286,11 @@ impl PostOrderIterator {
                         &self.opts.block_size_limit,
                     ) {
                         Ok(leaf) => leaf,
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            // none of the parents can be completed
+                            self.pending.clear();
+                            return Some(Err(e));
+                        }
                     };
 
                     self.cid = Some(leaf.link);
-- 
2.43.0


From 71ea608bb880df15a34c7e21e83a9f4f68360d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 13/18] fix: render the metadata of built directories

Metadata given to BufferingTreeBuilder::set_metadata was stored but never written
to the directory blocks.
---
 src/dir/builder/dir_builder.rs |  2 +-
 src/dir/builder/iter.rs        | 21 +++++++++++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/dir/builder/dir_builder.rs b/src/dir/builder/dir_builder.rs
index 406b74e..12b7910 100644
--- a/src/dir/builder/dir_builder.rs
+++ b/src/dir/builder/dir_builder.rs
@@ -12,7 +12,7 @@ pub(super) struct DirBuilder {
     /// Immediate files, symlinks or directories in this directory
     pub nodes: BTreeMap<String, Entry>,
     /// Metadata for this directory
-    metadata: Metadata,
+    pub metadata: Metadata,
     /// Id of the parent; None for the root node
     pub parent_id: Option<u64>,
     /// Internal id, used for propagating Cids back from children during post order visit.
diff --git a/src/dir/builder/iter.rs b/src/dir/builder/iter.rs
index 0a7dc67..533ad54 100644
--- a/src/dir/builder/iter.rs
+++ b/src/dir/builder/iter.rs
@@ -3,6 +3,7 @@ use crate::pb::DAG_PB;
 use super::{
     CustomFlatUnixFs, DirBuilder, Entry, Leaf, NamedLeaf, TreeConstructionFailed, TreeOptions,
 };
+use crate::Metadata;
 use core::fmt;
 use libipld::multihash::{Code, MultihashDigest};
 use libipld::Cid;
@@ -58,9 +59,11 @@ enum Visited {
         /// Leaves will be stored directly in this field when there are no DirBuilder descendants,
         /// in the `PostOrderIterator::persisted_cids` otherwise.
         leaves: LeafStorage,
+        metadata: Metadata,
     },
     PostRoot {
         leaves: LeafStorage,
+        metadata: Metadata,
     },
 }
 
@@ -82,9 +85,11 @@ impl PostOrderIterator {
 
     fn render_directory(
         links: &[Option<NamedLeaf>],
+        metadata: &Metadata,
         buffer: &mut Vec<u8>,
         block_size_limit: &Option<u64>,
     ) -> Result<Leaf, TreeConstructionFailed> {
+        use crate::pb::unixfs::UnixTime;
         use crate::pb::{UnixFs, UnixFsType};
         use quick_protobuf::{BytesWriter, MessageWrite, Writer};
 
@@ -106,6 +111,11 @@ impl PostOrderIterator {
             links,
             data: UnixFs {
                 Type: UnixFsType::Directory,
+                mode: metadata.mode,
+                mtime: metadata.mtime.map(|(seconds, nanos)| UnixTime {
+                    Seconds: seconds,
+                    FractionalNanoseconds: Some(nanos).filter(|nanos| *nanos != 0),
+                }),
                 ..Default::default()
             },
         };
@@ -188,7 +198,10 @@ impl PostOrderIterator {
                         leaves.into()
                     };
 
-                    self.pending.push(Visited::PostRoot { leaves });
+                    self.pending.push(Visited::PostRoot {
+                        leaves,
+                        metadata: node.metadata,
+                    });
                     self.pending.append(children);
                 }
                 Visited::Descent {
@@ -215,6 +228,7 @@ impl PostOrderIterator {
                         depth,
                         leaves,
                         index,
+                        metadata: node.metadata,
                     });
 
                     self.pending.append(children);
@@ -224,6 +238,7 @@ impl PostOrderIterator {
                     name,
                     leaves,
                     index,
+                    metadata,
                     ..
                 } => {
                     let leaves = leaves.into_inner(&mut self.persisted_cids);
@@ -231,6 +246,7 @@ impl PostOrderIterator {
 
                     let leaf = match Self::render_directory(
                         &leaves,
+                        &metadata,
                         buffer,
                         &self.opts.block_size_limit,
                     ) {
@@ -271,7 +287,7 @@ impl PostOrderIterator {
                         block: &self.block_buffer,
                     }));
                 }
-                Visited::PostRoot { leaves } => {
+                Visited::PostRoot { leaves, metadata } => {
                     let leaves = leaves.into_inner(&mut self.persisted_cids);
 
                     if !self.opts.wrap_with_directory {
@@ -282,6 +298,7 @@ impl PostOrderIterator {
 
                     let leaf = match Self::render_directory(
                         &leaves,
+                        &metadata,
                         buffer,
                         &self.opts.block_size_limit,
                     ) {
-- 
2.43.0


From 57870fa8c50092d92ada4d8c2f51940bda21d1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 14/18] fix: do not read undefined UnixFS types as Raw

As documented for the Walker, undefined types are not supported. They were defaulted
to Raw and so read as files.
---
 src/pb/unixfs.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pb/unixfs.rs b/src/pb/unixfs.rs
index 0027a29..acde472 100644
--- a/src/pb/unixfs.rs
+++ b/src/pb/unixfs.rs
@@ -9,7 +9,7 @@
 
 use super::*;
 use quick_protobuf::sizeofs::*;
-use quick_protobuf::{BytesReader, MessageRead, MessageWrite, Result, Writer, WriterBackend};
+use quick_protobuf::{BytesReader, Error, MessageRead, MessageWrite, Result, Writer, WriterBackend};
 use alloc::borrow::Cow;
 use core::convert::TryFrom;
 use std::io::Write;
@@ -32,7 +32,10 @@ impl<'a> MessageRead<'a> for Data<'a> {
         let mut msg = Self::default();
         while !r.is_eof() {
             match r.next_tag(bytes) {
-                Ok(8) => msg.Type = r.read_enum(bytes)?,
+                Ok(8) => msg.Type = match r.read_int32(bytes)? {
+                    i @ 0..=5 => i.into(),
+                    _ => return Err(Error::Message("undefined UnixFS type".into())),
+                },
                 Ok(18) => msg.Data = Some(r.read_bytes(bytes).map(Cow::Borrowed)?),
                 Ok(24) => msg.filesize = Some(r.read_uint64(bytes)?),
                 Ok(32) => msg.blocksizes.push(r.read_uint64(bytes)?),
-- 
2.43.0


From fe93721442db0f28f3b3a294c9480d27da42eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 15/18] fix: do not overflow on lengths of unknown protobuf
 fields

quick-protobuf adds the untrusted 64-bit length to its position unchecked. That
panics in debug builds; in release builds the position could wrap backwards, and
parsing never end.
---
 src/pb.rs           | 18 +++++++++++++++---
 src/pb/merkledag.rs |  4 ++--
 src/pb/unixfs.rs    |  6 +++---
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/pb.rs b/src/pb.rs
index 1206990..6a8aa12 100644
--- a/src/pb.rs
+++ b/src/pb.rs
@@ -2,7 +2,7 @@ use alloc::borrow::Cow;
 use core::convert::TryFrom;
 use core::fmt;
 use core::ops::Range;
-use quick_protobuf::{errors::Result as ProtobufResult, Writer, WriterBackend};
+use quick_protobuf::{errors::Result as ProtobufResult, BytesReader, Writer, WriterBackend};
 
 pub(crate) mod merkledag;
 pub use merkledag::PBLink;
@@ -15,6 +15,18 @@ pub use unixfs::Data as UnixFs;
 /// DAG-PB multicodec code
 pub(crate) const DAG_PB: u64 = 0x70;
 
+/// Skips over an unknown field, as `BytesReader::read_unknown` but without overflowing on untrusted
+/// lengths of length delimited fields, which would panic or rewind the reader.
+pub(crate) fn skip_unknown(r: &mut BytesReader, bytes: &[u8], tag: u32) -> ProtobufResult<()> {
+    const LENGTH_DELIMITED: u32 = 2;
+
+    if tag & 0x7 == LENGTH_DELIMITED && r.clone().read_varint64(bytes)? > bytes.len() as u64 {
+        return Err(quick_protobuf::Error::UnexpectedEndOfBuffer);
+    }
+
+    r.read_unknown(bytes, tag)
+}
+
 /// Failure cases for nested serialization, which allows recovery of the outer `PBNode` when desired.
 #[derive(Debug)]
 pub enum ParsingFailed<'a> {
@@ -64,7 +76,7 @@ impl<'a> TryFrom<Option<&'a [u8]>> for unixfs::Data<'a> {
     type Error = quick_protobuf::Error;
 
     fn try_from(data: Option<&'a [u8]>) -> Result<Self, Self::Error> {
-        use quick_protobuf::{BytesReader, MessageRead};
+        use quick_protobuf::MessageRead;
 
         let data = data.unwrap_or_default();
         let mut reader = BytesReader::from_bytes(data);
@@ -77,7 +89,7 @@ impl<'a> TryFrom<&'a [u8]> for merkledag::PBNode<'a> {
     type Error = quick_protobuf::Error;
 
     fn try_from(data: &'a [u8]) -> Result<Self, Self::Error> {
-        use quick_protobuf::{BytesReader, MessageRead};
+        use quick_protobuf::MessageRead;
         merkledag::PBNode::from_reader(&mut BytesReader::from_bytes(data), data)
     }
 }
diff --git a/src/pb/merkledag.rs b/src/pb/merkledag.rs
index e55e5de..07df01d 100644
--- a/src/pb/merkledag.rs
+++ b/src/pb/merkledag.rs
@@ -30,7 +30,7 @@ impl<'a> MessageRead<'a> for PBLink<'a> {
                 Ok(18) => msg.Name = Some(r.read_string(bytes).map(Cow::Borrowed)?),
                 Ok(24) => msg.Tsize = Some(r.read_uint64(bytes)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
@@ -73,7 +73,7 @@ impl<'a> MessageRead<'a> for PBNode<'a> {
                 Ok(18) => msg.Links.push(r.read_message::<PBLink<'a>>(bytes)?),
                 Ok(10) => msg.Data = Some(r.read_bytes(bytes).map(Cow::Borrowed)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
diff --git a/src/pb/unixfs.rs b/src/pb/unixfs.rs
index acde472..d93c11c 100644
--- a/src/pb/unixfs.rs
+++ b/src/pb/unixfs.rs
@@ -44,7 +44,7 @@ impl<'a> MessageRead<'a> for Data<'a> {
                 Ok(56) => msg.mode = Some(r.read_uint32(bytes)?),
                 Ok(66) => msg.mtime = Some(r.read_message::<UnixTime>(bytes)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
@@ -176,7 +176,7 @@ impl<'a> MessageRead<'a> for UnixTime {
                 Ok(8) => msg.Seconds = r.read_int64(bytes)?,
                 Ok(21) => msg.FractionalNanoseconds = Some(r.read_fixed32(bytes)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
@@ -209,7 +209,7 @@ impl<'a> MessageRead<'a> for Metadata<'a> {
             match r.next_tag(bytes) {
                 Ok(10) => msg.MimeType = Some(r.read_string(bytes).map(Cow::Borrowed)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
-- 
2.43.0


From 9a800c1e5e6d22b04fb177ebc3ce97732f95e8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 16/18] fix: keep the total size of the file over the visit

FileVisit::file_size, documented as the total size of the file, was the size of the
previous block after the first continue_walk.
---
 src/file/reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index dc28b08..6bb18f9 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -96,7 +96,10 @@ impl<'a> FileReader<'a> {
             return Err(FileError::NonRootDefinesMetadata(metadata).into());
         }
 
-        Self::from_parts(inner, offset, traversal.metadata)
+        let mut reader = Self::from_parts(inner, offset, traversal.metadata)?;
+        // this is the size of the whole file, and not just the current block or tree
+        reader.file_size = traversal.file_size;
+        Ok(reader)
     }
 
     fn from_parts(
-- 
2.43.0


From 3bc008e0402fc45935da7ea180fe7318a5cd422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 17/18] fix: reject length delimited fields longer than the
 input

---
 src/pb.rs           | 34 ++++++++++++++++++++++++++++++++--
 src/pb/merkledag.rs |  8 ++++----
 src/pb/unixfs.rs    |  6 +++---
 3 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/pb.rs b/src/pb.rs
index 6a8aa12..57922cf 100644
--- a/src/pb.rs
+++ b/src/pb.rs
@@ -15,18 +15,48 @@ pub use unixfs::Data as UnixFs;
 /// DAG-PB multicodec code
 pub(crate) const DAG_PB: u64 = 0x70;
 
+/// Peeks the length of a length delimited field. `BytesReader` reads lengths as 32-bit varints and
+/// ignores any higher bits, so lengths which cannot fit into the input must be rejected before it.
+pub(crate) fn check_len(r: &BytesReader, bytes: &[u8]) -> ProtobufResult<()> {
+    if r.clone().read_varint64(bytes)? > bytes.len() as u64 {
+        return Err(quick_protobuf::Error::UnexpectedEndOfBuffer);
+    }
+    Ok(())
+}
+
 /// Skips over an unknown field, as `BytesReader::read_unknown` but without overflowing on untrusted
 /// lengths of length delimited fields, which would panic or rewind the reader.
 pub(crate) fn skip_unknown(r: &mut BytesReader, bytes: &[u8], tag: u32) -> ProtobufResult<()> {
     const LENGTH_DELIMITED: u32 = 2;
 
-    if tag & 0x7 == LENGTH_DELIMITED && r.clone().read_varint64(bytes)? > bytes.len() as u64 {
-        return Err(quick_protobuf::Error::UnexpectedEndOfBuffer);
+    if tag & 0x7 == LENGTH_DELIMITED {
+        check_len(r, bytes)?;
     }
 
     r.read_unknown(bytes, tag)
 }
 
+/// Reads the bytes of a length delimited field, rejecting lengths longer than the input.
+pub(crate) fn read_bytes<'a>(r: &mut BytesReader, bytes: &'a [u8]) -> ProtobufResult<&'a [u8]> {
+    check_len(r, bytes)?;
+    r.read_bytes(bytes)
+}
+
+/// Reads a string field, rejecting lengths longer than the input.
+pub(crate) fn read_string<'a>(r: &mut BytesReader, bytes: &'a [u8]) -> ProtobufResult<&'a str> {
+    check_len(r, bytes)?;
+    r.read_string(bytes)
+}
+
+/// Reads a nested message, rejecting lengths longer than the input.
+pub(crate) fn read_message<'a, M>(r: &mut BytesReader, bytes: &'a [u8]) -> ProtobufResult<M>
+where
+    M: quick_protobuf::MessageRead<'a>,
+{
+    check_len(r, bytes)?;
+    r.read_message(bytes)
+}
+
 /// Failure cases for nested serialization, which allows recovery of the outer `PBNode` when desired.
 #[derive(Debug)]
 pub enum ParsingFailed<'a> {
diff --git a/src/pb/merkledag.rs b/src/pb/merkledag.rs
index 07df01d..82ba438 100644
--- a/src/pb/merkledag.rs
+++ b/src/pb/merkledag.rs
@@ -26,8 +26,8 @@ impl<'a> MessageRead<'a> for PBLink<'a> {
         let mut msg = Self::default();
         while !r.is_eof() {
             match r.next_tag(bytes) {
-                Ok(10) => msg.Hash = Some(r.read_bytes(bytes).map(Cow::Borrowed)?),
-                Ok(18) => msg.Name = Some(r.read_string(bytes).map(Cow::Borrowed)?),
+                Ok(10) => msg.Hash = Some(read_bytes(r, bytes).map(Cow::Borrowed)?),
+                Ok(18) => msg.Name = Some(read_string(r, bytes).map(Cow::Borrowed)?),
                 Ok(24) => msg.Tsize = Some(r.read_uint64(bytes)?),
                 Ok(t) => {
                     skip_unknown(r, bytes, t)?;
@@ -70,8 +70,8 @@ impl<'a> MessageRead<'a> for PBNode<'a> {
         let mut msg = Self::default();
         while !r.is_eof() {
             match r.next_tag(bytes) {
-                Ok(18) => msg.Links.push(r.read_message::<PBLink<'a>>(bytes)?),
-                Ok(10) => msg.Data = Some(r.read_bytes(bytes).map(Cow::Borrowed)?),
+                Ok(18) => msg.Links.push(read_message::<PBLink<'a>>(r, bytes)?),
+                Ok(10) => msg.Data = Some(read_bytes(r, bytes).map(Cow::Borrowed)?),
                 Ok(t) => {
                     skip_unknown(r, bytes, t)?;
                 }
diff --git a/src/pb/unixfs.rs b/src/pb/unixfs.rs
index d93c11c..92ea7ee 100644
--- a/src/pb/unixfs.rs
+++ b/src/pb/unixfs.rs
@@ -36,13 +36,13 @@ impl<'a> MessageRead<'a> for Data<'a> {
                     i @ 0..=5 => i.into(),
                     _ => return Err(Error::Message("undefined UnixFS type".into())),
                 },
-                Ok(18) => msg.Data = Some(r.read_bytes(bytes).map(Cow::Borrowed)?),
+                Ok(18) => msg.Data = Some(read_bytes(r, bytes).map(Cow::Borrowed)?),
                 Ok(24) => msg.filesize = Some(r.read_uint64(bytes)?),
                 Ok(32) => msg.blocksizes.push(r.read_uint64(bytes)?),
                 Ok(40) => msg.hashType = Some(r.read_uint64(bytes)?),
                 Ok(48) => msg.fanout = Some(r.read_uint64(bytes)?),
                 Ok(56) => msg.mode = Some(r.read_uint32(bytes)?),
-                Ok(66) => msg.mtime = Some(r.read_message::<UnixTime>(bytes)?),
+                Ok(66) => msg.mtime = Some(read_message::<UnixTime>(r, bytes)?),
                 Ok(t) => {
                     skip_unknown(r, bytes, t)?;
                 }
@@ -207,7 +207,7 @@ impl<'a> MessageRead<'a> for Metadata<'a> {
         let mut msg = Self::default();
         while !r.is_eof() {
             match r.next_tag(bytes) {
-                Ok(10) => msg.MimeType = Some(r.read_string(bytes).map(Cow::Borrowed)?),
+                Ok(10) => msg.MimeType = Some(read_string(r, bytes).map(Cow::Borrowed)?),
                 Ok(t) => {
                     skip_unknown(r, bytes, t)?;
                 }
-- 
2.43.0


From b7033d4f26a81dc23034d3f2de04185f781c1fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:44 +0000
Subject: [PATCH 18/18] fix: do not allocate by the configured chunk size or
 branching factor

Neither is a bound on what there is to import: a chunk size or branching factor which is meant to never
be reached aborted the process, or overflowed, as soon as something was pushed.
---
 src/file/adder.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/file/adder.rs b/src/file/adder.rs
index 3ab0384..ab461f5 100644
--- a/src/file/adder.rs
+++ b/src/file/adder.rs
@@ -179,8 +179,9 @@ impl FileAdder {
 
             if self.block_buffer.capacity() == 0 {
                 // delay the internal buffer creation until this point, as the caller clearly wants
-                // to use it.
-                self.block_buffer.reserve(self.size_hint());
+                // to use it. the chunk size can be much larger than the content, or even what could
+                // be allocated, so leave the buffers of unusually large chunks to grow as needed.
+                self.block_buffer.reserve(self.size_hint().min(1 << 20));
             }
 
             self.block_buffer.extend_from_slice(accepted);
@@ -488,14 +489,15 @@ impl BalancedCollector {
         let mut reused_links = core::mem::take(&mut self.reused_links);
         let mut reused_blocksizes = core::mem::take(&mut self.reused_blocksizes);
 
-        if let Some(need) = self.branching_factor.checked_sub(reused_links.capacity()) {
+        // there will not be more links in a block than there are pending, even if the branching
+        // factor would allow it.
+        let most_links = self.branching_factor.min(pending.len());
+
+        if let Some(need) = most_links.checked_sub(reused_links.capacity()) {
             reused_links.reserve(need);
         }
 
-        if let Some(need) = self
-            .branching_factor
-            .checked_sub(reused_blocksizes.capacity())
-        {
+        if let Some(need) = most_links.checked_sub(reused_blocksizes.capacity()) {
             reused_blocksizes.reserve(need);
         }
 
@@ -543,7 +545,9 @@ impl BalancedCollector {
                 let mut nested_size = 0;
                 let mut nested_total_size = 0;
 
-                let last = (first_at + self.branching_factor).min(pending.len());
+                let last = first_at
+                    .saturating_add(self.branching_factor)
+                    .min(pending.len());
 
                 for (index, link) in pending[first_at..last].iter().enumerate() {
                     assert_eq!(
-- 
2.43.0

