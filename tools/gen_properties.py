#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":state,"meaning":"mutable state the property depends on","where":files[0]}]
    if observe: a["observe_at"]=[observe]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Importing a file and reading it back returns exactly the same bytes",
"For any content, any chunk size of at least one and any branching factor of at least two, however large, importing it yields blocks from which a full read that starts at the CID of the last emitted block returns exactly the imported bytes in order, reports exactly their number as the file size, and asks only for blocks the import emitted. This holds both for the low level file visit and for the tree walker.",
["inputs","histories"],"every content, every fixed chunk size >= 1, every branching factor >= 2, every way of splitting the content over pushes",
"Tests import two fixed contents with a few chunk sizes; the tree shape changes at every multiple and power of the branching factor and each shape exercises different compaction and traversal paths.",
["src/file/adder.rs","src/file/visit.rs","src/file/reader.rs","src/walk.rs"],[("link compaction","BalancedCollector::flush_links"),("chunk buffering","FileAdder::push / FileAdder::finish"),("depth first reading","FileVisit::continue_walk, Walker::next")],"unflushed links, block buffer, pending links","blocks from push/finish; bytes from the visit and the walker")
p("C02","How content is split over pushes never changes what an import produces",
"The sequence of blocks an import emits is determined by the content, the chunk size (of at least one) and the branching factor (of at least two) alone, however the content is cut into pushes, empty pushes included. Every push of a non-empty slice consumes at least one byte and never more than it was given, emits at most two blocks, emits a chunk's block no later than the push that completes that chunk; its size hint is always the chunk size, and formatting the importer for debugging never fails at any point.",
["histories"],"every partition of a content into a sequence of pushes (the unconsumed rest of a push is pushed again), including empty pushes anywhere, chunk size >= 1, branching factor >= 2",
"Tests push equal sized slices only; the buffering logic has separate paths for whole chunks, partial chunks and leftovers that only irregular push sequences combine.",
["src/file/adder.rs"],[("chunk acceptance","Chunker::accept"),("copy-saving path vs buffered path","FileAdder::push")],"block buffer","return values of push and finish, Debug output")
p("C03","Imported files are canonical balanced UnixFS trees, byte for byte",
"An import emits, for each consecutive chunk of the content, a leaf block (type file, chunk bytes, size; no bytes field for empty content) and link blocks that group consecutive subtrees of one level, at most the branching factor and all but the last of a level exactly that many, up to a single root. Each block is the canonical dag-pb encoding, with empty link names, links carrying the child's CID and the cumulative size of its subtree, and sizes per child and in total; each CID is the version 1 dag-pb SHA2-256 CID of its block; every block is emitted once, after all blocks it links to, the root last.",
["inputs"],"every content, chunk size >= 1, branching factor >= 2, including the defaults",
"CIDs of a few sample files do not show that sizes, grouping and order are right at every tree shape and at every integer-width boundary.",
["src/file/adder.rs","src/pb.rs","src/pb/merkledag.rs","src/pb/unixfs.rs"],[("level by level grouping","BalancedCollector::flush_links"),("cumulative sizes","BalancedCollector::partition_link"),("rendering","render_and_hash")],None,"blocks and CIDs from push/finish")
p("C04","Reading a byte range returns exactly that slice of the file",
"A visit restricted to a byte range of a well-formed file yields, concatenated, exactly the bytes of the whole file's content that lie in the range (clipped to the file, nothing for an empty range), and still reports the whole file's size and metadata. It asks only for blocks that lie on the way to content in the range or touch one of its ends, in file order, and never for one lying entirely before or after the range.",
["inputs"],"every well-formed file tree (any shape, any leaf sizes) and every range start <= end, inside, overlapping or outside the file, up to the 64-bit limit",
"The slicing arithmetic has a case per relation between the block range and the target range; eight samples on one two-block layout cannot show every combination right, and none covers nested trees.",
["src/file/visit.rs"],[("slicing","target_slice"),("pruning","block_is_in_target_range")],"pending links with ranges","bytes and pending links of the visit")
p("C05","Every well-formed file tree reads as the concatenation of its leaves",
"For any well-formed file tree, whichever its shape, whether its blocks are typed raw or file, whichever CID versions or codecs its links use and whether optional sizes of leaves are present or not, a full visit starting from the root block returns each block's content in depth-first link order, ends right after the last leaf, and reports the file size and metadata of the root.",
["inputs","programs"],"every well-formed tree: balanced, trickle-like, skewed, single-child chains, empty leaves, repeated (deduplicated) subtrees",
"Tests read fixtures produced by one other implementation with one layout; foreign importers produce other shapes.",
["src/file/reader.rs","src/file/visit.rs","src/pb.rs"],[("range bookkeeping","Ending::check_is_suitable_next, RangeLinks"),("block acceptance","FileReader::from_parts")],"last ending, offset, pending","bytes, file size, metadata")
p("C06","Inconsistent file trees are rejected instead of being read wrongly",
"A file read fails with the corresponding error as soon as it is handed a block that: has a type other than raw or file; has differing numbers of links and block sizes; claims a non-zero size with neither content nor links; has links but no size; carries directory-only properties; carries mode or modification time without being the root; is the first requested child of a block and reaches beyond that block's own end (a child which a ranged visit skips to also has to start before that end); or does not start exactly where the preceding leaf's declared size ended. It never fails on a block that breaks none of these rules and has valid links and sizes that fit 64 bits.",
["fault_sequences"],"every sequence of blocks presented to a file visit or a file inside a walk, where each block may break any combination of the rules",
"Each rule depends on the state left by the preceding blocks; tests check the comparison function on ten hand-picked values, not reachable states of a traversal.",
["src/file/reader.rs","src/file.rs","src/file/visit.rs"],[("ordering rules","Ending::check_is_suitable_next"),("per block rules","FileReader::from_parts, FileReader::from_continued")],"last ending and offset","results of start/continue_walk and of Walker::next")
p("C07","No block content can crash, hang or derail a walk or a file visit",
"Whatever bytes are handed in as the requested blocks, starting or continuing a tree walk or a file visit returns normally with a result or an error: it never panics, aborts, loops forever or grows without bound relative to the blocks' size, and neither does formatting its errors or state. After an error a walk reports that it cannot continue; whenever a walk reports that it can continue, or a visit hands out a continuation, it names the next block to load.",
["fault_sequences","inputs"],"every byte sequence for every block of every walk or visit, with and without a target range",
"The input is untrusted network data; unit tests feed only well-formed fixtures.",
["src/walk.rs","src/file/reader.rs","src/file/visit.rs","src/pb/unixfs.rs","src/pb/merkledag.rs","src/pb.rs"],[("link conversion","convert_link, convert_sharded_link"),("path bookkeeping","InnerEntry::set_path, as_bucket"),("size arithmetic","FileReader::from_parts, RangeLinks::next"),("unknown protobuf fields","MessageRead impls")],None,"normal return of the public calls")
p("C08","No block content can crash or hang path resolution, lookup or parsing",
"Whatever bytes are handed in, resolving a name in a block, continuing a sharded lookup, parsing a node and extracting a node's data return normally with a result or an error; they never panic, abort or loop forever, and neither does formatting their errors or state. A lookup that asks for more blocks always names the next one to load.",
["fault_sequences","inputs"],"every byte sequence for every block and every needle string",
"The input is untrusted network data; unit tests feed only well-formed fixtures.",
["src/dir.rs","src/dir/sharded_lookup.rs","src/dagpb.rs","src/pb.rs","src/pb/unixfs.rs","src/pb/merkledag.rs"],[("link name slicing","ShardedLookup::partition"),("data range","subslice_to_range"),("unknown protobuf fields","MessageRead impls")],None,"normal return of the public calls")
p("C09","A walk visits every entry exactly once, in link order, with its right path",
"Walking a well-formed tree of directories, sharded directories, files and symlinks reports each linked entry exactly once in depth-first link order, with its kind, the CID of its block, its metadata and the path made of the walk's root name and the names along the links (without the shard prefixes); continuation buckets of a sharded directory are reported as such under that directory's path. The walk ends exactly after the last entry, and a link name that is not a single plain path component is refused with an error, so no reported path ever leaves the root.",
["programs","inputs"],"every well-formed tree, every nesting of plain and sharded directories with buckets, every root name including empty and multi-component ones, every link name",
"Path and kind of an entry depend on what was visited just before (going up several levels, leaving a bucket, leaving a multi-block file); tests walk a handful of fixtures.",
["src/walk.rs"],[("depth bookkeeping","InnerEntry::set_path"),("entry kinds","InnerEntry::as_directory, as_bucket, as_bucket_root, as_file, as_symlink"),("link order","Walker::next")],"current entry, next, pending","ContinuedWalk values")
p("C10","Files met during a walk stream the same content as reading them alone",
"For every file met during a walk, the segments reported, taken in order, are the blocks' contents that a separate visit of that file yields; exactly the first one is flagged first and exactly the last one is flagged last, and every one carries the CID of the file's root block, the file's path, metadata and total size. The entry after the file starts only after its last segment.",
["programs","histories"],"every file tree at every position in a directory tree, empty and single-block files included",
"The walker switches between two state machines at each file boundary; only combinations of multi-block files with following siblings, parents' siblings and buckets show that neither loses state.",
["src/walk.rs","src/file/visit.rs"],[("segment flags","FileSegment::first, FileSegment::later"),("switching","Walker::next")],"current file visit, next","ContinuedWalk::File values")
p("C11","Pending links are always exactly the outstanding work, next block first",
"At every point of a walk, file visit or sharded lookup, the pending links are exactly the CIDs of the known but not yet processed blocks, each as often as it is linked; the first one is the block the next step processes. Processing a block removes that first link, adds that block's own outstanding links before (for lookups: in any order among) the others, and leaves the others in their order.",
["histories","programs"],"every state reachable by walking, visiting (with or without range) or looking up, over every tree",
"Prefetching users depend on this list at every intermediate state; tests look only at its first element.",
["src/walk.rs","src/file/visit.rs","src/dir/sharded_lookup.rs"],[("walker list","Walker::pending_links"),("visit list","FileVisit::pending_links"),("lookup list","ShardedLookup::pending_links")],"pending vectors","pending_links()")
p("C12","Mode and modification time are reported exactly as stored in the entry",
"The mode and modification time reported for a file, directory, sharded directory or symlink during a walk or a visit, and when read from a parsed node, are exactly those encoded in that entry's own root block: absent if absent there, all 32 bits of mode, negative seconds and nanoseconds included, and nanoseconds zero when not given, also as a file time. They stay with every segment of a multi-block file and never leak from one entry to another.",
["inputs","programs"],"every mode, every seconds/nanoseconds value incl. absent ones, on every entry kind and in every order of entries",
"Metadata is carried across blocks in mutable walker state; tests check one fixture per kind.",
["src/lib.rs","src/walk.rs","src/file/reader.rs","src/pb/unixfs.rs"],[("extraction","Metadata::from(&UnixFs)"),("carry over","Traversal::metadata, InnerEntry::metadata")],"metadata of the current entry","Metadata accessors")
p("C13","The directory builder renders exactly the registered hierarchy",
"Building yields exactly one block per directory implied by the registered paths, children before parents and the top one last, and for a wrapped tree also the wrapping root; each block is the canonical dag-pb UnixFS directory encoding whose links, sorted bytewise by name, are precisely the registered entries and subdirectories with their names, CIDs and cumulative sizes. Each is reported with its full path, its version 1 dag-pb SHA2-256 CID, its own bytes and a total size equal to its length plus its links' sizes.",
["programs","inputs"],"every set of registered links and directories, any names, any CIDs (versions, codecs, digest lengths), any total sizes whose sums fit 64 bits, wrapped or not",
"The post-order traversal reassembles paths and child CIDs from a work stack; tests build a few trees of one shape.",
["src/dir/builder/buffered.rs","src/dir/builder/iter.rs","src/dir/builder/custom_pb.rs","src/dir/builder/dir_builder.rs"],[("post order","PostOrderIterator::next_borrowed"),("path reassembly","update_full_path"),("link encoding","NamedLeafAsPBLink, WriteableCid")],"pending stack, stashed child links","OwnedTreeNode / TreeNode")
p("C14","A built tree depends only on what was registered, not on how",
"The sequence of blocks, paths, CIDs and sizes a build yields is the same for every order of registering the same links and directories, and the same whether nodes are taken as owned or as borrowed values or by mixing both. Implied directories come out the same whether they were also registered explicitly (without metadata), before or after their children.",
["histories"],"every permutation of every set of compatible registrations; every mix of the two ways of iterating",
"Internal ids and stacks depend on the insertion order; tests use one order.",
["src/dir/builder/buffered.rs","src/dir/builder/iter.rs"],[("ids","BufferingTreeBuilder::modify_with"),("iteration","PostOrderIterator::next, next_borrowed")],"node ids, reused buffers","sequence of nodes")
p("C15","Invalid registrations are refused with the right error and change nothing",
"Registering a path that is rooted, ends in a slash, has repeated slashes, is already registered (as a link or, when a link is registered, also as an explicit or implied directory), runs through or names an already registered leaf as a directory, or would create a second top-level entry of an unwrapped tree fails with an error naming a problem that path has; every other registration succeeds. A failed registration leaves the tree as if it had never been attempted.",
["histories"],"every sequence of link and directory registrations over every path, in wrapped and unwrapped mode",
"Whether a path is acceptable depends on the whole registration history; tests try single offending calls.",
["src/dir/builder/buffered.rs","src/dir/builder/dir_builder.rs","src/dir/builder.rs"],[("path checks","BufferingTreeBuilder::modify_with"),("conflicts","DirBuilder::put_leaf, add_or_get_node")],"directory nodes","Result of put_link/set_metadata, then the built tree")
p("C16","The directory block size limit is enforced exactly, and failure is final",
"With a size limit, building yields a directory block if and only if its encoded size is at most the limit; the first larger one, in post-order, is reported as an error stating its exact size, after the correct blocks of all directories preceding it, and iteration then ends without panicking. Without a limit no directory is refused, and the default limit is 512 KiB.",
["inputs","configurations"],"every tree and every limit, in particular limits equal to, one below and one above each directory's size; continued iteration after the error",
"Only an exhaustive sweep of limits around every block size shows the comparison and the size computation are exact.",
["src/dir/builder/iter.rs","src/dir/builder/custom_pb.rs","src/dir/builder.rs"],[("limit check","PostOrderIterator::render_directory"),("size computation","CustomFlatUnixFs::get_size, NamedLeafAsPBLink::get_size")],None,"items of the build iterator")
p("C17","Resolving a name in a plain directory or dag-pb node is exact",
"Resolving a name in a directory block, or in a dag-pb node without readable UnixFS data, returns the CID of the one link with exactly that name, reports that there is none, or fails reporting the positions and CIDs of the first two when several match. Files, symlinks and other node types, and directories carrying file or shard properties, are refused with an error; other links, even broken ones, have no influence on the result.",
["inputs"],"every list of links (names, duplicates, missing fields, valid and invalid CIDs), every needle, every node type",
"The result is a function of the whole link list; tests resolve names in one fixture.",
["src/dir.rs","src/dir/directory.rs"],[("matching","resolve"),("directory checks","check_directory_supported")],None,"resolve()")
p("C18","A sharded directory lookup finds the name exactly if it is in the shards",
"Looking a name up in a sharded directory by feeding each requested bucket finds the CID of the entry with exactly that name, and reports not found if and only if no entry of any linked bucket has the name; every linked bucket is requested at most once per link until then, and nothing else is. Several entries of that name within one bucket, shards whose hash function or fanout is unsupported, shards with file properties, and blocks that are not shards are refused with an error.",
["programs","fault_sequences"],"every tree of shards with any entries and prefixes, every needle (borrowed or owned), every shard property combination",
"The search state is a queue over several blocks; tests cover one two-level fixture.",
["src/dir/sharded_lookup.rs","src/dir.rs"],[("partitioning","ShardedLookup::partition"),("search loop","ShardedLookup::continue_walk, lookup_or_start"),("property check","ShardedLookup::check_supported")],"bucket queue","MaybeResolved results")
p("C19","Caches never change results, nor do other walks running in between",
"Any walk, file visit or lookup yields the same sequence of results and pending links whether its cache argument is empty, fresh, or left over from any earlier complete, abandoned or failed operation on other data, and however its steps are interleaved with steps of other operations sharing that cache.",
["histories","schedules"],"every sequence and every interleaving of operations sharing one cache, including aborted and failing ones",
"A stale element in a recycled buffer appears only when one operation ends at a particular point and another starts; tests use a fresh cache each time.",
["src/file/visit.rs","src/dir/sharded_lookup.rs","src/walk.rs"],[("buffer recycling","visit::Cache, sharded_lookup::Cache"),("clearing","From<Vec> / From<VecDeque> for Cache")],"cached vectors","results and pending links")
p("C20","Symlink blocks are canonical and walk back to the same target",
"Serializing a symlink appends to the buffer, leaving what was there untouched, exactly the canonical dag-pb UnixFS encoding of a symlink to the target; walking that block yields the target's bytes unchanged. Walking any symlink block yields its target bytes whatever their encoding, at any place in a tree.",
["inputs"],"every target string incl. empty, non-ASCII and long ones, any previous buffer content; any target bytes on reading",
"Length prefixes change width at size boundaries and the target may be arbitrary bytes; tests use one short ASCII target.",
["src/symlink.rs","src/walk.rs"],[("writing","serialize_symlink_block"),("reading","Walker::next")],None,"block bytes; ContinuedWalk::Symlink")
p("C21","Serializing a node is canonical and parsing it back is lossless",
"Serializing any dag-pb node, link or UnixFS message writes exactly the canonical protobuf encoding (links before data, fields in number order, absent fields absent, present ones present even when empty or zero), of exactly the size announced beforehand; parsing that encoding gives back an equal value.",
["inputs"],"every value of every field at every encoding width, every combination of present and absent fields, any number of links",
"Sizes and bytes are computed by two parallel hand-modified functions that must agree for each field combination and width.",
["src/pb.rs","src/pb/merkledag.rs","src/pb/unixfs.rs"],[("size","get_size"),("writing","write_message"),("reading","from_reader, TryFrom impls")],None,"bytes and parsed values")
p("C22","Parsing accepts any valid encoding of a node and refuses damaged ones",
"Parsing yields the encoded field values independently of field order, of unknown fields (varint, 64-bit, length-delimited or 32-bit) in any message, of non-minimal integer encodings, and of earlier occurrences of a non-repeated field, the last of which wins; repeated fields keep their order. Encodings cut short inside a field, fields longer than the input, link names that are not UTF-8 and undefined UnixFS types are refused with an error; a node without data is refused as a UnixFS node while its outer node still parses.",
["inputs"],"every permutation, duplication and padding of the fields of every message; every truncation point",
"Foreign encoders make other choices than this library's serializer, which round-trip tests never show.",
["src/pb.rs","src/pb/merkledag.rs","src/pb/unixfs.rs"],[("reading","MessageRead impls"),("recovery of the outer node","FlatUnixFs::try_from, ParsingFailed")],None,"parsed values and errors")
p("C23","Extracting a node's data returns exactly the data field of the block",
"Extracting the data of a dag-pb block returns exactly the bytes of its data field, or nothing when it has none, as a slice of the given block, also when the field is empty or sits anywhere in the block. The wrapping form gives the same bytes for any owned or borrowed block, returns the wrapped block unchanged, and compares equal to exactly those bytes.",
["inputs"],"every node: any links, data present, absent or empty, before, between or after links, repeated; several container types",
"The position arithmetic has edge cases at the ends of the block that depend on field placement.",
["src/dagpb.rs"],[("position","subslice_to_range"),("extraction","node_data, wrap_node_data, NodeData")],None,"returned bytes")
p("C24","What was imported and built is what walking and resolving it shows",
"For any set of contents, symlinks and paths, importing the contents, building the directory tree over them, and then walking from the top reports exactly these files with their bytes, these symlinks with their targets and the implied directories, each under its path and once, with links' cumulative sizes equal to the bytes of all blocks below them; resolving each path segment by segment from the top arrives at the same CIDs, and a name that was not registered is not found.",
["programs","histories"],"every set of entries with plain names over every hierarchy shape and file shape, wrapped or not",
"This composes all parts; tests check the parts with fixtures from elsewhere.",
["src/file/adder.rs","src/dir/builder/buffered.rs","src/dir/builder/iter.rs","src/walk.rs","src/dir.rs","src/symlink.rs"],[("import","FileAdder"),("build","BufferingTreeBuilder, PostOrderIterator"),("walk and resolve","Walker::next, resolve")],None,"walked entries vs registered ones")
p("C25","Broken links and unsupported nodes are reported precisely",
"A link that has to be followed or returned but whose hash is missing or not a CID makes the walk, visit, resolution or lookup fail with an error that carries that link's position in its block, its hash bytes and its name; a metadata node, an undefined node type, a node of an unexpected type, an unsupported directory or shard and unparsable or empty blocks each fail with their own kind of error, whichever block of the operation they occur in. In visits, resolutions and lookups the source of an error due to unparsable bytes is the parser's error, that of a broken link's error is why the hash is no CID, and a lookup's error turned into a resolution's stays the same.",
["fault_sequences"],"every kind of fault at every link and every block position of walks, visits, resolutions and lookups",
"Errors of one block surface through three layers of conversions depending on the position; tests check few of the pairs.",
["src/lib.rs","src/walk.rs","src/dir.rs","src/dir/sharded_lookup.rs","src/dir/directory.rs","src/file.rs","src/file/visit.rs"],[("link errors","InvalidCidInLink"),("conversions","From impls of walk::Error, FileReadFailed, LookupError, ResolveError")],None,"error values")
p("C26","Directory metadata given to the builder is what reading it back reports",
"For every directory registered with metadata, the built directory block carries exactly that mode and modification time, the last registration winning, and a walk over the built tree reports them for that directory and no other; a directory registered without metadata, or only implied, is encoded without any. The metadata is included in the block's size, CID and the parents' cumulative sizes.",
["inputs","histories"],"every mode and time, on any directory of any tree, registered before or after its entries, once or repeatedly",
"The metadata has to travel from registration through two traversal phases to rendering; no test ever looks at it.",
["src/dir/builder/buffered.rs","src/dir/builder/dir_builder.rs","src/dir/builder/iter.rs"],[("registration","BufferingTreeBuilder::set_metadata"),("rendering","PostOrderIterator::render_directory")],"metadata of directory nodes","built blocks and walked metadata")
p("C27","Importing and reading stream: memory does not grow with the content",
"Between calls an importer holds at most one unfinished chunk of content, about one branching factor of links, and one link per link block emitted so far. A walk, file visit or lookup holds between calls only its pending links with their names, its current path or needle and, in its cache, room for such links, but never the content of any block, however many blocks it has gone through and however large they are. All of it is released when the operation and its cache are dropped.",
["histories","inputs"],"every length of content and number of pushes; every number and size of blocks walked, visited or looked up",
"A test with a small file cannot tell a streaming implementation from one that buffers, and a leak per block only shows after many blocks.",
["src/file/adder.rs","src/file/visit.rs","src/walk.rs","src/dir/sharded_lookup.rs"],[("importing","FileAdder::push, BalancedCollector::flush_links"),("reading","FileVisit, Walker::next, ShardedLookup, Cache")],"held memory","allocated bytes between calls")
p("C28","Operations depend on neither each other nor the thread they run on",
"What a walk, file visit, lookup, import or tree build yields depends only on its own arguments. Any number of them can be in progress at once, their steps interleaved in any way, and each can be moved to another thread between any two of its steps; every one of them still yields exactly what it yields alone on one thread, and yields the same when it is repeated. All public values of the library can be sent to and shared with other threads.",
["schedules","histories"],"every interleaving of the steps of several operations over several threads, every point of moving one to another thread",
"Tests run each operation alone on one thread; state that is kept per thread or per process (scratch buffers, counters, memoized results) shows only when two operations are in progress at once, or when one changes threads.",
["src/walk.rs","src/file/visit.rs","src/file/adder.rs","src/dir/sharded_lookup.rs","src/dir/builder/buffered.rs","src/dir/builder/iter.rs","src/dagpb.rs","src/symlink.rs"],[("state of reading","Walker, FileVisit, ShardedLookup (with_owned_needle), Cache"),("state of writing","FileAdder, BufferingTreeBuilder, PostOrderIterator")],"each operation's own fields","values returned by each step")
p("C29","Settings take effect in any order, the last value of each, else the default",
"Whatever sequence of settings an importer (chunker, collector), the options of a tree builder (wrapping, block size limit) or a prepared file visit (target range) is given, in any order, with any of them repeated or given with their default values, or copied in between: what it then yields is decided by the last value given for each, and by the documented default for each one not given (chunks of 256 KiB, 174 links per block, directories of at most 512 KiB, no wrapping, the whole file). The size hint of an importer is its chunk size.",
["inputs","histories"],"all sequences of settings, all files, trees and ranges",
"Tests configure objects in one order, each setting once; a setting which resets another, is ignored when given twice, is combined with an earlier one or loses the default only shows in other sequences.",
["src/file/adder.rs","src/dir/builder.rs","src/dir/builder/buffered.rs","src/file/visit.rs"],[("settings","FileAdderBuilder, TreeOptions, IdleFileVisit")],"fields of the objects","blocks emitted, directories built or refused, bytes read")
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
