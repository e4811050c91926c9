"""Edits which keep the behaviour: name -> [(file, old, new)...]. run.py applies groups of them
to a scratch copy, where every check must stay quiet."""
V, R, W, A = 'src/file/visit.rs', 'src/file/reader.rs', 'src/walk.rs', 'src/file/adder.rs'
SL, D, I, B = 'src/dir/sharded_lookup.rs', 'src/dir.rs', 'src/dir/builder/iter.rs', 'src/dir/builder/buffered.rs'
PB, DP, CP, DB, SY = 'src/pb.rs', 'src/dagpb.rs', 'src/dir/builder/custom_pb.rs', 'src/dir/builder/dir_builder.rs', 'src/symlink.rs'
MD, UF = 'src/pb/merkledag.rs', 'src/pb/unixfs.rs'
SETS = {}
# ---------------------------------------------------------------- set 1
SETS['a'] = [
 # the range test without min and max
 (V, """        max(block.start, target.start) <= min(block.end, target.end)
""", """        !(block.end < target.start || target.end < block.start)
"""),
 (V, "    use core::cmp::{max, min};\n\n    if let Some(target) = target {\n", "    if let Some(target) = target {\n"),
 # slices with clamps
 (V, """        let start;
        let end;

        // FIXME: these must have bugs and must be possible to simplify
        if target.start < block.start {
            // we mostly need something before
            start = 0;
            end = (min(target.end, block.end) - block.start) as usize;
        } else if target.end > block.end {
            // we mostly need something after
            start = (target.start - block.start) as usize;
            end = (min(target.end, block.end) - block.start) as usize;
        } else {
            // inside
            start = (target.start - block.start) as usize;
            end = start + (target.end - target.start) as usize;
        }

        // the block might have less content than what the links to it have claimed
        let end = min(end, content.len());
        &content[min(start, end)..end]
""", """        let len = content.len() as u64;
        let within = |pos: u64| min(pos.saturating_sub(block.start), len) as usize;
        let end = within(min(target.end, block.end));
        let start = min(within(target.start), end);
        content.get(start..end).unwrap_or_default()
"""),
 # a vec of the children, put on the stack backwards
 (V, """                let before = self.pending.len();

                for (i, (link, range)) in iter.enumerate() {
                    if !block_is_in_target_range(&range, self.range.as_ref()) {
                        continue;
                    }

                    self.pending.push(to_pending(i, link, range)?);
                }

                // reverse to keep the next link we need to traverse as last, where pop() operates.
                (&mut self.pending[before..]).reverse();
""", """                let target = self.range.clone();
                let children = iter
                    .enumerate()
                    .filter(|(_, (_, range))| block_is_in_target_range(range, target.as_ref()))
                    .map(|(i, (link, range))| to_pending(i, link, range))
                    .collect::<Result<Vec<_>, _>>()?;
                self.pending.extend(children.into_iter().rev());
"""),
 (V, """                if !self.pending.is_empty() {
                    self.state = traversal;
                    Ok((content, Some(self)))
                } else {
                    *cache = Some(self.pending.into());
                    Ok((content, None))
                }
""", """                Ok((content, Self::or_done(self.pending, self.range, traversal, cache)))
"""),
 (V, """                if self.pending.is_empty() {
                    // none of the links were in the target range
                    *cache = Some(self.pending.into());
                    Ok((&[][..], None))
                } else {
                    self.state = traversal;
                    Ok((&[][..], Some(self)))
                }
            }
        }
    }
""", """                Ok((&[][..], Self::or_done(self.pending, self.range, traversal, cache)))
            }
        }
    }

    fn or_done(
        pending: Vec<(Cid, Range<u64>)>,
        range: Option<Range<u64>>,
        state: Traversal,
        cache: &mut Option<Cache>,
    ) -> Option<Self> {
        if pending.is_empty() {
            *cache = Some(pending.into());
            return None;
        }
        Some(FileVisit { pending, range, state })
    }
"""),
 # reader: the checks in another order of the source
 (R, """        let empty_or_no_content = inner
            .data
            .Data
            .as_ref()
            .map(|cow| cow.as_ref().is_empty())
            .unwrap_or(true);
        let is_zero_bytes = inner.data.filesize.unwrap_or(0) == 0;
""", """        let empty_or_no_content = inner.data.Data.as_deref().unwrap_or_default().is_empty();
        let is_zero_bytes = matches!(inner.data.filesize, None | Some(0));
"""),
 (R, """                inner
                    .data
                    .blocksizes
                    .iter()
                    .try_fold(offset, |base, size| base.checked_add(*size))
                    .ok_or(FileError::TreeExpandsOnLinks)?;
""", """                let mut reached = offset;
                for size in &inner.data.blocksizes {
                    reached = match reached.checked_add(*size) {
                        Some(next) => next,
                        None => return Err(FileError::TreeExpandsOnLinks.into()),
                    };
                }
"""),
 (R, """            let zipped = self.links.into_iter().zip(self.blocksizes.into_iter());
            FileContent::Links(RangeLinks::from_links_and_blocksizes(
                zipped,
                Some(self.offset),
            ))
""", """            let mut base = self.offset;
            let _ = RangeLinks::from_links_and_blocksizes(core::iter::empty(), None).next();
            let ranged: Vec<_> = self
                .links
                .into_iter()
                .zip(self.blocksizes)
                .map(|(link, size)| {
                    let start = base;
                    base += size;
                    (link, start..base)
                })
                .collect();
            FileContent::Links(ranged.into_iter())
"""),
 # walker: the links gathered before put on the stack
 (W, """                let links = flat
                    .links
                    .into_iter()
                    .enumerate()
                    .map(|(nth, link)| convert_link(depth + 1, nth, link))
                    .rev();

                // replacing this with try_fold takes as many lines as the R: Try<Ok = B> cannot be
                // deduced without specifying the Error
                for link in links {
                    pending.push(link?);
                }
""", """                let before = pending.len();
                let count = flat.links.len();
                for (nth, link) in flat.links.into_iter().enumerate().rev() {
                    pending.push(convert_link(depth + 1, nth, link)?);
                }
                debug_assert_eq!(pending.len() - before, count);
"""),
 (W, """                let next_local = pending.pop();
                if file_continues || next_local.is_some() {
                    *next = next_local;
                    *should_continue = true;
                }
""", """                *next = pending.pop();
                *should_continue = file_continues || next.is_some();
"""),
 (W, """            let (bytes, step) = visit.take().unwrap().continue_walk(bytes, cache)?;
            let file_continues = step.is_some();
            let segment = FileSegment::later(bytes, !file_continues);
            *visit = step;
            if file_continues || next.is_some() {
                *should_continue = true;
            }
            return""", """            let ongoing = visit.take().expect("matched as some");
            let (bytes, step) = ongoing.continue_walk(bytes, cache)?;
            *visit = step;
            let segment = FileSegment::later(bytes, visit.is_none());
            *should_continue = visit.is_some() || next.is_some();
            return"""),
 (W, """        while self.depth >= depth && self.depth > 0 {
            assert!(self.path.pop());
            self.depth = self
                .depth
                .checked_sub(1)
                .expect("underflowed path components");
        }

        self.path.push(name);
""", """        let mut path = PathBuf::from(self.path.ancestors().nth((self.depth + 1).saturating_sub(depth)).unwrap_or(Path::new("")));
        if self.depth < depth {
            path = core::mem::take(&mut self.path);
        }
        path.push(name);
        self.path = path;
"""),
 # adder: always through the same flush
 (A, """        if self.block_buffer.is_empty() && ready {""", """        if ready && self.block_buffer.is_empty() {"""),
 (A, """            let (leaf, links) = if !ready {
                // a new block did not become ready, which means we couldn't have gotten a new cid.
                (None, Vec::new())
            } else {
                // a new leaf must be output, as well as possibly a new link block
                let leaf = Self::flush_buffered_leaf(
                    self.block_buffer.as_slice(),
                    &mut self.unflushed_links,
                    false,
                );
                assert!(leaf.is_some(), "chunk completed, must produce a new block");
                self.block_buffer.clear();
                let links = self.flush_buffered_links(false);

                (leaf, links)
            };
            (leaf.into_iter().chain(links.into_iter()), written)
""", """            let mut leaf = None;
            let mut links = Vec::new();
            if ready {
                let full = core::mem::take(&mut self.block_buffer);
                leaf = Self::flush_buffered_leaf(&full, &mut self.unflushed_links, false);
                assert!(leaf.is_some(), "chunk completed, must produce a new block");
                self.block_buffer = full;
                self.block_buffer.clear();
                links = self.flush_buffered_links(false);
            }
            (leaf.into_iter().chain(links.into_iter()), written)
"""),
 (A, """                let l = input.len().min(*max - buffered.len());
                let accepted = &input[..l];
                let ready = buffered.len() + l >= *max;
                (accepted, ready)
""", """                let missing = *max - buffered.len();
                if input.len() < missing {
                    (input, false)
                } else {
                    (&input[..missing], true)
                }
"""),
 (A, """        if let Some(need) = self.branching_factor.checked_sub(reused_links.capacity()) {
            reused_links.reserve(need);
        }

        if let Some(need) = self
            .branching_factor
            .checked_sub(reused_blocksizes.capacity())
        {
            reused_blocksizes.reserve(need);
        }
""", """        reused_links.clear();
        reused_blocksizes.clear();
"""),
 (A, """                let (cid, vec) = render_and_hash(&inner);

                // start""", """                let rendered = render_and_hash(&inner);
                let (cid, vec) = (rendered.0, rendered.1);

                // start"""),
 # lookup
 (SL, """        let mut found = None;

        for (i, link) in iter.enumerate() {
            let name = link.Name.as_deref().unwrap_or_default();

            if name.len() > 2 && name.get(2..) == Some(needle) {
                if let Some(first) = found.take() {
                    return Err(MultipleMatchingLinks::from((first, (i, link))).into());
                } else {
                    found = Some((i, try_convert_cid(i, link)?));
                }
            } else if name.len() == 2 {
                // the magic number of two comes from the fanout (256) probably
                let cid = try_convert_cid(i, link)?;
                work.push_back(cid);
            } else {
                // no match, not interesting for us
            }
        }
""", """        let mut found: Option<(usize, Cid)> = None;

        for (i, link) in iter.enumerate() {
            let name: &str = match link.Name {
                Some(ref name) => name,
                None => continue,
            };

            if name.len() == 2 {
                work.push_back(try_convert_cid(i, link)?);
                continue;
            }

            let entry = if name.is_char_boundary(2) && name.len() > 2 { &name[2..] } else { continue };

            if entry != needle {
                continue;
            }

            found = match found {
                Some(first) => return Err(MultipleMatchingLinks::from((first, (i, link))).into()),
                None => Some((i, try_convert_cid(i, link)?)),
            };
        }
"""),
 (D, """    let mut matching = links.into_iter().enumerate().filter_map(|(i, link)| {
        match link.Name.as_deref().unwrap_or_default() {
            x if x == needle => Some((i, link)),
            _ => None,
        }
    });

    let first = matching.next();

    if let Some((i, first)) = first {
        let first = try_convert_cid(i, first)?;
        match matching.next() {
            Some((j, second)) => Err(MultipleMatchingLinks::from(((i, first), (j, second))).into()),
            None => Ok(MaybeResolved::Found(first)),
        }
    } else {
        Ok(MaybeResolved::NotFound)
    }
""", """    let mut found: Option<(usize, Cid)> = None;
    for (i, link) in links.into_iter().enumerate() {
        if link.Name.as_deref().unwrap_or("") != needle {
            continue;
        }
        if let Some(first) = found {
            return Err(MultipleMatchingLinks::from((first, (i, link))).into());
        }
        found = Some((i, try_convert_cid(i, link)?));
    }
    Ok(found.map_or(MaybeResolved::NotFound, |(_, cid)| MaybeResolved::Found(cid)))
"""),
 # builder
 (I, """        let cap = buffer.capacity();

        if let Some(additional) = size.checked_sub(cap) {
            buffer.reserve(additional);
        }

        if let Some(mut needed_zeroes) = size.checked_sub(buffer.len()) {
            let zeroes = [0; 8];

            while needed_zeroes > 8 {
                buffer.extend_from_slice(&zeroes[..]);
                needed_zeroes -= zeroes.len();
            }

            buffer.extend(core::iter::repeat(0).take(needed_zeroes));
        }

        let mut writer = Writer::new(BytesWriter::new(&mut buffer[..]));
        node.write_message(&mut writer)
            .map_err(TreeConstructionFailed::Protobuf)?;

        buffer.truncate(size);
""", """        buffer.clear();
        buffer.resize(size, 0);

        let mut writer = Writer::new(BytesWriter::new(&mut buffer[..]));
        node.write_message(&mut writer)
            .map_err(TreeConstructionFailed::Protobuf)?;
"""),
 (I, """            .map(|opt| {
                opt.as_ref()
                    .map(|NamedLeaf(_, _, total_size)| total_size)
                    .unwrap()
            })
            .sum::<u64>();""", """            .flatten()
            .fold(0u64, |sum, leaf| sum + leaf.2);"""),
 (B, """        self.longest_path = full_path.len().max(self.longest_path);
        let mut remaining""", """        let mut remaining"""),
 (B, """        // needed to avoid borrowing into the DirBuilder::new calling closure
""", """        self.longest_path = full_path.len().max(self.longest_path);
"""),
 (PB, """            let returned_base = self.base;
            self.base += blocksize;
            (link, returned_base..(returned_base + blocksize))
""", """            let end = self.base + blocksize;
            let start = core::mem::replace(&mut self.base, end);
            (link, start..end)
"""),
 (DP, """    sub.checked_sub(full)
        // not""", """    if sub < full {
        return None;
    }

    Some(sub - full)
        // not"""),
 (SY, """    let mut writer = Writer::new(block_buffer);
    node.write_message(&mut writer).expect("unexpected failure");
""", """    let mut out = Vec::with_capacity(node.get_size());
    let mut writer = Writer::new(&mut out);
    node.write_message(&mut writer).expect("unexpected failure");
    block_buffer.append(&mut out);
"""),
 (CP, """        self.0
            .hash()
            .to_bytes()
            .iter()
            // while this looks bad it cannot be measured; note we cannot use the
            // write_bytes because that is length prefixed bytes write
            .try_for_each(|b| w.write_u8(*b))
""", """        for b in self.0.hash().to_bytes() {
            w.write_u8(b)?;
        }
        Ok(())
"""),
 (DB, """        match self.nodes.entry(key) {
            Occupied(_) => Err(DuplicateName),
            Vacant(ve) => {
                ve.insert(Entry::Leaf(leaf));
                Ok(())
            }
        }
""", """        if self.nodes.contains_key(&key) {
            return Err(DuplicateName);
        }
        self.nodes.insert(key, Entry::Leaf(leaf));
        Ok(())
"""),
 (UF, """                Ok(8) => msg.Type = match r.read_int32(bytes)? {
                    i @ 0..=5 => i.into(),
                    _ => return Err(Error::Message("undefined UnixFS type".into())),
                },
""", """                Ok(8) => {
                    let raw = r.read_int32(bytes)?;
                    if !(0..6).contains(&raw) {
                        return Err(Error::Message(format!("type {} is not defined by UnixFS", raw)));
                    }
                    msg.Type = mod_Data::DataType::from(raw);
                }
"""),
]
# ---------------------------------------------------------------- set 2: other ways through
SETS['b'] = [
 # the range given narrower: links which only touch the range are not needed
 (V, """        max(block.start, target.start) <= min(block.end, target.end)
""", """        max(block.start, target.start) < min(block.end, target.end)
"""),
 # the order of the pending kept in a deque
 (V, """                for item in pending {
                    links.push(item?);
                }

                // order is reversed to consume them in the depth first order
                links.reverse();
""", """                let wanted = pending.collect::<Result<Vec<_>, _>>()?;
                links.extend(wanted.into_iter().rev());
"""),
 (V, """        let mut iter = self.pending.iter().rev().map(|(link, _)| link);
        let first = iter
            .next()
            .expect("the presence of links has been validated");
        (first, iter)
""", """        let (first, rest) = self
            .pending
            .split_last()
            .expect("the presence of links has been validated");
        (&first.0, rest.iter().rev().map(|(link, _)| link))
"""),
 # the cache is not used at all
 (SL, """        let mut links = cache.take().map(|c| c.buffer).unwrap_or_default();
""", """        let mut links = VecDeque::with_capacity(hamt.links.len());
        *cache = None;
"""),
 (SL, """            Err(ParsingFailed::InvalidDagPb(e)) | Err(ParsingFailed::InvalidUnixFs(e, _)) => {
                *cache = Some(self.links.into());
                return Err(LookupError::Read(Some(e)));
            }
            Err(ParsingFailed::NoData(_)) => {
                *cache = Some(self.links.into());
                return Err(LookupError::Read(None));
            }
""", """            Err(failed) => {
                let source = match failed {
                    ParsingFailed::InvalidDagPb(e) | ParsingFailed::InvalidUnixFs(e, _) => Some(e),
                    ParsingFailed::NoData(_) => None,
                };
                return Err(LookupError::Read(source));
            }
"""),
 (SL, """        if let Some(cid) = found {
            *cache = Some(self.links.into());
            Ok(MaybeResolved::Found(cid))
        } else if self.links.is_empty() {
            *cache = Some(self.links.into());
            Ok(MaybeResolved::NotFound)
        } else {
            Ok(MaybeResolved::NeedToLoadMore(self))
        }
""", """        let done = match found {
            Some(cid) => MaybeResolved::Found(cid),
            None if self.links.is_empty() => MaybeResolved::NotFound,
            None => return Ok(MaybeResolved::NeedToLoadMore(self)),
        };
        *cache = Some(self.links.into());
        Ok(done)
"""),
 (W, """                if let next_local @ Some(_) = pending.pop() {
                    *next = next_local;
                    *should_continue = true;
                }

                Ok(match current {
                    None => {
                        *current = Some(InnerEntry::new_root_dir""", """                *next = pending.pop();
                *should_continue = next.is_some();

                Ok(match current {
                    None => {
                        *current = Some(InnerEntry::new_root_dir"""),
 (W, """        *should_continue = false;

        if let""", """        let _ = core::mem::replace(should_continue, false);

        if let"""),
 (W, """                // TODO: it might be worthwhile to lose the `rev` and sort the pushed links using
                // the depth ascending. This should make sure we are first visiting the shortest
                // path items.
                for link in links {
                    pending.push(link?);
                }
""", """                let mut links = links.collect::<Result<Vec<_>, _>>()?;
                pending.append(&mut links);
"""),
 (W, """    let (depth, name) = match link.Name {
        Some(Cow::Borrowed(s)) if s.get(2..).map_or(false, is_path_component) => {
            (nested_depth, s[2..].to_owned())
        }
        Some(Cow::Borrowed(s)) if s.len() == 2 => (sibling_depth, String::from("")),
        None | Some(Cow::Borrowed(_)) => return Err(invalid_link_name(nth, link)),
        Some(Cow::Owned(_s)) => unreachable!("FlatUnixFs is never transformed to owned"),
    };
    Ok((cid, name, depth))
""", """    let name = link.Name.as_deref().unwrap_or_default();
    if name.len() == 2 {
        return Ok((cid, String::new(), sibling_depth));
    }
    match name.get(2..) {
        Some(entry) if is_path_component(entry) => Ok((cid, entry.to_string(), nested_depth)),
        _ => Err(invalid_link_name(nth, link)),
    }
"""),
 (W, """    !name.is_empty() && name != "." && name != ".." && !name.contains('/')
""", """    !matches!(name, "" | "." | "..") && name.bytes().all(|b| b != b'/')
"""),
 (R, """            Ending::TreeCoverage(cover_end) if next.start <= offset && &next.end > cover_end => {""",
     """            Ending::TreeCoverage(cover_end) if offset >= next.start && cover_end < &next.end => {"""),
 (R, """        let mut reader = Self::from_parts(inner, offset, traversal.metadata)?;
        // this is the size of the whole file, and not just the current block or tree
        reader.file_size = traversal.file_size;
        Ok(reader)
""", """        let Traversal { metadata, file_size, .. } = traversal;
        Self::from_parts(inner, offset, metadata).map(|reader| Self { file_size, ..reader })
"""),
 (A, """        let last_leaf = Self::flush_buffered_leaf(
            self.block_buffer.as_slice(),
            &mut self.unflushed_links,
            true,
        );
        let root_links = self.flush_buffered_links(true);
        // should probably error if there is neither?
        last_leaf.into_iter().chain(root_links.into_iter())
""", """        let rest = core::mem::take(&mut self.block_buffer);
        let mut blocks = Vec::new();
        blocks.extend(Self::flush_buffered_leaf(&rest, &mut self.unflushed_links, true));
        blocks.extend(self.flush_buffered_links(true));
        blocks.into_iter()
"""),
 (A, """            if self.block_buffer.capacity() == 0 {
                // delay the internal buffer creation until this point, as the caller clearly wants
                // to use it.
                self.block_buffer.reserve(self.size_hint());
            }

""", ""),
 (A, """        if input.is_empty() && (!finishing || !unflushed_links.is_empty()) {
            return None;
        }
""", """        let nothing_to_do = match (input.len(), finishing) {
            (0, true) => !unflushed_links.is_empty(),
            (0, false) => true,
            _ => false,
        };
        if nothing_to_do {
            return None;
        }
"""),
 (A, """                    if let Some(last_overwrite) = last_overwrite {
                        // drain any processed
                        pending.drain((last_overwrite + 1)..first_at);
                    }
                    break 'outer;
""", """                    if let Some(last_overwrite) = last_overwrite {
                        // drain any processed
                        let rest = pending.split_off(first_at);
                        pending.truncate(last_overwrite + 1);
                        pending.extend(rest);
                    }
                    break 'outer;
"""),
 (I, """    full_path: String,
    old_depth: usize,
    block_buffer: Vec<u8>,""", """    // where we are
    full_path: String,
    old_depth: usize,
    block_buffer: Vec<u8>,"""),
 (I, """                    let leaf = match Self::render_directory(
                        &leaves,
                        &metadata,
                        buffer,
                        &self.opts.block_size_limit,
                    ) {
                        Ok(leaf) => leaf,
                        Err(e) => {
                            // none of the parents can be completed
                            self.pending.clear();
                            return Some(Err(e));
                        }
                    };

                    self.cid = Some(leaf.link);
                    self.total_size = leaf.total_size;

                    {""", """                    let limit = self.opts.block_size_limit;
                    let rendered = Self::render_directory(&leaves, &metadata, buffer, &limit);

                    if rendered.is_err() {
                        // none of the parents can be completed
                        self.pending = Vec::new();
                    }

                    let leaf = match rendered {
                        Ok(leaf) => leaf,
                        Err(e) => return Some(Err(e)),
                    };

                    self.total_size = leaf.total_size;
                    self.cid = Some(leaf.link);

                    {"""),
 (I, """            full_path: String::with_capacity(longest_path),""", """            full_path: { let _ = longest_path; String::new() },"""),
 (I, """    let mut leaves = Vec::new();

    for (i, (k, v)) in it.enumerate() {""", """    let mut leaves = Vec::with_capacity(it.size_hint().0);

    for (i, (k, v)) in it.enumerate() {"""),
 (B, """        if full_path.contains("//") {
            return Err(TreeBuildingFailed::RepeatSlashesInPath(
                full_path.to_string(),
            ));
        }
""", """        if full_path.as_bytes().windows(2).any(|two| two == b"//") {
            let path = full_path.to_string();
            return Err(TreeBuildingFailed::RepeatSlashesInPath(path));
        }
"""),
 (B, """                if next_id.is_none() {
                    *counter += 1;
                }
""", """                *counter += 1;
"""),
 (PB, """        for link in &self.links {
            w.write_with_tag(18, |w| w.write_message(link))?;
        }
""", """        self.links
            .iter()
            .try_for_each(|link| w.write_with_tag(18, |w| w.write_message(link)))?;
"""),
 (PB, """        let data = match node.Data {
            Some(Cow::Borrowed(bytes)) if !bytes.is_empty() => Some(bytes),
            Some(Cow::Owned(_)) => unreachable!(),
            Some(Cow::Borrowed(_)) | None => return Err(ParsingFailed::NoData(node)),
        };
""", """        let data = match node.Data {
            Some(Cow::Borrowed(bytes)) => bytes,
            Some(Cow::Owned(_)) => unreachable!(),
            None => &[],
        };

        if data.is_empty() {
            return Err(ParsingFailed::NoData(node));
        }

        let data = Some(data);
"""),
 (DP, """    let full = block.as_ref();
    let range = node_data(full)?
        .map(|data| subslice_to_range(full, data).expect("this has to be in range"));
""", """    let range = {
        let full = block.as_ref();
        match node_data(full)? {
            Some(data) => Some(subslice_to_range(full, data).expect("this has to be in range")),
            None => None,
        }
    };
"""),
 (UF, """                Ok(18) => msg.Data = Some(read_bytes(r, bytes).map(Cow::Borrowed)?),
                Ok(24) => msg.filesize = Some(r.read_uint64(bytes)?),
""", """                Ok(24) => msg.filesize = Some(r.read_uint64(bytes)?),
                Ok(18) => {
                    let data = read_bytes(r, bytes)?;
                    msg.Data = Some(Cow::Borrowed(data));
                }
"""),
 (MD, """        0 + self.Hash.as_ref().map_or(0, |m| 1 + sizeof_len((m).len()))
            + self.Name""", """        self.Hash.as_ref().map_or(0, |m| sizeof_len(m.len()) + 1)
            + self.Name"""),
]
# ---------------------------------------------------------------- set 3: slower representations
SETS['c'] = [
 # pending links of a visit: the next one at the front
 (V, """                // order is reversed to consume them in the depth first order
                links.reverse();

""", ""),
 (V, "        let mut iter = self.pending.iter().rev().map(|(link, _)| link);", "        let mut iter = self.pending.iter().map(|(link, _)| link);"),
 (V, """        let (_, range) = self
            .pending
            .pop()
            .expect("User called continue_walk there must have been a next link");
""", """        assert!(
            !self.pending.is_empty(),
            "User called continue_walk there must have been a next link"
        );
        let (_, range) = self.pending.remove(0);
"""),
 (V, """                let before = self.pending.len();

                for (i, (link, range)) in iter.enumerate() {
                    if !block_is_in_target_range(&range, self.range.as_ref()) {
                        continue;
                    }

                    self.pending.push(to_pending(i, link, range)?);
                }

                // reverse to keep the next link we need to traverse as last, where pop() operates.
                (&mut self.pending[before..]).reverse();
""", """                let mut children = Vec::new();
                for (i, (link, range)) in iter.enumerate() {
                    if block_is_in_target_range(&range, self.range.as_ref()) {
                        children.push(to_pending(i, link, range)?);
                    }
                }
                self.pending.splice(0..0, children);
"""),
 # the walker likewise
 (W, "        let cids = self.pending.iter().map(|(cid, ..)| cid).rev();", "        let cids = self.pending.iter().map(|(cid, ..)| cid);"),
 (W, """                    .map(|(nth, link)| convert_link(depth + 1, nth, link))
                    .rev();
""", """                    .map(|(nth, link)| convert_link(depth + 1, nth, link));
"""),
 (W, """                for link in links {
                    pending.push(link?);
                }

                if let next_local @ Some(_) = pending.pop() {
                    *next = next_local;
                    *should_continue = true;
                }

                Ok(match current {
                    None => {
                        *current = Some(InnerEntry::new_root_dir(""", """                let links = links.collect::<Result<Vec<_>, _>>()?;
                *next = advance(pending, links);
                *should_continue = next.is_some();

                Ok(match current {
                    None => {
                        *current = Some(InnerEntry::new_root_dir("""),
 (W, """                    .map(|(nth, link)| convert_sharded_link(depth + 1, depth, nth, link))
                    .rev();
""", """                    .map(|(nth, link)| convert_sharded_link(depth + 1, depth, nth, link));
"""),
 (W, """                for link in links {
                    pending.push(link?);
                }

                if let next_local @ Some(_) = pending.pop() {
                    *next = next_local;
                    *should_continue = true;
                }

                Ok(match current {
                    None => {
                        *current = Some(InnerEntry::new_root_bucket(""", """                let links = links.collect::<Result<Vec<_>, _>>()?;
                *next = advance(pending, links);
                *should_continue = next.is_some();

                Ok(match current {
                    None => {
                        *current = Some(InnerEntry::new_root_bucket("""),
 (W, """                let next_local = pending.pop();
                if file_continues""", """                let next_local = advance(pending, Vec::new());
                if file_continues"""),
 (W, """                if let next_local @ Some(_) = pending.pop() {
                    *next = next_local;
                    *should_continue = true;
                }

                let ie = current.as_ref().unwrap();
                Ok(ContinuedWalk::Symlink(""", """                *next = advance(pending, Vec::new());
                *should_continue = next.is_some();

                let ie = current.as_ref().unwrap();
                Ok(ContinuedWalk::Symlink("""),
 (W, """impl Walker {
    /// Returns a new instance""", """type Pending = (Cid, String, usize);

/// Puts the new links before the pending ones and takes the first of all
fn advance(pending: &mut Vec<Pending>, links: Vec<Pending>) -> Option<Pending> {
    pending.splice(0..0, links);
    if pending.is_empty() {
        None
    } else {
        Some(pending.remove(0))
    }
}

impl Walker {
    /// Returns a new instance"""),
 # lookup: a vec and remove(0) with the buffer of the cache
 (SL, """        self.links
            .pop_front()
            .expect("Already validated there are links");
""", """        self.links.make_contiguous();
        self.links.remove(0).expect("Already validated there are links");
"""),
 # importer: always buffered, links rebuilt
 (A, "        if self.block_buffer.is_empty() && ready {", "        if false {"),
 (A, """            if let Some(last_overwrite) = last_overwrite {
                pending.truncate(last_overwrite + 1);
            }
""", """            if let Some(last_overwrite) = last_overwrite {
                let kept: Vec<Link> = pending.drain(..=last_overwrite).collect();
                *pending = kept;
            }
"""),
 (A, """        self.reused_links = reused_links;
        self.reused_blocksizes = reused_blocksizes;

        ret
""", """        drop((reused_links, reused_blocksizes));

        ret
"""),
 # builder: a new buffer for each block
 (I, """        let cap = buffer.capacity();

        if let Some(additional) = size.checked_sub(cap) {
            buffer.reserve(additional);
        }

        if let Some(mut needed_zeroes) = size.checked_sub(buffer.len()) {
            let zeroes = [0; 8];

            while needed_zeroes > 8 {
                buffer.extend_from_slice(&zeroes[..]);
                needed_zeroes -= zeroes.len();
            }

            buffer.extend(core::iter::repeat(0).take(needed_zeroes));
        }
""", """        *buffer = vec![0; size];
"""),
 (I, "        buffer.truncate(size);\n", ""),
 # data of a node looked up by position
 (DP, """    let full = full.as_ptr() as usize;
    let sub = sub.as_ptr() as usize;
""", """    let (full, sub) = (full.as_ptr() as usize, sub.as_ptr() as usize);
"""),
 # shard checks one by one
 (SL, """        if hamt.data.fanout != Some(256) || hamt.data.hashType != Some(34) {
""", """        let supported = matches!((hamt.data.hashType, hamt.data.fanout), (Some(34), Some(256)));
        if !supported {
"""),
]
