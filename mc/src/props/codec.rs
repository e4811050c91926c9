//! C21-C23: the dag-pb and UnixFS codec.
use std::borrow::Cow;
use std::rc::Rc;
use std::sync::Arc;

use quick_protobuf::{BytesReader, MessageRead, MessageWrite, Writer};
use unixfs_v1::dagpb::{node_data, wrap_node_data};
use unixfs_v1::{FlatUnixFs, PBLink, PBNode, UnixFs, UnixFsType};

use crate::enc::*;
use crate::ensure;
use crate::explore::*;
use crate::model::hex;
use crate::Tier;

// --- independent parser ---------------------------------------------------------------------

/// What parsing must yield.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum P<T> {
    Ok(T),
    Err,
    /// Not settled by the format (groups, reserved wire types, field number zero, integers over 64
    /// bits and tags over 32 bits, faults in occurrences which are overridden later).
    Any,
}

enum V<'a> {
    Int(u64),
    Bytes(usize, &'a [u8]),
    Fixed32(u32),
    Fixed64,
}

struct Raw<'a> {
    b: &'a [u8],
    at: usize,
}

enum Bad {
    Err,
    Any,
}

impl<'a> Raw<'a> {
    fn int(&mut self) -> Result<u64, Bad> {
        let mut v = 0u64;
        for i in 0..10 {
            let Some(&x) = self.b.get(self.at) else { return Err(Bad::Err) };
            self.at += 1;
            if i == 9 && x > 1 {
                return Err(Bad::Any);
            }
            v |= ((x & 0x7f) as u64) << (7 * i);
            if x & 0x80 == 0 {
                return Ok(v);
            }
        }
        Err(Bad::Any)
    }

    fn next(&mut self) -> Result<Option<(u64, V<'a>)>, Bad> {
        if self.at == self.b.len() {
            return Ok(None);
        }
        let tag = self.int()?;
        if tag > u32::MAX as u64 || tag >> 3 == 0 {
            return Err(Bad::Any);
        }
        let v = match tag & 7 {
            0 => V::Int(self.int()?),
            2 => {
                let n = self.int()?;
                if n > (self.b.len() - self.at) as u64 {
                    return Err(Bad::Err);
                }
                let at = self.at;
                self.at += n as usize;
                V::Bytes(at, &self.b[at..self.at])
            }
            w @ (1 | 5) => {
                let n = if w == 1 { 8 } else { 4 };
                if n > self.b.len() - self.at {
                    return Err(Bad::Err);
                }
                let x = &self.b[self.at..self.at + n];
                self.at += n;
                if w == 5 {
                    V::Fixed32(u32::from_le_bytes(x.try_into().unwrap()))
                } else {
                    V::Fixed64
                }
            }
            _ => return Err(Bad::Any),
        };
        Ok(Some((tag >> 3, v)))
    }
}

fn fold<'a, T>(b: &'a [u8], mut v: T, mut each: impl FnMut(&mut T, u64, V<'a>) -> Result<(), Bad>) -> P<T> {
    let mut r = Raw { b, at: 0 };
    // faults in the middle: what comes later cannot make the encoding valid again
    loop {
        match r.next() {
            Ok(None) => return P::Ok(v),
            Ok(Some((n, x))) => match each(&mut v, n, x) {
                Ok(()) => {}
                Err(Bad::Err) => return P::Err,
                Err(Bad::Any) => return P::Any,
            },
            Err(Bad::Err) => return P::Err,
            Err(Bad::Any) => return P::Any,
        }
    }
}

fn sub<T>(p: P<T>) -> Result<T, Bad> {
    match p {
        P::Ok(t) => Ok(t),
        P::Err => Err(Bad::Err),
        P::Any => Err(Bad::Any),
    }
}

pub fn parse_link(b: &[u8]) -> P<L> {
    let mut bad_name = (false, false); // last one bad, some bad
    let r = fold(b, L::default(), |l, n, v| {
        match (n, v) {
            (1, V::Bytes(_, x)) => l.hash = Some(x.to_vec()),
            (2, V::Bytes(_, x)) => {
                let bad = std::str::from_utf8(x).is_err();
                bad_name = (bad, bad_name.1 || bad);
                l.name = Some(x.to_vec());
            }
            (3, V::Int(x)) => l.tsize = Some(x),
            _ => {}
        }
        Ok(())
    });
    match (r, bad_name) {
        (P::Ok(_), (true, _)) => P::Err,
        (P::Ok(_), (false, true)) => P::Any,
        (r, _) => r,
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Node {
    pub links: Vec<L>,
    pub data: Option<(usize, Vec<u8>)>,
}

pub fn parse_node(b: &[u8]) -> P<Node> {
    fold(b, Node::default(), |o, n, v| {
        match (n, v) {
            (2, V::Bytes(_, x)) => o.links.push(sub(parse_link(x))?),
            (1, V::Bytes(at, x)) => o.data = Some((at, x.to_vec())),
            _ => {}
        }
        Ok(())
    })
}

fn parse_time(b: &[u8]) -> P<(i64, Option<u32>)> {
    fold(b, (0, None), |t, n, v| {
        match (n, v) {
            (1, V::Int(x)) => t.0 = x as i64,
            (2, V::Fixed32(x)) => t.1 = Some(x),
            _ => {}
        }
        Ok(())
    })
}

pub fn parse_unixfs(b: &[u8]) -> P<U> {
    let mut bad_type = (false, false);
    let r = fold(b, U::default(), |u, n, v| {
        match (n, v) {
            (1, V::Int(x)) => {
                // enumerations are 32 bit integers; only those which are at most 32 bits are settled
                if x > i32::MAX as u64 && x < (i32::MIN as i64) as u64 {
                    return Err(Bad::Any);
                }
                let bad = x > 5;
                bad_type = (bad, bad_type.1 || bad);
                u.ty = x;
            }
            (2, V::Bytes(_, x)) => u.data = Some(x.to_vec()),
            (3, V::Int(x)) => u.filesize = Some(x),
            (4, V::Int(x)) => u.blocksizes.push(x),
            (4, V::Bytes(..)) => return Err(Bad::Any), // packed
            (5, V::Int(x)) => u.hash_type = Some(x),
            (6, V::Int(x)) => u.fanout = Some(x),
            (7, V::Int(x)) => {
                if x > u32::MAX as u64 {
                    return Err(Bad::Any);
                }
                u.mode = Some(x as u32)
            }
            (8, V::Bytes(_, x)) => u.mtime = Some(sub(parse_time(x))?),
            _ => {}
        }
        Ok(())
    });
    match (r, bad_type) {
        (P::Ok(_), (true, _)) => P::Err,
        (P::Ok(_), (false, true)) => P::Any,
        (r, _) => r,
    }
}

// --- what the implementation yields -----------------------------------------------------------

fn link_of(l: &PBLink<'_>) -> L {
    L {
        hash: l.Hash.as_ref().map(|x| x.to_vec()),
        name: l.Name.as_ref().map(|x| x.as_bytes().to_vec()),
        tsize: l.Tsize,
    }
}

fn unixfs_of(u: &UnixFs<'_>) -> U {
    U {
        ty: match u.Type {
            UnixFsType::Raw => RAW,
            UnixFsType::Directory => DIR,
            UnixFsType::File => FILE,
            UnixFsType::Metadata => META,
            UnixFsType::Symlink => SYM,
            UnixFsType::HAMTShard => HAMT,
        },
        data: u.Data.as_ref().map(|x| x.to_vec()),
        filesize: u.filesize,
        blocksizes: u.blocksizes.clone(),
        hash_type: u.hashType,
        fanout: u.fanout,
        mode: u.mode,
        mtime: u.mtime.as_ref().map(|t| (t.Seconds, t.FractionalNanoseconds)),
    }
}

fn node_of(n: &PBNode<'_>) -> (Vec<L>, Option<Vec<u8>>) {
    (n.Links.iter().map(link_of).collect(), n.Data.as_ref().map(|x| x.to_vec()))
}

fn agree<T: std::fmt::Debug + PartialEq>(what: &str, b: &[u8], got: &Result<T, String>, want: &P<T>) -> R {
    match (got, want) {
        (_, P::Any) => Ok(()),
        (Ok(g), P::Ok(w)) => {
            ensure!(g == w, format!("{what}: other value"), "{what}: {} parsed as {g:?}, encoded was {w:?}", hex(b));
            Ok(())
        }
        (Err(e), P::Ok(w)) => fail(format!("{what}: valid encoding refused"), format!("{what}: {} was refused with {e}, it encodes {w:?}", hex(b))),
        (Ok(g), P::Err) => fail(format!("{what}: invalid encoding accepted"), format!("{what}: {} is invalid but parsed as {g:?}", hex(b))),
        (Err(_), P::Err) => Ok(()),
    }
}

/// Parses `b` as a link, node, UnixFS message and as the combined form and compares each with the
/// independent parser.
fn compare(cx: &mut Cx, b: &[u8], which: u8) -> R {
    cx.log(|| format!("parse {}", hex(b)));
    if which & 1 != 0 {
        let got = PBLink::from_reader(&mut BytesReader::from_bytes(b), b).map(|l| link_of(&l)).map_err(|e| e.to_string());
        let want = parse_link(b);
        cx.step(&got);
        agree("link", b, &got, &want)?;
    }
    if which & 2 != 0 {
        let got = PBNode::try_from(b);
        let want = parse_node(b);
        let same = got.as_ref().map(node_of).map_err(|e| e.to_string());
        cx.step(&same);
        let w = match &want {
            P::Ok(n) => P::Ok((n.links.clone(), n.data.clone().map(|d| d.1))),
            P::Err => P::Err,
            P::Any => P::Any,
        };
        agree("node", b, &same, &w)?;
        // the combined form, and the message read through the outer node
        let flat = FlatUnixFs::try_parse(b).map(|f| (f.links.iter().map(link_of).collect::<Vec<_>>(), unixfs_of(&f.data))).map_err(|e| e.to_string());
        let flat2 = FlatUnixFs::try_from(b).map(|f| (f.links.iter().map(link_of).collect::<Vec<_>>(), unixfs_of(&f.data))).map_err(|e| e.to_string());
        ensure!(flat.is_ok() == flat2.is_ok(), "combined: two ways differ", "try_parse and try_from of {} give {flat:?} and {flat2:?}", hex(b));
        cx.step(&flat);
        let want_flat = match &want {
            P::Ok(n) => match &n.data {
                None => P::Err,
                Some((_, d)) if d.is_empty() => P::Err,
                Some((_, d)) => match parse_unixfs(d) {
                    P::Ok(u) => P::Ok((n.links.clone(), u)),
                    P::Err => P::Err,
                    P::Any => P::Any,
                },
            },
            P::Err => P::Err,
            P::Any => P::Any,
        };
        agree("combined", b, &flat, &want_flat)?;
        if let (Ok(node), P::Ok(n)) = (&got, &want) {
            let inner = UnixFs::try_from(node).map(|u| unixfs_of(&u)).map_err(|e| e.to_string());
            let want_inner = parse_unixfs(n.data.as_ref().map(|d| &d.1[..]).unwrap_or_default());
            agree("message of a node", b, &inner, &want_inner)?;
        }
    }
    if which & 4 != 0 {
        let got = UnixFs::try_from(Some(b)).map(|u| unixfs_of(&u)).map_err(|e| e.to_string());
        cx.step(&got);
        agree("message", b, &got, &parse_unixfs(b))?;
    }
    Ok(())
}

// --- C21 ---------------------------------------------------------------------------------------

fn widths() -> Vec<u64> {
    let mut v = vec![0, 1];
    for w in 1..10 {
        v.push((1u64 << (7 * w)) - 1);
        v.push(1u64 << (7 * w));
    }
    v.extend([u64::MAX, i64::MAX as u64, u32::MAX as u64, 1 << 32]);
    v
}

fn some_bytes(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 31 + 7) as u8).collect()
}

fn written<M: MessageWrite>(cx: &mut Cx, m: &M, want: &[u8], what: &str) -> R {
    let mut out = Vec::new();
    let size = m.get_size();
    let res = m.write_message(&mut Writer::new(&mut out));
    cx.step(&(size, &out));
    ensure!(res.is_ok(), format!("{what}: writing fails"), "{what}: {res:?}");
    ensure!(out == want, format!("{what}: not canonical"), "{what}: wrote {} instead of {}", hex(&out), hex(want));
    ensure!(size == want.len(), format!("{what}: announced size"), "{what}: announced {size} bytes and wrote {}", want.len());
    // into a buffer of exactly the announced size
    let mut buf = vec![0xa5u8; size];
    {
        let mut w = Writer::new(quick_protobuf::BytesWriter::new(&mut buf));
        let r = m.write_message(&mut w);
        ensure!(r.is_ok(), format!("{what}: announced size too small"), "{what}: does not fit {size} bytes: {r:?}");
    }
    ensure!(buf == want, format!("{what}: not canonical"), "{what}: wrote {} into a fixed buffer", hex(&buf));
    Ok(())
}

fn cow<'a>(b: &'a Option<Vec<u8>>, owned: bool) -> Option<Cow<'a, [u8]>> {
    b.as_ref().map(|b| if owned { Cow::Owned(b.clone()) } else { Cow::Borrowed(&b[..]) })
}

fn to_link<'a>(l: &'a L, owned: bool) -> PBLink<'a> {
    PBLink {
        Hash: cow(&l.hash, owned),
        Name: l.name.as_ref().map(|n| {
            let s = std::str::from_utf8(n).unwrap();
            if owned {
                Cow::Owned(s.to_string())
            } else {
                Cow::Borrowed(s)
            }
        }),
        Tsize: l.tsize,
    }
}

fn to_unixfs<'a>(u: &'a U, owned: bool) -> UnixFs<'a> {
    let mut o = UnixFs {
        Type: [
            UnixFsType::Raw,
            UnixFsType::Directory,
            UnixFsType::File,
            UnixFsType::Metadata,
            UnixFsType::Symlink,
            UnixFsType::HAMTShard,
        ][u.ty as usize],
        Data: cow(&u.data, owned),
        filesize: u.filesize,
        blocksizes: u.blocksizes.clone(),
        hashType: u.hash_type,
        fanout: u.fanout,
        mode: u.mode,
        mtime: None,
    };
    if let Some((s, n)) = u.mtime {
        o.mtime = Some(Default::default());
        let t = o.mtime.as_mut().unwrap();
        t.Seconds = s;
        t.FractionalNanoseconds = n;
    }
    o
}

fn check_link(cx: &mut Cx, l: &L, owned: bool) -> R {
    let want = l.enc();
    let m = to_link(l, owned);
    written(cx, &m, &want, "link")?;
    let back = PBLink::from_reader(&mut BytesReader::from_bytes(&want), &want);
    ensure!(back.as_ref().is_ok_and(|b| *b == m), "link: not read back", "{m:?} is read back as {back:?}");
    Ok(())
}

fn check_node(cx: &mut Cx, links: &[L], data: &Option<Vec<u8>>, owned: bool) -> R {
    let want = node(links, data.as_deref());
    let m = PBNode { Links: links.iter().map(|l| to_link(l, owned)).collect(), Data: cow(data, owned) };
    written(cx, &m, &want, "node")?;
    let back = PBNode::try_from(&want[..]);
    ensure!(back.as_ref().is_ok_and(|b| *b == m), "node: not read back", "{m:?} is read back as {back:?}");
    Ok(())
}

fn check_unixfs(cx: &mut Cx, u: &U, owned: bool) -> R {
    let want = u.enc();
    let m = to_unixfs(u, owned);
    written(cx, &m, &want, "message")?;
    let back = UnixFs::try_from(Some(&want[..]));
    ensure!(back.as_ref().is_ok_and(|b| *b == m), "message: not read back", "{m:?} is read back as {back:?}");
    Ok(())
}

fn check_flat(cx: &mut Cx, links: &[L], u: &U, owned: bool) -> R {
    let want = block(links, u);
    let m = FlatUnixFs { links: links.iter().map(|l| to_link(l, owned)).collect(), data: to_unixfs(u, owned) };
    written(cx, &m, &want, "combined")?;
    let back = FlatUnixFs::try_parse(&want);
    ensure!(
        back.as_ref().is_ok_and(|b| b.links == m.links && b.data == m.data),
        "combined: not read back",
        "{m:?} is read back as {back:?}"
    );
    Ok(())
}

fn link_forms() -> Vec<L> {
    vec![
        L::default(),
        L { hash: Some(vec![]), name: Some(vec![]), tsize: Some(0) },
        L { hash: Some(fake_cid(0, 1)), name: None, tsize: Some(300) },
        L { hash: Some(fake_cid(1, 2)), name: Some("ä/b".into()), tsize: None },
        L { hash: None, name: Some(some_bytes(0)), tsize: Some(u64::MAX) },
        L { hash: Some(some_bytes(100)), name: Some(vec![b'x'; 100]), tsize: Some(1 << 35) },
    ]
}

pub fn c21(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    {
        let lens: Vec<Option<usize>> = [None].into_iter().chain(tier.of(&[0usize, 1, 34, 36, 127, 128, 16383, 16384][..], &[0, 1, 2, 34, 36, 126, 127, 128, 129, 255, 256, 16383, 16384, 2097151, 2097152][..]).iter().map(|x| Some(*x))).collect();
        let ws = widths();
        v.push(scenario(
            "links",
            format!("every link with {} hash lengths x {} name lengths (ASCII and multi-byte) x {} total sizes (absent and all encoding width boundaries), owned or borrowed", lens.len(), lens.len(), ws.len() + 1),
            move |cx| {
                let owned = cx.flag();
                let multi = cx.flag();
                let hash = cx.pick(&lens).map(some_bytes);
                let name = cx.pick(&lens).map(|n| {
                    let mut s = String::new();
                    if multi {
                        while s.len() + 3 <= n {
                            s.push('€');
                        }
                    }
                    while s.len() < n {
                        s.push((b'a' + (s.len() % 26) as u8) as char);
                    }
                    s.into_bytes()
                });
                let t = cx.choose(ws.len() + 1);
                let tsize = if t == 0 { None } else { Some(ws[t - 1]) };
                check_link(cx, &L { hash, name, tsize }, owned)
            },
        ));
    }
    {
        let n = tier.of(6, 8);
        let forms = link_forms();
        let datas: Vec<Option<Vec<u8>>> = [None, Some(0), Some(1), Some(127), Some(128), Some(16383), Some(16384)].into_iter().map(|x| x.map(some_bytes)).collect();
        v.push(scenario(
            "nodes",
            format!("every list of 0..={n} links of {} forms x data absent, empty and of lengths at the encoding boundaries, owned or borrowed", forms.len()),
            move |cx| {
                let owned = cx.flag();
                let data = cx.pick(&datas).clone();
                let k = cx.choose(n + 1);
                let links: Vec<L> = (0..k).map(|_| cx.pick(&forms).clone()).collect();
                check_node(cx, &links, &data, owned)
            },
        ));
        let max = tier.of(400usize, 2000);
        v.push(scenario("many links", format!("nodes of every number 0..={max} of links, 2 forms, with and without data"), move |cx| {
            let form = [link_forms()[2].clone(), link_forms()[3].clone()][cx.choose(2)].clone();
            let data = if cx.flag() { Some(vec![8, 2]) } else { None };
            let k = cx.choose(max + 1);
            check_node(cx, &vec![form; k], &data, false)
        }));
    }
    {
        let v3: [Option<u64>; 4] = [None, Some(0), Some(127), Some(128)];
        let modes: [Option<u32>; 4] = [None, Some(0), Some(0o755), Some(u32::MAX)];
        let times: [Option<(i64, Option<u32>)>; 6] =
            [None, Some((0, None)), Some((0, Some(0))), Some((-1, Some(u32::MAX))), Some((1 << 40, None)), Some((i64::MIN, Some(999_999_999)))];
        let bs: Vec<Vec<u64>> = vec![vec![], vec![0], vec![1, 128], vec![u64::MAX, 0, 262144]];
        let datas: Vec<Option<Vec<u8>>> = [None, Some(0), Some(1), Some(128)].into_iter().map(|x| x.map(some_bytes)).collect();
        v.push(scenario(
            "messages",
            "every combination of 6 types, 4 data, 4 filesizes, 4 lists of block sizes, 4 hash types, 4 fanouts, 4 modes, 6 times, each absent included; as message and in the combined form".to_string(),
            move |cx| {
                let u = U {
                    ty: cx.choose(6) as u64,
                    data: cx.pick(&datas).clone(),
                    filesize: *cx.pick(&v3),
                    blocksizes: cx.pick(&bs).clone(),
                    hash_type: *cx.pick(&v3),
                    fanout: *cx.pick(&v3),
                    mode: *cx.pick(&modes),
                    mtime: *cx.pick(&times),
                };
                check_unixfs(cx, &u, false)?;
                check_flat(cx, &[], &u, false)
            },
        ));
    }
    {
        let ws = widths();
        v.push(scenario(
            "integers",
            format!("each integer field of a message at each of {} width boundaries, alone and with all other fields present; every pair of block sizes; seconds positive and negative", ws.len()),
            move |cx| {
                let full = cx.flag();
                let mut u = if full {
                    U {
                        ty: FILE,
                        data: Some(some_bytes(130)),
                        filesize: Some(200),
                        blocksizes: vec![1, 300],
                        hash_type: Some(0x22),
                        fanout: Some(256),
                        mode: Some(0o644),
                        mtime: Some((1_600_000_000, Some(7))),
                    }
                } else {
                    U::ty(FILE)
                };
                let f = cx.choose(9);
                let w = *cx.pick(&ws);
                match f {
                    0 => u.filesize = Some(w),
                    1 => {
                        let w2 = *cx.pick(&ws);
                        u.blocksizes = vec![w, w2];
                    }
                    2 => u.hash_type = Some(w),
                    3 => u.fanout = Some(w),
                    4 => u.mode = Some(w as u32),
                    5 => u.mtime = Some((w as i64, None)),
                    6 => u.mtime = Some(((w as i64).wrapping_neg(), Some(w as u32))),
                    7 => u.mtime = Some((w as i64, Some((w >> 3) as u32))),
                    _ => u.blocksizes = vec![w; 150],
                }
                check_unixfs(cx, &u, cx.log.is_some())?;
                let links = link_forms();
                let k = cx.choose(3);
                check_flat(cx, &links[..k * 2], &u, full)
            },
        ));
    }
    {
        let n = tier.of(4, 6);
        let forms = link_forms();
        let lens = [0usize, 1, 60, 61, 62, 63, 120, 121, 122, 123, 124, 125, 126, 127, 128, 16370, 16375, 16376, 16377, 16378, 16379, 16380, 16381, 16384];
        v.push(scenario(
            "combined",
            format!("the combined form of every list of 0..={n} links of {} forms and messages with data of {} lengths around the encoding boundaries", forms.len(), lens.len()),
            move |cx| {
                let owned = cx.flag();
                let len = *cx.pick(&lens);
                let k = cx.choose(n + 1);
                let links: Vec<L> = (0..k).map(|_| cx.pick(&forms).clone()).collect();
                let u = U { ty: [FILE, SYM][cx.choose(2)], data: Some(some_bytes(len)), filesize: if cx.flag() { Some(len as u64) } else { None }, ..U::default() };
                check_flat(cx, &links, &u, owned)
            },
        ));
    }
    {
        let names: Vec<Vec<u8>> = CONFUSABLE
            .iter()
            .map(|n| n.as_bytes().to_vec())
            .chain(LENGTHS.iter().flat_map(|n| (0..NEARS).map(|k| near(*n, k).1.into_bytes())))
            .collect();
        let odd = odd_contents();
        v.push(scenario(
            "odd contents",
            format!("links with each of {} names (taken for each other, or of {} lengths: {NEAR_TEXT}); links with hashes, nodes, messages and combined forms with data of each of {} contents: {ODD_CONTENTS}", names.len(), LENGTHS.len(), odd.len()),
            move |cx| {
                let owned = cx.flag();
                if cx.flag() {
                    let l = L { hash: Some(fake_cid(0, 1)), name: Some(cx.pick(&names).clone()), tsize: Some(5) };
                    check_link(cx, &l, owned)?;
                    return check_flat(cx, &[l.clone(), l], &U::ty(DIR), owned);
                }
                let d = cx.pick(&odd).clone();
                check_link(cx, &L { hash: Some(d.clone()), name: Some(b"n".to_vec()), tsize: None }, owned)?;
                check_node(cx, &[L::new(&fake_cid(0, 1), "n", 1)], &Some(d.clone()), owned)?;
                let u = U { ty: [RAW, FILE, SYM][cx.choose(3)], data: Some(d), ..U::default() };
                check_unixfs(cx, &u, owned)?;
                check_flat(cx, &[], &u, owned)
            },
        ));
    }
    v
}

// --- C22 ---------------------------------------------------------------------------------------

/// Field with explicit widths of tag, length and integer.
fn vfp(field: u32, v: u64, tw: usize, vw: usize) -> Vec<u8> {
    let mut o = vec![];
    varint_padded(&mut o, (field << 3) as u64, tw);
    varint_padded(&mut o, v, vw);
    o
}

fn lfp(field: u32, b: &[u8], tw: usize, lw: usize) -> Vec<u8> {
    let mut o = vec![];
    varint_padded(&mut o, (field << 3 | 2) as u64, tw);
    varint_padded(&mut o, b.len() as u64, lw);
    o.extend_from_slice(b);
    o
}

/// Unknown fields: numbers of one, two and five byte tags, in each wire type in use.
fn unknowns(first: u32) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for f in [first, 15, 16, 1000, (1 << 29) - 1] {
        v.push(vfp(f, 0, 0, 0));
        v.push(vfp(f, u64::MAX, 0, 0));
        v.push(lfp(f, b"", 0, 0));
        v.push(lfp(f, &[8, 2, 0x12, 0xff], 0, 0));
        let mut x = vec![];
        varint(&mut x, (f << 3 | 1) as u64);
        x.extend([0xffu8; 8]);
        v.push(x);
        let mut x = vec![];
        varint(&mut x, (f << 3 | 5) as u64);
        x.extend([0x12, 0x08, 0x0a, 0x80]);
        v.push(x);
    }
    v
}

fn few_unknowns(first: u32) -> Vec<Vec<u8>> {
    let a = unknowns(first);
    vec![a[1].clone(), a[3].clone(), a[4].clone(), a[5].clone(), a[15].clone()]
}

fn link_tokens() -> Vec<Vec<u8>> {
    let mut v = vec![
        lfp(1, &[1, 2], 0, 0),
        lfp(1, b"", 2, 3),
        lfp(2, b"a", 0, 5),
        lfp(2, "é".as_bytes(), 0, 0),
        lfp(2, &[0xc3], 0, 0),
        vfp(3, 5, 0, 0),
        vfp(3, 1 << 63, 3, 10),
        // known numbers in another wire type are unknown fields
        vfp(1, 3, 0, 0),
        lfp(3, b"\x01", 0, 0),
    ];
    v.extend(few_unknowns(4));
    v
}

fn node_tokens() -> Vec<Vec<u8>> {
    let l0 = L { hash: Some(vec![9]), name: Some(b"n".to_vec()), tsize: Some(3) }.enc();
    let mut l1 = vec![];
    l1.extend(vfp(3, 4, 2, 4));
    l1.extend(lfp(7, b"??", 0, 0));
    l1.extend(lfp(2, b"m", 0, 0));
    let mut v = vec![
        lfp(2, &l0, 0, 0),
        lfp(2, &l1, 2, 2),
        lfp(2, b"", 0, 0),
        lfp(1, &U { ty: FILE, data: Some(b"ab".to_vec()), filesize: Some(2), ..U::default() }.enc(), 0, 0),
        lfp(1, b"", 0, 10),
        lfp(1, &[8, 1], 3, 4),
        lfp(1, &[0x12, 9], 0, 0),
        lfp(2, &[0x12, 1, 0xff], 0, 0),
        vfp(1, 3, 0, 0),
        vfp(2, 3, 0, 0),
    ];
    v.extend(few_unknowns(3));
    v
}

fn msg_tokens() -> Vec<Vec<u8>> {
    let mut t = mtime_bytes(-3, Some(9));
    t.extend(vfp(3, 1, 0, 0));
    let mut t2 = vec![];
    f32f(&mut t2, 2, 1);
    t2.extend(lfp(9, b"\x08\x01", 0, 0));
    t2.extend(vfp(1, 77, 2, 9));
    let mut v = vec![
        vfp(1, FILE, 0, 0),
        vfp(1, HAMT, 2, 10),
        vfp(1, 6, 0, 0),
        vfp(1, (-1i64) as u64, 0, 0),
        lfp(2, b"zz", 0, 2),
        lfp(2, b"", 0, 0),
        vfp(3, 0, 0, 0),
        vfp(3, 700, 0, 9),
        vfp(4, 1, 0, 0),
        vfp(4, u64::MAX, 2, 10),
        vfp(5, 0x22, 0, 3),
        vfp(6, 256, 0, 5),
        vfp(7, 0o755, 0, 0),
        vfp(7, u32::MAX as u64, 0, 7),
        lfp(8, &t, 0, 0),
        lfp(8, &t2, 0, 0),
        lfp(8, b"", 0, 0),
        vfp(2, 1, 0, 0),
        lfp(3, b"\x01", 0, 0),
    ];
    v.extend(few_unknowns(9));
    v
}

fn sequences(name: &'static str, what: &'static str, tokens: Vec<Vec<u8>>, n: usize, cuts: bool, which: u8) -> Scenario {
    scenario(
        name,
        format!("every sequence of 0..={n} of {} field occurrences of a {what} (repeated fields, other values, padded integers, unknown fields of every wire type, other wire types, invalid values){}", tokens.len(), if cuts { ", whole and cut at every byte" } else { "" }),
        move |cx| {
            let k = cx.choose(n + 1);
            let mut b = vec![];
            for _ in 0..k {
                b.extend_from_slice(&tokens[cx.choose(tokens.len())]);
            }
            compare(cx, &b, which)?;
            if which == 4 {
                // and inside of a node
                let mut o = vec![];
                lf(&mut o, 1, &b);
                compare(cx, &o, 2)?;
            } else if which == 1 {
                let mut o = vec![];
                lf(&mut o, 2, &b);
                compare(cx, &o, 2)?;
                o.extend(lfp(1, &[8, 2], 0, 0));
                compare(cx, &o, 2)?;
            }
            if cuts {
                for c in 0..b.len() {
                    compare(cx, &b[..c], which)?;
                }
            }
            Ok(())
        },
    )
}

/// Bytes with a meaning somewhere in the encodings.
const TOKENS: [u8; 14] = [0x00, 0x01, 0x02, 0x05, 0x08, 0x0a, 0x0d, 0x12, 0x15, 0x18, 0x20, 0x42, 0x80, 0xff];

pub fn corpus() -> Vec<Vec<u8>> {
    let l = |v: usize, id: u32, name: &str, t: u64| L::new(&fake_cid(v, id), name, t);
    let time = Some((1_600_000_000, Some(999)));
    vec![
        block(&[], &U { ty: FILE, data: Some(b"content".to_vec()), filesize: Some(7), ..U::default() }),
        block(&[], &U { ty: RAW, data: Some(b"x".to_vec()), filesize: Some(1), mode: Some(0o644), mtime: time, ..U::default() }),
        block(&[l(4, 1, "", 20), l(4, 2, "", 300)], &U { ty: FILE, filesize: Some(259), blocksizes: vec![3, 256], ..U::default() }),
        block(&[l(4, 1, "a", 20), l(1, 2, "bc", 1 << 40)], &U { ty: DIR, mode: Some(0o755), ..U::default() }),
        block(&[l(4, 1, "00a", 20), l(4, 2, "FF", 9)], &U { data: Some(vec![0x80, 1]), mtime: Some((-5, None)), ..U::shard() }),
        block(&[], &U { ty: SYM, data: Some("tärget".into()), ..U::default() }),
        block(&[], &U::ty(META)),
        node(&[l(4, 1, "x", 1)], None),
        node(&[], Some(&[])),
    ]
}

pub fn c22(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![
        sequences("links", "link", link_tokens(), tier.of(5, 6), true, 1),
        sequences("nodes", "node", node_tokens(), tier.of(5, 6), true, 2),
        sequences("messages", "UnixFS message", msg_tokens(), tier.of(4, 5), true, 4),
        sequences("message order", "UnixFS message, three fields short of all", msg_tokens().into_iter().enumerate().filter(|(i, _)| [0, 4, 7, 8, 11, 14, 21].contains(i)).map(|x| x.1).collect(), tier.of(7, 8), false, 4),
    ];
    {
        // permutations of one occurrence of each field of each message
        v.push(scenario("permutations", "all permutations of one occurrence of each of the 9 fields of a message (two block sizes); of 3 link fields and an unknown one; of links and data of a node".to_string(), |cx| {
            let perm = |cx: &mut Cx, mut toks: Vec<Vec<u8>>| {
                let mut b = vec![];
                while !toks.is_empty() {
                    let i = cx.choose(toks.len());
                    b.extend(toks.remove(i));
                }
                b
            };
            match cx.choose(3) {
                0 => {
                    let b = perm(cx, vec![
                        vfp(1, DIR, 0, 0), lfp(2, b"d", 0, 0), vfp(3, 1, 0, 0), vfp(4, 2, 0, 0), vfp(4, 3, 0, 0), vfp(5, 4, 0, 0),
                        vfp(6, 5, 0, 0), vfp(7, 6, 0, 0), lfp(8, &mtime_bytes(7, Some(8)), 0, 0),
                    ]);
                    compare(cx, &b, 4)
                }
                1 => {
                    let b = perm(cx, vec![lfp(1, b"h", 0, 0), lfp(2, b"n", 0, 0), vfp(3, 1, 0, 0), lfp(4, b"u", 0, 0), vfp(17, 3, 0, 0)]);
                    compare(cx, &b, 1)?;
                    compare(cx, &lfp(2, &b, 0, 0), 2)
                }
                _ => {
                    let mut toks: Vec<Vec<u8>> = (0..4u8).map(|i| lfp(2, &lfp(2, &[b'a' + i], 0, 0), 0, 0)).collect();
                    toks.push(lfp(1, &[8, 2], 0, 0));
                    toks.push(lfp(1, &[8, 1], 0, 0));
                    toks.push(vfp(3, 1, 0, 0));
                    let b = perm(cx, toks);
                    compare(cx, &b, 2)
                }
            }
        }));
    }
    {
        let all = |first: u32| unknowns(first);
        let (l, n, m, t) = (all(4), all(3), all(9), all(3));
        v.push(scenario(
            "unknown fields",
            format!("each of {} unknown fields (5 field numbers, 4 wire types) before, between and after the fields of each message and of the nested time, whole and cut at every byte", m.len()),
            move |cx| {
                let (which, base, toks): (u8, Vec<Vec<u8>>, &Vec<Vec<u8>>) = match cx.choose(4) {
                    0 => (1, vec![lfp(1, b"h", 0, 0), lfp(2, b"n", 0, 0), vfp(3, 500, 0, 0)], &l),
                    1 => (2, vec![lfp(2, &lfp(2, b"n", 0, 0), 0, 0), lfp(1, &[8, 2], 0, 0)], &n),
                    2 => (4, vec![vfp(1, 2, 0, 0), lfp(2, b"d", 0, 0), vfp(4, 3, 0, 0), lfp(8, &mtime_bytes(7, Some(8)), 0, 0)], &m),
                    _ => (8, vec![vfp(1, 9, 0, 0), { let mut o = vec![]; f32f(&mut o, 2, 7); o }], &t),
                };
                let at = cx.choose(base.len() + 1);
                let u = cx.pick(toks).clone();
                let mut b = vec![];
                for (i, f) in base.iter().enumerate() {
                    if i == at {
                        b.extend_from_slice(&u);
                    }
                    b.extend_from_slice(f);
                }
                if at == base.len() {
                    b.extend_from_slice(&u);
                }
                for c in 0..=b.len() {
                    if which == 8 {
                        compare(cx, &lfp(8, &b[..c], 0, 0), 4)?;
                    } else {
                        compare(cx, &b[..c], which)?;
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let nums: Vec<u64> = {
            let mut n: Vec<u64> = (0..64).flat_map(|k| [(1u64 << k).wrapping_sub(1), 1 << k, (1 << k) + 1]).collect();
            n.extend([u64::MAX, u64::MAX - 1, 256 + (1 << 32), 34 + (1 << 40), 5 + (1 << 32)]);
            n.sort_unstable();
            n.dedup();
            n
        };
        v.push(scenario(
            "numbers",
            format!("every varint field of link, message and time with each of {} values around the powers of two, encoded in every width up to 10 bytes, alone, after or before another occurrence of it or an unknown field", nums.len()),
            move |cx| {
                let fields: [(u8, u32); 10] = [(1, 3), (4, 1), (4, 3), (4, 4), (4, 5), (4, 6), (4, 7), (8, 1), (1, 9), (4, 2000)];
                let (which, field) = *cx.pick(&fields);
                let n = *cx.pick(&nums);
                let width = cx.choose(11);
                let mut one = vec![];
                varint(&mut one, (field << 3) as u64);
                varint_padded(&mut one, n, width);
                let b = match cx.choose(4) {
                    0 => one,
                    1 => [vfp(field, 77, 0, 0), one].concat(),
                    2 => [one, vfp(field, 3, 0, 0)].concat(),
                    _ => [one, lfp(99, b"unknown", 0, 0)].concat(),
                };
                if which == 8 {
                    compare(cx, &lfp(8, &b, 0, 0), 4)
                } else {
                    compare(cx, &b, which)
                }
            },
        ));
        v.push(scenario(
            "nanoseconds",
            "every byte of the fraction of a time with each value, the others being 0, 1, 0x7f, 0x80 or 0xff".to_string(),
            move |cx| {
                let rest = *cx.pick(&[0u8, 1, 0x7f, 0x80, 0xff]);
                let mut f = [rest; 4];
                let at = cx.choose(4);
                f[at] = cx.choose(256) as u8;
                let mut b = vec![];
                if cx.flag() {
                    b.extend(vfp(1, 5, 0, 0));
                }
                f32f(&mut b, 2, u32::from_le_bytes(f));
                compare(cx, &lfp(8, &b, 0, 0), 4)
            },
        ));
        let lens: Vec<usize> = (0..300).chain([16382, 16383, 16384, 16385, 70000, (1 << 21) - 1, 1 << 21]).collect();
        v.push(scenario(
            "field lengths",
            format!("every length delimited field of link, node and message with content of each of {} lengths (0..300 and around the widths of the length), whole and a byte short", lens.len()),
            move |cx| {
                let fields: [(u8, u32); 7] = [(1, 1), (1, 2), (1, 4), (2, 1), (2, 3), (4, 2), (4, 9)];
                let (which, field) = *cx.pick(&fields);
                let n = *cx.pick(&lens);
                let content: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
                let mut b = lfp(field, &content, 0, 0);
                if cx.flag() {
                    b.pop();
                }
                compare(cx, &b, which)
            },
        ));
        let odd: Vec<Vec<u8>> = odd_contents()
            .into_iter()
            .chain(CONFUSABLE.iter().map(|n| n.as_bytes().to_vec()))
            .chain(LENGTHS.iter().flat_map(|n| (0..NEARS).map(|k| near(*n, k).1.into_bytes())))
            .collect();
        v.push(scenario(
            "odd contents",
            format!("every length delimited field of link, node and message with each of {} contents: {ODD_CONTENTS}; names taken for each other, and names of {} lengths: {NEAR_TEXT}; alone, or after or before another occurrence or another field", odd.len(), LENGTHS.len()),
            move |cx| {
                let fields: [(u8, u32); 7] = [(1, 1), (1, 2), (1, 4), (2, 1), (2, 3), (4, 2), (4, 9)];
                let (which, field) = *cx.pick(&fields);
                let content = lfp(field, cx.pick(&odd), 0, 0);
                let other = lfp(field, b"other", 0, 0);
                let b = match cx.choose(5) {
                    0 => content,
                    1 => [content, other].concat(),
                    2 => [other, content].concat(),
                    3 => [vfp(3, 2, 0, 0), content].concat(),
                    _ => [content, vfp(3, 2, 0, 0)].concat(),
                };
                compare(cx, &b, which)?;
                match which {
                    1 => compare(cx, &lfp(2, &b, 0, 0), 2),
                    4 => compare(cx, &lfp(1, &b, 0, 0), 2),
                    _ => Ok(()),
                }
            },
        ));
        v.push(scenario(
            "names",
            "every link name of up to 2 bytes, and every one of 3 and 4 bytes out of the 12 bytes at the borders of UTF-8 sequences".to_string(),
            move |cx| {
                const EDGES: [u8; 12] = [0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xe0, 0xed, 0xf0, 0xf4];
                let n = cx.choose(5);
                let name: Vec<u8> = (0..n).map(|_| if n <= 2 { cx.choose(256) as u8 } else { *cx.pick(&EDGES) }).collect();
                let link = lfp(2, &name, 0, 0);
                compare(cx, &link, 1)?;
                compare(cx, &lfp(2, &link, 0, 0), 2)
            },
        ));
    }
    {
        // lengths which do not match what follows
        let deltas: Vec<u64> = {
            let mut d = vec![0u64, 1, 2, 127, 128, 1 << 14, (1 << 21) - 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 35, 1 << 42, 1 << 49, 1 << 56, 1 << 63];
            d.extend((0..8).map(|i| u64::MAX - i));
            d.extend((0..8).map(|i| (u32::MAX - i) as u64));
            d
        };
        v.push(scenario(
            "lengths",
            format!("every length delimited field (known and unknown, in link, node, message and time) with {} wrong lengths (plus zero to three bytes past its end, modulo 2^32 and 2^64), lengths padded or not, followed by 0, 1 or many bytes", deltas.len()),
            move |cx| {
                let fields: [(u8, u32); 10] = [(1, 1), (1, 2), (1, 4), (1, 1000), (2, 1), (2, 2), (2, 3), (4, 2), (4, 8), (4, 9)];
                let (which, field) = *cx.pick(&fields);
                let content: Vec<u8> = [vec![], vec![8, 2], vec![0x0a, 0]][cx.choose(3)].clone();
                let delta = *cx.pick(&deltas);
                let len = (content.len() as u64).wrapping_add(delta);
                let pad = cx.choose(3) * 5;
                let after: &[u8] = [&b""[..], &[0x18], &[0x18, 1, 0x18, 2]][cx.choose(3)];
                let mut b = vec![];
                if cx.flag() {
                    b.extend(vfp(3, 2, 0, 0));
                }
                varint(&mut b, (field << 3 | 2) as u64);
                varint_padded(&mut b, len, pad);
                b.extend_from_slice(&content);
                b.extend_from_slice(after);
                compare(cx, &b, which)?;
                match which {
                    1 => compare(cx, &lfp(2, &b, 0, 0), 2),
                    4 => {
                        compare(cx, &lfp(1, &b, 0, 0), 2)?;
                        // the nested time
                        compare(cx, &lfp(8, &b, 0, 0), 4)
                    }
                    _ => Ok(()),
                }
            },
        ));
    }
    {
        let n = tier.of(2usize, 3);
        v.push(scenario("short", format!("all byte strings of 0..={n} bytes as link, node, message and combined form"), move |cx| {
            let k = cx.choose(n + 1);
            let b: Vec<u8> = (0..k).map(|_| cx.choose(256) as u8).collect();
            compare(cx, &b, 7)
        }));
        let n = tier.of(6usize, 7);
        v.push(scenario("tokens", format!("all strings of 0..={n} of the {} bytes with a meaning in the encodings, as link, node, message and combined form", TOKENS.len()), move |cx| {
            let k = cx.choose(n + 1);
            let b: Vec<u8> = (0..k).map(|_| TOKENS[cx.choose(TOKENS.len())]).collect();
            compare(cx, &b, 7)
        }));
        let base = corpus();
        let two = tier.of(false, true);
        v.push(scenario(
            "mutations",
            format!("{} canonical blocks with each byte replaced by each value, each byte left out, each of {} bytes inserted anywhere, cut at every byte{}", base.len(), TOKENS.len(), if two { ", and each two bytes replaced by each two of those bytes" } else { "" }),
            move |cx| {
                let mut b = cx.pick(&base).clone();
                match cx.choose(if two { 5 } else { 4 }) {
                    0 => {
                        let i = cx.choose(b.len());
                        b[i] = cx.choose(256) as u8;
                    }
                    1 => {
                        let i = cx.choose(b.len());
                        b.remove(i);
                    }
                    2 => {
                        let i = cx.choose(b.len() + 1);
                        b.insert(i, *cx.pick(&TOKENS));
                    }
                    3 => {
                        let i = cx.choose(b.len() + 1);
                        b.truncate(i);
                    }
                    _ => {
                        let i = cx.choose(b.len());
                        let j = cx.choose(b.len());
                        b[i] = *cx.pick(&TOKENS);
                        b[j] = *cx.pick(&TOKENS);
                    }
                }
                compare(cx, &b, 7)
            },
        ));
    }
    v
}

// --- C23 ---------------------------------------------------------------------------------------

/// A block which lives inside of the value, so that its bytes move with it.
#[derive(Clone, PartialEq, Debug)]
struct Inline {
    buf: [u8; 256],
    len: usize,
}

impl AsRef<[u8]> for Inline {
    fn as_ref(&self) -> &[u8] {
        &self.buf[..self.len]
    }
}

fn within(full: &[u8], part: &[u8]) -> Option<usize> {
    let (f, p) = (full.as_ptr() as usize, part.as_ptr() as usize);
    (p >= f && p + part.len() <= f + full.len()).then(|| p - f)
}

fn wrapped<T: AsRef<[u8]> + Clone + PartialEq + std::fmt::Debug>(cx: &mut Cx, what: &str, b: &[u8], t: T, want: &P<Node>) -> R {
    let orig = t.clone();
    let got = wrap_node_data(t);
    cx.step(&(what, got.as_ref().ok().map(|g| g.node_data().to_vec())));
    let n = match (&got, want) {
        (_, P::Any) => return Ok(()),
        (Ok(_), P::Ok(n)) => n,
        (Err(_), P::Err) => return Ok(()),
        _ => return fail("wrap: accepts other blocks", format!("wrap_node_data({what} {}) gives {got:?}", hex(b))),
    };
    let data: &[u8] = n.data.as_ref().map(|d| &d.1[..]).unwrap_or_default();
    let w = got.unwrap();
    // moved around before it is used
    let w = Some(Box::new(w)).map(|w| *w).unwrap();
    ensure!(w.node_data() == data, "wrap: other data", "wrap_node_data({what} {}).node_data() is {} instead of {}", hex(b), hex(w.node_data()), hex(data));
    if let Some((at, d)) = n.data.as_ref().filter(|d| !d.1.is_empty()) {
        let found = within(w.get_ref().as_ref(), w.node_data());
        ensure!(found == Some(*at), "wrap: not a slice of the block", "wrap_node_data({what} {}).node_data() is at {found:?}, {} is at {at}", hex(b), hex(d));
    }
    ensure!(*w.get_ref() == orig && w.get_ref().as_ref() == b, "wrap: other block", "wrap_node_data({what} {}).get_ref() is {:?}", hex(b), w.get_ref());
    // compares equal to exactly the data
    ensure!(w == data && w == data.to_vec(), "wrap: not equal to its data", "{what} {} != {}", hex(b), hex(data));
    let mut more = data.to_vec();
    more.push(0);
    ensure!(w != more, "wrap: equal to other data", "{what} {} == {}", hex(b), hex(&more));
    if !data.is_empty() {
        ensure!(w != data[1..].to_vec() && w != data[..data.len() - 1].to_vec(), "wrap: equal to other data", "{what} {} == part of {}", hex(b), hex(data));
        let mut other = data.to_vec();
        let last = other.len() - 1;
        other[last] ^= 1;
        ensure!(w != other, "wrap: equal to other data", "{what} {} == {}", hex(b), hex(&other));
        if b != data {
            ensure!(w != b.to_vec(), "wrap: equal to other data", "{what} {} == the whole block", hex(b));
        }
    }
    let again = wrap_node_data(orig.clone());
    ensure!(again.as_ref().is_ok_and(|a| *a == w), "wrap: not equal to itself", "{what} {}", hex(b));
    let _ = format!("{w:?}");
    let back = w.into_inner();
    ensure!(back == orig && back.as_ref() == b, "wrap: other block", "wrap_node_data({what} {}).into_inner() is {back:?}", hex(b));
    Ok(())
}

fn extract(cx: &mut Cx, b: &[u8]) -> R {
    cx.log(|| format!("extract {}", hex(b)));
    let want = parse_node(b);
    let got = node_data(b);
    cx.step(&got.as_ref().ok());
    match (&got, &want) {
        (_, P::Any) => {}
        (Ok(g), P::Ok(n)) => {
            let w = n.data.as_ref().map(|d| &d.1[..]);
            ensure!(*g == w, "extract: other data", "node_data({}) is {g:?} instead of {w:?}", hex(b));
            if let (Some(g), Some((at, _))) = (g, &n.data) {
                let found = within(b, g);
                ensure!(found == Some(*at), "extract: not a slice of the block", "node_data({}) is at {found:?} instead of {at}", hex(b));
            }
        }
        (Err(_), P::Err) => {}
        _ => return fail("extract: accepts other blocks", format!("node_data({}) gives {got:?} instead of {want:?}", hex(b))),
    }
    wrapped(cx, "&[u8]", b, b, &want)?;
    wrapped(cx, "Vec", b, b.to_vec(), &want)?;
    wrapped(cx, "Box", b, b.to_vec().into_boxed_slice(), &want)?;
    wrapped(cx, "Rc", b, Rc::<[u8]>::from(b), &want)?;
    wrapped(cx, "Arc<Vec>", b, Arc::<[u8]>::from(b), &want)?;
    wrapped(cx, "Cow owned", b, Cow::<[u8]>::Owned(b.to_vec()), &want)?;
    wrapped(cx, "Cow borrowed", b, Cow::Borrowed(b), &want)?;
    if let Ok(s) = std::str::from_utf8(b) {
        wrapped(cx, "String", b, s.to_string(), &want)?;
        wrapped(cx, "&str", b, s, &want)?;
    }
    if b.len() <= 256 {
        let mut i = Inline { buf: [0xee; 256], len: b.len() };
        i.buf[..b.len()].copy_from_slice(b);
        wrapped(cx, "inline", b, i, &want)?;
    }
    macro_rules! arrays {
        ($($n:literal)*) => { $( if let Ok(a) = <[u8; $n]>::try_from(b) { wrapped(cx, "array", b, a, &want)?; } )* };
    }
    arrays!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 20 24 28 32);
    // in the middle of a larger buffer
    let mut big = vec![0x0a; 7];
    big.extend_from_slice(b);
    big.extend([0x0a, 1, 2]);
    wrapped(cx, "slice of a buffer", b, &big[7..7 + b.len()], &want)
}

pub fn c23(tier: Tier) -> Vec<Scenario> {
    let mut v = vec![];
    {
        let n = tier.of(5, 6);
        let toks = node_tokens();
        v.push(scenario(
            "fields",
            format!("every sequence of 0..={n} of {} field occurrences of a node (links, data of several lengths, empty data, unknown and padded fields), as slice and wrapped in 11 container types", toks.len()),
            move |cx| {
                let k = cx.choose(n + 1);
                let mut b = vec![];
                for _ in 0..k {
                    b.extend_from_slice(&toks[cx.choose(toks.len())]);
                }
                extract(cx, &b)
            },
        ));
    }
    {
        let lens: Vec<usize> = tier.of((0..=300).collect(), (0..=2000).collect::<Vec<_>>());
        v.push(scenario(
            "lengths",
            format!("data of every length 0..={} (and 4 at encoding boundaries) after 0..=3 links or before them, and followed by another field", lens.len() - 1),
            move |cx| {
                let i = cx.choose(lens.len() + 4);
                let len = lens.get(i).copied().unwrap_or_else(|| [16383, 16384, 65536, 2097152][i - lens.len()]);
                let links = cx.choose(4);
                let place = cx.choose(3);
                let l: Vec<L> = (0..links as u32).map(|i| L::new(&fake_cid(0, i), "n", 5)).collect();
                let d = some_bytes(len);
                let mut b = vec![];
                match place {
                    0 => b = node(&l, Some(&d)),
                    1 => {
                        lf(&mut b, 1, &d);
                        b.extend(node(&l, None));
                    }
                    _ => {
                        b = node(&l, Some(&d));
                        b.extend(vfp(3, 1, 0, 0));
                    }
                }
                extract(cx, &b)
            },
        ));
    }
    {
        let n = tier.of(2usize, 3);
        v.push(scenario("short", format!("all byte strings of 0..={n} bytes"), move |cx| {
            let k = cx.choose(n + 1);
            let b: Vec<u8> = (0..k).map(|_| cx.choose(256) as u8).collect();
            extract(cx, &b)
        }));
        let n = tier.of(5usize, 6);
        v.push(scenario("tokens", format!("all strings of 0..={n} of the {} bytes with a meaning in the encodings", TOKENS.len()), move |cx| {
            let k = cx.choose(n + 1);
            let b: Vec<u8> = (0..k).map(|_| TOKENS[cx.choose(TOKENS.len())]).collect();
            extract(cx, &b)
        }));
        let base = corpus();
        v.push(scenario(
            "mutations",
            format!("{} canonical blocks with each byte replaced by each value, left out, or the block cut there", base.len()),
            move |cx| {
                let mut b = cx.pick(&base).clone();
                match cx.choose(3) {
                    0 => {
                        let i = cx.choose(b.len());
                        b[i] = cx.choose(256) as u8;
                    }
                    1 => {
                        let i = cx.choose(b.len());
                        b.remove(i);
                    }
                    _ => {
                        let i = cx.choose(b.len() + 1);
                        b.truncate(i);
                    }
                }
                extract(cx, &b)
            },
        ));
    }
    {
        let odd = odd_contents();
        v.push(scenario(
            "odd contents",
            format!("data of each of {} contents: {ODD_CONTENTS}; of 2^14 to 2^24 bytes, one more or less; alone, behind links, before one, or a message with this content; links with that much before the data", odd.len()),
            move |cx| {
                let i = cx.choose(odd.len() + 15);
                let d = odd.get(i).cloned().unwrap_or_else(|| {
                    let k = i - odd.len();
                    some_bytes([1 << 14, 1 << 16, 1 << 17, 1 << 21, 1 << 24][k / 3] + k % 3 - 1)
                });
                let l = [L::new(&fake_cid(0, 1), "n", 5)];
                let b = match cx.choose(5) {
                    0 => node(&[], Some(&d)),
                    1 => node(&l, Some(&d)),
                    2 => [node(&[], Some(&d)), node(&l, None)].concat(),
                    3 => node(&l, Some(&U { data: Some(d), ..U::ty(FILE) }.enc())),
                    _ => node(&[L { hash: Some(d), name: None, tsize: None }], Some(b"data")),
                };
                extract(cx, &b)
            },
        ));
    }
    v
}
