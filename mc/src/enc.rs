//! Independent encoder of dag-pb nodes, UnixFS messages and CIDs.
use sha2::{Digest, Sha256};

pub fn varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

/// Non-minimal varint of exactly `width` bytes, at least the minimal width.
pub fn varint_padded(out: &mut Vec<u8>, v: u64, width: usize) {
    let mut min = Vec::new();
    varint(&mut min, v);
    if min.len() >= width {
        out.extend(min);
        return;
    }
    let n = min.len();
    for b in &min[..n - 1] {
        out.push(*b);
    }
    out.push(min[n - 1] | 0x80);
    for _ in n..width - 1 {
        out.push(0x80);
    }
    out.push(0);
}

pub fn vf(out: &mut Vec<u8>, field: u32, v: u64) {
    varint(out, (field << 3) as u64);
    varint(out, v);
}

pub fn lf(out: &mut Vec<u8>, field: u32, bytes: &[u8]) {
    varint(out, (field << 3 | 2) as u64);
    varint(out, bytes.len() as u64);
    out.extend_from_slice(bytes);
}

pub fn f32f(out: &mut Vec<u8>, field: u32, v: u32) {
    varint(out, (field << 3 | 5) as u64);
    out.extend_from_slice(&v.to_le_bytes());
}

pub const RAW: u64 = 0;
pub const DIR: u64 = 1;
pub const FILE: u64 = 2;
pub const META: u64 = 3;
pub const SYM: u64 = 4;
pub const HAMT: u64 = 5;

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct L {
    pub hash: Option<Vec<u8>>,
    pub name: Option<Vec<u8>>,
    pub tsize: Option<u64>,
}

impl L {
    pub fn new(cid: &[u8], name: &str, tsize: u64) -> L {
        L { hash: Some(cid.to_vec()), name: Some(name.as_bytes().to_vec()), tsize: Some(tsize) }
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut o = Vec::new();
        if let Some(h) = &self.hash {
            lf(&mut o, 1, h);
        }
        if let Some(n) = &self.name {
            lf(&mut o, 2, n);
        }
        if let Some(t) = self.tsize {
            vf(&mut o, 3, t);
        }
        o
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct U {
    pub ty: u64,
    pub data: Option<Vec<u8>>,
    pub filesize: Option<u64>,
    pub blocksizes: Vec<u64>,
    pub hash_type: Option<u64>,
    pub fanout: Option<u64>,
    pub mode: Option<u32>,
    pub mtime: Option<(i64, Option<u32>)>,
}

pub fn mtime_bytes(s: i64, n: Option<u32>) -> Vec<u8> {
    let mut o = Vec::new();
    vf(&mut o, 1, s as u64);
    if let Some(n) = n {
        f32f(&mut o, 2, n);
    }
    o
}

impl U {
    pub fn ty(ty: u64) -> U {
        U { ty, ..U::default() }
    }
    pub fn shard() -> U {
        U { ty: HAMT, hash_type: Some(0x22), fanout: Some(256), ..U::default() }
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut o = Vec::new();
        vf(&mut o, 1, self.ty);
        if let Some(d) = &self.data {
            lf(&mut o, 2, d);
        }
        if let Some(v) = self.filesize {
            vf(&mut o, 3, v);
        }
        for b in &self.blocksizes {
            vf(&mut o, 4, *b);
        }
        if let Some(v) = self.hash_type {
            vf(&mut o, 5, v);
        }
        if let Some(v) = self.fanout {
            vf(&mut o, 6, v);
        }
        if let Some(v) = self.mode {
            vf(&mut o, 7, v as u64);
        }
        if let Some((s, n)) = self.mtime {
            lf(&mut o, 8, &mtime_bytes(s, n));
        }
        o
    }
    pub fn meta(&self) -> Meta {
        (self.mode, self.mtime.map(|(s, n)| (s, n.unwrap_or(0))))
    }
}

/// mode and modification time as reported
pub type Meta = (Option<u32>, Option<(i64, u32)>);

pub fn node(links: &[L], data: Option<&[u8]>) -> Vec<u8> {
    let mut o = Vec::new();
    for l in links {
        lf(&mut o, 2, &l.enc());
    }
    if let Some(d) = data {
        lf(&mut o, 1, d);
    }
    o
}

pub fn block(links: &[L], u: &U) -> Vec<u8> {
    node(links, Some(&u.enc()))
}

pub fn sha256(b: &[u8]) -> [u8; 32] {
    Sha256::digest(b).into()
}

/// The version 1 dag-pb SHA2-256 CID of a block.
pub fn cid1(b: &[u8]) -> Vec<u8> {
    let mut o = vec![1, 0x70, 0x12, 0x20];
    o.extend_from_slice(&sha256(b));
    o
}

/// Valid but made up CIDs; `variant` selects version, codec, hash function and digest length.
pub const CID_VARIANTS: usize = 7;
pub fn fake_cid(variant: usize, id: u32) -> Vec<u8> {
    let digest = |n: usize| {
        let mut d = vec![0u8; n];
        for (i, b) in d.iter_mut().enumerate() {
            *b = (i as u8).wrapping_mul(7).wrapping_add(3);
        }
        let k = n.min(4);
        d[..k].copy_from_slice(&id.to_le_bytes()[..k]);
        d
    };
    let mut o = vec![];
    match variant {
        // v1 dag-pb sha2-256
        0 => {
            o.extend([1, 0x70, 0x12, 0x20]);
            o.extend(digest(32));
        }
        // v0
        1 => {
            o.extend([0x12, 0x20]);
            o.extend(digest(32));
        }
        // v1 raw
        2 => {
            o.extend([1, 0x55, 0x12, 0x20]);
            o.extend(digest(32));
        }
        // v1 dag-cbor sha2-512
        3 => {
            o.extend([1, 0x71, 0x13, 0x40]);
            o.extend(digest(64));
        }
        // v1 raw identity, short
        4 => {
            o.extend([1, 0x55, 0x00, 0x05]);
            o.extend(digest(5));
        }
        // v1 with a multibyte codec (dag-json 0x0129) and a multibyte hash code (blake2b-256 0xb220)
        5 => {
            o.extend([1]);
            varint(&mut o, 0x129);
            varint(&mut o, 0xb220);
            o.push(32);
            o.extend(digest(32));
        }
        // v1 dag-pb identity
        6 => {
            o.extend([1, 0x70, 0x00, 0x09]);
            o.extend(digest(9));
        }
        _ => unreachable!(),
    }
    o
}

/// Names which are taken for each other by whoever folds case, normalises or trims.
pub const CONFUSABLE: [&str; 36] = [
    "a", "A", "\u{e9}", "\u{c9}", "e\u{301}", "E\u{301}", "\u{df}", "\u{1e9e}", "ss", "SS", "i", "I", "\u{131}", "\u{130}", "k", "K", "\u{212a}", "\u{ff41}", "\u{fb01}", "fi", "a\u{200b}", "\u{feff}a", "\u{e5}",
    "\u{c5}", "\u{212b}", "a\u{30a}", "\u{3c3}", "\u{3c2}", "\u{3a3}", "\u{a0}a", "a\u{a0}", "3", "\u{663}", "a\u{fe0f}", "a\u{7f}", "a\u{2028}",
];

/// Lengths of names: those around powers of two, and where formats' limits are.
pub const LENGTHS: [usize; 34] = [
    1, 2, 3, 4, 7, 8, 9, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 143, 144, 254, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 65536, 65537,
];
pub const NEARS: usize = 15;
pub const NEAR_TEXT: &str = "the same, one byte more or less, another byte at the start, middle or end, in the other case, twice, with a NUL, space, dot or slash appended or a slash in front, multibyte characters cut short by one";

/// A name of the length, and another which differs from it little.
pub fn near(len: usize, k: usize) -> (String, String) {
    let a: String = (0..len).map(|i| (b'a' + (i % 26) as u8) as char).collect();
    let set = |i: usize, c: u8| {
        let mut b = a.clone().into_bytes();
        b[i] = c;
        String::from_utf8(b).unwrap()
    };
    let b = match k {
        0 => a.clone(),
        1 => format!("{a}z"),
        2 if len > 1 => a[1..].to_string(),
        2 => format!("z{a}"),
        3 if len > 1 => a[..len - 1].to_string(),
        3 => "z".to_string(),
        4 => set(0, b'_'),
        5 => set(len / 2, b'_'),
        6 => set(len - 1, b'_'),
        7 => set(len - 1, a.as_bytes()[len - 1].to_ascii_uppercase()),
        8 => format!("{a}{a}"),
        9 => format!("{a}\0"),
        10 => format!("{a} "),
        11 => format!("{a}."),
        12 => format!("{a}/"),
        13 => format!("/{a}"),
        _ => {
            let m = "\u{e9}".repeat(len);
            return (format!("x{m}"), format!("x{}", &m[2..]) + "e");
        }
    };
    (a, b)
}

/// Contents which may be taken for something else: repeated and trimmed bytes, text, encodings.
pub const ODD_CONTENTS: &str = "every byte alone, repeated and beside another, text with marks and line ends, encoded blocks, messages, links and CIDs, whole, cut, twice and followed by more";

pub fn odd_contents() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for b in 0..=255u8 {
        v.push(vec![b]);
        v.push(vec![b; 3]);
        v.push(vec![b'a', b]);
        v.push(vec![b, b'a']);
    }
    v.extend([vec![0xff; 64], vec![0; 64], vec![b' '; 64]]);
    for t in ["\r\n", "a\r\nb\n", "\u{feff}text", "text\0", "\0text", "  text  ", "../..", "/", "<html>", "\u{1f600}"] {
        v.push(t.as_bytes().to_vec());
    }
    let file = |d: &[u8]| U { ty: FILE, data: Some(d.to_vec()), filesize: Some(d.len() as u64), ..U::default() };
    let two = U { ty: FILE, filesize: Some(2), blocksizes: vec![1, 1], ..U::default() };
    let kid = fake_cid(0, 1);
    let mut encoded = vec![
        block(&[], &file(b"abc")),
        block(&[], &file(b"")),
        block(&[L::new(&kid, "", 5), L::new(&kid, "", 5)], &two),
        block(&[L::new(&kid, "n", 5)], &U::ty(DIR)),
        block(&[L::new(&kid, "00n", 5)], &U::shard()),
        block(&[], &U { data: Some(b"to".to_vec()), ..U::ty(SYM) }),
        block(&[], &U::ty(META)),
        file(b"abc").enc(),
        two.enc(),
        U::ty(DIR).enc(),
        L::new(&kid, "n", 5).enc(),
    ];
    let mut only = vec![];
    lf(&mut only, 1, b"abc");
    encoded.push(only);
    encoded.extend((0..CID_VARIANTS).map(|i| fake_cid(i, 1)));
    for e in encoded {
        // whole, cut, and in between others
        v.push(e[..e.len() - 1].to_vec());
        v.push([&e[..], b"x"].concat());
        v.push([&e[..], &e[..]].concat());
        v.push(e);
    }
    v.sort();
    v.dedup();
    v
}
