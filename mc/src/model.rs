//! Reference model of the DNS wire format, written from the RFCs, independent of the crate.

use std::collections::{BTreeMap, BTreeSet};

pub type Name = Vec<Vec<u8>>;

/// A field value.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V {
    N(u64),
    B(Vec<u8>),
    Nm(Name),
    L(Vec<Vec<u8>>),
    LN(Vec<Name>),
    S(BTreeSet<u16>),
    M(BTreeMap<u16, Vec<u8>>),
}
impl V {
    pub fn n(&self) -> u64 {
        match self {
            V::N(n) => *n,
            _ => panic!("V::n"),
        }
    }
    pub fn b(&self) -> &Vec<u8> {
        match self {
            V::B(b) => b,
            _ => panic!("V::b"),
        }
    }
    pub fn nm(&self) -> &Name {
        match self {
            V::Nm(b) => b,
            _ => panic!("V::nm"),
        }
    }
    pub fn l(&self) -> &Vec<Vec<u8>> {
        match self {
            V::L(b) => b,
            _ => panic!("V::l"),
        }
    }
    pub fn s(&self) -> &BTreeSet<u16> {
        match self {
            V::S(b) => b,
            _ => panic!("V::s"),
        }
    }
    pub fn m(&self) -> &BTreeMap<u16, Vec<u8>> {
        match self {
            V::M(b) => b,
            _ => panic!("V::m"),
        }
    }
}

/// Field kinds of the record data layouts.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    /// unsigned big-endian integer of `width` octets
    N(u8),
    /// enumerated integer: width, registry
    E(u8, Reg),
    /// domain name; true when the crate declares compression allowed for it
    Name(bool),
    /// character string: length octet + octets
    Str,
    /// character string that must be UTF-8
    Utf8,
    /// NAPTR flags
    NFlags,
    /// CAA tag: non-empty, UTF-8
    Tag,
    /// all remaining octets
    Rest,
    Fix(usize),
    /// 16-bit length + octets
    L16,
    StrList,
    OptMap,
    /// whole record data of APL / IPSECKEY / HIP
    Apl,
    IpSec,
    Hip,
    Bitmap,
    Params,
    /// flag words of which only some bits are represented
    Mask(u8, u16),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Reg {
    RType,
    DnssecAlg,
    Digest,
    SshAlg,
    SshFp,
    Usage,
    Selector,
    Matching,
    DhcidType,
    One,
    CsyncFlags,
    TkeyMode,
    TkeyError,
    TsigError,
}
pub fn valid(r: Reg, v: u16) -> bool {
    match r {
        Reg::RType => is_rtype(v),
        Reg::DnssecAlg => matches!(v, 1 | 3 | 5 | 8 | 10 | 13 | 14 | 15 | 16 | 252 | 253 | 254),
        Reg::Digest => matches!(v, 1 | 2 | 4 | 5),
        Reg::SshAlg => v <= 5,
        Reg::SshFp => v <= 1,
        Reg::Usage => v <= 3,
        Reg::Selector => v <= 1,
        Reg::Matching => v <= 2,
        Reg::DhcidType => v <= 2,
        Reg::One => v == 1,
        Reg::CsyncFlags => v <= 3,
        Reg::TkeyMode => (1..=65534).contains(&v),
        Reg::TkeyError => v <= 21,
        Reg::TsigError => matches!(v, 0 | 16 | 17 | 18 | 22),
    }
}

pub const DNSSEC: bool = cfg!(feature = "dnssec");
pub const MDNS: bool = cfg!(feature = "mdns");

/// Record types supported in this configuration (IANA numbers).
pub fn rtypes() -> &'static [u16] {
    if DNSSEC {
        &[1, 2, 5, 6, 10, 11, 12, 13, 14, 15, 16, 28, 29, 33, 35, 41, 42, 43, 44, 45, 46, 47, 48, 49, 52, 55, 59, 60, 61, 62, 64, 108, 109, 249, 250, 256, 257]
    } else {
        &[1, 2, 5, 6, 10, 11, 12, 13, 14, 15, 16, 28, 29, 33, 35, 41, 42, 44, 45, 49, 52, 55, 61, 62, 64, 108, 109, 249, 250, 256, 257]
    }
}
pub fn is_rtype(v: u16) -> bool {
    rtypes().binary_search(&v).is_ok()
}
pub fn is_qtype(v: u16) -> bool {
    is_rtype(v) || (252..=255).contains(&v)
}
pub fn is_qclass(v: u16) -> bool {
    matches!(v, 1..=4 | 254 | 255)
}
pub fn tname(t: u16) -> &'static str {
    match t {
        1 => "A", 2 => "NS", 5 => "CNAME", 6 => "SOA", 10 => "NULL", 11 => "WKS", 12 => "PTR", 13 => "HINFO", 14 => "MINFO",
        15 => "MX", 16 => "TXT", 28 => "AAAA", 29 => "LOC", 33 => "SRV", 35 => "NAPTR", 41 => "OPT", 42 => "APL", 43 => "DS",
        44 => "SSHFP", 45 => "IPSECKEY", 46 => "RRSIG", 47 => "NSEC", 48 => "DNSKEY", 49 => "DHCID", 52 => "TLSA", 55 => "HIP",
        59 => "CDS", 60 => "CDNSKEY", 61 => "OPENPGPKEY", 62 => "CSYNC", 64 => "SVCB", 108 => "EUI48", 109 => "EUI64",
        249 => "TKEY", 250 => "TSIG", 256 => "URI", 257 => "CAA", 252 => "AXFR", 253 => "MAILB", 254 => "MAILA", 255 => "ANY",
        _ => "?",
    }
}

pub fn layout(t: u16) -> &'static [K] {
    use K::*;
    match t {
        1 => &[Fix(4)],
        2 | 5 | 12 => &[Name(true)],
        6 => &[Name(true), Name(true), N(4), N(4), N(4), N(4), N(4)],
        10 | 61 => &[Rest],
        11 => &[Fix(4), N(1), Rest],
        13 => &[Str, Str],
        14 => &[Name(true), Name(true)],
        15 => &[N(2), Name(true)],
        16 => &[StrList],
        28 => &[Fix(16)],
        29 => &[N(1), N(1), N(1), N(1), N(4), N(4), N(4)],
        33 => &[N(2), N(2), N(2), Name(true)],
        35 => &[N(2), N(2), NFlags, Str, Utf8, Name(true)],
        41 => &[OptMap],
        42 => &[Apl],
        43 | 59 => &[N(2), E(1, Reg::DnssecAlg), E(1, Reg::Digest), Rest],
        44 => &[E(1, Reg::SshAlg), E(1, Reg::SshFp), Rest],
        45 => &[IpSec],
        46 => &[E(2, Reg::RType), E(1, Reg::DnssecAlg), N(1), N(4), N(4), N(4), N(2), Name(false), Rest],
        47 => &[Name(true), Bitmap],
        48 | 60 => &[Mask(2, 0x0101), N(1), E(1, Reg::DnssecAlg), Rest],
        49 => &[E(2, Reg::DhcidType), E(1, Reg::One), Rest],
        52 => &[E(1, Reg::Usage), E(1, Reg::Selector), E(1, Reg::Matching), Rest],
        55 => &[Hip],
        62 => &[N(4), E(2, Reg::CsyncFlags), Bitmap],
        64 => &[N(2), Name(false), Params],
        108 => &[Fix(6)],
        109 => &[Fix(8)],
        249 => &[Name(false), N(4), N(4), E(2, Reg::TkeyMode), E(2, Reg::TkeyError), L16, L16],
        250 => &[Name(false), N(6), N(2), L16, N(2), E(2, Reg::TsigError), L16],
        256 => &[N(2), N(2), Rest],
        257 => &[Mask(1, 0x80), Tag, Rest],
        _ => &[],
    }
}

// ------------------------------------------------------------------ decoding
/// How far an implementation may deviate from the decoded value.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Gray {
    /// well formed: must be accepted with exactly this value
    No,
    /// tolerated irregularity: may be rejected; if accepted, exactly this value
    Value,
    /// outside of what the format defines: accepted or rejected, any value
    Any,
}
pub struct Rd<'a> {
    pub d: &'a [u8],
    pub pos: usize,
    pub end: usize,
    pub gray: Gray,
    /// behaviours that deviate from the model in a way that is recorded as a finding
    pub findings: Vec<&'static str>,
    /// a TXT string grew beyond 255 octets when its octets were replaced
    pub txt_grew: bool,
    /// offsets of the compression pointers of names read at the top level, with their targets
    pub ptrs: Vec<(usize, usize)>,
}
pub struct Reject;
type D<T> = Result<T, Reject>;

/// Decodes a name at `pos` of `d`. Result: labels, position behind the name, gray, first pointer.
pub fn name_at(d: &[u8], pos: usize) -> D<(Name, usize, Gray, Option<(usize, usize)>)> {
    let mut cur = pos;
    let mut seg = pos;
    let mut next = None;
    let mut first = None;
    let mut total = 0usize;
    let mut gray = Gray::No;
    let mut labels = Vec::new();
    let mut seen = BTreeSet::new();
    loop {
        let b = *d.get(cur).ok_or(Reject)? as usize;
        match b & 0xC0 {
            0xC0 => {
                let lo = *d.get(cur + 1).ok_or(Reject)? as usize;
                let target = (b & 0x3F) << 8 | lo;
                if target >= cur || !seen.insert(cur) {
                    return Err(Reject);
                }
                if target >= seg {
                    gray = Gray::Value;
                }
                if next.is_none() {
                    next = Some(cur + 2);
                    first = Some((cur, target));
                }
                cur = target;
                seg = target;
            }
            0 if b == 0 => {
                if total + 1 > 255 {
                    return Err(Reject);
                }
                return Ok((labels, next.unwrap_or(cur + 1), gray, first));
            }
            0 => {
                let l = d.get(cur + 1..cur + 1 + b).ok_or(Reject)?;
                labels.push(l.to_vec());
                total += 1 + b;
                if total + 1 > 255 {
                    return Err(Reject);
                }
                cur += 1 + b;
            }
            _ => return Err(Reject),
        }
    }
}

impl<'a> Rd<'a> {
    pub fn new(d: &'a [u8]) -> Self {
        Rd { d, pos: 0, end: d.len(), gray: Gray::No, findings: vec![], txt_grew: false, ptrs: vec![] }
    }
    pub fn left(&self) -> usize {
        self.end - self.pos
    }
    fn gray(&mut self, g: Gray) {
        if g > self.gray {
            self.gray = g;
        }
    }
    pub fn take(&mut self, n: usize) -> D<&'a [u8]> {
        if n > self.left() {
            return Err(Reject);
        }
        let s = &self.d[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    pub fn num(&mut self, w: usize) -> D<u64> {
        Ok(self.take(w)?.iter().fold(0u64, |a, b| a << 8 | *b as u64))
    }
    pub fn name(&mut self) -> D<Name> {
        let (n, next, g, p) = name_at(&self.d[..self.end], self.pos)?;
        self.gray(g);
        self.pos = next;
        self.ptrs.extend(p);
        Ok(n)
    }
    fn str(&mut self) -> D<Vec<u8>> {
        let l = self.num(1)? as usize;
        Ok(self.take(l)?.to_vec())
    }
    pub fn rdata(&mut self, t: u16) -> D<Vec<V>> {
        let mut out = vec![];
        for k in layout(t) {
            match *k {
                K::N(w) => out.push(V::N(self.num(w as usize)?)),
                K::E(w, r) => {
                    let v = self.num(w as usize)?;
                    if !valid(r, v as u16) {
                        return Err(Reject);
                    }
                    out.push(V::N(v));
                }
                K::Mask(w, m) => out.push(V::N(self.num(w as usize)? & m as u64)),
                K::Name(_) => out.push(V::Nm(self.name()?)),
                K::Str => out.push(V::B(self.str()?)),
                K::Utf8 => {
                    let s = self.str()?;
                    if std::str::from_utf8(&s).is_err() {
                        return Err(Reject);
                    }
                    out.push(V::B(s));
                }
                K::NFlags => {
                    let s = self.str()?;
                    let up: Vec<u8> = s.iter().map(|c| c.to_ascii_uppercase()).filter(|c| b"SAUP".contains(c)).collect();
                    if up.len() != s.len() {
                        self.findings.push("naptr-flag-dropped");
                    }
                    out.push(V::B(up));
                }
                K::Tag => {
                    let s = self.str()?;
                    if s.is_empty() || std::str::from_utf8(&s).is_err() {
                        return Err(Reject);
                    }
                    out.push(V::B(s));
                }
                K::Rest => {
                    let n = self.left();
                    out.push(V::B(self.take(n)?.to_vec()))
                }
                K::Fix(n) => out.push(V::B(self.take(n)?.to_vec())),
                K::L16 => {
                    let n = self.num(2)? as usize;
                    out.push(V::B(self.take(n)?.to_vec()));
                }
                K::StrList => {
                    let mut l = vec![];
                    while self.left() > 0 {
                        let s = self.str()?;
                        if std::str::from_utf8(&s).is_err() {
                            self.findings.push("txt-lossy");
                            let t = String::from_utf8_lossy(&s).into_owned().into_bytes();
                            self.txt_grew |= t.len() > 255;
                            l.push(t);
                        } else {
                            l.push(s);
                        }
                    }
                    out.push(V::L(l));
                }
                K::OptMap => {
                    let mut m = BTreeMap::new();
                    while self.left() > 0 {
                        let c = self.num(2)? as u16;
                        let n = self.num(2)? as usize;
                        if m.insert(c, self.take(n)?.to_vec()).is_some() {
                            self.findings.push("opt-duplicate");
                        }
                    }
                    out.push(V::M(m));
                }
                K::Apl => {
                    let fam = self.num(2)?;
                    let prefix = self.num(1)?;
                    let c = self.num(1)?;
                    let mut a = self.take((c & 0x7F) as usize)?.to_vec();
                    let alen = match fam {
                        1 => 4,
                        2 => 16,
                        _ => return Err(Reject),
                    };
                    if a.len() > alen {
                        self.gray(Gray::Any);
                    }
                    a.resize(alen, 0);
                    if self.left() >= 4 {
                        self.findings.push("apl-multi");
                        self.pos = self.end;
                    }
                    out.extend([V::N(fam), V::N(prefix), V::N(c >> 7), V::B(a)]);
                }
                K::IpSec => {
                    let p = self.num(1)?;
                    let g = self.num(1)?;
                    let a = self.num(1)?;
                    if !valid(Reg::SshAlg, a as u16) {
                        return Err(Reject);
                    }
                    let gw = match g {
                        0 => {
                            self.take(1)?;
                            V::B(vec![])
                        }
                        1 => V::B(self.take(4)?.to_vec()),
                        2 => V::B(self.take(16)?.to_vec()),
                        3 => V::Nm(self.name()?),
                        _ => return Err(Reject),
                    };
                    let n = self.left();
                    out.extend([V::N(p), V::N(g), V::N(a), gw, V::B(self.take(n)?.to_vec())]);
                }
                K::Hip => {
                    let hl = self.num(1)? as usize;
                    let a = self.num(1)?;
                    if !valid(Reg::SshAlg, a as u16) {
                        return Err(Reject);
                    }
                    let pl = self.num(2)? as usize;
                    let hit = self.take(hl)?.to_vec();
                    let pk = self.take(pl)?.to_vec();
                    let mut l = vec![];
                    while self.left() > 0 {
                        l.push(self.name()?);
                    }
                    out.extend([V::N(a), V::B(hit), V::B(pk), V::LN(l)]);
                }
                K::Bitmap => {
                    let mut s = BTreeSet::new();
                    let mut last = -1i32;
                    while self.left() > 0 {
                        let w = self.num(1)?;
                        let n = self.num(1)? as usize;
                        if n > 32 {
                            return Err(Reject);
                        }
                        let bits = self.take(n)?;
                        if n == 0 || w as i32 <= last || bits[n - 1] == 0 {
                            self.gray(Gray::Value);
                        }
                        last = w as i32;
                        for (i, b) in bits.iter().enumerate() {
                            for j in 0..8 {
                                if b & (0x80 >> j) != 0 {
                                    let v = w as u16 * 256 + i as u16 * 8 + j;
                                    if !is_rtype(v) {
                                        return Err(Reject);
                                    }
                                    s.insert(v);
                                }
                            }
                        }
                    }
                    out.push(V::S(s));
                }
                K::Params => {
                    let mut m = BTreeMap::new();
                    let mut last = -1i32;
                    while self.left() > 0 {
                        let k = self.num(2)? as u16;
                        let n = self.num(2)? as usize;
                        if !(k <= 6 || k >= 65280) {
                            return Err(Reject);
                        }
                        let v = self.take(n)?.to_vec();
                        if k as i32 == last || m.contains_key(&k) {
                            self.gray(Gray::Any);
                        } else if (k as i32) < last {
                            self.gray(Gray::Value);
                        }
                        last = k as i32;
                        let v = match k {
                            0 => {
                                if n % 2 != 0 {
                                    return Err(Reject);
                                }
                                let ks: Vec<u16> = v.chunks(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect();
                                if ks.iter().any(|k| !(*k <= 6 || *k >= 65280)) {
                                    return Err(Reject);
                                }
                                let set: BTreeSet<u16> = ks.iter().copied().collect();
                                let sorted: Vec<u16> = set.into_iter().collect();
                                if sorted != ks || ks.is_empty() {
                                    self.gray(Gray::Value);
                                }
                                sorted.iter().flat_map(|k| k.to_be_bytes()).collect()
                            }
                            1 => {
                                let mut p = 0;
                                while p < n {
                                    let l = v[p] as usize;
                                    if l == 0 {
                                        self.gray(Gray::Value);
                                    }
                                    p += 1 + l;
                                }
                                if p != n {
                                    return Err(Reject);
                                }
                                if n == 0 {
                                    self.gray(Gray::Value);
                                }
                                v
                            }
                            2 if n != 0 => return Err(Reject),
                            3 if n != 2 => return Err(Reject),
                            4 if n != 4 => return Err(Reject),
                            6 if n != 16 => return Err(Reject),
                            65535 if n != 0 => return Err(Reject),
                            65535 => {
                                self.gray(Gray::Value);
                                v
                            }
                            _ => v,
                        };
                        m.insert(k, v);
                    }
                    out.push(V::M(m));
                }
            }
        }
        if self.left() > 0 {
            self.gray(Gray::Value);
        }
        Ok(out)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Qm {
    pub name: Name,
    pub qtype: u16,
    pub qclass: u16,
    pub uni: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Rm {
    pub name: Name,
    pub rtype: u16,
    /// class word without the cache-flush bit
    pub class: u16,
    pub flush: bool,
    pub ttl: u32,
    pub rd: Vec<V>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Msg {
    pub id: u16,
    pub flags: u16,
    pub qs: Vec<Qm>,
    pub secs: [Vec<Rm>; 3],
}

pub fn question(r: &mut Rd) -> D<Qm> {
    let name = r.name()?;
    let qtype = r.num(2)? as u16;
    if !is_qtype(qtype) {
        return Err(Reject);
    }
    let c = r.num(2)? as u16;
    if !is_qclass(c & 0x7FFF) {
        return Err(Reject);
    }
    if c & 0x8000 != 0 && !MDNS {
        r.gray(Gray::Value);
    }
    Ok(Qm { name, qtype, qclass: c & 0x7FFF, uni: MDNS && c & 0x8000 != 0 })
}
pub fn record(r: &mut Rd) -> D<Rm> {
    let name = r.name()?;
    let rtype = r.num(2)? as u16;
    if !is_rtype(rtype) {
        return Err(Reject);
    }
    let c = r.num(2)? as u16;
    let ttl = r.num(4)? as u32;
    let len = r.num(2)? as usize;
    if len > r.left() {
        return Err(Reject);
    }
    let mut sub = Rd { d: r.d, pos: r.pos, end: r.pos + len, gray: Gray::No, findings: vec![], txt_grew: false, ptrs: vec![] };
    let rd = sub.rdata(rtype)?;
    r.gray(sub.gray);
    r.findings.append(&mut sub.findings);
    r.txt_grew |= sub.txt_grew;
    r.ptrs.append(&mut sub.ptrs);
    r.pos += len;
    let (class, flush) = if rtype == 41 {
        (c, false)
    } else {
        if c & 0x8000 != 0 && !MDNS {
            r.gray(Gray::Value);
        }
        (c & 0x7FFF, MDNS && c & 0x8000 != 0)
    };
    Ok(Rm { name, rtype, class, flush, ttl, rd })
}
pub fn message(r: &mut Rd) -> D<Msg> {
    let id = r.num(2)? as u16;
    let flags = r.num(2)? as u16;
    let n: Vec<usize> = (0..4).map(|_| r.num(2).map(|x| x as usize)).collect::<Result<_, _>>()?;
    let mut m = Msg { id, flags, ..Default::default() };
    for _ in 0..n[0] {
        m.qs.push(question(r)?);
    }
    for i in 0..3 {
        for _ in 0..n[i + 1] {
            m.secs[i].push(record(r)?);
        }
    }
    if r.left() > 0 {
        r.gray(Gray::Value);
    }
    Ok(m)
}

// ------------------------------------------------------------------ encoding
pub fn enc_name(n: &Name, out: &mut Vec<u8>) {
    for l in n {
        out.push(l.len() as u8);
        out.extend_from_slice(l);
    }
    out.push(0);
}
fn be(v: u64, w: usize, out: &mut Vec<u8>) {
    out.extend_from_slice(&v.to_be_bytes()[8 - w..]);
}
pub fn enc_bitmap(s: &BTreeSet<u16>, out: &mut Vec<u8>) {
    let mut wins: BTreeMap<u8, [u8; 32]> = BTreeMap::new();
    for t in s {
        wins.entry((t >> 8) as u8).or_insert([0; 32])[(t & 255) as usize / 8] |= 0x80 >> (t & 7);
    }
    for (w, b) in wins {
        let n = 32 - b.iter().rev().take_while(|x| **x == 0).count();
        out.push(w);
        out.push(n as u8);
        out.extend_from_slice(&b[..n]);
    }
}
pub fn enc_rdata(t: u16, rd: &[V]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    for k in layout(t) {
        match *k {
            K::N(w) | K::E(w, _) | K::Mask(w, _) => be(rd[i].n(), w as usize, &mut o),
            K::Name(_) => enc_name(rd[i].nm(), &mut o),
            K::Str | K::Utf8 | K::NFlags | K::Tag => {
                o.push(rd[i].b().len() as u8);
                o.extend_from_slice(rd[i].b());
            }
            K::Rest | K::Fix(_) => o.extend_from_slice(rd[i].b()),
            K::L16 => {
                be(rd[i].b().len() as u64, 2, &mut o);
                o.extend_from_slice(rd[i].b());
            }
            K::StrList => {
                for s in rd[i].l() {
                    o.push(s.len() as u8);
                    o.extend_from_slice(s);
                }
            }
            K::OptMap | K::Params => {
                for (c, d) in rd[i].m() {
                    be(*c as u64, 2, &mut o);
                    be(d.len() as u64, 2, &mut o);
                    o.extend_from_slice(d);
                }
            }
            K::Apl => {
                be(rd[0].n(), 2, &mut o);
                o.push(rd[1].n() as u8);
                o.push((rd[2].n() as u8) << 7 | rd[3].b().len() as u8);
                o.extend_from_slice(rd[3].b());
            }
            K::IpSec => {
                o.extend([rd[0].n() as u8, rd[1].n() as u8, rd[2].n() as u8]);
                match rd[1].n() {
                    0 => o.push(b'.'),
                    3 => enc_name(rd[3].nm(), &mut o),
                    _ => o.extend_from_slice(rd[3].b()),
                }
                o.extend_from_slice(rd[4].b());
            }
            K::Hip => {
                o.push(rd[1].b().len() as u8);
                o.push(rd[0].n() as u8);
                be(rd[2].b().len() as u64, 2, &mut o);
                o.extend_from_slice(rd[1].b());
                o.extend_from_slice(rd[2].b());
                if let V::LN(l) = &rd[3] {
                    for n in l {
                        enc_name(n, &mut o);
                    }
                }
            }
            K::Bitmap => enc_bitmap(rd[i].s(), &mut o),
        }
        i += 1;
    }
    o
}
pub fn enc_question(q: &Qm, o: &mut Vec<u8>) {
    enc_name(&q.name, o);
    be(q.qtype as u64, 2, o);
    be((q.qclass | if q.uni { 0x8000 } else { 0 }) as u64, 2, o);
}
pub fn enc_record(r: &Rm, o: &mut Vec<u8>) {
    enc_name(&r.name, o);
    be(r.rtype as u64, 2, o);
    be((r.class | if r.flush { 0x8000 } else { 0 }) as u64, 2, o);
    be(r.ttl as u64, 4, o);
    let d = enc_rdata(r.rtype, &r.rd);
    be(d.len() as u64, 2, o);
    o.extend_from_slice(&d);
}
pub fn enc_msg(m: &Msg) -> Vec<u8> {
    let mut o = vec![];
    be(m.id as u64, 2, &mut o);
    be(m.flags as u64, 2, &mut o);
    be(m.qs.len() as u64, 2, &mut o);
    for s in &m.secs {
        be(s.len() as u64, 2, &mut o);
    }
    for q in &m.qs {
        enc_question(q, &mut o);
    }
    for s in &m.secs {
        for r in s {
            enc_record(r, &mut o);
        }
    }
    o
}
pub fn show_name(n: &Name) -> String {
    if n.is_empty() {
        return ".".into();
    }
    n.iter().map(|l| if l.len() > 12 { format!("<{}>", l.len()) } else { l.iter().flat_map(|b| std::ascii::escape_default(*b)).map(|c| c as char).collect::<String>() }).collect::<Vec<_>>().join(".")
}
pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(300).map(|x| format!("{x:02x}")).collect();
    if b.len() > 300 {
        s.push_str(&format!("..({} octets)", b.len()));
    }
    s
}
