//! The bounded universes that the harnesses enumerate completely.

use crate::engine::Ctx;
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

pub fn n(s: &str) -> Name {
    s.split('.').filter(|x| !x.is_empty()).map(|x| x.as_bytes().to_vec()).collect()
}
/// Deterministic non-repeating content.
pub fn pat(len: usize, salt: u8) -> Vec<u8> {
    (0..len).map(|i| (i as u8).wrapping_mul(37).wrapping_add((i >> 8) as u8).wrapping_add(salt)).collect()
}
fn ascii(len: usize) -> Vec<u8> {
    (0..len).map(|i| b'a' + (i % 26) as u8).collect()
}
pub fn wire_len(x: &Name) -> usize {
    1 + x.iter().map(|l| l.len() + 1).sum::<usize>()
}

/// Names: root, every label length, every label count, the 255-octet limit, every octet value,
/// letter case, dots and non-UTF-8 inside labels.
pub fn names_full() -> &'static Vec<Name> {
    static S: OnceLock<Vec<Name>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![n("example.com"), vec![], n("a"), n("A"), n("aa"), n("www.example.com"), n("WWW.Example.COM"), n("a.a.a.a"), n("a.b.c.d.e.f.g.h.i.j"), n("_svc._tcp.local"), n("xn--bcher-kva.example")];
        for l in 1..=63 {
            v.push(vec![ascii(l), b"com".to_vec()]);
            v.push(vec![b"x".to_vec(), pat(l, 200)]);
        }
        for c in 1..=127 {
            v.push((0..c).map(|i| vec![b'a' + (i % 26) as u8]).collect());
        }
        // letter case at every depth
        for c in 1..=84usize {
            v.push((0..c).map(|i| vec![b'a' + (i % 26) as u8, b'A' + (i % 26) as u8]).collect());
        }
        for c in [1usize, 2, 3, 4, 8, 9, 16, 17, 32, 64, 127] {
            v.push((0..c).map(|i| vec![b'A' + (i % 26) as u8]).collect());
        }
        // names under .local of every depth, and names that only look like it
        for c in 0..=124usize {
            v.push((0..c).map(|i| vec![b'a' + (i % 26) as u8]).chain([b"local".to_vec()]).collect());
        }
        for s in ["local.a", "a.localx", "a.xlocal", "a.loca", "a.ocal", "local.local", "local.a.local", "loc.al"] {
            v.push(n(s));
        }
        // one label that is not text, at every place of names of every depth up to 8, and of deep ones
        for c in (1usize..=8).chain([16, 64, 127]) {
            for at in (0..c).filter(|at| c <= 8 || [0, 1, c / 2, c - 1].contains(at)) {
                v.push((0..c).map(|i| if i == at { vec![0xff] } else { vec![b'a' + (i % 26) as u8] }).collect());
            }
            v.push(vec![vec![0xff]; c]);
        }
        for c in [1usize, 2, 3, 10, 41, 42, 62, 63, 64, 84] {
            v.push((0..c).map(|i| vec![b'0' + (i % 10) as u8, b'z']).collect());
        }
        // exactly 255, 254, 253 octets with long labels
        for last in [61usize, 60, 59] {
            v.push(vec![ascii(63), pat(63, 1), ascii(63), pat(last, 3)]);
        }
        for b in 0..=255u8 {
            v.push(vec![vec![b]]);
            v.push(vec![vec![b'a', b, b'c'], b"net".to_vec()]);
        }
        v.push(vec![b"a.b".to_vec(), b"c".to_vec()]);
        v.push(vec![vec![0xC0], vec![0x0C]]);
        v.push(vec![vec![0xC0, 0x0C]]);
        v.push(vec!["ü".as_bytes().to_vec(), b"de".to_vec()]);
        v.push(vec![vec![0xff; 63], vec![0xff; 63]]);
        let mut seen = BTreeSet::new();
        v.retain(|x| wire_len(x) <= 255 && seen.insert(x.clone()));
        v
    })
}
/// Names that collide in every way compression cares about: equal, suffixes, same first label with a
/// different rest, case variants, label boundary confusions, repeated labels, root.
pub fn names_small() -> &'static Vec<Name> {
    static S: OnceLock<Vec<Name>> = OnceLock::new();
    S.get_or_init(|| {
        vec![
            n("example.com"),
            n("com"),
            vec![],
            n("www.example.com"),
            n("mail.example.com"),
            n("example.org"),
            n("www.example.org"),
            n("Example.com"),
            vec![b"example.com".to_vec()],
            n("com.com"),
            n("a.a.a"),
            n("a.a"),
            vec![vec![0xC0, 0x0C], b"com".to_vec()],
            vec![ascii(63), ascii(63), ascii(63), ascii(61)],
        ]
    })
}

pub enum Dom {
    Range(u64, u64),
    List(Vec<V>),
}
impl Dom {
    pub fn len(&self) -> usize {
        match self {
            Dom::Range(a, b) => (b - a + 1) as usize,
            Dom::List(v) => v.len(),
        }
    }
    pub fn get(&self, i: usize) -> V {
        match self {
            Dom::Range(a, _) => V::N(a + i as u64),
            Dom::List(v) => v[i].clone(),
        }
    }
}
fn nums(v: impl IntoIterator<Item = u64>) -> Vec<V> {
    let s: BTreeSet<u64> = v.into_iter().collect();
    s.into_iter().map(V::N).collect()
}
fn wide(w: u32) -> Vec<V> {
    let max = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    let mut v = vec![0, 1, 2, max, max - 1, max >> 1, (max >> 1) + 1, 0x0102030405060708 & max, 0xfedcba9876543210 & max];
    for i in 0..w {
        v.push(1 << i);
        v.push(max ^ (1 << i));
        v.push((1u64 << i) - 1);
    }
    for b in 0..w / 8 {
        for x in 0..256u64 {
            v.push(x << (8 * b));
            v.push((0x5a5a5a5a5a5a5a5a & max & !(0xff << (8 * b))) | x << (8 * b));
        }
    }
    nums(v)
}
fn blobs(max: usize) -> Vec<V> {
    let mut v: Vec<V> = vec![];
    for l in 0..=300.min(max) {
        v.push(V::B(pat(l, 7)));
    }
    for l in [511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 16383, 16384, 16385, 32767, 32768, 40000, 65000, 65400] {
        if l <= max {
            v.push(V::B(pat(l, 9)));
        }
    }
    for b in 0..=255u8 {
        v.push(V::B(vec![b]));
        if max >= 4 {
            v.push(V::B(vec![b, 0, b ^ 0xff, b]));
        }
    }
    // uniform content, zero octets at either end, text in either case
    for l in (1..=48).chain([63, 64, 65, 127, 128, 129, 254, 255]) {
        v.push(V::B(vec![0; l]));
        v.push(V::B(vec![0xff; l]));
        v.push(V::B([pat(l / 2, 3), vec![0; l - l / 2]].concat()));
        v.push(V::B([vec![0; l / 2], pat(l - l / 2, 3)].concat()));
        v.push(V::B(b" aB.Zz-\t09_\r\n".iter().copied().cycle().take(l).collect()));
    }
    v
}
/// Text with an octet that text handling likes to drop or change at its start, end or both.
pub fn ends() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for l in [1usize, 2, 10, 64, 127, 128, 129, 200, 254, 255] {
        for x in *b"\0 \t\n.\"\\A" {
            for at in 0..3 {
                let mut b = ascii(l);
                if at != 1 {
                    b[0] = x;
                }
                if at != 0 {
                    b[l - 1] = x;
                }
                v.push(b);
            }
        }
    }
    v
}
fn subsets() -> Vec<V> {
    let all: Vec<u16> = rtypes().to_vec();
    let mut v = vec![V::S(BTreeSet::new()), V::S(all.iter().copied().collect())];
    for (i, a) in all.iter().enumerate() {
        v.push(V::S([*a].into()));
        v.push(V::S(all.iter().copied().filter(|x| x != a).collect()));
        v.push(V::S(all[..=i].iter().copied().collect()));
        v.push(V::S(all[i..].iter().copied().collect()));
        for b in &all[i + 1..] {
            v.push(V::S([*a, *b].into()));
        }
    }
    v
}
fn dom(k: K) -> (V, Dom, Vec<V>) {
    // base, full domain, small domain
    match k {
        K::N(1) => (V::N(7), Dom::Range(0, 255), nums([0, 1, 127, 128, 255])),
        K::N(2) => (V::N(0x1234), Dom::Range(0, 65535), nums([0, 1, 255, 256, 0x7fff, 0x8000, 65535])),
        K::N(4) => (V::N(0x12345678), Dom::List(wide(32)), nums([0, 1, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff])),
        K::N(6) => (V::N(0x123456789abc), Dom::List(wide(48)), nums([0, 1, 0xffffffff, 0x100000000, 0x800000000000, 0xffffffffffff])),
        K::N(_) => unreachable!(),
        K::E(w, r) => {
            let hi = if w == 1 { 255 } else { 65535 };
            let ok: Vec<u64> = (0..=hi).filter(|v| valid(r, *v as u16)).collect();
            let small: Vec<u64> = if ok.len() > 8 { vec![ok[0], ok[1], ok[ok.len() / 2], ok[ok.len() - 1]] } else { ok.clone() };
            (V::N(ok[ok.len() / 2]), Dom::List(nums(ok)), nums(small))
        }
        K::Mask(2, _) => (V::N(0x101), Dom::List(nums([0, 1, 0x100, 0x101])), nums([0, 1, 0x100, 0x101])),
        K::Mask(..) => (V::N(0x80), Dom::List(nums([0, 0x80])), nums([0, 0x80])),
        K::Name(_) => (V::Nm(n("host.example.com")), Dom::List(names_full().iter().cloned().map(V::Nm).collect()), [0usize, 2, 3, 5, 13].iter().map(|i| V::Nm(names_small()[*i].clone())).collect()),
        K::Str => (V::B(b"cpu".to_vec()), Dom::List(blobs(255)), vec![V::B(vec![]), V::B(vec![0]), V::B(pat(255, 5))]),
        K::Utf8 | K::Tag => {
            let lo = if k == K::Tag { 1 } else { 0 };
            let mut v: Vec<V> = (lo..=255).map(|l| V::B(ascii(l))).collect();
            for b in 0..128u8 {
                v.push(V::B(vec![b]));
            }
            for s in ["é", "日本", "\u{10ffff}", "\u{fffd}", "a\u{0}b", "!^.*$!sip:x@y!", " issue", "issue ", "IsSuE", "a b", "a\0", "\0a", "\t", "ab\r\n", "\"q\"", "\\", "É", "İ", "\u{feff}x"] {
                v.push(V::B(s.as_bytes().to_vec()));
            }
            v.push(V::B("é".repeat(127).into_bytes()));
            v.extend(ends().into_iter().map(V::B));
            (V::B(b"issue".to_vec()), Dom::List(v), vec![V::B(ascii(lo)), V::B(b"issue".to_vec()), V::B(ascii(255))])
        }
        K::NFlags => {
            let mut v = vec![V::B(vec![])];
            let mut cur: Vec<Vec<u8>> = vec![vec![]];
            for _ in 0..4 {
                cur = cur.iter().flat_map(|p| b"SAUP".iter().map(move |c| [p.as_slice(), &[*c]].concat())).collect();
                v.extend(cur.iter().cloned().map(V::B));
            }
            for l in 5..=255 {
                v.push(V::B((0..l).map(|i| b"SAUP"[i % 4]).collect()));
            }
            (V::B(b"U".to_vec()), Dom::List(v), vec![V::B(vec![]), V::B(b"SAUP".to_vec())])
        }
        K::Rest => (V::B(vec![1, 2, 3]), Dom::List(blobs(65000)), vec![V::B(vec![]), V::B(vec![0]), V::B(pat(256, 1)), V::B(pat(1000, 1))]),
        K::L16 => (V::B(vec![9, 8, 7]), Dom::List(blobs(60000)), vec![V::B(vec![]), V::B(vec![0]), V::B(pat(255, 1)), V::B(pat(256, 1))]),
        K::Fix(w) => {
            let mut v = vec![V::B(vec![0; w]), V::B(vec![255; w]), V::B(pat(w, 1))];
            for i in 0..w {
                for b in 0..=255u8 {
                    let mut x = pat(w, 1);
                    x[i] = b;
                    v.push(V::B(x));
                }
            }
            let s = v[..3].to_vec();
            (V::B(pat(w, 1)), Dom::List(v), s)
        }
        K::StrList => {
            let mut v = vec![V::L(vec![])];
            for l in 0..=255 {
                v.push(V::L(vec![ascii(l)]));
                v.push(V::L(vec![b"x".to_vec(), ascii(l), b"y".to_vec()]));
            }
            for c in 2..=260 {
                v.push(V::L((0..c).map(|i| ascii(i % 3)).collect()));
            }
            for c in [100usize, 200, 250] {
                v.push(V::L((0..c).map(|_| ascii(255)).collect()));
            }
            for b in 0..128u8 {
                v.push(V::L(vec![vec![b], vec![]]));
            }
            for s in ["é", "日本語", "\u{10ffff}", "\u{fffd}", " x", "x ", "AbC", "a\0", "\0a", "\0\0\0", "\r\n", "\"q\"", "\\", "İ", "\u{feff}x", "k=v; p=\"x\""] {
                v.push(V::L(vec![s.as_bytes().to_vec()]));
                v.push(V::L(vec![s.as_bytes().to_vec(), vec![], s.as_bytes().to_vec()]));
            }
            for s in ends() {
                v.push(V::L(vec![s.clone()]));
                v.push(V::L(vec![s.clone(), s]));
            }
            // equal, empty and nested strings next to each other, in every arrangement
            let pool: [&[u8]; 4] = [b"", b"a", b"aa", b"\x01a"];
            for k in 1..=5u32 {
                for c in 0..4usize.pow(k) {
                    v.push(V::L((0..k).map(|i| pool[c / 4usize.pow(i) % 4].to_vec()).collect()));
                }
            }
            (V::L(vec![b"v=1".to_vec(), b"k=v".to_vec()]), Dom::List(v), vec![V::L(vec![]), V::L(vec![vec![]]), V::L(vec![b"a".to_vec(), vec![], ascii(255)])])
        }
        K::OptMap => {
            let mut v = vec![V::M(BTreeMap::new())];
            for c in 0..=65535u16 {
                v.push(V::M([(c, vec![1, 2])].into()));
            }
            for l in (0..=300).chain([511, 512, 1024, 4096, 16384, 32768, 65000]) {
                v.push(V::M([(10, pat(l, 1))].into()));
                v.push(V::M([(3, vec![]), (8, pat(l, 1)), (12, vec![0; 3])].into()));
            }
            for l in [1usize, 2, 4, 8, 32, 255, 256] {
                for x in [0u8, 0xff] {
                    v.push(V::M([(10, vec![x; l])].into()));
                    v.push(V::M([(0, vec![x; l]), (65535, vec![x; l]), (0x8000, vec![])].into()));
                }
            }
            for cnt in (2..=64u16).chain([100, 127, 128, 129, 255, 256, 257, 400, 1000]) {
                v.push(V::M((0..cnt).map(|i| (i.wrapping_mul(2719), pat(i as usize % 7, 2))).collect()));
            }
            (V::M([(10, pat(8, 1))].into()), Dom::List(v), vec![V::M(BTreeMap::new()), V::M([(0, vec![]), (65535, vec![1])].into())])
        }
        K::Bitmap => (V::S([1, 2, 6, 15].into()), Dom::List(subsets()), vec![V::S(BTreeSet::new()), V::S([257].into()), V::S(rtypes().iter().copied().collect())]),
        K::Params => {
            let v = params();
            (V::M([(1, b"\x02h2".to_vec()), (3, vec![0, 80])].into()), Dom::List(v), vec![V::M(BTreeMap::new()), V::M([(2, vec![]), (65280, vec![1])].into())])
        }
        K::Apl | K::IpSec | K::Hip => unreachable!(),
    }
}
fn params() -> Vec<V> {
    let mut v = vec![V::M(BTreeMap::new())];
    // mandatory: all subsets of a few keys
    let keys = [1u16, 2, 3, 4, 5, 6, 65280, 65534];
    for mask in 1..256u32 {
        let ks: Vec<u8> = keys.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).flat_map(|(_, k)| k.to_be_bytes()).collect();
        v.push(V::M([(0, ks)].into()));
    }
    // keys nobody should list, and the key that is never valid
    for ks in [vec![0u16], vec![0, 1], vec![65535], vec![0, 65535], vec![3, 65280, 65535]] {
        v.push(V::M([(0, ks.iter().flat_map(|k| k.to_be_bytes()).collect())].into()));
    }
    // alpn lists
    for l in 1..=255usize {
        let mut a = vec![l as u8];
        a.extend(ascii(l));
        v.push(V::M([(1, a.clone())].into()));
        a.extend(b"\x02h2");
        v.push(V::M([(1, a)].into()));
    }
    for p in 0..=65535u64 {
        v.push(V::M([(3, (p as u16).to_be_bytes().to_vec())].into()));
    }
    for b in 0..=255u8 {
        v.push(V::M([(4, vec![b, 0, 1, b])].into()));
        v.push(V::M([(6, pat(16, b))].into()));
        v.push(V::M([(5, vec![b])].into()));
    }
    for l in (0..=300).chain([1024, 4096, 32768, 65000]) {
        v.push(V::M([(5, pat(l, 3))].into()));
        v.push(V::M([(65300, pat(l, 3))].into()));
    }
    for k in 65280..=65534u16 {
        v.push(V::M([(k, vec![1, 2, 3])].into()));
    }
    // many protocols, many mandatory keys, many parameters
    for k in (1..=40).chain([64, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300]) {
        v.push(V::M([(1, (0..k).flat_map(|i| [vec![(1 + i % 3) as u8], ascii(1 + i % 3)].concat()).collect())].into()));
        let ks: Vec<u16> = (1..=6).chain(65280..=65534).take(k).collect();
        v.push(V::M([(0, ks.iter().flat_map(|k| k.to_be_bytes()).collect())].into()));
        v.push(V::M((65280..=65534u16).take(k).map(|k| (k, pat(k as usize % 5, 1))).collect()));
    }
    // all subsets of the keys
    let vals: [(u16, Vec<u8>); 8] = [(0, vec![0, 1]), (1, b"\x02h2\x02h3".to_vec()), (2, vec![]), (3, vec![1, 187]), (4, vec![192, 0, 2, 1]), (5, pat(5, 1)), (6, pat(16, 1)), (65280, vec![9])];
    for mask in 0..256u32 {
        v.push(V::M(vals.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, x)| x.clone()).collect()));
    }
    v
}

pub struct TypeDom {
    pub t: u16,
    pub base: Vec<V>,
    pub fields: Vec<Dom>,
    pub small: Vec<Vec<V>>,
    pub extra: Vec<Vec<V>>,
}
impl TypeDom {
    pub fn len(&self) -> usize {
        1 + self.fields.iter().map(|d| d.len()).sum::<usize>() + self.extra.len()
    }
    /// i-th value: 0 = base, then every single-field deviation, then the extras.
    pub fn get(&self, i: usize) -> Vec<V> {
        if i == 0 {
            return self.base.clone();
        }
        let mut i = i - 1;
        for (f, d) in self.fields.iter().enumerate() {
            if i < d.len() {
                let mut b = self.base.clone();
                b[f] = d.get(i);
                return b;
            }
            i -= d.len();
        }
        self.extra[i].clone()
    }
    pub fn pairs(&self) -> Vec<(usize, usize)> {
        let k = self.small.len();
        (0..k).flat_map(|i| (i + 1..k).map(move |j| (i, j))).collect()
    }
}
fn vals(k: K) -> Vec<V> {
    let (_, d, _) = dom(k);
    (0..d.len()).map(|i| d.get(i)).collect()
}
pub fn type_doms() -> &'static Vec<TypeDom> {
    static S: OnceLock<Vec<TypeDom>> = OnceLock::new();
    S.get_or_init(|| {
        rtypes()
            .iter()
            .map(|&t| {
                let mut td = TypeDom { t, base: vec![], fields: vec![], small: vec![], extra: vec![] };
                match layout(t)[0] {
                    K::Apl => {
                        td.base = vec![V::N(1), V::N(24), V::N(0), V::B(vec![192, 0, 2, 0])];
                        for (i, d) in [vec![V::N(1)], nums(0..=255), nums([0, 1]), vals(K::Fix(4))].into_iter().enumerate() {
                            td.small.push(d.iter().step_by((d.len() / 4).max(1)).cloned().collect());
                            let _ = i;
                            td.fields.push(Dom::List(d));
                        }
                        for p in 0..=255u64 {
                            for ng in 0..2 {
                                td.extra.push(vec![V::N(2), V::N(p), V::N(ng), V::B(pat(16, p as u8))]);
                            }
                        }
                        for a in vals(K::Fix(16)) {
                            td.extra.push(vec![V::N(2), V::N(64), V::N(1), a]);
                        }
                    }
                    K::IpSec => {
                        td.base = vec![V::N(10), V::N(3), V::N(2), V::Nm(n("gw.example.com")), V::B(vec![1, 2, 3])];
                        let f = [nums(0..=255), vec![V::N(3)], nums(0..=5), vals(K::Name(false)), vals(K::Rest)];
                        for d in f {
                            td.small.push(d.iter().step_by((d.len() / 4).max(1)).cloned().collect());
                            td.fields.push(Dom::List(d));
                        }
                        for (g, gws) in [(0u64, vec![V::B(vec![])]), (1, vals(K::Fix(4))), (2, vals(K::Fix(16)))] {
                            for gw in gws {
                                for key in [vec![], vec![7], pat(130, 1)] {
                                    td.extra.push(vec![V::N(10), V::N(g), V::N(1), gw.clone(), V::B(key)]);
                                }
                            }
                            let gw = if g == 0 { vec![] } else { pat(if g == 1 { 4 } else { 16 }, 3) };
                            for a in 0..=5 {
                                for p in [0u64, 1, 255] {
                                    td.extra.push(vec![V::N(p), V::N(g), V::N(a), V::B(gw.clone()), V::B(vec![1, 0, 255])]);
                                }
                            }
                        }
                    }
                    K::Hip => {
                        td.base = vec![V::N(2), V::B(pat(16, 1)), V::B(pat(40, 2)), V::LN(vec![n("rvs.example.com")])];
                        let mut lists = vec![V::LN(vec![])];
                        for nm in names_full() {
                            lists.push(V::LN(vec![nm.clone()]));
                        }
                        for a in names_small() {
                            for b in names_small() {
                                lists.push(V::LN(vec![a.clone(), b.clone()]));
                            }
                        }
                        for c in (3..40).chain([64, 127, 128, 129, 255, 256, 257, 300]) {
                            lists.push(V::LN((0..c).map(|i| names_small()[i % 12].clone()).collect()));
                        }
                        for d in [nums(0..=5), blobs(255), blobs(60000), lists] {
                            td.small.push(d.iter().step_by((d.len() / 5).max(1)).cloned().collect());
                            td.fields.push(Dom::List(d));
                        }
                    }
                    _ => {
                        for k in layout(t) {
                            let (b, d, s) = dom(*k);
                            td.base.push(b);
                            td.fields.push(d);
                            td.small.push(s);
                        }
                    }
                }
                td
            })
            .collect()
    })
}
pub fn tdom(t: u16) -> &'static TypeDom {
    type_doms().iter().find(|d| d.t == t).expect("type")
}
pub fn base_rr(t: u16, name: Name) -> Rm {
    Rm { name, rtype: t, class: if t == 41 { 1232 } else { 1 }, flush: false, ttl: 300, rd: tdom(t).base.clone() }
}
pub fn query(m: &mut Msg, name: Name, t: u16) {
    m.qs.push(Qm { name, qtype: t, qclass: 1, uni: false });
}

// ------------------------------------------------------------------ message scenarios
pub const SCEN: &[&str] = &["rdata1", "rdata2", "owner", "class", "ttl", "question", "names2", "names3", "offset", "count", "header", "mixed", "collide", "seqs", "cross", "nested"];

/// The base value and up to k-1 others, from both ends and the middle of the boundary values.
fn spread(base: &V, small: &[V], k: usize) -> Vec<V> {
    let mut v = vec![base.clone()];
    let l = small.len();
    for i in [l.saturating_sub(1), 0, l / 2, l / 4, 3 * l / 4] {
        if v.len() < k && i < l && !v.contains(&small[i]) {
            v.push(small[i].clone());
        }
    }
    v
}

pub fn gen_msg(ctx: &mut Ctx, scen: &str) -> Msg {
    let mut m = Msg { id: 0x1234, flags: 0x8180, ..Default::default() };
    match scen {
        // every single-field deviation of every record type
        "rdata1" => {
            let d = ctx.pick(type_doms());
            let i = ctx.choose(d.len());
            let mut r = base_rr(d.t, n("example.com"));
            r.rd = d.get(i);
            query(&mut m, n("example.com"), d.t);
            let sec = if i == 0 { ctx.choose(3) } else { i % 3 };
            m.secs[sec].push(r);
        }
        // every pair of field deviations over boundary values, followed by another record
        "rdata2" => {
            let ds: Vec<&TypeDom> = type_doms().iter().filter(|d| d.small.len() > 1).collect();
            let d = *ctx.pick(&ds);
            let ps = d.pairs();
            let (i, j) = *ctx.pick(&ps);
            let mut r = base_rr(d.t, n("www.example.com"));
            r.rd[i] = ctx.pick(&d.small[i]).clone();
            r.rd[j] = ctx.pick(&d.small[j]).clone();
            if d.t == 55 || d.t == 45 {
                // keep dependent fields consistent
                if d.t == 45 {
                    r.rd[1] = V::N(3);
                }
            }
            m.secs[0].push(r);
            m.secs[2].push(base_rr(1, n("www.example.com")));
        }
        // everything at once over few values: the complete product of all fields of the data, and of
        // all attributes of a record with the header and a question
        "cross" => {
            if ctx.flag() {
                let d = ctx.pick(type_doms());
                let mut r = base_rr(d.t, n("www.example.com"));
                let k = if ctx.thorough && d.small.len() < 8 { 4 } else { 3 };
                for i in 0..d.small.len() {
                    let vs = spread(&d.base[i], &d.small[i], k);
                    r.rd[i] = ctx.pick(&vs).clone();
                }
                if d.t == 45 {
                    r.rd[1] = V::N(3);
                }
                m.secs[0].push(r);
                m.secs[1].push(base_rr(2, n("example.com")));
            } else {
                let t = *ctx.pick(rtypes());
                let mut r = base_rr(t, names_small()[*ctx.pick(&[0usize, 3, 13])].clone());
                r.class = if t == 41 { *ctx.pick(&[0u16, 512, 0x8001]) } else { *ctx.pick(&[1u16, 3, 0x7fff]) };
                r.flush = MDNS && t != 41 && ctx.flag();
                r.ttl = *ctx.pick(&[0u32, 0x8000, 0xffff_ffff]);
                m.id = *ctx.pick(&[0u16, 0xffff]);
                m.flags = *ctx.pick(&[0u16, 0x8180, 0x7800, 0xffff]);
                match ctx.choose(3) {
                    0 => {}
                    1 => query(&mut m, names_small()[3].clone(), t),
                    _ => m.qs.push(Qm { name: vec![], qtype: 255, qclass: 255, uni: MDNS }),
                }
                let sec = ctx.choose(3);
                m.secs[sec].push(r);
                if ctx.flag() {
                    m.secs[(sec + 1) % 3].push(base_rr(15, n("example.com")));
                }
            }
        }
        "owner" => {
            let nm = ctx.pick(names_full()).clone();
            let t = *ctx.pick(&[1u16, 2, 16, 41, 64]);
            let sec = ctx.choose(3);
            if ctx.flag() {
                query(&mut m, nm.clone(), t);
            }
            m.secs[sec].push(base_rr(t, nm.clone()));
            if ctx.flag() {
                m.secs[2].push(base_rr(1, nm));
            }
        }
        "class" => {
            let t = *ctx.pick(&[1u16, 41, 15]);
            let mut r = base_rr(t, n("example.com"));
            if t == 41 {
                r.class = ctx.choose(65536) as u16;
            } else {
                r.class = ctx.choose(32768) as u16;
                r.flush = MDNS && ctx.flag();
            }
            let sec = ctx.choose(3);
            m.secs[sec].push(r);
        }
        "ttl" => {
            let t = *ctx.pick(rtypes());
            let mut r = base_rr(t, n("example.com"));
            let (_, d, _) = (0, ttl_dom(), 0);
            r.ttl = ctx.pick(d).n() as u32;
            r.flush = MDNS && t != 41 && ctx.flag();
            m.secs[1].push(r);
        }
        "question" => {
            let qts: Vec<u16> = (0..=300).filter(|t| is_qtype(*t)).collect();
            let k = ctx.choose(4);
            for i in 0..k {
                let nm = if i == 0 && k == 1 { ctx.pick(names_full()).clone() } else { names_small()[ctx.choose(if k == 3 { 4 } else { 14 })].clone() };
                let qtype = if k == 1 { *ctx.pick(&qts) } else { *ctx.pick(&[1u16, 255, 257]) };
                let qclass = *ctx.pick(if k == 1 { &[1u16, 2, 3, 4, 254, 255] as &[u16] } else { &[1u16, 255] });
                let uni = MDNS && if k < 3 { ctx.flag() } else { i == 1 };
                m.qs.push(Qm { name: nm, qtype, qclass, uni });
            }
            m.flags = 0x0100;
        }
        // two records with names in owner and data positions
        "names2" => {
            let nmc = if ctx.thorough { 14 } else { 11 };
            let tys = name_types();
            query(&mut m, names_small()[ctx.choose(4)].clone(), 1);
            for i in 0..2 {
                let t = *ctx.pick(&tys);
                let owner = names_small()[ctx.choose(if i == 0 { 3 } else { nmc })].clone();
                let nm = names_small()[ctx.choose(nmc)].clone();
                m.secs[i * 2].push(named(t, owner, &[nm]));
            }
        }
        // longer sequences over fewer names; two-name types; all section splits
        "names3" => {
            let tys = [2u16, 6, 14, 33, 35, 15, 45, 16];
            let k = if ctx.thorough { 4 } else { 3 };
            let alpha = [0usize, 3, 1, 5];
            for i in 0..k {
                let t = tys[ctx.choose(if k == 4 { 5 } else { 8 })];
                let owner = names_small()[alpha[ctx.choose(2)]].clone();
                let a = names_small()[alpha[ctx.choose(3)]].clone();
                let b = names_small()[alpha[ctx.choose(if matches!(t, 6 | 14) { 3 } else { 1 })]].clone();
                m.secs[i % 3].push(named(t, owner, &[a, b]));
            }
        }
        // names that start around the largest offset a pointer can express
        "offset" => {
            let t = *ctx.pick(&name_types());
            let nm = names_small()[ctx.choose(6)].clone();
            // filler so that the next owner name starts at 0x3FFF + delta
            let delta = ctx.choose(90) as isize - 60;
            let far = *ctx.pick(&[0x4000isize, 0x100, 0x80, 0x8000, 0xC000, 0x10000]);
            let mut f = base_rr(10, n("filler"));
            let head = 12 + wire_len(&f.name) as isize + 10;
            let len = far - 1 + delta - head;
            if len < 0 || len > 65535 {
                f.rd = vec![V::B(pat(3, 0))];
            } else {
                f.rd = vec![V::B(pat(len as usize, 0))];
            }
            m.secs[0].push(f);
            m.secs[1].push(named(t, names_small()[3].clone(), &[nm.clone(), names_small()[4].clone()]));
            m.secs[2].push(named(t, names_small()[ctx.choose(5)].clone(), &[nm.clone(), nm]));
            m.secs[2].push(named(2, names_small()[3].clone(), &[n("filler")]));
        }
        "count" => {
            let c = [0usize, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 300, 511, 512, 1000, 4096, 32767, 32768, 65535];
            let k = c[ctx.choose(c.len())];
            let sec = ctx.choose(4);
            for i in 0..k {
                if sec == 0 {
                    query(&mut m, names_small()[i % 5].clone(), 1);
                } else {
                    let mut r = base_rr(if i % 2 == 0 { 1 } else { 2 }, names_small()[i % 5].clone());
                    r.ttl = i as u32;
                    m.secs[sec - 1].push(r);
                }
            }
            if k < 65535 && ctx.flag() {
                m.secs[2].push(base_rr(41, vec![]));
                query(&mut m, n("q"), 28);
                m.secs[0].push(base_rr(28, n("q")));
            }
        }
        "header" => {
            if ctx.flag() {
                m.flags = ctx.choose(65536) as u16;
            } else {
                m.id = ctx.choose(65536) as u16;
            }
            query(&mut m, n("example.com"), 1);
            m.secs[0].push(base_rr(1, n("example.com")));
        }
        // every ordered pair of record types, three-record messages with all section layouts
        "mixed" => {
            let a = *ctx.pick(rtypes());
            let b = *ctx.pick(rtypes());
            let lay = ctx.choose(9);
            let fl = MDNS && ctx.flag();
            query(&mut m, n("www.example.com"), a);
            let mut r = base_rr(a, n("www.example.com"));
            r.flush = fl && a != 41;
            m.secs[lay % 3].push(r);
            let mut r = base_rr(b, n("mail.example.com"));
            r.flush = fl && b != 41;
            r.ttl = 0x80000001;
            m.secs[lay / 3].push(r);
            m.secs[2].push(base_rr(a, n("example.com")));
        }
        // every pair of short names over a two-letter alphabet in every division into labels, and
        // names whose octets look like other names' structure
        "collide" => {
            let v = names_collide();
            let k = if ctx.thorough && ctx.flag() { 3 } else { 2 };
            let lim = if k == 3 { v.iter().filter(|x| wire_len(x) <= 4).count() } else { v.len() };
            let form = if k == 3 { ctx.choose(2) } else { 0 };
            for i in 0..k {
                let nm = v[ctx.choose(lim)].clone();
                match (form, i) {
                    (0, 0) => query(&mut m, nm, 1),
                    (0, 1) => m.secs[0].push(base_rr(1, nm)),
                    (0, _) => m.secs[2].push(named(2, n("b"), &[nm])),
                    (_, i) => m.secs[i].push(named(6, nm.clone(), &[nm, n("a.b")])),
                }
            }
            if form == 0 && k == 2 {
                // the first name again, in data
                let first = m.qs[0].name.clone();
                m.secs[1].push(named(2, vec![], &[first]));
            }
        }
        // every list, set, map, name and octet string of up to four elements over three values
        "seqs" => {
            let d = ctx.pick(type_doms());
            let f = ctx.choose(d.base.len());
            let l = ctx.choose(if ctx.thorough { 6 } else { 5 });
            let s: Vec<usize> = (0..l).map(|_| ctx.choose(3)).collect();
            let mut r = base_rr(d.t, n("a.b"));
            if let Some(v) = seq_value(d, f, &s) {
                r.rd[f] = v;
            }
            m.secs[l % 3].push(r);
            m.secs[2].push(named(2, n("ab"), &[n("b")]));
        }
        // names that extend one another label by label, so that compressed pointers form chains
        "nested" => {
            let l = *ctx.pick(&[1usize, 2, 7, 62]);
            let most = 254 / (l + 1);
            let k = 1 + ctx.choose(most);
            let form = ctx.choose(5);
            let down = ctx.flag();
            let mut nm: Name = vec![];
            let mut all: Vec<Name> = vec![];
            for i in 0..k {
                nm.insert(0, (0..l).map(|j| b'a' + ((i + j) % 26) as u8).collect());
                all.push(nm.clone());
            }
            if down {
                all.reverse();
            }
            for (i, nm) in all.into_iter().enumerate() {
                match form {
                    0 => query(&mut m, nm, 1),
                    1 => m.secs[i * 3 / k].push(base_rr(1, nm)),
                    2 => m.secs[0].push(named(2, vec![], &[nm])),
                    3 => m.secs[i % 2].push(named(if i % 2 == 0 { 14 } else { 6 }, n("o"), &[nm.clone(), nm])),
                    _ => m.secs[2].push(named(35, nm.clone(), &[nm])),
                }
            }
        }
        _ => panic!("unknown scenario {scen}"),
    }
    m
}
/// The value of field `f` made of the elements `s` (0..3 each); `None` for numbers.
pub fn seq_value(d: &TypeDom, f: usize, s: &[usize]) -> Option<V> {
    let t = d.t;
    let fixed = matches!(layout(t).get(f), Some(K::Fix(_))) || t == 42;
    let oct = |al: &[u8]| -> Vec<u8> { s.iter().map(|i| al[*i]).collect() };
    let nms = [n("a"), n("b"), n("a.b")];
    Some(match &d.base[f] {
        V::B(b) if fixed => {
            let mut x = vec![0; b.len()];
            let o = oct(&[0, 1, 255]);
            let l = x.len().min(o.len());
            // at the end, where an address carries its host part
            let k = x.len() - l;
            x[k..].copy_from_slice(&o[..l]);
            V::B(x)
        }
        V::B(_) if t == 35 && f == 2 => V::B(oct(b"SAU")),
        V::B(_) if t == 257 && f == 1 => V::B([b"t".as_slice(), &oct(b"abA")].concat()),
        V::B(_) if t == 35 && f == 4 => V::B(oct(b"abA")),
        V::B(_) => V::B(oct(&[0, 1, 255])),
        V::Nm(_) => V::Nm(s.iter().map(|i| [b"a".to_vec(), b"b".to_vec(), b"ab".to_vec()][*i].clone()).collect()),
        V::L(_) => V::L(s.iter().map(|i| [b"".to_vec(), b"a".to_vec(), b"ab".to_vec()][*i].clone()).collect()),
        V::LN(_) => V::LN(s.iter().map(|i| nms[*i].clone()).collect()),
        V::S(_) => V::S(s.iter().enumerate().map(|(k, i)| rtypes()[(k * 7 + i * 11) % rtypes().len()]).collect()),
        V::M(_) if t == 41 => V::M(s.iter().enumerate().map(|(k, i)| ((k as u16) * 300, vec![k as u8; *i])).collect()),
        V::M(_) => {
            // a list of protocols and an opaque value
            if s.is_empty() {
                V::M(Default::default())
            } else {
                let alpn: Vec<u8> = s.iter().flat_map(|i| [b"\x01a".to_vec(), b"\x01b".to_vec(), b"\x02ab".to_vec()][*i].clone()).collect();
                V::M([(1, alpn), (65280, oct(&[0, 1, 255]))].into())
            }
        }
        V::N(_) => return None,
    })
}
/// All names over {a, b} with at most four octets of labels, shortest first, then names whose labels
/// contain dots, length octets, pointer octets, digits or differ in letter case only.
pub fn names_collide() -> &'static Vec<Name> {
    static S: OnceLock<Vec<Name>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v: Vec<Name> = vec![vec![]];
        for total in 1..=4usize {
            for word in 0..1u32 << total {
                for cuts in 0..1u32 << (total - 1) {
                    let mut x: Name = vec![vec![]];
                    for i in 0..total {
                        if i > 0 && cuts >> (i - 1) & 1 == 1 {
                            x.push(vec![]);
                        }
                        x.last_mut().unwrap().push(if word >> i & 1 == 1 { b'b' } else { b'a' });
                    }
                    v.push(x);
                }
            }
        }
        v.sort_by_key(wire_len);
        for s in ["A", "B", "A.b", "a.B", "AB", "aB", "a.b.A", "1", "1.1", "a1", "a.1", "com", "com.com", "com.com.com"] {
            v.push(n(s));
        }
        v.push(vec![b"a.b".to_vec()]);
        v.push(vec![b"a.".to_vec()]);
        v.push(vec![b".a".to_vec(), b"b".to_vec()]);
        v.push(vec![b"a".to_vec(), b".b".to_vec()]);
        v.push(vec![b"a\x01b".to_vec()]);
        v.push(vec![b"\x01b".to_vec()]);
        v.push(vec![b"\x01".to_vec(), b"b".to_vec()]);
        v.push(vec![b"a\0".to_vec()]);
        v.push(vec![b"\0".to_vec()]);
        v.push(vec![b"\0\0".to_vec()]);
        v.push(vec![b"\0".to_vec(), b"\0".to_vec()]);
        v.push(vec![vec![0xC0, 0x0C]]);
        v.push(vec![vec![0xC0], vec![0x0C]]);
        v.push(vec![vec![0xff]]);
        v.push(vec![vec![0xfe]]);
        v.push(vec!["\u{e9}".as_bytes().to_vec()]);
        // long labels and deep names that differ in one place only, or in length only
        for l in [8usize, 16, 24, 32, 48, 63] {
            let base = vec![b'm'; l];
            v.push(vec![base.clone(), b"b".to_vec()]);
            v.push(vec![base[1..].to_vec(), b"b".to_vec()]);
            for at in [0, l / 2, l - 1] {
                let mut x = base.clone();
                x[at] = b'n';
                v.push(vec![x, b"b".to_vec()]);
            }
        }
        for d in [4usize, 8, 12, 16, 32, 64, 127] {
            let base = vec![b"k".to_vec(); d];
            for at in [0, d / 2, d - 1] {
                let mut x = base.clone();
                x[at] = b"j".to_vec();
                v.push(x);
            }
            v.push(base);
        }
        // two labels on which the standard library's hash with its default (fixed) key agrees, found
        // by a parallel collision search; a table of names keyed by that hash takes one for the other
        for l in HASH_TWINS {
            v.push(vec![l.to_vec()]);
            v.push(vec![b"a".to_vec(), l.to_vec()]);
        }
        v
    })
}
pub const HASH_TWINS: [&[u8; 16]; 2] = [b"fahpebjojdoajjfo", b"fhbffmicdkghmibb"];
fn ttl_dom() -> &'static Vec<V> {
    static S: OnceLock<Vec<V>> = OnceLock::new();
    S.get_or_init(|| wide(32))
}
/// Record types whose data holds a name.
pub fn name_types() -> Vec<u16> {
    rtypes().iter().copied().filter(|t| matches!(t, 2 | 5 | 6 | 12 | 14 | 15 | 33 | 35 | 45 | 46 | 47 | 55 | 64 | 249 | 250)).collect()
}
/// A record of type `t` whose data names are taken from `ns`.
pub fn named(t: u16, owner: Name, ns: &[Name]) -> Rm {
    let mut r = base_rr(t, owner);
    let mut k = 0;
    for v in r.rd.iter_mut() {
        match v {
            V::Nm(x) => {
                *x = ns[k % ns.len()].clone();
                k += 1;
            }
            V::LN(x) => {
                *x = vec![ns[k % ns.len()].clone(), ns[(k + 1) % ns.len()].clone()];
                k += 1;
            }
            _ => {}
        }
    }
    r
}
pub fn describe(m: &Msg) -> String {
    let mut s = format!("id={:04x} flags={:04x}", m.id, m.flags);
    for q in m.qs.iter().take(3) {
        s.push_str(&format!(" q({} {} {}{})", show_name(&q.name), tname(q.qtype), q.qclass, if q.uni { " unicast" } else { "" }));
    }
    for (i, sec) in m.secs.iter().enumerate() {
        for r in sec.iter().take(3) {
            s.push_str(&format!(" {}({} {} class={} ttl={}{} rd={})", ["an", "ns", "ar"][i], show_name(&r.name), tname(r.rtype), r.class, r.ttl, if r.flush { " flush" } else { "" }, crate::bridge::short(&r.rd)));
        }
        if sec.len() > 3 {
            s.push_str(&format!(" ..{} records", sec.len()));
        }
    }
    s
}

// ------------------------------------------------------------------ octet scenarios
/// Context in front of a record: header, one question whose name spans offsets 12..., so that
/// compression pointers have something to point at.
pub fn envelope(an: u16) -> Vec<u8> {
    let mut o = vec![0x12, 0x34, 0x81, 0x80, 0, 1, 0, 0, 0, 0, 0, 0];
    o[6..8].copy_from_slice(&an.to_be_bytes());
    enc_name(&n("www.example.com"), &mut o);
    o.extend([0, 1, 0, 1]);
    o
}
/// Owner pointer, type, class IN, ttl, RDLENGTH.
pub fn rr_head(o: &mut Vec<u8>, t: u16, len: usize) {
    o.extend([0xC0, 0x0C]);
    o.extend(t.to_be_bytes());
    o.extend([0, 1, 0, 0, 1, 0x2c]);
    o.extend((len as u16).to_be_bytes());
}
/// Data octets that are valid or close to valid: base values and boundary values of each type,
/// with names replaced by compressed forms.
pub fn templates(t: u16) -> &'static Vec<Vec<u8>> {
    static S: OnceLock<std::sync::Mutex<BTreeMap<u16, &'static Vec<Vec<u8>>>>> = OnceLock::new();
    let m = S.get_or_init(Default::default);
    let mut g = m.lock().unwrap();
    if let Some(v) = g.get(&t) {
        return v;
    }
    let d = tdom(t);
    let mut out: Vec<Vec<u8>> = vec![];
    let mut push = |v: Vec<u8>| {
        if v.len() <= 90 && !out.contains(&v) {
            out.push(v)
        }
    };
    push(enc_rdata(t, &d.base));
    // compressed spelling of the names in the base value
    push(enc_rdata_ptr(t, &d.base));
    for (f, s) in d.small.iter().enumerate() {
        for v in s {
            let mut b = d.base.clone();
            b[f] = v.clone();
            if t == 45 {
                b[1] = V::N(3);
            }
            push(enc_rdata(t, &b));
        }
    }
    match t {
        42 => {
            for x in [
                vec![0, 1, 24, 3, 192, 0, 2],
                vec![0, 1, 24, 0x83, 192, 0, 2],
                vec![0, 1, 0, 0],
                vec![0, 2, 64, 8, 0x20, 1, 0xd, 0xb8, 0, 0, 0, 1],
                vec![0, 1, 8, 1, 10, 0, 1, 16, 2, 172, 16],
                vec![0, 2, 128, 16, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
            ] {
                push(x)
            }
        }
        45 => {
            push(vec![10, 0, 2, 0x2e, 1, 2, 3]);
            push(vec![10, 1, 2, 192, 0, 2, 38, 1]);
            push([&[10, 2, 2][..], &pat(16, 1), &[9, 9]].concat());
        }
        64 => {
            for p in [
                vec![(0u16, vec![0u8, 1, 0, 4])],
                vec![(1, b"\x02h2\x05http3".to_vec()), (3, vec![0, 53])],
                vec![(2, vec![]), (4, vec![1, 2, 3, 4])],
                vec![(6, pat(16, 1)), (65280, vec![5, 5])],
                vec![(4, vec![1, 2, 3, 4, 5, 6, 7, 8])],
                vec![(65535, vec![])],
                vec![(7, vec![1])],
                vec![(3, vec![0, 80]), (1, b"\x02h2".to_vec())],
                vec![(3, vec![0, 80]), (3, vec![0, 81])],
            ] {
                let mut x = vec![0, 1, 0];
                for (k, v) in p {
                    x.extend(k.to_be_bytes());
                    x.extend((v.len() as u16).to_be_bytes());
                    x.extend(v);
                }
                push(x);
            }
        }
        16 => {
            push(vec![2, 0xc3, 0xa9, 1, 0x41]);
            push(vec![1, 0xff]);
        }
        35 => push(b"\x00\x01\x00\x02\x01u\x07E2U+sip\x01!\x00".to_vec()),
        62 | 47 => {
            let mut x = if t == 62 { vec![0, 0, 0, 1, 0, 3] } else { vec![0] };
            x.extend([0, 4, 0x62, 1, 0x80, 8, 1, 1, 0xc0]);
            push(x);
            let mut x = if t == 62 { vec![0, 0, 0, 1, 0, 3] } else { vec![0xC0, 0x10] };
            x.extend([255, 33]);
            x.extend([0; 32]);
            x.push(1);
            push(x);
        }
        41 => push(vec![0, 10, 0, 1, 5, 0, 10, 0, 1, 6]),
        55 => push([&[4, 2, 0, 3, 1, 2, 3, 4, 7, 8, 9][..], &[0xC0, 0x0C, 1, b'x', 0xC0, 0x10]].concat()),
        _ => {}
    }
    let l: &'static Vec<Vec<u8>> = Box::leak(Box::new(out));
    g.insert(t, l);
    l
}
/// Same as `enc_rdata`, names written as one label and a pointer to offset 16 ("example.com").
pub fn enc_rdata_ptr(t: u16, rd: &[V]) -> Vec<u8> {
    let marker = vec![b"MARK".to_vec()];
    let mut r = rd.to_vec();
    for v in r.iter_mut() {
        match v {
            V::Nm(x) => *x = marker.clone(),
            V::LN(x) => *x = vec![marker.clone(); 2],
            _ => {}
        }
    }
    let b = enc_rdata(t, &r);
    let pat: &[u8] = b"\x04MARK\x00";
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(pat) {
            o.extend([1, b'h', 0xC0, 0x10]);
            i += pat.len();
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
pub const BYTES: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 0x0b, 0x0c, 0x0d, 0x0f, 0x10, 0x11, 0x14, 0x1f, 0x20, 0x21, 0x3f, 0x40, 0x41, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xc1, 0xe0, 0xfe, 0xff];
pub const BYTES_FEW: &[u8] = &[0, 1, 2, 0x0c, 0x10, 0x21, 0x40, 0x7f, 0x80, 0xc0, 0xff];

pub const RAW: &[&str] = &["subst", "trunc", "pairsub", "insdel", "rdlen", "short", "shortall", "hdr", "follow", "chains", "sections"];

/// Whole messages of (mostly) malformed octets. Returns (octets, type in question).
pub fn gen_raw(ctx: &mut Ctx, scen: &str) -> Vec<u8> {
    let msg = |t: u16, rd: &[u8], len: usize, tail: &[u8]| {
        let mut o = envelope(1);
        rr_head(&mut o, t, len);
        o.extend_from_slice(rd);
        o.extend_from_slice(tail);
        o
    };
    match scen {
        // names made of chains of pointers, with and without labels between them
        "chains" => {
            let links = ctx.choose(if ctx.thorough { 200 } else { 131 });
            let (labels, len) = *ctx.pick(&[(1usize, 1usize), (0, 0), (1, 3), (2, 1), (1, 20)]);
            let form = ctx.choose(4);
            let mut o = vec![0, 7, 0x81, 0x80, 0, 0, 0, 0, 0, 0, 0, 0];
            enc_name(&n("z"), &mut o);
            let mut last = 12u16;
            o.extend([0, 1, 0, 1]);
            let mut an = 0u16;
            for i in 0..links {
                let mut nm = vec![];
                for _ in 0..labels {
                    nm.push(len as u8);
                    nm.extend((0..len).map(|j| b'a' + ((i + j) % 26) as u8));
                }
                nm.extend((0xC000 | last).to_be_bytes());
                if o.len() > 0x3fe0 {
                    break;
                }
                match form {
                    // questions
                    0 => {
                        last = o.len() as u16;
                        o.extend(&nm);
                        o.extend([0, 1, 0, 1]);
                    }
                    // owners
                    1 => {
                        last = o.len() as u16;
                        o.extend(&nm);
                        o.extend([0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4]);
                        an += 1;
                    }
                    // data: canonical names, mail exchangers
                    k => {
                        rr_head(&mut o, if k == 2 { 5 } else { 15 }, nm.len() + if k == 2 { 0 } else { 2 });
                        if k == 3 {
                            o.extend([0, i as u8]);
                        }
                        last = o.len() as u16;
                        o.extend(&nm);
                        an += 1;
                    }
                }
            }
            let qd = if form == 0 { 1 + links as u16 } else { 1 };
            o[4..6].copy_from_slice(&qd.to_be_bytes());
            o[6..8].copy_from_slice(&an.to_be_bytes());
            o
        }
        // messages with all sections under every kind of header, sound or with one defect somewhere
        "sections" => {
            let mut words = vec![0u16, 0x0100, 0x8180, 0x8380, 0x8583, 0x7fff, 0xffff];
            words.extend((0..16).map(|i| 1u16 << i));
            words.extend((0..16).map(|i| 0x8000 | i << 11));
            words.extend((0..16).map(|i| 0x8200 | i));
            let word = *ctx.pick(&words);
            let kinds: [[u16; 4]; 7] = [[1, 1, 1, 1], [5, 6, 1, 28], [16, 2, 1, 41], [33, 6, 41, 250], [41, 16, 250, 1], [1, 41, 15, 2], [12, 12, 16, 33]];
            let kind = *ctx.pick(&kinds);
            let mut o = envelope(0);
            o[2..4].copy_from_slice(&word.to_be_bytes());
            o[0..2].copy_from_slice(&(*ctx.pick(&[7u16, 0, 0xffff])).to_be_bytes());
            let mut starts = vec![];
            for (i, t) in kind.iter().enumerate() {
                // one answer, one authority, two additional
                let c = 7 + 2 * i.min(2);
                o[c] += 1;
                starts.push(o.len());
                let rd = templates(*t)[0].clone();
                rr_head(&mut o, *t, rd.len());
                o.extend(rd);
            }
            match ctx.choose(7) {
                0 => {}
                1 => {
                    let k = ctx.choose(o.len());
                    o.truncate(k);
                }
                2 => {
                    let c = 5 + 2 * ctx.choose(4);
                    o[c] = *ctx.pick(&[0u8, 1, 2, 3, 4, 9]);
                }
                3 => {
                    // RDLENGTH of one record
                    let s = starts[ctx.choose(4)];
                    let v = *ctx.pick(&[0u8, 1, 2, 3, 4, 5, 16, 32, 64, 128, 255]);
                    o[s + 11] = v;
                }
                4 => {
                    // a type nobody knows
                    let s = starts[ctx.choose(4)];
                    o[s + 2] = *ctx.pick(&[0xffu8, 0x40]);
                }
                5 => {
                    // an owner that cannot be read
                    let s = starts[ctx.choose(4)];
                    let v = *ctx.pick(&[[0xffu8, 0xff], [0x80, 12], [63, 1], [0xc0, 0xf0]]);
                    o[s..s + 2].copy_from_slice(&v);
                }
                _ => o.extend(vec![0u8; 1 + ctx.choose(12)]),
            }
            o
        }
        // every octet of every template replaced by every value
        "subst" => {
            let t = *ctx.pick(rtypes());
            let mut rd = ctx.pick(templates(t)).clone();
            if !rd.is_empty() {
                let i = ctx.choose(rd.len());
                rd[i] = ctx.choose(256) as u8;
            }
            let l = rd.len();
            msg(t, &rd, l, &[])
        }
        // every truncation of every template message, at every octet of the record; RDLENGTH kept or adapted
        "trunc" => {
            let t = *ctx.pick(rtypes());
            let rd = ctx.pick(templates(t)).clone();
            if ctx.flag() {
                let k = ctx.choose(rd.len() + 1);
                let tail = if ctx.flag() { &b"\x03abc\x00\xc0\x0c\xff\xff\x01"[..] } else { &[] };
                msg(t, &rd[..k], k, tail)
            } else {
                let o = msg(t, &rd, rd.len(), &[]);
                let k = ctx.choose(o.len() + 1);
                o[..k].to_vec()
            }
        }
        // every pair of octets over a boundary alphabet
        "pairsub" => {
            let t = *ctx.pick(rtypes());
            let all = templates(t);
            let mut rd = all[ctx.choose(all.len().min(if ctx.thorough { 40 } else { 4 }))].clone();
            let cap = if ctx.thorough { 48 } else { 22 };
            let w = rd.len().min(cap);
            let alpha = if ctx.thorough { BYTES } else { BYTES_FEW };
            if w >= 2 {
                let i = ctx.choose(w - 1);
                let j = i + 1 + ctx.choose(w - 1 - i);
                rd[i] = *ctx.pick(alpha);
                rd[j] = *ctx.pick(alpha);
            }
            let l = rd.len();
            msg(t, &rd, l, &[0, 0, 1, 0, 1])
        }
        // one octet inserted or removed anywhere
        "insdel" => {
            let t = *ctx.pick(rtypes());
            let mut rd = ctx.pick(templates(t)).clone();
            if ctx.flag() {
                let i = ctx.choose(rd.len() + 1);
                rd.insert(i, *ctx.pick(BYTES));
            } else if !rd.is_empty() {
                let i = ctx.choose(rd.len());
                rd.remove(i);
            }
            let l = rd.len();
            msg(t, &rd, l, &[])
        }
        // RDLENGTH does not match the data; what follows varies
        "rdlen" => {
            let t = *ctx.pick(rtypes());
            let rd = ctx.pick(templates(t)).clone();
            let l = ctx.choose(rd.len() + 12);
            let tails: [&[u8]; 5] = [&[], &[0; 11], b"\x03abc\x00\x00\x01\x00\x01\x00\x00", &[0xC0, 0x0C, 0, 1, 0, 1, 0, 0, 0, 0, 0, 4], &[0xff; 12]];
            let tail = *ctx.pick(&tails);
            msg(t, &rd, l, tail)
        }
        // all short data strings over the boundary alphabet
        "short" => {
            let t = *ctx.pick(rtypes());
            let k = ctx.choose(if ctx.thorough { 6 } else { 5 });
            let alpha = if k <= 3 { BYTES } else { BYTES_FEW };
            let rd: Vec<u8> = (0..k).map(|_| *ctx.pick(alpha)).collect();
            msg(t, &rd, k, &[])
        }
        // all one- and two-octet data strings
        "shortall" => {
            let t = *ctx.pick(rtypes());
            let k = ctx.choose(3);
            let rd: Vec<u8> = (0..k).map(|_| ctx.choose(256) as u8).collect();
            msg(t, &rd, k, &[])
        }
        // counts against bodies, every type number, every class word
        "hdr" => match ctx.choose(5) {
            0 => {
                // counts x body
                let mut o = envelope(0);
                for i in 0..4 {
                    let c = *ctx.pick(&[0u16, 1, 2, 3, 255, 256, 65535]);
                    o[4 + 2 * i..6 + 2 * i].copy_from_slice(&c.to_be_bytes());
                }
                let k = ctx.choose(4);
                for _ in 0..k {
                    rr_head(&mut o, 1, 4);
                    o.extend([1, 2, 3, 4]);
                }
                o
            }
            1 => {
                let k = ctx.choose(13);
                envelope(1)[..k].to_vec()
            }
            2 => {
                let t = ctx.choose(65536) as u16;
                let mut o = envelope(1);
                rr_head(&mut o, t, 4);
                o.extend([0, 1, 0, 0]);
                o
            }
            3 => {
                let mut o = envelope(0);
                let p = o.len() - 4;
                let v = (ctx.choose(65536) as u16).to_be_bytes();
                let q = ctx.choose(2) * 2;
                o[p + q..p + q + 2].copy_from_slice(&v);
                o
            }
            _ => {
                let t = *ctx.pick(&[1u16, 41]);
                let c = ctx.choose(65536) as u16;
                let mut o = envelope(1);
                let p = o.len() + 4;
                rr_head(&mut o, t, 4);
                o[p..p + 2].copy_from_slice(&c.to_be_bytes());
                o.extend([0, 1, 0, 0]);
                o
            }
        },
        // three records in three sections, the middle one arbitrary
        "follow" => {
            let t = *ctx.pick(rtypes());
            let rd = ctx.pick(templates(t)).clone();
            let mut o = envelope(1);
            o[9] = 1;
            o[11] = 2;
            rr_head(&mut o, 2, 2);
            o.extend([0xC0, 0x10]);
            rr_head(&mut o, t, rd.len());
            o.extend_from_slice(&rd);
            let t2 = *ctx.pick(rtypes());
            let rd2 = &templates(t2)[0];
            rr_head(&mut o, t2, rd2.len());
            o.extend_from_slice(rd2);
            rr_head(&mut o, 16, 3);
            o.extend(b"\x02ok");
            o
        }
        _ => panic!("unknown raw scenario {scen}"),
    }
}
