//! DNSSEC: signatures (C16), key tags and delegation digests (C17).

use crate::bridge::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::H;
use maybe_dns::rdata::{DnsKey, Ds, Rrsig};
use maybe_dns::*;
use std::time::{Duration, UNIX_EPOCH};

struct Key {
    alg: u8,
    label: &'static str,
    private: &'static [u8],
    public: &'static [u8],
    /// prepend the uncompressed-point marker (a form the library's own tests use)
    marker: bool,
}
macro_rules! key {
    ($alg:expr, $l:expr, $f:expr, $m:expr) => {
        Key { alg: $alg, label: $l, private: include_bytes!(concat!("../keys/", $f, ".key")), public: include_bytes!(concat!("../keys/", $f, ".pub")), marker: $m }
    };
}
static KEYS: &[Key] = &[
    key!(1, "RSA_MD5", "rsa1024", false),
    key!(3, "DSA_SHA1", "dsa", false),
    key!(5, "RSA_SHA1", "rsa1024", false),
    key!(8, "RSA_SHA256", "rsa2048", false),
    key!(10, "RSA_SHA512", "rsa2048", false),
    key!(13, "ECDSA_P256", "p256", false),
    key!(14, "ECDSA_P384", "p384", false),
    key!(15, "ED25519", "ed25519", false),
    key!(16, "ED448", "ed448", false),
    key!(13, "ECDSA_P256 (marked point)", "p256", true),
    key!(14, "ECDSA_P384 (marked point)", "p384", true),
    key!(5, "RSA_SHA1 (2048 bit)", "rsa2048", false),
    key!(1, "RSA_MD5 (2048 bit)", "rsa2048", false),
];
impl Key {
    fn public(&self) -> Vec<u8> {
        let mut v = if self.marker { vec![4] } else { vec![] };
        v.extend_from_slice(self.public);
        v
    }
}
fn parse<T>(b: &[u8]) -> Result<T, DnsError>
where
    T: for<'a, 'b> TryFrom<&'a mut DnsBuffer<'b>, Error = DnsError>,
{
    T::try_from(&mut DnsBuffer::from(b))
}
/// A key as the library's API builds it; flags and protocol as given.
fn dnskey(alg: u8, public: &[u8], flags: u16, protocol: u8) -> Result<DnsKey, Violation> {
    let mut w = flags.to_be_bytes().to_vec();
    w.push(protocol);
    w.push(alg);
    w.extend_from_slice(public);
    parse(&w).map_err(|e| Violation(format!("DNSKEY of algorithm {alg} does not parse: {e:?}")))
}

/// Reference value of the key tag, RFC 4034 appendix B.
fn key_tag(wire: &[u8]) -> u16 {
    if wire[3] == 1 {
        let n = wire.len();
        return if n - 4 >= 3 { u16::from_be_bytes([wire[n - 3], wire[n - 2]]) } else { 0 };
    }
    let mut ac: u64 = 0;
    for (i, b) in wire.iter().enumerate() {
        ac += if i % 2 == 0 { (*b as u64) << 8 } else { *b as u64 };
    }
    ac += (ac >> 16) & 0xffff;
    ac as u16
}

/// The record set the signature is made for, in model values.
#[derive(Clone)]
struct Rset {
    owner: Name,
    rtype: u16,
    class: u16,
    ttl: u32,
    rds: Vec<Vec<V>>,
}
impl Rset {
    fn data(&self) -> Vec<RecordData> {
        self.rds.iter().filter_map(|r| build_rdata(self.rtype, r)).collect()
    }
    /// RR(1) | RR(2) | ... of RFC 4034 section 3.1.8.1
    fn wire(&self) -> Vec<u8> {
        let mut d: Vec<Vec<u8>> = self.rds.iter().map(|r| enc_rdata(self.rtype, r)).collect();
        d.sort();
        let mut o = vec![];
        for x in d {
            enc_name(&self.owner, &mut o);
            o.extend(self.rtype.to_be_bytes());
            o.extend(self.class.to_be_bytes());
            o.extend(self.ttl.to_be_bytes());
            o.extend((x.len() as u16).to_be_bytes());
            o.extend(x);
        }
        o
    }
}
fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut o = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            o.push(q);
        }
    }
    o
}
fn sign(ctx: &mut Ctx, k: &Key, key: &DnsKey, s: &Rset, inc: Duration, exp: Duration) -> Result<Rrsig, Violation> {
    let owner = fqdn(&s.owner);
    let data = s.data();
    let set = ResourceRecordSet::new(&owner, rtype(s.rtype).ok_or(Violation("type".into()))?, class_of(s.class, s.rtype), s.ttl, data.iter().collect());
    ctx.step();
    Rrsig::from_dnskey(key, &set, &(UNIX_EPOCH + inc), &(UNIX_EPOCH + exp), k.private).map_err(|e| Violation(format!("{}: signing failed: {e:?}", k.label)))
}
/// true = accepted, false = refused (with `false` or with an error)
fn verify(ctx: &mut Ctx, sig: &Rrsig, key: &DnsKey, owner: &Name, t: RecordType, c: RecordClass, ttl: u32, data: Vec<&RecordData>) -> Result<bool, DnsError> {
    ctx.step();
    let owner = fqdn(owner);
    sig.verify(key, &ResourceRecordSet::new(&owner, t, c, ttl, data))
}
/// Independent verification of the signature with ring, for the algorithms it knows.
fn independent(k: &Key, sig: &[u8], data: &[u8]) -> Option<bool> {
    use ring::signature::*;
    let point = || {
        let mut v = vec![4];
        v.extend_from_slice(k.public);
        v
    };
    Some(match k.alg {
        8 => RsaPublicKeyComponents { n: &k.public[4..], e: &k.public[1..4] }.verify(&RSA_PKCS1_2048_8192_SHA256, data, sig).is_ok(),
        10 => RsaPublicKeyComponents { n: &k.public[4..], e: &k.public[1..4] }.verify(&RSA_PKCS1_2048_8192_SHA512, data, sig).is_ok(),
        13 => UnparsedPublicKey::new(&ECDSA_P256_SHA256_FIXED, point()).verify(data, sig).is_ok(),
        14 => UnparsedPublicKey::new(&ECDSA_P384_SHA384_FIXED, point()).verify(data, sig).is_ok(),
        15 => UnparsedPublicKey::new(&ED25519, k.public).verify(data, sig).is_ok(),
        _ => return None,
    })
}

fn rset(t: u16, i: usize, count: usize) -> Rset {
    let d = tdom(t);
    let rds: Vec<Vec<V>> = match t {
        1 => (0..3).map(|j| vec![V::B(vec![192, 0, 2, [9, 200, 10][(i + j) % 3]])]).collect(),
        _ => {
            let mut v: Vec<Vec<V>> = vec![d.base.clone()];
            for s in d.small.iter().map(|_| ()).enumerate().map(|(f, _)| f) {
                for x in &d.small[s] {
                    let mut b = d.base.clone();
                    if s < b.len() && b[s] != *x {
                        b[s] = x.clone();
                        if v.iter().all(|y| enc_rdata(t, y) != enc_rdata(t, &b)) {
                            v.push(b);
                        }
                    }
                }
            }
            if v.len() > 1 {
                let k = i % v.len();
                v.rotate_left(k);
            }
            v
        }
    };
    Rset { owner: n("miek.example"), rtype: t, class: 1, ttl: 14400, rds: rds.into_iter().take(count).collect() }
}

pub fn c16(h: &mut H) {
    let thorough = h.run.thorough;
    // every algorithm, every record type, every order of the records
    h.explore("sign-verify", &|ctx| {
        let k = ctx.pick(KEYS);
        let flags = *ctx.pick(&[256u16, 0, 257]);
        let key = dnskey(k.alg, &k.public(), flags, 3)?;
        let mut inc = Duration::new(1293942305, 0);
        let mut exp = Duration::new(1296534305, 0);
        let s = match ctx.choose(5) {
            0 => {
                // record types
                let ts: Vec<u16> = rtypes().iter().copied().filter(|t| *t != 41).collect();
                let t = *ctx.pick(&ts);
                let c = 1 + ctx.choose(3);
                rset(t, 0, c)
            }
            1 => {
                let mut s = rset(1, ctx.choose(3), 2);
                s.owner = if ctx.flag() {
                    let c = *ctx.pick(&[5usize, 16, 64, 126, 127]);
                    (0..c).map(|i| vec![b'a' + (i % 26) as u8]).collect()
                } else {
                    ctx.pick(names_small()).clone()
                };
                s.owner.iter_mut().for_each(|l| l.make_ascii_lowercase());
                s
            }
            2 => {
                let mut s = rset(15, 0, 1);
                s.ttl = *ctx.pick(&[0, 1, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff]);
                s.class = *ctx.pick(&[1, 2, 3, 4]);
                s
            }
            3 => {
                let ts: &[u64] = &[0, 1, 999, 1000, 86400, 1293942305, 0x7fffffff, 0x80000000, 0xffffffff];
                let nanos: &[u32] = &[0, 1, 499_999_999, 500_000_000, 999_999_999];
                inc = Duration::new(*ctx.pick(ts), *ctx.pick(nanos));
                exp = Duration::new(*ctx.pick(ts), 999_999_999 - inc.subsec_nanos());
                rset(16, 0, 1)
            }
            _ => {
                // many records, one of them long
                let mut s = rset(10, 0, 1);
                let (c, sizes) = *ctx.pick(&[(4usize, [1usize, 3, 255]), (9, [1, 3, 255]), (40, [1, 3, 255]), (1, [256, 0, 0]), (3, [255, 256, 257]), (3, [300, 2, 1000]), (2, [511, 512, 0]), (2, [4096, 1, 0]), (1, [32768, 0, 0]), (2, [65535, 1, 0]), (300, [1, 3, 5])]);
                s.rds = (0..c).map(|i| { let mut b = pat(sizes[i % 3], i as u8); if i > 255 { b[0] = 0; b.extend([1, i as u8]); } vec![V::B(b)] }).collect();
                s
            }
        };
        let sig = sign(ctx, k, &key, &s, inc, exp)?;
        // the fields of the signature, from its wire form
        let mut e = s.rtype.to_be_bytes().to_vec();
        e.push(k.alg);
        e.push(s.owner.len() as u8);
        e.extend(s.ttl.to_be_bytes());
        e.extend((exp.as_secs() as u32).to_be_bytes());
        e.extend((inc.as_secs() as u32).to_be_bytes());
        let tag = key_tag(&key.to_bytes());
        e.extend(tag.to_be_bytes());
        enc_name(&s.owner, &mut e);
        let got = sig.to_bytes();
        ctx.state(&(k.label, &e, flags, s.wire()));
        ctx.note(|| format!("{} {} records of {} rrsig {}", k.label, s.rds.len(), tname(s.rtype), hex(&got)));
        ensure!(got.len() >= e.len() && got[..e.len()] == e[..], "{}: signature record {} does not carry {}", k.label, hex(&got), hex(&e));
        ensure!(&got[e.len()..] == sig.signature() && !sig.signature().is_empty(), "{}: signature octets missing", k.label);
        ensure!(sig.key_tag() == tag, "{}: key tag {} instead of {tag}", k.label, sig.key_tag());
        let mut input = e.clone();
        input.extend(s.wire());
        if let Some(ok) = independent(k, sig.signature(), &input) {
            ensure!(ok, "{}: signature is not over RRSIG fields and canonical records {}", k.label, hex(&input));
        }
        let data = s.data();
        ensure!(data.len() == s.rds.len(), "records cannot be built");
        let orders = if data.len() <= 3 { permutations(data.len()) } else { vec![(0..data.len()).collect(), (0..data.len()).rev().collect()] };
        let again: Rrsig = parse(&got).map_err(|x| Violation(format!("own signature record does not parse: {x:?}")))?;
        for o in orders {
            let v: Vec<&RecordData> = o.iter().map(|i| &data[*i]).collect();
            for (what, r) in [("made", &sig), ("re-read", &again)] {
                match verify(ctx, r, &key, &s.owner, rtype(s.rtype).unwrap(), class_of(s.class, s.rtype), s.ttl, v.clone()) {
                    Ok(true) => {}
                    x => return fail(format!("{}: {what} signature does not verify for the signed records in order {o:?}: {x:?}", k.label)),
                }
            }
        }
        ctx.outcome(k.label);
        Ok(())
    });
    // nothing else verifies: one deviation from a good signature
    h.explore("tamper", &|ctx| {
        let k = ctx.pick(&KEYS[..11]);
        let key = dnskey(k.alg, &k.public(), 256, 3)?;
        let variant = ctx.choose(2);
        let s = if variant == 0 { rset(1, 0, 3) } else { rset(15, 0, 2) };
        // signing is deterministic for all algorithms but ECDSA
        let sig = signed(k, &key, &s, variant, ctx)?;
        let wire = sig.to_bytes();
        let fixed = wire.len() - sig.signature().len();
        let data = s.data();
        let refs: Vec<&RecordData> = data.iter().collect();
        let (t, c) = (rtype(s.rtype).unwrap(), class_of(s.class, s.rtype));
        let kind = ctx.choose(7);
        let masks: &[u8] = if thorough { &[1, 2, 4, 8, 16, 32, 64, 128, 255] } else { &[1, 128] };
        let r = match kind {
            0 => {
                // octets of the signature
                let i = ctx.choose(wire.len() - fixed);
                let m = *ctx.pick(masks);
                let mut w = wire.clone();
                w[fixed + i] ^= m;
                ctx.note(|| format!("{}: signature octet {i} xor {m:02x}", k.label));
                let Ok(r) = parse::<Rrsig>(&w) else { return Ok(()) };
                verify(ctx, &r, &key, &s.owner, t, c, s.ttl, refs)
            }
            1 => {
                // length of the signature
                let l = ctx.choose(wire.len() - fixed + 3);
                let mut w = wire.clone();
                if l == wire.len() - fixed {
                    return Ok(());
                }
                w.resize(fixed + l, 0);
                ctx.note(|| format!("{}: signature cut or extended to {l} octets", k.label));
                let Ok(r) = parse::<Rrsig>(&w) else { return Ok(()) };
                verify(ctx, &r, &key, &s.owner, t, c, s.ttl, refs)
            }
            2 => {
                // covered fields: every bit
                let i = ctx.choose(fixed);
                let m = 1u8 << ctx.choose(8);
                let mut w = wire.clone();
                w[i] ^= m;
                let Ok(r) = parse::<Rrsig>(&w) else {
                    ctx.outcome("unparsable");
                    return Ok(());
                };
                ctx.note(|| format!("{}: RRSIG octet {i} xor {m:02x}", k.label));
                if r.to_bytes().eq_ignore_ascii_case(&wire) && i >= 18 {
                    return Ok(()); // names differing in case only: not claimed
                }
                verify(ctx, &r, &key, &s.owner, t, c, s.ttl, refs)
            }
            3 => {
                // public key: every octet, then octets taken off or put on either end
                let p = k.public();
                let mut p2 = p.clone();
                if ctx.flag() {
                    let (from, by) = (ctx.choose(4), 1 + ctx.choose(3));
                    match from {
                        0 => p2.truncate(p.len() - by),
                        // the mark in front of a point may be left out
                        1 if by == 1 && (p.len() == 65 || p.len() == 97) && p[0] == 4 => return Ok(()),
                        1 => {
                            p2.drain(..by);
                        }
                        // an RSA key may write its exponent length in three octets
                        2 if k.alg < 12 && k.alg != 3 => return Ok(()),
                        2 => {
                            p2.splice(..0, vec![0u8; by]);
                        }
                        // DSA keys say how long they are: octets after Y are not part of the key
                        _ if k.alg == 3 => return Ok(()),
                        _ => {
                            let o = *ctx.pick(&[0u8, 1, 255]);
                            p2.extend(vec![o; by])
                        }
                    }
                    ctx.note(|| format!("{}: public key of {} instead of {} octets", k.label, p2.len(), p.len()));
                } else {
                    let i = ctx.choose(p.len());
                    let m = *ctx.pick(masks);
                    p2[i] ^= m;
                    ctx.note(|| format!("{}: public key octet {i} xor {m:02x}", k.label));
                }
                let key2 = dnskey(k.alg, &p2, 256, 3)?;
                verify(ctx, &sig, &key2, &s.owner, t, c, s.ttl, refs)
            }
            4 => {
                // owner, type, class
                match ctx.choose(4) {
                    0 => {
                        let mut o = s.owner.clone();
                        let l = ctx.choose(o.len());
                        let i = ctx.choose(o[l].len());
                        let m = 1u8 << ctx.choose(8);
                        o[l][i] ^= m;
                        if o[l].eq_ignore_ascii_case(&s.owner[l]) {
                            return Ok(());
                        }
                        ctx.note(|| format!("{}: owner {}", k.label, show_name(&o)));
                        verify(ctx, &sig, &key, &o, t, c, s.ttl, refs)
                    }
                    1 => {
                        let mut o = s.owner.clone();
                        match ctx.choose(4) {
                            0 => {
                                o.remove(0);
                            }
                            1 => {
                                o.pop();
                            }
                            2 => o.insert(0, b"x".to_vec()),
                            _ => o.push(b"x".to_vec()),
                        }
                        ctx.note(|| format!("{}: owner {}", k.label, show_name(&o)));
                        verify(ctx, &sig, &key, &o, t, c, s.ttl, refs)
                    }
                    2 => {
                        let ts: Vec<u16> = rtypes().iter().copied().filter(|x| *x != s.rtype).collect();
                        let t2 = *ctx.pick(&ts);
                        ctx.note(|| format!("{}: type {t2}", k.label));
                        verify(ctx, &sig, &key, &s.owner, rtype(t2).ok_or(Violation("type".into()))?, c, s.ttl, refs)
                    }
                    _ => {
                        let c2 = *ctx.pick(&[2u16, 3, 4, 0x0101, 0x8001, 254]);
                        ctx.note(|| format!("{}: class {c2}", k.label));
                        let c2 = if (2..5).contains(&c2) { class_of(c2, 1) } else { RecordClass::UdpPayloadSize(c2) };
                        verify(ctx, &sig, &key, &s.owner, t, c2, s.ttl, refs)
                    }
                }
            }
            5 => {
                // every bit of the data of every record
                let j = ctx.choose(s.rds.len());
                let mut b = enc_rdata(s.rtype, &s.rds[j]);
                let i = ctx.choose(b.len());
                let m = 1u8 << ctx.choose(8);
                b[i] ^= m;
                let Ok(rd) = Rd::new(&b).rdata(s.rtype) else { return Ok(()) };
                if enc_rdata(s.rtype, &rd) != b || b.eq_ignore_ascii_case(&enc_rdata(s.rtype, &s.rds[j])) && s.rtype != 1 {
                    return Ok(());
                }
                let Some(d) = build_rdata(s.rtype, &rd) else { return Ok(()) };
                let mut v = refs;
                v[j] = &d;
                ctx.note(|| format!("{}: record {j} octet {i} xor {m:02x}", k.label));
                if ctx.flag() {
                    v.reverse();
                }
                let r = verify(ctx, &sig, &key, &s.owner, t, c, s.ttl, v);
                return refused(ctx, k, r);
            }
            _ => {
                // records dropped, added, replaced
                let j = ctx.choose(s.rds.len());
                let extra = build_rdata(s.rtype, &if s.rtype == 1 { vec![V::B(vec![192, 0, 2, 77])] } else { vec![V::N(77), V::Nm(n("mx.other.example"))] }).ok_or(Violation("data".into()))?;
                let mut v = refs;
                match ctx.choose(3) {
                    0 => {
                        v.remove(j);
                    }
                    1 => v.insert(j, &extra),
                    _ => v[j] = &extra,
                }
                ctx.note(|| format!("{}: records changed at {j}", k.label));
                let r = verify(ctx, &sig, &key, &s.owner, t, c, s.ttl, v);
                return refused(ctx, k, r);
            }
        };
        ctx.state(&(k.label, variant, kind, &ctx_path(ctx)));
        refused(ctx, k, r)
    });
    // keys and signatures that make no sense are refused, not fatal
    h.explore("odd-keys", &|ctx| {
        let algs: &[u8] = &[1, 3, 5, 8, 10, 13, 14, 15, 16, 252, 253, 254];
        let alg = *ctx.pick(algs);
        let s = rset(1, 0, 1);
        let p: Vec<u8> = match ctx.choose(5) {
            0 => {
                // all short keys over a few octets
                let l = ctx.choose(5);
                (0..l).map(|_| *ctx.pick(&[0u8, 1, 3, 8, 255])).collect()
            }
            1 => {
                // RSA-like: exponent length forms, degenerate numbers
                let e: &[&[u8]] = &[&[1, 0], &[1, 1], &[1, 2], &[1, 3], &[3, 1, 0, 1], &[0, 0, 3, 1, 0, 1], &[0, 0, 0], &[0, 1, 0], &[9, 255, 255, 255, 255, 255, 255, 255, 255, 255]];
                let mut v = ctx.pick(e).to_vec();
                let l = *ctx.pick(&[0usize, 1, 2, 63, 64, 128, 256, 512, 513, 600]);
                let fill = *ctx.pick(&[0u8, 1, 2, 255]);
                v.extend(std::iter::repeat(fill).take(l));
                v
            }
            2 => {
                // DSA-like
                let t = *ctx.pick(&[0u8, 1, 7, 8, 9, 255]);
                let l = 64 + t as usize * 8;
                let q = *ctx.pick(&[0u8, 1, 255]);
                let f = *ctx.pick(&[0u8, 1, 2, 255]);
                let mut v = vec![t];
                v.extend([q; 20]);
                v.extend(std::iter::repeat(f).take(3 * l));
                let cut = *ctx.pick(&[0usize, 1, 20]);
                v.truncate(v.len() - cut);
                v
            }
            3 => {
                let l = *ctx.pick(&[31usize, 32, 33, 56, 57, 58, 63, 64, 65, 66, 95, 96, 97, 98]);
                let f = *ctx.pick(&[0u8, 1, 4, 0x7f, 0x80, 255]);
                vec![f; l]
            }
            _ => {
                // a good key of another algorithm
                let o = ctx.pick(KEYS);
                o.public()
            }
        };
        let l = *ctx.pick(&[0usize, 1, 20, 40, 41, 64, 96, 114, 128, 256, 257]);
        let f = *ctx.pick(&[0u8, 1, 255]);
        let sigbytes = vec![f; l];
        let key = dnskey(alg, &p, 256, 3)?;
        ctx.state(&(alg, &p, &sigbytes));
        ctx.note(|| format!("algorithm {alg} key {} signature {l} x {f:02x}", hex(&p)));
        let a = alg.try_into().map_err(|e: DnsError| Violation(format!("{e:?}")))?;
        let sig = Rrsig::new(RecordType::A, a, 2, s.ttl, 2, 1, 7, fqdn(&s.owner), sigbytes);
        let data = s.data();
        match verify(ctx, &sig, &key, &s.owner, RecordType::A, RecordClass::IN, s.ttl, data.iter().collect()) {
            // a degenerate RSA or Edwards key can make a constant signature valid; whatever made it so
            // is not a property of the records
            Ok(true) => ctx.outcome("accepted"),
            Ok(false) => ctx.outcome("false"),
            Err(e) => {
                ensure!(!format!("{e}").is_empty(), "empty error");
                ctx.outcome("error")
            }
        }
        // the same octets as a private key
        let owner = fqdn(&s.owner);
        let set = ResourceRecordSet::new(&owner, RecordType::A, RecordClass::IN, s.ttl, data.iter().collect());
        if l == 0 && f == 0 {
            ctx.step();
            if Rrsig::from_dnskey(&key, &set, &UNIX_EPOCH, &UNIX_EPOCH, &p).is_err() {
                ctx.outcome("no-private-key");
            }
            let before = UNIX_EPOCH - Duration::from_secs(1);
            for (i, e) in [(before, UNIX_EPOCH), (UNIX_EPOCH, before)] {
                ctx.step();
                ensure!(Rrsig::from_dnskey(&key, &set, &i, &e, &p).is_err(), "a time before the epoch is accepted");
            }
        }
        Ok(())
    });
    // a key of one algorithm never signs or verifies for another
    h.explore("cross-algorithm", &|ctx| {
        let k = ctx.pick(&KEYS[..11]);
        let algs: Vec<u8> = [1u8, 3, 5, 8, 10, 13, 14, 15, 16, 252, 253, 254].into_iter().filter(|a| *a != k.alg).collect();
        let other = *ctx.pick(&algs);
        let s = rset(1, 0, 2);
        let key = dnskey(k.alg, &k.public(), 256, 3)?;
        let sig = signed(k, &key, &s, 2, ctx)?;
        let key2 = dnskey(other, &k.public(), 256, 3)?;
        let data = s.data();
        ctx.state(&(k.label, other));
        ctx.note(|| format!("{} signature, key relabelled {other}", k.label));
        let r = verify(ctx, &sig, &key2, &s.owner, RecordType::A, RecordClass::IN, s.ttl, data.iter().collect());
        refused(ctx, k, r)?;
        // and the signature relabelled as well
        let mut w = sig.to_bytes();
        w[2] = other;
        let Ok(sig2) = parse::<Rrsig>(&w) else { return Ok(()) };
        let r = verify(ctx, &sig2, &key2, &s.owner, RecordType::A, RecordClass::IN, s.ttl, data.iter().collect());
        refused(ctx, k, r)
    });
}
fn ctx_path(ctx: &Ctx) -> u64 {
    ctx.path_hash()
}
fn refused(ctx: &mut Ctx, k: &Key, r: Result<bool, DnsError>) -> Res {
    match r {
        Ok(true) => fail(format!("{}: verification accepts what was not signed", k.label)),
        Ok(false) => {
            ctx.outcome("false");
            Ok(())
        }
        Err(_) => {
            ctx.outcome("error");
            Ok(())
        }
    }
}
/// Signatures are made once per thread and key: tampering starts from the same good signature.
fn signed(k: &'static Key, key: &DnsKey, s: &Rset, variant: usize, ctx: &mut Ctx) -> Result<Rrsig, Violation> {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local!(static CACHE: RefCell<HashMap<(&'static str, usize), Vec<u8>>> = RefCell::new(HashMap::new()));
    if let Some(w) = CACHE.with(|c| c.borrow().get(&(k.label, variant)).cloned()) {
        return parse(&w).map_err(|e| Violation(format!("own signature record does not parse: {e:?}")));
    }
    let sig = sign(ctx, k, key, s, Duration::new(1293942305, 0), Duration::new(1296534305, 0))?;
    let data = s.data();
    let ok = verify(ctx, &sig, key, &s.owner, rtype(s.rtype).unwrap(), class_of(s.class, s.rtype), s.ttl, data.iter().collect());
    ensure!(matches!(ok, Ok(true)), "{}: good signature does not verify: {ok:?}", k.label);
    CACHE.with(|c| c.borrow_mut().insert((k.label, variant), sig.to_bytes()));
    Ok(sig)
}

const ALGS: &[u8] = &[1, 3, 5, 8, 10, 13, 14, 15, 16, 252, 253, 254];
pub fn c17(h: &mut H) {
    let thorough = h.run.thorough;
    let check = |ctx: &mut Ctx, owner: &Name, wire: Vec<u8>, dt: u8| -> Res {
        ctx.note(|| format!("owner {} DNSKEY {} digest type {dt}", show_name(owner), hex(&wire)));
        let key: DnsKey = match parse(&wire) {
            Ok(k) => k,
            Err(e) => return fail(format!("DNSKEY {} does not parse: {e:?}", hex(&wire))),
        };
        // only the flag bits the library keeps are digested
        let mut w = wire;
        w[0] &= 1;
        w[1] &= 1;
        ctx.state(&(&w, owner, dt));
        ensure!(key.to_bytes() == w, "DNSKEY encodes to {} instead of {}", hex(&key.to_bytes()), hex(&w));
        let t = dt.try_into().map_err(|e: DnsError| Violation(format!("{e:?}")))?;
        ctx.step();
        let ds = Ds::try_from_dnskey(&fqdn(owner), &key, t).map_err(|e| Violation(format!("no DS record: {e:?}")))?;
        let mut input = vec![];
        enc_name(owner, &mut input);
        input.make_ascii_lowercase();
        input.extend_from_slice(&w);
        use ring::digest::*;
        let e = digest(match dt { 1 => &SHA1_FOR_LEGACY_USE_ONLY, 2 => &SHA256, 4 => &SHA384, _ => &SHA512 }, &input);
        // RFC 4034 B.1 defines no tag for an RSA/MD5 modulus of less than 24 bits
        let defined = w[3] != 1 || w.len() >= 7;
        ensure!(!defined || ds.key_tag == key_tag(&w), "key tag {} instead of {} for {}", ds.key_tag, key_tag(&w), hex(&w));
        ensure!(ds.digest == e.as_ref(), "digest {} instead of {}", hex(&ds.digest), hex(e.as_ref()));
        let up: String = e.as_ref().iter().map(|b| format!("{b:02X}")).collect();
        ensure!(ds.hex_digest().eq_ignore_ascii_case(&up), "hex digest {} instead of {up}", ds.hex_digest());
        let mut full = ds.key_tag.to_be_bytes().to_vec();
        full.push(w[3]);
        full.push(dt);
        full.extend_from_slice(e.as_ref());
        ensure!(ds.to_bytes() == full, "DS encodes to {} instead of {}", hex(&ds.to_bytes()), hex(&full));
        ctx.outcome("ds");
        Ok(())
    };
    let head = |ctx: &mut Ctx, algs: &[u8]| -> Vec<u8> {
        let f = *ctx.pick(&[0u16, 1, 256, 257]);
        let mut w = f.to_be_bytes().to_vec();
        w.push(3);
        w.push(*ctx.pick(algs));
        w
    };
    h.explore("ds-names", &|ctx| {
        let owner = ctx.pick(names_full()).clone();
        let mut w = head(ctx, &[1, 8, 13]);
        w.extend(pat(64, 5));
        let dt = *ctx.pick(&[1u8, 2, 4, 5]);
        check(ctx, &owner, w, dt)
    });
    h.explore("ds-key-lengths", &|ctx| {
        let max = if thorough { 1100 } else { 300 };
        let mut w = head(ctx, ALGS);
        let l = ctx.choose(max);
        match ctx.choose(3) {
            0 => w.extend(pat(l, 9)),
            1 => w.extend(vec![0xff; l]),
            _ => w.extend((0..l).map(|i| if i % 2 == 0 { 0xff } else { 0 })),
        }
        let dt = *ctx.pick(&[1u8, 2, 4, 5]);
        check(ctx, &n("example.com"), w, dt)
    });
    h.explore("ds-long-keys", &|ctx| {
        let mut w = head(ctx, &[1, 5, 13]);
        let l = *ctx.pick(&[2048usize, 4096, 16383, 16384, 32767, 32768, 65530, 65531]);
        let f = *ctx.pick(&[0u8, 1, 0x80, 0xff]);
        w.extend(vec![f; l]);
        check(ctx, &n("example.com"), w, 2)
    });
    h.explore("ds-octets", &|ctx| {
        // every value of every octet position that the sum and the special case look at
        let mut w = head(ctx, &[1, 8]);
        let l = ctx.choose(6);
        let base = *ctx.pick(&[0u8, 0xff]);
        w.extend(vec![base; l]);
        if l > 0 {
            let i = ctx.choose(l);
            w[4 + i] = ctx.choose(256) as u8;
        }
        check(ctx, &n("example.com"), w, 1)
    });
    h.explore("ds-two-octets", &|ctx| {
        let mut w = vec![1, 0, 3, *ctx.pick(if thorough { ALGS } else { &[8u8, 1] })];
        w.push(ctx.choose(256) as u8);
        w.push(ctx.choose(256) as u8);
        check(ctx, &n("e"), w, 1)
    });
    h.explore("ds-flags", &|ctx| {
        let f = ctx.choose(65536) as u16;
        let mut w = f.to_be_bytes().to_vec();
        w.push(*ctx.pick(&[3u8, 0, 255]));
        w.push(*ctx.pick(&[8u8, 1]));
        w.extend(pat(9, 2));
        check(ctx, &n("example.com"), w, 1)
    });
    // the digest functions themselves, over every block-boundary length
    h.explore("digest-lengths", &|ctx| {
        use ring::digest::*;
        let l = ctx.choose(if thorough { 2200 } else { 700 });
        let data = match ctx.choose(3) {
            0 => pat(l, 3),
            1 => vec![0; l],
            _ => vec![b'A'; l],
        };
        let dt = *ctx.pick(&[1u8, 2, 4, 5]);
        ctx.step();
        ctx.state(&(&data, dt));
        let bad = |_| Violation(format!("algorithm or digest type {dt} refused"));
        let d = Ds::new(0, 8u8.try_into().map_err(bad)?, dt.try_into().map_err(bad)?, vec![]).digest_type;
        let e = digest(match dt { 1 => &SHA1_FOR_LEGACY_USE_ONLY, 2 => &SHA256, 4 => &SHA384, _ => &SHA512 }, &data);
        match d.hash_data(&data) {
            Ok(x) => ensure!(x == e.as_ref(), "digest type {dt} of {l} octets is {} instead of {}", hex(&x), hex(e.as_ref())),
            Err(e) => return fail(format!("digest type {dt} of {l} octets fails: {e}")),
        }
        ctx.outcome("digest");
        Ok(())
    });
    // the example of RFC 4034 section 5.4
    h.explore("ds-rfc-vectors", &|ctx| {
        let b64 = "AQOeiiR0GOMYkDshWoSKz9XzfwJr1AYtsmx3TGkJaNXVbfi/2pHm822aJ5iI9BMzNXxeYCmZDRD99WYwYqUSdjMmmAphXdvxegXd/M5+X7OrzKBaMbCVdFLUUh6DhweJBjEVv5f2wwjM9XzcnOf+EPbtG9DMBmADjFDc2w/rljwvFw==";
        let w = {
            let mut v = vec![1, 0, 3, 5];
            v.extend(decode64(b64));
            v
        };
        let key: DnsKey = parse(&w).map_err(|e| Violation(format!("{e:?}")))?;
        ctx.step();
        ctx.state(&w);
        ensure!(key.base64_public_key() == b64, "base64 of the key differs");
        let ds = Ds::try_from_dnskey(&FQDN::new("dskey.example.com."), &key, 1.try_into().map_err(|e: DnsError| Violation(format!("{e:?}")))?).map_err(|e| Violation(format!("{e:?}")))?;
        ensure!(ds.key_tag == 60485, "key tag {} instead of 60485", ds.key_tag);
        ensure!(ds.hex_digest() == "2BB183AF5F22588179A53B0A98631FAD1A292118", "digest {}", ds.hex_digest());
        ctx.outcome("ds");
        Ok(())
    });
}
fn decode64(s: &str) -> Vec<u8> {
    let mut o = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for c in s.bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => break,
        };
        acc = acc << 6 | v as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            o.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    o
}
