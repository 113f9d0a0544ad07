//! Model values <-> values of the crate, through the public API only.

use crate::model::*;
use maybe_dns::rdata::*;
use maybe_dns::*;
use std::collections::{BTreeSet, HashMap};
use std::net::{Ipv4Addr, Ipv6Addr};

pub fn fqdn(n: &Name) -> FQDN {
    FQDN::from(n.clone())
}
pub fn unname(f: &FQDN) -> Name {
    f.iter().cloned().collect()
}
fn v4(b: &[u8]) -> Ipv4Addr {
    Ipv4Addr::new(b[0], b[1], b[2], b[3])
}
fn v6(b: &[u8]) -> Ipv6Addr {
    let mut a = [0u8; 16];
    a.copy_from_slice(b);
    Ipv6Addr::from(a)
}
fn string(b: &[u8]) -> Option<String> {
    String::from_utf8(b.to_vec()).ok()
}
pub fn rtype(t: u16) -> Option<RecordType> {
    RecordType::try_from(t).ok()
}
pub fn class_of(c: u16, rtype: u16) -> RecordClass {
    if rtype == 41 {
        return RecordClass::UdpPayloadSize(c);
    }
    match c {
        1 => RecordClass::IN,
        2 => RecordClass::CS,
        3 => RecordClass::CH,
        4 => RecordClass::HS,
        n => RecordClass::UdpPayloadSize(n),
    }
}
fn types(s: &BTreeSet<u16>) -> Option<BTreeSet<RecordType>> {
    s.iter().map(|t| rtype(*t)).collect()
}
fn parsed<T>(bytes: &[u8], f: impl FnOnce(&mut DnsBuffer) -> Result<T, DnsError>) -> Option<T> {
    let mut b = DnsBuffer::from(bytes);
    f(&mut b).ok()
}

/// Builds crate record data from model values with public constructors and fields. Parts that the
/// public API can only produce by parsing (EUI-48/64, APL items, service parameters) are parsed
/// from their own reference encoding in isolation. `None`: not representable.
pub fn build_rdata(t: u16, rd: &[V]) -> Option<RecordData> {
    Some(match t {
        1 => RecordData::A(A::new(v4(rd[0].b()))),
        2 => RecordData::NS(Ns::new(fqdn(rd[0].nm()))),
        5 => RecordData::CNAME(Cname::new(fqdn(rd[0].nm()))),
        6 => RecordData::SOA(Soa::new(fqdn(rd[0].nm()), fqdn(rd[1].nm()), rd[2].n() as u32, rd[3].n() as u32, rd[4].n() as u32, rd[5].n() as u32, rd[6].n() as u32)),
        10 => RecordData::NULL(Null::new(rd[0].b().clone())),
        11 => RecordData::WKS(Wks::new(v4(rd[0].b()), rd[1].n() as u8, rd[2].b().clone())),
        12 => RecordData::PTR(Ptr::new(fqdn(rd[0].nm()))),
        13 => RecordData::HINFO(Hinfo::new(rd[0].b().clone(), rd[1].b().clone())),
        14 => RecordData::MINFO(Minfo::new(fqdn(rd[0].nm()), fqdn(rd[1].nm()))),
        15 => RecordData::MX(Mx::new(rd[0].n() as u16, fqdn(rd[1].nm()))),
        16 => RecordData::TXT(Txt::new(rd[0].l().iter().map(|s| string(s)).collect::<Option<_>>()?)),
        28 => RecordData::AAAA(Aaaa::new(v6(rd[0].b()))),
        29 => RecordData::LOC(Loc {
            version: rd[0].n() as u8,
            size: rd[1].n() as u8,
            horiz_pre: rd[2].n() as u8,
            vert_pre: rd[3].n() as u8,
            latitude: rd[4].n() as u32,
            longitude: rd[5].n() as u32,
            altitude: rd[6].n() as u32,
        }),
        33 => RecordData::SRV(Srv::new(rd[0].n() as u16, rd[1].n() as u16, rd[2].n() as u16, fqdn(rd[3].nm()))),
        35 => {
            let flags = rd[2]
                .b()
                .iter()
                .map(|c| match c {
                    b'S' => Some(naptr::Flag::S),
                    b'A' => Some(naptr::Flag::A),
                    b'U' => Some(naptr::Flag::U),
                    b'P' => Some(naptr::Flag::P),
                    _ => None,
                })
                .collect::<Option<Vec<_>>>()?;
            RecordData::NAPTR(Naptr::new(rd[0].n() as u16, rd[1].n() as u16, flags, rd[3].b().clone(), string(rd[4].b())?, fqdn(rd[5].nm())))
        }
        41 => RecordData::OPT(Opt(rd[0].m().iter().map(|(k, v)| (*k, v.clone())).collect::<HashMap<_, _>>())),
        42 => {
            let mut a = parsed(&enc_rdata(42, &[rd[0].clone(), V::N(0), V::N(0), rd[3].clone()]), |b| Apl::try_from(b))?;
            a.prefix = rd[1].n() as u8;
            a.n = rd[2].n() != 0;
            RecordData::APL(a)
        }
        44 => RecordData::SSHFP(Sshfp::new((rd[0].n() as u8).try_into().ok()?, if rd[1].n() == 0 { sshfp::FingerprintType::Reserved } else { sshfp::FingerprintType::SHA1 }, rd[2].b().clone())),
        45 => RecordData::IPSECKEY(IpSecKey {
            precedence: rd[0].n() as u8,
            algorithm: alg(rd[2].n() as u8)?,
            gateway: match rd[1].n() {
                0 => ipseckey::Gateway::None,
                1 => ipseckey::Gateway::IpV4(v4(rd[3].b())),
                2 => ipseckey::Gateway::IpV6(v6(rd[3].b())),
                _ => ipseckey::Gateway::Domain(fqdn(rd[3].nm())),
            },
            public_key: rd[4].b().clone(),
        }),
        49 => RecordData::DHCID(Dhcid {
            identifier_code: match rd[0].n() {
                0 => dhcid::IdentifierType::ChaddrOfDhcpRequest,
                1 => dhcid::IdentifierType::ClientIdentifierOption,
                _ => dhcid::IdentifierType::DUID,
            },
            digest: rd[2].b().clone(),
        }),
        52 => RecordData::TLSA(Tlsa::new(
            match rd[0].n() {
                0 => tlsa::CertUsage::Ca,
                1 => tlsa::CertUsage::ServiceCertificateConstraint,
                2 => tlsa::CertUsage::TrustAnchor,
                _ => tlsa::CertUsage::DomainIssuedCertificate,
            },
            if rd[1].n() == 0 { tlsa::Selector::Full } else { tlsa::Selector::SubjectPublicKeyInfo },
            match rd[2].n() {
                0 => tlsa::MatchingType::ExactMatch,
                1 => tlsa::MatchingType::SHA256,
                _ => tlsa::MatchingType::SHA512,
            },
            rd[3].b().clone(),
        )),
        55 => RecordData::HIP(Hip {
            public_key_algorithm: alg(rd[0].n() as u8)?,
            hit: rd[1].b().clone(),
            public_key: rd[2].b().clone(),
            rendevous_server: match &rd[3] {
                V::LN(l) if !l.is_empty() => Some(l.iter().map(fqdn).collect()),
                _ => None,
            },
        }),
        61 => RecordData::OPENPGPKEY(OpenPgpKey(rd[0].b().clone())),
        62 => RecordData::CSYNC(Csync::new(rd[0].n() as u32, (rd[1].n() as u16).try_into().ok()?, types(rd[2].s())?)),
        64 => {
            let mut s = Svcb { priority: rd[0].n() as u16, target_name: fqdn(rd[1].nm()), params: BTreeSet::new() };
            for (k, v) in rd[2].m() {
                let mut one = vec![];
                one.extend(k.to_be_bytes());
                one.extend((v.len() as u16).to_be_bytes());
                one.extend(v);
                let mut buf = DnsBuffer::from(one.as_slice());
                s.params.insert((&mut buf).try_into().ok()?);
            }
            RecordData::SVCB(s)
        }
        108 => RecordData::EUI48(parsed(rd[0].b(), |b| Eui48::try_from(b))?),
        109 => RecordData::EUI64(parsed(rd[0].b(), |b| Eui64::try_from(b))?),
        249 => RecordData::TKEY(Tkey {
            algorithm: fqdn(rd[0].nm()),
            inception: rd[1].n() as u32,
            expiration: rd[2].n() as u32,
            mode: match rd[3].n() as u16 {
                1 => tkey::Mode::ServerAssignment,
                2 => tkey::Mode::DiffieHellmanExchange,
                3 => tkey::Mode::GssApiNegotiation,
                4 => tkey::Mode::ResolverAssignment,
                5 => tkey::Mode::KeyDeletion,
                n => tkey::Mode::Available(n),
            },
            error: match rd[4].n() as u16 {
                0 => tkey::Error::None,
                16 => tkey::Error::BadSig,
                17 => tkey::Error::BadKey,
                18 => tkey::Error::BadTime,
                19 => tkey::Error::BadMode,
                20 => tkey::Error::BadName,
                21 => tkey::Error::BadAlg,
                n => tkey::Error::NonExtendedRcode(n),
            },
            key_data: rd[5].b().clone(),
            other_data: rd[6].b().clone(),
        }),
        250 => RecordData::TSIG(Tsig {
            algorithm: fqdn(rd[0].nm()),
            time_signed: rd[1].n(),
            fudge: rd[2].n() as u16,
            mac: rd[3].b().clone(),
            original_id: rd[4].n() as u16,
            error: match rd[5].n() {
                0 => tsig::Error::None,
                16 => tsig::Error::BadSig,
                17 => tsig::Error::BadKey,
                18 => tsig::Error::BadTime,
                _ => tsig::Error::BadTrunc,
            },
            other_data: rd[6].b().clone(),
        }),
        256 => RecordData::URI(Uri::new(rd[0].n() as u16, rd[1].n() as u16, rd[2].b().clone())),
        257 => RecordData::CAA(Caa::new(rd[0].n() & 0x80 != 0, string(rd[1].b())?, rd[2].b().clone())),
        #[cfg(feature = "dnssec")]
        43 | 59 => {
            let d = Ds::new(rd[0].n() as u16, (rd[1].n() as u8).try_into().ok()?, (rd[2].n() as u8).try_into().ok()?, rd[3].b().clone());
            if t == 43 {
                RecordData::DS(d)
            } else {
                RecordData::CDS(d)
            }
        }
        #[cfg(feature = "dnssec")]
        46 => RecordData::RRSIG(Rrsig::new(
            rtype(rd[0].n() as u16)?,
            (rd[1].n() as u8).try_into().ok()?,
            rd[2].n() as u8,
            rd[3].n() as u32,
            rd[4].n() as u32,
            rd[5].n() as u32,
            rd[6].n() as u16,
            fqdn(rd[7].nm()),
            rd[8].b().clone(),
        )),
        #[cfg(feature = "dnssec")]
        47 => RecordData::NSEC(Nsec::with_types(fqdn(rd[0].nm()), types(rd[1].s())?)),
        #[cfg(feature = "dnssec")]
        48 | 60 => {
            // the protocol octet has no setter: only 3 can be constructed, others are parsed
            let k = if rd[1].n() == 3 {
                let mut k = DnsKey::new((rd[2].n() as u8).try_into().ok()?, rd[3].b().clone());
                k.zone_key = rd[0].n() & 0x100 != 0;
                k.secure_entry_point = rd[0].n() & 1 != 0;
                k
            } else {
                parsed(&enc_rdata(48, rd), |b| DnsKey::try_from(b))?
            };
            if t == 48 {
                RecordData::DNSKEY(k)
            } else {
                RecordData::CDNSKEY(k)
            }
        }
        _ => return None,
    })
}
fn alg(n: u8) -> Option<Algorithm> {
    Some(match n {
        0 => Algorithm::Reserved,
        1 => Algorithm::RSA,
        2 => Algorithm::DSA,
        3 => Algorithm::ECDSA,
        4 => Algorithm::Ed25519,
        5 => Algorithm::Ed448,
        _ => return None,
    })
}

/// Public-field observations of record data, for the types that have them, in model values.
pub fn observe_rdata(d: &RecordData) -> Option<(u16, Vec<V>)> {
    let nm = |f: &FQDN| V::Nm(unname(f));
    Some(match d {
        RecordData::A(a) => (1, vec![V::B(a.inner().octets().to_vec())]),
        RecordData::NS(x) => (2, vec![nm(&x.nsdname)]),
        RecordData::CNAME(x) => (5, vec![nm(&x.cname)]),
        RecordData::PTR(x) => (12, vec![nm(x.inner())]),
        RecordData::SOA(s) => (6, vec![nm(&s.mname), nm(&s.rname), V::N(s.serial as u64), V::N(s.refresh as u64), V::N(s.retry as u64), V::N(s.expire as u64), V::N(s.minimum as u64)]),
        RecordData::NULL(x) => (10, vec![V::B(x.anything.clone())]),
        RecordData::WKS(x) => (11, vec![V::B(x.address.octets().to_vec()), V::N(x.protocol as u64), V::B(x.bitmap.clone())]),
        RecordData::HINFO(x) => (13, vec![V::B(x.cpu.clone()), V::B(x.os.clone())]),
        RecordData::MINFO(x) => (14, vec![nm(&x.rmailbx), nm(&x.emailbx)]),
        RecordData::MX(x) => (15, vec![V::N(x.preference as u64), nm(&x.exchange)]),
        RecordData::TXT(x) => (16, vec![V::L(x.0.iter().map(|s| s.as_bytes().to_vec()).collect())]),
        RecordData::AAAA(x) => (28, vec![V::B(x.inner().octets().to_vec())]),
        RecordData::LOC(x) => (29, [x.version as u64, x.size as u64, x.horiz_pre as u64, x.vert_pre as u64, x.latitude as u64, x.longitude as u64, x.altitude as u64].map(V::N).to_vec()),
        RecordData::SRV(x) => (33, vec![V::N(x.priority as u64), V::N(x.weight as u64), V::N(x.port as u64), nm(&x.target)]),
        RecordData::OPT(x) => (41, vec![V::M(x.0.iter().map(|(k, v)| (*k, v.clone())).collect())]),
        RecordData::APL(x) => {
            let a = x.afd_part.to_bytes();
            (42, vec![V::N(if a.len() == 4 { 1 } else { 2 }), V::N(x.prefix as u64), V::N(x.n as u64), V::B(a)])
        }
        RecordData::SSHFP(x) => (44, vec![V::N(u8::from(x.algorithm) as u64), V::N(u8::from(x.fingerprint_type) as u64), V::B(x.fingerprint.clone())]),
        RecordData::IPSECKEY(x) => {
            let (t, g) = match &x.gateway {
                ipseckey::Gateway::None => (0, V::B(vec![])),
                ipseckey::Gateway::IpV4(a) => (1, V::B(a.octets().to_vec())),
                ipseckey::Gateway::IpV6(a) => (2, V::B(a.octets().to_vec())),
                ipseckey::Gateway::Domain(n) => (3, nm(n)),
            };
            (45, vec![V::N(x.precedence as u64), V::N(t), V::N(u8::from(x.algorithm) as u64), g, V::B(x.public_key.clone())])
        }
        RecordData::DHCID(x) => (49, vec![V::N(u16::from(x.identifier_code) as u64), V::N(1), V::B(x.digest.clone())]),
        RecordData::TLSA(x) => (52, vec![V::N(u8::from(x.cert_usage) as u64), V::N(u8::from(x.selector) as u64), V::N(u8::from(x.matching_type) as u64), V::B(x.associated_data.clone())]),
        RecordData::HIP(x) => (55, vec![V::N(u8::from(x.public_key_algorithm) as u64), V::B(x.hit.clone()), V::B(x.public_key.clone()), V::LN(x.rendevous_server.iter().flatten().map(unname).collect())]),
        RecordData::OPENPGPKEY(x) => (61, vec![V::B(x.0.clone())]),
        RecordData::CSYNC(x) => (62, vec![V::N(x.soa_serial as u64), V::N(u16::from(x.flags) as u64), V::S(x.types.iter().map(|t| u16::from(*t)).collect())]),
        RecordData::SVCB(x) => {
            let mut m = std::collections::BTreeMap::new();
            for p in &x.params {
                let b = p.to_bytes();
                if b.len() < 4 || b.len() - 4 != (b[2] as usize) << 8 | b[3] as usize {
                    return Some((64, vec![V::B(b)]));
                }
                m.insert((b[0] as u16) << 8 | b[1] as u16, b[4..].to_vec());
            }
            (64, vec![V::N(x.priority as u64), nm(&x.target_name), V::M(m)])
        }
        RecordData::TKEY(x) => (249, vec![nm(&x.algorithm), V::N(x.inception as u64), V::N(x.expiration as u64), V::N(u16::from(x.mode) as u64), V::N(u16::from(x.error) as u64), V::B(x.key_data.clone()), V::B(x.other_data.clone())]),
        RecordData::TSIG(x) => (250, vec![nm(&x.algorithm), V::N(x.time_signed), V::N(x.fudge as u64), V::B(x.mac.clone()), V::N(x.original_id as u64), V::N(u16::from(x.error) as u64), V::B(x.other_data.clone())]),
        RecordData::URI(x) => (256, vec![V::N(x.priority as u64), V::N(x.weight as u64), V::B(x.target.clone())]),
        RecordData::CAA(x) => (257, vec![V::N((x.issuer_critical as u64) << 7), V::B(x.tag.as_bytes().to_vec()), V::B(x.value.clone())]),
        #[cfg(feature = "dnssec")]
        RecordData::DS(x) | RecordData::CDS(x) => (if matches!(d, RecordData::DS(_)) { 43 } else { 59 }, vec![V::N(x.key_tag as u64), V::N(u8::from(x.algorithm) as u64), V::N(u8::from(x.digest_type) as u64), V::B(x.digest.clone())]),
        #[cfg(feature = "dnssec")]
        RecordData::NSEC(x) => (47, vec![nm(&x.next_domain_name), V::S(x.types.iter().map(|t| u16::from(*t)).collect())]),
        #[cfg(feature = "dnssec")]
        RecordData::DNSKEY(x) | RecordData::CDNSKEY(x) => (
            if matches!(d, RecordData::DNSKEY(_)) { 48 } else { 60 },
            vec![V::N((x.zone_key as u64) << 8 | x.secure_entry_point as u64), V::N(x.protocol() as u64), V::N(u8::from(x.algorithm) as u64), V::B(x.public_key.clone())],
        ),
        _ => return None,
    })
}

pub fn build_question(q: &Qm) -> Option<Question> {
    #[allow(unused_mut)]
    let mut x = Question::new(fqdn(&q.name), QType::try_from(q.qtype).ok()?, QClass::try_from(q.qclass).ok()?);
    #[cfg(feature = "mdns")]
    x.set_unicast_response(q.uni);
    Some(x)
}
pub fn build_record(r: &Rm) -> Option<ResourceRecord> {
    #[allow(unused_mut)]
    let mut x = ResourceRecord::new(fqdn(&r.name), rtype(r.rtype)?, class_of(r.class, r.rtype), r.ttl, build_rdata(r.rtype, &r.rd)?);
    #[cfg(feature = "mdns")]
    x.set_cache_flush(r.flush);
    Some(x)
}
pub fn header_from(id: u16, flags: u16, counts: [u16; 4]) -> Header {
    let mut b = vec![];
    b.extend(id.to_be_bytes());
    b.extend(flags.to_be_bytes());
    for c in counts {
        b.extend(c.to_be_bytes());
    }
    Header::try_from(&mut DnsBuffer::from(b.as_slice())).unwrap_or_default()
}
/// Builds the packet with the adders; header flags are installed first.
pub fn build_packet(m: &Msg) -> Option<Packet> {
    let mut p = Packet::default();
    p.set_header(header_from(m.id, m.flags, [0; 4]));
    for q in &m.qs {
        p.add_question(build_question(q)?);
    }
    for r in &m.secs[0] {
        p.add_answer(build_record(r)?);
    }
    for r in &m.secs[1] {
        p.add_authority(build_record(r)?);
    }
    for r in &m.secs[2] {
        p.add_additional(build_record(r)?);
    }
    Some(p)
}

/// Compares a question / record / packet with the model through accessors. Returns a description of
/// the first difference.
pub fn diff_question(q: &Question, m: &Qm) -> Option<String> {
    if unname(q.name()) != m.name {
        return Some(format!("question name {:?} != {}", q.name(), show_name(&m.name)));
    }
    if u16::from(*q.query_type()) != m.qtype {
        return Some(format!("question type {:?} != {}", q.query_type(), m.qtype));
    }
    if u16::from(*q.class()) != m.qclass {
        return Some(format!("question class {:?} != {}", q.class(), m.qclass));
    }
    #[cfg(feature = "mdns")]
    if q.unicast_response() != m.uni {
        return Some(format!("unicast-response {} != {}", q.unicast_response(), m.uni));
    }
    None
}
pub fn diff_rdata(d: &RecordData, t: u16, rd: &[V]) -> Option<String> {
    if let Some((ot, o)) = observe_rdata(d) {
        if ot != t || o != rd {
            return Some(format!("{} data {:?} != {:?}", tname(t), short(&(ot, &o)), short(&rd)));
        }
    }
    match build_rdata(t, rd) {
        Some(b) if &b != d => Some(format!("{} data not equal to the value built from the same fields: {} != {}", tname(t), short(d), short(&b))),
        None => Some(format!("{} value not constructible", tname(t))),
        _ => None,
    }
}
pub fn short<T: std::fmt::Debug + ?Sized>(v: &T) -> String {
    let s = format!("{v:?}");
    if s.len() > 700 {
        let mut i = 700;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        format!("{}..", &s[..i])
    } else {
        s
    }
}
pub fn diff_record(r: &ResourceRecord, m: &Rm) -> Option<String> {
    if unname(r.name()) != m.name {
        return Some(format!("record name {} != {}", short(r.name()), show_name(&m.name)));
    }
    if u16::from(*r.record_type()) != m.rtype {
        return Some(format!("record type {:?} != {}", r.record_type(), m.rtype));
    }
    if u16::from(*r.class()) != m.class || *r.class() != class_of(m.class, m.rtype) {
        return Some(format!("class of {} record {:?} != {}", tname(m.rtype), r.class(), m.class));
    }
    if r.time_to_live() != m.ttl {
        return Some(format!("ttl {} != {}", r.time_to_live(), m.ttl));
    }
    #[cfg(feature = "mdns")]
    if r.cache_flush() != m.flush {
        return Some(format!("cache-flush {} != {}", r.cache_flush(), m.flush));
    }
    diff_rdata(r.data(), m.rtype, &m.rd)
}
pub fn diff_packet(p: &Packet, m: &Msg) -> Option<String> {
    if p.id() != m.id {
        return Some(format!("id {} != {}", p.id(), m.id));
    }
    let hb = p.header().to_bytes();
    if hb.len() != 12 || hb[2..4] != m.flags.to_be_bytes() {
        return Some(format!("header {} does not carry flags {:04x}", hex(&hb), m.flags));
    }
    let secs: [(&str, &[ResourceRecord]); 3] = [("answer", p.answers()), ("authority", p.authorities()), ("additional", p.additionals())];
    if p.questions().len() != m.qs.len() {
        return Some(format!("{} questions != {}", p.questions().len(), m.qs.len()));
    }
    for (q, mq) in p.questions().iter().zip(&m.qs) {
        if let Some(d) = diff_question(q, mq) {
            return Some(d);
        }
    }
    for (i, (n, s)) in secs.iter().enumerate() {
        if s.len() != m.secs[i].len() {
            return Some(format!("{} records in {n} section != {}", s.len(), m.secs[i].len()));
        }
        for (r, mr) in s.iter().zip(&m.secs[i]) {
            if let Some(d) = diff_record(r, mr) {
                return Some(format!("{n}: {d}"));
            }
        }
    }
    None
}
