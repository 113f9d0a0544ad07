//! Properties of the value types themselves: they hold what they are given (C24) and compare by
//! content (C25).

use crate::bridge::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::H;
use maybe_dns::rdata::*;
use maybe_dns::*;

// ------------------------------------------------------------------ C24: values hold what they are given
/// A record and what it must hold. `dt` is the type of the data, which may differ from the record
/// type while an edit is under way.
#[derive(Clone)]
struct Rs {
    r: ResourceRecord,
    m: Rm,
    dt: u16,
}
fn check_record(s: &Rs) -> Res {
    let (r, m) = (&s.r, &s.m);
    ensure!(unname(r.name()) == m.name, "name {} instead of {}", short(r.name()), show_name(&m.name));
    ensure!(u16::from(*r.record_type()) == m.rtype, "type {:?} instead of {}", r.record_type(), tname(m.rtype));
    ensure!(u16::from(*r.class()) == m.class, "class {:?} instead of {}", r.class(), m.class);
    ensure!(r.time_to_live() == m.ttl, "time to live {} instead of {}", r.time_to_live(), m.ttl);
    #[cfg(feature = "mdns")]
    ensure!(r.cache_flush() == m.flush, "cache-flush {} instead of {}", r.cache_flush(), m.flush);
    if let Some(d) = diff_rdata(r.data(), s.dt, &m.rd) {
        return fail(d);
    }
    let raw = enc_rdata(s.dt, &m.rd);
    ensure!(r.data_raw() == raw, "data_raw {} instead of {}", hex(&r.data_raw()), hex(&raw));
    ensure!(r.clone().take_data() == *r.data(), "take_data hands out other data than the record holds");
    // complete records: equal to a fresh one, on the wire as well
    if s.dt == m.rtype && !(m.rtype == 41 && m.flush) {
        let mut want = vec![];
        enc_record(m, &mut want);
        let b = r.to_bytes();
        ensure!(b == want, "record is emitted as {} instead of {}", hex(&b), hex(&want));
        let mut p = Packet::new_query(1, false);
        p.add_answer(r.clone());
        let c = p.to_bytes_compressed();
        let mut rd = Rd::new(&c);
        match message(&mut rd) {
            Ok(x) => ensure!(rd.left() == 0 && x.secs[0] == [m.clone()], "record is emitted compressed as {}", hex(&c)),
            Err(_) => return fail(format!("record is emitted compressed as {}", hex(&c))),
        }
        // a class word below 5 on an OPT record can be given as a class or as a payload size
        if m.rtype != 41 || matches!(r.class(), RecordClass::UdpPayloadSize(_)) {
            let f = build_record(m);
            ensure!(f.as_ref() == Some(r), "record is not equal to one built from the same content: {} / {}", short(r), short(&f));
        }
    }
    Ok(())
}
const DT: [u16; 6] = [1, 2, 41, 16, 15, 64];
fn rec_names() -> [Name; 4] {
    [n("www.example.com"), n("example.com"), vec![], n("WWW.example.com")]
}
fn data_variant(t: u16, k: usize) -> Vec<V> {
    let d = tdom(t);
    if k == 0 {
        return d.base.clone();
    }
    // the last value that is not large: histories are about order, not about size
    static S: std::sync::OnceLock<std::collections::BTreeMap<u16, Vec<V>>> = std::sync::OnceLock::new();
    let m = S.get_or_init(|| {
        let last = |d: &TypeDom| (0..d.len()).rev().map(|i| d.get(i)).find(|r| enc_rdata(d.t, r).len() <= 64 && *r != d.base).unwrap_or_else(|| d.get(d.len() - 1));
        type_doms().iter().map(|d| (d.t, last(d))).collect()
    });
    m[&t].clone()
}
const NOPS_REC: usize = 4 + 6 + 6 + 5 + 2 + 12 + 12 + 3;
fn op_record(s: &Rs, op: usize, ctx: &mut Ctx) -> Result<Option<Rs>, Violation> {
    let mut s = s.clone();
    ctx.step();
    let mut o = op;
    macro_rules! range {
        ($n:expr) => {
            if o < $n {
                true
            } else {
                o -= $n;
                false
            }
        };
    }
    if range!(4) {
        let nm = rec_names()[o].clone();
        ctx.note(|| format!("set_name {}", show_name(&nm)));
        s.r.set_name(fqdn(&nm));
        s.m.name = nm;
    } else if range!(6) {
        ctx.note(|| format!("set_record_type {}", tname(DT[o])));
        s.r.set_record_type(rtype(DT[o]).expect("type"));
        s.m.rtype = DT[o];
    } else if range!(6) {
        let c = [RecordClass::IN, RecordClass::CS, RecordClass::CH, RecordClass::HS, RecordClass::UdpPayloadSize(0x7fff), RecordClass::UdpPayloadSize(5)][o];
        ctx.note(|| format!("set_class {c:?}"));
        s.r.set_class(c);
        s.m.class = [1, 2, 3, 4, 0x7fff, 5][o];
    } else if range!(5) {
        let t = [0u32, 1, 0x7fffffff, 0x80000000, 0xffffffff][o];
        ctx.note(|| format!("set_time_to_live {t}"));
        s.r.set_time_to_live(t);
        s.m.ttl = t;
    } else if range!(2) {
        #[cfg(not(feature = "mdns"))]
        return Ok(None);
        #[cfg(feature = "mdns")]
        {
            ctx.note(|| format!("set_cache_flush {}", o == 1));
            s.r.set_cache_flush(o == 1);
            s.m.flush = o == 1;
        }
    } else if range!(12) {
        let (t, k) = (DT[o / 2], o % 2);
        ctx.note(|| format!("set_data {} {k}", tname(t)));
        let rd = data_variant(t, k);
        s.r.set_data(build_rdata(t, &rd).expect("data"));
        s.dt = t;
        s.m.rd = rd;
    } else if range!(12) {
        let (t, k) = (DT[o / 2], o % 2);
        ctx.note(|| format!("*data_mut = {} {k}", tname(t)));
        let rd = data_variant(t, k);
        *s.r.data_mut() = build_rdata(t, &rd).expect("data");
        s.dt = t;
        s.m.rd = rd;
    } else {
        match o {
            0 => {
                ctx.note(|| "clone".into());
                s.r = s.r.clone();
            }
            1 => {
                // rebuilt from its own parts
                ctx.note(|| "rebuild from parts".into());
                #[allow(unused_mut)]
                let mut f = ResourceRecord::new(s.r.name().clone(), *s.r.record_type(), *s.r.class(), s.r.time_to_live(), s.r.data().clone());
                #[cfg(feature = "mdns")]
                {
                    ensure!(!f.cache_flush(), "a new record has cache-flush set");
                    f.set_cache_flush(s.r.cache_flush());
                }
                s.r = f;
            }
            _ => {
                // data taken out and put back
                ctx.note(|| "take_data and set_data".into());
                let d = s.r.clone().take_data();
                s.r.set_data(d);
            }
        }
    }
    check_record(&s)?;
    Ok(Some(s))
}

#[derive(Clone)]
struct Qs {
    q: Question,
    m: Qm,
}
fn check_question(s: &Qs) -> Res {
    if let Some(d) = diff_question(&s.q, &s.m) {
        return fail(d);
    }
    let mut want = vec![];
    enc_question(&s.m, &mut want);
    let b = s.q.to_bytes();
    ensure!(b == want, "question is emitted as {} instead of {}", hex(&b), hex(&want));
    ensure!(build_question(&s.m).as_ref() == Some(&s.q), "question is not equal to one built from the same content: {}", short(&s.q));
    let mut p = Packet::new_query(1, false);
    p.add_question(s.q.clone());
    let c = p.to_bytes_compressed();
    match message(&mut Rd::new(&c)) {
        Ok(x) => ensure!(x.qs == [s.m.clone()], "question is emitted compressed as {}", hex(&c)),
        Err(_) => return fail(format!("question is emitted compressed as {}", hex(&c))),
    }
    Ok(())
}
fn op_question(s: &Qs, op: usize, ctx: &mut Ctx) -> Result<Option<Qs>, Violation> {
    let mut s = s.clone();
    ctx.step();
    let qts = [1u16, 252, 255, 257, 64];
    let qcs = [1u16, 2, 3, 4, 254, 255];
    match op {
        0..=3 => {
            let nm = rec_names()[op].clone();
            ctx.note(|| format!("set_name {}", show_name(&nm)));
            s.q.set_name(fqdn(&nm));
            s.m.name = nm;
        }
        4..=8 => {
            ctx.note(|| format!("set_query_type {}", qts[op - 4]));
            s.q.set_query_type(QType::try_from(qts[op - 4]).expect("qtype"));
            s.m.qtype = qts[op - 4];
        }
        9..=14 => {
            ctx.note(|| format!("set_class {}", qcs[op - 9]));
            s.q.set_class(QClass::try_from(qcs[op - 9]).expect("qclass"));
            s.m.qclass = qcs[op - 9];
        }
        15 | 16 => {
            #[cfg(not(feature = "mdns"))]
            return Ok(None);
            #[cfg(feature = "mdns")]
            {
                ctx.note(|| format!("set_unicast_response {}", op == 16));
                s.q.set_unicast_response(op == 16);
                s.m.uni = op == 16;
            }
        }
        _ => {
            ctx.note(|| "rebuild".into());
            #[allow(unused_mut)]
            let mut f = Question::new(s.q.name().clone(), *s.q.query_type(), *s.q.class());
            #[cfg(feature = "mdns")]
            {
                ensure!(!f.unicast_response(), "a new question has unicast-response set");
                f.set_unicast_response(s.q.unicast_response());
            }
            s.q = f;
        }
    }
    check_question(&s)?;
    Ok(Some(s))
}

/// Assigns one public field in place; `false` when the field is not public.
fn set_field(d: &mut RecordData, i: usize, from: RecordData) -> bool {
    macro_rules! f {
        ($i:expr, $x:ident, $y:ident; $($f:ident),*) => {{
            let mut k = 0usize;
            $( if k == $i { $x.$f = $y.$f; return true; } k += 1; )*
            let _ = k;
            false
        }};
    }
    use RecordData as R;
    match (d, from) {
        (R::A(x), R::A(y)) => {
            *x.inner_mut() = y.into_inner();
            true
        }
        (R::AAAA(x), R::AAAA(y)) => {
            *x.inner_mut() = y.into_inner();
            true
        }
        (R::PTR(x), R::PTR(y)) => {
            *x.inner_mut() = y.into_inner();
            true
        }
        (R::NS(x), R::NS(y)) => f!(i, x, y; nsdname),
        (R::CNAME(x), R::CNAME(y)) => f!(i, x, y; cname),
        (R::SOA(x), R::SOA(y)) => f!(i, x, y; mname, rname, serial, refresh, retry, expire, minimum),
        (R::NULL(x), R::NULL(y)) => f!(i, x, y; anything),
        (R::WKS(x), R::WKS(y)) => f!(i, x, y; address, protocol, bitmap),
        (R::HINFO(x), R::HINFO(y)) => f!(i, x, y; cpu, os),
        (R::MINFO(x), R::MINFO(y)) => f!(i, x, y; rmailbx, emailbx),
        (R::MX(x), R::MX(y)) => f!(i, x, y; preference, exchange),
        (R::TXT(x), R::TXT(y)) => {
            x.0 = y.0;
            true
        }
        (R::LOC(x), R::LOC(y)) => f!(i, x, y; version, size, horiz_pre, vert_pre, latitude, longitude, altitude),
        (R::SRV(x), R::SRV(y)) => f!(i, x, y; priority, weight, port, target),
        (R::OPT(x), R::OPT(y)) => {
            // edited entry by entry: removed, added, changed
            x.0.retain(|k, _| y.0.contains_key(k));
            for (k, v) in y.0 {
                x.0.entry(k).and_modify(|o| o.clone_from(&v)).or_insert(v);
            }
            true
        }
        (R::APL(x), R::APL(y)) => match i {
            0 | 3 => {
                x.afd_part = y.afd_part;
                true
            }
            1 => {
                x.prefix = y.prefix;
                true
            }
            _ => {
                x.n = y.n;
                true
            }
        },
        (R::SSHFP(x), R::SSHFP(y)) => f!(i, x, y; algorithm, fingerprint_type, fingerprint),
        (R::IPSECKEY(x), R::IPSECKEY(y)) => f!(i, x, y; precedence, gateway, algorithm, gateway, public_key),
        // the digest type is the constant 1
        (R::DHCID(_), R::DHCID(_)) if i == 1 => true,
        (R::DHCID(x), R::DHCID(y)) => f!(i, x, y; identifier_code, digest, digest),
        (R::TLSA(x), R::TLSA(y)) => f!(i, x, y; cert_usage, selector, matching_type, associated_data),
        (R::HIP(x), R::HIP(y)) => f!(i, x, y; public_key_algorithm, hit, public_key, rendevous_server),
        (R::OPENPGPKEY(x), R::OPENPGPKEY(y)) => {
            x.0 = y.0;
            true
        }
        (R::CSYNC(x), R::CSYNC(y)) => match i {
            0 => {
                x.soa_serial = y.soa_serial;
                true
            }
            1 => {
                x.flags.set_immediate(y.flags.immediate());
                x.flags.set_soa_minimum(y.flags.soa_minimum());
                true
            }
            _ => {
                x.types.retain(|t| y.types.contains(t));
                x.types.extend(y.types);
                true
            }
        },
        (R::SVCB(x), R::SVCB(y)) => match i {
            0 => {
                x.priority = y.priority;
                true
            }
            1 => {
                x.target_name = y.target_name;
                true
            }
            _ => {
                x.params.retain(|p| y.params.contains(p));
                for p in y.params {
                    x.params.replace(p);
                }
                true
            }
        },
        (R::TKEY(x), R::TKEY(y)) => f!(i, x, y; algorithm, inception, expiration, mode, error, key_data, other_data),
        (R::TSIG(x), R::TSIG(y)) => f!(i, x, y; algorithm, time_signed, fudge, mac, original_id, error, other_data),
        (R::URI(x), R::URI(y)) => f!(i, x, y; priority, weight, target),
        (R::CAA(x), R::CAA(y)) => f!(i, x, y; issuer_critical, tag, value),
        #[cfg(feature = "dnssec")]
        (R::DS(x), R::DS(y)) | (R::CDS(x), R::CDS(y)) => f!(i, x, y; key_tag, algorithm, digest_type, digest),
        #[cfg(feature = "dnssec")]
        (R::NSEC(x), R::NSEC(y)) => match i {
            0 => {
                x.next_domain_name = y.next_domain_name;
                true
            }
            _ => {
                x.types.retain(|t| y.types.contains(t));
                x.types.extend(y.types);
                true
            }
        },
        #[cfg(feature = "dnssec")]
        (R::DNSKEY(x), R::DNSKEY(y)) | (R::CDNSKEY(x), R::CDNSKEY(y)) => match i {
            0 => {
                x.zone_key = y.zone_key;
                x.secure_entry_point = y.secure_entry_point;
                true
            }
            2 => {
                x.algorithm = y.algorithm;
                true
            }
            3 => {
                x.public_key = y.public_key;
                true
            }
            _ => false,
        },
        _ => false,
    }
}
/// Does the bridge know this part of the API? (A field that is deliberately not comparable.)
fn check_data(d: &RecordData, t: u16, rd: &[V]) -> Res {
    if let Some(x) = diff_rdata(d, t, rd) {
        return fail(x);
    }
    let want = enc_rdata(t, rd);
    let b = d.to_bytes();
    ensure!(b == want, "{} data is emitted as {} instead of {}", tname(t), hex(&b), hex(&want));
    // in a message, both forms
    let mut r = base_rr(t, n("example.com"));
    r.rd = rd.to_vec();
    let x = ResourceRecord::new(fqdn(&r.name), rtype(t).expect("type"), class_of(r.class, t), r.ttl, d.clone());
    let mut p = Packet::new_query(1, false);
    p.add_additional(x);
    for (what, b) in [("plain", p.to_bytes()), ("compressed", p.to_bytes_compressed())] {
        match message(&mut Rd::new(&b)) {
            Ok(m) => ensure!(m.secs[2] == [r.clone()], "edited {} data denotes something else in the {what} form {}", tname(t), hex(&b)),
            Err(_) => return fail(format!("edited {} data is not decodable in the {what} form {}", tname(t), hex(&b))),
        }
    }
    Ok(())
}
fn diff_field(a: &[V], b: &[V]) -> Vec<usize> {
    (0..a.len()).filter(|i| a[*i] != b[*i]).collect()
}

pub fn c24(h: &mut H) {
    let depth = if h.run.thorough { 6 } else { 4 };
    let mut init = vec![];
    for t in [1u16, 41, 15] {
        let m = base_rr(t, n("www.example.com"));
        init.push(Rs { r: build_record(&m).expect("record"), m, dt: t });
    }
    // a parsed record is edited like a built one
    {
        let m = Rm { class: 3, ttl: 0x01020304, ..base_rr(2, n("ns.example.com")) };
        let mut b = vec![];
        enc_record(&m, &mut b);
        if let Ok(r) = ResourceRecord::try_from(&mut DnsBuffer::from(b.as_slice())) {
            init.push(Rs { r, m, dt: 2 });
        }
    }
    h.bfs("record-histories", init, NOPS_REC, depth, &|s, op, ctx| op_record(s, op, ctx), &|s| hash64(&(format!("{:?}", s.r), format!("{:?}", s.m), s.dt)));

    let m = Qm { name: n("example.com"), qtype: 1, qclass: 1, uni: false };
    let mut init = vec![Qs { q: build_question(&m).expect("question"), m }];
    {
        let m = Qm { name: n("a.b"), qtype: 255, qclass: 254, uni: MDNS };
        let mut b = vec![];
        enc_question(&m, &mut b);
        if let Ok(q) = Question::try_from(&mut DnsBuffer::from(b.as_slice())) {
            init.push(Qs { q, m });
        }
    }
    h.bfs("question-histories", init, 18, depth + 2, &|s, op, ctx| op_question(s, op, ctx), &|s| hash64(&(format!("{:?}", s.q), format!("{:?}", s.m))));

    // a record turned from every type into every other type, in every order of the edits
    h.explore("retype", &|ctx| {
        let a = *ctx.pick(rtypes());
        let b = *ctx.pick(rtypes());
        let order = ctx.choose(4);
        let fl = MDNS && ctx.flag() && a != 41 && b != 41;
        let mut m = base_rr(a, n("www.example.com"));
        m.flush = fl;
        let mut s = Rs { r: build_record(&m).expect("record"), m, dt: a };
        ctx.note(|| format!("{} -> {} order {order}", tname(a), tname(b)));
        ctx.state(&(a, b, order, fl));
        let rd = data_variant(b, order % 2);
        let data = build_rdata(b, &rd).expect("data");
        let class = if b == 41 { 4096 } else { 1 };
        for i in 0..3 {
            ctx.step();
            match (i + order) % 3 {
                0 => {
                    s.r.set_record_type(rtype(b).expect("type"));
                    s.m.rtype = b;
                }
                1 if order == 3 => {
                    *s.r.data_mut() = data.clone();
                    s.m.rd = rd.clone();
                    s.dt = b;
                }
                1 => {
                    s.r.set_data(data.clone());
                    s.m.rd = rd.clone();
                    s.dt = b;
                }
                _ => {
                    s.r.set_class(class_of(class, b));
                    s.m.class = class;
                }
            }
            check_record(&s)?;
        }
        ctx.outcome("retyped");
        Ok(())
    });

    // every field of every type: constructed, edited in place, edited back
    h.explore("fields", &|ctx| {
        let d = ctx.pick(type_doms());
        let i = ctx.choose(d.len());
        let rd = d.get(i);
        ctx.note(|| format!("{} {}", tname(d.t), short(&rd)));
        ctx.state(&(d.t, &rd));
        let to = match build_rdata(d.t, &rd) {
            Some(x) => x,
            None => return fail(format!("{} value cannot be built", tname(d.t))),
        };
        ctx.step();
        check_data(&to, d.t, &rd)?;
        let base = build_rdata(d.t, &d.base).expect("base");
        let mut x = base.clone();
        let mut m = d.base.clone();
        for f in diff_field(&d.base, &rd) {
            ctx.step();
            if !set_field(&mut x, f, to.clone()) {
                ctx.outcome("private-field");
                return Ok(());
            }
            m[f] = rd[f].clone();
            if d.t == 45 || d.t == 42 {
                // the kind of gateway or address changes with its value
                m[1 - (d.t == 42) as usize] = rd[1 - (d.t == 42) as usize].clone();
                m[3] = if f == 3 || f == 1 - (d.t == 42) as usize { rd[3].clone() } else { m[3].clone() };
            }
        }
        if diff_field(&m, &rd).is_empty() {
            check_data(&x, d.t, &rd)?;
            ensure!(x == to, "{} edited in place is not equal to one constructed: {} / {}", tname(d.t), short(&x), short(&to));
            for f in diff_field(&d.base, &rd) {
                set_field(&mut x, f, base.clone());
            }
            check_data(&x, d.t, &d.base)?;
            ctx.outcome("edited");
        }
        Ok(())
    });
    // two fields edited one after the other
    h.explore("fields2", &|ctx| {
        let ds: Vec<&TypeDom> = type_doms().iter().filter(|d| d.small.len() > 1 && !matches!(d.t, 42 | 45)).collect();
        let d = *ctx.pick(&ds);
        let ps = d.pairs();
        let (mut i, mut j) = *ctx.pick(&ps);
        let mut rd = d.base.clone();
        rd[i] = ctx.pick(&d.small[i]).clone();
        rd[j] = ctx.pick(&d.small[j]).clone();
        if ctx.flag() {
            std::mem::swap(&mut i, &mut j);
        }
        ctx.state(&(d.t, i, &rd));
        ctx.note(|| format!("{} {} {}", tname(d.t), i, short(&rd)));
        let to = match build_rdata(d.t, &rd) {
            Some(x) => x,
            None => return fail(format!("{} value cannot be built", tname(d.t))),
        };
        let mut x = build_rdata(d.t, &d.base).expect("base");
        let mut m = d.base.clone();
        for f in [i, j] {
            ctx.step();
            if !set_field(&mut x, f, to.clone()) {
                ctx.outcome("private-field");
                return Ok(());
            }
            m[f] = rd[f].clone();
            check_data(&x, d.t, &m)?;
        }
        ctx.outcome("edited");
        Ok(())
    });

    // every class value, given and set, on records of several types
    h.explore("classes", &|ctx| {
        let t = *ctx.pick(&[1u16, 41, 15, 250]);
        let v = ctx.choose(65536 + 4);
        let c = match v {
            0 => RecordClass::IN,
            1 => RecordClass::CS,
            2 => RecordClass::CH,
            3 => RecordClass::HS,
            _ => RecordClass::UdpPayloadSize((v - 4) as u16),
        };
        ctx.state(&(t, v));
        ctx.step();
        let d = build_rdata(t, &tdom(t).base).expect("base");
        let rt = rtype(t).expect("type");
        let r = ResourceRecord::new(fqdn(&n("example.com")), rt, c, 7, d.clone());
        ensure!(*r.class() == c, "{} record made with class {c:?} has class {:?}", tname(t), r.class());
        let mut s = ResourceRecord::new(fqdn(&n("example.com")), rt, RecordClass::CH, 7, d);
        s.set_class(c);
        ensure!(*s.class() == c && s.time_to_live() == 7 && *s.record_type() == rt, "{} record set to class {c:?} has class {:?}", tname(t), s.class());
        ensure!(s == r, "{} record set to class {c:?} is not equal to one made with it", tname(t));
        ctx.outcome("class");
        Ok(())
    });
    // typed accessors
    h.explore("accessors", &|ctx| {
        ctx.step();
        match ctx.choose(8) {
            0 => {
                // all sequences of four flag changes of CSYNC from every start
                let mut m = ctx.choose(4) as u16;
                let mut c = Csync::new(1, if m == 0 { Default::default() } else { m.try_into().map_err(|_| Violation("valid CSYNC flags refused".into()))? }, Default::default());
                for _ in 0..4 {
                    let op = ctx.choose(4);
                    let on = op & 1 == 1;
                    if op < 2 {
                        c.flags.set_immediate(on);
                        m = m & !1 | on as u16;
                    } else {
                        c.flags.set_soa_minimum(on);
                        m = m & !2 | (on as u16) << 1;
                    }
                    ctx.step();
                    ctx.note(|| format!("flags op {op}"));
                    ensure!(c.flags.immediate() == (m & 1 != 0) && c.flags.soa_minimum() == (m & 2 != 0) && u16::from(c.flags) == m, "CSYNC flags {:?} instead of {m}", c.flags);
                }
                ctx.outcome("csync-flags");
            }
            1 => {
                let p = ctx.choose(65536) as u16;
                ctx.state(&p);
                // the mode type has no name outside: alias mode exactly for priority 0
                let mode = |p: u64| match build_rdata(64, &[V::N(p), V::Nm(n("svc.example.com")), V::M(Default::default())]) {
                    Some(RecordData::SVCB(s)) => Ok(std::mem::discriminant(&s.mode())),
                    _ => fail("SVCB cannot be built"),
                };
                ensure!((mode(p as u64)? == mode(0)?) == (p == 0), "mode of priority {p} is wrong");
                ctx.outcome("svcb-mode");
            }
            2 => {
                let t = tdom(45);
                let i = ctx.choose(t.len());
                let rd = t.get(i);
                if let Some(RecordData::IPSECKEY(k)) = build_rdata(45, &rd) {
                    ensure!(k.gateway.gateway_type() as u64 == rd[1].n(), "gateway type {} of {:?}", k.gateway.gateway_type(), k.gateway);
                }
                ctx.outcome("gateway");
            }
            3 => {
                // data knows its type (a CDS/CDNSKEY shares its structure with DS/DNSKEY)
                let t = *ctx.pick(rtypes());
                let d = build_rdata(t, &tdom(t).base).expect("base");
                let want = match t {
                    59 | 60 => return Ok(()),
                    t => t,
                };
                use RecordData as R;
                macro_rules! all {
                    ($($v:ident)*) => { match d.clone() { $( R::$v(x) => (x.record_type(), x.into_record_data()), )* #[allow(unreachable_patterns)] _ => return Ok(()) } };
                }
                #[cfg(feature = "dnssec")]
                let (rt, back) = all!(A NS CNAME SOA NULL WKS PTR HINFO MINFO MX TXT AAAA LOC SRV NAPTR OPT APL DS SSHFP IPSECKEY RRSIG NSEC DNSKEY DHCID TLSA HIP OPENPGPKEY CSYNC SVCB EUI48 EUI64 TKEY TSIG URI CAA);
                #[cfg(not(feature = "dnssec"))]
                let (rt, back) = all!(A NS CNAME SOA NULL WKS PTR HINFO MINFO MX TXT AAAA LOC SRV NAPTR OPT APL SSHFP IPSECKEY DHCID TLSA HIP OPENPGPKEY CSYNC SVCB EUI48 EUI64 TKEY TSIG URI CAA);
                ensure!(u16::from(rt) == want, "{} data calls itself {rt:?}", tname(t));
                ensure!(back == d, "{} data changes when it is wrapped: {} / {}", tname(t), short(&back), short(&d));
                ctx.outcome("self-type");
            }
            4 => {
                #[cfg(feature = "dnssec")]
                {
                    let proto = ctx.choose(256);
                    let rd = [V::N(0x101), V::N(proto as u64), V::N(8), V::B(vec![1, 2, 3])];
                    if let Some(RecordData::DNSKEY(k)) = build_rdata(48, &rd) {
                        ensure!(k.protocol() as usize == proto && k.valid_protocol() == (proto == 3), "protocol {proto} reads {} / {}", k.protocol(), k.valid_protocol());
                    } else {
                        return fail("DNSKEY cannot be built");
                    }
                    ctx.outcome("dnskey-protocol");
                }
            }
            5 => {
                #[cfg(feature = "dnssec")]
                {
                    let d = tdom(46);
                    let rd = d.get(ctx.choose(d.len()));
                    if let Some(RecordData::RRSIG(s)) = build_rdata(46, &rd) {
                        ensure!(s.key_tag() as u64 == rd[6].n() && s.signature() == rd[8].b().as_slice(), "RRSIG hands out key tag {} and signature {}", s.key_tag(), hex(s.signature()));
                    } else {
                        return fail("RRSIG cannot be built");
                    }
                    let k = Nsec::new(fqdn(rd[7].nm()));
                    ensure!(unname(&k.next_domain_name) == *rd[7].nm() && k.types.is_empty(), "new NSEC holds {}", short(&k));
                    ctx.outcome("rrsig");
                }
            }
            6 => {
                // addresses: from and to numbers, address types and text
                let four = ctx.flag();
                let len = if four { 4 } else { 16 };
                let base = ctx.choose(3);
                let mut o: Vec<u8> = (0..len).map(|i| [0, 0xff, (0x21 + 17 * i) as u8][base]).collect();
                let i = ctx.choose(len - 1);
                let k = ctx.choose(256) as u8;
                (o[i], o[i + 1]) = match ctx.choose(4) {
                    0 => (k, o[i + 1]),
                    1 => (o[i], k),
                    2 => (k, k),
                    _ => (k, !k),
                };
                ctx.state(&o);
                if four {
                    let n = u32::from_be_bytes(o[..].try_into().expect("4"));
                    let text = o.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".");
                    let a = A::from(n);
                    ensure!(a.to_bytes() == o, "A from {n:#x} holds {a:?}");
                    ensure!(a == A::from(std::net::Ipv4Addr::from(n)), "A from the address {text} differs: {a:?}");
                    ensure!(A::try_from(text.as_str()).is_ok_and(|b| b == a), "A from the text {text} differs");
                    ensure!(u32::from(a.clone()) == n, "A {a:?} as a number is {:#x}", u32::from(a.clone()));
                    for bad in [format!("{text}."), format!("{text}.1"), format!(" {text}"), text.replacen('.', "", 1).replacen('.', "", 1)] {
                        ensure!(A::try_from(bad.as_str()).is_err(), "{bad:?} is taken as an address");
                    }
                } else {
                    let n = u128::from_be_bytes(o[..].try_into().expect("16"));
                    let text = o.chunks(2).map(|x| format!("{:02x}{:02x}", x[0], x[1])).collect::<Vec<_>>().join(":");
                    let a = Aaaa::from(n);
                    ensure!(a.to_bytes() == o, "AAAA from {n:#x} holds {a:?}");
                    ensure!(a == Aaaa::from(std::net::Ipv6Addr::from(n)), "AAAA from the address {text} differs: {a:?}");
                    ensure!(Aaaa::try_from(text.as_str()).is_ok_and(|b| b == a), "AAAA from the text {text} differs");
                    ensure!(u128::from(&a) == n, "AAAA {a:?} as a number is {:#x}", u128::from(&a));
                    for bad in [format!("{text}:"), format!("{text}:1"), format!(" {text}"), text.replacen(':', "", 1)] {
                        ensure!(Aaaa::try_from(bad.as_str()).is_err(), "{bad:?} is taken as an address");
                    }
                }
                ctx.outcome("address");
            }
            _ => {
                // record sets hand out what they were given
                let t = *ctx.pick(rtypes());
                let k = ctx.choose(4);
                let nm = fqdn(&rec_names()[ctx.choose(4)]);
                let ttl = *ctx.pick(&[0u32, 1, 0x80000000, 0xffffffff]);
                let class = *ctx.pick(&[RecordClass::IN, RecordClass::HS, RecordClass::UdpPayloadSize(600)]);
                let ds: Vec<RecordData> = (0..k).map(|i| build_rdata(t, &data_variant(t, i % 2)).expect("data")).collect();
                let set = ResourceRecordSet::new(&nm, rtype(t).expect("type"), class, ttl, ds.iter().collect());
                ensure!(*set.name() == nm && u16::from(set.set_type()) == t && set.set_class() == class && set.ttl() == ttl, "record set holds other attributes: {}", short(&set));
                ensure!(set.records().len() == k && set.records().iter().zip(&ds).all(|(a, b)| *a == b), "record set holds other records");
                ctx.outcome("record-set");
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ C25: equality by content
fn low(m: &Name) -> Name {
    m.iter().map(|l| l.to_ascii_lowercase()).collect()
}
fn low_v(v: &V) -> V {
    match v {
        V::Nm(x) => V::Nm(low(x)),
        V::LN(l) => V::LN(l.iter().map(low).collect()),
        v => v.clone(),
    }
}
/// Letter case of names is left open.
fn low_rd(v: &[V]) -> Vec<V> {
    v.iter().map(low_v).collect()
}
fn low_rm(r: &Rm) -> Rm {
    Rm { name: low(&r.name), rd: low_rd(&r.rd), ..r.clone() }
}
fn low_qm(q: &Qm) -> Qm {
    Qm { name: low(&q.name), ..q.clone() }
}
fn low_msg(m: &Msg) -> Msg {
    let mut x = m.clone();
    x.qs = x.qs.iter().map(low_qm).collect();
    for s in &mut x.secs {
        *s = s.iter().map(low_rm).collect();
    }
    x
}
/// `a == b` exactly when the contents are the same; both directions, and `!=`.
fn cmp<T: PartialEq + std::fmt::Debug, M: PartialEq>(what: &str, a: &T, b: &T, ma: &M, mb: &M, la: &M, lb: &M) -> Res {
    if ma == mb {
        #[allow(clippy::nonminimal_bool)]
        let ok = a == b && b == a && !(a != b) && !(b != a);
        ensure!(ok, "{what}: same content, but not equal: {} / {}", short(a), short(b));
    } else if la != lb {
        #[allow(clippy::nonminimal_bool)]
        let ok = a != b && b != a && !(a == b) && !(b == a);
        ensure!(ok, "{what}: different content, but equal: {} / {}", short(a), short(b));
    }
    Ok(())
}
fn some<T>(o: Option<T>) -> Result<T, Violation> {
    match o {
        Some(x) => Ok(x),
        None => fail("a representable value cannot be built"),
    }
}
fn cmp_rd(t: u16, a: &[V], b: &[V]) -> Res {
    let (x, y) = (some(build_rdata(t, a))?, some(build_rdata(t, b))?);
    cmp(tname(t), &x, &y, &a.to_vec(), &b.to_vec(), &low_rd(a), &low_rd(b))?;
    ensure!(x.clone() == x, "{} is not equal to its clone", tname(t));
    Ok(())
}
/// Representatives of every type: base, small deviations of every field.
fn reps(d: &TypeDom) -> Vec<Vec<V>> {
    let mut v = vec![d.base.clone()];
    for (f, s) in d.small.iter().enumerate() {
        for x in s {
            let mut b = d.base.clone();
            b[f] = x.clone();
            if !v.contains(&b) {
                v.push(b);
            }
        }
    }
    for (i, e) in d.extra.iter().enumerate() {
        if i % (d.extra.len() / 6).max(1) == 0 && !v.contains(e) {
            v.push(e.clone());
        }
    }
    v
}
fn tri(w: u64) -> Vec<u64> {
    vec![0, 1, w]
}

pub fn c25(h: &mut H) {
    // the base of every type against every single-field deviation
    h.explore("base-deviation", &|ctx| {
        let d = ctx.pick(type_doms());
        let rd = d.get(ctx.choose(d.len()));
        ctx.state(&(d.t, &rd));
        ctx.note(|| format!("{} {}", tname(d.t), short(&rd)));
        ctx.step();
        cmp_rd(d.t, &d.base, &rd)?;
        cmp_rd(d.t, &rd, &rd)?;
        ctx.outcome(if rd == d.base { "same" } else { "different" });
        Ok(())
    });
    // neighbouring deviations: long blobs differing in one octet or by one octet
    h.explore("one-octet", &|ctx| {
        let d = ctx.pick(type_doms());
        let f = ctx.choose(d.base.len());
        let long: &[usize] = &[1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 40, 48, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255];
        let l = *ctx.pick(long);
        let at = ctx.choose(l + 1);
        let mut a = d.base.clone();
        let mut b = d.base.clone();
        let x: Vec<u8> = (0..l).map(|i| b'a' + (i % 23) as u8).collect();
        let mut y = x.clone();
        if at < l {
            y[at] ^= 0x15;
        } else {
            y.pop();
        }
        let in_name = |z: &[u8]| -> Option<Name> {
            let nm: Name = z.chunks(63).map(|c| c.to_vec()).collect();
            (wire_len(&nm) <= 255).then_some(nm)
        };
        match &d.base[f] {
            V::B(_) => {
                let fixed = matches!(layout(d.t).get(f), Some(K::Fix(_))) || d.t == 42;
                if fixed || (d.t == 257 && f == 1 && y.is_empty()) || (d.t == 35 && f == 2) {
                    return Ok(());
                }
                a[f] = V::B(x);
                b[f] = V::B(y);
            }
            V::Nm(_) => match (in_name(&x), in_name(&y)) {
                (Some(p), Some(q)) => {
                    a[f] = V::Nm(p);
                    b[f] = V::Nm(q);
                }
                _ => return Ok(()),
            },
            V::L(_) => {
                a[f] = V::L(vec![b"k".to_vec(), x]);
                b[f] = V::L(vec![b"k".to_vec(), y]);
            }
            V::LN(_) => match (in_name(&x), in_name(&y)) {
                (Some(p), Some(q)) => {
                    a[f] = V::LN(vec![n("s"), p]);
                    b[f] = V::LN(vec![n("s"), q]);
                }
                _ => return Ok(()),
            },
            V::M(_) if d.t == 41 => {
                a[f] = V::M([(1, vec![]), (9, x)].into());
                b[f] = V::M([(1, vec![]), (9, y)].into());
            }
            V::M(_) => {
                a[f] = V::M([(2, vec![]), (65290, x)].into());
                b[f] = V::M([(2, vec![]), (65290, y)].into());
            }
            _ => return Ok(()),
        }
        ctx.state(&(d.t, f, l, at));
        ctx.step();
        ctx.note(|| format!("{} field {f}, length {l}, octet {at}", tname(d.t)));
        cmp_rd(d.t, &a, &b)?;
        cmp_rd(d.t, &a, &a)?;
        ctx.outcome("one-octet");
        Ok(())
    });
    // all pairs of representatives within a type
    h.explore("pairs", &|ctx| {
        let d = ctx.pick(type_doms());
        let v = reps(d);
        let a = ctx.choose(v.len());
        let b = ctx.choose(v.len());
        ctx.state(&(d.t, a, b));
        ctx.step();
        ctx.note(|| format!("{} {} / {}", tname(d.t), short(&v[a]), short(&v[b])));
        ctx.outcome("pair");
        cmp_rd(d.t, &v[a], &v[b])
    });
    // lists, sets, maps and octet strings: all pairs over a small alphabet, so order, repetition,
    // prefixes and divisions all matter
    h.explore("sequences", &|ctx| {
        let d = ctx.pick(type_doms());
        let f = ctx.choose(d.base.len());
        let (m, t) = (if ctx.thorough { 4 } else { 3 }, d.t);
        if matches!(d.base[f], V::N(_)) {
            return Ok(());
        }
        fn seq(ctx: &mut Ctx, m: usize) -> Vec<usize> {
            let l = ctx.choose(m + 1);
            (0..l).map(|_| ctx.choose(3)).collect()
        }
        let (x, y) = (seq(ctx, m), seq(ctx, m));
        let (mut a, mut b) = (d.base.clone(), d.base.clone());
        match (seq_value(d, f, &x), seq_value(d, f, &y)) {
            (Some(p), Some(q)) => {
                a[f] = p;
                b[f] = q;
            }
            _ => return Ok(()),
        }
        ctx.state(&(t, f, &x, &y));
        ctx.step();
        ctx.note(|| format!("{} field {f}: {} / {}", tname(t), short(&a[f]), short(&b[f])));
        ctx.outcome(if a == b { "same" } else { "different" });
        cmp_rd(t, &a, &b)
    });
    // every value of a field against the next one of its domain, and against its complement
    h.explore("neighbours", &|ctx| {
        let d = ctx.pick(type_doms());
        let f = ctx.choose(d.fields.len());
        let l = d.fields[f].len();
        let i = ctx.choose(l);
        let (mut a, mut b) = (d.base.clone(), d.base.clone());
        a[f] = d.fields[f].get(i);
        b[f] = d.fields[f].get(if ctx.flag() { (i + 1) % l } else { l - 1 - i });
        ctx.state(&(d.t, f, i, &b[f]));
        ctx.step();
        ctx.note(|| format!("{} field {f}: {} / {}", tname(d.t), short(&a[f]), short(&b[f])));
        ctx.outcome("neighbours");
        cmp_rd(d.t, &a, &b)
    });
    // all pairs within the octet-wide and enumerated fields
    h.explore("small-fields", &|ctx| {
        let d = ctx.pick(type_doms());
        let fs: Vec<usize> = (0..d.fields.len()).filter(|f| d.fields[*f].len() <= 256 && matches!(d.base[*f], V::N(_))).collect();
        if fs.is_empty() {
            return Ok(());
        }
        let f = *ctx.pick(&fs);
        let l = d.fields[f].len();
        let (i, j) = (ctx.choose(l), ctx.choose(l));
        let (mut a, mut b) = (d.base.clone(), d.base.clone());
        a[f] = d.fields[f].get(i);
        b[f] = d.fields[f].get(j);
        ctx.state(&(d.t, f, i, j));
        ctx.step();
        ctx.outcome("small-fields");
        cmp_rd(d.t, &a, &b)
    });
    // two fields at once: every pair of fields, against the base and against each single change
    h.explore("two-fields", &|ctx| {
        let ds: Vec<&TypeDom> = type_doms().iter().filter(|d| d.small.len() > 1 && d.t != 45).collect();
        let d = *ctx.pick(&ds);
        let ps = d.pairs();
        let (i, j) = *ctx.pick(&ps);
        let mut rd = d.base.clone();
        rd[i] = ctx.pick(&d.small[i]).clone();
        rd[j] = ctx.pick(&d.small[j]).clone();
        if d.t == 42 && rd[0].n() == 2 {
            return Ok(());
        }
        ctx.state(&(d.t, &rd));
        ctx.note(|| format!("{} {}", tname(d.t), short(&rd)));
        for f in [i, j] {
            ctx.step();
            let mut one = d.base.clone();
            one[f] = rd[f].clone();
            cmp_rd(d.t, &rd, &one)?;
        }
        // exchanged values where the kinds agree
        let (a, b) = (rd[i].clone(), rd[j].clone());
        let mut sw = rd.clone();
        sw[i] = b;
        sw[j] = a;
        let same = layout(d.t).len() == d.base.len() && layout(d.t)[i] == layout(d.t)[j];
        if same {
            cmp_rd(d.t, &rd, &sw)?;
            ctx.outcome("exchanged");
        }
        cmp_rd(d.t, &rd, &d.base)
    });
    // data of different types is different, whatever its octets
    h.explore("types", &|ctx| {
        let a = *ctx.pick(rtypes());
        let b = *ctx.pick(rtypes());
        let nm = V::Nm(n("x.example"));
        let rd = |t: u16| match t {
            2 | 5 | 12 => vec![nm.clone()],
            10 | 61 => vec![V::B(vec![1, 2, 3, 4])],
            t => tdom(t).base.clone(),
        };
        let (x, y) = (some(build_rdata(a, &rd(a)))?, some(build_rdata(b, &rd(b)))?);
        ctx.state(&(a, b));
        ctx.step();
        ctx.outcome("types");
        ensure!((x == y) == (a == b) && (x != y) == (a != b), "{} and {} compare {}", tname(a), tname(b), x == y);
        Ok(())
    });
    // records and questions: every attribute
    h.explore("records", &|ctx| {
        let t = *ctx.pick(rtypes());
        let gen = |ctx: &mut Ctx, t: u16| {
            let mut m = base_rr(t, n("www.example.com"));
            match ctx.choose(6) {
                0 => {}
                1 => m.name = [n("example.com"), n("www.example.com.x"), vec![], vec![b"www.example".to_vec(), b"com".to_vec()]][ctx.choose(4)].clone(),
                2 => m.class = if t == 41 { [0u16, 512, 1233, 65535] } else { [2u16, 3, 4, 1233] }[ctx.choose(4)],
                3 => m.ttl = [0u32, 301, 300 | 1 << 31, u32::MAX][ctx.choose(4)],
                4 => m.flush = MDNS && t != 41,
                _ => m.rd = data_variant(t, 1),
            }
            m
        };
        let a = gen(ctx, t);
        let b = gen(ctx, t);
        ctx.state(&(format!("{a:?}"), format!("{b:?}")));
        ctx.step();
        ctx.note(|| format!("{} / {}", short(&a), short(&b)));
        let (x, y) = (some(build_record(&a))?, some(build_record(&b))?);
        cmp("record", &x, &y, &a, &b, &low_rm(&a), &low_rm(&b))?;
        // inside packets, in every section
        let sec = ctx.choose(3);
        let (mut ma, mut mb) = (Msg::default(), Msg::default());
        ma.secs[sec].push(a);
        mb.secs[sec].push(b);
        cmp("packet", &some(build_packet(&ma))?, &some(build_packet(&mb))?, &ma, &mb, &low_msg(&ma), &low_msg(&mb))?;
        ctx.outcome("records");
        Ok(())
    });
    // every bit of the time to live and of the class
    h.explore("record-bits", &|ctx| {
        let t = *ctx.pick(rtypes());
        let a = base_rr(t, n("example.com"));
        let mut b = a.clone();
        if ctx.flag() {
            b.ttl ^= 1 << ctx.choose(32);
        } else {
            let bits = if t == 41 { 16 } else { 15 };
            b.class ^= 1 << ctx.choose(bits);
        }
        ctx.state(&(t, b.ttl, b.class));
        ctx.step();
        ctx.outcome("record-bits");
        cmp("record", &some(build_record(&a))?, &some(build_record(&b))?, &a, &b, &a, &b)
    });
    h.explore("questions", &|ctx| {
        let qts: Vec<u16> = (0..=300).filter(|t| is_qtype(*t)).collect();
        let small = names_collide().iter().filter(|x| wire_len(x) <= 4).count();
        let gen = |ctx: &mut Ctx| {
            let mut q = Qm { name: n("example.com"), qtype: 1, qclass: 1, uni: false };
            match ctx.choose(4) {
                0 => q.qtype = *ctx.pick(&qts),
                1 => q.qclass = *ctx.pick(&[1u16, 2, 3, 4, 254, 255]),
                2 => q.uni = MDNS,
                _ => q.name = names_collide()[ctx.choose(small)].clone(),
            }
            q
        };
        let a = gen(ctx);
        let b = gen(ctx);
        ctx.state(&(format!("{a:?}"), format!("{b:?}")));
        ctx.step();
        let (x, y) = (some(build_question(&a))?, some(build_question(&b))?);
        cmp("question", &x, &y, &a, &b, &low_qm(&a), &low_qm(&b))?;
        let (ma, mb) = (Msg { qs: vec![a], ..Default::default() }, Msg { qs: vec![b], ..Default::default() });
        cmp("packet", &some(build_packet(&ma))?, &some(build_packet(&mb))?, &ma, &mb, &low_msg(&ma), &low_msg(&mb))?;
        ctx.outcome("questions");
        Ok(())
    });
    // names as owners
    h.explore("names", &|ctx| {
        let v = names_collide();
        let full = ctx.flag();
        let v = if full { names_full() } else { v };
        let a = v[ctx.choose(v.len())].clone();
        let b = v[ctx.choose(v.len())].clone();
        ctx.state(&(&a, &b));
        ctx.step();
        ctx.outcome("names");
        cmp("name", &fqdn(&a), &fqdn(&b), &a, &b, &low(&a), &low(&b))
    });
    // headers: every word against every single-bit change, ids, counts
    h.explore("headers", &|ctx| {
        let w = ctx.choose(65536) as u16;
        let k = ctx.choose(16 + 16 + 4);
        let (mut id, mut fl) = (0x1234u16, w);
        let c = [0u16; 4];
        match k {
            0..=15 => fl ^= 1 << k,
            16..=31 => id ^= 1 << (k - 16),
            _ => {}
        }
        ctx.state(&(w, k));
        ctx.step();
        let (a, b) = (header_from(0x1234, w, [0; 4]), header_from(id, fl, c));
        let same = k >= 32;
        ensure!((a == b) == same && (b == a) == same && (a != b) != same, "headers {:04x} {w:04x} and {id:04x} {fl:04x} compare {}", 0x1234, a == b);
        ctx.outcome(if same { "same" } else { "different" });
        Ok(())
    });
    // packets that differ in one bit of the id or of the flags
    h.explore("packet-bits", &|ctx| {
        let (id, fl) = *ctx.pick(&[(0u16, 0u16), (0xffff, 0xffff), (0x1234, 0x8180)]);
        let k = ctx.choose(33);
        let body = ctx.choose(3);
        let mut a = Msg { id, flags: fl, ..Default::default() };
        if body > 0 {
            query(&mut a, n("example.com"), 1);
        }
        if body > 1 {
            a.secs[2].push(base_rr(41, vec![]));
        }
        let mut b = a.clone();
        match k {
            0..=15 => b.id ^= 1 << k,
            16..=31 => b.flags ^= 1 << (k - 16),
            _ => {}
        }
        ctx.state(&(id, k, body));
        ctx.step();
        ctx.outcome("packet-bits");
        cmp("packet", &some(build_packet(&a))?, &some(build_packet(&b))?, &a, &b, &a, &b)
    });
    // packets: every combination of section lengths and orders over two entries
    h.explore("packets", &|ctx| {
        let gen = |ctx: &mut Ctx| {
            let mut m = Msg { id: 1, flags: 0x0100, ..Default::default() };
            let lists: [&[usize]; 5] = [&[], &[0], &[1], &[0, 1], &[1, 0]];
            let which = ctx.choose(4);
            let l = lists[ctx.choose(5)];
            let l2 = lists[ctx.choose(3)];
            let other = (which + 1 + ctx.choose(3)) % 4;
            for (s, l) in [(which, l), (other, l2)] {
                for i in l {
                    if s == 0 {
                        m.qs.push(Qm { name: n("example.com"), qtype: [1, 28][*i], qclass: 1, uni: false });
                    } else {
                        m.secs[s - 1].push(base_rr([1u16, 28][*i], n("example.com")));
                    }
                }
            }
            m
        };
        let a = gen(ctx);
        let b = gen(ctx);
        ctx.state(&(format!("{a:?}"), format!("{b:?}")));
        ctx.step();
        ctx.note(|| format!("{} / {}", describe(&a), describe(&b)));
        let (x, y) = (some(build_packet(&a))?, some(build_packet(&b))?);
        cmp("packet", &x, &y, &a, &b, &low_msg(&a), &low_msg(&b))?;
        // and after a trip over the wire
        match (Packet::try_from(x.to_bytes().as_slice()), Packet::try_from(y.to_bytes_compressed().as_slice())) {
            (Ok(x), Ok(y)) => cmp("parsed packet", &x, &y, &a, &b, &low_msg(&a), &low_msg(&b))?,
            _ => return fail("a built packet does not parse"),
        }
        ctx.outcome("packets");
        Ok(())
    });
    // enumerations: every code point equals itself only, and orders / hashes accordingly
    h.explore("codes", &|ctx| {
        let qts: Vec<u16> = (0..=300).filter(|t| is_qtype(*t)).collect();
        let a = *ctx.pick(&qts);
        let b = *ctx.pick(&qts);
        ctx.state(&(a, b));
        ctx.step();
        let q = |v: u16| QType::try_from(v).map_err(|_| Violation(format!("question type {v} refused")));
        ensure!((q(a)? == q(b)?) == (a == b), "question types {a} and {b} compare wrongly");
        ensure!(a != b || hash64(&q(a)?) == hash64(&q(b)?), "equal question types hash differently");
        if let (Some(x), Some(y)) = (rtype(a), rtype(b)) {
            ensure!((x == y) == (a == b) && (x.cmp(&y) == std::cmp::Ordering::Equal) == (a == b), "record types {a} and {b} compare wrongly");
            ensure!(x.cmp(&y) == y.cmp(&x).reverse() && x.partial_cmp(&y) == Some(x.cmp(&y)), "order of record types {a} and {b} is inconsistent");
        }
        for (c, d) in tri(5).into_iter().flat_map(|c| (0..=5).map(move |d| (c as u16, d as u16))) {
            let (x, y) = (RecordClass::from(c), RecordClass::from(d));
            ensure!((x == y) == (c == d), "classes {c} and {d} compare wrongly");
        }
        ctx.outcome("codes");
        Ok(())
    });
}
