//! Properties over the universe of received octets, and structural properties of emitted octets.

use crate::bridge::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::props::built;
use crate::H;
use maybe_dns::*;
use std::collections::{BTreeMap, BTreeSet};

/// Octets of the scenario: malformed ones from `gen_raw`, well-formed ones from the reference encoder.
pub fn octets(ctx: &mut Ctx, scen: &str) -> Vec<u8> {
    if scen == "txtbig" {
        // one TXT string of n equal octets, text or not
        let c = *ctx.pick(&[b'a', 0x7f, 0xc3, 0xff]);
        let n = ctx.choose(256);
        let mut b = envelope(1);
        rr_head(&mut b, 16, n + 1);
        b.push(n as u8);
        b.extend(std::iter::repeat_n(c, n));
        ctx.note(|| format!("octets {}", hex(&b)));
        ctx.state(&b);
        return b;
    }
    let b = if RAW.contains(&scen) { gen_raw(ctx, scen) } else { enc_msg(&gen_msg(ctx, scen)) };
    ctx.note(|| format!("octets {}", hex(&b)));
    ctx.state(&b);
    b
}
const GOOD: &[&str] = &["rdata2", "owner", "question", "header", "mixed", "names2"];

fn mem_bound(b: &[u8]) -> usize {
    // what the section counts can reserve; a name of 255 octets reached through a two-octet pointer
    // costs about 5 kB, so the multiple is small where there can be no pointer
    let count = |i: usize| b.get(i..i + 2).map_or(0, |w| usize::from(w[0]) << 8 | usize::from(w[1]));
    let reserved = 512 * (count(4) + count(6) + count(8) + count(10));
    let per = if b.iter().any(|o| *o >= 0xC0) { 4096 } else { 256 };
    (32 << 10) + reserved + per * b.len()
}
fn parse_all_ways(ctx: &mut Ctx, b: &[u8]) -> Res {
    let (r, peak) = peak_bytes(|| Packet::try_from(b).map(|_| ()));
    ctx.step();
    ensure!(peak <= mem_bound(b), "parsing {} octets took {peak} bytes of memory", b.len());
    ctx.outcome(if r.is_ok() { "accepted" } else { "rejected" });
    Ok(())
}
/// Parses `b` from position `pos` as structure `k` (0 name, 1 question, 2 record, 3 header, 4.. data).
const KINDS: usize = 5;
fn parse_as(b: &[u8], pos: usize, k: usize) -> bool {
    let mut d = DnsBuffer::from(b);
    if d.set_position(pos).is_err() {
        return false;
    }
    match k {
        0 => FQDN::try_from(&mut d).is_ok(),
        1 => Question::try_from(&mut d).is_ok(),
        2 => ResourceRecord::try_from(&mut d).is_ok(),
        3 => Header::try_from(&mut d).is_ok(),
        4 => Packet::try_from(&mut d).is_ok(),
        k => match RecordType::try_from(rtypes()[k - KINDS]) {
            Ok(t) => RecordData::from(t, &mut d).is_ok(),
            Err(_) => false,
        },
    }
}

pub fn c01(h: &mut H) {
    for scen in RAW.iter().chain(GOOD).chain(&["rdata1", "count", "nested", "collide", "seqs"]) {
        h.explore(&format!("packet-{scen}"), &|ctx| {
            let b = octets(ctx, scen);
            parse_all_ways(ctx, &b)
        });
    }
    // every structure, read from every position of a message with one octet changed
    h.explore("structures", &|ctx| {
        let k = ctx.choose(KINDS + rtypes().len());
        let mut b = match k {
            0..=4 => {
                let mut b = envelope(1);
                rr_head(&mut b, 5, 4);
                b.extend([1, b'h', 0xC0, 0x10]);
                b
            }
            k => {
                let t = rtypes()[k - KINDS];
                let mut b = envelope(0);
                let ts = templates(t);
                b.extend_from_slice(&ts[ctx.choose(ts.len())]);
                b
            }
        };
        let base = if k >= KINDS { envelope(0).len() } else { 0 };
        let pos = if k >= KINDS { base } else { ctx.choose(b.len() + 1) };
        if b.len() > base {
            let i = base + ctx.choose(b.len() - base);
            b[i] = *ctx.pick(BYTES);
        }
        let cut = if ctx.flag() { b.len() } else { pos + (b.len() - pos) / 2 };
        b.truncate(cut);
        ctx.note(|| format!("structure {k} at {pos} of {}", hex(&b)));
        ctx.state(&(k, pos, &b));
        ctx.step();
        let (ok, peak) = peak_bytes(|| parse_as(&b, pos, k));
        let bound = mem_bound(&b).max(mem_bound(&b[pos.min(b.len())..]) + 4096 * pos);
        ensure!(peak <= bound, "memory {peak}");
        ctx.outcome(if ok { "accepted" } else { "rejected" });
        Ok(())
    });
    // all short packets after the counts: any octets, any counts
    h.explore("tiny", &|ctx| {
        let mut b = vec![0, 0, 0, 0];
        for _ in 0..4 {
            b.extend((*ctx.pick(&[0u16, 1, 2, 65535])).to_be_bytes());
        }
        let k = ctx.choose(if ctx.thorough { 7 } else { 6 });
        for _ in 0..k {
            b.push(*ctx.pick(&[0u8, 1, 0x0c, 0x0d, 0xC0, 0xff]));
        }
        ctx.note(|| hex(&b));
        ctx.state(&b);
        parse_all_ways(ctx, &b)
    });
    // names: pointers everywhere, whole alphabet (non-termination, recursion)
    h.explore("pointers", &|ctx| {
        let mut b = vec![0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0];
        let k = 1 + ctx.choose(if ctx.thorough { 6 } else { 5 });
        for _ in 0..k {
            match ctx.choose(4) {
                0 => {
                    let t = *ctx.pick(&[0u16, 12, 13, 14, 15, 16, 18, 20, 0x3fff]);
                    b.extend((0xC000 | t).to_be_bytes());
                }
                1 => b.extend([1, b'a']),
                2 => b.extend([2, 0xC0, 0x0C]),
                _ => b.push(0),
            }
        }
        b.extend([0, 1, 0, 1]);
        ctx.note(|| hex(&b));
        ctx.state(&b);
        let pos = 12 + ctx.choose(b.len() - 12);
        ctx.step();
        parse_as(&b, pos, 0);
        parse_all_ways(ctx, &b)
    });
    // long chains: many pointers, many labels, long repetitions
    h.explore("chains", &|ctx| {
        let n = *ctx.pick(&[1usize, 2, 3, 10, 60, 126, 127, 128, 129, 200, 1000, 5000, 16000, 32000]);
        let mut b = envelope(0);
        match ctx.choose(5) {
            0 => {
                // n pointers each to the previous one
                let mut prev = 12u16;
                for _ in 0..n {
                    let here = b.len();
                    b.extend((0xC000 | prev).to_be_bytes());
                    prev = here as u16 & 0x3fff;
                }
            }
            1 => {
                // label + pointer to the previous label
                let mut prev = 12u16;
                for _ in 0..n {
                    let here = b.len();
                    b.extend([1, b'a']);
                    b.extend((0xC000 | prev).to_be_bytes());
                    prev = here as u16 & 0x3fff;
                }
            }
            2 => {
                for _ in 0..n {
                    b.extend([1, b'a']);
                }
                b.push(0);
            }
            3 => {
                // a HIP record with n two-octet names
                b[7] = 1;
                let mut rd = vec![0, 2, 0, 0];
                for _ in 0..n.min(32000) {
                    rd.extend([0xC0, 0x0C]);
                }
                rr_head(&mut b, 55, rd.len());
                b.extend(rd);
            }
            _ => {
                // TXT with n empty strings, OPT with n options
                b[7] = 2;
                rr_head(&mut b, 16, n);
                b.extend(vec![0; n]);
                let k = n.min(16000);
                rr_head(&mut b, 41, 4 * k);
                for i in 0..k {
                    b.extend((i as u16).to_be_bytes());
                    b.extend([0, 0]);
                }
            }
        }
        ctx.note(|| hex(&b));
        ctx.state(&b);
        let at = [envelope(0).len(), b.len().saturating_sub(2), b.len().saturating_sub(4), b.len() / 2];
        for p in at {
            ctx.step();
            parse_as(&b, p, 0);
        }
        parse_all_ways(ctx, &b)
    });
}

/// Everything the API can be asked about a packet.
fn inspect(ctx: &mut Ctx, p: &Packet) -> Res {
    let text = |f: &FQDN| -> Res {
        let s = f.to_string();
        ensure!(std::str::from_utf8(s.as_bytes()).is_ok(), "text of name {f:?} is not valid UTF-8");
        let _ = (f.is_empty(), f.len(), f.label_count(), f.is_root(), f.is_link_local(), f.byte_size(), f.iter().count(), f.clone() == *f, f.cmp(f));
        Ok(())
    };
    let _ = (p.id(), p.recursion_desired(), p.truncation(), p.authoritative_answer(), p.opcode(), p.query_response(), p.recursion_available());
    let rc = p.response_code();
    ctx.step();
    ensure!(!format!("{rc:?}").is_empty(), "response code");
    let _ = format!("{:?}", p);
    let _ = format!("{:#?}", p.header());
    ctx.step();
    for q in p.questions() {
        text(q.name())?;
        let _ = (q.query_type(), q.class(), q.byte_size(), q.to_bytes());
        #[cfg(feature = "mdns")]
        let _ = q.unicast_response();
    }
    for r in p.answers().iter().chain(p.authorities()).chain(p.additionals()) {
        text(r.name())?;
        let _ = (r.record_type(), r.class(), r.time_to_live(), r.byte_size(), r.to_bytes(), r.data_raw());
        #[cfg(feature = "mdns")]
        let _ = r.cache_flush();
        let _ = r.data().byte_size();
        ctx.step();
        match r.data() {
            RecordData::NS(x) => text(&x.nsdname)?,
            RecordData::CNAME(x) => text(&x.cname)?,
            RecordData::PTR(x) => text(x.inner())?,
            RecordData::SOA(x) => {
                text(&x.mname)?;
                text(&x.rname)?
            }
            RecordData::MX(x) => text(&x.exchange)?,
            RecordData::SRV(x) => text(&x.target)?,
            RecordData::SVCB(x) => {
                text(&x.target_name)?;
                let _ = x.mode();
                for p in &x.params {
                    let _ = (p.byte_size(), p.to_bytes());
                }
            }
            #[cfg(feature = "dnssec")]
            RecordData::DNSKEY(k) | RecordData::CDNSKEY(k) => {
                let _ = (k.protocol(), k.valid_protocol(), k.base64_public_key());
                for d in [1u8, 2, 4, 5] {
                    let _ = rdata::Ds::try_from_dnskey(r.name(), k, d.try_into().unwrap_or_else(|_| panic!("digest")));
                }
            }
            #[cfg(feature = "dnssec")]
            RecordData::DS(k) | RecordData::CDS(k) => {
                let _ = k.hex_digest();
            }
            #[cfg(feature = "dnssec")]
            RecordData::RRSIG(k) => {
                let _ = (k.key_tag(), k.signature(), k.base64_signature());
            }
            RecordData::CSYNC(c) => {
                let _ = (c.flags.immediate(), c.flags.soa_minimum());
            }
            _ => {}
        }
        let set = ResourceRecordSet::new(r.name(), *r.record_type(), *r.class(), r.time_to_live(), vec![r.data()]);
        let _ = (set.byte_size(), set.to_bytes());
        let c = r.clone();
        ensure!(c == *r, "a clone differs");
        let _ = c.take_data();
    }
    ctx.step();
    let _ = p.byte_size();
    let a = p.to_bytes();
    let c = p.to_bytes_compressed();
    ensure!(a.len() >= 12 && c.len() >= 12, "serialisation without header");
    Ok(())
}
pub fn c02(h: &mut H) {
    let scens: Vec<&str> = ["subst", "trunc", "insdel", "pairsub", "rdlen", "hdr", "follow", "chains", "sections"].into_iter().chain(["owner", "question", "header", "mixed", "rdata2", "cross", "nested"]).collect();
    for scen in scens {
        h.explore(&format!("inspect-{scen}"), &|ctx| {
            let b = octets(ctx, scen);
            ctx.step();
            match Packet::try_from(b.as_slice()) {
                Ok(p) => {
                    ctx.outcome("accepted");
                    inspect(ctx, &p)
                }
                Err(_) => {
                    ctx.outcome("rejected");
                    Ok(())
                }
            }
        });
    }
}

pub fn c06(h: &mut H) {
    let scens: Vec<&str> = RAW.iter().copied().filter(|s| !matches!(*s, "shortall")).chain(["rdata1", "rdata2", "owner", "class", "ttl", "question", "names2", "offset", "count", "header", "mixed", "cross", "seqs", "nested", "txtbig"]).collect();
    for scen in scens {
        h.explore(&format!("forward-{scen}"), &|ctx| {
            let b = octets(ctx, scen);
            ctx.step();
            let Ok(p) = Packet::try_from(b.as_slice()) else {
                ctx.outcome("rejected");
                return Ok(());
            };
            ctx.outcome("accepted");
            // what the received octets mean, when that is specified
            let mut r0 = Rd::new(&b);
            let m0 = message(&mut r0).ok().filter(|_| r0.gray != Gray::Any);
            let lossy = r0.txt_grew;
            let mut check = |kind: &str, s: &dyn Fn(&Packet) -> Vec<u8>| -> Res {
                let b1 = s(&p);
                ctx.step();
                ctx.note(|| format!("{kind} {}", hex(&b1)));
                let r = (|| {
                    let p1 = match Packet::try_from(b1.as_slice()) {
                        Ok(x) => x,
                        Err(e) => return fail(format!("{kind} serialisation of a parsed packet does not parse: {e:?}; received {} emitted {}", hex(&b), hex(&b1))),
                    };
                    ensure!(p1 == p, "{kind} serialisation of a parsed packet parses to another packet; received {} emitted {}", hex(&b), hex(&b1));
                    let b2 = s(&p1);
                    ensure!(b2 == b1, "second {kind} serialisation differs: {} then {}", hex(&b1), hex(&b2));
                    if let Some(m0) = &m0 {
                        let m1 = message(&mut Rd::new(&b1));
                        ensure!(m1.as_ref().ok() == Some(m0), "{kind} forwarding changed the message; received {} emitted {}: {} became {}", hex(&b), hex(&b1), describe(m0), m1.map(|m| describe(&m)).unwrap_or("a malformed message".into()));
                    }
                    Ok(())
                })();
                if r.is_err() && lossy {
                    ctx.known("txt-lossy", || format!("TXT string that is not UTF-8 grows beyond 255 octets when replaced: {}", hex(&b)));
                    return Ok(());
                }
                r
            };
            check("plain", &|p| p.to_bytes())?;
            check("compressed", &|p| p.to_bytes_compressed())
        });
    }
}

fn check_name(ctx: &mut Ctx, b: &[u8], pos: usize) -> Res {
    let mut d = DnsBuffer::from(b);
    d.set_position(pos).map_err(|_| Violation("set_position within the buffer failed".into()))?;
    ctx.step();
    let got = d.extract_fqdn();
    let want = name_at(b, pos);
    match (&got, &want) {
        (Err(_), Err(_)) => ctx.outcome("rejected"),
        (Ok(f), Err(_)) => return fail(format!("invalid name at {pos} of {} accepted as {:?}", hex(b), f)),
        (Err(_), Ok((_, _, g, _))) if *g != Gray::No => ctx.outcome("gray-rejected"),
        (Err(e), Ok((n, ..))) => return fail(format!("valid name {} at {pos} of {} rejected: {e:?}", show_name(n), hex(b))),
        (Ok(f), Ok((n, next, ..))) => {
            ensure!(&unname(f) == n, "name at {pos} of {} read as {:?} instead of {}", hex(b), f, show_name(n));
            ensure!(d.position() == *next, "cursor at {} instead of {next} behind the name at {pos} of {}", d.position(), hex(b));
            ensure!(d.as_slice() == b, "buffer changed");
            ctx.outcome("accepted");
        }
    }
    Ok(())
}
pub fn c07(h: &mut H) {
    // all strings over the alphabet, read from every position
    h.explore("alphabet", &|ctx| {
        const AL: &[u8] = &[0, 1, 2, 3, 4, 0x3f, 0x40, 0x80, 0xC0, 0xC1];
        let k = ctx.choose(if ctx.thorough { 8 } else { 7 });
        let al = if k >= 7 { &AL[..8] } else { AL };
        let b: Vec<u8> = (0..k).map(|_| *ctx.pick(al)).collect();
        ctx.state(&b);
        ctx.note(|| hex(&b));
        for pos in 0..=k {
            check_name(ctx, &b, pos)?;
        }
        Ok(())
    });
    // all two- and three-octet buffers
    h.explore("octets", &|ctx| {
        let b = if ctx.flag() { vec![ctx.choose(256) as u8, ctx.choose(256) as u8] } else { vec![1, b'x', ctx.choose(256) as u8, ctx.choose(256) as u8, 0] };
        ctx.state(&b);
        for pos in 0..=b.len() {
            check_name(ctx, &b, pos)?;
        }
        Ok(())
    });
    // segments: labels ended by the root, a pointer to any earlier or later segment / octet, or the end of the buffer
    h.explore("segments", &|ctx| {
        let k = 1 + ctx.choose(if ctx.thorough { 4 } else { 3 });
        let mut b: Vec<u8> = vec![];
        let gap = *ctx.pick(&[0usize, 12, 255, 300]);
        b.extend(vec![0xEE; gap]);
        let mut starts = vec![];
        for s in 0..k {
            starts.push(b.len());
            for _ in 0..ctx.choose(3) {
                let l = *ctx.pick(&[1usize, 3, 63]);
                b.push(l as u8);
                b.extend((0..l).map(|i| if i == 1 { 0 } else { b'a' + s as u8 }));
            }
            match ctx.choose(3) {
                0 => b.push(0),
                1 => {
                    let cands: Vec<usize> = starts.iter().copied().chain([b.len(), b.len() + 2, b.len().wrapping_sub(1) & 0x3fff, starts[0] + 4]).collect();
                    let t = *ctx.pick(&cands) as u16;
                    b.extend((0xC000 | t).to_be_bytes());
                }
                _ => b.push(0xC0),
            }
        }
        ctx.state(&b);
        ctx.note(|| hex(&b));
        for pos in gap..=b.len() {
            check_name(ctx, &b, pos)?;
        }
        Ok(())
    });
    // the 255-octet limit: plain, and assembled through a pointer
    h.explore("limit", &|ctx| {
        let unit = 1 + ctx.choose(63);
        let total = 240 + ctx.choose(40);
        let split = ctx.choose(4);
        let mut labels: Vec<usize> = vec![];
        let mut left = total;
        while left > 0 {
            let l = unit.min(left.saturating_sub(1)).max(1);
            if left == 1 {
                break;
            }
            labels.push(l);
            left -= l + 1;
        }
        let at = labels.len() * split / 4;
        let put = |b: &mut Vec<u8>, ls: &[usize]| {
            for l in ls {
                b.push(*l as u8);
                b.extend(vec![b'q'; *l]);
            }
        };
        let mut b = vec![];
        put(&mut b, &labels[at..]);
        b.push(0);
        let start = b.len();
        put(&mut b, &labels[..at]);
        b.extend([0xC0, 0x00]);
        ctx.state(&b);
        ctx.note(|| format!("{} labels of {unit}, {} octets, split {at}", labels.len(), total));
        check_name(ctx, &b, start)?;
        check_name(ctx, &b, 0)
    });
    // chains of pointers, with and without labels between them, up to and beyond the longest name
    h.explore("chains", &|ctx| {
        let links = ctx.choose(if ctx.thorough { 700 } else { 300 });
        let (labels, len) = *ctx.pick(&[(0usize, 0usize), (1, 1), (1, 2), (2, 1), (1, 4), (1, 61)]);
        let every = 1 + ctx.choose(4);
        let gap = *ctx.pick(&[0usize, 12, 700]);
        let mut b = vec![0x55; gap];
        b.extend([1, b'z', 0]);
        let mut last = gap;
        for i in 0..links {
            let at = b.len();
            if at > 0x3fff {
                break;
            }
            if i % every == 0 {
                for k in 0..labels {
                    b.push(len as u8);
                    b.extend((0..len).map(|j| b'a' + ((i + j + k) % 26) as u8));
                }
            }
            b.extend((0xC000 | last as u16).to_be_bytes());
            last = at;
        }
        ctx.state(&b);
        ctx.note(|| format!("{links} links of {labels} labels of {len} octets, every {every}"));
        check_name(ctx, &b, last)
    });
    // pointers over the whole 14-bit range in a large buffer
    h.explore("far", &|ctx| {
        let target = ctx.choose(0x4000);
        let mut b = vec![0u8; 0x4100];
        b[target] = 2;
        b[target + 1] = b'h';
        b[target + 2] = b'i';
        b[target + 3] = 0;
        let at = *ctx.pick(&[0x40f0usize, 0x3ffe, 0x3000]);
        b[at] = 0xC0 | (target >> 8) as u8;
        b[at + 1] = target as u8;
        ctx.state(&(target, at));
        check_name(ctx, &b, at)
    });
    // every well-formed name, alone and behind a prefix
    h.explore("wellformed", &|ctx| {
        let nm = ctx.pick(names_full());
        let pre = *ctx.pick(&[0usize, 1, 12, 700]);
        let mut b = vec![0x55; pre];
        enc_name(nm, &mut b);
        b.extend([0xC0 | (pre >> 8) as u8, pre as u8]);
        let e = b.len();
        b.extend([3, b'w', 0, 0xff, 0xC0 | ((e - 2) >> 8) as u8, (e - 2) as u8]);
        ctx.state(&b);
        check_name(ctx, &b, pre)?;
        check_name(ctx, &b, e - 2)?;
        check_name(ctx, &b, e)
    });
    // names inside bounded sub-buffers end at the bound
    h.explore("bounded", &|ctx| {
        let mut b = vec![3, b'c', b'o', b'm', 0];
        let s = b.len();
        b.extend([2, b'h', b'i', 0xC0, 0x00, 1, b'x', 0, 9]);
        let pos = ctx.choose(b.len());
        let len = ctx.choose(b.len() + 1 - pos);
        let mut d = DnsBuffer::from(b.as_slice());
        let _ = d.set_position(pos);
        ctx.step();
        let Ok(mut sub) = d.sub_buffer(len) else { return fail("sub_buffer within the buffer failed") };
        let got = sub.extract_fqdn();
        let want = name_at(&b[..pos + len], pos);
        ctx.state(&(pos, len));
        ctx.note(|| format!("start {s} pos {pos} len {len}"));
        match (got, want) {
            (Err(_), Err(_)) => ctx.outcome("rejected"),
            (Ok(f), Ok((n, next, ..))) => {
                ensure!(unname(&f) == n && sub.position() == next, "bounded name read differently");
                ctx.outcome("accepted");
            }
            (Err(_), Ok((_, _, g, _))) if g != Gray::No => {}
            (g, w) => return fail(format!("name at {pos} bounded to {len} octets: {g:?}, reference {}", w.is_ok())),
        }
        Ok(())
    });
}

/// Crate result against the reference decoder for one message.
fn against_model(ctx: &mut Ctx, b: &[u8]) -> Res {
    ctx.step();
    let got = Packet::try_from(b);
    let mut r = Rd::new(b);
    let want = message(&mut r);
    match (got, want) {
        (Err(_), Err(_)) => {
            ctx.outcome("both-reject");
            Ok(())
        }
        (Err(_), Ok(_)) if r.gray != Gray::No || !r.findings.is_empty() => {
            ctx.outcome("gray-rejected");
            Ok(())
        }
        (Err(e), Ok(m)) => fail(format!("well-formed message rejected with {e:?}: {} = {}", hex(b), describe(&m))),
        (Ok(p), Err(_)) => fail(format!("malformed message accepted: {} as {}", hex(b), short(&p))),
        (Ok(_), Ok(_)) if r.gray == Gray::Any => {
            ctx.outcome("unspecified");
            Ok(())
        }
        (Ok(p), Ok(m)) => {
            if let Some(d) = diff_packet(&p, &m) {
                return fail(format!("decoded differently from the reference: {d}; octets {}", hex(b)));
            }
            for f in r.findings.clone() {
                ctx.known(f, || format!("{} of {}", finding_text(f), hex(b)));
            }
            ctx.outcome(if r.gray == Gray::No { "equal" } else { "gray-equal" });
            Ok(())
        }
    }
}
fn finding_text(f: &str) -> &'static str {
    match f {
        "naptr-flag-dropped" => "NAPTR flags other than S, A, U, P are dropped from the flags field",
        "txt-lossy" => "octets of a TXT string that are not UTF-8 are replaced",
        "opt-duplicate" => "of two EDNS options with the same code only the last is kept",
        "apl-multi" => "only the first item of an APL record is decoded",
        _ => "deviation",
    }
}

pub fn c12(h: &mut H) {
    for scen in RAW.iter().copied().chain(["rdata1", "rdata2", "owner", "question", "ttl", "mixed", "cross", "seqs"]) {
        h.explore(&format!("decode-{scen}"), &|ctx| {
            let b = octets(ctx, scen);
            against_model(ctx, &b)
        });
    }
    // record data read on its own, cursor included
    h.explore("alone", &|ctx| {
        let t = *ctx.pick(rtypes());
        let ts = templates(t);
        let mut rd = ts[ctx.choose(ts.len())].clone();
        if !rd.is_empty() {
            let i = ctx.choose(rd.len());
            rd[i] = *ctx.pick(BYTES);
        }
        let mut b = envelope(0);
        let at = b.len();
        b.extend_from_slice(&rd);
        ctx.state(&(t, &b));
        ctx.note(|| format!("{} data {}", tname(t), hex(&rd)));
        let Some(rt) = rtype(t) else { return fail(format!("type {t} not supported")) };
        let mut d = DnsBuffer::from(b.as_slice());
        let _ = d.set_position(at);
        ctx.step();
        let got = RecordData::from(rt, &mut d);
        let mut r = Rd { pos: at, ..Rd::new(&b) };
        match (got, r.rdata(t)) {
            (Err(_), Err(_)) => ctx.outcome("both-reject"),
            (Err(_), Ok(_)) if r.gray != Gray::No || !r.findings.is_empty() => ctx.outcome("gray-rejected"),
            (Err(e), Ok(v)) => return fail(format!("{} data {} rejected: {e:?}, reference {:?}", tname(t), hex(&rd), v)),
            (Ok(x), Err(_)) => return fail(format!("malformed {} data {} accepted as {}", tname(t), hex(&rd), short(&x))),
            (Ok(_), Ok(_)) if r.gray == Gray::Any => ctx.outcome("unspecified"),
            (Ok(x), Ok(v)) => {
                if let Some(e) = diff_rdata(&x, t, &v) {
                    return fail(format!("{e}; octets {}", hex(&rd)));
                }
                for f in r.findings.clone() {
                    ctx.known(f, || format!("{} of {}", finding_text(f), hex(&rd)));
                }
                ctx.outcome("equal");
            }
        }
        Ok(())
    });
}

/// Walks emitted octets by RDLENGTH only.
fn framing(ctx: &mut Ctx, b: &[u8], m: &Msg, plain: bool) -> Res {
    let kind = if plain { "plain" } else { "compressed" };
    ensure!(b.len() >= 12, "{kind}: no header");
    let mut p = 12;
    let bad = |what: &str, p: usize| Violation(format!("{kind} form: {what} at octet {p} of {}", hex(b)));
    for _ in &m.qs {
        p = name_at(b, p).map_err(|_| bad("question name not readable", p))?.1 + 4;
    }
    for r in m.secs.iter().flatten() {
        let at = p;
        p = name_at(b, p).map_err(|_| bad("owner name not readable", p))?.1;
        if p + 10 > b.len() {
            return Err(bad("record cut off", at));
        }
        let t = (b[p] as u16) << 8 | b[p + 1] as u16;
        ensure!(t == r.rtype, "{kind} form: record at {at} has type {t}, expected {} — the previous RDLENGTH is wrong", r.rtype);
        let len = (b[p + 8] as usize) << 8 | b[p + 9] as usize;
        p += 10;
        if p + len > b.len() {
            return Err(bad("RDLENGTH exceeds the message", at));
        }
        let exact = enc_rdata(r.rtype, &r.rd).len();
        if plain {
            ensure!(len == exact, "plain form: RDLENGTH {len} for {} data of {exact} octets", tname(t));
        }
        let mut rd = Rd { d: b, pos: p, end: p + len, ..Rd::new(b) };
        match rd.rdata(t) {
            Ok(v) => ensure!(v == r.rd && rd.pos == p + len, "{kind} form: the {len} octets framed by RDLENGTH are not the {} data {}", tname(t), short(&r.rd)),
            Err(_) => return fail(format!("{kind} form: the {len} octets framed by RDLENGTH at {p} are not {} data: {}", tname(t), hex(b))),
        }
        p += len;
        ctx.step();
    }
    ensure!(p == b.len(), "{kind} form: {} octets after the last record", b.len() as isize - p as isize);
    Ok(())
}
pub fn c08(h: &mut H) {
    for scen in ["rdlen", "follow", "trunc", "insdel", "short", "sections"] {
        h.explore(&format!("frame-{scen}"), &|ctx| {
            let b = octets(ctx, scen);
            against_model(ctx, &b)
        });
    }
    // what follows the announced octets never influences the record
    h.explore("tail-independence", &|ctx| {
        let t = *ctx.pick(rtypes());
        let ts = templates(t);
        let rd = &ts[ctx.choose(ts.len())];
        let len = ctx.choose(rd.len() + 1);
        let extra = ctx.choose(3);
        let mut o = envelope(0);
        let at = o.len();
        rr_head(&mut o, t, len + extra);
        o.extend_from_slice(&rd[..len]);
        o.extend(&[0u8, 1][..extra.min(2)]);
        let end = o.len();
        let mut seen: Option<String> = None;
        for tail in [&b""[..], b"\x00\x00\x00\x00", b"\xff\xff\xff\xff\xff", b"\x03com\x00\xc0\x0c", b"\x01a\x00\x00\x04\x01\x02\x03\x04"] {
            let mut b = o.clone();
            b.extend_from_slice(tail);
            let mut d = DnsBuffer::from(b.as_slice());
            let _ = d.set_position(at);
            ctx.step();
            let r = ResourceRecord::try_from(&mut d);
            if r.is_ok() {
                ensure!(d.position() == end, "record of {} octets left the cursor at {} instead of {end}", end - at, d.position());
            }
            let s = match &r {
                Ok(r) => format!("{:?}", r.data_raw()),
                Err(_) => "error".into(),
            };
            match &seen {
                None => seen = Some(s),
                Some(x) => ensure!(*x == s, "{} record {} decodes differently when followed by {}: {} / {}", tname(t), hex(&o[at..]), hex(tail), x, s),
            }
        }
        ctx.state(&o);
        ctx.outcome(if seen.as_deref() == Some("error") { "rejected" } else { "accepted" });
        Ok(())
    });
    for scen in SCEN {
        h.explore(&format!("emit-{scen}"), &|ctx| {
            let (m, p) = built(ctx, scen)?;
            let b = p.to_bytes();
            let c = p.to_bytes_compressed();
            ctx.state(&b);
            framing(ctx, &b, &m, true)?;
            framing(ctx, &c, &m, false)?;
            // the message ends where its last record does, whatever follows in the buffer
            for w in [&b, &c] {
                let mut o = w.clone();
                o.extend([0, 1, 0, 1, 0xc0]);
                let mut d = DnsBuffer::from(o.as_slice());
                ctx.step();
                if let Ok(q) = Packet::try_from(&mut d) {
                    ensure!(d.position() == w.len(), "a message of {} octets left the cursor at {}", w.len(), d.position());
                    if let Some(x) = diff_packet(&q, &m) {
                        return fail(format!("a message followed by other octets reads differently: {x}"));
                    }
                }
            }
            ctx.outcome("framed");
            Ok(())
        });
    }
}

/// Structure of one emitted name: label starts (offset, suffix) and pointer.
struct Emitted {
    labels: Vec<usize>,
    ptr: Option<(usize, usize)>,
    end: usize,
}
fn emitted(b: &[u8], mut p: usize) -> Option<Emitted> {
    let mut e = Emitted { labels: vec![], ptr: None, end: 0 };
    loop {
        let l = *b.get(p)? as usize;
        match l & 0xC0 {
            0xC0 => {
                let t = (l & 0x3f) << 8 | *b.get(p + 1)? as usize;
                e.ptr = Some((p, t));
                e.end = p + 2;
                return Some(e);
            }
            0 if l == 0 => {
                e.end = p + 1;
                return Some(e);
            }
            0 => {
                e.labels.push(p);
                p += 1 + l;
            }
            _ => return None,
        }
    }
}
/// Types whose data the library declares compressible.
fn compressible(t: u16) -> bool {
    matches!(t, 2 | 5 | 6 | 12 | 14 | 15 | 33 | 35 | 47)
}
pub fn c18(h: &mut H) {
    for scen in SCEN {
        h.explore(&format!("discipline-{scen}"), &|ctx| {
            let (m, p) = built(ctx, scen)?;
            let plain = p.to_bytes();
            let b = p.to_bytes_compressed();
            ctx.step();
            ctx.state(&b);
            ctx.note(|| hex(&b));
            ensure!(b.len() <= plain.len(), "compressed form ({}) is longer than the plain form ({})", b.len(), plain.len());
            let mut labels: BTreeSet<usize> = BTreeSet::new();
            // full names already spelled or referenced, at reachable offsets
            let mut full: BTreeMap<Name, usize> = BTreeMap::new();
            let mut pointers = 0usize;
            let mut name = |p: usize, may: bool, ctxd: &str| -> Result<usize, Violation> {
                let Some(e) = emitted(&b, p) else { return fail(format!("name at {p} not readable in {}", hex(&b))) };
                let Ok((n, ..)) = name_at(&b, p) else { return fail(format!("name at {p} of {} does not decode", hex(&b))) };
                if let Some((at, t)) = e.ptr {
                    pointers += 1;
                    ensure!(may, "compression pointer in {ctxd}, where compression is not permitted, at {at} of {}", hex(&b));
                    ensure!(t < at && (labels.contains(&t)), "pointer at {at} to {t}, which is not the start of an earlier label, in {}", hex(&b));
                }
                if may && !n.is_empty() {
                    if full.contains_key(&n) {
                        ensure!(e.labels.is_empty() && e.ptr.is_some(), "{} is spelled out again at {p} although it appeared at {} in {}", show_name(&n), full[&n], hex(&b));
                    }
                    for l in &e.labels {
                        if *l < 0x4000 {
                            labels.insert(*l);
                        }
                    }
                    if !e.labels.is_empty() && p < 0x4000 {
                        full.entry(n).or_insert(p);
                    }
                }
                Ok(e.end)
            };
            let mut pos = 12;
            for _ in &m.qs {
                pos = name(pos, true, "a question")? + 4;
            }
            for r in m.secs.iter().flatten() {
                pos = name(pos, true, "an owner name")? + 10;
                ensure!(pos <= b.len(), "record cut off in {}", hex(&b));
                let len = (b[pos - 2] as usize) << 8 | b[pos - 1] as usize;
                let end = pos + len;
                // permitted by the published layout and by what the library itself declares
                let may = compressible(r.rtype) && RecordType::try_from(r.rtype).is_ok_and(|t| t.compression_allowed());
                let what = format!("{} data", tname(r.rtype));
                match layout(r.rtype)[0] {
                    K::IpSec => {
                        if r.rd[1].n() == 3 {
                            name(pos + 3, false, &what)?;
                        }
                    }
                    K::Hip => {
                        let mut q = pos + 4 + r.rd[1].b().len() + r.rd[2].b().len();
                        while q < end {
                            q = name(q, false, &what)?;
                        }
                    }
                    K::Apl => {}
                    _ => {
                        let mut q = pos;
                        for (k, v) in layout(r.rtype).iter().zip(&r.rd) {
                            match k {
                                K::N(w) | K::E(w, _) | K::Mask(w, _) => q += *w as usize,
                                K::Name(_) => q = name(q, may, &what)?,
                                K::Str | K::Utf8 | K::NFlags | K::Tag => q += 1 + v.b().len(),
                                K::L16 => q += 2 + v.b().len(),
                                K::Fix(n) => q += n,
                                _ => break,
                            }
                        }
                    }
                }
                pos = end;
            }
            ensure!(pos == b.len(), "structure does not end with the message");
            ctx.outcome(if pointers > 0 { "with-pointers" } else { "no-pointer" });
            Ok(())
        });
    }
}

pub fn c19(h: &mut H) {
    // every class word of a question and of records, parsed and emitted again
    h.explore("question-class", &|ctx| {
        let w = ctx.choose(65536) as u16;
        let mut b = vec![0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0];
        enc_name(&n("a.local"), &mut b);
        b.extend([0, 12]);
        b.extend(w.to_be_bytes());
        ctx.state(&w);
        ctx.step();
        let got = Packet::try_from(b.as_slice());
        let ok = is_qclass(w & 0x7fff);
        if w & 0x8000 != 0 && !MDNS {
            // the bit has no meaning here: either refused, or read without the bit
            if let Ok(p) = got {
                ensure!(u16::from(*p.questions()[0].class()) == w & 0x7fff, "class {w:#06x} read as {:?}", p.questions()[0].class());
            }
            ctx.outcome("bit-without-mdns");
            return Ok(());
        }
        match got {
            Err(e) => ensure!(!ok, "class word {w:#06x} rejected: {e:?}"),
            Ok(p) => {
                ensure!(ok, "class word {w:#06x} accepted");
                let q = &p.questions()[0];
                ensure!(u16::from(*q.class()) == w & 0x7fff, "class word {w:#06x} read as {:?}", q.class());
                #[cfg(feature = "mdns")]
                ensure!(q.unicast_response() == (w & 0x8000 != 0), "unicast-response of {w:#06x} read as {}", q.unicast_response());
                ensure!(p.to_bytes() == b, "class word {w:#06x} emitted as {}", hex(&p.to_bytes()));
                ensure!(p.to_bytes_compressed() == b, "class word {w:#06x} emitted (compressed) as {}", hex(&p.to_bytes_compressed()));
            }
        }
        ctx.outcome("checked");
        Ok(())
    });
    h.explore("record-class", &|ctx| {
        let t = *ctx.pick(rtypes());
        let all = matches!(t, 1 | 2 | 41);
        let w = if all { ctx.choose(65536) as u16 } else { *ctx.pick(&[0u16, 1, 2, 3, 4, 5, 254, 255, 512, 1232, 4096, 0x7fff, 0x8000, 0x8001, 0x8004, 0x8005, 0x80ff, 0xffff]) };
        let mut r = base_rr(t, n("host.local"));
        let mut m = Msg { id: 9, flags: 0x8400, ..Default::default() };
        r.ttl = 120;
        let gray = w & 0x8000 != 0 && !MDNS && t != 41;
        if t == 41 {
            r.class = w;
        } else {
            r.class = w & 0x7fff;
            r.flush = w & 0x8000 != 0;
        }
        let sec = ctx.choose(3);
        m.secs[sec].push(r.clone());
        let b = enc_msg(&m);
        m.secs[sec][0].flush &= MDNS;
        ctx.state(&b);
        ctx.note(|| hex(&b));
        ctx.step();
        match Packet::try_from(b.as_slice()) {
            Err(_) if gray => ctx.outcome("bit-without-mdns"),
            Err(e) => return fail(format!("{} record with class word {w:#06x} rejected: {e:?}", tname(t))),
            Ok(p) => {
                if let Some(d) = diff_packet(&p, &m) {
                    return fail(format!("class word {w:#06x} of a {} record: {d}", tname(t)));
                }
                if !gray {
                    ensure!(p.to_bytes() == b, "class word {w:#06x} of {} emitted as {}", tname(t), hex(&p.to_bytes()));
                    let c = p.to_bytes_compressed();
                    let mut rd = Rd::new(&c);
                    ensure!(matches!(message(&mut rd), Ok(x) if x == m), "class word {w:#06x} of {} emitted (compressed) as {}", tname(t), hex(&c));
                }
                ctx.outcome("checked");
            }
        }
        Ok(())
    });
    // built values: flags clear when new, setters touch nothing else, encodings independent of the configuration
    for scen in ["class", "question", "mixed", "ttl"] {
        h.explore(&format!("built-{scen}"), &|ctx| {
            let (m, p) = built(ctx, scen)?;
            ctx.step();
            let b = p.to_bytes();
            ctx.state(&b);
            ensure!(b == enc_msg(&m), "encoded as {} instead of {}", hex(&b), hex(&enc_msg(&m)));
            let c = p.to_bytes_compressed();
            let mut r = Rd::new(&c);
            ensure!(matches!(message(&mut r), Ok(x) if x == m), "compressed encoding {} denotes another message", hex(&c));
            ctx.outcome("checked");
            Ok(())
        });
    }
    h.explore("fresh", &|ctx| {
        let t = *ctx.pick(rtypes());
        let nm = ctx.pick(names_small()).clone();
        ctx.state(&(t, &nm));
        let (Some(rt), Some(rd)) = (rtype(t), build_rdata(t, &tdom(t).base)) else { return fail(format!("type {t} not constructible")) };
        ctx.step();
        #[allow(unused_mut)]
        let mut r = ResourceRecord::new(fqdn(&nm), rt, class_of(1, 1), 5, rd);
        let b = r.to_bytes();
        let at = wire_len(&nm) + 2;
        ensure!(b[at..at + 2] == [0, 1], "a new record carries class word {}", hex(&b[at..at + 2]));
        #[allow(unused_mut)]
        let mut q = Question::new(fqdn(&nm), QType::try_from(t).map_err(|e| Violation(format!("query type {t}: {e:?}")))?, QClass::IN);
        let c = q.to_bytes();
        ensure!(c[at..at + 2] == [0, 1], "a new question carries class word {}", hex(&c[at..at + 2]));
        #[cfg(feature = "mdns")]
        {
            ensure!(!r.cache_flush() && !q.unicast_response(), "flag set in a new value");
            for v in [true, true, false, true, false, false] {
                r.set_cache_flush(v);
                q.set_unicast_response(v);
                ensure!(r.cache_flush() == v && q.unicast_response() == v, "setter");
                let mut want = b.clone();
                want[at] |= (v as u8) << 7;
                ensure!(r.to_bytes() == want, "cache-flush={v} encodes as {}", hex(&r.to_bytes()));
                let mut want = c.clone();
                want[at] |= (v as u8) << 7;
                ensure!(q.to_bytes() == want, "unicast-response={v} encodes as {}", hex(&q.to_bytes()));
            }
        }
        ctx.outcome("checked");
        Ok(())
    });
}

pub fn c22(h: &mut H) {
    let types: Vec<u16> = if DNSSEC { vec![62, 47] } else { vec![62] };
    let mk = |t: u16, s: &BTreeSet<u16>| -> Vec<V> { if t == 62 { vec![V::N(1), V::N(3), V::S(s.clone())] } else { vec![V::Nm(n("z.example")), V::S(s.clone())] } };
    let check = move |ctx: &mut Ctx, t: u16, s: &BTreeSet<u16>| -> Res {
        let rd = mk(t, s);
        let Some(d) = build_rdata(t, &rd) else { return fail(format!("set {s:?} not constructible")) };
        ctx.step();
        let b = d.to_bytes();
        let e = enc_rdata(t, &rd);
        ctx.state(&e);
        ctx.note(|| format!("{} types {s:?} -> {}", tname(t), hex(&b)));
        ensure!(b == e, "{} type set {s:?} encodes as {} instead of {}", tname(t), hex(&b), hex(&e));
        let mut buf = DnsBuffer::from(b.as_slice());
        let Some(rt) = rtype(t) else { return fail("type") };
        ctx.step();
        match RecordData::from(rt, &mut buf) {
            Ok(x) => ensure!(x == d && diff_rdata(&x, t, &rd).is_none(), "{} type set {s:?} reads back as {x:?}", tname(t)),
            Err(e) => return fail(format!("{} type set {s:?} does not read back: {e:?}", tname(t))),
        }
        // the compressed message carries the same bitmap
        let m = Msg { id: 1, flags: 0x8400, secs: [vec![Rm { name: n("a.example"), rtype: t, class: 1, flush: false, ttl: 1, rd }], vec![], vec![]], ..Default::default() };
        let Some(p) = build_packet(&m) else { return fail("packet") };
        ctx.step();
        let c = p.to_bytes_compressed();
        let mut r = Rd::new(&c);
        ensure!(matches!(message(&mut r), Ok(x) if x == m) && r.gray == Gray::No, "compressed message with {} types {s:?} denotes another set: {}", tname(t), hex(&c));
        ctx.outcome("set");
        Ok(())
    };
    let t2 = types.clone();
    h.explore("subsets-window", &|ctx| {
        // every subset of 13 types around window and octet borders
        let t = *ctx.pick(&t2);
        let base: Vec<u16> = if DNSSEC { vec![1, 2, 6, 15, 16, 28, 46, 47, 48, 64, 250, 256, 257] } else { vec![1, 2, 6, 15, 16, 28, 29, 44, 49, 64, 250, 256, 257] };
        let k = if ctx.thorough { 13 } else { 13 };
        let mut s = BTreeSet::new();
        let mask = ctx.choose(1 << k);
        for (i, t) in base.iter().take(k).enumerate() {
            if mask >> i & 1 == 1 {
                s.insert(*t);
            }
        }
        check(ctx, t, &s)
    });
    let t2 = types.clone();
    h.explore("small-sets", &|ctx| {
        let t = *ctx.pick(&t2);
        let mut s = BTreeSet::new();
        for _ in 0..if ctx.thorough { 4 } else { 3 } {
            let i = ctx.choose(rtypes().len() + 1);
            if i > 0 {
                s.insert(rtypes()[i - 1]);
            }
        }
        let s = if ctx.flag() { rtypes().iter().copied().filter(|x| !s.contains(x)).collect() } else { s };
        check(ctx, t, &s)
    });
    // reading: every window number and length with one bit anywhere
    let t2 = types.clone();
    h.explore("read-window", &|ctx| {
        let t = *ctx.pick(&t2);
        let w = ctx.choose(256);
        let few = w > 2 && w < 253;
        let len = if few { *ctx.pick(&[0usize, 1, 2, 31, 32, 33, 255]) } else { ctx.choose(256) };
        let mut bits = vec![0u8; len];
        if len > 0 && ctx.flag() {
            let i = ctx.choose(len.min(if few { 3 } else { 40 }));
            bits[i] = *ctx.pick(&[1u8, 2, 4, 8, 16, 32, 64, 128, 0xff]);
        }
        bitmap_read(ctx, t, &[(w as u8, bits)], 0)
    });
    h.explore("read-octets", &|ctx| {
        // all values of each octet of window 0 and 1
        let t = *ctx.pick(&types);
        let i = ctx.choose(33);
        let mut bits = vec![0u8; i + 1];
        bits[i] = ctx.choose(256) as u8;
        let two = ctx.choose(4);
        let w1 = vec![*ctx.pick(&[0u8, 0x80, 0x40, 0xC0, 0x20])];
        match two {
            0 => bitmap_read(ctx, t, &[(0, bits)], 0),
            1 => bitmap_read(ctx, t, &[(0, bits), (1, w1)], 0),
            2 => bitmap_read(ctx, t, &[(1, w1), (0, bits)], 0),
            _ => {
                let cut = ctx.choose(4);
                bitmap_read(ctx, t, &[(0, bits), (1, w1)], cut)
            }
        }
    });
}
fn bitmap_read(ctx: &mut Ctx, t: u16, wins: &[(u8, Vec<u8>)], cut: usize) -> Res {
    let mut b = if t == 62 { vec![0, 0, 0, 7, 0, 1] } else { vec![1, b'z', 0] };
    for (w, bits) in wins {
        b.push(*w);
        b.push(bits.len() as u8);
        b.extend(bits);
    }
    b.truncate(b.len() - cut);
    ctx.state(&(t, &b));
    ctx.note(|| hex(&b));
    let Some(rt) = rtype(t) else { return fail("type") };
    ctx.step();
    let mut d = DnsBuffer::from(b.as_slice());
    let got = RecordData::from(rt, &mut d);
    let mut r = Rd::new(&b);
    match (got, r.rdata(t)) {
        (Err(_), Err(_)) => ctx.outcome("both-reject"),
        (Err(_), Ok(_)) if r.gray != Gray::No => ctx.outcome("gray-rejected"),
        (Err(e), Ok(v)) => return fail(format!("bitmap {} rejected: {e:?}, holds {:?}", hex(&b), v)),
        (Ok(x), Err(_)) => return fail(format!("bad bitmap {} accepted as {}", hex(&b), short(&x))),
        (Ok(x), Ok(v)) => {
            if let Some(e) = diff_rdata(&x, t, &v) {
                return fail(format!("bitmap {}: {e}", hex(&b)));
            }
            ctx.outcome("equal");
        }
    }
    Ok(())
}
