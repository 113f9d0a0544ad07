//! Property dispatch, and the properties over the universe of built messages.

use crate::bridge::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::H;
use maybe_dns::*;

pub fn run(h: &mut H) {
    let p = h.run.property.clone();
    match p.as_str() {
        "C01" => crate::props_wire::c01(h),
        "C02" => crate::props_wire::c02(h),
        "C03" => c03(h),
        "C04" => c04(h),
        "C05" => c05(h),
        "C06" => crate::props_wire::c06(h),
        "C07" => crate::props_wire::c07(h),
        "C08" => crate::props_wire::c08(h),
        "C09" => crate::props_api::c09(h),
        "C10" => crate::props_api::c10(h),
        "C11" => crate::props_api::c11(h),
        "C12" => crate::props_wire::c12(h),
        "C13" => c13(h),
        "C14" => crate::props_api::c14(h),
        "C15" => crate::props_api::c15(h),
        #[cfg(feature = "dnssec")]
        "C16" => crate::props_sec::c16(h),
        "C17" => c17(h),
        "C18" => crate::props_wire::c18(h),
        "C19" => crate::props_wire::c19(h),
        "C20" => crate::props_api::c20(h),
        "C21" => crate::props_api::c21(h),
        "C22" => crate::props_wire::c22(h),
        "C23" => crate::props_api::c23(h),
        "C24" => crate::props_val::c24(h),
        "C25" => crate::props_val::c25(h),
        _ => {
            eprintln!("property {p} has no harness in configuration {}", h.run.config);
            std::process::exit(2)
        }
    }
}

/// A message of the scenario and the packet built from it.
pub fn built(ctx: &mut Ctx, scen: &str) -> Result<(Msg, Packet), Violation> {
    let m = gen_msg(ctx, scen);
    ctx.note(|| describe(&m));
    ctx.step();
    match build_packet(&m) {
        Some(p) => Ok((m, p)),
        None => fail(format!("a message of representable values cannot be built: {}", describe(&m))),
    }
}

fn c03(h: &mut H) {
    for scen in SCEN {
        h.explore(&format!("build-{scen}"), &|ctx| {
            let (m, p) = built(ctx, scen)?;
            let b = p.to_bytes();
            ctx.state(&b);
            ctx.step();
            ctx.note(|| format!("plain {}", hex(&b)));
            ctx.step();
            match Packet::try_from(b.as_slice()) {
                Err(e) => fail(format!("built packet does not parse back: {e:?}; wire {}", hex(&b))),
                Ok(q) => {
                    if let Some(d) = diff_packet(&q, &m) {
                        return fail(format!("parsed back differently: {d}"));
                    }
                    ensure!(q == p, "packet parsed back is not equal to the packet built");
                    ctx.outcome("roundtrip");
                    Ok(())
                }
            }
        });
    }
}

fn c04(h: &mut H) {
    for scen in SCEN {
        h.explore(&format!("compress-{scen}"), &|ctx| {
            let (m, p) = built(ctx, scen)?;
            let b = p.to_bytes_compressed();
            ctx.step();
            ctx.state(&b);
            ctx.note(|| format!("compressed {}", hex(&b)));
            let mut r = Rd::new(&b);
            match message(&mut r) {
                Err(_) => return fail(format!("compressed form is not decodable by the reference decoder: {}", hex(&b))),
                Ok(x) => {
                    ensure!(r.left() == 0, "{} octets left behind the compressed message {}", r.left(), hex(&b));
                    ensure!(x == m, "compressed form denotes a different message: {} instead of {}", describe(&x), describe(&m));
                    ensure!(r.gray == Gray::No, "compressed form is irregular: {}", hex(&b));
                }
            }
            if r.ptrs.is_empty() {
                ctx.outcome("no-pointer");
            } else {
                ctx.outcome("with-pointers");
            }
            ctx.step();
            match Packet::try_from(b.as_slice()) {
                Err(e) => return fail(format!("compressed form does not parse: {e:?}: {}", hex(&b))),
                Ok(q) => {
                    if let Some(d) = diff_packet(&q, &m) {
                        return fail(format!("compressed form parses differently: {d}"));
                    }
                }
            }
            Ok(())
        });
    }
    // messages with very many different names: a table of names must keep all of them apart
    h.explore("compress-many", &|ctx| {
        let k = ctx.choose(if ctx.thorough { 256 } else { 16 });
        let shape = ctx.choose(2);
        let label = |i: usize| -> Vec<u8> { (0..5).map(|p| b'a' + (i / 26usize.pow(p) % 26) as u8).collect() };
        let mut m = Msg { id: k as u16, flags: 0x8400, ..Default::default() };
        let total = if shape == 0 { 16000 } else { 65535 };
        // the names that fit below the largest offset a pointer can express come first
        for i in 0..1600 {
            m.qs.push(Qm { name: vec![label(k * 70000 + i)], qtype: 1, qclass: 1, uni: false });
        }
        for i in 0..total {
            let nm = label(k * 70000 + 1600 + i);
            let mut r = base_rr(1, if shape == 0 { vec![nm.clone(), label(k * 70000 + i % 1700)] } else { vec![nm] });
            r.ttl = i as u32;
            m.secs[0].push(r);
        }
        let p = match build_packet(&m) {
            Some(p) => p,
            None => return fail("message cannot be built"),
        };
        ctx.state(&(k, shape));
        ctx.step();
        let b = p.to_bytes_compressed();
        let mut r = Rd::new(&b);
        match message(&mut r) {
            Ok(x) => {
                if let Some(i) = (0..m.qs.len()).find(|i| x.qs.get(*i) != Some(&m.qs[*i])) {
                    return fail(format!("question {i} changed: {:?} instead of {:?}", x.qs.get(i), m.qs[i]));
                }
                if let Some(i) = (0..m.secs[0].len()).find(|i| x.secs[0].get(*i) != Some(&m.secs[0][*i])) {
                    return fail(format!("record {i} changed: {:?} instead of {:?}", x.secs[0].get(i), m.secs[0][i]));
                }
                ensure!(x == m && r.left() == 0, "the compressed form of {} records denotes another message", total);
            }
            Err(_) => return fail(format!("the compressed form of {total} records is not decodable")),
        }
        ctx.outcome("many");
        Ok(())
    });
}

pub fn svcb_params(d: &RecordData) -> usize {
    match d {
        RecordData::SVCB(s) => s.params.len(),
        _ => 0,
    }
}
fn size<T: ByteConvertible + ?Sized>(ctx: &mut Ctx, what: &str, v: &T, extra: usize) -> Res {
    ctx.step();
    let b = v.to_bytes();
    let s = v.byte_size();
    if s == b.len() {
        return Ok(());
    }
    if extra > 0 && s == b.len() + extra {
        ctx.known("svcb-size", || format!("{what} with {} service parameters announces {s} octets, serialises {}", extra / 4, b.len()));
        return Ok(());
    }
    fail(format!("{what} announces {s} octets, serialises {}: {}", b.len(), hex(&b)))
}
fn c05(h: &mut H) {
    for scen in SCEN {
        h.explore(&format!("size-{scen}"), &|ctx| {
            let (_, p) = built(ctx, scen)?;
            ctx.state(&p.to_bytes());
            let recs = || p.answers().iter().chain(p.authorities()).chain(p.additionals());
            let extra: usize = recs().map(|r| 4 * svcb_params(r.data())).sum();
            size(ctx, "packet", &p, extra)?;
            size(ctx, "header", p.header(), 0)?;
            for q in p.questions().iter().take(4) {
                size(ctx, "question", q, 0)?;
                size(ctx, "name", q.name(), 0)?;
                size(ctx, "query type", q.query_type(), 0)?;
                size(ctx, "query class", q.class(), 0)?;
                ensure!(q.name().len() == q.name().to_bytes().len(), "name length");
            }
            for r in recs().take(6) {
                let x = 4 * svcb_params(r.data());
                size(ctx, "record", r, x)?;
                size(ctx, "record data", r.data(), x)?;
                size(ctx, "record type", r.record_type(), 0)?;
                size(ctx, "record class", r.class(), 0)?;
                size(ctx, "name", r.name(), 0)?;
                ensure!(r.data_raw() == r.data().to_bytes(), "data_raw differs from the data's octets");
                match r.data() {
                    RecordData::SVCB(s) => {
                        size(ctx, "SVCB", s, x)?;
                        for q in &s.params {
                            size(ctx, "service parameter", q, 0)?;
                        }
                    }
                    RecordData::APL(a) => {
                        size(ctx, "APL", a, 0)?;
                        size(ctx, "APL address", &a.afd_part, 0)?;
                    }
                    RecordData::IPSECKEY(k) => {
                        size(ctx, "IPSECKEY", k, 0)?;
                        size(ctx, "gateway", &k.gateway, 0)?;
                    }
                    _ => {}
                }
                let set = ResourceRecordSet::new(r.name(), *r.record_type(), *r.class(), r.time_to_live(), vec![r.data(), r.data()]);
                size(ctx, "record set", &set, 2 * x)?;
            }
            ctx.outcome(if extra > 0 { "svcb" } else { "sized" });
            Ok(())
        });
    }
    // what parsing produced announces its size as well
    for scen in ["trunc", "insdel", "follow", "subst"] {
        h.explore(&format!("parsed-{scen}"), &|ctx| {
            let b = gen_raw(ctx, scen);
            ctx.state(&b);
            ctx.note(|| hex(&b));
            ctx.step();
            let Ok(p) = Packet::try_from(b.as_slice()) else {
                ctx.outcome("rejected");
                return Ok(());
            };
            let recs = || p.answers().iter().chain(p.authorities()).chain(p.additionals());
            let extra: usize = recs().map(|r| 4 * svcb_params(r.data())).sum();
            size(ctx, "packet", &p, extra)?;
            for r in recs() {
                let x = 4 * svcb_params(r.data());
                size(ctx, "record", r, x)?;
                size(ctx, "record data", r.data(), x)?;
            }
            ctx.outcome("sized");
            Ok(())
        });
    }
}

fn c13(h: &mut H) {
    for scen in SCEN {
        h.explore(&format!("encode-{scen}"), &|ctx| {
            let (m, p) = built(ctx, scen)?;
            let b = p.to_bytes();
            ctx.step();
            let e = enc_msg(&m);
            ctx.state(&e);
            ctx.note(|| format!("reference {} crate {}", hex(&e), hex(&b)));
            if b != e {
                let i = b.iter().zip(&e).position(|(x, y)| x != y).unwrap_or(b.len().min(e.len()));
                return fail(format!("encodes differently from the reference at octet {i}: {} instead of {} ({})", hex(&b), hex(&e), describe(&m)));
            }
            // the compressed form has the same layout, names apart
            let c = p.to_bytes_compressed();
            ctx.step();
            let mut rd = Rd::new(&c);
            match message(&mut rd) {
                Ok(x) => ensure!(x == m && rd.left() == 0, "the compressed form {} has another layout than {}", hex(&c), hex(&e)),
                Err(_) => return fail(format!("the compressed form does not have the layout of its types: {} for {}", hex(&c), describe(&m))),
            }
            for (sec, ms) in [p.answers(), p.authorities(), p.additionals()].iter().zip(&m.secs) {
                for (r, mr) in sec.iter().zip(ms).take(3) {
                    let d = enc_rdata(mr.rtype, &mr.rd);
                    ctx.step();
                    ensure!(r.data().to_bytes() == d, "{} data encodes to {} instead of {}", tname(mr.rtype), hex(&r.data().to_bytes()), hex(&d));
                    ensure!(r.data_raw() == d, "data_raw differs");
                    let mut w = vec![];
                    enc_record(mr, &mut w);
                    ensure!(r.to_bytes() == w, "record encodes to {} instead of {}", hex(&r.to_bytes()), hex(&w));
                }
            }
            for (q, mq) in p.questions().iter().zip(&m.qs).take(3) {
                let mut w = vec![];
                enc_question(mq, &mut w);
                ensure!(q.to_bytes() == w, "question encodes to {} instead of {}", hex(&q.to_bytes()), hex(&w));
            }
            ctx.outcome("equal");
            Ok(())
        });
    }
}

/// DHCID digests in every configuration; key tags and DS digests with dnssec.
fn c17(h: &mut H) {
    let max = if h.run.thorough { 600 } else { 300 };
    h.explore("dhcid", &move |ctx| {
        let code = ctx.choose(3);
        let (id, nm) = match ctx.choose(3) {
            0 => (pat(ctx.choose(max), 3), n("chi6.example.com")),
            1 => (vec![1, 2, 3], ctx.pick(names_full()).clone()),
            _ => {
                let v = vec![ctx.choose(256) as u8, 1];
                (v, ctx.pick(names_small()).clone())
            }
        };
        ctx.note(|| format!("identifier {} name {}", hex(&id), show_name(&nm)));
        let t = [rdata::dhcid::IdentifierType::ChaddrOfDhcpRequest, rdata::dhcid::IdentifierType::ClientIdentifierOption, rdata::dhcid::IdentifierType::DUID][code];
        ctx.step();
        let d = rdata::Dhcid::new(t, &id, &fqdn(&nm));
        let mut w = id.clone();
        let mut nw = vec![];
        enc_name(&nm, &mut nw);
        w.extend(nw.to_ascii_lowercase());
        let e = ring::digest::digest(&ring::digest::SHA256, &w);
        ctx.state(&w);
        ensure!(d.digest == e.as_ref(), "DHCID digest {} instead of {}", hex(&d.digest), hex(e.as_ref()));
        ensure!(d.identifier_code == t, "identifier type changed");
        let mut full = vec![0, code as u8, 1];
        full.extend_from_slice(e.as_ref());
        ensure!(d.to_bytes() == full, "DHCID encodes to {}", hex(&d.to_bytes()));
        ctx.outcome("dhcid");
        Ok(())
    });
    #[cfg(feature = "dnssec")]
    crate::props_sec::c17(h);
}
