//! Properties of the object interfaces: packet editing, header bits, code points, cursor, record
//! sets, names, determinism, errors.

use crate::bridge::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::props::built;
use crate::H;
use maybe_dns::rdata::*;
use maybe_dns::*;
use std::collections::BTreeMap;

// ------------------------------------------------------------------ C09: packet editing histories
#[derive(Clone)]
struct Pk {
    p: Packet,
    m: Msg,
}
fn item_q(i: usize) -> Qm {
    [
        Qm { name: n("www.example.com"), qtype: 1, qclass: 1, uni: false },
        Qm { name: n("example.com"), qtype: 255, qclass: 255, uni: false },
    ][i]
        .clone()
}
fn item_r(i: usize) -> Rm {
    match i {
        0 => base_rr(1, n("www.example.com")),
        _ => base_rr(15, n("example.com")),
    }
}
fn lists<T>(f: fn(usize) -> T) -> Vec<Vec<T>> {
    vec![vec![], vec![f(0)], vec![f(1), f(0)]]
}
fn real_q(v: &[Qm]) -> Vec<Question> {
    v.iter().map(|q| build_question(q).expect("question")).collect()
}
fn real_r(v: &[Rm]) -> Vec<ResourceRecord> {
    v.iter().map(|r| build_record(r).expect("record")).collect()
}
const HDRS: [(u16, u16, [u16; 4]); 4] = [(7, 0x0100, [0; 4]), (0xfffe, 0x8580, [65535; 4]), (1, 0x7b7f, [1, 2, 3, 4]), (0, 0xffff, [0, 65535, 1, 0])];

fn check_packet(p: &Packet, m: &Msg) -> Res {
    if let Some(d) = diff_packet(p, m) {
        return fail(d);
    }
    let want = [m.qs.len(), m.secs[0].len(), m.secs[1].len(), m.secs[2].len()];
    for (what, b) in [("plain", p.to_bytes()), ("compressed", p.to_bytes_compressed())] {
        ensure!(b.len() >= 12, "{what} form has {} octets", b.len());
        for i in 0..4 {
            let c = (b[4 + 2 * i] as usize) << 8 | b[5 + 2 * i] as usize;
            ensure!(c == want[i], "{what} form announces {c} entries in section {i}, there are {}: {}", want[i], hex(&b));
        }
        let mut r = Rd::new(&b);
        match message(&mut r) {
            Ok(x) => ensure!(&x == m && r.left() == 0, "{what} form denotes a different message: {}", hex(&b)),
            Err(_) => return fail(format!("{what} form is not decodable: {}", hex(&b))),
        }
    }
    ensure!(p.to_bytes() == enc_msg(m), "plain form {} instead of {}", hex(&p.to_bytes()), hex(&enc_msg(m)));
    Ok(())
}
const NOPS09: usize = 41;
fn op09(s: &Pk, op: usize, maxlen: usize, ctx: &mut Ctx) -> Result<Option<Pk>, Violation> {
    let mut t = s.clone();
    let full = |l: usize| l >= maxlen;
    let (p, m) = (&mut t.p, &mut t.m);
    let name;
    match op {
        0 | 1 => {
            if full(m.qs.len()) {
                return Ok(None);
            }
            name = format!("add_question {op}");
            p.add_question(real_q(&[item_q(op)]).remove(0));
            m.qs.push(item_q(op));
        }
        2..=7 => {
            let (sec, i) = ((op - 2) / 2, (op - 2) % 2);
            if full(m.secs[sec].len()) {
                return Ok(None);
            }
            name = format!("add to section {sec} item {i}");
            let r = real_r(&[item_r(i)]).remove(0);
            match sec {
                0 => p.add_answer(r),
                1 => p.add_authority(r),
                _ => p.add_additional(r),
            }
            m.secs[sec].push(item_r(i));
        }
        8..=10 => {
            let l = lists(item_q).remove(op - 8);
            name = format!("set_questions {} items", l.len());
            p.set_questions(real_q(&l));
            m.qs = l;
        }
        11..=19 => {
            let (sec, i) = ((op - 11) / 3, (op - 11) % 3);
            let l = lists(item_r).remove(i);
            name = format!("set section {sec} to {} items", l.len());
            match sec {
                0 => p.set_answers(real_r(&l)),
                1 => p.set_authorities(real_r(&l)),
                _ => p.set_additionals(real_r(&l)),
            }
            m.secs[sec] = l;
        }
        20 => {
            name = "take_questions".into();
            let got = p.take_questions();
            let want = std::mem::take(&mut m.qs);
            ensure!(got == real_q(&want), "take_questions returned {} entries instead of {}", got.len(), want.len());
        }
        21..=23 => {
            let sec = op - 21;
            name = format!("take section {sec}");
            let got = match sec {
                0 => p.take_answers(),
                1 => p.take_authorities(),
                _ => p.take_additionals(),
            };
            let want = std::mem::take(&mut m.secs[sec]);
            ensure!(got == real_r(&want), "taking section {sec} returned {} entries instead of {}", got.len(), want.len());
        }
        24 | 25 => {
            if full(m.qs.len()) {
                return Ok(None);
            }
            name = format!("questions_mut push {}", op - 24);
            p.questions_mut().push(real_q(&[item_q(op - 24)]).remove(0));
            m.qs.push(item_q(op - 24));
        }
        26 => {
            name = "questions_mut pop".into();
            p.questions_mut().pop();
            m.qs.pop();
        }
        27 => {
            name = "questions_mut clear".into();
            p.questions_mut().clear();
            m.qs.clear();
        }
        28..=31 => {
            let (id, flags, c) = HDRS[op - 28];
            name = format!("set_header id={id} flags={flags:04x} counts={c:?}");
            p.set_header(header_from(id, flags, c));
            m.id = id;
            m.flags = flags;
        }
        32 => {
            name = "set_id".into();
            p.set_id(0xa55a);
            m.id = 0xa55a;
        }
        33 => {
            name = "set_truncation".into();
            p.set_truncation(true);
            m.flags |= 0x0200;
        }
        34 => {
            name = "set_query_response(false)".into();
            p.set_query_response(false);
            m.flags &= !0x808f;
        }
        35 => {
            name = "set_response_code(3)".into();
            p.set_response_code(ResponseCode::NameError);
            m.flags = (m.flags & !0xf) | 0x8003;
        }
        36 => {
            name = "parse plain".into();
            match Packet::try_from(p.to_bytes().as_slice()) {
                Ok(q) => *p = q,
                Err(e) => return fail(format!("own plain form does not parse: {e:?}")),
            }
        }
        37 => {
            name = "parse compressed".into();
            match Packet::try_from(p.to_bytes_compressed().as_slice()) {
                Ok(q) => *p = q,
                Err(e) => return fail(format!("own compressed form does not parse: {e:?}")),
            }
        }
        38 => {
            name = "clone".into();
            *p = p.clone();
        }
        39 => {
            if m.qs.is_empty() {
                return Ok(None);
            }
            name = "questions_mut swap/replace".into();
            p.questions_mut().reverse();
            m.qs.reverse();
            p.questions_mut()[0] = real_q(&[item_q(1)]).remove(0);
            m.qs[0] = item_q(1);
        }
        _ => {
            name = "set_header(own header)".into();
            let hd = p.header().clone();
            p.set_header(hd);
        }
    }
    ctx.note(|| name.clone());
    ctx.step();
    if let Err(v) = check_packet(&t.p, &t.m) {
        return fail(format!("after {name}: {}", v.0));
    }
    ctx.outcome("checked");
    Ok(Some(t))
}
pub fn c09(h: &mut H) {
    let fresh = |p: Packet, id: u16, flags: u16, qs: Vec<Qm>| Pk { p, m: Msg { id, flags, qs, ..Default::default() } };
    let parsed = {
        let m = Msg { id: 5, flags: 0x8180, qs: vec![item_q(0)], secs: [vec![item_r(0)], vec![item_r(1)], vec![item_r(0)]] };
        Pk { p: Packet::try_from(enc_msg(&m).as_slice()).expect("seed message"), m }
    };
    let init = vec![
        fresh(Packet::new_query(0x0102, true), 0x0102, 0x0100, vec![]),
        fresh(Packet::new_query(0, false), 0, 0, vec![]),
        fresh(Packet::new_reply(9), 9, 0x8000, vec![]),
        fresh(Packet::default(), 0, 0, vec![]),
        fresh(Packet::with_questions(3, true, real_q(&[item_q(0), item_q(1)])), 3, 0x0100, vec![item_q(0), item_q(1)]),
        fresh(Packet::with_questions(3, false, vec![]), 3, 0, vec![]),
        parsed,
    ];
    let i2 = init.clone();
    h.explore("initial", &move |ctx| {
        let s = ctx.pick(&i2);
        ctx.state(&s.p.to_bytes());
        ctx.step();
        check_packet(&s.p, &s.m)
    });
    let (maxlen, depth) = if h.run.thorough { (3, 5) } else { (2, 4) };
    h.bfs("histories", init, NOPS09, depth, &move |s, op, ctx| op09(s, op, maxlen, ctx), &|s| hash64(&(format!("{:?}", s.p), &s.m)));
    // every operation, then a take, on packets of many sizes under every header bit
    h.explore("sized", &|ctx| {
        let mut words = vec![0u16, 0xffff, 0x8180, 0x7fff];
        words.extend((0..16).map(|i| 1u16 << i));
        let flags = *ctx.pick(&words);
        let sec = ctx.choose(4);
        let size = *ctx.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 65]);
        let alike = ctx.flag();
        let mut m = Msg { id: 0x1234, flags, ..Default::default() };
        m.qs = (0..if sec == 0 { size } else { 2 }).map(|i| item_q(if alike { 0 } else { i % 2 })).collect();
        for s in 0..3 {
            m.secs[s] = (0..if sec == s + 1 { size } else { 1 })
                .map(|i| if alike { item_r(0) } else { Rm { ttl: i as u32, ..item_r(i % 2) } })
                .collect();
        }
        let mut p = Packet::default();
        if ctx.flag() {
            p = Packet::try_from(enc_msg(&m).as_slice()).map_err(|e| Violation(format!("message does not parse: {e:?}")))?;
        } else {
            p.set_header(header_from(m.id, flags, [0; 4]));
            p.set_questions(real_q(&m.qs));
            for r in real_r(&m.secs[0]) {
                p.add_answer(r);
            }
            p.set_authorities(real_r(&m.secs[1]));
            p.set_additionals(real_r(&m.secs[2]));
        }
        ctx.state(&(flags, sec, size, alike));
        check_packet(&p, &m)?;
        let op = ctx.choose(NOPS09);
        if let Some(t) = op09(&Pk { p, m }, op, usize::MAX, ctx)? {
            op09(&t, 20 + sec, usize::MAX, ctx)?;
        }
        Ok(())
    });
    // counts at the 16-bit limit, and sections filled one by one
    h.explore("large", &|ctx| {
        let cnt = *ctx.pick(&[255usize, 256, 257, 65534, 65535]);
        let sec = ctx.choose(4);
        let how = ctx.choose(3);
        let mut p = Packet::new_query(1, false);
        let mut m = Msg { id: 1, ..Default::default() };
        let q = Qm { name: vec![], qtype: 1, qclass: 1, uni: false };
        let r = base_rr(1, vec![]);
        match how {
            2 if sec == 0 => {
                for _ in 0..cnt {
                    p.questions_mut().push(real_q(&[q.clone()]).remove(0));
                }
            }
            0 | 2 => {
                for _ in 0..cnt {
                    match sec {
                        0 => p.add_question(real_q(&[q.clone()]).remove(0)),
                        1 => p.add_answer(real_r(&[r.clone()]).remove(0)),
                        2 => p.add_authority(real_r(&[r.clone()]).remove(0)),
                        _ => p.add_additional(real_r(&[r.clone()]).remove(0)),
                    }
                }
            }
            _ => match sec {
                0 => p.set_questions(real_q(&vec![q.clone(); cnt])),
                1 => p.set_answers(real_r(&vec![r.clone(); cnt])),
                2 => p.set_authorities(real_r(&vec![r.clone(); cnt])),
                _ => p.set_additionals(real_r(&vec![r.clone(); cnt])),
            },
        }
        if sec == 0 {
            m.qs = vec![q; cnt];
        } else {
            m.secs[sec - 1] = vec![r; cnt];
        }
        ctx.state(&(cnt, sec, how));
        ctx.step();
        ctx.outcome("large");
        check_packet(&p, &m)
    });
    // interplay with the names: sections of records sharing names, edited and emitted compressed
    h.explore("mixed", &|ctx| {
        let (m, mut p) = built(ctx, "mixed")?;
        check_packet(&p, &m)?;
        let mut m = m;
        let k = ctx.choose(5);
        ctx.note(|| format!("take {k}"));
        match k {
            0 => {
                p.take_questions();
                m.qs.clear();
            }
            1 => {
                p.take_answers();
                m.secs[0].clear();
            }
            2 => {
                p.take_authorities();
                m.secs[1].clear();
            }
            3 => {
                p.take_additionals();
                m.secs[2].clear();
            }
            _ => {
                let a = p.take_answers();
                let b = p.take_additionals();
                p.set_answers(b);
                p.set_additionals(a);
                let x = std::mem::take(&mut m.secs[0]);
                m.secs[0] = std::mem::replace(&mut m.secs[2], x);
            }
        }
        ctx.state(&enc_msg(&m));
        ctx.step();
        ctx.outcome("mixed");
        check_packet(&p, &m)
    });
}

// ------------------------------------------------------------------ C10: header bits
fn rcode_of(n: u16) -> Option<ResponseCode> {
    use ResponseCode::*;
    [NoError, FormatError, ServerFailure, NameError, NotImplemented, Refused, YXDomain, YXRRSet, NXRRSet, NotAuth, NotZone].get(n as usize).copied()
}
fn opcode_of(n: u16) -> OpCode {
    [OpCode::StandardQuery, OpCode::InverseQuery, OpCode::ServerStatusRequest].get(n as usize).copied().unwrap_or(OpCode::Reserved)
}
fn read_header(hd: &Header, f: u16) -> Res {
    ensure!(hd.query_response() == (f & 0x8000 != 0), "QR of {f:04x} read as {}", hd.query_response());
    ensure!(hd.opcode() == opcode_of(f >> 11 & 15), "OPCODE of {f:04x} read as {:?}", hd.opcode());
    ensure!(hd.authoritative_answer() == (f & 0x400 != 0), "AA of {f:04x} read as {}", hd.authoritative_answer());
    ensure!(hd.truncation() == (f & 0x200 != 0), "TC of {f:04x} read as {}", hd.truncation());
    ensure!(hd.recursion_desired() == (f & 0x100 != 0), "RD of {f:04x} read as {}", hd.recursion_desired());
    ensure!(hd.recursion_available() == (f & 0x80 != 0), "RA of {f:04x} read as {}", hd.recursion_available());
    let rc = hd.response_code();
    match rcode_of(f & 15) {
        Some(x) => ensure!(rc == x, "RCODE of {f:04x} read as {rc:?}"),
        None => ensure!((0..11).all(|i| rcode_of(i) != Some(rc)), "RCODE of {f:04x} read as {rc:?}"),
    }
    Ok(())
}
fn read_packet(p: &Packet, f: u16) -> Res {
    ensure!(p.query_response() == (f & 0x8000 != 0), "packet QR of {f:04x}");
    ensure!(p.opcode() == opcode_of(f >> 11 & 15), "packet OPCODE of {f:04x}");
    ensure!(p.authoritative_answer() == (f & 0x400 != 0), "packet AA of {f:04x}");
    ensure!(p.truncation() == (f & 0x200 != 0), "packet TC of {f:04x}");
    ensure!(p.recursion_desired() == (f & 0x100 != 0), "packet RD of {f:04x}");
    ensure!(p.recursion_available() == (f & 0x80 != 0), "packet RA of {f:04x}");
    let rc = p.response_code();
    match rcode_of(f & 15) {
        Some(x) => ensure!(rc == x, "packet RCODE of {f:04x} read as {rc:?}"),
        None => ensure!((0..11).all(|i| rcode_of(i) != Some(rc)), "packet RCODE of {f:04x} read as {rc:?}"),
    }
    Ok(())
}
const SETTERS: usize = 5 * 2 + 4 + 11;
/// Model of setter `op`: resulting flag word; `None` in the opcode bits means "any value >= 3".
fn setter_model(f: u16, op: usize) -> (u16, bool, String) {
    let bit = |f: u16, mask: u16, v: bool| if v { f | mask } else { f & !mask };
    match op {
        0..=9 => {
            let v = op % 2 == 1;
            match op / 2 {
                0 => (bit(f, 0x100, v), false, format!("set_recursion_desired({v})")),
                1 => (bit(f, 0x200, v), false, format!("set_truncation({v})")),
                2 => (bit(f, 0x400, v), false, format!("set_authoritative_answer({v})")),
                3 => {
                    let g = bit(f, 0x80, v);
                    (if v { g | 0x8000 } else { g }, false, format!("set_recursion_available({v})"))
                }
                _ => {
                    let g = bit(f, 0x8000, v);
                    (if v { g } else { g & !0x8f }, false, format!("set_query_response({v})"))
                }
            }
        }
        10..=13 => {
            let o = (op - 10) as u16;
            ((f & !0x7800) | o << 11, o == 3, format!("set_opcode({:?})", opcode_of(o)))
        }
        _ => {
            let r = (op - 14) as u16;
            let g = (f & !15) | r;
            (if r != 0 { g | 0x8000 } else { g }, false, format!("set_response_code({:?})", rcode_of(r)))
        }
    }
}
macro_rules! apply_setter {
    ($x:expr, $op:expr) => {{
        let v = $op % 2 == 1;
        match $op {
            0 | 1 => $x.set_recursion_desired(v),
            2 | 3 => $x.set_truncation(v),
            4 | 5 => $x.set_authoritative_answer(v),
            6 | 7 => $x.set_recursion_available(v),
            8 | 9 => $x.set_query_response(v),
            10..=13 => $x.set_opcode(opcode_of(($op - 10) as u16)),
            _ => $x.set_response_code(rcode_of(($op - 14) as u16).expect("rcode")),
        }
    }};
}
fn flags_of(b: &[u8]) -> u16 {
    (b[2] as u16) << 8 | b[3] as u16
}
pub fn c10(h: &mut H) {
    const IDS: [u16; 4] = [0, 0x1234, 0x8001, 0xffff];
    const COUNTS: [[u16; 4]; 2] = [[0; 4], [0x0102, 0x0304, 0xfffe, 0x8000]];
    // every flag word: reading, emitting, every setter, on headers and on packets
    h.explore("words", &|ctx| {
        let f = ctx.choose(65536) as u16;
        let idx = ctx.choose(4);
        let (id, counts) = (IDS[idx], COUNTS[idx % 2]);
        ctx.state(&(f, id));
        ctx.note(|| format!("flags {f:04x} id {id:04x}"));
        let hd = header_from(id, f, counts);
        ctx.step();
        let b = hd.to_bytes();
        let mut want = vec![];
        want.extend(id.to_be_bytes());
        want.extend(f.to_be_bytes());
        for c in counts {
            want.extend(c.to_be_bytes());
        }
        ensure!(b == want, "header {} emitted as {}", hex(&want), hex(&b));
        ensure!(header_from(id, f, counts) == hd, "header not equal to itself parsed again");
        read_header(&hd, f)?;
        let mut p = Packet::default();
        p.set_header(hd.clone());
        read_packet(&p, f)?;
        ensure!(p.id() == id, "id {:04x} read as {:04x}", id, p.id());
        for op in 0..SETTERS {
            let (g, anyop, name) = setter_model(f, op);
            let mut x = hd.clone();
            apply_setter!(x, op);
            ctx.step();
            let b = x.to_bytes();
            let got = flags_of(&b);
            let same = got == g || (anyop && (got ^ g) & !0x7800 == 0 && got >> 11 & 15 >= 3);
            ensure!(same, "{name} on {f:04x} gives {got:04x} instead of {g:04x}");
            ensure!(b[..2] == want[..2] && b[4..] == want[4..], "{name} on {} changed other fields: {}", hex(&want), hex(&b));
            read_header(&x, got)?;
            let mut q = p.clone();
            apply_setter!(q, op);
            ensure!(flags_of(&q.to_bytes()) == got, "Packet::{name} on {f:04x} gives {:04x} instead of {got:04x}", flags_of(&q.to_bytes()));
            ensure!(flags_of(&q.to_bytes_compressed()) == got && q.id() == id, "Packet::{name} on {f:04x}: compressed form or id");
            read_packet(&q, got)?;
        }
        ctx.outcome("word");
        Ok(())
    });
    // setter histories from the constructors
    let depth = if h.run.thorough { 5 } else { 4 };
    h.explore("histories", &move |ctx| {
        let (mut x, mut f) = match ctx.choose(7) {
            0 => (Header::new_query(3, true), 0x100u16),
            1 => (Header::new_query(3, false), 0),
            2 => {
                let mut d = Header::default();
                d.set_recursion_desired(false);
                (header_from(3, flags_of(&d.to_bytes()), [0; 4]), 0)
            }
            o => {
                let oc = opcode_of(o as u16 - 3);
                let x = Header::new_reply(3, oc);
                let g = flags_of(&x.to_bytes());
                ensure!(g == 0x8000 | (o as u16 - 3) << 11 || (oc == OpCode::Reserved && g & 0x87ff == 0x8000 && g >> 11 & 15 >= 3), "new_reply({oc:?}) has flags {g:04x}");
                (x, g)
            }
        };
        ensure!(flags_of(&x.to_bytes()) == f, "fresh header has flags {:04x} instead of {f:04x}", flags_of(&x.to_bytes()));
        read_header(&x, f)?;
        for _ in 0..depth {
            let op = ctx.choose(SETTERS);
            let (g, anyop, name) = setter_model(f, op);
            apply_setter!(x, op);
            ctx.step();
            let got = flags_of(&x.to_bytes());
            ensure!(got == g || (anyop && (got ^ g) & !0x7800 == 0 && got >> 11 & 15 >= 3), "{name} on {f:04x} gives {got:04x} instead of {g:04x}");
            ctx.note(|| format!("{name}: {f:04x} -> {got:04x}"));
            f = got;
        }
        read_header(&x, f)?;
        ensure!(x.to_bytes()[..2] == [0, 3] && x.to_bytes()[4..] == [0; 8], "id or counts changed: {}", hex(&x.to_bytes()));
        ctx.state(&f);
        ctx.outcome("history");
        Ok(())
    });
    // every id
    h.explore("ids", &|ctx| {
        let id = ctx.choose(65536) as u16;
        let f = *ctx.pick(&[0u16, 0x8583, 0xffff]);
        ctx.state(&id);
        ctx.step();
        let mut p = Packet::new_query(id, true);
        ensure!(p.id() == id && p.to_bytes()[..2] == id.to_be_bytes(), "id {id} of new_query");
        ensure!(Packet::new_reply(id).id() == id && Packet::with_questions(id, false, vec![]).id() == id, "id {id} of constructors");
        p.set_header(header_from(!id, f, [0; 4]));
        p.set_id(id);
        ensure!(p.id() == id, "id {id} after set_id is {}", p.id());
        for b in [p.to_bytes(), p.to_bytes_compressed()] {
            ensure!(b[..2] == id.to_be_bytes() && flags_of(&b) == f, "id {id} flags {f:04x} emitted as {}", hex(&b));
            match Packet::try_from(b.as_slice()) {
                Ok(q) => ensure!(q.id() == id && flags_of(&q.to_bytes()) == f, "id {id} parsed back as {}", q.id()),
                Err(e) => return fail(format!("header-only packet rejected: {e:?}")),
            }
        }
        ctx.outcome("id");
        Ok(())
    });
}

// ------------------------------------------------------------------ C11: code points
/// One enumeration: number -> (variant shown, number back).
type Conv = fn(u16) -> Option<(String, u16)>;
fn conv<T: std::fmt::Debug, E>(r: Result<T, E>, back: impl Fn(T) -> u16) -> Option<(String, u16)> {
    r.ok().map(|v| (format!("{v:?}"), back(v)))
}
fn enums() -> Vec<(&'static str, usize, Conv, fn(u16) -> Option<String>)> {
    fn pickn(v: u16, names: &[(u16, &str)]) -> Option<String> {
        names.iter().find(|x| x.0 == v).map(|x| x.1.to_string())
    }
    #[allow(unused_mut)]
    let mut v: Vec<(&'static str, usize, Conv, fn(u16) -> Option<String>)> = vec![
        ("RecordType", 65536, |x| conv(RecordType::try_from(x), |t| u16::from(t)), |x| is_rtype(x).then(|| tname(x).to_string())),
        ("QType", 65536, |x| conv(QType::try_from(x), |t| u16::from(t)), |x| is_qtype(x).then(|| tname(x).to_string())),
        ("QClass", 32768, |x| conv(QClass::try_from(x), |t| u16::from(t)), |x| pickn(x, &[(1, "IN"), (2, "CS"), (3, "CH"), (4, "HS"), (254, "NONE"), (255, "ANY")])),
        ("RecordClass", 32768, |x| conv(Ok::<_, ()>(RecordClass::from(x)), |t| u16::from(t)), |x| Some(pickn(x, &[(1, "IN"), (2, "CS"), (3, "CH"), (4, "HS")]).unwrap_or(format!("UdpPayloadSize({x})")))),
        ("ResponseCode", 256, |x| conv(ResponseCode::try_from(x as u8), |t| t as u16), |x| {
            pickn(x, &[(0, "NoError"), (1, "FormatError"), (2, "ServerFailure"), (3, "NameError"), (4, "NotImplemented"), (5, "Refused"), (6, "YXDomain"), (7, "YXRRSet"), (8, "NXRRSet"), (9, "NotAuth"), (10, "NotZone")])
        }),
        ("rdata::Algorithm", 256, |x| conv(Algorithm::try_from(x as u8), |t| u8::from(t) as u16), |x| pickn(x, &[(0, "Reserved"), (1, "RSA"), (2, "DSA"), (3, "ECDSA"), (4, "Ed25519"), (5, "Ed448")])),
        ("sshfp::FingerprintType", 256, |x| conv(sshfp::FingerprintType::try_from(x as u8), |t| u8::from(t) as u16), |x| pickn(x, &[(0, "Reserved"), (1, "SHA1")])),
        ("dhcid::IdentifierType", 65536, |x| conv(dhcid::IdentifierType::try_from(x), |t| u16::from(t)), |x| pickn(x, &[(0, "ChaddrOfDhcpRequest"), (1, "ClientIdentifierOption"), (2, "DUID")])),
        ("naptr::Flag", 256, |x| conv(naptr::Flag::try_from(x as u8), |t| u8::from(t) as u16), |x| pickn(x, &[(b'S' as u16, "S"), (b'A' as u16, "A"), (b'U' as u16, "U"), (b'P' as u16, "P")])),
        ("tkey::Mode", 65536, |x| conv(tkey::Mode::try_from(x), |t| u16::from(t)), |x| match x {
            0 | 65535 => None,
            x => Some(pickn(x, &[(1, "ServerAssignment"), (2, "DiffieHellmanExchange"), (3, "GssApiNegotiation"), (4, "ResolverAssignment"), (5, "KeyDeletion")]).unwrap_or(format!("Available({x})"))),
        }),
        ("tkey::Error", 65536, |x| conv(tkey::Error::try_from(x), |t| u16::from(t)), |x| match x {
            1..=15 => Some(format!("NonExtendedRcode({x})")),
            x => pickn(x, &[(0, "None"), (16, "BadSig"), (17, "BadKey"), (18, "BadTime"), (19, "BadMode"), (20, "BadName"), (21, "BadAlg")]),
        }),
        ("tsig::Error", 65536, |x| conv(tsig::Error::try_from(x), |t| u16::from(t)), |x| pickn(x, &[(0, "None"), (16, "BadSig"), (17, "BadKey"), (18, "BadTime"), (22, "BadTrunc")])),
        ("tlsa::CertUsage", 256, |x| conv(tlsa::CertUsage::try_from(x as u8), |t| u8::from(t) as u16), |x| pickn(x, &[(0, "Ca"), (1, "ServiceCertificateConstraint"), (2, "TrustAnchor"), (3, "DomainIssuedCertificate")])),
        ("tlsa::Selector", 256, |x| conv(tlsa::Selector::try_from(x as u8), |t| u8::from(t) as u16), |x| pickn(x, &[(0, "Full"), (1, "SubjectPublicKeyInfo")])),
        ("tlsa::MatchingType", 256, |x| conv(tlsa::MatchingType::try_from(x as u8), |t| u8::from(t) as u16), |x| pickn(x, &[(0, "ExactMatch"), (1, "SHA256"), (2, "SHA512")])),
        ("csync flags", 65536, |x| x.try_into().ok().map(|f| Csync::new(0, f, Default::default()).flags).map(|f| (format!("{}{}", f.immediate(), f.soa_minimum()), u16::from(f))), |x| (x <= 3).then(|| format!("{}{}", x & 1 != 0, x & 2 != 0))),
    ];
    #[cfg(feature = "dnssec")]
    {
        v.push((
            "dnssec algorithm",
            256,
            |x| (x as u8).try_into().ok().map(|a| DnsKey::new(a, vec![]).algorithm).map(|a| (format!("{a:?}"), u8::from(a) as u16)),
            |x| pickn(x, &[(1, "RSA_MD5"), (3, "DSA_SHA1"), (5, "RSA_SHA1"), (8, "RSA_SHA256"), (10, "RSA_SHA512"), (13, "ECDSA_P256"), (14, "ECDSA_P384"), (15, "ED25519"), (16, "ED448"), (252, "Indirect"), (253, "PrivateDns"), (254, "PrivateOid")]),
        ));
        v.push((
            "digest type",
            256,
            |x| (x as u8).try_into().ok().map(|d| Ds::new(0, 8u8.try_into().unwrap(), d, vec![]).digest_type).map(|d| (format!("{d:?}"), u8::from(d) as u16)),
            |x| pickn(x, &[(1, "SHA1"), (2, "SHA256"), (4, "SHA384"), (5, "SHA512")]),
        ));
    }
    v
}
/// The type a record data struct reports, and the variant it turns into.
fn reported(d: RecordData) -> (RecordType, RecordData) {
    macro_rules! all {
        ($($v:ident),*) => { match d { $(RecordData::$v(x) => (x.record_type(), x.into_record_data()),)*
            #[cfg(feature = "dnssec")] RecordData::DS(x) => (x.record_type(), x.into_record_data()),
            #[cfg(feature = "dnssec")] RecordData::RRSIG(x) => (x.record_type(), x.into_record_data()),
            #[cfg(feature = "dnssec")] RecordData::NSEC(x) => (x.record_type(), x.into_record_data()),
            #[cfg(feature = "dnssec")] RecordData::DNSKEY(x) => (x.record_type(), x.into_record_data()),
            #[cfg(feature = "dnssec")] RecordData::CDS(x) => (x.record_type(), x.into_record_data()),
            #[cfg(feature = "dnssec")] RecordData::CDNSKEY(x) => (x.record_type(), x.into_record_data()),
        } };
    }
    all!(A, NS, CNAME, SOA, NULL, WKS, PTR, HINFO, MINFO, MX, TXT, AAAA, LOC, SRV, NAPTR, OPT, APL, SSHFP, IPSECKEY, DHCID, TLSA, HIP, OPENPGPKEY, CSYNC, SVCB, EUI48, EUI64, TKEY, TSIG, URI, CAA)
}
/// The type number of a record data variant.
pub fn variant(d: &RecordData) -> u16 {
    match d {
        RecordData::A(_) => 1,
        RecordData::NS(_) => 2,
        RecordData::CNAME(_) => 5,
        RecordData::SOA(_) => 6,
        RecordData::NULL(_) => 10,
        RecordData::WKS(_) => 11,
        RecordData::PTR(_) => 12,
        RecordData::HINFO(_) => 13,
        RecordData::MINFO(_) => 14,
        RecordData::MX(_) => 15,
        RecordData::TXT(_) => 16,
        RecordData::AAAA(_) => 28,
        RecordData::LOC(_) => 29,
        RecordData::SRV(_) => 33,
        RecordData::NAPTR(_) => 35,
        RecordData::OPT(_) => 41,
        RecordData::APL(_) => 42,
        RecordData::SSHFP(_) => 44,
        RecordData::IPSECKEY(_) => 45,
        RecordData::DHCID(_) => 49,
        RecordData::TLSA(_) => 52,
        RecordData::HIP(_) => 55,
        RecordData::OPENPGPKEY(_) => 61,
        RecordData::CSYNC(_) => 62,
        RecordData::SVCB(_) => 64,
        RecordData::EUI48(_) => 108,
        RecordData::EUI64(_) => 109,
        RecordData::TKEY(_) => 249,
        RecordData::TSIG(_) => 250,
        RecordData::URI(_) => 256,
        RecordData::CAA(_) => 257,
        #[cfg(feature = "dnssec")]
        RecordData::DS(_) => 43,
        #[cfg(feature = "dnssec")]
        RecordData::RRSIG(_) => 46,
        #[cfg(feature = "dnssec")]
        RecordData::NSEC(_) => 47,
        #[cfg(feature = "dnssec")]
        RecordData::DNSKEY(_) => 48,
        #[cfg(feature = "dnssec")]
        RecordData::CDS(_) => 59,
        #[cfg(feature = "dnssec")]
        RecordData::CDNSKEY(_) => 60,
    }
}
pub fn c11(h: &mut H) {
    let es = enums();
    h.explore("enumerations", &|ctx| {
        let (name, size, f, want) = ctx.pick(&es);
        let v = ctx.choose(*size) as u16;
        ctx.state(&(name, v));
        ctx.step();
        let got = f(v);
        let exp = want(v).map(|w| (w, v));
        ensure!(got == exp, "{name}: number {v} converts to {got:?}, registered meaning is {exp:?}");
        ctx.outcome(if got.is_some() { "assigned" } else { "unassigned" });
        Ok(())
    });
    // class words with the top bit: the bit is no part of the class
    h.explore("class-top-bit", &|ctx| {
        let v = ctx.choose(32768) as u16 | 0x8000;
        ctx.state(&v);
        ctx.step();
        if let Ok(c) = QClass::try_from(v) {
            ensure!(u16::from(c) == v || u16::from(c) == v & 0x7fff, "QClass {v:#06x} converts to {c:?}");
            ensure!(is_qclass(v & 0x7fff), "QClass {v:#06x} converts to {c:?}");
        }
        let c = u16::from(RecordClass::from(v));
        ensure!(c == v || c == v & 0x7fff, "RecordClass {v:#06x} converts to {c}");
        ctx.outcome("top-bit");
        Ok(())
    });
    h.explore("opcodes", &|ctx| {
        let v = ctx.choose(256) as u8;
        ctx.state(&v);
        ctx.step();
        let o = OpCode::from(v);
        ensure!(o == opcode_of(v as u16), "opcode {v} converts to {o:?}");
        if v < 3 {
            ensure!(o as u8 == v, "opcode {v} converts back to {}", o as u8);
        }
        ctx.outcome("opcode");
        Ok(())
    });
    // the octets of type and class values
    h.explore("octets", &|ctx| {
        let v = ctx.choose(65536) as u16;
        ctx.state(&v);
        ctx.step();
        if let Ok(t) = RecordType::try_from(v) {
            ensure!(t.to_bytes() == v.to_be_bytes() && t.byte_size() == 2, "record type {v} emits {}", hex(&t.to_bytes()));
            ensure!(t as u16 == v, "record type {v} has discriminant {}", t as u16);
        }
        if let Ok(t) = QType::try_from(v) {
            ensure!(t.to_bytes() == v.to_be_bytes() && t.byte_size() == 2, "query type {v} emits {}", hex(&t.to_bytes()));
            ensure!(t as u16 == v, "query type {v} has discriminant {}", t as u16);
        }
        if v < 0x8000 {
            if let Ok(c) = QClass::try_from(v) {
                ensure!(c.to_bytes() == v.to_be_bytes(), "query class {v} emits {}", hex(&c.to_bytes()));
            }
            let c = RecordClass::from(v);
            ensure!(c.to_bytes() == v.to_be_bytes(), "record class {v} emits {}", hex(&c.to_bytes()));
        }
        let u = RecordClass::UdpPayloadSize(v);
        ensure!(u16::from(u) == v && u.to_bytes() == v.to_be_bytes(), "payload size {v} emits {}", hex(&u.to_bytes()));
        ctx.outcome("octets");
        Ok(())
    });
    // every record type number with every type's sample data
    h.explore("dispatch", &|ctx| {
        let t = *ctx.pick(rtypes());
        let tpl = ctx.pick(templates(t));
        let mut b = envelope(1);
        rr_head(&mut b, t, tpl.len());
        b.extend_from_slice(tpl);
        ctx.state(&b);
        ctx.step();
        let Some(rt) = rtype(t) else { return fail(format!("type {t} ({}) not supported", tname(t))) };
        match Packet::try_from(b.as_slice()) {
            Err(_) => ctx.outcome("rejected"),
            Ok(p) => {
                let r = &p.answers()[0];
                ensure!(*r.record_type() == rt, "record of type {t} reports {:?}", r.record_type());
                ensure!(variant(r.data()) == t, "record of type {t} carries data of {}", tname(variant(r.data())));
                let (rep, again) = reported(r.data().clone());
                // CDS and CDNSKEY share the structs of DS and DNSKEY
                let ok = match t {
                    59 => matches!(u16::from(rep), 43 | 59),
                    60 => matches!(u16::from(rep), 48 | 60),
                    _ => rep == rt && again == *r.data(),
                };
                ensure!(ok, "data of type {t} reports {rep:?} and turns into {}", tname(variant(&again)));
                ctx.outcome("dispatched");
            }
        }
        Ok(())
    });
    h.explore("unsupported", &|ctx| {
        let t = ctx.choose(65536) as u16;
        let mut b = envelope(1);
        rr_head(&mut b, t, 0);
        ctx.state(&t);
        ctx.step();
        if Packet::try_from(b.as_slice()).is_ok() {
            ensure!(is_rtype(t), "record of unassigned type {t} accepted");
        } else if matches!(t, 10 | 16 | 41 | 61) {
            return fail(format!("empty record of type {} rejected", tname(t)));
        }
        let mut q = envelope(0);
        let k = q.len() - 4;
        q[k..k + 2].copy_from_slice(&t.to_be_bytes());
        match Packet::try_from(q.as_slice()) {
            Ok(p) => {
                ensure!(is_qtype(t), "question of unassigned type {t} accepted");
                ensure!(u16::from(*p.questions()[0].query_type()) == t, "question type {t} read as {:?}", p.questions()[0].query_type());
            }
            Err(e) => ensure!(!is_qtype(t), "question of type {t} rejected: {e:?}"),
        }
        ctx.outcome("checked");
        Ok(())
    });
    // code points in place: every value of every enumerated field of every type
    h.explore("fields", &|ctx| {
        let t = *ctx.pick(rtypes());
        let td = tdom(t);
        let lay = layout(t);
        let slots: Vec<(usize, u8, Reg)> = lay.iter().enumerate().filter_map(|(i, k)| if let K::E(w, r) = *k { Some((i, w, r)) } else { None }).collect();
        if slots.is_empty() {
            ctx.outcome("no-enumerated-field");
            return Ok(());
        }
        let (i, w, reg) = slots[ctx.choose(slots.len())];
        let v = ctx.choose(if w == 1 { 256 } else { 65536 }) as u16;
        let mut rd = td.base.clone();
        rd[i] = V::N(v as u64);
        let e = enc_rdata(t, &rd);
        let mut b = envelope(1);
        rr_head(&mut b, t, e.len());
        b.extend(&e);
        ctx.state(&(t, i, v));
        ctx.step();
        match Packet::try_from(b.as_slice()) {
            Ok(p) => {
                ensure!(valid(reg, v), "{} field {i}: unassigned value {v} accepted", tname(t));
                ensure!(p.answers()[0].data_raw() == e, "{} field {i}: value {v} emitted as {}", tname(t), hex(&p.answers()[0].data_raw()));
                ctx.outcome("assigned");
            }
            Err(e) => {
                ensure!(!valid(reg, v), "{} field {i}: value {v} rejected: {e:?}", tname(t));
                ctx.outcome("unassigned");
            }
        }
        Ok(())
    });
    // SVCB keys and IPSECKEY gateway types, APL families
    h.explore("special", &|ctx| {
        let which = ctx.choose(3);
        let v = ctx.choose(65536) as u16;
        let (t, rd, ok): (u16, Vec<u8>, bool) = match which {
            0 => {
                let val: &[u8] = match v {
                    0 => &[0, 1],
                    1 => &[2, b'h', b'2'],
                    2 | 65535 => &[],
                    3 => &[1, 187],
                    6 => &[1; 16],
                    _ => &[1, 2, 3, 4],
                };
                let mut d = vec![0, 1, 0];
                d.extend(v.to_be_bytes());
                d.extend((val.len() as u16).to_be_bytes());
                d.extend(val);
                (64, d, v <= 6 || v >= 65280)
            }
            1 => {
                let g = v as u8;
                let mut d = vec![1, g, 1];
                match g {
                    0 => d.push(b'.'),
                    3 => d.extend([1, b'g', 0]),
                    2 => d.extend([7; 16]),
                    _ => d.extend([7; 4]),
                }
                d.extend([1, 2, 3]);
                (45, d, g <= 3)
            }
            _ => {
                let mut d = v.to_be_bytes().to_vec();
                d.push(8);
                d.push(if v == 2 { 16 } else { 4 });
                d.extend(if v == 2 { vec![9; 16] } else { vec![9; 4] });
                (42, d, v == 1 || v == 2)
            }
        };
        let mut b = envelope(1);
        rr_head(&mut b, t, rd.len());
        b.extend(&rd);
        ctx.state(&(which, v));
        ctx.step();
        match Packet::try_from(b.as_slice()) {
            Ok(p) => {
                ensure!(ok, "{}: unassigned code point {v} accepted", tname(t));
                ensure!(p.answers()[0].data_raw() == rd, "{}: code point {v} emitted as {} instead of {}", tname(t), hex(&p.answers()[0].data_raw()), hex(&rd));
            }
            Err(e) => ensure!(!ok || v == 65535, "{}: code point {v} rejected: {e:?}", tname(t)),
        }
        ctx.outcome("special");
        Ok(())
    });
}

// ------------------------------------------------------------------ C14: cursor histories
const LENS: [usize; 14] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 255, usize::MAX / 2, usize::MAX - 7, usize::MAX - 1, usize::MAX];
fn fits(pos: usize, len: usize, end: usize) -> bool {
    len <= end - pos
}
/// One cursor operation on `d`, whose model is (content, pos); returns the new position.
fn cursor_op(ctx: &mut Ctx, d: &mut DnsBuffer, c: &[u8], pos: usize) -> Result<usize, Violation> {
    cursor_op_with(ctx, d, c, pos, &LENS)
}
fn cursor_op_with(ctx: &mut Ctx, d: &mut DnsBuffer, c: &[u8], pos: usize, lens: &[usize]) -> Result<usize, Violation> {
    let op = ctx.choose(4 * lens.len() + 6);
    let end = c.len();
    let len = lens[op % lens.len()];
    let mut np = pos;
    ctx.step();
    let (what, may_move): (String, Vec<usize>) = if op < lens.len() {
        let r = d.advance(len);
        ensure!(r.is_ok() == fits(pos, len, end), "advance({len}) at {pos} of {end}: {r:?}");
        if r.is_ok() {
            np = pos + len;
        }
        (format!("advance({len})"), vec![np])
    } else if op < 2 * lens.len() {
        let r = d.set_position(len);
        ensure!(r.is_ok() == (len <= end), "set_position({len}) of {end}: {r:?}");
        if r.is_ok() {
            np = len;
        }
        (format!("set_position({len})"), vec![np])
    } else if op < 3 * lens.len() {
        let r = d.peek_bytes(len);
        match r {
            Ok(b) => ensure!(fits(pos, len, end) && b == &c[pos..pos + len], "peek_bytes({len}) at {pos} of {end} gave {}", hex(b)),
            Err(_) => ensure!(!fits(pos, len, end), "peek_bytes({len}) at {pos} of {end} failed"),
        }
        (format!("peek_bytes({len})"), vec![np])
    } else if op < 4 * lens.len() {
        match d.extract_bytes(len) {
            Ok(b) => {
                ensure!(fits(pos, len, end) && b == &c[pos..pos + len], "extract_bytes({len}) at {pos} of {end} gave {}", hex(b));
                np = pos + len;
            }
            Err(_) => ensure!(!fits(pos, len, end), "extract_bytes({len}) at {pos} of {end} failed"),
        }
        (format!("extract_bytes({len})"), vec![np])
    } else {
        let k = op - 4 * lens.len();
        let be = |n: usize| c[pos..pos + n].iter().fold(0u64, |a, b| a << 8 | *b as u64);
        match k {
            0..=2 => {
                let n = [1, 2, 4][k];
                let r = match k {
                    0 => d.extract_u8().map(|x| x as u64),
                    1 => d.extract_u16().map(|x| x as u64),
                    _ => d.extract_u32().map(|x| x as u64),
                };
                match r {
                    Ok(v) => {
                        ensure!(fits(pos, n, end) && v == be(n), "reading {n} octets at {pos} of {end} gave {v}");
                        np = pos + n;
                    }
                    Err(_) => ensure!(!fits(pos, n, end), "reading {n} octets at {pos} of {end} failed"),
                }
                (format!("extract_u{}", 8 * n), vec![np])
            }
            3 => match d.extract_u16_as::<RecordType>() {
                Ok(v) => {
                    ensure!(fits(pos, 2, end) && u16::from(v) as u64 == be(2), "typed read at {pos} of {end} gave {v:?}");
                    ("extract_u16_as".into(), vec![pos + 2])
                }
                Err(_) => {
                    ensure!(!(fits(pos, 2, end) && is_rtype(be(2) as u16)), "typed read at {pos} of {end} failed");
                    // too short: nothing consumed; unassigned number: consumed or not
                    ("extract_u16_as".into(), if fits(pos, 2, end) { vec![pos, pos + 2] } else { vec![pos] })
                }
            },
            _ => {
                let ok = pos < end && fits(pos + 1, c[pos] as usize, end);
                let want = if ok { &c[pos + 1..pos + 1 + c[pos] as usize] } else { &[] };
                let r = if k == 4 { d.extract_character_string() } else { d.extract_string().map(|s| s.into_bytes()) };
                match r {
                    Ok(v) => {
                        ensure!(ok && v == want, "character string at {pos} of {end} gave {}", hex(&v));
                        ("extract_character_string".into(), vec![pos + 1 + want.len()])
                    }
                    Err(_) => {
                        ensure!(!ok || (k == 5 && std::str::from_utf8(want).is_err()), "character string at {pos} of {end} failed");
                        // how much a failed variable-length read consumes is not specified
                        let p = d.position();
                        ("extract_character_string".into(), vec![if (pos..=end).contains(&p) { p } else { pos }])
                    }
                }
            }
        }
    };
    let p = d.position();
    ensure!(may_move.contains(&p), "{what} at {pos} of {end} left the cursor at {p}, expected {may_move:?}");
    ensure!(d.as_slice() == c && d.remaining() + p == end, "{what} at {pos} of {end}: remaining {} position {p}", d.remaining());
    ctx.note(|| format!("{what}: {pos} -> {p}"));
    Ok(p)
}
pub fn c14(h: &mut H) {
    const CONTENT: [[u8; 8]; 3] = [[1, 65, 0, 16, 2, 7, 255, 3], [0, 1, 0, 28, 3, 97, 98, 99], [255, 255, 3, 195, 169, 200, 0, 0]];
    let depth = if h.run.thorough { 4 } else { 3 };
    h.explore("histories", &move |ctx| {
        let c = &CONTENT[ctx.choose(if ctx.thorough { 2 } else { 3 })];
        let c = &c[..ctx.choose(9)];
        let mut d = DnsBuffer::from(c);
        let mut pos = 0;
        ensure!(d.position() == 0 && d.remaining() == c.len() && d.as_slice() == c, "fresh cursor");
        for _ in 0..depth {
            pos = cursor_op(ctx, &mut d, c, pos)?;
            ctx.state(&(c, pos));
        }
        ctx.outcome("history");
        Ok(())
    });
    // buffers around and beyond the sizes of 8- and 16-bit lengths, from positions everywhere that matters
    h.explore("large", &|ctx| {
        let size = *ctx.pick(&[127usize, 128, 255, 256, 257, 300, 511, 512, 4097, 16384, 32768, 65535, 65536, 65537, 66000, 131073]);
        let c: Vec<u8> = match ctx.choose(3) {
            0 => (0..size).map(|i| (i * 7 + i / 256) as u8).collect(),
            1 => (0..size).map(|i| 255 - (i % 251) as u8).collect(),
            _ => vec![b'a'; size],
        };
        let starts: Vec<usize> = [0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 510, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537, size - 5, size - 4, size - 3, size - 2, size - 1, size].into_iter().filter(|p| *p <= size).collect();
        let pos = *ctx.pick(&starts);
        let mut d = DnsBuffer::from(c.as_slice());
        ensure!(d.set_position(pos).is_ok() && d.position() == pos && d.remaining() == size - pos, "set_position({pos}) of {size}");
        let left = size - pos;
        let lens = [0, 1, 4, 127, 128, 255, 256, 257, 32768, 65535, 65536, 65537, left, left + 1, left.wrapping_sub(1), pos, size, usize::MAX - pos, usize::MAX];
        for len in lens {
            match d.sub_buffer(len) {
                Ok(s) => ensure!(fits(pos, len, size) && s.position() == pos && s.remaining() == len && s.as_slice() == &c[..pos + len], "sub_buffer({len}) at {pos} of {size}: position {} remaining {}", s.position(), s.remaining()),
                Err(_) => ensure!(!fits(pos, len, size), "sub_buffer({len}) at {pos} of {size} failed"),
            }
            ensure!(d.position() == pos && d.remaining() == left, "sub_buffer({len}) at {pos} of {size} moved the cursor to {}", d.position());
        }
        let p = cursor_op_with(ctx, &mut d, &c, pos, &lens)?;
        // and once more, at the new position
        let l2 = if size - p < 3 { [0, 1, 2] } else { [0, 3, size - p] };
        let l2 = *ctx.pick(&l2);
        match d.extract_bytes(l2) {
            Ok(b) => ensure!(fits(p, l2, size) && b == &c[p..p + l2], "extract_bytes({l2}) at {p} of {size} gave {} octets", b.len()),
            Err(_) => ensure!(!fits(p, l2, size), "extract_bytes({l2}) at {p} of {size} failed"),
        }
        ctx.state(&(size, pos, p, l2));
        ctx.outcome("large");
        Ok(())
    });
    // every number
    h.explore("numbers", &|ctx| {
        let k = ctx.choose(3);
        let pad = ctx.choose(2);
        let mut c = vec![0xa5; pad];
        match k {
            0 => c.push(ctx.choose(256) as u8),
            1 => c.extend((ctx.choose(65536) as u16).to_be_bytes()),
            _ => {
                let i = ctx.choose(3);
                let mut o = [*ctx.pick(&[0u8, 1, 0x80, 0xff]); 4];
                (o[i], o[i + 1]) = (ctx.choose(256) as u8, *ctx.pick(BYTES));
                c.extend(o);
            }
        }
        c.extend([0x5a, 0x11]);
        ctx.state(&c);
        ctx.step();
        let mut d = DnsBuffer::from(c.as_slice());
        ensure!(d.advance(pad).is_ok(), "advance({pad})");
        let len = [1, 2, 4][k];
        let want = c[pad..pad + len].iter().fold(0u64, |a, b| a << 8 | *b as u64);
        let got = match k {
            0 => d.extract_u8().map(|x| x as u64),
            1 => d.extract_u16().map(|x| x as u64),
            _ => d.extract_u32().map(|x| x as u64),
        };
        ensure!(got.as_ref().is_ok_and(|g| *g == want) && d.position() == pad + len, "{} reads as {got:?}, cursor at {}", hex(&c), d.position());
        ctx.outcome("number");
        Ok(())
    });
    // every length of a character string against every number of octets there, and its content
    h.explore("strings", &|ctx| {
        let text = ctx.flag();
        let (body, miss): (Vec<u8>, usize) = match ctx.choose(3) {
            2 => {
                // octets that text handling likes to drop, at either end and in between
                let l = *ctx.pick(&[1usize, 2, 3, 10, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 254, 255]);
                let x = *ctx.pick(b"\0 \t\r\n.\x7f\"\\\x1bA");
                let mut b = vec![*ctx.pick(b"a\0 "); l];
                match ctx.choose(4) {
                    0 => b[0] = x,
                    1 => b[l - 1] = x,
                    2 => b[l / 2] = x,
                    _ => (b[0], b[l - 1]) = (x, x),
                }
                (b, 1)
            }
            0 => {
                let l = ctx.choose(256);
                let miss = ctx.choose(3);
                ((0..l).map(|i| if text { b'a' + (i % 26) as u8 } else { (i * 37 + 200) as u8 }).collect(), miss)
            }
            _ => {
                let (a, b, c) = (ctx.choose(256) as u8, *ctx.pick(BYTES), *ctx.pick(&[b'x', 0x80, 0xbf, 0xa9, 0xc3]));
                (vec![a, b, c], 1)
            }
        };
        let mut c = vec![9, body.len() as u8];
        c.extend(&body);
        match miss {
            0 => drop(c.pop()),
            1 => {}
            _ => c.extend([7, 7]),
        }
        ctx.state(&(&c, text));
        ctx.step();
        let mut d = DnsBuffer::from(c.as_slice());
        ensure!(d.advance(1).is_ok(), "advance(1)");
        let got = if text { d.extract_string().map(|s| s.into_bytes()) } else { d.extract_character_string() };
        // the length octet itself is gone when the body is empty and one octet is missing
        let whole = c.len() > 1 && c.len() >= 2 + body.len();
        if whole && (!text || std::str::from_utf8(&body).is_ok()) {
            ensure!(got.as_ref().is_ok_and(|g| *g == body) && d.position() == 2 + body.len(), "string {} reads as {got:?}, cursor at {}", hex(&c), d.position());
            ctx.outcome("string");
        } else {
            ensure!(got.is_err() && d.position() <= c.len(), "string {} reads as {got:?}", hex(&c));
            ctx.outcome("refused");
        }
        Ok(())
    });
    // sub-buffers: their end, their start, independence of the parent, nesting
    h.explore("sub-buffers", &|ctx| {
        let c = &CONTENT[ctx.choose(3)];
        let c = &c[..ctx.choose(9)];
        let mut d = DnsBuffer::from(c);
        let pos = ctx.choose(c.len() + 1);
        ensure!(d.set_position(pos).is_ok(), "set_position({pos}) of {}", c.len());
        let len = *ctx.pick(&LENS);
        ctx.step();
        match d.sub_buffer(len) {
            Err(_) => {
                ensure!(!fits(pos, len, c.len()), "sub_buffer({len}) at {pos} of {} failed", c.len());
                ctx.outcome("refused");
            }
            Ok(mut s) => {
                ensure!(fits(pos, len, c.len()), "sub_buffer({len}) at {pos} of {} succeeded", c.len());
                let sc = &c[..pos + len];
                ensure!(s.position() == pos && s.remaining() == len && s.as_slice() == sc, "sub_buffer({len}) at {pos}: position {} remaining {}", s.position(), s.remaining());
                let p2 = cursor_op(ctx, &mut s, sc, pos)?;
                let p3 = cursor_op(ctx, &mut s, sc, p2)?;
                let l2 = ctx.choose(10);
                match s.sub_buffer(l2) {
                    Ok(x) => ensure!(fits(p3, l2, sc.len()) && x.as_slice() == &sc[..p3 + l2] && x.position() == p3, "nested sub_buffer({l2}) at {p3} of {}", sc.len()),
                    Err(_) => ensure!(!fits(p3, l2, sc.len()), "nested sub_buffer({l2}) at {p3} of {} failed", sc.len()),
                }
                ctx.state(&(c, pos, len, p3));
                ctx.outcome("sub-buffer");
            }
        }
        ensure!(d.position() == pos && d.remaining() == c.len() - pos && d.as_slice() == c, "sub_buffer({len}) changed the parent: position {}", d.position());
        ctx.state(&(c, pos, len));
        Ok(())
    });
}

// ------------------------------------------------------------------ C15: record sets
fn set_pool(t: u16) -> Vec<Vec<V>> {
    let td = tdom(t);
    let mut v = vec![td.base.clone()];
    for (i, s) in td.small.iter().enumerate() {
        for x in s {
            let mut b = td.base.clone();
            b[i] = x.clone();
            v.push(b);
        }
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(enc_rdata(t, x)));
    v
}
pub fn c15(h: &mut H) {
    let pools: BTreeMap<u16, Vec<Vec<V>>> = rtypes().iter().map(|t| (*t, set_pool(*t))).collect();
    let check = |ctx: &mut Ctx, t: u16, rds: &[Vec<V>], name: &Name, class: u16, ttl: u32| -> Res {
        let real: Option<Vec<RecordData>> = rds.iter().map(|r| build_rdata(t, r)).collect();
        let Some(real) = real else { return fail(format!("{} data not constructible", tname(t))) };
        let owner = fqdn(name);
        let Some(rt) = rtype(t) else { return fail(format!("type {t} not supported")) };
        let refs: Vec<&RecordData> = real.iter().collect();
        let mut enc: Vec<Vec<u8>> = rds.iter().map(|r| enc_rdata(t, r)).collect();
        enc.sort();
        let wire = |l: &[Vec<u8>]| {
            let mut o = vec![];
            for d in l {
                enc_name(name, &mut o);
                o.extend(t.to_be_bytes());
                o.extend(class.to_be_bytes());
                o.extend(ttl.to_be_bytes());
                o.extend((d.len() as u16).to_be_bytes());
                o.extend(d);
            }
            o
        };
        let want = wire(&enc);
        let mut dedup = enc.clone();
        dedup.dedup();
        // records with equal data are one record: whether a repetition is kept is not specified
        let want2 = wire(&dedup);
        let mut set = ResourceRecordSet::new(&owner, rt, class_of(class, t), ttl, refs.clone());
        ensure!(set.name() == &owner && set.set_type() == rt && set.set_class() == class_of(class, t) && set.ttl() == ttl && set.records() == refs.as_slice(), "record set does not hold what it was given");
        ctx.step();
        let got = set.to_bytes();
        ctx.state(&(&want, rds.len()));
        ctx.note(|| format!("{} records of {}: {}", rds.len(), tname(t), hex(&got)));
        ensure!(got == want || got == want2, "set of {} {} records serialises to {} instead of {}", rds.len(), tname(t), hex(&got), hex(&want));
        ensure!(set.records() == refs.as_slice(), "serialising changed the set");
        set.canonical_reorder();
        let order: Vec<Vec<u8>> = set.records().iter().map(|r| r.to_bytes()).collect();
        ensure!(order == enc || order == dedup, "reordered set is {:?} instead of {:?}", order.iter().map(|b| hex(b)).collect::<Vec<_>>(), enc.iter().map(|b| hex(b)).collect::<Vec<_>>());
        let again = set.to_bytes();
        ensure!(again == got, "reordering changed the serialisation: {} instead of {}", hex(&again), hex(&got));
        ctx.outcome("set");
        Ok(())
    };
    let names = [n("example.com"), vec![], n("a.b.c")];
    // every sequence (hence every permutation) of up to 3 members of each type's pool
    h.explore("sequences", &|ctx| {
        let t = *ctx.pick(rtypes());
        let pool = &pools[&t];
        let k = ctx.choose(4);
        let w = pool.len().min(if ctx.thorough { 14 } else { 7 });
        let rds: Vec<Vec<V>> = (0..k).map(|_| pool[ctx.choose(w)].clone()).collect();
        check(ctx, t, &rds, &names[0], 1, 3600)
    });
    // data octets in the orders that confuse comparisons: lengths, prefixes, high bits, equal parts
    let raw: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0, 0], vec![0, 1], vec![1], vec![1, 0], vec![0x7f], vec![0x80], vec![0xff], vec![0xff, 0], vec![1, 2, 3]];
    h.explore("octet-order", &|ctx| {
        let t = *ctx.pick(&[10u16, 61]);
        let k = 1 + ctx.choose(if ctx.thorough { 5 } else { 4 });
        let w = if k >= 5 { 8 } else { raw.len() };
        let rds: Vec<Vec<V>> = (0..k).map(|_| vec![V::B(raw[ctx.choose(w)].clone())]).collect();
        check(ctx, t, &rds, &names[0], 1, 1)
    });
    h.explore("fields", &|ctx| {
        let t = *ctx.pick(rtypes());
        let pool = &pools[&t];
        let a = pool[0].clone();
        let b = pool[pool.len() - 1].clone();
        let rds = if ctx.flag() { vec![a, b] } else { vec![b, a] };
        let nm = ctx.pick(&names).clone();
        let c = *ctx.pick(&[1u16, 2, 3, 4, 255, 4096, 0x8001, u16::MAX]);
        let ttl = *ctx.pick(&[0u32, 1, 255, 256, 65536, 0x80000000, u32::MAX]);
        check(ctx, t, &rds, &nm, c, ttl)
    });
    // records that agree in a long prefix, and data of every length
    h.explore("prefixes", &|ctx| {
        let t = *ctx.pick(&[10u16, 61]);
        let l = if ctx.flag() { ctx.choose(301) } else { *ctx.pick(&[511usize, 512, 1023, 1024, 4096, 16384, 65533]) };
        let fill = *ctx.pick(&[0u8, 0xff, 0x61]);
        let tails: [&[u8]; 6] = [&[], &[0], &[1], &[0x7f], &[0x80, 0], &[0x80]];
        let mut rds = vec![];
        for _ in 0..2 {
            let mut b = vec![fill; l];
            b.extend(*ctx.pick(&tails));
            rds.push(vec![V::B(b)]);
        }
        if ctx.flag() {
            rds.push(vec![V::B(vec![fill; l / 2])]);
        }
        check(ctx, t, &rds, &names[0], 1, 60)
    });
    h.explore("owners", &|ctx| {
        // letter case of owners in canonical form is left open
        let nm: Name = ctx.pick(names_full()).iter().map(|l| l.to_ascii_lowercase()).collect();
        let rds = vec![vec![V::N(20), V::Nm(n("b.example"))], vec![V::N(10), V::Nm(nm.clone())]];
        check(ctx, 15, &rds, &nm, 1, 60)
    });
    h.explore("sizes", &|ctx| {
        // every number of records up to 70 and some large ones, in four orders
        let c = if ctx.flag() { ctx.choose(71) } else { *ctx.pick(&[100usize, 127, 128, 129, 255, 256, 257, 300, 1000]) };
        let order = ctx.choose(4);
        let key = |i: usize| -> u32 {
            match order {
                0 => i as u32,
                1 => (c - i) as u32,
                2 => ((i * 7919) % 1009) as u32,
                _ => (if i % 2 == 0 { i } else { 2000 - i }) as u32,
            }
        };
        let rds: Vec<Vec<V>> = (0..c).map(|i| vec![V::B(key(i).to_be_bytes().to_vec())]).collect();
        check(ctx, 1, &rds, &names[0], 1, 60)
    });
    h.explore("many", &|ctx| {
        // 12 addresses in every rotation, reversed and not, and interleaved
        let rot = ctx.choose(12);
        let rev = ctx.flag();
        let stride = *ctx.pick(&[1usize, 5, 7, 11]);
        let mut rds: Vec<Vec<V>> = (0..12).map(|i| vec![V::B(vec![10, 0, 0, ((i * stride) % 12) as u8 * 20])]).collect();
        rds.rotate_left(rot);
        if rev {
            rds.reverse();
        }
        check(ctx, 1, &rds, &names[0], 1, 60)
    });
}

// ------------------------------------------------------------------ C20: names
fn check_fqdn(ctx: &mut Ctx, f: &FQDN, l: &Name, how: &str) -> Res {
    ctx.step();
    ensure!(unname(f) == *l, "{how}: labels {:?} instead of {}", f, show_name(l));
    ensure!(f.clone().into_iter().collect::<Name>() == *l, "{how}: into_iter differs");
    ensure!((&*f).into_iter().cloned().collect::<Name>() == *l, "{how}: iteration by reference differs");
    let mut m = f.clone();
    ensure!(m.iter_mut().map(|x| x.clone()).collect::<Name>() == *l, "{how}: iter_mut differs");
    ensure!((&mut m).into_iter().map(|x| x.clone()).collect::<Name>() == *l && m == *f, "{how}: mutable iteration differs");
    ensure!(f.label_count() as usize == l.len(), "{how}: label count {} instead of {}", f.label_count(), l.len());
    let mut w = vec![];
    enc_name(l, &mut w);
    ensure!(f.len() == w.len() && f.byte_size() == w.len(), "{how}: length {} / {} instead of {}", f.len(), f.byte_size(), w.len());
    ensure!(f.to_bytes() == w, "{how}: wire form {} instead of {}", hex(&f.to_bytes()), hex(&w));
    ensure!(f.is_empty() == l.is_empty(), "{how}: is_empty {} with {} labels", f.is_empty(), l.len());
    ensure!(f.is_root() == l.is_empty(), "{how}: is_root {} with {} labels", f.is_root(), l.len());
    let last = l.last().map(|x| x.as_slice());
    let local = last == Some(b"local");
    if last.map(|x| x.eq_ignore_ascii_case(b"local")) == Some(true) && !local {
        ctx.outcome("local-in-other-case");
    } else {
        ensure!(f.is_link_local() == local, "{how}: is_link_local {} for {}", f.is_link_local(), show_name(l));
    }
    let text = f.to_string();
    ensure!(std::str::from_utf8(text.as_bytes()).is_ok(), "{how}: text form of {} is not valid UTF-8", show_name(l));
    let parts: Vec<String> = l.iter().map(|x| String::from_utf8_lossy(x).into_owned()).collect();
    if l.iter().all(|x| std::str::from_utf8(x).is_ok()) {
        ensure!(text == parts.join("."), "{how}: text form {text:?} instead of {:?}", parts.join("."));
    }
    ensure!(*f == fqdn(l), "{how}: not equal to the name of the same labels");
    Ok(())
}
pub fn c20(h: &mut H) {
    const TOK: [&str; 8] = ["a", ".", "B", "local", "é", "-_1", " ", "\u{0}"];
    let k = if h.run.thorough { 8 } else { 6 };
    h.explore("text", &move |ctx| {
        let mut s = String::new();
        let len = ctx.choose(k);
        let w = if ctx.thorough && len == 7 { 5 } else { TOK.len() };
        for _ in 0..len {
            s.push_str(TOK[ctx.choose(w)]);
        }
        ctx.note(|| format!("{s:?}"));
        ctx.state(&s);
        let l: Name = s.split('.').filter(|x| !x.is_empty()).map(|x| x.as_bytes().to_vec()).collect();
        let f = FQDN::new(&s);
        check_fqdn(ctx, &f, &l, "FQDN::new")?;
        ensure!(FQDN::from(s.as_str()) == f, "From<&str> differs from new for {s:?}");
        let strs: Vec<&str> = s.split('.').filter(|x| !x.is_empty()).collect();
        check_fqdn(ctx, &FQDN::from(&strs[..]), &l, "From<&[&str]>")?;
        check_fqdn(ctx, &FQDN::from(l.clone()), &l, "From<Vec<Vec<u8>>>")?;
        check_fqdn(ctx, &FQDN::from(&l[..]), &l, "From<&[Vec<u8>]>")?;
        // text form read again
        ensure!(FQDN::new(&f.to_string()) == f, "{s:?}: text form does not read back");
        ctx.outcome("text");
        Ok(())
    });
    h.explore("labels", &|ctx| {
        let l = ctx.pick(names_full()).clone();
        ctx.state(&l);
        check_fqdn(ctx, &FQDN::from(l.clone()), &l, "From<Vec<Vec<u8>>>")?;
        check_fqdn(ctx, &FQDN::from(&l[..]), &l, "From<&[Vec<u8>]>")?;
        let mut w = vec![0xEE, 0xEE];
        enc_name(&l, &mut w);
        w.extend([0xDD; 3]);
        let mut d = DnsBuffer::from(w.as_slice());
        ensure!(d.set_position(2).is_ok(), "set_position");
        match FQDN::try_from(&mut d) {
            Ok(f) => check_fqdn(ctx, &f, &l, "wire")?,
            Err(e) => return fail(format!("wire form of {} rejected: {e:?}", show_name(&l))),
        }
        ensure!(d.remaining() == 3, "reading {} left {} octets instead of 3", show_name(&l), d.remaining());
        ctx.outcome("labels");
        Ok(())
    });
    // edit histories
    const APP: [&str; 9] = ["a", "local", "Local", "é", "x-y", "bb", "c.", " d ", "a-label-of-the-greatest-length-there-is-sixty-three-octets-long"];
    h.explore("append", &|ctx| {
        let mut l = ctx.pick(names_small()).clone();
        if wire_len(&l) > 200 {
            l.truncate(2);
        }
        let mut f = fqdn(&l);
        let depth = if ctx.thorough { 5 } else { 4 };
        for _ in 0..depth {
            match ctx.choose(APP.len() + 2) {
                x if x < APP.len() => {
                    f.append_label(APP[x]);
                    l.push(APP[x].as_bytes().to_vec());
                }
                x if x == APP.len() => {
                    for b in f.iter_mut() {
                        b.push(b'z');
                    }
                    for b in l.iter_mut() {
                        b.push(b'z');
                    }
                }
                _ => {
                    f = f.clone();
                }
            }
            if wire_len(&l) > 255 || l.iter().any(|x| x.len() > 63) {
                break; // no longer a name
            }
            check_fqdn(ctx, &f, &l, "edited name")?;
        }
        ctx.state(&l);
        ctx.outcome("edited");
        Ok(())
    });
    // comparison of all pairs
    let mut pool: Vec<Name> = names_small().clone();
    for s in ["a", "b", "a.b", "b.a", "a.a.b", "ab", "aa", "A", "a.B", "z", "com.example", "e.xample"] {
        pool.push(n(s));
    }
    pool.push(vec![vec![0xff]]);
    pool.push(vec![vec![0x7f], vec![0x80]]);
    h.explore("compare", &|ctx| {
        let a = ctx.pick(&pool).clone();
        let b = ctx.pick(&pool).clone();
        let (x, y) = (fqdn(&a), fqdn(&b));
        ctx.state(&(&a, &b));
        ctx.step();
        let same = a == b;
        let fold = |v: &Name| v.iter().map(|l| l.to_ascii_lowercase()).collect::<Name>();
        if !same && fold(&a) == fold(&b) {
            // names that differ in letter case only: DNS calls them equal, octets differ
            ctx.outcome("case-only");
            return Ok(());
        }
        ensure!((x == y) == same && (x != y) != same, "equality of {} and {}", show_name(&a), show_name(&b));
        let o = x.cmp(&y);
        ensure!(o == a.cmp(&b) && x.partial_cmp(&y) == Some(o) && y.cmp(&x) == o.reverse(), "{} compared to {} gives {o:?}", show_name(&a), show_name(&b));
        ctx.outcome("compared");
        Ok(())
    });
    // empty labels handed in never reach the wire
    h.explore("empty-labels", &|ctx| {
        const L: [&str; 4] = ["", "a", "b", "local"];
        let k = ctx.choose(5);
        let l: Vec<&str> = (0..k).map(|_| L[ctx.choose(4)]).collect();
        let f = if ctx.flag() {
            let mut f = FQDN::default();
            for x in &l {
                f.append_label(x);
            }
            f
        } else {
            FQDN::from(&l[..])
        };
        let want: Name = l.iter().filter(|x| !x.is_empty()).map(|x| x.as_bytes().to_vec()).collect();
        ctx.note(|| format!("{l:?}"));
        ctx.state(&l);
        ctx.step();
        let mut w = vec![];
        enc_name(&want, &mut w);
        ensure!(f.to_bytes() == w && f.byte_size() == w.len(), "labels {l:?} emit {} instead of {}", hex(&f.to_bytes()), hex(&w));
        ensure!(f.is_root() == want.is_empty(), "labels {l:?}: is_root {}", f.is_root());
        let mut p = Packet::new_query(1, false);
        p.add_question(Question::new(f.clone(), QType::A, QClass::IN));
        p.add_question(Question::new(f.clone(), QType::NS, QClass::IN));
        p.add_question(Question::new(FQDN::new("b.local"), QType::MX, QClass::IN));
        for b in [p.to_bytes(), p.to_bytes_compressed()] {
            let mut r = Rd::new(&b);
            match message(&mut r) {
                Ok(m) => ensure!(m.qs.len() == 3 && m.qs[0].name == want && m.qs[1].name == want && m.qs[2].name == n("b.local") && r.left() == 0, "labels {l:?}: message {} denotes other names", hex(&b)),
                Err(_) => return fail(format!("labels {l:?}: message {} is not decodable", hex(&b))),
            }
        }
        ctx.outcome("empty-labels");
        Ok(())
    });
}

// ------------------------------------------------------------------ C21: determinism, no side effects
fn perm(ctx: &mut Ctx, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while !left.is_empty() {
        out.push(left.remove(ctx.choose(left.len())));
    }
    out
}
/// Runs `f` with standard output and error redirected to a scratch descriptor; returns what was written.
fn captured<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    use std::io::Write;
    unsafe {
        let _ = std::io::stdout().flush();
        static FDS: std::sync::OnceLock<(i32, i32, i32)> = std::sync::OnceLock::new();
        let (o, e, m) = *FDS.get_or_init(|| (libc::dup(1), libc::dup(2), libc::memfd_create(c"out".as_ptr(), 0)));
        assert!(o >= 0 && e >= 0 && m >= 0, "cannot redirect output");
        libc::dup2(m, 1);
        libc::dup2(m, 2);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let _ = std::io::stdout().flush();
        libc::dup2(o, 1);
        libc::dup2(e, 2);
        let len = libc::lseek(m, 0, libc::SEEK_END);
        let mut buf = vec![0u8; len.clamp(0, 4096) as usize];
        if !buf.is_empty() {
            libc::pread(m, buf.as_mut_ptr() as *mut libc::c_void, buf.len(), 0);
            libc::ftruncate(m, 0);
            libc::lseek(m, 0, libc::SEEK_SET);
        }
        match r {
            Ok(r) => (r, buf),
            Err(p) => std::panic::resume_unwind(p),
        }
    }
}
pub fn c21(h: &mut H) {
    // all orders of serialise / size / clone calls
    let scens: &[&str] = if h.run.thorough { &["mixed", "rdata2", "names2"] } else { &["mixed", "rdata2"] };
    for scen in scens.iter().copied() {
        h.explore(&format!("calls-{scen}"), &|ctx| {
            let (m, p) = built(ctx, scen)?;
            let other = match build_packet(&m) {
                Some(q) => q,
                None => return fail("the same message cannot be built twice"),
            };
            let before = p.clone();
            let (b0, c0, s0) = (other.to_bytes(), other.to_bytes_compressed(), other.byte_size());
            ctx.state(&b0);
            // the big message space gets one fixed sequence of calls that contains every ordered pair
            let fixed = [0, 1, 2, 3, 4, 5, 6, 0, 2, 4, 6, 1, 3, 5, 0, 1];
            let len = if scen == "names2" { fixed.len() } else if ctx.thorough { 3 } else { 2 };
            for i in 0..len {
                ctx.step();
                let op = if scen == "names2" { fixed[i] } else { ctx.choose(7) };
                match op {
                    0 => ensure!(p.to_bytes() == b0, "plain form changed between calls"),
                    1 => ensure!(p.to_bytes_compressed() == c0, "compressed form changed between calls"),
                    2 => ensure!(p.byte_size() == s0, "size changed between calls"),
                    3 => ensure!(p.clone().to_bytes() == b0, "clone has a different plain form"),
                    4 => ensure!(p.clone().to_bytes_compressed() == c0, "clone has a different compressed form"),
                    5 => {
                        for r in p.answers().iter().chain(p.authorities()).chain(p.additionals()).take(3) {
                            ensure!(r.to_bytes() == r.to_bytes() && r.data_raw() == r.data().to_bytes() && r.byte_size() == r.clone().byte_size(), "record serialises differently the second time");
                        }
                    }
                    _ => {
                        let _ = (format!("{p:?}").len(), p.header().to_bytes(), p.id());
                    }
                }
                ensure!(p == before && p == other, "serialising changed the packet");
            }
            ctx.outcome("calls");
            Ok(())
        });
    }
    // no hidden state: what a call returns depends on its argument only, not on the calls (on other
    // values, successful or failing) that happened before it
    let msgs: Vec<Msg> = {
        let q = |s: &str| Qm { name: n(s), qtype: 1, qclass: 1, uni: false };
        let r = |s: &str, t: u16, rd: Vec<V>| Rm { name: n(s), rtype: t, class: if t == 41 { 1232 } else { 1 }, flush: false, ttl: 300, rd };
        let base = |t: u16| tdom(t).base.clone();
        let m = |qs: Vec<Qm>, a: Vec<Rm>, b: Vec<Rm>, c: Vec<Rm>| Msg { id: 7, flags: 0x8180, qs, secs: [a, b, c] };
        vec![
            m(vec![q("www.example.com")], vec![r("www.example.com", 1, base(1)), r("example.com", 15, vec![V::N(5), V::Nm(n("mail.example.com"))])], vec![], vec![]),
            m(vec![], vec![r("mail.example.com", 5, vec![V::Nm(n("www.example.com"))])], vec![r("com", 6, base(6))], vec![]),
            m(vec![q("a"), q("b.a")], vec![], vec![r("a", 14, vec![V::Nm(n("b.a")), V::Nm(n("c.b.a"))])], vec![]),
            m(vec![], vec![], vec![], vec![r("", 41, base(41)), r("x.example.com", 62, base(62))]),
            m(vec![q("c.b.a")], vec![r("example.com", 33, base(33)), r("b.a", 35, base(35)), r("a", 64, base(64))], vec![], vec![r("c.b.a", 16, base(16))]),
        ]
    };
    let bad: Vec<Vec<u8>> = vec![
        vec![0, 1, 0x80, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1, b'a', 0xc0, 12, 0, 1, 0, 1],
        enc_msg(&msgs[0])[..50].to_vec(),
        {
            let mut b = enc_msg(&msgs[1]);
            b[12 + 18 + 1] = 99;
            b
        },
    ];
    let call = |op: usize| -> String {
        let (i, k) = (op / 5, op % 5);
        if i == msgs.len() {
            return format!("{:?}", Packet::try_from(bad[k].as_slice()));
        }
        let Some(p) = &build_packet(&msgs[i]) else { return "not built".into() };
        match k {
            0 => hex(&p.to_bytes()),
            1 => hex(&p.to_bytes_compressed()),
            2 => p.byte_size().to_string(),
            3 => match Packet::try_from(enc_msg(&msgs[i]).as_slice()) {
                Ok(q) => format!("{}", q == *p && q.to_bytes() == p.to_bytes()),
                Err(e) => format!("{e:?}"),
            },
            _ => format!("{} {:?}", p.questions().len(), p.answers().iter().map(|r| (r.name().to_string(), hex(&r.to_bytes()))).collect::<Vec<_>>()),
        }
    };
    let ops = msgs.len() * 5 + bad.len();
    let first: std::sync::OnceLock<Vec<String>> = Default::default();
    let first = || first.get_or_init(|| (0..ops).map(&call).collect());
    h.explore("histories", &|ctx| {
        let len = if ctx.thorough { 4 } else { 3 };
        first();
        for _ in 0..len {
            let op = ctx.choose(ops);
            ctx.step();
            ctx.note(|| format!("call {op}"));
            let got = call(op);
            ensure!(got == first()[op], "call {op} returned {got} after other calls, and {} at first", first()[op]);
        }
        ctx.outcome("history");
        Ok(())
    });
    // and the same on a thread that made no call before
    h.explore("fresh-thread", &|ctx| {
        let op = ctx.choose(ops);
        ctx.step();
        ctx.state(&op);
        let want = &first()[op];
        let got = std::thread::scope(|s| s.spawn(|| call(op)).join());
        match got {
            Ok(got) => ensure!(got == *want, "call {op} on a fresh thread returned {got}, and {want} elsewhere"),
            Err(_) => return fail(format!("call {op} panicked on a fresh thread")),
        }
        ctx.outcome("fresh-thread");
        Ok(())
    });
    // equal values built in different orders
    h.explore("build-order", &|ctx| {
        let kind = ctx.choose(3);
        let mk: (RecordData, RecordData);
        match kind {
            0 => {
                let k = 1 + ctx.choose(4);
                let codes = [10u16, 3, 65001, 8];
                let ord = perm(ctx, k);
                let mut a = std::collections::HashMap::new();
                let mut b = std::collections::HashMap::new();
                for i in 0..k {
                    a.insert(codes[i], vec![i as u8; i]);
                }
                for i in ord {
                    b.insert(codes[i], vec![9]);
                    b.insert(codes[i], vec![i as u8; i]);
                }
                mk = (RecordData::OPT(Opt(a)), RecordData::OPT(Opt(b)));
            }
            1 => {
                let ts = [RecordType::A, RecordType::CAA, RecordType::TXT, RecordType::URI];
                let ord = perm(ctx, 4);
                let a: std::collections::BTreeSet<RecordType> = ts.into_iter().collect();
                let b: std::collections::BTreeSet<RecordType> = ord.iter().map(|i| ts[*i]).collect();
                mk = (RecordData::CSYNC(Csync::new(1, Default::default(), a)), RecordData::CSYNC(Csync::new(1, Default::default(), b)));
            }
            _ => {
                let ps: [&[u8]; 4] = [&[0, 1, 0, 3, 2, b'h', b'2'], &[0, 3, 0, 2, 1, 187], &[0, 4, 0, 4, 1, 2, 3, 4], &[255, 0, 0, 1, 7]];
                let ord = perm(ctx, 4);
                let build = |o: &[usize]| {
                    let mut w = vec![0, 1, 0];
                    for i in o {
                        w.extend_from_slice(ps[*i]);
                    }
                    Svcb::try_from(&mut DnsBuffer::from(w.as_slice()))
                };
                let a = match build(&[0, 1, 2, 3]) {
                    Ok(a) => a,
                    Err(e) => return fail(format!("service parameters rejected: {e:?}")),
                };
                let b = if ord == [0, 1, 2, 3] {
                    a.clone()
                } else {
                    let mut b = Svcb { params: Default::default(), ..a.clone() };
                    let all: Vec<_> = a.params.iter().cloned().collect();
                    for i in &ord {
                        b.params.insert(all[*i].clone());
                    }
                    b
                };
                mk = (RecordData::SVCB(a), RecordData::SVCB(b));
            }
        }
        let (a, b) = mk;
        ctx.step();
        ctx.state(&(kind, format!("{:?}", if kind == 0 { String::new() } else { format!("{b:?}") })));
        ensure!(a == b, "equal values compare different");
        let x = a.to_bytes();
        ctx.note(|| hex(&x));
        for _ in 0..3 {
            ensure!(a.to_bytes() == x && b.to_bytes() == x && a.clone().to_bytes() == x && b.clone().to_bytes() == x, "equal values serialise differently: {} and {}", hex(&x), hex(&b.to_bytes()));
        }
        ensure!(a.byte_size() == b.byte_size(), "equal values announce different sizes");
        let rr = |d: &RecordData| {
            let t = RecordType::try_from(crate::props_api::variant(d)).expect("type");
            let mut p = Packet::new_reply(1);
            p.add_additional(ResourceRecord::new(FQDN::new("x"), t, RecordClass::IN, 0, d.clone()));
            (p.to_bytes(), p.to_bytes_compressed())
        };
        ensure!(rr(&a) == rr(&b), "packets with equal values serialise differently");
        // parsed twice
        let mut w = envelope(1);
        rr_head(&mut w, variant(&a), x.len());
        w.extend(&x);
        match (Packet::try_from(w.as_slice()), Packet::try_from(w.as_slice())) {
            (Ok(p), Ok(q)) => ensure!(p == q && p.to_bytes() == q.to_bytes() && p.to_bytes_compressed() == q.to_bytes_compressed(), "two parses of the same octets differ"),
            (Err(_), Err(_)) => {}
            _ => return fail("two parses of the same octets differ in success"),
        }
        ctx.outcome("build-order");
        Ok(())
    });
    // options whose codes agree in all but one bit, or in one octet, with data that agree too: any
    // order of emission that does not come from the whole code shows as a difference between two of
    // sixteen equal maps (each with hashing keys of its own)
    h.explore("option-pairs", &|ctx| {
        let c = *ctx.pick(&[0u16, 1, 10, 0x00ff, 0x0101, 0x1234, 65001, 0xffff]);
        let o = match ctx.choose(3) {
            0 => c ^ 1 << ctx.choose(16),
            1 => c.swap_bytes(),
            _ => c.rotate_left(1 + ctx.choose(15) as u32),
        };
        if o == c {
            ctx.outcome("same-code");
            return Ok(());
        }
        let (x, y): (&[u8], &[u8]) = *ctx.pick(&[(&[][..], &[][..]), (&[7], &[7]), (&[7], &[9]), (&[1, 2], &[1, 3]), (&[1, 2], &[2, 1]), (&[1], &[1, 2])]);
        ctx.state(&(c, o, x, y));
        ctx.step();
        let build = |i: usize| {
            let mut m = std::collections::HashMap::new();
            for (k, d) in if i % 2 == 0 { [(c, x), (o, y)] } else { [(o, y), (c, x)] } {
                m.insert(k, d.to_vec());
            }
            Opt(m)
        };
        let a = build(0).to_bytes();
        for i in 1..16 {
            let b = build(i).to_bytes();
            ensure!(a == b, "equal options serialise as {} and {}", hex(&a), hex(&b));
        }
        ctx.outcome("option-pair");
        Ok(())
    });
    // two parses of the same octets agree
    for scen in ["follow", "trunc", "sections", "chains", "subst", "count", "collide", "seqs", "cross", "nested", "offset"] {
        h.explore(&format!("reparse-{scen}"), &|ctx| {
            let b = if RAW.contains(&scen) { gen_raw(ctx, scen) } else { enc_msg(&gen_msg(ctx, scen)) };
            ctx.state(&b);
            ctx.step();
            match (Packet::try_from(b.as_slice()), Packet::try_from(b.as_slice())) {
                (Ok(p), Ok(q)) => {
                    ensure!(p == q, "two parses of {} differ", hex(&b));
                    ensure!(p.to_bytes() == q.to_bytes() && p.to_bytes_compressed() == q.to_bytes_compressed(), "two parses of {} serialise differently", hex(&b));
                    ctx.outcome("accepted");
                }
                (Err(a), Err(c)) => {
                    ensure!(format!("{a:?}") == format!("{c:?}"), "two parses of {} fail differently", hex(&b));
                    ctx.outcome("rejected");
                }
                _ => return fail(format!("two parses of {} differ in success", hex(&b))),
            }
            Ok(())
        });
    }
    // nothing is written to standard output or error
    let threads = h.run.threads;
    h.run.threads = 1;
    let quick = ["templates", "trunc", "subst", "mixed", "rdata2", "rdata1", "owner", "count", "header", "ttl", "collide", "nested", "sections", "chains", "hdr", "rdlen"];
    let more: &[&str] = if h.run.thorough { &["question", "class", "offset"] } else { &[] };
    for scen in quick.iter().chain(more).copied() {
        h.explore(&format!("silent-{scen}"), &|ctx| {
            let b = match scen {
                "templates" => {
                    let t = *ctx.pick(rtypes());
                    let tpl = ctx.pick(templates(t));
                    let mut o = envelope(1);
                    rr_head(&mut o, t, tpl.len());
                    o.extend_from_slice(tpl);
                    o
                }
                "trunc" | "sections" | "chains" | "hdr" | "rdlen" => gen_raw(ctx, scen),
                "subst" => {
                    let t = *ctx.pick(rtypes());
                    let mut rd = templates(t)[0].clone();
                    if !rd.is_empty() {
                        let i = ctx.choose(rd.len());
                        rd[i] = *ctx.pick(BYTES);
                    }
                    let mut o = envelope(1);
                    rr_head(&mut o, t, rd.len());
                    o.extend_from_slice(&rd);
                    o
                }
                s => enc_msg(&gen_msg(ctx, s)),
            };
            ctx.state(&b);
            ctx.step();
            let (ok, out) = captured(|| match Packet::try_from(b.as_slice()) {
                Ok(p) => {
                    let n = p.to_bytes().len() + p.to_bytes_compressed().len() + p.byte_size();
                    let q = p.clone();
                    for r in q.answers().iter().chain(q.authorities()).chain(q.additionals()) {
                        let set = ResourceRecordSet::new(r.name(), *r.record_type(), *r.class(), r.time_to_live(), vec![r.data()]);
                        let _ = (r.to_bytes().len(), r.data_raw().len(), set.to_bytes().len(), r.name().to_string().len());
                    }
                    n > 0
                }
                Err(e) => {
                    let _ = format!("{e} {e:?}");
                    false
                }
            });
            ensure!(out.is_empty(), "handling {} wrote {:?} to standard output or error", hex(&b), String::from_utf8_lossy(&out));
            ctx.outcome(if ok { "silent-accepted" } else { "silent-rejected" });
            Ok(())
        });
    }
    h.run.threads = threads;
}

// ------------------------------------------------------------------ C23: errors
fn check_error(ctx: &mut Ctx, e: &DnsError, payload: Option<&str>) -> Res {
    use std::error::Error;
    ctx.step();
    let text = e.to_string();
    ensure!(!text.trim().is_empty(), "{e:?} formats to nothing");
    ensure!(!format!("{e:?}").is_empty(), "{e:?} has an empty debug form");
    if let Some(p) = payload {
        let hexform = p.parse::<u32>().map(|v| text.to_lowercase().contains(&format!("{v:x}"))).unwrap_or(false);
        ensure!(text.contains(p) || hexform || text.contains(&format!("{p:?}").trim_matches('"').to_string()), "{e:?} formats to {text:?}, which does not carry {p:?}");
    }
    let addr = |e: &dyn Error| (e as *const dyn Error as *const u8 as usize, e.to_string());
    let mut seen = vec![addr(e)];
    let mut cur: Option<&dyn Error> = e.source();
    while let Some(s) = cur {
        let a = addr(s);
        ensure!(!seen.contains(&a), "chain of causes of {e:?} revisits {:?}", a.1);
        ensure!(!a.1.trim().is_empty(), "a cause of {e:?} formats to nothing");
        seen.push(a);
        ensure!(seen.len() < 64, "chain of causes of {e:?} does not end");
        cur = s.source();
    }
    let b: Box<dyn Error> = format!("{e}").into();
    let _ = b;
    Ok(())
}
pub fn c23(h: &mut H) {
    h.explore("kinds", &|ctx| {
        use DnsError::*;
        let u16s: [fn(u16) -> DnsError; 8] = [InvalidClass, InvalidType, InvalidAplFamily, InvalidCsyncFlag, InvalidTkeyMode, InvalidTkeyError, InvalidIdentifierTypeError, InvalidSvcbParam];
        let u8s: [fn(u8) -> DnsError; 10] = [InvalidResponseCode, InvalidSSHFPAlgorithm, InvalidSSHFPFingerprintType, InvalidIpSecKeyGatewayType, InvalidNaptrFlag, InvalidTLSACertUsage, InvalidTLSASelector, InvalidTLSAMatchingType, InvalidDigestType, InvalidDnsSecAlgorithm];
        let (e, p) = match ctx.choose(5) {
            0 => {
                let f = *ctx.pick(&u16s);
                let v = ctx.choose(65536) as u16;
                (f(v), Some(v.to_string()))
            }
            1 => {
                let f = *ctx.pick(&u8s);
                let v = ctx.choose(256) as u8;
                (f(v), Some(v.to_string()))
            }
            2 => ([InvalidPacketData, LengthViolation, UnresolveableCompressionPointer].into_iter().nth(ctx.choose(3)).unwrap(), None),
            3 => {
                // texts of every length up to 300, and special ones (the empty one carries nothing, but
                // the error must format to something all the same)
                let k = ctx.choose(308);
                let s = match k {
                    0..=7 => ["", "bad key", "x", "größer", "a\"b", "{}", " ", "a\nb"][k].to_string(),
                    k => (0..k - 7).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect(),
                };
                let p = (!s.trim().is_empty()).then(|| s.clone());
                (if ctx.flag() { DnsSecVerificationError(s) } else { DnsSecSigningError(s) }, p)
            }
            _ => {
                let d = [0u64, 1, 1000, 1 << 40][ctx.choose(4)];
                let t = std::time::UNIX_EPOCH;
                let later = t + std::time::Duration::from_secs(d + 1);
                (InvalidDnsSecSignatureTimespan(t.duration_since(later).expect_err("earlier")), None)
            }
        };
        ctx.note(|| format!("{e:?}"));
        ctx.state(&format!("{e:?}"));
        check_error(ctx, &e, p.as_deref())?;
        ctx.outcome("kind");
        Ok(())
    });
    for scen in ["subst", "trunc", "hdr", "rdlen", "insdel"] {
        h.explore(&format!("parse-{scen}"), &|ctx| {
            let b = gen_raw(ctx, scen);
            match Packet::try_from(b.as_slice()) {
                Ok(_) => ctx.outcome("no-error"),
                Err(e) => {
                    ctx.state(&format!("{e:?}"));
                    check_error(ctx, &e, None)?;
                    ctx.outcome("error");
                }
            }
            Ok(())
        });
    }
}
