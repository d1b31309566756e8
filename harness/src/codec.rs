//! C01-C11: wire codec contracts, against the reference encoder in refenc.rs.
use crate::ensure;
use crate::fw::*;
use crate::{gen, refenc};
use flowsdk::mqtt_serde::base_data::*;
use flowsdk::mqtt_serde::control_packet::{MqttControlPacket, MqttPacket};
use flowsdk::mqtt_serde::mqttv5::common::properties::{encode_properities_hdr, parse_properties_hdr};
use flowsdk::mqtt_serde::mqttv5::Property;
use flowsdk::mqtt_serde::parser::leveled::*;
use flowsdk::mqtt_serde::parser::stream::MqttParser;
use flowsdk::mqtt_serde::parser::{ParseError, ParseOk};

pub fn suites(p: &str) -> Vec<Suite> {
    let s = |name, rule, fixed, weight, run| Suite { name, rule, fixed, weight, run };
    match p {
        "C01" => vec![
            s("vbi-encode", "blocks of values around every length boundary and random values, followed by random bytes; every case non-trivial", 64, 1, c01_enc),
            s("vbi-decode", "all one- and two-byte buffers, blocks of three-byte buffers, random longer ones", 80, 1, c01_dec),
        ],
        "C02" => vec![s("fields", "random integers, binary and text of 0..65535 bytes with trailing bytes, truncations and invalid UTF-8", 0, 1, c02)],
        "C03" => vec![
            s("props-roundtrip", "each of the 27 properties with boundary and random values, in sections of 0..40", 270, 2, c03_rt),
            s("props-malformed", "every truncation and corruption of a section, unknown identifiers, oversize and forbidden text", 256, 1, c03_bad),
        ],
        "C04" => vec![
            s("v5-roundtrip", "well-formed packets of each of 15 types with random fields, sizes across the length boundaries, trailing bytes", 150, 3, c04),
            s("v5-oversize", "a well-formed packet with one text or binary field longer than 65535 bytes", 0, 1, c04_over),
        ],
        "C05" => vec![
            s("v3-roundtrip", "well-formed packets of each of 14 types with random fields, sizes across the length boundaries, trailing bytes", 140, 3, c05),
            s("v3-oversize", "a well-formed packet with one text or binary field longer than 65535 bytes", 0, 1, c05_over),
        ],
        "C06" => vec![
            s("short-buffers", "all buffers of up to two bytes and all first bytes with short random bodies, versions 3, 4, 5", 1024, 1, c06_short),
            s("mutated", "encodings of valid packets with flipped bits, changed lengths, truncations and appended bytes", 0, 4, c06_mut),
            s("garbage", "random bytes behind a plausible fixed header", 0, 1, c06_garbage),
        ],
        "C07" => vec![
            s("parser-chunks", "streams of valid packets split at random (and at every byte), all four parse levels, both versions", 0, 2, c07_parser),
            s("parser-damaged", "streams with arbitrary bytes between or inside packets: one read, random reads and single bytes give the same packets and the same final outcome", 0, 2, c07_damaged),
            s("engine-chunks", "server-side packet streams split at random into the protocol engine", 0, 2, c07_engine),
        ],
        "C08" => vec![s("levels", "valid and mutated frames parsed at all four levels, both versions", 0, 1, c08)],
        "C09" => vec![s("strict", "each listed defect applied to a random valid packet; the packet without the defect", 0, 1, c09)],
        "C10" => vec![
            s("filters-exhaustive", "every filter of up to 6 symbols over {a, /, +, #} and every $share/ suffix of up to 6 symbols, with and without No Local", 64, 0, c10_exh),
            s("filters-random", "random filters with multi-byte characters", 0, 1, c10_rand),
        ],
        "C11" => vec![s("forbidden-text", "a valid packet of either version with one text field made forbidden, or containing unusual allowed text", 0, 1, c11)],
        _ => vec![],
    }
}

// ---------------------------------------------------------------- C01
fn c01_one(v: u32, tail: &[u8]) -> R {
    let e = VariableByteInteger::encode(v);
    let r = refenc::vbi(v as usize);
    ensure!(e == r, "encode", "VariableByteInteger::encode({v}) = {} expected {}", hex(&e), hex(&r));
    let mut b = e.clone();
    b.extend_from_slice(tail);
    match VariableByteInteger::decode(&b) {
        Ok((d, n)) if d == v as usize && n == e.len() => Ok(()),
        o => fail("roundtrip", format!("decode({}) = {o:?}, expected ({v}, {})", hex(&b), e.len())),
    }
}
fn c01_enc(c: &mut Case) -> R {
    let tl = c.rng.range(0, 5);
    let tail = c.rng.bytes(tl);
    if c.index < 64 {
        let bounds = [0u32, 128, 16384, 2097152, 268435455];
        let b = bounds[(c.index % 5) as usize];
        let k = (c.index / 5) as u32 * 256;
        c.note(format!("512 values around {b}, offset {k}"));
        for d in k..k + 256 {
            c01_one(b.saturating_sub(d), &tail)?;
            if b + d <= 268435455 { c01_one(b + d, &tail)?; }
        }
        return Ok(());
    }
    let sh = c.rng.below(28);
    let v = (c.rng.below(268435456) as u32) >> sh;
    c.note(format!("value {v} tail {}", hex(&tail)));
    c01_one(v, &tail)
}
fn ref_vbi(b: &[u8]) -> Result<(usize, usize), bool> {
    // Err(true): needs more; Err(false): malformed
    let mut v = 0usize;
    for i in 0..4 {
        let Some(&x) = b.get(i) else { return Err(true) };
        v += ((x & 127) as usize) << (7 * i);
        if x < 128 {
            if i > 0 && x == 0 { return Err(false); }
            return Ok((v, i + 1));
        }
    }
    Err(false)
}
fn c01_check(b: &[u8]) -> R {
    let got = VariableByteInteger::decode(b);
    match (ref_vbi(b), got) {
        (Ok(a), Ok(g)) if a == g => Ok(()),
        (Err(true), Err(ParseError::More(..) | ParseError::BufferTooShort)) => Ok(()),
        (Err(false), Err(e)) if !matches!(e, ParseError::More(..) | ParseError::BufferTooShort) => Ok(()),
        (want, got) => fail("decode", format!("VariableByteInteger::decode({}) = {got:?}; expected {want:?} (Err(true) = more bytes, Err(false) = malformed)", hex(b))),
    }
}
fn c01_dec(c: &mut Case) -> R {
    if c.index < 80 {
        c.note(format!("buffer block {}", c.index));
        if c.index == 0 { c01_check(&[])?; for a in 0..=255u8 { c01_check(&[a])?; } }
        if c.index < 16 {
            for a in (c.index * 16) as u8..=(c.index * 16 + 15) as u8 { for b in 0..=255u8 { c01_check(&[a, b])?; } }
            return Ok(());
        }
        let edge = [0u8, 1, 2, 63, 64, 126, 127, 128, 129, 130, 200, 254, 255];
        let k = c.index - 16;
        for a in (k * 4) as u8..=(k * 4 + 3) as u8 {
            for b in edge { for d in edge { for e in edge {
                c01_check(&[a, b, d])?;
                c01_check(&[a, b, d, e])?;
                c01_check(&[a, b, d, e, b])?;
            } } }
        }
        return Ok(());
    }
    let n = c.rng.range(0, 7);
    let mut b = c.rng.bytes(n);
    if c.rng.bool() { for x in b.iter_mut() { if c.rng.chance(3, 4) { *x |= 0x80 } } }
    c.note(hex(&b));
    c01_check(&b)
}

// ---------------------------------------------------------------- C02
fn c02(c: &mut Case) -> R {
    let r = &mut c.rng;
    let tn = r.range(0, 4);
    let tail = r.bytes(tn);
    let v = r.u16();
    let mut want = vec![];
    refenc::p16(&mut want, v);
    let e = TwoByteInteger::encode(v).to_vec();
    ensure!(e == want, "two-byte", "TwoByteInteger::encode({v}) = {}", hex(&e));
    let mut b = e; b.extend_from_slice(&tail);
    match TwoByteInteger::decode(&b) { Ok((x, 2)) if x == v => {} o => return fail("two-byte", format!("decode({}) = {o:?}", hex(&b))) }
    for k in 0..2 { ensure!(TwoByteInteger::decode(&b[..k]).is_err(), "short", "TwoByteInteger::decode of {k} bytes succeeded"); }
    let v = r.u32();
    let mut want = vec![];
    refenc::p32(&mut want, v);
    let e = FourByteInteger::encode(v).to_vec();
    ensure!(e == want, "four-byte", "FourByteInteger::encode({v}) = {}", hex(&e));
    let mut b = e; b.extend_from_slice(&tail);
    match FourByteInteger::decode(&b) { Ok((x, 4)) if x == v => {} o => return fail("four-byte", format!("decode({}) = {o:?}", hex(&b))) }
    for k in 0..4 { ensure!(FourByteInteger::decode(&b[..k]).is_err(), "short", "FourByteInteger::decode of {k} bytes succeeded"); }
    // binary
    let d = gen::blob(r, true);
    let mut want = vec![];
    refenc::bin(&mut want, &d);
    let e = BinaryData::encode(&d);
    ensure!(e == want, "binary", "BinaryData::encode of {} bytes = {}", d.len(), hex(&e));
    let mut b = e; b.extend_from_slice(&tail);
    match BinaryData::decode(&b) { Ok((x, n)) if x == d && n == d.len() + 2 => {} o => return fail("binary", format!("decode of {} bytes + tail = {}", d.len(), dbg(&o))) }
    let k = r.range(0, d.len() + 1);
    ensure!(BinaryData::decode(&b[..k]).is_err(), "short", "BinaryData::decode of a field cut to {k} of {} bytes succeeded", d.len() + 2);
    // text
    let t = gen::text(r, true);
    let mut want = vec![];
    refenc::text(&mut want, &t);
    let e = Utf8String::encode(&t);
    ensure!(e == want, "text", "Utf8String::encode({}) = {}", dbg(&t), hex(&e));
    let mut b = e; b.extend_from_slice(&tail);
    match Utf8String::decode(&b) { Ok((x, n)) if x == t && n == t.len() + 2 => {} o => return fail("text", format!("decode of {} = {}", dbg(&t), dbg(&o))) }
    let k = r.range(0, t.len() + 1);
    ensure!(Utf8String::decode(&b[..k]).is_err(), "short", "Utf8String::decode of a field cut to {k} of {} bytes succeeded", t.len() + 2);
    // arbitrary bytes as text: accepted exactly when valid UTF-8
    let mut raw = gen::text(r, false).into_bytes();
    if !raw.is_empty() && r.bool() { let i = r.below(raw.len() as u64) as usize; raw[i] = r.next() as u8; if r.bool() { raw.truncate(i + 1) } }
    let mut b = vec![];
    refenc::bin(&mut b, &raw);
    b.extend_from_slice(&tail);
    match (std::str::from_utf8(&raw), Utf8String::decode(&b)) {
        (Ok(s), Ok((t, n))) if s == t && n == raw.len() + 2 => {}
        (Err(_), Err(_)) => {}
        (w, g) => return fail("utf8", format!("Utf8String::decode({}) = {}; from_utf8 says {w:?}", hex(&b), dbg(&g))),
    }
    // pair
    let (k, v) = (gen::text(r, false), gen::text(r, false));
    let mut want = vec![];
    refenc::text(&mut want, &k); refenc::text(&mut want, &v);
    let e = Utf8StringPair::encode(&k, &v);
    ensure!(e == want, "pair", "Utf8StringPair::encode = {}", hex(&e));
    let n0 = e.len();
    let mut b = e; b.extend_from_slice(&tail);
    match Utf8StringPair::decode(&b) { Ok(((a, c2), n)) if a == k && c2 == v && n == n0 => {} o => return fail("pair", format!("decode = {}", dbg(&o))) }
    c.note(format!("binary {} bytes, text {}, raw {}", d.len(), dbg(&t), hex(&raw)));
    Ok(())
}

// ---------------------------------------------------------------- C03
fn c03_rt(c: &mut Case) -> R {
    let big = c.index % 7 == 0;
    let r = &mut c.rng;
    let mut ps: Vec<Property> = vec![];
    if c.index < 270 { ps.push(gen::any_prop(r, c.index % 27, big)); }
    else { for _ in 0..r.range(0, 40) { let i = r.below(27); let bg = big && r.chance(1, 10); ps.push(gen::any_prop(r, i, bg)); } }
    let tn = r.range(0, 4);
    let tail = r.bytes(tn);
    c.note(dbg(&ps));
    let mut want = vec![];
    refenc::props(&mut want, &ps);
    let e = match encode_properities_hdr(&ps) { Ok(e) => e, Err(e) => return fail("encode", format!("encoding {} failed: {e}", dbg(&ps))) };
    ensure!(e == want, "encode", "encode_properities_hdr({}) = {} expected {}", dbg(&ps), hex(&e), hex(&want));
    let n0 = e.len();
    let mut b = e;
    b.extend_from_slice(&tail);
    match parse_properties_hdr(&b) {
        Ok((d, n)) if d == ps && n == n0 => Ok(()),
        o => fail("decode", format!("parse_properties_hdr({}) = {}, expected {} ({n0} bytes)", hex(&b), dbg(&o), dbg(&ps))),
    }
}
const IDS: [u8; 27] = [1, 2, 3, 8, 9, 0x0b, 0x11, 0x12, 0x13, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1c, 0x1f, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a];
fn c03_bad(c: &mut Case) -> R {
    let idx = c.index;
    let r = &mut c.rng;
    if idx < 256 {
        // identifier byte idx: accepted only when known
        let id = idx as u8;
        let known = IDS.contains(&id);
        let mut sec = vec![id];
        sec.extend_from_slice(&[0, 1, b'a', 0, 1, b'b']);
        if !known {
            let mut b = refenc::vbi(sec.len());
            b.extend(&sec);
            ensure!(parse_properties_hdr(&b).is_err(), "unknown-id", "unknown property identifier {id:#x} accepted: {}", hex(&b));
        }
        // identifier alone: value missing
        let b = vec![1, id];
        ensure!(parse_properties_hdr(&b).is_err(), "truncated", "property {id:#x} without a value accepted");
        c.note(format!("identifier {id:#x}"));
        return Ok(());
    }
    let mut ps: Vec<Property> = vec![];
    for _ in 0..r.range(1, 4) { let i = r.below(27); ps.push(gen::any_prop(r, i, false)); }
    match r.below(3) {
        0 => {
            // section length cut inside the last property, with the value's bytes still following
            let mut body = vec![];
            for p in &ps[..ps.len() - 1] { refenc::prop(&mut body, p); }
            let start = body.len();
            refenc::prop(&mut body, ps.last().unwrap());
            let k = r.range(start + 1, body.len() - 1);
            let mut b = refenc::vbi(k);
            b.extend_from_slice(&body);
            c.note(format!("section of {} cut to {k}: {}", body.len(), hex(&b)));
            // a cut subscription identifier can remain valid only if the cut keeps a whole VBI; a VBI prefix always has the continuation bit
            let out = parse_properties_hdr(&b);
            ensure!(out.is_err(), "cut-value", "section cut inside {} accepted as {}", dbg(ps.last().unwrap()), dbg(&out));
        }
        1 => {
            // section longer than the buffer
            let mut b = vec![];
            refenc::props(&mut b, &ps);
            let k = r.range(0, b.len() - 1);
            c.note(format!("buffer cut to {k}: {}", hex(&b)));
            ensure!(parse_properties_hdr(&b[..k]).is_err(), "long-section", "section longer than the buffer accepted: {}", hex(&b[..k]));
        }
        _ => {
            // encoder refuses oversize values and forbidden text
            let i = *r.pick(&[2u64, 3, 4, 7, 9, 10, 14, 15, 16, 22]);
            let mut p = gen::any_prop(r, i, false);
            let n = 65536 + r.below(3) as usize * 3000;
            let kind = r.below(3);
            let badtext = match kind { 0 => "x".repeat(n), 1 => "a\0b".to_string(), _ => "\u{feff}ab".to_string() };
            use Property::*;
            match &mut p {
                ContentType(s) | ResponseTopic(s) | AssignedClientIdentifier(s) | AuthenticationMethod(s) | ResponseInformation(s) | ServerReference(s) | ReasonString(s) => *s = badtext,
                UserProperty(a, b) => if r.bool() { *a = badtext } else { *b = badtext },
                CorrelationData(b) | AuthenticationData(b) => *b = vec![7; n],
                _ => {}
            }
            c.note(format!("oversize or forbidden {}", dbg(&p)));
            ensure!(encode_properities_hdr(&vec![p.clone()]).is_err(), "oversize", "encoder accepted {}", dbg(&p));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04 / C05
pub fn norm(p: &MqttPacket) -> MqttPacket {
    let mut p = p.clone();
    match &mut p {
        MqttPacket::Publish5(m) if m.qos == 0 => m.packet_id = None,
        MqttPacket::Publish3(m) if m.qos == 0 => m.message_id = None,
        MqttPacket::ConnAck5(a) => if a.properties.as_ref().is_some_and(|p| p.is_empty()) { a.properties = None },
        _ => {}
    }
    p
}
fn to_buffer(p: &MqttPacket, b: &mut Vec<u8>) -> Result<(), ParseError> {
    use MqttPacket::*;
    match p {
        Connect5(x) => x.encode_to_buffer(b), ConnAck5(x) => x.encode_to_buffer(b), Publish5(x) => x.encode_to_buffer(b),
        PubAck5(x) => x.encode_to_buffer(b), PubRec5(x) => x.encode_to_buffer(b), PubRel5(x) => x.encode_to_buffer(b),
        PubComp5(x) => x.encode_to_buffer(b), Subscribe5(x) => x.encode_to_buffer(b), SubAck5(x) => x.encode_to_buffer(b),
        Unsubscribe5(x) => x.encode_to_buffer(b), UnsubAck5(x) => x.encode_to_buffer(b), PingReq5(x) => x.encode_to_buffer(b),
        PingResp5(x) => x.encode_to_buffer(b), Disconnect5(x) => x.encode_to_buffer(b), Auth(x) => x.encode_to_buffer(b),
        Connect3(x) => x.encode_to_buffer(b), ConnAck3(x) => x.encode_to_buffer(b), Publish3(x) => x.encode_to_buffer(b),
        PubAck3(x) => x.encode_to_buffer(b), PubRec3(x) => x.encode_to_buffer(b), PubRel3(x) => x.encode_to_buffer(b),
        PubComp3(x) => x.encode_to_buffer(b), Subscribe3(x) => x.encode_to_buffer(b), SubAck3(x) => x.encode_to_buffer(b),
        Unsubscribe3(x) => x.encode_to_buffer(b), UnsubAck3(x) => x.encode_to_buffer(b), PingReq3(x) => x.encode_to_buffer(b),
        PingResp3(x) => x.encode_to_buffer(b), Disconnect3(x) => x.encode_to_buffer(b),
    }
}
fn kind_name(p: &MqttPacket) -> String {
    let s = format!("{:?}", p);
    s.split(['(', ' ']).next().unwrap().to_string()
}
fn roundtrip(c: &mut Case, p: MqttPacket, vsn: &[u8]) -> R {
    let tn = c.rng.range(0, 6);
    let tail = c.rng.bytes(tn);
    c.note(dbg(&p));
    let k = kind_name(&p);
    let want = refenc::enc(&p);
    let e = match p.to_bytes() { Ok(e) => e, Err(e) => return fail(&format!("{k}-encode"), format!("encoding well-formed {} failed: {e}", dbg(&p))) };
    ensure!(e == want, &format!("{k}-encode"), "to_bytes of {} = {} expected {}", dbg(&p), hex(&e), hex(&want));
    let mut pre = vec![0xAA, 0xBB];
    match to_buffer(&p, &mut pre) {
        Ok(()) => ensure!(pre[..2] == [0xAA, 0xBB] && pre[2..] == want[..], &format!("{k}-encode-buffer"), "encode_to_buffer of {} = {} expected {}", dbg(&p), hex(&pre[2..]), hex(&want)),
        Err(e) => return fail(&format!("{k}-encode-buffer"), format!("encode_to_buffer of {} failed: {e}", dbg(&p))),
    }
    let mut b = want.clone();
    b.extend_from_slice(&tail);
    for v in vsn {
        match MqttPacket::from_bytes_with_version(&b, *v) {
            Ok(ParseOk::Packet(d, n)) if d == norm(&p) && n == want.len() => {}
            o => return fail(&format!("{k}-decode"), format!("decoding {} (version {v}) = {}, expected {} of {} bytes", hex(&b), dbg(&o), dbg(&p), want.len())),
        }
    }
    Ok(())
}
fn c04(c: &mut Case) -> R {
    let k = if c.index < 150 { c.index % 15 } else { c.rng.below(15) };
    let big = c.rng.chance(1, 3);
    let p = gen::packet5(&mut c.rng, k, big);
    roundtrip(c, p, &[5])
}
fn c05(c: &mut Case) -> R {
    let k = if c.index < 140 { c.index % 14 } else { c.rng.below(14) };
    let big = c.rng.chance(1, 3);
    let p = gen::packet3(&mut c.rng, k, big);
    roundtrip(c, p, &[4, 3])
}
fn oversize(c: &mut Case, v5: bool) -> R {
    for _ in 0..40 {
        let mut p = gen::packet(&mut c.rng, v5, false);
        let n = *c.rng.pick(&[65536usize, 65537, 65540, 70000, 131072, 131075, 200000]);
        let nt = gen::texts(&mut p).len();
        let nb = gen::blobs(&mut p).len();
        if nt + nb == 0 { continue; }
        let i = c.rng.below((nt + nb) as u64) as usize;
        if i < nt { *gen::texts(&mut p).remove(i) = "a".repeat(n); } else { *gen::blobs(&mut p).remove(i - nt) = vec![1; n]; }
        c.note(format!("{} field {i} of {n} bytes", kind_name(&p)));
        let k = kind_name(&p);
        ensure!(p.to_bytes().is_err(), &format!("{k}-oversize"), "to_bytes wrote a {k} whose field {i} has {n} bytes instead of refusing it: {}", dbg(&p));
        let mut b = vec![];
        ensure!(to_buffer(&p, &mut b).is_err(), &format!("{k}-oversize"), "encode_to_buffer wrote a {k} whose field {i} has {n} bytes");
        return Ok(());
    }
    c.trivial = true;
    Ok(())
}
fn c04_over(c: &mut Case) -> R { oversize(c, true) }
fn c05_over(c: &mut Case) -> R { oversize(c, false) }

// ---------------------------------------------------------------- C06
pub enum Out { Pkt(MqttPacket, usize), More, Err(String) }
pub fn dec(b: &[u8], v: u8) -> Out {
    match MqttPacket::from_bytes_with_version(b, v) {
        Ok(ParseOk::Packet(p, n)) => Out::Pkt(p, n),
        Ok(ParseOk::Continue(..)) => Out::More,
        Ok(ParseOk::TopicName(..)) => Out::Err("TopicName".into()),
        Err(ParseError::More(..)) | Err(ParseError::BufferTooShort) | Err(ParseError::BufferEmpty) => Out::Err("short".into()),
        Err(e) => Out::Err(format!("{e:?}")),
    }
}
fn c06_check(b: &[u8], v: u8, tails: &[&[u8]]) -> R {
    match dec(b, v) {
        Out::Pkt(p, n) => {
            match refenc::frame(b) {
                Some(Ok(f)) if f == n => {}
                f => return fail("length", format!("version {v}: decoding {} reports {n} bytes for {}, but the frame is {f:?}", hex(b), dbg(&p))),
            }
            for t in tails {
                let mut fb = b[..n].to_vec();
                fb.extend_from_slice(t);
                match dec(&fb, v) {
                    Out::Pkt(q, m) if q == p && m == n => {}
                    Out::Pkt(q, m) => return fail("beyond-frame", format!("version {v}: frame {} followed by {} decodes to {} ({m}) but followed by {} to {} ({n})", hex(&b[..n]), hex(t), dbg(&q), hex(&b[n..]), dbg(&p))),
                    Out::More => return fail("beyond-frame", format!("version {v}: frame {} followed by {} asks for more, followed by {} decodes to {}", hex(&b[..n]), hex(t), hex(&b[n..]), dbg(&p))),
                    Out::Err(e) => return fail("beyond-frame", format!("version {v}: frame {} followed by {} fails ({e}), followed by {} decodes to {}", hex(&b[..n]), hex(t), hex(&b[n..]), dbg(&p))),
                }
            }
        }
        Out::More => {
            if let Some(Ok(f)) = refenc::frame(b) {
                return fail("more", format!("version {v}: {} holds a complete frame of {f} bytes but the decoder asks for more", hex(b)));
            }
        }
        Out::Err(_) => {
            // an error with a complete frame must not depend on what follows
            if let Some(Ok(f)) = refenc::frame(b) {
                for t in tails {
                    let mut fb = b[..f].to_vec();
                    fb.extend_from_slice(t);
                    if let Out::Pkt(q, _) = dec(&fb, v) {
                        return fail("beyond-frame", format!("version {v}: frame {} followed by {} decodes to {} but followed by {} fails", hex(&b[..f]), hex(t), dbg(&q), hex(&b[f..])));
                    }
                }
            }
        }
    }
    Ok(())
}
fn c06_short(c: &mut Case) -> R {
    let vs = [3u8, 4, 5];
    let r = &mut c.rng;
    if c.index < 1024 {
        let a = (c.index % 256) as u8;
        match c.index / 256 {
            0 => { for v in [0u8, 3, 4, 5, 6] { let _ = dec(&[], v); c06_check(&[a], v, &[])?; for b in 0..=255u8 { c06_check(&[a, b], v, &[])?; } } c.note(format!("all buffers [{a:#x}, *]")); }
            1 => { for n in 0..=3usize { for _ in 0..40 { let mut b = vec![a, n as u8]; b.extend(r.bytes(n)); let t = r.bytes(8); for v in vs { c06_check(&b, v, &[&t, &[]])?; } } } c.note(format!("[{a:#x}] bodies of up to 3 bytes")); }
            _ => { for _ in 0..40 { let n = r.range(0, 40); let mut b = vec![a, n as u8]; let mut x = r.bytes(n); for y in x.iter_mut() { if r.chance(2, 3) { *y = r.below(8) as u8 } } b.extend(x); let t = r.bytes(20); for v in vs { c06_check(&b, v, &[&t, &[], &[0; 30]])?; } } c.note(format!("[{a:#x}] small-valued bodies")); }
        }
        return Ok(());
    }
    let n = r.range(0, 12);
    let b = r.bytes(n);
    c.note(hex(&b));
    for v in vs { c06_check(&b, v, &[&[1, 2, 3]])?; }
    Ok(())
}
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        match r.below(9) {
            0 => { let i = r.below(b.len() as u64) as usize; b[i] ^= 1 << r.below(8) }
            1 => { let i = r.below(b.len() as u64) as usize; b[i] = r.u8() }
            2 => { let n = r.range(0, b.len()); b.truncate(n); if b.is_empty() { b.push(0x30) } }
            3 => { let n = r.range(1, 10); let x = r.bytes(n); b.extend(x) }
            // change the remaining length only: the frame now ends elsewhere
            4 | 5 => if b.len() > 1 && b[1] < 0x80 { let d = r.range(0, 6) as i32 - 3; b[1] = (b[1] as i32 + d).clamp(0, 127) as u8 },
            6 => if b.len() > 1 && b[1] < 0x80 { b[1] = r.below(b[1] as u64 + 1) as u8 },
            7 => { let i = r.below(b.len() as u64) as usize; b[i] = b[i].wrapping_add(1) }
            _ => if b.len() > 2 && b[1] < 0x80 {
                // drop or insert a body byte, keeping the length right
                let i = r.range(2, b.len() - 1);
                if r.bool() { b.remove(i); b[1] = b[1].saturating_sub(1) } else { let x = r.u8(); b.insert(i, x); b[1] = (b[1] + 1).min(127) }
            },
        }
    }
}
fn c06_mut(c: &mut Case) -> R {
    let v5 = c.rng.chance(2, 3);
    let big = c.rng.chance(1, 30);
    let p = gen::packet(&mut c.rng, v5, big);
    let mut b = refenc::enc(&p);
    mutate(&mut c.rng, &mut b);
    let q = gen::packet(&mut c.rng, v5, false);
    let t1 = refenc::enc(&q);
    let n = c.rng.range(0, 30);
    let t2 = c.rng.bytes(n);
    if c.rng.bool() { let n = c.rng.range(0, 20); let x = c.rng.bytes(n); b.extend(x); }
    c.note(hex(&b));
    c.fp(&b);
    for v in if v5 { [5u8, 4] } else { [4u8, 5] } { c06_check(&b, v, &[&t1, &t2, &[], &[0; 8]])?; }
    Ok(())
}
fn c06_garbage(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.range(0, 200);
    let mut b = vec![r.next() as u8];
    b.extend(refenc::vbi(n));
    b.extend(r.bytes(n));
    if r.bool() { for x in b.iter_mut().skip(2) { if r.chance(1, 2) { *x &= 7 } } }
    let k = r.range(0, 5);
    let t = r.bytes(20);
    b.extend(r.bytes(k));
    c.note(hex(&b));
    for v in [3u8, 4, 5] { c06_check(&b, v, &[&t, &[]])?; }
    Ok(())
}

// ---------------------------------------------------------------- C07
/// Chunk sizes covering a stream of n bytes.
fn chunks(r: &mut Rng, n: usize) -> Vec<usize> {
    let mode = r.below(4);
    let mut v = vec![];
    let mut left = n;
    while left > 0 {
        let k = match mode { 0 => 1, 1 => r.range(1, 3), 2 => r.range(1, 20), _ => r.range(1, left) }.min(left);
        v.push(k);
        left -= k;
        if v.len() > 3000 { v.push(left); break; }
    }
    v
}
fn drain(ps: &mut MqttParser, o: &mut Vec<String>, lvl: u64) -> R {
    loop {
        let x = if lvl == 4 { ps.next_packet().map(|p| p.map(ParsedPacket::Full)) } else { ps.next_parsed() };
        match x {
            Ok(Some(p)) => o.push(format!("{p:?}")),
            Ok(None) => return Ok(()),
            Err(e) => return fail("error", format!("parser reported {e:?} on a prefix of a valid stream after {} packets", o.len())),
        }
    }
}
fn c07_parser(c: &mut Case) -> R {
    let v5 = c.rng.bool();
    let lvl = c.rng.below(5);
    let level = match lvl { 1 => ParseLevel::HeadersParsed, 2 => ParseLevel::RawBody, 3 => ParseLevel::TypeOnly, _ => ParseLevel::Full };
    let vsn = if v5 { 5 } else { 4 };
    let n = c.rng.range(1, 6);
    let big = c.rng.chance(1, 12);
    let pk: Vec<MqttPacket> = (0..n).map(|_| gen::packet(&mut c.rng, v5, big)).collect();
    let enc: Vec<Vec<u8>> = pk.iter().map(refenc::enc).collect();
    let stream = enc.concat();
    c.note(format!("version {vsn} level {level:?}{}: {n} packets, {} bytes: {}", if lvl == 4 { " (next_packet)" } else { "" }, stream.len(), hex(&stream)));
    let mut want = vec![];
    for (e, p) in enc.iter().zip(&pk) {
        // one packet alone, complete: the reference behaviour of the level
        let mut one = MqttParser::with_level(16, vsn, level);
        one.feed(e);
        drain(&mut one, &mut want, lvl)?;
        if level == ParseLevel::Full { let s = format!("{:?}", ParsedPacket::Full(norm(p))); ensure!(want.last() == Some(&s), "wrong", "parser returned {} for {}", cut(want.last().map(|s| s.as_str()).unwrap_or("nothing")), cut(&s)); }
    }
    ensure!(want.len() == n, "count", "{} packets parsed one by one, expected {n}", want.len());
    let mut ps = MqttParser::with_level(*c.rng.pick(&[1usize, 64, 16384]), vsn, level);
    let mut got = vec![];
    let mut off = 0;
    let mut done: usize = 0;
    for k in chunks(&mut c.rng, stream.len()) {
        ps.feed(&stream[off..off + k]);
        off += k;
        drain(&mut ps, &mut got, lvl)?;
        let mut acc = 0;
        done = enc.iter().take_while(|e| { acc += e.len(); acc <= off }).count();
        ensure!(got.len() == done, "progress", "after {off} bytes {} packets were returned, {done} are complete", got.len());
    }
    let _ = done;
    ensure!(got == want, "differs", "chunked {} differs from one by one {}", dbg(&got), dbg(&want));
    // trailing prefix of another packet: waits, then completes
    let p = gen::packet(&mut c.rng, v5, false);
    let e = refenc::enc(&p);
    let k = c.rng.range(0, e.len() - 1);
    ps.feed(&e[..k]);
    drain(&mut ps, &mut got, lvl)?;
    ensure!(got.len() == n && ps.buffer_mut().len() == k, "wait", "incomplete packet {} of {k} bytes: {} packets, {} bytes kept", hex(&e), got.len(), ps.buffer_mut().len());
    ps.feed(&e[k..]);
    drain(&mut ps, &mut got, lvl)?;
    ensure!(got.len() == n + 1 && ps.buffer_mut().is_empty(), "wait", "completed packet not returned: {}", hex(&e));
    Ok(())
}
/// the outcome of a damaged stream must not depend on how it was cut either
fn c07_damaged(c: &mut Case) -> R {
    let v5 = c.rng.bool();
    let lvl = c.rng.below(5);
    let level = match lvl { 1 => ParseLevel::HeadersParsed, 2 => ParseLevel::RawBody, 3 => ParseLevel::TypeOnly, _ => ParseLevel::Full };
    let vsn = if v5 { 5 } else { 4 };
    let mut stream: Vec<u8> = vec![];
    for _ in 0..c.rng.range(0, 3) { let p = gen::packet(&mut c.rng, v5, false); stream.extend(refenc::enc(&p)); if c.rng.chance(1, 3) { for _ in 0..c.rng.range(1, 2) { let b = *c.rng.pick(&[0u8, 0, 0x0f, 0x10, 0xc0, 0xd0, 0xe0, 0xf0, 0xff, 13, 10, 32]); stream.push(b); } } }
    for _ in 0..c.rng.range(1, 8) { let b = if c.rng.bool() { *c.rng.pick(&[0u8, 0, 0x0f, 0x10, 0xc0, 0xd0, 0xff, 13, 10, 32, 0x80]) } else { c.rng.next() as u8 }; stream.push(b); }
    if !stream.is_empty() && c.rng.chance(1, 2) { let i = c.rng.range(0, stream.len() - 1); stream[i] = c.rng.next() as u8; }
    for _ in 0..c.rng.range(0, 1) { let p = gen::packet(&mut c.rng, v5, false); stream.extend(refenc::enc(&p)); }
    c.note(format!("version {vsn} level {level:?}{}: {} bytes: {}", if lvl == 4 { " (next_packet)" } else { "" }, stream.len(), hex(&stream)));
    let run = |cuts: &[usize]| -> (Vec<String>, bool, usize) {
        let mut ps = MqttParser::with_level(64, vsn, level);
        let mut got = vec![];
        let mut off = 0;
        let mut bad = false;
        for k in cuts {
            ps.feed(&stream[off..off + k]);
            off += k;
            if drain(&mut ps, &mut got, lvl).is_err() { bad = true; break; }
        }
        let left = if bad { 0 } else { ps.buffer_mut().len() };
        (got, bad, left)
    };
    let whole = run(&[stream.len()]);
    let ones = vec![1usize; stream.len()];
    let some = chunks(&mut c.rng, stream.len());
    for (n, cuts) in [("byte by byte", &ones), ("in random pieces", &some)] {
        let r = run(cuts);
        ensure!(r == whole, "damaged", "one read: {} packets, failed {}, {} bytes kept; {n} {:?}: {} packets, failed {}, {} bytes kept", whole.0.len(), whole.1, whole.2, cuts, r.0.len(), r.1, r.2);
    }
    Ok(())
}
fn c07_engine(c: &mut Case) -> R { crate::engine::chunking(c) }

// ---------------------------------------------------------------- C08
fn hdr_eq(p: &MqttPacket, h: &VariableHeader, cf: u8) -> bool {
    use MqttPacket as M;
    use VariableHeader as H;
    match (p, h) {
        (M::Connect5(c), H::ConnectV5 { protocol_name, protocol_version, clean_start, keep_alive, connect_flags, properties }) =>
            *protocol_name == c.protocol_name && *protocol_version == c.protocol_version && *clean_start == c.clean_start && *keep_alive == c.keep_alive && *connect_flags == cf && *properties == c.properties,
        (M::ConnAck5(c), H::ConnAckV5 { session_present, reason_code, properties }) => *session_present == c.session_present && *reason_code == c.reason_code && *properties == c.properties,
        (M::Publish5(m), H::PublishV5 { topic_name, qos, dup, retain, packet_id, properties }) => *topic_name == m.topic_name && *qos == m.qos && *dup == m.dup && *retain == m.retain && *packet_id == m.packet_id && *properties == m.properties,
        (M::PubAck5(a), H::PubAckV5 { packet_id, reason_code, properties }) => *packet_id == a.packet_id && *reason_code == a.reason_code && *properties == a.properties,
        (M::PubRec5(a), H::PubRecV5 { packet_id, reason_code, properties }) => *packet_id == a.packet_id && *reason_code == a.reason_code && *properties == a.properties,
        (M::PubRel5(a), H::PubRelV5 { packet_id, reason_code, properties }) => *packet_id == a.packet_id && *reason_code == a.reason_code && *properties == a.properties,
        (M::PubComp5(a), H::PubCompV5 { packet_id, reason_code, properties }) => *packet_id == a.packet_id && *reason_code == a.reason_code && *properties == a.properties,
        (M::Subscribe5(a), H::SubscribeV5 { packet_id, properties }) => *packet_id == a.packet_id && *properties == a.properties,
        (M::SubAck5(a), H::SubAckV5 { packet_id, properties }) => *packet_id == a.packet_id && *properties == a.properties,
        (M::Unsubscribe5(a), H::UnsubscribeV5 { packet_id, properties }) => *packet_id == a.packet_id && *properties == a.properties,
        (M::UnsubAck5(a), H::UnsubAckV5 { packet_id, properties }) => *packet_id == a.packet_id && *properties == a.properties,
        (M::Disconnect5(a), H::DisconnectV5 { reason_code, properties }) => *reason_code == a.reason_code && *properties == a.properties,
        (M::Auth(a), H::AuthV5 { reason_code, properties }) => *reason_code == a.reason_code && *properties == a.properties,
        (M::Connect3(c), H::ConnectV3 { protocol_name, protocol_version, clean_session, keep_alive, connect_flags }) =>
            *protocol_name == c.protocol_name && *protocol_version == c.protocol_version && *clean_session == c.clean_session && *keep_alive == c.keep_alive && *connect_flags == cf,
        (M::ConnAck3(c), H::ConnAckV3 { session_present, return_code }) => *session_present == c.session_present && *return_code == c.return_code,
        (M::Publish3(m), H::PublishV3 { topic_name, qos, dup, retain, message_id }) => *topic_name == m.topic_name && *qos == m.qos && *dup == m.dup && *retain == m.retain && *message_id == m.message_id,
        (M::PubAck3(a), H::PacketIdOnlyV3 { message_id }) => *message_id == a.message_id,
        (M::PubRec3(a), H::PacketIdOnlyV3 { message_id }) => *message_id == a.message_id,
        (M::PubRel3(a), H::PacketIdOnlyV3 { message_id }) => *message_id == a.message_id,
        (M::PubComp3(a), H::PacketIdOnlyV3 { message_id }) => *message_id == a.message_id,
        (M::UnsubAck3(a), H::PacketIdOnlyV3 { message_id }) => *message_id == a.message_id,
        (M::Subscribe3(a), H::PacketIdOnlyV3 { message_id }) => *message_id == a.message_id,
        (M::SubAck3(a), H::PacketIdOnlyV3 { message_id }) => *message_id == a.message_id,
        (M::Unsubscribe3(a), H::PacketIdOnlyV3 { message_id }) => *message_id == a.message_id,
        (M::PingReq5(_) | M::PingResp5(_) | M::PingReq3(_) | M::PingResp3(_) | M::Disconnect3(_), H::Empty) => true,
        _ => false,
    }
}
/// Bytes of the frame after its variable header (and properties), for a packet that decodes.
fn payload_len(p: &MqttPacket) -> Option<usize> {
    use MqttPacket as M;
    Some(match p {
        M::Publish5(m) => m.payload.len(),
        M::Publish3(m) => m.payload.len(),
        M::SubAck5(s) => s.reason_codes.len(),
        M::UnsubAck5(s) => s.reason_codes.len(),
        M::SubAck3(s) => s.return_codes.len(),
        M::Subscribe5(s) => s.subscriptions.iter().map(|t| t.topic_filter.len() + 3).sum(),
        M::Subscribe3(s) => s.subscriptions.iter().map(|t| t.topic_filter.len() + 3).sum(),
        M::Unsubscribe5(s) => s.topic_filters.iter().map(|t| t.len() + 2).sum(),
        M::Unsubscribe3(s) => s.topic_filters.iter().map(|t| t.len() + 2).sum(),
        M::Connect5(_) | M::Connect3(_) => return None,
        _ => 0,
    })
}
fn c08(c: &mut Case) -> R {
    let v5 = c.rng.bool();
    let vsn: u8 = if v5 { 5 } else { *c.rng.pick(&[4u8, 3]) };
    let big = c.rng.chance(1, 20);
    let p = gen::packet(&mut c.rng, v5, big);
    let mut b = refenc::enc(&p);
    let mutated = c.rng.chance(1, 2);
    if mutated { mutate(&mut c.rng, &mut b); }
    let q = refenc::enc(&gen::packet(&mut c.rng, v5, false));
    let k = c.rng.range(0, q.len());
    b.extend_from_slice(&q[..k]);
    c.note(format!("version {vsn}{}: {}", if mutated { " mutated" } else { "" }, hex(&b)));
    c.fp(&b);
    let fr = refenc::frame(&b);
    let by = bytes::Bytes::copy_from_slice(&b);
    let full = dec(&b, vsn);
    let ty = parse_type_only(&b);
    let raw = parse_raw_body(by.clone());
    let hd = parse_headers_only(by, vsn);
    let ptype_ok = b[0] >> 4 != 0;
    match fr {
        Some(Ok(n)) if ptype_ok => {
            ensure!(matches!(packet_frame_len(&b), Ok(Some(m)) if m == n), "frame-len", "packet_frame_len({}) = {:?}, frame is {n}", hex(&b), packet_frame_len(&b));
            match &ty {
                Ok(LeveledParseOk::Packet(ParsedPacket::TypeOnly(t), m)) if *m == n && t.packet_type as u8 == b[0] >> 4 && t.flags == b[0] & 15 => {}
                o => return fail("type-only", format!("type-only parse of {} = {o:?}, frame is {n}", hex(&b))),
            }
            match &raw {
                Ok(LeveledParseOk::Packet(ParsedPacket::RawBody(t), m)) if *m == n && t.packet_type as u8 == b[0] >> 4 && t.flags == b[0] & 15 && t.remaining[..] == b[refenc::hdr_len(&b)..n] => {}
                o => return fail("raw", format!("raw parse of {} = {}, frame is {n}", hex(&b), dbg(o))),
            }
            if let Out::Pkt(p, m) = &full {
                ensure!(*m == n, "full", "full parse of {} consumed {m}, frame is {n}", hex(&b));
                ensure!(p.packet_type() as u8 == b[0] >> 4, "type", "full parse of {} has type {:?}", hex(&b), p.packet_type());
                match &hd {
                    Ok(LeveledParseOk::Packet(ParsedPacket::HeadersParsed(h), hm)) => {
                        ensure!(*hm == n, "headers", "headers parse of {} consumed {hm}, frame is {n}", hex(&b));
                        ensure!(h.packet_type == p.packet_type() && h.flags == b[0] & 15, "headers", "headers parse of {} reports type {:?} flags {:#x}", hex(&b), h.packet_type, h.flags);
                        let cf = match p { MqttPacket::Connect5(c) => b[refenc::hdr_len(&b) + 2 + c.protocol_name.len() + 1], MqttPacket::Connect3(c) => b[refenc::hdr_len(&b) + 2 + c.protocol_name.len() + 1], _ => 0 };
                        ensure!(hdr_eq(p, &h.variable_header, cf), "fields", "headers of {} are {} but the packet is {}", hex(&b), dbg(&h.variable_header), dbg(p));
                        if let Some(k) = payload_len(p) { ensure!(h.raw_payload[..] == b[n - k..n], "payload", "headers parse of {} leaves payload {}, expected the last {k} bytes of the frame", hex(&b), hex(&h.raw_payload)); }
                    }
                    o => return fail("headers", format!("full parse of {} gives {} but headers parse gives {}", hex(&b), dbg(p), dbg(o))),
                }
            } else if let Ok(LeveledParseOk::Packet(_, hm)) = &hd {
                ensure!(*hm == n, "headers", "headers parse of {} consumed {hm}, frame is {n}", hex(&b));
            }
            // through the stream parser: the next frame starts right behind
            for level in [ParseLevel::HeadersParsed, ParseLevel::RawBody, ParseLevel::TypeOnly, ParseLevel::Full] {
                let mut ps = MqttParser::with_level(64, vsn, level);
                ps.feed(&b);
                if let Ok(Some(x)) = ps.next_parsed() {
                    ensure!(ps.buffer_mut()[..] == b[n..], "stream", "level {level:?} left {} after {}", hex(ps.buffer_mut()), hex(&b));
                    ensure!(x.packet_type() as u8 == b[0] >> 4, "stream", "level {level:?} reports type {:?} for {}", x.packet_type(), hex(&b));
                    if let ParsedPacket::Full(q) = &x { if let Out::Pkt(p, _) = &full { ensure!(p == q, "stream", "stream parse differs"); } else { return fail("stream", format!("stream full parse accepts {}", hex(&b))); } }
                } else if level == ParseLevel::TypeOnly || level == ParseLevel::RawBody { return fail("stream", format!("level {level:?} did not return the frame {}", hex(&b))); }
            }
        }
        Some(Ok(_)) => {}
        Some(Err(())) => {
            let ok = matches!(ty, Ok(LeveledParseOk::Packet(..))) || matches!(raw, Ok(LeveledParseOk::Packet(..))) || matches!(hd, Ok(LeveledParseOk::Packet(..))) || matches!(packet_frame_len(&b), Ok(Some(_)));
            ensure!(!ok, "bad-length", "malformed remaining length accepted: {}", hex(&b));
        }
        None => {
            let ok = matches!(ty, Ok(LeveledParseOk::Packet(..))) || matches!(raw, Ok(LeveledParseOk::Packet(..))) || matches!(hd, Ok(LeveledParseOk::Packet(..))) || matches!(packet_frame_len(&b), Ok(Some(_)));
            ensure!(!ok, "incomplete", "incomplete frame accepted at some level: {}", hex(&b));
            if ptype_ok { ensure!(matches!(ty, Ok(LeveledParseOk::Continue(..))) && matches!(raw, Ok(LeveledParseOk::Continue(..))) && matches!(packet_frame_len(&b), Ok(None)), "incomplete", "incomplete frame {} not answered by a request for more", hex(&b)); }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C09
fn set_body(b: &[u8], body: Vec<u8>) -> Vec<u8> { let mut o = vec![b[0]]; o.extend(refenc::vbi(body.len())); o.extend(body); o }
fn c09(c: &mut Case) -> R {
    let r = &mut c.rng;
    let k = if c.index < 400 { c.index % 20 } else { r.below(20) };
    let mk = |r: &mut Rng, kind| { let p = gen::packet5(r, kind, false); let b = refenc::enc(&p); let h = refenc::hdr_len(&b); (p, b, h) };
    let badflag = |r: &mut Rng, good: u8| loop { let f = r.below(16) as u8; if f != good { return f; } };
    let (what, good, bad): (&str, Vec<u8>, Vec<u8>) = match k {
        0..=6 => {
            let (kind, good, n) = [(5u64, 2u8, "PUBREL flags"), (7, 2, "SUBSCRIBE flags"), (9, 2, "UNSUBSCRIBE flags"), (11, 0, "PINGREQ flags"), (12, 0, "PINGRESP flags"), (13, 0, "DISCONNECT flags"), (14, 0, "AUTH flags")][k as usize];
            let (_, b, _) = mk(r, kind);
            let mut x = b.clone();
            x[0] = (x[0] & 0xf0) | badflag(r, good);
            (n, b, x)
        }
        7 => { let (_, b, _) = mk(r, 2); let mut x = b.clone(); x[0] |= 6; ("PUBLISH QoS 3", b, x) }
        8 => { let b = loop { let (_, b, _) = mk(r, 2); if b[0] & 6 == 0 { break b } }; let mut x = b.clone(); x[0] |= 8; ("PUBLISH DUP at QoS 0", b, x) }
        9 => {
            let p = gen::packet5(r, 2, false);
            let MqttPacket::Publish5(mut m) = p else { unreachable!() };
            let b = refenc::enc(&MqttPacket::Publish5(m.clone()));
            let w = *r.pick(&['#', '+']);
            let nc = m.topic_name.chars().count() as u64;
            let pos = (0..=m.topic_name.len()).filter(|i| m.topic_name.is_char_boundary(*i)).nth(r.below(nc + 1) as usize).unwrap();
            m.topic_name.insert(pos, w);
            if m.topic_name.len() > 65535 { c.trivial = true; return Ok(()); }
            ("PUBLISH wildcard topic", b, refenc::enc(&MqttPacket::Publish5(m)))
        }
        10 => {
            let kind = *r.pick(&[7u64, 8, 9, 10]);
            let (_, b, h) = mk(r, kind);
            let mut x = b.clone();
            x[h] = 0; x[h + 1] = 0;
            ("zero packet identifier", b, x)
        }
        11 => {
            let kind = *r.pick(&[7u64, 8, 9, 10]);
            let (p, b, h) = mk(r, kind);
            let pl = payload_len(&p).unwrap();
            let body = b[h..b.len() - pl].to_vec();
            let x = set_body(&b, body);
            ("empty payload", b, x)
        }
        12 => {
            let (p, b, _) = mk(r, 7);
            let MqttPacket::Subscribe5(s) = &p else { unreachable!() };
            let i = r.below(s.subscriptions.len() as u64) as usize;
            let mut at = b.len();
            for t in s.subscriptions[i + 1..].iter() { at -= t.topic_filter.len() + 3; }
            let mut x = b.clone();
            x[at - 1] |= *r.pick(&[0x40u8, 0x80, 0xC0]);
            ("reserved subscription option bits", b, x)
        }
        13 => { let (_, b, h) = mk(r, 1); let mut x = b.clone(); x[h] |= 1 << r.range(1, 7); ("CONNACK reserved flag bits", b, x) }
        14 => { let (_, b, h) = mk(r, 0); let mut x = b.clone(); x[h + 7] |= 1; ("CONNECT reserved flag", b, x) }
        15 => { let b = loop { let (p, b, _) = mk(r, 0); if matches!(&p, MqttPacket::Connect5(c) if c.will.is_none()) { break b } }; let h = refenc::hdr_len(&b); let mut x = b.clone(); x[h + 7] |= *r.pick(&[0x08u8, 0x10, 0x18]); ("Will QoS without Will flag", b, x) }
        16 => { let b = loop { let (p, b, _) = mk(r, 0); if matches!(&p, MqttPacket::Connect5(c) if c.will.is_none()) { break b } }; let h = refenc::hdr_len(&b); let mut x = b.clone(); x[h + 7] |= 0x20; ("Will Retain without Will flag", b, x) }
        17 => { let b = loop { let (p, b, _) = mk(r, 0); if matches!(&p, MqttPacket::Connect5(c) if c.will.is_some()) { break b } }; let h = refenc::hdr_len(&b); let mut x = b.clone(); x[h + 7] |= 0x18; ("Will QoS 3", b, x) }
        18 => { let n = r.range(1, 4); let mut x = vec![0xC0, n as u8]; x.extend(r.bytes(n)); ("PINGREQ with a body", vec![0xC0, 0], x) }
        _ => { let n = r.range(1, 4); let mut x = vec![0xD0, n as u8]; x.extend(r.bytes(n)); ("PINGRESP with a body", vec![0xD0, 0], x) }
    };
    c.note(format!("{what}: {} from {}", hex(&bad), hex(&good)));
    let key = what.to_lowercase().replace(' ', "-");
    ensure!(matches!(dec(&good, 5), Out::Pkt(..)), &format!("{key}-accept"), "packet without the defect ({what}) refused: {}", hex(&good));
    match dec(&bad, 5) {
        Out::Pkt(p, _) => fail(&key, format!("{what} accepted: {} decodes to {}", hex(&bad), dbg(&p))),
        Out::More => fail(&key, format!("{what}: {} answered by a request for more bytes", hex(&bad))),
        Out::Err(_) => Ok(()),
    }
}

// ---------------------------------------------------------------- C10
fn valid_plain(f: &str) -> bool {
    if f.is_empty() { return false; }
    let l: Vec<&str> = f.split('/').collect();
    for (i, x) in l.iter().enumerate() {
        if x.contains('#') && (*x != "#" || i + 1 != l.len()) { return false; }
        if x.contains('+') && *x != "+" { return false; }
    }
    true
}
fn valid_filter(f: &str, no_local: bool) -> bool {
    if let Some(rest) = f.strip_prefix("$share/") {
        let Some((name, filt)) = rest.split_once('/') else { return false };
        !name.is_empty() && !name.contains(['+', '#']) && valid_plain(filt) && !no_local
    } else { valid_plain(f) }
}
fn c10_check(f: &str, no_local: bool, other: Option<&str>) -> R {
    let mut b = vec![0, 1, 0];
    if let Some(o) = other { refenc::text(&mut b, o); b.push(1); }
    refenc::text(&mut b, f);
    b.push(if no_local { 4 } else { 0 });
    let b = set_body(&[0x82], b);
    let acc = match dec(&b, 5) { Out::Pkt(MqttPacket::Subscribe5(s), _) => { ensure!(s.subscriptions.last().unwrap().topic_filter == f, "text", "filter {f:?} decoded as {:?}", s.subscriptions); true } _ => false };
    let want = valid_filter(f, no_local);
    ensure!(acc == want, if acc { "accepts-invalid" } else { "rejects-valid" }, "SUBSCRIBE filter {f:?} (no_local={no_local}) is {} but should be {}", if acc { "accepted" } else { "refused" }, if want { "accepted" } else { "refused" });
    Ok(())
}
fn c10_exh(c: &mut Case) -> R {
    let al = ['a', '/', '+', '#'];
    c.note(format!("filters with index = {} mod 64", c.index));
    let mut n = 0u64;
    for len in 0..=6u32 {
        for i in 0..4u64.pow(len) {
            n += 1;
            if n % 64 != c.index { continue; }
            let mut s = String::new();
            let mut k = i;
            for _ in 0..len { s.push(al[(k % 4) as usize]); k /= 4; }
            for nl in [false, true] {
                c10_check(&s, nl, None)?;
                c10_check(&format!("$share/{s}"), nl, None)?;
                c10_check(&format!("$share{s}"), nl, Some("x/y"))?;
            }
        }
    }
    Ok(())
}
fn c10_rand(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = r.range(0, 6);
    let mut f = String::new();
    for i in 0..n {
        if i > 0 && r.chance(5, 6) { f.push('/'); }
        match r.below(8) { 0 => f.push('+'), 1 => f.push('#'), 2 => f.push_str("$share"), 3 => {} 4 => f.push_str("a b"), _ => f.push_str(&gen::text(r, false)) }
    }
    if r.chance(1, 3) { f = format!("$share/{f}"); }
    if r.chance(1, 50) { f = format!("{f}/{}", "z".repeat(65535 - f.len().min(65534) - 1)); f.truncate((0..=65535.min(f.len())).rev().find(|i| f.is_char_boundary(*i)).unwrap()); }
    let nl = r.bool();
    c.note(format!("{} no_local={nl}", dbg(&f)));
    if f.len() > 65535 { c.trivial = true; return Ok(()); }
    c10_check(&f, nl, None)
}

// ---------------------------------------------------------------- C11
fn c11(c: &mut Case) -> R {
    for _ in 0..40 {
        let v5 = c.rng.bool();
        let mut p = gen::packet(&mut c.rng, v5, false);
        let nt = gen::texts(&mut p).len();
        if nt == 0 { continue; }
        let i = c.rng.below(nt as u64) as usize;
        let mut ts = gen::texts(&mut p);
        let s = ts.remove(i);
        let bounds: Vec<usize> = (0..=s.len()).filter(|k| s.is_char_boundary(*k)).collect();
        let at = *c.rng.pick(&bounds);
        let (bad, what) = match c.rng.below(6) {
            0 | 1 => { s.insert(at, '\0'); (true, "U+0000") }
            2 => { s.insert(0, '\u{feff}'); (true, "leading U+FEFF") }
            3 => { *s = "é".repeat(*c.rng.pick(&[32768usize, 32769, 65536])); (true, "oversize") }
            4 => { let x = *c.rng.pick(&['\u{1}', '\u{7f}', '\u{fffd}', '\u{fffe}', '\u{d7ff}', '\u{e000}', '\u{10ffff}', '\u{80}', '\u{1f}', '\u{feff}']); if x == '\u{feff}' { s.insert(0, 'q'); s.insert(1, x) } else { s.insert(at, x) } (false, "allowed text") }
            _ => { *s = if c.rng.bool() { "z".repeat(65535) } else { "\u{feff}".repeat(21845).replacen('\u{feff}', "abc", 1) }; (false, "longest text") }
        };
        drop(ts);
        // a packet that is ill-formed for another reason than its text is not what this property is about
        c.note(format!("{what} in field {i} of {}", dbg(&p)));
        let k = kind_name(&p);
        let out = p.to_bytes();
        let mut b2 = vec![];
        let out2 = to_buffer(&p, &mut b2);
        if bad {
            ensure!(out.is_err() && out2.is_err(), &format!("{k}-{what}"), "encoder wrote a {k} with {what} in text field {i}: {}", dbg(&p));
        } else {
            let want = refenc::enc(&p);
            match out { Ok(e) if e == want => {} Ok(e) => return fail(&format!("{k}-changed"), format!("text of {} not written unchanged: {}", dbg(&p), hex(&e))), Err(e) => return fail(&format!("{k}-refused"), format!("encoder refused {what} in {}: {e}", dbg(&p))) }
            ensure!(out2.is_ok() && b2 == want, &format!("{k}-changed"), "encode_to_buffer differs for {}", dbg(&p));
        }
        return Ok(());
    }
    c.trivial = true;
    Ok(())
}
