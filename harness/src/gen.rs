//! Generators of well-formed values and packets.
use crate::fw::Rng;
use flowsdk::mqtt_serde::control_packet::MqttPacket;
use flowsdk::mqtt_serde::mqttv3::*;
use flowsdk::mqtt_serde::mqttv5::willv5::{Will, WillProperties};
use flowsdk::mqtt_serde::mqttv5::*;

pub fn len(r: &mut Rng, big: bool) -> usize {
    match r.below(if big { 40 } else { 36 }) {
        0..=5 => 0,
        6..=11 => 1,
        12..=14 => r.range(100, 140),
        15 => r.range(200, 300),
        36 => 65535,
        37 => 65534,
        38 => r.range(16_000, 17_000),
        39 => r.range(1000, 65535),
        _ => r.range(0, 12),
    }
}
pub fn ch(r: &mut Rng) -> char {
    match r.below(20) {
        0 => '/',
        1 => ' ',
        2 => char::from_u32(r.range(1, 0x1f) as u32).unwrap(),
        3 => char::from_u32(r.range(0x80, 0x7ff) as u32).unwrap(),
        4 => char::from_u32(r.range(0x800, 0xd7ff) as u32).unwrap(),
        5 => char::from_u32(r.range(0xe000, 0xfffd) as u32).unwrap(),
        6 => char::from_u32(r.range(0x10000, 0x10ffff) as u32).unwrap(),
        7 => '\u{7f}',
        8 => '\u{ff}',
        9 => '\u{feff}',
        _ => char::from_u32(r.range(0x21, 0x7e) as u32).unwrap(),
    }
}
/// Text MQTT allows: no U+0000, no leading U+FEFF, at most 65535 bytes.
pub fn text(r: &mut Rng, big: bool) -> String {
    let n = len(r, big);
    let mut s = String::new();
    if n > 400 {
        let c = ch(r);
        let c = if c == '\u{feff}' { 'x' } else { c };
        while s.len() + c.len_utf8() <= n { s.push(c); }
        while s.len() < n { s.push('y'); }
        return s;
    }
    while s.len() < n {
        let c = ch(r);
        if s.is_empty() && c == '\u{feff}' { continue; }
        s.push(c);
    }
    s
}
pub fn nonempty(r: &mut Rng, big: bool) -> String {
    loop { let t = text(r, big); if !t.is_empty() { return t; } }
}
pub fn topic(r: &mut Rng, big: bool) -> String {
    let t: String = nonempty(r, big).replace(['#', '+'], "_");
    t
}
pub fn filter(r: &mut Rng) -> String {
    let mut lv: Vec<String> = vec![];
    for _ in 0..r.range(1, 4) {
        lv.push(match r.below(5) { 0 => "+".into(), 1 => String::new(), _ => topic(r, false).replace('/', "-") });
    }
    if r.chance(1, 4) { lv.push("#".into()); }
    let s = lv.join("/");
    let s = if r.chance(1, 6) { format!("$share/g{}/{}", r.below(9), if s.is_empty() { "t".into() } else { s }) } else { s };
    if s.is_empty() || s.starts_with('\u{feff}') || (s.starts_with("$share/") && s.len() < 9) { "a/b".into() } else { s }
}
pub fn blob(r: &mut Rng, big: bool) -> Vec<u8> { let n = len(r, big); r.bytes(n) }

/// Any property with any value of its wire type (i = 0..26).
pub fn any_prop(r: &mut Rng, i: u64, big: bool) -> Property {
    match i {
        0 => Property::PayloadFormatIndicator(r.u8()),
        1 => Property::MessageExpiryInterval(r.u32()),
        2 => Property::ContentType(text(r, big)),
        3 => Property::ResponseTopic(text(r, big)),
        4 => Property::CorrelationData(blob(r, big)),
        5 => Property::SubscriptionIdentifier(match r.below(8) { 0 => 1, 1 => 127, 2 => 128, 3 => 16383, 4 => 16384, 5 => 2097151, 6 => 268435455, _ => r.below(268435456) as u32 }),
        6 => Property::SessionExpiryInterval(r.u32()),
        7 => Property::AssignedClientIdentifier(text(r, big)),
        8 => Property::ServerKeepAlive(r.u16()),
        9 => Property::AuthenticationMethod(text(r, big)),
        10 => Property::AuthenticationData(blob(r, big)),
        11 => Property::RequestProblemInformation(r.u8()),
        12 => Property::WillDelayInterval(r.u32()),
        13 => Property::RequestResponseInformation(r.u8()),
        14 => Property::ResponseInformation(text(r, big)),
        15 => Property::ServerReference(text(r, big)),
        16 => Property::ReasonString(text(r, big)),
        17 => Property::ReceiveMaximum(r.u16()),
        18 => Property::TopicAliasMaximum(r.u16()),
        19 => Property::TopicAlias(r.u16()),
        20 => Property::MaximumQoS(r.u8()),
        21 => Property::RetainAvailable(r.u8()),
        22 => Property::UserProperty(text(r, big), text(r, big)),
        23 => Property::MaximumPacketSize(r.u32()),
        24 => Property::WildcardSubscriptionAvailable(r.u8()),
        25 => Property::SubscriptionIdentifierAvailable(r.u8()),
        _ => Property::SharedSubscriptionAvailable(r.u8()),
    }
}
/// A property with a value the standard allows.
fn legal_prop(r: &mut Rng, i: u64, big: bool) -> Property {
    let mut p = any_prop(r, i, big);
    use Property::*;
    match &mut p {
        PayloadFormatIndicator(v) | RequestProblemInformation(v) | RequestResponseInformation(v) | MaximumQoS(v) | RetainAvailable(v)
        | WildcardSubscriptionAvailable(v) | SubscriptionIdentifierAvailable(v) | SharedSubscriptionAvailable(v) => *v &= 1,
        ReceiveMaximum(v) | TopicAlias(v) => if *v == 0 { *v = 1 },
        MaximumPacketSize(v) | SubscriptionIdentifier(v) => if *v == 0 { *v = 1 },
        ResponseTopic(s) => *s = s.replace(['#', '+'], "_"),
        _ => {}
    }
    p
}
const CONNECT: &[u64] = &[6, 17, 23, 18, 13, 11, 22, 9, 10];
const CONNACK: &[u64] = &[6, 17, 20, 21, 23, 7, 18, 16, 22, 24, 25, 26, 8, 14, 15, 9, 10];
const PUBLISH: &[u64] = &[0, 1, 19, 3, 4, 22, 5, 2];
const ACK: &[u64] = &[16, 22];
const SUB: &[u64] = &[5, 22];
const UNSUB: &[u64] = &[22];
const DISC: &[u64] = &[6, 16, 22, 15];
const AUTH: &[u64] = &[9, 10, 16, 22];

/// A legal property list for a packet: each identifier at most once except User Property (and
/// Subscription Identifier in PUBLISH), in any order.
fn plist(r: &mut Rng, allowed: &[u64], big: bool) -> Vec<Property> {
    let n = match r.below(6) { 0 | 1 => 0, 2 => 1, 3 => r.range(1, 3), 4 => r.range(2, 6), _ => allowed.len() };
    let mut v = vec![];
    let mut used = vec![];
    for _ in 0..n {
        let i = *r.pick(allowed);
        if i != 22 && !(i == 5 && allowed.len() == PUBLISH.len()) && used.contains(&i) { continue; }
        used.push(i);
        v.push(legal_prop(r, i, big));
    }
    v
}
pub fn id(r: &mut Rng) -> u16 { let x = r.u16(); if x == 0 { 1 } else { x } }
fn ver5_rc(r: &mut Rng) -> u8 { *r.pick(&[0u8, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x92, 0x97, 0x99, 0x01, 0x04, 0x18, 0x19]) }

pub fn will5(r: &mut Rng, big: bool) -> Will {
    let mut w = Will::new(topic(r, big), blob(r, big), r.below(3) as u8, r.bool());
    let mut p = WillProperties::new();
    if r.bool() { p.will_delay_interval = Some(r.u32()); }
    if r.bool() { p.payload_format_indicator = Some((r.u8()) & 1); }
    if r.bool() { p.message_expiry_interval = Some(r.u32()); }
    if r.bool() { p.content_type = Some(text(r, big)); }
    if r.bool() { p.response_topic = Some(topic(r, big)); }
    if r.bool() { p.correlation_data = Some(blob(r, big)); }
    for _ in 0..r.below(3) { p.user_properties.push(Property::UserProperty(text(r, big), text(r, big))); }
    w.properties = p;
    w
}
pub const V5_KINDS: u64 = 15;
pub fn packet5(r: &mut Rng, kind: u64, big: bool) -> MqttPacket {
    match kind {
        0 => {
            let mut c = connectv5::MqttConnect::new(text(r, big), None, None, None, r.u16(), r.bool(), plist(r, CONNECT, big));
            if r.bool() { c.username = Some(text(r, big)); }
            if r.bool() { c.password = Some(blob(r, big)); }
            if r.bool() { c.will = Some(will5(r, big)); }
            MqttPacket::Connect5(c)
        }
        1 => { let p = plist(r, CONNACK, big); MqttPacket::ConnAck5(connackv5::MqttConnAck::new(r.bool(), ver5_rc(r), if p.is_empty() { None } else { Some(p) })) }
        2 => {
            let q = r.below(3) as u8;
            let d = q > 0 && r.bool();
            let i = if q > 0 { Some(id(r)) } else { None };
            let n = if big && r.chance(1, 40) { r.range(16300, 300_000) } else { len(r, big) };
            MqttPacket::Publish5(publishv5::MqttPublish::new_with_prop(q, topic(r, big), i, r.bytes(n), r.bool(), d, plist(r, PUBLISH, big)))
        }
        3 => MqttPacket::PubAck5(pubackv5::MqttPubAck::new(id(r), ver5_rc(r), plist(r, ACK, big))),
        4 => MqttPacket::PubRec5(pubrecv5::MqttPubRec::new(id(r), ver5_rc(r), plist(r, ACK, big))),
        5 => MqttPacket::PubRel5(pubrelv5::MqttPubRel::new(id(r), ver5_rc(r), plist(r, ACK, big))),
        6 => MqttPacket::PubComp5(pubcompv5::MqttPubComp::new(id(r), ver5_rc(r), plist(r, ACK, big))),
        7 => {
            let mut v = vec![];
            for _ in 0..r.range(1, 4) {
                let f = filter(r);
                let nl = r.bool() && !f.starts_with("$share/");
                v.push(subscribev5::TopicSubscription::new(f, r.below(3) as u8, nl, r.bool(), r.below(3) as u8));
            }
            MqttPacket::Subscribe5(subscribev5::MqttSubscribe::new(id(r), v, plist(r, SUB, big)))
        }
        8 => { let n = r.range(1, 5); MqttPacket::SubAck5(subackv5::MqttSubAck::new(id(r), (0..n).map(|_| *r.pick(&[0u8, 1, 2, 0x80, 0x87, 0xA2])).collect(), plist(r, ACK, big))) }
        9 => { let n = r.range(1, 4); MqttPacket::Unsubscribe5(unsubscribev5::MqttUnsubscribe::new(id(r), (0..n).map(|_| filter(r)).collect(), plist(r, UNSUB, big))) }
        10 => { let n = r.range(1, 5); MqttPacket::UnsubAck5(unsubackv5::MqttUnsubAck::new(id(r), (0..n).map(|_| *r.pick(&[0u8, 0x11, 0x80, 0x87])).collect(), plist(r, ACK, big))) }
        11 => MqttPacket::PingReq5(pingreqv5::MqttPingReq::new()),
        12 => MqttPacket::PingResp5(pingrespv5::MqttPingResp::new()),
        13 => MqttPacket::Disconnect5(disconnectv5::MqttDisconnect::new(ver5_rc(r), plist(r, DISC, big))),
        _ => MqttPacket::Auth(authv5::MqttAuth::new(*r.pick(&[0u8, 0x18, 0x19]), plist(r, AUTH, big))),
    }
}
pub const V3_KINDS: u64 = 14;
pub fn packet3(r: &mut Rng, kind: u64, big: bool) -> MqttPacket {
    match kind {
        0 => {
            let mut c = connectv3::MqttConnect::new(text(r, big), r.u16(), r.bool());
            if r.chance(1, 4) { c.protocol_name = "MQIsdp".into(); c.protocol_version = 3; }
            if r.bool() { c.username = Some(text(r, big)); if r.bool() { c.password = Some(blob(r, big)); } }
            if r.bool() { c.will = Some(connectv3::Will { retain: r.bool(), qos: r.below(3) as u8, topic: topic(r, big), message: blob(r, big) }); }
            MqttPacket::Connect3(c)
        }
        1 => MqttPacket::ConnAck3(connackv3::MqttConnAck::new(r.bool(), r.below(6) as u8)),
        2 => {
            let q = r.below(3) as u8;
            let d = q > 0 && r.bool();
            let i = if q > 0 { Some(id(r)) } else { None };
            let n = if big && r.chance(1, 40) { r.range(16300, 300_000) } else { len(r, big) };
            MqttPacket::Publish3(publishv3::MqttPublish::new(topic(r, big), q, r.bytes(n), i, r.bool(), d))
        }
        3 => MqttPacket::PubAck3(pubackv3::MqttPubAck::new(id(r))),
        4 => MqttPacket::PubRec3(pubrecv3::MqttPubRec::new(id(r))),
        5 => MqttPacket::PubRel3(pubrelv3::MqttPubRel::new(id(r))),
        6 => MqttPacket::PubComp3(pubcompv3::MqttPubComp::new(id(r))),
        7 => { let n = r.range(1, 4); MqttPacket::Subscribe3(subscribev3::MqttSubscribe::new(id(r), (0..n).map(|_| subscribev3::SubscriptionTopic { topic_filter: filter(r), qos: r.below(3) as u8 }).collect())) }
        8 => { let n = r.range(1, 5); MqttPacket::SubAck3(subackv3::MqttSubAck::new(id(r), (0..n).map(|_| *r.pick(&[0u8, 1, 2, 0x80])).collect())) }
        9 => { let n = r.range(1, 4); MqttPacket::Unsubscribe3(unsubscribev3::MqttUnsubscribe::new(id(r), (0..n).map(|_| filter(r)).collect())) }
        10 => MqttPacket::UnsubAck3(unsubackv3::MqttUnsubAck::new(id(r))),
        11 => MqttPacket::PingReq3(pingreqv3::MqttPingReq::new()),
        12 => MqttPacket::PingResp3(pingrespv3::MqttPingResp::new()),
        _ => MqttPacket::Disconnect3(disconnectv3::MqttDisconnect::new()),
    }
}
pub fn packet(r: &mut Rng, v5: bool, big: bool) -> MqttPacket {
    if v5 { let k = r.below(V5_KINDS); packet5(r, k, big) } else { let k = r.below(V3_KINDS); packet3(r, k, big) }
}

/// Mutable access to every text field of a packet (for C04/C05/C11).
pub fn texts(p: &mut MqttPacket) -> Vec<&mut String> {
    fn pt<'a>(ps: &'a mut [Property], o: &mut Vec<&'a mut String>) {
        use Property::*;
        for p in ps {
            match p {
                ContentType(s) | ResponseTopic(s) | AssignedClientIdentifier(s) | AuthenticationMethod(s) | ResponseInformation(s) | ServerReference(s) | ReasonString(s) => o.push(s),
                UserProperty(a, b) => { o.push(a); o.push(b) }
                _ => {}
            }
        }
    }
    let mut o = vec![];
    match p {
        MqttPacket::Connect5(c) => {
            o.push(&mut c.client_id);
            if let Some(u) = &mut c.username { o.push(u) }
            if let Some(w) = &mut c.will {
                o.push(&mut w.will_topic);
                if let Some(s) = &mut w.properties.content_type { o.push(s) }
                if let Some(s) = &mut w.properties.response_topic { o.push(s) }
                pt(&mut w.properties.user_properties, &mut o);
            }
            pt(&mut c.properties, &mut o);
        }
        MqttPacket::ConnAck5(c) => if let Some(p) = &mut c.properties { pt(p, &mut o) },
        MqttPacket::Publish5(m) => { o.push(&mut m.topic_name); pt(&mut m.properties, &mut o) }
        MqttPacket::PubAck5(a) => pt(&mut a.properties, &mut o),
        MqttPacket::PubRec5(a) => pt(&mut a.properties, &mut o),
        MqttPacket::PubRel5(a) => pt(&mut a.properties, &mut o),
        MqttPacket::PubComp5(a) => pt(&mut a.properties, &mut o),
        MqttPacket::Subscribe5(s) => { for t in &mut s.subscriptions { o.push(&mut t.topic_filter) } pt(&mut s.properties, &mut o) }
        MqttPacket::SubAck5(a) => pt(&mut a.properties, &mut o),
        MqttPacket::Unsubscribe5(s) => { for t in &mut s.topic_filters { o.push(t) } pt(&mut s.properties, &mut o) }
        MqttPacket::UnsubAck5(a) => pt(&mut a.properties, &mut o),
        MqttPacket::Disconnect5(a) => pt(&mut a.properties, &mut o),
        MqttPacket::Auth(a) => pt(&mut a.properties, &mut o),
        MqttPacket::Connect3(c) => {
            o.push(&mut c.client_id);
            if let Some(u) = &mut c.username { o.push(u) }
            if let Some(w) = &mut c.will { o.push(&mut w.topic) }
        }
        MqttPacket::Publish3(m) => o.push(&mut m.topic_name),
        MqttPacket::Subscribe3(s) => for t in &mut s.subscriptions { o.push(&mut t.topic_filter) },
        MqttPacket::Unsubscribe3(s) => for t in &mut s.topic_filters { o.push(t) },
        _ => {}
    }
    o
}
/// Mutable access to every length-prefixed binary field.
pub fn blobs(p: &mut MqttPacket) -> Vec<&mut Vec<u8>> {
    fn pb<'a>(ps: &'a mut [Property], o: &mut Vec<&'a mut Vec<u8>>) {
        for p in ps { if let Property::CorrelationData(b) | Property::AuthenticationData(b) = p { o.push(b) } }
    }
    let mut o = vec![];
    match p {
        MqttPacket::Connect5(c) => {
            if let Some(b) = &mut c.password { o.push(b) }
            if let Some(w) = &mut c.will { o.push(&mut w.will_message); if let Some(b) = &mut w.properties.correlation_data { o.push(b) } }
            pb(&mut c.properties, &mut o);
        }
        MqttPacket::ConnAck5(c) => if let Some(p) = &mut c.properties { pb(p, &mut o) },
        MqttPacket::Publish5(m) => pb(&mut m.properties, &mut o),
        MqttPacket::Auth(a) => pb(&mut a.properties, &mut o),
        MqttPacket::Connect3(c) => {
            if let Some(b) = &mut c.password { o.push(b) }
            if let Some(w) = &mut c.will { o.push(&mut w.message) }
        }
        _ => {}
    }
    o
}
