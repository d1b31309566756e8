//! C27, the bounded companion of the unit "duality": packets through the bridge's conversions, the bytes prost makes of
//! the message, and back. agree.rs compiles only if prost's messages are those the proofs are about.
#[path = "../../harness/src/clock.rs"]
#[allow(dead_code)]
mod clock;
#[path = "../../harness/src/fw.rs"]
#[allow(dead_code)]
mod fw;
#[path = "../../harness/src/gen.rs"]
#[allow(dead_code)]
mod gen;
use mqtt_grpc_proxy::{convert_mqtt_to_stream_message, convert_stream_message_to_mqtt_packet, mqtt_unified_pb as u};
use flowsdk::mqtt_serde::control_packet::MqttPacket as P;
use flowsdk::mqtt_serde::mqttv5::common::properties::Property;
use fw::*;
use prost::Message;
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../.build/overlay/flowsdk/agree.rs"));

fn suites(p: &str) -> Vec<Suite> {
    let s = |name, rule, fixed, weight, run| Suite { name, rule, fixed, weight, run };
    match p {
        "C27" => vec![
            s("kinds", "every kind of packet of both versions, small values", 29 * 40, 1, kinds),
            s("packets", "random packets of both versions with all property kinds", 0, 4, packets),
            s("odd", "packets with values at the edges of their types: identifiers 0 and 65535, empty texts, unusual codes", 0, 2, odd),
        ],
        _ => vec![],
    }
}
fn flag(p: &mut Property) {
    use Property::*;
    match p {
        PayloadFormatIndicator(x) | RequestProblemInformation(x) | RequestResponseInformation(x) | RetainAvailable(x) | WildcardSubscriptionAvailable(x) | SubscriptionIdentifierAvailable(x) | SharedSubscriptionAvailable(x) => *x = (*x != 0) as u8,
        _ => {}
    }
}
fn props(v: &mut [Property]) { for p in v { flag(p); } }
/// what the encoding of absent fields and of booleans makes of a packet
fn norm(p: &mut P) {
    match p {
        P::Connect5(c) => {
            props(&mut c.properties);
            if c.username.as_deref() == Some("") { c.username = None; }
            if c.password.as_deref() == Some(&[]) { c.password = None; }
            if let Some(w) = &mut c.will { props(&mut w.properties.user_properties); if let Some(x) = &mut w.properties.payload_format_indicator { *x = (*x != 0) as u8; } }
        }
        P::Connect3(c) => {
            if c.username.as_deref() == Some("") { c.username = None; }
            if c.password.as_deref() == Some(&[]) { c.password = None; }
        }
        P::ConnAck5(c) => { if let Some(v) = &mut c.properties { props(v); if v.is_empty() { c.properties = None; } } }
        P::Publish5(c) => { props(&mut c.properties); if c.packet_id == Some(0) { c.packet_id = None; } }
        P::Publish3(c) => { if c.message_id == Some(0) { c.message_id = None; } }
        P::PubAck5(c) => props(&mut c.properties),
        P::PubRec5(c) => props(&mut c.properties),
        P::PubRel5(c) => props(&mut c.properties),
        P::PubComp5(c) => props(&mut c.properties),
        P::Subscribe5(c) => props(&mut c.properties),
        P::SubAck5(c) => props(&mut c.properties),
        P::Unsubscribe5(c) => props(&mut c.properties),
        P::UnsubAck5(c) => props(&mut c.properties),
        P::Disconnect5(c) => props(&mut c.properties),
        P::Auth(c) => props(&mut c.properties),
        _ => {}
    }
}
fn round(c: &mut Case, p: P) -> R {
    let d = format!("{p:?}");
    c.note(d.chars().take(300).collect::<String>());
    let seq = c.rng.next();
    let Some(m) = convert_mqtt_to_stream_message(&p, seq, u::MessageDirection::BrokerToClient) else { return fail("lost", format!("no message for {d:.400}")) };
    ensure!(m.sequence_id == seq && m.direction == u::MessageDirection::BrokerToClient as i32, "frame", "the stream message says {} {}", m.sequence_id, m.direction);
    let b = m.encode_to_vec();
    let m = match u::MqttStreamMessage::decode(&b[..]) { Ok(m) => m, Err(e) => return fail("bytes", format!("{e} for {d:.400}")) };
    ensure!(m.encode_to_vec() == b, "bytes", "the message of {d:.400} encodes differently after a decode");
    let Some(mut q) = convert_stream_message_to_mqtt_packet(m) else { return fail("lost", format!("no packet back for {d:.400}")) };
    let mut w = p;
    norm(&mut w);
    if let P::ConnAck5(k) = &mut q { if k.properties.as_deref() == Some(&[]) { k.properties = None; } }
    let (a, b) = (format!("{w:?}"), format!("{q:?}"));
    ensure!(a == b, "differs", "{a:.600} came back as {b:.600}");
    Ok(())
}
fn kinds(c: &mut Case) -> R {
    let k = c.index % 29;
    let p = if k < 15 { gen::packet5(&mut c.rng, k, false) } else { gen::packet3(&mut c.rng, k - 15, false) };
    round(c, p)
}
fn packets(c: &mut Case) -> R {
    let v5 = c.rng.bool();
    let p = gen::packet(&mut c.rng, v5, c.index % 50 == 0);
    round(c, p)
}
fn odd(c: &mut Case) -> R {
    let v5 = c.rng.bool();
    let mut p = gen::packet(&mut c.rng, v5, false);
    let r = &mut c.rng;
    match &mut p {
        P::Publish5(x) => { x.packet_id = *r.pick(&[None, Some(0), Some(1), Some(255), Some(256), Some(65535)]); x.qos = r.below(4) as u8; x.dup = r.bool(); }
        P::Publish3(x) => { x.message_id = *r.pick(&[None, Some(0), Some(1), Some(255), Some(256), Some(65535)]); x.qos = r.below(4) as u8; x.dup = r.bool(); }
        P::Connect5(x) => { x.username = Some(String::new()); x.keep_alive = u16::MAX; if let Some(w) = &mut x.will { w.properties.payload_format_indicator = Some(r.u8()); w.will_qos = r.u8(); } }
        P::Connect3(x) => { x.password = Some(vec![]); x.protocol_version = r.u8(); x.keep_alive = r.u16(); if let Some(w) = &mut x.will { w.qos = r.u8(); } }
        P::SubAck5(x) => { x.reason_codes = (0..r.below(6)).map(|_| r.u8()).collect(); x.packet_id = r.u16(); }
        P::UnsubAck5(x) => { x.reason_codes = (0..r.below(6)).map(|_| r.u8()).collect(); x.packet_id = r.u16(); }
        P::SubAck3(x) => { x.return_codes = (0..r.below(6)).map(|_| r.u8()).collect(); x.message_id = r.u16(); }
        P::ConnAck5(x) => { x.reason_code = r.u8(); x.properties = Some(vec![Property::MaximumQoS(r.u8()), Property::RetainAvailable(r.u8()), Property::ReceiveMaximum(r.u16()), Property::ServerKeepAlive(r.u16())]); }
        P::ConnAck3(x) => x.return_code = r.u8(),
        P::PubAck5(x) => x.reason_code = r.u8(),
        P::Disconnect5(x) => x.reason_code = r.u8(),
        P::Subscribe5(x) => { for s in &mut x.subscriptions { s.qos = r.u8(); s.retain_handling = r.u8(); } }
        P::Subscribe3(x) => { for s in &mut x.subscriptions { s.qos = r.u8(); } }
        _ => {}
    }
    round(c, p)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let o = fw::Opts::parse(&a);
    let s = suites(&o.prop);
    if s.is_empty() { eprintln!("no suites for {}", o.prop); std::process::exit(2); }
    std::process::exit(fw::run(s, o));
}
