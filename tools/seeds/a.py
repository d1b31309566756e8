E_ = "src/mqtt_client/engine.rs"
PRE = '''
#![allow(unused)]
use flowsdk::mqtt_client::commands::*;
use flowsdk::mqtt_client::engine::{MqttEngine, MqttEvent};
use flowsdk::mqtt_client::opts::MqttClientOptions;
use flowsdk::mqtt_serde::control_packet::{MqttControlPacket, MqttPacket};
use flowsdk::mqtt_serde::mqttv5::common::properties::Property;
use flowsdk::mqtt_serde::parser::stream::MqttParser;
use flowsdk::mqtt_serde::parser::{ParseError, ParseOk};
use flowsdk::mqtt_serde::{mqttv3::*, mqttv5::*};
use std::time::{Duration, Instant};

fn engine(v: u8, f: impl FnOnce(MqttClientOptions) -> MqttClientOptions) -> MqttEngine {
    MqttEngine::new(f(MqttClientOptions::default().client_id("c").mqtt_version(v).clean_start(false)))
}
fn connack(v: u8, present: bool) -> Vec<u8> {
    if v == 5 { vec![0x20, 3, present as u8, 0, 0] } else { vec![0x20, 2, present as u8, 0] }
}
fn up(e: &mut MqttEngine, v: u8, present: bool) {
    e.connect();
    let _ = e.take_outgoing();
    let _ = e.handle_incoming(&connack(v, present));
    assert!(e.is_connected());
}
fn packets(bytes: &[u8], v: u8) -> Vec<MqttPacket> {
    let mut p = MqttParser::new(1024, v);
    p.feed(bytes);
    let mut r = Vec::new();
    while let Some(x) = p.next_packet().unwrap() { r.push(x) }
    r
}
fn p(topic: &str, qos: u8) -> PublishCommand { PublishCommand::simple(topic, vec![1, 2], qos, false) }
'''
B = lambda id, prop, edits, needs, breaks, demo: dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo)

BUGS = [
B("c01-minimal", "C01",
  [("src/mqtt_serde/base_data.rs", "if i > 1 && buffer[i - 1] == 0 {", "if i == 2 && buffer[i - 1] == 0 {")],
  "a non-minimal encoding of exactly three or four bytes", "three- and four-byte non-minimal Variable Byte Integers are accepted in strict mode",
  '''
fn main() {
    use flowsdk::mqtt_serde::base_data::VariableByteInteger as V;
    assert!(V::decode(&[0x80, 0]).is_err());
    assert!(V::decode(&[0xff, 0x80, 0]).is_err());
    assert!(V::decode(&[0xff, 0x80, 0x80, 0]).is_err());
    assert_eq!(V::decode(&[0x80, 0x80, 1]).unwrap(), (16384, 3));
}'''),
B("c02-lossy", "C02",
  [("src/mqtt_serde/base_data.rs", "let s = String::from_utf8(data).map_err(|e| ParseError::Utf8Error(e.utf8_error()))?;",
    "let s = match String::from_utf8(data) {\n            Ok(s) => s,\n            // a character cut at the end of the field: keep what is complete\n            Err(e) if e.utf8_error().error_len().is_none() => {\n                let valid = e.utf8_error().valid_up_to();\n                String::from_utf8_lossy(&e.into_bytes()[..valid]).into_owned()\n            }\n            Err(e) => return Err(ParseError::Utf8Error(e.utf8_error())),\n        };")],
  "a text field ending in the middle of a multi-byte character", "text that is not valid UTF-8 is accepted, silently shortened",
  '''
fn main() {
    use flowsdk::mqtt_serde::base_data::Utf8String as U;
    assert!(U::decode(&[0, 1, 0xff]).is_err());
    assert!(U::decode(&[0, 3, b'a', 0xe2, 0x82]).is_err());
    assert_eq!(U::decode(&[0, 1, b'a', 9]).unwrap(), ("a".to_string(), 3));
}'''),
B("c03-twosites", "C03",
  [("src/mqtt_serde/mqttv5/common/properties.rs", "    RequestProblemInformation = 0x17,\n    WillDelayInterval = 0x18,\n    RequestResponseInformation = 0x19,", "    RequestProblemInformation = 0x19,\n    WillDelayInterval = 0x18,\n    RequestResponseInformation = 0x17,"),
   ("src/mqtt_serde/mqttv5/common/properties.rs", "            0x17 => Ok(PropertyID::RequestProblemInformation),", "            0x19 => Ok(PropertyID::RequestProblemInformation),"),
   ("src/mqtt_serde/mqttv5/common/properties.rs", "            0x19 => Ok(PropertyID::RequestResponseInformation),", "            0x17 => Ok(PropertyID::RequestResponseInformation),")],
  "a peer that follows the standard: encoder and decoder are wrong in the same way, so round trips succeed", "Request Problem Information and Request Response Information are exchanged on the wire",
  '''
fn main() {
    use flowsdk::mqtt_serde::mqttv5::common::properties::*;
    assert_eq!(encode_properities_hdr(&vec![Property::RequestProblemInformation(1)]).unwrap(), vec![2, 0x17, 1]);
    assert_eq!(parse_properties_hdr(&[2, 0x19, 0]).unwrap(), (vec![Property::RequestResponseInformation(0)], 3));
}'''),
B("c07-chunk", "C07",
  [("src/mqtt_serde/parser/stream.rs", "    pub fn feed(&mut self, data: &[u8]) {\n        self.buffer.extend_from_slice(data);", "    pub fn feed(&mut self, data: &[u8]) {\n        // nothing pending: a read that starts with padding can be skipped\n        if self.buffer.is_empty() && data.len() == 1 && data[0] == 0 {\n            return;\n        }\n        self.buffer.extend_from_slice(data);")],
  "a read of a single zero byte while the parser's buffer is empty, that is at a frame boundary: the type-0 byte must be refused however the stream is cut", "the packets obtained depend on how the bytes were divided into reads",
  '''
fn main() {
    let one = { let mut q = MqttParser::new(64, 5); q.feed(&[0, 0xC0, 0]); q.next_packet().is_err() };
    let two = { let mut q = MqttParser::new(64, 5); q.feed(&[0]); let a = q.next_packet(); q.feed(&[0xC0, 0]); a.is_err() || q.next_packet().is_err() };
    assert!(one);
    assert_eq!(one, two);
}'''),
B("c12-evict", "C12",
  [("src/priority_queue.rs", "        self.map.entry(priority).or_default().push_back(item);\n        self.size += 1;\n\n        if self.size > self.capacity {\n            self.drop_lowest_priority();\n        }",
    "        // make room first, so that the queue never exceeds its capacity\n        if self.size >= self.capacity {\n            match self.map.first_key_value() {\n                Some((lowest, _)) if *lowest <= priority => self.drop_lowest_priority(),\n                Some(_) if self.capacity > 1 => return,\n                _ => {}\n            }\n        }\n        self.map.entry(priority).or_default().push_back(item);\n        self.size += 1;")],
  "inserting into a full queue of capacity 1 an element of lower priority than the present one, or into a queue of capacity 0", "the queue exceeds its capacity",
  '''
fn main() {
    use flowsdk::priority_queue::PriorityQueue;
    let mut q = PriorityQueue::new(1);
    q.enqueue(5u8, "a");
    q.enqueue(3u8, "b");
    assert_eq!(q.len(), 1);
    assert_eq!(q.dequeue(), Some((5, "a")));
    let mut z = PriorityQueue::new(0);
    z.enqueue(1u8, "x");
    assert_eq!(z.len(), 0);
}'''),
B("c13-reconnect", "C13",
  [("src/mqtt_client/inflight.rs", "        if receive_maximum > 0 {\n            self.receive_maximum = receive_maximum;\n        }", "        if receive_maximum > 0 {\n            self.receive_maximum = receive_maximum.max(self.entries.len() as u16);\n        }")],
  "a reconnection whose CONNACK announces a smaller Receive Maximum than the number of packets still in flight, then one acknowledgement and another publish", "a PUBLISH is admitted while the unacknowledged exchanges have reached the peer's receive maximum",
  '''
fn main() {
    let mut e = engine(5, |o| o);
    up(&mut e, 5, false);
    for i in 0..5 { e.publish(p("t", 1)).unwrap(); }
    let _ = e.take_outgoing();
    e.handle_connection_lost();
    e.connect();
    let _ = e.take_outgoing();
    let _ = e.handle_incoming(&[0x20, 6, 1, 0, 3, 0x21, 0, 2]);
    assert_eq!(packets(&e.take_outgoing(), 5).len(), 5);
    e.publish(p("new", 1)).unwrap();
    let _ = e.handle_incoming(&[0x40, 2, 0, 1]);
    assert!(packets(&e.take_outgoing(), 5).is_empty(), "four in flight, maximum two");
}'''),
B("c15-newsession", "C15",
  [(E_, "        // Initialize session if needed\n        if self.session.is_none() {", "        // Initialize session if needed\n        if self.session.is_none() || (self.options.clean_start && self.inflight_queue.is_empty()) {")],
  "a second connection with clean start, while queued publishes of the first still carry identifiers", "identifiers start again at 1 after a reconnect and repeat long before 65535 allocations",
  '''
fn main() {
    let mut e = engine(5, |o| o.clean_start(true));
    up(&mut e, 5, false);
    let a = e.publish(p("t", 1)).unwrap().unwrap();
    let _ = e.handle_incoming(&[0x40, 2, 0, 1]);
    e.handle_connection_lost();
    up(&mut e, 5, false);
    let b = e.publish(p("t", 1)).unwrap().unwrap();
    assert_eq!((a, b), (1, 2));
}'''),
B("c16-manual", "C16",
  [(E_, "                if self.options.auto_ack {\n                    responses.push(MqttPacket::PubComp3(", "                // PUBCOMP carries nothing the application could decide in MQTT 3.1.1\n                if self.options.auto_ack || stream.is_none() {\n                    responses.push(MqttPacket::PubComp3(")],
  "manual acknowledgement and MQTT 3.1.1 and an incoming PUBREL on the shared connection", "a PUBREL is answered although acknowledgement is the application's",
  '''
fn main() {
    for v in [4, 5] {
        let mut e = engine(v, |o| o.auto_ack(false));
        up(&mut e, v, false);
        let _ = e.handle_incoming(&[0x62, 2, 0, 9]);
        assert!(e.take_outgoing().is_empty(), "version {v}");
    }
}'''),
B("c17-reason", "C17",
  [(E_, "                if let Some(entry) = self.inflight_queue.acknowledge(comp.packet_id) {\n                    events.push(MqttEvent::Published(PublishResult {\n                        packet_id: Some(comp.packet_id),\n                        reason_code: Some(comp.reason_code),", "                if let Some(entry) = self.inflight_queue.acknowledge(comp.packet_id) {\n                    events.push(MqttEvent::Published(PublishResult {\n                        packet_id: Some(comp.packet_id),\n                        reason_code: Some(if entry.retry_count > 0 { comp.reason_code } else { 0 }),")],
  "a PUBCOMP with a reason code other than 0 (0x92, packet identifier not found)", "a QoS 2 publish the server did not know is reported successful",
  '''
fn main() {
    let mut e = engine(5, |o| o);
    up(&mut e, 5, false);
    e.publish(p("t", 2)).unwrap();
    let _ = e.handle_incoming(&[0x50, 2, 0, 1]);
    let ev = e.handle_incoming(&[0x70, 3, 0, 1, 0x92]);
    match &ev[..] {
        [MqttEvent::Published(r)] => assert_eq!(r.reason_code, Some(0x92)),
        x => panic!("{x:?}"),
    }
}'''),
B("c18-cap", "C18",
  [(E_, "        let exponent = self.reconnect_attempts.min(10);", "        let exponent = self.reconnect_attempts.min(16);")],
  "eleven failures in a row, with a maximum delay above 1024 times the base", "the delay keeps doubling past the documented cap",
  '''
fn main() {
    let mut e = engine(5, |o| o.reconnect_base_delay_ms(10).reconnect_max_delay_ms(100_000_000).max_reconnect_attempts(0));
    let now = Instant::now();
    for n in 0..14u32 {
        e.schedule_reconnect(now);
        match &e.take_events()[..] {
            [MqttEvent::ReconnectScheduled { delay, .. }] => assert_eq!(*delay, Duration::from_millis(10u64 << n.min(10)), "attempt {n}"),
            x => panic!("{x:?}"),
        }
    }
}'''),
B("c19-wake", "C19",
  [(E_, "            if next.is_none() || resend_at < next.unwrap() {", "            if next.is_none() || (self.ping_sent_at.is_none() && resend_at < next.unwrap()) {")],
  "MQTT 3.1.1, an unanswered PINGREQ and an unacknowledged publish that falls due before the ping timeout", "the announced wake-up is later than the moment a tick would retransmit",
  '''
fn main() {
    let mut e = engine(4, |o| o.retransmission_timeout_ms(1000).keep_alive(30));
    up(&mut e, 4, false);
    e.publish(p("t", 1)).unwrap();
    e.try_send_ping().unwrap();
    let now = Instant::now();
    assert!(e.next_tick_at().unwrap() <= now + Duration::from_millis(1000));
}'''),
B("c20-limit", "C20",
  [(E_, "                    Err(e) => {\n                        // Permanent failure (broken packet), dequeue and report error\n                        if let Some((_, _)) = self.priority_queue.dequeue() {\n                            self.events.push(MqttEvent::Error(MqttClientError::from(e)));\n                        }", "                    Err(e) => {\n                        // Permanent failure (broken packets), drop them and report error\n                        self.priority_queue.clear();\n                        self.events.push(MqttEvent::Error(MqttClientError::from(e)));\n                        if self.priority_queue.is_empty() {\n                            break;\n                        }")],
  "a publish whose encoding fails waits in the queue with others behind it, while disconnected", "publishes queued behind a broken one are lost",
  '''
fn main() {
    let mut e = engine(5, |o| o);
    e.publish(p("bad\\u{0}topic", 0)).unwrap();
    e.publish(p("good", 0)).unwrap();
    up(&mut e, 5, false);
    let got = packets(&e.take_outgoing(), 5);
    assert_eq!(got.len(), 1, "{got:?}");
}'''),
B("c21-stale", "C21",
  [(E_, "        self.outgoing_buffer.clear();\n        self.stream_retransmissions.clear();", "        self.outgoing_buffer.clear();")],
  "MQTT 3.1.1 over several streams: a retransmission on a stream that was not drained before the transport was replaced", "bytes queued for the old connection survive the reset",
  '''
fn main() {
    let mut e = engine(4, |o| o.retransmission_timeout_ms(1000).keep_alive(0));
    up(&mut e, 4, false);
    e.publish_encoded(p("t", 1), Some(7)).unwrap();
    let _ = e.handle_tick(Instant::now() + Duration::from_millis(1500));
    e.reset_for_new_transport();
    assert!(e.take_stream_retransmissions().is_empty());
}'''),
B("c23-window", "C23",
  [("src/mqtt_session/server_session.rs", "            packets_to_resend.push(MqttPacket::PubRel5(pubrel.clone()));\n            available_slots -= 1;", "            packets_to_resend.push(MqttPacket::PubRel5(pubrel.clone()));")],
  "a PUBREL waiting for PUBCOMP and queued publishes when the resend list is built", "a batch holds more messages than the client's receive maximum leaves room for",
  '''
fn main() {
    use flowsdk::mqtt_session::ServerSession;
    let mut s = ServerSession::new(2);
    s.handle_incoming_subscribe(subscribev5::MqttSubscribe::new_simple(1, vec![subscribev5::TopicSubscription::new_simple("t".into(), 1)]));
    for i in 1..=3 { s.handle_incoming_publish(publishv5::MqttPublish::new(0, "t".into(), None, vec![i], false, false)); }
    s.handle_incoming_pubrec(pubrecv5::MqttPubRec::new(9, 0, vec![]));
    assert!(s.resend_pending_messages().len() <= 2);
}'''),
B("c24-granted", "C24",
  [("src/mqtt_client/client.rs", "self.reason_codes.iter().filter(|&&code| code <= 2).count()", "self.reason_codes.iter().filter(|&&code| code < 0x80 && code & 0x03 == code % 128).count()")],
  "a SUBACK code of 3", "a reason code that grants nothing counts as a successful subscription",
  '''
fn main() {
    use flowsdk::mqtt_client::client::SubscribeResult;
    let r = SubscribeResult { packet_id: 1, reason_codes: vec![0, 1, 2, 3, 0x80], properties: vec![] };
    assert_eq!(r.successful_subscriptions(), 3);
}'''),
B("c26-pubrel", "C26",
  [(E_, "                    let rel = MqttPacket::PubRel3(pubrelv3::MqttPubRel::new(rec.message_id));\n                    // Update entry to store PUBREL for retransmission\n                    entry.packet = rel.clone();\n                    entry.sent_at = Instant::now();\n                    let _ = self.inflight_queue.push_with_stream(\n                        entry.packet_id,\n                        entry.packet,\n                        2,\n                        stream,\n                    );", "                    let rel = MqttPacket::PubRel3(pubrelv3::MqttPubRel::new(rec.message_id));\n                    // Update entry to store PUBREL for retransmission\n                    entry.packet = rel.clone();\n                    entry.sent_at = Instant::now();\n                    let _ = self\n                        .inflight_queue\n                        .push(entry.packet_id, entry.packet, 2);")],
  "MQTT 3.1.1 over several streams, a QoS 2 publish on a data stream, its PUBREC, and no PUBCOMP before the timeout", "the PUBREL is retransmitted on the shared output instead of the stream of its exchange",
  '''
fn main() {
    let mut e = engine(4, |o| o.retransmission_timeout_ms(1000).keep_alive(0));
    up(&mut e, 4, false);
    e.publish_encoded(p("t", 2), Some(7)).unwrap();
    let (_, b) = e.ingest_stream_packet(MqttPacket::PubRec3(pubrecv3::MqttPubRec::new(1)), 7);
    assert!(!b.is_empty());
    let _ = e.handle_tick(Instant::now() + Duration::from_millis(1500));
    assert!(e.take_outgoing().is_empty());
    assert_eq!(e.take_stream_retransmissions().len(), 1);
}'''),
]
