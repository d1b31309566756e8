import importlib.util
s = importlib.util.spec_from_file_location("a", __file__.replace("b.py", "a.py")); a = importlib.util.module_from_spec(s); s.loader.exec_module(a)
B = a.B
BUGS = [
B("c08-present", "C08",
  [("src/mqtt_serde/parser/leveled.rs", "    let session_present = (body[0] & 0x01) != 0;\n    let reason_code = body[1];", "    let reason_code = body[1];\n    let session_present = (body[0] & 0x01) != 0 && reason_code < 0x80;")],
  "an MQTT 5 CONNACK with Session Present and a failing reason code", "the header level reports another Session Present flag than the full parse",
  '''
fn main() {
    use flowsdk::mqtt_serde::parser::leveled::*;
    for rc in [0u8, 0x87] {
        let b = vec![0x20u8, 3, 1, rc, 0];
        match parse_headers_only(bytes::Bytes::from(b), 5).unwrap() {
            LeveledParseOk::Packet(ParsedPacket::HeadersParsed(h), 5) => match h.variable_header {
                VariableHeader::ConnAckV5 { session_present, reason_code, .. } => assert!(session_present && reason_code == rc),
                x => panic!("{x:?}"),
            },
            x => panic!("{x:?}"),
        }
    }
}'''),
B("c10-inner", "C10",
  [("src/mqtt_serde/mod.rs", "            // + must be the only character in the level\n            if level != \"+\" {", "            // + must be the only character in the level\n            if level != \"+\" && (level.starts_with('+') || level.ends_with('+')) {")],
  "a filter with '+' strictly inside a level", "SUBSCRIBE accepts a topic filter the grammar forbids",
  '''
fn main() {
    use flowsdk::mqtt_serde::mqttv5::subscribe::*;
    let ok = |f: &str| { let mut b = vec![0, f.len() as u8]; b.extend(f.bytes()); b.push(0); TopicSubscription::from_bytes(&b).is_ok() };
    assert!(ok("a/+") && ok("+/b") && ok("a/#") && ok("+"));
    assert!(!ok("+a/b") && !ok("a/b+"));
    assert!(!ok("x/a+b/y"));
    assert!(!ok("$share/g/a+b"));
}'''),
B("c14-stale", "C14",
  [("src/mqtt_client/inflight.rs", "                if entry.sent_at == sent_at {", "                if entry.sent_at >= sent_at {")],
  "MQTT 3.1.1: an identifier acknowledged and used again before its first deadline", "a packet is retransmitted before its own timeout has passed",
  '''
fn main() {
    use flowsdk::mqtt_client::inflight::InflightQueue;
    let q = |i| MqttPacket::Publish3(publishv3::MqttPublish::new("t".into(), 1, vec![i], Some(7), false, false));
    let mut f = InflightQueue::new(10, 4, Duration::from_millis(200));
    f.push(7, q(1), 1).unwrap();
    let t = Instant::now();
    f.acknowledge(7).unwrap();
    std::thread::sleep(Duration::from_millis(100));
    f.push(7, q(2), 1).unwrap();
    assert!(f.get_expired(t + Duration::from_millis(205)).is_empty());
    assert_eq!(f.get_expired(t + Duration::from_millis(700)).len(), 1);
}'''),
B("c22-both", "C22",
  [("src/mqtt_session/client_session.rs", "            if !self.unacknowledged_pubrels.contains_key(packet_id) {", "            if publish.qos < 2 || !self.unacknowledged_pubrels.contains_key(packet_id) {")],
  "a QoS 1 publish recorded with the identifier of a PUBREL that is still pending", "publish and PUBREL with the same identifier are both resent",
  '''
fn main() {
    use flowsdk::mqtt_session::ClientSession;
    let mut s = ClientSession::new();
    s.handle_outgoing_pubrel(pubrelv5::MqttPubRel::new(4, 0, vec![]));
    s.handle_outgoing_publish(publishv5::MqttPublish::new(1, "t".into(), Some(4), vec![], false, false));
    let r = s.resend_pending_messages();
    assert_eq!(r.len(), 1, "{r:?}");
    assert!(matches!(r[0], MqttPacket::PubRel5(_)));
}'''),
B("c04-will", "C04",
  [("src/mqtt_serde/mqttv5/connect.rs", "            if let Some(message_expiry_interval) = &will.properties.message_expiry_interval {", "            if let Some(message_expiry_interval) = will\n                .properties\n                .message_expiry_interval\n                .as_ref()\n                .filter(|v| **v > 0)\n            {")],
  "a CONNECT whose Will carries a Message Expiry Interval of zero", "the property is lost on the wire",
  '''
fn main() {
    use flowsdk::mqtt_serde::mqttv5::will::Will;
    for v in [None, Some(1), Some(0)] {
        let mut w = Will::new("t".into(), vec![1], 1, true);
        w.properties.message_expiry_interval = v;
        let mut c = connectv5::MqttConnect::new("c".into(), None, None, None, 9, true, vec![]);
        c.will = Some(w);
        let p = MqttPacket::Connect5(c);
        let b = p.to_bytes().unwrap();
        match MqttPacket::from_bytes_with_version(&b, 5).unwrap() { ParseOk::Packet(q, n) => { assert_eq!(n, b.len()); assert_eq!(p, q) } x => panic!("{x:?}") }
    }
}'''),
B("c05-emptyuser", "C05",
  [("src/mqtt_serde/mqttv3/connect.rs", "        if let Some(username) = &self.username {\n            payload.extend", "        if let Some(username) = self.username.as_ref().filter(|u| !u.is_empty()) {\n            payload.extend")],
  "an MQTT 3.1.1 CONNECT with an empty user name", "the user name flag is set but the field is missing, so the packet does not decode back",
  '''
fn main() {
    for u in ["u", ""] {
        let mut c = connectv3::MqttConnect::new("c".into(), 9, true);
        c.username = Some(u.into());
        c.password = Some(vec![1, 2, 3]);
        let p = MqttPacket::Connect3(c);
        let b = p.to_bytes().unwrap();
        match MqttPacket::from_bytes_with_version(&b, 4).unwrap() { ParseOk::Packet(q, n) => { assert_eq!(n, b.len()); assert_eq!(p, q) } x => panic!("{x:?}") }
    }
}'''),
B("c06-trailing", "C06",
  [("src/mqtt_serde/mqttv5/unsuback.rs", "        let reason_codes = buffer\n            .get(offset..total_len)\n", "        let reason_codes = buffer\n            .get(offset..)\n")],
  "an MQTT 5 UNSUBACK followed by other bytes in the same read", "reason codes are taken from the bytes behind the frame",
  '''
fn main() {
    let f = vec![0xb0u8, 4, 0, 1, 0, 0x11];
    let mut two = f.clone();
    two.extend([0xd0, 0]);
    let g = |b: &[u8]| match MqttPacket::from_bytes_with_version(b, 5).unwrap() { ParseOk::Packet(p, n) => (p, n), x => panic!("{x:?}") };
    assert_eq!(g(&f), g(&two));
}'''),
B("c09-zeroid", "C09",
  [("src/mqtt_serde/mqttv5/unsuback.rs", '''        offset += consumed;

        #[cfg(feature = "strict-protocol-compliance")]
        if packet_id == 0 {''', '''        offset += consumed;

        // an UNSUBACK with properties explains itself
        #[cfg(feature = "strict-protocol-compliance")]
        if packet_id == 0 && buffer.get(offset) == Some(&0) {''')],
  "an UNSUBACK with identifier 0 and a non-empty property section", "strict decoding accepts a packet identifier of zero",
  '''
fn main() {
    let d = |b: &[u8]| MqttPacket::from_bytes_with_version(b, 5);
    assert!(d(&[0xb0, 4, 0, 0, 0, 0x11]).is_err());
    assert!(d(&[0xb0, 8, 0, 0, 4, 0x1f, 0, 1, b'x', 0x11]).is_err());
    assert!(d(&[0xb0, 8, 0, 1, 4, 0x1f, 0, 1, b'x', 0x11]).is_ok());
}'''),
B("c11-bom", "C11",
  [("src/mqtt_serde/mod.rs", "            0xFEFF if i == 0 => {", "            0xFEFF if i == 0 && s.len() > 3 => {")],
  "a text field that is exactly U+FEFF", "the encoder writes text strict mode forbids",
  '''
fn main() {
    let mk = |t: &str| MqttPacket::Publish5(publishv5::MqttPublish::new(0, t.into(), None, vec![], false, false));
    assert!(mk("a\\u{feff}").to_bytes().is_ok());
    assert!(mk("\\u{feff}a").to_bytes().is_err());
    assert!(mk("\\u{feff}").to_bytes().is_err());
}'''),
B("c25-v3dup", "C25",
  [("src/mqtt_client/commands.rs", "            self.payload.clone(),\n            self.packet_id,\n            self.retain,\n            self.dup,", "            self.payload.clone(),\n            self.packet_id,\n            self.retain && !self.payload.is_empty(),\n            self.dup,")],
  "an MQTT 3.1.1 publish with retain and an empty payload (clearing a retained message)", "the retain flag of the command is lost in the packet",
  '''
fn main() {
    let mut c = p("t", 0);
    c.retain = true;
    assert!(c.to_mqttv3_publish().retain);
    c.payload = vec![];
    assert!(c.to_mqttv3_publish().retain);
}'''),
]
