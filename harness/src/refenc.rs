//! Independent reference encoder: the wire format of the MQTT standards, written without the crate's codec.
use flowsdk::mqtt_serde::control_packet::MqttPacket;
use flowsdk::mqtt_serde::mqttv5::Property;

pub fn vbi(mut v: usize) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let d = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 { o.push(d); return o; }
        o.push(d | 0x80);
    }
}
pub fn p16(o: &mut Vec<u8>, v: u16) { o.push((v >> 8) as u8); o.push(v as u8); }
pub fn p32(o: &mut Vec<u8>, v: u32) { p16(o, (v >> 16) as u16); p16(o, v as u16); }
pub fn bin(o: &mut Vec<u8>, b: &[u8]) { p16(o, b.len() as u16); o.extend_from_slice(b); }
pub fn text(o: &mut Vec<u8>, s: &str) { bin(o, s.as_bytes()); }

pub fn prop(o: &mut Vec<u8>, p: &Property) {
    use Property::*;
    match p {
        PayloadFormatIndicator(v) => { o.push(0x01); o.push(*v) }
        MessageExpiryInterval(v) => { o.push(0x02); p32(o, *v) }
        ContentType(v) => { o.push(0x03); text(o, v) }
        ResponseTopic(v) => { o.push(0x08); text(o, v) }
        CorrelationData(v) => { o.push(0x09); bin(o, v) }
        SubscriptionIdentifier(v) => { o.push(0x0B); o.extend(vbi(*v as usize)) }
        SessionExpiryInterval(v) => { o.push(0x11); p32(o, *v) }
        AssignedClientIdentifier(v) => { o.push(0x12); text(o, v) }
        ServerKeepAlive(v) => { o.push(0x13); p16(o, *v) }
        AuthenticationMethod(v) => { o.push(0x15); text(o, v) }
        AuthenticationData(v) => { o.push(0x16); bin(o, v) }
        RequestProblemInformation(v) => { o.push(0x17); o.push(*v) }
        WillDelayInterval(v) => { o.push(0x18); p32(o, *v) }
        RequestResponseInformation(v) => { o.push(0x19); o.push(*v) }
        ResponseInformation(v) => { o.push(0x1A); text(o, v) }
        ServerReference(v) => { o.push(0x1C); text(o, v) }
        ReasonString(v) => { o.push(0x1F); text(o, v) }
        ReceiveMaximum(v) => { o.push(0x21); p16(o, *v) }
        TopicAliasMaximum(v) => { o.push(0x22); p16(o, *v) }
        TopicAlias(v) => { o.push(0x23); p16(o, *v) }
        MaximumQoS(v) => { o.push(0x24); o.push(*v) }
        RetainAvailable(v) => { o.push(0x25); o.push(*v) }
        UserProperty(k, v) => { o.push(0x26); text(o, k); text(o, v) }
        MaximumPacketSize(v) => { o.push(0x27); p32(o, *v) }
        WildcardSubscriptionAvailable(v) => { o.push(0x28); o.push(*v) }
        SubscriptionIdentifierAvailable(v) => { o.push(0x29); o.push(*v) }
        SharedSubscriptionAvailable(v) => { o.push(0x2A); o.push(*v) }
    }
}
pub fn props(o: &mut Vec<u8>, ps: &[Property]) {
    let mut b = vec![];
    for p in ps { prop(&mut b, p); }
    o.extend(vbi(b.len()));
    o.extend(b);
}
fn fin(first: u8, body: Vec<u8>) -> Vec<u8> {
    let mut o = vec![first];
    o.extend(vbi(body.len()));
    o.extend(body);
    o
}
pub fn will_props(w: &flowsdk::mqtt_serde::mqttv5::willv5::WillProperties) -> Vec<Property> {
    let mut v = vec![];
    if let Some(x) = w.will_delay_interval { v.push(Property::WillDelayInterval(x)); }
    if let Some(x) = w.payload_format_indicator { v.push(Property::PayloadFormatIndicator(x)); }
    if let Some(x) = w.message_expiry_interval { v.push(Property::MessageExpiryInterval(x)); }
    if let Some(x) = &w.content_type { v.push(Property::ContentType(x.clone())); }
    if let Some(x) = &w.response_topic { v.push(Property::ResponseTopic(x.clone())); }
    if let Some(x) = &w.correlation_data { v.push(Property::CorrelationData(x.clone())); }
    v.extend(w.user_properties.iter().cloned());
    v
}
fn ack5(first: u8, id: u16, rc: u8, ps: &[Property]) -> Vec<u8> {
    let mut b = vec![];
    p16(&mut b, id);
    if rc != 0 || !ps.is_empty() { b.push(rc); props(&mut b, ps); }
    fin(first, b)
}
fn ack3(first: u8, id: u16) -> Vec<u8> {
    let mut b = vec![];
    p16(&mut b, id);
    fin(first, b)
}

pub fn enc(p: &MqttPacket) -> Vec<u8> {
    let mut b = vec![];
    match p {
        MqttPacket::Connect5(c) => {
            text(&mut b, &c.protocol_name);
            b.push(c.protocol_version);
            let mut f = 0u8;
            if c.clean_start { f |= 2 }
            if let Some(w) = &c.will { f |= 4 | (w.will_qos << 3); if w.will_retain { f |= 32 } }
            if c.password.is_some() { f |= 64 }
            if c.username.is_some() { f |= 128 }
            b.push(f);
            p16(&mut b, c.keep_alive);
            props(&mut b, &c.properties);
            text(&mut b, &c.client_id);
            if let Some(w) = &c.will {
                props(&mut b, &will_props(&w.properties));
                text(&mut b, &w.will_topic);
                bin(&mut b, &w.will_message);
            }
            if let Some(u) = &c.username { text(&mut b, u) }
            if let Some(u) = &c.password { bin(&mut b, u) }
            fin(0x10, b)
        }
        MqttPacket::ConnAck5(c) => {
            b.push(c.session_present as u8);
            b.push(c.reason_code);
            props(&mut b, c.properties.as_deref().unwrap_or(&[]));
            fin(0x20, b)
        }
        MqttPacket::Publish5(m) => {
            text(&mut b, &m.topic_name);
            if m.qos > 0 { p16(&mut b, m.packet_id.unwrap()) }
            props(&mut b, &m.properties);
            b.extend_from_slice(&m.payload);
            fin(0x30 | (m.dup as u8) << 3 | m.qos << 1 | m.retain as u8, b)
        }
        MqttPacket::PubAck5(a) => ack5(0x40, a.packet_id, a.reason_code, &a.properties),
        MqttPacket::PubRec5(a) => ack5(0x50, a.packet_id, a.reason_code, &a.properties),
        MqttPacket::PubRel5(a) => ack5(0x62, a.packet_id, a.reason_code, &a.properties),
        MqttPacket::PubComp5(a) => ack5(0x70, a.packet_id, a.reason_code, &a.properties),
        MqttPacket::Subscribe5(s) => {
            p16(&mut b, s.packet_id);
            props(&mut b, &s.properties);
            for t in &s.subscriptions {
                text(&mut b, &t.topic_filter);
                b.push(t.qos | (t.no_local as u8) << 2 | (t.retain_as_published as u8) << 3 | t.retain_handling << 4);
            }
            fin(0x82, b)
        }
        MqttPacket::SubAck5(s) => {
            p16(&mut b, s.packet_id);
            props(&mut b, &s.properties);
            b.extend_from_slice(&s.reason_codes);
            fin(0x90, b)
        }
        MqttPacket::Unsubscribe5(s) => {
            p16(&mut b, s.packet_id);
            props(&mut b, &s.properties);
            for t in &s.topic_filters { text(&mut b, t) }
            fin(0xA2, b)
        }
        MqttPacket::UnsubAck5(s) => {
            p16(&mut b, s.packet_id);
            props(&mut b, &s.properties);
            b.extend_from_slice(&s.reason_codes);
            fin(0xB0, b)
        }
        MqttPacket::PingReq5(_) | MqttPacket::PingReq3(_) => fin(0xC0, b),
        MqttPacket::PingResp5(_) | MqttPacket::PingResp3(_) => fin(0xD0, b),
        MqttPacket::Disconnect5(d) => {
            if d.reason_code != 0 || !d.properties.is_empty() { b.push(d.reason_code); props(&mut b, &d.properties); }
            fin(0xE0, b)
        }
        MqttPacket::Auth(d) => {
            b.push(d.reason_code);
            props(&mut b, &d.properties);
            fin(0xF0, b)
        }
        MqttPacket::Connect3(c) => {
            text(&mut b, &c.protocol_name);
            b.push(c.protocol_version);
            let mut f = 0u8;
            if c.clean_session { f |= 2 }
            if let Some(w) = &c.will { f |= 4 | (w.qos << 3); if w.retain { f |= 32 } }
            if c.password.is_some() { f |= 64 }
            if c.username.is_some() { f |= 128 }
            b.push(f);
            p16(&mut b, c.keep_alive);
            text(&mut b, &c.client_id);
            if let Some(w) = &c.will { text(&mut b, &w.topic); bin(&mut b, &w.message); }
            if let Some(u) = &c.username { text(&mut b, u) }
            if let Some(u) = &c.password { bin(&mut b, u) }
            fin(0x10, b)
        }
        MqttPacket::ConnAck3(c) => { b.push(c.session_present as u8); b.push(c.return_code); fin(0x20, b) }
        MqttPacket::Publish3(m) => {
            text(&mut b, &m.topic_name);
            if m.qos > 0 { p16(&mut b, m.message_id.unwrap()) }
            b.extend_from_slice(&m.payload);
            fin(0x30 | (m.dup as u8) << 3 | m.qos << 1 | m.retain as u8, b)
        }
        MqttPacket::PubAck3(a) => ack3(0x40, a.message_id),
        MqttPacket::PubRec3(a) => ack3(0x50, a.message_id),
        MqttPacket::PubRel3(a) => ack3(0x62, a.message_id),
        MqttPacket::PubComp3(a) => ack3(0x70, a.message_id),
        MqttPacket::Subscribe3(s) => {
            p16(&mut b, s.message_id);
            for t in &s.subscriptions { text(&mut b, &t.topic_filter); b.push(t.qos) }
            fin(0x82, b)
        }
        MqttPacket::SubAck3(s) => { p16(&mut b, s.message_id); b.extend_from_slice(&s.return_codes); fin(0x90, b) }
        MqttPacket::Unsubscribe3(s) => {
            p16(&mut b, s.message_id);
            for t in &s.topic_filters { text(&mut b, t) }
            fin(0xA2, b)
        }
        MqttPacket::UnsubAck3(a) => ack3(0xB0, a.message_id),
        MqttPacket::Disconnect3(_) => fin(0xE0, b),
    }
}

/// Reference frame length: Some(Ok(n)) complete frame of n bytes, Some(Err) malformed header, None incomplete.
pub fn frame(buf: &[u8]) -> Option<Result<usize, ()>> {
    let mut v = 0usize;
    for i in 0..4 {
        let b = *buf.get(1 + i)?;
        v |= ((b & 0x7f) as usize) << (7 * i);
        if b & 0x80 == 0 {
            if i > 0 && b == 0 { return Some(Err(())); }
            let n = 2 + i + v;
            return if n <= buf.len() { Some(Ok(n)) } else { None };
        }
    }
    Some(Err(()))
}
/// Header length (bytes up to the body) of a frame with a complete fixed header.
pub fn hdr_len(buf: &[u8]) -> usize {
    let mut i = 1;
    while buf[i] & 0x80 != 0 { i += 1; }
    i + 1
}
