// ---------------------------------------------------------------- incoming packets
spec fn just<T>(s: Seq<T>) -> bool { s.len() == 1 }
/// C16: the packets `p` must be answered with
spec fn answers(a: MqttEngine, p: MqttPacket, rs: Seq<MqttPacket>) -> bool {
    match p {
        MqttPacket::Publish5(q) => if a.options.auto_ack && q.packet_id is Some && q.qos == 1 {
                just(rs) && (rs[0] matches MqttPacket::PubAck5(x) && x.packet_id == q.packet_id->0 && x.reason_code == 0 && x.properties@.len() == 0)
            } else if a.options.auto_ack && q.packet_id is Some && q.qos == 2 {
                just(rs) && (rs[0] matches MqttPacket::PubRec5(x) && x.packet_id == q.packet_id->0 && x.reason_code == 0 && x.properties@.len() == 0)
            } else { rs.len() == 0 },
        MqttPacket::Publish3(q) => if a.options.auto_ack && q.message_id is Some && q.qos == 1 {
                just(rs) && rs[0] == MqttPacket::PubAck3(MqttPubAck3 { message_id: q.message_id->0 })
            } else if a.options.auto_ack && q.message_id is Some && q.qos == 2 {
                just(rs) && rs[0] == MqttPacket::PubRec3(MqttPubRec3 { message_id: q.message_id->0 })
            } else { rs.len() == 0 },
        MqttPacket::PubRec5(q) => if q.reason_code < 0x80 && a.inflight_queue.map().contains_key(q.packet_id) {
                just(rs) && (rs[0] matches MqttPacket::PubRel5(x) && x.packet_id == q.packet_id && x.reason_code == 0 && x.properties@.len() == 0)
            } else { rs.len() == 0 },
        MqttPacket::PubRec3(q) => if a.inflight_queue.map().contains_key(q.message_id) {
                just(rs) && rs[0] == MqttPacket::PubRel3(MqttPubRel3 { message_id: q.message_id })
            } else { rs.len() == 0 },
        MqttPacket::PubRel5(q) => if a.options.auto_ack {
                just(rs) && (rs[0] matches MqttPacket::PubComp5(x) && x.packet_id == q.packet_id && x.reason_code == 0 && x.properties@.len() == 0)
            } else { rs.len() == 0 },
        MqttPacket::PubRel3(q) => if a.options.auto_ack {
                just(rs) && rs[0] == MqttPacket::PubComp3(MqttPubComp3 { message_id: q.message_id })
            } else { rs.len() == 0 },
        _ => rs.len() == 0,
    }
}
spec fn none_or(ev: Seq<MqttEvent>, m: Map<u16, InflightEntry>, id: u16, reason: u8, properties: Option<Vec<Property>>) -> bool {
    if m.contains_key(id) { just(ev) && ev[0] == MqttEvent::Published(PublishResult { packet_id: Some(id), reason_code: Some(reason), properties, qos: m[id].qos }) } else { ev.len() == 0 }
}
/// C16 (delivery), C17 (completion): the events `p` is reported with
spec fn reports(a: MqttEngine, p: MqttPacket, stream: Option<u64>, ev: Seq<MqttEvent>) -> bool {
    let m = a.inflight_queue.map();
    match p {
        MqttPacket::ConnAck5(c) => just(ev) && ev[0] == MqttEvent::Connected(ConnectionResult { reason_code: c.reason_code, session_present: c.session_present, properties: c.properties }),
        MqttPacket::ConnAck3(c) => just(ev) && ev[0] == MqttEvent::Connected(ConnectionResult { reason_code: c.return_code, session_present: c.session_present, properties: None }),
        MqttPacket::Publish5(q) => ev.len() == 2 && ev[0] == (MqttEvent::PublishReceived { packet_id: q.packet_id, stream }) && ev[1] == MqttEvent::MessageReceived(q),
        MqttPacket::Publish3(q) => ev.len() == 2 && ev[0] == (MqttEvent::PublishReceived { packet_id: q.message_id, stream }) && (ev[1] matches MqttEvent::MessageReceived(x)
            && x == (MqttPublish5 { topic_name: q.topic_name, packet_id: q.message_id, payload: q.payload, qos: q.qos, dup: q.dup, retain: q.retain, properties: x.properties }) && x.properties@.len() == 0),
        MqttPacket::PubAck5(x) => none_or(ev, m, x.packet_id, x.reason_code, Some(x.properties)),
        MqttPacket::PubAck3(x) => none_or(ev, m, x.message_id, 0, None),
        MqttPacket::PubComp5(x) => none_or(ev, m, x.packet_id, x.reason_code, Some(x.properties)),
        MqttPacket::PubComp3(x) => none_or(ev, m, x.message_id, 0, None),
        MqttPacket::PubRec5(x) => if x.reason_code >= 0x80 { none_or(ev, m, x.packet_id, x.reason_code, Some(x.properties)) } else { ev.len() == 0 },
        MqttPacket::SubAck5(x) => just(ev) && ev[0] == MqttEvent::Subscribed(SubscribeResult { packet_id: x.packet_id, reason_codes: x.reason_codes, properties: x.properties }),
        MqttPacket::SubAck3(x) => just(ev) && (ev[0] matches MqttEvent::Subscribed(r) && r.packet_id == x.message_id && r.reason_codes == x.return_codes && r.properties@.len() == 0),
        MqttPacket::UnsubAck5(x) => just(ev) && ev[0] == MqttEvent::Unsubscribed(UnsubscribeResult { packet_id: x.packet_id, reason_codes: x.reason_codes, properties: x.properties }),
        MqttPacket::UnsubAck3(x) => just(ev) && (ev[0] matches MqttEvent::Unsubscribed(r) && r.packet_id == x.message_id && r.reason_codes@.len() == 0 && r.properties@.len() == 0),
        MqttPacket::PingResp5(_) | MqttPacket::PingResp3(_) => just(ev) && ev[0] == MqttEvent::PingResponse(PingResult { success: true }),
        MqttPacket::PubRel5(x) => just(ev) && ev[0] == (MqttEvent::PubRelReceived { packet_id: x.packet_id, stream }),
        MqttPacket::PubRel3(x) => just(ev) && ev[0] == (MqttEvent::PubRelReceived { packet_id: x.message_id, stream }),
        MqttPacket::Disconnect5(d) => just(ev) && ev[0] == MqttEvent::Disconnected(Some(d.reason_code)),
        _ => ev.len() == 0,
    }
}
/// an exchange past its PUBREC: the PUBREL takes the place of the PUBLISH
spec fn released(a: InflightQueue, b: InflightQueue, id: u16, rel: MqttPacket, stream: Option<u64>) -> bool {
    if a.map().contains_key(id) {
        &&& b.map().contains_key(id)
        &&& b.map() =~= a.map().insert(id, b.map()[id])
        &&& b.map()[id].packet == rel && b.map()[id].qos == 2 && b.map()[id].stream == stream
    } else { b.map() =~= a.map() }
}
spec fn acked(a: InflightQueue, b: InflightQueue, id: u16) -> bool { b.map() =~= a.map().remove(id) }
/// the receive maximum a CONNACK announces
spec fn announced(ps: Seq<Property>) -> Option<u16>
    decreases ps.len()
{ if ps.len() == 0 { None } else if ps[0] is ReceiveMaximum { Some(ps[0]->ReceiveMaximum_0) } else { announced(ps.skip(1)) } }
/// C13, C17: what `p` does to the exchanges in flight
spec fn tracks(a: InflightQueue, p: MqttPacket, stream: Option<u64>, rs: Seq<MqttPacket>, b: InflightQueue) -> bool {
    &&& b.mqtt_version == a.mqtt_version && b.retransmission_timeout == a.retransmission_timeout
    &&& match p {
        MqttPacket::ConnAck5(c) => b.map() == a.map() && b.receive_maximum == (match (if c.properties is Some { announced(c.properties->0@) } else { None }) { Some(n) => if n > 0 { n } else { a.receive_maximum }, None => a.receive_maximum }),
        MqttPacket::PubAck5(x) => acked(a, b, x.packet_id) && b.receive_maximum == a.receive_maximum,
        MqttPacket::PubAck3(x) => acked(a, b, x.message_id) && b.receive_maximum == a.receive_maximum,
        MqttPacket::PubComp5(x) => acked(a, b, x.packet_id) && b.receive_maximum == a.receive_maximum,
        MqttPacket::PubComp3(x) => acked(a, b, x.message_id) && b.receive_maximum == a.receive_maximum,
        MqttPacket::SubAck5(x) => acked(a, b, x.packet_id) && b.receive_maximum == a.receive_maximum,
        MqttPacket::SubAck3(x) => acked(a, b, x.message_id) && b.receive_maximum == a.receive_maximum,
        MqttPacket::UnsubAck5(x) => acked(a, b, x.packet_id) && b.receive_maximum == a.receive_maximum,
        MqttPacket::UnsubAck3(x) => acked(a, b, x.message_id) && b.receive_maximum == a.receive_maximum,
        MqttPacket::PubRec5(x) => b.receive_maximum == a.receive_maximum && if x.reason_code >= 0x80 { acked(a, b, x.packet_id) } else { released(a, b, x.packet_id, rs[0], stream) },
        MqttPacket::PubRec3(x) => b.receive_maximum == a.receive_maximum && released(a, b, x.message_id, rs[0], stream),
        _ => b == a,
    }
}
/// the bytes of those of `ps` that have any
spec fn wires(ps: Seq<MqttPacket>) -> Seq<Seq<u8>>
    decreases ps.len()
{ if ps.len() == 0 { Seq::empty() } else if wire(ps.last()) is Some { wires(ps.drop_last()).push(wire(ps.last())->0) } else { wires(ps.drop_last()) } }
spec fn duplicates(m: Map<u16, InflightEntry>, ids: Seq<u16>) -> Seq<MqttPacket> { ids.map_values(|k: u16| with_dup(m[k].packet, true)) }
spec fn is_connack(p: MqttPacket) -> bool { p is ConnAck5 || p is ConnAck3 }
/// a CONNACK that accepts the connection
spec fn accepts(p: MqttPacket) -> bool { match p { MqttPacket::ConnAck5(c) => c.reason_code == 0, MqttPacket::ConnAck3(c) => c.return_code == 0, _ => false } }
spec fn session_kept(p: MqttPacket) -> bool { match p { MqttPacket::ConnAck5(c) => c.session_present, MqttPacket::ConnAck3(c) => c.session_present, _ => false } }
/// C21: what is resent because of `p`
spec fn resumes(a: MqttEngine, p: MqttPacket, b: MqttEngine) -> bool {
    if accepts(p) && session_kept(p) {
        exists|ids: Seq<u16>| #[trigger] in_order(a.inflight_queue.map(), ids) && b.out() =~= a.out() + wires(duplicates(a.inflight_queue.map(), ids))
    } else { b.outgoing_buffer == a.outgoing_buffer }
}
/// C18, C19: what `p` does to the connection state
spec fn connects(a: MqttEngine, p: MqttPacket, b: MqttEngine) -> bool {
    &&& b.is_connected == (if is_connack(p) { accepts(p) } else if p is Disconnect5 { false } else { a.is_connected })
    &&& if accepts(p) { b.reconnect_attempts == 0 && b.next_reconnect_at is None } else { b.reconnect_attempts == a.reconnect_attempts && b.next_reconnect_at == a.next_reconnect_at }
    &&& b.ping_sent_at == (if p is PingResp5 || p is PingResp3 { None } else { a.ping_sent_at })
}
spec fn pkt_frame(a: MqttEngine, b: MqttEngine) -> bool {
    b == MqttEngine { is_connected: b.is_connected, reconnect_attempts: b.reconnect_attempts, next_reconnect_at: b.next_reconnect_at, ping_sent_at: b.ping_sent_at, inflight_queue: b.inflight_queue, outgoing_buffer: b.outgoing_buffer, ..a }
}
/// what handle_packet does with `p`: its answers, its reports and its effects
spec fn handled(a: MqttEngine, p: MqttPacket, stream: Option<u64>, ev: Seq<MqttEvent>, rs: Seq<MqttPacket>, b: MqttEngine) -> bool {
    pkt_frame(a, b) && answers(a, p, rs) && reports(a, p, stream, ev) && tracks(a.inflight_queue, p, stream, rs, b.inflight_queue) && resumes(a, p, b) && connects(a, p, b)
}
//@ fn src/mqtt_client/engine.rs MqttEngine::handle_packet
//@ own
//@ for C13 C16 C17 C18 C19 C21 C26
//@ ret r
//@ spec
  requires old(self).inv()
  ensures final(self).inv(),
    pkt_frame(*old(self), *final(self)),
    answers(*old(self), packet, r.1@), // [C16 C26]
    reports(*old(self), packet, stream, r.0@), // [C16 C17]
    tracks(old(self).inflight_queue, packet, stream, r.1@, final(self).inflight_queue), // [C13 C17 C26]
    resumes(*old(self), packet, *final(self)), // [C21]
    connects(*old(self), packet, *final(self)), // [C18 C19]
    handled(*old(self), packet, stream, r.0@, r.1@, *final(self)), // [] the conjunction of the above
//@ begin
  broadcast use views_push;
//@ iter 0 it hoist
//@ loop 0 before
  let ghost b = *self;
  proof { assert(props@.skip(0) =~= props@); }
//@ loop 0
  invariant_except_break *self == b, announced(props@) == announced(props@.skip(it.index())),
  invariant it.seq().len() == props@.len(), forall|i: int| 0 <= i < props@.len() ==> *#[trigger] it.seq()[i] == props@[i], b.inflight_queue.inv(),
  ensures *self == (MqttEngine { inflight_queue: self.inflight_queue, ..b }), self.inflight_queue.inv(), self.inflight_queue.map() == b.inflight_queue.map(), self.inflight_queue.dq() == b.inflight_queue.dq(),
    self.inflight_queue.mqtt_version == b.inflight_queue.mqtt_version, self.inflight_queue.retransmission_timeout == b.inflight_queue.retransmission_timeout,
    self.inflight_queue.receive_maximum == (match announced(props@) { Some(n) => if n > 0 { n } else { b.inflight_queue.receive_maximum }, None => b.inflight_queue.receive_maximum }),
//@ loop 0 begin
  proof { assert(props@.skip(it.index())[0] == *prop); assert(props@.skip(it.index()).skip(1) =~= props@.skip(it.index() + 1)); }
//@ iter 1 it hoist
//@ loop 1 before
  let ghost ds = pending@.map_values(|p: MqttPacket| with_dup(p, true));
  let ghost a = *self;
  proof {
    let m = old(self).inflight_queue.map();
    let ids = choose|ids: Seq<u16>| #[trigger] in_order(self.inflight_queue.map(), ids) && pending@.len() == ids.len() && forall|a: int| 0 <= a < ids.len() ==> #[trigger] pending@[a] == self.inflight_queue.map()[ids[a]].packet;
    assert(ds =~= duplicates(m, ids));
    assert(a.out() + wires(ds.take(0)) =~= a.out());
    assert(ds.take(ds.len() as int) =~= ds);
  }
//@ loop 1
  invariant ds == it.seq().map_values(|p: MqttPacket| with_dup(p, true)), *self == (MqttEngine { outgoing_buffer: self.outgoing_buffer, ..a }),
    self.out() =~= a.out() + wires(ds.take(it.index())),
//@ loop 1 begin
  broadcast use views_push;
  let ghost k = it.index();
//@ loop 1 end
  proof { assert(ds.take(k + 1).drop_last() =~= ds.take(k)); assert(ds.take(k + 1).last() == packet); }
//@ iter 2 it hoist
//@ loop 2 before
  let ghost ds = pending@.map_values(|p: MqttPacket| with_dup(p, true));
  let ghost a = *self;
  proof {
    let m = old(self).inflight_queue.map();
    let ids = choose|ids: Seq<u16>| #[trigger] in_order(self.inflight_queue.map(), ids) && pending@.len() == ids.len() && forall|a: int| 0 <= a < ids.len() ==> #[trigger] pending@[a] == self.inflight_queue.map()[ids[a]].packet;
    assert(ds =~= duplicates(m, ids));
    assert(a.out() + wires(ds.take(0)) =~= a.out());
    assert(ds.take(ds.len() as int) =~= ds);
  }
//@ loop 2
  invariant ds == it.seq().map_values(|p: MqttPacket| with_dup(p, true)), *self == (MqttEngine { outgoing_buffer: self.outgoing_buffer, ..a }),
    self.out() =~= a.out() + wires(ds.take(it.index())),
//@ loop 2 begin
  broadcast use views_push;
  let ghost k = it.index();
//@ loop 2 end
  proof { assert(ds.take(k + 1).drop_last() =~= ds.take(k)); assert(ds.take(k + 1).last() == packet); }
//@ end
