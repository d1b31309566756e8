// ---------------------------------------------------------------- commands
/// `m` is `a` after the identifier `id` was found for a command: the one it came with, else the next of the session
spec fn identified(a: MqttEngine, m: MqttEngine, given: Option<u16>, id: u16) -> bool {
    match given {
        Some(x) => m == a && id == x,
        None => a.session is Some && m.session is Some && m == (MqttEngine { session: m.session, ..a })
            && id == succ_id(a.session->0.packet_id_counter) && m.session->0.packet_id_counter == id
            && m.session->0.pubs() == a.session->0.pubs() && m.session->0.rels() == a.session->0.rels(),
    }
}
spec fn nameless(a: MqttEngine, given: Option<u16>) -> bool { given is None && a.session is None }
proof fn identified_ok(a: MqttEngine, m: MqttEngine, given: Option<u16>, id: u16)
    requires identified(a, m, given, id), a.inv()
    ensures m.inv(), room(m) == room(a)
{}
//@ fn src/mqtt_client/engine.rs MqttEngine::next_packet_id
//@ for C15
//@ ret r
//@ spec
  ensures nameless(*old(self), None) ==> r is Err && *final(self) == *old(self),
    old(self).session is Some ==> (r matches Ok(id) && identified(*old(self), *final(self), None, id)), // [C15]
    old(self).inv() ==> final(self).inv(),
//@ end
//@ fn src/mqtt_client/commands.rs PublishCommand::to_mqtt_publish
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttPublish5 { topic_name: self.topic_name, packet_id: self.packet_id, payload: self.payload, qos: self.qos, dup: self.dup, retain: self.retain, properties: self.properties })
//@ end
//@ fn src/mqtt_client/commands.rs PublishCommand::to_mqttv3_publish
//@ for C25
//@ ret r
//@ spec
  ensures r == (MqttPublish3 { topic_name: self.topic_name, message_id: self.packet_id, payload: self.payload, qos: self.qos, dup: self.dup, retain: self.retain })
//@ end
/// C25: the packet a publish command becomes
spec fn publish_packet(a: MqttEngine, c: PublishCommand, id: Option<u16>) -> MqttPacket {
    if a.options.mqtt_version == 5 {
        MqttPacket::Publish5(MqttPublish5 { topic_name: c.topic_name, packet_id: id, payload: c.payload, qos: c.qos, dup: c.dup, retain: c.retain, properties: c.properties })
    } else {
        MqttPacket::Publish3(MqttPublish3 { topic_name: c.topic_name, message_id: id, payload: c.payload, qos: c.qos, dup: c.dup, retain: c.retain })
    }
}
/// the identifier of a publish: none is reported for QoS 0
spec fn named(a: MqttEngine, m: MqttEngine, c: PublishCommand, id: Option<u16>, r: Option<u16>) -> bool {
    if c.qos > 0 { id is Some && r == id && identified(a, m, c.packet_id, id->0) } else { m == a && id == c.packet_id && r is None }
}
spec fn submitted(a: MqttEngine, c: PublishCommand, b: MqttEngine, m: MqttEngine, id: Option<u16>, n: MqttEngine, qs: Seq<MqttEngine>, r: Option<u16>) -> bool {
    &&& named(a, m, c, id, r)
    &&& enqueued(m.priority_queue, n.priority_queue, c.priority, publish_packet(a, c, id)) && n == MqttEngine { priority_queue: n.priority_queue, ..m }
    &&& drained(qs, n, b)
}
//@ fn src/mqtt_client/engine.rs MqttEngine::publish
//@ for C15 C20 C25
//@ own
//@ ret r
//@ spec
  requires old(self).inv()
  ensures final(self).inv(),
    r is Err <==> command.qos > 0 && nameless(*old(self), command.packet_id), // [C25]
    r is Err ==> *final(self) == *old(self), // [C20]
    r matches Ok(x) ==> exists|m: MqttEngine, id: Option<u16>, n: MqttEngine, qs: Seq<MqttEngine>| #[trigger] submitted(*old(self), command, *final(self), m, id, n, qs, x), // [C15 C20 C25]
    r is Ok ==> stuck(*final(self)), // [C20]
//@ begin
  hide(drained); hide(stuck);
  let ghost c = command;
//@ before ~self.priority_queue.enqueue(
  let ghost m = *self;
  let ghost id = command.packet_id;
  proof { if c.qos > 0 { identified_ok(*old(self), m, c.packet_id, id->0); } assert(named(*old(self), m, c, id, pid)); assert(packet == publish_packet(*old(self), c, id)); }
//@ before ~self.process_queue(
  let ghost n = *self;
  proof { assert(sendable(n.priority_queue)) by { queued_ok(m.priority_queue, n.priority_queue, c.priority, publish_packet(*old(self), c, id)); } assert(n.inv()); }
//@ after ~self.process_queue(
  proof { let qs = choose|qs: Seq<MqttEngine>| #[trigger] drained(qs, n, *self); assert(submitted(*old(self), c, *self, m, id, n, qs, pid)); }
//@ end
proof fn queued_ok(a: PriorityQueue<u8, MqttPacket>, b: PriorityQueue<u8, MqttPacket>, q: u8, p: MqttPacket)
    requires sendable(a), publishable(p), enqueued(a, b, q, p), a.inv()
    ensures sendable(b)
{
    assert forall|k: u8, i: int| 0 <= i < b.at(k).len() implies publishable(#[trigger] b.at(k)[i]) by {
        let s = at_pushed(a, q, p, k);
        assert forall|j: int| 0 <= j < s.len() implies publishable(#[trigger] s[j]) by { if j < a.at(k).len() { assert(s[j] == a.at(k)[j]); } }
        if a.size == a.capacity {
            let l = choose|l: u8| #[trigger] is_bottom(a.prios().insert(q), l) && b.at(l) =~= at_pushed(a, q, p, l).skip(1) && forall|k: u8| k != l ==> #[trigger] b.at(k) =~= at_pushed(a, q, p, k);
            if k == l { assert(b.at(k)[i] == s[i + 1]); } else { assert(b.at(k)[i] == s[i]); }
        } else { assert(b.at(k)[i] == s[i]); }
    }
}
/// a packet was encoded for a channel of its own and, if it needs an acknowledgement, tracked there
spec fn encoded(m: MqttEngine, b: MqttEngine, id: Option<u16>, p: MqttPacket, qos: u8, stream: Option<u64>, bytes: Seq<u8>) -> bool {
    &&& wire(p) == Some(bytes)
    &&& b == MqttEngine { inflight_queue: b.inflight_queue, last_packet_sent: b.last_packet_sent, ..m }
    &&& if qos > 0 { pushed(m.inflight_queue, b.inflight_queue, id->0, p, qos, stream, Ok(())) } else { b.inflight_queue == m.inflight_queue }
}
spec fn published_on(a: MqttEngine, c: PublishCommand, b: MqttEngine, m: MqttEngine, id: Option<u16>, stream: Option<u64>, r: Option<u16>, bytes: Seq<u8>) -> bool {
    named(a, m, c, id, r) && encoded(m, b, id, publish_packet(a, c, id), c.qos, stream, bytes)
}
/// a refused command may have used up an identifier, nothing else
spec fn refused(a: MqttEngine, b: MqttEngine) -> bool { b == MqttEngine { session: b.session, ..a } }
//@ fn src/mqtt_client/engine.rs MqttEngine::publish_encoded
//@ for C13 C15 C20 C25 C26
//@ own
//@ ret r
//@ spec
  requires old(self).inv()
  ensures final(self).inv(),
    r is Err ==> refused(*old(self), *final(self)), // [C13 C20]
    r matches Ok(x) ==> exists|m: MqttEngine, id: Option<u16>| #[trigger] published_on(*old(self), command, *final(self), m, id, stream, x.0, x.1@), // [C13 C15 C25 C26]
//@ begin
  let ghost c = command;
//@ before ~.to_bytes(
  let ghost m = *self;
  let ghost id = command.packet_id;
  proof { if c.qos > 0 { identified_ok(*old(self), m, c.packet_id, id->0); } assert(named(*old(self), m, c, id, pid)); assert(packet == publish_packet(*old(self), c, id)); }
//@ before ~self.last_packet_sent = 
  let ghost w = bytes@;
//@ tail
  proof { assert(published_on(*old(self), c, *self, m, id, stream, pid, w)); assert(vxret matches Ok(x) && x.0 == pid && x.1@ == w); }
//@ end
/// C25: the packet a subscribe command becomes
spec fn is_subscribe(a: MqttEngine, c: SubscribeCommand, id: u16, p: MqttPacket) -> bool {
    if a.options.mqtt_version == 5 {
        p == MqttPacket::Subscribe5(MqttSubscribe5 { packet_id: id, subscriptions: c.subscriptions, properties: c.properties })
    } else {
        p matches MqttPacket::Subscribe3(s) && s.message_id == id && s.subscriptions@.len() == c.subscriptions@.len()
            && forall|i: int| 0 <= i < s.subscriptions@.len() ==> #[trigger] s.subscriptions@[i] == (SubscriptionTopic { topic_filter: c.subscriptions@[i].topic_filter, qos: c.subscriptions@[i].qos })
    }
}
/// C25: the packet an unsubscribe command becomes
spec fn unsubscribe_packet(a: MqttEngine, c: UnsubscribeCommand, id: u16) -> MqttPacket {
    if a.options.mqtt_version == 5 { MqttPacket::Unsubscribe5(MqttUnsubscribe5 { packet_id: id, topic_filters: c.topics, properties: c.properties }) }
    else { MqttPacket::Unsubscribe3(MqttUnsubscribe3 { message_id: id, topic_filters: c.topics }) }
}
/// `p` was put at the end of the outgoing buffer and is tracked as `id`
spec fn placed(m: MqttEngine, b: MqttEngine, id: u16, p: MqttPacket) -> bool {
    &&& room(m) && wire(p) is Some && b.out() =~= m.out().push(wire(p)->0)
    &&& b == MqttEngine { outgoing_buffer: b.outgoing_buffer, last_packet_sent: b.last_packet_sent, inflight_queue: b.inflight_queue, ..m }
    &&& pushed(m.inflight_queue, b.inflight_queue, id, p, 1, None, Ok(()))
}
spec fn subscribed(a: MqttEngine, c: SubscribeCommand, b: MqttEngine, m: MqttEngine, p: MqttPacket, id: u16) -> bool { identified(a, m, c.packet_id, id) && is_subscribe(a, c, id, p) && placed(m, b, id, p) }
spec fn unsubscribed(a: MqttEngine, c: UnsubscribeCommand, b: MqttEngine, m: MqttEngine, id: u16) -> bool { identified(a, m, c.packet_id, id) && placed(m, b, id, unsubscribe_packet(a, c, id)) }
spec fn subscribed_on(a: MqttEngine, c: SubscribeCommand, b: MqttEngine, m: MqttEngine, p: MqttPacket, id: u16, stream: Option<u64>, bytes: Seq<u8>) -> bool { identified(a, m, c.packet_id, id) && is_subscribe(a, c, id, p) && encoded(m, b, Some(id), p, 1, stream, bytes) }
spec fn unsubscribed_on(a: MqttEngine, c: UnsubscribeCommand, b: MqttEngine, m: MqttEngine, id: u16, stream: Option<u64>, bytes: Seq<u8>) -> bool { identified(a, m, c.packet_id, id) && encoded(m, b, Some(id), unsubscribe_packet(a, c, id), 1, stream, bytes) }
//@ path subscribev3::SubscriptionTopic SubscriptionTopic
//@ fn src/mqtt_client/engine.rs MqttEngine::subscribe
//@ for C15 C20 C25
//@ own
//@ closure 0 |s: TopicSubscription| -> (r: SubscriptionTopic) ensures r == (SubscriptionTopic { topic_filter: s.topic_filter, qos: s.qos })
//@ ret r
//@ spec
  requires old(self).inv()
  ensures final(self).inv(),
    r is Err ==> refused(*old(self), *final(self)), // [C20]
    r matches Ok(id) ==> exists|m: MqttEngine, p: MqttPacket| #[trigger] subscribed(*old(self), command, *final(self), m, p, id), // [C15 C20 C25]
//@ begin
  let ghost c = command;
//@ before ~self.enqueue_packet(
  let ghost (m, p) = (*self, packet);
  proof { identified_ok(*old(self), m, c.packet_id, pid); assert(is_subscribe(*old(self), c, pid, p)); }
//@ tail
  proof { assert(vxret matches Ok(id) && subscribed(*old(self), c, *self, m, p, id)); }
//@ end
//@ fn src/mqtt_client/engine.rs MqttEngine::unsubscribe
//@ for C15 C20 C25
//@ own
//@ ret r
//@ spec
  requires old(self).inv()
  ensures final(self).inv(),
    r is Err ==> refused(*old(self), *final(self)), // [C20]
    r matches Ok(id) ==> exists|m: MqttEngine| #[trigger] unsubscribed(*old(self), command, *final(self), m, id), // [C15 C20 C25]
//@ begin
  let ghost c = command;
//@ before ~self.enqueue_packet(
  let ghost m = *self;
  proof { identified_ok(*old(self), m, c.packet_id, pid); assert(packet == unsubscribe_packet(*old(self), c, pid)); }
//@ tail
  proof { assert(vxret matches Ok(id) && unsubscribed(*old(self), c, *self, m, id)); }
//@ end
//@ fn src/mqtt_client/engine.rs MqttEngine::subscribe_encoded
//@ for C15 C25 C26
//@ own
//@ closure 0 |s: TopicSubscription| -> (r: SubscriptionTopic) ensures r == (SubscriptionTopic { topic_filter: s.topic_filter, qos: s.qos })
//@ ret r
//@ spec
  requires old(self).inv()
  ensures final(self).inv(),
    r is Err ==> refused(*old(self), *final(self)), // [C20]
    r matches Ok(x) ==> exists|m: MqttEngine, p: MqttPacket| #[trigger] subscribed_on(*old(self), command, *final(self), m, p, x.0, stream, x.1@), // [C15 C25 C26]
//@ begin
  let ghost c = command;
//@ before ~.to_bytes(
  let ghost (m, p) = (*self, packet);
  proof { identified_ok(*old(self), m, c.packet_id, pid); assert(is_subscribe(*old(self), c, pid, p)); }
//@ tail
  proof { assert(vxret matches Ok(x) && subscribed_on(*old(self), c, *self, m, p, x.0, stream, x.1@)); }
//@ end
//@ fn src/mqtt_client/engine.rs MqttEngine::unsubscribe_encoded
//@ for C15 C25 C26
//@ own
//@ ret r
//@ spec
  requires old(self).inv()
  ensures final(self).inv(),
    r is Err ==> refused(*old(self), *final(self)), // [C20]
    r matches Ok(x) ==> exists|m: MqttEngine| #[trigger] unsubscribed_on(*old(self), command, *final(self), m, x.0, stream, x.1@), // [C15 C25 C26]
//@ begin
  let ghost c = command;
//@ before ~.to_bytes(
  let ghost m = *self;
  proof { identified_ok(*old(self), m, c.packet_id, pid); assert(packet == unsubscribe_packet(*old(self), c, pid)); }
//@ tail
  proof { assert(vxret matches Ok(x) && unsubscribed_on(*old(self), c, *self, m, x.0, stream, x.1@)); }
//@ end
spec fn disconnect_is(a: MqttEngine, p: MqttPacket) -> bool {
    if a.options.mqtt_version == 5 { p matches MqttPacket::Disconnect5(d) && d.reason_code == 0 && d.properties@.len() == 0 } else { p is Disconnect3 }
}
//@ fn src/mqtt_client/engine.rs MqttEngine::disconnect_packet
//@ for C25
//@ ret r
//@ spec
  ensures disconnect_is(*self, r)
//@ end
/// `b` is `a` after `p` was offered to the outgoing buffer, in the connection state `up`
spec fn offered(a: MqttEngine, p: MqttPacket, b: MqttEngine, up: bool) -> bool {
    if room(a) && wire(p) is Some {
        b == MqttEngine { outgoing_buffer: b.outgoing_buffer, last_packet_sent: b.last_packet_sent, is_connected: up, ..a } && b.out() =~= a.out().push(wire(p)->0)
    } else { b == MqttEngine { is_connected: up, ..a } }
}
//@ fn src/mqtt_client/engine.rs MqttEngine::disconnect
//@ for C20
//@ spec
  requires old(self).inv()
  ensures final(self).inv(),
    if old(self).is_connected { exists|p: MqttPacket| #[trigger] offered(*old(self), p, *final(self), false) && disconnect_is(*old(self), p) } else { *final(self) == *old(self) }
//@ before ~self.enqueue_packet(
  let ghost p = packet;
//@ after ~self.is_connected = false
  proof { assert(offered(*old(self), p, *self, false)); }
//@ end
//@ fn src/mqtt_client/engine.rs MqttEngine::try_disconnect
//@ for C20
//@ ret r
//@ spec
  requires old(self).inv()
  ensures final(self).inv(),
    r is Err ==> *final(self) == *old(self),
    r is Ok ==> if old(self).is_connected { exists|p: MqttPacket| #[trigger] offered(*old(self), p, *final(self), false) && disconnect_is(*old(self), p) && room(*old(self)) && wire(p) is Some } else { *final(self) == *old(self) }
//@ before ~self.enqueue_packet(
  let ghost p = packet;
//@ after ~self.is_connected = false
  proof { assert(offered(*old(self), p, *self, false)); }
//@ end
//@ fn src/mqtt_client/engine.rs MqttEngine::auth
//@ for C20 C25
//@ spec
  requires old(self).inv()
  ensures final(self).inv(),
    if old(self).options.mqtt_version == 5 { offered(*old(self), MqttPacket::Auth(MqttAuth5 { reason_code, properties }), *final(self), old(self).is_connected) } else { *final(self) == *old(self) }
//@ end
/// C25: the CONNECT the options ask for
spec fn is_connect(o: MqttClientOptions, p: MqttPacket) -> bool {
    if o.mqtt_version == 5 {
        p matches MqttPacket::Connect5(c) && c.protocol_name@ == "MQTT"@ && c.properties@.len() == 0
            && c == (MqttConnect5 { protocol_name: c.protocol_name, protocol_version: 5, keep_alive: o.keep_alive, client_id: o.client_id, will: o.will, username: o.username, password: o.password, properties: c.properties, clean_start: o.clean_start })
    } else {
        p matches MqttPacket::Connect3(c) && c.protocol_name@ == "MQTT"@
            && c == (MqttConnect3 { protocol_name: c.protocol_name, protocol_version: 4, clean_session: o.clean_start, keep_alive: o.keep_alive, client_id: o.client_id,
                will: match o.will { Some(w) => Some(Will3 { retain: w.will_retain, qos: w.will_qos, topic: w.will_topic, message: w.will_message }), None => None },
                username: o.username, password: o.password })
    }
}
spec fn connecting(a: MqttEngine, b: MqttEngine, p: MqttPacket) -> bool {
    &&& is_connect(a.options, p)
    &&& b == MqttEngine { outgoing_buffer: b.outgoing_buffer, stream_retransmissions: b.stream_retransmissions, parser: b.parser, session: b.session,
        next_reconnect_at: None, last_packet_sent: b.last_packet_sent, last_packet_received: b.last_packet_received, ping_sent_at: None, ..a }
    &&& b.side() =~= Seq::<(u64, Seq<u8>)>::empty() && exists|n: usize| b.parser.fresh(n, a.options.mqtt_version)
    &&& b.session is Some && (a.session is Some ==> b.session == a.session)
    &&& b.out() =~= (if a.options.max_outgoing_packet_count > 0 && wire(p) is Some { seq![wire(p)->0] } else { Seq::<Seq<u8>>::empty() })
}
//@ fn src/mqtt_client/engine.rs MqttEngine::connect
//@ for C15 C21 C25
//@ own
//@ closure 0 |will: &Will5| -> (r: Will3) ensures r == (Will3 { retain: will.will_retain, qos: will.will_qos, topic: will.will_topic, message: will.will_message })
//@ spec
  requires old(self).inv()
  ensures final(self).inv(),
    if old(self).is_connected { *final(self) == *old(self) } else { exists|p: MqttPacket| #[trigger] connecting(*old(self), *final(self), p) }, // []
    final(self).session is Some || old(self).is_connected, old(self).session is Some ==> final(self).session == old(self).session, // [C15]
    !old(self).is_connected ==> final(self).side().len() == 0 && final(self).out().len() <= 1 && exists|n: usize| #[trigger] final(self).parser.fresh(n, old(self).options.mqtt_version), // [C21]
    final(self).inflight_queue == old(self).inflight_queue && final(self).priority_queue == old(self).priority_queue && final(self).options == old(self).options, // [C20 C21]
    !old(self).is_connected && old(self).options.max_outgoing_packet_count > 0 ==> exists|p: MqttPacket| #[trigger] is_connect(old(self).options, p) && (wire(p) is Some ==> final(self).out() =~= seq![wire(p)->0]), // [C25]
//@ before ~self.enqueue_packet(
  let ghost (m, p) = (*self, packet);
  proof { assert(is_connect(old(self).options, p)); assert(self.inv()); }
//@ after ~self.enqueue_packet(
  let ghost hint = connecting(*old(self), *self, p);
//@ end
// ---------------------------------------------------------------- theorems over the contracts
spec fn ack_id(p: MqttPacket) -> Option<u16> {
    match p {
        MqttPacket::PubAck5(x) => Some(x.packet_id), MqttPacket::PubAck3(x) => Some(x.message_id),
        MqttPacket::PubComp5(x) => Some(x.packet_id), MqttPacket::PubComp3(x) => Some(x.message_id),
        MqttPacket::PubRec5(x) => if x.reason_code >= 0x80 { Some(x.packet_id) } else { None },
        _ => None,
    }
}
/// C17: an exchange is reported complete once; a repeated or unknown acknowledgement reports and changes nothing
proof fn c17_once(a: MqttEngine, p: MqttPacket, b: MqttEngine, q: MqttPacket, c: MqttEngine, s: Option<u64>, e1: Seq<MqttEvent>, e2: Seq<MqttEvent>, r1: Seq<MqttPacket>, r2: Seq<MqttPacket>)
    requires handled(a, p, s, e1, r1, b), handled(b, q, s, e2, r2, c), ack_id(p) is Some, ack_id(q) == ack_id(p)
    ensures !b.inflight_queue.map().contains_key(ack_id(p)->0), e2.len() == 0, r1.len() == 0, r2.len() == 0, c.inflight_queue.map() =~= b.inflight_queue.map(),
        e1.len() == (if a.inflight_queue.map().contains_key(ack_id(p)->0) { 1nat } else { 0 }),
{}
/// C13: no operation on the exchanges in flight raises their number past the receive maximum
proof fn c13_push(a: InflightQueue, b: InflightQueue, id: u16, p: MqttPacket, qos: u8, s: Option<u64>)
    requires pushed(a, b, id, p, qos, s, Ok(())), a.inv(), is_publish(p) || !holds(p)
    ensures slots(b.map()) <= slots(a.map()) || slots(b.map()) <= a.receive_maximum, slots(b.map()) <= slots(a.map()) + 1
{ broadcast use {slots_insert, slots_remove}; assert(b.map() == a.map().insert(id, b.map()[id])); }
proof fn c13_packet(a: MqttEngine, p: MqttPacket, s: Option<u64>, ev: Seq<MqttEvent>, rs: Seq<MqttPacket>, b: MqttEngine)
    requires handled(a, p, s, ev, rs, b), a.inv(), p is PubRec5 || p is PubRec3 ==> forall|k: u16| #[trigger] a.inflight_queue.map().contains_key(k) ==> holds(a.inflight_queue.map()[k].packet)
    ensures slots(b.inflight_queue.map()) <= slots(a.inflight_queue.map()),
        ack_id(p) is Some && a.inflight_queue.map().contains_key(ack_id(p)->0) && holds(a.inflight_queue.map()[ack_id(p)->0].packet) ==> slots(b.inflight_queue.map()) == slots(a.inflight_queue.map()) - 1,
{
    broadcast use {slots_insert, slots_remove};
    let (m, n) = (a.inflight_queue.map(), b.inflight_queue.map());
    match p {
        MqttPacket::PubAck5(x) => { if !m.contains_key(x.packet_id) { assert(n =~= m); } },
        MqttPacket::PubAck3(x) => { if !m.contains_key(x.message_id) { assert(n =~= m); } },
        MqttPacket::PubComp5(x) => { if !m.contains_key(x.packet_id) { assert(n =~= m); } },
        MqttPacket::PubComp3(x) => { if !m.contains_key(x.message_id) { assert(n =~= m); } },
        MqttPacket::SubAck5(x) => { if !m.contains_key(x.packet_id) { assert(n =~= m); } },
        MqttPacket::SubAck3(x) => { if !m.contains_key(x.message_id) { assert(n =~= m); } },
        MqttPacket::UnsubAck5(x) => { if !m.contains_key(x.packet_id) { assert(n =~= m); } },
        MqttPacket::UnsubAck3(x) => { if !m.contains_key(x.message_id) { assert(n =~= m); } },
        MqttPacket::PubRec5(x) => { if !m.contains_key(x.packet_id) { assert(n =~= m); } else if x.reason_code < 0x80 { assert(n == m.insert(x.packet_id, n[x.packet_id])); } },
        MqttPacket::PubRec3(x) => { if !m.contains_key(x.message_id) { assert(n =~= m); } else { assert(n == m.insert(x.message_id, n[x.message_id])); } },
        _ => {},
    }
}
/// C16: the answers to the packets of one input go out in their order, after whatever was waiting
proof fn c16_order(a: MqttEngine, p: MqttPacket, b: MqttEngine, m: MqttEngine, n: MqttEngine, ev: Seq<MqttEvent>, rs: Seq<MqttPacket>)
    requires took(a, p, b, m, n, ev, rs)
    ensures is_prefix(a.out(), b.out()), is_prefix(a.events@, b.events@), !is_connack(p) ==> b.out() =~= a.out() + wires(rs)
{}
/// C26: a packet from a stream adds to the shared output only what the queue sends and a resumption
proof fn c26_shared(a: MqttEngine, p: MqttPacket, s: u64, m: MqttEngine, n: MqttEngine, ev: Seq<MqttEvent>, rs: Seq<MqttPacket>, z: MqttEngine, qs: Seq<MqttEngine>, b: MqttEngine, r: (Seq<MqttEvent>, Seq<u8>))
    requires taken_from(a, p, s, m, n, ev, rs, z, qs, b, r), !is_connack(p)
    ensures z.out() == a.out(), b.side() == a.side()
{
    c20_queue(qs, z, MqttEngine { events: qs.last().events, ..b });
}
