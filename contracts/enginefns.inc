//@ fn src/mqtt_serde/control_packet.rs MqttPacket::set_dup
//@ for C14 C21
//@ spec
  ensures *final(self) == with_dup(*old(self), dup)
//@ end
spec fn with_dup(p: MqttPacket, dup: bool) -> MqttPacket {
    match p {
        MqttPacket::Publish5(q) => MqttPacket::Publish5(MqttPublish5 { dup, ..q }),
        MqttPacket::Publish3(q) => MqttPacket::Publish3(MqttPublish3 { dup, ..q }),
        _ => p,
    }
}
spec fn views(s: Seq<Vec<u8>>) -> Seq<Seq<u8>> { s.map_values(|v: Vec<u8>| v@) }
spec fn streams(s: Seq<(u64, Vec<u8>)>) -> Seq<(u64, Seq<u8>)> { s.map_values(|x: (u64, Vec<u8>)| (x.0, x.1@)) }
broadcast proof fn views_push(s: Seq<Vec<u8>>, v: Vec<u8>)
    ensures #[trigger] views(s.push(v)) =~= views(s).push(v@) {}
broadcast proof fn streams_push(s: Seq<(u64, Vec<u8>)>, v: (u64, Vec<u8>))
    ensures #[trigger] streams(s.push(v)) =~= streams(s).push((v.0, v.1@)) {}
impl MqttEngine {
    /// packets waiting for the transport
    spec fn out(&self) -> Seq<Seq<u8>> { views(self.outgoing_buffer@) }
    /// packets waiting for their own stream
    spec fn side(&self) -> Seq<(u64, Seq<u8>)> { streams(self.stream_retransmissions@) }
    spec fn inv(&self) -> bool {
        engine_ok(self.inflight_queue, self.options, self.reconnect_base_delay, self.reconnect_max_delay, self.max_reconnect_attempts, self.priority_queue, self.session, self.last_packet_sent, self.ping_sent_at)
    }
}
spec fn sendable(q: PriorityQueue<u8, MqttPacket>) -> bool { forall|p: u8, i: int| 0 <= i < q.at(p).len() ==> publishable(#[trigger] q.at(p)[i]) }
spec fn engine_ok(f: InflightQueue, o: MqttClientOptions, base: Duration, max: Duration, attempts: u32, q: PriorityQueue<u8, MqttPacket>, s: Option<ClientSession>, sent: Instant, ping: Option<Instant>) -> bool {
    &&& f.inv() && f.latest() <= clock_end()
    &&& f.mqtt_version == o.mqtt_version
    &&& ns(f.retransmission_timeout) == o.retransmission_timeout_ms * 1000000
    &&& ns(base) == o.reconnect_base_delay_ms * 1000000
    &&& ns(max) == o.reconnect_max_delay_ms * 1000000
    &&& attempts == o.max_reconnect_attempts
    &&& q.inv() && q.capacity == 1000
    &&& sendable(q)
    &&& s is Some ==> s->0.inv()
    &&& at(sent) <= clock_end()
    &&& ping is Some ==> at(ping->0) <= clock_end()
}
/// a PUBLISH that can be tracked once it is sent
spec fn publishable(p: MqttPacket) -> bool {
    match p {
        MqttPacket::Publish5(q) => q.qos > 0 ==> q.packet_id is Some,
        MqttPacket::Publish3(q) => q.qos > 0 ==> q.message_id is Some,
        _ => false,
    }
}
//@ fn src/mqtt_client/engine.rs MqttEngine::new
//@ for C13 C14 C18 C19 C20
//@ ret r
//@ spec
  ensures r.inv(), r.out() =~= Seq::<Seq<u8>>::empty(), r.side() =~= Seq::<(u64, Seq<u8>)>::empty(), r.events@.len() == 0, !r.is_connected, r.session is None, r.inflight_queue.map() =~= Map::empty(),
    r.options == options, r.reconnect_attempts == 0, r.next_reconnect_at is None, r.ping_sent_at is None,
    r.inflight_queue.receive_maximum == (if options.receive_maximum == 0 { 65535u16 } else { options.receive_maximum }),
    r.priority_queue.prios() =~= Set::empty(),
//@ begin
  broadcast use group_time;
//@ end
//@ fn src/mqtt_client/engine.rs MqttEngine::take_events
//@ for C17
//@ path std::mem::take vx_take
//@ ret r
//@ spec
  ensures r@ == old(self).events@, final(self).events@.len() == 0, *final(self) == (MqttEngine { events: final(self).events, ..*old(self) })
//@ end
//@ fn src/mqtt_client/engine.rs MqttEngine::options
//@ for C25
//@ ret r
//@ spec
  ensures *r == self.options
//@ end
//@ fn src/mqtt_client/engine.rs MqttEngine::is_connected
//@ for C25
//@ ret r
//@ spec
  ensures r == self.is_connected
//@ end
//@ fn src/mqtt_client/engine.rs MqttEngine::mqtt_version
//@ for C25
//@ ret r
//@ spec
  ensures r == self.options.mqtt_version
//@ end
//@ fn src/mqtt_client/engine.rs MqttEngine::handle_connection_lost
//@ for C18 C19 C20
//@ spec
  ensures *final(self) == (MqttEngine { is_connected: false, ping_sent_at: None, ..*old(self) })
//@ end
//@ fn src/mqtt_client/engine.rs MqttEngine::reset_for_new_transport
//@ for C21
//@ spec
  requires old(self).inv()
  ensures final(self).inv(),
    *final(self) == (MqttEngine { is_connected: false, outgoing_buffer: final(self).outgoing_buffer, stream_retransmissions: final(self).stream_retransmissions, parser: final(self).parser,
        next_reconnect_at: None, last_packet_sent: final(self).last_packet_sent, last_packet_received: final(self).last_packet_received, ping_sent_at: None, ..*old(self) }),
    final(self).out() =~= Seq::<Seq<u8>>::empty(), final(self).side() =~= Seq::<(u64, Seq<u8>)>::empty(),
    exists|n: usize| final(self).parser.fresh(n, old(self).options.mqtt_version),
//@ end
// ---------------------------------------------------------------- C18: reconnection
spec fn pow2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * pow2((n - 1) as nat) } }
spec fn least(a: nat, b: nat) -> nat { if a <= b { a } else { b } }
/// milliseconds before the attempt after `n` failed ones
spec fn backoff(base: nat, max: nat, n: nat) -> nat { least(base * pow2(least(n, 10)), max) }
proof fn shift_is_pow2(n: u32)
    requires n <= 10
    ensures 1u64 << n == pow2(n as nat)
{
    reveal_with_fuel(pow2, 11);
    assert(1u64 << 0u32 == 1 && 1u64 << 1u32 == 2 && 1u64 << 2u32 == 4 && 1u64 << 3u32 == 8 && 1u64 << 4u32 == 16 && 1u64 << 5u32 == 32 && 1u64 << 6u32 == 64 && 1u64 << 7u32 == 128 && 1u64 << 8u32 == 256 && 1u64 << 9u32 == 512 && 1u64 << 10u32 == 1024) by (bit_vector);
}
/// `b` is `a` after the next attempt was scheduled at `now`
spec fn scheduled(a: MqttEngine, b: MqttEngine, now: Instant) -> bool {
    if a.max_reconnect_attempts > 0 && a.reconnect_attempts >= a.max_reconnect_attempts {
        b == MqttEngine { next_reconnect_at: None, ..a }
    } else {
        let delay = dur(backoff(a.options.reconnect_base_delay_ms as nat, a.options.reconnect_max_delay_ms as nat, a.reconnect_attempts as nat) * 1000000);
        &&& b == MqttEngine { next_reconnect_at: Some(inst(at(now) + ns(delay))), reconnect_attempts: (a.reconnect_attempts + 1) as u32, events: b.events, ..a }
        &&& b.events@ == a.events@.push(MqttEvent::ReconnectScheduled { attempt: b.reconnect_attempts, delay })
    }
}
//@ fn src/mqtt_client/engine.rs MqttEngine::schedule_reconnect
//@ for C18
//@ subst self.reconnect_attempts += 1 ==> vx_count_up_u32(&mut self.reconnect_attempts)
//@ spec
  requires old(self).inv(), at(now) <= clock_end()
  ensures scheduled(*old(self), *final(self), now), final(self).inv(),
//@ begin
  broadcast use group_time;
  proof { shift_is_pow2(if self.reconnect_attempts < 10 { self.reconnect_attempts } else { 10 }); }
//@ end
//@ fn src/mqtt_client/engine.rs MqttEngine::reset_reconnect_state
//@ for C18
//@ spec
  ensures *final(self) == (MqttEngine { reconnect_attempts: 0, next_reconnect_at: None, ..*old(self) })
//@ end
// ---------------------------------------------------------------- C20: the outgoing buffer
/// `b` is `a` after `p` was put into the outgoing buffer, `a` itself if `p` has no bytes
spec fn put(a: MqttEngine, b: MqttEngine, p: MqttPacket) -> bool {
    &&& b == MqttEngine { outgoing_buffer: b.outgoing_buffer, last_packet_sent: b.last_packet_sent, ..a }
    &&& wire(p) is Some ==> b.out() =~= a.out().push(wire(p)->0)
    &&& wire(p) is None ==> b == a
    &&& a.inv() ==> b.inv()
}
spec fn room(a: MqttEngine) -> bool { a.out().len() < a.options.max_outgoing_packet_count }
//@ fn src/mqtt_client/engine.rs MqttEngine::push_outgoing
//@ for C16 C20
//@ ret r
//@ spec
  ensures put(*old(self), *final(self), packet), r is Ok <==> wire(packet) is Some
//@ begin
  broadcast use views_push;
//@ end
//@ fn src/mqtt_client/engine.rs MqttEngine::enqueue_packet
//@ for C20
//@ ret r
//@ spec
  ensures !room(*old(self)) ==> *final(self) == *old(self) && (r matches Err(e) && e is BufferFull && e->capacity == old(self).options.max_outgoing_packet_count),
    room(*old(self)) ==> put(*old(self), *final(self), packet) && (r is Ok <==> wire(packet) is Some),
    old(self).inv() ==> final(self).inv()
//@ end
spec fn qos_of(p: MqttPacket) -> u8 { match p { MqttPacket::Publish5(q) => q.qos, MqttPacket::Publish3(q) => q.qos, _ => 0 } }
spec fn id_of(p: MqttPacket) -> Option<u16> { match p { MqttPacket::Publish5(q) => q.packet_id, MqttPacket::Publish3(q) => q.message_id, _ => None } }
/// the queue has a packet of priority `q` to send and may send it
spec fn may_send(a: MqttEngine, q: u8) -> bool {
    a.is_connected && room(a) && is_top(a.priority_queue.prios(), q) && !(is_publish(a.priority_queue.at(q)[0]) && slots(a.inflight_queue.map()) >= a.inflight_queue.receive_maximum)
}
/// one packet leaves the queue: the oldest of the highest priority, unchanged, tracked if it needs an acknowledgement
spec fn sent_one(a: MqttEngine, b: MqttEngine, q: u8) -> bool {
    let p = a.priority_queue.at(q)[0];
    &&& may_send(a, q) && popped(a.priority_queue, b.priority_queue, q)
    &&& b == MqttEngine { priority_queue: b.priority_queue, outgoing_buffer: b.outgoing_buffer, inflight_queue: b.inflight_queue, last_packet_sent: b.last_packet_sent, events: b.events, ..a }
    &&& match wire(p) {
        Some(w) => {
            &&& b.out() =~= a.out().push(w)
            &&& b.events == a.events
            &&& if qos_of(p) > 0 { pushed(a.inflight_queue, b.inflight_queue, id_of(p)->0, p, qos_of(p), None, Ok(())) } else { b.inflight_queue == a.inflight_queue }
        },
        None => b.outgoing_buffer == a.outgoing_buffer && b.inflight_queue == a.inflight_queue && b.last_packet_sent == a.last_packet_sent && b.events@.len() == a.events@.len() + 1 && b.events@.drop_last() =~= a.events@ && b.events@.last() is Error,
    }
}
spec fn sends(a: MqttEngine, b: MqttEngine) -> bool { exists|q: u8| #[trigger] sent_one(a, b, q) }
/// `st` leads from `a` to `b`, one packet at a time
spec fn drained(st: Seq<MqttEngine>, a: MqttEngine, b: MqttEngine) -> bool {
    st.len() > 0 && st[0] == a && st.last() == b && forall|i: int| 0 <= i < st.len() - 1 ==> sends(#[trigger] st[i], st[i + 1])
}
/// nothing more can leave the queue
spec fn stuck(a: MqttEngine) -> bool { forall|q: u8| !#[trigger] may_send(a, q) }
proof fn u8_top(s: Set<u8>)
    ensures forall|a: u8, b: u8| #[trigger] is_top(s, a) && #[trigger] is_top(s, b) ==> a == b
{}
proof fn drained_more(st: Seq<MqttEngine>, a: MqttEngine, b: MqttEngine, c: MqttEngine, q: u8)
    requires drained(st, a, b), sent_one(b, c, q)
    ensures drained(st.push(c), a, c)
{
    hide(sent_one);
    let n = st.push(c);
    assert(sends(b, c));
    assert forall|i: int| 0 <= i < n.len() - 1 implies sends(#[trigger] n[i], n[i + 1]) by {
        if i < st.len() - 1 { assert(n[i] == st[i] && n[i + 1] == st[i + 1]); }
    }
}
//@ fn src/mqtt_client/engine.rs MqttEngine::process_queue
//@ own
//@ for C13 C20
//@ spec
  requires old(self).inv()
  ensures exists|st: Seq<MqttEngine>| #[trigger] drained(st, *old(self), *final(self)), // [C13 C20]
    stuck(*final(self)), // [C20]
    final(self).inv(),
//@ begin
  broadcast use views_push;
  let ghost mut st = seq![*self];
  proof { assert(drained(st, *self, *self)); u8_top(self.priority_queue.prios()); }
//@ loop 0
  invariant self.inv(), self.is_connected, drained(st, *old(self), *self),
  ensures stuck(*self),
  decreases self.priority_queue.size
//@ loop 0 begin
  let ghost a = *self;
  proof { u8_top(a.priority_queue.prios()); }
//@ loop 0 end
  proof {
    let q = choose|q: u8| #[trigger] is_top(a.priority_queue.prios(), q);
    assert(sent_one(a, *self, q));
    drained_more(st, *old(self), a, *self, q);
    st = st.push(*self);
  }
//@ end
spec fn is_suffix<T>(x: Seq<T>, y: Seq<T>) -> bool { x.len() <= y.len() && x =~= y.skip(y.len() - x.len()) }
spec fn is_prefix<T>(x: Seq<T>, y: Seq<T>) -> bool { x.len() <= y.len() && x =~= y.take(x.len() as int) }
/// C20: what any number of steps of the queue leaves alone; C13: they do not overfill the window
spec fn flowed(a: MqttEngine, b: MqttEngine) -> bool {
    &&& b == MqttEngine { priority_queue: b.priority_queue, outgoing_buffer: b.outgoing_buffer, inflight_queue: b.inflight_queue, last_packet_sent: b.last_packet_sent, events: b.events, ..a }
    &&& is_prefix(a.out(), b.out()) && (b.out().len() <= a.out().len() || b.out().len() <= a.options.max_outgoing_packet_count)
    &&& is_prefix(a.events@, b.events@)
    &&& !a.is_connected ==> b == a
    &&& forall|q: u8| is_suffix(#[trigger] b.priority_queue.at(q), a.priority_queue.at(q))
    &&& b.inflight_queue.same_config(&a.inflight_queue)
    &&& slots(b.inflight_queue.map()) <= slots(a.inflight_queue.map()) || slots(b.inflight_queue.map()) <= a.inflight_queue.receive_maximum
}
proof fn flowed_trans(a: MqttEngine, b: MqttEngine, c: MqttEngine, q: u8)
    requires flowed(a, b), sent_one(b, c, q)
    ensures flowed(a, c)
{
    broadcast use {slots_insert, slots_remove};
    assert(c.out().take(a.out().len() as int) =~= b.out().take(a.out().len() as int));
    assert(c.events@.take(a.events@.len() as int) =~= b.events@.take(a.events@.len() as int)) by {
        if c.events != b.events { assert(b.events@ =~= c.events@.take(b.events@.len() as int)); }
    }
    assert forall|k: u8| is_suffix(#[trigger] c.priority_queue.at(k), a.priority_queue.at(k)) by {
        assert(is_suffix(b.priority_queue.at(k), a.priority_queue.at(k)));
        if k == q {
            let (x, y, z) = (c.priority_queue.at(k), b.priority_queue.at(k), a.priority_queue.at(k));
            assert(x =~= z.skip(z.len() - x.len()));
        }
    }
}
proof fn c20_queue(st: Seq<MqttEngine>, a: MqttEngine, b: MqttEngine)
    requires drained(st, a, b)
    ensures flowed(a, b)
    decreases st.len()
{
    hide(sent_one);
    if st.len() > 1 {
        let n = st.len() - 1;
        let s = st.drop_last();
        assert forall|i: int| 0 <= i < s.len() - 1 implies sends(#[trigger] s[i], s[i + 1]) by { assert(s[i] == st[i] && s[i + 1] == st[i + 1]); }
        assert(drained(s, a, st[n - 1]));
        c20_queue(s, a, st[n - 1]);
        assert(sends(st[n - 1], st[n]));
        let q = choose|q: u8| #[trigger] sent_one(st[n - 1], st[n], q);
        flowed_trans(a, st[n - 1], b, q);
    }
}
