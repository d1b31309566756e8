// ---------------------------------------------------------------- time
spec fn since(now: Instant, t: Instant) -> nat { if at(now) >= at(t) { (at(now) - at(t)) as nat } else { 0 } }
impl MqttEngine {
    /// the keep-alive interval in nanoseconds
    spec fn keep(&self) -> nat { self.options.keep_alive as nat * 1000000000 }
    spec fn patience(&self) -> nat { self.keep() * (self.options.ping_timeout_multiplier as nat) }
    spec fn timed_out(&self, now: Instant) -> bool { self.keep() > 0 && self.ping_sent_at is Some && since(now, self.ping_sent_at->0) >= self.patience() }
    spec fn ping_due(&self, now: Instant) -> bool { self.ping_sent_at is None && self.options.auto_keepalive && self.keep() > 0 && since(now, self.last_packet_sent) >= self.keep() }
    spec fn resend_due(&self, now: Instant) -> bool { self.options.mqtt_version != 5 && exists|k: u16| #[trigger] self.inflight_queue.due(k, now) }
    spec fn reconnect_due(&self, now: Instant) -> bool { self.next_reconnect_at is Some && at(now) >= at(self.next_reconnect_at->0) }
    /// a tick at `now` has something to do
    spec fn acts(&self, now: Instant) -> bool {
        if self.is_connected { self.timed_out(now) || self.ping_due(now) || self.resend_due(now) } else { self.reconnect_due(now) }
    }
}
proof fn patience_fits(e: MqttEngine)
    ensures e.patience() <= 300000000000000000000000
{
    let (k, m) = (e.options.keep_alive as nat * 1000000000, e.options.ping_timeout_multiplier as nat);
    assert(k * m <= 65535000000000 * 4294967295) by (nonlinear_arith) requires k <= 65535000000000, m <= 4294967295;
}
spec fn pingreq(a: MqttEngine) -> MqttPacket { if a.options.mqtt_version == 5 { MqttPacket::PingReq5(MqttPingReq5) } else { MqttPacket::PingReq3(MqttPingReq3) } }
//@ fn src/mqtt_client/engine.rs MqttEngine::pingreq_packet
//@ for C19
//@ ret r
//@ spec
  ensures r == pingreq(*self)
//@ end
/// `b` is `a` after a PINGREQ was sent at `now`, `a` itself if there is no room for one
spec fn pinged(a: MqttEngine, b: MqttEngine, now: Instant) -> bool {
    if room(a) && wire(pingreq(a)) is Some {
        b == MqttEngine { outgoing_buffer: b.outgoing_buffer, last_packet_sent: now, ping_sent_at: Some(now), ..a } && b.out() =~= a.out().push(wire(pingreq(a))->0)
    } else { b == a }
}
//@ fn src/mqtt_client/engine.rs MqttEngine::send_ping_at
//@ for C19
//@ ret r
//@ spec
  ensures pinged(*old(self), *final(self), now), r is Ok <==> room(*old(self)) && wire(pingreq(*old(self))) is Some,
    old(self).inv() && at(now) <= clock_end() ==> final(self).inv()
//@ end
//@ fn src/mqtt_client/engine.rs MqttEngine::send_ping
//@ for C19
//@ spec
  ensures exists|now: Instant| #[trigger] pinged(*old(self), *final(self), now), old(self).inv() ==> final(self).inv()
//@ end
//@ fn src/mqtt_client/engine.rs MqttEngine::try_send_ping
//@ for C19
//@ ret r
//@ spec
  ensures exists|now: Instant| #[trigger] pinged(*old(self), *final(self), now), r is Ok <==> room(*old(self)) && wire(pingreq(*old(self))) is Some, old(self).inv() ==> final(self).inv()
//@ end
/// what a list of (packet, stream) puts into the shared output: the packets without a stream
spec fn shared_part(xs: Seq<(MqttPacket, Option<u64>)>) -> Seq<Seq<u8>>
    decreases xs.len()
{ if xs.len() == 0 { Seq::empty() } else if xs.last().1 is None && wire(xs.last().0) is Some { shared_part(xs.drop_last()).push(wire(xs.last().0)->0) } else { shared_part(xs.drop_last()) } }
/// and what it hands to streams: the others, each for its own
spec fn stream_part(xs: Seq<(MqttPacket, Option<u64>)>) -> Seq<(u64, Seq<u8>)>
    decreases xs.len()
{ if xs.len() == 0 { Seq::empty() } else if xs.last().1 is Some && wire(xs.last().0) is Some { stream_part(xs.drop_last()).push((xs.last().1->0, wire(xs.last().0)->0)) } else { stream_part(xs.drop_last()) } }
spec fn dups(xs: Seq<(MqttPacket, Option<u64>)>) -> Seq<(MqttPacket, Option<u64>)> { xs.map_values(|x: (MqttPacket, Option<u64>)| (with_dup(x.0, true), x.1)) }
/// the packets of `ids` as they are sent again
spec fn again(m: Map<u16, InflightEntry>, ids: Seq<u16>) -> Seq<(MqttPacket, Option<u64>)> { ids.map_values(|k: u16| (with_dup(m[k].packet, true), m[k].stream)) }
/// C14, C26: everything due is sent again with DUP set, on the channel it was sent on
spec fn retransmitted(a: MqttEngine, b: MqttEngine, now: Instant, ids: Seq<u16>) -> bool {
    let xs = again(a.inflight_queue.map(), ids);
    &&& sent_again(a.inflight_queue, b.inflight_queue, now, ids)
    &&& b == MqttEngine { inflight_queue: b.inflight_queue, outgoing_buffer: b.outgoing_buffer, stream_retransmissions: b.stream_retransmissions, last_packet_sent: b.last_packet_sent, ..a }
    &&& b.out() =~= a.out() + shared_part(xs)
    &&& b.side() =~= a.side() + stream_part(xs)
    &&& b.last_packet_sent == now || b.last_packet_sent == a.last_packet_sent
    &&& ids.len() == 0 ==> b.last_packet_sent == a.last_packet_sent
}
//@ fn src/mqtt_client/engine.rs MqttEngine::handle_retransmissions
//@ own
//@ for C14 C26
//@ ret r
//@ spec
  requires old(self).inv(), old(self).inflight_queue.latest() <= at(now), at(now) <= clock_end(), old(self).options.retransmission_timeout_ms > 0
  ensures exists|ids: Seq<u16>| #[trigger] retransmitted(*old(self), *final(self), now, ids), r@.len() == 0, final(self).inv()
//@ begin
  broadcast use {views_push, streams_push};
  let ghost mut ids: Seq<u16> = Seq::empty();
//@ iter 0 it hoist
//@ loop 0 before
  let ghost a = *self;
  let ghost ds = dups(expired@);
  proof {
    ids = choose|ids: Seq<u16>| #[trigger] sent_again(old(self).inflight_queue, a.inflight_queue, now, ids) && shown(expired@, old(self).inflight_queue.map(), ids);
    assert(ds =~= again(old(self).inflight_queue.map(), ids));
    assert(a.out() + shared_part(ds.take(0)) =~= a.out());
    assert(a.side() + stream_part(ds.take(0)) =~= a.side());
    assert(ds.take(ds.len() as int) =~= ds);
  }
//@ loop 0
  invariant ds == dups(it.seq()), *self == (MqttEngine { outgoing_buffer: self.outgoing_buffer, stream_retransmissions: self.stream_retransmissions, last_packet_sent: self.last_packet_sent, ..a }),
    self.out() =~= a.out() + shared_part(ds.take(it.index())), self.side() =~= a.side() + stream_part(ds.take(it.index())),
    self.last_packet_sent == a.last_packet_sent || it.index() > 0 && self.last_packet_sent == now,
//@ loop 0 begin
  broadcast use {views_push, streams_push};
  let ghost k = it.index();
//@ loop 0 end
  proof { assert(ds.take(k + 1).drop_last() =~= ds.take(k)); assert(ds.take(k + 1).last() == (packet, stream)); }
//@ tail
  proof { assert(retransmitted(*old(self), *self, now, ids)); }
//@ end
//@ fn src/mqtt_client/engine.rs MqttEngine::take_stream_retransmissions
//@ for C26
//@ path std::mem::take vx_take
//@ ret r
//@ spec
  ensures streams(r@) == old(self).side(), final(self).side() =~= Seq::<(u64, Seq<u8>)>::empty(), *final(self) == (MqttEngine { stream_retransmissions: final(self).stream_retransmissions, ..*old(self) })
//@ end
spec fn joined(s: Seq<Seq<u8>>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { s[0] + joined(s.skip(1)) } }
//@ fn src/mqtt_client/engine.rs MqttEngine::take_outgoing
//@ for C20
//@ method extend &mut vx_extend
//@ ret r
//@ spec
  ensures r@ =~= joined(old(self).out()), final(self).out() =~= Seq::<Seq<u8>>::empty(), *final(self) == (MqttEngine { outgoing_buffer: final(self).outgoing_buffer, ..*old(self) })
//@ begin
  let ghost mut cur = self.out();
//@ loop 0
  invariant cur == self.out(), *self == (MqttEngine { outgoing_buffer: self.outgoing_buffer, ..*old(self) }), all_bytes@ + joined(cur) =~= joined(old(self).out()),
  ensures self.outgoing_buffer@.len() == 0,
  decreases self.outgoing_buffer@.len()
//@ loop 0 begin
  let ghost (b0, p0) = (all_bytes@, packet@);
//@ loop 0 end
  proof {
    assert(cur.skip(1) =~= self.out());
    assert(cur[0] == p0);
    assert(all_bytes@ + joined(self.out()) =~= b0 + (p0 + joined(self.out())));
    cur = self.out();
  }
//@ end
/// the whole of a tick
spec fn ticked(a: MqttEngine, b: MqttEngine, now: Instant, r: Seq<MqttEvent>) -> bool {
    if !a.is_connected {
        &&& b == MqttEngine { events: b.events, next_reconnect_at: if a.reconnect_due(now) { None } else { a.next_reconnect_at }, ..a } && b.events@.len() == 0
        &&& r =~= (if a.reconnect_due(now) { a.events@.push(MqttEvent::ReconnectNeeded) } else { a.events@ })
    } else if a.timed_out(now) {
        exists|x: MqttEngine, y: MqttEngine| #[trigger] scheduled(x, y, now) && x == (MqttEngine { is_connected: false, ping_sent_at: None, events: x.events, ..a })
            && x.events@ == a.events@.push(MqttEvent::ReconnectNeeded) && b == (MqttEngine { events: b.events, ..y }) && b.events@.len() == 0 && r == y.events@
    } else {
        exists|x: MqttEngine, ids: Seq<u16>| #[trigger] retransmitted(x, MqttEngine { events: x.events, ..b }, now, ids) && (if a.ping_due(now) { pinged(a, x, now) } else { x == a }) && b.events@.len() == 0 && r == a.events@
    }
}
//@ fn src/mqtt_client/engine.rs MqttEngine::handle_tick
//@ own
//@ for C14 C18 C19
//@ method extend &mut vx_extend
//@ closure 0 |sent_at: Instant| -> (r: bool) ensures r == (since(now, sent_at) >= ns(ping_timeout))
//@ ret r
//@ spec
  requires old(self).inv(), old(self).inflight_queue.latest() <= at(now), at(now) <= clock_end(), old(self).options.retransmission_timeout_ms > 0
  ensures ticked(*old(self), *final(self), now, r@), final(self).inv()
//@ begin
  broadcast use group_time;
  proof { patience_fits(*self); }
//@ before ~self.schedule_reconnect(
  let ghost x = *self;
//@ after ~self.schedule_reconnect(
  proof { assert(scheduled(x, *self, now)); assert(old(self).timed_out(now)); assert(x == (MqttEngine { is_connected: false, ping_sent_at: None, events: x.events, ..*old(self) })); assert(x.events@ == old(self).events@.push(MqttEvent::ReconnectNeeded)); }
//@ before ~self.handle_retransmissions(
  let ghost x = *self;
//@ tail
  proof {
    let a = *old(self);
    let n = MqttEngine { events: x.events, ..*self };
    let ids = choose|ids: Seq<u16>| #[trigger] retransmitted(x, n, now, ids);
    assert(retransmitted(x, n, now, ids));
    assert(!a.timed_out(now));
    assert(if a.ping_due(now) { pinged(a, x, now) } else { x == a });
    assert(vxret@ =~= a.events@);
  }
//@ end
//@ fn src/mqtt_client/engine.rs MqttEngine::next_tick_at
//@ for C14 C18 C19
//@ ret r
//@ spec
  requires self.inv()
  ensures !self.is_connected ==> r == self.next_reconnect_at, // [C18]
    forall|now: Instant| #[trigger] self.acts(now) && (self.ping_sent_at is Some ==> at(self.ping_sent_at->0) <= at(now)) ==> (r matches Some(t) && at(t) <= at(now)), // [C14 C19]
//@ begin
  broadcast use group_time;
  proof { patience_fits(*self); }
//@ end
/// C19: a tick that has nothing to do does nothing
proof fn c19_quiet(a: MqttEngine, b: MqttEngine, now: Instant, r: Seq<MqttEvent>)
    requires ticked(a, b, now, r), !a.acts(now), a.inv()
    ensures r == a.events@, b.out() =~= a.out(), b.side() =~= a.side(), b.is_connected == a.is_connected, b.ping_sent_at == a.ping_sent_at, b.last_packet_sent == a.last_packet_sent,
        b.next_reconnect_at == a.next_reconnect_at, b.reconnect_attempts == a.reconnect_attempts, b.inflight_queue.map() =~= a.inflight_queue.map()
{
    if a.is_connected {
        let (x, ids) = choose|x: MqttEngine, ids: Seq<u16>| #[trigger] retransmitted(x, MqttEngine { events: x.events, ..b }, now, ids) && (if a.ping_due(now) { pinged(a, x, now) } else { x == a }) && b.events@.len() == 0 && r == a.events@;
        if ids.len() > 0 { assert(ids.contains(ids[0])); assert(a.inflight_queue.due(ids[0], now)); }
    }
}
