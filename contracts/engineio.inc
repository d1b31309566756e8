// ---------------------------------------------------------------- input
spec fn together(s: Seq<Seq<u8>>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { together(s.drop_last()) + s.last() } }
broadcast proof fn skip_add<T>(a: Seq<T>, b: Seq<T>, n: int)
    requires n == a.len()
    ensures #[trigger] (a + b).skip(n) == b
{ assert((a + b).skip(n) =~= b); }
proof fn wires_none(rs: Seq<MqttPacket>)
    ensures wires(rs.take(0)) == Seq::<Seq<u8>>::empty(), together(wires(rs.take(0))) == Seq::<u8>::empty(), rs.take(rs.len() as int) == rs
{ assert(rs.take(0) =~= Seq::empty()); assert(rs.take(rs.len() as int) =~= rs); }
proof fn wires_more(rs: Seq<MqttPacket>, k: int)
    requires 0 <= k < rs.len()
    ensures wires(rs.take(k + 1)) == (if wire(rs[k]) is Some { wires(rs.take(k)).push(wire(rs[k])->0) } else { wires(rs.take(k)) })
{ assert(rs.take(k + 1).drop_last() =~= rs.take(k)); }
proof fn together_more(rs: Seq<MqttPacket>, k: int)
    requires 0 <= k < rs.len()
    ensures together(wires(rs.take(k + 1))) == (if wire(rs[k]) is Some { together(wires(rs.take(k))) + wire(rs[k])->0 } else { together(wires(rs.take(k))) })
{
    assert(rs.take(k + 1).drop_last() =~= rs.take(k));
    if wire(rs[k]) is Some { assert(wires(rs.take(k + 1)).drop_last() =~= wires(rs.take(k))); }
}
/// `b` is `a` after the packet `p` came in over the shared transport: its reports are kept, its answers sent
spec fn took(a: MqttEngine, p: MqttPacket, b: MqttEngine, m: MqttEngine, n: MqttEngine, ev: Seq<MqttEvent>, rs: Seq<MqttPacket>) -> bool {
    &&& m == MqttEngine { parser: m.parser, last_packet_received: m.last_packet_received, ..a }
    &&& m.parser.coming() == a.parser.coming().skip(1) && a.parser.coming().len() > 0 && p == a.parser.coming()[0]
    &&& handled(m, p, None, ev, rs, n)
    &&& b == MqttEngine { events: b.events, outgoing_buffer: b.outgoing_buffer, last_packet_sent: b.last_packet_sent, ..n }
    &&& b.events@ =~= a.events@ + ev
    &&& b.out() =~= n.out() + wires(rs)
}
spec fn takes(a: MqttEngine, p: MqttPacket, b: MqttEngine) -> bool { exists|m: MqttEngine, n: MqttEngine, ev: Seq<MqttEvent>, rs: Seq<MqttPacket>| #[trigger] took(a, p, b, m, n, ev, rs) }
proof fn took_step(a: MqttEngine, p: MqttPacket, b: MqttEngine, m: MqttEngine, n: MqttEngine, ev: Seq<MqttEvent>, rs: Seq<MqttPacket>)
    requires took(a, p, b, m, n, ev, rs)
    ensures takes(a, p, b)
{}
/// the packets `ps`, one after the other
spec fn took_all(st: Seq<MqttEngine>, ps: Seq<MqttPacket>, a: MqttEngine, b: MqttEngine) -> bool {
    st.len() == ps.len() + 1 && st[0] == a && st.last() == b && forall|i: int| 0 <= i < ps.len() ==> takes(#[trigger] st[i], ps[i], st[i + 1])
}
proof fn took_more(st: Seq<MqttEngine>, ps: Seq<MqttPacket>, a: MqttEngine, b: MqttEngine, p: MqttPacket, c: MqttEngine)
    requires took_all(st, ps, a, b), takes(b, p, c)
    ensures took_all(st.push(c), ps.push(p), a, c)
{
    hide(took);
    let (n, q) = (st.push(c), ps.push(p));
    assert forall|i: int| 0 <= i < q.len() implies takes(#[trigger] n[i], q[i], n[i + 1]) by {
        if i < ps.len() { assert(n[i] == st[i] && n[i + 1] == st[i + 1] && q[i] == ps[i]); }
    }
}
/// the report of an input error, if there was one
spec fn erred(a: MqttEngine, b: MqttEngine) -> bool {
    b == MqttEngine { events: b.events, parser: b.parser, ..a } && a.parser.coming().len() == 0 && b.parser.coming().len() == 0 && (b.events@ =~= a.events@ || b.events@.len() == a.events@.len() + 1 && b.events@.drop_last() =~= a.events@ && b.events@.last() is Error)
}
/// taking the events changes nothing else
proof fn went(qs: Seq<MqttEngine>, z: MqttEngine, w: MqttEngine, b: MqttEngine)
    requires drained(qs, z, w), b == (MqttEngine { events: b.events, ..w }), stuck(w)
    ensures drained(qs, z, MqttEngine { events: qs.last().events, ..b }), qs.last() == w, stuck(b)
{
    assert(MqttEngine { events: qs.last().events, ..b } == w);
    assert forall|q: u8| !#[trigger] may_send(b, q) by { assert(!may_send(w, q)); }
}
/// the whole of an input
spec fn taken_in(a: MqttEngine, x: MqttEngine, y: MqttEngine, z: MqttEngine, b: MqttEngine, st: Seq<MqttEngine>, ps: Seq<MqttPacket>, qs: Seq<MqttEngine>, r: Seq<MqttEvent>) -> bool {
    &&& x == MqttEngine { parser: x.parser, ..a }
    &&& is_prefix(ps, x.parser.coming())
    &&& took_all(st, ps, x, y)
    &&& y.events@.len() >= y.options.max_event_count && z == y || erred(y, z) && ps == x.parser.coming()
    &&& z.parser.coming() == x.parser.coming().skip(ps.len() as int)
    &&& drained(qs, z, MqttEngine { events: qs.last().events, ..b }) && stuck(b)
    &&& b.events@.len() == 0 && r == qs.last().events@
}
//@ fn src/mqtt_client/engine.rs MqttEngine::handle_incoming
//@ for C13 C16 C17 C18 C19 C20 C21
//@ own
//@ method extend &mut vx_extend
//@ ret r
//@ spec
  requires old(self).inv()
  ensures exists|x: MqttEngine, y: MqttEngine, z: MqttEngine, st: Seq<MqttEngine>, ps: Seq<MqttPacket>, qs: Seq<MqttEngine>| #[trigger] taken_in(*old(self), x, y, z, *final(self), st, ps, qs, r@), // [C13 C16 C17 C18 C19 C20 C21]
    final(self).inv(),
//@ begin
  hide(engine_ok); hide(answers); hide(reports); hide(tracks); hide(resumes); hide(connects); hide(handled); hide(sends); hide(drained); hide(stuck); hide(wires); hide(takes); hide(took_all);
  broadcast use skip_add;
  let ghost mut x = *self;
  let ghost mut y = *self;
  let ghost mut st: Seq<MqttEngine> = Seq::empty();
  let ghost mut ps: Seq<MqttPacket> = Seq::empty();
//@ loop 0 before
  proof { reveal(took_all); x = *self; y = x; st = seq![x]; assert(x.parser.coming().skip(0) =~= x.parser.coming()); }
//@ loop 0
  invariant_except_break *self == y,
    y.parser.coming() =~= x.parser.coming().skip(ps.len() as int),
  invariant self.inv(), x == (MqttEngine { parser: x.parser, ..*old(self) }), is_prefix(ps, x.parser.coming()), took_all(st, ps, x, y),
  ensures y.events@.len() >= y.options.max_event_count && *self == y || erred(y, *self) && ps =~= x.parser.coming(),
    self.parser.coming() =~= x.parser.coming().skip(ps.len() as int),
  decreases self.parser.coming().len()
//@ loop 0 begin
  broadcast use skip_add;
  let ghost a = *self;
  let ghost mut m = a;
  let ghost mut n = a;
  let ghost mut ev: Seq<MqttEvent> = Seq::empty();
  let ghost mut rs: Seq<MqttPacket> = Seq::empty();
  let ghost p = self.parser.coming()[0];
//@ before ~self.handle_packet(
  proof { m = *self; }
//@ after ~self.handle_packet(
  proof { n = *self; }
//@ iter 1 it hoist
//@ loop 1 before
  proof { rs = vxit1@; ev = self.events@.skip(a.events@.len() as int); assert(a.events@ + ev =~= self.events@); wires_none(rs); }
  let ghost c = *self;
//@ loop 1
  invariant it.seq() == rs, self.inv(), *self == (MqttEngine { outgoing_buffer: self.outgoing_buffer, last_packet_sent: self.last_packet_sent, ..c }), self.out() =~= c.out() + wires(rs.take(it.index())),
//@ loop 1 begin
  let ghost k = it.index();
//@ loop 1 end
  proof { wires_more(rs, k); }
//@ loop 0 end
  proof {
    assert(took(a, p, *self, m, n, ev, rs));
    took_step(a, p, *self, m, n, ev, rs);
    took_more(st, ps, x, y, p, *self);
    assert(ps.push(p) =~= x.parser.coming().take(ps.len() as int + 1));
    y = *self; st = st.push(y); ps = ps.push(p);
  }
//@ before ~self.process_queue(
  let ghost z = *self;
//@ after ~self.process_queue(
  let ghost w = *self;
//@ tail
  proof {
    let qs = choose|qs: Seq<MqttEngine>| #[trigger] drained(qs, z, w);
    went(qs, z, w, *self);
    assert(taken_in(*old(self), x, y, z, *self, st, ps, qs, vxret@));
  }
//@ end
/// C26: the answers to a packet that arrived on a stream
spec fn taken_from(a: MqttEngine, p: MqttPacket, stream: u64, m: MqttEngine, n: MqttEngine, ev: Seq<MqttEvent>, rs: Seq<MqttPacket>, z: MqttEngine, qs: Seq<MqttEngine>, b: MqttEngine, r: (Seq<MqttEvent>, Seq<u8>)) -> bool {
    &&& m == MqttEngine { last_packet_received: m.last_packet_received, ..a }
    &&& handled(m, p, Some(stream), ev, rs, n)
    &&& z == MqttEngine { events: z.events, last_packet_sent: z.last_packet_sent, ..n }
    &&& only_errors(a.events@ + ev, z.events@)
    &&& r.1 =~= together(wires(rs))
    &&& drained(qs, z, MqttEngine { events: qs.last().events, ..b }) && stuck(b)
    &&& b.events@.len() == 0 && r.0 == qs.last().events@
}
/// `b` is `a` and errors
spec fn only_errors(a: Seq<MqttEvent>, b: Seq<MqttEvent>) -> bool { is_prefix(a, b) && forall|i: int| a.len() <= i < b.len() ==> #[trigger] b[i] is Error }
proof fn errors_more(a: Seq<MqttEvent>, b: Seq<MqttEvent>, c: Seq<MqttEvent>)
    requires only_errors(a, b), c.len() == b.len() + 1, c.drop_last() =~= b, c.last() is Error
    ensures only_errors(a, c)
{
    assert(c.take(a.len() as int) =~= b.take(a.len() as int));
    assert forall|i: int| a.len() <= i < c.len() implies #[trigger] c[i] is Error by { if i < b.len() { assert(c[i] == b[i]); } }
}
//@ fn src/mqtt_client/engine.rs MqttEngine::ingest_stream_packet
//@ for C16 C17 C26
//@ own
//@ method extend &mut vx_extend
//@ ret r
//@ spec
  requires old(self).inv()
  ensures exists|m: MqttEngine, n: MqttEngine, ev: Seq<MqttEvent>, rs: Seq<MqttPacket>, z: MqttEngine, qs: Seq<MqttEngine>| #[trigger] taken_from(*old(self), packet, stream, m, n, ev, rs, z, qs, *final(self), (r.0@, r.1@)), // [C13 C16 C17 C18 C19 C20 C21 C26]
    final(self).inv(),
//@ begin
  hide(engine_ok); hide(answers); hide(reports); hide(tracks); hide(resumes); hide(connects); hide(handled); hide(sends); hide(drained); hide(stuck); hide(wires); hide(together); hide(only_errors);
  broadcast use skip_add;
  let ghost (a, p) = (*self, packet);
//@ before ~self.handle_packet(
  let ghost m = *self;
//@ after ~self.handle_packet(
  let ghost n = *self;
  let ghost mut ev: Seq<MqttEvent> = Seq::empty();
  let ghost mut rs: Seq<MqttPacket> = Seq::empty();
//@ iter 0 it hoist
//@ loop 0 before
  let ghost c = *self;
  proof { reveal(only_errors); rs = vxit0@; ev = self.events@.skip(a.events@.len() as int); assert(a.events@ + ev =~= self.events@); wires_none(rs); }
//@ loop 0
  invariant it.seq() == rs, self.inv(), *self == (MqttEngine { events: self.events, ..c }), response_bytes@ =~= together(wires(rs.take(it.index()))),
    only_errors(c.events@, self.events@),
//@ loop 0 begin
  let ghost k = it.index();
  let ghost e0 = self.events@;
//@ loop 0 end
  proof {
    together_more(rs, k);
    if self.events@ != e0 { errors_more(c.events@, e0, self.events@); }
  }
//@ before ~self.process_queue(
  assert(self.inv()) by { reveal(engine_ok); }
  let ghost z = *self;
//@ after ~self.process_queue(
  let ghost w = *self;
//@ tail
  proof {
    let qs = choose|qs: Seq<MqttEngine>| #[trigger] drained(qs, z, w);
    went(qs, z, w, *self);
    assert(z == MqttEngine { events: z.events, last_packet_sent: z.last_packet_sent, ..n });
    assert(handled(m, p, Some(stream), ev, rs, n));
    assert(m == MqttEngine { last_packet_received: m.last_packet_received, ..a });
    assert(vxret.1@ == together(wires(rs)));
    assert(only_errors(a.events@ + ev, z.events@));
    assert(taken_from(*old(self), p, stream, m, n, ev, rs, z, qs, *self, (vxret.0@, vxret.1@)));
  }
//@ end
