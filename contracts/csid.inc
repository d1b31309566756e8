// ---------------------------------------------------------------- C15: identifiers of the client session
spec fn succ_id(c: u16) -> u16 { if c == 0 || c == 65535 { 1 } else { (c + 1) as u16 } }
spec fn nth_id(c: u16, n: nat) -> u16 decreases n { if n == 0 { c } else { succ_id(nth_id(c, (n - 1) as nat)) } }
/// the n-th identifier after `c`
proof fn c15_closed_form(c: u16, n: nat)
    requires c >= 1
    ensures nth_id(c, n) == (c - 1 + n) % 65535 + 1
    decreases n
{
    if n > 0 {
        c15_closed_form(c, (n - 1) as nat);
        let x = c - 1 + (n - 1);
        assert((x + 1) % 65535 == if x % 65535 == 65534 { 0 } else { x % 65535 + 1 }) by (nonlinear_arith);
    } else { assert((c - 1) % 65535 == c - 1) by (nonlinear_arith) requires 1 <= c <= 65535; }
}
/// C15: from any state of the counter, identifiers are never zero and none repeats within 65535 allocations
proof fn c15_cycle(c: u16, i: nat, j: nat)
    requires 1 <= i < j, j - i < 65535
    ensures nth_id(c, i) != nth_id(c, j), nth_id(c, i) >= 1, nth_id(c, i + 65535) == nth_id(c, i)
{
    let d = succ_id(c);
    c15_shift(c, (i - 1) as nat); c15_shift(c, (j - 1) as nat); c15_shift(c, (i + 65534) as nat);
    c15_closed_form(d, (i - 1) as nat); c15_closed_form(d, (j - 1) as nat); c15_closed_form(d, (i + 65534) as nat);
    let x = d - 1 + (i - 1);
    assert((x + (j - i)) % 65535 != x % 65535) by (nonlinear_arith) requires 0 < j - i < 65535, x >= 0;
    assert((x + 65535) % 65535 == x % 65535) by (nonlinear_arith) requires x >= 0;
}
proof fn c15_shift(c: u16, n: nat)
    ensures nth_id(c, n + 1) == nth_id(succ_id(c), n)
    decreases n
{ if n > 0 { c15_shift(c, (n - 1) as nat); } else { reveal_with_fuel(nth_id, 3); } }

//@ item src/mqtt_session/client_session.rs ClientSession
spec fn pubs_ok(m: Map<u16, MqttPublish5>) -> bool { forall|k: u16| #[trigger] m.contains_key(k) ==> m[k].packet_id == Some(k) && m[k].qos > 0 }
spec fn rels_ok(m: Map<u16, MqttPubRel5>) -> bool { forall|k: u16| #[trigger] m.contains_key(k) ==> m[k].packet_id == k }
impl ClientSession {
    spec fn pubs(&self) -> Map<u16, MqttPublish5> { self.unacknowledged_publishes@ }
    spec fn rels(&self) -> Map<u16, MqttPubRel5> { self.unacknowledged_pubrels@ }
    spec fn inv(&self) -> bool { pubs_ok(self.pubs()) && rels_ok(self.rels()) }
    /// `x` is to be resent
    spec fn pending(&self, x: MqttPacket) -> bool {
        match x {
            MqttPacket::Publish5(p) => p.packet_id is Some && self.pubs().contains_key(p.packet_id->0) && self.pubs()[p.packet_id->0] == p && !self.rels().contains_key(p.packet_id->0),
            MqttPacket::PubRel5(q) => self.rels().contains_key(q.packet_id) && self.rels()[q.packet_id] == q,
            _ => false,
        }
    }
}
//@ fn src/mqtt_session/client_session.rs ClientSession::new
//@ for C22
//@ ret r
//@ spec
  ensures r.inv(), r.pubs() =~= Map::empty(), r.rels() =~= Map::empty()
//@ end
//@ fn src/mqtt_session/client_session.rs ClientSession::next_packet_id
//@ for C15
//@ ret r
//@ spec
  ensures r == succ_id(old(self).packet_id_counter), final(self).packet_id_counter == r,
    final(self).pubs() == old(self).pubs(), final(self).rels() == old(self).rels()
//@ end
