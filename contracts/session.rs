#![feature(allocator_api)]
#![verifier::allow(autoderive_clone_without_spec)]
//@ include prelude.inc
//@ include std.inc
verus! {
//@ include types.inc

//@ include csid.inc
spec fn answered(p: MqttPublish5, r: Option<MqttPacket>) -> bool {
    match r {
        None => p.qos != 1 && p.qos != 2,
        Some(MqttPacket::PubAck5(a)) => p.qos == 1 && Some(a.packet_id) == p.packet_id && a.reason_code == 0 && a.properties@.len() == 0,
        Some(MqttPacket::PubRec5(a)) => p.qos == 2 && Some(a.packet_id) == p.packet_id && a.reason_code == 0 && a.properties@.len() == 0,
        _ => false,
    }
}
//@ fn src/mqtt_session/client_session.rs ClientSession::clear
//@ for C22
//@ spec
  ensures final(self).inv(), final(self).pubs() =~= Map::empty(), final(self).rels() =~= Map::empty()
//@ end
//@ fn src/mqtt_session/client_session.rs ClientSession::handle_outgoing_publish
//@ for C15 C22
//@ spec
  requires old(self).inv()
  ensures final(self).rels() == old(self).rels(), final(self).packet_id_counter == old(self).packet_id_counter,
    final(self).pubs() =~= (match publish.packet_id {
        Some(k) => if publish.qos > 0 && !old(self).pubs().contains_key(k) { old(self).pubs().insert(k, publish) } else { old(self).pubs() },
        None => old(self).pubs(),
    }),
    final(self).inv()
//@ end
//@ fn src/mqtt_session/client_session.rs ClientSession::handle_outgoing_pubrel
//@ for C15 C22
//@ spec
  requires old(self).inv()
  ensures final(self).pubs() == old(self).pubs(), final(self).rels() =~= old(self).rels().insert(pubrel.packet_id, pubrel),
    final(self).packet_id_counter == old(self).packet_id_counter,
    final(self).inv()
//@ end
//@ fn src/mqtt_session/client_session.rs ClientSession::handle_incoming_publish
//@ for C15 C22
//@ ret r
//@ spec
  requires publish.qos == 0 || publish.packet_id is Some
  ensures *final(self) == *old(self), answered(publish, r)
//@ end
//@ fn src/mqtt_session/client_session.rs ClientSession::handle_incoming_puback
//@ for C15 C22
//@ spec
  requires old(self).inv()
  ensures final(self).rels() == old(self).rels(), final(self).pubs() =~= old(self).pubs().remove(puback.packet_id),
    final(self).packet_id_counter == old(self).packet_id_counter,
    final(self).inv()
//@ end
//@ fn src/mqtt_session/client_session.rs ClientSession::handle_incoming_pubrec
//@ for C15 C22
//@ ret r
//@ spec
  requires old(self).inv()
  ensures final(self).rels() == old(self).rels(), final(self).pubs() =~= old(self).pubs().remove(pubrec.packet_id),
    final(self).packet_id_counter == old(self).packet_id_counter,
    match r {
        None => pubrec.reason_code >= 0x80,
        Some(q) => pubrec.reason_code < 0x80 && q.packet_id == pubrec.packet_id && q.reason_code == 0 && q.properties@.len() == 0,
    },
    final(self).inv()
//@ end
//@ fn src/mqtt_session/client_session.rs ClientSession::handle_incoming_pubrel
//@ for C15 C22
//@ ret r
//@ spec
  ensures *final(self) == *old(self), r.packet_id == pubrel.packet_id, r.reason_code == 0, r.properties@.len() == 0
//@ end
//@ fn src/mqtt_session/client_session.rs ClientSession::handle_incoming_pubcomp
//@ for C15 C22
//@ spec
  requires old(self).inv()
  ensures final(self).pubs() == old(self).pubs(), final(self).rels() =~= old(self).rels().remove(pubcomp.packet_id),
    final(self).packet_id_counter == old(self).packet_id_counter,
    final(self).inv()
//@ end
//@ fn src/mqtt_session/client_session.rs ClientSession::resend_pending_messages
//@ for C22
//@ method values &vx_values
//@ ret r
//@ spec
  requires self.inv()
  ensures
    forall|i: int| 0 <= i < r@.len() ==> self.pending(#[trigger] r@[i]),
    forall|x: MqttPacket| #[trigger] self.pending(x) ==> r@.contains(x),
    r@.no_duplicates(),
//@ begin
  let ghost mut l1: Seq<MqttPacket> = Seq::empty();
  let ghost mut ks: Seq<u16> = Seq::empty();
//@ iter 0 it hoist
//@ loop 0 before
  let ghost s0 = vxit0.remaining();
//@ loop 0
  invariant self.inv(), it.seq() == s0, 
    forall|i: int| 0 <= i < s0.len() ==> self.pubs().contains_key(*(#[trigger] s0[i]).0) && self.pubs()[*s0[i].0] == *s0[i].1,
    s0.no_duplicates(),
    forall|i: int| 0 <= i < packets_to_resend@.len() ==> self.pending(#[trigger] packets_to_resend@[i]) && packets_to_resend@[i] is Publish5,
    forall|i: int| 0 <= i < packets_to_resend@.len() ==> exists|j: int| 0 <= j < it.index() && #[trigger] packets_to_resend@[i] == MqttPacket::Publish5(*(#[trigger] s0[j]).1),
    forall|j: int| 0 <= j < it.index() && !self.rels().contains_key(*(#[trigger] s0[j]).0) ==> packets_to_resend@.contains(MqttPacket::Publish5(*s0[j].1)),
    packets_to_resend@.no_duplicates(),
//@ loop 0 begin
  let ghost l0 = packets_to_resend@;
  let ghost jj = it.index();
//@ loop 0 end
  proof {
    assert forall|j: int| 0 <= j < jj + 1 && !self.rels().contains_key(*(#[trigger] s0[j]).0) implies packets_to_resend@.contains(MqttPacket::Publish5(*s0[j].1)) by {
        if j < jj { let i = choose|i: int| 0 <= i < l0.len() && l0[i] == MqttPacket::Publish5(*s0[j].1); assert(packets_to_resend@[i] == l0[i]); }
        else { assert(packets_to_resend@[packets_to_resend@.len() - 1] == MqttPacket::Publish5(*s0[jj].1)); }
    }
  }
//@ loop 0 after
  proof { l1 = packets_to_resend@; }
  proof {
    assert forall|x: MqttPacket| self.pending(x) && x is Publish5 implies #[trigger] l1.contains(x) by {
        let p = x->Publish5_0; let k = p.packet_id->0;
        assert(s0.contains((&k, &self.pubs()[k])));
    }
  }
//@ iter 1 it hoist
//@ loop 1 before
  let ghost s1 = vxit1@;
  proof { ks = choose|ks: Seq<u16>| #[trigger] listing(self.rels(), ks) && s1.len() == ks.len() && forall|i: int| 0 <= i < ks.len() ==> *#[trigger] s1[i] == self.rels()[ks[i]]; }
//@ loop 1
  invariant self.inv(), it.seq() == s1, listing(self.rels(), ks), s1.len() == ks.len(), forall|i: int| 0 <= i < ks.len() ==> *#[trigger] s1[i] == self.rels()[ks[i]],
    packets_to_resend@.len() == l1.len() + it.index(), l1.no_duplicates(),
    forall|i: int| 0 <= i < l1.len() ==> self.pending(#[trigger] l1[i]) && l1[i] is Publish5,
    forall|x: MqttPacket| self.pending(x) && x is Publish5 ==> #[trigger] l1.contains(x),
    forall|i: int| 0 <= i < l1.len() ==> #[trigger] packets_to_resend@[i] == l1[i],
    forall|i: int| l1.len() <= i < packets_to_resend@.len() ==> #[trigger] packets_to_resend@[i] == MqttPacket::PubRel5(self.rels()[ks[i - l1.len()]]),
//@ tail
  proof {
    let r = vxret@;
    assert forall|i: int| 0 <= i < r.len() implies self.pending(#[trigger] r[i]) by { if i < l1.len() { assert(r[i] == l1[i]); } else { assert(self.rels().contains_key(ks[i - l1.len()])); } }
    assert forall|x: MqttPacket| #[trigger] self.pending(x) implies r.contains(x) by {
        if x is Publish5 { assert(l1.contains(x)); let i = choose|i: int| 0 <= i < l1.len() && l1[i] == x; assert(r[i] == x); }
        else { let k = (x->PubRel5_0).packet_id; assert(ks.contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(r[i + l1.len()] == x); }
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] != r[j] by {
        if j < l1.len() { assert(r[i] == l1[i] && r[j] == l1[j]); }
        else if i < l1.len() { assert(r[i] == l1[i]); }
        else { let (a, b) = (i - l1.len(), j - l1.len()); assert(ks[a] != ks[b]); assert(self.rels().contains_key(ks[a]) && self.rels().contains_key(ks[b])); }
    }
  }
//@ end

// ---------------------------------------------------------------- C23: the server session
//@ item src/mqtt_session/server_session.rs ServerSession
impl ServerSession {
    spec fn subs(&self) -> Map<String, TopicSubscription> { self.subscriptions@ }
    spec fn queued(&self) -> Seq<MqttPublish5> { self.pending_publishes@ }
    spec fn pubs(&self) -> Map<u16, MqttPublish5> { self.unacknowledged_publishes@ }
    spec fn rels(&self) -> Map<u16, MqttPubRel5> { self.unacknowledged_pubrels@ }
    spec fn inv(&self) -> bool { self.inflight_messages <= self.receive_maximum }
    spec fn room(&self) -> int { if self.inflight_messages <= self.receive_maximum { self.receive_maximum - self.inflight_messages } else { 0 } }
    /// nothing but what is named may differ
    spec fn same_limits(&self, o: &Self) -> bool { self.receive_maximum == o.receive_maximum && self.will == o.will && self.session_expiry_interval == o.session_expiry_interval }
}
/// the subscriptions after those of `ts` are made one after the other
spec fn subscribed(m: Map<String, TopicSubscription>, ts: Seq<TopicSubscription>) -> Map<String, TopicSubscription>
    decreases ts.len()
{ if ts.len() == 0 { m } else { subscribed(m, ts.drop_last()).insert(ts.last().topic_filter, ts.last()) } }
spec fn unsubscribed(m: Map<String, TopicSubscription>, ts: Seq<String>) -> Map<String, TopicSubscription>
    decreases ts.len()
{ if ts.len() == 0 { m } else { unsubscribed(m, ts.drop_last()).remove(ts.last()) } }
/// C23: after subscribing, every named filter holds its latest subscription and every other filter is as before
proof fn c23_latest(m: Map<String, TopicSubscription>, ts: Seq<TopicSubscription>, f: String)
    ensures
        (forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).topic_filter != f) ==> (subscribed(m, ts).contains_key(f) <==> m.contains_key(f)) && (m.contains_key(f) ==> subscribed(m, ts)[f] == m[f]),
        forall|i: int| 0 <= i < ts.len() && (#[trigger] ts[i]).topic_filter == f && (forall|j: int| i < j < ts.len() ==> (#[trigger] ts[j]).topic_filter != f)
            ==> subscribed(m, ts).contains_key(f) && subscribed(m, ts)[f] == ts[i],
    decreases ts.len()
{
    if ts.len() > 0 {
        let d = ts.drop_last();
        c23_latest(m, d, f);
        assert(forall|i: int| 0 <= i < d.len() ==> d[i] == ts[i]);
        assert forall|i: int| 0 <= i < ts.len() && (#[trigger] ts[i]).topic_filter == f && (forall|j: int| i < j < ts.len() ==> (#[trigger] ts[j]).topic_filter != f)
            implies subscribed(m, ts).contains_key(f) && subscribed(m, ts)[f] == ts[i] by {
            if i < ts.len() - 1 { assert(d[i] == ts[i]); assert(forall|j: int| i < j < d.len() ==> (#[trigger] d[j]).topic_filter != f); assert(ts[ts.len() - 1].topic_filter != f); }
        }
        if forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).topic_filter != f {
            assert(forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).topic_filter != f);
            assert(ts[ts.len() - 1].topic_filter != f);
        }
    }
}
proof fn c23_unsubscribed(m: Map<String, TopicSubscription>, ts: Seq<String>, f: String)
    ensures unsubscribed(m, ts).contains_key(f) <==> m.contains_key(f) && !ts.contains(f),
        unsubscribed(m, ts).contains_key(f) ==> unsubscribed(m, ts)[f] == m[f],
    decreases ts.len()
{
    if ts.len() > 0 {
        let d = ts.drop_last();
        c23_unsubscribed(m, d, f);
        if ts.contains(f) { let i = choose|i: int| 0 <= i < ts.len() && ts[i] == f; if i < d.len() { assert(d[i] == f); } }
        if d.contains(f) { let i = choose|i: int| 0 <= i < d.len() && d[i] == f; assert(ts[i] == f); }
        if ts.last() == f { assert(ts[ts.len() - 1] == f); }
    }
}
//@ fn src/mqtt_session/server_session.rs ServerSession::new
//@ for C23
//@ ret r
//@ spec
  ensures r.inv(), r.receive_maximum == receive_maximum, r.inflight_messages == 0, r.subs() =~= Map::empty(), r.queued() =~= Seq::empty(), r.pubs() =~= Map::empty(), r.rels() =~= Map::empty()
//@ end
//@ fn src/mqtt_session/server_session.rs ServerSession::handle_incoming_subscribe
//@ for C23
//@ spec
  requires old(self).inv()
  ensures final(self).subs() =~= subscribed(old(self).subs(), subscribe.subscriptions@), final(self).queued() == old(self).queued(), final(self).pubs() == old(self).pubs(), final(self).rels() == old(self).rels(),
    final(self).inflight_messages == old(self).inflight_messages, final(self).same_limits(old(self)), final(self).inv()
//@ begin
  proof { axiom_string_key(); }
//@ iter 0 it hoist
//@ loop 0 before
  let ghost ts = subscribe.subscriptions@;
//@ loop 0
  invariant it.seq() == ts, self.subs() =~= subscribed(old(self).subs(), ts.take(it.index())),
    self.queued() == old(self).queued(), self.pubs() == old(self).pubs(), self.rels() == old(self).rels(), self.inflight_messages == old(self).inflight_messages, self.same_limits(old(self)),
//@ loop 0 begin
  let ghost ii = it.index();
  proof { axiom_string_key(); }
//@ loop 0 end
  proof { assert(ts.take(ii + 1).drop_last() =~= ts.take(ii)); }
//@ loop 0 after
  proof { assert(ts.take(ts.len() as int) =~= ts); }
//@ end
//@ fn src/mqtt_session/server_session.rs ServerSession::handle_incoming_unsubscribe
//@ for C23
//@ spec
  requires old(self).inv()
  ensures final(self).subs() =~= unsubscribed(old(self).subs(), unsubscribe.topic_filters@), final(self).queued() == old(self).queued(), final(self).pubs() == old(self).pubs(), final(self).rels() == old(self).rels(),
    final(self).inflight_messages == old(self).inflight_messages, final(self).same_limits(old(self)), final(self).inv()
//@ begin
  proof { axiom_string_key(); }
//@ iter 0 it hoist
//@ loop 0 before
  let ghost ts = unsubscribe.topic_filters@;
//@ loop 0
  invariant it.seq() == ts, self.subs() =~= unsubscribed(old(self).subs(), ts.take(it.index())),
    self.queued() == old(self).queued(), self.pubs() == old(self).pubs(), self.rels() == old(self).rels(), self.inflight_messages == old(self).inflight_messages, self.same_limits(old(self)),
//@ loop 0 begin
  let ghost ii = it.index();
  proof { axiom_string_key(); }
//@ loop 0 end
  proof { assert(ts.take(ii + 1).drop_last() =~= ts.take(ii)); }
//@ loop 0 after
  proof { assert(ts.take(ts.len() as int) =~= ts); }
//@ end
//@ fn src/mqtt_session/server_session.rs ServerSession::handle_incoming_publish
//@ for C23
//@ method values &vx_values_str
//@ ret r
//@ spec
  requires publish.qos == 0 || publish.packet_id is Some, old(self).inv()
  ensures answered(publish, r), final(self).queued() =~= old(self).queued() + Seq::new(old(self).subs().dom().len(), |i: int| publish),
    final(self).subs() == old(self).subs(), final(self).pubs() == old(self).pubs(), final(self).rels() == old(self).rels(),
    final(self).inflight_messages == old(self).inflight_messages, final(self).same_limits(old(self)), final(self).inv()
//@ begin
  proof { axiom_string_key(); }
//@ iter 0 it hoist
//@ loop 0 before
  let ghost n = vxit0@.len();
//@ loop 0
  invariant n == old(self).subs().dom().len(), it.seq().len() == n, self.queued() =~= old(self).queued() + Seq::new(it.index() as nat, |i: int| publish),
    self.subs() == old(self).subs(), self.pubs() == old(self).pubs(), self.rels() == old(self).rels(), self.inflight_messages == old(self).inflight_messages, self.same_limits(old(self)),
//@ end
//@ fn src/mqtt_session/server_session.rs ServerSession::handle_incoming_puback
//@ for C23
//@ spec
  requires old(self).inv()
  ensures final(self).pubs() =~= old(self).pubs().remove(_puback.packet_id), final(self).rels() == old(self).rels(), final(self).subs() == old(self).subs(), final(self).queued() == old(self).queued(),
    final(self).inflight_messages == (if old(self).inflight_messages > 0 { old(self).inflight_messages - 1 } else { 0int }), final(self).same_limits(old(self)), final(self).inv()
//@ end
//@ fn src/mqtt_session/server_session.rs ServerSession::handle_incoming_pubrec
//@ for C23
//@ ret r
//@ spec
  requires old(self).inv()
  ensures final(self).pubs() =~= old(self).pubs().remove(pubrec.packet_id), final(self).subs() == old(self).subs(), final(self).queued() == old(self).queued(),
    match r {
        None => pubrec.reason_code >= 0x80 && final(self).rels() == old(self).rels(),
        Some(q) => pubrec.reason_code < 0x80 && q.packet_id == pubrec.packet_id && q.reason_code == 0 && q.properties@.len() == 0 && final(self).rels() =~= old(self).rels().insert(pubrec.packet_id, q),
    },
    final(self).inflight_messages == old(self).inflight_messages, final(self).same_limits(old(self)), final(self).inv()
//@ end
//@ fn src/mqtt_session/server_session.rs ServerSession::handle_incoming_pubrel
//@ for C23
//@ ret r
//@ spec
  ensures *final(self) == *old(self), r.packet_id == pubrel.packet_id, r.reason_code == 0, r.properties@.len() == 0
//@ end
//@ fn src/mqtt_session/server_session.rs ServerSession::handle_incoming_pubcomp
//@ for C23
//@ spec
  requires old(self).inv()
  ensures final(self).rels() =~= old(self).rels().remove(pubcomp.packet_id), final(self).pubs() == old(self).pubs(), final(self).subs() == old(self).subs(), final(self).queued() == old(self).queued(),
    final(self).inflight_messages == (if old(self).inflight_messages > 0 { old(self).inflight_messages - 1 } else { 0int }), final(self).same_limits(old(self)), final(self).inv()
//@ end
spec fn is_rel(rels: Map<u16, MqttPubRel5>, q: MqttPubRel5) -> bool { exists|id: u16| #[trigger] rels.contains_key(id) && rels[id] == q }
/// the first `k` packets resend what is unacknowledged, the rest are the oldest queued publishes
spec fn batch(r: Seq<MqttPacket>, k: int, pubs: Map<u16, MqttPublish5>, rels: Map<u16, MqttPubRel5>, q: Seq<MqttPublish5>) -> bool {
    &&& 0 <= k <= r.len() && r.len() - k <= q.len()
    &&& forall|i: int| 0 <= i < k ==> match #[trigger] r[i] {
            MqttPacket::Publish5(p) => exists|id: u16| #[trigger] pubs.contains_key(id) && pubs[id] == p && !rels.contains_key(id),
            MqttPacket::PubRel5(q) => is_rel(rels, q),
            _ => false,
        }
    &&& forall|i: int| k <= i < r.len() ==> #[trigger] r[i] == MqttPacket::Publish5(q[i - k])
}
//@ fn src/mqtt_session/server_session.rs ServerSession::resend_pending_messages
//@ for C23
//@ method values &vx_values
//@ ret r
//@ spec
  requires old(self).inv()
  ensures
    r@.len() <= old(self).room(),
    exists|k: int| #[trigger] batch(r@, k, old(self).pubs(), old(self).rels(), old(self).queued()) && final(self).queued() =~= old(self).queued().skip(r@.len() - k),
    r@.len() < old(self).room() ==> final(self).queued().len() == 0,
    final(self).inflight_messages == old(self).inflight_messages + r@.len(),
    final(self).subs() == old(self).subs(), final(self).pubs() == old(self).pubs(), final(self).rels() == old(self).rels(), final(self).same_limits(old(self)), final(self).inv()
//@ begin
  let ghost mut k: int = 0;
  let ghost q0 = self.queued();
//@ iter 0 it hoist
//@ loop 0 before
  let ghost s0 = vxit0.remaining();
//@ loop 0
  invariant it.seq() == s0, *self == *old(self), packets_to_resend@.len() + available_slots == old(self).room(),
    forall|i: int| 0 <= i < s0.len() ==> self.pubs().contains_key(*(#[trigger] s0[i]).0) && self.pubs()[*s0[i].0] == *s0[i].1,
    batch(packets_to_resend@, packets_to_resend@.len() as int, self.pubs(), self.rels(), q0),
//@ iter 1 it hoist
//@ loop 1 before
  let ghost s1 = vxit1@;
  proof {
    let ks = choose|ks: Seq<u16>| #[trigger] listing(self.rels(), ks) && s1.len() == ks.len() && forall|i: int| 0 <= i < ks.len() ==> *#[trigger] s1[i] == self.rels()[ks[i]];
    assert forall|i: int| 0 <= i < s1.len() implies is_rel(self.rels(), *#[trigger] s1[i]) by { assert(self.rels().contains_key(ks[i])); }
  }
//@ loop 1
  invariant it.seq() == s1, *self == *old(self), packets_to_resend@.len() + available_slots == old(self).room(),
    forall|i: int| 0 <= i < s1.len() ==> is_rel(self.rels(), *#[trigger] s1[i]),
    batch(packets_to_resend@, packets_to_resend@.len() as int, self.pubs(), self.rels(), q0),
//@ loop 1 after
  proof { k = packets_to_resend@.len() as int; }
//@ loop 2
  invariant packets_to_resend@.len() + available_slots == old(self).room(), k <= packets_to_resend@.len(),
    self.inflight_messages == old(self).inflight_messages, self.subs() == old(self).subs(), self.pubs() == old(self).pubs(), self.rels() == old(self).rels(), self.same_limits(old(self)), self.inv(),
    q0 == old(self).queued(),
    batch(packets_to_resend@, k, self.pubs(), self.rels(), q0), self.queued() =~= q0.skip(packets_to_resend@.len() - k),
  decreases available_slots
//@ end
fn main(){}
}
