//@ item src/mqtt_client/inflight.rs InflightEntry
//@ item src/mqtt_client/inflight.rs InflightQueue
// ---------------------------------------------------------------- C13: the window
spec fn is_publish(p: MqttPacket) -> bool { p is Publish5 || p is Publish3 }
/// an exchange that is neither acknowledged nor completed
spec fn holds(p: MqttPacket) -> bool { p is Publish5 || p is Publish3 || p is PubRel5 || p is PubRel3 }
spec fn slots(m: Map<u16, InflightEntry>) -> nat { m.dom().filter(|k: u16| holds(m[k].packet)).len() }
broadcast proof fn slots_insert(m: Map<u16, InflightEntry>, k: u16, e: InflightEntry)
    ensures #[trigger] slots(m.insert(k, e)) == slots(m) + (if holds(e.packet) { 1int } else { 0 }) - (if m.contains_key(k) && holds(m[k].packet) { 1int } else { 0 })
{
    let a = m.dom().filter(|k: u16| holds(m[k].packet));
    let n = m.insert(k, e);
    let b = n.dom().filter(|k: u16| holds(n[k].packet));
    if holds(e.packet) { assert(b =~= a.insert(k)); } else { assert(b =~= a.remove(k)); }
}
broadcast proof fn slots_remove(m: Map<u16, InflightEntry>, k: u16)
    ensures #[trigger] slots(m.remove(k)) == slots(m) - (if m.contains_key(k) && holds(m[k].packet) { 1int } else { 0 })
{
    let a = m.dom().filter(|k: u16| holds(m[k].packet));
    let n = m.remove(k);
    assert(n.dom().filter(|k: u16| holds(n[k].packet)) =~= a.remove(k));
}
proof fn slots_none()
    ensures slots(Map::empty()) == 0
{ let m = Map::<u16, InflightEntry>::empty(); assert(m.dom().filter(|k: u16| holds(m[k].packet)) =~= Set::empty()); }
proof fn u16_set(s: Set<u16>, n: nat)
    requires forall|k: u16| #[trigger] s.contains(k) ==> k < n
    ensures s.len() <= n
    decreases n
{
    if n > 0 {
        let k = (n - 1) as u16;
        if n - 1 <= 65535 { u16_set(s.remove(k), (n - 1) as nat); } else { u16_set(s, (n - 1) as nat); }
    } else { assert(s =~= Set::empty()); }
}
impl InflightQueue {
    spec fn map(&self) -> Map<u16, InflightEntry> { self.entries@ }
    spec fn dq(&self) -> Seq<(u16, Instant)> { self.deadline_queue@ }
    /// the latest moment recorded
    spec fn latest(&self) -> int { if self.dq().len() == 0 { 0 } else { at(self.dq().last().1) } }
    spec fn inv(&self) -> bool {
        &&& self.publish_count == slots(self.map())
        &&& self.receive_maximum > 0
        &&& keyed(self.map())
        &&& sequenced(self.map(), self.next_sequence)
        &&& if self.mqtt_version == 5 { self.dq().len() == 0 } else { sorted(self.dq()) && tracked(self.map(), self.dq()) }
    }
    spec fn inv_without_tracking(&self) -> bool {
        self.publish_count == slots(self.map()) && self.receive_maximum > 0 && keyed(self.map()) && sequenced(self.map(), self.next_sequence)
    }
    spec fn same_config(&self, o: &Self) -> bool { self.receive_maximum == o.receive_maximum && self.mqtt_version == o.mqtt_version && self.retransmission_timeout == o.retransmission_timeout }
    spec fn due(&self, k: u16, now: Instant) -> bool { self.map().contains_key(k) && at(now) - at(self.map()[k].sent_at) >= ns(self.retransmission_timeout) }
}
spec fn keyed(m: Map<u16, InflightEntry>) -> bool { forall|k: u16| #[trigger] m.contains_key(k) ==> m[k].packet_id == k }
spec fn sequenced(m: Map<u16, InflightEntry>, n: u64) -> bool {
    &&& forall|k: u16| #[trigger] m.contains_key(k) ==> m[k].sequence < n
    &&& forall|j: u16, k: u16| #[trigger] m.contains_key(j) && #[trigger] m.contains_key(k) && j != k ==> m[j].sequence != m[k].sequence
}
spec fn sorted(d: Seq<(u16, Instant)>) -> bool { forall|i: int, j: int| 0 <= i < j < d.len() ==> at((#[trigger] d[i]).1) <= at((#[trigger] d[j]).1) }
/// every entry waits for its deadline
spec fn tracked(m: Map<u16, InflightEntry>, d: Seq<(u16, Instant)>) -> bool { forall|k: u16| #[trigger] m.contains_key(k) ==> d.contains((k, m[k].sent_at)) }
//@ fn src/mqtt_client/inflight.rs InflightQueue::new
//@ for C13 C14
//@ ret r
//@ spec
  ensures r.inv(), r.map() =~= Map::empty(), r.dq().len() == 0, r.receive_maximum == (if receive_maximum == 0 { 65535u16 } else { receive_maximum }), r.mqtt_version == mqtt_version, r.retransmission_timeout == retransmission_timeout
//@ begin
  proof { slots_none(); }
//@ end
//@ fn src/mqtt_client/inflight.rs InflightQueue::can_push_publish
//@ for C13
//@ ret r
//@ spec
  ensures r == (self.publish_count < self.receive_maximum)
//@ end
//@ fn src/mqtt_client/inflight.rs InflightQueue::holds_slot
//@ for C13
//@ ret r
//@ spec
  ensures r == holds(*packet)
//@ end
//@ fn src/mqtt_client/inflight.rs InflightQueue::update_receive_maximum
//@ for C13
//@ spec
  requires old(self).inv()
  ensures final(self).inv(), final(self).receive_maximum == (if receive_maximum > 0 { receive_maximum } else { old(self).receive_maximum }),
    final(self).map() == old(self).map(), final(self).dq() == old(self).dq(), final(self).mqtt_version == old(self).mqtt_version, final(self).retransmission_timeout == old(self).retransmission_timeout
//@ end
//@ fn src/mqtt_client/inflight.rs InflightQueue::push
//@ for C13 C14
//@ ret r
//@ spec
  requires old(self).inv()
  ensures pushed(*old(self), *final(self), packet_id, packet, qos, None, r), final(self).inv()
//@ end
/// C13: a PUBLISH enters exactly while the window has room, and no other entry is touched
spec fn pushed(a: InflightQueue, b: InflightQueue, packet_id: u16, packet: MqttPacket, qos: u8, stream: Option<u64>, r: Result<(), MqttClientError>) -> bool {
    &&& r is Err <==> is_publish(packet) && slots(a.map()) >= a.receive_maximum
    &&& b.same_config(&a)
    &&& r is Err ==> b == a
    &&& r is Ok ==> {
        &&& b.map().contains_key(packet_id)
        &&& b.map() =~= a.map().insert(packet_id, b.map()[packet_id])
        &&& b.next_sequence == a.next_sequence + 1
        &&& { let e = b.map()[packet_id]; e.packet_id == packet_id && e.packet == packet && e.retry_count == 0 && e.qos == qos && e.stream == stream && e.sequence == a.next_sequence && at(e.sent_at) >= a.latest() && at(e.sent_at) <= clock_end()
            && b.dq() =~= if a.mqtt_version == 5 { a.dq() } else { a.dq().push((packet_id, e.sent_at)) } }
    }
}
//@ fn src/mqtt_client/inflight.rs InflightQueue::push_with_stream
//@ for C13 C14
//@ ret r
//@ subst Instant::now() ==> vx_now_after(Ghost(self.latest()))
//@ subst self.next_sequence += 1 ==> vx_count_up_u64(&mut self.next_sequence)
//@ spec
  requires old(self).inv()
  ensures pushed(*old(self), *final(self), packet_id, packet, qos, stream, r), final(self).inv()
//@ begin
  broadcast use {slots_insert, slots_remove};
  proof { u16_set(self.map().dom().filter(|k: u16| holds(self.map()[k].packet)), 65536); }
//@ tail
  proof {
    let (a, b) = (*old(self), *self);
    if a.mqtt_version != 5 {
        assert(b.dq().last() == b.dq()[b.dq().len() - 1]);
        assert forall|k: u16| #[trigger] b.map().contains_key(k) implies b.dq().contains((k, b.map()[k].sent_at)) by {
            if k == packet_id { assert(b.dq()[b.dq().len() - 1] == (k, b.map()[k].sent_at)); }
            else { let i = choose|i: int| 0 <= i < a.dq().len() && a.dq()[i] == (k, a.map()[k].sent_at); assert(a.map().contains_key(k)); assert(b.dq()[i] == a.dq()[i]); }
        }
    }
  }
//@ end
//@ fn src/mqtt_client/inflight.rs InflightQueue::acknowledge
//@ for C13 C14
//@ ret r
//@ spec
  requires old(self).inv()
  ensures r == (if old(self).map().contains_key(packet_id) { Some(old(self).map()[packet_id]) } else { None }),
    final(self).map() =~= old(self).map().remove(packet_id), final(self).dq() == old(self).dq(), final(self).same_config(old(self)), final(self).next_sequence == old(self).next_sequence,
    final(self).inv()
//@ begin
  broadcast use {slots_insert, slots_remove};
  proof { if self.map().contains_key(packet_id) && holds(self.map()[packet_id].packet) { let s = self.map().dom().filter(|k: u16| holds(self.map()[k].packet)); assert(s.contains(packet_id)); assert(s.remove(packet_id).len() + 1 == s.len()); } }
//@ end
//@ fn src/mqtt_client/inflight.rs InflightQueue::clear
//@ for C13 C14
//@ spec
  requires old(self).inv()
  ensures final(self).map() =~= Map::empty(), final(self).publish_count == 0, final(self).same_config(old(self)), final(self).inv()
//@ begin
  proof { slots_none(); }
//@ tail
  proof { assert(self.map() =~= Map::empty()); }
//@ end
//@ fn src/mqtt_client/inflight.rs InflightQueue::len
//@ for C13
//@ ret r
//@ spec
  ensures r == self.map().dom().len()
//@ end
//@ fn src/mqtt_client/inflight.rs InflightQueue::is_empty
//@ for C13
//@ ret r
//@ spec
  ensures r <==> self.map() =~= Map::empty()
//@ end
// ---------------------------------------------------------------- C14: retransmission
//@ fn src/mqtt_client/inflight.rs InflightQueue::next_expiration
//@ for C14
//@ ret r
//@ closure 0 |vxp1: &(u16, Instant)| -> (r: Instant) requires at(vxp1.1) + ns(self.retransmission_timeout) <= at_max() ensures r == inst(at(vxp1.1) + ns(self.retransmission_timeout))
//@ spec
  requires self.inv(), self.latest() + ns(self.retransmission_timeout) <= at_max()
  ensures self.mqtt_version == 5 ==> r is None,
    r is None ==> self.mqtt_version == 5 || self.map() =~= Map::empty(),
    r matches Some(t) ==> forall|k: u16| #[trigger] self.map().contains_key(k) ==> at(t) <= at(self.map()[k].sent_at) + ns(self.retransmission_timeout)
//@ begin
  broadcast use group_time;
  proof {
    if self.mqtt_version != 5 {
        assert forall|k: u16| #[trigger] self.map().contains_key(k) implies self.dq().len() > 0 && at(self.dq()[0].1) <= at(self.map()[k].sent_at) && at(self.dq()[0].1) <= self.latest() by {
            let i = choose|i: int| 0 <= i < self.dq().len() && self.dq()[i] == (k, self.map()[k].sent_at);
        }
    }
  }
//@ end
/// `e` after it was sent again at `now`
spec fn resent(e: InflightEntry, now: Instant) -> InflightEntry { InflightEntry { sent_at: now, retry_count: (e.retry_count + 1) as u32, ..e } }
/// the entries after those of `ids` were sent again at `now`
spec fn resent_all(m: Map<u16, InflightEntry>, ids: Seq<u16>, now: Instant) -> Map<u16, InflightEntry> { m.map_entries(|k: u16, e: InflightEntry| if ids.contains(k) { resent(e, now) } else { e }) }
/// `d[0..p]` has been dealt with
spec fn swept(m: Map<u16, InflightEntry>, d: Seq<(u16, Instant)>, ids: Seq<u16>, p: int) -> bool {
    &&& ids.no_duplicates()
    &&& forall|a: int| 0 <= a < ids.len() ==> m.contains_key(#[trigger] ids[a]) && exists|j: int| 0 <= j < p && #[trigger] d[j] == (ids[a], m[ids[a]].sent_at)
    &&& forall|j: int| 0 <= j < p && m.contains_key((#[trigger] d[j]).0) && m[d[j].0].sent_at == d[j].1 ==> ids.contains(d[j].0)
    &&& forall|a: int, b: int| 0 <= a < b < ids.len() ==> at(m[#[trigger] ids[a]].sent_at) <= at(m[#[trigger] ids[b]].sent_at)
}
spec fn requeued(r: Seq<(u16, Instant)>, ids: Seq<u16>, now: Instant) -> bool {
    r.len() == ids.len() && forall|a: int| 0 <= a < ids.len() ==> #[trigger] r[a] == (ids[a], now)
}
spec fn shown(r: Seq<(MqttPacket, Option<u64>)>, m: Map<u16, InflightEntry>, ids: Seq<u16>) -> bool {
    r.len() == ids.len() && forall|a: int| 0 <= a < ids.len() ==> #[trigger] r[a] == (m[ids[a]].packet, m[ids[a]].stream)
}
/// C14: exactly the entries due are sent again, each once, in the order they fell due, on their own stream
spec fn sent_again(a: InflightQueue, b: InflightQueue, now: Instant, ids: Seq<u16>) -> bool {
    &&& b.same_config(&a) && b.next_sequence == a.next_sequence && b.publish_count == a.publish_count
    &&& if a.mqtt_version == 5 { ids.len() == 0 } else { ids.no_duplicates() && (forall|k: u16| ids.contains(k) <==> #[trigger] a.due(k, now)) }
    &&& forall|x: int, y: int| 0 <= x < y < ids.len() ==> at(a.map()[#[trigger] ids[x]].sent_at) <= at(a.map()[#[trigger] ids[y]].sent_at)
    &&& b.map() =~= resent_all(a.map(), ids, now)
}
proof fn slots_resent(m: Map<u16, InflightEntry>, ids: Seq<u16>, now: Instant)
    ensures slots(resent_all(m, ids, now)) == slots(m)
{
    let n = resent_all(m, ids, now);
    assert(n.dom().filter(|k: u16| holds(n[k].packet)) =~= m.dom().filter(|k: u16| holds(m[k].packet)));
}
proof fn sweep_step(m: Map<u16, InflightEntry>, d: Seq<(u16, Instant)>, ids: Seq<u16>, p: int, pid: u16, again: bool)
    requires swept(m, d, ids, p), sorted(d), 0 <= p < d.len(), d[p].0 == pid,
        again ==> m.contains_key(pid) && m[pid].sent_at == d[p].1 && !ids.contains(pid),
        !again ==> !m.contains_key(pid) || m[pid].sent_at != d[p].1 || ids.contains(pid)
    ensures swept(m, d, if again { ids.push(pid) } else { ids }, p + 1)
{
    let n = if again { ids.push(pid) } else { ids };
    assert forall|a: int| 0 <= a < n.len() implies m.contains_key(#[trigger] n[a]) && exists|j: int| 0 <= j < p + 1 && #[trigger] d[j] == (n[a], m[n[a]].sent_at) by {
        if a < ids.len() { assert(n[a] == ids[a]); } else { assert(d[p] == (n[a], m[n[a]].sent_at)); }
    }
    assert forall|j: int| 0 <= j < p + 1 && m.contains_key((#[trigger] d[j]).0) && m[d[j].0].sent_at == d[j].1 implies n.contains(d[j].0) by {
        if j == p { if again { assert(n[ids.len() as int] == pid); } }
        else { let a = choose|a: int| 0 <= a < ids.len() && ids[a] == d[j].0; assert(n[a] == d[j].0); }
    }
    assert forall|a: int, b: int| 0 <= a < b < n.len() implies at(m[#[trigger] n[a]].sent_at) <= at(m[#[trigger] n[b]].sent_at) by {
        assert(n[a] == ids[a]);
        if b < ids.len() { assert(n[b] == ids[b]); }
        else { let j = choose|j: int| 0 <= j < p && #[trigger] d[j] == (ids[a], m[ids[a]].sent_at); assert(at(d[j].1) <= at(d[p].1)); }
    }
}
proof fn resent_more(m: Map<u16, InflightEntry>, ids: Seq<u16>, now: Instant, pid: u16)
    requires m.contains_key(pid), !ids.contains(pid)
    ensures resent_all(m, ids.push(pid), now) =~= resent_all(m, ids, now).insert(pid, resent(m[pid], now))
{
    let n = ids.push(pid);
    assert forall|k: u16| n.contains(k) <==> ids.contains(k) || k == pid by {
        assert(n[ids.len() as int] == pid);
        assert(forall|a: int| 0 <= a < ids.len() ==> n[a] == ids[a]);
    }
}
//@ fn src/mqtt_client/inflight.rs InflightQueue::get_expired_with_stream
//@ for C14
//@ method get_mut &mut vx_get_mut
//@ subst entry.retry_count += 1 ==> vx_count_up_u32(&mut entry.retry_count)
//@ ret r
//@ spec
  requires old(self).inv(), old(self).latest() <= at(now), ns(old(self).retransmission_timeout) > 0
  ensures exists|ids: Seq<u16>| #[trigger] sent_again(*old(self), *final(self), now, ids) && shown(r@, old(self).map(), ids),
    final(self).latest() <= at(now) || final(self).mqtt_version == 5, final(self).inv()
//@ begin
  broadcast use group_time;
  let ghost e0 = self.map();
  let ghost d0 = self.dq();
  let ghost mut ids: Seq<u16> = Seq::empty();
  let ghost mut rq: Seq<(u16, Instant)> = Seq::empty();
  let ghost mut p: int = 0;
  let ghost mut stop = false;
  proof { assert(resent_all(e0, ids, now) =~= e0);
    if self.mqtt_version == 5 { assert(sent_again(*self, *self, now, ids)); }
    if d0.len() > 0 { assert(d0.last() == d0[d0.len() - 1]); } }
//@ iter 0 it
//@ loop 0
  invariant_except_break p == it.index(), !stop,
  invariant self.inv_without_tracking(), self.same_config(old(self)), self.publish_count == old(self).publish_count, self.next_sequence == old(self).next_sequence, self.mqtt_version != 5,
    old(self).inv(), e0 == old(self).map(), d0 == old(self).dq(), it.seq().len() == d0.len(),
    0 <= p <= d0.len(), stop ==> p < d0.len() && at(now) - at(d0[p].1) < ns(self.retransmission_timeout),
    forall|j: int| 0 <= j < p ==> at(now) - at((#[trigger] d0[j]).1) >= ns(self.retransmission_timeout),
    forall|j: int| 0 <= j < d0.len() ==> at((#[trigger] d0[j]).1) <= at(now), sorted(d0),
    ns(self.retransmission_timeout) > 0,
    self.map() =~= resent_all(e0, ids, now), swept(e0, d0, ids, p), shown(expired@, e0, ids), requeued(rq, ids, now), self.dq() =~= d0.skip(p) + rq,
  ensures stop || p == d0.len(),
//@ loop 0 begin
  broadcast use group_time;
  let ghost p0 = p;
  let ghost ids0 = ids;
//@ before break
  proof { stop = true; }
//@ after self.deadline_queue.pop_front();
  proof {
    p = p0 + 1;
    assert((d0.skip(p0) + rq).skip(1) =~= d0.skip(p) + rq);
  }
//@ after self.deadline_queue.push_back
  proof {
    assert(self.dq() =~= d0.skip(p) + rq.push((pid, now)));
    assert(!ids0.contains(pid));
    resent_more(e0, ids0, now, pid);
    ids = ids0.push(pid);
    rq = rq.push((pid, now));
  }
//@ loop 0 end
  proof {
    assert(d0[p0] == (pid, sent_at));
    sweep_step(e0, d0, ids0, p0, pid, ids.len() > ids0.len());
    assert(self.map() =~= resent_all(e0, ids, now));
    slots_resent(e0, ids, now);
  }
//@ tail
  proof {
    let d = self.dq();
    if d.len() > 0 {
        assert(d.last() == d[d.len() - 1]);
        if rq.len() > 0 { assert(d[d.len() - 1] == rq[rq.len() - 1]); } else { assert(d[d.len() - 1] == d0[d0.len() - 1]); }
    }
    assert forall|k: u16| ids.contains(k) <==> #[trigger] old(self).due(k, now) by {
        if old(self).due(k, now) { let j = choose|j: int| 0 <= j < d0.len() && d0[j] == (k, e0[k].sent_at); assert(j < p); }
    }
    assert forall|k: u16| #[trigger] self.map().contains_key(k) implies self.dq().contains((k, self.map()[k].sent_at)) by {
        assert(e0.contains_key(k));
        let j = choose|j: int| 0 <= j < d0.len() && d0[j] == (k, e0[k].sent_at);
        if ids.contains(k) { let a = choose|a: int| 0 <= a < ids.len() && ids[a] == k; assert(rq[a] == (k, now)); assert(self.dq()[d0.len() - p + a] == rq[a]); }
        else { assert(j >= p); assert(self.dq()[j - p] == d0[j]); }
    }
    assert(sent_again(*old(self), *self, now, ids));
  }
//@ end
//@ fn src/mqtt_client/inflight.rs InflightQueue::get_expired
//@ for C14
//@ closure 0 |vxp1: (MqttPacket, Option<u64>)| -> (r: MqttPacket) ensures r == vxp1.0
//@ ret r
//@ spec
  requires old(self).inv(), old(self).latest() <= at(now), ns(old(self).retransmission_timeout) > 0
  ensures exists|ids: Seq<u16>| #[trigger] sent_again(*old(self), *final(self), now, ids) && r@.len() == ids.len() && forall|a: int| 0 <= a < ids.len() ==> #[trigger] r@[a] == old(self).map()[ids[a]].packet,
    final(self).inv()
//@ end
/// all entries in the order they were first sent
spec fn in_order(m: Map<u16, InflightEntry>, ids: Seq<u16>) -> bool {
    listing(m, ids) && forall|x: int, y: int| 0 <= x < y < ids.len() ==> m[#[trigger] ids[x]].sequence < m[#[trigger] ids[y]].sequence
}
//@ fn src/mqtt_client/inflight.rs InflightQueue::get_all_for_reconnect
//@ for C14 C21
//@ method values &vx_values
//@ method sort_by_key &mut vx_sort_by_key
//@ closure 0 |e: &&InflightEntry| -> (r: u64) ensures r == e.sequence
//@ closure 1 |e: &InflightEntry| -> (r: MqttPacket) ensures r == e.packet
//@ ret r
//@ spec
  requires self.inv()
  ensures exists|ids: Seq<u16>| #[trigger] in_order(self.map(), ids) && r@.len() == ids.len() && forall|a: int| 0 <= a < ids.len() ==> #[trigger] r@[a] == self.map()[ids[a]].packet
//@ before vx_sort_by_key
  let ghost v = all@;
//@ after vx_sort_by_key
  let ghost w = all@;
//@ tail
  proof {
    let m = self.map();
    let ks = choose|ks: Seq<u16>| #[trigger] listing(m, ks) && v.len() == ks.len() && forall|i: int| 0 <= i < ks.len() ==> *#[trigger] v[i] == m[ks[i]];
    let ids = w.map_values(|e: &InflightEntry| e.packet_id);
    v.to_multiset_ensures(); w.to_multiset_ensures();
    assert(v.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies v[i] != v[j] by { assert(m.contains_key(ks[i]) && m.contains_key(ks[j])); } }
    v.lemma_multiset_has_no_duplicates();
    w.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int| 0 <= i < w.len() implies m.contains_key(#[trigger] ids[i]) && m[ids[i]] == *w[i] by {
        assert(w.to_multiset().contains(w[i]));
        assert(v.contains(w[i]));
        let j = choose|j: int| 0 <= j < v.len() && v[j] == w[i]; assert(m.contains_key(ks[j]));
    }
    assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && i != j implies ids[i] != ids[j] by { assert(m.contains_key(ids[i]) && m.contains_key(ids[j])); assert(w[i] != w[j]); }
    assert forall|k: u16| #[trigger] m.contains_key(k) implies ids.contains(k) by {
        let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k;
        assert(v.to_multiset().contains(v[j]));
        assert(w.contains(v[j]));
        let i = choose|i: int| 0 <= i < w.len() && w[i] == v[j];
        assert(ids[i] == k);
    }
    assert(in_order(m, ids)) by {
        assert forall|x: int, y: int| 0 <= x < y < ids.len() implies m[#[trigger] ids[x]].sequence < m[#[trigger] ids[y]].sequence by {
            assert(m.contains_key(ids[x]) && m.contains_key(ids[y])); assert(ids[x] != ids[y]);
        }
    }
  }
//@ end
