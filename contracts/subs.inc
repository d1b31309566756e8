// ---------------------------------------------------------------- 3.1.1 UNSUBSCRIBE, SUBACK
impl Wire for VUnsubscribe3 {
    spec fn ty(&self) -> u8 { 10 }
    spec fn fl(&self) -> u8 { 2 }
    spec fn sane(&self) -> bool { true }
    spec fn vh_ok(&self) -> bool { true }
    spec fn vh(&self) -> Seq<u8> { be16(self.id) }
    spec fn pl_ok(&self) -> bool { cells_ok(self.filters) }
    spec fn pl(&self) -> Seq<u8> { cells(self.filters) }
}
spec fn unsub3_rest(id: u16, filters: Option<Seq<Seq<char>>>) -> Option<VUnsubscribe3> {
    match filters { Some(filters) => Some(VUnsubscribe3 { id, filters }), None => None }
}
spec fn dec_unsub3(b: Seq<u8>, h: int, t: int) -> Option<VUnsubscribe3> {
    if b[0] / 16 != 10 || b[0] % 16 != 2 || t < h + 2 { None }
    else { unsub3_rest(un16(b[h], b[h + 1]), cells_at::<Seq<char>>(b, h + 2, t)) }
}
#[verifier::spinoff_prover]
proof fn unsub3_here(v: VUnsubscribe3, rest: Seq<u8>)
    requires v.vh_ok(), v.pl_ok(), small(body(v).len())
    ensures dec_unsub3(frame(v) + rest, hlen(v), frame(v).len() as int) == Some(v)
{
    hide(cells_at); hide(cells); hide(vbi_in);
    broadcast use first_val;
    frame_here(v, rest);
    let b = frame(v) + rest;
    has_be16(b, hlen(v), v.id);
    cells_here(b, hlen(v) + 2, v.filters);
}
#[verifier::spinoff_prover]
proof fn unsub3_alone(b: Seq<u8>, h: int, t: int)
    requires 1 <= h <= t <= b.len()
    ensures dec_unsub3(b.take(t), h, t) == dec_unsub3(b, h, t)
{
    assert(b.take(t) == b.subrange(0, t));
    if t >= h + 2 { cells_part::<Seq<char>>(b, 0, t, h + 2, t); }
}
//@ include pkt.inc T=MqttUnsubscribe N=Unsubscribe3 F=src/mqtt_serde/mqttv3/unsubscribe.rs C=C05 D=dec_unsub3(b,h,t)
//@ fn src/mqtt_serde/mqttv3/unsubscribe.rs MqttUnsubscribe::variable_header
//@ include vh.inc C=C05
//@ end
//@ fn src/mqtt_serde/mqttv3/unsubscribe.rs MqttUnsubscribe::payload
//@ include pl.inc C=C05
//@ begin
  broadcast use cats;
  let ghost fs = vtexts(self.topic_filters@);
  proof { assert(fs.take(0) =~= seq![]); }
//@ iter 0 it
//@ loop 0
  invariant it.seq().len() == fs.len(), fs == vtexts(self.topic_filters@), forall|i: int| 0 <= i < fs.len() ==> *#[trigger] it.seq()[i] == self.topic_filters@[i],
    cells_ok(fs.take(it.index())), payload@ == cells(fs.take(it.index())),
//@ loop 0 begin
  proof { cells_more(fs, it.index()); assert(fs[it.index()] == topic@); if cells_ok(fs) { assert(fs[it.index()].cell_ok()); } }
//@ tail
  proof { assert(fs.take(fs.len() as int) =~= fs); }
//@ end
//@ include dec.inc T=MqttUnsubscribe N=Unsubscribe3 F=src/mqtt_serde/mqttv3/unsubscribe.rs C=C05 Y=C05 B=text_part,text_bound
//@ before while offset
  let ghost o0 = offset as int;
  let ghost want = dec_unsub3(buffer@, (hdr(buffer@)->Some_0).0, total_len as int);
  proof { so_far_start::<Seq<char>>(buffer@, o0, total_len as int, vtexts(topic_filters@)); }
//@ loop 0
  invariant
    0 <= o0 <= offset <= total_len <= buffer@.len(), buffer@.len() <= isize::MAX, payload_end == total_len,
    so_far::<Seq<char>>(buffer@, o0, offset as int, total_len as int, vtexts(topic_filters@)),
    want == unsub3_rest(message_id, cells_at::<Seq<char>>(buffer@, o0, total_len as int)),
    hdr(buffer@) is Some, (hdr(buffer@)->Some_0).1 == total_len, want == dec_unsub3(buffer@, (hdr(buffer@)->Some_0).0, total_len as int),
  decreases total_len - offset
//@ loop 0 begin
  broadcast use {text_part, text_bound};
  let ghost s0 = topic_filters@;
  proof { so_far_next::<Seq<char>>(buffer@, o0, offset as int, total_len as int, total_len as int, vtexts(s0)); }
//@ loop 0 end
  proof { vtexts_more(s0, topic_filters@.last()); assert(topic_filters@ =~= s0.push(topic_filters@.last())); }
//@ after while offset
  proof { so_far_end::<Seq<char>>(buffer@, o0, offset as int, total_len as int, vtexts(topic_filters@)); }
//@ end
spec fn granted(c: u8) -> bool { c <= 2 || c == 0x80 }
impl Wire for VCodes3 {
    spec fn ty(&self) -> u8 { 9 }
    spec fn fl(&self) -> u8 { 0 }
    spec fn sane(&self) -> bool { true }
    spec fn vh_ok(&self) -> bool { true }
    spec fn vh(&self) -> Seq<u8> { be16(self.id) }
    spec fn pl_ok(&self) -> bool { forall|i: int| 0 <= i < self.codes.len() ==> granted(#[trigger] self.codes[i]) }
    spec fn pl(&self) -> Seq<u8> { self.codes }
}
spec fn dec_suback3(b: Seq<u8>, h: int, t: int) -> Option<VCodes3> {
    if b[0] / 16 != 9 || b[0] % 16 != 0 || t < h + 2 { None }
    else {
        let v = VCodes3 { id: un16(b[h], b[h + 1]), codes: b.subrange(h + 2, t) };
        if v.pl_ok() { Some(v) } else { None }
    }
}
#[verifier::spinoff_prover]
proof fn suback3_here(v: VCodes3, rest: Seq<u8>)
    requires v.vh_ok(), v.pl_ok(), small(body(v).len())
    ensures dec_suback3(frame(v) + rest, hlen(v), frame(v).len() as int) == Some(v)
{
    broadcast use first_val;
    frame_here(v, rest);
    let b = frame(v) + rest;
    has_be16(b, hlen(v), v.id);
    assert(b.subrange(hlen(v) + 2, frame(v).len() as int) == v.codes);
}
#[verifier::spinoff_prover]
proof fn suback3_alone(b: Seq<u8>, h: int, t: int)
    requires 1 <= h <= t <= b.len()
    ensures dec_suback3(b.take(t), h, t) == dec_suback3(b, h, t)
{ if t >= h + 2 { assert(b.take(t).subrange(h + 2, t) =~= b.subrange(h + 2, t)); } }
//@ include pkt.inc T=MqttSubAck N=SubAck3 F=src/mqtt_serde/mqttv3/suback.rs C=C05 D=dec_suback3(b,h,t)
//@ fn src/mqtt_serde/mqttv3/suback.rs MqttSubAck::variable_header
//@ include vh.inc C=C05
//@ end
//@ fn src/mqtt_serde/mqttv3/suback.rs MqttSubAck::payload
//@ include pl.inc C=C05
//@ iter 0 it
//@ loop 0
  invariant it.seq().len() == self.return_codes@.len(), forall|i: int| 0 <= i < self.return_codes@.len() ==> *#[trigger] it.seq()[i] == self.return_codes@[i],
    forall|i: int| 0 <= i < it.index() ==> granted(#[trigger] self.return_codes@[i]),
//@ loop 0 begin
  proof { assert(self.v().pl_ok() ==> granted(self.v().codes[it.index()])); }
//@ end
//@ include dec.inc T=MqttSubAck N=SubAck3 F=src/mqtt_serde/mqttv3/suback.rs C=C05 Y=C05 B=vprops_none
//@ iter 0 it
//@ loop 0
  invariant it.seq().len() == return_codes@.len(), forall|i: int| 0 <= i < return_codes@.len() ==> *#[trigger] it.seq()[i] == return_codes@[i],
    forall|i: int| 0 <= i < it.index() ==> granted(#[trigger] return_codes@[i]),
    hdr(buffer@) is Some, total_len == (hdr(buffer@)->Some_0).1, total_len <= buffer@.len(), offset == (hdr(buffer@)->Some_0).0 + 2, offset <= total_len, return_codes@ == buffer@.subrange(offset as int, total_len as int),
    buffer@[0] / 16 == 9, buffer@[0] % 16 == 0, message_id == un16(buffer@[offset - 2], buffer@[offset - 1]),
//@ loop 0 begin
  proof {
    let v = VCodes3 { id: message_id, codes: return_codes@ };
    assert(v.pl_ok() ==> granted(v.codes[it.index()]));
  }
//@ end
// ---------------------------------------------------------------- SUBSCRIBE
impl Cell for VSub3 {
    spec fn cell(self) -> Seq<u8> { text(self.filter) + seq![self.qos] }
    spec fn cell_ok(self) -> bool { text_ok(self.filter) && self.qos <= 2 }
    spec fn cell_wf(self) -> bool { self.cell_ok() }
    spec fn cell_at(b: Seq<u8>, o: int, t: int) -> Option<(Self, int)> {
        match text_at(b, o, t) { Some((filter, e)) => if e < t && b[e] <= 2 { Some((VSub3 { filter, qos: b[e] }, e + 1)) } else { None }, None => None }
    }
    proof fn less(b: Seq<u8>, o: int, t: int, u: int) { assert(upto(b, t)); text_less(b, o, t, u); text_bound(b, o, u); }
    proof fn part(b: Seq<u8>, x: int, y: int, p: int, q: int) { text_part(b, x, y, p, q); text_bound(b.subrange(x, y), p, q); }
    proof fn bound(b: Seq<u8>, o: int, t: int) { text_bound(b, o, t); }
    proof fn here(self, b: Seq<u8>, o: int, t: int) {
        has_cat(b, o, text(self.filter), seq![self.qos]);
        has_byte(b, o + text(self.filter).len(), self.qos);
        text_here(b, o, t, self.filter);
    }
}
impl Wire for VSubscribe3 {
    spec fn ty(&self) -> u8 { 8 }
    spec fn fl(&self) -> u8 { 2 }
    spec fn sane(&self) -> bool { true }
    spec fn vh_ok(&self) -> bool { true }
    spec fn vh(&self) -> Seq<u8> { be16(self.id) }
    spec fn pl_ok(&self) -> bool { cells_ok(self.subs) }
    spec fn pl(&self) -> Seq<u8> { cells(self.subs) }
}
spec fn sub3_rest(id: u16, subs: Option<Seq<VSub3>>) -> Option<VSubscribe3> {
    match subs { Some(subs) => Some(VSubscribe3 { id, subs }), None => None }
}
spec fn dec_sub3(b: Seq<u8>, h: int, t: int) -> Option<VSubscribe3> {
    if b[0] / 16 != 8 || b[0] % 16 != 2 || t < h + 2 { None }
    else { sub3_rest(un16(b[h], b[h + 1]), cells_at::<VSub3>(b, h + 2, t)) }
}
#[verifier::spinoff_prover]
proof fn sub3_here(v: VSubscribe3, rest: Seq<u8>)
    requires v.vh_ok(), v.pl_ok(), small(body(v).len())
    ensures dec_sub3(frame(v) + rest, hlen(v), frame(v).len() as int) == Some(v)
{
    hide(cells_at); hide(cells); hide(vbi_in);
    broadcast use first_val;
    frame_here(v, rest);
    let b = frame(v) + rest;
    has_be16(b, hlen(v), v.id);
    assert(cells_wf(v.subs)) by { assert forall|i: int| 0 <= i < v.subs.len() implies (#[trigger] v.subs[i]).cell_wf() by { assert(v.subs[i].cell_ok()); } }
    cells_here(b, hlen(v) + 2, v.subs);
}
#[verifier::spinoff_prover]
proof fn sub3_alone(b: Seq<u8>, h: int, t: int)
    requires 1 <= h <= t <= b.len()
    ensures dec_sub3(b.take(t), h, t) == dec_sub3(b, h, t)
{
    assert(b.take(t) == b.subrange(0, t));
    if t >= h + 2 { cells_part::<VSub3>(b, 0, t, h + 2, t); }
}
proof fn vsubs3_more(s: Seq<SubscriptionTopic>, x: SubscriptionTopic) ensures vsubs3(s.push(x)) == vsubs3(s).push(x.v()) { assert(vsubs3(s.push(x)) =~= vsubs3(s).push(x.v())); }
//@ include pkt.inc T=MqttSubscribe N=Subscribe3 F=src/mqtt_serde/mqttv3/subscribe.rs C=C05 D=dec_sub3(b,h,t)
//@ fn src/mqtt_serde/mqttv3/subscribe.rs MqttSubscribe::variable_header
//@ include vh.inc C=C05
//@ end
//@ fn src/mqtt_serde/mqttv3/subscribe.rs MqttSubscribe::payload
//@ include pl.inc C=C05
//@ begin
  broadcast use cats;
  let ghost fs = vsubs3(self.subscriptions@);
  proof { assert(fs.take(0) =~= seq![]); }
//@ iter 0 it
//@ loop 0
  invariant it.seq().len() == fs.len(), fs == vsubs3(self.subscriptions@), forall|i: int| 0 <= i < fs.len() ==> *#[trigger] it.seq()[i] == self.subscriptions@[i],
    cells_ok(fs.take(it.index())), payload@ == cells(fs.take(it.index())),
//@ loop 0 begin
  broadcast use cats;
  proof { cells_more(fs, it.index()); assert(fs[it.index()] == sub.v()); if cells_ok(fs) { assert(fs[it.index()].cell_ok()); } }
//@ tail
  proof { assert(fs.take(fs.len() as int) =~= fs); }
//@ end
//@ include dec.inc T=MqttSubscribe N=Subscribe3 F=src/mqtt_serde/mqttv3/subscribe.rs C=C05 Y=C05 B=text_part,text_bound
//@ before while offset
  let ghost o0 = offset as int;
  let ghost want = dec_sub3(buffer@, (hdr(buffer@)->Some_0).0, total_len as int);
  proof { so_far_start::<VSub3>(buffer@, o0, total_len as int, vsubs3(subscriptions@)); }
//@ loop 0
  invariant
    0 <= o0 <= offset <= total_len <= buffer@.len(), buffer@.len() <= isize::MAX, payload_end == total_len,
    so_far::<VSub3>(buffer@, o0, offset as int, total_len as int, vsubs3(subscriptions@)),
    want == sub3_rest(message_id, cells_at::<VSub3>(buffer@, o0, total_len as int)),
    hdr(buffer@) is Some, (hdr(buffer@)->Some_0).1 == total_len, want == dec_sub3(buffer@, (hdr(buffer@)->Some_0).0, total_len as int),
  decreases total_len - offset
//@ loop 0 begin
  broadcast use {text_part, text_bound};
  let ghost s0 = subscriptions@;
  proof { so_far_next::<VSub3>(buffer@, o0, offset as int, total_len as int, total_len as int, vsubs3(s0)); }
//@ loop 0 end
  proof { vsubs3_more(s0, subscriptions@.last()); assert(subscriptions@ =~= s0.push(subscriptions@.last())); }
//@ after while offset
  proof { so_far_end::<VSub3>(buffer@, o0, offset as int, total_len as int, vsubs3(subscriptions@)); }
//@ end
// ---- MQTT 5
spec fn options(s: VSub5) -> u8 { (s.qos % 4 + if s.nl { 4int } else { 0 } + if s.rap { 8int } else { 0 } + 16 * (s.rh % 4)) as u8 }
spec fn filter_fits(f: Seq<char>, nl: bool) -> bool { filter_ok(f) && share_ok(f) && !(nl && is_shared(f)) }
impl Cell for VSub5 {
    spec fn cell(self) -> Seq<u8> { text(self.filter) + seq![options(self)] }
    spec fn cell_ok(self) -> bool { text_ok(self.filter) }
    spec fn cell_wf(self) -> bool { text_ok(self.filter) && self.qos < 4 && self.rh < 4 && filter_fits(self.filter, self.nl) }
    spec fn cell_at(b: Seq<u8>, o: int, t: int) -> Option<(Self, int)> {
        match text_at(b, o, t) {
            Some((filter, e)) => if e < t && b[e] < 64 && filter_fits(filter, bit(b[e], 4)) { Some((VSub5 { filter, qos: b[e] % 4, nl: bit(b[e], 4), rap: bit(b[e], 8), rh: b[e] / 16 }, e + 1)) } else { None },
            None => None,
        }
    }
    proof fn less(b: Seq<u8>, o: int, t: int, u: int) { assert(upto(b, t)); text_less(b, o, t, u); text_bound(b, o, u); }
    proof fn part(b: Seq<u8>, x: int, y: int, p: int, q: int) { text_part(b, x, y, p, q); text_bound(b.subrange(x, y), p, q); }
    proof fn bound(b: Seq<u8>, o: int, t: int) { text_bound(b, o, t); }
    proof fn here(self, b: Seq<u8>, o: int, t: int) {
        has_cat(b, o, text(self.filter), seq![options(self)]);
        has_byte(b, o + text(self.filter).len(), options(self));
        text_here(b, o, t, self.filter);
    }
}
//@ fn src/mqtt_serde/mqttv5/subscribe.rs TopicSubscription::encode_subscription_options
//@ for C04
//@ ret r
//@ spec
  ensures r == options(self.v())
//@ begin
  broadcast use bits;
//@ end
//@ fn src/mqtt_serde/mqttv5/subscribe.rs TopicSubscription::decode_subscription_options
//@ for C04
//@ ret r
//@ spec
  ensures r == (options % 4, bit(options, 4), bit(options, 8), ((options / 16) % 4) as u8)
//@ begin
  broadcast use bits;
//@ end
//@ fn src/mqtt_serde/mqttv5/subscribe.rs TopicSubscription::new
//@ for C04
//@ ret r
//@ spec
  ensures r == (TopicSubscription { topic_filter, qos, no_local, retain_as_published, retain_handling })
//@ end
//@ fn src/mqtt_serde/mqttv5/subscribe.rs TopicSubscription::to_bytes
//@ for C04 C11
//@ ret r
//@ spec
  ensures match r { Ok(b) => self.v().cell_ok() && b@ == self.v().cell(), Err(_) => !self.v().cell_ok() }
//@ begin
  broadcast use cats;
//@ end
//@ fn src/mqtt_serde/mqttv5/subscribe.rs TopicSubscription::from_bytes
//@ own
//@ for C04 C06 C10
//@ ret r
//@ spec
  ensures match r { Ok((s, n)) => VSub5::cell_at(buffer@, 0, buffer@.len() as int) == Some((s.v(), n as int)) && 0 < n <= buffer@.len(), Err(_) => VSub5::cell_at(buffer@, 0, buffer@.len() as int) is None }
//@ begin
  hide(text_at); hide(filter_ok); hide(share_ok);
  broadcast use {bits, text_part, text_bound};
  proof { axiom_slice_len(buffer); reveal_strlit("$share/"); assert("$share/"@ =~= seq!['$', 's', 'h', 'a', 'r', 'e', '/']); }
//@ end
impl Wire for VSubscribe5 {
    spec fn ty(&self) -> u8 { 8 }
    spec fn fl(&self) -> u8 { 2 }
    spec fn sane(&self) -> bool { true }
    spec fn vh_ok(&self) -> bool { self.id > 0 && props_ok(self.props) }
    spec fn vh(&self) -> Seq<u8> { be16(self.id) + phdr(self.props) }
    spec fn pl_ok(&self) -> bool { self.subs.len() > 0 && cells_ok(self.subs) }
    spec fn pl(&self) -> Seq<u8> { cells(self.subs) }
}
spec fn sub5_rest(id: u16, props: Seq<VProp>, subs: Option<Seq<VSub5>>) -> Option<VSubscribe5> {
    match subs { Some(subs) => if id > 0 && subs.len() > 0 { Some(VSubscribe5 { id, props, subs }) } else { None }, None => None }
}
spec fn dec_sub5(b: Seq<u8>, h: int, t: int) -> Option<VSubscribe5> {
    if b[0] / 16 != 8 || b[0] % 16 != 2 || t < h + 2 { None }
    else { match phdr_at(b, h + 2, t) { Some((props, e)) => sub5_rest(un16(b[h], b[h + 1]), props, cells_at::<VSub5>(b, e, t)), None => None } }
}
#[verifier::spinoff_prover]
proof fn sub5_here(v: VSubscribe5, rest: Seq<u8>)
    requires v.vh_ok(), v.pl_ok(), cells_wf(v.subs), props_wf(v.props), small(body(v).len())
    ensures dec_sub5(frame(v) + rest, hlen(v), frame(v).len() as int) == Some(v)
{
    hide(phdr_at); hide(cells_at); hide(phdr); hide(cells); hide(vbi_in);
    broadcast use first_val;
    frame_here(v, rest);
    let b = frame(v) + rest;
    let e = hlen(v) + v.vh().len();
    id_props_here(b, hlen(v), e, frame(v).len() as int, v.id, v.props);
    cells_here(b, e, v.subs);
}
#[verifier::spinoff_prover]
proof fn sub5_alone(b: Seq<u8>, h: int, t: int)
    requires 1 <= h <= t <= b.len()
    ensures dec_sub5(b.take(t), h, t) == dec_sub5(b, h, t)
{
    broadcast use {phdr_part, phdr_bound};
    assert(b.take(t) == b.subrange(0, t));
    if t >= h + 2 { if let Some((_, e)) = phdr_at(b, h + 2, t) { cells_part::<VSub5>(b, 0, t, e, t); } }
}
proof fn vsubs5_more(s: Seq<TopicSubscription>, x: TopicSubscription) ensures vsubs5(s.push(x)) == vsubs5(s).push(x.v()) { assert(vsubs5(s.push(x)) =~= vsubs5(s).push(x.v())); }
//@ include pkt.inc T=MqttSubscribe N=Subscribe5 F=src/mqtt_serde/mqttv5/subscribe.rs C=C04 D=dec_sub5(b,h,t)
//@ fn src/mqtt_serde/mqttv5/subscribe.rs MqttSubscribe::variable_header
//@ include vh.inc C=C04
//@ begin
  broadcast use cats;
//@ end
//@ fn src/mqtt_serde/mqttv5/subscribe.rs MqttSubscribe::payload
//@ include pl.inc C=C04
//@ begin
  broadcast use cats;
  let ghost fs = vsubs5(self.subscriptions@);
  proof { assert(fs.take(0) =~= seq![]); }
//@ iter 0 it
//@ loop 0
  invariant it.seq().len() == fs.len(), fs == vsubs5(self.subscriptions@), forall|i: int| 0 <= i < fs.len() ==> *#[trigger] it.seq()[i] == self.subscriptions@[i],
    cells_ok(fs.take(it.index())), bytes@ == cells(fs.take(it.index())),
//@ loop 0 begin
  proof { cells_more(fs, it.index()); assert(fs[it.index()] == subscription.v()); if cells_ok(fs) { assert(fs[it.index()].cell_ok()); } }
//@ tail
  proof { assert(fs.take(fs.len() as int) =~= fs); }
//@ end
//@ include dec.inc T=MqttSubscribe N=Subscribe5 F=src/mqtt_serde/mqttv5/subscribe.rs C=C04 Y=C09 B=phdr_part,phdr_bound
//@ before while offset
  let ghost o0 = offset as int;
  let ghost want = dec_sub5(buffer@, (hdr(buffer@)->Some_0).0, total_len as int);
  proof { so_far_start::<VSub5>(buffer@, o0, total_len as int, vsubs5(subscriptions@)); }
//@ loop 0
  invariant
    0 <= o0 <= offset <= buffer@.len(), total_len <= buffer@.len(), buffer@.len() <= isize::MAX,
    so_far::<VSub5>(buffer@, o0, offset as int, total_len as int, vsubs5(subscriptions@)),
    want == sub5_rest(packet_id, vprops(properties@), cells_at::<VSub5>(buffer@, o0, total_len as int)),
    hdr(buffer@) is Some, (hdr(buffer@)->Some_0).1 == total_len, want == dec_sub5(buffer@, (hdr(buffer@)->Some_0).0, total_len as int),
  decreases buffer@.len() - offset
//@ loop 0 begin
  let ghost s0 = subscriptions@;
  proof {
    VSub5::part(buffer@, offset as int, buffer@.len() as int, 0, buffer@.len() - offset);
    so_far_next::<VSub5>(buffer@, o0, offset as int, total_len as int, buffer@.len() as int, vsubs5(s0));
  }
//@ loop 0 end
  proof { vsubs5_more(s0, subscriptions@.last()); assert(subscriptions@ =~= s0.push(subscriptions@.last())); }
//@ after while offset
  proof { so_far_end::<VSub5>(buffer@, o0, offset as int, total_len as int, vsubs5(subscriptions@)); }
//@ end
