// ---------------------------------------------------------------- UNSUBSCRIBE
impl Wire for VUnsubscribe5 {
    spec fn ty(&self) -> u8 { 10 }
    spec fn fl(&self) -> u8 { 2 }
    spec fn sane(&self) -> bool { true }
    spec fn vh_ok(&self) -> bool { self.id > 0 && props_ok(self.props) }
    spec fn vh(&self) -> Seq<u8> { be16(self.id) + phdr(self.props) }
    spec fn pl_ok(&self) -> bool { self.filters.len() > 0 && cells_ok(self.filters) }
    spec fn pl(&self) -> Seq<u8> { cells(self.filters) }
}
spec fn unsub5_rest(id: u16, props: Seq<VProp>, filters: Option<Seq<Seq<char>>>) -> Option<VUnsubscribe5> {
    match filters { Some(filters) => if id > 0 && filters.len() > 0 { Some(VUnsubscribe5 { id, props, filters }) } else { None }, None => None }
}
spec fn dec_unsub5(b: Seq<u8>, h: int, t: int) -> Option<VUnsubscribe5> {
    if b[0] / 16 != 10 || b[0] % 16 != 2 || t < h + 2 { None }
    else {
        let id = un16(b[h], b[h + 1]);
        match phdr_at(b, h + 2, t) {
            Some((props, e)) => unsub5_rest(id, props, cells_at::<Seq<char>>(b, e, t)),
            None => None
        }
    }
}
proof fn id_props_here(b: Seq<u8>, h: int, e: int, t: int, id: u16, props: Seq<VProp>)
    requires has(b, h, be16(id) + phdr(props)), props_wf(props), small((be16(id) + phdr(props)).len()), e == h + (be16(id) + phdr(props)).len(), e <= t <= b.len()
    ensures un16(b[h], b[h + 1]) == id, phdr_at(b, h + 2, t) == Some((props, e)), h + 2 < e
{
    has_cat(b, h, be16(id), phdr(props));
    has_be16(b, h, id);
    phdr_here(b, h + 2, t, props);
}
#[verifier::spinoff_prover]
proof fn unsub5_here(v: VUnsubscribe5, rest: Seq<u8>)
    requires v.vh_ok(), v.pl_ok(), props_wf(v.props), small(body(v).len())
    ensures dec_unsub5(frame(v) + rest, hlen(v), frame(v).len() as int) == Some(v)
{
    hide(phdr_at); hide(cells_at); hide(phdr); hide(cells); hide(vbi_in);
    broadcast use first_val;
    frame_here(v, rest);
    let b = frame(v) + rest;
    let e = hlen(v) + v.vh().len();
    id_props_here(b, hlen(v), e, frame(v).len() as int, v.id, v.props);
    cells_here(b, e, v.filters);
}
#[verifier::spinoff_prover]
proof fn unsub5_alone(b: Seq<u8>, h: int, t: int)
    requires 1 <= h <= t <= b.len()
    ensures dec_unsub5(b.take(t), h, t) == dec_unsub5(b, h, t)
{
    broadcast use {phdr_part, phdr_bound};
    assert(b.take(t) == b.subrange(0, t));
    if t >= h + 2 { if let Some((_, e)) = phdr_at(b, h + 2, t) { cells_part::<Seq<char>>(b, 0, t, e, t); } }
}
proof fn vtexts_more(s: Seq<String>, x: String) ensures vtexts(s.push(x)) == vtexts(s).push(x@) { assert(vtexts(s.push(x)) =~= vtexts(s).push(x@)); }
//@ include pkt.inc T=MqttUnsubscribe N=Unsubscribe5 F=src/mqtt_serde/mqttv5/unsubscribe.rs C=C04 D=dec_unsub5(b,h,t)
//@ fn src/mqtt_serde/mqttv5/unsubscribe.rs MqttUnsubscribe::variable_header
//@ include vh.inc C=C04
//@ begin
  broadcast use cats;
//@ end
//@ fn src/mqtt_serde/mqttv5/unsubscribe.rs MqttUnsubscribe::payload
//@ include pl.inc C=C04
//@ begin
  broadcast use cats;
  let ghost fs = vtexts(self.topic_filters@);
  proof { assert(fs.take(0) =~= seq![]); }
//@ iter 0 it
//@ loop 0
  invariant it.seq().len() == fs.len(), fs == vtexts(self.topic_filters@), forall|i: int| 0 <= i < fs.len() ==> *#[trigger] it.seq()[i] == self.topic_filters@[i],
    cells_ok(fs.take(it.index())), bytes@ == cells(fs.take(it.index())),
//@ loop 0 begin
  proof { cells_more(fs, it.index()); assert(fs[it.index()] == topic_filter@); if cells_ok(fs) { assert(fs[it.index()].cell_ok()); } }
//@ tail
  proof { assert(fs.take(fs.len() as int) =~= fs); }
//@ end
//@ include dec.inc T=MqttUnsubscribe N=Unsubscribe5 F=src/mqtt_serde/mqttv5/unsubscribe.rs C=C04 Y=C09 B=phdr_part,phdr_bound,text_part,text_bound
//@ before while offset
  let ghost o0 = offset as int;
  let ghost want = dec_unsub5(buffer@, (hdr(buffer@)->Some_0).0, total_len as int);
  proof { so_far_start::<Seq<char>>(buffer@, o0, total_len as int, vtexts(topic_filters@)); }
//@ loop 0
  invariant
    0 <= o0 <= offset <= buffer@.len(), total_len <= buffer@.len(), buffer@.len() <= isize::MAX,
    so_far::<Seq<char>>(buffer@, o0, offset as int, total_len as int, vtexts(topic_filters@)),
    want == unsub5_rest(packet_id, vprops(properties@), cells_at::<Seq<char>>(buffer@, o0, total_len as int)),
    hdr(buffer@) is Some, (hdr(buffer@)->Some_0).1 == total_len, want == dec_unsub5(buffer@, (hdr(buffer@)->Some_0).0, total_len as int),
  decreases buffer@.len() - offset
//@ loop 0 begin
  broadcast use {text_part, text_bound};
  let ghost s0 = topic_filters@;
  proof { so_far_next::<Seq<char>>(buffer@, o0, offset as int, total_len as int, buffer@.len() as int, vtexts(s0)); }
//@ loop 0 end
  proof { assert(consumed >= 2); vtexts_more(s0, topic_filters@.last()); assert(topic_filters@ =~= s0.push(topic_filters@.last())); }
//@ after while offset
  proof { so_far_end::<Seq<char>>(buffer@, o0, offset as int, total_len as int, vtexts(topic_filters@)); }
//@ end
