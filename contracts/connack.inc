// ---------------------------------------------------------------- CONNACK
spec fn flag(x: bool) -> u8 { if x { 1 } else { 0 } }
impl Wire for VConnAck5 {
    spec fn ty(&self) -> u8 { 2 }
    spec fn fl(&self) -> u8 { 0 }
    spec fn sane(&self) -> bool { true }
    spec fn vh_ok(&self) -> bool { props_ok(self.props) }
    spec fn vh(&self) -> Seq<u8> { seq![flag(self.sp)] + (seq![self.code] + phdr(self.props)) }
    spec fn pl_ok(&self) -> bool { true }
    spec fn pl(&self) -> Seq<u8> { seq![] }
}
spec fn dec_connack5(b: Seq<u8>, h: int, t: int) -> Option<VConnAck5> {
    if b[0] / 16 != 2 || t < h + 2 || b[h] >= 2 { None }
    else { match phdr_at(b, h + 2, t) { Some((props, e)) => if e == t { Some(VConnAck5 { sp: b[h] == 1, code: b[h + 1], props }) } else { None }, None => None } }
}
proof fn connack5_here(v: VConnAck5, rest: Seq<u8>)
    requires v.vh_ok(), props_wf(v.props), small(body(v).len())
    ensures dec_connack5(frame(v) + rest, hlen(v), frame(v).len() as int) == Some(v)
{
    broadcast use first_val;
    frame_here(v, rest);
    let b = frame(v) + rest;
    let h = hlen(v);
    has_cat(b, h, seq![flag(v.sp)], seq![v.code] + phdr(v.props));
    has_byte(b, h, flag(v.sp));
    has_cat(b, h + 1, seq![v.code], phdr(v.props));
    has_byte(b, h + 1, v.code);
    phdr_here(b, h + 2, frame(v).len() as int, v.props);
}
#[verifier::spinoff_prover]
proof fn connack5_alone(b: Seq<u8>, h: int, t: int)
    requires 1 <= h <= t <= b.len()
    ensures dec_connack5(b.take(t), h, t) == dec_connack5(b, h, t)
{ broadcast use phdr_part; assert(b.take(t) == b.subrange(0, t)); }
//@ include pkt.inc T=MqttConnAck N=ConnAck5 F=src/mqtt_serde/mqttv5/connack.rs C=C04 D=dec_connack5(b,h,t)
//@ fn src/mqtt_serde/mqttv5/connack.rs MqttConnAck::variable_header
//@ include vh.inc C=C04
//@ begin
  broadcast use {cats, vprops_none};
//@ end
//@ fn src/mqtt_serde/mqttv5/connack.rs MqttConnAck::payload
//@ include pl.inc C=C04
//@ end
//@ fn src/mqtt_serde/mqttv5/connack.rs MqttConnAck::from_bytes
//@ for C04 C06
//@ ret r
//@ spec
  ensures outcome(bytes@, r, match hdr(bytes@) { Some((h, t)) => if t <= bytes@.len() { d_ConnAck5(bytes@, h, t) } else { None }, None => None }),
    r is Err ==> (hdr(bytes@) matches Some((h, t)) ==> (t > bytes@.len() ==> forall|w: Seq<u8>| w.len() > 0 && w[0] == bytes@[0] ==> (#[trigger] d_ConnAck5(w, h, t)) is None)) // [C07]
//@ end
//@ fn src/mqtt_serde/mqttv5/connack.rs parse_connack
//@ own
//@ for C04 C06
//@ ret r
//@ spec
  ensures outcome(buffer@, r, match hdr(buffer@) { Some((h, t)) => if t <= buffer@.len() { d_ConnAck5(buffer@, h, t) } else { None }, None => None }),
    r is Err ==> (hdr(buffer@) matches Some((h, t)) ==> (t > buffer@.len() ==> forall|w: Seq<u8>| w.len() > 0 && w[0] == buffer@[0] ==> (#[trigger] d_ConnAck5(w, h, t)) is None)) // [C07]
//@ begin
  hide(phdr_at); hide(vbi_in);
  broadcast use {bits, vbi_part, vbi_bound, phdr_part, phdr_bound, phdr_less, vprops_none};
  proof { axiom_slice_len(buffer); if let Some((h, t)) = hdr(buffer@) { assert(upto(buffer@, t)); } }
//@ end
impl Wire for VConnAck3 {
    spec fn ty(&self) -> u8 { 2 }
    spec fn fl(&self) -> u8 { 0 }
    spec fn sane(&self) -> bool { true }
    spec fn vh_ok(&self) -> bool { self.code <= 5 }
    spec fn vh(&self) -> Seq<u8> { seq![flag(self.sp), self.code] }
    spec fn pl_ok(&self) -> bool { true }
    spec fn pl(&self) -> Seq<u8> { seq![] }
}
spec fn dec_connack3(b: Seq<u8>, h: int, t: int) -> Option<VConnAck3> {
    if b[0] / 16 != 2 || b[0] % 16 != 0 || t != h + 2 || b[h] >= 2 || b[h + 1] > 5 { None } else { Some(VConnAck3 { sp: b[h] == 1, code: b[h + 1] }) }
}
proof fn connack3_here(v: VConnAck3, rest: Seq<u8>)
    requires v.vh_ok()
    ensures small(body(v).len()), dec_connack3(frame(v) + rest, hlen(v), frame(v).len() as int) == Some(v)
{
    broadcast use first_val;
    frame_here(v, rest);
    let b = frame(v) + rest;
    let h = hlen(v);
    assert(b.subrange(h, h + 2)[0] == flag(v.sp) && b.subrange(h, h + 2)[1] == v.code);
}
//@ include plain.inc T=MqttConnAck N=ConnAck3 F=src/mqtt_serde/mqttv3/connack.rs C=C05 Y=C05 D=dec_connack3(b,h,t) B=vprops_none
// ---------------------------------------------------------------- MQTT 5 DISCONNECT, AUTH
impl Wire for VReason5 {
    spec fn ty(&self) -> u8 { self.k }
    spec fn fl(&self) -> u8 { 0 }
    spec fn sane(&self) -> bool { true }
    spec fn vh_ok(&self) -> bool { props_ok(self.props) }
    spec fn vh(&self) -> Seq<u8> { if self.k == 14 && self.code == 0 && self.props.len() == 0 { seq![] } else { seq![self.code] + phdr(self.props) } }
    spec fn pl_ok(&self) -> bool { true }
    spec fn pl(&self) -> Seq<u8> { seq![] }
}
spec fn dec_reason5(k: u8, b: Seq<u8>, h: int, t: int) -> Option<VReason5> {
    if b[0] / 16 != k || b[0] % 16 != 0 { None }
    else if t == h { if k == 14 { Some(VReason5 { k, code: 0, props: seq![] }) } else { None } }
    else if t == h + 1 && k == 14 { Some(VReason5 { k, code: b[h], props: seq![] }) }
    else { match phdr_at(b, h + 1, t) { Some((props, e)) => if e == t { Some(VReason5 { k, code: b[h], props }) } else { None }, None => None } }
}
proof fn reason5_here(v: VReason5, rest: Seq<u8>)
    requires 14 <= v.k <= 15, v.vh_ok(), props_wf(v.props), small(body(v).len())
    ensures dec_reason5(v.k, frame(v) + rest, hlen(v), frame(v).len() as int) == Some(v)
{
    broadcast use first_val;
    frame_here(v, rest);
    let b = frame(v) + rest;
    let h = hlen(v);
    if v.k == 14 && v.code == 0 && v.props.len() == 0 { assert(v.props =~= seq![]); }
    else {
        has_cat(b, h, seq![v.code], phdr(v.props));
        has_byte(b, h, v.code);
        phdr_here(b, h + 1, frame(v).len() as int, v.props);
    }
}
#[verifier::spinoff_prover]
proof fn reason5_alone(k: u8, b: Seq<u8>, h: int, t: int)
    requires 1 <= h <= t <= b.len()
    ensures dec_reason5(k, b.take(t), h, t) == dec_reason5(k, b, h, t)
{ broadcast use phdr_part; assert(b.take(t) == b.subrange(0, t)); }
//@ include plain.inc T=MqttDisconnect N=Disconnect5 F=src/mqtt_serde/mqttv5/disconnect.rs C=C04 Y=C09 D=dec_reason5(14,b,h,t) B=phdr_part,phdr_bound,vprops_none,cats
//@ include plain.inc T=MqttAuth N=Auth F=src/mqtt_serde/mqttv5/auth.rs C=C04 Y=C09 D=dec_reason5(15,b,h,t) B=phdr_part,phdr_bound,vprops_none
// ---------------------------------------------------------------- SUBACK, UNSUBACK
impl Wire for VCodes5 {
    spec fn ty(&self) -> u8 { self.k }
    spec fn fl(&self) -> u8 { 0 }
    spec fn sane(&self) -> bool { true }
    spec fn vh_ok(&self) -> bool { self.id > 0 && props_ok(self.props) }
    spec fn vh(&self) -> Seq<u8> { be16(self.id) + phdr(self.props) }
    spec fn pl_ok(&self) -> bool { self.codes.len() > 0 }
    spec fn pl(&self) -> Seq<u8> { self.codes }
}
spec fn dec_codes5(k: u8, b: Seq<u8>, h: int, t: int) -> Option<VCodes5> {
    if b[0] / 16 != k || t < h + 2 { None }
    else {
        let id = un16(b[h], b[h + 1]);
        match phdr_at(b, h + 2, t) { Some((props, e)) => if id > 0 && h + 2 < e < t { Some(VCodes5 { k, id, props, codes: b.subrange(e, t) }) } else { None }, None => None }
    }
}
proof fn codes5_parts(v: VCodes5, b: Seq<u8>, h: int, e: int, t: int)
    requires has(b, h, be16(v.id) + phdr(v.props)), props_wf(v.props), small(props_bytes(v.props).len()), e == h + (be16(v.id) + phdr(v.props)).len(), e <= t <= b.len()
    ensures un16(b[h], b[h + 1]) == v.id, phdr_at(b, h + 2, t) == Some((v.props, e)), h + 2 < e
{
    has_cat(b, h, be16(v.id), phdr(v.props));
    has_be16(b, h, v.id);
    phdr_here(b, h + 2, t, v.props);
}
#[verifier::spinoff_prover]
proof fn codes5_here(v: VCodes5, rest: Seq<u8>)
    requires v.k == 9 || v.k == 11, v.vh_ok(), v.pl_ok(), props_wf(v.props), small(body(v).len())
    ensures dec_codes5(v.k, frame(v) + rest, hlen(v), frame(v).len() as int) == Some(v)
{
    broadcast use first_val;
    frame_here(v, rest);
    let b = frame(v) + rest;
    let h = hlen(v);
    let t = frame(v).len() as int;
    let e = h + v.vh().len();
    assert(b.subrange(e, t) == v.codes);
    assert(has(b, h, be16(v.id) + phdr(v.props)));
    codes5_parts(v, b, h, e, t);
}
#[verifier::spinoff_prover]
proof fn codes5_alone(k: u8, b: Seq<u8>, h: int, t: int)
    requires 1 <= h <= t <= b.len()
    ensures dec_codes5(k, b.take(t), h, t) == dec_codes5(k, b, h, t)
{
    broadcast use {phdr_part, phdr_bound};
    assert(b.take(t) == b.subrange(0, t));
    if t >= h + 2 { if let Some((_, e)) = phdr_at(b, h + 2, t) { assert(b.take(t).subrange(e, t) =~= b.subrange(e, t)); } }
}
//@ include plain.inc T=MqttSubAck N=SubAck5 F=src/mqtt_serde/mqttv5/suback.rs C=C04 Y=C09 D=dec_codes5(9,b,h,t) B=phdr_part,phdr_bound
//@ include plain.inc T=MqttUnsubAck N=UnsubAck5 F=src/mqtt_serde/mqttv5/unsuback.rs C=C04 Y=C09 D=dec_codes5(11,b,h,t) B=phdr_part,phdr_bound
