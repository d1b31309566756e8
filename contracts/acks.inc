// ---------------------------------------------------------------- PUBACK, PUBREC, PUBREL, PUBCOMP (and the 3.1.1 UNSUBACK)
impl Wire for VAck5 {
    spec fn ty(&self) -> u8 { self.k }
    spec fn fl(&self) -> u8 { if self.k == 6 { 2 } else { 0 } }
    spec fn sane(&self) -> bool { true }
    spec fn vh_ok(&self) -> bool { props_ok(self.props) }
    spec fn vh(&self) -> Seq<u8> { be16(self.id) + if self.code == 0 && self.props.len() == 0 { seq![] } else { seq![self.code] + phdr(self.props) } }
    spec fn pl_ok(&self) -> bool { true }
    spec fn pl(&self) -> Seq<u8> { seq![] }
}
spec fn dec_ack5(k: u8, b: Seq<u8>, h: int, t: int) -> Option<VAck5> {
    if b[0] / 16 != k || (k == 6 && b[0] % 16 != 2) || t < h + 2 { None }
    else {
        let id = un16(b[h], b[h + 1]);
        if t == h + 2 { Some(VAck5 { k, id, code: 0, props: seq![] }) }
        else if t == h + 3 { Some(VAck5 { k, id, code: b[h + 2], props: seq![] }) }
        else { match phdr_at(b, h + 3, t) { Some((props, e)) => if e == t { Some(VAck5 { k, id, code: b[h + 2], props }) } else { None }, None => None } }
    }
}
//@ include plain.inc T=MqttPubAck N=PubAck5 F=src/mqtt_serde/mqttv5/puback.rs C=C04 Y=C09 D=dec_ack5(4,b,h,t) B=phdr_part,phdr_bound,vprops_none
//@ include plain.inc T=MqttPubRec N=PubRec5 F=src/mqtt_serde/mqttv5/pubrec.rs C=C04 Y=C09 D=dec_ack5(5,b,h,t) B=phdr_part,phdr_bound,vprops_none
//@ include plain.inc T=MqttPubRel N=PubRel5 F=src/mqtt_serde/mqttv5/pubrel.rs C=C04 Y=C09 D=dec_ack5(6,b,h,t) B=phdr_part,phdr_bound,vprops_none
//@ include plain.inc T=MqttPubComp N=PubComp5 F=src/mqtt_serde/mqttv5/pubcomp.rs C=C04 Y=C09 D=dec_ack5(7,b,h,t) B=phdr_part,phdr_bound,vprops_none
proof fn ack5_here(v: VAck5, rest: Seq<u8>)
    requires 4 <= v.k <= 7, v.vh_ok(), props_wf(v.props), small(body(v).len())
    ensures dec_ack5(v.k, frame(v) + rest, hlen(v), frame(v).len() as int) == Some(v)
{
    broadcast use first_val;
    frame_here(v, rest);
    let b = frame(v) + rest;
    let h = hlen(v);
    let t = frame(v).len() as int;
    has_cat(b, h, be16(v.id), if v.code == 0 && v.props.len() == 0 { seq![] } else { seq![v.code] + phdr(v.props) });
    has_be16(b, h, v.id);
    if v.code == 0 && v.props.len() == 0 { assert(v.props =~= seq![]); }
    else {
        has_cat(b, h + 2, seq![v.code], phdr(v.props));
        has_byte(b, h + 2, v.code);
        phdr_here(b, h + 3, t, v.props);
    }
}
#[verifier::spinoff_prover]
proof fn ack5_alone(k: u8, b: Seq<u8>, h: int, t: int)
    requires 1 <= h <= t <= b.len()
    ensures dec_ack5(k, b.take(t), h, t) == dec_ack5(k, b, h, t)
{ broadcast use phdr_part; assert(b.take(t) == b.subrange(0, t)); }
spec fn dec_ack3(k: u8, fl: u8, b: Seq<u8>, h: int, t: int) -> Option<VAck3> {
    if b[0] / 16 != k || b[0] % 16 != fl || t != h + 2 { None } else { Some(VAck3 { k, id: un16(b[h], b[h + 1]) }) }
}
impl Wire for VAck3 {
    spec fn ty(&self) -> u8 { self.k }
    spec fn fl(&self) -> u8 { if self.k == 6 { 2 } else { 0 } }
    spec fn sane(&self) -> bool { true }
    spec fn vh_ok(&self) -> bool { true }
    spec fn vh(&self) -> Seq<u8> { be16(self.id) }
    spec fn pl_ok(&self) -> bool { true }
    spec fn pl(&self) -> Seq<u8> { seq![] }
}
//@ include plain.inc T=MqttPubAck N=PubAck3 F=src/mqtt_serde/mqttv3/puback.rs C=C05 Y=C05 D=dec_ack3(4,0,b,h,t) B=vprops_none
//@ include plain.inc T=MqttPubRec N=PubRec3 F=src/mqtt_serde/mqttv3/pubrec.rs C=C05 Y=C05 D=dec_ack3(5,0,b,h,t) B=vprops_none
//@ include plain.inc T=MqttPubRel N=PubRel3 F=src/mqtt_serde/mqttv3/pubrel.rs C=C05 Y=C05 D=dec_ack3(6,2,b,h,t) B=vprops_none
//@ include plain.inc T=MqttPubComp N=PubComp3 F=src/mqtt_serde/mqttv3/pubcomp.rs C=C05 Y=C05 D=dec_ack3(7,0,b,h,t) B=vprops_none
//@ include plain.inc T=MqttUnsubAck N=UnsubAck3 F=src/mqtt_serde/mqttv3/unsuback.rs C=C05 Y=C05 D=dec_ack3(11,0,b,h,t) B=vprops_none
proof fn ack3_here(v: VAck3, rest: Seq<u8>)
    requires 4 <= v.k <= 11
    ensures small(body(v).len()), dec_ack3(v.k, v.fl(), frame(v) + rest, hlen(v), frame(v).len() as int) == Some(v)
{
    broadcast use first_val;
    frame_here(v, rest);
    let b = frame(v) + rest;
    let h = hlen(v);
    has_be16(b, h, v.id);
}
// ---------------------------------------------------------------- PINGREQ, PINGRESP, 3.1.1 DISCONNECT
spec fn dec_empty(k: u8, b: Seq<u8>, h: int, t: int) -> Option<VEmpty> {
    if b[0] / 16 != k || b[0] % 16 != 0 || t != h { None } else { Some(VEmpty { k }) }
}
impl Wire for VEmpty {
    spec fn ty(&self) -> u8 { self.k }
    spec fn fl(&self) -> u8 { 0 }
    spec fn sane(&self) -> bool { true }
    spec fn vh_ok(&self) -> bool { true }
    spec fn vh(&self) -> Seq<u8> { seq![] }
    spec fn pl_ok(&self) -> bool { true }
    spec fn pl(&self) -> Seq<u8> { seq![] }
}
proof fn empty_here(v: VEmpty, rest: Seq<u8>)
    requires 12 <= v.k <= 14
    ensures small(body(v).len()), dec_empty(v.k, frame(v) + rest, hlen(v), frame(v).len() as int) == Some(v)
{
    broadcast use first_val;
    frame_here(v, rest);
}
//@ include plain.inc T=MqttPingReq N=PingReq5 F=src/mqtt_serde/mqttv5/pingreq.rs C=C04 Y=C09 D=dec_empty(12,b,h,t) B=vprops_none
//@ include plain.inc T=MqttPingResp N=PingResp5 F=src/mqtt_serde/mqttv5/pingresp.rs C=C04 Y=C09 D=dec_empty(13,b,h,t) B=vprops_none
//@ include plain.inc T=MqttPingReq N=PingReq3 F=src/mqtt_serde/mqttv3/pingreq.rs C=C05 Y=C05 D=dec_empty(12,b,h,t) B=vprops_none
//@ include plain.inc T=MqttPingResp N=PingResp3 F=src/mqtt_serde/mqttv3/pingresp.rs C=C05 Y=C05 D=dec_empty(13,b,h,t) B=vprops_none
//@ include plain.inc T=MqttDisconnect N=Disconnect3 F=src/mqtt_serde/mqttv3/disconnect.rs C=C05 Y=C05 D=dec_empty(14,b,h,t) B=vprops_none
