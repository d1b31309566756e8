// ---------------------------------------------------------------- any packet
/// the encoder can take it: every field fits its place on the wire
spec fn p_ok(p: VPacket) -> bool {
    match p {
        VPacket::Connect5(v) => v.vh_ok() && v.pl_ok(),
        VPacket::ConnAck5(v) => v.vh_ok() && v.pl_ok(),
        VPacket::Publish5(v) => v.vh_ok() && v.pl_ok(),
        VPacket::PubAck5(v) => v.vh_ok() && v.pl_ok(),
        VPacket::PubRec5(v) => v.vh_ok() && v.pl_ok(),
        VPacket::PubRel5(v) => v.vh_ok() && v.pl_ok(),
        VPacket::PubComp5(v) => v.vh_ok() && v.pl_ok(),
        VPacket::Subscribe5(v) => v.vh_ok() && v.pl_ok(),
        VPacket::SubAck5(v) => v.vh_ok() && v.pl_ok(),
        VPacket::Unsubscribe5(v) => v.vh_ok() && v.pl_ok(),
        VPacket::UnsubAck5(v) => v.vh_ok() && v.pl_ok(),
        VPacket::PingReq5(v) => v.vh_ok() && v.pl_ok(),
        VPacket::PingResp5(v) => v.vh_ok() && v.pl_ok(),
        VPacket::Disconnect5(v) => v.vh_ok() && v.pl_ok(),
        VPacket::Auth(v) => v.vh_ok() && v.pl_ok(),
        VPacket::Connect3(v) => v.vh_ok() && v.pl_ok(),
        VPacket::ConnAck3(v) => v.vh_ok() && v.pl_ok(),
        VPacket::Publish3(v) => v.vh_ok() && v.pl_ok(),
        VPacket::PubAck3(v) => v.vh_ok() && v.pl_ok(),
        VPacket::PubRec3(v) => v.vh_ok() && v.pl_ok(),
        VPacket::PubRel3(v) => v.vh_ok() && v.pl_ok(),
        VPacket::PubComp3(v) => v.vh_ok() && v.pl_ok(),
        VPacket::Subscribe3(v) => v.vh_ok() && v.pl_ok(),
        VPacket::SubAck3(v) => v.vh_ok() && v.pl_ok(),
        VPacket::Unsubscribe3(v) => v.vh_ok() && v.pl_ok(),
        VPacket::UnsubAck3(v) => v.vh_ok() && v.pl_ok(),
        VPacket::PingReq3(v) => v.vh_ok() && v.pl_ok(),
        VPacket::PingResp3(v) => v.vh_ok() && v.pl_ok(),
        VPacket::Disconnect3(v) => v.vh_ok() && v.pl_ok(),
    }
}
/// it is a packet the standard knows: see the *_wf of each packet
spec fn p_wf(p: VPacket) -> bool {
    match p {
        VPacket::Connect5(v) => connect5_wf(v),
        VPacket::ConnAck5(v) => props_wf(v.props),
        VPacket::Publish5(v) => pub5_wf(v),
        VPacket::PubAck5(v) => v.k == 4 && props_wf(v.props),
        VPacket::PubRec5(v) => v.k == 5 && props_wf(v.props),
        VPacket::PubRel5(v) => v.k == 6 && props_wf(v.props),
        VPacket::PubComp5(v) => v.k == 7 && props_wf(v.props),
        VPacket::Subscribe5(v) => props_wf(v.props) && cells_wf(v.subs),
        VPacket::SubAck5(v) => v.k == 9 && props_wf(v.props),
        VPacket::Unsubscribe5(v) => props_wf(v.props),
        VPacket::UnsubAck5(v) => v.k == 11 && props_wf(v.props),
        VPacket::PingReq5(v) => v.k == 12,
        VPacket::PingResp5(v) => v.k == 13,
        VPacket::Disconnect5(v) => v.k == 14 && props_wf(v.props),
        VPacket::Auth(v) => v.k == 15 && props_wf(v.props),
        VPacket::Connect3(v) => connect3_wf(v),
        VPacket::ConnAck3(v) => true,
        VPacket::Publish3(v) => pub3_wf(v),
        VPacket::PubAck3(v) => v.k == 4,
        VPacket::PubRec3(v) => v.k == 5,
        VPacket::PubRel3(v) => v.k == 6,
        VPacket::PubComp3(v) => v.k == 7,
        VPacket::Subscribe3(v) => true,
        VPacket::SubAck3(v) => true,
        VPacket::Unsubscribe3(v) => true,
        VPacket::UnsubAck3(v) => v.k == 11,
        VPacket::PingReq3(v) => v.k == 12,
        VPacket::PingResp3(v) => v.k == 13,
        VPacket::Disconnect3(v) => v.k == 14,
    }
}
spec fn p_sane(p: VPacket) -> bool {
    match p {
        VPacket::Connect5(v) => v.sane(),
        VPacket::ConnAck5(v) => v.sane(),
        VPacket::Publish5(v) => v.sane(),
        VPacket::PubAck5(v) => v.sane(),
        VPacket::PubRec5(v) => v.sane(),
        VPacket::PubRel5(v) => v.sane(),
        VPacket::PubComp5(v) => v.sane(),
        VPacket::Subscribe5(v) => v.sane(),
        VPacket::SubAck5(v) => v.sane(),
        VPacket::Unsubscribe5(v) => v.sane(),
        VPacket::UnsubAck5(v) => v.sane(),
        VPacket::PingReq5(v) => v.sane(),
        VPacket::PingResp5(v) => v.sane(),
        VPacket::Disconnect5(v) => v.sane(),
        VPacket::Auth(v) => v.sane(),
        VPacket::Connect3(v) => v.sane(),
        VPacket::ConnAck3(v) => v.sane(),
        VPacket::Publish3(v) => v.sane(),
        VPacket::PubAck3(v) => v.sane(),
        VPacket::PubRec3(v) => v.sane(),
        VPacket::PubRel3(v) => v.sane(),
        VPacket::PubComp3(v) => v.sane(),
        VPacket::Subscribe3(v) => v.sane(),
        VPacket::SubAck3(v) => v.sane(),
        VPacket::Unsubscribe3(v) => v.sane(),
        VPacket::UnsubAck3(v) => v.sane(),
        VPacket::PingReq3(v) => v.sane(),
        VPacket::PingResp3(v) => v.sane(),
        VPacket::Disconnect3(v) => v.sane(),
    }
}
spec fn p_body(p: VPacket) -> nat {
    match p {
        VPacket::Connect5(v) => body(v).len(),
        VPacket::ConnAck5(v) => body(v).len(),
        VPacket::Publish5(v) => body(v).len(),
        VPacket::PubAck5(v) => body(v).len(),
        VPacket::PubRec5(v) => body(v).len(),
        VPacket::PubRel5(v) => body(v).len(),
        VPacket::PubComp5(v) => body(v).len(),
        VPacket::Subscribe5(v) => body(v).len(),
        VPacket::SubAck5(v) => body(v).len(),
        VPacket::Unsubscribe5(v) => body(v).len(),
        VPacket::UnsubAck5(v) => body(v).len(),
        VPacket::PingReq5(v) => body(v).len(),
        VPacket::PingResp5(v) => body(v).len(),
        VPacket::Disconnect5(v) => body(v).len(),
        VPacket::Auth(v) => body(v).len(),
        VPacket::Connect3(v) => body(v).len(),
        VPacket::ConnAck3(v) => body(v).len(),
        VPacket::Publish3(v) => body(v).len(),
        VPacket::PubAck3(v) => body(v).len(),
        VPacket::PubRec3(v) => body(v).len(),
        VPacket::PubRel3(v) => body(v).len(),
        VPacket::PubComp3(v) => body(v).len(),
        VPacket::Subscribe3(v) => body(v).len(),
        VPacket::SubAck3(v) => body(v).len(),
        VPacket::Unsubscribe3(v) => body(v).len(),
        VPacket::UnsubAck3(v) => body(v).len(),
        VPacket::PingReq3(v) => body(v).len(),
        VPacket::PingResp3(v) => body(v).len(),
        VPacket::Disconnect3(v) => body(v).len(),
    }
}
spec fn p_frame(p: VPacket) -> Seq<u8> {
    match p {
        VPacket::Connect5(v) => frame(v),
        VPacket::ConnAck5(v) => frame(v),
        VPacket::Publish5(v) => frame(v),
        VPacket::PubAck5(v) => frame(v),
        VPacket::PubRec5(v) => frame(v),
        VPacket::PubRel5(v) => frame(v),
        VPacket::PubComp5(v) => frame(v),
        VPacket::Subscribe5(v) => frame(v),
        VPacket::SubAck5(v) => frame(v),
        VPacket::Unsubscribe5(v) => frame(v),
        VPacket::UnsubAck5(v) => frame(v),
        VPacket::PingReq5(v) => frame(v),
        VPacket::PingResp5(v) => frame(v),
        VPacket::Disconnect5(v) => frame(v),
        VPacket::Auth(v) => frame(v),
        VPacket::Connect3(v) => frame(v),
        VPacket::ConnAck3(v) => frame(v),
        VPacket::Publish3(v) => frame(v),
        VPacket::PubAck3(v) => frame(v),
        VPacket::PubRec3(v) => frame(v),
        VPacket::PubRel3(v) => frame(v),
        VPacket::PubComp3(v) => frame(v),
        VPacket::Subscribe3(v) => frame(v),
        VPacket::SubAck3(v) => frame(v),
        VPacket::Unsubscribe3(v) => frame(v),
        VPacket::UnsubAck3(v) => frame(v),
        VPacket::PingReq3(v) => frame(v),
        VPacket::PingResp3(v) => frame(v),
        VPacket::Disconnect3(v) => frame(v),
    }
}
spec fn p_first(p: VPacket) -> u8 {
    match p {
        VPacket::Connect5(v) => first(v.ty(), v.fl()),
        VPacket::ConnAck5(v) => first(v.ty(), v.fl()),
        VPacket::Publish5(v) => first(v.ty(), v.fl()),
        VPacket::PubAck5(v) => first(v.ty(), v.fl()),
        VPacket::PubRec5(v) => first(v.ty(), v.fl()),
        VPacket::PubRel5(v) => first(v.ty(), v.fl()),
        VPacket::PubComp5(v) => first(v.ty(), v.fl()),
        VPacket::Subscribe5(v) => first(v.ty(), v.fl()),
        VPacket::SubAck5(v) => first(v.ty(), v.fl()),
        VPacket::Unsubscribe5(v) => first(v.ty(), v.fl()),
        VPacket::UnsubAck5(v) => first(v.ty(), v.fl()),
        VPacket::PingReq5(v) => first(v.ty(), v.fl()),
        VPacket::PingResp5(v) => first(v.ty(), v.fl()),
        VPacket::Disconnect5(v) => first(v.ty(), v.fl()),
        VPacket::Auth(v) => first(v.ty(), v.fl()),
        VPacket::Connect3(v) => first(v.ty(), v.fl()),
        VPacket::ConnAck3(v) => first(v.ty(), v.fl()),
        VPacket::Publish3(v) => first(v.ty(), v.fl()),
        VPacket::PubAck3(v) => first(v.ty(), v.fl()),
        VPacket::PubRec3(v) => first(v.ty(), v.fl()),
        VPacket::PubRel3(v) => first(v.ty(), v.fl()),
        VPacket::PubComp3(v) => first(v.ty(), v.fl()),
        VPacket::Subscribe3(v) => first(v.ty(), v.fl()),
        VPacket::SubAck3(v) => first(v.ty(), v.fl()),
        VPacket::Unsubscribe3(v) => first(v.ty(), v.fl()),
        VPacket::UnsubAck3(v) => first(v.ty(), v.fl()),
        VPacket::PingReq3(v) => first(v.ty(), v.fl()),
        VPacket::PingResp3(v) => first(v.ty(), v.fl()),
        VPacket::Disconnect3(v) => first(v.ty(), v.fl()),
    }
}
spec fn p_is5(p: VPacket) -> bool {
    match p {
        VPacket::Connect5(v) => true,
        VPacket::ConnAck5(v) => true,
        VPacket::Publish5(v) => true,
        VPacket::PubAck5(v) => true,
        VPacket::PubRec5(v) => true,
        VPacket::PubRel5(v) => true,
        VPacket::PubComp5(v) => true,
        VPacket::Subscribe5(v) => true,
        VPacket::SubAck5(v) => true,
        VPacket::Unsubscribe5(v) => true,
        VPacket::UnsubAck5(v) => true,
        VPacket::PingReq5(v) => true,
        VPacket::PingResp5(v) => true,
        VPacket::Disconnect5(v) => true,
        VPacket::Auth(v) => true,
        VPacket::Connect3(v) => false,
        VPacket::ConnAck3(v) => false,
        VPacket::Publish3(v) => false,
        VPacket::PubAck3(v) => false,
        VPacket::PubRec3(v) => false,
        VPacket::PubRel3(v) => false,
        VPacket::PubComp3(v) => false,
        VPacket::Subscribe3(v) => false,
        VPacket::SubAck3(v) => false,
        VPacket::Unsubscribe3(v) => false,
        VPacket::UnsubAck3(v) => false,
        VPacket::PingReq3(v) => false,
        VPacket::PingResp3(v) => false,
        VPacket::Disconnect3(v) => false,
    }
}
spec fn dec5(b: Seq<u8>, h: int, t: int) -> Option<VPacket> {
    match b[0] / 16 {
        1u8 => d_Connect5(b, h, t),
        2u8 => d_ConnAck5(b, h, t),
        3u8 => d_Publish5(b, h, t),
        4u8 => d_PubAck5(b, h, t),
        5u8 => d_PubRec5(b, h, t),
        6u8 => d_PubRel5(b, h, t),
        7u8 => d_PubComp5(b, h, t),
        8u8 => d_Subscribe5(b, h, t),
        9u8 => d_SubAck5(b, h, t),
        10u8 => d_Unsubscribe5(b, h, t),
        11u8 => d_UnsubAck5(b, h, t),
        12u8 => d_PingReq5(b, h, t),
        13u8 => d_PingResp5(b, h, t),
        14u8 => d_Disconnect5(b, h, t),
        15u8 => d_Auth(b, h, t),
        _ => None,
    }
}
spec fn dec3(b: Seq<u8>, h: int, t: int) -> Option<VPacket> {
    match b[0] / 16 {
        1u8 => d_Connect3(b, h, t),
        2u8 => d_ConnAck3(b, h, t),
        3u8 => d_Publish3(b, h, t),
        4u8 => d_PubAck3(b, h, t),
        5u8 => d_PubRec3(b, h, t),
        6u8 => d_PubRel3(b, h, t),
        7u8 => d_PubComp3(b, h, t),
        8u8 => d_Subscribe3(b, h, t),
        9u8 => d_SubAck3(b, h, t),
        10u8 => d_Unsubscribe3(b, h, t),
        11u8 => d_UnsubAck3(b, h, t),
        12u8 => d_PingReq3(b, h, t),
        13u8 => d_PingResp3(b, h, t),
        14u8 => d_Disconnect3(b, h, t),
        _ => None,
    }
}
spec fn dec(ver: u8, b: Seq<u8>, h: int, t: int) -> Option<VPacket> { if ver == 3 || ver == 4 { dec3(b, h, t) } else if ver == 5 { dec5(b, h, t) } else { None } }
/// what the first frame of `b` is
spec fn first_of(ver: u8, b: Seq<u8>) -> Option<VPacket> { match hdr(b) { Some((h, t)) => if t <= b.len() { dec(ver, b, h, t) } else { None }, None => None } }
//@ fn src/mqtt_serde/control_packet.rs MqttPacket::to_bytes
//@ own
//@ for C04 C05 C11
//@ ret r
//@ spec
  ensures r is Ok <==> p_ok(vpacket(*self)), // [C04 C05 C11]
    r matches Ok(b) ==> (p_sane(vpacket(*self)) && small(p_body(vpacket(*self))) ==> b@ == p_frame(vpacket(*self))) // [C04 C05]
//@ begin
  hide(frame); hide(body);
//@ end
//@ fn src/mqtt_serde/control_packet.rs MqttPacket::set_dup
//@ for C16
//@ end
//@ fn src/mqtt_serde/control_packet.rs MqttPacket::from_bytes_v5
//@ for C04 C09 C06
//@ ret r
//@ spec
  ensures outcome(buffer@, r, match hdr(buffer@) { Some((h, t)) => if t <= buffer@.len() { dec5(buffer@, h, t) } else { None }, None => None }), // [C04 C09]
    r is Err ==> (hdr(buffer@) matches Some((h, t)) ==> (t > buffer@.len() ==> forall|w: Seq<u8>| w.len() > 0 && w[0] == buffer@[0] ==> (#[trigger] dec5(w, h, t)) is None)) // [C07]
//@ begin
  proof { axiom_slice_len(buffer); }
//@ end
//@ fn src/mqtt_serde/control_packet.rs MqttPacket::from_bytes_v3
//@ for C05 C06
//@ ret r
//@ spec
  ensures outcome(buffer@, r, match hdr(buffer@) { Some((h, t)) => if t <= buffer@.len() { dec3(buffer@, h, t) } else { None }, None => None }), // [C05]
    r is Err ==> (hdr(buffer@) matches Some((h, t)) ==> (t > buffer@.len() ==> forall|w: Seq<u8>| w.len() > 0 && w[0] == buffer@[0] ==> (#[trigger] dec3(w, h, t)) is None)) // [C07]
//@ begin
  proof { axiom_slice_len(buffer); }
//@ end
//@ fn src/mqtt_serde/control_packet.rs MqttPacket::from_bytes_with_version
//@ for C04 C05 C06
//@ ret r
//@ spec
  ensures outcome(buffer@, r, first_of(mqtt_version, buffer@)), // [C04 C05]
    r is Err ==> (hdr(buffer@) matches Some((h, t)) ==> (t > buffer@.len() ==> forall|w: Seq<u8>| w.len() > 0 && w[0] == buffer@[0] ==> (#[trigger] dec(mqtt_version, w, h, t)) is None)) // [C07]
//@ end
// ---- the theorems
/// C04 and C05: in front of anything, an encoded packet is read back, and its length with it
#[verifier::spinoff_prover]
proof fn p_here(p: VPacket, rest: Seq<u8>)
    requires p_ok(p), p_wf(p), small(p_body(p))
    ensures ({ let b = p_frame(p) + rest; let t = p_frame(p).len() as int; hdr(b) matches Some((h, e)) && e == t && t == h + p_body(p) && t <= b.len() && b[0] == p_first(p)
        && (if p_is5(p) { dec5(b, h, t) == Some(p) } else { dec3(b, h, t) == Some(p) }) })
{
    hide(frame); hide(body);
    broadcast use first_val;
    match p {
        VPacket::Connect5(v) => { frame_here(v, rest); connect5_here(v,rest); }
        VPacket::ConnAck5(v) => { frame_here(v, rest); connack5_here(v,rest); }
        VPacket::Publish5(v) => { frame_here(v, rest); pub5_here(v,rest); }
        VPacket::PubAck5(v) => { frame_here(v, rest); ack5_here(v,rest); }
        VPacket::PubRec5(v) => { frame_here(v, rest); ack5_here(v,rest); }
        VPacket::PubRel5(v) => { frame_here(v, rest); ack5_here(v,rest); }
        VPacket::PubComp5(v) => { frame_here(v, rest); ack5_here(v,rest); }
        VPacket::Subscribe5(v) => { frame_here(v, rest); sub5_here(v,rest); }
        VPacket::SubAck5(v) => { frame_here(v, rest); codes5_here(v,rest); }
        VPacket::Unsubscribe5(v) => { frame_here(v, rest); unsub5_here(v,rest); }
        VPacket::UnsubAck5(v) => { frame_here(v, rest); codes5_here(v,rest); }
        VPacket::PingReq5(v) => { frame_here(v, rest); empty_here(v,rest); }
        VPacket::PingResp5(v) => { frame_here(v, rest); empty_here(v,rest); }
        VPacket::Disconnect5(v) => { frame_here(v, rest); reason5_here(v,rest); }
        VPacket::Auth(v) => { frame_here(v, rest); reason5_here(v,rest); }
        VPacket::Connect3(v) => { frame_here(v, rest); connect3_here(v,rest); }
        VPacket::ConnAck3(v) => { frame_here(v, rest); connack3_here(v,rest); }
        VPacket::Publish3(v) => { frame_here(v, rest); pub3_here(v,rest); }
        VPacket::PubAck3(v) => { frame_here(v, rest); ack3_here(v,rest); }
        VPacket::PubRec3(v) => { frame_here(v, rest); ack3_here(v,rest); }
        VPacket::PubRel3(v) => { frame_here(v, rest); ack3_here(v,rest); }
        VPacket::PubComp3(v) => { frame_here(v, rest); ack3_here(v,rest); }
        VPacket::Subscribe3(v) => { frame_here(v, rest); sub3_here(v,rest); }
        VPacket::SubAck3(v) => { frame_here(v, rest); suback3_here(v,rest); }
        VPacket::Unsubscribe3(v) => { frame_here(v, rest); unsub3_here(v,rest); }
        VPacket::UnsubAck3(v) => { frame_here(v, rest); ack3_here(v,rest); }
        VPacket::PingReq3(v) => { frame_here(v, rest); empty_here(v,rest); }
        VPacket::PingResp3(v) => { frame_here(v, rest); empty_here(v,rest); }
        VPacket::Disconnect3(v) => { frame_here(v, rest); empty_here(v,rest); }
    }
}
#[verifier::spinoff_prover]
proof fn c04_roundtrip(p: MqttPacket, rest: Seq<u8>, b: Seq<u8>, r: Result<ParseOk, ParseError>)
    requires
        p_ok(vpacket(p)), p_wf(vpacket(p)), small(p_body(vpacket(p))), p_is5(vpacket(p)),
        b == p_frame(vpacket(p)) + rest,
        outcome(b, r, first_of(5, b)), // what from_bytes_with_version ensures
    ensures
        p_sane(vpacket(p)), // so to_bytes(p) is Ok(p_frame(vpacket(p)))
        r matches Ok(ParseOk::Packet(q, n)) && vpacket(q) == vpacket(p) && n == p_frame(vpacket(p)).len(),
{ p_here(vpacket(p), rest); }
#[verifier::spinoff_prover]
proof fn c05_roundtrip(p: MqttPacket, rest: Seq<u8>, b: Seq<u8>, r: Result<ParseOk, ParseError>, ver: u8)
    requires
        p_ok(vpacket(p)), p_wf(vpacket(p)), small(p_body(vpacket(p))), !p_is5(vpacket(p)), ver == 3 || ver == 4,
        b == p_frame(vpacket(p)) + rest,
        outcome(b, r, first_of(ver, b)),
    ensures
        p_sane(vpacket(p)),
        r matches Ok(ParseOk::Packet(q, n)) && vpacket(q) == vpacket(p) && n == p_frame(vpacket(p)).len(),
{ p_here(vpacket(p), rest); }
/// C06: the packet is that of the frame alone
#[verifier::spinoff_prover]
proof fn dec_alone(ver: u8, b: Seq<u8>, h: int, t: int)
    requires 1 <= h <= t <= b.len()
    ensures dec(ver, b.take(t), h, t) == dec(ver, b, h, t)
{
    if (ver == 5) == true && b[0] / 16 == 1 { connect5_alone(b,h,t); }
    if (ver == 5) == true && b[0] / 16 == 2 { connack5_alone(b,h,t); }
    if (ver == 5) == true && b[0] / 16 == 3 { pub5_alone(b,h,t); }
    if (ver == 5) == true && b[0] / 16 == 4 { ack5_alone(4,b,h,t); }
    if (ver == 5) == true && b[0] / 16 == 5 { ack5_alone(5,b,h,t); }
    if (ver == 5) == true && b[0] / 16 == 6 { ack5_alone(6,b,h,t); }
    if (ver == 5) == true && b[0] / 16 == 7 { ack5_alone(7,b,h,t); }
    if (ver == 5) == true && b[0] / 16 == 8 { sub5_alone(b,h,t); }
    if (ver == 5) == true && b[0] / 16 == 9 { codes5_alone(9,b,h,t); }
    if (ver == 5) == true && b[0] / 16 == 10 { unsub5_alone(b,h,t); }
    if (ver == 5) == true && b[0] / 16 == 11 { codes5_alone(11,b,h,t); }
    if (ver == 5) == true && b[0] / 16 == 14 { reason5_alone(14,b,h,t); }
    if (ver == 5) == true && b[0] / 16 == 15 { reason5_alone(15,b,h,t); }
    if (ver == 5) == false && b[0] / 16 == 1 { connect3_alone(b,h,t); }
    if (ver == 5) == false && b[0] / 16 == 3 { pub3_alone(b,h,t); }
    if (ver == 5) == false && b[0] / 16 == 8 { sub3_alone(b,h,t); }
    if (ver == 5) == false && b[0] / 16 == 9 { suback3_alone(b,h,t); }
    if (ver == 5) == false && b[0] / 16 == 10 { unsub3_alone(b,h,t); }
}
#[verifier::spinoff_prover]
proof fn c06_alone(ver: u8, b: Seq<u8>, more: Seq<u8>, r: Result<ParseOk, ParseError>, q: Result<ParseOk, ParseError>)
    requires
        outcome(b, r, first_of(ver, b)), // decoding the buffer
        match r { Ok(ParseOk::Packet(_, n)) => outcome(b.take(n as int) + more, q, first_of(ver, b.take(n as int) + more)), _ => false }, // decoding the frame with anything behind it
    ensures
        match (r, q) { (Ok(ParseOk::Packet(p, n)), Ok(ParseOk::Packet(p2, n2))) => n == n2 && vpacket(p) == vpacket(p2) && n == (hdr(b)->Some_0).1 && n <= b.len(), _ => false },
{
    let (h, t) = hdr(b)->Some_0;
    let c = b.take(t);
    let d = c + more;
    hdr_alone(b);
    dec_alone(ver, b, h, t);
    hdr_more(c, more);
    assert(d.take(t) =~= c);
    dec_alone(ver, d, h, t);
}
