// ---------------------------------------------------------------- C08: the parse levels
//@ item src/mqtt_serde/parser/leveled.rs TypeOnlyPacket
//@ item src/mqtt_serde/parser/leveled.rs RawBodyPacket Bytes=>Vec<u8>
//@ item src/mqtt_serde/parser/leveled.rs VariableHeader
//@ item src/mqtt_serde/parser/leveled.rs HeadersParsedPacket Bytes=>Vec<u8>
//@ item src/mqtt_serde/parser/leveled.rs ParsedPacket
//@ item src/mqtt_serde/parser/leveled.rs LeveledParseOk
//@ item src/mqtt_serde/parser/leveled.rs VhdrV5Kind
// ---- bytes::Bytes as a vector of bytes
trait VxSlice { fn vx_slice(&self, r: std::ops::Range<usize>) -> (x: Vec<u8>) requires r.start <= r.end <= self.bytes().len() ensures x@ == self.bytes().subrange(r.start as int, r.end as int); spec fn bytes(&self) -> Seq<u8>; }
impl VxSlice for Vec<u8> {
    spec fn bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_slice(&self, r: std::ops::Range<usize>) -> (x: Vec<u8>) { unimplemented!() }
}
trait VxSplitTo { spec fn whole(&self) -> Seq<u8>; fn vx_split_to(&mut self, n: usize) -> (r: Vec<u8>) requires n <= old(self).whole().len() ensures r@ == old(self).whole().take(n as int), final(self).whole() == old(self).whole().skip(n as int); fn vx_freeze(self) -> (r: Vec<u8>) where Self: Sized ensures r@ == self.whole(); }
impl VxSplitTo for Vec<u8> {
    spec fn whole(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_split_to(&mut self, n: usize) -> (r: Vec<u8>) { unimplemented!() }
    fn vx_freeze(self) -> (r: Vec<u8>) { self }
}
/// what the header level reports of a packet, against the packet
spec fn same_hdr(x: VariableHeader, p: VPacket) -> bool {
    match (x, p) {
        (VariableHeader::ConnectV5 { protocol_name, protocol_version, clean_start, keep_alive, connect_flags, properties }, VPacket::Connect5(v)) =>
            protocol_name@ == v.name && protocol_version == v.version && clean_start == v.clean && keep_alive == v.keep && vprops(properties@) == v.props
            && bit(connect_flags, 2) == v.clean && bit(connect_flags, 4) == (v.will is Some) && bit(connect_flags, 128) == (v.user is Some) && bit(connect_flags, 64) == (v.pass is Some)
            && (v.will matches Some(w) ==> w.qos == (connect_flags / 8) % 4 && w.retain == bit(connect_flags, 32)),
        (VariableHeader::ConnAckV5 { session_present, reason_code, properties }, VPacket::ConnAck5(v)) => session_present == v.sp && reason_code == v.code && v.props == match properties { Some(p) => vprops(p@), None => seq![] },
        (VariableHeader::PublishV5 { topic_name, qos, dup, retain, packet_id, properties }, VPacket::Publish5(v)) => topic_name@ == v.topic && qos == v.qos && dup == v.dup && retain == v.retain && packet_id == v.id && vprops(properties@) == v.props,
        (VariableHeader::PubAckV5 { packet_id, reason_code, properties }, VPacket::PubAck5(v)) => packet_id == v.id && reason_code == v.code && vprops(properties@) == v.props,
        (VariableHeader::PubRecV5 { packet_id, reason_code, properties }, VPacket::PubRec5(v)) => packet_id == v.id && reason_code == v.code && vprops(properties@) == v.props,
        (VariableHeader::PubRelV5 { packet_id, reason_code, properties }, VPacket::PubRel5(v)) => packet_id == v.id && reason_code == v.code && vprops(properties@) == v.props,
        (VariableHeader::PubCompV5 { packet_id, reason_code, properties }, VPacket::PubComp5(v)) => packet_id == v.id && reason_code == v.code && vprops(properties@) == v.props,
        (VariableHeader::SubscribeV5 { packet_id, properties }, VPacket::Subscribe5(v)) => packet_id == v.id && vprops(properties@) == v.props,
        (VariableHeader::SubAckV5 { packet_id, properties }, VPacket::SubAck5(v)) => packet_id == v.id && vprops(properties@) == v.props,
        (VariableHeader::UnsubscribeV5 { packet_id, properties }, VPacket::Unsubscribe5(v)) => packet_id == v.id && vprops(properties@) == v.props,
        (VariableHeader::UnsubAckV5 { packet_id, properties }, VPacket::UnsubAck5(v)) => packet_id == v.id && vprops(properties@) == v.props,
        (VariableHeader::DisconnectV5 { reason_code, properties }, VPacket::Disconnect5(v)) => reason_code == v.code && vprops(properties@) == v.props,
        (VariableHeader::AuthV5 { reason_code, properties }, VPacket::Auth(v)) => reason_code == v.code && vprops(properties@) == v.props,
        (VariableHeader::Empty, VPacket::PingReq5(_)) => true,
        (VariableHeader::Empty, VPacket::PingResp5(_)) => true,
        (VariableHeader::ConnectV3 { protocol_name, protocol_version, clean_session, keep_alive, connect_flags }, VPacket::Connect3(v)) =>
            protocol_name@ == v.name && protocol_version == v.version && clean_session == v.clean && keep_alive == v.keep
            && bit(connect_flags, 2) == v.clean && bit(connect_flags, 4) == (v.will is Some) && bit(connect_flags, 128) == (v.user is Some) && bit(connect_flags, 64) == (v.pass is Some)
            && (v.will matches Some(w) ==> w.qos == (connect_flags / 8) % 4 && w.retain == bit(connect_flags, 32)),
        (VariableHeader::ConnAckV3 { session_present, return_code }, VPacket::ConnAck3(v)) => session_present == v.sp && return_code == v.code,
        (VariableHeader::PublishV3 { topic_name, qos, dup, retain, message_id }, VPacket::Publish3(v)) => topic_name@ == v.topic && qos == v.qos && dup == v.dup && retain == v.retain && message_id == v.id,
        (VariableHeader::PacketIdOnlyV3 { message_id }, VPacket::PubAck3(v)) => message_id == v.id,
        (VariableHeader::PacketIdOnlyV3 { message_id }, VPacket::PubRec3(v)) => message_id == v.id,
        (VariableHeader::PacketIdOnlyV3 { message_id }, VPacket::PubRel3(v)) => message_id == v.id,
        (VariableHeader::PacketIdOnlyV3 { message_id }, VPacket::PubComp3(v)) => message_id == v.id,
        (VariableHeader::PacketIdOnlyV3 { message_id }, VPacket::UnsubAck3(v)) => message_id == v.id,
        (VariableHeader::PacketIdOnlyV3 { message_id }, VPacket::Subscribe3(v)) => message_id == v.id,
        (VariableHeader::PacketIdOnlyV3 { message_id }, VPacket::SubAck3(v)) => message_id == v.id,
        (VariableHeader::PacketIdOnlyV3 { message_id }, VPacket::Unsubscribe3(v)) => message_id == v.id,
        (VariableHeader::Empty, VPacket::PingReq3(_)) => true,
        (VariableHeader::Empty, VPacket::PingResp3(_)) => true,
        (VariableHeader::Empty, VPacket::Disconnect3(_)) => true,
        _ => false,
    }
}
/// the payload the header level leaves is that of the PUBLISH
spec fn same_load(s: Seq<u8>, p: VPacket) -> bool { match p { VPacket::Publish5(v) => s == v.load, VPacket::Publish3(v) => s == v.load, _ => true } }
/// `s` is the body of the frame
spec fn in_frame(s: Seq<u8>, b: Seq<u8>, h: int, t: int) -> bool { 0 < h <= t <= b.len() && s == b.subrange(h, t) }
spec fn agrees(r: Result<(VariableHeader, usize), ParseError>, s: Seq<u8>, d: Option<VPacket>) -> bool {
    match (r, d) {
        (Ok((x, n)), Some(p)) => same_hdr(x, p) && same_load(s.subrange(n as int, s.len() as int), p),
        (Ok(_), None) => true,
        (Err(_), d) => d is None,
    }
}
spec fn flags_of(x: u8, f: u8) -> bool { x % 16 == f }
broadcast proof fn nibble(x: u8, f: u8)
    requires #[trigger] flags_of(x, f)
    ensures (f / 2) % 4 == (x / 2) % 4, bit(f, 8) == bit(x, 8), f % 2 == x % 2
{}
broadcast proof fn qos_bits(x: u8) ensures #[trigger] ((x & 0x06) >> 1) == (x / 2) % 4 { assert((x & 0x06) >> 1 == (x / 2) % 4) by (bit_vector); }
//@ fn src/mqtt_serde/control_packet.rs ControlPacketType::from_first_byte
//@ for C08
//@ ret r
//@ spec
  ensures match r { Ok((p, f)) => p as u8 == byte / 16 && f == byte % 16, Err(_) => byte / 16 == 0 }
//@ begin
  broadcast use bits;
//@ end
//@ fn src/mqtt_serde/parser/leveled.rs packet_frame_len
//@ for C07 C08
//@ ret r
//@ spec
  ensures match r {
    Ok(None) => partial(buffer@),
    Ok(Some(n)) => !cut(buffer@) && (hdr(buffer@) matches Some((_, t)) && t == n) && n <= buffer@.len(),
    Err(_) => !cut(buffer@) && hdr(buffer@) is None,
  } // [C08]
//@ begin
  proof { axiom_slice_len(buffer); hdr_some(buffer@); }
  broadcast use vbi_part;
//@ end
/// a header that was read was there
proof fn hdr_some(b: Seq<u8>)
    ensures hdr(b) is Some ==> !cut(b)
{ if cut(b) && b.len() > 0 { vdec_cut(b.subrange(1, b.len() as int), 0); } }
spec fn unknown(b: Seq<u8>) -> bool { b.len() > 0 && (b[0] / 16 == 0 || (!cut(b) && hdr(b) is None)) }
//@ fn src/mqtt_serde/parser/leveled.rs parse_type_only
//@ for C08
//@ ret r
//@ spec
  ensures match r {
    Ok(LeveledParseOk::Packet(p, n)) => (hdr(buffer@) matches Some((_, t)) && t == n) && n <= buffer@.len() && (p matches ParsedPacket::TypeOnly(x) && x.packet_type as u8 == buffer@[0] / 16 && x.flags == buffer@[0] % 16),
    Ok(LeveledParseOk::Continue(_, _)) => partial(buffer@),
    Err(_) => buffer@.len() == 0 || unknown(buffer@),
  } // [C08]
//@ begin
  proof { axiom_slice_len(buffer); hdr_some(buffer@); }
  broadcast use vbi_part;
//@ end
spec fn raw_of(b: Seq<u8>, p: ParsedPacket, h: int, t: int) -> bool {
    p matches ParsedPacket::RawBody(x) && x.packet_type as u8 == b[0] / 16 && x.flags == b[0] % 16 && x.remaining@ == b.subrange(h, t)
}
//@ fn src/mqtt_serde/parser/leveled.rs parse_raw_body
//@ for C08
//@ sigsubst Bytes ==> Vec<u8>
//@ method slice .vx_slice
//@ ret r
//@ spec
  ensures match r {
    Ok(LeveledParseOk::Packet(p, n)) => match hdr(buffer@) { Some((h, t)) => t == n && n <= buffer@.len() && raw_of(buffer@, p, h, t), None => false },
    Ok(LeveledParseOk::Continue(_, _)) => partial(buffer@),
    Err(_) => buffer@.len() == 0 || unknown(buffer@),
  } // [C08]
//@ begin
  proof { hdr_some(buffer@); }
  broadcast use vbi_part;
//@ end
//@ fn src/mqtt_serde/parser/leveled.rs parse_packet_id_raw
//@ for C08
//@ ret r
//@ spec
  ensures match r { Ok((x, n)) => buffer@.len() >= 2 && n == 2 && x == un16(buffer@[0], buffer@[1]), Err(_) => buffer@.len() < 2 }
//@ end
//@ include lv.inc F=parse_publish_header_v5 D=d_Publish5(b,h,t) G=flags_of(b[0],flags)
  broadcast use {nibble, qos_bits, sub_sub};
//@ end
//@ include lv.inc F=parse_connack_header_v5 D=d_ConnAck5(b,h,t) G=true
//@ end
//@ include lv.inc F=parse_subscribe_header_v5 D=d_Subscribe5(b,h,t) G=true
//@ end
//@ include lv.inc F=parse_suback_header_v5 D=d_SubAck5(b,h,t) G=true
//@ end
//@ include lv.inc F=parse_unsubscribe_header_v5 D=d_Unsubscribe5(b,h,t) G=true
//@ end
//@ include lv.inc F=parse_unsuback_header_v5 D=d_UnsubAck5(b,h,t) G=true
//@ end
//@ include lv.inc F=parse_ack_with_props_v5 D=ack_of(kind,b,h,t) G=true
//@ end
//@ include lv.inc F=parse_publish_header_v3 D=d_Publish3(b,h,t) G=flags_of(b[0],flags)
  broadcast use {nibble, qos_bits, sub_sub};
//@ end
//@ include lv.inc F=parse_connack_header_v3 D=d_ConnAck3(b,h,t) G=true
//@ end
spec fn ack_of(k: VhdrV5Kind, b: Seq<u8>, h: int, t: int) -> Option<VPacket> { match k { VhdrV5Kind::PubAck => d_PubAck5(b, h, t), VhdrV5Kind::PubRec => d_PubRec5(b, h, t), VhdrV5Kind::PubRel => d_PubRel5(b, h, t), VhdrV5Kind::PubComp => d_PubComp5(b, h, t) } }
/// the flags of a CONNECT say what it holds
#[verifier::spinoff_prover]
proof fn back5_flags(f: u8, b: Seq<u8>, o: int, t: int)
    ensures match back5_at(f, b, o, t) { Some(((_, will, user, pass), _)) => bit(f, 4) == (will is Some) && bit(f, 128) == (user is Some) && bit(f, 64) == (pass is Some)
        && (will matches Some(w) ==> w.qos == (f / 8) % 4 && w.retain == bit(f, 32)), None => true }
{ hide(text_at); hide(bin_at); hide(phdr_at); hide(will_fold); }
#[verifier::spinoff_prover]
proof fn back3_flags(f: u8, b: Seq<u8>, o: int, t: int)
    ensures match back3_at(f, b, o, t) { Some(((_, will, user, pass), _)) => bit(f, 4) == (will is Some) && bit(f, 128) == (user is Some) && bit(f, 64) == (pass is Some)
        && (will matches Some(w) ==> w.qos == (f / 8) % 4 && w.retain == bit(f, 32)), None => true }
{ hide(text_at); hide(bin_at); }
/// a CONNECT, by its header
spec fn conn5_of(b: Seq<u8>, h: int, t: int) -> Option<VPacket> { d_Connect5(b, h, t) }
broadcast proof fn conn5_open(b: Seq<u8>, h: int, t: int)
    ensures match #[trigger] conn5_of(b, h, t) {
        Some(p) => match (p, text_at(b, h, t)) {
            (VPacket::Connect5(v), Some((name, e))) => e + 4 <= t && match phdr_at(b, e + 4, t) {
                Some((props, g)) => v.name == name && v.version == b[e] && v.clean == bit(b[e + 1], 2) && v.keep == un16(b[e + 2], b[e + 3]) && v.props == props
                    && bit(b[e + 1], 4) == (v.will is Some) && bit(b[e + 1], 128) == (v.user is Some) && bit(b[e + 1], 64) == (v.pass is Some)
                    && (v.will matches Some(w) ==> w.qos == (b[e + 1] / 8) % 4 && w.retain == bit(b[e + 1], 32)),
                None => false,
            },
            _ => false,
        },
        None => true,
    }
{
    hide(back5_at); hide(text_at); hide(phdr_at); hide(flags5_ok); hide(bit);
    match front5_at(b, h, t) { Some((x, e)) => { back5_flags(x.f, b, e, t); } None => {} }
}
spec fn conn3_of(b: Seq<u8>, h: int, t: int) -> Option<VPacket> { d_Connect3(b, h, t) }
broadcast proof fn conn3_open(b: Seq<u8>, h: int, t: int)
    ensures match #[trigger] conn3_of(b, h, t) {
        Some(p) => match (p, text_at(b, h, t)) {
            (VPacket::Connect3(v), Some((name, e))) => e + 4 <= t && v.name == name && v.version == b[e] && v.clean == bit(b[e + 1], 2) && v.keep == un16(b[e + 2], b[e + 3])
                && bit(b[e + 1], 4) == (v.will is Some) && bit(b[e + 1], 128) == (v.user is Some) && bit(b[e + 1], 64) == (v.pass is Some)
                && (v.will matches Some(w) ==> w.qos == (b[e + 1] / 8) % 4 && w.retain == bit(b[e + 1], 32)),
            _ => false,
        },
        None => true,
    }
{
    hide(back3_at); hide(text_at); hide(flags3_ok); hide(bit); hide(name3_ok);
    match front3_at(b, h, t) { Some((x, e)) => { back3_flags(x.f, b, e, t); } None => {} }
}
//@ include lvc.inc F=parse_connect_header_v5 D=conn5_of G=true B=conn5_open
//@ end
//@ include lvc.inc F=parse_connect_header_v3 D=conn3_of G=true B=conn3_open
//@ end
//@ include lvr.inc F=parse_disconnect_header_v5 D=d_Disconnect5(b,h,t) G=true
//@ end
//@ include lvr.inc F=parse_auth_header_v5 D=d_Auth(b,h,t) G=true
//@ end
/// the header level's report of the frame at the front of `b`
spec fn hdrs_of(ver: u8, b: Seq<u8>, p: ParsedPacket, h: int, t: int) -> bool {
    match p {
        ParsedPacket::HeadersParsed(x) => {
            &&& x.packet_type as u8 == b[0] / 16 && x.flags == b[0] % 16 && (ver == 5 ==> x.mqtt_version == 5)
            &&& x.raw_payload@.len() <= t - h && x.raw_payload@ == b.subrange(t - x.raw_payload@.len(), t)
            &&& (dec(ver, b, h, t) matches Some(q) ==> same_hdr(x.variable_header, q) && same_load(x.raw_payload@, q))
        }
        _ => false,
    }
}
spec fn headers_of(ver: u8, b: Seq<u8>, r: Result<LeveledParseOk, ParseError>) -> bool {
    match r {
        Ok(LeveledParseOk::Packet(p, n)) => match hdr(b) { Some((h, t)) => t == n && n <= b.len() && hdrs_of(ver, b, p, h, t), None => false },
        Ok(LeveledParseOk::Continue(_, _)) => partial(b),
        Err(_) => b.len() == 0 || unknown(b) || !(3 <= ver <= 5) || match hdr(b) { Some((h, t)) => t <= b.len() && dec(ver, b, h, t) is None, None => false },
    }
}
//@ fn src/mqtt_serde/parser/leveled.rs parse_headers_only_v5
//@ own
//@ for C08
//@ sigsubst Bytes ==> Vec<u8>
//@ method slice .vx_slice
//@ ret r
//@ spec
  ensures headers_of(5, buffer@, r) // [C08]
//@ begin
  hide(phdr_at); hide(text_at); hide(bin_at); hide(vbi_in);
  broadcast use {vbi_part, sub_sub};
  proof { assert(seen(buffer@)); hdr_some(buffer@); if let Some((h, t)) = hdr(buffer@) { if t <= buffer@.len() { hdr_alone(buffer@); assert(in_frame(buffer@.subrange(h, t), buffer@, h, t)); } } }
//@ end
//@ fn src/mqtt_serde/parser/leveled.rs parse_headers_only_v3
//@ own
//@ for C08
//@ sigsubst Bytes ==> Vec<u8>
//@ method slice .vx_slice
//@ ret r
//@ spec
  ensures headers_of(3, buffer@, r) // [C08]
//@ begin
  hide(phdr_at); hide(text_at); hide(bin_at); hide(vbi_in);
  broadcast use {vbi_part, sub_sub};
  proof { assert(seen(buffer@)); hdr_some(buffer@); if let Some((h, t)) = hdr(buffer@) { if t <= buffer@.len() { hdr_alone(buffer@); assert(in_frame(buffer@.subrange(h, t), buffer@, h, t)); } } }
//@ end
//@ fn src/mqtt_serde/parser/leveled.rs parse_headers_only
//@ own
//@ for C08
//@ sigsubst Bytes ==> Vec<u8>
//@ ret r
//@ spec
  ensures headers_of(mqtt_version, buffer@, r) // [C08]
//@ end
spec fn report_of(level: ParseLevel, ver: u8, b: Seq<u8>, p: ParsedPacket, h: int, t: int) -> bool {
    match level {
        ParseLevel::Full => p matches ParsedPacket::Full(q) && dec(ver, b, h, t) == Some(vpacket(q)),
        ParseLevel::HeadersParsed => hdrs_of(ver, b, p, h, t),
        ParseLevel::RawBody => raw_of(b, p, h, t),
        ParseLevel::TypeOnly => p matches ParsedPacket::TypeOnly(x) && x.packet_type as u8 == b[0] / 16 && x.flags == b[0] % 16,
    }
}
/// C08: what handing out one packet may do at each level; the frame is the same at all of them
spec fn lstepped(level: ParseLevel, ver: u8, a: Seq<u8>, r: Result<Option<ParsedPacket>, ParseError>, z: Seq<u8>) -> bool {
    match r {
        Ok(Some(p)) => match hdr(a) { Some((h, t)) => t <= a.len() && z == a.skip(t) && report_of(level, ver, a, p, h, t), None => false },
        Ok(None) => z == a && partial(a),
        Err(_) => match level {
            ParseLevel::Full => z == a && dead(ver, a),
            ParseLevel::HeadersParsed => unknown(a) || !(3 <= ver <= 5) || match hdr(a) { Some((h, t)) => t <= a.len() && z == a.skip(t) && dec(ver, a, h, t) is None, None => false },
            ParseLevel::RawBody => unknown(a),
            ParseLevel::TypeOnly => z == a && unknown(a),
        },
    }
}
/// the frame alone
proof fn taken(ver: u8, a: Seq<u8>)
    ensures match hdr(a) {
        Some((h, t)) => t <= a.len() ==> {
            let w = a.take(t);
            &&& hdr(w) == hdr(a) && !partial(w) && w.len() == t && t >= 2 && dec(ver, w, h, t) == dec(ver, a, h, t) && (unknown(w) ==> unknown(a))
            &&& forall|p: ParsedPacket| #[trigger] hdrs_of(ver, w, p, h, t) ==> hdrs_of(ver, a, p, h, t)
            &&& forall|p: ParsedPacket| #[trigger] raw_of(w, p, h, t) ==> raw_of(a, p, h, t)
        },
        None => true,
    }
{
    hide(dec);
    broadcast use sub_sub;
    hdr_alone(a);
    if let Some((h, t)) = hdr(a) {
        if t <= a.len() {
            let w = a.take(t);
            assert(w == a.subrange(0, t));
            hdr_some(w);
            dec_alone(ver, a, h, t);
            assert forall|k: int| 0 <= k <= t implies #[trigger] w.subrange(k, t) == a.subrange(k, t) by { assert(w.subrange(k, t) =~= a.subrange(k, t)); }
        }
    }
}
//@ fn src/mqtt_serde/parser/stream.rs MqttParser::next_parsed
//@ own
//@ for C08
//@ method advance .vx_advance
//@ method split_to .vx_split_to
//@ method freeze .vx_freeze
//@ ret r
//@ spec
  requires (old(self).parse_level is Full || old(self).parse_level is HeadersParsed) ==> old(self).mqtt_version != 0
  ensures
    final(self).mqtt_version == old(self).mqtt_version, final(self).parse_level == old(self).parse_level, // [C08]
    lstepped(old(self).parse_level, old(self).mqtt_version, old(self).buffer@, r, final(self).buffer@) // [C08]
//@ begin
  hide(dec);
  proof { hdr_alone(self.buffer@); hdr_some(self.buffer@); taken(self.mqtt_version, self.buffer@); hdr_none(self.mqtt_version, self.buffer@); }
//@ end
proof fn hdr_none(ver: u8, b: Seq<u8>)
    ensures b.len() > 0 && b[0] / 16 == 0 ==> forall|h: int, t: int| (#[trigger] dec(ver, b, h, t)) is None
{}
/// C08: where the full parse finds a packet, every level finds the same frame, and says of it what is so
proof fn c08_levels(level: ParseLevel, ver: u8, a: Seq<u8>, q: MqttPacket, y: Seq<u8>, r: Result<Option<ParsedPacket>, ParseError>, z: Seq<u8>)
    requires stepped(ver, a, Ok(Some(q)), y), lstepped(level, ver, a, r, z)
    ensures
        z == y,
        match r { Ok(Some(p)) => match hdr(a) { Some((h, t)) => report_of(level, ver, a, p, h, t) && dec(ver, a, h, t) == Some(vpacket(q)), None => false }, _ => false },
{
    hdr_some(a);
    hdr_none(ver, a);
}
//@ fn src/mqtt_serde/parser/stream.rs MqttParser::new
//@ for C07
//@ path BytesMut::with_capacity Vec::<u8>::with_capacity
//@ ret r
//@ spec
  ensures r.buffer@.len() == 0, r.mqtt_version == mqtt_version, r.parse_level is Full
//@ end
//@ fn src/mqtt_serde/parser/stream.rs MqttParser::with_level
//@ for C07
//@ path BytesMut::with_capacity Vec::<u8>::with_capacity
//@ ret r
//@ spec
  ensures r.buffer@.len() == 0, r.mqtt_version == mqtt_version, r.parse_level == parse_level
//@ end
//@ fn src/mqtt_serde/parser/stream.rs MqttParser::set_parse_level
//@ for C07
//@ spec
  ensures final(self).parse_level == level, final(self).buffer@ == old(self).buffer@, final(self).mqtt_version == old(self).mqtt_version
//@ end
#[verifier::external_body]
proof fn axiom_vec_len(s: Vec<u8>) ensures s@.len() <= isize::MAX {}
//@ fn src/mqtt_serde/parser/stream.rs MqttParser::set_mqtt_vsn
//@ for C06 C07
//@ ret r
//@ spec
  ensures final(self).buffer@ == old(self).buffer@, final(self).parse_level == old(self).parse_level,
    r is Err ==> final(self).mqtt_version == old(self).mqtt_version,
    r matches Ok(v) ==> v == final(self).mqtt_version && (old(self).mqtt_version != 0 ==> v == old(self).mqtt_version)
//@ begin
  proof { axiom_vec_len(self.buffer); }
//@ end
/// C07: a stream of encoded packets is read back packet by packet
spec fn frames(ps: Seq<VPacket>) -> Seq<u8> decreases ps.len() { if ps.len() == 0 { seq![] } else { p_frame(ps[0]) + frames(ps.skip(1)) } }
spec fn sendable(ver: u8, p: VPacket) -> bool { p_ok(p) && p_wf(p) && small(p_body(p)) && p_is5(p) == (ver == 5) && 3 <= ver <= 5 }
/// one packet at the front, as the stream parser sees it
proof fn front_packet(ver: u8, p: VPacket, rest: Seq<u8>)
    requires sendable(ver, p)
    ensures first_of(ver, p_frame(p) + rest) == Some(p), hdr(p_frame(p) + rest) matches Some((h, t)) && t == p_frame(p).len()
{
    hide(dec5); hide(dec3); hide(p_frame); hide(p_ok); hide(p_wf); hide(hdr);
    p_here(p, rest);
    hdr_some(p_frame(p) + rest);
}
proof fn c07_packets(ver: u8, ps: Seq<VPacket>)
    requires forall|i: int| 0 <= i < ps.len() ==> sendable(ver, #[trigger] ps[i])
    ensures run(ver, frames(ps)).0 == ps, run(ver, frames(ps)).1.len() == 0
    decreases ps.len()
{
    hide(first_of); hide(p_frame); hide(sendable); hide(hdr); hide(run);
    if ps.len() == 0 { run_empty(ver, frames(ps)); assert(ps =~= Seq::<VPacket>::empty()); }
    else {
        let b = frames(ps);
        front_packet(ver, ps[0], frames(ps.skip(1)));
        run_step(ver, b);
        let t = p_frame(ps[0]).len() as int;
        assert(b.skip(t) =~= frames(ps.skip(1)));
        assert forall|i: int| 0 <= i < ps.skip(1).len() implies sendable(ver, #[trigger] ps.skip(1)[i]) by { assert(sendable(ver, ps[i + 1])); }
        c07_packets(ver, ps.skip(1));
        assert(seq![ps[0]] + ps.skip(1) =~= ps);
    }
}
