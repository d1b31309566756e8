// ---------------------------------------------------------------- C27: MQTT packets as protobuf messages and back
//@ proto mqtt_grpc_duality/proto/mqttv3.proto mqttv3pb
//@ proto mqtt_grpc_duality/proto/mqttv5.proto mqttv5pb
//@ proto mqtt_grpc_duality/proto/mqtt.proto mqtt_unified_pb
broadcast proof fn vprops_none(s: Seq<Property>)
    requires s.len() == 0
    ensures #[trigger] vprops(s) == Seq::<VProp>::empty()
{ assert(vprops(s) =~= Seq::<VProp>::empty()); }
// ---- trusted: conversions and containers of std
/// std's Into is the From of the target, TryInto its TryFrom
trait VxInto<T>: Sized {
    spec fn becomes(self, r: T) -> bool;
    fn vx_into(self) -> (r: T) ensures self.becomes(r);
}
trait VxTry<T>: Sized {
    spec fn turns(self, r: Result<T, ()>) -> bool;
    fn vx_try_into(self) -> (r: Result<T, ()>) ensures self.turns(r);
}
impl<'a> VxInto<String> for &'a str {
    spec fn becomes(self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vx_into(self) -> (r: String) { self.into() }
}
trait VxEmpty { fn vx_is_empty(&self) -> bool; }
impl VxEmpty for String {
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) ensures r <==> self@.len() == 0 { self.is_empty() }
}
impl<T> VxEmpty for Vec<T> {
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) ensures r <==> self@.len() == 0 { self.is_empty() }
}
trait VxOr<T> { fn vx_or_default(self) -> T; }
impl VxOr<String> for Option<String> {
    #[verifier::external_body]
    fn vx_or_default(self) -> (r: String) ensures match self { Some(s) => r == s, None => r@ == Seq::<char>::empty() } { self.unwrap_or_default() }
}
impl<T> VxOr<Vec<T>> for Option<Vec<T>> {
    #[verifier::external_body]
    fn vx_or_default(self) -> (r: Vec<T>) ensures match self { Some(s) => r == s, None => r@ == Seq::<T>::empty() } { self.unwrap_or_default() }
}
trait VxExtendAll<T> { fn vx_extend_all(&mut self, i: Vec<T>); }
impl<T> VxExtendAll<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_extend_all(&mut self, i: Vec<T>) ensures final(self)@ == old(self)@ + i@ { self.extend(i) }
}
/// into_iter().map(f).collect()
#[verifier::external_body]
fn vx_map_all<T, U, F: Fn(T) -> U>(v: Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|x: T| #[trigger] call_requires(f, (x,))
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (v@[i],), #[trigger] r@[i])
{ v.into_iter().map(f).collect() }
/// the values in a list of optional values
spec fn kept<U>(s: Seq<Option<U>>) -> Seq<U> decreases s.len() {
    if s.len() == 0 { seq![] } else { match s.last() { Some(x) => kept(s.drop_last()).push(x), None => kept(s.drop_last()) } }
}
proof fn kept_all<U>(s: Seq<Option<U>>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Some
    ensures kept(s) == Seq::new(s.len(), |i: int| s[i]->0)
    decreases s.len()
{
    if s.len() > 0 {
        assert(s[s.len() - 1] is Some);
        kept_all(s.drop_last());
    }
    assert(kept(s) =~= Seq::new(s.len(), |i: int| s[i]->0));
}
spec fn answers<T, U, F: Fn(T) -> Option<U>>(f: F, v: Seq<T>, os: Seq<Option<U>>) -> bool { os.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> call_ensures(f, (v[i],), #[trigger] os[i]) }
/// into_iter().filter_map(f).collect()
#[verifier::external_body]
fn vx_filter_map<T, U, F: Fn(T) -> Option<U>>(v: Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|x: T| #[trigger] call_requires(f, (x,))
    ensures exists|os: Seq<Option<U>>| #[trigger] answers(f, v@, os) && r@ == kept(os)
{ v.into_iter().filter_map(f).collect() }
//@ method clone .vx_clone
//@ method into .vx_into
//@ method try_into .vx_try_into
//@ method is_empty .vx_is_empty
//@ method unwrap_or_default .vx_or_default
//@ method extend .vx_extend_all
// ---- what a message says
spec fn absent_text(s: Seq<char>) -> Option<Seq<char>> { if s.len() == 0 { None } else { Some(s) } }
spec fn absent_data(s: Seq<u8>) -> Option<Seq<u8>> { if s.len() == 0 { None } else { Some(s) } }
spec fn absent_id(x: u32) -> Option<u16> { if x == 0 { None } else { Some(x as u16) } }
spec fn small_code(x: u32) -> bool { x <= 255 }
spec fn pcodes(s: Seq<u32>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i] as u8) }
spec fn pcodes_fit(s: Seq<u32>) -> bool { forall|i: int| 0 <= i < s.len() ==> small_code(#[trigger] s[i]) }
spec fn truth(b: bool) -> VVal { VVal::Byte(if b { 1 } else { 0 }) }
// ---- what the conversion keeps of a packet: an absent value and an empty one are the same, a boolean is 0 or 1
spec fn nval(v: VVal) -> VVal { match v { VVal::Byte(x) => truth(x != 0), _ => v } }
spec fn is_truth(id: nat) -> bool { id == 0x01 || id == 0x17 || id == 0x19 || id == 0x25 || id == 0x28 || id == 0x29 || id == 0x2a }
spec fn nprop(p: VProp) -> VProp { if is_truth(p.id) { VProp { id: p.id, val: nval(p.val) } } else { p } }
spec fn nprops(s: Seq<VProp>) -> Seq<VProp> { Seq::new(s.len(), |i: int| nprop(s[i])) }
spec fn ntext(o: Option<Seq<char>>) -> Option<Seq<char>> { match o { Some(s) => absent_text(s), None => None } }
spec fn ndata(o: Option<Seq<u8>>) -> Option<Seq<u8>> { match o { Some(s) => absent_data(s), None => None } }
spec fn nid(o: Option<u16>) -> Option<u16> { match o { Some(0) => None, _ => o } }
spec fn nbyte(o: Option<u8>) -> Option<u8> { match o { Some(x) => Some(if x != 0 { 1u8 } else { 0u8 }), None => None } }
spec fn nwillprops(v: VWillProps) -> VWillProps { VWillProps { pfi: nbyte(v.pfi), user: nprops(v.user), ..v } }
spec fn nwill5(v: VWill5) -> VWill5 { VWill5 { props: nwillprops(v.props), ..v } }
spec fn nack5(v: VAck5) -> VAck5 { VAck5 { props: nprops(v.props), ..v } }
spec fn ncodes5(v: VCodes5) -> VCodes5 { VCodes5 { props: nprops(v.props), ..v } }
spec fn nreason5(v: VReason5) -> VReason5 { VReason5 { props: nprops(v.props), ..v } }
spec fn nconnack5(v: VConnAck5) -> VConnAck5 { VConnAck5 { props: nprops(v.props), ..v } }
spec fn npublish5(v: VPublish5) -> VPublish5 { VPublish5 { id: nid(v.id), props: nprops(v.props), ..v } }
spec fn npublish3(v: VPublish3) -> VPublish3 { VPublish3 { id: nid(v.id), ..v } }
spec fn nsubscribe5(v: VSubscribe5) -> VSubscribe5 { VSubscribe5 { props: nprops(v.props), ..v } }
spec fn nunsubscribe5(v: VUnsubscribe5) -> VUnsubscribe5 { VUnsubscribe5 { props: nprops(v.props), ..v } }
spec fn nconnect5(v: VConnect5) -> VConnect5 { VConnect5 { user: ntext(v.user), pass: ndata(v.pass), props: nprops(v.props), will: match v.will { Some(w) => Some(nwill5(w)), None => None }, ..v } }
spec fn nconnect3(v: VConnect3) -> VConnect3 { VConnect3 { user: ntext(v.user), pass: ndata(v.pass), ..v } }
/// a CONNECT of version 5 is one: its name and level, and user properties only among the will's user properties
spec fn connect5_is(v: VConnect5) -> bool { v.name == "MQTT"@ && v.version == 5 && (v.will matches Some(w) ==> all_user(w.props.user)) }
spec fn packet_is(v: VPacket) -> bool { match v { VPacket::Connect5(c) => connect5_is(c), _ => true } }
spec fn npacket(v: VPacket) -> VPacket {
    match v {
        VPacket::Connect5(x) => VPacket::Connect5(nconnect5(x)), VPacket::ConnAck5(x) => VPacket::ConnAck5(nconnack5(x)), VPacket::Publish5(x) => VPacket::Publish5(npublish5(x)),
        VPacket::PubAck5(x) => VPacket::PubAck5(nack5(x)), VPacket::PubRec5(x) => VPacket::PubRec5(nack5(x)), VPacket::PubRel5(x) => VPacket::PubRel5(nack5(x)), VPacket::PubComp5(x) => VPacket::PubComp5(nack5(x)),
        VPacket::Subscribe5(x) => VPacket::Subscribe5(nsubscribe5(x)), VPacket::SubAck5(x) => VPacket::SubAck5(ncodes5(x)), VPacket::Unsubscribe5(x) => VPacket::Unsubscribe5(nunsubscribe5(x)), VPacket::UnsubAck5(x) => VPacket::UnsubAck5(ncodes5(x)),
        VPacket::Disconnect5(x) => VPacket::Disconnect5(nreason5(x)), VPacket::Auth(x) => VPacket::Auth(nreason5(x)),
        VPacket::Connect3(x) => VPacket::Connect3(nconnect3(x)), VPacket::Publish3(x) => VPacket::Publish3(npublish3(x)),
        _ => v,
    }
}
// ---- properties

spec fn pprop_type(t: mqttv5pb::property::PropertyType) -> VProp {
    match t {
        mqttv5pb::property::PropertyType::PayloadFormatIndicator(v) => VProp { id: 0x01, val: truth(v) },
        mqttv5pb::property::PropertyType::MessageExpiryInterval(v) => VProp { id: 0x02, val: VVal::Four(v) },
        mqttv5pb::property::PropertyType::ContentType(v) => VProp { id: 0x03, val: VVal::Text(v@) },
        mqttv5pb::property::PropertyType::ResponseTopic(v) => VProp { id: 0x08, val: VVal::Text(v@) },
        mqttv5pb::property::PropertyType::CorrelationData(v) => VProp { id: 0x09, val: VVal::Bin(v@) },
        mqttv5pb::property::PropertyType::SubscriptionIdentifier(v) => VProp { id: 0x0b, val: VVal::Vbi(v as nat) },
        mqttv5pb::property::PropertyType::SessionExpiryInterval(v) => VProp { id: 0x11, val: VVal::Four(v) },
        mqttv5pb::property::PropertyType::AssignedClientIdentifier(v) => VProp { id: 0x12, val: VVal::Text(v@) },
        mqttv5pb::property::PropertyType::ServerKeepAlive(v) => VProp { id: 0x13, val: VVal::Two(v as u16) },
        mqttv5pb::property::PropertyType::AuthenticationMethod(v) => VProp { id: 0x15, val: VVal::Text(v@) },
        mqttv5pb::property::PropertyType::AuthenticationData(v) => VProp { id: 0x16, val: VVal::Bin(v@) },
        mqttv5pb::property::PropertyType::RequestProblemInformation(v) => VProp { id: 0x17, val: truth(v) },
        mqttv5pb::property::PropertyType::WillDelayInterval(v) => VProp { id: 0x18, val: VVal::Four(v) },
        mqttv5pb::property::PropertyType::RequestResponseInformation(v) => VProp { id: 0x19, val: truth(v) },
        mqttv5pb::property::PropertyType::ResponseInformation(v) => VProp { id: 0x1a, val: VVal::Text(v@) },
        mqttv5pb::property::PropertyType::ServerReference(v) => VProp { id: 0x1c, val: VVal::Text(v@) },
        mqttv5pb::property::PropertyType::ReasonString(v) => VProp { id: 0x1f, val: VVal::Text(v@) },
        mqttv5pb::property::PropertyType::ReceiveMaximum(v) => VProp { id: 0x21, val: VVal::Two(v as u16) },
        mqttv5pb::property::PropertyType::TopicAliasMaximum(v) => VProp { id: 0x22, val: VVal::Two(v as u16) },
        mqttv5pb::property::PropertyType::TopicAlias(v) => VProp { id: 0x23, val: VVal::Two(v as u16) },
        mqttv5pb::property::PropertyType::MaximumQos(v) => VProp { id: 0x24, val: VVal::Byte(v as u8) },
        mqttv5pb::property::PropertyType::RetainAvailable(v) => VProp { id: 0x25, val: truth(v) },
        mqttv5pb::property::PropertyType::UserProperty(v) => VProp { id: 0x26, val: VVal::Pair(v.key@, v.value@) },
        mqttv5pb::property::PropertyType::MaximumPacketSize(v) => VProp { id: 0x27, val: VVal::Four(v) },
        mqttv5pb::property::PropertyType::WildcardSubscriptionAvailable(v) => VProp { id: 0x28, val: truth(v) },
        mqttv5pb::property::PropertyType::SubscriptionIdentifiersAvailable(v) => VProp { id: 0x29, val: truth(v) },
        mqttv5pb::property::PropertyType::SharedSubscriptionAvailable(v) => VProp { id: 0x2a, val: truth(v) },
    }
}
spec fn pprop_fits(t: mqttv5pb::property::PropertyType) -> bool {
    match t {
        mqttv5pb::property::PropertyType::ServerKeepAlive(v) => v <= 65535,
        mqttv5pb::property::PropertyType::ReceiveMaximum(v) => v <= 65535,
        mqttv5pb::property::PropertyType::TopicAliasMaximum(v) => v <= 65535,
        mqttv5pb::property::PropertyType::TopicAlias(v) => v <= 65535,
        mqttv5pb::property::PropertyType::MaximumQos(v) => v <= 255,
        _ => true,
    }
}
impl mqttv5pb::Property {
    spec fn v(&self) -> VProp { pprop_type(self.property_type->0) }
    spec fn fits(&self) -> bool { self.property_type is Some && pprop_fits(self.property_type->0) }
}
spec fn pprops(s: Seq<mqttv5pb::Property>) -> Seq<VProp> { Seq::new(s.len(), |i: int| s[i].v()) }
spec fn pprops_fit(s: Seq<mqttv5pb::Property>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).fits() }
broadcast proof fn pprops_push(s: Seq<mqttv5pb::Property>, p: mqttv5pb::Property)
    ensures #[trigger] pprops(s.push(p)) == pprops(s).push(p.v()), pprops_fit(s) && p.fits() ==> pprops_fit(s.push(p))
{ assert(pprops(s.push(p)) =~= pprops(s).push(p.v())); assert forall|i: int| pprops_fit(s) && p.fits() && 0 <= i < s.push(p).len() implies (#[trigger] s.push(p)[i]).fits() by { if i < s.len() { assert(s[i].fits()); } } }
impl VxTry<mqttv5pb::Property> for Property {
    spec fn turns(self, r: Result<mqttv5pb::Property, ()>) -> bool { r matches Ok(q) && q.fits() && q.v() == nprop(vprop(self)) }
    fn vx_try_into(self) -> (r: Result<mqttv5pb::Property, ()>) { property_to_pb(self) }
}
impl VxTry<Property> for mqttv5pb::Property {
    spec fn turns(self, r: Result<Property, ()>) -> bool { self.fits() ==> (r matches Ok(q) && vprop(q) == self.v()) }
    fn vx_try_into(self) -> (r: Result<Property, ()>) { property_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs TryFrom<Property>@Property::try_from free as property_to_pb
//@ for C27
//@ sigsubst Self :: Error ==> ()
//@ sigsubst Self ==> mqttv5pb::Property
//@ ret r
//@ spec
  ensures r matches Ok(q) && q.fits() && q.v() == nprop(vprop(p))
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs TryFrom<mqttv5pb::Property>@Property::try_from free as property_from_pb
//@ for C27
//@ sigsubst Self :: Error ==> ()
//@ sigsubst Self ==> Property
//@ ret r
//@ spec
  ensures p.fits() ==> (r matches Ok(q) && vprop(q) == p.v())
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs convert_properties_to_pb
//@ for C27
//@ sigsubst where T : TryInto < mqttv5pb :: Property > , ==>
//@ sigsubst Vec < T > ==> Vec<Property>
//@ sigsubst < T > ==>
//@ closure 0 |p: Property| -> (r: Option<mqttv5pb::Property>) ensures r matches Some(q) && q.fits() && q.v() == nprop(vprop(p))
//@ ret r
//@ spec
  ensures pprops_fit(r@), pprops(r@) == nprops(vprops(properties@))
//@ begin
  let ghost ps = properties@;
//@ tail
  proof {
    let os = choose|os: Seq<Option<mqttv5pb::Property>>| vxret@ == kept(os) && os.len() == ps.len() && forall|i: int| 0 <= i < ps.len() ==> (#[trigger] os[i] matches Some(q) && q.fits() && q.v() == nprop(vprop(ps[i])));
    kept_all(os);
    assert(pprops(vxret@) =~= nprops(vprops(ps)));
  }
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs convert_properties_from_pb
//@ for C27
//@ sigsubst where mqttv5pb :: Property : TryInto < T > , ==>
//@ sigsubst Vec < T > ==> Vec<Property>
//@ sigsubst < T > ==>
//@ closure 0 |p: mqttv5pb::Property| -> (r: Option<Property>) ensures p.fits() ==> (r matches Some(q) && vprop(q) == p.v())
//@ ret r
//@ spec
  ensures pprops_fit(properties@) ==> vprops(r@) == pprops(properties@)
//@ begin
  let ghost ps = properties@;
//@ tail
  proof {
    if pprops_fit(ps) {
      let os = choose|os: Seq<Option<Property>>| vxret@ == kept(os) && os.len() == ps.len() && forall|i: int| 0 <= i < ps.len() ==> (ps[i].fits() ==> (#[trigger] os[i] matches Some(q) && vprop(q) == ps[i].v()));
      assert forall|i: int| 0 <= i < os.len() implies #[trigger] os[i] is Some by { assert(ps[i].fits()); }
      kept_all(os);
      assert(vprops(vxret@) =~= pprops(ps));
    }
  }
//@ end
// ---- the will properties of version 5
broadcast proof fn pprops_none(s: Seq<mqttv5pb::Property>) requires s.len() == 0 ensures #[trigger] pprops(s) == Seq::<VProp>::empty() { assert(pprops(s) =~= Seq::<VProp>::empty()); }
broadcast proof fn pprops_cat(s: Seq<mqttv5pb::Property>, t: Seq<mqttv5pb::Property>)
    ensures #[trigger] pprops(s + t) == pprops(s) + pprops(t), pprops_fit(s) && pprops_fit(t) ==> pprops_fit(s + t)
{ assert(pprops(s + t) =~= pprops(s) + pprops(t)); assert forall|i: int| pprops_fit(s) && pprops_fit(t) && 0 <= i < (s + t).len() implies (#[trigger] (s + t)[i]).fits() by { if i < s.len() { assert(s[i].fits()); } else { assert(t[i - s.len()].fits()); } } }
proof fn nprops_list(w: VWillProps)
    ensures nprops(will_list(w)) == will_list(nwillprops(w))
{ assert(nprops(will_list(w)) =~= will_list(nwillprops(w))); }
//@ fn mqtt_grpc_duality/src/lib.rs convert_will_properties_to_pb
//@ for C27
//@ ret r
//@ spec
  ensures pprops_fit(r@), all_user(will_props.v().user) ==> will_fold(pprops(r@)) == nwillprops(will_props.v())
//@ begin
  broadcast use {will_fold_push, pprops_push, pprops_cat, pprops_none, will_fold_user};
  let ghost w = will_props.v();
//@ tail
  proof {
    if all_user(w.user) { assert(all_user(nprops(w.user))) by { assert forall|i: int| 0 <= i < nprops(w.user).len() implies #[trigger] nprops(w.user)[i].val is Pair by { assert(w.user[i].val is Pair); } } }
    assert(Seq::<VProp>::empty() + nprops(w.user) =~= nprops(w.user));
  }
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs convert_pb_to_will_properties
//@ for C27
//@ ret r
//@ spec
  ensures pprops_fit(pb_properties@) ==> r.v() == will_fold(pprops(pb_properties@))
//@ begin
  broadcast use {vprops_none, vprops_push};
  let ghost ps = pb_properties@;
//@ iter 0 it
//@ loop 0
  invariant
    it.seq() == ps,
    pprops_fit(ps) ==> will_props.v() == will_fold(pprops(ps.take(it.index()))),
//@ loop 0 begin
  broadcast use {vprops_none, vprops_push};
  proof { let k = it.index(); assert(ps.take(k + 1) =~= ps.take(k).push(ps[k])); pprops_push(ps.take(k), ps[k]); will_fold_push(pprops(ps.take(k)), ps[k].v()); if pprops_fit(ps) { assert(ps[k].fits()); } }
//@ after for pb_prop
  proof { assert(ps.take(ps.len() as int) =~= ps); }
//@ end
// ---- constructors
//@ fn src/mqtt_serde/mqttv5/connect.rs MqttConnect::new keep-literals
//@ method to_string vx_own
//@ for C27
//@ ret r
//@ spec
  ensures r == (MqttConnect5 { protocol_name: r.protocol_name, protocol_version: 5, keep_alive, client_id, will, username, password, properties, clean_start }), r.protocol_name@ == "MQTT"@
//@ end
//@ fn src/mqtt_serde/mqttv5/connect.rs MqttConnect::is_clean_start
//@ for C27
//@ ret r
//@ spec
  ensures r == self.clean_start
//@ end
//@ fn src/mqtt_serde/mqttv5/publish.rs MqttPublish::new
//@ for C27
//@ ret r
//@ spec
  ensures r == (MqttPublish5 { topic_name, packet_id, payload, qos, dup, retain, properties: r.properties }), r.properties@.len() == 0
//@ end
//@ fn src/mqtt_serde/mqttv3/disconnect.rs MqttDisconnect::new
//@ for C27
//@ ret r
//@ spec
  ensures true
//@ end
//@ fn src/mqtt_serde/mqttv5/pingreq.rs MqttPingReq::new
//@ for C27
//@ ret r
//@ spec
  ensures true
//@ end
//@ fn src/mqtt_serde/mqttv5/pingresp.rs MqttPingResp::new
//@ for C27
//@ ret r
//@ spec
  ensures true
//@ end
// ---- the messages

impl mqttv3pb::Will {
    spec fn v(&self) -> VWill3 { VWill3 { qos: self.qos as u8, retain: self.retain, topic: self.topic@, msg: self.payload@ } }
    spec fn fits(&self) -> bool { 0 <= self.qos <= 255 }
}
impl mqttv3pb::Connect {
    spec fn v(&self) -> VConnect3 { VConnect3 { name: self.protocol_name@, version: self.protocol_version as u8, clean: self.clean_session, keep: self.keep_alive as u16, cid: self.client_id@, will: match self.will { Some(w) => Some(w.v()), None => None }, user: absent_text(self.username@), pass: absent_data(self.password@) } }
    spec fn fits(&self) -> bool { self.protocol_version <= 255 && self.keep_alive <= 65535 && (self.will matches Some(w) ==> w.fits()) }
}
impl VxInto<mqttv3pb::Connect> for MqttConnect3 {
    spec fn becomes(self, r: mqttv3pb::Connect) -> bool { r.fits() && r.v() == nconnect3(self.v()) }
    fn vx_into(self) -> (r: mqttv3pb::Connect) { connect_3_to_pb(self) }
}
impl VxInto<MqttConnect3> for mqttv3pb::Connect {
    spec fn becomes(self, r: MqttConnect3) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttConnect3) { connect_3_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttConnectV3>@Connect::from free as connect_3_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv3pb::Connect
//@ ret r
//@ spec
  ensures r.fits() && r.v() == nconnect3(connect.v())
//@ closure 0 |will: Will3| -> (r: mqttv3pb::Will) ensures r.fits() && r.v() == will.v()
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv3pb::Connect>@MqttConnectV3::from free as connect_3_from_pb
//@ for C27
//@ sigsubst Self ==> MqttConnect3
//@ ret r
//@ spec
  ensures connect.fits() ==> r.v() == connect.v()
//@ closure 0 |w: mqttv3pb::Will| -> (r: Will3) ensures w.fits() ==> r.v() == w.v()
//@ end
impl mqttv3pb::Connack {
    spec fn v(&self) -> VConnAck3 { VConnAck3 { sp: self.session_present, code: self.return_code as u8 } }
    spec fn fits(&self) -> bool { small_code(self.return_code) }
}
impl VxInto<mqttv3pb::Connack> for MqttConnAck3 {
    spec fn becomes(self, r: mqttv3pb::Connack) -> bool { r.fits() && r.v() == self.v() }
    fn vx_into(self) -> (r: mqttv3pb::Connack) { connack_3_to_pb(self) }
}
impl VxInto<MqttConnAck3> for mqttv3pb::Connack {
    spec fn becomes(self, r: MqttConnAck3) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttConnAck3) { connack_3_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttConnAckV3>@Connack::from free as connack_3_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv3pb::Connack
//@ ret r
//@ spec
  ensures r.fits() && r.v() == connack.v()
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv3pb::Connack>@MqttConnAckV3::from free as connack_3_from_pb
//@ for C27
//@ sigsubst Self ==> MqttConnAck3
//@ ret r
//@ spec
  ensures connack.fits() ==> r.v() == connack.v()
//@ end
impl mqttv3pb::Publish {
    spec fn v(&self) -> VPublish3 { VPublish3 { qos: self.qos as u8, dup: self.dup, retain: self.retain, topic: self.topic@, id: absent_id(self.message_id), load: self.payload@ } }
    spec fn fits(&self) -> bool { 0 <= self.qos <= 255 && self.message_id <= 65535 }
}
impl VxInto<mqttv3pb::Publish> for MqttPublish3 {
    spec fn becomes(self, r: mqttv3pb::Publish) -> bool { r.fits() && r.v() == npublish3(self.v()) }
    fn vx_into(self) -> (r: mqttv3pb::Publish) { publish_3_to_pb(self) }
}
impl VxInto<MqttPublish3> for mqttv3pb::Publish {
    spec fn becomes(self, r: MqttPublish3) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttPublish3) { publish_3_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttPublishV3>@Publish::from free as publish_3_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv3pb::Publish
//@ ret r
//@ spec
  ensures r.fits() && r.v() == npublish3(publish.v())
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv3pb::Publish>@MqttPublishV3::from free as publish_3_from_pb
//@ for C27
//@ sigsubst Self ==> MqttPublish3
//@ ret r
//@ spec
  ensures publish.fits() ==> r.v() == publish.v()
//@ end
impl mqttv3pb::Puback {
    spec fn v(&self) -> VAck3 { VAck3 { k: 4, id: self.message_id as u16 } }
    spec fn fits(&self) -> bool { self.message_id <= 65535 }
}
impl VxInto<mqttv3pb::Puback> for MqttPubAck3 {
    spec fn becomes(self, r: mqttv3pb::Puback) -> bool { r.fits() && r.v() == self.v() }
    fn vx_into(self) -> (r: mqttv3pb::Puback) { puback_3_to_pb(self) }
}
impl VxInto<MqttPubAck3> for mqttv3pb::Puback {
    spec fn becomes(self, r: MqttPubAck3) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttPubAck3) { puback_3_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttPubAckV3>@Puback::from free as puback_3_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv3pb::Puback
//@ ret r
//@ spec
  ensures r.fits() && r.v() == puback.v()
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv3pb::Puback>@MqttPubAckV3::from free as puback_3_from_pb
//@ for C27
//@ sigsubst Self ==> MqttPubAck3
//@ ret r
//@ spec
  ensures puback.fits() ==> r.v() == puback.v()
//@ end
impl mqttv3pb::Pubrec {
    spec fn v(&self) -> VAck3 { VAck3 { k: 5, id: self.message_id as u16 } }
    spec fn fits(&self) -> bool { self.message_id <= 65535 }
}
impl VxInto<mqttv3pb::Pubrec> for MqttPubRec3 {
    spec fn becomes(self, r: mqttv3pb::Pubrec) -> bool { r.fits() && r.v() == self.v() }
    fn vx_into(self) -> (r: mqttv3pb::Pubrec) { pubrec_3_to_pb(self) }
}
impl VxInto<MqttPubRec3> for mqttv3pb::Pubrec {
    spec fn becomes(self, r: MqttPubRec3) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttPubRec3) { pubrec_3_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttPubRecV3>@Pubrec::from free as pubrec_3_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv3pb::Pubrec
//@ ret r
//@ spec
  ensures r.fits() && r.v() == pubrec.v()
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv3pb::Pubrec>@MqttPubRecV3::from free as pubrec_3_from_pb
//@ for C27
//@ sigsubst Self ==> MqttPubRec3
//@ ret r
//@ spec
  ensures pubrec.fits() ==> r.v() == pubrec.v()
//@ end
impl mqttv3pb::Pubrel {
    spec fn v(&self) -> VAck3 { VAck3 { k: 6, id: self.message_id as u16 } }
    spec fn fits(&self) -> bool { self.message_id <= 65535 }
}
impl VxInto<mqttv3pb::Pubrel> for MqttPubRel3 {
    spec fn becomes(self, r: mqttv3pb::Pubrel) -> bool { r.fits() && r.v() == self.v() }
    fn vx_into(self) -> (r: mqttv3pb::Pubrel) { pubrel_3_to_pb(self) }
}
impl VxInto<MqttPubRel3> for mqttv3pb::Pubrel {
    spec fn becomes(self, r: MqttPubRel3) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttPubRel3) { pubrel_3_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttPubRelV3>@Pubrel::from free as pubrel_3_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv3pb::Pubrel
//@ ret r
//@ spec
  ensures r.fits() && r.v() == pubrel.v()
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv3pb::Pubrel>@MqttPubRelV3::from free as pubrel_3_from_pb
//@ for C27
//@ sigsubst Self ==> MqttPubRel3
//@ ret r
//@ spec
  ensures pubrel.fits() ==> r.v() == pubrel.v()
//@ end
impl mqttv3pb::Pubcomp {
    spec fn v(&self) -> VAck3 { VAck3 { k: 7, id: self.message_id as u16 } }
    spec fn fits(&self) -> bool { self.message_id <= 65535 }
}
impl VxInto<mqttv3pb::Pubcomp> for MqttPubComp3 {
    spec fn becomes(self, r: mqttv3pb::Pubcomp) -> bool { r.fits() && r.v() == self.v() }
    fn vx_into(self) -> (r: mqttv3pb::Pubcomp) { pubcomp_3_to_pb(self) }
}
impl VxInto<MqttPubComp3> for mqttv3pb::Pubcomp {
    spec fn becomes(self, r: MqttPubComp3) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttPubComp3) { pubcomp_3_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttPubCompV3>@Pubcomp::from free as pubcomp_3_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv3pb::Pubcomp
//@ ret r
//@ spec
  ensures r.fits() && r.v() == pubcomp.v()
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv3pb::Pubcomp>@MqttPubCompV3::from free as pubcomp_3_from_pb
//@ for C27
//@ sigsubst Self ==> MqttPubComp3
//@ ret r
//@ spec
  ensures pubcomp.fits() ==> r.v() == pubcomp.v()
//@ end
impl mqttv3pb::Unsuback {
    spec fn v(&self) -> VAck3 { VAck3 { k: 11, id: self.message_id as u16 } }
    spec fn fits(&self) -> bool { self.message_id <= 65535 }
}
impl VxInto<mqttv3pb::Unsuback> for MqttUnsubAck3 {
    spec fn becomes(self, r: mqttv3pb::Unsuback) -> bool { r.fits() && r.v() == self.v() }
    fn vx_into(self) -> (r: mqttv3pb::Unsuback) { unsuback_3_to_pb(self) }
}
impl VxInto<MqttUnsubAck3> for mqttv3pb::Unsuback {
    spec fn becomes(self, r: MqttUnsubAck3) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttUnsubAck3) { unsuback_3_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttUnsubAckV3>@Unsuback::from free as unsuback_3_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv3pb::Unsuback
//@ ret r
//@ spec
  ensures r.fits() && r.v() == unsuback.v()
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv3pb::Unsuback>@MqttUnsubAckV3::from free as unsuback_3_from_pb
//@ for C27
//@ sigsubst Self ==> MqttUnsubAck3
//@ ret r
//@ spec
  ensures unsuback.fits() ==> r.v() == unsuback.v()
//@ end
impl mqttv3pb::TopicSubscription {
    spec fn v(&self) -> VSub3 { VSub3 { filter: self.topic_filter@, qos: self.qos as u8 } }
    spec fn fits(&self) -> bool { small_code(self.qos) }
}
spec fn psubs3(s: Seq<mqttv3pb::TopicSubscription>) -> Seq<VSub3> { Seq::new(s.len(), |i: int| s[i].v()) }
spec fn psubs3_fit(s: Seq<mqttv3pb::TopicSubscription>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).fits() }
impl mqttv3pb::Subscribe {
    spec fn v(&self) -> VSubscribe3 { VSubscribe3 { id: self.message_id as u16, subs: psubs3(self.subscriptions@) } }
    spec fn fits(&self) -> bool { self.message_id <= 65535 && psubs3_fit(self.subscriptions@) }
}
impl VxInto<mqttv3pb::Subscribe> for MqttSubscribe3 {
    spec fn becomes(self, r: mqttv3pb::Subscribe) -> bool { r.fits() && r.v() == self.v() }
    fn vx_into(self) -> (r: mqttv3pb::Subscribe) { subscribe_3_to_pb(self) }
}
impl VxInto<MqttSubscribe3> for mqttv3pb::Subscribe {
    spec fn becomes(self, r: MqttSubscribe3) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttSubscribe3) { subscribe_3_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttSubscribeV3>@Subscribe::from free as subscribe_3_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv3pb::Subscribe
//@ ret r
//@ spec
  ensures r.fits() && r.v() == subscribe.v()
//@ closure 0 |sub: SubscriptionTopic| -> (r: mqttv3pb::TopicSubscription) ensures r.fits() && r.v() == sub.v()
//@ begin
  let ghost l = subscribe.subscriptions@;
//@ tail
  proof { assert(psubs3(vxret.subscriptions@) =~= vsubs3(l)); }
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv3pb::Subscribe>@MqttSubscribeV3::from free as subscribe_3_from_pb
//@ for C27
//@ sigsubst Self ==> MqttSubscribe3
//@ ret r
//@ spec
  ensures subscribe.fits() ==> r.v() == subscribe.v()
//@ closure 0 |sub: mqttv3pb::TopicSubscription| -> (r: SubscriptionTopic) ensures sub.fits() ==> r.v() == sub.v()
//@ begin
  let ghost l = subscribe.subscriptions@;
//@ tail
  proof { if psubs3_fit(l) { assert(vsubs3(vxret.subscriptions@) =~= psubs3(l)); } }
//@ end
impl mqttv3pb::Suback {
    spec fn v(&self) -> VCodes3 { VCodes3 { id: self.message_id as u16, codes: pcodes(self.return_codes@) } }
    spec fn fits(&self) -> bool { self.message_id <= 65535 && pcodes_fit(self.return_codes@) }
}
impl VxInto<mqttv3pb::Suback> for MqttSubAck3 {
    spec fn becomes(self, r: mqttv3pb::Suback) -> bool { r.fits() && r.v() == self.v() }
    fn vx_into(self) -> (r: mqttv3pb::Suback) { suback_3_to_pb(self) }
}
impl VxInto<MqttSubAck3> for mqttv3pb::Suback {
    spec fn becomes(self, r: MqttSubAck3) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttSubAck3) { suback_3_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttSubAckV3>@Suback::from free as suback_3_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv3pb::Suback
//@ ret r
//@ spec
  ensures r.fits() && r.v() == suback.v()
//@ closure 0 |c: u8| -> (r: u32) ensures r == c as u32
//@ begin
  let ghost l = suback.return_codes@;
//@ tail
  proof { assert(pcodes(vxret.return_codes@) =~= l); }
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv3pb::Suback>@MqttSubAckV3::from free as suback_3_from_pb
//@ for C27
//@ sigsubst Self ==> MqttSubAck3
//@ ret r
//@ spec
  ensures suback.fits() ==> r.v() == suback.v()
//@ closure 0 |c: u32| -> (r: u8) ensures small_code(c) ==> r == c as u8
//@ begin
  let ghost l = suback.return_codes@;
//@ tail
  proof { if pcodes_fit(l) { assert(vxret.return_codes@ =~= pcodes(l)); } }
//@ end
impl mqttv3pb::Unsubscribe {
    spec fn v(&self) -> VUnsubscribe3 { VUnsubscribe3 { id: self.message_id as u16, filters: vtexts(self.topic_filters@) } }
    spec fn fits(&self) -> bool { self.message_id <= 65535 }
}
impl VxInto<mqttv3pb::Unsubscribe> for MqttUnsubscribe3 {
    spec fn becomes(self, r: mqttv3pb::Unsubscribe) -> bool { r.fits() && r.v() == self.v() }
    fn vx_into(self) -> (r: mqttv3pb::Unsubscribe) { unsubscribe_3_to_pb(self) }
}
impl VxInto<MqttUnsubscribe3> for mqttv3pb::Unsubscribe {
    spec fn becomes(self, r: MqttUnsubscribe3) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttUnsubscribe3) { unsubscribe_3_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttUnsubscribeV3>@Unsubscribe::from free as unsubscribe_3_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv3pb::Unsubscribe
//@ ret r
//@ spec
  ensures r.fits() && r.v() == unsubscribe.v()
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv3pb::Unsubscribe>@MqttUnsubscribeV3::from free as unsubscribe_3_from_pb
//@ for C27
//@ sigsubst Self ==> MqttUnsubscribe3
//@ ret r
//@ spec
  ensures unsubscribe.fits() ==> r.v() == unsubscribe.v()
//@ end
impl mqttv3pb::Disconnect {
    spec fn v(&self) -> VEmpty { VEmpty { k: 14 } }
    spec fn fits(&self) -> bool { true }
}
impl VxInto<mqttv3pb::Disconnect> for MqttDisconnect3 {
    spec fn becomes(self, r: mqttv3pb::Disconnect) -> bool { r.fits() && r.v() == self.v() }
    fn vx_into(self) -> (r: mqttv3pb::Disconnect) { disconnect_3_to_pb(self) }
}
impl VxInto<MqttDisconnect3> for mqttv3pb::Disconnect {
    spec fn becomes(self, r: MqttDisconnect3) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttDisconnect3) { disconnect_3_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttDisconnectV3>@Disconnect::from free as disconnect_3_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv3pb::Disconnect
//@ ret r
//@ spec
  ensures r.fits() && r.v() == _disconnect.v()
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv3pb::Disconnect>@MqttDisconnectV3::from free as disconnect_3_from_pb
//@ for C27
//@ sigsubst Self ==> MqttDisconnect3
//@ ret r
//@ spec
  ensures _disconnect.fits() ==> r.v() == _disconnect.v()
//@ end
impl mqttv5pb::Will {
    spec fn v(&self) -> VWill5 { VWill5 { qos: self.qos as u8, retain: self.retain, topic: self.topic@, msg: self.payload@, props: will_fold(pprops(self.properties@)) } }
    spec fn fits(&self) -> bool { 0 <= self.qos <= 255 && pprops_fit(self.properties@) }
}
impl mqttv5pb::Connect {
    spec fn v(&self) -> VConnect5 { VConnect5 { name: self.protocol_name@, version: self.protocol_version as u8, clean: self.clean_start, keep: self.keep_alive as u16, props: pprops(self.properties@), cid: self.client_id@, will: match self.will { Some(w) => Some(w.v()), None => None }, user: absent_text(self.username@), pass: absent_data(self.password@) } }
    spec fn fits(&self) -> bool { self.protocol_version == 5 && self.protocol_name@ == "MQTT"@ && self.keep_alive <= 65535 && (self.will matches Some(w) ==> w.fits()) && pprops_fit(self.properties@) }
}
impl VxInto<mqttv5pb::Connect> for MqttConnect5 {
    spec fn becomes(self, r: mqttv5pb::Connect) -> bool { connect5_is(self.v()) ==> r.fits() && r.v() == nconnect5(self.v()) }
    fn vx_into(self) -> (r: mqttv5pb::Connect) { connect_5_to_pb(self) }
}
impl VxInto<MqttConnect5> for mqttv5pb::Connect {
    spec fn becomes(self, r: MqttConnect5) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttConnect5) { connect_5_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttConnect>@Connect::from free as connect_5_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv5pb::Connect
//@ ret r
//@ spec
  ensures connect5_is(connect.v()) ==> r.fits() && r.v() == nconnect5(connect.v())
//@ closure 0 |will: Will5| -> (r: mqttv5pb::Will) ensures all_user(will.v().props.user) ==> r.fits() && r.v() == nwill5(will.v())
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv5pb::Connect>@MqttConnect::from free as connect_5_from_pb
//@ for C27
//@ sigsubst Self ==> MqttConnect5
//@ ret r
//@ spec
  ensures connect.fits() ==> r.v() == connect.v()
//@ closure 0 |will: mqttv5pb::Will| -> (r: Will5) ensures will.fits() ==> r.v() == will.v()
//@ end
impl mqttv5pb::Connack {
    spec fn v(&self) -> VConnAck5 { VConnAck5 { sp: self.session_present, code: self.reason_code as u8, props: pprops(self.properties@) } }
    spec fn fits(&self) -> bool { small_code(self.reason_code) && pprops_fit(self.properties@) }
}
impl VxInto<mqttv5pb::Connack> for MqttConnAck5 {
    spec fn becomes(self, r: mqttv5pb::Connack) -> bool { r.fits() && r.v() == nconnack5(self.v()) }
    fn vx_into(self) -> (r: mqttv5pb::Connack) { connack_5_to_pb(self) }
}
impl VxInto<MqttConnAck5> for mqttv5pb::Connack {
    spec fn becomes(self, r: MqttConnAck5) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttConnAck5) { connack_5_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttConnAck>@Connack::from free as connack_5_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv5pb::Connack
//@ ret r
//@ spec
  ensures r.fits() && r.v() == nconnack5(connack.v())
//@ begin
  broadcast use vprops_none;
//@ tail
  proof { if connack.properties is None { assert(pprops(vxret.properties@) =~= nprops(Seq::<VProp>::empty())); } }
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv5pb::Connack>@MqttConnAck::from free as connack_5_from_pb
//@ for C27
//@ sigsubst Self ==> MqttConnAck5
//@ ret r
//@ spec
  ensures connack.fits() ==> r.v() == connack.v()
//@ end
impl mqttv5pb::Publish {
    spec fn v(&self) -> VPublish5 { VPublish5 { qos: self.qos as u8, dup: self.dup, retain: self.retain, topic: self.topic@, id: absent_id(self.message_id), props: pprops(self.properties@), load: self.payload@ } }
    spec fn fits(&self) -> bool { 0 <= self.qos <= 255 && self.message_id <= 65535 && pprops_fit(self.properties@) }
}
impl VxInto<mqttv5pb::Publish> for MqttPublish5 {
    spec fn becomes(self, r: mqttv5pb::Publish) -> bool { r.fits() && r.v() == npublish5(self.v()) }
    fn vx_into(self) -> (r: mqttv5pb::Publish) { publish_5_to_pb(self) }
}
impl VxInto<MqttPublish5> for mqttv5pb::Publish {
    spec fn becomes(self, r: MqttPublish5) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttPublish5) { publish_5_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttPublish>@Publish::from free as publish_5_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv5pb::Publish
//@ ret r
//@ spec
  ensures r.fits() && r.v() == npublish5(publish.v())
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv5pb::Publish>@MqttPublish::from free as publish_5_from_pb
//@ for C27
//@ sigsubst Self ==> MqttPublish5
//@ ret r
//@ spec
  ensures publish.fits() ==> r.v() == publish.v()
//@ end
impl mqttv5pb::Puback {
    spec fn v(&self) -> VAck5 { VAck5 { k: 4, id: self.message_id as u16, code: self.reason_code as u8, props: pprops(self.properties@) } }
    spec fn fits(&self) -> bool { self.message_id <= 65535 && small_code(self.reason_code) && pprops_fit(self.properties@) }
}
impl VxInto<mqttv5pb::Puback> for MqttPubAck5 {
    spec fn becomes(self, r: mqttv5pb::Puback) -> bool { r.fits() && r.v() == nack5(self.v()) }
    fn vx_into(self) -> (r: mqttv5pb::Puback) { puback_5_to_pb(self) }
}
impl VxInto<MqttPubAck5> for mqttv5pb::Puback {
    spec fn becomes(self, r: MqttPubAck5) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttPubAck5) { puback_5_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttPubAck>@Puback::from free as puback_5_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv5pb::Puback
//@ ret r
//@ spec
  ensures r.fits() && r.v() == nack5(puback.v())
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv5pb::Puback>@MqttPubAck::from free as puback_5_from_pb
//@ for C27
//@ sigsubst Self ==> MqttPubAck5
//@ ret r
//@ spec
  ensures puback.fits() ==> r.v() == puback.v()
//@ end
impl mqttv5pb::Pubrec {
    spec fn v(&self) -> VAck5 { VAck5 { k: 5, id: self.message_id as u16, code: self.reason_code as u8, props: pprops(self.properties@) } }
    spec fn fits(&self) -> bool { self.message_id <= 65535 && small_code(self.reason_code) && pprops_fit(self.properties@) }
}
impl VxInto<mqttv5pb::Pubrec> for MqttPubRec5 {
    spec fn becomes(self, r: mqttv5pb::Pubrec) -> bool { r.fits() && r.v() == nack5(self.v()) }
    fn vx_into(self) -> (r: mqttv5pb::Pubrec) { pubrec_5_to_pb(self) }
}
impl VxInto<MqttPubRec5> for mqttv5pb::Pubrec {
    spec fn becomes(self, r: MqttPubRec5) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttPubRec5) { pubrec_5_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttPubRec>@Pubrec::from free as pubrec_5_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv5pb::Pubrec
//@ ret r
//@ spec
  ensures r.fits() && r.v() == nack5(pubrec.v())
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv5pb::Pubrec>@MqttPubRec::from free as pubrec_5_from_pb
//@ for C27
//@ sigsubst Self ==> MqttPubRec5
//@ ret r
//@ spec
  ensures pubrec.fits() ==> r.v() == pubrec.v()
//@ end
impl mqttv5pb::Pubrel {
    spec fn v(&self) -> VAck5 { VAck5 { k: 6, id: self.message_id as u16, code: self.reason_code as u8, props: pprops(self.properties@) } }
    spec fn fits(&self) -> bool { self.message_id <= 65535 && small_code(self.reason_code) && pprops_fit(self.properties@) }
}
impl VxInto<mqttv5pb::Pubrel> for MqttPubRel5 {
    spec fn becomes(self, r: mqttv5pb::Pubrel) -> bool { r.fits() && r.v() == nack5(self.v()) }
    fn vx_into(self) -> (r: mqttv5pb::Pubrel) { pubrel_5_to_pb(self) }
}
impl VxInto<MqttPubRel5> for mqttv5pb::Pubrel {
    spec fn becomes(self, r: MqttPubRel5) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttPubRel5) { pubrel_5_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttPubRel>@Pubrel::from free as pubrel_5_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv5pb::Pubrel
//@ ret r
//@ spec
  ensures r.fits() && r.v() == nack5(pubrel.v())
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv5pb::Pubrel>@MqttPubRel::from free as pubrel_5_from_pb
//@ for C27
//@ sigsubst Self ==> MqttPubRel5
//@ ret r
//@ spec
  ensures pubrel.fits() ==> r.v() == pubrel.v()
//@ end
impl mqttv5pb::Pubcomp {
    spec fn v(&self) -> VAck5 { VAck5 { k: 7, id: self.message_id as u16, code: self.reason_code as u8, props: pprops(self.properties@) } }
    spec fn fits(&self) -> bool { self.message_id <= 65535 && small_code(self.reason_code) && pprops_fit(self.properties@) }
}
impl VxInto<mqttv5pb::Pubcomp> for MqttPubComp5 {
    spec fn becomes(self, r: mqttv5pb::Pubcomp) -> bool { r.fits() && r.v() == nack5(self.v()) }
    fn vx_into(self) -> (r: mqttv5pb::Pubcomp) { pubcomp_5_to_pb(self) }
}
impl VxInto<MqttPubComp5> for mqttv5pb::Pubcomp {
    spec fn becomes(self, r: MqttPubComp5) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttPubComp5) { pubcomp_5_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttPubComp>@Pubcomp::from free as pubcomp_5_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv5pb::Pubcomp
//@ ret r
//@ spec
  ensures r.fits() && r.v() == nack5(pubcomp.v())
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv5pb::Pubcomp>@MqttPubComp::from free as pubcomp_5_from_pb
//@ for C27
//@ sigsubst Self ==> MqttPubComp5
//@ ret r
//@ spec
  ensures pubcomp.fits() ==> r.v() == pubcomp.v()
//@ end
impl mqttv5pb::TopicSubscription {
    spec fn v(&self) -> VSub5 { VSub5 { filter: self.topic_filter@, qos: self.qos as u8, nl: self.no_local, rap: self.retain_as_published, rh: self.retain_handling as u8 } }
    spec fn fits(&self) -> bool { small_code(self.qos) && small_code(self.retain_handling) }
}
spec fn psubs5(s: Seq<mqttv5pb::TopicSubscription>) -> Seq<VSub5> { Seq::new(s.len(), |i: int| s[i].v()) }
spec fn psubs5_fit(s: Seq<mqttv5pb::TopicSubscription>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).fits() }
impl mqttv5pb::Subscribe {
    spec fn v(&self) -> VSubscribe5 { VSubscribe5 { id: self.message_id as u16, props: pprops(self.properties@), subs: psubs5(self.subscriptions@) } }
    spec fn fits(&self) -> bool { self.message_id <= 65535 && psubs5_fit(self.subscriptions@) && pprops_fit(self.properties@) }
}
impl VxInto<mqttv5pb::Subscribe> for MqttSubscribe5 {
    spec fn becomes(self, r: mqttv5pb::Subscribe) -> bool { r.fits() && r.v() == nsubscribe5(self.v()) }
    fn vx_into(self) -> (r: mqttv5pb::Subscribe) { subscribe_5_to_pb(self) }
}
impl VxInto<MqttSubscribe5> for mqttv5pb::Subscribe {
    spec fn becomes(self, r: MqttSubscribe5) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttSubscribe5) { subscribe_5_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttSubscribe>@Subscribe::from free as subscribe_5_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv5pb::Subscribe
//@ ret r
//@ spec
  ensures r.fits() && r.v() == nsubscribe5(subscribe.v())
//@ closure 0 |sub: TopicSubscription| -> (r: mqttv5pb::TopicSubscription) ensures r.fits() && r.v() == sub.v()
//@ begin
  let ghost l = subscribe.subscriptions@;
//@ tail
  proof { assert(psubs5(vxret.subscriptions@) =~= vsubs5(l)); }
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv5pb::Subscribe>@MqttSubscribe::from free as subscribe_5_from_pb
//@ for C27
//@ sigsubst Self ==> MqttSubscribe5
//@ ret r
//@ spec
  ensures subscribe.fits() ==> r.v() == subscribe.v()
//@ closure 0 |s: mqttv5pb::TopicSubscription| -> (r: TopicSubscription) ensures s.fits() ==> r.v() == s.v()
//@ begin
  let ghost l = subscribe.subscriptions@;
//@ tail
  proof { if psubs5_fit(l) { assert(vsubs5(vxret.subscriptions@) =~= psubs5(l)); } }
//@ end
impl mqttv5pb::Suback {
    spec fn v(&self) -> VCodes5 { VCodes5 { k: 9, id: self.message_id as u16, props: pprops(self.properties@), codes: pcodes(self.reason_codes@) } }
    spec fn fits(&self) -> bool { self.message_id <= 65535 && pcodes_fit(self.reason_codes@) && pprops_fit(self.properties@) }
}
impl VxInto<mqttv5pb::Suback> for MqttSubAck5 {
    spec fn becomes(self, r: mqttv5pb::Suback) -> bool { r.fits() && r.v() == ncodes5(self.v()) }
    fn vx_into(self) -> (r: mqttv5pb::Suback) { suback_5_to_pb(self) }
}
impl VxInto<MqttSubAck5> for mqttv5pb::Suback {
    spec fn becomes(self, r: MqttSubAck5) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttSubAck5) { suback_5_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttSubAck>@Suback::from free as suback_5_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv5pb::Suback
//@ ret r
//@ spec
  ensures r.fits() && r.v() == ncodes5(suback.v())
//@ closure 0 |c: u8| -> (r: u32) ensures r == c as u32
//@ begin
  let ghost l = suback.reason_codes@;
//@ tail
  proof { assert(pcodes(vxret.reason_codes@) =~= l); }
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv5pb::Suback>@MqttSubAck::from free as suback_5_from_pb
//@ for C27
//@ sigsubst Self ==> MqttSubAck5
//@ ret r
//@ spec
  ensures suback.fits() ==> r.v() == suback.v()
//@ closure 0 |c: u32| -> (r: u8) ensures small_code(c) ==> r == c as u8
//@ begin
  let ghost l = suback.reason_codes@;
//@ tail
  proof { if pcodes_fit(l) { assert(vxret.reason_codes@ =~= pcodes(l)); } }
//@ end
impl mqttv5pb::Unsuback {
    spec fn v(&self) -> VCodes5 { VCodes5 { k: 11, id: self.message_id as u16, props: pprops(self.properties@), codes: pcodes(self.reason_codes@) } }
    spec fn fits(&self) -> bool { self.message_id <= 65535 && pcodes_fit(self.reason_codes@) && pprops_fit(self.properties@) }
}
impl VxInto<mqttv5pb::Unsuback> for MqttUnsubAck5 {
    spec fn becomes(self, r: mqttv5pb::Unsuback) -> bool { r.fits() && r.v() == ncodes5(self.v()) }
    fn vx_into(self) -> (r: mqttv5pb::Unsuback) { unsuback_5_to_pb(self) }
}
impl VxInto<MqttUnsubAck5> for mqttv5pb::Unsuback {
    spec fn becomes(self, r: MqttUnsubAck5) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttUnsubAck5) { unsuback_5_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttUnsubAck>@Unsuback::from free as unsuback_5_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv5pb::Unsuback
//@ ret r
//@ spec
  ensures r.fits() && r.v() == ncodes5(unsuback.v())
//@ closure 0 |c: u8| -> (r: u32) ensures r == c as u32
//@ begin
  let ghost l = unsuback.reason_codes@;
//@ tail
  proof { assert(pcodes(vxret.reason_codes@) =~= l); }
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv5pb::Unsuback>@MqttUnsubAck::from free as unsuback_5_from_pb
//@ for C27
//@ sigsubst Self ==> MqttUnsubAck5
//@ ret r
//@ spec
  ensures unsuback.fits() ==> r.v() == unsuback.v()
//@ closure 0 |c: u32| -> (r: u8) ensures small_code(c) ==> r == c as u8
//@ begin
  let ghost l = unsuback.reason_codes@;
//@ tail
  proof { if pcodes_fit(l) { assert(vxret.reason_codes@ =~= pcodes(l)); } }
//@ end
impl mqttv5pb::Unsubscribe {
    spec fn v(&self) -> VUnsubscribe5 { VUnsubscribe5 { id: self.message_id as u16, props: pprops(self.properties@), filters: vtexts(self.topic_filters@) } }
    spec fn fits(&self) -> bool { self.message_id <= 65535 && pprops_fit(self.properties@) }
}
impl VxInto<mqttv5pb::Unsubscribe> for MqttUnsubscribe5 {
    spec fn becomes(self, r: mqttv5pb::Unsubscribe) -> bool { r.fits() && r.v() == nunsubscribe5(self.v()) }
    fn vx_into(self) -> (r: mqttv5pb::Unsubscribe) { unsubscribe_5_to_pb(self) }
}
impl VxInto<MqttUnsubscribe5> for mqttv5pb::Unsubscribe {
    spec fn becomes(self, r: MqttUnsubscribe5) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttUnsubscribe5) { unsubscribe_5_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttUnsubscribe>@Unsubscribe::from free as unsubscribe_5_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv5pb::Unsubscribe
//@ ret r
//@ spec
  ensures r.fits() && r.v() == nunsubscribe5(unsubscribe.v())
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv5pb::Unsubscribe>@MqttUnsubscribe::from free as unsubscribe_5_from_pb
//@ for C27
//@ sigsubst Self ==> MqttUnsubscribe5
//@ ret r
//@ spec
  ensures unsubscribe.fits() ==> r.v() == unsubscribe.v()
//@ end
impl mqttv5pb::Disconnect {
    spec fn v(&self) -> VReason5 { VReason5 { k: 14, code: self.reason_code as u8, props: pprops(self.properties@) } }
    spec fn fits(&self) -> bool { small_code(self.reason_code) && pprops_fit(self.properties@) }
}
impl VxInto<mqttv5pb::Disconnect> for MqttDisconnect5 {
    spec fn becomes(self, r: mqttv5pb::Disconnect) -> bool { r.fits() && r.v() == nreason5(self.v()) }
    fn vx_into(self) -> (r: mqttv5pb::Disconnect) { disconnect_5_to_pb(self) }
}
impl VxInto<MqttDisconnect5> for mqttv5pb::Disconnect {
    spec fn becomes(self, r: MqttDisconnect5) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttDisconnect5) { disconnect_5_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttDisconnect>@Disconnect::from free as disconnect_5_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv5pb::Disconnect
//@ ret r
//@ spec
  ensures r.fits() && r.v() == nreason5(disconnect.v())
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv5pb::Disconnect>@MqttDisconnect::from free as disconnect_5_from_pb
//@ for C27
//@ sigsubst Self ==> MqttDisconnect5
//@ ret r
//@ spec
  ensures disconnect.fits() ==> r.v() == disconnect.v()
//@ end
impl mqttv5pb::Auth {
    spec fn v(&self) -> VReason5 { VReason5 { k: 15, code: self.reason_code as u8, props: pprops(self.properties@) } }
    spec fn fits(&self) -> bool { small_code(self.reason_code) && pprops_fit(self.properties@) }
}
impl VxInto<mqttv5pb::Auth> for MqttAuth5 {
    spec fn becomes(self, r: mqttv5pb::Auth) -> bool { r.fits() && r.v() == nreason5(self.v()) }
    fn vx_into(self) -> (r: mqttv5pb::Auth) { auth_5_to_pb(self) }
}
impl VxInto<MqttAuth5> for mqttv5pb::Auth {
    spec fn becomes(self, r: MqttAuth5) -> bool { self.fits() ==> r.v() == self.v() }
    fn vx_into(self) -> (r: MqttAuth5) { auth_5_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<MqttAuth>@Auth::from free as auth_5_to_pb keep-literals
//@ for C27
//@ sigsubst Self ==> mqttv5pb::Auth
//@ ret r
//@ spec
  ensures r.fits() && r.v() == nreason5(auth.v())
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv5pb::Auth>@MqttAuth::from free as auth_5_from_pb
//@ for C27
//@ sigsubst Self ==> MqttAuth5
//@ ret r
//@ spec
  ensures auth.fits() ==> r.v() == auth.v()
//@ end
impl mqttv3pb::mqtt_packet::Packet {
    spec fn v(&self) -> VPacket {
        match self {
            mqttv3pb::mqtt_packet::Packet::Connect(p) => VPacket::Connect3(p.v()),
            mqttv3pb::mqtt_packet::Packet::Connack(p) => VPacket::ConnAck3(p.v()),
            mqttv3pb::mqtt_packet::Packet::Publish(p) => VPacket::Publish3(p.v()),
            mqttv3pb::mqtt_packet::Packet::Puback(p) => VPacket::PubAck3(p.v()),
            mqttv3pb::mqtt_packet::Packet::Pubrec(p) => VPacket::PubRec3(p.v()),
            mqttv3pb::mqtt_packet::Packet::Pubrel(p) => VPacket::PubRel3(p.v()),
            mqttv3pb::mqtt_packet::Packet::Pubcomp(p) => VPacket::PubComp3(p.v()),
            mqttv3pb::mqtt_packet::Packet::Subscribe(p) => VPacket::Subscribe3(p.v()),
            mqttv3pb::mqtt_packet::Packet::Suback(p) => VPacket::SubAck3(p.v()),
            mqttv3pb::mqtt_packet::Packet::Unsubscribe(p) => VPacket::Unsubscribe3(p.v()),
            mqttv3pb::mqtt_packet::Packet::Unsuback(p) => VPacket::UnsubAck3(p.v()),
            mqttv3pb::mqtt_packet::Packet::Pingreq(_) => VPacket::PingReq3(VEmpty { k: 12 }),
            mqttv3pb::mqtt_packet::Packet::Pingresp(_) => VPacket::PingResp3(VEmpty { k: 13 }),
            mqttv3pb::mqtt_packet::Packet::Disconnect(p) => VPacket::Disconnect3(p.v()),
        }
    }
    spec fn fits(&self) -> bool {
        match self {
            mqttv3pb::mqtt_packet::Packet::Connect(p) => p.fits(),
            mqttv3pb::mqtt_packet::Packet::Connack(p) => p.fits(),
            mqttv3pb::mqtt_packet::Packet::Publish(p) => p.fits(),
            mqttv3pb::mqtt_packet::Packet::Puback(p) => p.fits(),
            mqttv3pb::mqtt_packet::Packet::Pubrec(p) => p.fits(),
            mqttv3pb::mqtt_packet::Packet::Pubrel(p) => p.fits(),
            mqttv3pb::mqtt_packet::Packet::Pubcomp(p) => p.fits(),
            mqttv3pb::mqtt_packet::Packet::Subscribe(p) => p.fits(),
            mqttv3pb::mqtt_packet::Packet::Suback(p) => p.fits(),
            mqttv3pb::mqtt_packet::Packet::Unsubscribe(p) => p.fits(),
            mqttv3pb::mqtt_packet::Packet::Unsuback(p) => p.fits(),
            mqttv3pb::mqtt_packet::Packet::Pingreq(_) => true,
            mqttv3pb::mqtt_packet::Packet::Pingresp(_) => true,
            mqttv3pb::mqtt_packet::Packet::Disconnect(p) => p.fits(),
        }
    }
}
impl VxInto<MqttPacket> for mqttv3pb::mqtt_packet::Packet {
    spec fn becomes(self, r: MqttPacket) -> bool { self.fits() ==> vpacket(r) == self.v() }
    fn vx_into(self) -> (r: MqttPacket) { packet_3_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv3pb::mqtt_packet::Packet>@MqttPacket::from free as packet_3_from_pb
//@ for C27
//@ sigsubst Self ==> MqttPacket
//@ ret r
//@ spec
  ensures packet.fits() ==> vpacket(r) == packet.v()
//@ end
impl mqttv5pb::mqtt_packet::Packet {
    spec fn v(&self) -> VPacket {
        match self {
            mqttv5pb::mqtt_packet::Packet::Connect(p) => VPacket::Connect5(p.v()),
            mqttv5pb::mqtt_packet::Packet::Connack(p) => VPacket::ConnAck5(p.v()),
            mqttv5pb::mqtt_packet::Packet::Publish(p) => VPacket::Publish5(p.v()),
            mqttv5pb::mqtt_packet::Packet::Puback(p) => VPacket::PubAck5(p.v()),
            mqttv5pb::mqtt_packet::Packet::Pubrec(p) => VPacket::PubRec5(p.v()),
            mqttv5pb::mqtt_packet::Packet::Pubrel(p) => VPacket::PubRel5(p.v()),
            mqttv5pb::mqtt_packet::Packet::Pubcomp(p) => VPacket::PubComp5(p.v()),
            mqttv5pb::mqtt_packet::Packet::Subscribe(p) => VPacket::Subscribe5(p.v()),
            mqttv5pb::mqtt_packet::Packet::Suback(p) => VPacket::SubAck5(p.v()),
            mqttv5pb::mqtt_packet::Packet::Unsubscribe(p) => VPacket::Unsubscribe5(p.v()),
            mqttv5pb::mqtt_packet::Packet::Unsuback(p) => VPacket::UnsubAck5(p.v()),
            mqttv5pb::mqtt_packet::Packet::Pingreq(_) => VPacket::PingReq5(VEmpty { k: 12 }),
            mqttv5pb::mqtt_packet::Packet::Pingresp(_) => VPacket::PingResp5(VEmpty { k: 13 }),
            mqttv5pb::mqtt_packet::Packet::Disconnect(p) => VPacket::Disconnect5(p.v()),
            mqttv5pb::mqtt_packet::Packet::Auth(p) => VPacket::Auth(p.v()),
        }
    }
    spec fn fits(&self) -> bool {
        match self {
            mqttv5pb::mqtt_packet::Packet::Connect(p) => p.fits(),
            mqttv5pb::mqtt_packet::Packet::Connack(p) => p.fits(),
            mqttv5pb::mqtt_packet::Packet::Publish(p) => p.fits(),
            mqttv5pb::mqtt_packet::Packet::Puback(p) => p.fits(),
            mqttv5pb::mqtt_packet::Packet::Pubrec(p) => p.fits(),
            mqttv5pb::mqtt_packet::Packet::Pubrel(p) => p.fits(),
            mqttv5pb::mqtt_packet::Packet::Pubcomp(p) => p.fits(),
            mqttv5pb::mqtt_packet::Packet::Subscribe(p) => p.fits(),
            mqttv5pb::mqtt_packet::Packet::Suback(p) => p.fits(),
            mqttv5pb::mqtt_packet::Packet::Unsubscribe(p) => p.fits(),
            mqttv5pb::mqtt_packet::Packet::Unsuback(p) => p.fits(),
            mqttv5pb::mqtt_packet::Packet::Pingreq(_) => true,
            mqttv5pb::mqtt_packet::Packet::Pingresp(_) => true,
            mqttv5pb::mqtt_packet::Packet::Disconnect(p) => p.fits(),
            mqttv5pb::mqtt_packet::Packet::Auth(p) => p.fits(),
        }
    }
}
impl VxInto<MqttPacket> for mqttv5pb::mqtt_packet::Packet {
    spec fn becomes(self, r: MqttPacket) -> bool { self.fits() ==> vpacket(r) == self.v() }
    fn vx_into(self) -> (r: MqttPacket) { packet_5_from_pb(self) }
}
//@ fn mqtt_grpc_duality/src/lib.rs From<mqttv5pb::mqtt_packet::Packet>@MqttPacket::from free as packet_5_from_pb
//@ for C27
//@ sigsubst Self ==> MqttPacket
//@ ret r
//@ spec
  ensures packet.fits() ==> vpacket(r) == packet.v()
//@ end
impl mqtt_unified_pb::MqttStreamMessage {
    /// the packet a stream message carries
    spec fn packet(&self) -> Option<VPacket> {
        match self.payload {
            Some(mqtt_unified_pb::mqtt_stream_message::Payload::MqttV3Packet(q)) => match q.packet { Some(p) => Some(p.v()), None => None },
            Some(mqtt_unified_pb::mqtt_stream_message::Payload::MqttV5Packet(q)) => match q.packet { Some(p) => Some(p.v()), None => None },
            _ => None,
        }
    }
    spec fn fits(&self) -> bool {
        match self.payload {
            Some(mqtt_unified_pb::mqtt_stream_message::Payload::MqttV3Packet(q)) => q.packet matches Some(p) ==> p.fits(),
            Some(mqtt_unified_pb::mqtt_stream_message::Payload::MqttV5Packet(q)) => q.packet matches Some(p) ==> p.fits(),
            _ => true,
        }
    }
}
//@ fn mqtt_grpc_duality/src/lib.rs convert_mqtt_to_stream_message
//@ for C27
//@ closure 0 |p: mqtt_unified_pb::mqtt_stream_message::Payload| -> (r: mqtt_unified_pb::MqttStreamMessage) ensures r == (mqtt_unified_pb::MqttStreamMessage { sequence_id, direction: direction as i32, payload: Some(p) })
//@ ret r
//@ spec
  ensures r matches Some(m) && m.sequence_id == sequence_id && m.direction == direction as i32 && (packet_is(vpacket(*packet)) ==> m.fits() && m.packet() == Some(npacket(vpacket(*packet))))
//@ end
//@ fn mqtt_grpc_duality/src/lib.rs convert_stream_message_to_mqtt_packet
//@ for C27
//@ closure 0 |p: mqttv3pb::mqtt_packet::Packet| -> (r: MqttPacket) ensures p.fits() ==> vpacket(r) == p.v()
//@ closure 1 |p: mqttv5pb::mqtt_packet::Packet| -> (r: MqttPacket) ensures p.fits() ==> vpacket(r) == p.v()
//@ ret r
//@ spec
  ensures msg.fits() ==> match r { Some(p) => msg.packet() == Some(vpacket(p)), None => msg.packet() is None }
//@ end
/// C27: there and back again
fn c27_round(packet: &MqttPacket, sequence_id: u64, direction: mqtt_unified_pb::MessageDirection) -> (r: Option<MqttPacket>)
    ensures packet_is(vpacket(*packet)) ==> (r matches Some(p) && vpacket(p) == npacket(vpacket(*packet)))
{
    match convert_mqtt_to_stream_message(packet, sequence_id, direction) { Some(m) => convert_stream_message_to_mqtt_packet(m), None => None }
}
// ---- nothing is lost of a packet that says what MQTT lets it say
spec fn prop_said(p: VProp) -> bool { is_truth(p.id) ==> (p.val matches VVal::Byte(x) ==> x <= 1) }
spec fn props_said(s: Seq<VProp>) -> bool { forall|i: int| 0 <= i < s.len() ==> prop_said(#[trigger] s[i]) }
proof fn props_kept(s: Seq<VProp>) requires props_said(s) ensures nprops(s) == s
{ assert forall|i: int| 0 <= i < s.len() implies nprop(#[trigger] s[i]) == s[i] by { assert(prop_said(s[i])); } assert(nprops(s) =~= s); }
spec fn packet_said(v: VPacket) -> bool {
    match v {
        VPacket::Connect5(x) => connect5_is(x) && props_said(x.props) && x.user != Some(Seq::<char>::empty()) && x.pass != Some(Seq::<u8>::empty()) && (x.will matches Some(w) ==> props_said(w.props.user) && (w.props.pfi matches Some(b) ==> b <= 1)),
        VPacket::Publish5(x) => props_said(x.props) && x.id != Some(0u16),
        VPacket::ConnAck5(x) => props_said(x.props), VPacket::PubAck5(x) => props_said(x.props), VPacket::PubRec5(x) => props_said(x.props), VPacket::PubRel5(x) => props_said(x.props), VPacket::PubComp5(x) => props_said(x.props),
        VPacket::Subscribe5(x) => props_said(x.props), VPacket::SubAck5(x) => props_said(x.props), VPacket::Unsubscribe5(x) => props_said(x.props), VPacket::UnsubAck5(x) => props_said(x.props), VPacket::Disconnect5(x) => props_said(x.props), VPacket::Auth(x) => props_said(x.props),
        VPacket::Connect3(x) => x.user != Some(Seq::<char>::empty()) && x.pass != Some(Seq::<u8>::empty()),
        VPacket::Publish3(x) => x.id != Some(0u16),
        _ => true,
    }
}
proof fn c27_kept(v: VPacket)
    requires packet_said(v)
    ensures packet_is(v), npacket(v) == v
{
    match v {
        VPacket::Connect5(x) => {
            props_kept(x.props);
            if let Some(w) = x.will { props_kept(w.props.user); }
            if let Some(s) = x.user { if s.len() == 0 { assert(s =~= Seq::<char>::empty()); } }
            if let Some(s) = x.pass { if s.len() == 0 { assert(s =~= Seq::<u8>::empty()); } }
        }
        VPacket::Connect3(x) => {
            if let Some(s) = x.user { if s.len() == 0 { assert(s =~= Seq::<char>::empty()); } }
            if let Some(s) = x.pass { if s.len() == 0 { assert(s =~= Seq::<u8>::empty()); } }
        }
        VPacket::Publish5(x) => { props_kept(x.props); }
        VPacket::ConnAck5(x) => { props_kept(x.props); } VPacket::PubAck5(x) => { props_kept(x.props); } VPacket::PubRec5(x) => { props_kept(x.props); } VPacket::PubRel5(x) => { props_kept(x.props); } VPacket::PubComp5(x) => { props_kept(x.props); }
        VPacket::Subscribe5(x) => { props_kept(x.props); } VPacket::SubAck5(x) => { props_kept(x.props); } VPacket::Unsubscribe5(x) => { props_kept(x.props); } VPacket::UnsubAck5(x) => { props_kept(x.props); } VPacket::Disconnect5(x) => { props_kept(x.props); } VPacket::Auth(x) => { props_kept(x.props); }
        _ => {}
    }
}
