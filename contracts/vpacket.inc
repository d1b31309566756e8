// ---------------------------------------------------------------- packets as values
struct VAck5 { k: u8, id: u16, code: u8, props: Seq<VProp> }
struct VAck3 { k: u8, id: u16 }
struct VEmpty { k: u8 }
struct VConnAck5 { sp: bool, code: u8, props: Seq<VProp> }
struct VConnAck3 { sp: bool, code: u8 }
struct VPublish5 { qos: u8, dup: bool, retain: bool, topic: Seq<char>, id: Option<u16>, props: Seq<VProp>, load: Seq<u8> }
struct VPublish3 { qos: u8, dup: bool, retain: bool, topic: Seq<char>, id: Option<u16>, load: Seq<u8> }
struct VSub5 { filter: Seq<char>, qos: u8, nl: bool, rap: bool, rh: u8 }
struct VSubscribe5 { id: u16, props: Seq<VProp>, subs: Seq<VSub5> }
struct VCodes5 { k: u8, id: u16, props: Seq<VProp>, codes: Seq<u8> }
struct VUnsubscribe5 { id: u16, props: Seq<VProp>, filters: Seq<Seq<char>> }
struct VReason5 { k: u8, code: u8, props: Seq<VProp> }
struct VSub3 { filter: Seq<char>, qos: u8 }
struct VSubscribe3 { id: u16, subs: Seq<VSub3> }
struct VCodes3 { id: u16, codes: Seq<u8> }
struct VUnsubscribe3 { id: u16, filters: Seq<Seq<char>> }
struct VWillProps { delay: Option<u32>, pfi: Option<u8>, mei: Option<u32>, ct: Option<Seq<char>>, rt: Option<Seq<char>>, cd: Option<Seq<u8>>, user: Seq<VProp> }
struct VWill5 { qos: u8, retain: bool, topic: Seq<char>, msg: Seq<u8>, props: VWillProps }
struct VWill3 { qos: u8, retain: bool, topic: Seq<char>, msg: Seq<u8> }
struct VConnect5 { name: Seq<char>, version: u8, clean: bool, keep: u16, props: Seq<VProp>, cid: Seq<char>, will: Option<VWill5>, user: Option<Seq<char>>, pass: Option<Seq<u8>> }
struct VConnect3 { name: Seq<char>, version: u8, clean: bool, keep: u16, cid: Seq<char>, will: Option<VWill3>, user: Option<Seq<char>>, pass: Option<Seq<u8>> }
enum VPacket {
    Connect5(VConnect5), ConnAck5(VConnAck5), Publish5(VPublish5), PubAck5(VAck5), PubRec5(VAck5), PubRel5(VAck5), PubComp5(VAck5),
    Subscribe5(VSubscribe5), SubAck5(VCodes5), Unsubscribe5(VUnsubscribe5), UnsubAck5(VCodes5), PingReq5(VEmpty), PingResp5(VEmpty), Disconnect5(VReason5), Auth(VReason5),
    Connect3(VConnect3), ConnAck3(VConnAck3), Publish3(VPublish3), PubAck3(VAck3), PubRec3(VAck3), PubRel3(VAck3), PubComp3(VAck3),
    Subscribe3(VSubscribe3), SubAck3(VCodes3), Unsubscribe3(VUnsubscribe3), UnsubAck3(VAck3), PingReq3(VEmpty), PingResp3(VEmpty), Disconnect3(VEmpty),
}
spec fn vpacket(p: MqttPacket) -> VPacket {
    match p {
        MqttPacket::Connect5(p) => VPacket::Connect5(p.v()), MqttPacket::ConnAck5(p) => VPacket::ConnAck5(p.v()), MqttPacket::Publish5(p) => VPacket::Publish5(p.v()),
        MqttPacket::PubAck5(p) => VPacket::PubAck5(p.v()), MqttPacket::PubRec5(p) => VPacket::PubRec5(p.v()), MqttPacket::PubRel5(p) => VPacket::PubRel5(p.v()), MqttPacket::PubComp5(p) => VPacket::PubComp5(p.v()),
        MqttPacket::Subscribe5(p) => VPacket::Subscribe5(p.v()), MqttPacket::SubAck5(p) => VPacket::SubAck5(p.v()), MqttPacket::Unsubscribe5(p) => VPacket::Unsubscribe5(p.v()), MqttPacket::UnsubAck5(p) => VPacket::UnsubAck5(p.v()),
        MqttPacket::PingReq5(p) => VPacket::PingReq5(p.v()), MqttPacket::PingResp5(p) => VPacket::PingResp5(p.v()), MqttPacket::Disconnect5(p) => VPacket::Disconnect5(p.v()), MqttPacket::Auth(p) => VPacket::Auth(p.v()),
        MqttPacket::Connect3(p) => VPacket::Connect3(p.v()), MqttPacket::ConnAck3(p) => VPacket::ConnAck3(p.v()), MqttPacket::Publish3(p) => VPacket::Publish3(p.v()),
        MqttPacket::PubAck3(p) => VPacket::PubAck3(p.v()), MqttPacket::PubRec3(p) => VPacket::PubRec3(p.v()), MqttPacket::PubRel3(p) => VPacket::PubRel3(p.v()), MqttPacket::PubComp3(p) => VPacket::PubComp3(p.v()),
        MqttPacket::Subscribe3(p) => VPacket::Subscribe3(p.v()), MqttPacket::SubAck3(p) => VPacket::SubAck3(p.v()), MqttPacket::Unsubscribe3(p) => VPacket::Unsubscribe3(p.v()), MqttPacket::UnsubAck3(p) => VPacket::UnsubAck3(p.v()),
        MqttPacket::PingReq3(p) => VPacket::PingReq3(p.v()), MqttPacket::PingResp3(p) => VPacket::PingResp3(p.v()), MqttPacket::Disconnect3(p) => VPacket::Disconnect3(p.v()),
    }
}
impl MqttPubAck5 { spec fn v(&self) -> VAck5 { VAck5 { k: 4, id: self.packet_id, code: self.reason_code, props: vprops(self.properties@) } } }
impl MqttPubRec5 { spec fn v(&self) -> VAck5 { VAck5 { k: 5, id: self.packet_id, code: self.reason_code, props: vprops(self.properties@) } } }
impl MqttPubRel5 { spec fn v(&self) -> VAck5 { VAck5 { k: 6, id: self.packet_id, code: self.reason_code, props: vprops(self.properties@) } } }
impl MqttPubComp5 { spec fn v(&self) -> VAck5 { VAck5 { k: 7, id: self.packet_id, code: self.reason_code, props: vprops(self.properties@) } } }
impl MqttPubAck3 { spec fn v(&self) -> VAck3 { VAck3 { k: 4, id: self.message_id } } }
impl MqttPubRec3 { spec fn v(&self) -> VAck3 { VAck3 { k: 5, id: self.message_id } } }
impl MqttPubRel3 { spec fn v(&self) -> VAck3 { VAck3 { k: 6, id: self.message_id } } }
impl MqttPubComp3 { spec fn v(&self) -> VAck3 { VAck3 { k: 7, id: self.message_id } } }
impl MqttUnsubAck3 { spec fn v(&self) -> VAck3 { VAck3 { k: 11, id: self.message_id } } }
impl MqttPingReq5 { spec fn v(&self) -> VEmpty { VEmpty { k: 12 } } }
impl MqttPingResp5 { spec fn v(&self) -> VEmpty { VEmpty { k: 13 } } }
impl MqttPingReq3 { spec fn v(&self) -> VEmpty { VEmpty { k: 12 } } }
impl MqttPingResp3 { spec fn v(&self) -> VEmpty { VEmpty { k: 13 } } }
impl MqttDisconnect3 { spec fn v(&self) -> VEmpty { VEmpty { k: 14 } } }
impl MqttConnAck5 { spec fn v(&self) -> VConnAck5 { VConnAck5 { sp: self.session_present, code: self.reason_code, props: match self.properties { Some(p) => vprops(p@), None => seq![] } } } }
impl MqttConnAck3 { spec fn v(&self) -> VConnAck3 { VConnAck3 { sp: self.session_present, code: self.return_code } } }
impl MqttPublish5 { spec fn v(&self) -> VPublish5 { VPublish5 { qos: self.qos, dup: self.dup, retain: self.retain, topic: self.topic_name@, id: self.packet_id, props: vprops(self.properties@), load: self.payload@ } } }
impl MqttPublish3 { spec fn v(&self) -> VPublish3 { VPublish3 { qos: self.qos, dup: self.dup, retain: self.retain, topic: self.topic_name@, id: self.message_id, load: self.payload@ } } }
impl TopicSubscription { spec fn v(&self) -> VSub5 { VSub5 { filter: self.topic_filter@, qos: self.qos, nl: self.no_local, rap: self.retain_as_published, rh: self.retain_handling } } }
spec fn vsubs5(s: Seq<TopicSubscription>) -> Seq<VSub5> { Seq::new(s.len(), |i: int| s[i].v()) }
spec fn vtexts(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
impl MqttSubscribe5 { spec fn v(&self) -> VSubscribe5 { VSubscribe5 { id: self.packet_id, props: vprops(self.properties@), subs: vsubs5(self.subscriptions@) } } }
impl MqttSubAck5 { spec fn v(&self) -> VCodes5 { VCodes5 { k: 9, id: self.packet_id, props: vprops(self.properties@), codes: self.reason_codes@ } } }
impl MqttUnsubAck5 { spec fn v(&self) -> VCodes5 { VCodes5 { k: 11, id: self.packet_id, props: vprops(self.properties@), codes: self.reason_codes@ } } }
impl MqttUnsubscribe5 { spec fn v(&self) -> VUnsubscribe5 { VUnsubscribe5 { id: self.packet_id, props: vprops(self.properties@), filters: vtexts(self.topic_filters@) } } }
impl MqttDisconnect5 { spec fn v(&self) -> VReason5 { VReason5 { k: 14, code: self.reason_code, props: vprops(self.properties@) } } }
impl MqttAuth5 { spec fn v(&self) -> VReason5 { VReason5 { k: 15, code: self.reason_code, props: vprops(self.properties@) } } }
impl SubscriptionTopic { spec fn v(&self) -> VSub3 { VSub3 { filter: self.topic_filter@, qos: self.qos } } }
spec fn vsubs3(s: Seq<SubscriptionTopic>) -> Seq<VSub3> { Seq::new(s.len(), |i: int| s[i].v()) }
impl MqttSubscribe3 { spec fn v(&self) -> VSubscribe3 { VSubscribe3 { id: self.message_id, subs: vsubs3(self.subscriptions@) } } }
impl MqttSubAck3 { spec fn v(&self) -> VCodes3 { VCodes3 { id: self.message_id, codes: self.return_codes@ } } }
impl MqttUnsubscribe3 { spec fn v(&self) -> VUnsubscribe3 { VUnsubscribe3 { id: self.message_id, filters: vtexts(self.topic_filters@) } } }
spec fn vtext(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
spec fn vdata(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(s) => Some(s@), None => None } }
impl WillProperties { spec fn v(&self) -> VWillProps { VWillProps { delay: self.will_delay_interval, pfi: self.payload_format_indicator, mei: self.message_expiry_interval, ct: vtext(self.content_type), rt: vtext(self.response_topic), cd: vdata(self.correlation_data), user: vprops(self.user_properties@) } } }
impl Will5 { spec fn v(&self) -> VWill5 { VWill5 { qos: self.will_qos, retain: self.will_retain, topic: self.will_topic@, msg: self.will_message@, props: self.properties.v() } } }
impl Will3 { spec fn v(&self) -> VWill3 { VWill3 { qos: self.qos, retain: self.retain, topic: self.topic@, msg: self.message@ } } }
impl MqttConnect5 { spec fn v(&self) -> VConnect5 { VConnect5 { name: self.protocol_name@, version: self.protocol_version, clean: self.clean_start, keep: self.keep_alive, props: vprops(self.properties@), cid: self.client_id@, will: match self.will { Some(w) => Some(w.v()), None => None }, user: vtext(self.username), pass: vdata(self.password) } } }
impl MqttConnect3 { spec fn v(&self) -> VConnect3 { VConnect3 { name: self.protocol_name@, version: self.protocol_version, clean: self.clean_session, keep: self.keep_alive, cid: self.client_id@, will: match self.will { Some(w) => Some(w.v()), None => None }, user: vtext(self.username), pass: vdata(self.password) } } }
