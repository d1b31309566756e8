// ---------------------------------------------------------------- C03: properties (MQTT 5 section 2.2.2.2, table 2-4)
enum Kind { Byte, Two, Four, Vbi, Text, Bin, Pair }
enum VVal { Byte(u8), Two(u16), Four(u32), Vbi(nat), Text(Seq<char>), Bin(Seq<u8>), Pair(Seq<char>, Seq<char>) }
struct VProp { id: nat, val: VVal }
/// the standard's table: identifier -> type of the value
spec fn kind_of(id: nat) -> Option<Kind> {
    if id == 0x01 || id == 0x17 || id == 0x19 || id == 0x24 || id == 0x25 || id == 0x28 || id == 0x29 || id == 0x2a { Some(Kind::Byte) } else
    if id == 0x13 || id == 0x21 || id == 0x22 || id == 0x23 { Some(Kind::Two) } else
    if id == 0x02 || id == 0x11 || id == 0x18 || id == 0x27 { Some(Kind::Four) } else
    if id == 0x0b { Some(Kind::Vbi) } else
    if id == 0x03 || id == 0x08 || id == 0x12 || id == 0x15 || id == 0x1a || id == 0x1c || id == 0x1f { Some(Kind::Text) } else
    if id == 0x09 || id == 0x16 { Some(Kind::Bin) } else
    if id == 0x26 { Some(Kind::Pair) } else
    { None }
}
/// the standard's table: property -> identifier and value
spec fn vprop(p: Property) -> VProp {
    match p {
        Property::PayloadFormatIndicator(v) => VProp { id: 0x01, val: VVal::Byte(v) },
        Property::MessageExpiryInterval(v) => VProp { id: 0x02, val: VVal::Four(v) },
        Property::ContentType(v) => VProp { id: 0x03, val: VVal::Text(v@) },
        Property::ResponseTopic(v) => VProp { id: 0x08, val: VVal::Text(v@) },
        Property::CorrelationData(v) => VProp { id: 0x09, val: VVal::Bin(v@) },
        Property::SubscriptionIdentifier(v) => VProp { id: 0x0b, val: VVal::Vbi(v as nat) },
        Property::SessionExpiryInterval(v) => VProp { id: 0x11, val: VVal::Four(v) },
        Property::AssignedClientIdentifier(v) => VProp { id: 0x12, val: VVal::Text(v@) },
        Property::ServerKeepAlive(v) => VProp { id: 0x13, val: VVal::Two(v) },
        Property::AuthenticationMethod(v) => VProp { id: 0x15, val: VVal::Text(v@) },
        Property::AuthenticationData(v) => VProp { id: 0x16, val: VVal::Bin(v@) },
        Property::RequestProblemInformation(v) => VProp { id: 0x17, val: VVal::Byte(v) },
        Property::WillDelayInterval(v) => VProp { id: 0x18, val: VVal::Four(v) },
        Property::RequestResponseInformation(v) => VProp { id: 0x19, val: VVal::Byte(v) },
        Property::ResponseInformation(v) => VProp { id: 0x1a, val: VVal::Text(v@) },
        Property::ServerReference(v) => VProp { id: 0x1c, val: VVal::Text(v@) },
        Property::ReasonString(v) => VProp { id: 0x1f, val: VVal::Text(v@) },
        Property::ReceiveMaximum(v) => VProp { id: 0x21, val: VVal::Two(v) },
        Property::TopicAliasMaximum(v) => VProp { id: 0x22, val: VVal::Two(v) },
        Property::TopicAlias(v) => VProp { id: 0x23, val: VVal::Two(v) },
        Property::MaximumQoS(v) => VProp { id: 0x24, val: VVal::Byte(v) },
        Property::RetainAvailable(v) => VProp { id: 0x25, val: VVal::Byte(v) },
        Property::UserProperty(k, v) => VProp { id: 0x26, val: VVal::Pair(k@, v@) },
        Property::MaximumPacketSize(v) => VProp { id: 0x27, val: VVal::Four(v) },
        Property::WildcardSubscriptionAvailable(v) => VProp { id: 0x28, val: VVal::Byte(v) },
        Property::SubscriptionIdentifierAvailable(v) => VProp { id: 0x29, val: VVal::Byte(v) },
        Property::SharedSubscriptionAvailable(v) => VProp { id: 0x2a, val: VVal::Byte(v) },
    }
}
spec fn vprops(s: Seq<Property>) -> Seq<VProp> { Seq::new(s.len(), |i: int| vprop(s[i])) }
