// ---------------------------------------------------------------- C03: round trip of properties
spec fn kind_in(v: VVal) -> Kind {
    match v { VVal::Byte(_) => Kind::Byte, VVal::Two(_) => Kind::Two, VVal::Four(_) => Kind::Four, VVal::Vbi(_) => Kind::Vbi, VVal::Text(_) => Kind::Text, VVal::Bin(_) => Kind::Bin, VVal::Pair(_, _) => Kind::Pair }
}
/// the identifier is one of the standard's, and the value has its type and fits the wire
spec fn prop_wf(p: VProp) -> bool { kind_of(p.id) == Some(kind_in(p.val)) && val_ok(p.val) }
spec fn props_wf(s: Seq<VProp>) -> bool { forall|i: int| 0 <= i < s.len() ==> prop_wf(#[trigger] s[i]) }
/// C03: every property has the standard's identifier and type
proof fn c03_table(p: Property)
    ensures kind_of(vprop(p).id) == Some(kind_in(vprop(p).val)), 0 < vprop(p).id < 43
{}
/// C03: no two properties share an identifier and value
proof fn c03_injective(p: Property, q: Property)
    requires vprop(p) == vprop(q)
    ensures match (p, q) {
        (Property::PayloadFormatIndicator(a), Property::PayloadFormatIndicator(b)) => a == b,
        (Property::MessageExpiryInterval(a), Property::MessageExpiryInterval(b)) => a == b,
        (Property::ContentType(a), Property::ContentType(b)) => a@ == b@,
        (Property::ResponseTopic(a), Property::ResponseTopic(b)) => a@ == b@,
        (Property::CorrelationData(a), Property::CorrelationData(b)) => a@ == b@,
        (Property::SubscriptionIdentifier(a), Property::SubscriptionIdentifier(b)) => a == b,
        (Property::SessionExpiryInterval(a), Property::SessionExpiryInterval(b)) => a == b,
        (Property::AssignedClientIdentifier(a), Property::AssignedClientIdentifier(b)) => a@ == b@,
        (Property::ServerKeepAlive(a), Property::ServerKeepAlive(b)) => a == b,
        (Property::AuthenticationMethod(a), Property::AuthenticationMethod(b)) => a@ == b@,
        (Property::AuthenticationData(a), Property::AuthenticationData(b)) => a@ == b@,
        (Property::RequestProblemInformation(a), Property::RequestProblemInformation(b)) => a == b,
        (Property::WillDelayInterval(a), Property::WillDelayInterval(b)) => a == b,
        (Property::RequestResponseInformation(a), Property::RequestResponseInformation(b)) => a == b,
        (Property::ResponseInformation(a), Property::ResponseInformation(b)) => a@ == b@,
        (Property::ServerReference(a), Property::ServerReference(b)) => a@ == b@,
        (Property::ReasonString(a), Property::ReasonString(b)) => a@ == b@,
        (Property::ReceiveMaximum(a), Property::ReceiveMaximum(b)) => a == b,
        (Property::TopicAliasMaximum(a), Property::TopicAliasMaximum(b)) => a == b,
        (Property::TopicAlias(a), Property::TopicAlias(b)) => a == b,
        (Property::MaximumQoS(a), Property::MaximumQoS(b)) => a == b,
        (Property::RetainAvailable(a), Property::RetainAvailable(b)) => a == b,
        (Property::UserProperty(a, c), Property::UserProperty(b, d)) => a@ == b@ && c@ == d@,
        (Property::MaximumPacketSize(a), Property::MaximumPacketSize(b)) => a == b,
        (Property::WildcardSubscriptionAvailable(a), Property::WildcardSubscriptionAvailable(b)) => a == b,
        (Property::SubscriptionIdentifierAvailable(a), Property::SubscriptionIdentifierAvailable(b)) => a == b,
        (Property::SharedSubscriptionAvailable(a), Property::SharedSubscriptionAvailable(b)) => a == b,
        _ => false,
    }
{ hide(kind_of); }
proof fn val_here(b: Seq<u8>, o: int, t: int, v: VVal)
    requires has(b, o, val_bytes(v)), val_ok(v), o + val_bytes(v).len() <= t <= b.len()
    ensures val_at(kind_in(v), b, o, t) == Some((v, o + val_bytes(v).len()))
{
    match v {
        VVal::Byte(x) => { has_byte(b, o, x); }
        VVal::Two(x) => { has_be16(b, o, x); }
        VVal::Four(x) => { has_be32(b, o, x); }
        VVal::Vbi(x) => { vbi_here(b, o, t, x); }
        VVal::Text(s) => { text_here(b, o, t, s); }
        VVal::Bin(d) => { bin_here(b, o, t, d); }
        VVal::Pair(k, w) => { has_cat(b, o, text(k), text(w)); text_here(b, o, t, k); text_here(b, o + text(k).len(), t, w); }
    }
}
proof fn prop_here(b: Seq<u8>, o: int, t: int, p: VProp)
    requires has(b, o, prop_bytes(p)), prop_wf(p), o + prop_bytes(p).len() <= t <= b.len()
    ensures prop_at(b, o, t) == Some((p, o + prop_bytes(p).len())), prop_bytes(p).len() >= 1
{
    assert(p.id < 128) by { assert(kind_of(p.id) is Some); }
    has_cat(b, o, seq![p.id as u8], val_bytes(p.val));
    assert(vbi(p.id) =~= seq![p.id as u8]) by { reveal_with_fuel(vbi, 2); }
    vbi_here(b, o, t, p.id);
    val_here(b, o + 1, t, p.val);
}
proof fn props_front(p: VProp, r: Seq<VProp>)
    ensures props_bytes(seq![p] + r) == prop_bytes(p) + props_bytes(r)
    decreases r.len()
{
    let s = seq![p] + r;
    if r.len() == 0 {
        assert(s.drop_last() =~= seq![]);
        assert(s.last() == p);
        assert(props_bytes(s.drop_last()) =~= seq![]);
        assert(props_bytes(s) =~= prop_bytes(p) + props_bytes(r));
    } else {
        assert(s.drop_last() =~= seq![p] + r.drop_last());
        assert(s.last() == r.last());
        props_front(p, r.drop_last());
        assert(props_bytes(s) =~= prop_bytes(p) + props_bytes(r));
    }
}
proof fn props_here(b: Seq<u8>, o: int, s: Seq<VProp>)
    requires has(b, o, props_bytes(s)), props_wf(s)
    ensures props_at(b, o, o + props_bytes(s).len()) == Some(s)
    decreases s.len()
{
    if s.len() == 0 { assert(s =~= seq![]); }
    else {
        let r = s.skip(1);
        assert(s =~= seq![s[0]] + r);
        props_front(s[0], r);
        has_cat(b, o, prop_bytes(s[0]), props_bytes(r));
        prop_here(b, o, o + props_bytes(s).len(), s[0]);
        assert(props_wf(r)) by { assert forall|i: int| 0 <= i < r.len() implies prop_wf(#[trigger] r[i]) by { assert(r[i] == s[i + 1]); } }
        props_here(b, o + prop_bytes(s[0]).len(), r);
    }
}
proof fn phdr_here(b: Seq<u8>, o: int, t: int, s: Seq<VProp>)
    requires has(b, o, phdr(s)), props_wf(s), props_bytes(s).len() <= 268435455, o + phdr(s).len() <= t <= b.len()
    ensures phdr_at(b, o, t) == Some((s, o + phdr(s).len())), phdr(s).len() >= 1
{
    has_cat(b, o, vbi(props_bytes(s).len()), props_bytes(s));
    vbi_here(b, o, t, props_bytes(s).len());
    props_here(b, o + vbi(props_bytes(s).len()).len(), s);
}
/// C03: a property section decodes back to the properties it was made of, and to exactly its length, whatever follows
proof fn c03_roundtrip(s: Seq<VProp>, rest: Seq<u8>)
    requires props_wf(s), props_bytes(s).len() <= 268435455
    ensures ({ let b = phdr(s) + rest; phdr_at(b, 0, b.len() as int) == Some((s, phdr(s).len() as int)) })
{
    let b = phdr(s) + rest;
    assert(b.subrange(0, phdr(s).len() as int) =~= phdr(s));
    phdr_here(b, 0, b.len() as int, s);
}
/// C03: the properties a program holds are well formed as soon as they fit the wire
proof fn c03_wf(ps: Seq<Property>)
    requires props_ok(vprops(ps))
    ensures props_wf(vprops(ps))
{
    assert forall|i: int| 0 <= i < ps.len() implies prop_wf(#[trigger] vprops(ps)[i]) by { c03_table(ps[i]); assert(val_ok(vprops(ps)[i].val)); }
}
/// C03: an unknown identifier is an error
proof fn c03_unknown(b: Seq<u8>, o: int, t: int)
    requires 0 <= o < t <= b.len(), b[o] < 128, kind_of(b[o] as nat) is None
    ensures prop_at(b, o, t) is None, props_at(b, o, t) is None
{
    let c = b.subrange(o, t);
    assert(c[0] == b[o]);
    reveal_with_fuel(vdec, 2);
    assert(vbi_in(b, o, t) == Some((b[o] as nat, o + 1)));
}
/// C03: a section longer than the buffer is an error
proof fn c03_short(b: Seq<u8>, n: nat, m: int)
    requires vbi_in(b, 0, b.len() as int) == Some((n, m)), m + n > b.len()
    ensures phdr_at(b, 0, b.len() as int) is None
{}
