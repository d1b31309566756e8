// ---- the will of MQTT 5
spec fn vfour(o: Option<u32>) -> Option<VVal> { match o { Some(x) => Some(VVal::Four(x)), None => None } }
spec fn vbyte(o: Option<u8>) -> Option<VVal> { match o { Some(x) => Some(VVal::Byte(x)), None => None } }
spec fn vtxt(o: Option<Seq<char>>) -> Option<VVal> { match o { Some(x) => Some(VVal::Text(x)), None => None } }
spec fn vbin(o: Option<Seq<u8>>) -> Option<VVal> { match o { Some(x) => Some(VVal::Bin(x)), None => None } }
spec fn opt_put(s: Seq<VProp>, id: nat, o: Option<VVal>) -> Seq<VProp> { match o { Some(val) => s.push(VProp { id, val }), None => s } }
/// the will properties as they are sent
spec fn will_front(w: VWillProps) -> Seq<VProp> {
    opt_put(opt_put(opt_put(opt_put(opt_put(opt_put(Seq::<VProp>::empty(), 0x18, vfour(w.delay)), 0x01, vbyte(w.pfi)), 0x02, vfour(w.mei)), 0x03, vtxt(w.ct)), 0x08, vtxt(w.rt)), 0x09, vbin(w.cd))
}
spec fn will_list(w: VWillProps) -> Seq<VProp> { will_front(w) + w.user }
/// and as they are received: the last one of a kind counts
spec fn will_none() -> VWillProps { VWillProps { delay: None, pfi: None, mei: None, ct: None, rt: None, cd: None, user: seq![] } }
spec fn will_put(w: VWillProps, p: VProp) -> VWillProps {
    match p.val {
        VVal::Four(x) => if p.id == 0x18 { VWillProps { delay: Some(x), ..w } } else if p.id == 0x02 { VWillProps { mei: Some(x), ..w } } else { w },
        VVal::Byte(x) => if p.id == 0x01 { VWillProps { pfi: Some(x), ..w } } else { w },
        VVal::Text(x) => if p.id == 0x03 { VWillProps { ct: Some(x), ..w } } else if p.id == 0x08 { VWillProps { rt: Some(x), ..w } } else { w },
        VVal::Bin(x) => if p.id == 0x09 { VWillProps { cd: Some(x), ..w } } else { w },
        VVal::Pair(_, _) => VWillProps { user: w.user.push(p), ..w },
        _ => w,
    }
}
spec fn will_fold(s: Seq<VProp>) -> VWillProps decreases s.len() { if s.len() == 0 { will_none() } else { will_put(will_fold(s.drop_last()), s.last()) } }
broadcast proof fn will_fold_push(s: Seq<VProp>, p: VProp) ensures #[trigger] will_fold(s.push(p)) == will_put(will_fold(s), p) { assert(s.push(p).drop_last() =~= s); }
proof fn will_fold_opt(s: Seq<VProp>, id: nat, o: Option<VVal>)
    ensures will_fold(opt_put(s, id, o)) == match o { Some(val) => will_put(will_fold(s), VProp { id, val }), None => will_fold(s) }
{ if let Some(val) = o { will_fold_push(s, VProp { id, val }); } }
spec fn all_user(s: Seq<VProp>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i].val is Pair }
broadcast proof fn will_fold_user(s: Seq<VProp>, u: Seq<VProp>)
    requires all_user(u)
    ensures #[trigger] will_fold(s + u) == (VWillProps { user: will_fold(s).user + u, ..will_fold(s) })
    decreases u.len()
{
    if u.len() == 0 { assert(s + u =~= s); assert(will_fold(s).user + u =~= will_fold(s).user); }
    else {
        let v = u.drop_last();
        assert(all_user(v)) by { assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i].val is Pair by { assert(u[i].val is Pair); } }
        will_fold_user(s, v);
        assert((s + u).drop_last() =~= s + v);
        assert((s + u).last() == u.last());
        assert(u[u.len() - 1].val is Pair);
        assert((will_fold(s).user + v).push(u.last()) =~= will_fold(s).user + u);
    }
}
proof fn will_back(w: VWillProps)
    requires all_user(w.user)
    ensures will_fold(will_list(w)) == w
{
    let s0 = Seq::<VProp>::empty();
    let s1 = opt_put(s0, 0x18, vfour(w.delay)); will_fold_opt(s0, 0x18, vfour(w.delay));
    let s2 = opt_put(s1, 0x01, vbyte(w.pfi)); will_fold_opt(s1, 0x01, vbyte(w.pfi));
    let s3 = opt_put(s2, 0x02, vfour(w.mei)); will_fold_opt(s2, 0x02, vfour(w.mei));
    let s4 = opt_put(s3, 0x03, vtxt(w.ct)); will_fold_opt(s3, 0x03, vtxt(w.ct));
    let s5 = opt_put(s4, 0x08, vtxt(w.rt)); will_fold_opt(s4, 0x08, vtxt(w.rt));
    will_fold_opt(s5, 0x09, vbin(w.cd));
    will_fold_user(will_front(w), w.user);
    assert(will_fold(will_front(w)).user + w.user =~= w.user);
}
broadcast proof fn vprops_push(s: Seq<Property>, p: Property) ensures #[trigger] vprops(s.push(p)) == vprops(s).push(vprop(p)) { assert(vprops(s.push(p)) =~= vprops(s).push(vprop(p))); }
broadcast proof fn vprops_cat(s: Seq<Property>, u: Seq<Property>) ensures #[trigger] vprops(s + u) == vprops(s) + vprops(u) { assert(vprops(s + u) =~= vprops(s) + vprops(u)); }
// trusted: what #[derive(Default)] makes of the fields
impl WillProperties {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.v() == will_none() { unimplemented!() }
}
