//@ include propval.inc
spec fn val_bytes(v: VVal) -> Seq<u8> {
    match v {
        VVal::Byte(x) => seq![x], VVal::Two(x) => be16(x), VVal::Four(x) => be32(x), VVal::Vbi(x) => vbi(x),
        VVal::Text(s) => text(s), VVal::Bin(d) => bin(d), VVal::Pair(k, w) => text(k) + text(w),
    }
}
spec fn val_ok(v: VVal) -> bool {
    match v { VVal::Vbi(x) => x <= 268435455, VVal::Text(s) => text_ok(s), VVal::Bin(d) => d.len() <= 65535, VVal::Pair(k, w) => text_ok(k) && text_ok(w), _ => true }
}
spec fn prop_bytes(p: VProp) -> Seq<u8> { seq![p.id as u8] + val_bytes(p.val) }
spec fn props_bytes(s: Seq<VProp>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { seq![] } else { props_bytes(s.drop_last()) + prop_bytes(s.last()) }
}
spec fn props_ok(s: Seq<VProp>) -> bool { forall|i: int| 0 <= i < s.len() ==> val_ok((#[trigger] s[i]).val) }
/// the Properties field of a packet
spec fn phdr(s: Seq<VProp>) -> Seq<u8> { vbi(props_bytes(s).len()) + props_bytes(s) }

spec fn val_at(k: Kind, b: Seq<u8>, o: int, t: int) -> Option<(VVal, int)> {
    match k {
        Kind::Byte => if o + 1 <= t { Some((VVal::Byte(b[o]), o + 1)) } else { None },
        Kind::Two => if o + 2 <= t { Some((VVal::Two(un16(b[o], b[o + 1])), o + 2)) } else { None },
        Kind::Four => if o + 4 <= t { Some((VVal::Four(un32(b[o], b[o + 1], b[o + 2], b[o + 3])), o + 4)) } else { None },
        Kind::Vbi => match vbi_in(b, o, t) { Some((v, e)) => Some((VVal::Vbi(v), e)), None => None },
        Kind::Text => match text_at(b, o, t) { Some((v, e)) => Some((VVal::Text(v), e)), None => None },
        Kind::Bin => match bin_at(b, o, t) { Some((v, e)) => Some((VVal::Bin(v), e)), None => None },
        Kind::Pair => match pair_at(b, o, t) { Some(((k, v), e)) => Some((VVal::Pair(k, v), e)), None => None },
    }
}
spec fn prop_at(b: Seq<u8>, o: int, t: int) -> Option<(VProp, int)> {
    match vbi_in(b, o, t) {
        Some((id, m)) => match kind_of(id) {
            Some(k) => match val_at(k, b, m, t) { Some((val, e)) => Some((VProp { id, val }, e)), None => None },
            None => None,
        },
        None => None,
    }
}
/// the properties that fill b[o..t]
spec fn props_at(b: Seq<u8>, o: int, t: int) -> Option<Seq<VProp>>
    decreases t - o
{
    if o >= t { Some(seq![]) }
    else {
        match prop_at(b, o, t) {
            Some((p, e)) => if o < e <= t { match props_at(b, e, t) { Some(r) => Some(seq![p] + r), None => None } } else { None },
            None => None,
        }
    }
}
spec fn phdr_at(b: Seq<u8>, o: int, t: int) -> Option<(Seq<VProp>, int)> {
    match vbi_in(b, o, t) {
        Some((n, m)) => if m + n > t { None } else { match props_at(b, m, m + n) { Some(ps) => Some((ps, m + n)), None => None } },
        None => None,
    }
}

broadcast proof fn pair_part(b: Seq<u8>, x: int, y: int, p: int, q: int)
    requires 0 <= x <= y <= b.len(), 0 <= p <= q <= y - x
    ensures #[trigger] pair_at(b.subrange(x, y), p, q) == moved(pair_at(b, x + p, x + q), -x)
{ broadcast use text_part; }
broadcast proof fn val_part(k: Kind, b: Seq<u8>, x: int, y: int, p: int, q: int)
    requires 0 <= x <= y <= b.len(), 0 <= p <= q <= y - x
    ensures #[trigger] val_at(k, b.subrange(x, y), p, q) == moved(val_at(k, b, x + p, x + q), -x)
{ broadcast use {text_part, bin_part, vbi_part, pair_part}; }
proof fn vbi_range(b: Seq<u8>, o: int, t: int)
    requires 0 <= o <= t <= b.len()
    ensures vbi_in(b, o, t) matches Some((v, e)) ==> o < e <= t && v <= 268435455
{ c01_canonical(b.subrange(o, t)); }
broadcast proof fn prop_part(b: Seq<u8>, x: int, y: int, p: int, q: int)
    requires 0 <= x <= y <= b.len(), 0 <= p <= q <= y - x
    ensures #[trigger] prop_at(b.subrange(x, y), p, q) == moved(prop_at(b, x + p, x + q), -x)
{ broadcast use {vbi_part, val_part}; vbi_range(b, x + p, x + q); }
broadcast proof fn props_part(b: Seq<u8>, x: int, y: int, p: int, q: int)
    requires 0 <= x <= y <= b.len(), 0 <= p <= q <= y - x
    ensures #[trigger] props_at(b.subrange(x, y), p, q) == props_at(b, x + p, x + q)
    decreases q - p
{
    hide(prop_at);
    broadcast use prop_part;
    if p < q {
        if let Some((_, e)) = prop_at(b.subrange(x, y), p, q) { if p < e <= q { props_part(b, x, y, e, q); } }
    }
}
broadcast proof fn phdr_part(b: Seq<u8>, x: int, y: int, p: int, q: int)
    requires 0 <= x <= y <= b.len(), 0 <= p <= q <= y - x
    ensures #[trigger] phdr_at(b.subrange(x, y), p, q) == moved(phdr_at(b, x + p, x + q), -x)
{ broadcast use {vbi_part, props_part}; vbi_range(b, x + p, x + q); }
