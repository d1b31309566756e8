// ---------------------------------------------------------------- the frame: fixed header and remaining length
/// where the body of the first frame of `b` begins and where the frame ends (which may be past the end of `b`)
spec fn hdr(b: Seq<u8>) -> Option<(int, int)> {
    if b.len() == 0 { None } else { match vbi_in(b, 1, b.len() as int) { Some((n, h)) => Some((h, h + n)), None => None } }
}
/// marks `t` as an end up to which the lemmas below relate what is read
spec fn upto(b: Seq<u8>, t: int) -> bool { true }
spec fn within<T>(x: Option<(T, int)>, t: int) -> Option<(T, int)> {
    match x { Some((v, e)) => if e <= t { x } else { None }, None => None }
}
proof fn vdec_less(s: Seq<u8>, k: int, i: nat)
    requires 0 <= k <= s.len()
    ensures vdec(s.take(k), i) == (match vdec(s, i) { Some((v, n)) => if n <= k { Some((v, n)) } else { None }, None => None })
    decreases 4 - i
{
    vdec_step(s, i);
    if i < 4 { vdec_less(s, k, i + 1); }
}
broadcast proof fn vbi_less(b: Seq<u8>, o: int, t: int, u: int)
    requires 0 <= o <= t <= u <= b.len(), #[trigger] upto(b, t)
    ensures vbi_in(b, o, t) == within(#[trigger] vbi_in(b, o, u), t)
{
    let s = b.subrange(o, u);
    assert(b.subrange(o, t) =~= s.take(t - o));
    vdec_less(s, t - o, 0);
    vdec_step(s, 0);
}
broadcast proof fn bin_less(b: Seq<u8>, o: int, t: int, u: int)
    requires 0 <= o <= t <= u <= b.len(), #[trigger] upto(b, t)
    ensures bin_at(b, o, t) == within(#[trigger] bin_at(b, o, u), t)
{}
broadcast proof fn text_less(b: Seq<u8>, o: int, t: int, u: int)
    requires 0 <= o <= t <= u <= b.len(), #[trigger] upto(b, t)
    ensures text_at(b, o, t) == within(#[trigger] text_at(b, o, u), t)
{}
broadcast proof fn phdr_less(b: Seq<u8>, o: int, t: int, u: int)
    requires 0 <= o <= t <= u <= b.len(), #[trigger] upto(b, t)
    ensures phdr_at(b, o, t) == within(#[trigger] phdr_at(b, o, u), t)
{ vbi_less(b, o, t, u); }
/// what is read never begins before `o` or ends past `t`
broadcast proof fn bin_bound(b: Seq<u8>, o: int, t: int)
    ensures (#[trigger] bin_at(b, o, t)) matches Some((_, e)) ==> o + 2 <= e <= t
{}
broadcast proof fn text_bound(b: Seq<u8>, o: int, t: int)
    ensures (#[trigger] text_at(b, o, t)) matches Some((_, e)) ==> o + 2 <= e <= t
{}
broadcast proof fn phdr_bound(b: Seq<u8>, o: int, t: int)
    requires 0 <= o <= t <= b.len()
    ensures (#[trigger] phdr_at(b, o, t)) matches Some((_, e)) ==> o < e <= t
{ vbi_range(b, o, t); }
broadcast proof fn vbi_bound(b: Seq<u8>, o: int, t: int)
    requires 0 <= o <= t <= b.len()
    ensures (#[trigger] vbi_in(b, o, t)) matches Some((v, e)) ==> o < e <= t && e <= o + 4 && v <= 268435455
{ c01_canonical(b.subrange(o, t)); }
/// C06: the header of a frame is the header of the frame alone
proof fn hdr_alone(b: Seq<u8>)
    ensures match hdr(b) { Some((h, t)) => 2 <= h <= 5 && h <= t && h <= b.len() && (t <= b.len() ==> hdr(b.take(t)) == hdr(b)), None => true }
{
    broadcast use {vbi_bound, vbi_part};
    if let Some((h, t)) = hdr(b) {
        if t <= b.len() {
            assert(upto(b, t));
            vbi_less(b, 1, t, b.len() as int);
            assert(b.take(t) == b.subrange(0, t));
        }
    }
}
/// C07: the header does not change when more bytes arrive
proof fn hdr_more(b: Seq<u8>, c: Seq<u8>)
    ensures hdr(b) is Some ==> hdr(b + c) == hdr(b)
{
    broadcast use {vbi_bound, vbi_part};
    let d = b + c;
    if b.len() > 0 {
        assert(d.subrange(0, b.len() as int) =~= b);
        assert(upto(d, b.len() as int));
        vbi_less(d, 1, b.len() as int, d.len() as int);
    }
}

// ---- what a packet is, as values
trait Wire {
    /// packet type and flags of the fixed header
    spec fn ty(&self) -> u8;
    spec fn fl(&self) -> u8;
    /// the values have a place on the wire
    spec fn sane(&self) -> bool;
    /// can the encoder take it, and what it writes after the fixed header
    spec fn vh_ok(&self) -> bool;
    spec fn vh(&self) -> Seq<u8>;
    spec fn pl_ok(&self) -> bool;
    spec fn pl(&self) -> Seq<u8>;
}
spec fn first(ty: u8, fl: u8) -> u8 { ty << 4 | fl }
broadcast proof fn first_val(ty: u8, fl: u8)
    requires ty < 16, fl < 16
    ensures #[trigger] first(ty, fl) == ty * 16 + fl
{ assert(ty << 4 | fl == ty * 16 + fl) by (bit_vector) requires ty < 16, fl < 16; }
spec fn body<V: Wire>(v: V) -> Seq<u8> { v.vh() + v.pl() }
spec fn fixed(first: u8, n: nat) -> Seq<u8> { seq![first] + vbi(n) }
spec fn frame<V: Wire>(v: V) -> Seq<u8> { fixed(first(v.ty(), v.fl()), body(v).len()) + body(v) }
/// the length of the fixed header
spec fn hlen<V: Wire>(v: V) -> int { (1 + vbi(body(v).len()).len()) as int }
spec fn small(n: nat) -> bool { n <= 268435455 }
/// what a decoder may answer when `d` is the packet in the frame at the front of `b`
spec fn outcome(b: Seq<u8>, r: Result<ParseOk, ParseError>, d: Option<VPacket>) -> bool {
    match r {
        Ok(ParseOk::Packet(p, n)) => d == Some(vpacket(p)) && hdr(b) is Some && n == (hdr(b)->Some_0).1 && n <= b.len(),
        Ok(ParseOk::Continue(k, z)) => d is None && z == 0 && k > 0 && match hdr(b) { Some((_, t)) => k == t - b.len(), None => b.len() == 1 },
        Ok(ParseOk::TopicName(_, _)) => false,
        Err(_) => d is None,
    }
}
/// the frame of an encoded packet, in front of anything
proof fn frame_here<V: Wire>(v: V, rest: Seq<u8>)
    requires small(body(v).len())
    ensures ({
        let b = frame(v) + rest;
        let h = hlen(v);
        let t = frame(v).len() as int;
        hdr(b) == Some((h, t)) && t <= b.len() && t == h + body(v).len() && b[0] == first(v.ty(), v.fl()) && 2 <= h <= 5
        && has(b, h, body(v)) && has(b, h, v.vh()) && has(b, (h + v.vh().len()) as int, v.pl())
    })
{
    let b = frame(v) + rest;
    let n = body(v).len();
    let f = frame(v).len() as int;
    assert(b.subrange(0, f) =~= frame(v));
    has_cat(b, 0, fixed(first(v.ty(), v.fl()), n), body(v));
    has_cat(b, 0, seq![first(v.ty(), v.fl())], vbi(n));
    has_byte(b, 0, first(v.ty(), v.fl()));
    vbi_here(b, 1, b.len() as int, n);
    has_cat(b, (1 + vbi(n).len()) as int, v.vh(), v.pl());
}
broadcast proof fn vprops_none(s: Seq<Property>)
    requires s.len() == 0
    ensures #[trigger] vprops(s) == Seq::<VProp>::empty()
{ assert(vprops(s) =~= Seq::<VProp>::empty()); }
/// (keeps the functions that a `hide` names in the query)
spec fn seen(b: Seq<u8>) -> bool { true || phdr_at(b, 0, 0) is Some || text_at(b, 0, 0) is Some || bin_at(b, 0, 0) is Some || vbi_in(b, 0, 0) is Some || bit(b[0], 1) || un16(b[0], b[0]) == 0 }
