// ---------------------------------------------------------------- reading back what was written
/// `x` stands at offset `o` of `b`
spec fn has(b: Seq<u8>, o: int, x: Seq<u8>) -> bool { 0 <= o && o + x.len() <= b.len() && b.subrange(o, o + x.len()) == x }
proof fn has_cat(b: Seq<u8>, o: int, x: Seq<u8>, y: Seq<u8>)
    requires has(b, o, x + y)
    ensures has(b, o, x), has(b, o + x.len(), y)
{
    let z = b.subrange(o, o + (x + y).len());
    assert(b.subrange(o, o + x.len()) =~= z.subrange(0, x.len() as int));
    assert(z.subrange(0, x.len() as int) =~= x);
    assert(b.subrange(o + x.len(), o + x.len() + y.len()) =~= z.subrange(x.len() as int, z.len() as int));
    assert(z.subrange(x.len() as int, z.len() as int) =~= y);
}
proof fn has_byte(b: Seq<u8>, o: int, x: u8)
    requires has(b, o, seq![x])
    ensures b[o] == x, o + 1 <= b.len()
{ assert(b.subrange(o, o + 1)[0] == seq![x][0]); }
proof fn has_be16(b: Seq<u8>, o: int, v: u16)
    requires has(b, o, be16(v))
    ensures o + 2 <= b.len(), un16(b[o], b[o + 1]) == v, be16(v).len() == 2
{
    let z = b.subrange(o, o + 2);
    assert(z[0] == b[o] && z[1] == b[o + 1]);
}
proof fn has_be32(b: Seq<u8>, o: int, v: u32)
    requires has(b, o, be32(v))
    ensures o + 4 <= b.len(), un32(b[o], b[o + 1], b[o + 2], b[o + 3]) == v, be32(v).len() == 4
{
    let z = b.subrange(o, o + 4);
    assert(z[0] == b[o] && z[1] == b[o + 1] && z[2] == b[o + 2] && z[3] == b[o + 3]);
}
proof fn bin_here(b: Seq<u8>, o: int, t: int, d: Seq<u8>)
    requires has(b, o, bin(d)), d.len() <= 65535, o + bin(d).len() <= t <= b.len()
    ensures bin_at(b, o, t) == Some((d, o + bin(d).len())), bin(d).len() == 2 + d.len()
{
    has_cat(b, o, be16(d.len() as u16), d);
    has_be16(b, o, d.len() as u16);
}
proof fn text_here(b: Seq<u8>, o: int, t: int, s: Seq<char>)
    requires has(b, o, text(s)), text_ok(s), o + text(s).len() <= t <= b.len()
    ensures text_at(b, o, t) == Some((s, o + text(s).len())), text(s).len() >= 2
{
    bin_here(b, o, t, encode_utf8(s));
    encode_utf8_valid_utf8(s);
    encode_utf8_decode_utf8(s);
}
proof fn vbi_here(b: Seq<u8>, o: int, t: int, v: nat)
    requires has(b, o, vbi(v)), v <= 268435455, o + vbi(v).len() <= t <= b.len()
    ensures vbi_in(b, o, t) == Some((v, o + vbi(v).len())), 1 <= vbi(v).len() <= 4
{
    let rest = b.subrange(o + vbi(v).len(), t);
    c01_roundtrip(v, rest);
    assert(b.subrange(o, t) =~= vbi(v) + rest);
}
