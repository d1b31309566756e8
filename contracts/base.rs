//@ include prelude.inc
//@ include base.inc
verus! {
//@ include vbi.inc
//@ include basefns.inc

// ---------------------------------------------------------------- C02: round trips
proof fn c02_u16(v: u16, rest: Seq<u8>)
    ensures un16((be16(v) + rest)[0], (be16(v) + rest)[1]) == v, be16(v).len() == 2
{}
proof fn c02_u32(v: u32, rest: Seq<u8>)
    ensures ({ let b = be32(v) + rest; un32(b[0], b[1], b[2], b[3]) == v }), be32(v).len() == 4
{}
proof fn c02_binary(d: Seq<u8>, rest: Seq<u8>)
    requires d.len() <= 65535
    ensures ({ let b = bin(d) + rest; bin_at(b, 0, b.len() as int) == Some((d, (2 + d.len()) as int)) })
{
    let b = bin(d) + rest;
    c02_u16(d.len() as u16, rest);
    assert(un16(b[0], b[1]) == d.len());
    assert(b.subrange(2, 2 + d.len() as int) =~= d);
}
proof fn c02_text(s: Seq<char>, rest: Seq<u8>)
    requires encode_utf8(s).len() <= 65535
    ensures ({ let b = bin(encode_utf8(s)) + rest; text_at(b, 0, b.len() as int) == Some((s, (2 + encode_utf8(s).len()) as int)) })
{
    c02_binary(encode_utf8(s), rest);
    encode_utf8_valid_utf8(s);
    encode_utf8_decode_utf8(s);
}
fn main(){}
}
