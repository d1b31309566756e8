
pub open spec fn bin(d: Seq<u8>) -> Seq<u8> { be16(d.len() as u16) + d }
pub open spec fn text(s: Seq<char>) -> Seq<u8> { bin(encode_utf8(s)) }
/// a length-prefixed field at offset `o` of `b`, not passing `t`: the bytes and the offset after them
pub open spec fn bin_at(b: Seq<u8>, o: int, t: int) -> Option<(Seq<u8>, int)> {
    if t < o + 2 { None }
    else { let e = o + 2 + un16(b[o], b[o + 1]); if t < e { None } else { Some((b.subrange(o + 2, e), e)) } }
}
pub open spec fn text_at(b: Seq<u8>, o: int, t: int) -> Option<(Seq<char>, int)> {
    match bin_at(b, o, t) { Some((d, e)) => if valid_utf8(d) { Some((decode_utf8(d), e)) } else { None }, None => None }
}
pub open spec fn pair_at(b: Seq<u8>, o: int, t: int) -> Option<((Seq<char>, Seq<char>), int)> {
    match text_at(b, o, t) {
        Some((k, m)) => match text_at(b, m, t) { Some((v, e)) => Some(((k, v), e)), None => None },
        None => None,
    }
}
/// what is read in a part of `b` is what is read there in `b`
pub broadcast proof fn bin_part(b: Seq<u8>, x: int, y: int, p: int, q: int)
    requires 0 <= x <= y <= b.len(), 0 <= p <= q <= y - x
    ensures #[trigger] bin_at(b.subrange(x, y), p, q) == moved(bin_at(b, x + p, x + q), -x)
{
    let c = b.subrange(x, y);
    if q >= p + 2 {
        assert(c[p] == b[x + p] && c[p + 1] == b[x + p + 1]);
        let e = p + 2 + un16(c[p], c[p + 1]);
        if q >= e { assert(c.subrange(p + 2, e) =~= b.subrange(x + p + 2, x + e)); }
    }
}
pub broadcast proof fn text_part(b: Seq<u8>, x: int, y: int, p: int, q: int)
    requires 0 <= x <= y <= b.len(), 0 <= p <= q <= y - x
    ensures #[trigger] text_at(b.subrange(x, y), p, q) == moved(text_at(b, x + p, x + q), -x)
{ bin_part(b, x, y, p, q); }
//@ item src/mqtt_serde/base_data.rs TwoByteInteger
//@ fn src/mqtt_serde/base_data.rs TwoByteInteger::encode
//@ ret r
//@ spec
  ensures r@ == be16(val)
//@ end
//@ fn src/mqtt_serde/base_data.rs TwoByteInteger::decode
//@ ret r
//@ spec
  ensures
    bytes@.len() < 2 ==> r is Err,
    bytes@.len() >= 2 ==> r == Ok::<(u16,usize),ParseError>((un16(bytes@[0], bytes@[1]), 2)),
//@ end
//@ item src/mqtt_serde/base_data.rs FourByteInteger
//@ fn src/mqtt_serde/base_data.rs FourByteInteger::encode
//@ ret r
//@ spec
  ensures r@ == be32(val)
//@ end
//@ fn src/mqtt_serde/base_data.rs FourByteInteger::decode
//@ ret r
//@ spec
  ensures
    bytes@.len() < 4 ==> r is Err,
    bytes@.len() >= 4 ==> r == Ok::<(u32,usize),ParseError>((un32(bytes@[0], bytes@[1], bytes@[2], bytes@[3]), 4)),
//@ end
//@ item src/mqtt_serde/base_data.rs BinaryData
//@ fn src/mqtt_serde/base_data.rs BinaryData::encode
//@ ret r
//@ spec
  ensures r@ == bin(data@)
//@ begin
  proof { axiom_slice_len(data); }
//@ end
//@ fn src/mqtt_serde/base_data.rs BinaryData::decode
//@ ret r
//@ spec
  ensures
    match r {
      Ok((v, n)) => bin_at(bytes@, 0, bytes@.len() as int) == Some((v@, n as int)) && n <= bytes@.len(),
      Err(_) => bin_at(bytes@, 0, bytes@.len() as int) is None,
    }
//@ end
//@ item src/mqtt_serde/base_data.rs Utf8String
//@ fn src/mqtt_serde/base_data.rs Utf8String::encode
//@ ret r
//@ spec
  ensures r@ == text(s@)
//@ end
//@ fn src/mqtt_serde/base_data.rs Utf8String::decode
//@ ret r
//@ spec
  ensures
    match r {
      Ok((v, n)) => text_at(bytes@, 0, bytes@.len() as int) == Some((v@, n as int)) && n <= bytes@.len(),
      Err(_) => text_at(bytes@, 0, bytes@.len() as int) is None,
    }
//@ end
//@ item src/mqtt_serde/base_data.rs Utf8StringPair
//@ fn src/mqtt_serde/base_data.rs Utf8StringPair::encode
//@ ret r
//@ spec
  ensures r@ == text(key@) + text(value@)
//@ end
//@ fn src/mqtt_serde/base_data.rs Utf8StringPair::decode
//@ ret r
//@ spec
  ensures
    match r {
      Ok(((k, v), n)) => pair_at(bytes@, 0, bytes@.len() as int) == Some(((k@, v@), n as int)) && n <= bytes@.len(),
      Err(_) => pair_at(bytes@, 0, bytes@.len() as int) is None,
    }
//@ begin
  proof { axiom_slice_len(bytes); }
  broadcast use text_part;
//@ end
