
// the Variable Byte Integer of MQTT 5 section 1.5.5
pub open spec fn vbi(v: nat) -> Seq<u8>
    decreases v
{
    if v < 128 { seq![v as u8] } else { seq![(v % 128 + 128) as u8] + vbi(v / 128) }
}
pub open spec fn p128(i: nat) -> nat { if i == 0 { 1 } else if i == 1 { 128 } else if i == 2 { 16384 } else { 2097152 } }
/// value and length of the integer at the front of `b`, reading from byte `i`; None: more than 4 bytes or cut short
pub open spec fn vdec(b: Seq<u8>, i: nat) -> Option<(nat, nat)>
    decreases 4 - i
{
    if i >= 4 || b.len() <= i { None }
    else if b[i as int] < 128 { Some((b[i as int] as nat * p128(i), i + 1)) }
    else { match vdec(b, i + 1) { Some((v, n)) => Some((v + (b[i as int] - 128) as nat * p128(i), n)), None => None } }
}
/// the bytes so far are a proper prefix of some integer
pub open spec fn vcut(b: Seq<u8>) -> bool { b.len() < 4 && forall|i: int| 0 <= i < b.len() ==> b[i] >= 128 }
pub open spec fn vbi_at(b: Seq<u8>) -> Option<(nat, nat)> {
    match vdec(b, 0) { Some((v, n)) => if n > 1 && b[n - 1] == 0 { None } else { Some((v, n)) }, None => None }
}
proof fn vbi_len(v: nat)
    requires v <= 268435455
    ensures vbi(v).len() == if v < 128 { 1 } else if v < 16384 { 2 } else if v < 2097152 { 3int } else { 4 }
{
    reveal_with_fuel(vbi, 5);
}
proof fn vbi_most(v: nat)
    requires v <= 0xffff_ffff
    ensures vbi(v).len() <= 5
{
    reveal_with_fuel(vbi, 6);
}
/// C01: every integer decodes back, whatever follows it, and the encoding is the shortest one
proof fn c01_roundtrip(v: nat, rest: Seq<u8>)
    requires v <= 268435455
    ensures vbi_at(vbi(v) + rest) == Some((v, vbi(v).len())), 1 <= vbi(v).len() <= 4
{
    vbi_len(v);
    reveal_with_fuel(vbi, 5);
    reveal_with_fuel(vdec, 5);
    let b = vbi(v) + rest;
    if v < 128 {
        assert(b[0] == v);
    } else if v < 16384 {
        assert(b[0] == v % 128 + 128); assert(b[1] == v / 128);
        assert(v == (v % 128) + (v / 128) * 128);
    } else if v < 2097152 {
        assert(b[0] == v % 128 + 128); assert(b[1] == (v / 128) % 128 + 128); assert(b[2] == v / 128 / 128);
        assert(v == (v % 128) + ((v / 128) % 128) * 128 + (v / 128 / 128) * 16384) by (nonlinear_arith);
    } else {
        assert(b[0] == v % 128 + 128); assert(b[1] == (v / 128) % 128 + 128); assert(b[2] == (v / 128 / 128) % 128 + 128);
        assert(b[3] == v / 128 / 128 / 128);
        assert(v == (v % 128) + ((v / 128) % 128) * 128 + ((v / 128 / 128) % 128) * 16384 + (v / 128 / 128 / 128) * 2097152) by (nonlinear_arith);
    }
}
/// one byte more in front
proof fn vbi_cons(lo: nat, hi: nat)
    requires lo < 128, hi > 0
    ensures vbi(lo + hi * 128) == seq![(lo + 128) as u8] + vbi(hi)
{
    let v = (lo + hi * 128) as int;
    assert(v % 128 == lo && v / 128 == hi && v >= 128) by (nonlinear_arith) requires v == lo + hi * 128, 0 <= lo < 128, hi > 0;
    reveal_with_fuel(vbi, 2);
}
pub open spec fn pmul(x: nat, i: nat) -> nat { if i == 0 { x } else if i == 1 { x * 128 } else if i == 2 { x * 16384 } else { x * 2097152 } }
/// one step of the decoding
proof fn vdec_step(b: Seq<u8>, i: nat)
    ensures match vdec(b, i) {
        Some((v, n)) => i < n <= 4 && n <= b.len() && (b[i as int] < 128 <==> n == i + 1) && (n == i + 1 ==> v == pmul(b[i as int] as nat, i))
            && (n > i + 1 ==> match vdec(b, i + 1) { Some((w, m)) => m == n && v == w + pmul((b[i as int] - 128) as nat, i), None => false }),
        None => true,
    }
    decreases 4 - i
{
    if i < 4 {
        vdec_step(b, i + 1);
        if i < b.len() {
            let x = b[i as int] as nat;
            let y = (b[i as int] - 128) as nat;
            assert(p128(i) == pmul(1, i));
            if i == 0 { assert(p128(i) == 1); }
            assert(x * p128(i) == pmul(x, i)) by (nonlinear_arith) requires p128(i) == (if i == 0 { 1 } else if i == 1 { 128 } else if i == 2 { 16384 } else { 2097152int }), pmul(x, i) == (if i == 0 { x } else if i == 1 { x * 128 } else if i == 2 { x * 16384 } else { x * 2097152 });
            if x >= 128 {
                assert(y * p128(i) == pmul(y, i)) by (nonlinear_arith) requires p128(i) == (if i == 0 { 1 } else if i == 1 { 128 } else if i == 2 { 16384 } else { 2097152int }), pmul(y, i) == (if i == 0 { y } else if i == 1 { y * 128 } else if i == 2 { y * 16384 } else { y * 2097152 });
            }
        }
    }
}
/// C01: what decodes re-encodes to the very same bytes
proof fn c01_canonical(b: Seq<u8>)
    ensures match vbi_at(b) { Some((v, n)) => v <= 268435455 && 1 <= n <= 4 && n <= b.len() && vbi(v) == b.subrange(0, n as int), None => true }
{
    hide(vdec);
    if let Some((v, n)) = vbi_at(b) {
        vdec_step(b, 0); vdec_step(b, 1); vdec_step(b, 2); vdec_step(b, 3);
        let d = |i: int| (b[i] - 128) as nat;
        let l = b[n - 1] as nat;
        assert(vbi(l) =~= seq![b[n - 1]]) by { reveal_with_fuel(vbi, 2); }
        if n == 1 {
            assert(v == l);
            assert(vbi(v) =~= b.subrange(0, 1));
        } else if n == 2 {
            assert(v == d(0) + l * 128);
            vbi_cons(d(0), l);
            assert(vbi(v) =~= b.subrange(0, 2));
        } else if n == 3 {
            let h = d(1) + l * 128;
            assert(v == d(0) + h * 128);
            vbi_cons(d(1), l); vbi_cons(d(0), h);
            assert(vbi(v) =~= b.subrange(0, 3));
        } else {
            let h2 = d(2) + l * 128;
            let h1 = d(1) + h2 * 128;
            assert(v == d(0) + h1 * 128);
            vbi_cons(d(2), l); vbi_cons(d(1), h2); vbi_cons(d(0), h1);
            assert(vbi(v) =~= b.subrange(0, 4));
        }
    }
}
pub open spec fn moved<T>(x: Option<(T, int)>, d: int) -> Option<(T, int)> {
    match x { Some((v, e)) => Some((v, e + d)), None => None }
}
/// an integer at offset `o` of `b`, not passing `t`: its value and the offset after it
pub open spec fn vbi_in(b: Seq<u8>, o: int, t: int) -> Option<(nat, int)> {
    match vbi_at(b.subrange(o, t)) { Some((v, n)) => Some((v, o + n)), None => None }
}
pub broadcast proof fn vbi_part(b: Seq<u8>, x: int, y: int, p: int, q: int)
    requires 0 <= x <= y <= b.len(), 0 <= p <= q <= y - x
    ensures #[trigger] vbi_in(b.subrange(x, y), p, q) == moved(vbi_in(b, x + p, x + q), -x)
{ assert(b.subrange(x, y).subrange(p, q) =~= b.subrange(x + p, x + q)); }
//@ item src/mqtt_serde/parser/mod.rs ParseError
//@ item src/mqtt_serde/base_data.rs VariableByteInteger
//@ fn src/mqtt_serde/base_data.rs VariableByteInteger::encode
//@ ret r
//@ spec
  ensures r@ == vbi(val as nat)
//@ loop 0
  invariant_except_break bytes@ + vbi(num as nat) == vbi(val as nat),
  ensures bytes@ == vbi(val as nat),
  decreases num
//@ loop 0 begin
  let ghost b0 = bytes@;
  let ghost n0 = num;
//@ loop 0 end
  proof { assert(b0 + vbi(n0 as nat) =~= bytes@ + vbi(num as nat)); }
//@ before byte |= 128
  proof { let b0 = byte; assert(b0 < 128 ==> (b0 | 128) == b0 + 128) by (bit_vector); }
//@ before if num == 0
  proof {
    reveal_with_fuel(vbi, 2);
    assert(vbi(n0 as nat) =~= if num == 0 { seq![byte] } else { seq![byte] + vbi(num as nat) });
    if num == 0 { assert(b0 + vbi(n0 as nat) =~= bytes@); }
  }
//@ end
//@ fn src/mqtt_serde/base_data.rs VariableByteInteger::decode
//@ ret r
//@ spec
  ensures
    match r {
      Ok((v, n)) => vbi_at(buffer@) == Some((v as nat, n as nat)) && v <= 268435455 && 1 <= n <= 4 && n <= buffer@.len(),
      Err(e) => vbi_at(buffer@) is None && ((e is More || e is BufferTooShort) <==> vcut(buffer@)) && (buffer@.len() > 0 ==> (e is More <==> vcut(buffer@))),
    }
//@ loop 0
  invariant_except_break
    0 <= i <= 3, i <= buffer@.len(), buffer@.len() > 0, multiplier == p128(i as nat),
    value < multiplier,
    forall|k: int| 0 <= k < i ==> buffer@[k] >= 128,
    vdec(buffer@, 0) == (match vdec(buffer@, i as nat) { Some((v, n)) => Some((v + value as nat, n)), None => None }),
  invariant buffer@.len() > 0
  ensures 1 <= i <= 4, i <= buffer@.len(), buffer@[i - 1] < 128, vdec(buffer@, 0) == Some((value as nat, i as nat)), value <= 268435455,
  decreases 4 - i
//@ loop 0 begin
  proof { reveal_with_fuel(vdec, 3); }
//@ before value +=
  proof {
    assert(byte & 127 == (if byte < 128 { byte } else { (byte - 128) as u8 })) by (bit_vector);
    assert((byte & 127) * multiplier <= 127 * multiplier) by (nonlinear_arith) requires byte & 127 <= 127, multiplier >= 0;
    reveal_with_fuel(vdec, 2);
  }
//@ before if byte & 128
  proof { assert((byte & 128 == 0) <==> byte < 128) by (bit_vector); }
//@ end
