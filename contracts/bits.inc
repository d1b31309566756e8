// ---------------------------------------------------------------- bit operations as arithmetic
spec fn bit(x: u8, n: u8) -> bool { (x / n) % 2 == 1 }
broadcast proof fn shr4(x: u8) ensures #[trigger] (x >> 4) == x / 16 { assert(x >> 4 == x / 16) by (bit_vector); }
broadcast proof fn shr3(x: u8) ensures #[trigger] (x >> 3) == x / 8 { assert(x >> 3 == x / 8) by (bit_vector); }
broadcast proof fn shr1(x: u8) ensures #[trigger] (x >> 1) == x / 2 { assert(x >> 1 == x / 2) by (bit_vector); }
broadcast proof fn low4(x: u8) ensures #[trigger] (x & 0x0F) == x % 16 { assert(x & 0x0F == x % 16) by (bit_vector); }
broadcast proof fn low2(x: u8) ensures #[trigger] (x & 0x03) == x % 4 { assert(x & 0x03 == x % 4) by (bit_vector); }
broadcast proof fn mask1(x: u8) ensures #[trigger] (x & 0x01) == x % 2 { assert(x & 0x01 == x % 2) by (bit_vector); }
broadcast proof fn mask2(x: u8) ensures #[trigger] (x & 0x02) == ((x / 2) % 2) * 2 { assert(x & 0x02 == mul(((x / 2) % 2), 2)) by (bit_vector); }
broadcast proof fn mask4(x: u8) ensures #[trigger] (x & 0x04) == ((x / 4) % 2) * 4 { assert(x & 0x04 == mul(((x / 4) % 2), 4)) by (bit_vector); }
broadcast proof fn mask8(x: u8) ensures #[trigger] (x & 0x08) == ((x / 8) % 2) * 8 { assert(x & 0x08 == mul(((x / 8) % 2), 8)) by (bit_vector); }
broadcast proof fn mask20(x: u8) ensures #[trigger] (x & 0x20) == ((x / 32) % 2) * 32 { assert(x & 0x20 == mul(((x / 32) % 2), 32)) by (bit_vector); }
broadcast proof fn mask40(x: u8) ensures #[trigger] (x & 0x40) == ((x / 64) % 2) * 64 { assert(x & 0x40 == mul(((x / 64) % 2), 64)) by (bit_vector); }
broadcast proof fn mask80(x: u8) ensures #[trigger] (x & 0x80) == (x / 128) * 128 { assert(x & 0x80 == mul((x / 128), 128)) by (bit_vector); }
broadcast proof fn mask6(x: u8) ensures #[trigger] (x & 0x06) == ((x / 2) % 4) * 2 { assert(x & 0x06 == mul(((x / 2) % 4), 2)) by (bit_vector); }
broadcast proof fn mask18(x: u8) ensures #[trigger] (x & 0x18) == ((x / 8) % 4) * 8 { assert(x & 0x18 == mul(((x / 8) % 4), 8)) by (bit_vector); }
broadcast proof fn maskfe(x: u8) ensures #[trigger] (x & 0xFE) == x - x % 2 { assert(x & 0xFE == sub(x, x % 2)) by (bit_vector); }
broadcast proof fn maskc0(x: u8) ensures #[trigger] (x & 0xC0) == x - x % 64 { assert(x & 0xC0 == sub(x, x % 64)) by (bit_vector); }
broadcast proof fn shl1(x: u8) requires x < 128 ensures #[trigger] (x << 1) == x * 2 { assert(x << 1 == mul(x, 2)) by (bit_vector) requires x < 128; }
broadcast proof fn shl3(x: u8) requires x < 32 ensures #[trigger] (x << 3) == x * 8 { assert(x << 3 == mul(x, 8)) by (bit_vector) requires x < 32; }
broadcast proof fn shl4(x: u8) requires x < 16 ensures #[trigger] (x << 4) == x * 16 { assert(x << 4 == mul(x, 16)) by (bit_vector) requires x < 16; }
spec fn below(x: u8, y: u8) -> bool {
    (x < 2 && y % 2 == 0) || (x < 4 && y % 4 == 0) || (x < 8 && y % 8 == 0) || (x < 16 && y % 16 == 0) || (x < 32 && y % 32 == 0) || (x < 64 && y % 64 == 0) || (x < 128 && y % 128 == 0)
}
/// x has its bits where y has none
spec fn apart(x: u8, y: u8) -> bool {
    below(x, y) || below(y, x)
    || (y == 1 && !bit(x, 1)) || (y == 2 && !bit(x, 2)) || (y == 4 && !bit(x, 4)) || (y == 8 && !bit(x, 8)) || (y == 16 && !bit(x, 16)) || (y == 32 && !bit(x, 32)) || (y == 64 && !bit(x, 64)) || (y == 128 && !bit(x, 128))
    || ((y == 8 || y == 16 || y == 24) && (x / 8) % 4 == 0)
}
broadcast proof fn or_apart(x: u8, y: u8)
    requires apart(x, y)
    ensures #[trigger] (x | y) == x + y
{
    assert((x | y) == add(x, y) && x <= 255 - y) by (bit_vector)
        requires (x < 2 && y % 2 == 0) || (x < 4 && y % 4 == 0) || (x < 8 && y % 8 == 0) || (x < 16 && y % 16 == 0) || (x < 32 && y % 32 == 0) || (x < 64 && y % 64 == 0) || (x < 128 && y % 128 == 0)
            || (y < 2 && x % 2 == 0) || (y < 4 && x % 4 == 0) || (y < 8 && x % 8 == 0) || (y < 16 && x % 16 == 0) || (y < 32 && x % 32 == 0) || (y < 64 && x % 64 == 0) || (y < 128 && x % 128 == 0)
            || (y == 1 && x % 2 != 1) || (y == 2 && (x / 2) % 2 != 1) || (y == 4 && (x / 4) % 2 != 1) || (y == 8 && (x / 8) % 2 != 1) || (y == 16 && (x / 16) % 2 != 1) || (y == 32 && (x / 32) % 2 != 1) || (y == 64 && (x / 64) % 2 != 1) || (y == 128 && (x / 128) % 2 != 1)
            || ((y == 8 || y == 16 || y == 24) && (x / 8) % 4 == 0);
}
broadcast group bits { shr4, shr3, shr1, low4, low2, mask1, mask2, mask4, mask8, mask20, mask40, mask80, mask6, mask18, maskfe, maskc0, shl1, shl3, shl4, or_apart }
// ---- a flag byte, read bit by bit
broadcast proof fn is_bit2(x: u8) ensures (#[trigger] (x & 0x02) != 0) == bit(x, 2), x & 0x02 >= 0 { mask2(x); }
broadcast proof fn is_bit4(x: u8) ensures (#[trigger] (x & 0x04) != 0) == bit(x, 4), x & 0x04 >= 0 { mask4(x); }
broadcast proof fn is_bit20(x: u8) ensures (#[trigger] (x & 0x20) != 0) == bit(x, 32), x & 0x20 >= 0 { mask20(x); }
broadcast proof fn is_bit40(x: u8) ensures (#[trigger] (x & 0x40) != 0) == bit(x, 64), x & 0x40 >= 0 { mask40(x); }
broadcast proof fn is_bit80(x: u8) ensures (#[trigger] (x & 0x80) != 0) == bit(x, 128), x & 0x80 >= 0 { mask80(x); }
broadcast proof fn two_at3(x: u8) ensures #[trigger] ((x & 0x18) >> 3) == (x / 8) % 4 { assert((x & 0x18) >> 3 == (x / 8) % 4) by (bit_vector); }
broadcast proof fn two_by3(x: u8) ensures #[trigger] ((x >> 3) & 0x03) == (x / 8) % 4 { assert((x >> 3) & 0x03 == (x / 8) % 4) by (bit_vector); }
broadcast group flagbits { shr4, low4, mask1, is_bit2, is_bit4, is_bit20, is_bit40, is_bit80, two_at3, two_by3 }
// ---- byte sequences, put together from the left
broadcast proof fn cat_assoc(x: Seq<u8>, y: Seq<u8>, z: Seq<u8>) ensures #[trigger] ((x + y) + z) == x + (y + z) { assert((x + y) + z =~= x + (y + z)); }
broadcast proof fn cat_none(x: Seq<u8>) ensures #[trigger] (Seq::<u8>::empty() + x) == x { assert(Seq::<u8>::empty() + x =~= x); }
broadcast proof fn cat_end(x: Seq<u8>) ensures #[trigger] (x + Seq::<u8>::empty()) == x { assert(x + Seq::<u8>::empty() =~= x); }
broadcast proof fn cat_push(x: Seq<u8>, c: u8) ensures #[trigger] x.push(c) == x + seq![c] { assert(x.push(c) =~= x + seq![c]); }
broadcast group cats { cat_assoc, cat_none, cat_end, cat_push }
