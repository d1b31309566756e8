//@ fn src/mqtt_serde/parser/leveled.rs $F
//@ own
//@ for C08
//@ path crate::mqtt_serde::mqttv5::common::properties::parse_properties_hdr parse_properties_hdr
//@ path crate::mqtt_serde::parser::parse_utf8_string parse_utf8_string
//@ ret r
//@ spec
  requires remaining_len == body@.len()
  ensures r matches Ok((_, n)) ==> n <= body@.len(),
    forall|b: Seq<u8>, h: int, t: int| #[trigger] in_frame(body@, b, h, t) && $G ==> agrees(r, body@, $D) // [C08]
//@ begin
  hide(phdr_at); hide(text_at); hide(bin_at); hide(vbi_in); hide(un16);
  broadcast use {bits, vbi_part, vbi_bound, phdr_part, phdr_bound, text_part, text_bound, vprops_none};
  proof { assert(seen(body@)); axiom_slice_len(body); }
