//@ fn $F $T::from_bytes
//@ own
//@ for $C $Y C06
//@ ret r
//@ spec
  ensures outcome(buffer@, r, match hdr(buffer@) { Some((h, t)) => if t <= buffer@.len() { d_$N(buffer@, h, t) } else { None }, None => None }), // [$C $Y]
    r is Err ==> (hdr(buffer@) matches Some((h, t)) ==> (t > buffer@.len() ==> forall|w: Seq<u8>| w.len() > 0 && w[0] == buffer@[0] ==> (#[trigger] d_$N(w, h, t)) is None)) // [C07]
//@ begin
  hide(phdr_at); hide(text_at); hide(bin_at); hide(vbi_in);
  broadcast use {bits, vbi_part, vbi_bound, $B};
  proof { assert(seen(buffer@)); axiom_slice_len(buffer); if let Some((h, t)) = hdr(buffer@) { assert(upto(buffer@, t)); } }
