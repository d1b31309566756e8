broadcast proof fn push_app(s: Seq<u8>, x: u8, t: Seq<u8>)
    ensures #[trigger] (s.push(x) + t) == s + (seq![x] + t)
{ assert(s.push(x) + t =~= s + (seq![x] + t)); }
broadcast proof fn push_push(s: Seq<u8>, x: u8, y: u8)
    ensures #[trigger] s.push(x).push(y) == s + (seq![x] + seq![y])
{ assert(s.push(x).push(y) =~= s + (seq![x] + seq![y])); }
broadcast proof fn push_app2(s: Seq<u8>, x: u8, t: Seq<u8>, u: Seq<u8>)
    ensures #[trigger] ((s.push(x) + t) + u) == s + (seq![x] + (t + u))
{ assert((s.push(x) + t) + u =~= s + (seq![x] + (t + u))); }
//@ item src/mqtt_serde/mqttv5/common/properties.rs PropertyID derive=Clone,Copy
//@ fn src/mqtt_serde/mod.rs encode_variable_length
//@ for C01 C03 C04 C05
//@ ret r
//@ spec
  ensures len <= 268435455 ==> r@ == vbi(len as nat), r@.len() <= 5
//@ begin
  proof { vbi_most((len as u32) as nat); }
//@ end
//@ fn src/mqtt_serde/parser/mod.rs vbi as vx_vbi
//@ for C01 C03 C06
//@ path vbi vx_vbi
//@ ret r
//@ spec
  ensures
    match r {
      Ok((v, n)) => vbi_in(buffer@, 0, buffer@.len() as int) == Some((v as nat, n as int)) && v <= 268435455 && 1 <= n <= 4 && n <= buffer@.len(),
      Err(e) => vbi_in(buffer@, 0, buffer@.len() as int) is None && (buffer@.len() > 0 ==> (e is More <==> vcut(buffer@))),
    }
//@ begin
  proof { assert(buffer@.subrange(0, buffer@.len() as int) =~= buffer@); }
//@ end
//@ path vbi vx_vbi
//@ fn src/mqtt_serde/parser/mod.rs parse_vbi
//@ own
//@ for C01 C03 C06
//@ ret r
//@ spec
  ensures
    match r {
      Ok((v, n)) => vbi_in(buffer@, 0, buffer@.len() as int) == Some((v as nat, n as int)) && v <= 268435455 && 1 <= n <= 4 && n <= buffer@.len(),
      Err(e) => vbi_in(buffer@, 0, buffer@.len() as int) is None && (buffer@.len() > 0 ==> (e is More <==> vcut(buffer@))),
    }
//@ end
//@ fn src/mqtt_serde/parser/mod.rs parse_remaining_length
//@ for C01 C06
//@ ret r
//@ spec
  ensures
    match r {
      Ok((v, n)) => vbi_in(buffer@, 0, buffer@.len() as int) == Some((v as nat, n as int)) && v <= 268435455 && 1 <= n <= 4 && n <= buffer@.len(),
      Err(e) => vbi_in(buffer@, 0, buffer@.len() as int) is None && (buffer@.len() > 0 ==> (e is More <==> vcut(buffer@))),
    }
//@ end
//@ fn src/mqtt_serde/parser/mod.rs parse_utf8_string
//@ for C02 C03 C06
//@ ret r
//@ spec
  ensures
    match r {
      Ok((v, n)) => text_at(buffer@, 0, buffer@.len() as int) == Some((v@, n as int)) && n <= buffer@.len(),
      Err(_) => text_at(buffer@, 0, buffer@.len() as int) is None,
    }
//@ end
//@ fn src/mqtt_serde/parser/mod.rs parse_binary_data
//@ for C02 C03 C06
//@ ret r
//@ spec
  ensures
    match r {
      Ok((v, n)) => bin_at(buffer@, 0, buffer@.len() as int) == Some((v@, n as int)) && n <= buffer@.len(),
      Err(_) => bin_at(buffer@, 0, buffer@.len() as int) is None,
    }
//@ end
//@ fn src/mqtt_serde/parser/mod.rs parse_packet_id
//@ for C02 C06
//@ ret r
//@ spec
  ensures
    buffer@.len() < 2 ==> r is Err,
    buffer@.len() >= 2 ==> r == Ok::<(u16,usize),ParseError>((un16(buffer@[0], buffer@[1]), 2)),
//@ end
//@ fn src/mqtt_serde/mqttv5/common/properties.rs property_id
//@ for C03
//@ ret r
//@ spec
  ensures r == property as u8
//@ end
//@ fn src/mqtt_serde/mqttv5/common/properties.rs PropertyID::try_from
//@ for C03
//@ sigsubst Self :: Error ==> ParseError
//@ ret r
//@ spec
  ensures match r { Ok(p) => kind_of(value as nat) is Some && p as u8 == value, Err(_) => kind_of(value as nat) is None }
//@ end
//@ fn src/mqtt_serde/mqttv5/common/properties.rs Property::encode
//@ own
//@ for C03 C11
//@ ret r
//@ spec
  ensures r is Ok <==> val_ok(vprop(*self).val), // [C03 C11]
    r is Ok ==> final(bytes)@ == old(bytes)@ + prop_bytes(vprop(*self)) // [C03]
//@ begin
  hide(text_ok); hide(text); hide(bin); hide(be16); hide(be32); hide(vbi);
  broadcast use {push_app, push_push, push_app2};
//@ end
//@ fn src/mqtt_serde/mqttv5/common/properties.rs parse_property armret
//@ own
//@ for C03 C06
//@ ret r
//@ spec
  ensures match r { Ok((p, n)) => prop_at(buffer@, 0, buffer@.len() as int) == Some((vprop(p), n as int)) && 0 < n <= buffer@.len(), Err(_) => prop_at(buffer@, 0, buffer@.len() as int) is None }
//@ begin
  hide(text_at); hide(bin_at); hide(vbi_in); hide(un16); hide(un32);
  broadcast use {text_part, bin_part, vbi_part};
  proof { axiom_slice_len(buffer); }
//@ end
//@ fn src/mqtt_serde/mqttv5/common/properties.rs parse_properties
//@ own
//@ for C03 C06
//@ ret r
//@ spec
  ensures match r { Ok((p, n)) => props_at(buffer@, 0, buffer@.len() as int) == Some(vprops(p@)) && n == buffer@.len(), Err(_) => props_at(buffer@, 0, buffer@.len() as int) is None }
//@ begin
  broadcast use prop_part;
//@ loop 0
  invariant offset <= buffer@.len(),
    props_at(buffer@, 0, buffer@.len() as int) == (match props_at(buffer@, offset as int, buffer@.len() as int) { Some(r) => Some(vprops(properties@) + r), None => None }),
  decreases buffer@.len() - offset
//@ loop 0 begin
  broadcast use prop_part;
  let ghost p0 = properties@;
//@ loop 0 end
  proof {
    assert(vprops(properties@) =~= vprops(p0).push(vprop(properties@.last())));
    if let Some(r) = props_at(buffer@, offset as int, buffer@.len() as int) { assert(vprops(p0) + (seq![vprop(properties@.last())] + r) =~= vprops(properties@) + r); }
  }
//@ tail
  proof { assert(vprops(properties@) + seq![] =~= vprops(properties@)); }
//@ end
//@ fn src/mqtt_serde/mqttv5/common/properties.rs parse_properties_hdr
//@ own
//@ for C03 C06
//@ ret r
//@ spec
  ensures match r { Ok((p, n)) => phdr_at(buffer@, 0, buffer@.len() as int) == Some((vprops(p@), n as int)) && n <= buffer@.len(), Err(_) => phdr_at(buffer@, 0, buffer@.len() as int) is None }
//@ begin
  broadcast use props_part;
  proof { axiom_slice_len(buffer); }
//@ end
//@ fn src/mqtt_serde/mqttv5/common/properties.rs encode_properities
//@ own
//@ for C03 C11
//@ ret r
//@ spec
  ensures match r { Ok(_) => props_ok(vprops(properties@)) && final(bytes)@ == old(bytes)@ + props_bytes(vprops(properties@)), Err(_) => !props_ok(vprops(properties@)) }
//@ iter 0 it
//@ loop 0
  invariant it.seq().len() == properties@.len(), forall|i: int| 0 <= i < properties@.len() ==> *#[trigger] it.seq()[i] == properties@[i],
    props_ok(vprops(properties@.take(it.index()))), bytes@ == old(bytes)@ + props_bytes(vprops(properties@.take(it.index()))),
//@ loop 0 begin
  let ghost k = it.index();
  let ghost b0 = bytes@;
  proof { assert(vprops(properties@)[k] == vprop(*p)); }
//@ loop 0 end
  proof {
    let u = vprops(properties@.take(k + 1));
    assert forall|i: int| 0 <= i < u.len() implies val_ok((#[trigger] u[i]).val) by { if i < k { assert(u[i] == vprops(properties@.take(k))[i]); } }
    assert(u.drop_last() =~= vprops(properties@.take(k)));
    assert(u.last() == vprop(properties@[k]));
    assert(bytes@ =~= old(bytes)@ + props_bytes(u));
  }
//@ tail
  proof { assert(properties@.take(properties@.len() as int) =~= properties@); }
//@ end
//@ fn src/mqtt_serde/mqttv5/common/properties.rs encode_properities_hdr
//@ own
//@ for C03 C11
//@ ret r
//@ spec
  ensures match r { Ok(v) => props_ok(vprops(properties@)) && (props_bytes(vprops(properties@)).len() <= 268435455 ==> v@ == phdr(vprops(properties@))), Err(_) => !props_ok(vprops(properties@)) }
//@ end
