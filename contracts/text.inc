// ---------------------------------------------------------------- C11: text MQTT allows
spec fn text_ok(s: Seq<char>) -> bool {
    encode_utf8(s).len() <= 65535 && !s.contains('\0') && !(s.len() > 0 && s[0] == '\u{FEFF}')
}
//@ fn src/mqtt_serde/mod.rs validate_mqtt_utf8_string
//@ for C03 C04 C05 C11
//@ ret r
//@ spec
  ensures r is Ok <==> !s@.contains('\0') && !(s@.len() > 0 && s@[0] == '\u{FEFF}')
//@ iter 0 it
//@ loop 0
  invariant
    it.seq().len() == s@.len(),
    forall|k: int| 0 <= k < s@.len() ==> (#[trigger] it.seq()[k]).1 == s@[k] && (it.seq()[k].0 == 0 <==> k == 0),
    forall|k: int| 0 <= k < it.index() ==> s@[k] != '\0',
    it.index() > 0 ==> s@[0] != '\u{FEFF}',
//@ end
//@ fn src/mqtt_serde/mod.rs encode_binary_data
//@ for C02 C03 C04 C05
//@ ret r
//@ spec
  ensures match r { Ok(v) => data@.len() <= 65535 && v@ == bin(data@), Err(_) => data@.len() > 65535 }
//@ end
//@ fn src/mqtt_serde/mod.rs encode_utf8_string
//@ for C02 C03 C04 C05 C11
//@ ret r
//@ spec
  ensures match r { Ok(v) => text_ok(s@) && v@ == text(s@), Err(_) => !text_ok(s@) }
//@ end
//@ fn src/mqtt_serde/mod.rs decode_binary_data
//@ for C02 C03
//@ ret r
//@ spec
  ensures
    match r {
      Ok((v, n)) => bin_at(buffer@, 0, buffer@.len() as int) == Some((v@, n as int)) && n <= buffer@.len(),
      Err(_) => bin_at(buffer@, 0, buffer@.len() as int) is None,
    }
//@ end
// ---------------------------------------------------------------- C10: topic filters
spec fn level_seq(f: Seq<char>) -> Seq<Seq<char>> { vx_parts(f, '/', f.len() + 1) }
spec fn level_ok(l: Seq<char>, last: bool) -> bool {
    (has_any(l, '#') ==> l == seq!['#'] && last) && (has_any(l, '+') ==> l == seq!['+'])
}
spec fn filter_ok(f: Seq<char>) -> bool {
    f.len() > 0 && encode_utf8(f).len() <= 65535
    && forall|k: int| 0 <= k < level_seq(f).len() ==> level_ok(#[trigger] level_seq(f)[k], k + 1 == level_seq(f).len())
}
spec fn is_shared(f: Seq<char>) -> bool { starts(f, seq!['$', 's', 'h', 'a', 'r', 'e', '/']) }
spec fn share_ok(f: Seq<char>) -> bool {
    let p = vx_parts(f, '/', 3);
    is_shared(f) ==> p.len() == 3 && p[1].len() > 0 && !has_any(p[1], '#') && !has_any(p[1], '+') && filter_ok(p[2])
}
//@ fn src/mqtt_serde/mod.rs validate_topic_filter
//@ for C10
//@ ret r
//@ spec
  ensures r is Ok <==> filter_ok(topic_filter@)
//@ loop 0
  invariant
    topic_filter@.len() > 0, encode_utf8(topic_filter@).len() <= 65535,
    levels@.len() <= level_seq(topic_filter@).len(),
    current_level is None ==> levels@.len() == 0,
    ({ let all = level_seq(topic_filter@); let done = all.len() - levels@.len() - (if current_level is Some { 1int } else { 0 });
       done >= 0 && levels@ == all.skip(all.len() - levels@.len())
       && (current_level is Some ==> current_level->0@ == all[done])
       && forall|k: int| 0 <= k < done ==> level_ok(#[trigger] all[k], k + 1 == all.len()) }),
  ensures current_level is None,
  decreases levels@.len() + (if current_level is Some { 1int } else { 0 })
//@ loop 0 begin
  let ghost all = level_seq(topic_filter@);
  let ghost k = all.len() - levels@.len() - 1;
  proof {
    reveal_strlit("#"); reveal_strlit("+"); assert("#"@ =~= seq!['#']); assert("+"@ =~= seq!['+']);
    assert(level_ok(all[k], k + 1 == all.len()) <==> (has_any(level@, '#') ==> level@ == "#"@ && k + 1 == all.len()) && (has_any(level@, '+') ==> level@ == "+"@));
  }
//@ end
//@ fn src/mqtt_serde/mod.rs validate_shared_subscription
//@ for C10
//@ ret r
//@ spec
  ensures r is Ok <==> share_ok(topic_filter@)
//@ begin
  proof { reveal_strlit("$share/"); assert("$share/"@ =~= seq!['$', 's', 'h', 'a', 'r', 'e', '/']); reveal_with_fuel(vx_parts, 4); }
//@ end
