// ---------------------------------------------------------------- PUBLISH
spec fn pub_flags(qos: u8, dup: bool, retain: bool) -> u8 { (flag(dup) * 8 + qos * 2 + flag(retain)) as u8 }
/// the packet identifier, present above QoS 0
spec fn pub_id(qos: u8, id: Option<u16>) -> Seq<u8> { if qos > 0 { match id { Some(i) => be16(i), None => seq![] } } else { seq![] } }
spec fn id_at(qos: u8, b: Seq<u8>, e: int, t: int) -> Option<(Option<u16>, int)> {
    if qos > 0 { if e + 2 <= t { Some((Some(un16(b[e], b[e + 1])), e + 2)) } else { None } } else { Some((None, e)) }
}
spec fn no_wildcards(s: Seq<char>) -> bool { !has_any(s, '#') && !has_any(s, '+') }
//@ method first .vx_first
//@ fn src/mqtt_serde/parser/mod.rs parse_topic_name
//@ for C04 C06
//@ ret r
//@ spec
  ensures
    match r {
      Ok(ParseOk::TopicName(v, n)) => text_at(buffer@, 0, buffer@.len() as int) == Some((v@, n as int)) && n <= buffer@.len(),
      Ok(_) => false,
      Err(_) => text_at(buffer@, 0, buffer@.len() as int) is None,
    }
//@ end
broadcast proof fn sub_sub(b: Seq<u8>, x: int, y: int, p: int, q: int)
    requires 0 <= x <= y <= b.len(), 0 <= p <= q <= y - x
    ensures #[trigger] b.subrange(x, y).subrange(p, q) == b.subrange(x + p, x + q)
{ assert(b.subrange(x, y).subrange(p, q) =~= b.subrange(x + p, x + q)); }
impl Wire for VPublish5 {
    spec fn ty(&self) -> u8 { 3 }
    spec fn fl(&self) -> u8 { pub_flags(self.qos, self.dup, self.retain) }
    spec fn sane(&self) -> bool { self.qos <= 3 }
    spec fn vh_ok(&self) -> bool { text_ok(self.topic) && (self.qos > 0 ==> self.id is Some) && props_ok(self.props) }
    spec fn vh(&self) -> Seq<u8> { text(self.topic) + (pub_id(self.qos, self.id) + phdr(self.props)) }
    spec fn pl_ok(&self) -> bool { true }
    spec fn pl(&self) -> Seq<u8> { self.load }
}
spec fn dec_pub5(b: Seq<u8>, h: int, t: int) -> Option<VPublish5> {
    let qos = (b[0] / 2) % 4;
    let dup = bit(b[0], 8);
    if b[0] / 16 != 3 || qos == 3 || (qos == 0 && dup) { None }
    else {
        match text_at(b, h, t) {
            Some((topic, e)) => match id_at(qos, b, e, t) {
                Some((id, f)) => match phdr_at(b, f, t) {
                    Some((props, g)) => if no_wildcards(topic) { Some(VPublish5 { qos, dup, retain: b[0] % 2 == 1, topic, id, props, load: b.subrange(g, t) }) } else { None },
                    None => None,
                },
                None => None,
            },
            None => None,
        }
    }
}
/// what a PUBLISH may say that its receiver accepts
spec fn pub5_wf(v: VPublish5) -> bool { v.qos <= 2 && (v.qos == 0 ==> !v.dup && v.id is None) && no_wildcards(v.topic) && props_wf(v.props) }
proof fn pub_parts(b: Seq<u8>, h: int, e: int, t: int, topic: Seq<char>, qos: u8, id: Option<u16>, rest: Seq<u8>)
    requires has(b, h, text(topic) + (pub_id(qos, id) + rest)), text_ok(topic), e == h + text(topic).len(), e + pub_id(qos, id).len() <= t <= b.len(), qos > 0 <==> id is Some
    ensures text_at(b, h, t) == Some((topic, e)), id_at(qos, b, e, t) == Some((id, (e + pub_id(qos, id).len()) as int)), has(b, (e + pub_id(qos, id).len()) as int, rest)
{
    has_cat(b, h, text(topic), pub_id(qos, id) + rest);
    has_cat(b, e, pub_id(qos, id), rest);
    text_here(b, h, t, topic);
    if let Some(i) = id { has_be16(b, e, i); }
}
proof fn pub_first(qos: u8, dup: bool, retain: bool)
    requires qos <= 3
    ensures ({ let x = first(3, pub_flags(qos, dup, retain)); x / 16 == 3 && (x / 2) % 4 == qos && bit(x, 8) == dup && (x % 2 == 1) == retain })
{ broadcast use first_val; }
#[verifier::spinoff_prover]
proof fn pub5_here(v: VPublish5, rest: Seq<u8>)
    requires v.vh_ok(), v.pl_ok(), pub5_wf(v), small(body(v).len())
    ensures dec_pub5(frame(v) + rest, hlen(v), frame(v).len() as int) == Some(v)
{
    hide(phdr_at); hide(vbi_in); hide(text_at); hide(no_wildcards);
    frame_here(v, rest);
    pub_first(v.qos, v.dup, v.retain);
    let b = frame(v) + rest;
    let h = hlen(v);
    let t = frame(v).len() as int;
    let e = (h + text(v.topic).len()) as int;
    let f = (e + pub_id(v.qos, v.id).len()) as int;
    let g = h + v.vh().len();
    pub_parts(b, h, e, t, v.topic, v.qos, v.id, phdr(v.props));
    phdr_here(b, f, t, v.props);
    assert(b.subrange(g, t) == v.load);
}
#[verifier::spinoff_prover]
proof fn pub5_alone(b: Seq<u8>, h: int, t: int)
    requires 1 <= h <= t <= b.len()
    ensures dec_pub5(b.take(t), h, t) == dec_pub5(b, h, t)
{
    hide(phdr_at); hide(vbi_in); hide(text_at);
    broadcast use {phdr_part, phdr_bound, text_part, text_bound};
    let c = b.take(t);
    assert(c == b.subrange(0, t));
    if let Some((topic, e)) = text_at(b, h, t) {
        assert(id_at((b[0] / 2) % 4, c, e, t) == id_at((b[0] / 2) % 4, b, e, t));
        if let Some((id, f)) = id_at((b[0] / 2) % 4, b, e, t) {
            if let Some((_, g)) = phdr_at(b, f, t) { assert(c.subrange(g, t) =~= b.subrange(g, t)); }
        }
    }
}
//@ include pkt.inc T=MqttPublish N=Publish5 F=src/mqtt_serde/mqttv5/publish.rs C=C04 D=dec_pub5(b,h,t)
//@ fn src/mqtt_serde/mqttv5/publish.rs MqttPublish::qos
//@ for C04
//@ ret r
//@ spec
  ensures r == (flags / 2) % 4
//@ begin
  broadcast use bits;
//@ end
//@ fn src/mqtt_serde/mqttv5/publish.rs MqttPublish::variable_header
//@ include vh.inc C=C04
//@ begin
  broadcast use cats;
//@ end
//@ fn src/mqtt_serde/mqttv5/publish.rs MqttPublish::payload
//@ include pl.inc C=C04
//@ end
//@ include dec.inc T=MqttPublish N=Publish5 F=src/mqtt_serde/mqttv5/publish.rs C=C04 Y=C09 B=phdr_part,phdr_bound,text_part,text_bound,sub_sub
//@ end
impl Wire for VPublish3 {
    spec fn ty(&self) -> u8 { 3 }
    spec fn fl(&self) -> u8 { pub_flags(self.qos, self.dup, self.retain) }
    spec fn sane(&self) -> bool { self.qos <= 3 }
    spec fn vh_ok(&self) -> bool { text_ok(self.topic) && (self.qos > 0 ==> self.id is Some) }
    spec fn vh(&self) -> Seq<u8> { text(self.topic) + pub_id(self.qos, self.id) }
    spec fn pl_ok(&self) -> bool { true }
    spec fn pl(&self) -> Seq<u8> { self.load }
}
spec fn dec_pub3(b: Seq<u8>, h: int, t: int) -> Option<VPublish3> {
    let qos = (b[0] / 2) % 4;
    if b[0] / 16 != 3 || qos == 3 { None }
    else {
        match text_at(b, h, t) {
            Some((topic, e)) => match id_at(qos, b, e, t) {
                Some((id, f)) => Some(VPublish3 { qos, dup: bit(b[0], 8), retain: b[0] % 2 == 1, topic, id, load: b.subrange(f, t) }),
                None => None,
            },
            None => None,
        }
    }
}
spec fn pub3_wf(v: VPublish3) -> bool { v.qos <= 2 && (v.qos == 0 ==> v.id is None) }
#[verifier::spinoff_prover]
proof fn pub3_here(v: VPublish3, rest: Seq<u8>)
    requires v.vh_ok(), v.pl_ok(), pub3_wf(v), small(body(v).len())
    ensures dec_pub3(frame(v) + rest, hlen(v), frame(v).len() as int) == Some(v)
{
    hide(vbi_in); hide(text_at);
    frame_here(v, rest);
    pub_first(v.qos, v.dup, v.retain);
    let b = frame(v) + rest;
    let h = hlen(v);
    let t = frame(v).len() as int;
    let e = (h + text(v.topic).len()) as int;
    cat_end(pub_id(v.qos, v.id));
    assert(text(v.topic) + pub_id(v.qos, v.id) == text(v.topic) + (pub_id(v.qos, v.id) + Seq::<u8>::empty()));
    pub_parts(b, h, e, t, v.topic, v.qos, v.id, Seq::<u8>::empty());
    assert(b.subrange(h + v.vh().len(), t) == v.load);
}
#[verifier::spinoff_prover]
proof fn pub3_alone(b: Seq<u8>, h: int, t: int)
    requires 1 <= h <= t <= b.len()
    ensures dec_pub3(b.take(t), h, t) == dec_pub3(b, h, t)
{
    hide(text_at);
    broadcast use {text_part, text_bound};
    let c = b.take(t);
    assert(c == b.subrange(0, t));
    if let Some((topic, e)) = text_at(b, h, t) {
        assert(id_at((b[0] / 2) % 4, c, e, t) == id_at((b[0] / 2) % 4, b, e, t));
        if let Some((id, f)) = id_at((b[0] / 2) % 4, b, e, t) { assert(c.subrange(f, t) =~= b.subrange(f, t)); }
    }
}
//@ include pkt.inc T=MqttPublish N=Publish3 F=src/mqtt_serde/mqttv3/publish.rs C=C05 D=dec_pub3(b,h,t)
//@ fn src/mqtt_serde/mqttv3/publish.rs MqttPublish::variable_header
//@ include vh.inc C=C05
//@ begin
  broadcast use cats;
//@ end
//@ fn src/mqtt_serde/mqttv3/publish.rs MqttPublish::payload
//@ include pl.inc C=C05
//@ end
//@ include dec.inc T=MqttPublish N=Publish3 F=src/mqtt_serde/mqttv3/publish.rs C=C05 Y=C05 B=text_part,text_bound
//@ end
