// ---------------------------------------------------------------- CONNECT
spec fn otext(o: Option<Seq<char>>) -> Seq<u8> { match o { Some(s) => text(s), None => seq![] } }
spec fn obin(o: Option<Seq<u8>>) -> Seq<u8> { match o { Some(s) => bin(s), None => seq![] } }
spec fn otext_ok(o: Option<Seq<char>>) -> bool { match o { Some(s) => text_ok(s), None => true } }
spec fn obin_ok(o: Option<Seq<u8>>) -> bool { match o { Some(s) => s.len() <= 65535, None => true } }
spec fn otext_at(f: bool, b: Seq<u8>, o: int, t: int) -> Option<(Option<Seq<char>>, int)> { if f { match text_at(b, o, t) { Some((s, e)) => Some((Some(s), e)), None => None } } else { Some((None, o)) } }
spec fn obin_at(f: bool, b: Seq<u8>, o: int, t: int) -> Option<(Option<Seq<u8>>, int)> { if f { match bin_at(b, o, t) { Some((s, e)) => Some((Some(s), e)), None => None } } else { Some((None, o)) } }
spec fn login_at(f: u8, b: Seq<u8>, o: int, t: int) -> Option<((Option<Seq<char>>, Option<Seq<u8>>), int)> {
    match otext_at(bit(f, 128), b, o, t) {
        Some((user, e)) => match obin_at(bit(f, 64), b, e, t) { Some((pass, g)) => Some(((user, pass), g)), None => None },
        None => None,
    }
}
#[verifier::spinoff_prover]
proof fn login_less(f: u8, b: Seq<u8>, o: int, t: int, u: int)
    requires 0 <= o <= t <= u <= b.len()
    ensures login_at(f, b, o, t) == within(login_at(f, b, o, u), t)
{ hide(text_at); hide(bin_at); broadcast use {text_less, bin_less, text_bound, bin_bound}; assert(upto(b, t)); }
#[verifier::spinoff_prover]
proof fn login_part(f: u8, b: Seq<u8>, x: int, y: int, p: int, q: int)
    requires 0 <= x <= y <= b.len(), 0 <= p <= q <= y - x
    ensures login_at(f, b.subrange(x, y), p, q) == moved(login_at(f, b, x + p, x + q), -x)
{ hide(text_at); hide(bin_at); broadcast use {text_part, bin_part, text_bound, bin_bound}; }
#[verifier::spinoff_prover]
proof fn login_here(f: u8, b: Seq<u8>, o: int, t: int, user: Option<Seq<char>>, pass: Option<Seq<u8>>)
    requires has(b, o, otext(user) + obin(pass)), otext_ok(user), obin_ok(pass), bit(f, 128) == (user is Some), bit(f, 64) == (pass is Some), o + (otext(user) + obin(pass)).len() <= t <= b.len()
    ensures login_at(f, b, o, t) == Some(((user, pass), o + (otext(user) + obin(pass)).len()))
{
    has_cat(b, o, otext(user), obin(pass));
    if let Some(s) = user { text_here(b, o, t, s); }
    if let Some(s) = pass { bin_here(b, o + otext(user).len(), t, s); }
}
#[verifier::spinoff_prover]
proof fn login_bound(f: u8, b: Seq<u8>, o: int, t: int)
    requires o <= t
    ensures login_at(f, b, o, t) matches Some((_, e)) ==> o <= e <= t
{ broadcast use {text_bound, bin_bound}; }
spec fn conn_flags(user: bool, pass: bool, will: Option<(u8, bool)>, clean: bool) -> u8 {
    (flag(user) * 128 + flag(pass) * 64 + match will { Some((qos, retain)) => 4 + qos * 8 + flag(retain) * 32, None => 0 } + flag(clean) * 2) as u8
}
proof fn conn_flags_read(user: bool, pass: bool, will: Option<(u8, bool)>, clean: bool)
    requires will matches Some((qos, _)) ==> qos <= 3
    ensures ({
        let f = conn_flags(user, pass, will, clean);
        bit(f, 128) == user && bit(f, 64) == pass && bit(f, 4) == (will is Some) && bit(f, 2) == clean && f % 2 == 0
        && (will matches Some((qos, retain)) ==> (f / 8) % 4 == qos && bit(f, 32) == retain) && (will is None ==> (f / 8) % 4 == 0 && !bit(f, 32))
    })
{}
//@ include willfold.inc
spec fn will5_bytes(w: VWill5) -> Seq<u8> { phdr(will_list(w.props)) + (text(w.topic) + bin(w.msg)) }
spec fn will5_ok(w: VWill5) -> bool { props_ok(will_list(w.props)) && text_ok(w.topic) && w.msg.len() <= 65535 }
spec fn will5_wf(w: VWill5) -> bool { props_wf(will_list(w.props)) && all_user(w.props.user) && w.topic.len() > 0 && w.qos <= 2 }
spec fn will5_at(f: u8, b: Seq<u8>, o: int, t: int) -> Option<(VWill5, int)> {
    match phdr_at(b, o, t) {
        Some((ps, e)) => match text_at(b, e, t) {
            Some((topic, g)) => match bin_at(b, g, t) {
                Some((msg, k)) => Some((VWill5 { qos: (f / 8) % 4, retain: bit(f, 32), topic, msg, props: will_fold(ps) }, k)),
                None => None,
            },
            None => None,
        },
        None => None,
    }
}
#[verifier::spinoff_prover]
proof fn will5_here(f: u8, b: Seq<u8>, o: int, t: int, w: VWill5)
    requires has(b, o, will5_bytes(w)), will5_ok(w), will5_wf(w), small(will5_bytes(w).len()), (f / 8) % 4 == w.qos, bit(f, 32) == w.retain, o + will5_bytes(w).len() <= t <= b.len()
    ensures will5_at(f, b, o, t) == Some((w, o + will5_bytes(w).len()))
{
    let l = will_list(w.props);
    has_cat(b, o, phdr(l), text(w.topic) + bin(w.msg));
    has_cat(b, o + phdr(l).len(), text(w.topic), bin(w.msg));
    phdr_here(b, o, t, l);
    text_here(b, o + phdr(l).len(), t, w.topic);
    bin_here(b, o + phdr(l).len() + text(w.topic).len(), t, w.msg);
    will_back(w.props);
}
#[verifier::spinoff_prover]
proof fn will5_less(f: u8, b: Seq<u8>, o: int, t: int, u: int)
    requires 0 <= o <= t <= u <= b.len()
    ensures will5_at(f, b, o, t) == within(will5_at(f, b, o, u), t)
{ hide(phdr_at); hide(text_at); hide(bin_at); broadcast use {phdr_less, text_less, bin_less, phdr_bound, text_bound, bin_bound}; assert(upto(b, t)); }
#[verifier::spinoff_prover]
broadcast proof fn will5_part(f: u8, b: Seq<u8>, x: int, y: int, p: int, q: int)
    requires 0 <= x <= y <= b.len(), 0 <= p <= q <= y - x
    ensures #[trigger] will5_at(f, b.subrange(x, y), p, q) == moved(will5_at(f, b, x + p, x + q), -x)
{ hide(phdr_at); hide(text_at); hide(bin_at); broadcast use {phdr_part, text_part, bin_part, phdr_bound, text_bound, bin_bound}; }
#[verifier::spinoff_prover]
broadcast proof fn will5_bound(f: u8, b: Seq<u8>, o: int, t: int)
    requires 0 <= o <= t <= b.len()
    ensures (#[trigger] will5_at(f, b, o, t)) matches Some((_, e)) ==> o < e <= t
{ hide(phdr_at); hide(text_at); hide(bin_at); broadcast use {phdr_bound, text_bound, bin_bound}; }
spec fn owill5_at(f: u8, b: Seq<u8>, o: int, t: int) -> Option<(Option<VWill5>, int)> {
    if bit(f, 4) { match will5_at(f, b, o, t) { Some((w, e)) => if w.topic.len() > 0 { Some((Some(w), e)) } else { None }, None => None } } else { Some((None, o)) }
}
//@ method clone .vx_clone
//@ method try_into .vx_try_into
//@ fn src/mqtt_serde/mqttv5/will.rs WillProperties::new
//@ own
//@ for C04
//@ ret r
//@ spec
  ensures r.v() == will_none()
//@ begin
  broadcast use vprops_none;
//@ end
//@ fn src/mqtt_serde/mqttv5/will.rs Will::new
//@ for C04
//@ ret r
//@ spec
  ensures r.v() == (VWill5 { qos: will_qos, retain: will_retain, topic: will_topic@, msg: will_message@, props: will_none() })
//@ end
//@ fn src/mqtt_serde/mqttv5/will.rs Will::from_bytes
//@ own
//@ for C04 C06
//@ ret r
//@ spec
  ensures match r { Ok((w, n)) => will5_at(connect_flags, buffer@, 0, buffer@.len() as int) == Some((w.v(), n as int)) && n <= buffer@.len(), Err(_) => will5_at(connect_flags, buffer@, 0, buffer@.len() as int) is None }
//@ begin
  hide(phdr_at); hide(text_at); hide(bin_at);
  broadcast use {bits, phdr_part, text_part, bin_part, phdr_bound, text_bound, bin_bound};
  proof { axiom_slice_len(buffer); }
//@ before for property
  let ghost w0 = will.v();
  let ghost ps = properties@;
//@ iter 0 it
//@ loop 0
  invariant
    it.seq() == ps,
    will.v() == (VWill5 { props: will_fold(vprops(ps.take(it.index()))), ..w0 }),
//@ loop 0 begin
  broadcast use vprops_push;
  proof { let k = it.index(); assert(ps.take(k + 1) =~= ps.take(k).push(ps[k])); will_fold_push(vprops(ps.take(k)), vprop(ps[k])); }
//@ after for property
  proof { assert(ps.take(ps.len() as int) =~= ps); }
//@ end
// ---- the packet
spec fn will_flags(w: Option<VWill5>) -> Option<(u8, bool)> { match w { Some(w) => Some((w.qos, w.retain)), None => None } }
spec fn flags5(v: VConnect5) -> u8 { conn_flags(v.user is Some, v.pass is Some, will_flags(v.will), v.clean) }
spec fn owill5(w: Option<VWill5>) -> Seq<u8> { match w { Some(w) => will5_bytes(w), None => seq![] } }
impl Wire for VConnect5 {
    spec fn ty(&self) -> u8 { 1 }
    spec fn fl(&self) -> u8 { 0 }
    spec fn sane(&self) -> bool { self.will matches Some(w) ==> w.qos <= 3 }
    spec fn vh_ok(&self) -> bool { text_ok(self.name) && props_ok(self.props) }
    spec fn vh(&self) -> Seq<u8> { text(self.name) + (seq![self.version] + (seq![flags5(*self)] + (be16(self.keep) + phdr(self.props)))) }
    spec fn pl_ok(&self) -> bool { text_ok(self.cid) && (self.will matches Some(w) ==> will5_ok(w)) && otext_ok(self.user) && obin_ok(self.pass) }
    spec fn pl(&self) -> Seq<u8> { text(self.cid) + (owill5(self.will) + (otext(self.user) + obin(self.pass))) }
}
spec fn flags5_ok(f: u8) -> bool { f % 2 == 0 && if bit(f, 4) { (f / 8) % 4 != 3 } else { (f / 8) % 4 == 0 && !bit(f, 32) } }
spec fn mqtt_name() -> Seq<char> { seq!['M', 'Q', 'T', 'T'] }
struct VFront { name: Seq<char>, version: u8, f: u8, keep: u16, props: Seq<VProp> }
spec fn front5_at(b: Seq<u8>, o: int, t: int) -> Option<(VFront, int)> {
    match text_at(b, o, t) {
        Some((name, e)) => if e + 4 > t || name != mqtt_name() || !flags5_ok(b[e + 1]) { None } else {
            match phdr_at(b, e + 4, t) {
                Some((props, g)) => Some((VFront { name, version: b[e], f: b[e + 1], keep: un16(b[e + 2], b[e + 3]), props }, g)),
                None => None,
            }
        },
        None => None,
    }
}
spec fn back5_at(f: u8, b: Seq<u8>, o: int, t: int) -> Option<((Seq<char>, Option<VWill5>, Option<Seq<char>>, Option<Seq<u8>>), int)> {
    match text_at(b, o, t) {
        Some((cid, e)) => match owill5_at(f, b, e, t) {
            Some((will, g)) => match login_at(f, b, g, t) { Some(((user, pass), k)) => Some(((cid, will, user, pass), k)), None => None },
            None => None,
        },
        None => None,
    }
}
spec fn connect5_at(b: Seq<u8>, o: int, t: int) -> Option<(VConnect5, int)> {
    match front5_at(b, o, t) {
        Some((x, e)) => match back5_at(x.f, b, e, t) {
            Some(((cid, will, user, pass), g)) => Some((VConnect5 { name: x.name, version: x.version, clean: bit(x.f, 2), keep: x.keep, props: x.props, cid, will, user, pass }, g)),
            None => None,
        },
        None => None,
    }
}
spec fn dec_connect5(b: Seq<u8>, h: int, t: int) -> Option<VConnect5> {
    if b[0] / 16 != 1 { None } else { match connect5_at(b, h, t) { Some((v, e)) => if e == t { Some(v) } else { None }, None => None } }
}
#[verifier::spinoff_prover]
proof fn front5_less(b: Seq<u8>, o: int, t: int, u: int)
    requires 0 <= o <= t <= u <= b.len()
    ensures front5_at(b, o, t) == within(front5_at(b, o, u), t), front5_at(b, o, t) matches Some((_, e)) ==> o <= e <= t, front5_at(b, o, u) matches Some((_, e)) ==> o <= e <= u
{ hide(phdr_at); hide(text_at); broadcast use {phdr_less, text_less, phdr_bound, text_bound}; assert(upto(b, t)); }
#[verifier::spinoff_prover]
proof fn front5_part(b: Seq<u8>, x: int, y: int, p: int, q: int)
    requires 0 <= x <= y <= b.len(), 0 <= p <= q <= y - x
    ensures front5_at(b.subrange(x, y), p, q) == moved(front5_at(b, x + p, x + q), -x)
{ hide(phdr_at); hide(text_at); broadcast use {phdr_part, text_part, phdr_bound, text_bound}; }
#[verifier::spinoff_prover]
proof fn back5_less(f: u8, b: Seq<u8>, o: int, t: int, u: int)
    requires 0 <= o <= t <= u <= b.len()
    ensures back5_at(f, b, o, t) == within(back5_at(f, b, o, u), t)
{
    hide(text_at); hide(will5_at); hide(login_at); hide(bit);
    broadcast use {text_less, text_bound, will5_bound};
    assert(upto(b, t));
    if let Some((_, e)) = text_at(b, o, u) {
        if e <= t { will5_less(f, b, e, t, u); }
        if let Some((_, g)) = owill5_at(f, b, e, u) { login_bound(f, b, g, u); if g <= t { login_less(f, b, g, t, u); } }
    }
}
#[verifier::spinoff_prover]
proof fn back5_part(f: u8, b: Seq<u8>, x: int, y: int, p: int, q: int)
    requires 0 <= x <= y <= b.len(), 0 <= p <= q <= y - x
    ensures back5_at(f, b.subrange(x, y), p, q) == moved(back5_at(f, b, x + p, x + q), -x)
{
    hide(text_at); hide(will5_at); hide(login_at); hide(bit);
    broadcast use {text_part, text_bound, will5_part, will5_bound};
    let c = b.subrange(x, y);
    if let Some((_, e)) = text_at(c, p, q) { if let Some((_, g)) = owill5_at(f, c, e, q) { login_part(f, b, x, y, g, q); } }
}
#[verifier::spinoff_prover]
proof fn connect5_less(b: Seq<u8>, o: int, t: int, u: int)
    requires 0 <= o <= t <= u <= b.len()
    ensures connect5_at(b, o, t) == within(connect5_at(b, o, u), t)
{
    hide(front5_at); hide(back5_at);
    front5_less(b, o, t, u);
    if let Some((x, e)) = front5_at(b, o, u) { back5_bound(x.f, b, e, u); if e <= t { back5_less(x.f, b, e, t, u); } }
}
#[verifier::spinoff_prover]
proof fn back5_bound(f: u8, b: Seq<u8>, o: int, t: int)
    requires 0 <= o <= t <= b.len()
    ensures back5_at(f, b, o, t) matches Some((_, e)) ==> o < e <= t
{
    hide(text_at); hide(will5_at); hide(login_at); hide(bit);
    broadcast use {text_bound, will5_bound};
    if let Some((_, e)) = text_at(b, o, t) { if let Some((_, g)) = owill5_at(f, b, e, t) { login_bound(f, b, g, t); } }
}
#[verifier::spinoff_prover]
proof fn connect5_alone(b: Seq<u8>, h: int, t: int)
    requires 1 <= h <= t <= b.len()
    ensures dec_connect5(b.take(t), h, t) == dec_connect5(b, h, t)
{
    hide(front5_at); hide(back5_at);
    assert(b.take(t) == b.subrange(0, t));
    front5_part(b, 0, t, h, t);
    front5_less(b, h, t, t);
    if let Some((x, e)) = front5_at(b, h, t) { back5_part(x.f, b, 0, t, e, t); }
}
spec fn connect5_wf(v: VConnect5) -> bool { v.name == mqtt_name() && props_wf(v.props) && (v.will matches Some(w) ==> will5_wf(w)) }
#[verifier::spinoff_prover]
proof fn front5_here(b: Seq<u8>, o: int, e: int, t: int, v: VConnect5)
    requires has(b, o, v.vh()), v.vh_ok(), connect5_wf(v), small(v.vh().len()), e == o + v.vh().len(), e <= t <= b.len(), flags5_ok(flags5(v))
    ensures front5_at(b, o, t) == Some((VFront { name: v.name, version: v.version, f: flags5(v), keep: v.keep, props: v.props }, e))
{
    let n = text(v.name).len();
    has_cat(b, o, text(v.name), seq![v.version] + (seq![flags5(v)] + (be16(v.keep) + phdr(v.props))));
    has_cat(b, o + n, seq![v.version], seq![flags5(v)] + (be16(v.keep) + phdr(v.props)));
    has_cat(b, o + n + 1, seq![flags5(v)], be16(v.keep) + phdr(v.props));
    has_cat(b, o + n + 2, be16(v.keep), phdr(v.props));
    text_here(b, o, t, v.name);
    has_byte(b, o + n, v.version);
    has_byte(b, o + n + 1, flags5(v));
    has_be16(b, o + n + 2, v.keep);
    phdr_here(b, o + n + 4, t, v.props);
}
#[verifier::spinoff_prover]
proof fn back5_here(f: u8, b: Seq<u8>, o: int, e: int, t: int, v: VConnect5)
    requires
        has(b, o, v.pl()), v.pl_ok(), connect5_wf(v), small(v.pl().len()), e == o + v.pl().len(), e <= t <= b.len(),
        bit(f, 4) == (v.will is Some), bit(f, 128) == (v.user is Some), bit(f, 64) == (v.pass is Some), v.will matches Some(w) ==> (f / 8) % 4 == w.qos && bit(f, 32) == w.retain
    ensures back5_at(f, b, o, t) == Some(((v.cid, v.will, v.user, v.pass), e))
{
    hide(will5_at); hide(login_at);
    let n = text(v.cid).len();
    let m = owill5(v.will).len();
    has_cat(b, o, text(v.cid), owill5(v.will) + (otext(v.user) + obin(v.pass)));
    has_cat(b, o + n, owill5(v.will), otext(v.user) + obin(v.pass));
    text_here(b, o, t, v.cid);
    if let Some(w) = v.will { will5_here(f, b, o + n, t, w); }
    login_here(f, b, o + n + m, t, v.user, v.pass);
}
#[verifier::spinoff_prover]
proof fn connect5_here(v: VConnect5, rest: Seq<u8>)
    requires v.vh_ok(), v.pl_ok(), connect5_wf(v), small(body(v).len())
    ensures dec_connect5(frame(v) + rest, hlen(v), frame(v).len() as int) == Some(v)
{
    hide(front5_at); hide(back5_at);
    broadcast use first_val;
    frame_here(v, rest);
    let b = frame(v) + rest;
    let h = hlen(v);
    let t = frame(v).len() as int;
    let e = h + v.vh().len();
    conn_flags_read(v.user is Some, v.pass is Some, will_flags(v.will), v.clean);
    front5_here(b, h, e, t, v);
    back5_here(flags5(v), b, e, t, t, v);
}
//@ include pkt.inc T=MqttConnect N=Connect5 F=src/mqtt_serde/mqttv5/connect.rs C=C04 D=dec_connect5(b,h,t)
//@ fn src/mqtt_serde/mqttv5/connect.rs MqttConnect::is_clean_start
//@ for C04
//@ ret r
//@ spec
  ensures r == self.clean_start
//@ end
//@ fn src/mqtt_serde/mqttv5/connect.rs MqttConnect::connect_flags
//@ for C04
//@ ret r
//@ spec
  ensures self.v().sane() ==> r == flags5(self.v())
//@ begin
  broadcast use bits;
//@ end
//@ fn src/mqtt_serde/mqttv5/connect.rs MqttConnect::variable_header
//@ own
//@ include vh.inc C=C04
//@ begin
  broadcast use cats;
//@ end
//@ fn src/mqtt_serde/mqttv5/connect.rs MqttConnect::payload
//@ own
//@ include pl.inc C=C04
//@ begin
  broadcast use {cats, vprops_none, vprops_push, vprops_cat};
//@ end
//@ include decf.inc T=MqttConnect N=Connect5 F=src/mqtt_serde/mqttv5/connect.rs C=C04 Y=C09 B=phdr_part,text_part,bin_part,will5_part
  proof {
    reveal_strlit("MQTT"); assert("MQTT"@ =~= mqtt_name());
    hdr_alone(buffer@);
    if let Some((h, t)) = hdr(buffer@) { if t <= buffer@.len() { connect5_less(buffer@, h, t, buffer@.len() as int); } }
  }
//@ end
// ---- MQTT 3.1.1
spec fn will_flags3(w: Option<VWill3>) -> Option<(u8, bool)> { match w { Some(w) => Some((w.qos, w.retain)), None => None } }
spec fn flags3(v: VConnect3) -> u8 { conn_flags(v.user is Some, v.pass is Some, will_flags3(v.will), v.clean) }
spec fn owill3(w: Option<VWill3>) -> Seq<u8> { match w { Some(w) => text(w.topic) + bin(w.msg), None => seq![] } }
spec fn will3_ok(w: VWill3) -> bool { text_ok(w.topic) && w.msg.len() <= 65535 }
impl Wire for VConnect3 {
    spec fn ty(&self) -> u8 { 1 }
    spec fn fl(&self) -> u8 { 0 }
    spec fn sane(&self) -> bool { self.will matches Some(w) ==> w.qos <= 3 }
    spec fn vh_ok(&self) -> bool { text_ok(self.name) }
    spec fn vh(&self) -> Seq<u8> { text(self.name) + (seq![self.version] + (seq![flags3(*self)] + be16(self.keep))) }
    spec fn pl_ok(&self) -> bool { text_ok(self.cid) && (self.will matches Some(w) ==> will3_ok(w)) && otext_ok(self.user) && obin_ok(self.pass) }
    spec fn pl(&self) -> Seq<u8> { text(self.cid) + (owill3(self.will) + (otext(self.user) + obin(self.pass))) }
}
spec fn will3_at(f: u8, b: Seq<u8>, o: int, t: int) -> Option<(VWill3, int)> {
    match text_at(b, o, t) {
        Some((topic, g)) => match bin_at(b, g, t) { Some((msg, k)) => Some((VWill3 { qos: (f / 8) % 4, retain: bit(f, 32), topic, msg }, k)), None => None },
        None => None,
    }
}
spec fn owill3_at(f: u8, b: Seq<u8>, o: int, t: int) -> Option<(Option<VWill3>, int)> {
    if bit(f, 4) { match will3_at(f, b, o, t) { Some((w, e)) => Some((Some(w), e)), None => None } } else { Some((None, o)) }
}
spec fn name3() -> Seq<char> { seq!['M', 'Q', 'I', 's', 'd', 'p'] }
spec fn name3_ok(name: Seq<char>, version: u8) -> bool { (name == mqtt_name() && version == 4) || (name == name3() && version == 3) }
spec fn flags3_ok(f: u8) -> bool { f % 2 == 0 && (bit(f, 64) ==> bit(f, 128)) }
spec fn front3_at(b: Seq<u8>, o: int, t: int) -> Option<(VFront, int)> {
    match text_at(b, o, t) {
        Some((name, e)) => if e + 4 > t || !name3_ok(name, b[e]) || !flags3_ok(b[e + 1]) { None } else { Some((VFront { name, version: b[e], f: b[e + 1], keep: un16(b[e + 2], b[e + 3]), props: seq![] }, e + 4)) },
        None => None,
    }
}
spec fn back3_at(f: u8, b: Seq<u8>, o: int, t: int) -> Option<((Seq<char>, Option<VWill3>, Option<Seq<char>>, Option<Seq<u8>>), int)> {
    match text_at(b, o, t) {
        Some((cid, e)) => match owill3_at(f, b, e, t) {
            Some((will, g)) => match login_at(f, b, g, t) { Some(((user, pass), k)) => Some(((cid, will, user, pass), k)), None => None },
            None => None,
        },
        None => None,
    }
}
spec fn connect3_at(b: Seq<u8>, o: int, t: int) -> Option<(VConnect3, int)> {
    match front3_at(b, o, t) {
        Some((x, e)) => match back3_at(x.f, b, e, t) {
            Some(((cid, will, user, pass), g)) => Some((VConnect3 { name: x.name, version: x.version, clean: bit(x.f, 2), keep: x.keep, cid, will, user, pass }, g)),
            None => None,
        },
        None => None,
    }
}
spec fn dec_connect3(b: Seq<u8>, h: int, t: int) -> Option<VConnect3> {
    if b[0] / 16 != 1 { None } else { match connect3_at(b, h, t) { Some((v, e)) => if e == t { Some(v) } else { None }, None => None } }
}
proof fn front3_less(b: Seq<u8>, o: int, t: int, u: int)
    requires 0 <= o <= t <= u <= b.len()
    ensures front3_at(b, o, t) == within(front3_at(b, o, u), t), front3_at(b, o, t) matches Some((_, e)) ==> o <= e <= t, front3_at(b, o, u) matches Some((_, e)) ==> o <= e <= u
{ hide(text_at); broadcast use {text_less, text_bound}; assert(upto(b, t)); }
proof fn front3_part(b: Seq<u8>, x: int, y: int, p: int, q: int)
    requires 0 <= x <= y <= b.len(), 0 <= p <= q <= y - x
    ensures front3_at(b.subrange(x, y), p, q) == moved(front3_at(b, x + p, x + q), -x)
{ hide(text_at); broadcast use {text_part, text_bound}; }
#[verifier::spinoff_prover]
proof fn back3_less(f: u8, b: Seq<u8>, o: int, t: int, u: int)
    requires 0 <= o <= t <= u <= b.len()
    ensures back3_at(f, b, o, t) == within(back3_at(f, b, o, u), t)
{
    hide(text_at); hide(bin_at); hide(login_at); hide(bit);
    broadcast use {text_less, text_bound, bin_less, bin_bound};
    assert(upto(b, t));
    if let Some((_, e)) = text_at(b, o, u) { if let Some((_, g)) = owill3_at(f, b, e, u) { login_bound(f, b, g, u); if g <= t { login_less(f, b, g, t, u); } } }
}
#[verifier::spinoff_prover]
proof fn back3_part(f: u8, b: Seq<u8>, x: int, y: int, p: int, q: int)
    requires 0 <= x <= y <= b.len(), 0 <= p <= q <= y - x
    ensures back3_at(f, b.subrange(x, y), p, q) == moved(back3_at(f, b, x + p, x + q), -x)
{
    hide(text_at); hide(bin_at); hide(login_at); hide(bit);
    broadcast use {text_part, text_bound, bin_part, bin_bound};
    let c = b.subrange(x, y);
    if let Some((_, e)) = text_at(c, p, q) { if let Some((_, g)) = owill3_at(f, c, e, q) { login_part(f, b, x, y, g, q); } }
}
#[verifier::spinoff_prover]
proof fn back3_bound(f: u8, b: Seq<u8>, o: int, t: int)
    requires 0 <= o <= t <= b.len()
    ensures back3_at(f, b, o, t) matches Some((_, e)) ==> o < e <= t
{
    hide(text_at); hide(bin_at); hide(login_at); hide(bit);
    broadcast use {text_bound, bin_bound};
    if let Some((_, e)) = text_at(b, o, t) { if let Some((_, g)) = owill3_at(f, b, e, t) { login_bound(f, b, g, t); } }
}
#[verifier::spinoff_prover]
proof fn connect3_less(b: Seq<u8>, o: int, t: int, u: int)
    requires 0 <= o <= t <= u <= b.len()
    ensures connect3_at(b, o, t) == within(connect3_at(b, o, u), t)
{
    hide(front3_at); hide(back3_at);
    front3_less(b, o, t, u);
    if let Some((x, e)) = front3_at(b, o, u) { back3_bound(x.f, b, e, u); if e <= t { back3_less(x.f, b, e, t, u); } }
}
#[verifier::spinoff_prover]
proof fn connect3_alone(b: Seq<u8>, h: int, t: int)
    requires 1 <= h <= t <= b.len()
    ensures dec_connect3(b.take(t), h, t) == dec_connect3(b, h, t)
{
    hide(front3_at); hide(back3_at);
    assert(b.take(t) == b.subrange(0, t));
    front3_part(b, 0, t, h, t);
    front3_less(b, h, t, t);
    if let Some((x, e)) = front3_at(b, h, t) { back3_part(x.f, b, 0, t, e, t); }
}
spec fn connect3_wf(v: VConnect3) -> bool { name3_ok(v.name, v.version) && (v.pass is Some ==> v.user is Some) && v.sane() }
proof fn front3_here(b: Seq<u8>, o: int, e: int, t: int, v: VConnect3)
    requires has(b, o, v.vh()), v.vh_ok(), connect3_wf(v), e == o + v.vh().len(), e <= t <= b.len(), flags3_ok(flags3(v))
    ensures front3_at(b, o, t) == Some((VFront { name: v.name, version: v.version, f: flags3(v), keep: v.keep, props: seq![] }, e))
{
    let n = text(v.name).len();
    has_cat(b, o, text(v.name), seq![v.version] + (seq![flags3(v)] + be16(v.keep)));
    has_cat(b, o + n, seq![v.version], seq![flags3(v)] + be16(v.keep));
    has_cat(b, o + n + 1, seq![flags3(v)], be16(v.keep));
    text_here(b, o, t, v.name);
    has_byte(b, o + n, v.version);
    has_byte(b, o + n + 1, flags3(v));
    has_be16(b, o + n + 2, v.keep);
}
#[verifier::spinoff_prover]
proof fn back3_here(f: u8, b: Seq<u8>, o: int, e: int, t: int, v: VConnect3)
    requires
        has(b, o, v.pl()), v.pl_ok(), e == o + v.pl().len(), e <= t <= b.len(),
        bit(f, 4) == (v.will is Some), bit(f, 128) == (v.user is Some), bit(f, 64) == (v.pass is Some), v.will matches Some(w) ==> (f / 8) % 4 == w.qos && bit(f, 32) == w.retain
    ensures back3_at(f, b, o, t) == Some(((v.cid, v.will, v.user, v.pass), e))
{
    hide(login_at);
    let n = text(v.cid).len();
    let m = owill3(v.will).len();
    has_cat(b, o, text(v.cid), owill3(v.will) + (otext(v.user) + obin(v.pass)));
    has_cat(b, o + n, owill3(v.will), otext(v.user) + obin(v.pass));
    text_here(b, o, t, v.cid);
    if let Some(w) = v.will {
        has_cat(b, o + n, text(w.topic), bin(w.msg));
        text_here(b, o + n, t, w.topic);
        bin_here(b, o + n + text(w.topic).len(), t, w.msg);
    }
    login_here(f, b, o + n + m, t, v.user, v.pass);
}
#[verifier::spinoff_prover]
proof fn connect3_here(v: VConnect3, rest: Seq<u8>)
    requires v.vh_ok(), v.pl_ok(), connect3_wf(v), small(body(v).len())
    ensures dec_connect3(frame(v) + rest, hlen(v), frame(v).len() as int) == Some(v)
{
    hide(front3_at); hide(back3_at);
    broadcast use first_val;
    frame_here(v, rest);
    let b = frame(v) + rest;
    let h = hlen(v);
    let t = frame(v).len() as int;
    let e = h + v.vh().len();
    conn_flags_read(v.user is Some, v.pass is Some, will_flags3(v.will), v.clean);
    front3_here(b, h, e, t, v);
    back3_here(flags3(v), b, e, t, t, v);
}
//@ include pkt.inc T=MqttConnect N=Connect3 F=src/mqtt_serde/mqttv3/connect.rs C=C05 D=dec_connect3(b,h,t)
//@ fn src/mqtt_serde/mqttv3/connect.rs MqttConnect::variable_header
//@ own
//@ include vh.inc C=C05
//@ begin
  broadcast use {cats, bits};
//@ end
//@ fn src/mqtt_serde/mqttv3/connect.rs MqttConnect::payload
//@ own
//@ include pl.inc C=C05
//@ begin
  broadcast use cats;
//@ end
proof fn bin_open(b: Seq<u8>, o: int, t: int)
    ensures (bin_at(b, o, t)) == if o + 2 > t { None } else { let n = un16(b[o], b[o + 1]); if o + 2 + n > t { None } else { Some((b.subrange(o + 2, o + 2 + n), o + 2 + n)) } }
{}
//@ include decf.inc T=MqttConnect N=Connect3 F=src/mqtt_serde/mqttv3/connect.rs C=C05 Y=C05 B=text_part
  proof {
    reveal_strlit("MQTT"); assert("MQTT"@ =~= mqtt_name());
    reveal_strlit("MQIsdp"); assert("MQIsdp"@ =~= name3());
    hdr_alone(buffer@);
    if let Some((h, t)) = hdr(buffer@) { if t <= buffer@.len() { connect3_less(buffer@, h, t, buffer@.len() as int); } }
  }
//@ before let (msg_len
  proof { bin_open(buffer@, offset as int, buffer@.len() as int); }
//@ before let (pass_len
  proof { bin_open(buffer@, offset as int, buffer@.len() as int); }
//@ end
