// ---------------------------------------------------------------- C10: the grammar of topic filters, character by character
spec fn edge_l(f: Seq<char>, i: int) -> bool { i == 0 || f[i - 1] == '/' }
spec fn edge_r(f: Seq<char>, i: int) -> bool { i == f.len() - 1 || f[i + 1] == '/' }
spec fn wild_at(f: Seq<char>, i: int) -> bool { (f[i] == '#' ==> i == f.len() - 1 && edge_l(f, i)) && (f[i] == '+' ==> edge_l(f, i) && edge_r(f, i)) }
spec fn wild_ok(f: Seq<char>) -> bool { forall|i: int| 0 <= i < f.len() ==> #[trigger] wild_at(f, i) }
spec fn levels_ok(l: Seq<Seq<char>>) -> bool { forall|k: int| 0 <= k < l.len() ==> level_ok(#[trigger] l[k], k + 1 == l.len()) }
proof fn one_level(s: Seq<char>, last: bool, all: Seq<char>, o: int)
    requires !s.contains('/'), 0 <= o, o + s.len() <= all.len(), all.subrange(o, o + s.len()) == s, edge_l(all, o),
        last <==> o + s.len() == all.len(), !last ==> all[o + s.len()] == '/'
    ensures level_ok(s, last) <==> forall|i: int| o <= i < o + s.len() ==> #[trigger] wild_at(all, i)
{
    assert forall|i: int| 0 <= i < s.len() implies all[o + i] == s[i] && s[i] != '/' by { assert(all.subrange(o, o + s.len())[i] == s[i]); }
    let hash = seq!['#'];
    let plus = seq!['+'];
    if level_ok(s, last) {
        assert forall|i: int| o <= i < o + s.len() implies #[trigger] wild_at(all, i) by {
            assert(all[i] == s[i - o]);
            if s[i - o] == '#' { assert(s == hash); }
            if s[i - o] == '+' { assert(s == plus); }
        }
    }
    if forall|i: int| o <= i < o + s.len() ==> #[trigger] wild_at(all, i) {
        if has_any(s, '#') {
            let k = choose|k: int| 0 <= k < s.len() && '#'.has(#[trigger] s[k]);
            assert(wild_at(all, o + k));
            if k > 0 { assert(all[o + k - 1] == s[k - 1]); }
            assert(s =~= hash);
        }
        if has_any(s, '+') {
            let k = choose|k: int| 0 <= k < s.len() && '+'.has(#[trigger] s[k]);
            assert(wild_at(all, o + k));
            if k > 0 { assert(all[o + k - 1] == s[k - 1]); }
            if k + 1 < s.len() { assert(all[o + k + 1] == s[k + 1]); }
            assert(s =~= plus);
        }
    }
}
proof fn grammar_from(f: Seq<char>, o: int, n: nat)
    requires 0 <= o <= f.len(), edge_l(f, o), n > f.len() - o
    ensures levels_ok(vx_parts(f.skip(o), '/', n)) <==> (forall|i: int| o <= i < f.len() ==> #[trigger] wild_at(f, i)), vx_parts(f.skip(o), '/', n).len() > 0
    decreases f.len() - o
{
    let s = f.skip(o);
    if n == 1 || !s.contains('/') {
        assert(vx_parts(s, '/', n) =~= seq![s]);
        assert(!s.contains('/'));
        assert(f.subrange(o, o + s.len()) =~= s);
        one_level(s, true, f, o);
        assert(levels_ok(seq![s]) <==> level_ok(s, true)) by { assert(seq![s][0] == s); }
    } else {
        s.index_of_first_ensures('/');
        let i = s.index_of_first('/')->Some_0;
        assert(0 <= i < s.len() && s[i] == '/' && !s.take(i).contains('/'));
        let a = s.take(i);
        let r = vx_parts(s.skip(i + 1), '/', (n - 1) as nat);
        let l = vx_parts(s, '/', n);
        assert(l == seq![a] + r);
        assert(f.skip(o + i + 1) =~= s.skip(i + 1));
        grammar_from(f, o + i + 1, (n - 1) as nat);
        assert(f.subrange(o, o + i) =~= a);
        one_level(a, false, f, o);
        assert(wild_at(f, o + i));
        assert(levels_ok(l) <==> level_ok(a, false) && levels_ok(r)) by {
            assert(l[0] == a);
            assert forall|k: int| 0 <= k < r.len() implies r[k] == #[trigger] l[k + 1] by {}
            if levels_ok(l) { assert forall|k: int| 0 <= k < r.len() implies level_ok(#[trigger] r[k], k + 1 == r.len()) by { assert(level_ok(l[k + 1], k + 2 == l.len())); } }
            if level_ok(a, false) && levels_ok(r) { assert forall|k: int| 0 <= k < l.len() implies level_ok(#[trigger] l[k], k + 1 == l.len()) by { if k > 0 { assert(l[k] == r[k - 1]); } } }
        }
    }
}
/// C10: what validate_topic_filter accepts is the grammar
proof fn c10_grammar(f: Seq<char>)
    ensures filter_ok(f) <==> f.len() > 0 && encode_utf8(f).len() <= 65535 && wild_ok(f)
{
    grammar_from(f, 0, f.len() + 1);
    assert(f.skip(0) =~= f);
    assert(levels_ok(level_seq(f)) <==> wild_ok(f));
}
spec fn share_at(f: Seq<char>, n: int) -> bool { 7 < n < f.len() && f[n] == '/' && !f.subrange(7, n).contains('/') && !f.subrange(7, n).contains('#') && !f.subrange(7, n).contains('+') && filter_ok(f.skip(n + 1)) }
/// C10: a shared filter is "$share/" + name + "/" + filter
proof fn c10_shared(f: Seq<char>)
    requires is_shared(f)
    ensures share_ok(f) <==> exists|n: int| #[trigger] share_at(f, n)
{
    let pre = seq!['$', 's', 'h', 'a', 'r', 'e', '/'];
    assert forall|k: int| 0 <= k < 7 implies f[k] == pre[k] by { assert(f.take(7)[k] == pre[k]); }
    f.index_of_first_ensures('/');
    assert(f[6] == '/');
    let i = f.index_of_first('/')->Some_0;
    assert(i == 6) by {
        assert(i <= 6) by { if i > 6 { assert(f.take(i)[6] == '/'); } }
    }
    let r = f.skip(7);
    assert(vx_parts(f, '/', 3) == seq![f.take(6)] + vx_parts(r, '/', 2));
    let p = vx_parts(f, '/', 3);
    if r.contains('/') {
        r.index_of_first_ensures('/');
        let j = r.index_of_first('/')->Some_0;
        let n = j + 7;
        assert(vx_parts(r, '/', 2) == seq![r.take(j)] + vx_parts(r.skip(j + 1), '/', 1));
        assert(vx_parts(r.skip(j + 1), '/', 1) =~= seq![r.skip(j + 1)]);
        assert(p.len() == 3 && p[1] == r.take(j) && p[2] == r.skip(j + 1));
        assert(r.skip(j + 1) =~= f.skip(n + 1));
        assert(r.take(j) =~= f.subrange(7, n));
        let nm = r.take(j);
        assert(has_any(nm, '#') <==> nm.contains('#')) by { if nm.contains('#') { let k = choose|k: int| 0 <= k < nm.len() && nm[k] == '#'; assert('#'.has(nm[k])); } if has_any(nm, '#') { let k = choose|k: int| 0 <= k < nm.len() && '#'.has(#[trigger] nm[k]); assert(nm[k] == '#'); } }
        assert(has_any(nm, '+') <==> nm.contains('+')) by { if nm.contains('+') { let k = choose|k: int| 0 <= k < nm.len() && nm[k] == '+'; assert('+'.has(nm[k])); } if has_any(nm, '+') { let k = choose|k: int| 0 <= k < nm.len() && '+'.has(#[trigger] nm[k]); assert(nm[k] == '+'); } }
        if share_ok(f) { assert(share_at(f, n)); }
        if exists|m: int| share_at(f, m) {
            let m = choose|m: int| share_at(f, m);
            if m < n { assert(r[m - 7] == '/'); assert(r.take(j)[m - 7] == '/'); }
            if m > n { assert(f.subrange(7, m)[j] == '/'); }
        }
    } else {
        assert(vx_parts(r, '/', 2) =~= seq![r]);
        if exists|m: int| share_at(f, m) { let m = choose|m: int| share_at(f, m); assert(r[m - 7] == '/'); }
    }
}
/// C10: what a SUBSCRIBE is accepted with
proof fn c10_accepted(b: Seq<u8>, h: int, t: int)
    requires 0 <= h <= t <= b.len()
    ensures dec_sub5(b, h, t) matches Some(v) ==> forall|i: int| 0 <= i < v.subs.len() ==> filter_fits((#[trigger] v.subs[i]).filter, v.subs[i].nl)
{
    if let Some(v) = dec_sub5(b, h, t) { let e = (phdr_at(b, h + 2, t)->Some_0).1; sub5_fit(b, e, t); }
}
proof fn sub5_fit(b: Seq<u8>, o: int, t: int)
    ensures cells_at::<VSub5>(b, o, t) matches Some(s) ==> options_fit(b, o, t) && forall|i: int| 0 <= i < s.len() ==> filter_fits((#[trigger] s[i]).filter, s[i].nl)
    decreases t - o
{
    hide(text_at); hide(filter_fits);
    if o < t { if let Some((p, e)) = VSub5::cell_at(b, o, t) { if o < e <= t { sub5_fit(b, e, t); assert(filter_fits(p.filter, p.nl)); } } }
}
// ---------------------------------------------------------------- C09: what strict mode refuses
/// no subscription uses a reserved option bit
spec fn options_fit(b: Seq<u8>, o: int, t: int) -> bool
    decreases t - o
{ o < t ==> match text_at(b, o, t) { Some((_, e)) => e < t && b[e] < 64 && (o < e + 1 ==> options_fit(b, e + 1, t)), None => false } }
/// the defects of the compliance list, in the frame b[..t] with its body from h
spec fn defect(b: Seq<u8>, h: int, t: int) -> bool {
    let k = b[0] / 16;
    let fl = b[0] % 16;
    let qos = (b[0] / 2) % 4;
    ||| (k == 6 || k == 8 || k == 10) && fl != 2
    ||| (k == 12 || k == 13 || k == 14 || k == 15) && fl != 0
    ||| k == 3 && (qos == 3 || (qos == 0 && bit(b[0], 8)))
    ||| k == 3 && (text_at(b, h, t) matches Some((topic, _)) && (topic.contains('#') || topic.contains('+')))
    ||| (8 <= k <= 11) && t >= h + 2 && b[h] == 0 && b[h + 1] == 0
    ||| (8 <= k <= 11) && (phdr_at(b, h + 2, t) matches Some((_, e)) && e == t)
    ||| k == 8 && (phdr_at(b, h + 2, t) matches Some((_, e)) && !options_fit(b, e, t))
    ||| k == 2 && t > h && b[h] > 1
    ||| k == 1 && (text_at(b, h, t) matches Some((_, e)) && e + 1 < t && !flags5_ok(b[e + 1]))
    ||| (k == 12 || k == 13) && t > h
}
proof fn wild_topic(s: Seq<char>)
    ensures s.contains('#') || s.contains('+') ==> !no_wildcards(s)
{
    if s.contains('#') { let k = choose|k: int| 0 <= k < s.len() && s[k] == '#'; assert('#'.has(s[k])); }
    if s.contains('+') { let k = choose|k: int| 0 <= k < s.len() && s[k] == '+'; assert('+'.has(s[k])); }
}
proof fn c09_refused(b: Seq<u8>, h: int, t: int)
    requires 1 <= h <= t <= b.len(), defect(b, h, t)
    ensures dec5(b, h, t) is None
{
    hide(text_at); hide(phdr_at); hide(back5_at); hide(options_fit);
    if b[0] / 16 == 8 { if let Some((_, e)) = phdr_at(b, h + 2, t) { sub5_fit(b, e, t); } }
    if b[0] / 16 == 3 { if let Some((topic, e)) = text_at(b, h, t) { wild_topic(topic); } }
}
/// C09: decoding a malformed frame is an error, never a packet and never a wait for more
proof fn c09_error(b: Seq<u8>, r: Result<ParseOk, ParseError>)
    requires outcome(b, r, first_of(5, b)), hdr(b) matches Some((h, t)) && t <= b.len() && defect(b, h, t)
    ensures r is Err
{
    let (h, t) = hdr(b)->Some_0;
    hdr_alone(b);
    c09_refused(b, h, t);
}
// ---------------------------------------------------------------- C11: every text of a packet the encoder takes is text MQTT allows
spec fn ptexts(s: Seq<VProp>) -> bool { forall|i: int| 0 <= i < s.len() ==> match (#[trigger] s[i]).val { VVal::Text(x) => text_ok(x), VVal::Pair(x, y) => text_ok(x) && text_ok(y), _ => true } }
spec fn otexts(o: Option<Seq<char>>) -> bool { o matches Some(x) ==> text_ok(x) }
spec fn texts_ok(p: VPacket) -> bool {
    match p {
        VPacket::Connect5(v) => text_ok(v.name) && text_ok(v.cid) && otexts(v.user) && ptexts(v.props)
            && (v.will matches Some(w) ==> text_ok(w.topic) && otexts(w.props.ct) && otexts(w.props.rt) && ptexts(w.props.user)),
        VPacket::ConnAck5(v) => ptexts(v.props),
        VPacket::Publish5(v) => text_ok(v.topic) && ptexts(v.props),
        VPacket::PubAck5(v) | VPacket::PubRec5(v) | VPacket::PubRel5(v) | VPacket::PubComp5(v) => ptexts(v.props),
        VPacket::Subscribe5(v) => ptexts(v.props) && forall|i: int| 0 <= i < v.subs.len() ==> text_ok((#[trigger] v.subs[i]).filter),
        VPacket::SubAck5(v) | VPacket::UnsubAck5(v) => ptexts(v.props),
        VPacket::Unsubscribe5(v) => ptexts(v.props) && forall|i: int| 0 <= i < v.filters.len() ==> text_ok(#[trigger] v.filters[i]),
        VPacket::Disconnect5(v) | VPacket::Auth(v) => ptexts(v.props),
        VPacket::Connect3(v) => text_ok(v.name) && text_ok(v.cid) && otexts(v.user) && (v.will matches Some(w) ==> text_ok(w.topic)),
        VPacket::Publish3(v) => text_ok(v.topic),
        VPacket::Subscribe3(v) => forall|i: int| 0 <= i < v.subs.len() ==> text_ok((#[trigger] v.subs[i]).filter),
        VPacket::Unsubscribe3(v) => forall|i: int| 0 <= i < v.filters.len() ==> text_ok(#[trigger] v.filters[i]),
        _ => true,
    }
}
#[verifier::spinoff_prover]
proof fn c11_texts(p: VPacket)
    requires p_ok(p) // what to_bytes ensures of every packet it does not refuse
    ensures texts_ok(p)
{
    hide(text_ok);
    match p {
        VPacket::Connect5(v) => if let Some(w) = v.will {
            let l = will_list(w.props);
            let k = will_front(w.props).len();
            assert forall|i: int| 0 <= i < w.props.user.len() implies match (#[trigger] w.props.user[i]).val { VVal::Text(x) => text_ok(x), VVal::Pair(x, y) => text_ok(x) && text_ok(y), _ => true } by { assert(l[k + i] == w.props.user[i]); }
            will_texts(w.props);
        },
        _ => {}
    }
}
proof fn opt_put_ok(s: Seq<VProp>, id: nat, v: Option<VVal>)
    ensures props_ok(opt_put(s, id, v)) ==> props_ok(s) && (v matches Some(x) ==> val_ok(x))
{
    let r = opt_put(s, id, v);
    if props_ok(r) {
        assert forall|i: int| 0 <= i < s.len() implies val_ok((#[trigger] s[i]).val) by { assert(r[i] == s[i]); }
        if v is Some { assert(val_ok(r[s.len() as int].val)); }
    }
}
proof fn will_texts(w: VWillProps)
    requires props_ok(will_list(w))
    ensures otexts(w.ct), otexts(w.rt)
{
    let f = will_front(w);
    assert forall|i: int| 0 <= i < f.len() implies val_ok((#[trigger] f[i]).val) by { assert(will_list(w)[i] == f[i]); }
    let s0 = Seq::<VProp>::empty();
    let s1 = opt_put(s0, 0x18, vfour(w.delay)); let s2 = opt_put(s1, 0x01, vbyte(w.pfi)); let s3 = opt_put(s2, 0x02, vfour(w.mei));
    let s4 = opt_put(s3, 0x03, vtxt(w.ct)); let s5 = opt_put(s4, 0x08, vtxt(w.rt));
    opt_put_ok(s5, 0x09, vbin(w.cd)); opt_put_ok(s4, 0x08, vtxt(w.rt)); opt_put_ok(s3, 0x03, vtxt(w.ct));
}
