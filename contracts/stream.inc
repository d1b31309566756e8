// ---------------------------------------------------------------- C07: the stream parser
/// the fixed header (first byte and Remaining Length) has not arrived completely
spec fn cut(b: Seq<u8>) -> bool { b.len() == 0 || vcut(b.subrange(1, b.len() as int)) }
/// there is no complete frame at the front yet
spec fn partial(b: Seq<u8>) -> bool { cut(b) || (match hdr(b) { Some((_, t)) => t > b.len(), None => false }) }
/// no packet begins at the front, whatever follows
spec fn dead(ver: u8, b: Seq<u8>) -> bool {
    !cut(b) && match hdr(b) {
        Some((h, t)) => if t <= b.len() { dec(ver, b, h, t) is None } else { forall|w: Seq<u8>| w.len() > 0 && w[0] == b[0] ==> (#[trigger] dec(ver, w, h, t)) is None },
        None => true,
    }
}
proof fn vdec_stuck(s: Seq<u8>, c: Seq<u8>, i: nat)
    requires vdec(s, i) is None, s.len() >= 4 || exists|j: int| i <= j < s.len() && s[j] < 128
    ensures vdec(s + c, i) is None
    decreases 4 - i
{
    if i < 4 { vdec_stuck(s, c, i + 1); }
}
/// a fixed header that is refused although complete stays refused when more bytes arrive
proof fn hdr_stuck(b: Seq<u8>, c: Seq<u8>)
    requires hdr(b) is None, !cut(b)
    ensures hdr(b + c) is None, !cut(b + c)
{
    let d = b + c;
    let s = b.subrange(1, b.len() as int);
    let w = d.subrange(1, d.len() as int);
    assert(w =~= s + c);
    if s.len() < 4 {
        let j = choose|j: int| 0 <= j < s.len() && s[j] < 128;
        assert(w[j] < 128);
    }
    match vdec(s, 0) {
        Some((v, n)) => { assert((s + c).take(s.len() as int) =~= s); vdec_less(s + c, s.len() as int, 0); vdec_step(s, 0); }
        None => { vdec_stuck(s, c, 0); }
    }
}
/// once a packet is there, more bytes do not change it
proof fn first_stays(ver: u8, b: Seq<u8>, c: Seq<u8>)
    requires first_of(ver, b) is Some
    ensures first_of(ver, b + c) == first_of(ver, b), hdr(b + c) == hdr(b)
{
    let (h, t) = hdr(b)->Some_0;
    let d = b + c;
    hdr_alone(b);
    hdr_more(b, c);
    assert(d.take(t) =~= b.take(t));
    dec_alone(ver, b, h, t);
    dec_alone(ver, d, h, t);
}
/// C07: the parser reports an error only where no packet can begin any more
proof fn c07_dead(ver: u8, b: Seq<u8>, c: Seq<u8>)
    requires dead(ver, b)
    ensures first_of(ver, b + c) is None
{
    let d = b + c;
    match hdr(b) {
        Some((h, t)) => {
            hdr_alone(b);
            hdr_more(b, c);
            if t <= b.len() {
                assert(d.take(t) =~= b.take(t));
                dec_alone(ver, b, h, t);
                dec_alone(ver, d, h, t);
            } else { assert(d[0] == b[0]); }
        }
        None => { hdr_stuck(b, c); }
    }
}
/// the packets in `b`, one after the other, up to the first place where none begins or ends; and what is left
spec fn run(ver: u8, b: Seq<u8>) -> (Seq<VPacket>, Seq<u8>)
    decreases b.len()
{
    match hdr(b) {
        Some((h, t)) => if 0 < t <= b.len() { match dec(ver, b, h, t) { Some(p) => { let (ps, z) = run(ver, b.skip(t)); (seq![p] + ps, z) }, None => (seq![], b) } } else { (seq![], b) },
        None => (seq![], b),
    }
}
proof fn run_step(ver: u8, b: Seq<u8>)
    ensures match first_of(ver, b) {
        Some(p) => { let t = (hdr(b)->Some_0).1; 0 < t <= b.len() && run(ver, b) == (seq![p] + run(ver, b.skip(t)).0, run(ver, b.skip(t)).1) },
        None => run(ver, b) == (Seq::<VPacket>::empty(), b),
    }
{ hide(dec); hdr_alone(b); }
/// C07: reading what has arrived and then the rest is reading all at once
proof fn c07_run(ver: u8, b: Seq<u8>, c: Seq<u8>)
    ensures run(ver, b + c).0 == run(ver, b).0 + run(ver, run(ver, b).1 + c).0, run(ver, b + c).1 == run(ver, run(ver, b).1 + c).1
    decreases b.len()
{
    hide(dec); hide(first_of); hide(run); hide(hdr);
    run_step(ver, b);
    match first_of(ver, b) {
        Some(p) => {
            let t = (hdr(b)->Some_0).1;
            first_stays(ver, b, c);
            run_step(ver, b + c);
            c07_run(ver, b.skip(t), c);
            assert((b + c).skip(t) =~= b.skip(t) + c);
            let y = run(ver, run(ver, b.skip(t)).1 + c).0;
            assert(seq![p] + (run(ver, b.skip(t)).0 + y) =~= (seq![p] + run(ver, b.skip(t)).0) + y);
        }
        None => { assert(Seq::<VPacket>::empty() + run(ver, b + c).0 =~= run(ver, b + c).0); }
    }
}
/// nothing is left but the beginning of a frame, or something no packet begins with
proof fn run_ends(ver: u8, b: Seq<u8>)
    ensures first_of(ver, run(ver, b).1) is None
    decreases b.len()
{
    hide(dec); hide(first_of); hide(run); hide(hdr);
    run_step(ver, b);
    if first_of(ver, b) is Some { run_ends(ver, b.skip((hdr(b)->Some_0).1)); }
}
// ---- bytes::BytesMut as a vector of bytes
trait VxAdvance { spec fn held(&self) -> Seq<u8>; fn vx_advance(&mut self, n: usize) requires n <= old(self).held().len() ensures final(self).held() == old(self).held().skip(n as int); }
impl VxAdvance for Vec<u8> {
    spec fn held(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_advance(&mut self, n: usize) { unimplemented!() }
}
/// iter().skip(n).any(f) of a slice of bytes (std: Iterator)
struct VxBytes<'a> { s: &'a [u8], n: usize }
trait VxBytesOf { fn vx_iter<'a>(&'a self) -> VxBytes<'a>; }
impl VxBytesOf for [u8] {
    fn vx_iter<'a>(&'a self) -> (r: VxBytes<'a>) ensures r.s@ == self@, r.n == 0 { VxBytes { s: self, n: 0 } }
}
impl<'a> VxBytes<'a> {
    fn skip(self, n: usize) -> (r: VxBytes<'a>)
        requires self.n + n <= usize::MAX
        ensures r.s == self.s, r.n == self.n + n
    { VxBytes { s: self.s, n: self.n + n } }
    fn any<F: Fn(&u8) -> bool>(&self, f: F) -> (r: bool)
        requires forall|x: &u8| call_requires(f, (x,))
        ensures r ==> exists|j: int| self.n <= j < self.s@.len() && call_ensures(f, (&#[trigger] self.s@[j],), true),
            !r ==> forall|j: int| self.n <= j < self.s@.len() ==> call_ensures(f, (&#[trigger] self.s@[j],), false)
    {
        let mut i: usize = self.n;
        while i < self.s.len()
            invariant self.n <= i, forall|x: &u8| call_requires(f, (x,)),
                forall|j: int| self.n <= j < i && j < self.s@.len() ==> call_ensures(f, (& #[trigger] self.s@[j],), false),
            decreases self.s.len() - i
        {
            if f(&self.s[i]) { return true; }
            i = i + 1;
        }
        false
    }
}
//@ item src/mqtt_serde/parser/leveled.rs ParseLevel derive=Clone,Copy
//@ item src/mqtt_serde/parser/stream.rs MqttParser BytesMut=>Vec<u8>
//@ fn src/mqtt_serde/parser/stream.rs fixed_header_complete
//@ for C07
//@ ret r
//@ spec
  ensures r == !cut(buffer@) // [C07]
//@ method iter .vx_iter
//@ closure 0 |byte: &u8| -> (r: bool) ensures r == (*byte < 128)
//@ begin
  broadcast use mask80;
  let ghost s = buffer@.subrange(1, buffer@.len() as int);
  proof { if buffer@.len() > 0 { assert(forall|i: int| 1 <= i < buffer@.len() ==> #[trigger] buffer@[i] == s[i - 1]); assert(forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == buffer@[i + 1]); } }
//@ end
//@ fn src/mqtt_serde/parser/stream.rs MqttParser::feed
//@ for C07
//@ spec
  ensures final(self).buffer@ == old(self).buffer@ + data@, // [C07]
    final(self).mqtt_version == old(self).mqtt_version, final(self).parse_level == old(self).parse_level // [C07]
//@ end
//@ fn src/mqtt_serde/parser/stream.rs MqttParser::next_packet
//@ own
//@ for C07
//@ method advance .vx_advance
//@ ret r
//@ spec
  requires old(self).mqtt_version != 0
  ensures
    final(self).mqtt_version == old(self).mqtt_version, final(self).parse_level == old(self).parse_level, // [C07]
    stepped(old(self).mqtt_version, old(self).buffer@, r, final(self).buffer@) // [C07]
//@ begin
  proof { hdr_alone(self.buffer@); }
//@ end
/// what handing out one packet may do
spec fn stepped(ver: u8, a: Seq<u8>, r: Result<Option<MqttPacket>, ParseError>, z: Seq<u8>) -> bool {
    match r {
        Ok(Some(p)) => first_of(ver, a) == Some(vpacket(p)) && z == a.skip((hdr(a)->Some_0).1),
        Ok(None) => z == a && partial(a),
        Err(_) => z == a && dead(ver, a),
    }
}

/// what is in a list of chunks
spec fn flat(cs: Seq<Vec<u8>>) -> Seq<u8> decreases cs.len() { if cs.len() == 0 { seq![] } else { flat(cs.drop_last()) + cs.last()@ } }
spec fn vpackets(s: Seq<MqttPacket>) -> Seq<VPacket> { s.map_values(|p: MqttPacket| vpacket(p)) }
/// a user of the parser: takes what there is
#[verifier::spinoff_prover]
fn c07_drain(p: &mut MqttParser, out: &mut Vec<MqttPacket>) -> (r: bool)
    requires old(p).mqtt_version != 0
    ensures
        final(p).mqtt_version == old(p).mqtt_version,
        vpackets(final(out)@) =~= vpackets(old(out)@) + run(old(p).mqtt_version, old(p).buffer@).0,
        final(p).buffer@ == run(old(p).mqtt_version, old(p).buffer@).1,
        if r { dead(old(p).mqtt_version, final(p).buffer@) } else { partial(final(p).buffer@) },
        first_of(old(p).mqtt_version, final(p).buffer@) is None,
{
    hide(dec); hide(first_of); hide(run); hide(hdr);
    let ghost ver = p.mqtt_version;
    loop
        invariant ver == p.mqtt_version, ver == old(p).mqtt_version, ver != 0,
            vpackets(old(out)@) + run(ver, old(p).buffer@).0 =~= vpackets(out@) + run(ver, p.buffer@).0,
            run(ver, p.buffer@).1 == run(ver, old(p).buffer@).1,
        decreases p.buffer@.len()
    {
        proof { run_step(ver, p.buffer@); }
        let ghost o = out@;
        let ghost b = p.buffer@;
        match p.next_packet() {
            Ok(Some(x)) => {
                out.push(x);
                proof { assert(vpackets(out@) =~= vpackets(o).push(vpacket(x))); assert(vpackets(out@) + run(ver, p.buffer@).0 =~= vpackets(o) + run(ver, b).0); }
            }
            Ok(None) => { proof { partial_none(ver, b); } return false; }
            Err(_) => { proof { c07_dead(ver, b, seq![]); assert(b + seq![] =~= b); } return true; }
        }
    }
}
proof fn partial_none(ver: u8, b: Seq<u8>)
    requires partial(b)
    ensures first_of(ver, b) is None
{ if cut(b) && b.len() > 0 { vdec_cut(b.subrange(1, b.len() as int), 0); } }
proof fn vdec_cut(s: Seq<u8>, i: nat)
    requires forall|j: int| 0 <= j < s.len() ==> s[j] >= 128
    ensures vdec(s, i) is None
    decreases 4 - i
{ if i < 4 { vdec_cut(s, i + 1); } }
proof fn run_empty(ver: u8, b: Seq<u8>)
    requires b.len() == 0
    ensures run(ver, b) == (Seq::<VPacket>::empty(), b)
{}
proof fn dead_run(ver: u8, b: Seq<u8>, c: Seq<u8>)
    requires dead(ver, b)
    ensures run(ver, b + c).0 =~= Seq::<VPacket>::empty()
{ c07_dead(ver, b, c); run_step(ver, b + c); }
/// C07: whatever the division into chunks, what comes out is what is in the whole; an error only where no packet can begin any more
#[verifier::spinoff_prover]
fn c07_any_chunks(p: &mut MqttParser, chunks: &Vec<Vec<u8>>, out: &mut Vec<MqttPacket>) -> (r: bool)
    requires old(p).mqtt_version != 0, old(p).buffer@.len() == 0, old(out)@.len() == 0
    ensures
        vpackets(final(out)@) =~= run(old(p).mqtt_version, flat(chunks@)).0,
        !r ==> final(p).buffer@ == run(old(p).mqtt_version, flat(chunks@)).1,
        r ==> exists|n: int| 0 <= n <= chunks@.len() && dead(old(p).mqtt_version, run(old(p).mqtt_version, #[trigger] flat(chunks@.take(n))).1)
{
    hide(dec); hide(first_of); hide(run); hide(hdr); hide(dead); hide(partial);
    let ghost ver = p.mqtt_version;
    let mut i: usize = 0;
    proof { run_empty(ver, p.buffer@); assert(p.buffer@ =~= flat(chunks@.take(0))); }
    while i < chunks.len()
        invariant i <= chunks.len(), ver == p.mqtt_version, ver == old(p).mqtt_version, ver != 0,
            vpackets(out@) =~= run(ver, flat(chunks@.take(i as int))).0,
            p.buffer@ == run(ver, flat(chunks@.take(i as int))).1,
        decreases chunks.len() - i
    {
        let ghost b = flat(chunks@.take(i as int));
        let ghost c = chunks@[i as int]@;
        p.feed(chunks[i].as_slice());
        proof { c07_run(ver, b, c); assert(chunks@.take(i + 1).drop_last() =~= chunks@.take(i as int)); }
        let r = c07_drain(p, out);
        i = i + 1;
        if r {
            proof {
                let n = i as int;
                c07_rest(chunks@, n);
                let d = flat(chunks@.take(n));
                c07_run(ver, d, flat(chunks@.skip(n)));
                dead_run(ver, run(ver, d).1, flat(chunks@.skip(n)));
                assert(run(ver, flat(chunks@)).0 =~= run(ver, d).0);
            }
            return true;
        }
    }
    proof { assert(chunks@.take(i as int) =~= chunks@); }
    false
}
proof fn c07_rest(cs: Seq<Vec<u8>>, n: int)
    requires 0 <= n <= cs.len()
    ensures flat(cs) == flat(cs.take(n)) + flat(cs.skip(n))
    decreases cs.len()
{
    if n == cs.len() { assert(cs.take(n) =~= cs); assert(flat(cs.skip(n)) =~= seq![]); assert(flat(cs) =~= flat(cs) + seq![]); }
    else {
        c07_rest(cs.drop_last(), n);
        assert(cs.drop_last().take(n) =~= cs.take(n));
        assert(cs.drop_last().skip(n) =~= cs.skip(n).drop_last());
        assert(flat(cs.take(n)) + (flat(cs.skip(n).drop_last()) + cs.last()@) =~= (flat(cs.take(n)) + flat(cs.skip(n).drop_last())) + cs.last()@);
    }
}
/// C07: while a packet is incomplete the parser waits: no error, nothing discarded
proof fn c07_waits(ver: u8, b: Seq<u8>, c: Seq<u8>, r: Result<Option<MqttPacket>, ParseError>, z: Seq<u8>)
    requires first_of(ver, b) is None, first_of(ver, b + c) is Some, stepped(ver, b, r, z)
    ensures r == Ok::<Option<MqttPacket>, ParseError>(None), z == b
{ if dead(ver, b) { c07_dead(ver, b, c); } }
