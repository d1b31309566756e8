// ---------------------------------------------------------------- C33: MQTT over QUIC, every packet whole and in order on its own stream
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
#[verifier::external_body]
#[derive(Clone, Copy)]
struct SocketAddr { x: u8 }
#[verifier::external_body]
struct Endpoint { x: u8 }
#[verifier::external_body]
struct ConnectError { x: u8 }
#[verifier::external_body]
struct EndpointConfig { x: u8 }
impl EndpointConfig {
    #[verifier::external_body]
    fn default() -> (r: EndpointConfig) { unimplemented!() }
}
#[verifier::external_body]
struct ServerConfig { x: u8 }
impl Endpoint {
    #[verifier::external_body]
    fn new(config: Arc<EndpointConfig>, server: Option<Arc<ServerConfig>>, allow_mtud: bool, seed: Option<[u8; 32]>) -> (r: Endpoint) { unimplemented!() }
    /// a connection with nothing on it
    #[verifier::external_body]
    fn connect(&mut self, now: Instant, config: ClientConfig, remote: SocketAddr, server_name: &str) -> (r: Result<(ConnectionHandle, Connection), ConnectError>)
        ensures r matches Ok(x) ==> virgin(x.1) && forall|s: StreamId| !#[trigger] x.1.knows(s) { unimplemented!() }
}
/// nothing was written on it, nothing ended
spec fn virgin(k: Connection) -> bool { (forall|s: StreamId| (#[trigger] k.sent(s)).len() == 0) && (forall|s: StreamId| !#[trigger] k.fin(s)) && k.closed() is None }
/// rustls::ClientConfig, as far as it is looked at
struct QTlsConfig { alpn_protocols: Vec<Vec<u8>>, enable_early_data: bool, resumption: Resumption }
#[verifier::external_body]
struct Resumption { x: u8 }
impl Resumption {
    #[verifier::external_body]
    fn store(c: Arc<ClearableQuicSessionCache>) -> (r: Resumption) { unimplemented!() }
}
#[verifier::external_body]
struct ConnectionHandle { x: u8 }
#[verifier::external_body]
struct ClientConfig { x: u8 }
impl Clone for ClientConfig { #[verifier::external_body] fn clone(&self) -> (r: ClientConfig) { unimplemented!() } }
#[verifier::external_body]
struct ClearableQuicSessionCache { x: u8 }
#[verifier::external_body]
struct Bytes { x: u8 }
impl Bytes {
    uninterp spec fn v(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn copy_from_slice(b: &[u8]) -> (r: Bytes) ensures r.v() == b@ { unimplemented!() }
}
//@ path bytes::Bytes::copy_from_slice Bytes::copy_from_slice
#[derive(Clone, Copy)]
struct VarInt { v: u64 }
/// quinn_proto::StreamId: a u64, compared and hashed as one
#[derive(Clone, Copy)]
struct StreamId { id: u64 }
impl PartialEqSpecImpl for StreamId {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &StreamId) -> bool { *self == *o }
}
impl PartialEq for StreamId { #[verifier::external_body] fn eq(&self, o: &StreamId) -> bool { self.id == o.id } }
impl Eq for StreamId {}
impl std::hash::Hash for StreamId { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.id.hash(h) } }
axiom fn axiom_stream_key() ensures vstd::std_specs::hash::obeys_key_model::<StreamId>();
impl PartialEqSpecImpl for QuicZeroRttStatus {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &QuicZeroRttStatus) -> bool { *self == *o }
}
impl PartialEq for QuicZeroRttStatus { #[verifier::external_body] fn eq(&self, o: &QuicZeroRttStatus) -> bool { unimplemented!() } }
trait VxNum { spec fn n(self) -> u64; }
impl VxNum for StreamId { spec fn n(self) -> u64 { self.id } }
impl VxNum for VarInt { spec fn n(self) -> u64 { self.v } }
#[verifier::external_body]
fn vx_num<T: VxNum>(s: T) -> (r: u64) ensures r == s.n() { unimplemented!() }
//@ path u64::from vx_num
trait VxStreams { fn vx_get_mut_s(&mut self, k: &StreamId) -> Option<&mut QuicStream>; }
impl VxStreams for HashMap<StreamId, QuicStream> {
    #[verifier::external_body]
    fn vx_get_mut_s(&mut self, k: &StreamId) -> (r: Option<&mut QuicStream>)
        ensures match r {
            None => !old(self)@.contains_key(*k) && *final(self) == *old(self),
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
        }
    { self.get_mut(k) }
}
//@ method get_mut .vx_get_mut_s
/// keys().copied().find(|id| u64::from(*id) == h)
#[verifier::external_body]
fn vx_find_stream(m: &HashMap<StreamId, QuicStream>, h: u64) -> (r: Option<StreamId>)
    ensures match r { Some(s) => s.id == h && m@.contains_key(s), None => !m@.contains_key(StreamId { id: h }) }
{ unimplemented!() }
/// the keys of a map, each once
#[verifier::external_body]
fn vx_keys(m: &HashMap<StreamId, QuicStream>) -> (r: Vec<StreamId>) ensures listing(m@, r@) { unimplemented!() }
//@ item src/mqtt_serde/parser/mod.rs ParseError IoError=>std::io::Error
// ---- the stream parser: the packets in what it was fed and did not hand out yet (what they are is C07)
#[verifier::external_body]
struct MqttParser { x: u8 }
impl MqttParser {
    uninterp spec fn fed(&self) -> Seq<u8>;
    uninterp spec fn given(&self) -> Seq<MqttPacket>;
    uninterp spec fn left(&self) -> nat;
    #[verifier::external_body]
    fn new(buffer_size: usize, mqtt_version: u8) -> (r: MqttParser) ensures r.fed() == Seq::<u8>::empty(), r.given() == Seq::<MqttPacket>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn feed(&mut self, data: &[u8]) ensures final(self).fed() == old(self).fed() + data@, final(self).given() == old(self).given() { unimplemented!() }
    #[verifier::external_body]
    fn next_packet(&mut self) -> (r: Result<Option<MqttPacket>, ParseError>)
        ensures final(self).fed() == old(self).fed(), final(self).given() == (match r { Ok(Some(p)) => old(self).given().push(p), _ => old(self).given() }), r matches Ok(Some(_)) ==> final(self).left() < old(self).left()
    { unimplemented!() }
}
uninterp spec fn wire(p: MqttPacket) -> Option<Seq<u8>>;
impl MqttPacket {
    #[verifier::external_body]
    fn to_bytes(&self) -> (r: Result<Vec<u8>, ParseError>)
        ensures match wire(*self) { Some(b) => r is Ok && r->Ok_0@ == b, None => r is Err }
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_error_from(e: ParseError) -> (r: MqttClientError) { unimplemented!() }
//@ path MqttClientError::from vx_error_from
#[verifier::external_body]
fn vx_any<T>() -> (r: T) { unimplemented!() }
trait VxExtendAll<T> { fn vx_extend_all(&mut self, i: Vec<T>); }
impl<T> VxExtendAll<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_extend_all(&mut self, i: Vec<T>) ensures final(self)@ == old(self)@ + i@ { self.extend(i) }
}
//@ method extend .vx_extend_all
// ---- the MQTT engine (C13 to C25), with the history of what it was asked and given
/// a packet that came in on a stream, and the bytes the engine answers it with
struct Got { packet: MqttPacket, stream: u64, answer: Seq<u8>, events: Seq<MqttEvent> }
/// a command, the stream it is for and the bytes it became
enum Asked { Pub(PublishCommand), Sub(SubscribeCommand), Unsub(UnsubscribeCommand) }
struct Made { what: Asked, stream: Option<u64>, bytes: Seq<u8> }
#[verifier::external_body]
struct MqttEngine { x: u8 }
impl MqttEngine {
    uninterp spec fn got(&self) -> Seq<Got>;
    uninterp spec fn made(&self) -> Seq<Made>;
    uninterp spec fn taken(&self) -> Seq<u8>;
    /// what it has to send on the shared connection and was not asked for yet
    uninterp spec fn held(&self) -> Seq<u8>;
    uninterp spec fn fed(&self) -> Seq<u8>;
    uninterp spec fn pings(&self) -> nat;
    uninterp spec fn linked(&self) -> bool;
    uninterp spec fn version(&self) -> u8;
    uninterp spec fn opts(&self) -> MqttClientOptions;
    #[verifier::external_body]
    fn new(options: MqttClientOptions) -> (r: MqttEngine) ensures r.opts() == options, !r.linked() { unimplemented!() }
    spec fn same_streams(&self, o: &MqttEngine) -> bool { self.got() == o.got() && self.made() == o.made() && self.version() == o.version() && self.opts() == o.opts() }
    spec fn same(&self, o: &MqttEngine) -> bool { self.same_streams(o) && self.taken() == o.taken() && self.fed() == o.fed() && self.pings() == o.pings() }
    #[verifier::external_body]
    fn options(&self) -> (r: &MqttClientOptions) ensures *r == self.opts() { unimplemented!() }
    #[verifier::external_body]
    fn mqtt_version(&self) -> (r: u8) ensures r == self.version() { unimplemented!() }
    #[verifier::external_body]
    fn is_connected(&self) -> (r: bool) ensures r == self.linked() { unimplemented!() }
    #[verifier::external_body]
    fn handle_connection_lost(&mut self) ensures final(self).same(old(self)), !final(self).linked() { unimplemented!() }
    /// CONNECT is queued
    #[verifier::external_body]
    fn connect(&mut self) ensures final(self).same_streams(old(self)), final(self).taken() == old(self).taken(), final(self).fed() == old(self).fed() { unimplemented!() }
    #[verifier::external_body]
    fn take_outgoing(&mut self) -> (r: Vec<u8>) ensures final(self).same_streams(old(self)), r@ == old(self).held(), final(self).held().len() == 0, final(self).taken() == old(self).taken() + r@, final(self).fed() == old(self).fed(), final(self).linked() == old(self).linked() { unimplemented!() }
    #[verifier::external_body]
    fn handle_incoming(&mut self, data: &[u8]) -> (r: Vec<MqttEvent>) ensures final(self).same_streams(old(self)), final(self).taken() == old(self).taken(), final(self).fed() == old(self).fed() + data@ { unimplemented!() }
    /// the packets given out to be sent again, each with its stream
    uninterp spec fn again(&self) -> Seq<(u64, Vec<u8>)>;
    #[verifier::external_body]
    fn take_stream_retransmissions(&mut self) -> (r: Vec<(u64, Vec<u8>)>) ensures final(self).same(old(self)), final(self).again() == old(self).again() + r@ { unimplemented!() }
    #[verifier::external_body]
    fn reset_for_new_transport(&mut self) ensures !final(self).linked() { unimplemented!() }
    #[verifier::external_body]
    fn try_disconnect(&mut self) -> (r: Result<(), MqttClientError>) ensures final(self).same(old(self)), r is Ok ==> !final(self).linked() { unimplemented!() }
    #[verifier::external_body]
    fn try_send_ping(&mut self) -> (r: Result<(), MqttClientError>) ensures final(self).same_streams(old(self)), final(self).taken() == old(self).taken(), final(self).fed() == old(self).fed(), final(self).pings() == old(self).pings() + (if r is Ok { 1nat } else { 0 }) { unimplemented!() }
    #[verifier::external_body]
    fn ingest_stream_packet(&mut self, packet: MqttPacket, stream: u64) -> (r: (Vec<MqttEvent>, Vec<u8>))
        ensures final(self).got() == old(self).got().push(Got { packet, stream, answer: r.1@, events: r.0@ }), final(self).made() == old(self).made(), final(self).version() == old(self).version(), final(self).opts() == old(self).opts(), final(self).fed() == old(self).fed(), final(self).taken() == old(self).taken()
    { unimplemented!() }
    #[verifier::external_body]
    fn publish_encoded(&mut self, command: PublishCommand, stream: Option<u64>) -> (r: Result<(Option<u16>, Vec<u8>), MqttClientError>)
        ensures final(self).got() == old(self).got(), final(self).made() == made(old(self), Asked::Pub(command), stream, r), final(self).taken() == old(self).taken(), final(self).linked() == old(self).linked() { unimplemented!() }
    #[verifier::external_body]
    fn subscribe_encoded(&mut self, command: SubscribeCommand, stream: Option<u64>) -> (r: Result<(u16, Vec<u8>), MqttClientError>)
        ensures final(self).got() == old(self).got(), final(self).made() == made(old(self), Asked::Sub(command), stream, r), final(self).taken() == old(self).taken(), final(self).linked() == old(self).linked() { unimplemented!() }
    #[verifier::external_body]
    fn unsubscribe_encoded(&mut self, command: UnsubscribeCommand, stream: Option<u64>) -> (r: Result<(u16, Vec<u8>), MqttClientError>)
        ensures final(self).got() == old(self).got(), final(self).made() == made(old(self), Asked::Unsub(command), stream, r), final(self).taken() == old(self).taken(), final(self).linked() == old(self).linked() { unimplemented!() }
}
spec fn made<P>(e: &MqttEngine, what: Asked, stream: Option<u64>, r: Result<(P, Vec<u8>), MqttClientError>) -> Seq<Made> {
    match r { Ok(x) => e.made().push(Made { what, stream, bytes: x.1@ }), Err(_) => e.made() }
}
// ---- quinn-proto: per stream, the bytes its send side accepted, whether it was finished, reset or asked to stop
#[verifier::external_body]
struct Connection { x: u8 }
impl Connection {
    uninterp spec fn knows(&self, s: StreamId) -> bool;
    uninterp spec fn sent(&self, s: StreamId) -> Seq<u8>;
    uninterp spec fn fin(&self, s: StreamId) -> bool;
    uninterp spec fn closed(&self) -> Option<(VarInt, Seq<u8>)>;
    uninterp spec fn aborted(&self, s: StreamId) -> Option<VarInt>;
    uninterp spec fn asked(&self, s: StreamId) -> Option<VarInt>;
    uninterp spec fn pings(&self) -> nat;
    spec fn same(&self, o: &Connection) -> bool {
        self.closed() == o.closed() && self.pings() == o.pings() && (forall|s: StreamId| #[trigger] self.knows(s) == o.knows(s)) && (forall|s: StreamId| #[trigger] self.sent(s) == o.sent(s)) && (forall|s: StreamId| #[trigger] self.fin(s) == o.fin(s))
        && (forall|s: StreamId| #[trigger] self.aborted(s) == o.aborted(s)) && (forall|s: StreamId| #[trigger] self.asked(s) == o.asked(s))
    }
    /// streams().open(Dir::Bi): a stream that was not there before
    #[verifier::external_body]
    fn vx_open(&mut self) -> (r: Option<StreamId>)
        ensures (forall|s: StreamId| #[trigger] final(self).knows(s) == (old(self).knows(s) || r == Some(s))), r matches Some(s) ==> !old(self).knows(s), final(self).events() == old(self).events(), final(self).lost() == old(self).lost(),
            (forall|s: StreamId| #[trigger] final(self).sent(s) == old(self).sent(s)), (forall|s: StreamId| #[trigger] final(self).fin(s) == old(self).fin(s)), final(self).closed() == old(self).closed(),
    { unimplemented!() }
    /// send_stream(s).write(b): how many of the bytes, from the first, were accepted
    #[verifier::external_body]
    fn vx_write(&mut self, s: StreamId, b: &Vec<u8>) -> (r: Result<usize, MqttClientError>)
        ensures r matches Ok(n) ==> n <= b@.len(),
            final(self).sent(s) == old(self).sent(s) + (match r { Ok(n) => b@.take(n as int), Err(_) => Seq::<u8>::empty() }),
            (forall|t: StreamId| t != s ==> #[trigger] final(self).sent(t) == old(self).sent(t)), (forall|t: StreamId| #[trigger] final(self).fin(t) == old(self).fin(t)),
            (forall|t: StreamId| #[trigger] final(self).knows(t) == old(self).knows(t)), final(self).closed() == old(self).closed(),
    { unimplemented!() }
    /// send_stream(s).finish(), here only with nothing left to write
    #[verifier::external_body]
    fn vx_finish(&mut self, s: StreamId, left: &Vec<u8>) -> (r: Result<(), MqttClientError>)
        requires left@.len() == 0
        ensures (forall|t: StreamId| t != s ==> #[trigger] final(self).fin(t) == old(self).fin(t)), final(self).fin(s), (forall|t: StreamId| #[trigger] final(self).sent(t) == old(self).sent(t)),
            (forall|t: StreamId| #[trigger] final(self).knows(t) == old(self).knows(t)), final(self).closed() == old(self).closed(),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_reset(&mut self, s: StreamId, code: VarInt) -> (r: Result<(), MqttClientError>)
        ensures final(self).aborted(s) == Some(code), (forall|t: StreamId| t != s ==> #[trigger] final(self).aborted(t) == old(self).aborted(t)), (forall|t: StreamId| #[trigger] final(self).sent(t) == old(self).sent(t)), (forall|t: StreamId| #[trigger] final(self).knows(t) == old(self).knows(t)),
            (forall|t: StreamId| #[trigger] final(self).fin(t) == old(self).fin(t)), final(self).closed() == old(self).closed(),
    { unimplemented!() }
    #[verifier::external_body]
    fn vx_stop(&mut self, s: StreamId, code: VarInt) -> (r: Result<(), MqttClientError>)
        ensures final(self).asked(s) == Some(code), (forall|t: StreamId| t != s ==> #[trigger] final(self).asked(t) == old(self).asked(t)), (forall|t: StreamId| #[trigger] final(self).sent(t) == old(self).sent(t)), (forall|t: StreamId| #[trigger] final(self).knows(t) == old(self).knows(t)),
            (forall|t: StreamId| #[trigger] final(self).fin(t) == old(self).fin(t)), final(self).closed() == old(self).closed(),
    { unimplemented!() }
    #[verifier::external_body]
    fn close(&mut self, now: Instant, code: VarInt, reason: Bytes)
        ensures final(self).closed() == Some((code, reason.v())), (forall|t: StreamId| #[trigger] final(self).sent(t) == old(self).sent(t)), (forall|t: StreamId| #[trigger] final(self).knows(t) == old(self).knows(t)), (forall|t: StreamId| #[trigger] final(self).fin(t) == old(self).fin(t)),
    { unimplemented!() }
    /// close, where it must not cut off bytes that were to be sent first
    #[verifier::external_body]
    fn vx_close_after(&mut self, now: Instant, code: VarInt, reason: Bytes, left: &Vec<u8>)
        requires left@.len() == 0
        ensures final(self).closed() == Some((code, reason.v())), (forall|t: StreamId| #[trigger] final(self).sent(t) == old(self).sent(t)), (forall|t: StreamId| #[trigger] final(self).knows(t) == old(self).knows(t)), (forall|t: StreamId| #[trigger] final(self).fin(t) == old(self).fin(t)),
    { unimplemented!() }
    /// what the peer's bytes were so far, whether they ended, or were cut off
    uninterp spec fn recvd(&self, s: StreamId) -> Seq<u8>;
    uninterp spec fn ended(&self, s: StreamId) -> bool;
    uninterp spec fn was_reset(&self, s: StreamId) -> Option<VarInt>;
    uninterp spec fn unread(&self, s: StreamId) -> nat;
    #[verifier::external_body]
    fn recv_stream(&mut self, s: StreamId) -> (r: RecvSide) ensures *final(self) == *old(self), r.id == s { unimplemented!() }
    #[verifier::external_body]
    fn vx_received_reset(&mut self, s: StreamId) -> (r: Option<VarInt>) ensures *final(self) == *old(self), r == old(self).was_reset(s) { unimplemented!() }
    #[verifier::external_body]
    fn vx_read(&mut self, s: StreamId) -> (r: Result<RecvSide, ReadableError>) ensures *final(self) == *old(self), r matches Ok(c) ==> c.id == s { unimplemented!() }
    /// chunks().next(n): the next bytes of the peer, in order
    #[verifier::external_body]
    fn vx_next(&mut self, s: StreamId, n: usize) -> (r: Result<Option<Chunk>, ReadError>)
        ensures final(self).recvd(s) == (match r { Ok(Some(c)) => old(self).recvd(s) + c.bytes@, _ => old(self).recvd(s) }), r matches Ok(Some(_)) ==> final(self).unread(s) < old(self).unread(s),
            final(self).ended(s) == (old(self).ended(s) || r matches Ok(None)), final(self).was_reset(s) == (match r { Err(ReadError::Reset(c)) => Some(c), _ => old(self).was_reset(s) }),
            others(old(self), final(self), s), quiet(*old(self), *final(self)),
    { unimplemented!() }
    #[verifier::external_body]
    fn accepted_0rtt(&self) -> (r: bool) { unimplemented!() }
    uninterp spec fn events(&self) -> nat;
    /// what happened to the connection
    #[verifier::external_body]
    fn poll(&mut self) -> (r: Option<QuicEvent>) ensures final(self).same(old(self)), r is Some ==> final(self).events() < old(self).events(),
            final(self).lost() == (old(self).lost() || r matches Some(QuicEvent::ConnectionLost { .. })), old(self).lost() ==> !(r matches Some(QuicEvent::Connected)) { unimplemented!() }
    uninterp spec fn lost(&self) -> bool;
    #[verifier::external_body]
    fn has_0rtt(&self) -> (r: bool) { unimplemented!() }
    uninterp spec fn queued(&self) -> nat;
    #[verifier::external_body]
    fn poll_transmit(&mut self, now: Instant, max_datagrams: usize, buf: &mut Vec<u8>) -> (r: Option<Transmit>)
        ensures final(self).same(old(self)), r is Some ==> final(self).queued() < old(self).queued() { unimplemented!() }
    #[verifier::external_body]
    fn ping(&mut self)
        ensures final(self).pings() == old(self).pings() + 1, final(self).closed() == old(self).closed(), (forall|t: StreamId| #[trigger] final(self).sent(t) == old(self).sent(t)), (forall|t: StreamId| #[trigger] final(self).knows(t) == old(self).knows(t)), (forall|t: StreamId| #[trigger] final(self).fin(t) == old(self).fin(t)),
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_now() -> (r: Instant) { unimplemented!() }
//@ path Instant::now vx_now
#[derive(Clone, Copy)]
struct RecvSide { id: StreamId }
struct Chunk { bytes: Vec<u8> }
#[verifier::external_body]
struct ReadableError { x: u8 }
#[verifier::external_body]
struct ConnectionError { x: u8 }
#[verifier::external_body]
fn vx_take_deque<T>(v: &mut VecDeque<T>) -> (r: VecDeque<T>) ensures r@ == old(v)@, final(v)@ =~= Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
fn vx_take_vec<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ =~= Seq::<T>::empty() { unimplemented!() }
enum StreamDir { Bi, Uni }
/// quinn_proto::StreamEvent and Event
enum StreamEvent { Opened { dir: StreamDir }, Readable { id: StreamId }, Writable { id: StreamId }, Finished { id: StreamId }, Stopped { id: StreamId, error_code: VarInt }, Available { dir: StreamDir } }
enum QuicEvent { HandshakeDataReady, Connected, ConnectionLost { reason: ConnectionError }, Stream(StreamEvent), DatagramReceived, DatagramsUnblocked }
#[verifier::external_body]
fn transport_close_details(reason: &ConnectionError) -> (r: (bool, Option<u64>)) { unimplemented!() }
/// quinn_proto::ReadError
enum ReadError { Blocked, Reset(VarInt) }
spec fn others(k: &Connection, k2: &Connection, s: StreamId) -> bool { forall|t: StreamId| t != s ==> #[trigger] k2.recvd(t) == k.recvd(t) && k2.ended(t) == k.ended(t) && k2.was_reset(t) == k.was_reset(t) }
/// what came in on a stream between `k` and `k2`
spec fn newly(k: &Connection, k2: &Connection, s: StreamId) -> Seq<u8> { k2.recvd(s).skip(k.recvd(s).len() as int) }
// ---- what is said about the engine
spec fn rest_same(a: QuicStream, b: QuicStream) -> bool { a.parser == b.parser && a.max_packets == b.max_packets && a.finishing == b.finishing && a.finished == b.finished && a.recv_closed == b.recv_closed }
/// stream `s` got `bytes` behind what it had, as `n` packets, and nothing else happened to the streams
spec fn grown(m: Map<StreamId, QuicStream>, s: StreamId, bytes: Seq<u8>, n: int, m2: Map<StreamId, QuicStream>) -> bool {
    m.contains_key(s) && m2 =~= m.insert(s, m2[s]) && m2[s].outgoing@ == m[s].outgoing@ + bytes && m2[s].pending_packets == m[s].pending_packets + n && rest_same(m[s], m2[s])
}
/// everything but the data streams, the MQTT engine and the 0-RTT journal
spec fn frame(a: QuicMqttEngine, b: QuicMqttEngine) -> bool {
    a.connection == b.connection && frame1(a, b) && a.default_pub_stream == b.default_pub_stream && a.default_sub_stream == b.default_sub_stream && a.control_outgoing@ == b.control_outgoing@
    && a.pending_close == b.pending_close && a.control_finishing == b.control_finishing && a.control_finished == b.control_finished
}
spec fn frame1(a: QuicMqttEngine, b: QuicMqttEngine) -> bool {
    a.control_stream == b.control_stream && a.zero_rtt_status == b.zero_rtt_status && a.pending_transport_events == b.pending_transport_events && a.outgoing_datagrams == b.outgoing_datagrams && a.client_config == b.client_config
}
spec fn open_(d: QuicStream) -> bool { !d.finishing && !d.finished }
spec fn room(d: QuicStream) -> bool { open_(d) && d.pending_packets < d.max_packets }
spec fn default_there(o: Option<StreamId>, m: Map<StreamId, QuicStream>) -> bool { o matches Some(s) ==> m.contains_key(s) }
spec fn wf(q: QuicMqttEngine) -> bool {
    default_there(q.default_pub_stream, q.data_streams@) && default_there(q.default_sub_stream, q.data_streams@)
    && (q.control_stream matches Some(c) ==> !q.data_streams@.contains_key(c))
    && (q.connection matches Some(k) ==> (q.control_stream matches Some(c) ==> k.knows(c)) && forall|s: StreamId| #[trigger] q.data_streams@.contains_key(s) ==> k.knows(s))
}
spec fn may_command(q: QuicMqttEngine) -> bool { q.mqtt_engine.linked() || q.zero_rtt_status == QuicZeroRttStatus::Attempted }
/// a stream newly opened, with nothing on it
spec fn fresh(d: QuicStream, o: MqttClientOptions) -> bool { d.outgoing@.len() == 0 && d.pending_packets == 0 && d.max_packets == o.max_outgoing_packet_count && open_(d) && !d.recv_closed && d.parser.fed().len() == 0 }
/// the streams as they were, or with `s` opened
spec fn opened(a: QuicMqttEngine, b: QuicMqttEngine, s: StreamId) -> bool {
    (b.data_streams@ == a.data_streams@ && a.connection == b.connection) || only_opened(a, b, s)
}
spec fn only_opened(a: QuicMqttEngine, b: QuicMqttEngine, s: StreamId) -> bool {
    !a.data_streams@.contains_key(s) && a.control_stream != Some(s) && b.data_streams@ =~= a.data_streams@.insert(s, b.data_streams@[s]) && fresh(b.data_streams@[s], a.mqtt_engine.opts())
    && a.connection is Some && b.connection is Some && quiet(a.connection->Some_0, b.connection->Some_0)
}
/// no stream was written to or ended, and the connection was not closed
spec fn quiet(a: Connection, b: Connection) -> bool { (forall|s: StreamId| #[trigger] b.sent(s) == a.sent(s)) && (forall|s: StreamId| #[trigger] b.fin(s) == a.fin(s)) && a.closed() == b.closed() }
/// the command of a caller became one packet, whole, behind what stream `s` had, and the rest stayed
spec fn carried(a: QuicMqttEngine, b: QuicMqttEngine, what: Asked, s: StreamId) -> bool {
    b.mqtt_engine.made().len() == a.mqtt_engine.made().len() + 1 && b.mqtt_engine.made().drop_last() =~= a.mqtt_engine.made()
    && b.mqtt_engine.made().last().what == what && b.mqtt_engine.made().last().stream == Some(s.id)
    && b.mqtt_engine.made().last().bytes.len() >= 0
    && b.data_streams@.contains_key(s) && b.data_streams@ =~= a.data_streams@.insert(s, b.data_streams@[s])
    && (a.data_streams@.contains_key(s) ==> grown(a.data_streams@, s, b.mqtt_engine.made().last().bytes, 1, b.data_streams@) && room(a.data_streams@[s]))
    && (!a.data_streams@.contains_key(s) ==> b.data_streams@[s].outgoing@ =~= b.mqtt_engine.made().last().bytes && b.data_streams@[s].pending_packets == 1)
}
/// nothing was put on a stream: one may have been opened
spec fn nothing(a: QuicMqttEngine, b: QuicMqttEngine, d: Option<StreamId>) -> bool { b.mqtt_engine.made() == a.mqtt_engine.made() && (b.data_streams@ =~= a.data_streams@ || (d is Some && only_opened(a, b, d->Some_0))) }
spec fn ends(o: Option<StreamId>, s: StreamId) -> Option<StreamId> { if o == Some(s) { None } else { o } }
/// the packets a stream handed out and what they were answered with
spec fn answers_of(g: Seq<Got>) -> Seq<u8> decreases g.len() { if g.len() == 0 { Seq::empty() } else { answers_of(g.drop_last()) + g.last().answer } }
spec fn packets_of(g: Seq<Got>) -> Seq<MqttPacket> decreases g.len() { if g.len() == 0 { Seq::empty() } else { packets_of(g.drop_last()).push(g.last().packet) } }
spec fn answered(g: Seq<Got>) -> nat decreases g.len() { if g.len() == 0 { 0 } else { answered(g.drop_last()) + (if g.last().answer.len() > 0 { 1nat } else { 0 }) } }
spec fn events_of(g: Seq<Got>) -> Seq<MqttEvent> decreases g.len() { if g.len() == 0 { Seq::empty() } else { events_of(g.drop_last()) + g.last().events } }
spec fn all_on(g: Seq<Got>, s: StreamId) -> bool { forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).stream == s.id }
proof fn lemma_one_more(g: Seq<Got>, n: int, x: Got)
    requires 0 <= n <= g.len()
    ensures g.push(x).skip(n) =~= g.skip(n).push(x), g.push(x).skip(n).drop_last() =~= g.skip(n), g.push(x).skip(n).last() == x, g.push(x).take(n) =~= g.take(n)
{}
/// what the engine gave out between `a` and `b`
spec fn took(a: MqttEngine, b: MqttEngine) -> Seq<u8> { b.taken().skip(a.taken().len() as int) }
#[verifier::external_body]
fn vx_as_mut<T>(o: &mut Option<T>) -> (r: Option<&mut T>)
    ensures match r { None => *old(o) is None && *final(o) == *old(o), Some(v) => *old(o) == Some(*v) && *final(o) == Some(*final(v)) }
{ o.as_mut() }
//@ method as_mut &mut vx_as_mut
//@ fn src/mqtt_client/engine.rs stream_finished_error free
//@ for C33
//@ end
//@ fn src/mqtt_client/engine.rs quic_error_code free
//@ for C33
//@ subst VarInt :: from_u64 ( error_code ) ==> vx_varint ( error_code )
//@ ret r
//@ spec
  ensures match r { Ok(c) => c.v == error_code && error_code < 0x4000000000000000, Err(_) => error_code >= 0x4000000000000000 }
//@ end
#[verifier::external_body]
fn vx_varint(x: u64) -> (r: Result<VarInt, MqttClientError>) ensures r is Ok <==> x < 0x4000000000000000, r matches Ok(c) ==> c.v == x { unimplemented!() }
//@ fn src/mqtt_client/engine.rs QuicStream::new
//@ for C33
//@ ret r
//@ spec
  ensures r.outgoing@.len() == 0, r.pending_packets == 0, r.max_packets == max_packets, open_(r), !r.recv_closed, r.parser.fed().len() == 0, r.parser.given().len() == 0
//@ end
//@ fn src/mqtt_client/engine.rs QuicStream::with_outgoing
//@ for C33
//@ ret r
//@ spec
  ensures r.outgoing == outgoing, r.pending_packets == pending_packets, r.max_packets == max_packets, open_(r), !r.recv_closed, r.parser.fed().len() == 0, r.parser.given().len() == 0
//@ end
impl QuicMqttEngine {
    /// the 0-RTT journal
    #[verifier::external_body]
    fn journal_stream_open(j: &mut Vec<EarlyStreamJournal>, stream_id: StreamId, role: EarlyStreamRole) { unimplemented!() }
    #[verifier::external_body]
    fn journal_stream_bytes(j: &mut Vec<EarlyStreamJournal>, stream_id: StreamId, bytes: &[u8], n: usize) { unimplemented!() }
    #[verifier::external_body]
    fn client_config_from_crypto(c: QTlsConfig) -> (r: Result<ClientConfig, MqttClientError>) { unimplemented!() }
    #[verifier::external_body]
    fn zero_rtt_cache_for_size(&mut self, n: usize) -> (r: Arc<ClearableQuicSessionCache>)
        ensures frame2(*old(self), *final(self)), final(self).connection == old(self).connection { unimplemented!() }
}
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::append_control_outgoing_bytes
//@ for C33
//@ sigsubst & mut [EarlyStreamJournal] ==> & mut Vec < EarlyStreamJournal >
//@ spec
  ensures final(control_outgoing)@ == old(control_outgoing)@ + bytes@
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::ensure_command_allowed_before_mqtt_connected
//@ for C33
//@ ret r
//@ spec
  ensures r is Ok <==> may_command(*self)
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::open_bidi_stream_with_role
//@ for C33
//@ subst conn . streams ( ) . open ( Dir :: Bi ) ==> conn . vx_open ( )
//@ ret r
//@ begin
  proof { axiom_stream_key(); } broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ spec
  requires wf(*old(self))
  ensures wf(*final(self)), final(self).mqtt_engine == old(self).mqtt_engine, frame1(*old(self), *final(self)), final(self).default_pub_stream == old(self).default_pub_stream, final(self).default_sub_stream == old(self).default_sub_stream, final(self).control_outgoing == old(self).control_outgoing,
     final(self).pending_close == old(self).pending_close, final(self).control_finishing == old(self).control_finishing, final(self).control_finished == old(self).control_finished,
     match r { Ok(s) => may_command(*old(self)) && only_opened(*old(self), *final(self), s), Err(_) => final(self).data_streams@ =~= old(self).data_streams@ }
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::open_data_stream
//@ for C33
//@ ret r
//@ subst ? . into ( ) ==> ? . id
//@ spec
  requires wf(*old(self))
  ensures wf(*final(self)), final(self).mqtt_engine == old(self).mqtt_engine,
     match r { Ok(h) => may_command(*old(self)) && only_opened(*old(self), *final(self), StreamId { id: h }), Err(_) => final(self).data_streams@ =~= old(self).data_streams@ }
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::resolve_stream
//@ for C33
//@ ret r
//@ subst self . data_streams . keys ( ) . copied ( ) . find ( | id | vx_num ( * id ) == handle ) ==> vx_find_stream ( & self . data_streams , handle )
//@ spec
  ensures match r { Ok(s) => s.id == handle && self.data_streams@.contains_key(s), Err(_) => !self.data_streams@.contains_key(StreamId { id: handle }) }
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::ensure_stream_capacity
//@ for C33
//@ ret r
//@ begin
  proof { axiom_stream_key(); } broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ spec
  ensures r is Ok <==> (self.data_streams@.contains_key(stream_id) ==> room(self.data_streams@[stream_id]))
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::enqueue_on_stream
//@ for C33
//@ ret r
//@ begin
  proof { axiom_stream_key(); }
//@ tail
  proof { if old(self).data_streams@.contains_key(stream_id) && room(old(self).data_streams@[stream_id]) { assert(self.data_streams@ =~= old(self).data_streams@.insert(stream_id, self.data_streams@[stream_id])); assert(self.data_streams@[stream_id].outgoing@ =~= old(self).data_streams@[stream_id].outgoing@ + bytes@); assert(rest_same(old(self).data_streams@[stream_id], self.data_streams@[stream_id])); } }
//@ spec
  ensures frame(*old(self), *final(self)), final(self).mqtt_engine == old(self).mqtt_engine,
     !old(self).data_streams@.contains_key(stream_id) ==> r is Ok && final(self).data_streams@ =~= old(self).data_streams@,
     old(self).data_streams@.contains_key(stream_id) && room(old(self).data_streams@[stream_id]) ==> r is Ok && grown(old(self).data_streams@, stream_id, bytes@, 1, final(self).data_streams@),
     old(self).data_streams@.contains_key(stream_id) && !room(old(self).data_streams@[stream_id]) ==> r is Err && final(self).data_streams@ =~= old(self).data_streams@,
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::ensure_default_pub_stream
//@ for C33
//@ ret r
//@ spec
  requires wf(*old(self))
  ensures wf(*final(self)), final(self).mqtt_engine == old(self).mqtt_engine, frame1(*old(self), *final(self)), final(self).default_sub_stream == old(self).default_sub_stream,
     match r { Ok(s) => final(self).default_pub_stream == Some(s) && (old(self).default_pub_stream matches Some(t) ==> t == s && final(self).data_streams@ =~= old(self).data_streams@) && (old(self).default_pub_stream is None ==> only_opened(*old(self), *final(self), s)),
        Err(_) => final(self).data_streams@ =~= old(self).data_streams@ && final(self).default_pub_stream == old(self).default_pub_stream }
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::ensure_default_sub_stream
//@ for C33
//@ ret r
//@ spec
  requires wf(*old(self))
  ensures wf(*final(self)), final(self).mqtt_engine == old(self).mqtt_engine, frame1(*old(self), *final(self)), final(self).default_pub_stream == old(self).default_pub_stream,
     match r { Ok(s) => final(self).default_sub_stream == Some(s) && (old(self).default_sub_stream matches Some(t) ==> t == s && final(self).data_streams@ =~= old(self).data_streams@) && (old(self).default_sub_stream is None ==> only_opened(*old(self), *final(self), s)),
        Err(_) => final(self).data_streams@ =~= old(self).data_streams@ && final(self).default_sub_stream == old(self).default_sub_stream }
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::publish
//@ include quicdef.inc A=Pub D=default_pub_stream
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::subscribe
//@ include quicdef.inc A=Sub D=default_sub_stream
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::unsubscribe
//@ include quicdef.inc A=Unsub D=default_sub_stream
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::publish_on
//@ include quicon.inc A=Pub
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::subscribe_on
//@ include quicon.inc A=Sub
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::unsubscribe_on
//@ include quicon.inc A=Unsub
//@ end

// ---- what came in on a data stream goes to the engine, packet by packet, and the answers back onto that stream
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::drain_data_stream
//@ for C33
//@ begin
  proof { axiom_stream_key(); } broadcast use vstd::std_specs::hash::group_hash_axioms;
  let ghost n0 = old(mqtt_engine).got().len() as int;
//@ loop 0
  invariant_except_break
     events@ == old(events)@ + events_of(mqtt_engine.got().skip(n0)),
  invariant n0 == old(mqtt_engine).got().len(), vstd::std_specs::hash::obeys_key_model::<StreamId>(),
     drained(old(data_streams)@, old(mqtt_engine), data_streams@, mqtt_engine, stream_id, false), mqtt_engine.got().len() >= n0,
  ensures drained(old(data_streams)@, old(mqtt_engine), data_streams@, mqtt_engine, stream_id, true), (old(events)@ + events_of(mqtt_engine.got().skip(n0))).is_prefix_of(events@),
  decreases data_streams@[stream_id].parser.left()
//@ loop 0 begin
  broadcast use vstd::std_specs::hash::group_hash_axioms;
  let ghost e0 = *mqtt_engine; let ghost d0 = data_streams@;
//@ after let (evs, resp)
  proof {
    let x = mqtt_engine.got().last(); assert(mqtt_engine.got() =~= e0.got().push(x)); lemma_one_more(e0.got(), n0, x);
    let g = e0.got().skip(n0); let h = mqtt_engine.got().skip(n0); assert(h == g.push(x)); assert(h.drop_last() == g && h.last() == x);
    assert(packets_of(h) == packets_of(g).push(x.packet)); assert(answers_of(h) == answers_of(g) + x.answer); assert(events_of(h) == events_of(g) + x.events);
    assert(all_on(h, stream_id)) by { assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]).stream == stream_id.id by { if i < g.len() { assert(h[i] == g[i]); } } }
    assert(e0.got().take(n0) =~= old(mqtt_engine).got()); assert(mqtt_engine.got().take(n0) =~= old(mqtt_engine).got());
  }
//@ spec
  ensures drained(old(data_streams)@, old(mqtt_engine), final(data_streams)@, final(mqtt_engine), stream_id, true),
     (old(events)@ + events_of(final(mqtt_engine).got().skip(old(mqtt_engine).got().len() as int))).is_prefix_of(final(events)@),
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::clear_data_stream_refs_fields
//@ for C33
//@ begin
  proof { axiom_stream_key(); } broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ spec
  ensures final(data_streams)@ =~= old(data_streams)@.remove(stream_id), *final(default_pub_stream) == ends(*old(default_pub_stream), stream_id), *final(default_sub_stream) == ends(*old(default_sub_stream), stream_id)
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::handle_control_stream_terminal_fields
//@ for C33
//@ spec
  ensures *final(control_stream) is None, final(control_outgoing)@.len() == 0, !*final(control_finishing), *final(control_finished), final(mqtt_engine).same(old(mqtt_engine)), !final(mqtt_engine).linked(),
     final(mqtt_events)@ == old(mqtt_events)@.push(MqttEvent::Disconnected(None))
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::handle_stream_stopped_fields
//@ include quicend.inc A=StreamStopped
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::handle_stream_reset_fields
//@ include quicend.inc A=StreamReset
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::handle_stream_closed_fields
//@ for C33
//@ begin
  proof { axiom_stream_key(); } broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ spec
  ensures
     *old(control_stream) == Some(stream_id) && by_peer ==> *final(control_stream) is None && final(control_outgoing)@.len() == 0 && !*final(control_finishing) && *final(control_finished) && final(mqtt_engine).same(old(mqtt_engine)) && !final(mqtt_engine).linked() && final(data_streams)@ == old(data_streams)@,
     !(*old(control_stream) == Some(stream_id) && by_peer) ==> *final(control_stream) == *old(control_stream) && final(control_outgoing)@ == old(control_outgoing)@ && *final(control_finishing) == *old(control_finishing) && *final(control_finished) == *old(control_finished) && *final(mqtt_engine) == *old(mqtt_engine),
     *old(control_stream) == Some(stream_id) || !old(data_streams)@.contains_key(stream_id) ==> final(data_streams)@ =~= old(data_streams)@,
     *old(control_stream) != Some(stream_id) && old(data_streams)@.contains_key(stream_id) ==> final(data_streams)@ =~= old(data_streams)@.insert(stream_id, final(data_streams)@[stream_id])
        && final(data_streams)@[stream_id] == (if by_peer { QuicStream { recv_closed: true, ..old(data_streams)@[stream_id] } } else { QuicStream { finished: true, ..old(data_streams)@[stream_id] } }),
//@ end
// ---- the controls of a caller
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::require_connection
//@ for C33
//@ ret r
//@ spec
  ensures match r { Ok(c) => old(self).connection == Some(*c) && final(self).connection == Some(*final(c)), Err(_) => old(self).connection is None && final(self).connection is None },
     frame2(*old(self), *final(self)),
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::resolve_any_stream
//@ for C33
//@ ret r
//@ spec
  ensures match r { Ok(s) => s.id == handle && (self.control_stream == Some(s) || self.data_streams@.contains_key(s)), Err(_) => self.control_stream != Some(StreamId { id: handle }) && !self.data_streams@.contains_key(StreamId { id: handle }) }
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::send_raw_on
//@ for C33
//@ ret r
//@ begin
  proof { axiom_stream_key(); } broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ spec
  requires wf(*old(self))
  ensures wf(*final(self)), raw(*old(self), *final(self), StreamId { id: stream }, bytes@, r is Ok),
//@ tail
  proof { let s = StreamId { id: stream }; if old(self).data_streams@.contains_key(s) { assert(self.data_streams@ =~= old(self).data_streams@.insert(s, self.data_streams@[s])); assert(self.data_streams@[s].outgoing@ =~= old(self).data_streams@[s].outgoing@ + bytes@); assert(rest_same(old(self).data_streams@[s], self.data_streams@[s])); } }
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::send_packet_on
//@ for C33
//@ ret r
//@ spec
  requires wf(*old(self))
  ensures wf(*final(self)), packed(*old(self), *final(self), StreamId { id: stream }, packet, r is Ok)
//@ end
//@ fn src/mqtt_serde/mqttv5/puback.rs MqttPubAck::new
//@ for C33
//@ ret r
//@ spec
  ensures r == (MqttPubAck5 { packet_id, reason_code, properties })
//@ end
//@ fn src/mqtt_serde/mqttv3/puback.rs MqttPubAck::new
//@ for C33
//@ ret r
//@ spec
  ensures r == (MqttPubAck3 { message_id })
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::puback_packet
//@ for C33
//@ ret r
//@ spec
  ensures is_puback(r, packet_id, self.mqtt_engine.version())
//@ end
spec fn is_puback(p: MqttPacket, id: u16, v: u8) -> bool {
    if v == 5 { p is PubAck5 && p->PubAck5_0.packet_id == id && p->PubAck5_0.reason_code == 0 && p->PubAck5_0.properties@.len() == 0 } else { p == MqttPacket::PubAck3(MqttPubAck3 { message_id: id }) }
}
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::puback_on
//@ for C33
//@ ret r
//@ spec
  requires wf(*old(self))
  ensures wf(*final(self)), exists|p: MqttPacket| is_puback(p, packet_id, old(self).mqtt_engine.version()) && #[trigger] packed(*old(self), *final(self), StreamId { id: stream }, p, r is Ok)
//@ end
//@ fn src/mqtt_serde/mqttv5/pubrec.rs MqttPubRec::new
//@ for C33
//@ ret r
//@ spec
  ensures r == (MqttPubRec5 { packet_id, reason_code, properties })
//@ end
//@ fn src/mqtt_serde/mqttv3/pubrec.rs MqttPubRec::new
//@ for C33
//@ ret r
//@ spec
  ensures r == (MqttPubRec3 { message_id })
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::pubrec_packet
//@ for C33
//@ ret r
//@ spec
  ensures is_pubrec(r, packet_id, self.mqtt_engine.version())
//@ end
spec fn is_pubrec(p: MqttPacket, id: u16, v: u8) -> bool {
    if v == 5 { p is PubRec5 && p->PubRec5_0.packet_id == id && p->PubRec5_0.reason_code == 0 && p->PubRec5_0.properties@.len() == 0 } else { p == MqttPacket::PubRec3(MqttPubRec3 { message_id: id }) }
}
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::pubrec_on
//@ for C33
//@ ret r
//@ spec
  requires wf(*old(self))
  ensures wf(*final(self)), exists|p: MqttPacket| is_pubrec(p, packet_id, old(self).mqtt_engine.version()) && #[trigger] packed(*old(self), *final(self), StreamId { id: stream }, p, r is Ok)
//@ end
//@ fn src/mqtt_serde/mqttv5/pubrel.rs MqttPubRel::new
//@ for C33
//@ ret r
//@ spec
  ensures r == (MqttPubRel5 { packet_id, reason_code, properties })
//@ end
//@ fn src/mqtt_serde/mqttv3/pubrel.rs MqttPubRel::new
//@ for C33
//@ ret r
//@ spec
  ensures r == (MqttPubRel3 { message_id })
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::pubrel_packet
//@ for C33
//@ ret r
//@ spec
  ensures is_pubrel(r, packet_id, self.mqtt_engine.version())
//@ end
spec fn is_pubrel(p: MqttPacket, id: u16, v: u8) -> bool {
    if v == 5 { p is PubRel5 && p->PubRel5_0.packet_id == id && p->PubRel5_0.reason_code == 0 && p->PubRel5_0.properties@.len() == 0 } else { p == MqttPacket::PubRel3(MqttPubRel3 { message_id: id }) }
}
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::pubrel_on
//@ for C33
//@ ret r
//@ spec
  requires wf(*old(self))
  ensures wf(*final(self)), exists|p: MqttPacket| is_pubrel(p, packet_id, old(self).mqtt_engine.version()) && #[trigger] packed(*old(self), *final(self), StreamId { id: stream }, p, r is Ok)
//@ end
//@ fn src/mqtt_serde/mqttv5/pubcomp.rs MqttPubComp::new
//@ for C33
//@ ret r
//@ spec
  ensures r == (MqttPubComp5 { packet_id, reason_code, properties })
//@ end
//@ fn src/mqtt_serde/mqttv3/pubcomp.rs MqttPubComp::new
//@ for C33
//@ ret r
//@ spec
  ensures r == (MqttPubComp3 { message_id })
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::pubcomp_packet
//@ for C33
//@ ret r
//@ spec
  ensures is_pubcomp(r, packet_id, self.mqtt_engine.version())
//@ end
spec fn is_pubcomp(p: MqttPacket, id: u16, v: u8) -> bool {
    if v == 5 { p is PubComp5 && p->PubComp5_0.packet_id == id && p->PubComp5_0.reason_code == 0 && p->PubComp5_0.properties@.len() == 0 } else { p == MqttPacket::PubComp3(MqttPubComp3 { message_id: id }) }
}
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::pubcomp_on
//@ for C33
//@ ret r
//@ spec
  requires wf(*old(self))
  ensures wf(*final(self)), exists|p: MqttPacket| is_pubcomp(p, packet_id, old(self).mqtt_engine.version()) && #[trigger] packed(*old(self), *final(self), StreamId { id: stream }, p, r is Ok)
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::finish_stream
//@ for C33
//@ ret r
//@ begin
  proof { axiom_stream_key(); } broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ spec
  requires wf(*old(self))
  ensures wf(*final(self)), final(self).connection == old(self).connection, frame1(*old(self), *final(self)), final(self).default_pub_stream == old(self).default_pub_stream, final(self).default_sub_stream == old(self).default_sub_stream, final(self).pending_close == old(self).pending_close, final(self).control_finished == old(self).control_finished,
     r is Ok <==> old(self).connection is Some && (old(self).control_stream == Some(StreamId { id: stream }) || old(self).data_streams@.contains_key(StreamId { id: stream })),
     r is Ok && old(self).control_stream == Some(StreamId { id: stream }) ==> final(self).control_outgoing@ == old(self).control_outgoing@ + old(self).mqtt_engine.held() && took(old(self).mqtt_engine, final(self).mqtt_engine) == old(self).mqtt_engine.held() && final(self).control_finishing && !final(self).mqtt_engine.linked() && final(self).data_streams@ == old(self).data_streams@,
     !(r is Ok && old(self).control_stream == Some(StreamId { id: stream })) ==> final(self).mqtt_engine == old(self).mqtt_engine && final(self).control_outgoing@ == old(self).control_outgoing@ && final(self).control_finishing == old(self).control_finishing,
     r is Ok && old(self).control_stream != Some(StreamId { id: stream }) ==> final(self).data_streams@ =~= old(self).data_streams@.insert(StreamId { id: stream }, QuicStream { finishing: true, ..old(self).data_streams@[StreamId { id: stream }] }),
     r is Err ==> final(self).data_streams@ == old(self).data_streams@,
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::reset_stream
//@ for C33
//@ ret r
//@ subst conn . send_stream ( stream_id ) . reset ( code ) ==> conn . vx_reset ( stream_id , code )
//@ begin
  proof { axiom_stream_key(); } broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ spec
  requires wf(*old(self))
  ensures wf(*final(self)), frame1(*old(self), *final(self)),
     r is Ok ==> error_code < 0x4000000000000000 && (old(self).control_stream == Some(StreamId { id: stream }) || old(self).data_streams@.contains_key(StreamId { id: stream })) && final(self).connection is Some && (final(self).connection->Some_0.aborted(StreamId { id: stream }) matches Some(c) && c.v == error_code),
     error_code >= 0x4000000000000000 ==> r is Err && *final(self) == *old(self),
     r is Ok && old(self).control_stream == Some(StreamId { id: stream }) ==> final(self).control_outgoing@.len() == 0 && final(self).control_finished && !final(self).control_finishing && !final(self).mqtt_engine.linked() && final(self).data_streams@ == old(self).data_streams@,
     old(self).control_stream != Some(StreamId { id: stream }) ==> final(self).control_outgoing@ == old(self).control_outgoing@ && final(self).mqtt_engine == old(self).mqtt_engine && final(self).control_finished == old(self).control_finished && final(self).control_finishing == old(self).control_finishing,
     r is Ok && old(self).control_stream != Some(StreamId { id: stream }) ==> final(self).data_streams@ =~= old(self).data_streams@.insert(StreamId { id: stream }, final(self).data_streams@[StreamId { id: stream }])
        && final(self).data_streams@[StreamId { id: stream }].outgoing@.len() == 0 && final(self).data_streams@[StreamId { id: stream }].pending_packets == 0 && final(self).data_streams@[StreamId { id: stream }].finished && !final(self).data_streams@[StreamId { id: stream }].finishing && final(self).data_streams@[StreamId { id: stream }].parser == old(self).data_streams@[StreamId { id: stream }].parser,
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::stop_stream
//@ for C33
//@ ret r
//@ subst conn . recv_stream ( stream_id ) . stop ( code ) ==> conn . vx_stop ( stream_id , code )
//@ spec
  requires wf(*old(self))
  ensures wf(*final(self)), frame2(*old(self), *final(self)),
     r is Ok ==> error_code < 0x4000000000000000 && (old(self).control_stream == Some(StreamId { id: stream }) || old(self).data_streams@.contains_key(StreamId { id: stream })) && final(self).connection is Some && (final(self).connection->Some_0.asked(StreamId { id: stream }) matches Some(c) && c.v == error_code),
     error_code >= 0x4000000000000000 ==> r is Err && *final(self) == *old(self),
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::close
//@ for C33
//@ ret r
//@ spec
  ensures r is Ok ==> final(self).connection is Some && (final(self).connection->Some_0.closed() matches Some(c) && c.0.v == error_code && c.1 == reason@) && final(self).pending_close is None && !final(self).mqtt_engine.linked(),
     r is Ok <==> error_code < 0x4000000000000000 && old(self).connection is Some, final(self).data_streams == old(self).data_streams, final(self).control_outgoing == old(self).control_outgoing,
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::disconnect_and_close
//@ for C33
//@ ret r
//@ spec
  ensures final(self).connection == old(self).connection, final(self).data_streams == old(self).data_streams, final(self).control_outgoing == old(self).control_outgoing, final(self).mqtt_engine.same(&old(self).mqtt_engine),
     match r { Ok(_) => error_code < 0x4000000000000000 && final(self).connection is Some && final(self).pending_close is Some && final(self).pending_close->Some_0.0.v == error_code && final(self).pending_close->Some_0.1.v() == reason@ && !final(self).mqtt_engine.linked(),
        Err(_) => final(self).pending_close == old(self).pending_close }
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::close_silent
//@ for C33
//@ spec
  ensures gone(*final(self))
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::reset_connection_state
//@ for C33
//@ begin
  proof { axiom_stream_key(); } broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ spec
  ensures gone(*final(self))
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::ping
//@ for C33
//@ ret r
//@ spec
  ensures frame(*old(self), *final(self)), final(self).data_streams@ == old(self).data_streams@, final(self).mqtt_engine.pings() == old(self).mqtt_engine.pings() + (if r is Ok { 1nat } else { 0 }),
     r is Ok ==> old(self).mqtt_engine.linked() && !old(self).control_finishing && !old(self).control_finished,
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::quic_ping
//@ for C33
//@ ret r
//@ spec
  ensures frame2(*old(self), *final(self)), r is Ok <==> old(self).connection is Some, r is Ok ==> final(self).connection is Some && final(self).connection->Some_0.pings() == old(self).connection->Some_0.pings() + 1
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::control_stream_id
//@ for C33
//@ ret r
//@ spec
  ensures match r { Some(h) => self.control_stream == Some(StreamId { id: h }), None => self.control_stream is None }
//@ end
/// everything but the connection
spec fn frame2(a: QuicMqttEngine, b: QuicMqttEngine) -> bool {
    a.mqtt_engine == b.mqtt_engine && a.data_streams@ == b.data_streams@ && a.data_streams == b.data_streams && frame1(a, b) && a.default_pub_stream == b.default_pub_stream && a.default_sub_stream == b.default_sub_stream && a.control_outgoing == b.control_outgoing
    && a.pending_close == b.pending_close && a.control_finishing == b.control_finishing && a.control_finished == b.control_finished
}
/// nothing is left of a connection
spec fn gone(q: QuicMqttEngine) -> bool {
    q.connection is None && q.control_stream is None && q.data_streams@ =~= Map::<StreamId, QuicStream>::empty() && q.default_pub_stream is None && q.default_sub_stream is None && q.control_outgoing@.len() == 0
    && q.outgoing_datagrams@.len() == 0 && q.pending_close is None && !q.control_finishing && !q.control_finished && !q.mqtt_engine.linked() && q.early_stream_journal@.len() == 0
}
/// `bytes` went onto stream `s` (control or data), behind what it had, or nothing changed
spec fn raw(a: QuicMqttEngine, b: QuicMqttEngine, s: StreamId, bytes: Seq<u8>, ok: bool) -> bool {
    a.mqtt_engine == b.mqtt_engine && a.connection == b.connection && frame1(a, b) && a.default_pub_stream == b.default_pub_stream && a.default_sub_stream == b.default_sub_stream && a.pending_close == b.pending_close && a.control_finishing == b.control_finishing && a.control_finished == b.control_finished
    && (ok <==> (if a.control_stream == Some(s) { !a.control_finishing && !a.control_finished } else { a.data_streams@.contains_key(s) && open_(a.data_streams@[s]) }))
    && (if ok && a.control_stream == Some(s) { b.control_outgoing@ == a.control_outgoing@ + bytes && b.data_streams@ =~= a.data_streams@ }
        else if ok { b.control_outgoing@ == a.control_outgoing@ && grown(a.data_streams@, s, bytes, 0, b.data_streams@) }
        else { b.control_outgoing@ == a.control_outgoing@ && b.data_streams@ =~= a.data_streams@ })
}
spec fn packed(a: QuicMqttEngine, b: QuicMqttEngine, s: StreamId, p: MqttPacket, ok: bool) -> bool {
    match wire(p) { Some(w) => raw(a, b, s, w, ok), None => !ok && a == b }
}
/// the stream `s` gave its packets to the engine, in order, and got their answers behind what it had, in order
spec fn drained(m: Map<StreamId, QuicStream>, e: &MqttEngine, m2: Map<StreamId, QuicStream>, e2: &MqttEngine, s: StreamId, x: bool) -> bool {
    let g = e2.got().skip(e.got().len() as int);
    e2.got().len() >= e.got().len() && e2.got().take(e.got().len() as int) =~= e.got() && all_on(g, s) && e2.made() == e.made() && e2.opts() == e.opts() && e2.version() == e.version() && e2.taken() == e.taken() && e2.fed() == e.fed()
    && (if m.contains_key(s) {
        m2 =~= m.insert(s, m2[s])
        && m2[s].parser.fed() == m[s].parser.fed() && m2[s].parser.given() =~= m[s].parser.given() + packets_of(g)
        && m2[s].max_packets == m[s].max_packets && m2[s].finishing == m[s].finishing && m2[s].finished == m[s].finished && m2[s].recv_closed == m[s].recv_closed
        && m2[s].outgoing@ =~= m[s].outgoing@ + (if m[s].finished { Seq::<u8>::empty() } else { answers_of(g) })
        && m2[s].pending_packets == m[s].pending_packets + (if m[s].finished { 0nat } else { answered(g) })
    } else { m2 =~= m && g.len() == 0 })
}
// ---- one tick: what is written to each stream, in order, and when a stream or the connection is ended
fn vx_drop_front(v: &mut Vec<u8>, n: usize) requires n <= old(v)@.len() ensures final(v)@ == old(v)@.skip(n as int) { vx_drain_front(v, n) }
#[verifier::external_body]
fn vx_drain_front(v: &mut Vec<u8>, n: usize) requires n <= old(v)@.len() ensures final(v)@ == old(v)@.skip(n as int) { v.drain(..n); }
struct Transmit { destination: SocketAddr }
/// the handle of a send side
#[derive(Clone, Copy)]
struct SendSide { id: StreamId }
impl Connection {
    #[verifier::external_body]
    fn send_stream(&mut self, s: StreamId) -> (r: SendSide) ensures *final(self) == *old(self), r.id == s { unimplemented!() }
}
spec fn flushed(d: QuicStream, k: &Connection, d2: QuicStream, k2: &Connection, s: StreamId) -> bool {
    d2.parser == d.parser && d2.max_packets == d.max_packets && d2.recv_closed == d.recv_closed
    && k2.sent(s) + d2.outgoing@ =~= k.sent(s) + d.outgoing@ && k.sent(s).is_prefix_of(k2.sent(s))
    && d2.pending_packets == (if d.outgoing@.len() > 0 && d2.outgoing@.len() == 0 { 0usize } else { d.pending_packets })
    && (if d.finishing && !d.finished && d2.outgoing@.len() == 0 { d2.finished && !d2.finishing && k2.fin(s) } else { d2.finished == d.finished && d2.finishing == d.finishing && k2.fin(s) == k.fin(s) })
}
spec fn untouched(k: &Connection, k2: &Connection, s: StreamId) -> bool { k2.sent(s) == k.sent(s) && k2.fin(s) == k.fin(s) }
//@ slice src/mqtt_client/engine.rs QuicMqttEngine::handle_tick
//@ sig fn tick_flush(&mut self, conn: &mut Connection, now: Instant)
//@ from if !self.control_finishing && !self.control_finished {
//@ to if self.pending_close.is_some()
//@ for C33
//@ subst stream . write ( & self . control_outgoing ) ==> conn . vx_write ( stream . id , & self . control_outgoing )
//@ subst stream . write ( & ds . outgoing ) ==> conn . vx_write ( stream . id , & ds . outgoing )
//@ subst self . control_outgoing . drain ( .. written ) ==> vx_drop_front ( & mut self . control_outgoing , written )
//@ subst ds . outgoing . drain ( .. written ) ==> vx_drop_front ( & mut ds . outgoing , written )
//@ subst conn . send_stream ( stream_id ) . finish ( ) ==> conn . vx_finish ( stream_id , & self . control_outgoing )
//@ subst conn . send_stream ( * stream_id ) . finish ( ) ==> conn . vx_finish ( * stream_id , & ds . outgoing )
//@ subst conn . close ( now , code , reason ) ==> conn . vx_close_after ( now , code , reason , & self . control_outgoing )
//@ subst self . data_streams . iter_mut ( ) ==> vx_keys ( & self . data_streams )
//@ subst let ( stream_id , ds ) = vxp1 ; ==> let stream_id = & vxp1 ; let ds = vx_here ( & mut self . data_streams , vxp1 ) ;
//@ begin
  proof { axiom_stream_key(); } broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ spec
  requires wf2(*old(self), *old(conn))
  ensures flush_control(*old(self), old(conn), *final(self), final(conn)),
     final(self).data_streams@.dom() =~= old(self).data_streams@.dom(),
     forall|s: StreamId| old(self).data_streams@.contains_key(s) ==> flushed(#[trigger] old(self).data_streams@[s], old(conn), final(self).data_streams@[s], final(conn), s),
     forall|s: StreamId| #![trigger final(conn).sent(s)] #![trigger final(conn).fin(s)] !old(self).data_streams@.contains_key(s) && old(self).control_stream != Some(s) ==> untouched(old(conn), final(conn), s),
     if old(self).pending_close is Some && final(self).control_outgoing@.len() == 0 { final(conn).closed() == Some((old(self).pending_close->Some_0.0, old(self).pending_close->Some_0.1.v())) && final(self).pending_close is None && !final(self).mqtt_engine.linked() }
     else { final(conn).closed() == old(conn).closed() && final(self).pending_close == old(self).pending_close },
     final(self).control_stream == old(self).control_stream, final(self).default_pub_stream == old(self).default_pub_stream, final(self).default_sub_stream == old(self).default_sub_stream, final(self).mqtt_engine.same_streams(&old(self).mqtt_engine),
//@ iter 0 it hoist
//@ after let session_bytes
  proof { assert(took(old(self).mqtt_engine, self.mqtt_engine) =~= session_bytes@); }
//@ loop 0 before
  let ghost a = *self; let ghost k0 = *conn; let ghost m0 = self.data_streams@;
  proof { if let Some(s) = old(self).control_stream { assert(old(conn).sent(s).is_prefix_of(conn.sent(s))); } assert(flush_control(*old(self), old(conn), *self, conn)); }
//@ loop 0
  invariant vstd::std_specs::hash::obeys_key_model::<StreamId>(), listing(m0, it.seq()), self.data_streams@.dom() =~= m0.dom(),
    *self == (QuicMqttEngine { data_streams: self.data_streams, ..a }), conn.closed() == k0.closed(),
    forall|j: int| 0 <= j < it.index() ==> flushed(m0[#[trigger] it.seq()[j]], &k0, self.data_streams@[it.seq()[j]], conn, it.seq()[j]),
    forall|j: int| it.index() <= j < it.seq().len() ==> self.data_streams@[#[trigger] it.seq()[j]] == m0[it.seq()[j]] && untouched(&k0, conn, it.seq()[j]),
    forall|s: StreamId| #![trigger conn.sent(s)] #![trigger conn.fin(s)] !m0.contains_key(s) ==> untouched(&k0, conn, s),
//@ loop 1 before
  let ghost k1 = *conn; let ghost b = *self;
//@ loop 1
  invariant conn.same(&k1), *self == (QuicMqttEngine { outgoing_datagrams: self.outgoing_datagrams, ..b }),
  decreases conn.queued()
//@ loop 2 before
  let ghost k2 = *conn; let ghost c = *self;
//@ loop 2
  invariant conn.same(&k2), *self == (QuicMqttEngine { outgoing_datagrams: self.outgoing_datagrams, ..c }),
  decreases conn.queued()
//@ end
#[verifier::external_body]
fn vx_here(m: &mut HashMap<StreamId, QuicStream>, k: StreamId) -> (r: &mut QuicStream)
    requires old(m)@.contains_key(k)
    ensures *r == old(m)@[k], final(m)@ == old(m)@.insert(k, *final(r))
{ unimplemented!() }
spec fn wf2(q: QuicMqttEngine, k: Connection) -> bool { q.control_stream matches Some(c) ==> !q.data_streams@.contains_key(c) }
spec fn flush_control(a: QuicMqttEngine, k: &Connection, b: QuicMqttEngine, k2: &Connection) -> bool {
    let q = if a.control_finishing || a.control_finished { a.control_outgoing@ } else { a.control_outgoing@ + took(a.mqtt_engine, b.mqtt_engine) };
    (if a.control_finishing || a.control_finished { b.mqtt_engine.taken() == a.mqtt_engine.taken() } else { took(a.mqtt_engine, b.mqtt_engine) =~= a.mqtt_engine.held() })
    && (match a.control_stream {
        Some(s) => {
            k.sent(s).is_prefix_of(k2.sent(s))
            && (if a.control_finished { k2.sent(s) == k.sent(s) && b.control_outgoing@ == q } else { k2.sent(s) + b.control_outgoing@ =~= k.sent(s) + q })
            && (if a.control_finishing && !a.control_finished && b.control_outgoing@.len() == 0 { b.control_finished && !b.control_finishing && k2.fin(s) } else { b.control_finished == a.control_finished && b.control_finishing == a.control_finishing && k2.fin(s) == k.fin(s) })
        },
        None => b.control_outgoing@ == q && b.control_finished == a.control_finished && b.control_finishing == a.control_finishing,
    })
}

/// a stream that ended the session with it
spec fn over(q: QuicMqttEngine) -> bool { q.control_stream is None && q.control_outgoing@.len() == 0 && !q.control_finishing && q.control_finished && !q.mqtt_engine.linked() }
spec fn control_as(a: QuicMqttEngine, b: QuicMqttEngine) -> bool { b.control_stream == a.control_stream && b.control_outgoing@ == a.control_outgoing@ && b.control_finishing == a.control_finishing && b.control_finished == a.control_finished }
//@ slice src/mqtt_client/engine.rs QuicMqttEngine::handle_tick
//@ sig fn tick_read_control(&mut self, conn: &mut Connection, mut mqtt_events: Vec<MqttEvent>) -> Vec<MqttEvent>
//@ value mqtt_events
//@ from if let Some(stream_id) = self.control_stream { let reset_code
//@ to if let Some(stream_id) = self.control_stream { let mut recv_finished
//@ for C33
//@ subst stream . received_reset ( ) . ok ( ) . flatten ( ) ==> conn . vx_received_reset ( stream . id )
//@ subst stream . read ( true ) ==> conn . vx_read ( stream . id )
//@ subst chunks . next ( 16384 ) ==> conn . vx_next ( chunks . id , 16384 )
//@ subst quinn_proto :: ReadError :: Reset ==> ReadError :: Reset
//@ begin
  proof { axiom_stream_key(); } broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ spec
  requires wf2(*old(self), *old(conn))
  ensures final(self).data_streams@ == old(self).data_streams@, final(self).default_pub_stream == old(self).default_pub_stream, final(self).default_sub_stream == old(self).default_sub_stream, final(self).pending_close == old(self).pending_close,
     quiet(*old(conn), *final(conn)), final(self).mqtt_engine.same_streams(&old(self).mqtt_engine), final(self).mqtt_engine.taken() == old(self).mqtt_engine.taken(),
     match old(self).control_stream {
         None => final(self).mqtt_engine.fed() == old(self).mqtt_engine.fed() && control_as(*old(self), *final(self)),
         Some(s) => {
             final(self).mqtt_engine.fed() =~= old(self).mqtt_engine.fed() + newly(old(conn), final(conn), s) && others(old(conn), final(conn), s)
             && (over(*final(self)) || control_as(*old(self), *final(self)))
             && (final(conn).was_reset(s) is Some || (final(conn).ended(s) && !old(conn).ended(s)) ==> over(*final(self)))
             && (final(conn).was_reset(s) is None && !final(conn).ended(s) ==> control_as(*old(self), *final(self)))
         },
     },
//@ loop 0 before
  let ghost k0 = *conn; let ghost a = *self;
//@ loop 0
  invariant_except_break chunks.id == stream_id, !recv_finished, read_reset is None, conn.ended(stream_id) == k0.ended(stream_id), conn.was_reset(stream_id) == k0.was_reset(stream_id)
  invariant k0 == *old(conn), *self == (QuicMqttEngine { mqtt_engine: self.mqtt_engine, ..a }), self.mqtt_engine.same_streams(&a.mqtt_engine), self.mqtt_engine.taken() == a.mqtt_engine.taken(),
     quiet(k0, *conn), others(&k0, conn, stream_id), k0.recvd(stream_id).is_prefix_of(conn.recvd(stream_id)), self.mqtt_engine.fed() =~= a.mqtt_engine.fed() + newly(&k0, conn, stream_id), k0.was_reset(stream_id) is None,
  ensures recv_finished ==> conn.ended(stream_id), read_reset == conn.was_reset(stream_id), !recv_finished ==> conn.ended(stream_id) == k0.ended(stream_id),
  decreases conn.unread(stream_id)
//@ end

// ---- the packets of one stream, among those of all
spec fn got_on(g: Seq<Got>, s: StreamId) -> Seq<Got> decreases g.len() { if g.len() == 0 { Seq::empty() } else if g.last().stream == s.id { got_on(g.drop_last(), s).push(g.last()) } else { got_on(g.drop_last(), s) } }
proof fn lemma_got_on(g: Seq<Got>, h: Seq<Got>, s: StreamId, t: StreamId)
    requires all_on(h, s)
    ensures got_on(g + h, t) =~= (if t == s { got_on(g, t) + h } else { got_on(g, t) })
    decreases h.len()
{
    if h.len() == 0 { assert(g + h =~= g); } else {
        let h1 = h.drop_last(); let x = h.last(); assert(all_on(h1, s)) by { assert forall|i: int| 0 <= i < h1.len() implies (#[trigger] h1[i]).stream == s.id by { assert(h1[i] == h[i]); } }
        lemma_got_on(g, h1, s, t); assert((g + h).drop_last() =~= g + h1); assert((g + h).last() == x); assert(x == h[h.len() - 1]);
        if t != s { assert(t.id != s.id); }
    }
}
proof fn lemma_answers_add(g: Seq<Got>, h: Seq<Got>)
    ensures answers_of(g + h) =~= answers_of(g) + answers_of(h), packets_of(g + h) =~= packets_of(g) + packets_of(h), answered(g + h) == answered(g) + answered(h)
    decreases h.len()
{
    if h.len() == 0 { assert(g + h =~= g); } else { lemma_answers_add(g, h.drop_last()); assert((g + h).drop_last() =~= g + h.drop_last()); assert((g + h).last() == h.last()); }
}
/// what the stream `s` got in went to the engine, and its answers back out on it, or the peer cut it off
spec fn served(m: Map<StreamId, QuicStream>, e: &MqttEngine, k: &Connection, m2: Map<StreamId, QuicStream>, e2: &MqttEngine, k2: &Connection, s: StreamId) -> bool {
    let g = got_on(e2.got().skip(e.got().len() as int), s);
    m.contains_key(s) && k.recvd(s).is_prefix_of(k2.recvd(s)) && (if m2.contains_key(s) {
        m2[s].parser.fed() =~= m[s].parser.fed() + newly(k, k2, s) && m2[s].parser.given() =~= m[s].parser.given() + packets_of(g)
        && m2[s].max_packets == m[s].max_packets && m2[s].finishing == m[s].finishing && m2[s].finished == m[s].finished
        && m2[s].outgoing@ =~= m[s].outgoing@ + (if m[s].finished { Seq::<u8>::empty() } else { answers_of(g) })
        && m2[s].pending_packets == m[s].pending_packets + (if m[s].finished { 0nat } else { answered(g) })
        && (m2[s].recv_closed ==> m[s].recv_closed || k2.ended(s))
    } else { k2.was_reset(s) is Some })
}
spec fn served_all(m: Map<StreamId, QuicStream>, e: &MqttEngine, k: &Connection, m2: Map<StreamId, QuicStream>, e2: &MqttEngine, k2: &Connection) -> bool {
    e.got().is_prefix_of(e2.got()) && e2.made() == e.made() && e2.opts() == e.opts() && e2.version() == e.version() && e2.taken() == e.taken() && e2.fed() == e.fed() && quiet(*k, *k2)
    && (forall|s: StreamId| #[trigger] m2.contains_key(s) ==> m.contains_key(s)) && (forall|s: StreamId| m.contains_key(s) ==> #[trigger] served(m, e, k, m2, e2, k2, s))
    && (forall|s: StreamId| !m.contains_key(s) ==> #[trigger] k2.recvd(s) == k.recvd(s))
}
spec fn defaults_there(q: QuicMqttEngine) -> bool { default_there(q.default_pub_stream, q.data_streams@) && default_there(q.default_sub_stream, q.data_streams@) }
spec fn step(m: Map<StreamId, QuicStream>, e: &MqttEngine, k: &Connection, m2: Map<StreamId, QuicStream>, e2: &MqttEngine, k2: &Connection, s: StreamId) -> bool {
    e.got().is_prefix_of(e2.got()) && all_on(e2.got().skip(e.got().len() as int), s) && e2.made() == e.made() && e2.opts() == e.opts() && e2.version() == e.version() && e2.taken() == e.taken() && e2.fed() == e.fed()
    && quiet(*k, *k2) && others(k, k2, s) && (k.ended(s) ==> k2.ended(s)) && (forall|t: StreamId| t != s ==> #[trigger] m2.contains_key(t) == m.contains_key(t)) && (forall|t: StreamId| t != s && m.contains_key(t) ==> #[trigger] m2[t] == m[t])
    && served(m, e, k, m2, e2, k2, s)
}
proof fn lemma_self_on(h: Seq<Got>, s: StreamId) requires all_on(h, s) ensures got_on(h, s) =~= h
{ lemma_got_on(Seq::empty(), h, s, s); assert(Seq::<Got>::empty() + h =~= h); assert(got_on(Seq::empty(), s) =~= Seq::<Got>::empty()); }
proof fn lemma_step(m0: Map<StreamId, QuicStream>, e0: &MqttEngine, k0: &Connection, m1: Map<StreamId, QuicStream>, e1: &MqttEngine, k1: &Connection, m2: Map<StreamId, QuicStream>, e2: &MqttEngine, k2: &Connection, s: StreamId)
    requires served_all(m0, e0, k0, m1, e1, k1), step(m1, e1, k1, m2, e2, k2, s)
    ensures served_all(m0, e0, k0, m2, e2, k2)
{
    let n0 = e0.got().len() as int; let n1 = e1.got().len() as int;
    let g = e1.got().skip(n0); let h = e2.got().skip(n1);
    assert(e2.got().skip(n0) =~= g + h);
    lemma_self_on(h, s);
    assert forall|t: StreamId| m0.contains_key(t) implies #[trigger] served(m0, e0, k0, m2, e2, k2, t) by {
        assert(served(m0, e0, k0, m1, e1, k1, t));
        lemma_got_on(g, h, s, t);
        if t == s { lemma_answers_add(got_on(g, s), h); assert(newly(k0, k2, s) =~= newly(k0, k1, s) + newly(k1, k2, s)); }
        else { assert(k2.recvd(t) == k1.recvd(t)); assert(m2.contains_key(t) == m1.contains_key(t)); }
    }
    assert forall|t: StreamId| !m0.contains_key(t) implies #[trigger] k2.recvd(t) == k0.recvd(t) by { assert(k1.recvd(t) == k0.recvd(t)); }
}
/// the stream read into its parser, up to now
spec fn reading(m1: Map<StreamId, QuicStream>, k1: &Connection, m: Map<StreamId, QuicStream>, k: &Connection, s: StreamId) -> bool {
    (k1.ended(s) ==> k.ended(s)) && others(k1, k, s) && quiet(*k1, *k) && k1.recvd(s).is_prefix_of(k.recvd(s)) && m1.contains_key(s) && m =~= m1.insert(s, m[s]) && m[s].outgoing == m1[s].outgoing && m[s].pending_packets == m1[s].pending_packets && rest2(m1[s], m[s])
    && m[s].parser.fed() =~= m1[s].parser.fed() + newly(k1, k, s) && m[s].parser.given() == m1[s].parser.given()
}
spec fn rest2(a: QuicStream, b: QuicStream) -> bool { a.max_packets == b.max_packets && a.finishing == b.finishing && a.finished == b.finished && a.recv_closed == b.recv_closed }
//@ slice src/mqtt_client/engine.rs QuicMqttEngine::handle_tick by-index
//@ sig fn tick_read_data(&mut self, conn: &mut Connection, mut mqtt_events: Vec<MqttEvent>) -> Vec<MqttEvent>
//@ value mqtt_events
//@ from let data_ids
//@ to for stream_id in data_ids
//@ for C33
//@ subst self . data_streams . keys ( ) . copied ( ) . collect ( ) ==> vx_keys ( & self . data_streams )
//@ subst stream . received_reset ( ) . ok ( ) . flatten ( ) ==> conn . vx_received_reset ( stream . id )
//@ subst stream . read ( true ) ==> conn . vx_read ( stream . id )
//@ subst chunks . next ( 16384 ) ==> conn . vx_next ( chunks . id , 16384 )
//@ subst quinn_proto :: ReadError :: Reset ==> ReadError :: Reset
//@ own
//@ begin
  proof { axiom_stream_key(); } broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ spec
  requires wf2(*old(self), *old(conn)), defaults_there(*old(self))
  ensures served_all(old(self).data_streams@, &old(self).mqtt_engine, old(conn), final(self).data_streams@, &final(self).mqtt_engine, final(conn)),
     control_as(*old(self), *final(self)), final(self).pending_close == old(self).pending_close, defaults_there(*final(self)),
//@ loop 0 before
  let ghost k0 = *conn; let ghost a = *self; let ghost m0 = self.data_streams@;
//@ loop 0
  invariant vstd::std_specs::hash::obeys_key_model::<StreamId>(), wf2(a, k0), k0 == *old(conn), a == *old(self), m0 == a.data_streams@,
     *self == (QuicMqttEngine { data_streams: self.data_streams, mqtt_engine: self.mqtt_engine, default_pub_stream: self.default_pub_stream, default_sub_stream: self.default_sub_stream, control_stream: self.control_stream, control_outgoing: self.control_outgoing, control_finishing: self.control_finishing, control_finished: self.control_finished, ..a }),
     vxi0 <= data_ids.len(), control_as(a, *self), defaults_there(*self), served_all(m0, &a.mqtt_engine, &k0, self.data_streams@, &self.mqtt_engine, conn),
  decreases data_ids.len() - vxi0
//@ loop 0 begin
  broadcast use vstd::std_specs::hash::group_hash_axioms;
  let ghost k1 = *conn; let ghost b = *self; let ghost m1 = self.data_streams@;
//@ loop 1
  invariant_except_break chunks.id == stream_id, !recv_finished, read_reset is None, conn.ended(stream_id) == k1.ended(stream_id), conn.was_reset(stream_id) == k1.was_reset(stream_id)
  invariant vstd::std_specs::hash::obeys_key_model::<StreamId>(), *self == (QuicMqttEngine { data_streams: self.data_streams, ..b }), m1 == b.data_streams@, reading(m1, &k1, self.data_streams@, conn, stream_id), k1.was_reset(stream_id) is None
  ensures recv_finished ==> conn.ended(stream_id), read_reset == conn.was_reset(stream_id), !recv_finished ==> conn.ended(stream_id) == k1.ended(stream_id),
  decreases conn.unread(stream_id)
//@ loop 1 begin
  broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ before continue
  proof { if m1.contains_key(stream_id) { lemma_self_on(self.mqtt_engine.got().skip(b.mqtt_engine.got().len() as int), stream_id); assert(step(m1, &b.mqtt_engine, &k1, self.data_streams@, &self.mqtt_engine, conn, stream_id)); lemma_step(m0, &a.mqtt_engine, &k0, m1, &b.mqtt_engine, &k1, self.data_streams@, &self.mqtt_engine, conn, stream_id); } }
//@ after Self::drain_data_stream
  proof { lemma_self_on(self.mqtt_engine.got().skip(b.mqtt_engine.got().len() as int), stream_id); assert(step(m1, &b.mqtt_engine, &k1, self.data_streams@, &self.mqtt_engine, conn, stream_id)); lemma_step(m0, &a.mqtt_engine, &k0, m1, &b.mqtt_engine, &k1, self.data_streams@, &self.mqtt_engine, conn, stream_id); }
//@ end

// ---- a packet sent again goes onto the stream it was first sent on, in order, while that stream takes it
spec fn resent(o: Seq<u8>, p: nat, max: nat, s: StreamId, rs: Seq<(u64, Vec<u8>)>) -> (Seq<u8>, nat) decreases rs.len() {
    if rs.len() == 0 { (o, p) } else { let x = resent(o, p, max, s, rs.drop_last()); if rs.last().0 == s.id && x.1 < max { (x.0 + rs.last().1@, x.1 + 1) } else { x } }
}
spec fn routed(m: Map<StreamId, QuicStream>, m2: Map<StreamId, QuicStream>, rs: Seq<(u64, Vec<u8>)>) -> bool {
    m2.dom() =~= m.dom() && forall|s: StreamId| #[trigger] m.contains_key(s) ==> rest_same(m[s], m2[s]) && (
        if open_(m[s]) { let x = resent(m[s].outgoing@, m[s].pending_packets as nat, m[s].max_packets as nat, s, rs); m2[s].outgoing@ =~= x.0 && m2[s].pending_packets == x.1 } else { m2[s].outgoing@ == m[s].outgoing@ && m2[s].pending_packets == m[s].pending_packets })
}
proof fn lemma_route(m: Map<StreamId, QuicStream>, m1: Map<StreamId, QuicStream>, rs: Seq<(u64, Vec<u8>)>, x: (u64, Vec<u8>), m2: Map<StreamId, QuicStream>)
    requires routed(m, m1, rs), ({ let s = StreamId { id: x.0 }; if m1.contains_key(s) && room(m1[s]) { grown(m1, s, x.1@, 1, m2) } else { m2 =~= m1 } })
    ensures routed(m, m2, rs.push(x))
{
    let q = rs.push(x); assert(q.drop_last() =~= rs); assert(q.last() == x); let s0 = StreamId { id: x.0 };
    assert forall|s: StreamId| #[trigger] m.contains_key(s) implies rest_same(m[s], m2[s]) && (
        if open_(m[s]) { let y = resent(m[s].outgoing@, m[s].pending_packets as nat, m[s].max_packets as nat, s, q); m2[s].outgoing@ =~= y.0 && m2[s].pending_packets == y.1 } else { m2[s].outgoing@ == m[s].outgoing@ && m2[s].pending_packets == m[s].pending_packets }) by {
        assert(m1.contains_key(s)); assert(m2.dom().contains(s));
        let y = resent(m[s].outgoing@, m[s].pending_packets as nat, m[s].max_packets as nat, s, rs);
        let z = resent(m[s].outgoing@, m[s].pending_packets as nat, m[s].max_packets as nat, s, q);
        if s != s0 { assert(s.id != x.0); assert(z == y); assert(m2[s] == m1[s]); }
    }
    assert(m2.dom() =~= m.dom());
}
//@ slice src/mqtt_client/engine.rs QuicMqttEngine::handle_tick
//@ sig fn tick_route(&mut self)
//@ from let retransmissions
//@ to for (stream, bytes) in retransmissions
//@ for C33
//@ subst self . data_streams . keys ( ) . copied ( ) . find ( | id | vx_num ( * id ) == stream ) ==> vx_find_stream ( & self . data_streams , stream )
//@ begin
  proof { axiom_stream_key(); } broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ spec
  ensures frame(*old(self), *final(self)), old(self).mqtt_engine.again().is_prefix_of(final(self).mqtt_engine.again()), final(self).mqtt_engine.same(&old(self).mqtt_engine),
     routed(old(self).data_streams@, final(self).data_streams@, final(self).mqtt_engine.again().skip(old(self).mqtt_engine.again().len() as int)),
//@ iter 0 it hoist
//@ loop 0 before
  let ghost a = *self; let ghost rs = retransmissions@;
  proof { assert(self.mqtt_engine.again().skip(old(self).mqtt_engine.again().len() as int) =~= rs); assert(rs.take(0) =~= Seq::<(u64, Vec<u8>)>::empty()); assert(routed(a.data_streams@, self.data_streams@, rs.take(0))); }
//@ loop 0
  invariant vstd::std_specs::hash::obeys_key_model::<StreamId>(), frame(a, *self), self.mqtt_engine == a.mqtt_engine, it.seq() == rs, routed(a.data_streams@, self.data_streams@, rs.take(it.index())),
//@ loop 0 begin
  let ghost m1 = self.data_streams@; let ghost i = it.index();
//@ loop 0 end
  proof { let x = rs[i]; assert(rs.take(i + 1) =~= rs.take(i).push(x)); lemma_route(a.data_streams@, m1, rs.take(i), x, self.data_streams@); }
//@ loop 0 after
  proof { assert(rs.take(rs.len() as int) =~= rs); }
//@ end
// ---- a connection begins with nothing of the one before it
/// just begun: nothing written, no data stream, and a control stream with CONNECT to come only for 0-RTT
spec fn begun(q: QuicMqttEngine) -> bool {
    &&& q.connection matches Some(k) && virgin(k)
    &&& q.data_streams@ =~= Map::<StreamId, QuicStream>::empty() && q.default_pub_stream is None && q.default_sub_stream is None && q.pending_close is None && !q.control_finishing && !q.control_finished && q.outgoing_datagrams@.len() == 0
    &&& (q.control_stream is None ==> q.control_outgoing@.len() == 0) && (q.control_stream is Some ==> q.zero_rtt_status == QuicZeroRttStatus::Attempted)
}
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::mark_zero_rtt_unavailable
//@ for C33
//@ spec
  ensures final(self).zero_rtt_status == QuicZeroRttStatus::Unavailable, streams_same(*old(self), *final(self)), final(self).control_stream == old(self).control_stream, final(self).control_outgoing == old(self).control_outgoing
//@ end
/// everything of the data streams and the endings
spec fn streams_same(a: QuicMqttEngine, b: QuicMqttEngine) -> bool {
    a.data_streams == b.data_streams && a.default_pub_stream == b.default_pub_stream && a.default_sub_stream == b.default_sub_stream && a.connection == b.connection && a.pending_close == b.pending_close && a.control_finishing == b.control_finishing && a.control_finished == b.control_finished && a.outgoing_datagrams == b.outgoing_datagrams && a.client_config == b.client_config
}
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::begin_zero_rtt_attempt
//@ for C33
//@ spec
  ensures streams_same(*old(self), *final(self)),
     control_stream is None ==> final(self).control_stream == old(self).control_stream && final(self).control_outgoing == old(self).control_outgoing && final(self).zero_rtt_status == QuicZeroRttStatus::Unavailable,
     control_stream is Some ==> final(self).control_stream == control_stream && final(self).zero_rtt_status == QuicZeroRttStatus::Attempted
        && old(self).mqtt_engine.taken().is_prefix_of(final(self).mqtt_engine.taken())
        && final(self).control_outgoing@ == old(self).control_outgoing@ + final(self).mqtt_engine.taken().skip(old(self).mqtt_engine.taken().len() as int),
//@ tail
  proof { let n = old(self).mqtt_engine.taken().len() as int; assert(self.mqtt_engine.taken().skip(n) =~= connect_bytes@); }
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::establish
//@ for C33
//@ ret r
//@ subst conn . streams ( ) . open ( Dir :: Bi ) ==> conn . vx_open ( )
//@ subst & server_name ==> server_name . as_str ( )
//@ spec
  requires gone(*old(self))
  ensures wf(*final(self)), r is Ok ==> begun(*final(self)), r is Err ==> final(self).connection is None && streams_same(*old(self), *final(self))
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::reconnect
//@ for C33
//@ ret r
//@ spec
  requires wf(*old(self))
  ensures wf(*final(self)), r is Ok ==> begun(*final(self))
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::connect
//@ for C33
//@ ret r
//@ sigsubst rustls :: ClientConfig ==> QTlsConfig
//@ sigsubst std :: net :: SocketAddr ==> SocketAddr
//@ subst b"mqtt" . to_vec ( ) ==> vx_any :: < Vec < u8 >> ( )
//@ subst server_name . to_string ( ) ==> vx_any :: < String > ( )
//@ spec
  requires wf(*old(self))
  ensures wf(*final(self)), r is Ok ==> begun(*final(self))
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::connect_with_zero_rtt
//@ for C33
//@ ret r
//@ sigsubst rustls :: ClientConfig ==> QTlsConfig
//@ sigsubst std :: net :: SocketAddr ==> SocketAddr
//@ subst b"mqtt" . to_vec ( ) ==> vx_any :: < Vec < u8 >> ( )
//@ subst server_name . to_string ( ) ==> vx_any :: < String > ( )
//@ spec
  requires wf(*old(self))
  ensures wf(*final(self)), r is Ok ==> begun(*final(self))
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::new
//@ for C33
//@ ret r
//@ begin
  proof { axiom_stream_key(); } broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ spec
  ensures r matches Ok(q) ==> wf(q) && q.connection is None && q.data_streams@ =~= Map::<StreamId, QuicStream>::empty() && q.control_outgoing@.len() == 0
//@ end

// ---- what happened to the connection: streams end, the session begins, everything goes when it is lost
/// bytes of the 0-RTT attempt under way again, each on a stream of its own
spec fn replayed(js: Seq<EarlyStreamJournal>, k: Connection, k2: Connection, c: Option<StreamId>, m: Map<StreamId, QuicStream>, dp: Option<StreamId>, ds: Option<StreamId>) -> bool {
    quiet(k, k2) && k2.events() == k.events() && k2.lost() == k.lost() && default_there(dp, m) && default_there(ds, m) && (c matches Some(s) ==> k2.knows(s) && !k.knows(s) && !m.contains_key(s))
    && (forall|s: StreamId| #[trigger] m.contains_key(s) ==> k2.knows(s) && !k.knows(s) && open_(m[s]) && exists|i: int| 0 <= i < js.len() && (#[trigger] js[i]).bytes@ == m[s].outgoing@)
    && (forall|s: StreamId| k.knows(s) ==> #[trigger] k2.knows(s))
}
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::replay_early_stream_journals
//@ for C33
//@ subst conn . streams ( ) . open ( Dir :: Bi ) ==> conn . vx_open ( )
//@ begin
  proof { axiom_stream_key(); } broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ spec
  requires *old(control_stream) is None, old(data_streams)@ =~= Map::<StreamId, QuicStream>::empty(), *old(default_pub_stream) is None, *old(default_sub_stream) is None
  ensures replayed(journals@, *old(conn), *final(conn), *final(control_stream), final(data_streams)@, *final(default_pub_stream), *final(default_sub_stream)),
//@ iter 0 it hoist
//@ loop 0 before
  let ghost js = journals@;
//@ loop 0
  invariant vstd::std_specs::hash::obeys_key_model::<StreamId>(), it.seq() == js, replayed(js, *old(conn), *conn, *control_stream, data_streams@, *default_pub_stream, *default_sub_stream)
  ensures replayed(js, *old(conn), *conn, *control_stream, data_streams@, *default_pub_stream, *default_sub_stream)
//@ loop 0 begin
  broadcast use vstd::std_specs::hash::group_hash_axioms;
  let ghost i0 = it.index();
  proof { assert(js[i0] == journal); }
//@ end
/// the streams that were there and still are kept what they had to send, and their endings were not touched
spec fn kept(m: Map<StreamId, QuicStream>, m2: Map<StreamId, QuicStream>) -> bool {
    forall|s: StreamId| m.contains_key(s) && #[trigger] m2.contains_key(s) ==> m2[s].outgoing@ == m[s].outgoing@ && m2[s].pending_packets == m[s].pending_packets && m2[s].parser == m[s].parser && m2[s].finishing == m[s].finishing && m2[s].max_packets == m[s].max_packets
}
/// of a lost connection nothing is left
spec fn swept(q: QuicMqttEngine) -> bool { q.control_stream is None && q.data_streams@ =~= Map::<StreamId, QuicStream>::empty() && q.default_pub_stream is None && q.default_sub_stream is None && q.control_outgoing@.len() == 0 && q.pending_close is None && !q.control_finishing && !q.control_finished && !q.mqtt_engine.linked() }
spec fn known(q: QuicMqttEngine, k: Connection) -> bool {
    wf2(q, k) && defaults_there(q) && (q.control_stream matches Some(c) ==> k.knows(c)) && forall|s: StreamId| #[trigger] q.data_streams@.contains_key(s) ==> k.knows(s)
}
//@ slice src/mqtt_client/engine.rs QuicMqttEngine::handle_tick
//@ sig fn tick_events(&mut self, conn: &mut Connection, parser_buffer_size: usize, mqtt_version: u8, max_packets: usize, mut mqtt_events: Vec<MqttEvent>) -> Vec<MqttEvent>
//@ value mqtt_events
//@ from while let Some(event) = conn.poll()
//@ to while let Some(event) = conn.poll()
//@ for C33
//@ subst conn . streams ( ) . open ( Dir :: Bi ) ==> conn . vx_open ( )
//@ subst quinn_proto :: Event ==> QuicEvent
//@ subst quinn_proto :: StreamEvent ==> StreamEvent
//@ subst reason . to_string ( ) ==> vx_any :: < String > ( )
//@ own
//@ subst std :: mem :: take ( & mut self . early_stream_journal ) ==> vx_take_vec ( & mut self . early_stream_journal )
//@ begin
  proof { axiom_stream_key(); } broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ spec
  requires known(*old(self), *old(conn))
  ensures known(*final(self), *final(conn)), quiet(*old(conn), *final(conn)), final(conn).lost() && !old(conn).lost() ==> swept(*final(self)),
     old(self).zero_rtt_status != QuicZeroRttStatus::Attempted ==> final(self).zero_rtt_status == old(self).zero_rtt_status && kept(old(self).data_streams@, final(self).data_streams@) && final(self).data_streams@.dom().subset_of(old(self).data_streams@.dom()),
//@ loop 0
  invariant vstd::std_specs::hash::obeys_key_model::<StreamId>(), known(*self, *conn), quiet(*old(conn), *conn), conn.lost() && !old(conn).lost() ==> swept(*self),
     old(self).zero_rtt_status != QuicZeroRttStatus::Attempted ==> self.zero_rtt_status == old(self).zero_rtt_status && kept(old(self).data_streams@, self.data_streams@) && self.data_streams@.dom().subset_of(old(self).data_streams@.dom()),
  decreases conn.events()
//@ loop 0 begin
  broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::take_outgoing_datagrams
//@ for C33
//@ ret r
//@ subst std :: mem :: take ( & mut self . outgoing_datagrams ) ==> vx_take_deque ( & mut self . outgoing_datagrams )
//@ sigsubst std :: net :: SocketAddr ==> SocketAddr
//@ spec
  ensures r@ == old(self).outgoing_datagrams@, final(self).outgoing_datagrams@.len() == 0, *final(self) == (QuicMqttEngine { outgoing_datagrams: final(self).outgoing_datagrams, ..*old(self) })
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::data_stream_count
//@ for C33
//@ ret r
//@ begin
  proof { axiom_stream_key(); } broadcast use vstd::std_specs::hash::group_hash_axioms;
//@ spec
  ensures r == self.data_streams@.len()
//@ end
//@ fn src/mqtt_client/engine.rs QuicMqttEngine::is_connected
//@ for C33
//@ ret r
//@ spec
  ensures r == self.mqtt_engine.linked()
//@ end
