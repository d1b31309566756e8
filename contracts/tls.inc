// ---------------------------------------------------------------- C31: the TLS engine between rustls and the MQTT engine
//@ include errors.inc
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
#[verifier::external_body]
struct MqttClientOptions { x: u8 }
#[verifier::external_body]
struct PublishCommand { x: u8 }
#[verifier::external_body]
struct SubscribeCommand { x: u8 }
#[verifier::external_body]
struct UnsubscribeCommand { x: u8 }
#[verifier::external_body]
struct MqttEvent { x: u8 }
/// the MQTT engine (its own behaviour is C13 to C23), with the history of what it was given and has given out
#[verifier::external_body]
struct MqttEngine { x: u8 }
/// everything but the three histories
#[verifier::external_body]
struct Inner { x: u8 }
impl MqttEngine {
    uninterp spec fn fed(&self) -> Seq<u8>;
    uninterp spec fn taken(&self) -> Seq<u8>;
    /// the bytes it has to send, the taken ones first
    uninterp spec fn produced(&self) -> Seq<u8>;
    uninterp spec fn reported(&self) -> Seq<MqttEvent>;
    uninterp spec fn inner(&self) -> Inner;
    spec fn kept(&self, o: &MqttEngine) -> bool { self.fed() == o.fed() && self.taken() == o.taken() && self.reported() == o.reported() && o.produced().is_prefix_of(self.produced()) }
    #[verifier::external_body]
    fn new(options: MqttClientOptions) -> (r: MqttEngine) ensures r.inner() == begun(options), r.fed() == Seq::<u8>::empty(), r.taken() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn handle_incoming(&mut self, data: &[u8]) -> (r: Vec<MqttEvent>)
        ensures final(self).fed() == old(self).fed() + data@, final(self).taken() == old(self).taken(), old(self).produced().is_prefix_of(final(self).produced()), final(self).reported() == old(self).reported() + r@
    { unimplemented!() }
    #[verifier::external_body]
    fn handle_tick(&mut self, now: Instant) -> (r: Vec<MqttEvent>)
        ensures final(self).fed() == old(self).fed(), final(self).taken() == old(self).taken(), final(self).reported() == old(self).reported() + r@, at_tick(now, *final(self)), old(self).produced().is_prefix_of(final(self).produced())
    { unimplemented!() }
    #[verifier::external_body]
    fn take_events(&mut self) -> (r: Vec<MqttEvent>)
        ensures final(self).fed() == old(self).fed(), final(self).taken() == old(self).taken(), final(self).reported() == old(self).reported() + r@, none_left(*final(self)), final(self).produced() == old(self).produced()
    { unimplemented!() }
    #[verifier::external_body]
    fn take_outgoing(&mut self) -> (r: Vec<u8>)
        ensures final(self).fed() == old(self).fed(), final(self).taken() == old(self).taken() + r@, final(self).taken() == old(self).produced(), final(self).produced() == old(self).produced(), final(self).reported() == old(self).reported()
    { unimplemented!() }
    #[verifier::external_body]
    fn connect(&mut self) ensures final(self).kept(old(self)), connects(old(self).inner(), final(self).inner()) { unimplemented!() }
    #[verifier::external_body]
    fn disconnect(&mut self) ensures final(self).kept(old(self)), disconnects(old(self).inner(), final(self).inner()) { unimplemented!() }
    #[verifier::external_body]
    fn publish(&mut self, command: PublishCommand) -> (r: Result<Option<u16>, MqttClientError>) ensures final(self).kept(old(self)), publishes(old(self).inner(), command, final(self).inner(), r) { unimplemented!() }
    #[verifier::external_body]
    fn subscribe(&mut self, command: SubscribeCommand) -> (r: Result<u16, MqttClientError>) ensures final(self).kept(old(self)), subscribes(old(self).inner(), command, final(self).inner(), r) { unimplemented!() }
    #[verifier::external_body]
    fn unsubscribe(&mut self, command: UnsubscribeCommand) -> (r: Result<u16, MqttClientError>) ensures final(self).kept(old(self)), unsubscribes(old(self).inner(), command, final(self).inner(), r) { unimplemented!() }
    #[verifier::external_body]
    fn is_connected(&self) -> (r: bool) ensures r == linked(self.inner()) { unimplemented!() }
}
uninterp spec fn begun(o: MqttClientOptions) -> Inner;
uninterp spec fn at_tick(now: Instant, e: MqttEngine) -> bool;
uninterp spec fn none_left(e: MqttEngine) -> bool;
uninterp spec fn connects(a: Inner, b: Inner) -> bool;
uninterp spec fn disconnects(a: Inner, b: Inner) -> bool;
uninterp spec fn publishes(a: Inner, c: PublishCommand, b: Inner, r: Result<Option<u16>, MqttClientError>) -> bool;
uninterp spec fn subscribes(a: Inner, c: SubscribeCommand, b: Inner, r: Result<u16, MqttClientError>) -> bool;
uninterp spec fn unsubscribes(a: Inner, c: UnsubscribeCommand, b: Inner, r: Result<u16, MqttClientError>) -> bool;
uninterp spec fn linked(a: Inner) -> bool;
// ---- trusted: rustls 0.23, from its documentation
#[verifier::external_body]
struct ClientConfig { x: u8 }
#[verifier::external_body]
struct ServerName { x: u8 }
#[verifier::external_body]
struct VxTlsError { x: u8 }
#[verifier::external_body]
struct IoState { x: u8 }
impl ServerName {
    #[verifier::external_body]
    fn try_from(s: &str) -> (r: Result<ServerName, VxTlsError>) { unimplemented!() }
    #[verifier::external_body]
    fn to_owned(&self) -> (r: ServerName) { unimplemented!() }
}
/// a client connection: the TLS bytes it was given (`eaten`), the plaintext decrypted from them and not read yet (`plain`),
/// the plaintext read from it so far (`read`), the plaintext it accepted for sending (`sent`), the TLS bytes waiting to be
/// taken (`waiting`), the limit on what it keeps for sending, whether it met a fatal error (`failed`) or the end of the stream (`over`)
#[verifier::external_body]
struct ClientConnection { x: u8 }
impl ClientConnection {
    uninterp spec fn eaten(&self) -> Seq<u8>;
    uninterp spec fn plain(&self) -> Seq<u8>;
    uninterp spec fn read(&self) -> Seq<u8>;
    uninterp spec fn sent(&self) -> Seq<u8>;
    uninterp spec fn waiting(&self) -> Seq<u8>;
    uninterp spec fn limit(&self) -> Option<usize>;
    uninterp spec fn failed(&self) -> bool;
    uninterp spec fn over(&self) -> bool;
    #[verifier::external_body]
    fn new(config: Arc<ClientConfig>, name: ServerName) -> (r: Result<ClientConnection, VxTlsError>)
        ensures r matches Ok(c) ==> c.eaten() == Seq::<u8>::empty() && c.plain() == Seq::<u8>::empty() && c.read() == Seq::<u8>::empty() && c.sent() == Seq::<u8>::empty() && c.limit() == Some(65536usize)
    { unimplemented!() }
    #[verifier::external_body]
    fn set_buffer_limit(&mut self, limit: Option<usize>)
        ensures final(self).limit() == limit, final(self).eaten() == old(self).eaten(), final(self).plain() == old(self).plain(), final(self).read() == old(self).read(), final(self).sent() == old(self).sent(),
            final(self).waiting() == old(self).waiting(), final(self).failed() == old(self).failed(), final(self).over() == old(self).over()
    { unimplemented!() }
    /// "you should empty it through the reader after the call to process_new_packets": with more than 16 KiB of plaintext unread it refuses
    #[verifier::external_body]
    fn read_tls(&mut self, rd: &mut &[u8]) -> (r: Result<usize, std::io::Error>)
        requires old(self).plain().len() <= 16384
        ensures final(self).plain() == old(self).plain(), final(self).read() == old(self).read(), final(self).sent() == old(self).sent(), final(self).limit() == old(self).limit(), final(self).waiting() == old(self).waiting(),
            final(self).failed() == old(self).failed(),
            match r {
                Ok(n) => n <= old(rd)@.len() && final(rd)@ == old(rd)@.skip(n as int) && final(self).eaten() == old(self).eaten() + old(rd)@.take(n as int) && (n == 0 && old(rd)@.len() > 0 ==> final(self).over()),
                Err(_) => true,
            }
    { unimplemented!() }
    #[verifier::external_body]
    fn process_new_packets(&mut self) -> (r: Result<IoState, VxTlsError>)
        ensures final(self).read() == old(self).read(), final(self).sent() == old(self).sent(), final(self).limit() == old(self).limit(), final(self).eaten() == old(self).eaten(),
            r is Err ==> final(self).failed(), old(self).failed() ==> final(self).failed(), old(self).over() ==> final(self).over(), old(self).plain().len() <= final(self).plain().len(),
    { unimplemented!() }
    /// reader().read(buf)
    #[verifier::external_body]
    fn vx_read(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, std::io::Error>)
        ensures final(buf)@.len() == old(buf)@.len(), final(self).sent() == old(self).sent(), final(self).limit() == old(self).limit(), final(self).eaten() == old(self).eaten(), final(self).waiting() == old(self).waiting(),
            final(self).failed() == old(self).failed(), final(self).over() == old(self).over(),
            match r {
                Ok(n) => n <= old(buf)@.len() && n <= old(self).plain().len() && final(buf)@.take(n as int) == old(self).plain().take(n as int) && final(self).plain() == old(self).plain().skip(n as int)
                    && final(self).read() == old(self).read() + old(self).plain().take(n as int) && (n == 0 && old(buf)@.len() > 0 ==> old(self).plain().len() == 0),
                Err(_) => old(self).plain().len() == 0 && final(self).plain().len() == 0 && final(self).read() == old(self).read(),
            }
    { unimplemented!() }
    /// writer().write_all(data): without a limit everything is accepted unless the connection failed
    #[verifier::external_body]
    fn vx_write_all(&mut self, data: &Vec<u8>) -> (r: Result<(), std::io::Error>)
        ensures final(self).plain() == old(self).plain(), final(self).read() == old(self).read(), final(self).limit() == old(self).limit(), final(self).eaten() == old(self).eaten(),
            final(self).failed() == old(self).failed(), final(self).over() == old(self).over(),
            r is Ok ==> final(self).sent() == old(self).sent() + data@, old(self).limit() is None && !old(self).failed() ==> r is Ok
    { unimplemented!() }
    #[verifier::external_body]
    fn write_tls(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, std::io::Error>)
        ensures final(self).plain() == old(self).plain(), final(self).read() == old(self).read(), final(self).sent() == old(self).sent(), final(self).limit() == old(self).limit(), final(self).eaten() == old(self).eaten(),
            final(self).failed() == old(self).failed(), final(self).over() == old(self).over(),
            exists|n: int| 0 <= n <= old(self).waiting().len() && final(buf)@ == old(buf)@ + #[trigger] old(self).waiting().take(n) && final(self).waiting() == old(self).waiting().skip(n) && (old(self).waiting().len() > 0 ==> n > 0)
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_would_block(e: &std::io::Error) -> (r: bool) { e.kind() == std::io::ErrorKind::WouldBlock }
trait VxExtendAll<T> { fn vx_extend_all(&mut self, i: Vec<T>); }
impl<T> VxExtendAll<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_extend_all(&mut self, i: Vec<T>) ensures final(self)@ == old(self)@ + i@ { self.extend(i) }
}
//@ method extend .vx_extend_all
// ----
//@ item src/mqtt_client/tls_engine.rs TlsMqttEngine
impl TlsMqttEngine {
    /// what the engine relies on between calls: nothing decrypted is left in rustls, nothing is refused for being too much
    spec fn ok(&self) -> bool {
        &&& self.tls_connection.plain().len() == 0
        &&& self.tls_connection.limit() is None
        // every plaintext byte was fed to the MQTT engine, once and in order, or is about to be
        &&& self.tls_connection.read() =~= self.mqtt_engine.fed() + self.incoming_plaintext@
        // every byte taken from the MQTT engine was sent, once and in order
        &&& (!self.tls_connection.failed() ==> self.tls_connection.sent() == self.mqtt_engine.taken())
    }
    /// nothing but the state of the MQTT engine inside changed
    spec fn still(&self, o: &TlsMqttEngine) -> bool { self.mqtt_engine.kept(&o.mqtt_engine) && self.tls_connection == o.tls_connection && self.incoming_plaintext == o.incoming_plaintext }
}
//@ fn src/mqtt_client/tls_engine.rs TlsMqttEngine::new
//@ for C31
//@ ret r
//@ spec
  ensures r matches Ok(e) ==> e.ok() && e.mqtt_engine.inner() == begun(options) && e.mqtt_engine.fed().len() == 0 && e.mqtt_engine.taken().len() == 0
//@ end
//@ fn src/mqtt_client/tls_engine.rs TlsMqttEngine::handle_socket_data comb-result
//@ for C31
//@ ret r
//@ spec
  requires old(self).ok()
  ensures final(self).ok(), final(self).mqtt_engine == old(self).mqtt_engine,
    final(self).tls_connection.sent() == old(self).tls_connection.sent(),
    r is Ok ==> final(self).tls_connection.over() || final(self).tls_connection.eaten() == old(self).tls_connection.eaten() + data@
//@ begin
  let ghost data0 = data@;
//@ loop 0
    invariant_except_break self.tls_connection.eaten() + data@ == old(self).tls_connection.eaten() + data0
    invariant self.ok(), self.mqtt_engine == old(self).mqtt_engine, self.tls_connection.sent() == old(self).tls_connection.sent()
    ensures self.tls_connection.over() || self.tls_connection.eaten() == old(self).tls_connection.eaten() + data0
    decreases data@.len()
//@ end
//@ fn src/mqtt_client/tls_engine.rs TlsMqttEngine::read_plaintext
//@ for C31
//@ ret r
//@ spec
  requires old(self).tls_connection.limit() is None, old(self).tls_connection.read() == old(self).mqtt_engine.fed() + old(self).incoming_plaintext@, !old(self).tls_connection.failed() ==> old(self).tls_connection.sent() == old(self).mqtt_engine.taken()
  ensures final(self).ok(), final(self).mqtt_engine == old(self).mqtt_engine, final(self).tls_connection.sent() == old(self).tls_connection.sent(), final(self).tls_connection.eaten() == old(self).tls_connection.eaten(),
    final(self).tls_connection.over() == old(self).tls_connection.over(), final(self).tls_connection.failed() == old(self).tls_connection.failed()
//@ subst self . tls_connection . reader ( ) . read ( & mut buf ) ==> self . tls_connection . vx_read ( & mut buf )
//@ subst e . kind ( ) == std :: io :: ErrorKind :: WouldBlock ==> vx_would_block ( e )
//@ loop 0
    invariant_except_break self.tls_connection.limit() is None, self.tls_connection.read() == self.mqtt_engine.fed() + self.incoming_plaintext@, !self.tls_connection.failed() ==> self.tls_connection.sent() == self.mqtt_engine.taken()
    invariant buf@.len() == 4096, self.mqtt_engine == old(self).mqtt_engine, self.tls_connection.sent() == old(self).tls_connection.sent(), self.tls_connection.eaten() == old(self).tls_connection.eaten(),
        self.tls_connection.over() == old(self).tls_connection.over(), self.tls_connection.failed() == old(self).tls_connection.failed()
    ensures self.ok()
    decreases self.tls_connection.plain().len()
//@ end
//@ fn src/mqtt_client/tls_engine.rs TlsMqttEngine::take_socket_data
//@ for C31
//@ ret r
//@ spec
  requires old(self).ok()
  ensures final(self).ok(), old(self).tls_connection.waiting() == r@ + final(self).tls_connection.waiting(), old(self).tls_connection.waiting().len() > 0 ==> r@.len() > 0, final(self).mqtt_engine == old(self).mqtt_engine, final(self).incoming_plaintext == old(self).incoming_plaintext
//@ end
//@ fn src/mqtt_client/tls_engine.rs TlsMqttEngine::handle_tick
//@ for C31
//@ subst self . tls_connection . writer ( ) . write_all ( & outgoing ) ==> self . tls_connection . vx_write_all ( & outgoing )
//@ ret r
//@ spec
  requires old(self).ok()
  ensures final(self).ok(), final(self).incoming_plaintext@.len() == 0, old(self).mqtt_engine.produced().is_prefix_of(final(self).mqtt_engine.taken()), final(self).mqtt_engine.reported() == old(self).mqtt_engine.reported() + r@, at_tick(now, final(self).mqtt_engine)
//@ end
//@ fn src/mqtt_client/tls_engine.rs TlsMqttEngine::connect
//@ for C31
//@ spec
  requires old(self).ok()
  ensures final(self).ok(), final(self).still(old(self)), connects(old(self).mqtt_engine.inner(), final(self).mqtt_engine.inner())
//@ end
//@ fn src/mqtt_client/tls_engine.rs TlsMqttEngine::disconnect
//@ for C31
//@ spec
  requires old(self).ok()
  ensures final(self).ok(), final(self).still(old(self)), disconnects(old(self).mqtt_engine.inner(), final(self).mqtt_engine.inner())
//@ end
//@ fn src/mqtt_client/tls_engine.rs TlsMqttEngine::publish
//@ for C31
//@ ret r
//@ spec
  requires old(self).ok()
  ensures final(self).ok(), final(self).still(old(self)), publishes(old(self).mqtt_engine.inner(), command, final(self).mqtt_engine.inner(), r)
//@ end
//@ fn src/mqtt_client/tls_engine.rs TlsMqttEngine::subscribe
//@ for C31
//@ ret r
//@ spec
  requires old(self).ok()
  ensures final(self).ok(), final(self).still(old(self)), subscribes(old(self).mqtt_engine.inner(), command, final(self).mqtt_engine.inner(), r)
//@ end
//@ fn src/mqtt_client/tls_engine.rs TlsMqttEngine::unsubscribe
//@ for C31
//@ ret r
//@ spec
  requires old(self).ok()
  ensures final(self).ok(), final(self).still(old(self)), unsubscribes(old(self).mqtt_engine.inner(), command, final(self).mqtt_engine.inner(), r)
//@ end
//@ fn src/mqtt_client/tls_engine.rs TlsMqttEngine::is_connected
//@ for C31
//@ ret r
//@ spec
  ensures r == linked(self.mqtt_engine.inner())
//@ end
//@ fn src/mqtt_client/tls_engine.rs TlsMqttEngine::take_events
//@ for C31
//@ ret r
//@ spec
  requires old(self).ok()
  ensures final(self).ok(), final(self).tls_connection == old(self).tls_connection, final(self).incoming_plaintext == old(self).incoming_plaintext, final(self).mqtt_engine.reported() == old(self).mqtt_engine.reported() + r@, none_left(final(self).mqtt_engine)
//@ end
