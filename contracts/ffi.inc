// ---------------------------------------------------------------- C32: the objects and functions foreign code calls
//@ item flowsdk_ffi/src/engine/ffi_types.rs MqttMessageFFI derive=Clone
//@ item flowsdk_ffi/src/engine/ffi_types.rs ConnectionResultFFI derive=Clone
//@ item flowsdk_ffi/src/engine/ffi_types.rs PublishResultFFI derive=Clone
//@ item flowsdk_ffi/src/engine/ffi_types.rs SubscribeResultFFI derive=Clone
//@ item flowsdk_ffi/src/engine/ffi_types.rs UnsubscribeResultFFI derive=Clone
//@ item flowsdk_ffi/src/engine/ffi_types.rs MqttEventFFI derive=Clone
//@ item flowsdk_ffi/src/engine/ffi_types.rs MqttOptionsFFI
//@ item flowsdk_ffi/src/engine/ffi_types.rs MqttTlsOptionsFFI
//@ item flowsdk_ffi/src/engine/ffi_types.rs MqttDatagramFFI
// ---- trusted: std
/// String::into::<String> is the identity, String::into::<Vec<u8>> gives its bytes
uninterp spec fn bytes_of(s: String) -> Vec<u8>;
broadcast axiom fn axiom_into_same(a: String, b: String) requires #[trigger] call_ensures(<String as Into<String>>::into, (a,), b) ensures b == a;
broadcast axiom fn axiom_into_bytes(a: String, b: Vec<u8>) requires #[trigger] call_ensures(<String as Into<Vec<u8>>>::into, (a,), b) ensures b == bytes_of(a);
broadcast axiom fn axiom_into_vec(a: Vec<u8>, b: Vec<u8>) requires #[trigger] call_ensures(<Vec<u8> as Into<Vec<u8>>>::into, (a,), b) ensures b == a;
broadcast group group_into { axiom_into_same, axiom_into_bytes, axiom_into_vec }
#[verifier::external_body]
fn vx_any<T>() -> (r: T) { unimplemented!() }
/// "{:?}" of an error
uninterp spec fn text_of(e: MqttClientError) -> String;
#[verifier::external_body]
fn vx_text_of(e: &MqttClientError) -> (r: String) ensures r == text_of(*e) { unimplemented!() }
/// the values in a list of optional values
spec fn kept<U>(s: Seq<Option<U>>) -> Seq<U> decreases s.len() {
    if s.len() == 0 { seq![] } else { match s.last() { Some(x) => kept(s.drop_last()).push(x), None => kept(s.drop_last()) } }
}
spec fn answers<T, U, F: Fn(T) -> Option<U>>(f: F, v: Seq<T>, os: Seq<Option<U>>) -> bool { os.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> call_ensures(f, (v[i],), #[trigger] os[i]) }
/// into_iter().filter_map(f).collect(), into_iter().filter_map(f) where it is consumed at once
#[verifier::external_body]
fn vx_filter_map<T, U, F: Fn(T) -> Option<U>>(v: Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|x: T| #[trigger] call_requires(f, (x,))
    ensures exists|os: Seq<Option<U>>| #[trigger] answers(f, v@, os) && r@ == kept(os)
{ v.into_iter().filter_map(f).collect() }
trait VxExtendAll<T> { fn vx_extend_all(&mut self, i: Vec<T>); fn vx_extend_copy(&mut self, i: &Vec<T>); }
impl<T: Clone> VxExtendAll<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_extend_all(&mut self, i: Vec<T>) ensures final(self)@ == old(self)@ + i@ { self.extend(i) }
    #[verifier::external_body]
    fn vx_extend_copy(&mut self, i: &Vec<T>) ensures final(self)@ == old(self)@ + i@ { self.extend(i.iter().cloned()) }
}
#[verifier::external_body]
fn vx_take<T>(x: &mut Vec<T>) -> (r: Vec<T>) ensures r == *old(x), final(x)@.len() == 0 { std::mem::take(x) }
trait VxOpened<T> { fn vx_opened(self) -> T; }
impl<T, E> VxOpened<T> for Result<T, E> {
    /// unwrap() where an error ends the call by panicking
    #[verifier::external_body]
    fn vx_opened(self) -> (r: T) ensures self == Ok::<T, E>(r) { unimplemented!() }
}
// ---- the engines, which are not what this is about: an engine is the history of the calls it got and of what it answered
enum Did {
    New(MqttClientOptions), Connect, Disconnect, Lost, Auth(u8, Seq<Property>), Publish(PublishCommand, Result<Option<u16>, MqttClientError>), Subscribe(SubscribeCommand, Result<u16, MqttClientError>),
    Unsubscribe(UnsubscribeCommand, Result<u16, MqttClientError>), In(Seq<u8>, Seq<MqttEvent>), Out(Seq<u8>), Tick(Instant, Seq<MqttEvent>), Take(Seq<MqttEvent>), Dial(SocketAddr, Seq<char>, Instant), Datagram(Seq<u8>, SocketAddr, Instant), Datagrams(Seq<(SocketAddr, Vec<u8>)>),
}
/// the last call, and the engine before it
uninterp spec fn last<E>(e: E) -> Did;
uninterp spec fn before<E>(e: E) -> E;
spec fn did<E>(a: E, d: Did, b: E) -> bool { before(b) == a && last(b) == d }
uninterp spec fn linked<E>(a: E) -> bool;
uninterp spec fn version_of<E>(a: E) -> u8;
uninterp spec fn wakes<E>(a: E) -> Option<Instant>;
//@ include ffieng.inc E=MqttEngine
//@ include ffieng.inc E=TlsMqttEngine
//@ include ffieng.inc E=QuicMqttEngine
impl MqttEngine {
    #[verifier::external_body]
    fn new(options: MqttClientOptions) -> (r: MqttEngine) ensures last(r) == Did::New(options) { unimplemented!() }
    #[verifier::external_body]
    fn connect(&mut self) ensures did(*old(self), Did::Connect, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn handle_connection_lost(&mut self) ensures did(*old(self), Did::Lost, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn auth(&mut self, reason_code: u8, properties: Vec<Property>) ensures did(*old(self), Did::Auth(reason_code, properties@), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn handle_incoming(&mut self, data: &[u8]) -> (r: Vec<MqttEvent>) ensures did(*old(self), Did::In(data@, r@), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn take_outgoing(&mut self) -> (r: Vec<u8>) ensures did(*old(self), Did::Out(r@), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn mqtt_version(&self) -> (r: u8) ensures r == version_of(*self) { unimplemented!() }
    #[verifier::external_body]
    fn next_tick_at(&self) -> (r: Option<Instant>) ensures r == wakes(*self) { unimplemented!() }
}
#[verifier::external_body]
struct ClientConfig { x: u8 }
impl TlsMqttEngine {
    #[verifier::external_body]
    fn new(options: MqttClientOptions, server_name: &str, config: Arc<ClientConfig>) -> (r: Result<TlsMqttEngine, MqttClientError>) ensures r matches Ok(e) ==> last(e) == Did::New(options) { unimplemented!() }
    #[verifier::external_body]
    fn connect(&mut self) ensures did(*old(self), Did::Connect, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn handle_socket_data(&mut self, data: &[u8]) -> (r: Result<(), MqttClientError>) ensures did(*old(self), Did::In(data@, Seq::empty()), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn take_socket_data(&mut self) -> (r: Vec<u8>) ensures did(*old(self), Did::Out(r@), *final(self)) { unimplemented!() }
}
#[verifier::external_body]
struct SocketAddr { x: u8 }
/// the address a text names, if it names one; the text of an address
uninterp spec fn address(s: Seq<char>) -> Option<SocketAddr>;
uninterp spec fn address_text(a: SocketAddr) -> String;
#[verifier::external_body]
fn vx_address(s: &String) -> (r: SocketAddr) ensures address(s@) == Some(r) { unimplemented!() }
impl SocketAddr {
    #[verifier::external_body]
    fn vx_text(&self) -> (r: String) ensures r == address_text(*self) { unimplemented!() }
}
impl QuicMqttEngine {
    #[verifier::external_body]
    fn new(options: MqttClientOptions) -> (r: Result<QuicMqttEngine, MqttClientError>) ensures r matches Ok(e) ==> last(e) == Did::New(options) { unimplemented!() }
    #[verifier::external_body]
    fn connect(&mut self, server: SocketAddr, name: &str, config: ClientConfig, now: Instant) -> (r: Result<(), MqttClientError>) ensures did(*old(self), Did::Dial(server, name@, now), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn handle_datagram(&mut self, data: Vec<u8>, remote: SocketAddr, now: Instant) ensures did(*old(self), Did::Datagram(data@, remote, now), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn take_outgoing_datagrams(&mut self) -> (r: Vec<(SocketAddr, Vec<u8>)>) ensures did(*old(self), Did::Datagrams(r@), *final(self)) { unimplemented!() }
}
// ---- what is said about them
/// the event foreign code sees
spec fn foreign(e: MqttEvent) -> Option<MqttEventFFI> {
    match e {
        MqttEvent::Connected(x) => Some(MqttEventFFI::Connected(ConnectionResultFFI { reason_code: x.reason_code, session_present: x.session_present })),
        MqttEvent::Disconnected(c) => Some(MqttEventFFI::Disconnected { reason_code: c }),
        MqttEvent::Published(x) => Some(MqttEventFFI::Published(PublishResultFFI { packet_id: x.packet_id, reason_code: x.reason_code, qos: x.qos })),
        MqttEvent::Subscribed(x) => Some(MqttEventFFI::Subscribed(SubscribeResultFFI { packet_id: x.packet_id, reason_codes: x.reason_codes })),
        MqttEvent::Unsubscribed(x) => Some(MqttEventFFI::Unsubscribed(UnsubscribeResultFFI { packet_id: x.packet_id, reason_codes: x.reason_codes })),
        MqttEvent::MessageReceived(m) => Some(MqttEventFFI::MessageReceived(MqttMessageFFI { topic: m.topic_name, payload: m.payload, qos: m.qos, retain: m.retain })),
        MqttEvent::PingResponse(x) => Some(MqttEventFFI::PingResponse { success: x.success }),
        MqttEvent::Error(x) => Some(MqttEventFFI::Error { message: text_of(x) }),
        MqttEvent::StreamClosed { stream_id, reason, by_peer } => Some(MqttEventFFI::StreamClosed { stream_id, reason, by_peer }),
        MqttEvent::StreamReset { stream_id, error_code } => Some(MqttEventFFI::StreamReset { stream_id, error_code }),
        MqttEvent::StreamStopped { stream_id, error_code } => Some(MqttEventFFI::StreamStopped { stream_id, error_code }),
        MqttEvent::ReconnectNeeded => Some(MqttEventFFI::ReconnectNeeded),
        MqttEvent::ReconnectScheduled { attempt, delay } => Some(MqttEventFFI::ReconnectScheduled { attempt, delay_ms: ((ns(delay) / 1000000) as u128) as u64 }),
        MqttEvent::PublishReceived { .. } | MqttEvent::PubRelReceived { .. } | MqttEvent::TransportClosed { .. } | MqttEvent::ZeroRttStatusChanged { .. } => None,
    }
}
spec fn foreigns(es: Seq<MqttEvent>) -> Seq<MqttEventFFI> { kept(Seq::new(es.len(), |i: int| foreign(es[i]))) }
/// the number foreign code gets for a publish, a subscribe
spec fn number(r: Result<Option<u16>, MqttClientError>) -> int { match r { Ok(Some(p)) => p as int, Ok(None) => 0, Err(_) => -1 } }
spec fn number1(r: Result<u16, MqttClientError>) -> int { match r { Ok(p) => p as int, Err(_) => -1 } }
spec fn plain_publish(c: PublishCommand, topic: String, payload: Vec<u8>, qos: u8, priority: u8) -> bool {
    c.topic_name == topic && c.payload == payload && c.qos == qos && !c.retain && !c.dup && c.packet_id is None && c.properties@.len() == 0 && c.priority == priority
}
spec fn plain_subscribe(c: SubscribeCommand, filter: String, qos: u8) -> bool {
    c.packet_id is None && c.properties@.len() == 0 && c.subscriptions@ =~= seq![TopicSubscription { topic_filter: filter, qos, no_local: false, retain_as_published: false, retain_handling: 0 }]
}
spec fn plain_unsubscribe(c: UnsubscribeCommand, filter: String) -> bool { c.packet_id is None && c.properties@.len() == 0 && c.topics@ =~= seq![filter] }
/// what is not said of a session is as it is by default
spec fn usual(o: MqttClientOptions) -> bool {
    &&& o.will is None && !o.reconnect && !o.sessionless && o.subscription_topics@.len() == 0 && o.auto_ack && o.session_expiry_interval is None && o.maximum_packet_size is None
    &&& o.request_response_information is None && o.request_problem_information is None && o.retransmission_timeout_ms == 5000 && o.ping_timeout_multiplier == 2
    &&& o.max_outgoing_packet_count == 1000 && o.max_event_count == 1000 && o.receive_maximum == 65535 && o.parser_buffer_size == 16384 && o.auto_keepalive
}
spec fn the_default(o: MqttClientOptions) -> bool {
    usual(o) && o.clean_start && o.keep_alive == 60 && o.username is None && o.password is None && o.mqtt_version == 5 && o.reconnect_base_delay_ms == 1000 && o.reconnect_max_delay_ms == 60000 && o.max_reconnect_attempts == 0
}
/// the options foreign code gave, all of them
spec fn said(o: MqttClientOptions, f: MqttOptionsFFI) -> bool {
    &&& usual(o) && o.client_id == f.client_id && o.mqtt_version == f.mqtt_version && o.clean_start == f.clean_start && o.keep_alive == f.keep_alive && o.username == f.username
    &&& o.password == (match f.password { Some(p) => Some(bytes_of(p)), None => None })
    &&& o.reconnect_base_delay_ms == f.reconnect_base_delay_ms && o.reconnect_max_delay_ms == f.reconnect_max_delay_ms && o.max_reconnect_attempts == f.max_reconnect_attempts
}
/// a session of which only the identifier and the version were given
spec fn plain(o: MqttClientOptions, id: Option<String>, v: u8) -> bool { usual(o) && o.mqtt_version == v && (id matches Some(i) ==> o.client_id == i) && o.clean_start && o.keep_alive == 60 && o.username is None && o.password is None }
spec fn a_version(v: u8) -> bool { v == 3 || v == 4 || v == 5 }
/// milliseconds from the start of the object to a moment
spec fn whole_ms(start: Instant, t: Instant) -> int { if at(t) <= at(start) { 0 } else { (at(t) - at(start)) / 1000000 } }
spec fn after_ms(start: Instant, ms: u64) -> Instant { inst(at(start) + ms * 1000000) }
//@ fn src/mqtt_client/opts.rs Default@MqttClientOptions::default
//@ for C32
//@ ret r
//@ spec
  ensures the_default(r)
//@ end
//@ fn src/mqtt_client/opts.rs MqttClientOptions::builder
//@ for C32
//@ ret r
//@ spec
  ensures the_default(r)
//@ end
//@ fn flowsdk_ffi/src/engine.rs map_event debug-text
//@ for C32
//@ ret r
//@ spec
  ensures r == foreign(event)
//@ end
broadcast proof fn foreign_all(es: Seq<MqttEvent>, os: Seq<Option<MqttEventFFI>>)
    requires #[trigger] answers(map_event, es, os)
    ensures kept(os) == foreigns(es)
{ assert(os =~= Seq::new(es.len(), |i: int| foreign(es[i]))); }
// ---- the objects. One call at a time: a Mutex is what it holds, held by the call
type Mutex<T> = T;
fn vx_same<T>(x: T) -> (r: T) ensures r == x { x }
//@ path Mutex::new vx_same
//@ path std::mem::take vx_take
//@ path flowsdk::mqtt_client::commands::SubscribeCommand::single SubscribeCommand::single
//@ path flowsdk::mqtt_client::commands::UnsubscribeCommand::from_topics UnsubscribeCommand::from_topics
//@ method extend .vx_extend_all
//@ item flowsdk_ffi/src/engine.rs MqttEngineFFI
//@ item flowsdk_ffi/src/engine.rs TlsMqttEngineFFI
//@ item flowsdk_ffi/src/engine.rs QuicMqttEngineFFI
//@ include ffiobj.inc O=MqttEngineFFI
//@ include ffiobj.inc O=TlsMqttEngineFFI
//@ include ffiobj.inc O=QuicMqttEngineFFI
//@ include ffipub.inc O=TlsMqttEngineFFI P=128
//@ include ffipub.inc O=QuicMqttEngineFFI P=128
//@ include ffipub.inc O=MqttEngineFFI P=(match(priority){Some(p)=>p,None=>128})
//@ fn flowsdk_ffi/src/engine.rs MqttEngineFFI::new keep-literals
//@ for C32
//@ ret r
//@ spec
  requires a_version(mqtt_version)
  ensures r.events@.len() == 0, (last(r.engine) matches Did::New(o) && plain(o, client_id, mqtt_version))
//@ begin
  broadcast use group_into;
//@ end
//@ fn flowsdk_ffi/src/engine.rs MqttEngineFFI::new_with_opts
//@ for C32
//@ ret r
//@ spec
  requires a_version(opts.mqtt_version)
  ensures r.events@.len() == 0, (last(r.engine) matches Did::New(o) && said(o, opts))
//@ begin
  broadcast use group_into;
//@ end
//@ fn flowsdk_ffi/src/engine.rs TlsMqttEngineFFI::new
//@ for C32
//@ method unwrap .vx_opened
//@ havoc opts options builder TlsMqttEngine
//@ ret r
//@ spec
  requires a_version(opts.mqtt_version)
  ensures r.events@.len() == 0, (last(r.engine) matches Did::New(o) && said(o, opts))
//@ begin
  broadcast use group_into;
//@ end
//@ fn flowsdk_ffi/src/engine.rs QuicMqttEngineFFI::new
//@ for C32
//@ method unwrap .vx_opened
//@ ret r
//@ spec
  requires a_version(opts.mqtt_version)
  ensures r.events@.len() == 0, (last(r.engine) matches Did::New(o) && said(o, opts))
//@ begin
  broadcast use group_into;
//@ end
//@ fn flowsdk_ffi/src/engine.rs MqttEngineFFI::connect
//@ include unlock.inc
//@ spec
  ensures final(self).rest(old(self)), did(old(self).engine, Did::Connect, final(self).engine)
//@ end
//@ fn flowsdk_ffi/src/engine.rs TlsMqttEngineFFI::connect
//@ include unlock.inc
//@ spec
  ensures final(self).rest(old(self)), did(old(self).engine, Did::Connect, final(self).engine)
//@ end
//@ fn flowsdk_ffi/src/engine.rs MqttEngineFFI::handle_connection_lost
//@ include unlock.inc
//@ spec
  ensures final(self).rest(old(self)), did(old(self).engine, Did::Lost, final(self).engine)
//@ end
//@ fn flowsdk_ffi/src/engine.rs MqttEngineFFI::auth
//@ include unlock.inc
//@ spec
  ensures final(self).rest(old(self)), before(final(self).engine) == old(self).engine, (last(final(self).engine) matches Did::Auth(c, ps) && c == reason_code && ps.len() == 0)
//@ end
//@ fn flowsdk_ffi/src/engine.rs MqttEngineFFI::get_version
//@ include unlock.inc
//@ ret r
//@ spec
  ensures final(self).rest(old(self)), final(self).engine == old(self).engine, r == version_of(old(self).engine)
//@ end
//@ fn flowsdk_ffi/src/engine.rs MqttEngineFFI::push_event_ffi
//@ include unlock.inc
//@ spec
  ensures final(self).engine == old(self).engine, final(self).start_time == old(self).start_time, final(self).events@ == old(self).events@.push(event)
//@ end
//@ fn flowsdk_ffi/src/engine.rs MqttEngineFFI::handle_incoming
//@ include unlock.inc
//@ ret r
//@ spec
  ensures final(self).start_time == old(self).start_time,
    before(final(self).engine) == old(self).engine, (last(final(self).engine) matches Did::In(d, es) && d == data@ && r@ =~= foreigns(es) && final(self).events@ =~= old(self).events@ + foreigns(es))
//@ begin
  broadcast use foreign_all;
//@ end
//@ fn flowsdk_ffi/src/engine.rs MqttEngineFFI::take_outgoing
//@ include unlock.inc
//@ ret r
//@ spec
  ensures final(self).rest(old(self)), did(old(self).engine, Did::Out(r@), final(self).engine)
//@ end
//@ fn flowsdk_ffi/src/engine.rs MqttEngineFFI::next_tick_ms
//@ include unlock.inc
//@ ret r
//@ spec
  ensures final(self).rest(old(self)), final(self).engine == old(self).engine,
    match wakes(old(self).engine) { None => r == -1, Some(t) => whole_ms(old(self).start_time, t) <= i64::MAX ==> r == whole_ms(old(self).start_time, t) }
//@ end
//@ fn flowsdk_ffi/src/engine.rs TlsMqttEngineFFI::handle_socket_data
//@ include unlock.inc
//@ spec
  ensures final(self).rest(old(self)), did(old(self).engine, Did::In(data@, Seq::empty()), final(self).engine)
//@ end
//@ fn flowsdk_ffi/src/engine.rs TlsMqttEngineFFI::take_socket_data
//@ include unlock.inc
//@ ret r
//@ spec
  ensures final(self).rest(old(self)), did(old(self).engine, Did::Out(r@), final(self).engine)
//@ end
//@ fn flowsdk_ffi/src/engine.rs QuicMqttEngineFFI::handle_datagram
//@ include unlock.inc
//@ subst remote_addr . parse ( ) . unwrap ( ) ==> vx_address ( & remote_addr )
//@ spec
  requires at(old(self).start_time) + now_ms * 1000000 <= at_max()
  ensures final(self).rest(old(self)),
    before(final(self).engine) == old(self).engine, last(final(self).engine) matches Did::Datagram(d, a, t) && d == data@ && address(remote_addr@) == Some(a) && at(t) == at(old(self).start_time) + now_ms * 1000000
//@ begin
  broadcast use group_time;
//@ end
//@ fn flowsdk_ffi/src/engine.rs QuicMqttEngineFFI::connect
//@ include unlock.inc
//@ havoc server_addr server_name addr now
//@ subst server_addr . parse ( ) . unwrap ( ) ==> vx_address ( & server_addr )
//@ spec
  requires at(old(self).start_time) + now_ms * 1000000 <= at_max()
  ensures final(self).rest(old(self)),
    before(final(self).engine) == old(self).engine, last(final(self).engine) matches Did::Dial(a, n, t) && n == server_name@ && address(server_addr@) == Some(a) && at(t) == at(old(self).start_time) + now_ms * 1000000
//@ begin
  broadcast use group_time;
//@ end
