//! C31 and C32, the bounded companions of the units "tls" and "ffi": the same operations on a plain MQTT engine and on the
//! engine behind rustls, behind the foreign-language objects and behind the C functions; a rustls server in this process
//! reads what goes out and says what comes in.
#[path = "../../harness/src/clock.rs"]
#[allow(dead_code)]
mod clock;
#[path = "../../harness/src/fw.rs"]
#[allow(dead_code)]
mod fw;
#[path = "../../harness/src/gen.rs"]
#[allow(dead_code)]
mod gen;
mod quic;
use flowsdk::mqtt_client::commands::{PublishCommand, SubscribeCommand, UnsubscribeCommand};
use flowsdk::mqtt_client::engine::{MqttEngine, MqttEvent};
use flowsdk::mqtt_client::opts::MqttClientOptions;
use flowsdk::mqtt_client::tls_engine::TlsMqttEngine;
use flowsdk::mqtt_serde::control_packet::MqttPacket as P;
use flowsdk::mqtt_serde::parser::stream::MqttParser;
use flowsdk::mqtt_serde::{mqttv3, mqttv5};
use flowsdk_ffi::engine as f;
use flowsdk_ffi::engine::ffi_types as t;
use fw::*;
use std::ffi::{CStr, CString};
use std::io::{Read, Write};
use std::sync::Arc;
use std::time::{Duration, Instant};

fn suites(p: &str) -> Vec<Suite> {
    let s = |name, rule, fixed, weight, run| Suite { name, rule, fixed, weight, run };
    match p {
        "C31" => vec![
            s("tls", "random sessions of the TLS engine against a rustls server and of a plain engine, in step: same bytes, same events, same results; messages up to 200 kB, socket data in pieces of 1 byte to all of it", 0, 4, tls),
            s("bulk", "one large message out and many messages in with a single piece of socket data", 40, 1, bulk),
        ],
        "C32" => vec![
            s("object", "random sessions of MqttEngineFFI and of a plain engine, in step", 0, 3, object),
            s("c", "random sessions of the C functions and of a plain engine, in step", 0, 3, cfns),
            s("tls_object", "random sessions of TlsMqttEngineFFI against a rustls server, and of a plain engine", 0, 1, tls_object),
            s("tls_c", "random sessions of the C functions for TLS against a rustls server, and of a plain engine", 0, 1, tls_c),
        ],
        "C33" => vec![
            s("session", "random users of the QUIC engine against a QUIC server: data streams, commands and messages on each, small receive windows, slow readers, lost datagrams, ends of streams and of the connection", 0, 6, quic::session),
            s("again", "publishes without an answer until their time is out (v3.1.1): each again on the stream it came from", 0, 1, quic::again),
            s("refused", "the server stops, resets and ends data streams (the ones opened for publish and subscribe among them) and opens its own: the engine says which, the others carry on, what is accepted afterwards is read", 0, 3, quic::refused),
            s("last", "messages that arrive by the tick in which their stream is ended: heard, answered on the stream, and then the end", 0, 3, quic::last),
            s("reconnect", "connections one after the other, closed by either side or left, with bytes still unsent: streams counted anew, nothing of one connection read on the next", 0, 2, quic::reconnect),
        ],
        _ => vec![],
    }
}

// ---- what is compared
#[derive(Clone, Debug)]
struct O { id: String, version: u8, clean: bool, keep: u16, user: Option<String>, pass: Option<String>, base: u64, max: u64, tries: u32 }
fn cred(r: &mut Rng) -> Option<String> {
    match r.below(7) { 0..=2 => None, 3 => Some(String::new()), _ => Some(gen::nonempty(r, false)) }
}
fn opts(r: &mut Rng) -> O {
    let base = if r.chance(1, 10) { 5_000_000_000 } else { r.below(3000) + 1 };
    O {
        id: if r.chance(1, 6) { String::new() } else { gen::nonempty(r, false) }, version: *r.pick(&[3, 4, 5]), clean: r.bool(), keep: *r.pick(&[0, 1, 5, 60, 65535]),
        user: cred(r), pass: cred(r),
        base, max: base + r.below(20000), tries: r.below(4) as u32,
    }
}
fn native(o: &O) -> MqttClientOptions {
    let mut x = MqttClientOptions::default();
    x.client_id = o.id.clone();
    x.mqtt_version = o.version;
    x.clean_start = o.clean;
    x.keep_alive = o.keep;
    x.username = o.user.clone();
    x.password = o.pass.clone().map(|p| p.into_bytes());
    x.reconnect_base_delay_ms = o.base;
    x.reconnect_max_delay_ms = o.max;
    x.max_reconnect_attempts = o.tries;
    x
}
fn ffi_opts(o: &O) -> t::MqttOptionsFFI {
    t::MqttOptionsFFI { client_id: o.id.clone(), mqtt_version: o.version, clean_start: o.clean, keep_alive: o.keep, username: o.user.clone(), password: o.pass.clone(), reconnect_base_delay_ms: o.base, reconnect_max_delay_ms: o.max, max_reconnect_attempts: o.tries }
}
/// the foreign view of an event
fn foreign(e: &MqttEvent) -> Option<String> {
    use MqttEvent::*;
    Some(match e {
        Connected(x) => format!("connected {} {}", x.reason_code, x.session_present),
        Disconnected(x) => format!("disconnected {x:?}"),
        Published(x) => format!("published {:?} {:?} {}", x.packet_id, x.reason_code, x.qos),
        Subscribed(x) => format!("subscribed {} {:?}", x.packet_id, x.reason_codes),
        Unsubscribed(x) => format!("unsubscribed {} {:?}", x.packet_id, x.reason_codes),
        MessageReceived(m) => format!("message {:?} {:?} {} {}", m.topic_name, m.payload, m.qos, m.retain),
        PingResponse(x) => format!("ping {}", x.success),
        Error(x) => format!("error {x:?}"),
        StreamClosed { stream_id, reason, by_peer } => format!("closed {stream_id} {reason} {by_peer}"),
        StreamReset { stream_id, error_code } => format!("reset {stream_id} {error_code}"),
        StreamStopped { stream_id, error_code } => format!("stopped {stream_id} {error_code}"),
        ReconnectNeeded => "needed".into(),
        ReconnectScheduled { attempt, delay } => format!("scheduled {attempt} {}", delay.as_millis()),
        PublishReceived { .. } | PubRelReceived { .. } | TransportClosed { .. } | ZeroRttStatusChanged { .. } => return None,
    })
}
fn show(e: &t::MqttEventFFI) -> String {
    use t::MqttEventFFI::*;
    match e {
        Connected(x) => format!("connected {} {}", x.reason_code, x.session_present),
        Disconnected { reason_code } => format!("disconnected {reason_code:?}"),
        Published(x) => format!("published {:?} {:?} {}", x.packet_id, x.reason_code, x.qos),
        Subscribed(x) => format!("subscribed {} {:?}", x.packet_id, x.reason_codes),
        Unsubscribed(x) => format!("unsubscribed {} {:?}", x.packet_id, x.reason_codes),
        MessageReceived(m) => format!("message {:?} {:?} {} {}", m.topic, m.payload, m.qos, m.retain),
        PingResponse { success } => format!("ping {success}"),
        Error { message } => format!("error {message}"),
        StreamClosed { stream_id, reason, by_peer } => format!("closed {stream_id} {reason} {by_peer}"),
        StreamReset { stream_id, error_code } => format!("reset {stream_id} {error_code}"),
        StreamStopped { stream_id, error_code } => format!("stopped {stream_id} {error_code}"),
        ReconnectNeeded => "needed".into(),
        ReconnectScheduled { attempt, delay_ms } => format!("scheduled {attempt} {delay_ms}"),
    }
}
/// what the C list says of an event
fn seen(e: &t::MqttEventFFI) -> String {
    use t::MqttEventFFI::*;
    let x = |tag: u8, s: String| format!("{tag} {s}");
    let o = |i: i32| format!("rc 0 msg - pid {i} sub -1 err - sid 0 code 0 why - peer -1");
    match e {
        Connected(c) => x(1, format!("rc {} msg - pid -1 sub -1 err - sid 0 code 0 why - peer -1", c.reason_code)),
        Disconnected { .. } => x(2, o(-1)),
        MessageReceived(m) => x(3, format!("rc 0 msg {:?} {:?} pid -1 sub -1 err - sid 0 code 0 why - peer -1", m.topic, m.payload)),
        Published(p) => x(4, o(p.packet_id.map_or(0, |i| i as i32))),
        Subscribed(s) => x(5, format!("rc 0 msg - pid -1 sub {} err - sid 0 code 0 why - peer -1", s.packet_id)),
        Unsubscribed(_) => x(6, o(-1)),
        PingResponse { .. } => x(7, o(-1)),
        Error { message } => x(8, format!("rc 0 msg - pid -1 sub -1 err {message} sid 0 code 0 why - peer -1")),
        ReconnectNeeded => x(9, o(-1)),
        ReconnectScheduled { .. } => x(10, o(-1)),
        StreamClosed { stream_id, reason, by_peer } => x(11, format!("rc 0 msg - pid -1 sub -1 err - sid {stream_id} code 0 why {reason} peer {}", *by_peer as i32)),
        StreamReset { stream_id, error_code } => x(12, format!("rc 0 msg - pid -1 sub -1 err - sid {stream_id} code {error_code} why - peer -1")),
        StreamStopped { stream_id, error_code } => x(13, format!("rc 0 msg - pid -1 sub -1 err - sid {stream_id} code {error_code} why - peer -1")),
    }
}
unsafe fn text(p: *mut std::os::raw::c_char) -> String {
    if p.is_null() { return "-".into(); }
    let s = CStr::from_ptr(p).to_string_lossy().into_owned();
    f::mqtt_engine_free_string(p);
    s
}
unsafe fn listed(l: *mut f::MqttEventListFFI) -> Vec<String> {
    let n = f::mqtt_event_list_len(l);
    let mut out = vec![];
    for i in 0..n {
        let tp = f::mqtt_event_list_get_message_topic(l, i);
        let topic = if tp.is_null() { None } else { Some(text(tp)) };
        let mut k = 77usize;
        let pp = f::mqtt_event_list_get_message_payload(l, i, &mut k);
        let msg = match topic { None => { if pp.is_null() { "-".into() } else { "payload without topic".to_string() } } Some(t) => { let v = std::slice::from_raw_parts(pp, k).to_vec(); f::mqtt_engine_free_bytes(pp, k); format!("{t:?} {v:?}") } };
        out.push(format!("{} rc {} msg {} pid {} sub {} err {} sid {} code {} why {} peer {}", f::mqtt_event_list_get_tag(l, i), f::mqtt_event_list_get_connected_rc(l, i), msg, f::mqtt_event_list_get_published_pid(l, i), f::mqtt_event_list_get_subscribed_pid(l, i),
            text(f::mqtt_event_list_get_error_message(l, i)), f::mqtt_event_list_get_stream_id(l, i), f::mqtt_event_list_get_stream_error_code(l, i), text(f::mqtt_event_list_get_stream_close_reason(l, i)), f::mqtt_event_list_get_stream_closed_by_peer(l, i)));
    }
    if f::mqtt_event_list_get_tag(l, n) != 0 { out.push("an event beyond the end".into()); }
    f::mqtt_event_list_free(l);
    out
}

// ---- the subject
#[derive(Clone, Debug)]
enum Cmd { Connect, Publish(String, Vec<u8>, u8, Option<u8>), Subscribe(String, u8), Unsubscribe(String), Disconnect, Lost, Auth(u8) }
trait Subject {
    fn cmd(&mut self, c: &Cmd) -> i32;
    fn incoming(&mut self, b: &[u8]) -> Option<Vec<String>>;
    fn tick(&mut self, ms: u64) -> Option<Vec<String>>;
    fn outgoing(&mut self) -> Vec<u8>;
    fn events(&mut self) -> Vec<String>;
    fn up(&mut self) -> bool;
    fn next(&mut self) -> Option<i64> { None }
    /// what event texts look like
    fn view(&self, e: &MqttEvent) -> Option<String> { foreign(e) }
    /// events returned by a call are reported by events() as well
    fn again(&self) -> bool { true }
    fn has(&self, _c: &Cmd) -> bool { true }
}
fn code<E>(r: Result<Option<u16>, E>) -> i32 { match r { Ok(Some(i)) => i as i32, Ok(None) => 0, Err(_) => -1 } }
fn publish(c: &Cmd) -> PublishCommand {
    let Cmd::Publish(a, b, q, p) = c else { unreachable!() };
    PublishCommand { topic_name: a.clone(), payload: b.clone(), qos: *q, retain: false, dup: false, packet_id: None, properties: vec![], priority: p.unwrap_or(128) }
}
fn apply(e: &mut MqttEngine, c: &Cmd) -> i32 {
    match c {
        Cmd::Connect => { e.connect(); 0 }
        Cmd::Publish(..) => code(e.publish(publish(c))),
        Cmd::Subscribe(t, q) => code(e.subscribe(SubscribeCommand::single(t.clone(), *q)).map(Some)),
        Cmd::Unsubscribe(t) => code(e.unsubscribe(UnsubscribeCommand::from_topics(vec![t.clone()])).map(Some)),
        Cmd::Disconnect => { e.disconnect(); 0 }
        Cmd::Lost => { e.handle_connection_lost(); 0 }
        Cmd::Auth(r) => { e.auth(*r, vec![]); 0 }
    }
}
struct Tls { e: TlsMqttEngine, start: Instant }
impl Subject for Tls {
    fn cmd(&mut self, c: &Cmd) -> i32 {
        let e = &mut self.e;
        match c {
            Cmd::Connect => { e.connect(); 0 }
            Cmd::Publish(..) => code(e.publish(publish(c))),
            Cmd::Subscribe(t, q) => code(e.subscribe(SubscribeCommand::single(t.clone(), *q)).map(Some)),
            Cmd::Unsubscribe(t) => code(e.unsubscribe(UnsubscribeCommand::from_topics(vec![t.clone()])).map(Some)),
            Cmd::Disconnect => { e.disconnect(); 0 }
            _ => 0,
        }
    }
    fn incoming(&mut self, b: &[u8]) -> Option<Vec<String>> { if let Err(e) = self.e.handle_socket_data(b) { return Some(vec![format!("handle_socket_data: {e:?}")]); } None }
    fn tick(&mut self, ms: u64) -> Option<Vec<String>> { Some(self.e.handle_tick(self.start + Duration::from_millis(ms)).iter().map(|e| format!("{e:?}")).collect()) }
    fn outgoing(&mut self) -> Vec<u8> { self.e.take_socket_data() }
    fn events(&mut self) -> Vec<String> { self.e.take_events().iter().map(|e| format!("{e:?}")).collect() }
    fn up(&mut self) -> bool { self.e.is_connected() }
    fn view(&self, e: &MqttEvent) -> Option<String> { Some(format!("{e:?}")) }
    fn again(&self) -> bool { false }
    fn has(&self, c: &Cmd) -> bool { !matches!(c, Cmd::Lost | Cmd::Auth(_)) }
}
impl Subject for f::MqttEngineFFI {
    fn cmd(&mut self, c: &Cmd) -> i32 {
        match c.clone() {
            Cmd::Connect => { self.connect(); 0 }
            Cmd::Publish(t, b, q, p) => self.publish(t, b, q, p),
            Cmd::Subscribe(t, q) => self.subscribe(t, q),
            Cmd::Unsubscribe(t) => self.unsubscribe(t),
            Cmd::Disconnect => { self.disconnect(); 0 }
            Cmd::Lost => { self.handle_connection_lost(); 0 }
            Cmd::Auth(r) => { self.auth(r); 0 }
        }
    }
    fn incoming(&mut self, b: &[u8]) -> Option<Vec<String>> { Some(self.handle_incoming(b.to_vec()).iter().map(show).collect()) }
    fn tick(&mut self, ms: u64) -> Option<Vec<String>> { Some(self.handle_tick(ms).iter().map(show).collect()) }
    fn outgoing(&mut self) -> Vec<u8> { self.take_outgoing() }
    fn events(&mut self) -> Vec<String> { self.take_events().iter().map(show).collect() }
    fn up(&mut self) -> bool { self.is_connected() }
    fn next(&mut self) -> Option<i64> { Some(self.next_tick_ms()) }
}
impl Subject for f::TlsMqttEngineFFI {
    fn cmd(&mut self, c: &Cmd) -> i32 {
        match c.clone() {
            Cmd::Connect => { self.connect(); 0 }
            Cmd::Publish(t, b, q, _) => self.publish(t, b, q),
            Cmd::Subscribe(t, q) => self.subscribe(t, q),
            Cmd::Unsubscribe(t) => self.unsubscribe(t),
            Cmd::Disconnect => { self.disconnect(); 0 }
            _ => 0,
        }
    }
    fn incoming(&mut self, b: &[u8]) -> Option<Vec<String>> { self.handle_socket_data(b.to_vec()); None }
    fn tick(&mut self, ms: u64) -> Option<Vec<String>> { Some(self.handle_tick(ms).iter().map(show).collect()) }
    fn outgoing(&mut self) -> Vec<u8> { self.take_socket_data() }
    fn events(&mut self) -> Vec<String> { self.take_events().iter().map(show).collect() }
    fn up(&mut self) -> bool { self.is_connected() }
    fn has(&self, c: &Cmd) -> bool { !matches!(c, Cmd::Lost | Cmd::Auth(_) | Cmd::Publish(_, _, _, Some(_))) }
}
struct C(*mut f::MqttEngineFFI);
struct CTls(*mut f::TlsMqttEngineFFI);
impl Drop for C { fn drop(&mut self) { unsafe { f::mqtt_engine_free(self.0) } } }
impl Drop for CTls { fn drop(&mut self) { unsafe { f::mqtt_tls_engine_free(self.0) } } }
fn c(s: &str) -> CString { CString::new(s).unwrap() }
unsafe fn bytes(p: *mut u8, n: usize) -> Vec<u8> {
    if p.is_null() { return if n == 0 { vec![] } else { b"a length without bytes".to_vec() }; }
    let v = std::slice::from_raw_parts(p, n).to_vec();
    f::mqtt_engine_free_bytes(p, n);
    v
}
impl Subject for C {
    fn cmd(&mut self, x: &Cmd) -> i32 {
        unsafe {
            match x {
                Cmd::Connect => { f::mqtt_engine_connect(self.0); 0 }
                Cmd::Publish(t, b, q, _) => f::mqtt_engine_publish(self.0, c(t).as_ptr(), b.as_ptr(), b.len(), *q),
                Cmd::Subscribe(t, q) => f::mqtt_engine_subscribe(self.0, c(t).as_ptr(), *q),
                Cmd::Unsubscribe(t) => f::mqtt_engine_unsubscribe(self.0, c(t).as_ptr()),
                Cmd::Disconnect => { f::mqtt_engine_disconnect(self.0); 0 }
                Cmd::Lost => { f::mqtt_engine_handle_connection_lost(self.0); 0 }
                Cmd::Auth(r) => { f::mqtt_engine_auth(self.0, *r); 0 }
            }
        }
    }
    fn incoming(&mut self, b: &[u8]) -> Option<Vec<String>> { unsafe { f::mqtt_engine_handle_incoming(self.0, b.as_ptr(), b.len()) }; None }
    fn tick(&mut self, ms: u64) -> Option<Vec<String>> { unsafe { f::mqtt_engine_handle_tick(self.0, ms) }; None }
    fn outgoing(&mut self) -> Vec<u8> { let mut n = 5; unsafe { let p = f::mqtt_engine_take_outgoing(self.0, &mut n); bytes(p, n) } }
    fn events(&mut self) -> Vec<String> { unsafe { listed(f::mqtt_engine_take_events_list(self.0)) } }
    fn up(&mut self) -> bool { unsafe { f::mqtt_engine_is_connected(self.0) != 0 } }
    fn next(&mut self) -> Option<i64> { Some(unsafe { f::mqtt_engine_next_tick_ms(self.0) }) }
    fn view(&self, e: &MqttEvent) -> Option<String> { to_ffi(e).map(|e| seen(&e)) }
    fn has(&self, c: &Cmd) -> bool { !matches!(c, Cmd::Publish(_, _, _, Some(_))) }
}
impl Subject for CTls {
    fn cmd(&mut self, x: &Cmd) -> i32 {
        unsafe {
            match x {
                Cmd::Connect => { f::mqtt_tls_engine_connect(self.0); 0 }
                Cmd::Publish(t, b, q, _) => f::mqtt_tls_engine_publish(self.0, c(t).as_ptr(), b.as_ptr(), b.len(), *q),
                Cmd::Subscribe(t, q) => f::mqtt_tls_engine_subscribe(self.0, c(t).as_ptr(), *q),
                Cmd::Unsubscribe(t) => f::mqtt_tls_engine_unsubscribe(self.0, c(t).as_ptr()),
                Cmd::Disconnect => { f::mqtt_tls_engine_disconnect(self.0); 0 }
                _ => 0,
            }
        }
    }
    fn incoming(&mut self, b: &[u8]) -> Option<Vec<String>> { unsafe { f::mqtt_tls_engine_handle_socket_data(self.0, b.as_ptr(), b.len()) }; None }
    fn tick(&mut self, ms: u64) -> Option<Vec<String>> { unsafe { f::mqtt_tls_engine_handle_tick(self.0, ms) }; None }
    fn outgoing(&mut self) -> Vec<u8> { let mut n = 5; unsafe { let p = f::mqtt_tls_engine_take_socket_data(self.0, &mut n); bytes(p, n) } }
    fn events(&mut self) -> Vec<String> { unsafe { listed(f::mqtt_tls_engine_take_events_list(self.0)) } }
    fn up(&mut self) -> bool { unsafe { f::mqtt_tls_engine_is_connected(self.0) != 0 } }
    fn view(&self, e: &MqttEvent) -> Option<String> { to_ffi(e).map(|e| seen(&e)) }
    fn has(&self, c: &Cmd) -> bool { !matches!(c, Cmd::Lost | Cmd::Auth(_) | Cmd::Publish(_, _, _, Some(_))) }
}
fn to_ffi(e: &MqttEvent) -> Option<t::MqttEventFFI> {
    use t::MqttEventFFI as F;
    use MqttEvent::*;
    Some(match e {
        Connected(x) => F::Connected(t::ConnectionResultFFI { reason_code: x.reason_code, session_present: x.session_present }),
        Disconnected(x) => F::Disconnected { reason_code: *x },
        Published(x) => F::Published(t::PublishResultFFI { packet_id: x.packet_id, reason_code: x.reason_code, qos: x.qos }),
        Subscribed(x) => F::Subscribed(t::SubscribeResultFFI { packet_id: x.packet_id, reason_codes: x.reason_codes.clone() }),
        Unsubscribed(x) => F::Unsubscribed(t::UnsubscribeResultFFI { packet_id: x.packet_id, reason_codes: x.reason_codes.clone() }),
        MessageReceived(m) => F::MessageReceived(t::MqttMessageFFI { topic: m.topic_name.clone(), payload: m.payload.clone(), qos: m.qos, retain: m.retain }),
        PingResponse(x) => F::PingResponse { success: x.success },
        Error(x) => F::Error { message: format!("{x:?}") },
        StreamClosed { stream_id, reason, by_peer } => F::StreamClosed { stream_id: *stream_id, reason: reason.clone(), by_peer: *by_peer },
        StreamReset { stream_id, error_code } => F::StreamReset { stream_id: *stream_id, error_code: *error_code },
        StreamStopped { stream_id, error_code } => F::StreamStopped { stream_id: *stream_id, error_code: *error_code },
        ReconnectNeeded => F::ReconnectNeeded,
        ReconnectScheduled { attempt, delay } => F::ReconnectScheduled { attempt: *attempt, delay_ms: delay.as_millis() as u64 },
        PublishReceived { .. } | PubRelReceived { .. } | TransportClosed { .. } | ZeroRttStatusChanged { .. } => return None,
    })
}

// ---- the other side
#[derive(Debug)]
struct Any(Arc<rustls::crypto::CryptoProvider>);
impl rustls::client::danger::ServerCertVerifier for Any {
    fn verify_server_cert(&self, _: &rustls::pki_types::CertificateDer<'_>, _: &[rustls::pki_types::CertificateDer<'_>], _: &rustls::pki_types::ServerName<'_>, _: &[u8], _: rustls::pki_types::UnixTime) -> Result<rustls::client::danger::ServerCertVerified, rustls::Error> { Ok(rustls::client::danger::ServerCertVerified::assertion()) }
    fn verify_tls12_signature(&self, m: &[u8], c: &rustls::pki_types::CertificateDer<'_>, d: &rustls::DigitallySignedStruct) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> { rustls::crypto::verify_tls12_signature(m, c, d, &self.0.signature_verification_algorithms) }
    fn verify_tls13_signature(&self, m: &[u8], c: &rustls::pki_types::CertificateDer<'_>, d: &rustls::DigitallySignedStruct) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> { rustls::crypto::verify_tls13_signature(m, c, d, &self.0.signature_verification_algorithms) }
    fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> { self.0.signature_verification_algorithms.supported_schemes() }
}
thread_local! {
    static CLIENT: Arc<rustls::ClientConfig> = {
        let p = Arc::new(rustls::crypto::ring::default_provider());
        Arc::new(rustls::ClientConfig::builder_with_provider(p.clone()).with_safe_default_protocol_versions().unwrap().dangerous().with_custom_certificate_verifier(Arc::new(Any(p))).with_no_client_auth())
    };
    static SERVER: Arc<rustls::ServerConfig> = {
        let p = Arc::new(rustls::crypto::ring::default_provider());
        let mut c = rustls::ServerConfig::builder_with_provider(p).with_safe_default_protocol_versions().unwrap().with_no_client_auth()
            .with_single_cert(vec![rustls::pki_types::CertificateDer::from(include_bytes!("cert.der").to_vec())], rustls::pki_types::PrivateKeyDer::try_from(include_bytes!("key.der").to_vec()).unwrap()).unwrap();
        c.alpn_protocols = vec![b"mqtt".to_vec()];
        Arc::new(c)
    };
}
struct Wire { s: rustls::ServerConnection, back: Vec<u8> }
impl Wire {
    fn new() -> Wire {
        let mut s = rustls::ServerConnection::new(SERVER.with(|s| s.clone())).unwrap();
        s.set_buffer_limit(None);
        Wire { s, back: vec![] }
    }
    /// what the client sent arrives; the plaintext in it
    fn take(&mut self, mut b: &[u8]) -> Result<Vec<u8>, Fail> {
        let mut out = vec![];
        let mut part = [0u8; 4096];
        while !b.is_empty() {
            match self.s.read_tls(&mut b) { Ok(0) => break, Ok(_) => {} Err(e) => return fail("server", format!("the server cannot read the TLS data: {e}")) }
            if let Err(e) = self.s.process_new_packets() { return fail("server", format!("the server refuses the TLS data: {e}")); }
            while let Ok(n) = self.s.reader().read(&mut part) { if n == 0 { break; } out.extend_from_slice(&part[..n]); }
        }
        self.flush();
        Ok(out)
    }
    fn say(&mut self, b: &[u8]) { self.s.writer().write_all(b).unwrap(); self.flush(); }
    fn flush(&mut self) { while self.s.wants_write() { self.s.write_tls(&mut self.back).unwrap(); } }
}

/// a server of sorts: answers what it reads, and says things of its own
fn answers(r: &mut Rng, p: &P, v5: bool) -> Vec<P> {
    if r.chance(1, 12) { return vec![]; }
    let reason = if r.chance(1, 8) { 0x80 } else { 0 };
    match p {
        P::Connect5(_) => vec![P::ConnAck5(mqttv5::connackv5::MqttConnAck { session_present: r.bool(), reason_code: if r.chance(1, 10) { 0x87 } else { 0 }, properties: Some(vec![]) })],
        P::Connect3(_) => vec![P::ConnAck3(mqttv3::connackv3::MqttConnAck { session_present: r.bool(), return_code: if r.chance(1, 10) { 5 } else { 0 } })],
        P::Publish5(x) if x.qos == 1 => vec![P::PubAck5(mqttv5::pubackv5::MqttPubAck::new(x.packet_id.unwrap_or(1), reason, vec![]))],
        P::Publish5(x) if x.qos == 2 => vec![P::PubRec5(mqttv5::pubrecv5::MqttPubRec::new(x.packet_id.unwrap_or(1), reason, vec![]))],
        P::Publish3(x) if x.qos == 1 => vec![P::PubAck3(mqttv3::pubackv3::MqttPubAck::new(x.message_id.unwrap_or(1)))],
        P::Publish3(x) if x.qos == 2 => vec![P::PubRec3(mqttv3::pubrecv3::MqttPubRec::new(x.message_id.unwrap_or(1)))],
        P::PubRel5(x) => vec![P::PubComp5(mqttv5::pubcompv5::MqttPubComp::new(x.packet_id, 0, vec![]))],
        P::PubRel3(x) => vec![P::PubComp3(mqttv3::pubcompv3::MqttPubComp::new(x.message_id))],
        P::Subscribe5(x) => vec![P::SubAck5(mqttv5::subackv5::MqttSubAck::new(x.packet_id, vec![if reason == 0 { r.below(3) as u8 } else { reason }], vec![]))],
        P::Subscribe3(x) => vec![P::SubAck3(mqttv3::subackv3::MqttSubAck::new(x.message_id, vec![if reason == 0 { r.below(3) as u8 } else { reason }]))],
        P::Unsubscribe5(x) => vec![P::UnsubAck5(mqttv5::unsubackv5::MqttUnsubAck::new(x.packet_id, vec![reason], vec![]))],
        P::Unsubscribe3(x) => vec![P::UnsubAck3(mqttv3::unsubackv3::MqttUnsubAck::new(x.message_id))],
        P::PingReq5(_) | P::PingReq3(_) => { let _ = v5; vec![if v5 { P::PingResp5(mqttv5::pingrespv5::MqttPingResp::new()) } else { P::PingResp3(mqttv3::pingrespv3::MqttPingResp::new()) }] }
        _ => vec![],
    }
}
fn message(r: &mut Rng, v5: bool, n: usize) -> Vec<u8> {
    let qos = r.below(3) as u8;
    let id = if qos == 0 { None } else { Some(gen::id(r)) };
    let topic_name = gen::topic(r, false);
    let payload = r.bytes(n);
    let retain = r.bool();
    let p = if v5 { P::Publish5(mqttv5::publishv5::MqttPublish { topic_name, qos, retain, dup: false, packet_id: id, payload, properties: vec![] }) }
        else { P::Publish3(mqttv3::publishv3::MqttPublish { topic_name, qos, retain, dup: false, message_id: id, payload }) };
    p.to_bytes().unwrap_or_default()
}

struct Run<'a> {
    s: &'a mut dyn Subject,
    r: MqttEngine,
    start: Instant,
    wire: Option<Wire>,
    parser: MqttParser,
    v5: bool,
    ms: u64,
    /// for the subject and not yet delivered; behind TLS: delivered and not yet ticked
    plain: Vec<u8>,
    sent: Vec<u8>,
    got: Vec<u8>,
    queue: Vec<String>,
    dead: bool,
}
fn same<T: PartialEq + std::fmt::Debug>(key: &str, what: &str, a: &T, b: &T) -> R {
    if a != b { return fail(key, format!("{what}: engine {} but {}", cut(&format!("{b:?}")), cut(&format!("{a:?}")))); }
    Ok(())
}
impl Run<'_> {
    fn cmd(&mut self, c: &Cmd) -> R {
        if !self.s.has(c) { return Ok(()); }
        let a = self.s.cmd(c);
        let b = apply(&mut self.r, c);
        same("command", &format!("result of {}", cut(&format!("{c:?}"))), &a, &b)
    }
    fn views(&mut self, v: Vec<MqttEvent>) -> Vec<String> { v.iter().filter_map(|e| self.s.view(e)).collect() }
    /// events the calls `got` returned
    fn report(&mut self, got: Option<Vec<String>>, want: Vec<String>, what: &str) -> R {
        if let Some(g) = got { same("events", &format!("events of {what}"), &g, &want)?; }
        if self.s.again() { self.queue.extend(want); }
        Ok(())
    }
    fn say(&mut self, b: &[u8], r: &mut Rng) -> R {
        match &mut self.wire {
            None => {
                for part in cuts(r, b) {
                    let got = self.s.incoming(&part);
                    let want = self.r.handle_incoming(&part);
                    let want = self.views(want);
                    self.report(got, want, "handle_incoming")?;
                }
            }
            Some(w) if w.s.is_handshaking() => {}
            Some(w) => { w.say(b); self.plain.extend_from_slice(b); self.deliver(r)?; }
        }
        Ok(())
    }
    /// TLS data from the server reaches the subject
    fn deliver(&mut self, r: &mut Rng) -> R {
        let Some(w) = &mut self.wire else { return Ok(()) };
        let b = std::mem::take(&mut w.back);
        for part in cuts(r, &b) { if let Some(e) = self.s.incoming(&part) { return fail("socket", format!("{}", e.join(" "))); } }
        Ok(())
    }
    fn tick(&mut self, dt: u64) -> R {
        self.ms += dt;
        clock::advance(Duration::from_millis(dt));
        let now = self.start + Duration::from_millis(self.ms);
        let got = self.s.tick(self.ms);
        let mut want = vec![];
        if self.wire.is_some() {
            if !self.plain.is_empty() { let p = std::mem::take(&mut self.plain); want = self.r.handle_incoming(&p); }
            let o = self.r.take_outgoing();
            self.sent.extend(o);
        }
        want.extend(self.r.handle_tick(now));
        let want = self.views(want);
        self.report(got, want, "handle_tick")
    }
    fn flush(&mut self, r: &mut Rng) -> R {
        match &mut self.wire {
            None => { let b = self.s.outgoing(); self.got.extend(b); let o = self.r.take_outgoing(); self.sent.extend(o); }
            Some(_) => loop {
                let b = self.s.outgoing();
                if b.is_empty() { break; }
                let w = self.wire.as_mut().unwrap();
                let p = w.take(&b)?;
                self.got.extend(p);
                self.deliver(r)?;
            }
        }
        if self.got != self.sent { return fail("outgoing", format!("the engine gave out {} bytes, {} bytes arrived; first difference at {:?}", self.sent.len(), self.got.len(), self.sent.iter().zip(&self.got).position(|(a, b)| a != b))); }
        Ok(())
    }
    fn events(&mut self) -> R {
        let got = self.s.events();
        let mut want = std::mem::take(&mut self.queue);
        let v = self.r.take_events();
        want.extend(self.views(v));
        same("events", "take_events", &got, &want)
    }
    fn answer(&mut self, r: &mut Rng) -> R {
        let b = std::mem::take(&mut self.got);
        self.sent.clear();
        self.parser.feed(&b);
        let mut out = vec![];
        while !self.dead { match self.parser.next_packet() { Ok(Some(p)) => for a in answers(r, &p, self.v5) { out.extend(a.to_bytes().unwrap_or_default()); }, Ok(None) => break, Err(_) => self.dead = true } }
        if !out.is_empty() { self.say(&out, r)?; }
        Ok(())
    }
    fn look(&mut self) -> R {
        let (a, b) = (self.s.up(), self.r.is_connected());
        same("connected", "is_connected", &a, &b)?;
        if let Some(n) = self.s.next() {
            let w = match self.r.next_tick_at() { None => -1, Some(t) => t.saturating_duration_since(self.start).as_millis() as i64 };
            same("next_tick", "next_tick_ms", &n, &w)?;
        }
        Ok(())
    }
}
fn cuts(r: &mut Rng, b: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut i = 0;
    let whole = r.chance(2, 3);
    while i < b.len() {
        let n = if whole { b.len() - i } else { let m = *r.pick(&[1usize, 5, 300, 5000, 70000]); r.range(1, m).min(b.len() - i) };
        out.push(b[i..i + n].to_vec());
        i += n;
    }
    out
}
fn size(r: &mut Rng, big: bool) -> usize { if big && r.chance(1, 5) { r.range(1, 200_000) } else { let m = *r.pick(&[0usize, 3, 40, 3000]); r.range(0, m) } }
fn session(c: &mut Case, s: &mut dyn Subject, o: &O, start: Instant, tls: bool) -> R {
    let v5 = o.version == 5;
    let mut r = c.rng.clone();
    let mut u = Run { s, r: MqttEngine::new(native(o)), start, wire: if tls { Some(Wire::new()) } else { None }, parser: MqttParser::new(16384, if v5 { 5 } else { 4 }), v5, ms: 0, plain: vec![], sent: vec![], got: vec![], queue: vec![], dead: false };
    let big = r.chance(1, 4);
    if r.chance(9, 10) { u.cmd(&Cmd::Connect)?; }
    let n = r.range(2, 30);
    let mut log = format!("{o:?}:");
    for _ in 0..n {
        let k = r.below(16);
        log += &format!(" {k}");
        match k {
            0..=3 => { let d = *r.pick(&[0u64, 1, 10, 500, 1500, 6000, 61000]); u.tick(d)?; u.flush(&mut r)?; u.answer(&mut r)?; u.tick(0)?; }
            4..=6 => { let p = Cmd::Publish(if r.chance(1, 8) { "x".repeat(65536) } else { gen::topic(&mut r, false) }, { let n = size(&mut r, big); r.bytes(n) }, r.below(3) as u8, if r.bool() { Some(r.u8()) } else { None }); u.cmd(&p)?; }
            7 => { let p = Cmd::Subscribe(gen::filter(&mut r), r.below(3) as u8); u.cmd(&p)?; }
            8 => { let p = Cmd::Unsubscribe(gen::filter(&mut r)); u.cmd(&p)?; }
            9 | 10 => { let m = r.range(1, 4); let mut b = vec![]; for _ in 0..m { let n = size(&mut r, big); b.extend(message(&mut r, v5, n)); } u.say(&b, &mut r)?; u.tick(0)?; }
            11 => { let p = gen::packet(&mut r, v5, false); if let Ok(b) = p.to_bytes() { u.say(&b, &mut r)?; } }
            12 => { u.events()?; }
            13 => { if r.chance(1, 3) { u.cmd(&Cmd::Disconnect)?; } }
            14 => { if r.chance(1, 3) { u.cmd(&Cmd::Lost)?; } else { let a = r.u8(); u.cmd(&Cmd::Auth(a))?; } }
            _ => { if r.chance(1, 4) { u.cmd(&Cmd::Connect)?; } }
        }
        u.look()?;
    }
    u.tick(0)?;
    u.flush(&mut r)?;
    u.events()?;
    u.look()?;
    c.note(cut(&log));
    Ok(())
}
fn ascii(r: &mut Rng, o: &mut O) { let _ = r; for s in [Some(&mut o.id), o.user.as_mut(), o.pass.as_mut()].into_iter().flatten() { s.retain(|c| c != '\0'); } }
fn tls(c: &mut Case) -> R {
    let start = clock::start();
    let o = opts(&mut c.rng);
    let mut s = Tls { e: TlsMqttEngine::new(native(&o), "localhost", CLIENT.with(|c| c.clone())).unwrap(), start };
    session(c, &mut s, &o, start, true)
}
fn object(c: &mut Case) -> R {
    let start = clock::start();
    let mut o = opts(&mut c.rng);
    let mut s = if c.rng.chance(1, 5) {
        let d = MqttClientOptions::default();
        o.clean = d.clean_start; o.keep = d.keep_alive; o.user = None; o.pass = None; o.base = d.reconnect_base_delay_ms; o.max = d.reconnect_max_delay_ms; o.tries = d.max_reconnect_attempts;
        let id = if c.rng.bool() { o.id = d.client_id; None } else { Some(o.id.clone()) };
        f::MqttEngineFFI::new(id, o.version)
    } else { f::MqttEngineFFI::new_with_opts(ffi_opts(&o)) };
    same("version", "get_version", &s.get_version(), &MqttEngine::new(native(&o)).mqtt_version())?;
    session(c, &mut s, &o, start, false)
}
fn cfns(x: &mut Case) -> R {
    let start = clock::start();
    let mut o = opts(&mut x.rng);
    ascii(&mut x.rng, &mut o);
    let (i, u, p) = (c(&o.id), o.user.as_deref().map(c), o.pass.as_deref().map(c));
    let nul = x.rng.chance(1, 6);
    if nul { o.id = "mqtt_client".into(); }
    let q = |x: &Option<CString>| x.as_ref().map_or(std::ptr::null(), |s| s.as_ptr());
    let m = f::MqttOptionsC { client_id: if nul { std::ptr::null() } else { i.as_ptr() }, mqtt_version: o.version, clean_start: o.clean, keep_alive: o.keep, username: q(&u), password: q(&p), reconnect_base_delay_ms: o.base, reconnect_max_delay_ms: o.max, max_reconnect_attempts: o.tries };
    let mut s = C(unsafe { f::mqtt_engine_new_with_opts(&m) });
    same("version", "mqtt_engine_get_version", &unsafe { f::mqtt_engine_get_version(s.0) }, &MqttEngine::new(native(&o)).mqtt_version())?;
    session(x, &mut s, &o, start, false)
}
fn tls_opts() -> t::MqttTlsOptionsFFI { t::MqttTlsOptionsFFI { ca_cert_file: None, client_cert_file: None, client_key_file: None, insecure_skip_verify: true, alpn_protocols: vec![], enable_key_log: false } }
fn tls_object(c: &mut Case) -> R {
    let start = clock::start();
    let o = opts(&mut c.rng);
    let mut s = f::TlsMqttEngineFFI::new(ffi_opts(&o), tls_opts(), "localhost".into());
    session(c, &mut s, &o, start, true)
}
fn tls_c(x: &mut Case) -> R {
    let start = clock::start();
    let mut o = opts(&mut x.rng);
    ascii(&mut x.rng, &mut o);
    o.clean = true; o.keep = 60; o.user = None; o.pass = None; o.base = 1000; o.max = 30000; o.tries = 0;
    let i = c(&o.id);
    let m = f::MqttTlsOptionsC { ca_cert_file: std::ptr::null(), client_cert_file: std::ptr::null(), client_key_file: std::ptr::null(), alpn: std::ptr::null(), insecure_skip_verify: 1, enable_key_log: 0 };
    let mut s = CTls(unsafe { f::mqtt_tls_engine_new(i.as_ptr(), o.version, std::ptr::null(), &m) });
    session(x, &mut s, &o, start, true)
}
fn bulk(c: &mut Case) -> R {
    let start = clock::start();
    let mut o = opts(&mut c.rng);
    o.version = *c.rng.pick(&[4, 5]);
    let v5 = o.version == 5;
    let mut s = Tls { e: TlsMqttEngine::new(native(&o), "localhost", CLIENT.with(|c| c.clone())).unwrap(), start };
    let mut r = c.rng.clone();
    let mut u = Run { s: &mut s, r: MqttEngine::new(native(&o)), start, wire: Some(Wire::new()), parser: MqttParser::new(16384, if v5 { 5 } else { 4 }), v5, ms: 0, plain: vec![], sent: vec![], got: vec![], queue: vec![], dead: false };
    u.cmd(&Cmd::Connect)?;
    let early = r.bool();
    let big = Cmd::Publish("bulk".into(), vec![7; r.range(60_000, 200_000)], 0, None);
    if early { u.cmd(&big)?; }
    for _ in 0..4 { u.tick(0)?; u.flush(&mut r)?; }
    let up = if v5 { P::ConnAck5(mqttv5::connackv5::MqttConnAck { session_present: false, reason_code: 0, properties: Some(vec![]) }) } else { P::ConnAck3(mqttv3::connackv3::MqttConnAck { session_present: false, return_code: 0 }) };
    u.say(&up.to_bytes().unwrap_or_default(), &mut r)?;
    u.tick(0)?;
    u.cmd(&big)?;
    u.tick(0)?;
    u.flush(&mut r)?;
    let n = r.range(1, 60);
    let mut b = vec![];
    for _ in 0..n { b.extend(message(&mut r, v5, 2000)); }
    let w = u.wire.as_mut().unwrap();
    w.say(&b);
    u.plain.extend_from_slice(&b);
    let all = std::mem::take(&mut u.wire.as_mut().unwrap().back);
    if let Some(e) = u.s.incoming(&all) { return fail("socket", format!("{}", e.join(" "))); }
    u.tick(0)?;
    u.flush(&mut r)?;
    u.events()?;
    c.note(format!("{} messages in one piece of {} bytes, early {early}", n, all.len()));
    Ok(())
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let o = fw::Opts::parse(&a);
    let s = suites(&o.prop);
    if s.is_empty() { eprintln!("no suites for {}", o.prop); std::process::exit(2); }
    std::process::exit(fw::run(s, o));
}
