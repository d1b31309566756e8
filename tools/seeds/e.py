import importlib.util
s = importlib.util.spec_from_file_location("d", __file__.replace("e.py", "d.py")); d = importlib.util.module_from_spec(s); s.loader.exec_module(d)
QUIC = r'''
use flowsdk::mqtt_client::commands::{PublishCommand, SubscribeCommand};
use flowsdk::mqtt_client::engine::QuicMqttEngine;
use flowsdk::mqtt_client::opts::MqttClientOptions;
use quinn_proto::{Connection, ConnectionHandle, DatagramEvent, Dir, Endpoint, EndpointConfig, ServerConfig, StreamId, TransportConfig, VarInt};
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;
use std::sync::Arc;
use std::time::{Duration, Instant};
#[derive(Debug)]
struct Any(Arc<rustls::crypto::CryptoProvider>);
impl rustls::client::danger::ServerCertVerifier for Any {
    fn verify_server_cert(&self, _: &rustls::pki_types::CertificateDer<'_>, _: &[rustls::pki_types::CertificateDer<'_>], _: &rustls::pki_types::ServerName<'_>, _: &[u8], _: rustls::pki_types::UnixTime) -> Result<rustls::client::danger::ServerCertVerified, rustls::Error> { Ok(rustls::client::danger::ServerCertVerified::assertion()) }
    fn verify_tls12_signature(&self, m: &[u8], c: &rustls::pki_types::CertificateDer<'_>, d: &rustls::DigitallySignedStruct) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> { rustls::crypto::verify_tls12_signature(m, c, d, &self.0.signature_verification_algorithms) }
    fn verify_tls13_signature(&self, m: &[u8], c: &rustls::pki_types::CertificateDer<'_>, d: &rustls::DigitallySignedStruct) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> { rustls::crypto::verify_tls13_signature(m, c, d, &self.0.signature_verification_algorithms) }
    fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> { self.0.signature_verification_algorithms.supported_schemes() }
}
/// the engine, and a server in this process
struct Q { e: QuicMqttEngine, ep: Endpoint, h: Option<(ConnectionHandle, Connection)>, now: Instant, got: BTreeMap<u64, Vec<u8>>, ended: BTreeSet<u64>, stop: Option<u64>, say: BTreeMap<u64, Vec<u8>>, kept: Vec<Vec<u8>> }
fn addr(s: &str) -> SocketAddr { s.parse().unwrap() }
impl Q {
    fn new(window: u32) -> Q {
        let p = Arc::new(rustls::crypto::ring::default_provider());
        let mut c = rustls::ServerConfig::builder_with_provider(p.clone()).with_protocol_versions(&[&rustls::version::TLS13]).unwrap().with_no_client_auth()
            .with_single_cert(vec![rustls::pki_types::CertificateDer::from(include_bytes!("cert.der").to_vec())], rustls::pki_types::PrivateKeyDer::try_from(include_bytes!("key.der").to_vec()).unwrap()).unwrap();
        c.alpn_protocols = vec![b"mqtt".to_vec()];
        let mut sc = ServerConfig::with_crypto(Arc::new(quinn_proto::crypto::rustls::QuicServerConfig::try_from(c).unwrap()));
        let mut t = TransportConfig::default();
        t.stream_receive_window(VarInt::from_u32(window));
        sc.transport_config(Arc::new(t));
        let ep = Endpoint::new(Arc::new(EndpointConfig::default()), Some(Arc::new(sc)), true, None);
        let mut e = QuicMqttEngine::new(MqttClientOptions::builder().client_id("c").mqtt_version(5).build()).unwrap();
        let now = Instant::now();
        let tls = rustls::ClientConfig::builder_with_provider(p.clone()).with_protocol_versions(&[&rustls::version::TLS13]).unwrap().dangerous().with_custom_certificate_verifier(Arc::new(Any(p))).with_no_client_auth();
        e.connect(addr("127.0.0.1:14567"), "localhost", tls, now).unwrap();
        let mut q = Q { e, ep, h: None, now, got: BTreeMap::new(), ended: BTreeSet::new(), stop: None, say: BTreeMap::new(), kept: vec![] };
        for _ in 0..50 { q.round(); if q.got.get(&0).is_some_and(|b| !b.is_empty()) { break; } }
        q.say.insert(0, vec![0x20, 3, 0, 0, 0]);
        for _ in 0..10 { q.round(); }
        assert!(q.e.open_data_stream().is_ok(), "no session");
        q
    }
    /// the engine's datagrams to the server; what the server answers is kept
    fn there(&mut self) {
        self.now += Duration::from_millis(2);
        let mut buf = vec![];
        for (_, d) in self.e.take_outgoing_datagrams() {
            buf.clear();
            match self.ep.handle(self.now, addr("127.0.0.1:40000"), None, None, bytes::BytesMut::from(&d[..]), &mut buf) {
                Some(DatagramEvent::NewConnection(i)) => { buf.clear(); self.h = self.ep.accept(i, self.now, &mut buf, None).ok(); }
                Some(DatagramEvent::ConnectionEvent(_, e)) => self.h.as_mut().unwrap().1.handle_event(e),
                _ => {}
            }
        }
        let Some((h, mut k)) = self.h.take() else { return };
        if k.poll_timeout().is_some_and(|t| t <= self.now) { k.handle_timeout(self.now); }
        while k.poll().is_some() {}
        while let Some(s) = k.streams().accept(Dir::Bi) { self.got.insert(u64::from(s), vec![]); }
        for (s, b) in self.got.iter_mut() {
            let id = StreamId::from(VarInt::from_u64(*s).unwrap());
            if self.stop == Some(*s) { let _ = k.recv_stream(id).stop(VarInt::from_u32(7)); continue; }
            if let Ok(mut ch) = k.recv_stream(id).read(true) {
                loop { match ch.next(65536) { Ok(Some(x)) => b.extend_from_slice(&x.bytes), Ok(None) => { self.ended.insert(*s); break } Err(_) => break } }
                let _ = ch.finalize();
            }
        }
        for (s, b) in std::mem::take(&mut self.say) { k.send_stream(StreamId::from(VarInt::from_u64(s).unwrap())).write(&b).unwrap(); }
        while let Some(e) = k.poll_endpoint_events() { if let Some(x) = self.ep.handle_event(h, e) { k.handle_event(x); } }
        let mut buf = vec![];
        while k.poll_transmit(self.now, 1, &mut buf).is_some() { self.kept.push(std::mem::take(&mut buf)); }
        self.h = Some((h, k));
    }
    /// the server's datagrams to the engine, and a tick
    fn back(&mut self) {
        for d in std::mem::take(&mut self.kept) { self.e.handle_datagram(d, addr("127.0.0.1:14567"), self.now); }
        self.e.handle_tick(self.now);
    }
    fn round(&mut self) { self.there(); self.back(); }
}
'''
def P(*x):
    b = d.P(*x)
    b["demo"] = QUIC + x[5].strip()
    b["sh"] = b["sh"].replace('ring"] }\n\nEOF', 'ring"] }\nquinn-proto = { version = "0.11", default-features = false, features = ["rustls", "ring"] }\nbytes = "1"\n\nEOF')
    assert b["sh"].count("quinn-proto") >= 2
    return b
F = "src/mqtt_client/engine.rs"
BUGS = [
P("c33-fin", "C33",
  [(F, """                // Deferred FIN: finish the send side only once all buffered bytes
                // have actually been written, so queued publishes are not lost.
                if ds.finishing && !ds.finished && ds.outgoing.is_empty() {""", """                // Deferred FIN: finish the send side once the buffered bytes have
                // been handed to the stream.
                if ds.finishing && !ds.finished {""")],
  "a stream finished while its flow control takes only part of what is queued on it", "the stream ends in the middle of a packet",
  '''
fn main() {
    let mut q = Q::new(1000);
    let s = q.e.open_data_stream().unwrap();
    q.e.publish_on(s, PublishCommand::simple("a/b", vec![7; 5000], 0, false)).unwrap();
    q.e.finish_stream(s).unwrap();
    for _ in 0..200 { q.round(); }
    assert!(q.ended.contains(&s), "never ended");
    assert!(q.got[&s].len() > 5000, "the server read {} bytes before the end", q.got[&s].len());
}'''),
P("c33-answer", "C33",
  [(F, "                    if !ds.finished {\n                        ds.outgoing.extend_from_slice(&resp);", "                    if !ds.finishing && !ds.finished {\n                        ds.outgoing.extend_from_slice(&resp);")],
  "a QoS 1 message read by the tick that is about to finish its stream", "its acknowledgement is dropped although the stream could still carry it",
  '''
fn main() {
    let mut q = Q::new(100000);
    let s = q.e.open_data_stream().unwrap();
    q.e.publish_on(s, PublishCommand::simple("a/b", vec![1], 0, false)).unwrap();
    for _ in 0..5 { q.round(); }
    q.say.insert(s, vec![0x32, 7, 0, 1, b'a', 0, 9, 0, b'x']);
    q.there();
    q.e.finish_stream(s).unwrap();
    for _ in 0..10 { q.back(); q.there(); }
    assert!(q.ended.contains(&s));
    let b = &q.got[&s];
    assert!(b.len() > 4 && b.windows(4).any(|w| w == [0x40, 2, 0, 9]), "no PUBACK 9 in {b:x?}");
}'''),
P("c33-stopped", "C33",
  [(F, "        if *default_sub_stream == Some(stream_id) {\n            *default_sub_stream = None;", "        else if *default_sub_stream == Some(stream_id) && data_streams.is_empty() {\n            *default_sub_stream = None;")],
  "the server refuses the default subscribe stream while another data stream is open", "later subscriptions are accepted and sent nowhere",
  '''
fn main() {
    let mut q = Q::new(100000);
    q.e.publish(PublishCommand::simple("a/b", vec![1], 0, false)).unwrap();
    q.e.subscribe(SubscribeCommand::single("a/b", 1)).unwrap();
    for _ in 0..5 { q.round(); }
    let s = *q.got.iter().find(|(_, b)| b.first() == Some(&0x82)).expect("no SUBSCRIBE").0;
    q.stop = Some(s);
    for _ in 0..5 { q.round(); }
    if q.e.subscribe(SubscribeCommand::single("c/d", 1)).is_ok() {
        for _ in 0..10 { q.round(); }
        assert!(q.got.iter().any(|(t, b)| *t != s && b.first() == Some(&0x82)), "the second SUBSCRIBE was accepted and never sent");
    }
}'''),
]
