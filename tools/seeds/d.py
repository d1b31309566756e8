import importlib.util
s = importlib.util.spec_from_file_location("a", __file__.replace("d.py", "a.py")); a = importlib.util.module_from_spec(s); s.loader.exec_module(a)
B = a.B
SH = r'''#!/bin/bash
# run with cwd = flowsdk source tree: builds the library from ./src with demo.rs beside this file, and runs it
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'case "$T" in /tmp/*) rm -rf "$T";; esac' EXIT
mkdir -p "$T/demo"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "flowsdk"
version = "0.5.3"
edition = "2021"
build = false
[lib]
path = "$R/src/lib.rs"
[dependencies]
tokio = { version = "1.0", features = ["sync", "time", "io-util", "macros", "rt-multi-thread", "net"] }
serde = { version = "1.0.218", features = ["derive"] }
hex = "0.4"
bytes = { version = "1", features = ["serde"] }
serde_json = "1.0"
slab = "0.4.11"
async-trait = "0.1"
thiserror = "1.0"
ctrlc = "3.4"
tokio-stream = "0.1"
rustls = { version = "0.23", default-features = false, features = ["std", "ring"] }
rustls-native-certs = "0.7"
rustls-pki-types = "1"
tokio-rustls = "0.26"
quinn-proto = { version = "0.11", default-features = false, features = ["rustls", "ring"] }
[features]
default = ["strict-protocol-compliance", "rustls-tls", "async-client", "quic-proto"]
strict-protocol-compliance = []
protocol-testing = []
tls = []
quic = []
quic-proto = []
rustls-tls = []
async-client = []
grpc = []
arbitrary = []
EOF
@FFI@
cat > "$T/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[[bin]]
name = "demo"
path = "$D/demo.rs"
[dependencies]
flowsdk = { path = ".." }
rustls = { version = "0.23", default-features = false, features = ["std", "ring"] }
@DEP@
EOF
cp "$D/lock" "$T/demo/Cargo.lock"
cd "$T/demo"
export CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$T/target}"
cargo build --offline -q --bin demo
"$CARGO_TARGET_DIR/debug/demo"
'''
FFI = r'''mkdir -p "$T/ffi"
cat > "$T/ffi/Cargo.toml" <<EOF
[package]
name = "flowsdk_ffi"
version = "0.5.3"
edition = "2021"
[lib]
path = "$R/flowsdk_ffi/src/lib.rs"
[dependencies]
flowsdk = { path = ".." }
libc = "0.2"
rustls = { version = "0.23", default-features = false, features = ["std", "ring"] }
rustls-pemfile = "2.1"
rustls-native-certs = "0.7"
rustls-pki-types = "1"
quinn-proto = { version = "0.11", default-features = false, features = ["rustls", "ring"] }
[features]
default = []
tls = []
quic = []
EOF'''
WIRE = r'''
use flowsdk::mqtt_client::opts::MqttClientOptions;
use flowsdk::mqtt_client::tls_engine::TlsMqttEngine;
use std::io::{Read, Write};
use std::sync::Arc;
#[derive(Debug)]
struct Any(Arc<rustls::crypto::CryptoProvider>);
impl rustls::client::danger::ServerCertVerifier for Any {
    fn verify_server_cert(&self, _: &rustls::pki_types::CertificateDer<'_>, _: &[rustls::pki_types::CertificateDer<'_>], _: &rustls::pki_types::ServerName<'_>, _: &[u8], _: rustls::pki_types::UnixTime) -> Result<rustls::client::danger::ServerCertVerified, rustls::Error> { Ok(rustls::client::danger::ServerCertVerified::assertion()) }
    fn verify_tls12_signature(&self, m: &[u8], c: &rustls::pki_types::CertificateDer<'_>, d: &rustls::DigitallySignedStruct) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> { rustls::crypto::verify_tls12_signature(m, c, d, &self.0.signature_verification_algorithms) }
    fn verify_tls13_signature(&self, m: &[u8], c: &rustls::pki_types::CertificateDer<'_>, d: &rustls::DigitallySignedStruct) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> { rustls::crypto::verify_tls13_signature(m, c, d, &self.0.signature_verification_algorithms) }
    fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> { self.0.signature_verification_algorithms.supported_schemes() }
}
fn client(o: MqttClientOptions) -> TlsMqttEngine {
    let p = Arc::new(rustls::crypto::ring::default_provider());
    let c = rustls::ClientConfig::builder_with_provider(p.clone()).with_safe_default_protocol_versions().unwrap().dangerous().with_custom_certificate_verifier(Arc::new(Any(p))).with_no_client_auth();
    TlsMqttEngine::new(o, "localhost", Arc::new(c)).unwrap()
}
fn server() -> rustls::ServerConnection {
    let p = Arc::new(rustls::crypto::ring::default_provider());
    let c = rustls::ServerConfig::builder_with_provider(p).with_safe_default_protocol_versions().unwrap().with_no_client_auth()
        .with_single_cert(vec![rustls::pki_types::CertificateDer::from(include_bytes!("cert.der").to_vec())], rustls::pki_types::PrivateKeyDer::try_from(include_bytes!("key.der").to_vec()).unwrap()).unwrap();
    rustls::ServerConnection::new(Arc::new(c)).unwrap()
}
/// moves what either side has to send; the plaintext the server read
fn pump(e: &mut TlsMqttEngine, s: &mut rustls::ServerConnection) -> Vec<u8> {
    let mut out = vec![];
    for _ in 0..10 {
        let d = e.take_socket_data();
        let mut b = &d[..];
        while !b.is_empty() {
            s.read_tls(&mut b).unwrap();
            s.process_new_packets().unwrap();
            let mut part = [0u8; 4096];
            while let Ok(n) = s.reader().read(&mut part) { if n == 0 { break; } out.extend_from_slice(&part[..n]); }
        }
        let mut back = vec![];
        while s.wants_write() { s.write_tls(&mut back).unwrap(); }
        e.handle_socket_data(&back).unwrap();
    }
    out
}
'''
FFIWIRE = r"""
use flowsdk_ffi::engine::*;
use flowsdk_ffi::engine::ffi_types::*;
use std::io::{Read, Write};
use std::sync::Arc;
fn server() -> rustls::ServerConnection {
    let p = Arc::new(rustls::crypto::ring::default_provider());
    let c = rustls::ServerConfig::builder_with_provider(p).with_safe_default_protocol_versions().unwrap().with_no_client_auth()
        .with_single_cert(vec![rustls::pki_types::CertificateDer::from(include_bytes!("cert.der").to_vec())], rustls::pki_types::PrivateKeyDer::try_from(include_bytes!("key.der").to_vec()).unwrap()).unwrap();
    rustls::ServerConnection::new(Arc::new(c)).unwrap()
}
fn pump(e: &TlsMqttEngineFFI, s: &mut rustls::ServerConnection) {
    for _ in 0..10 {
        let d = e.take_socket_data();
        let mut b = &d[..];
        while !b.is_empty() {
            s.read_tls(&mut b).unwrap();
            s.process_new_packets().unwrap();
            let mut part = [0u8; 4096];
            while let Ok(n) = s.reader().read(&mut part) { if n == 0 { break; } }
        }
        let mut back = vec![];
        while s.wants_write() { s.write_tls(&mut back).unwrap(); }
        e.handle_socket_data(back);
    }
}
fn main() {
    let o = MqttOptionsFFI { client_id: "c".into(), mqtt_version: 5, clean_start: true, keep_alive: 60, username: None, password: None, reconnect_base_delay_ms: 1000, reconnect_max_delay_ms: 60000, max_reconnect_attempts: 0 };
    let t = MqttTlsOptionsFFI { ca_cert_file: None, client_cert_file: None, client_key_file: None, insecure_skip_verify: true, alpn_protocols: vec![], enable_key_log: false };
    let mut s = server();
    let e = TlsMqttEngineFFI::new(o, t, "localhost".into());
    e.connect();
    e.handle_tick(0);
    pump(&e, &mut s);
    s.writer().write_all(&[0x20, 3, 0, 0, 0]).unwrap();
    pump(&e, &mut s);
    assert_eq!(e.handle_tick(10).len(), 1);
    e.publish("x".repeat(70000), vec![], 0);
    let all = e.take_events();
    assert_eq!(all.len(), 2);
    assert!(matches!(all[0], MqttEventFFI::Connected(_)));
    assert!(matches!(all[1], MqttEventFFI::Error { .. }));
}
"""
def P(*x, ffi=False):
    b = B(*x)
    b["demo"] = ("" if ffi else WIRE) + x[5].strip()
    b["sh"] = SH.replace("@FFI@", FFI if ffi else "").replace("@DEP@", 'flowsdk_ffi = { path = "../ffi", features = ["tls", "quic"] }' if ffi else "")
    b["files"] = {"lock": open("/verif/harness_ffi/Cargo.lock").read(), "cert.der": open("/verif/harness_ffi/src/cert.der", "rb").read(), "key.der": open("/verif/harness_ffi/src/key.der", "rb").read()}
    return b
F = "src/mqtt_client/tls_engine.rs"
BUGS = [
P("c31-partial", "C31",
  [(F, "            mqtt_events.extend(events);\n            self.incoming_plaintext.clear();", "            // Nothing was completed yet: keep what is there for the next tick.\n            if !events.is_empty() {\n                mqtt_events.extend(events);\n                self.incoming_plaintext.clear();\n            }")],
  "a packet split over two TLS records with a tick between them", "the MQTT engine is fed the beginning of the packet twice",
  '''
use flowsdk::mqtt_client::engine::MqttEvent;
use std::time::{Duration, Instant};
fn main() {
    let connack = [0x20u8, 3, 0, 0, 0];
    for cut in 0..=5 {
        let mut e = client(MqttClientOptions::builder().client_id("c").mqtt_version(5).build());
        let mut s = server();
        e.connect();
        let mut now = Instant::now();
        e.handle_tick(now);
        let out = pump(&mut e, &mut s);
        assert_eq!(out.first(), Some(&0x10));
        let mut events = vec![];
        for part in [&connack[..cut], &connack[cut..]] {
            s.writer().write_all(part).unwrap();
            pump(&mut e, &mut s);
            now += Duration::from_millis(10);
            events.extend(e.handle_tick(now));
        }
        assert!(e.is_connected(), "cut at {cut}: {events:?}");
        assert_eq!(events.iter().filter(|x| matches!(x, MqttEvent::Connected(_))).count(), 1, "cut at {cut}");
        assert_eq!(events.len(), 1, "cut at {cut}: {events:?}");
    }
}'''),
P("c32-order", "C32",
  [("flowsdk_ffi/src/engine.rs", """    pub fn take_events(&self) -> Vec<MqttEventFFI> {
        let mut events = std::mem::take(&mut *self.events.lock().unwrap());
        let engine_events = self.engine.lock().unwrap().take_events();
        events.extend(engine_events.into_iter().filter_map(map_event));
        events
    }

    pub fn connect(&self) {
        self.engine.lock().unwrap().connect();
    }

    pub fn publish(&self, topic: String, payload: Vec<u8>, qos: u8) -> i32 {""", """    pub fn take_events(&self) -> Vec<MqttEventFFI> {
        let mut events: Vec<_> = self
            .engine
            .lock()
            .unwrap()
            .take_events()
            .into_iter()
            .filter_map(map_event)
            .collect();
        events.append(&mut self.events.lock().unwrap());
        events
    }

    pub fn connect(&self) {
        self.engine.lock().unwrap().connect();
    }

    pub fn publish(&self, topic: String, payload: Vec<u8>, qos: u8) -> i32 {""")],
  "a TLS object with an event left by a tick and a later one (a publish that cannot be encoded) still in the engine when the events are taken", "events are reported out of order",
  FFIWIRE, ffi=True),
]
