import importlib.util
s = importlib.util.spec_from_file_location("a", __file__.replace("c.py", "a.py")); a = importlib.util.module_from_spec(s); s.loader.exec_module(a)
B = a.B
F = "mqtt_grpc_duality/src/lib.rs"
PB = r'''#!/bin/bash
# run with cwd = flowsdk source tree: builds the bridge crate from its own sources with demo.rs beside this file, and runs it
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'case "$T" in /tmp/*) rm -rf "$T";; esac' EXIT
mkdir -p "$T/bridge" "$T/demo"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "flowsdk"
version = "0.5.3"
edition = "2021"
build = false
[lib]
path = "$R/src/lib.rs"
[dependencies]
tokio = { version = "1.0", features = ["sync", "time", "io-util"] }
serde = { version = "1.0.218", features = ["derive"] }
hex = "0.4"
bytes = { version = "1", features = ["serde"] }
serde_json = "1.0"
slab = "0.4.11"
async-trait = "0.1"
thiserror = "1.0"
ctrlc = "3.4"
[features]
default = ["strict-protocol-compliance"]
strict-protocol-compliance = []
protocol-testing = []
tls = []
quic = []
quic-proto = []
rustls-tls = []
async-client = []
grpc = []
arbitrary = []
EOF
cp "$R/mqtt_grpc_duality/Cargo.toml" "$T/bridge/Cargo.toml"
for x in src proto build.rs; do ln -s "$R/mqtt_grpc_duality/$x" "$T/bridge/$x"; done
cat > "$T/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[[bin]]
name = "demo"
path = "$D/demo.rs"
[dependencies]
flowsdk = { path = ".." }
mqtt-grpc-proxy = { path = "../bridge" }
EOF
cp "$D/lock" "$T/demo/Cargo.lock"
cd "$T/demo"
export CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$T/target}"
cargo build --offline -q --bin demo
"$CARGO_TARGET_DIR/debug/demo"
'''
HEAD = '''use flowsdk::mqtt_serde::control_packet::MqttPacket;
use flowsdk::mqtt_serde::mqttv5::*;
use flowsdk::mqtt_serde::mqttv3::*;
use flowsdk::mqtt_serde::mqttv5::common::properties::Property;
use mqtt_grpc_proxy::*;
fn back(p: &MqttPacket) -> String {
    let m = convert_mqtt_to_stream_message(p, 1, mqtt_unified_pb::MessageDirection::ClientToBroker).unwrap();
    format!("{:?}", convert_stream_message_to_mqtt_packet(m).unwrap())
}
#[allow(dead_code)]
fn same(p: MqttPacket) { assert_eq!(format!("{p:?}"), back(&p)); }
'''
def P(*x):
    b = B(*x)
    b["demo"] = HEAD + x[5].strip()
    b["sh"] = PB
    b["files"] = {"lock": open("/verif/harness_pb/Cargo.lock").read()}
    return b
BUGS = [
P("c27-willexpiry", "C27",
  [(F, "        if let Ok(prop) = Property::MessageExpiryInterval(message_expiry_interval).try_into() {\n            properties.push(prop);\n        }", "        if let Ok(prop) = Property::MessageExpiryInterval(message_expiry_interval.saturating_sub(\n            will_props.will_delay_interval.unwrap_or(0),\n        ))\n        .try_into()\n        {\n            properties.push(prop);\n        }")],
  "a will with both a delay and a message expiry", "the will's expiry that comes back is not the one sent",
  '''
fn main() {
    for (d, e) in [(None, Some(9)), (Some(5), None), (Some(5), Some(9))] {
        let mut w = willv5::Will::new("t".into(), vec![1], 1, false);
        w.properties.will_delay_interval = d;
        w.properties.message_expiry_interval = e;
        same(MqttPacket::Connect5(connectv5::MqttConnect::new("c".into(), None, None, Some(w), 10, true, vec![])));
    }
}'''),
]
