#![feature(allocator_api)]
#![verifier::allow(autoderive_clone_without_spec)]
//@ include prelude.inc
//@ include std.inc
//@ include time.inc
verus! {
use std::sync::Arc;
global size_of usize == 8;
//@ include types.inc
//@ include errors.inc
#[verifier::external_body]
struct TlsConfig { x: u8 }
//@ item src/mqtt_client/opts.rs TlsBackend
//@ item src/mqtt_client/opts.rs MqttClientOptions subscribev5::TopicSubscription=>TopicSubscription
//@ item src/mqtt_client/commands.rs PublishCommand derive=Clone
//@ item src/mqtt_client/commands.rs SubscribeCommand derive=Clone
//@ item src/mqtt_client/commands.rs UnsubscribeCommand derive=Clone
//@ path subscribev5::TopicSubscription TopicSubscription
//@ include buildfns.inc
//@ item src/mqtt_client/client.rs ConnectionResult
//@ item src/mqtt_client/client.rs PublishResult
//@ item src/mqtt_client/client.rs SubscribeResult
//@ item src/mqtt_client/client.rs UnsubscribeResult
//@ item src/mqtt_client/client.rs PingResult
//@ item src/mqtt_client/engine.rs QuicZeroRttStatus
//@ item src/mqtt_client/engine.rs MqttMessage
//@ item src/mqtt_client/engine.rs MqttEvent
//@ include ffi.inc
fn main(){}
}
