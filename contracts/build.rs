#![feature(allocator_api)]
#![verifier::allow(autoderive_clone_without_spec)]
//@ include prelude.inc
//@ include std.inc
verus! {
//@ include types.inc
//@ item src/mqtt_client/opts.rs MqttClientOptions subscribev5::TopicSubscription=>TopicSubscription
//@ item src/mqtt_client/commands.rs PublishCommand derive=Clone
//@ item src/mqtt_client/commands.rs SubscribeCommand derive=Clone
//@ item src/mqtt_client/commands.rs UnsubscribeCommand derive=Clone
//@ path subscribev5::TopicSubscription TopicSubscription
//@ include buildfns.inc
fn main(){}
}
