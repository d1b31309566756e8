#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExErrorKind(std::io::ErrorKind);
//@ item src/mqtt_client/error.rs MqttClientError io::ErrorKind=>std::io::ErrorKind
