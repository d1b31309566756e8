// ---------------------------------------------------------------- C24: what results and errors say about themselves
//@ fn src/mqtt_client/client.rs ConnectionResult::is_success
//@ ret r
//@ spec
  ensures r <==> self.reason_code == 0
//@ end
//@ fn src/mqtt_client/client.rs ConnectionResult::is_failure
//@ ret r
//@ spec
  ensures r <==> self.reason_code != 0
//@ end
//@ fn src/mqtt_client/client.rs AuthResult::is_success
//@ ret r
//@ spec
  ensures r <==> self.reason_code == 0
//@ end
//@ fn src/mqtt_client/client.rs AuthResult::is_continue
//@ ret r
//@ spec
  ensures r <==> self.reason_code == 0x18
//@ end
//@ fn src/mqtt_client/client.rs AuthResult::is_re_authenticate
//@ ret r
//@ spec
  ensures r <==> self.reason_code == 0x19
//@ end
spec fn granted(c: u8) -> bool { c == 0 || c == 1 || c == 2 }
//@ fn src/mqtt_client/client.rs SubscribeResult::is_success
//@ closure 0 |vxp1: &u8| -> (r: bool) ensures r <==> granted(*vxp1)
//@ ret r
//@ spec
  ensures r == self.reason_codes@.all(|c: u8| granted(c))
//@ end
//@ fn src/mqtt_client/client.rs SubscribeResult::successful_subscriptions
//@ closure 0 |vxp1: &&u8| -> (r: bool) ensures r <==> granted(**vxp1)
//@ ret r
//@ spec
  ensures r == self.reason_codes@.filter(|c: u8| granted(c)).len()
//@ end
//@ fn src/mqtt_client/client.rs UnsubscribeResult::is_success
//@ closure 0 |vxp1: &u8| -> (r: bool) ensures r <==> *vxp1 == 0 || *vxp1 == 17
//@ ret r
//@ spec
  ensures r == self.reason_codes@.all(|c: u8| c == 0 || c == 17)
//@ end
//@ fn src/mqtt_client/client.rs PublishResult::is_success
//@ ret r
//@ closure 0 |code: u8| -> (r: bool) ensures r <==> code < 0x80
//@ spec
  ensures r <==> (self.reason_code is None || self.reason_code->0 < 0x80)
//@ end
spec fn fatal(e: MqttClientError) -> bool { e is InvalidConfiguration || e is ProtocolViolation || e is InternalError }
spec fn connection_gone(e: MqttClientError) -> bool { e is ConnectionLost || e is NetworkError }
//@ fn src/mqtt_client/error.rs MqttClientError::is_recoverable
//@ ret r
//@ spec
  ensures r ==> !fatal(*self), connection_gone(*self) ==> r,
//@ end
//@ fn src/mqtt_client/error.rs MqttClientError::should_reconnect
//@ ret r
//@ spec
  ensures r ==> connection_gone(*self)
//@ end
//@ fn src/mqtt_client/error.rs MqttClientError::is_fatal
//@ ret r
//@ spec
  ensures r <==> fatal(*self)
//@ end
//@ fn src/mqtt_client/error.rs MqttClientError::is_auth_error
//@ ret r
//@ spec
  ensures r <==> (*self is AuthenticationFailed || *self is ConnectionRefused && (self->ConnectionRefused_reason_code == 0x86 || self->ConnectionRefused_reason_code == 0x87 || self->ConnectionRefused_reason_code == 0x8C))
//@ end
/// C24: no error is both fatal and recoverable; what calls for reconnection is recoverable
fn c24_classes(e: &MqttClientError) {
    let (f, r, c) = (e.is_fatal(), e.is_recoverable(), e.should_reconnect());
    assert(!(f && r));
    assert(c ==> r && !f);
}
