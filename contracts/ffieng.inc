#[verifier::external_body]
struct $E { x: u8 }
impl $E {
    #[verifier::external_body]
    fn disconnect(&mut self) ensures did(*old(self), Did::Disconnect, *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn publish(&mut self, command: PublishCommand) -> (r: Result<Option<u16>, MqttClientError>) ensures did(*old(self), Did::Publish(command, r), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn subscribe(&mut self, command: SubscribeCommand) -> (r: Result<u16, MqttClientError>) ensures did(*old(self), Did::Subscribe(command, r), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn unsubscribe(&mut self, command: UnsubscribeCommand) -> (r: Result<u16, MqttClientError>) ensures did(*old(self), Did::Unsubscribe(command, r), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn is_connected(&self) -> (r: bool) ensures r == linked(*self) { unimplemented!() }
    #[verifier::external_body]
    fn handle_tick(&mut self, now: Instant) -> (r: Vec<MqttEvent>) ensures did(*old(self), Did::Tick(now, r@), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn take_events(&mut self) -> (r: Vec<MqttEvent>) ensures did(*old(self), Did::Take(r@), *final(self)) { unimplemented!() }
}
