// ---------------------------------------------------------------- the engine and what it is made of
//@ item src/mqtt_serde/parser/mod.rs ParseError IoError=>std::io::Error
//@ item src/mqtt_client/opts.rs MqttClientOptions subscribev5::TopicSubscription=>TopicSubscription
//@ item src/mqtt_client/client.rs ConnectionResult derive=Clone
//@ item src/mqtt_client/client.rs PublishResult derive=Clone
//@ item src/mqtt_client/client.rs SubscribeResult derive=Clone
//@ item src/mqtt_client/client.rs UnsubscribeResult derive=Clone
//@ item src/mqtt_client/client.rs PingResult derive=Clone
//@ item src/mqtt_client/commands.rs PublishCommand derive=Clone
//@ item src/mqtt_client/commands.rs SubscribeCommand derive=Clone
//@ item src/mqtt_client/commands.rs UnsubscribeCommand derive=Clone
//@ item src/mqtt_client/engine.rs QuicZeroRttStatus
//@ item src/mqtt_client/engine.rs MqttMessage
//@ item src/mqtt_client/engine.rs MqttEvent
//@ item src/mqtt_client/engine.rs MqttEngine
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
/// the stream parser, here as a source of arbitrary packets, each handed out once and in order (what the packets are is C07, C08)
#[verifier::external_body]
struct MqttParser { x: u8 }
impl MqttParser {
    /// holds no input
    uninterp spec fn fresh(&self, size: usize, version: u8) -> bool;
    /// the packets in the input that was fed and not yet handed out
    uninterp spec fn coming(&self) -> Seq<MqttPacket>;
    #[verifier::external_body]
    fn new(buffer_size: usize, mqtt_version: u8) -> (r: MqttParser) ensures r.fresh(buffer_size, mqtt_version) { unimplemented!() }
    #[verifier::external_body]
    fn feed(&mut self, data: &[u8]) { unimplemented!() }
    #[verifier::external_body]
    fn next_packet(&mut self) -> (r: Result<Option<MqttPacket>, ParseError>)
        ensures match r {
            Ok(Some(p)) => old(self).coming().len() > 0 && p == old(self).coming()[0] && final(self).coming() == old(self).coming().skip(1),
            _ => old(self).coming().len() == 0 && final(self).coming().len() == 0,
        }
    { unimplemented!() }
}
/// the bytes of a packet, if it has any (to_bytes is a function of the packet; what it computes is C03-C06)
uninterp spec fn wire(p: MqttPacket) -> Option<Seq<u8>>;
impl MqttPacket {
    #[verifier::external_body]
    fn to_bytes(&self) -> (r: Result<Vec<u8>, ParseError>)
        ensures match wire(*self) { Some(b) => r is Ok && r->Ok_0@ == b, None => r is Err }
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_error_from(e: ParseError) -> (r: MqttClientError) { unimplemented!() }
//@ path MqttClientError::from vx_error_from
/// std::mem::take of a vector, of a deque
trait VxTake: Sized { spec fn taken(a: Self, r: Self, b: Self) -> bool; fn vx_take_(x: &mut Self) -> (r: Self) ensures Self::taken(*old(x), r, *final(x)); }
impl<T> VxTake for Vec<T> {
    spec fn taken(a: Self, r: Self, b: Self) -> bool { r == a && b@.len() == 0 }
    #[verifier::external_body]
    fn vx_take_(x: &mut Self) -> (r: Self) { std::mem::take(x) }
}
impl<T> VxTake for VecDeque<T> {
    spec fn taken(a: Self, r: Self, b: Self) -> bool { r == a && b@.len() == 0 }
    #[verifier::external_body]
    fn vx_take_(x: &mut Self) -> (r: Self) { std::mem::take(x) }
}
fn vx_take<T: VxTake>(x: &mut T) -> (r: T) ensures T::taken(*old(x), r, *final(x)) { T::vx_take_(x) }
#[verifier::external_body]
fn vx_extend<T>(a: &mut Vec<T>, b: Vec<T>) ensures final(a)@ == old(a)@ + b@ { a.extend(b) }
pub assume_specification<T, F: FnOnce(T) -> bool>[Option::<T>::is_some_and](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> call_requires(f, (o->0,))
    ensures o is None ==> !r, o is Some ==> call_ensures(f, (o->0,), r);
