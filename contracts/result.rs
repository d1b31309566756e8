#![feature(allocator_api)]
#![verifier::allow(autoderive_clone_without_spec)]
//@ include prelude.inc
//@ include std.inc
verus! {
//@ include types.inc
/// std::io::ErrorKind, as the documented list of kinds
#[derive(Clone, Copy)]
enum VxErrorKind { NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, NetworkDown, BrokenPipe,
    AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other, Uncategorized }
//@ path io::ErrorKind::ConnectionReset VxErrorKind::ConnectionReset
//@ path io::ErrorKind::BrokenPipe VxErrorKind::BrokenPipe
//@ path io::ErrorKind::UnexpectedEof VxErrorKind::UnexpectedEof
//@ path io::ErrorKind::ConnectionAborted VxErrorKind::ConnectionAborted
//@ path io::ErrorKind::ConnectionRefused VxErrorKind::ConnectionRefused
//@ path io::ErrorKind::TimedOut VxErrorKind::TimedOut
//@ path io::ErrorKind::NotConnected VxErrorKind::NotConnected
//@ path io::ErrorKind::WouldBlock VxErrorKind::WouldBlock
//@ path io::ErrorKind::Interrupted VxErrorKind::Interrupted
//@ path io::ErrorKind::NotFound VxErrorKind::NotFound
//@ path io::ErrorKind::HostUnreachable VxErrorKind::HostUnreachable
//@ path io::ErrorKind::NetworkUnreachable VxErrorKind::NetworkUnreachable
//@ path io::ErrorKind::NetworkDown VxErrorKind::NetworkDown
//@ path io::ErrorKind::WriteZero VxErrorKind::WriteZero
//@ path io::ErrorKind::Other VxErrorKind::Other
//@ item src/mqtt_client/error.rs MqttClientError io::ErrorKind=>VxErrorKind
//@ item src/mqtt_client/client.rs ConnectionResult
//@ item src/mqtt_client/client.rs AuthResult
//@ item src/mqtt_client/client.rs PublishResult
//@ item src/mqtt_client/client.rs SubscribeResult
//@ item src/mqtt_client/client.rs UnsubscribeResult
//@ include iters.inc
//@ include resultfns.inc
fn main(){}
}
