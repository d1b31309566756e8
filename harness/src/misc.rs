//! C24: result and error classification.
use crate::ensure;
use crate::fw::*;
use flowsdk::mqtt_client::{AuthResult, ConnectionResult, MqttClientError as E, PublishResult, SubscribeResult, UnsubscribeResult};

pub fn suites(p: &str) -> Vec<Suite> {
    let s = |name, rule, fixed, weight, run| Suite { name, rule, fixed, weight, run };
    match p {
        "C24" => vec![
            s("codes", "every reason code 0..255 of every result kind (exhaustive)", 256, 0, codes),
            s("code-lists", "random lists of reason codes, biased to the boundaries", 0, 3, lists),
            s("errors", "every error kind with random contents and every refusal code and I/O error kind", 256, 1, errors),
        ],
        _ => vec![],
    }
}
fn codes(c: &mut Case) -> R {
    let k = c.index as u8;
    c.note(format!("code {k:#04x}"));
    let r = ConnectionResult { reason_code: k, session_present: k % 2 == 0, properties: None };
    ensure!(r.is_success() == (k == 0) && r.is_failure() == (k != 0), "connect", "ConnectionResult({k:#x})");
    let a = AuthResult { reason_code: k, properties: vec![] };
    ensure!(a.is_success() == (k == 0) && a.is_continue() == (k == 0x18) && a.is_re_authenticate() == (k == 0x19), "auth", "AuthResult({k:#x})");
    for (code, want) in [(None, true), (Some(k), k < 0x80)] {
        for q in 0..3 {
            let p = PublishResult { packet_id: Some(7), reason_code: code, properties: None, qos: q };
            ensure!(p.is_success() == want, "publish", "PublishResult({code:?})");
        }
    }
    list(&[k])
}
fn list(v: &[u8]) -> R {
    let s = SubscribeResult { packet_id: 1, reason_codes: v.to_vec(), properties: vec![] };
    let mut n = 0;
    for x in v { if *x == 0 || *x == 1 || *x == 2 { n += 1; } }
    ensure!(s.is_success() == (n == v.len()), "subscribe", "SubscribeResult({v:?}).is_success()");
    ensure!(s.successful_subscriptions() == n, "subscribe-count", "SubscribeResult({v:?}).successful_subscriptions() = {}", s.successful_subscriptions());
    let u = UnsubscribeResult { packet_id: 1, reason_codes: v.to_vec(), properties: vec![] };
    let mut ok = true;
    for x in v { if *x != 0 && *x != 17 { ok = false; } }
    ensure!(u.is_success() == ok, "unsubscribe", "UnsubscribeResult({v:?}).is_success()");
    Ok(())
}
fn lists(c: &mut Case) -> R {
    let n = c.rng.range(0, 8);
    let good = c.rng.bool();
    let v: Vec<u8> = (0..n).map(|_| if good { *c.rng.pick(&[0u8, 1, 2, 0, 17]) } else { *c.rng.pick(&[0u8, 1, 2, 3, 17, 16, 18, 0x7f, 0x80, 0x87, 0xff]) }).collect();
    c.note(format!("{v:?}"));
    list(&v)
}
fn errors(c: &mut Case) -> R {
    use std::io::ErrorKind as K;
    let kinds = [K::NotFound, K::PermissionDenied, K::ConnectionRefused, K::ConnectionReset, K::ConnectionAborted, K::NotConnected, K::AddrInUse, K::BrokenPipe, K::AlreadyExists, K::WouldBlock, K::InvalidInput, K::InvalidData, K::TimedOut, K::WriteZero, K::Interrupted, K::UnexpectedEof, K::OutOfMemory, K::Other];
    let code = if c.index < 256 { c.index as u8 } else { c.rng.next() as u8 };
    let t = format!("s{}", c.rng.below(1000));
    let mut all: Vec<(E, bool)> = vec![
        (E::ConnectionRefused { reason_code: code, description: t.clone() }, matches!(code, 0x86 | 0x87 | 0x8c)),
        (E::ConnectionLost { reason: t.clone() }, false),
        (E::ProtocolViolation { message: t.clone() }, false),
        (E::PacketParsing { parse_error: t.clone(), raw_data: vec![code] }, false),
        (E::InvalidPacketId { packet_id: code as u16 }, false),
        (E::UnexpectedPacket { expected: t.clone(), received: t.clone() }, false),
        (E::NoActiveSession, false), (E::SessionExpired, false), (E::PacketIdExhausted, false),
        (E::OperationTimeout { operation: t.clone(), timeout_ms: code as u64 }, false),
        (E::OperationCancelled { operation: t.clone() }, false),
        (E::PublishFailed { packet_id: None, reason_code: code, reason_string: None }, false),
        (E::SubscribeFailed { topics: vec![], reason_codes: vec![code] }, false),
        (E::UnsubscribeFailed { topics: vec![], reason_codes: vec![code] }, false),
        (E::InvalidState { expected: t.clone(), actual: t.clone() }, false),
        (E::NotConnected, false), (E::AlreadyConnected, false),
        (E::BufferFull { buffer_type: t.clone(), capacity: code as usize }, false),
        (E::ChannelClosed { channel: t.clone() }, false),
        (E::AuthenticationFailed { method: None, reason_code: code, reason_string: None }, true),
        (E::InvalidConfiguration { field: t.clone(), reason: t.clone() }, false),
        (E::InternalError { message: t.clone() }, false),
    ];
    for k in kinds { all.push((E::NetworkError { kind: k, message: t.clone() }, false)); }
    c.note(format!("refusal code {code:#04x}"));
    for (e, auth) in &all {
        ensure!(!(e.is_fatal() && e.is_recoverable()), "fatal-recoverable", "{e:?} is both fatal and recoverable");
        ensure!(!e.should_reconnect() || e.is_recoverable(), "reconnect-recoverable", "{e:?} calls for reconnection but is not recoverable");
        ensure!(e.is_auth_error() == *auth, "auth-error", "{e:?}: is_auth_error() = {}", e.is_auth_error());
    }
    ensure!(E::ConnectionLost { reason: t.clone() }.should_reconnect(), "reconnect", "a lost connection does not call for reconnection");
    for k in [K::ConnectionReset, K::BrokenPipe, K::UnexpectedEof, K::ConnectionAborted] {
        ensure!(E::NetworkError { kind: k, message: t.clone() }.should_reconnect(), "reconnect", "{k:?} does not call for reconnection");
    }
    Ok(())
}
