//! C33, the bounded companion of the unit "quic": the engine for MQTT over QUIC against a QUIC server in this process. What the
//! server reads on each stream is compared with what was put there, what the engine reports with what the server said.
use crate::fw::*;
use crate::{clock, gen, Any};
use bytes::BytesMut;
use flowsdk::mqtt_client::commands::{PublishCommand, SubscribeCommand, UnsubscribeCommand};
use flowsdk::mqtt_client::engine::{MqttEvent, QuicMqttEngine};
use flowsdk::mqtt_client::opts::MqttClientOptions;
use flowsdk::mqtt_serde::control_packet::MqttPacket as P;
use flowsdk::mqtt_serde::parser::stream::MqttParser;
use flowsdk::mqtt_serde::{mqttv3, mqttv5};
use quinn_proto::{Connection, ConnectionError, ConnectionHandle, DatagramEvent, Dir, Endpoint, EndpointConfig, Event, ReadError, ServerConfig, StreamEvent, StreamId, TransportConfig, VarInt};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::net::SocketAddr;
use std::sync::Arc;
use std::time::{Duration, Instant};

thread_local! {
    static CLIENT: rustls::ClientConfig = {
        let p = Arc::new(rustls::crypto::ring::default_provider());
        rustls::ClientConfig::builder_with_provider(p.clone()).with_protocol_versions(&[&rustls::version::TLS13]).unwrap().dangerous().with_custom_certificate_verifier(Arc::new(Any(p))).with_no_client_auth()
    };
    static SERVER: Arc<rustls::ServerConfig> = {
        let p = Arc::new(rustls::crypto::ring::default_provider());
        let mut c = rustls::ServerConfig::builder_with_provider(p).with_protocol_versions(&[&rustls::version::TLS13]).unwrap().with_no_client_auth()
            .with_single_cert(vec![rustls::pki_types::CertificateDer::from(include_bytes!("cert.der").to_vec())], rustls::pki_types::PrivateKeyDer::try_from(include_bytes!("key.der").to_vec()).unwrap()).unwrap();
        c.alpn_protocols = vec![b"mqtt".to_vec()];
        Arc::new(c)
    };
}

/// what was put on a stream by the engine's user or owed by the engine, and not yet seen
#[derive(Default)]
struct Line {
    cmds: VecDeque<String>,
    ans: VecDeque<String>,
    /// publishes seen, which may be seen again
    old: BTreeSet<String>,
    seen: Vec<String>,
    /// the user finished or reset it
    fin: bool,
    reset: Option<u64>,
    stopped: Option<u64>,
    ended: bool,
    cut: Option<u64>,
    /// the server: bytes to send, and the messages said
    say: Vec<u8>,
    said: VecDeque<String>,
    heard: Vec<String>,
    gone: bool,
}
struct Q {
    c: QuicMqttEngine,
    ep: Endpoint,
    h: Option<(ConnectionHandle, Connection)>,
    lines: BTreeMap<u64, Line>,
    parsers: BTreeMap<u64, MqttParser>,
    open: Vec<u64>,
    control: Option<u64>,
    v5: bool,
    closed: Option<(u64, Vec<u8>)>,
    close: Option<(u64, Vec<u8>, bool)>,
    next_in: u16,
    tag: u64,
    up: bool,
    loss: bool,
    ack: bool,
    slow: bool,
    log: String,
    acks: u64,
    /// the server's datagrams, not delivered yet
    kept: Vec<Vec<u8>>,
    /// streams the server is about to refuse, and what the engine said of refused streams
    refuse: Vec<(u64, u64, u8)>,
    refused: Vec<String>,
    /// the server opens a stream
    opens: usize,
    lost: bool,
    drop: Option<u64>,
}
const CADDR: &str = "127.0.0.1:40000";
const SADDR: &str = "127.0.0.1:14567";
fn addr(s: &str) -> SocketAddr { s.parse().unwrap() }
fn body(b: &[u8]) -> String { let mut h = 0xcbf29ce484222325u64; for x in b { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); } format!("{}:{h:x}", b.len()) }
fn pubs(topic: &str, payload: &[u8], qos: u8, retain: bool, id: Option<u16>) -> String { format!("PUBLISH {} {} q{qos} r{retain} {id:?}", body(topic.as_bytes()), body(payload)) }
/// the shape of a packet the server reads, and whether it is one sent again
fn shape(p: &P) -> (String, bool) {
    match p {
        P::Publish5(x) => (pubs(&x.topic_name, &x.payload, x.qos, x.retain, x.packet_id), x.dup),
        P::Publish3(x) => (pubs(&x.topic_name, &x.payload, x.qos, x.retain, x.message_id), x.dup),
        P::Subscribe5(x) => (format!("SUBSCRIBE {} {:?}", x.packet_id, x.subscriptions.iter().map(|s| (s.topic_filter.clone(), s.qos)).collect::<Vec<_>>()), false),
        P::Subscribe3(x) => (format!("SUBSCRIBE {} {:?}", x.message_id, x.subscriptions.iter().map(|s| (s.topic_filter.clone(), s.qos)).collect::<Vec<_>>()), false),
        P::Unsubscribe5(x) => (format!("UNSUBSCRIBE {} {:?}", x.packet_id, x.topic_filters), false),
        P::Unsubscribe3(x) => (format!("UNSUBSCRIBE {} {:?}", x.message_id, x.topic_filters), false),
        P::PubAck5(x) => (format!("PUBACK {}", x.packet_id), false), P::PubAck3(x) => (format!("PUBACK {}", x.message_id), false),
        P::PubRec5(x) => (format!("PUBREC {}", x.packet_id), false), P::PubRec3(x) => (format!("PUBREC {}", x.message_id), false),
        P::PubRel5(x) => (format!("PUBREL {}", x.packet_id), true), P::PubRel3(x) => (format!("PUBREL {}", x.message_id), true),
        P::PubComp5(x) => (format!("PUBCOMP {}", x.packet_id), false), P::PubComp3(x) => (format!("PUBCOMP {}", x.message_id), false),
        P::Connect5(_) | P::Connect3(_) => ("CONNECT".into(), false),
        P::PingReq5(_) | P::PingReq3(_) => ("PINGREQ".into(), false),
        P::Disconnect5(_) | P::Disconnect3(_) => ("DISCONNECT".into(), false),
        x => (format!("{x:?}"), false),
    }
}
impl Q {
    fn new(r: &mut Rng, v5: bool, cap: usize, window: u32) -> Q {
        let mut o = MqttClientOptions::default();
        o.client_id = "c33".into();
        o.mqtt_version = if v5 { 5 } else { 4 };
        o.keep_alive = 0;
        o.max_outgoing_packet_count = cap;
        let c = QuicMqttEngine::new(o).unwrap();
        let mut sc = ServerConfig::with_crypto(Arc::new(quinn_proto::crypto::rustls::QuicServerConfig::try_from(SERVER.with(|s| s.clone())).unwrap()));
        let mut t = TransportConfig::default();
        t.stream_receive_window(VarInt::from_u32(window));
        sc.transport_config(Arc::new(t));
        let ep = Endpoint::new(Arc::new(EndpointConfig::default()), Some(Arc::new(sc)), true, None);
        let loss = r.chance(1, 5);
        Q { c, ep, h: None, lines: BTreeMap::new(), parsers: BTreeMap::new(), open: vec![], control: None, v5, closed: None, close: None, next_in: 1, tag: 0, up: false, loss, ack: true, slow: false, log: format!("v5 {v5} capacity {cap} window {window}{}:", if loss { " datagrams lost" } else { "" }), acks: 0, kept: vec![], refuse: vec![], refused: vec![], opens: 0, lost: false, drop: None }
    }
    fn line(&mut self, s: u64) -> &mut Line { self.lines.entry(s).or_default() }
    /// the engine's datagrams to the server and back, the server reads what it may
    fn round(&mut self, r: &mut Rng) -> R { self.there(r)?; self.back(r) }
    fn there(&mut self, r: &mut Rng) -> R {
        clock::advance(Duration::from_millis(2));
        let now = Instant::now();
        let mut buf = vec![];
        for (_, d) in self.c.take_outgoing_datagrams() {
            if self.loss && r.chance(1, 15) { continue; }
            buf.clear();
            match self.ep.handle(now, addr(CADDR), None, None, BytesMut::from(&d[..]), &mut buf) {
                Some(DatagramEvent::NewConnection(i)) => { buf.clear(); if let Ok(x) = self.ep.accept(i, now, &mut buf, None) { self.h = Some(x); } }
                Some(DatagramEvent::ConnectionEvent(ch, e)) => if let Some((h, k)) = &mut self.h { if *h == ch { k.handle_event(e); } },
                _ => {}
            }
        }
        let mut back = vec![];
        self.server(r, now, &mut back)?;
        self.kept.extend(back);
        Ok(())
    }
    fn back(&mut self, r: &mut Rng) -> R {
        let now = Instant::now();
        for d in std::mem::take(&mut self.kept) { if self.loss && r.chance(1, 15) { continue; } self.c.handle_datagram(d, addr(SADDR), now); }
        let ev = self.c.handle_tick(now);
        self.events(ev)
    }
    fn server(&mut self, r: &mut Rng, now: Instant, back: &mut Vec<Vec<u8>>) -> R {
        let Some((h, mut k)) = self.h.take() else { return Ok(()) };
        if k.poll_timeout().is_some_and(|t| t <= now) { k.handle_timeout(now); }
        while let Some(e) = k.poll() {
            match e {
                Event::ConnectionLost { reason: ConnectionError::ApplicationClosed(a) } => self.closed = Some((a.error_code.into_inner(), a.reason.to_vec())),
                Event::Stream(StreamEvent::Stopped { id, error_code }) => self.line(u64::from(id)).stopped = Some(error_code.into_inner()),
                _ => {}
            }
        }
        while let Some(s) = k.streams().accept(Dir::Bi) {
            let s = u64::from(s);
            if self.control.is_none() { self.control = Some(s); self.line(s).cmds.push_back("CONNECT".into()); }
            self.open.push(s);
            self.parsers.insert(s, MqttParser::new(16384, if self.v5 { 5 } else { 4 }));
        }
        if let Some(code) = self.drop.take() { k.close(now, VarInt::from_u64(code).unwrap(), bytes::Bytes::from_static(b"bye")); }
        for _ in 0..std::mem::take(&mut self.opens) { if let Some(s) = k.streams().open(Dir::Bi) { let s = u64::from(s); self.open.push(s); self.line(s); self.parsers.insert(s, MqttParser::new(16384, if self.v5 { 5 } else { 4 })); } }
        for (s, code, how) in std::mem::take(&mut self.refuse) {
            let (id, c) = (StreamId::from(VarInt::from_u64(s).unwrap()), VarInt::from_u64(code).unwrap());
            // the server's own end comes after what it says
            if how == 2 && !self.line(s).say.is_empty() { self.refuse.push((s, code, how)); continue; }
            match how { 0 => { let _ = k.recv_stream(id).stop(c); } 1 => { let _ = k.send_stream(id).reset(c); } _ => { let _ = k.send_stream(id).finish(); } }
            let l = self.line(s);
            l.gone = true;
            if how != 2 { l.stopped = Some(code); l.say.clear(); }
        }
        for s in self.open.clone() {
            if self.slow && r.chance(4, 5) { continue; }
            let id = StreamId::from(VarInt::from_u64(s).unwrap());
            let mut got = vec![];
            let (mut fin, mut cut) = (false, None);
            {
                let mut st = k.recv_stream(id);
                if let Ok(mut ch) = st.read(true) {
                    loop {
                        match ch.next(if self.slow { 200 } else { 65536 }) {
                            Ok(Some(x)) => { got.extend_from_slice(&x.bytes); if self.slow { break; } }
                            Ok(None) => { fin = true; break; }
                            Err(ReadError::Reset(c)) => { cut = Some(c.into_inner()); break; }
                            Err(_) => break,
                        }
                    }
                    let _ = ch.finalize();
                };
            }
            self.parsers.get_mut(&s).unwrap().feed(&got);
            loop {
                match self.parsers.get_mut(&s).unwrap().next_packet() {
                    Ok(Some(p)) => self.read(r, s, p)?,
                    Ok(None) => break,
                    Err(e) => return fail("garbled", format!("stream {s}: the server cannot read it: {e:?}; {}", cut2(&self.log))),
                }
            }
            let log = cut2(&self.log);
            let f = self.line(s);
            if fin { f.ended = true; if !f.fin { return fail("fin", format!("stream {s} was ended, but nobody finished it; {}", log)); } if !(f.cmds.is_empty() && f.ans.is_empty()) { return fail("fin-early", format!("stream {s} was ended before {:?} {:?}; {}", f.cmds, f.ans, log)); } }
            if let Some(c) = cut { f.cut = Some(c); }
            let f = self.lines.get_mut(&s).unwrap();
            if !f.say.is_empty() && !f.gone { if let Ok(w) = k.send_stream(id).write(&f.say) { f.say.drain(..w); } }
        }
        while let Some(e) = k.poll_endpoint_events() { if let Some(x) = self.ep.handle_event(h, e) { k.handle_event(x); } }
        let mut buf = vec![];
        while k.poll_transmit(now, 1, &mut buf).is_some() { back.push(std::mem::take(&mut buf)); }
        self.h = Some((h, k));
        Ok(())
    }
    /// a packet the server read on a stream
    fn read(&mut self, r: &mut Rng, s: u64, p: P) -> R {
        let (x, again) = shape(&p);
        let v5 = self.v5;
        let ctl = Some(s) == self.control;
        let log = cut2(&self.log);
        let l = self.line(s);
        if l.cmds.front() == Some(&x) { l.cmds.pop_front(); }
        else if let Some(i) = l.ans.iter().position(|y| y.split(' ').next() == x.split(' ').next()).filter(|i| l.ans[*i] == x) { l.ans.remove(i); }
        else if again && l.old.contains(&x) { }
        else { return fail("stream", format!("on stream {s} the server read {x} where {:?} or one of {:?} was due (before it {:?}); {log}", l.cmds.front(), l.ans, l.seen.last())); }
        if x.starts_with("PUB") { l.old.insert(x.clone()); }
        l.seen.push(x);
        if let P::Connect5(_) = p { self.tell(s, P::ConnAck5(mqttv5::connackv5::MqttConnAck { session_present: false, reason_code: 0, properties: Some(vec![]) })); }
        if let P::Connect3(_) = p { self.tell(s, P::ConnAck3(mqttv3::connackv3::MqttConnAck { session_present: false, return_code: 0 })); }
        if ctl || !self.ack || self.line(s).gone { return Ok(()); }
        let _ = r;
        match p {
            P::Publish5(x) if x.qos == 1 => self.tell(s, P::PubAck5(mqttv5::pubackv5::MqttPubAck::new(x.packet_id.unwrap_or(1), 0, vec![]))),
            P::Publish3(x) if x.qos == 1 => self.tell(s, P::PubAck3(mqttv3::pubackv3::MqttPubAck::new(x.message_id.unwrap_or(1)))),
            P::Publish5(x) if x.qos == 2 && !x.dup => { let i = x.packet_id.unwrap_or(1); self.owe(s, format!("PUBREL {i}")); self.tell(s, P::PubRec5(mqttv5::pubrecv5::MqttPubRec::new(i, 0, vec![]))) }
            P::Publish3(x) if x.qos == 2 && !x.dup => { let i = x.message_id.unwrap_or(1); self.owe(s, format!("PUBREL {i}")); self.tell(s, P::PubRec3(mqttv3::pubrecv3::MqttPubRec::new(i))) }
            P::PubRel5(x) if x.packet_id < 50000 => self.tell(s, P::PubComp5(mqttv5::pubcompv5::MqttPubComp::new(x.packet_id, 0, vec![]))),
            P::PubRel3(x) if x.message_id < 50000 => self.tell(s, P::PubComp3(mqttv3::pubcompv3::MqttPubComp::new(x.message_id))),
            P::PubRec5(x) if (30000..40000).contains(&x.packet_id) => { self.owe(s, format!("PUBCOMP {}", x.packet_id)); self.tell(s, P::PubRel5(mqttv5::pubrelv5::MqttPubRel::new(x.packet_id, 0, vec![]))) }
            P::PubRec3(x) if (30000..40000).contains(&x.message_id) => { self.owe(s, format!("PUBCOMP {}", x.message_id)); self.tell(s, P::PubRel3(mqttv3::pubrelv3::MqttPubRel::new(x.message_id))) }
            P::Subscribe5(x) => self.tell(s, P::SubAck5(mqttv5::subackv5::MqttSubAck::new(x.packet_id, vec![0], vec![]))),
            P::Subscribe3(x) => self.tell(s, P::SubAck3(mqttv3::subackv3::MqttSubAck::new(x.message_id, vec![0]))),
            P::Unsubscribe5(x) => self.tell(s, P::UnsubAck5(mqttv5::unsubackv5::MqttUnsubAck::new(x.packet_id, vec![0], vec![]))),
            P::Unsubscribe3(x) => self.tell(s, P::UnsubAck3(mqttv3::unsubackv3::MqttUnsubAck::new(x.message_id))),
            _ => {}
        }
        Ok(())
    }
    fn tell(&mut self, s: u64, p: P) { let b = p.to_bytes().unwrap_or_default(); self.acks += 1; self.line(s).say.extend(b); }
    /// the engine owes an answer on the stream, unless nothing can be sent there any more
    fn owe(&mut self, s: u64, x: String) { let l = self.line(s); if !l.fin && l.reset.is_none() { l.ans.push_back(x); } else { l.ans.push_back(x); } }
    /// the server sends a message on a stream
    fn message(&mut self, r: &mut Rng, s: u64, n: usize) {
        let qos = r.below(3) as u8;
        self.tag += 1;
        let mut payload = format!("{s}/{}/", self.tag).into_bytes();
        payload.extend(r.bytes(n));
        let id = if qos == 0 { None } else { self.next_in += 1; Some(30000 + self.next_in) };
        if qos == 1 { self.owe(s, format!("PUBACK {}", id.unwrap())); }
        if qos == 2 { self.owe(s, format!("PUBREC {}", id.unwrap())); }
        let key = body(&payload);
        let p = if self.v5 { P::Publish5(mqttv5::publishv5::MqttPublish { topic_name: "a/b".into(), qos, retain: false, dup: false, packet_id: id, payload, properties: vec![] }) }
            else { P::Publish3(mqttv3::publishv3::MqttPublish { topic_name: "a/b".into(), qos, retain: false, dup: false, message_id: id, payload }) };
        self.log += &format!(" m{s}q{qos}");
        let b = p.to_bytes().unwrap();
        let l = self.line(s);
        l.say.extend(b);
        l.said.push_back(key);
    }
    fn events(&mut self, ev: Vec<MqttEvent>) -> R {
        for e in ev {
            match e {
                MqttEvent::Connected(_) => self.up = true,
                MqttEvent::MessageReceived(m) => {
                    let payload: &[u8] = &m.payload;
                    let s: u64 = std::str::from_utf8(payload.split(|b| *b == b'/').next().unwrap_or(&[])).ok().and_then(|t| t.parse().ok()).unwrap_or(u64::MAX);
                    let key = body(payload);
                    let log = cut2(&self.log);
                    let l = self.line(s);
                    if l.said.front() != Some(&key) { return fail("inbound", format!("the engine reports message {key} of stream {s}, the next one said there is {:?}; {log}", l.said.front())); }
                    l.said.pop_front();
                    l.heard.push(key);
                }
                MqttEvent::StreamStopped { stream_id, error_code } => self.refused.push(format!("stopped {stream_id} {error_code}")),
                MqttEvent::StreamReset { stream_id, error_code } => self.refused.push(format!("reset {stream_id} {error_code}")),
                MqttEvent::StreamClosed { stream_id, by_peer: true, .. } => self.refused.push(format!("closed {stream_id}")),
                MqttEvent::TransportClosed { reason, .. } => { self.lost = true; self.log += &format!(" closed: {reason}") }
                MqttEvent::Error(e) => return fail("error", format!("the engine reports {e:?}; {}", cut2(&self.log))),
                _ => {}
            }
        }
        Ok(())
    }
    fn due(&self) -> bool {
        self.lines.values().any(|l| (l.reset.is_none() && !(l.fin && l.ended)) && l.stopped.is_none() && (!l.cmds.is_empty() || !l.ans.is_empty() || (l.fin && !l.ended)) || !l.said.is_empty() && l.stopped.is_none() && l.reset.is_none() || l.reset.is_some() && l.cut.is_none() && !l.ended)
    }
    fn settle(&mut self, r: &mut Rng) -> R {
        self.slow = false;
        // what was lost is sent again: no more losses, and time for it
        let lossy = std::mem::replace(&mut self.loss, false);
        for i in 0..4000 { if lossy && i > 500 { clock::advance(Duration::from_millis(4)); } self.round(r)?; if i > 5 && !self.due() { break; } }
        for (s, l) in &self.lines {
            if l.reset.is_some() || l.stopped.is_some() { continue; }
            if !l.cmds.is_empty() || !l.ans.is_empty() { return fail("lost", format!("on stream {s} the server never read {:?} {:?} (read {} packets); {}", l.cmds.front(), l.ans.front(), l.seen.len(), cut2(&self.log))); }
            if l.fin && !l.ended { return fail("no-fin", format!("stream {s} was finished and never ended; {}", cut2(&self.log))); }
            if !l.said.is_empty() { return fail("unheard", format!("of stream {s} the engine never reported {:?}; {}", l.said.front(), cut2(&self.log))); }
        }
        for (s, l) in &self.lines { if let Some(c) = l.reset { if !(l.cut == Some(c) || l.ended) { return fail("reset", format!("stream {s} was reset with {c}, the server saw {:?}; {}", l.cut, cut2(&self.log))); } } }
        Ok(())
    }
}
fn cut2(s: &str) -> String { if s.len() > 900 { format!("{}..{}", &s[..50], &s[s.len() - 800..]) } else { s.into() } }
fn publish(r: &mut Rng, n: usize) -> PublishCommand {
    PublishCommand { topic_name: gen::topic(r, false), payload: r.bytes(n), qos: r.below(3) as u8, retain: r.bool(), dup: false, packet_id: None, properties: vec![], priority: 128 }
}
/// a user of the engine: streams, commands, messages, and endings
pub fn session(c: &mut Case) -> R {
    clock::start();
    let mut r = c.rng.clone();
    let v5 = r.bool();
    let cap = *r.pick(&[1usize, 2, 5, 1000]);
    let window = *r.pick(&[100u32, 700, 5000, 1_000_000]);
    let mut q = Q::new(&mut r, v5, cap, window);
    q.c.connect(addr(SADDR), "localhost", CLIENT.with(|c| c.clone()), Instant::now()).map_err(|e| Fail { key: "connect".into(), msg: format!("{e:?}") })?;
    for _ in 0..4000 { q.round(&mut r)?; if q.up { break; } }
    if !q.up { if q.loss { c.trivial = true; c.note("no session yet, too many datagrams lost"); return Ok(()); } return fail("connect", format!("no MQTT session over QUIC; {}", cut2(&q.log))); }
    q.slow = r.chance(1, 3);
    let mut mine: Vec<u64> = vec![];
    let (mut dp, mut ds): (Option<u64>, Option<u64>) = (None, None);
    let n = r.range(3, 40);
    for _ in 0..n {
        let big = *r.pick(&[5usize, 50, 400, 3000]);
        let k = r.below(24);
        q.log += &format!(" {k}");
        match k {
            0..=2 => if mine.len() < 8 { let s = q.c.open_data_stream().map_err(|e| Fail { key: "open".into(), msg: format!("{e:?}") })?; if mine.contains(&s) || q.control == Some(s) || Some(s) == dp || Some(s) == ds { return fail("open", format!("stream {s} is not a new one")); } mine.push(s); q.line(s); },
            3..=8 => if !mine.is_empty() {
                let s = *r.pick(&mine);
                let p = { let n = r.range(0, big); publish(&mut r, n) };
                q.log += &format!("p{s}");
                match q.c.publish_on(s, p.clone()) {
                    Ok(i) => { if q.line(s).fin || q.line(s).reset.is_some() { return fail("after-end", format!("publish_on a finished stream {s}")); } if (p.qos > 0) != i.is_some() { return fail("id", format!("qos {} got {i:?}", p.qos)); } let x = pubs(&p.topic_name, &p.payload, p.qos, p.retain, i); q.line(s).cmds.push_back(x) }
                    Err(e) => { q.log += &format!("!"); let _ = e; }
                }
            },
            9 => if !mine.is_empty() { let s = *r.pick(&mine); let t = gen::filter(&mut r); let o = r.below(3) as u8; if let Ok(i) = q.c.subscribe_on(s, SubscribeCommand::single(t.clone(), o)) { q.line(s).cmds.push_back(format!("SUBSCRIBE {i} {:?}", vec![(t, o)])); } },
            10 => if !mine.is_empty() { let s = *r.pick(&mine); let t = gen::filter(&mut r); if let Ok(i) = q.c.unsubscribe_on(s, UnsubscribeCommand::from_topics(vec![t.clone()])) { q.line(s).cmds.push_back(format!("UNSUBSCRIBE {i} {:?}", vec![t])); } },
            11 | 12 => {
                let p = { let n = r.range(0, big); publish(&mut r, n) };
                let before = q.c.data_stream_count();
                if let Ok(i) = q.c.publish(p.clone()) {
                    // the one stream opened for it
                    let s = match dp { Some(s) => s, None => { if q.c.data_stream_count() != before + 1 { return fail("default", "no stream was opened for the first publish"); } let s = 4 * (1 + mine.len() as u64 + ds.is_some() as u64); dp = Some(s); s } };
                    let x = pubs(&p.topic_name, &p.payload, p.qos, p.retain, i);
                    q.line(s).cmds.push_back(x);
                } else if dp.is_none() && q.c.data_stream_count() == before + 1 { dp = Some(4 * (1 + mine.len() as u64 + ds.is_some() as u64)); }
            }
            13 => {
                let t = gen::filter(&mut r);
                let before = q.c.data_stream_count();
                let res = q.c.subscribe(SubscribeCommand::single(t.clone(), 1));
                if ds.is_none() && q.c.data_stream_count() == before + 1 { ds = Some(4 * (1 + mine.len() as u64 + dp.is_some() as u64)); }
                if let (Ok(i), Some(s)) = (res, ds) { q.line(s).cmds.push_back(format!("SUBSCRIBE {i} {:?}", vec![(t, 1u8)])); }
            }
            14..=16 => { let ok: Vec<u64> = q.open.iter().copied().filter(|s| Some(*s) != q.control && { let l = &q.lines[s]; !l.fin && l.reset.is_none() && l.stopped.is_none() }).collect(); if !ok.is_empty() { let s = *r.pick(&ok); let m = r.range(1, 3); for _ in 0..m { let n = r.range(0, big); q.message(&mut r, s, n); } } }
            17 => if !mine.is_empty() && r.chance(1, 3) {
                let s = *r.pick(&mine);
                // answers to what is under way may come after it, so only a stream with none
                if q.lines[&s].ans.is_empty() && q.lines[&s].say.is_empty() && q.lines[&s].said.is_empty() && q.lines[&s].reset.is_none() && !q.lines[&s].cmds.iter().any(|x| x.contains(" q2 ")) && q.lines[&s].seen.iter().all(|x| !x.contains(" q2 ")) {
                    q.log += &format!("fin{s}");
                    q.c.finish_stream(s).map_err(|e| Fail { key: "finish".into(), msg: format!("{e:?}") })?; q.line(s).fin = true;
                }
            },
            18 => if !mine.is_empty() && r.chance(1, 4) {
                let s = *r.pick(&mine);
                let code = r.below(1000);
                q.log += &format!("reset{s}");
                if q.c.reset_stream(s, code).is_ok() { let l = q.line(s); if l.reset.is_none() { l.reset = Some(code); } l.gone = true; }
                mine.retain(|x| *x != s);
                if q.lines.len() > 40 { break; }
                // its number stays taken
                mine.push(s);
            },
            19 => { let i = r.range(50000, 65535) as u16; let all: Vec<u64> = mine.iter().copied().chain(q.control).collect(); let s = *r.pick(&all); let (x, res) = match r.below(4) { 0 => ("PUBACK", q.c.puback_on(s, i)), 1 => ("PUBREC", q.c.pubrec_on(s, i)), 2 => ("PUBREL", q.c.pubrel_on(s, i)), _ => ("PUBCOMP", q.c.pubcomp_on(s, i)) }; q.log += &format!("{x}{i}on{s}{}", if res.is_ok() { "" } else { "!" }); if res.is_ok() { q.line(s).cmds.push_back(format!("{x} {i}")); } }
            20 => if let Some(s) = q.control { if q.c.ping().is_ok() { q.line(s).ans.push_back("PINGREQ".into()); } },
            _ => { let m = r.range(1, 6); for _ in 0..m { q.round(&mut r)?; } }
        }
    }
    q.settle(&mut r)?;
    if let (true, Some(s)) = (r.bool(), q.control) {
        let code = r.below(1 << 20);
        let reason = { let n = r.range(0, 20); r.bytes(n) };
        let graceful = r.bool();
        if graceful { q.line(s).cmds.push_back("DISCONNECT".into()); q.c.disconnect_and_close(code, &reason) } else { q.c.close(code, &reason) }.map_err(|e| Fail { key: "close".into(), msg: format!("{e:?}") })?;
        q.close = Some((code, reason.clone(), graceful));
        for _ in 0..400 { q.round(&mut r)?; if q.closed.is_some() { break; } }
        if q.closed != Some((code, reason.clone())) { return fail("close", format!("closed with {code} {}, the server saw {:?}; {}", hex(&reason), q.closed, cut2(&q.log))); }
        if graceful && !q.lines[&s].cmds.is_empty() { return fail("disconnect", format!("the connection was closed before the server read DISCONNECT; {}", cut2(&q.log))); }
    }
    c.note(cut(&q.log));
    Ok(())
}
/// an unacknowledged publish is sent again on the stream it came from
pub fn again(c: &mut Case) -> R {
    clock::start();
    let mut r = c.rng.clone();
    let mut q = Q::new(&mut r, false, 1000, 1_000_000);
    q.loss = false;
    q.ack = false;
    q.c.connect(addr(SADDR), "localhost", CLIENT.with(|c| c.clone()), Instant::now()).map_err(|e| Fail { key: "connect".into(), msg: format!("{e:?}") })?;
    for _ in 0..4000 { q.round(&mut r)?; if q.up { break; } }
    if !q.up { if q.loss { c.trivial = true; c.note("no session yet, too many datagrams lost"); return Ok(()); } return fail("connect", format!("no MQTT session over QUIC; {}", cut2(&q.log))); }
    let n = r.range(1, 4);
    let ss: Vec<u64> = (0..n).map(|_| q.c.open_data_stream().unwrap()).collect();
    let mut due: BTreeMap<u64, Vec<String>> = BTreeMap::new();
    for _ in 0..r.range(1, 6) {
        let s = *r.pick(&ss);
        let mut p = publish(&mut r, 20);
        p.qos = r.range(1, 2) as u8;
        let i = q.c.publish_on(s, p.clone()).map_err(|e| Fail { key: "publish".into(), msg: format!("{e:?}") })?;
        let x = pubs(&p.topic_name, &p.payload, p.qos, p.retain, i);
        q.line(s).cmds.push_back(x.clone());
        due.entry(s).or_default().push(x);
    }
    q.settle(&mut r)?;
    clock::advance(Duration::from_millis(5100));
    for _ in 0..60 { q.round(&mut r)?; }
    for (s, xs) in &due { for x in xs { let k = q.lines[s].seen.iter().filter(|y| *y == x).count(); if k < 2 { return fail("again", format!("{x} on stream {s} was not sent again after its time ran out")); } } }
    c.note(format!("{n} streams, {} publishes", due.values().map(|v| v.len()).sum::<usize>()));
    Ok(())
}
/// the server refuses streams: what is accepted afterwards goes where it is read, and the other streams carry on
pub fn refused(c: &mut Case) -> R {
    clock::start();
    let mut r = c.rng.clone();
    let v5 = r.bool();
    let mut q = Q::new(&mut r, v5, 1000, 1_000_000);
    q.loss = false;
    q.c.connect(addr(SADDR), "localhost", CLIENT.with(|c| c.clone()), Instant::now()).map_err(|e| Fail { key: "connect".into(), msg: format!("{e:?}") })?;
    for _ in 0..4000 { q.round(&mut r)?; if q.up { break; } }
    if !q.up { return fail("connect", format!("no MQTT session over QUIC; {}", cut2(&q.log))); }
    // the next stream number, the streams there are, and those gone
    let mut next = 4u64;
    let mut live: BTreeSet<u64> = BTreeSet::new();
    let mut gone: Vec<u64> = vec![];
    let (mut dp, mut ds): (Option<u64>, Option<u64>) = (None, None);
    for _ in 0..r.range(3, 24) {
        let k = r.below(15);
        q.log += &format!(" {k}");
        let before = q.c.data_stream_count();
        let any: Vec<u64> = live.iter().copied().collect();
        match k {
            0 | 1 => if live.len() < 8 { let s = q.c.open_data_stream().map_err(|e| Fail { key: "open".into(), msg: format!("{e:?}") })?; if s != next { return fail("open", format!("stream {s} opened where {next} was next; {}", cut2(&q.log))); } next += 4; live.insert(s); q.line(s); },
            2 | 3 => if !any.is_empty() {
                let s = *r.pick(&any);
                let p = { let n = r.range(0, 60); publish(&mut r, n) };
                q.log += &format!("p{s}");
                if let Ok(i) = q.c.publish_on(s, p.clone()) { let x = pubs(&p.topic_name, &p.payload, p.qos, p.retain, i); q.line(s).cmds.push_back(x); }
            },
            4 => if !gone.is_empty() {
                let s = *r.pick(&gone);
                let p = publish(&mut r, 5);
                if q.c.publish_on(s, p).is_ok() || q.c.subscribe_on(s, SubscribeCommand::single("a".to_string(), 1)).is_ok() { return fail("gone", format!("a command for the refused stream {s} was accepted; {}", cut2(&q.log))); }
            },
            5 | 6 => {
                let p = { let n = r.range(0, 60); publish(&mut r, n) };
                let res = q.c.publish(p.clone());
                if dp.is_none() {
                    if q.c.data_stream_count() == before + 1 { dp = Some(next); live.insert(next); next += 4; }
                    else if res.is_ok() { return fail("default", format!("a publish was accepted, no stream was opened for it; {}", cut2(&q.log))); }
                }
                if let (Ok(i), Some(s)) = (res, dp) { let x = pubs(&p.topic_name, &p.payload, p.qos, p.retain, i); q.log += &format!("p{s}"); q.line(s).cmds.push_back(x); }
            }
            7 | 8 => {
                let t = gen::filter(&mut r);
                let res = q.c.subscribe(SubscribeCommand::single(t.clone(), 1));
                if ds.is_none() {
                    if q.c.data_stream_count() == before + 1 { ds = Some(next); live.insert(next); next += 4; }
                    else if res.is_ok() { return fail("default", format!("a subscribe was accepted, no stream was opened for it; {}", cut2(&q.log))); }
                }
                if let (Ok(i), Some(s)) = (res, ds) { q.log += &format!("s{s}"); q.line(s).cmds.push_back(format!("SUBSCRIBE {i} {:?}", vec![(t, 1u8)])); }
            }
            9 | 10 => {
                for _ in 0..6 { q.round(&mut r)?; }
                let open: Vec<u64> = q.open.iter().copied().filter(|s| live.contains(s)).collect();
                if open.is_empty() { continue; }
                let s = *r.pick(&open);
                let code = r.below(1000);
                let how = if q.lines[&s].gone { r.below(1) } else { r.below(3) } as u8;
                q.log += &format!("{}{s}", ["stop", "reset", "end"][how as usize]);
                q.refuse.push((s, code, how));
                for _ in 0..50 { q.round(&mut r)?; if !q.refused.is_empty() { break; } }
                let said = std::mem::take(&mut q.refused);
                let due = [format!("stopped {s} {code}"), format!("reset {s} {code}"), format!("closed {s}")][how as usize].clone();
                if said != [due.clone()] { return fail("refused", format!("{due} by the server, the engine reports {said:?}; {}", cut2(&q.log))); }
                // it can still be sent on
                if how == 2 { continue; }
                live.remove(&s);
                gone.push(s);
                if dp == Some(s) { dp = None; }
                if ds == Some(s) { ds = None; }
            }
            11 => {
                let ok: Vec<u64> = q.open.iter().copied().filter(|s| live.contains(s) && !q.lines[s].gone).collect();
                if !ok.is_empty() { let s = *r.pick(&ok); for _ in 0..r.range(1, 3) { let n = r.range(0, 100); q.message(&mut r, s, n); } }
            }
            12 => {
                // a stream of the server's, for its messages
                let m = q.open.len();
                q.opens = r.range(1, 2);
                q.there(&mut r)?;
                for s in q.open[m..].to_vec() { q.log += &format!("open{s}"); for _ in 0..r.range(1, 2) { let n = r.range(0, 100); q.message(&mut r, s, n); } live.insert(s); }
                for _ in 0..20 { q.round(&mut r)?; }
            }
            _ => for _ in 0..r.range(1, 6) { q.round(&mut r)?; },
        }
        if q.c.data_stream_count() != live.len() { return fail("count", format!("{} data streams, the engine counts {}; {}", live.len(), q.c.data_stream_count(), cut2(&q.log))); }
    }
    q.settle(&mut r)?;
    c.note(format!("{} streams refused, {} left; {}", gone.len(), live.len(), cut(&q.log)));
    Ok(())
}
/// what arrives before a stream is ended is still answered on it, and what was accepted before comes before its end
pub fn last(c: &mut Case) -> R {
    clock::start();
    let mut r = c.rng.clone();
    let v5 = r.bool();
    let mut q = Q::new(&mut r, v5, 1000, 1_000_000);
    q.loss = false;
    // the answers' answers would come after the end
    q.ack = false;
    q.c.connect(addr(SADDR), "localhost", CLIENT.with(|c| c.clone()), Instant::now()).map_err(|e| Fail { key: "connect".into(), msg: format!("{e:?}") })?;
    for _ in 0..4000 { q.round(&mut r)?; if q.up { break; } }
    if !q.up { return fail("connect", format!("no MQTT session over QUIC; {}", cut2(&q.log))); }
    let n = r.range(1, 3);
    let ss: Vec<u64> = (0..n).map(|_| q.c.open_data_stream().unwrap()).collect();
    let put = |q: &mut Q, r: &mut Rng, s: u64| -> R {
        let p = { let n = r.range(0, 300); publish(r, n) };
        if let Ok(i) = q.c.publish_on(s, p.clone()) { let x = pubs(&p.topic_name, &p.payload, p.qos, p.retain, i); q.line(s).cmds.push_back(x); }
        Ok(())
    };
    // a stream the server has not heard of cannot be answered on
    for s in &ss { q.c.publish_on(*s, PublishCommand::simple("a", vec![], 0, false)).map_err(|e| Fail { key: "publish".into(), msg: format!("{e:?}") })?; let x = pubs("a", &[], 0, false, None); q.line(*s).cmds.push_back(x); }
    for _ in 0..10 { q.round(&mut r)?; }
    for s in &ss { for _ in 0..r.range(0, 3) { let n = r.range(0, 100); q.message(&mut r, *s, n); } if r.bool() { put(&mut q, &mut r, *s)?; } }
    q.there(&mut r)?;
    for s in &ss { for _ in 0..r.range(0, 2) { put(&mut q, &mut r, *s)?; } if r.chance(3, 4) { q.log += &format!(" fin{s}"); q.c.finish_stream(*s).map_err(|e| Fail { key: "finish".into(), msg: format!("{e:?}") })?; q.line(*s).fin = true; } }
    q.back(&mut r)?;
    q.settle(&mut r)?;
    c.note(cut(&q.log));
    Ok(())
}
/// connections one after the other: nothing of one is seen on the next
pub fn reconnect(c: &mut Case) -> R {
    clock::start();
    let mut r = c.rng.clone();
    let v5 = r.bool();
    let window = *r.pick(&[100u32, 1000, 1_000_000]);
    let mut q = Q::new(&mut r, v5, 1000, window);
    q.loss = false;
    let n = r.range(2, 4);
    for i in 0..n {
        q.c.connect(addr(SADDR), "localhost", CLIENT.with(|c| c.clone()), Instant::now()).map_err(|e| Fail { key: "connect".into(), msg: format!("{e:?}") })?;
        if q.c.data_stream_count() != 0 { return fail("count", format!("{} data streams on a new connection; {}", q.c.data_stream_count(), cut2(&q.log))); }
        for _ in 0..4000 { q.round(&mut r)?; if q.up { break; } }
        if !q.up { return fail("connect", format!("no MQTT session over QUIC; {}", cut2(&q.log))); }
        q.log += " |";
        let mut live: Vec<u64> = vec![];
        let (mut dp, mut ds): (Option<u64>, Option<u64>) = (None, None);
        let mut next = 4u64;
        for _ in 0..r.range(1, 15) {
            let big = *r.pick(&[5usize, 400, 3000]);
            let before = q.c.data_stream_count();
            match r.below(8) {
                0 | 1 => { let s = q.c.open_data_stream().map_err(|e| Fail { key: "open".into(), msg: format!("{e:?}") })?; if s != next { return fail("open", format!("stream {s} opened where {next} was next; {}", cut2(&q.log))); } next += 4; live.push(s); q.line(s); }
                2 | 3 => if !live.is_empty() { let s = *r.pick(&live); let mut p = { let n = r.range(0, big); publish(&mut r, n) }; p.qos = 0; q.log += &format!(" p{s}"); if q.c.publish_on(s, p.clone()).is_ok() { let x = pubs(&p.topic_name, &p.payload, 0, p.retain, None); q.line(s).cmds.push_back(x); } },
                4 => {
                    let mut p = { let n = r.range(0, big); publish(&mut r, n) };
                    p.qos = 0;
                    let res = q.c.publish(p.clone());
                    if dp.is_none() {
                        if q.c.data_stream_count() == before + 1 { dp = Some(next); next += 4; }
                        else if res.is_ok() { return fail("default", format!("a publish was accepted, no stream was opened for it; {}", cut2(&q.log))); }
                    }
                    if let (Ok(_), Some(s)) = (res, dp) { q.log += &format!(" p{s}"); let x = pubs(&p.topic_name, &p.payload, 0, p.retain, None); q.line(s).cmds.push_back(x); }
                }
                5 => {
                    let t = gen::filter(&mut r);
                    let res = q.c.subscribe(SubscribeCommand::single(t.clone(), 1));
                    if ds.is_none() {
                        if q.c.data_stream_count() == before + 1 { ds = Some(next); next += 4; }
                        else if res.is_ok() { return fail("default", format!("a subscribe was accepted, no stream was opened for it; {}", cut2(&q.log))); }
                    }
                    if let (Ok(i), Some(s)) = (res, ds) { q.log += &format!(" s{s}"); q.line(s).cmds.push_back(format!("SUBSCRIBE {i} {:?}", vec![(t, 1u8)])); }
                }
                6 => if !live.is_empty() && r.chance(1, 2) { let s = *r.pick(&live); if !q.lines[&s].fin { q.log += &format!(" fin{s}"); q.c.finish_stream(s).map_err(|e| Fail { key: "finish".into(), msg: format!("{e:?}") })?; q.line(s).fin = true; live.retain(|x| *x != s); } },
                _ => for _ in 0..r.range(1, 5) { q.round(&mut r)?; },
            }
        }
        if i + 1 == n || r.bool() { q.settle(&mut r)?; }
        if i + 1 == n { break; }
        q.lost = false;
        match r.below(3) {
            0 => { q.log += " closed"; q.c.close(r.below(100), b"end").map_err(|e| Fail { key: "close".into(), msg: format!("{e:?}") })?; for _ in 0..r.range(0, 10) { q.round(&mut r)?; } }
            1 => q.log += " left",
            _ => {
                q.drop = Some(7);
                for _ in 0..100 { q.round(&mut r)?; if q.lost { break; } }
                if !q.lost { return fail("closed", format!("the server closed the connection, the engine does not say so; {}", cut2(&q.log))); }
                if q.c.data_stream_count() != 0 { return fail("count", format!("{} data streams after the connection was lost; {}", q.c.data_stream_count(), cut2(&q.log))); }
                if q.c.open_data_stream().is_ok() { return fail("gone", format!("a stream opened on a lost connection; {}", cut2(&q.log))); }
            }
        }
        // a new connection, and a server that has seen nothing of it
        let sc = std::mem::replace(&mut q.c, QuicMqttEngine::new(MqttClientOptions::default()).unwrap());
        let (cap, log) = (1000, std::mem::take(&mut q.log));
        q = Q::new(&mut r, v5, cap, window);
        q.loss = false;
        q.c = sc;
        q.log = log;
    }
    c.note(cut(&q.log));
    Ok(())
}
