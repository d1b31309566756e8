//! C13-C21, C25, C26: the protocol engine against a reference model, on a virtual clock.
use crate::clock;
use crate::ensure;
use crate::fw::*;
use crate::{gen, refenc};
use flowsdk::mqtt_client::client::{ConnectionResult, PingResult, PublishResult, SubscribeResult, UnsubscribeResult};
use flowsdk::mqtt_client::commands::{PublishCommand, SubscribeCommand, UnsubscribeCommand};
use flowsdk::mqtt_client::engine::{MqttEngine, MqttEvent};
use flowsdk::mqtt_client::opts::MqttClientOptions;
use flowsdk::mqtt_serde::control_packet::MqttPacket;
use flowsdk::mqtt_serde::mqttv5::common::properties::Property;
use flowsdk::mqtt_serde::{mqttv3::*, mqttv5::*};
use std::collections::VecDeque;
use std::time::{Duration, Instant};

pub fn suites(p: &str) -> Vec<Suite> {
    let s = |name, rule, fixed, weight, run| Suite { name, rule, fixed, weight, run };
    const H: &str = "random histories of connects, publishes (all QoS, priorities), subscribes, drains, acknowledgements, losses, resets, ticks on a virtual clock, streams, both versions, small limits; every event and every outgoing byte compared with a reference model";
    match p {
        "C13" => vec![s("engine-window", H, 0, 3, |c| history(c, "C13"))],
        "C14" => vec![s("engine-retransmit", H, 0, 3, |c| history(c, "C14"))],
        "C15" => vec![s("engine-ids", "66000 and more allocations from one engine, mixed with direct next_packet_id calls and reconnects", 0, 1, engine_ids)],
        "C16" => vec![s("engine-answers", H, 0, 3, |c| history(c, "C16")), s("answers-when-full", "an incoming QoS 1/2 PUBLISH or PUBREL while the outgoing buffer is full, then drained", 6, 0, answers_when_full)],
        "C17" => vec![s("engine-completions", H, 0, 3, |c| history(c, "C17"))],
        "C18" => vec![s("backoff", "random and extreme delay settings, up to 80 failures in a row, ticks around every due time, successful and refused CONNACKs in between", 0, 2, backoff), s("engine-reconnect", H, 0, 1, |c| history(c, "C18"))],
        "C19" => vec![s("engine-keepalive", H, 0, 3, |c| history(c, "C19"))],
        "C20" => vec![s("engine-queue", H, 0, 3, |c| history(c, "C20"))],
        "C21" => vec![s("engine-resume", H, 0, 3, |c| history(c, "C21"))],
        "C25" => vec![s("engine-commands", H, 0, 3, |c| history(c, "C25")), s("builders", "random chains of option and command builder calls against plain field assignments", 0, 1, builders)],
        "C26" => vec![s("engine-streams", H, 0, 3, |c| history(c, "C26"))],
        _ => vec![],
    }
}

// --------------------------------------------------------------- model
#[derive(Clone)]
struct Ent { pid: u16, pkt: MqttPacket, qos: u8, stream: Option<u64>, seq: u64, sent: Instant, dl: u64 }

/// expected outgoing packet and the properties its absence or damage breaks
type Exp = (MqttPacket, &'static str);

struct M {
    v5: bool,
    o: MqttClientOptions,
    session: bool,
    last_pid: u16,
    queue: Vec<(u8, MqttPacket)>,
    connected: bool,
    connecting: bool,
    last_sent: Instant,
    ping: Option<Instant>,
    out: VecDeque<Exp>,
    sout: Vec<(u64, MqttPacket)>,
    infl: Vec<Ent>,
    rm: usize,
    ctr: u64,
    attempts: u32,
    next: Option<Instant>,
    done: Vec<u16>,
    /// events raised by commands, delivered with the next call that returns events
    pend: Vec<MqttEvent>,
    /// the transport was replaced since the last drain
    was_reset: bool,
}

/// a publish whose topic the strict encoders refuse
fn unencodable(p: &MqttPacket) -> bool {
    match p { MqttPacket::Publish5(x) => x.topic_name.contains('\0'), MqttPacket::Publish3(x) => x.topic_name.contains('\0'), _ => false }
}
fn holds(p: &MqttPacket) -> bool { crate::queues::holds(p) }
fn is_pub(p: &MqttPacket) -> bool { crate::queues::is_pub(p) }
fn dup(p: &MqttPacket) -> MqttPacket {
    let mut p = p.clone();
    match &mut p {
        MqttPacket::Publish5(x) => x.dup = true,
        MqttPacket::Publish3(x) => x.dup = true,
        _ => {}
    }
    p
}

impl M {
    fn can(&self) -> bool { self.infl.iter().filter(|e| holds(&e.pkt)).count() < self.rm }
    fn room(&self) -> bool { self.out.len() < self.o.max_outgoing_packet_count }
    fn push(&mut self, pid: u16, pkt: MqttPacket, qos: u8, stream: Option<u64>) {
        self.infl.retain(|e| e.pid != pid);
        self.ctr += 1;
        self.infl.push(Ent { pid, pkt, qos, stream, seq: self.ctr, sent: Instant::now(), dl: self.ctr });
    }
    fn ack(&mut self, pid: u16) -> Option<Ent> {
        let i = self.infl.iter().position(|e| e.pid == pid)?;
        self.done.push(pid);
        Some(self.infl.remove(i))
    }
    fn emit(&mut self, p: MqttPacket, tag: &'static str) { self.out.push_back((p, tag)); self.last_sent = Instant::now(); }
    fn process(&mut self) {
        if !self.connected { return; }
        while self.room() {
            let mut k: Option<usize> = None;
            for (i, e) in self.queue.iter().enumerate() { if k.map(|j| e.0 > self.queue[j].0).unwrap_or(true) { k = Some(i); } }
            let Some(k) = k else { break };
            if is_pub(&self.queue[k].1) && !self.can() { break; }
            let (_, p) = self.queue.remove(k);
            if unencodable(&p) { self.pend.push(MqttEvent::Error(flowsdk::mqtt_client::error::MqttClientError::NotConnected)); continue; }
            match &p {
                MqttPacket::Publish5(x) if x.qos > 0 => self.push(x.packet_id.unwrap(), p.clone(), x.qos, None),
                MqttPacket::Publish3(x) if x.qos > 0 => self.push(x.message_id.unwrap(), p.clone(), x.qos, None),
                _ => {}
            }
            self.emit(p, "C13 C20 C25");
        }
    }
    fn alloc(&mut self) -> Option<u16> {
        if !self.session { return None; }
        self.last_pid = if self.last_pid == 65535 { 1 } else { self.last_pid + 1 };
        Some(self.last_pid)
    }
    fn publish_packet(&self, c: &PublishCommand, pid: Option<u16>) -> MqttPacket {
        if self.v5 {
            MqttPacket::Publish5(publishv5::MqttPublish { dup: c.dup, qos: c.qos, retain: c.retain, topic_name: c.topic_name.clone(), packet_id: pid, payload: c.payload.clone(), properties: c.properties.clone() })
        } else {
            MqttPacket::Publish3(publishv3::MqttPublish { dup: c.dup, qos: c.qos, retain: c.retain, topic_name: c.topic_name.clone(), message_id: pid, payload: c.payload.clone() })
        }
    }
    fn subscribe_packet(&self, c: &SubscribeCommand, pid: u16) -> MqttPacket {
        if self.v5 {
            MqttPacket::Subscribe5(subscribev5::MqttSubscribe { packet_id: pid, subscriptions: c.subscriptions.clone(), properties: c.properties.clone() })
        } else {
            MqttPacket::Subscribe3(subscribev3::MqttSubscribe { message_id: pid, subscriptions: c.subscriptions.iter().map(|s| subscribev3::SubscriptionTopic { topic_filter: s.topic_filter.clone(), qos: s.qos }).collect() })
        }
    }
    fn unsubscribe_packet(&self, c: &UnsubscribeCommand, pid: u16) -> MqttPacket {
        if self.v5 { MqttPacket::Unsubscribe5(unsubscribev5::MqttUnsubscribe::new(pid, c.topics.clone(), c.properties.clone())) }
        else { MqttPacket::Unsubscribe3(unsubscribev3::MqttUnsubscribe::new(pid, c.topics.clone())) }
    }
    fn connect_packet(&self) -> MqttPacket {
        let o = &self.o;
        if self.v5 {
            let mut c = connectv5::MqttConnect::new(o.client_id.clone(), None, None, None, 0, false, vec![]);
            c.username = o.username.clone();
            c.password = o.password.clone();
            c.will = o.will.clone();
            c.keep_alive = o.keep_alive;
            c.clean_start = o.clean_start;
            MqttPacket::Connect5(c)
        } else {
            let mut c = connectv3::MqttConnect::new(o.client_id.clone(), o.keep_alive, o.clean_start);
            c.username = o.username.clone();
            c.password = o.password.clone();
            c.will = o.will.as_ref().map(|w| connectv3::Will { retain: w.will_retain, qos: w.will_qos, topic: w.will_topic.clone(), message: w.will_message.clone() });
            MqttPacket::Connect3(c)
        }
    }
    fn schedule(&mut self, now: Instant, ev: &mut Vec<MqttEvent>) {
        if self.o.max_reconnect_attempts > 0 && self.attempts >= self.o.max_reconnect_attempts { self.next = None; return; }
        let d = (self.o.reconnect_base_delay_ms as u128 * (1u128 << self.attempts.min(10))).min(self.o.reconnect_max_delay_ms as u128);
        let delay = Duration::from_millis(d as u64);
        self.next = Some(now + delay);
        self.attempts += 1;
        ev.push(MqttEvent::ReconnectScheduled { attempt: self.attempts, delay });
    }
    /// The protocol's reaction to one incoming packet: events and direct answers.
    fn incoming(&mut self, p: &MqttPacket, stream: Option<u64>) -> (Vec<MqttEvent>, Vec<MqttPacket>) {
        let mut ev = vec![];
        let mut re = vec![];
        let auto = self.o.auto_ack;
        let publ = |m: &mut Self, ev: &mut Vec<MqttEvent>, pid: u16, code: u8, props: Option<Vec<Property>>| {
            if let Some(e) = m.ack(pid) { ev.push(MqttEvent::Published(PublishResult { packet_id: Some(pid), reason_code: Some(code), properties: props, qos: e.qos })); }
        };
        match p {
            MqttPacket::ConnAck5(_) | MqttPacket::ConnAck3(_) => {
                let (code, sp, props) = match p { MqttPacket::ConnAck5(a) => (a.reason_code, a.session_present, a.properties.clone()), MqttPacket::ConnAck3(a) => (a.return_code, a.session_present, None), _ => unreachable!() };
                self.connected = code == 0;
                self.connecting = false;
                if self.connected { self.attempts = 0; self.next = None; }
                if let Some(n) = props.iter().flatten().find_map(|p| if let Property::ReceiveMaximum(n) = p { Some(*n) } else { None }) {
                    if n > 0 { self.rm = n as usize; }
                }
                ev.push(MqttEvent::Connected(ConnectionResult { reason_code: code, session_present: sp, properties: props }));
                if self.connected && sp {
                    let mut v = self.infl.clone();
                    v.sort_by_key(|e| e.seq);
                    for e in v { self.out.push_back((dup(&e.pkt), "C21")); }
                }
            }
            MqttPacket::PubAck5(a) => publ(self, &mut ev, a.packet_id, a.reason_code, Some(a.properties.clone())),
            MqttPacket::PubAck3(a) => publ(self, &mut ev, a.message_id, 0, None),
            MqttPacket::PubComp5(a) => publ(self, &mut ev, a.packet_id, a.reason_code, Some(a.properties.clone())),
            MqttPacket::PubComp3(a) => publ(self, &mut ev, a.message_id, 0, None),
            MqttPacket::PubRec5(a) if a.reason_code >= 0x80 => publ(self, &mut ev, a.packet_id, a.reason_code, Some(a.properties.clone())),
            MqttPacket::PubRec5(_) | MqttPacket::PubRec3(_) => {
                let (pid, rel) = match p { MqttPacket::PubRec5(a) => (a.packet_id, MqttPacket::PubRel5(pubrelv5::MqttPubRel::new(a.packet_id, 0, vec![]))), MqttPacket::PubRec3(a) => (a.message_id, MqttPacket::PubRel3(pubrelv3::MqttPubRel::new(a.message_id))), _ => unreachable!() };
                if self.ack(pid).is_some() {
                    self.push(pid, rel.clone(), 2, stream);
                    re.push(rel);
                }
            }
            MqttPacket::Publish5(_) | MqttPacket::Publish3(_) => {
                let m = match p {
                    MqttPacket::Publish5(a) => a.clone(),
                    MqttPacket::Publish3(a) => publishv5::MqttPublish { dup: a.dup, qos: a.qos, retain: a.retain, topic_name: a.topic_name.clone(), packet_id: a.message_id, payload: a.payload.clone(), properties: vec![] },
                    _ => unreachable!(),
                };
                let (q, id) = (m.qos, m.packet_id);
                ev.push(MqttEvent::PublishReceived { packet_id: id, stream });
                ev.push(MqttEvent::MessageReceived(m));
                if auto { if let Some(id) = id { match (q, self.v5) {
                    (1, true) => re.push(MqttPacket::PubAck5(pubackv5::MqttPubAck::new(id, 0, vec![]))),
                    (1, false) => re.push(MqttPacket::PubAck3(pubackv3::MqttPubAck::new(id))),
                    (2, true) => re.push(MqttPacket::PubRec5(pubrecv5::MqttPubRec::new(id, 0, vec![]))),
                    (2, false) => re.push(MqttPacket::PubRec3(pubrecv3::MqttPubRec::new(id))),
                    _ => {}
                } } }
            }
            MqttPacket::PubRel5(a) => {
                ev.push(MqttEvent::PubRelReceived { packet_id: a.packet_id, stream });
                if auto { re.push(MqttPacket::PubComp5(pubcompv5::MqttPubComp::new(a.packet_id, 0, vec![]))); }
            }
            MqttPacket::PubRel3(a) => {
                ev.push(MqttEvent::PubRelReceived { packet_id: a.message_id, stream });
                if auto { re.push(MqttPacket::PubComp3(pubcompv3::MqttPubComp::new(a.message_id))); }
            }
            MqttPacket::SubAck5(a) => { self.ack(a.packet_id); ev.push(MqttEvent::Subscribed(SubscribeResult { packet_id: a.packet_id, reason_codes: a.reason_codes.clone(), properties: a.properties.clone() })); }
            MqttPacket::SubAck3(a) => { self.ack(a.message_id); ev.push(MqttEvent::Subscribed(SubscribeResult { packet_id: a.message_id, reason_codes: a.return_codes.clone(), properties: vec![] })); }
            MqttPacket::UnsubAck5(a) => { self.ack(a.packet_id); ev.push(MqttEvent::Unsubscribed(UnsubscribeResult { packet_id: a.packet_id, reason_codes: a.reason_codes.clone(), properties: a.properties.clone() })); }
            MqttPacket::UnsubAck3(a) => { self.ack(a.message_id); ev.push(MqttEvent::Unsubscribed(UnsubscribeResult { packet_id: a.message_id, reason_codes: vec![], properties: vec![] })); }
            MqttPacket::PingResp5(_) | MqttPacket::PingResp3(_) => { self.ping = None; ev.push(MqttEvent::PingResponse(PingResult { success: true })); }
            MqttPacket::Disconnect5(d) => { self.connected = false; ev.push(MqttEvent::Disconnected(Some(d.reason_code))); }
            _ => {}
        }
        (ev, re)
    }
    fn ka(&self) -> Duration { Duration::from_secs(self.o.keep_alive as u64) }
    /// first moment at which a tick acts (given room in the outgoing buffer)
    fn first_action(&self) -> Option<Instant> {
        if !self.connected { return self.next; }
        let mut v = vec![];
        if self.o.keep_alive > 0 {
            if let Some(p) = self.ping { v.push(p + self.ka() * self.o.ping_timeout_multiplier); }
            else if self.o.auto_keepalive { v.push(self.last_sent + self.ka()); }
        }
        if !self.v5 { for e in &self.infl { v.push(e.sent + Duration::from_millis(self.o.retransmission_timeout_ms)); } }
        v.into_iter().min()
    }
    fn tick(&mut self, now: Instant) -> Vec<MqttEvent> {
        let mut ev = vec![];
        if !self.connected {
            if self.next.map(|t| now >= t).unwrap_or(false) { ev.push(MqttEvent::ReconnectNeeded); self.next = None; }
            return ev;
        }
        let ka = self.ka();
        if self.o.keep_alive > 0 && self.ping.map(|p| now - p >= ka * self.o.ping_timeout_multiplier).unwrap_or(false) {
            ev.push(MqttEvent::ReconnectNeeded);
            self.connected = false;
            self.ping = None;
            self.schedule(now, &mut ev);
            return ev;
        }
        if self.ping.is_none() && self.o.auto_keepalive && self.o.keep_alive > 0 && now - self.last_sent >= ka && self.room() {
            self.out.push_back((self.ping_packet(), "C19"));
            self.last_sent = now;
            self.ping = Some(now);
        }
        if !self.v5 {
            let to = Duration::from_millis(self.o.retransmission_timeout_ms);
            let mut due: Vec<usize> = (0..self.infl.len()).filter(|&i| now - self.infl[i].sent >= to).collect();
            due.sort_by_key(|&i| self.infl[i].dl);
            for i in due {
                self.ctr += 1;
                self.infl[i].sent = now;
                self.infl[i].dl = self.ctr;
                let p = dup(&self.infl[i].pkt);
                match self.infl[i].stream { Some(s) => self.sout.push((s, p)), None => self.out.push_back((p, "C14 C26")) }
                self.last_sent = now;
            }
        }
        ev
    }
    fn ping_packet(&self) -> MqttPacket { if self.v5 { MqttPacket::PingReq5(pingreqv5::MqttPingReq::new()) } else { MqttPacket::PingReq3(pingreqv3::MqttPingReq::new()) } }
}

// -------------------------------------------------------------- driver
/// A disagreement and the properties it breaks.
struct Dis { tags: String, key: String, msg: String }
type D = Result<(), Dis>;
fn dis<T>(tags: &str, key: &str, msg: String) -> Result<T, Dis> { Err(Dis { tags: tags.into(), key: key.into(), msg }) }

fn norm(e: &[MqttEvent]) -> Vec<String> {
    e.iter().map(|e| match e { MqttEvent::Error(_) => "Error".to_string(), e => format!("{e:?}") }).collect()
}
fn ev_tags(s: &str) -> &'static str {
    if s.starts_with("Published(") || s.starts_with("Subscribed") || s.starts_with("Unsubscribed") { "C17 C26" }
    else if s.starts_with("MessageReceived") || s.starts_with("PublishReceived") || s.starts_with("PubRelReceived") { "C16 C26" }
    else if s.starts_with("Reconnect") { "C18 C19" }
    else if s.starts_with("PingResponse") { "C19" }
    else if s.starts_with("Connected") { "C21 C18" }
    else { "C16 C17 C20" }
}
fn cmp_events(tags: &str, got: &[MqttEvent], want: &[MqttEvent], what: &str) -> D {
    let (g, w) = (norm(got), norm(want));
    if g == w { return Ok(()); }
    let i = (0..g.len().max(w.len())).find(|&i| g.get(i) != w.get(i)).unwrap();
    let mut t = tags.to_string();
    for x in [g.get(i), w.get(i)].into_iter().flatten() { t.push(' '); t.push_str(ev_tags(x)); }
    dis(&t, "events", format!("{what}: events {} expected {}", cut(&format!("{g:?}")), cut(&format!("{w:?}"))))
}
fn kind_tags(p: &MqttPacket) -> &'static str {
    match p {
        MqttPacket::Publish5(_) | MqttPacket::Publish3(_) => {
            let d = match p { MqttPacket::Publish5(x) => x.dup, MqttPacket::Publish3(x) => x.dup, _ => false };
            if d { "C14 C21 C26" } else { "C20 C13 C25" }
        }
        MqttPacket::PubAck5(_) | MqttPacket::PubAck3(_) | MqttPacket::PubRec5(_) | MqttPacket::PubRec3(_) | MqttPacket::PubComp5(_) | MqttPacket::PubComp3(_) => "C16 C26",
        MqttPacket::PubRel5(_) | MqttPacket::PubRel3(_) => "C16 C14 C21 C26",
        MqttPacket::PingReq5(_) | MqttPacket::PingReq3(_) => "C19",
        MqttPacket::Connect5(_) | MqttPacket::Connect3(_) => "C25",
        MqttPacket::Subscribe5(_) | MqttPacket::Subscribe3(_) | MqttPacket::Unsubscribe5(_) | MqttPacket::Unsubscribe3(_) => "C20 C25 C14 C21",
        _ => "C20",
    }
}
fn split(mut b: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    while !b.is_empty() {
        match refenc::frame(b) { Some(Ok(n)) => { v.push(b[..n].to_vec()); b = &b[n..]; } _ => { v.push(b.to_vec()); break; } }
    }
    v
}
fn show(v5: bool, b: &[u8]) -> String {
    match MqttPacket::from_bytes_with_version(b, if v5 { 5 } else { 4 }) { Ok(flowsdk::mqtt_serde::parser::ParseOk::Packet(p, _)) => dbg(&p), _ => hex(b) }
}
/// Compares outgoing bytes with the expected packets.
fn cmp_bytes(v5: bool, got: &[u8], want: &[Exp], what: &str) -> D {
    let w: Vec<Vec<u8>> = want.iter().map(|p| refenc::enc(&p.0)).collect();
    if got == w.concat() { return Ok(()); }
    let g = split(got);
    let i = (0..g.len().max(w.len())).find(|&i| g.get(i) != w.get(i)).unwrap_or(0);
    let mut t = String::new();
    if let Some(x) = want.get(i) { t.push_str(x.1); }
    if let Some(x) = g.get(i) {
        if let Ok(flowsdk::mqtt_serde::parser::ParseOk::Packet(p, _)) = MqttPacket::from_bytes_with_version(x, if v5 { 5 } else { 4 }) { t.push(' '); t.push_str(kind_tags(&p)); } else { t.push_str(" C20 C25 C21 C16"); }
    }
    let f = |v: &Vec<Vec<u8>>| v.get(i).map(|x| show(v5, x)).unwrap_or_else(|| "nothing".into());
    dis(&t, "outgoing", format!("{what}: outgoing packet {i} of {} is {} but should be {} (packet {i} of {})", g.len(), f(&g), f(&w), w.len()))
}

struct Sim { e: MqttEngine, m: M, log: String, upid: u16, streams: u64 }

#[derive(Clone, Copy)]
struct W { connect: u64, publish: u64, sub: u64, drain: u64, ack: u64, inpub: u64, tick: u64, lost: u64, stream: u64, ping: u64, misc: u64 }
fn weights(prop: &str) -> W {
    let b = W { connect: 6, publish: 20, sub: 6, drain: 14, ack: 18, inpub: 6, tick: 10, lost: 3, stream: 4, ping: 1, misc: 2 };
    match prop {
        "C13" | "C20" => W { publish: 40, inpub: 2, tick: 2, stream: 2, ..b },
        "C14" => W { tick: 30, stream: 12, ..b },
        "C16" => W { inpub: 40, drain: 20, ..b },
        "C17" => W { ack: 40, sub: 12, ..b },
        "C18" => W { tick: 30, lost: 12, connect: 14, misc: 10, ..b },
        "C19" => W { tick: 50, ping: 8, ..b },
        "C21" => W { connect: 20, lost: 12, tick: 14, stream: 12, ..b },
        "C25" => W { sub: 20, publish: 30, misc: 6, ..b },
        "C26" => W { stream: 50, ack: 30, tick: 14, ..b },
        _ => b,
    }
}

fn options(r: &mut Rng, v5: bool, prop: &str) -> MqttClientOptions {
    let mut o = MqttClientOptions::default();
    o.mqtt_version = if v5 { 5 } else { *r.pick(&[4u8, 4, 3]) };
    o.client_id = gen::text(r, false);
    o.clean_start = r.bool();
    o.keep_alive = if prop == "C19" { *r.pick(&[0u16, 1, 2, 10, 60, 65535]) } else { *r.pick(&[0u16, 0, 3, 60]) };
    if r.bool() { o.username = Some(gen::text(r, false)); if r.bool() { o.password = Some(gen::blob(r, false)); } }
    if r.chance(1, 3) { o.will = Some(gen::will5(r, false)); }
    o.auto_ack = r.chance(3, 4);
    o.auto_keepalive = r.chance(3, 4);
    o.reconnect_base_delay_ms = *r.pick(&[0u64, 1, 100, 1000, 7_777]);
    o.reconnect_max_delay_ms = *r.pick(&[0u64, 50, 5000, 60_000, 1_000_000]);
    o.max_reconnect_attempts = *r.pick(&[0u32, 0, 1, 2, 5]);
    o.retransmission_timeout_ms = *r.pick(&[0u64, 1, 100, 1000, 5000, 5000]);
    o.ping_timeout_multiplier = *r.pick(&[0u32, 1, 2, 2, 3, 10]);
    o.max_outgoing_packet_count = *r.pick(&[0usize, 1, 2, 3, 5, 8, 1000, 1000]);
    o.receive_maximum = *r.pick(&[0u16, 1, 2, 3, 5, 65535]);
    o.max_event_count = 1_000_000;
    o
}

fn copy(o: &MqttClientOptions) -> MqttClientOptions {
    let mut n = MqttClientOptions::default();
    n.peer = o.peer.clone();
    n.client_id = o.client_id.clone();
    n.clean_start = o.clean_start.clone();
    n.keep_alive = o.keep_alive.clone();
    n.username = o.username.clone();
    n.password = o.password.clone();
    n.will = o.will.clone();
    n.reconnect = o.reconnect.clone();
    n.mqtt_version = o.mqtt_version.clone();
    n.sessionless = o.sessionless.clone();
    n.subscription_topics = o.subscription_topics.clone();
    n.auto_ack = o.auto_ack.clone();
    n.session_expiry_interval = o.session_expiry_interval.clone();
    n.maximum_packet_size = o.maximum_packet_size.clone();
    n.request_response_information = o.request_response_information.clone();
    n.request_problem_information = o.request_problem_information.clone();
    n.reconnect_base_delay_ms = o.reconnect_base_delay_ms.clone();
    n.reconnect_max_delay_ms = o.reconnect_max_delay_ms.clone();
    n.max_reconnect_attempts = o.max_reconnect_attempts.clone();
    n.retransmission_timeout_ms = o.retransmission_timeout_ms.clone();
    n.ping_timeout_multiplier = o.ping_timeout_multiplier.clone();
    n.max_outgoing_packet_count = o.max_outgoing_packet_count.clone();
    n.max_event_count = o.max_event_count.clone();
    n.receive_maximum = o.receive_maximum.clone();
    n.parser_buffer_size = o.parser_buffer_size.clone();
    n.auto_keepalive = o.auto_keepalive.clone();
    n
}
fn describe(o: &MqttClientOptions) -> String {
    let mut s = String::new();
    s.push_str(&format!("peer={:?} ", o.peer));
    s.push_str(&format!("client_id={:?} ", o.client_id));
    s.push_str(&format!("clean_start={:?} ", o.clean_start));
    s.push_str(&format!("keep_alive={:?} ", o.keep_alive));
    s.push_str(&format!("username={:?} ", o.username));
    s.push_str(&format!("password={:?} ", o.password));
    s.push_str(&format!("will={:?} ", o.will));
    s.push_str(&format!("reconnect={:?} ", o.reconnect));
    s.push_str(&format!("mqtt_version={:?} ", o.mqtt_version));
    s.push_str(&format!("sessionless={:?} ", o.sessionless));
    s.push_str(&format!("subscription_topics={:?} ", o.subscription_topics));
    s.push_str(&format!("auto_ack={:?} ", o.auto_ack));
    s.push_str(&format!("session_expiry_interval={:?} ", o.session_expiry_interval));
    s.push_str(&format!("maximum_packet_size={:?} ", o.maximum_packet_size));
    s.push_str(&format!("request_response_information={:?} ", o.request_response_information));
    s.push_str(&format!("request_problem_information={:?} ", o.request_problem_information));
    s.push_str(&format!("reconnect_base_delay_ms={:?} ", o.reconnect_base_delay_ms));
    s.push_str(&format!("reconnect_max_delay_ms={:?} ", o.reconnect_max_delay_ms));
    s.push_str(&format!("max_reconnect_attempts={:?} ", o.max_reconnect_attempts));
    s.push_str(&format!("retransmission_timeout_ms={:?} ", o.retransmission_timeout_ms));
    s.push_str(&format!("ping_timeout_multiplier={:?} ", o.ping_timeout_multiplier));
    s.push_str(&format!("max_outgoing_packet_count={:?} ", o.max_outgoing_packet_count));
    s.push_str(&format!("max_event_count={:?} ", o.max_event_count));
    s.push_str(&format!("receive_maximum={:?} ", o.receive_maximum));
    s.push_str(&format!("parser_buffer_size={:?} ", o.parser_buffer_size));
    s.push_str(&format!("auto_keepalive={:?} ", o.auto_keepalive));
    s
}

impl Sim {
    fn drain(&mut self) -> D {
        self.log.push_str(" drain;");
        let got = self.e.take_outgoing();
        let want: Vec<Exp> = self.m.out.drain(..).collect();
        cmp_bytes(self.m.v5, &got, &want, "take_outgoing")?;
        let gs = self.e.take_stream_retransmissions();
        let g: Vec<(u64, Vec<u8>)> = gs.into_iter().collect();
        let w: Vec<(u64, Vec<u8>)> = self.m.sout.drain(..).map(|(s, p)| (s, refenc::enc(&p))).collect();
        if g != w {
            return dis(if self.m.was_reset { "C14 C26 C21" } else { "C14 C26" }, "stream-retransmissions", format!("take_stream_retransmissions: {} expected {}", cut(&format!("{:?}", g.iter().map(|x| (x.0, show(self.m.v5, &x.1))).collect::<Vec<_>>())), cut(&format!("{:?}", w.iter().map(|x| (x.0, show(self.m.v5, &x.1))).collect::<Vec<_>>()))));
        }
        self.m.was_reset = false;
        Ok(())
    }
    fn connect(&mut self) -> D {
        self.log.push_str(" connect;");
        self.e.connect();
        if !self.m.connected {
            self.reset_model();
            self.m.session = true;
            self.m.connecting = true;
            let p = self.m.connect_packet();
            if self.m.room() { self.m.emit(p, "C25 C21"); }
        }
        Ok(())
    }
    fn reset_model(&mut self) {
        self.m.connected = false;
        self.m.connecting = false;
        self.m.was_reset = true;
        self.m.out.clear();
        self.m.sout.clear();
        self.m.next = None;
        self.m.last_sent = Instant::now();
        self.m.ping = None;
    }
    fn feed(&mut self, r: &mut Rng, ps: &[MqttPacket]) -> D {
        let mut parts: Vec<(Vec<u8>, usize)> = vec![];
        let enc: Vec<Vec<u8>> = ps.iter().map(refenc::enc).collect();
        for p in ps { self.log.push_str(&format!(" in {};", cut_s(p))); }
        let all = enc.concat();
        let k = if r.chance(1, 4) { r.range(0, all.len()) } else { all.len() };
        // how many packets are complete within the first k bytes
        let (mut n, mut l) = (0, 0);
        for e in &enc { if l + e.len() <= k { l += e.len(); n += 1; } else { break; } }
        parts.push((all[..k].to_vec(), n));
        if k < all.len() { parts.push((all[k..].to_vec(), ps.len() - n)); }
        let mut it = ps.iter();
        for (bytes, n) in parts {
            let mut want = std::mem::take(&mut self.m.pend);
            for p in it.by_ref().take(n) {
                let (ev, re) = self.m.incoming(p, None);
                want.extend(ev);
                for x in re { self.m.emit(x, "C16"); }
            }
            self.m.process();
            want.append(&mut self.m.pend);
            let got = self.e.handle_incoming(&bytes);
            cmp_events("", &got, &want, "handle_incoming")?;
        }
        Ok(())
    }
    fn connack(&mut self, r: &mut Rng) -> D {
        let ok = r.chance(4, 5);
        let sp = r.bool();
        let p = if self.m.v5 {
            let props = if r.bool() {
                let mut v = vec![];
                if r.bool() { v.push(Property::ServerKeepAlive(r.u16())); }
                if r.bool() { v.push(Property::ReceiveMaximum(*r.pick(&[1u16, 2, 3, 10, 65535]))); }
                Some(v).filter(|v| !v.is_empty())
            } else { None };
            MqttPacket::ConnAck5(connackv5::MqttConnAck::new(sp, if ok { 0 } else { 0x80 + r.below(32) as u8 }, props))
        } else {
            MqttPacket::ConnAck3(connackv3::MqttConnAck::new(sp, if ok { 0 } else { 1 + r.below(5) as u8 }))
        };
        self.feed(r, &[p])
    }
    fn command(&mut self, r: &mut Rng) -> PublishCommand {
        let q = r.below(3) as u8;
        let n = r.range(0, 5);
        let pid = if q > 0 && r.chance(1, 5) { self.upid += 1; Some(self.upid) } else { None };
        let props = if r.chance(1, 3) { vec![Property::ContentType(gen::text(r, false)), Property::MessageExpiryInterval(r.u32())] } else { vec![] };
        let topic = format!("{}{}", gen::topic(r, false), r.below(100_000));
        let dup = q > 0 && r.chance(1, 8);
        let mut c = PublishCommand::new(topic, r.bytes(n), q, r.bool(), dup, pid, props, *r.pick(&[0u8, 1, 128, 128, 128, 200, 255]));
        // a QoS 0 command may still name an identifier
        if q == 0 && r.chance(1, 10) { c.packet_id = None; }
        c
    }
    fn publish(&mut self, r: &mut Rng) -> D {
        let mut c = self.command(r);
        if r.chance(1, 25) { c.topic_name = "a\0b".into(); }
        self.log.push_str(&format!(" publish q{} p{} {:?}{};", c.qos, c.priority, c.packet_id, if c.topic_name == "a\0b" { " (unencodable)" } else { "" }));
        let pid = if c.qos == 0 { Ok(None) } else if let Some(p) = c.packet_id { Ok(Some(p)) } else { self.m.alloc().map(Some).ok_or(()) };
        let got = self.e.publish(c.clone());
        match (&pid, &got) {
            (Ok(a), Ok(b)) if a == b => {}
            (Err(_), Err(_)) => return Ok(()),
            _ => return dis("C15 C20 C25", "publish-result", format!("publish() = {got:?}, expected {pid:?}")),
        }
        let pkt = self.m.publish_packet(&c, pid.unwrap());
        self.m.queue.push((c.priority, pkt));
        if self.m.queue.len() > 1000 { panic!("harness: queue too long"); }
        self.m.process();
        Ok(())
    }
    fn subs(&mut self, r: &mut Rng) -> SubscribeCommand {
        let n = r.range(1, 3);
        let v = (0..n).map(|_| { let f = gen::filter(r); let nl = r.bool() && !f.starts_with("$share/"); subscribev5::TopicSubscription::new(f, r.below(3) as u8, nl, r.bool(), r.below(3) as u8) }).collect();
        let pid = if r.chance(1, 5) { self.upid += 1; Some(self.upid) } else { None };
        SubscribeCommand::new(pid, v, if r.chance(1, 3) { vec![Property::SubscriptionIdentifier(1 + r.below(200_000_000) as u32)] } else { vec![] })
    }
    fn unsubs(&mut self, r: &mut Rng) -> UnsubscribeCommand {
        let n = r.range(1, 3);
        let v = (0..n).map(|_| gen::filter(r)).collect();
        let pid = if r.chance(1, 5) { self.upid += 1; Some(self.upid) } else { None };
        UnsubscribeCommand::new(pid, v, if r.chance(1, 3) { vec![Property::UserProperty("a".into(), gen::text(r, false))] } else { vec![] })
    }
    /// SUBSCRIBE or UNSUBSCRIBE, through the shared output
    fn subscribe(&mut self, r: &mut Rng) -> D {
        let unsub = r.bool();
        let bad = r.chance(1, 12);
        let (given, got, mk): (Option<u16>, Result<u16, _>, Box<dyn Fn(&M, u16) -> MqttPacket>);
        if unsub {
            let mut c = self.unsubs(r);
            if bad { c.topics[0] = "a\0b".into(); }
            given = c.packet_id;
            got = self.e.unsubscribe(c.clone());
            mk = Box::new(move |m, p| m.unsubscribe_packet(&c, p));
        } else {
            let mut c = self.subs(r);
            if bad { c.subscriptions[0].topic_filter = "a\0b".into(); }
            given = c.packet_id;
            got = self.e.subscribe(c.clone());
            mk = Box::new(move |m, p| m.subscribe_packet(&c, p));
        }
        self.log.push_str(&format!(" {}subscribe{} {:?};", if unsub { "un" } else { "" }, if bad { " (unencodable)" } else { "" }, given));
        let pid = given.or_else(|| self.m.alloc());
        let want = match pid { Some(p) if self.m.room() && !bad => Some(p), _ => None };
        if got.as_ref().ok().copied() != want { return dis("C15 C20 C25", "subscribe-result", format!("(un)subscribe = {got:?}, expected {want:?} (None: refused)")); }
        if let Some(p) = want {
            let k = mk(&self.m, p);
            self.m.emit(k.clone(), "C20 C25");
            self.m.push(p, k, 1, None);
        }
        Ok(())
    }
    /// a packet a conforming broker may send now
    fn broker_ack(&mut self, r: &mut Rng) -> Option<(MqttPacket, Option<u64>)> {
        let v5 = self.m.v5;
        let props = |r: &mut Rng| if r.chance(1, 4) { vec![Property::ReasonString(gen::text(r, false))] } else { vec![] };
        let unknown = r.chance(1, 6);
        if unknown || self.m.infl.is_empty() {
            let pid = if r.chance(2, 3) && !self.m.done.is_empty() { *r.pick(&self.m.done) } else { 30_000 + r.below(5) as u16 };
            if self.m.infl.iter().any(|e| e.pid == pid) { return None; }
            let code = *r.pick(&[0u8, 0x10, 0x80, 0x92]);
            let p = match (r.below(4), v5) {
                (0, true) => MqttPacket::PubAck5(pubackv5::MqttPubAck::new(pid, code, props(r))),
                (0, false) => MqttPacket::PubAck3(pubackv3::MqttPubAck::new(pid)),
                (1, true) => MqttPacket::PubRec5(pubrecv5::MqttPubRec::new(pid, code, props(r))),
                (1, false) => MqttPacket::PubRec3(pubrecv3::MqttPubRec::new(pid)),
                (2, true) => MqttPacket::PubComp5(pubcompv5::MqttPubComp::new(pid, code, props(r))),
                (2, false) => MqttPacket::PubComp3(pubcompv3::MqttPubComp::new(pid)),
                (_, true) => MqttPacket::SubAck5(subackv5::MqttSubAck::new(pid, vec![code], props(r))),
                (_, false) => MqttPacket::SubAck3(subackv3::MqttSubAck::new(pid, vec![0])),
            };
            return Some((p, None));
        }
        let e = r.pick(&self.m.infl).clone();
        let id = e.pid;
        let code = |r: &mut Rng| *r.pick(&[0u8, 0, 0, 0x10, 0x7f, 0x80, 0x83, 0x97, 0xff]);
        let p = match &e.pkt {
            MqttPacket::Publish5(x) if x.qos == 1 => MqttPacket::PubAck5(pubackv5::MqttPubAck::new(id, code(r), props(r))),
            MqttPacket::Publish3(x) if x.qos == 1 => MqttPacket::PubAck3(pubackv3::MqttPubAck::new(id)),
            MqttPacket::Publish5(_) => MqttPacket::PubRec5(pubrecv5::MqttPubRec::new(id, code(r), props(r))),
            MqttPacket::Publish3(_) => MqttPacket::PubRec3(pubrecv3::MqttPubRec::new(id)),
            MqttPacket::PubRel5(_) if r.chance(1, 6) => MqttPacket::PubRec5(pubrecv5::MqttPubRec::new(id, 0, vec![])),
            MqttPacket::PubRel3(_) if r.chance(1, 6) => MqttPacket::PubRec3(pubrecv3::MqttPubRec::new(id)),
            MqttPacket::PubRel5(_) => MqttPacket::PubComp5(pubcompv5::MqttPubComp::new(id, *r.pick(&[0u8, 0, 0x92]), props(r))),
            MqttPacket::PubRel3(_) => MqttPacket::PubComp3(pubcompv3::MqttPubComp::new(id)),
            MqttPacket::Subscribe5(s) => MqttPacket::SubAck5(subackv5::MqttSubAck::new(id, s.subscriptions.iter().map(|_| *r.pick(&[0u8, 1, 2, 0x80])).collect(), props(r))),
            MqttPacket::Subscribe3(s) => MqttPacket::SubAck3(subackv3::MqttSubAck::new(id, s.subscriptions.iter().map(|_| *r.pick(&[0u8, 1, 2, 0x80])).collect())),
            MqttPacket::Unsubscribe5(s) => MqttPacket::UnsubAck5(unsubackv5::MqttUnsubAck::new(id, s.topic_filters.iter().map(|_| *r.pick(&[0u8, 0x11, 0x80])).collect(), props(r))),
            _ => MqttPacket::UnsubAck3(unsubackv3::MqttUnsubAck::new(id)),
        };
        Some((p, e.stream))
    }
    fn inpub(&mut self, r: &mut Rng) -> MqttPacket {
        let n = r.range(0, 5);
        let id = 1 + r.below(6) as u16;
        let v5 = self.m.v5;
        match r.below(8) {
            0 | 1 => if v5 { MqttPacket::PubRel5(pubrelv5::MqttPubRel::new(id, *r.pick(&[0u8, 0x92]), vec![])) } else { MqttPacket::PubRel3(pubrelv3::MqttPubRel::new(id)) },
            _ => {
                let q = r.below(3) as u8;
                let (d, ret) = (q > 0 && r.chance(1, 4), r.bool());
                let i = if q > 0 { Some(id) } else { None };
                let t = gen::topic(r, false);
                if v5 { MqttPacket::Publish5(publishv5::MqttPublish { dup: d, qos: q, retain: ret, topic_name: t, packet_id: i, payload: r.bytes(n), properties: if r.chance(1, 4) { vec![Property::TopicAlias(3)] } else { vec![] } }) }
                else { MqttPacket::Publish3(publishv3::MqttPublish { dup: d, qos: q, retain: ret, topic_name: t, message_id: i, payload: r.bytes(n) }) }
            }
        }
    }
    fn check_next(&self) -> D {
        let (got, want) = (self.e.next_tick_at(), self.m.first_action());
        if let Some(w) = want {
            if got.map(|g| g > w).unwrap_or(true) {
                let now = Instant::now();
                let rel = |t: Instant| t.saturating_duration_since(now).as_nanos() as i128 - now.saturating_duration_since(t).as_nanos() as i128;
                let tags = if !self.m.connected { "C18 C19" } else { "C19 C14" };
                return dis(tags, "next-tick", format!("next_tick_at() is {:?} ns from now but a tick acts {} ns from now", got.map(rel), rel(w)));
            }
        }
        if !self.m.connected && want.is_none() && got.is_some() { return dis("C18", "next-tick", "next_tick_at() announces a reconnection that is not scheduled".into()); }
        Ok(())
    }
    fn tick(&mut self, r: &mut Rng) -> D {
        self.check_next()?;
        let at = self.e.next_tick_at();
        match r.below(8) {
            // just before the announced moment: nothing may happen
            0 | 1 => if let Some(t) = at { if t > Instant::now() { clock::goto(t - Duration::from_nanos(1)); } },
            2..=4 => if let Some(t) = at { clock::goto(t); },
            5 => if let Some(t) = at { clock::goto(t); clock::advance(Duration::from_millis(r.below(4000))); },
            6 => clock::advance(Duration::from_nanos(r.below(3))),
            _ => { let k = if r.chance(1, 4) { 400_000 } else { 3000 }; clock::advance(Duration::from_millis(r.below(k))) }
        }
        let now = Instant::now();
        let quiet = at.map(|t| now < t).unwrap_or(true);
        self.log.push_str(&format!(" tick@{:?};", now));
        let before = (self.m.out.len(), self.m.sout.len());
        let mut want = std::mem::take(&mut self.m.pend);
        let pending = want.len();
        want.extend(self.m.tick(now));
        if quiet && (want.len() > pending || before != (self.m.out.len(), self.m.sout.len())) { return dis("C19 C14 C18", "early-wakeup", "the model acts before the announced wake-up".into()); }
        let got = self.e.handle_tick(now);
        let tags = if self.m.connected { "C19" } else { "C18 C19" };
        cmp_events(tags, &got, &want, "handle_tick")?;
        if quiet {
            let g = self.e.take_outgoing();
            let w: Vec<Exp> = self.m.out.drain(..).collect();
            cmp_bytes(self.m.v5, &g, &w, "after a tick before the announced wake-up")?;
        }
        Ok(())
    }
    fn stream_op(&mut self, r: &mut Rng) -> D {
        let s = if r.chance(1, 6) { None } else { Some(1 + r.below(self.streams)) };
        match r.below(10) {
            0..=3 => {
                let c = self.command(r);
                self.log.push_str(&format!(" publish_encoded q{} {:?} on {s:?};", c.qos, c.packet_id));
                let pid = if c.qos == 0 { Some(None) } else if let Some(p) = c.packet_id { Some(Some(p)) } else { self.m.alloc().map(Some) };
                let got = self.e.publish_encoded(c.clone(), s);
                let ok = pid.filter(|_| c.qos == 0 || self.m.can());
                match (ok, got) {
                    (None, Err(_)) => Ok(()),
                    (Some(p), Ok((gp, b))) => {
                        if p != gp { return dis("C15 C25", "id", format!("publish_encoded gave identifier {gp:?}, expected {p:?}")); }
                        let k = self.m.publish_packet(&c, p);
                        if b != refenc::enc(&k) { return dis("C25 C26", "encoded", format!("publish_encoded gave {} for {}", show(self.m.v5, &b), dbg(&k))); }
                        if let (Some(p), true) = (p, c.qos > 0) { self.m.push(p, k, c.qos, s); }
                        self.m.last_sent = Instant::now();
                        Ok(())
                    }
                    (w, g) => dis("C13 C26", "admission", format!("publish_encoded = {}, expected {}", dbg(&g.map(|x| x.0)), if w.is_some() { "acceptance" } else { "a refusal" })),
                }
            }
            4 | 5 => {
                let unsub = r.bool();
                let (given, got, mk): (Option<u16>, Result<(u16, Vec<u8>), _>, Box<dyn Fn(&M, u16) -> MqttPacket>);
                if unsub { let c = self.unsubs(r); given = c.packet_id; got = self.e.unsubscribe_encoded(c.clone(), s); mk = Box::new(move |m, p| m.unsubscribe_packet(&c, p)); }
                else { let c = self.subs(r); given = c.packet_id; got = self.e.subscribe_encoded(c.clone(), s); mk = Box::new(move |m, p| m.subscribe_packet(&c, p)); }
                self.log.push_str(&format!(" {}subscribe_encoded {given:?} on {s:?};", if unsub { "un" } else { "" }));
                let pid = given.or_else(|| self.m.alloc());
                match (pid, got) {
                    (None, Err(_)) => Ok(()),
                    (Some(p), Ok((gp, b))) => {
                        if p != gp { return dis("C15 C25", "id", format!("identifier {gp:?}, expected {p:?}")); }
                        let k = mk(&self.m, p);
                        if b != refenc::enc(&k) { return dis("C25 C26", "encoded", format!("gave {} for {}", show(self.m.v5, &b), dbg(&k))); }
                        self.m.push(p, k, 1, s);
                        self.m.last_sent = Instant::now();
                        Ok(())
                    }
                    (w, g) => dis("C26", "admission", format!("(un)subscribe_encoded = {}, expected {w:?}", dbg(&g.map(|x| x.0)))),
                }
            }
            _ => {
                if !self.m.connected { return Ok(()); }
                let (p, st) = if r.bool() { (self.inpub(r), None) } else { match self.broker_ack(r) { Some(x) => x, None => return Ok(()) } };
                let st = st.unwrap_or_else(|| 1 + r.below(self.streams));
                self.log.push_str(&format!(" stream {st} in {};", cut_s(&p)));
                let mut ev = std::mem::take(&mut self.m.pend);
                let (e, re) = self.m.incoming(&p, Some(st));
                ev.extend(e);
                if !re.is_empty() { self.m.last_sent = Instant::now(); }
                self.m.process();
                ev.append(&mut self.m.pend);
                let (gev, gb) = self.e.ingest_stream_packet(p, st);
                let w: Vec<Exp> = re.into_iter().map(|p| (p, "C16 C26")).collect();
                cmp_bytes(self.m.v5, &gb, &w, "answer returned for the stream").map_err(|mut d| { d.tags.push_str(" C26 C16"); d })?;
                cmp_events("C26", &gev, &ev, "ingest_stream_packet")
            }
        }
    }
    fn step(&mut self, r: &mut Rng, w: &W) -> D {
        if r.chance(1, 3) { clock::advance(Duration::from_micros(r.below(2_000_000))); } else { clock::advance(Duration::from_nanos(1)); }
        if !self.m.connected && r.chance(1, 2) {
            // get (back) online
            if self.m.connecting { return self.connack(r); }
            return self.connect();
        }
        let total = w.connect + w.publish + w.sub + w.drain + w.ack + w.inpub + w.tick + w.lost + w.stream + w.ping + w.misc;
        let mut k = r.below(total);
        let mut hit = |n: u64| { if k < n { true } else { k -= n; false } };
        if hit(w.connect) { return if self.m.connecting { self.connack(r) } else { self.connect() }; }
        if hit(w.publish) { return self.publish(r); }
        if hit(w.sub) { return self.subscribe(r); }
        if hit(w.drain) { return self.drain(); }
        if hit(w.ack) {
            if !self.m.connected { return Ok(()); }
            let n = if r.chance(1, 4) { r.range(1, 3) } else { 1 };
            let mut ps = vec![];
            for _ in 0..n { if let Some((p, _)) = self.broker_ack(r) { ps.push(p); } }
            // several picks may name the same exchange: keep one per identifier
            if ps.len() > 1 { ps.truncate(1); }
            return self.feed(r, &ps);
        }
        if hit(w.inpub) {
            if !self.m.connected { return Ok(()); }
            let n = r.range(1, 3);
            let ps: Vec<_> = (0..n).map(|_| self.inpub(r)).collect();
            return self.feed(r, &ps);
        }
        if hit(w.tick) { return self.tick(r); }
        if hit(w.lost) {
            match r.below(3) {
                0 => { self.log.push_str(" lost;"); self.e.handle_connection_lost(); self.m.connected = false; self.m.connecting = false; self.m.ping = None; }
                1 => { self.log.push_str(" reset;"); self.e.reset_for_new_transport(); self.reset_model(); }
                _ => {
                    // half of a packet, then the transport is gone
                    self.log.push_str(" partial,reset;");
                    let b = refenc::enc(&self.inpub(r));
                    let k = r.range(0, b.len() - 1);
                    if self.m.connected { let ev = self.e.handle_incoming(&b[..k]); self.m.process(); let w = std::mem::take(&mut self.m.pend); cmp_events("C21", &ev, &w, "handle_incoming of a partial packet")?; }
                    self.e.reset_for_new_transport();
                    self.reset_model();
                }
            }
            return Ok(());
        }
        if hit(w.stream) { return self.stream_op(r); }
        if hit(w.ping) {
            if r.chance(1, 4) {
                self.log.push_str(" send_ping;");
                let (room, now) = (self.m.room(), Instant::now());
                self.e.send_ping();
                if room { let p = self.m.ping_packet(); self.m.out.push_back((p, "C19")); self.m.last_sent = now; self.m.ping = Some(now); }
                return Ok(());
            }
            if r.bool() {
                self.log.push_str(" ping;");
                let room = self.m.room();
                let now = Instant::now();
                let got = self.e.try_send_ping();
                if got.is_ok() != room { return dis("C20 C19", "ping", format!("try_send_ping = {got:?} with room = {room}")); }
                if room { let p = self.m.ping_packet(); self.m.out.push_back((p, "C19")); self.m.last_sent = now; self.m.ping = Some(now); }
                return Ok(());
            }
            if !self.m.connected { return Ok(()); }
            let p = if self.m.v5 { MqttPacket::PingResp5(pingrespv5::MqttPingResp::new()) } else { MqttPacket::PingResp3(pingrespv3::MqttPingResp::new()) };
            return self.feed(r, &[p]);
        }
        match r.below(6) {
            4 => {
                self.log.push_str(" disconnect;");
                self.e.disconnect();
                if self.m.connected {
                    let p = if self.m.v5 { MqttPacket::Disconnect5(disconnectv5::MqttDisconnect::new(0, vec![])) } else { MqttPacket::Disconnect3(disconnectv3::MqttDisconnect::new()) };
                    if self.m.room() { self.m.emit(p, "C20"); }
                    self.m.connected = false;
                }
                Ok(())
            }
            5 => {
                self.log.push_str(" auth;");
                let props = vec![Property::AuthenticationMethod(gen::text(r, false))];
                self.e.auth(0x18, props.clone());
                if self.m.v5 && self.m.room() { self.m.emit(MqttPacket::Auth(authv5::MqttAuth::new(0x18, props)), "C20"); }
                Ok(())
            }
            0 => {
                self.log.push_str(" try_disconnect;");
                let room = self.m.room();
                let was = self.m.connected;
                let got = self.e.try_disconnect();
                if got.is_ok() != (room || !was) { return dis("C20", "disconnect", format!("try_disconnect = {got:?} with room = {room}, connected = {was}")); }
                if was && room {
                    let p = if self.m.v5 { MqttPacket::Disconnect5(disconnectv5::MqttDisconnect::new(0, vec![])) } else { MqttPacket::Disconnect3(disconnectv3::MqttDisconnect::new()) };
                    self.m.emit(p, "C20");
                    self.m.connected = false;
                }
                Ok(())
            }
            1 => if self.m.connected && self.m.v5 { self.feed(r, &[MqttPacket::Disconnect5(disconnectv5::MqttDisconnect::new(0x8b, vec![]))]) } else { Ok(()) },
            2 => {
                self.log.push_str(" schedule_reconnect;");
                let now = Instant::now();
                let mut ev = std::mem::take(&mut self.m.pend);
                self.m.schedule(now, &mut ev);
                self.e.schedule_reconnect(now);
                let got = self.e.take_events();
                cmp_events("C18", &got, &ev, "schedule_reconnect")
            }
            _ => {
                let Some(w) = self.m.alloc() else { return if self.e.next_packet_id().is_ok() { dis("C15", "id", "an identifier without a session".into()) } else { Ok(()) } };
                let g = self.e.next_packet_id();
                if g.as_ref().ok() != Some(&w) { return dis("C15", "id", format!("next_packet_id = {g:?}, expected {w}")); }
                Ok(())
            }
        }
    }
}
fn cut_s(p: &MqttPacket) -> String { let s = format!("{p:?}"); s.chars().take(90).collect() }

fn new_sim(o: MqttClientOptions) -> Sim {
    let v5 = o.mqtt_version == 5;
    let now = clock::start();
    let e = MqttEngine::new(copy(&o));
    let rm = if o.receive_maximum == 0 { 65535 } else { o.receive_maximum as usize };
    Sim { e, m: M { v5, o, session: false, last_pid: 0, queue: vec![], connected: false, connecting: false, last_sent: now, ping: None, out: VecDeque::new(), sout: vec![], infl: vec![], rm, ctr: 0, attempts: 0, next: None, done: vec![], pend: vec![], was_reset: false }, log: String::new(), upid: 40_000, streams: 3 }
}

fn history(c: &mut Case, prop: &'static str) -> R {
    let v5 = c.rng.bool();
    let o = options(&mut c.rng, v5, prop);
    let mut s = new_sim(copy(&o));
    s.log = format!("v{} out<={} rm={} ka={}x{} rt={}ms auto_ack={}:", o.mqtt_version, o.max_outgoing_packet_count, o.receive_maximum, o.keep_alive, o.ping_timeout_multiplier, o.retransmission_timeout_ms, o.auto_ack);
    let w = weights(prop);
    let n = c.rng.range(5, if c.thorough { 300 } else { 90 });
    let mut r = c.rng.clone();
    let mut res: D = Ok(());
    for _ in 0..n {
        res = s.step(&mut r, &w).and_then(|_| s.check_next());
        if res.is_err() { break; }
        if r.chance(1, 6) { res = s.drain(); }
        if res.is_err() { break; }
    }
    if res.is_ok() { res = s.drain(); }
    c.rng = r;
    let keep: String = s.log.chars().rev().take(1500).collect::<Vec<_>>().into_iter().rev().collect();
    c.note(keep);
    match res {
        Ok(()) => Ok(()),
        Err(d) if d.tags.split_whitespace().any(|t| t == prop) => fail(&d.key, format!("{} -- history: {}", d.msg, c.note)),
        // some other property's business
        Err(_) => { c.trivial = true; Ok(()) }
    }
}

// ----------------------------------------------------------------- C15
fn engine_ids(c: &mut Case) -> R {
    let mut o = MqttClientOptions::default();
    o.mqtt_version = if c.rng.bool() { 5 } else { 4 };
    o.receive_maximum = 10;
    let mut e = MqttEngine::new(o);
    ensure!(e.next_packet_id().is_err(), "no-session", "an identifier before the first connect()");
    e.connect();
    let mut last = 0u16;
    let n = 66000 + c.rng.below(if c.thorough { 200_000 } else { 3000 });
    c.note(format!("{n} allocations"));
    for i in 0..n {
        let x = match c.rng.below(40) {
            0 => e.subscribe_encoded(SubscribeCommand::single("a", 0), Some(1)).map(|x| x.0),
            1 => e.unsubscribe_encoded(UnsubscribeCommand::new(None, vec!["a".into()], vec![]), Some(1)).map(|x| x.0),
            2 => { if c.rng.chance(1, 50) { e.handle_connection_lost(); e.connect(); } e.next_packet_id() }
            _ => e.next_packet_id(),
        };
        let x = match x { Ok(x) => x, Err(er) => return fail("refused", format!("allocation {i} refused: {er:?}")) };
        let want = if last == 65535 { 1 } else { last + 1 };
        ensure!(x != 0, "zero", "allocation {i} gave 0");
        ensure!(x == want, "successor", "allocation {i} gave {x} after {last}");
        last = x;
    }
    Ok(())
}

// ----------------------------------------------------------------- C16
fn answers_when_full(c: &mut Case) -> R {
    let v5 = c.index % 2 == 0;
    let mut o = MqttClientOptions::default();
    o.mqtt_version = if v5 { 5 } else { 4 };
    o.max_outgoing_packet_count = 1;
    o.keep_alive = 0;
    let mut s = new_sim(o);
    let mut r = c.rng.clone();
    let run = |s: &mut Sim, r: &mut Rng| -> D {
        s.connect()?;
        s.drain()?;
        s.feed(r, &[if v5 { MqttPacket::ConnAck5(connackv5::MqttConnAck::new(false, 0, None)) } else { MqttPacket::ConnAck3(connackv3::MqttConnAck::new(false, 0)) }])?;
        Ok(())
    };
    if run(&mut s, &mut r).is_err() { return Ok(()); }
    // fill the buffer
    if s.e.publish(PublishCommand::simple("fill", vec![1], 0, false)).is_err() { return Ok(()); }
    let p = match (c.index / 2, v5) {
        (0, true) => MqttPacket::Publish5(publishv5::MqttPublish { dup: false, qos: 1, retain: false, topic_name: "t".into(), packet_id: Some(7), payload: vec![], properties: vec![] }),
        (0, false) => MqttPacket::Publish3(publishv3::MqttPublish { dup: false, qos: 1, retain: false, topic_name: "t".into(), message_id: Some(7), payload: vec![] }),
        (1, true) => MqttPacket::Publish5(publishv5::MqttPublish { dup: false, qos: 2, retain: false, topic_name: "t".into(), packet_id: Some(7), payload: vec![], properties: vec![] }),
        (1, false) => MqttPacket::Publish3(publishv3::MqttPublish { dup: false, qos: 2, retain: false, topic_name: "t".into(), message_id: Some(7), payload: vec![] }),
        (_, true) => MqttPacket::PubRel5(pubrelv5::MqttPubRel::new(7, 0, vec![])),
        (_, false) => MqttPacket::PubRel3(pubrelv3::MqttPubRel::new(7)),
    };
    c.note(format!("outgoing buffer of 1 packet is full; in {}", cut_s(&p)));
    s.e.handle_incoming(&refenc::enc(&p));
    let mut out = s.e.take_outgoing();
    s.e.handle_incoming(&[]);
    out.extend(s.e.take_outgoing());
    let (_, re) = s.m.incoming(&p, None);
    let want = refenc::enc(&re[0]);
    ensure!(split(&out).iter().any(|x| *x == want), "ack-dropped", "no answer to {} after the full outgoing buffer was drained", cut_s(&p));
    Ok(())
}

// ----------------------------------------------------------------- C18
fn backoff(c: &mut Case) -> R {
    let r = &mut c.rng;
    let big = |r: &mut Rng| *r.pick(&[0u64, 1, 2, 999, 1000, 60_000, u32::MAX as u64, 1 << 53, u64::MAX / 1024, u64::MAX / 2, u64::MAX - 1, u64::MAX]);
    let mut o = MqttClientOptions::default();
    o.mqtt_version = if r.bool() { 5 } else { 4 };
    o.reconnect_base_delay_ms = if r.bool() { big(r) } else { r.below(100_000) };
    o.reconnect_max_delay_ms = if r.bool() { big(r) } else { r.below(10_000_000) };
    // the clock of the machine cannot go beyond i64 seconds
    o.max_reconnect_attempts = *r.pick(&[0u32, 0, 0, 1, 3, 20, u32::MAX]);
    let mut s = new_sim(copy(&o));
    let mut log = format!("base={} max={} attempts={}:", o.reconnect_base_delay_ms, o.reconnect_max_delay_ms, o.max_reconnect_attempts);
    let mut r = c.rng.clone();
    let n = r.range(1, 80);
    let res = (|| -> D {
        for _ in 0..n {
            match r.below(10) {
                0..=5 => {
                    log.push_str(" fail;");
                    s.e.handle_connection_lost();
                    s.m.connected = false;
                    s.m.ping = None;
                    let now = Instant::now();
                    let mut ev = vec![];
                    s.m.schedule(now, &mut ev);
                    s.e.schedule_reconnect(now);
                    let got = s.e.take_events();
                    cmp_events("C18", &got, &ev, "schedule_reconnect")?;
                    if s.e.next_tick_at() != s.m.next { return dis("C18", "due", format!("next_tick_at {:?}, expected {:?}", s.e.next_tick_at(), s.m.next)); }
                    if let Some(t) = s.m.next {
                        if t > Instant::now() {
                            let e = s.e.handle_tick(t - Duration::from_nanos(1));
                            cmp_events("C18", &e, &[], "a tick one nanosecond early")?;
                        }
                        if r.bool() {
                            let w = s.m.tick(t);
                            let e = s.e.handle_tick(t);
                            cmp_events("C18", &e, &w, "the tick at the due time")?;
                            let e = s.e.handle_tick(t + Duration::from_secs(1));
                            cmp_events("C18", &e, &[], "the tick after")?;
                        }
                    }
                }
                6 => { log.push_str(" reset;"); s.e.reset_reconnect_state(); s.m.attempts = 0; s.m.next = None; }
                7 => { log.push_str(" connect;"); s.connect()?; s.drain()?; }
                8 => if s.m.connecting { log.push_str(" connack;"); s.connack(&mut r)?; },
                _ => if s.m.connected { log.push_str(" lost;"); s.e.handle_connection_lost(); s.m.connected = false; s.m.ping = None; },
            }
        }
        Ok(())
    })();
    c.note(log);
    match res {
        Err(d) if d.tags.contains("C18") => fail(&d.key, format!("{} -- {}", d.msg, c.note)),
        _ => Ok(()),
    }
}

// ----------------------------------------------------------------- C25
fn builders(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut want = MqttClientOptions::default();
    let mut got = MqttClientOptions::builder();
    let mut log = String::new();
    for _ in 0..r.range(1, 8) {
        macro_rules! f { ($n:ident, $m:ident, $v:expr) => {{ let v = $v; log.push_str(concat!(stringify!($m), " ")); want.$n = v.clone().into(); got = got.$m(v); }}; ($n:ident, $v:expr) => { f!($n, $n, $v) }; }
        match r.below(26) {
            0 => f!(peer, gen::text(r, false)),
            1 => f!(client_id, gen::text(r, false)),
            2 => f!(clean_start, r.bool()),
            3 => f!(keep_alive, r.u16()),
            4 => f!(auto_keepalive, r.bool()),
            5 => { let v = gen::text(r, false); want.username = Some(v.clone()); got = got.username(v); log.push_str("username "); }
            6 => { let v = gen::blob(r, false); want.password = Some(v.clone()); got = got.password(v); log.push_str("password "); }
            7 => { let v = gen::will5(r, false); want.will = Some(v.clone()); got = got.will(v); log.push_str("will "); }
            8 => f!(reconnect, r.bool()),
            9 => f!(sessionless, r.bool()),
            10 => { let v = subscribev5::TopicSubscription::new(gen::filter(r), 1, false, false, 0); want.subscription_topics.push(v.clone()); got = got.add_subscription_topic(v); log.push_str("add_subscription_topic "); }
            11 => f!(auto_ack, r.bool()),
            12 => f!(mqtt_version, *r.pick(&[3u8, 4, 5])),
            13 => { let v = r.u32(); want.session_expiry_interval = Some(v); got = got.session_expiry_interval(v); log.push_str("session_expiry_interval "); }
            14 => f!(reconnect_base_delay_ms, r.next()),
            15 => f!(reconnect_max_delay_ms, r.next()),
            16 => f!(max_reconnect_attempts, r.u32()),
            17 => f!(retransmission_timeout_ms, r.next()),
            18 => f!(ping_timeout_multiplier, r.u32()),
            19 => f!(max_outgoing_packet_count, r.u16() as usize),
            20 => f!(max_event_count, r.u16() as usize),
            21 => f!(receive_maximum, r.u16()),
            22 => f!(parser_buffer_size, r.u16() as usize),
            23 => { let v = vec![subscribev5::TopicSubscription::new(gen::filter(r), 2, true, true, 1)]; want.subscription_topics = v.clone(); got = got.subscription_topics(v); log.push_str("subscription_topics "); }
            24 => { let v = r.bool(); want.request_response_information = Some(v); got = got.request_response_information(v); log.push_str("request_response_information "); }
            _ => { let v = r.bool(); want.request_problem_information = Some(v); got = got.request_problem_information(v); log.push_str("request_problem_information "); }
        }
    }
    let (a, b) = (describe(&got.build()), describe(&want));
    ensure!(a == b, "options", "options after {log}: {} expected {}", cut(&a), cut(&b));
    // publish builder
    let (t, pl, q, ret, d, pr) = (gen::topic(r, false), gen::blob(r, false), r.below(3) as u8, r.bool(), r.bool(), r.next() as u8);
    let mut bl = PublishCommand::builder().topic(t.clone()).payload(pl.clone()).qos(q).retain(ret).dup(d).priority(pr);
    let pid = if r.bool() { let i = gen::id(r); bl = bl.with_packet_id(i); Some(i) } else { None };
    let mut props = vec![];
    for _ in 0..r.below(5) {
        match r.below(7) {
            0 => { let v = r.u32(); props.push(Property::MessageExpiryInterval(v)); bl = bl.with_message_expiry_interval(v); }
            1 => { let v = gen::text(r, false); props.push(Property::ContentType(v.clone())); bl = bl.with_content_type(v); }
            2 => { let v = gen::text(r, false); props.push(Property::ResponseTopic(v.clone())); bl = bl.with_response_topic(v); }
            3 => { let v = gen::blob(r, false); props.push(Property::CorrelationData(v.clone())); bl = bl.with_correlation_data(v); }
            4 => { let v = r.u16(); props.push(Property::TopicAlias(v)); bl = bl.with_topic_alias(v); }
            5 => { let (a, b) = (gen::text(r, false), gen::text(r, false)); props.push(Property::UserProperty(a.clone(), b.clone())); bl = bl.with_user_property(a, b); }
            _ => { let v = gen::any_prop(r, 0, false); props.push(v.clone()); bl = bl.add_property(v); }
        }
    }
    let cmd = match bl.build() { Ok(c) => c, Err(e) => return fail("publish-builder", format!("{e}")) };
    let w = PublishCommand { topic_name: t, payload: pl, qos: q, retain: ret, dup: d, packet_id: pid, properties: props, priority: pr };
    ensure!(format!("{cmd:?}") == format!("{w:?}"), "publish-builder", "builder gave {} expected {}", dbg(&cmd), dbg(&w));
    let p5 = cmd.to_mqtt_publish();
    ensure!(p5 == publishv5::MqttPublish { dup: d, qos: q, retain: ret, topic_name: w.topic_name.clone(), packet_id: pid, payload: w.payload.clone(), properties: w.properties.clone() }, "to_mqtt_publish", "{} from {}", dbg(&p5), dbg(&w));
    let p3 = cmd.to_mqttv3_publish();
    ensure!(p3 == publishv3::MqttPublish { dup: d, qos: q, retain: ret, topic_name: w.topic_name.clone(), message_id: pid, payload: w.payload.clone() }, "to_mqttv3_publish", "{} from {}", dbg(&p3), dbg(&w));
    // subscribe builder
    let mut b = SubscribeCommand::builder();
    let mut ws = vec![];
    for _ in 0..r.range(1, 4) {
        let f = gen::filter(r);
        let q = r.below(3) as u8;
        if r.bool() {
            let mut t = subscribev5::TopicSubscription { topic_filter: f.clone(), qos: q, no_local: false, retain_as_published: false, retain_handling: 0 };
            b = b.add_topic(f, q);
            if r.bool() { t.no_local = r.bool(); b = b.with_no_local(t.no_local); }
            if r.bool() { t.retain_as_published = r.bool(); b = b.with_retain_as_published(t.retain_as_published); }
            if r.bool() { t.retain_handling = r.below(3) as u8; b = b.with_retain_handling(t.retain_handling); }
            ws.push(t);
        } else {
            let t = subscribev5::TopicSubscription { topic_filter: f.clone(), qos: q, no_local: r.bool(), retain_as_published: r.bool(), retain_handling: r.below(3) as u8 };
            b = b.add_topic_with_options(f, q, t.no_local, t.retain_as_published, t.retain_handling);
            ws.push(t);
        }
    }
    let pid = if r.bool() { let i = gen::id(r); b = b.with_packet_id(i); Some(i) } else { None };
    let id = r.u32();
    b = b.with_subscription_id(id);
    let s = match b.build() { Ok(s) => s, Err(e) => return fail("subscribe-builder", format!("{e}")) };
    ensure!(s.subscriptions == ws && s.packet_id == pid && s.properties == vec![Property::SubscriptionIdentifier(id)], "subscribe-builder", "{} expected {}", dbg(&s), dbg(&ws));
    c.note(log);
    Ok(())
}

// ----------------------------------------------------------------- C07
/// The engine's events and answers do not depend on how the bytes were chunked.
pub fn chunking(c: &mut Case) -> R {
    let v5 = c.rng.bool();
    let mut o = MqttClientOptions::default();
    o.mqtt_version = if v5 { 5 } else { 4 };
    let mut s = new_sim(copy(&o));
    let mut r = c.rng.clone();
    let n = r.range(1, 12);
    let mut ps = vec![if v5 { MqttPacket::ConnAck5(connackv5::MqttConnAck::new(false, 0, None)) } else { MqttPacket::ConnAck3(connackv3::MqttConnAck::new(false, 0)) }];
    for _ in 0..n {
        match r.below(6) {
            0 => ps.push(if v5 { MqttPacket::PingResp5(pingrespv5::MqttPingResp::new()) } else { MqttPacket::PingResp3(pingrespv3::MqttPingResp::new()) }),
            1 => ps.push(if v5 { MqttPacket::SubAck5(subackv5::MqttSubAck::new(gen::id(&mut r), vec![0], vec![])) } else { MqttPacket::SubAck3(subackv3::MqttSubAck::new(gen::id(&mut r), vec![0])) }),
            _ => ps.push(s.inpub(&mut r)),
        }
    }
    let frames: Vec<Vec<u8>> = ps.iter().map(refenc::enc).collect();
    let all = frames.concat();
    c.note(format!("{} bytes in {} packets, v{}", all.len(), ps.len(), o.mqtt_version));
    c.fp(&all);
    let run = |events: usize, cuts: &mut dyn FnMut(usize) -> usize| -> (Vec<String>, Vec<u8>) {
        let mut o = copy(&o);
        o.max_event_count = events;
        let mut e = MqttEngine::new(o);
        e.connect();
        e.take_outgoing();
        let (mut ev, mut out, mut i) = (vec![], vec![], 0);
        while i < all.len() {
            let k = cuts(all.len() - i).clamp(1, all.len() - i);
            ev.extend(norm(&e.handle_incoming(&all[i..i + k])));
            i += k;
            loop { let x = norm(&e.handle_incoming(&[])); if x.is_empty() { break; } ev.extend(x); }
            out.extend(e.take_outgoing());
        }
        (ev, out)
    };
    let whole = run(1_000_000, &mut |n| n);
    let mut want = vec![];
    for p in &ps { want.extend(norm(&s.m.incoming(p, None).0)); }
    ensure!(whole.0 == want, "events", "fed at once: {} expected {}", cut(&format!("{:?}", whole.0)), cut(&format!("{want:?}")));
    let max = *r.pick(&[1usize, 2, 3, 10, 100]);
    let lim = *r.pick(&[1usize, 2, 3, 1_000_000]);
    let parts = run(lim, &mut |_| r.range(1, max));
    ensure!(parts == whole, "chunking", "events/answers differ when fed in chunks of at most {max} bytes with {lim} events at a time: {} vs {}", cut(&format!("{:?}", parts.0)), cut(&format!("{:?}", whole.0)));
    Ok(())
}
