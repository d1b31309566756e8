//! C12-C14: priority queue and inflight queue contracts, against list models.
use crate::ensure;
use crate::fw::*;
use crate::gen;
use flowsdk::mqtt_client::inflight::InflightQueue;
use flowsdk::mqtt_serde::control_packet::MqttPacket;
use flowsdk::priority_queue::PriorityQueue;
use std::time::{Duration, Instant};

pub fn suites(p: &str) -> Vec<Suite> {
    let s = |name, rule, fixed, weight, run| Suite { name, rule, fixed, weight, run };
    match p {
        "C12" => vec![
            s("pq-ops", "random sequences of enqueue/dequeue/peek/clear/len over capacities 0..7 and priorities 0..4 or 0..255, against a list", 0, 6, pq),
            s("pq-files", "random queues saved to and loaded from a scratch file", 0, 1, pq_file),
        ],
        "C13" => vec![s("window", "random push/acknowledge/update/clear sequences with re-used identifiers and mixed packet kinds, against a list", 0, 3, inflight_ops)],
        "C14" => vec![s("expiry", "random packets pushed, then ticks at increasing instants around every deadline, with acknowledgements in between", 0, 3, expiry)],
        _ => vec![],
    }
}

// ------------------------------------------------------------------- C12
struct Model { cap: usize, v: Vec<(u8, u32)> }
impl Model {
    fn first_of(&self, best: impl Fn(u8, u8) -> bool) -> Option<usize> {
        let mut k: Option<usize> = None;
        for (i, e) in self.v.iter().enumerate() {
            if k.map(|j| best(e.0, self.v[j].0)).unwrap_or(true) { k = Some(i); }
        }
        k
    }
    fn enqueue(&mut self, p: u8, x: u32) {
        self.v.push((p, x));
        if self.v.len() > self.cap { let i = self.first_of(|a, b| a < b).unwrap(); self.v.remove(i); }
    }
    fn top(&self) -> Option<(u8, u32)> { self.first_of(|a, b| a > b).map(|i| self.v[i]) }
    fn dequeue(&mut self) -> Option<(u8, u32)> { self.first_of(|a, b| a > b).map(|i| self.v.remove(i)) }
}
fn pq_check(q: &PriorityQueue<u8, u32>, m: &Model, log: &str) -> R {
    ensure!(q.len() == m.v.len(), "len", "len() = {} expected {}: {log}", q.len(), m.v.len());
    ensure!(q.is_empty() == m.v.is_empty(), "is_empty", "is_empty() = {}: {log}", q.is_empty());
    let pk = q.peek().map(|(a, b)| (*a, *b));
    ensure!(pk == m.top(), "peek", "peek() = {pk:?} expected {:?}: {log}", m.top());
    Ok(())
}
fn pq_steps(c: &mut Case, q: &mut PriorityQueue<u8, u32>, m: &mut Model, n: usize, log: &mut String) -> R {
    let wide = c.rng.chance(1, 4);
    for _ in 0..n {
        match c.rng.below(20) {
            0..=11 => {
                let p = if wide { c.rng.next() as u8 } else { c.rng.below(4) as u8 };
                let x = c.rng.next() as u32 % 10000;
                log.push_str(&format!(" e{p}:{x}"));
                q.enqueue(p, x);
                m.enqueue(p, x);
            }
            12..=18 => {
                log.push_str(" d");
                let a = q.dequeue();
                let b = m.dequeue();
                ensure!(a == b, "dequeue", "dequeue() = {a:?} expected {b:?}: {log}");
            }
            _ => if c.rng.chance(1, 6) { log.push_str(" c"); q.clear(); m.v.clear(); },
        }
        ensure!(q.len() <= m.cap, "capacity", "{} elements in a queue of capacity {}: {log}", q.len(), m.cap);
        pq_check(q, m, log)?;
    }
    Ok(())
}
fn drain(q: &mut PriorityQueue<u8, u32>, m: &mut Model, log: &str) -> R {
    while !m.v.is_empty() {
        let (a, b) = (q.dequeue(), m.dequeue());
        ensure!(a == b, "drain", "dequeue() = {a:?} expected {b:?}: {log}");
    }
    ensure!(q.dequeue().is_none() && q.is_empty(), "drain", "elements left over: {log}");
    Ok(())
}
fn pq(c: &mut Case) -> R {
    let cap = *c.rng.pick(&[0usize, 1, 2, 3, 3, 5, 7, 40]);
    let mut q = PriorityQueue::new(cap);
    let mut m = Model { cap, v: vec![] };
    let n = c.rng.range(1, if c.thorough { 400 } else { 60 });
    let mut log = format!("cap {cap}:");
    let r = pq_steps(c, &mut q, &mut m, n, &mut log).and_then(|_| drain(&mut q, &mut m, &log));
    c.note(log);
    r
}
fn pq_file(c: &mut Case) -> R {
    let cap = c.rng.range(0, 9);
    let mut q = PriorityQueue::new(cap);
    let mut m = Model { cap, v: vec![] };
    let mut log = format!("cap {cap}:");
    let n = c.rng.range(0, 20);
    pq_steps(c, &mut q, &mut m, n, &mut log)?;
    let d = std::env::temp_dir().join(format!("fvh-{}", std::process::id()));
    std::fs::create_dir_all(&d).map_err(|e| Fail { key: "scratch".into(), msg: e.to_string() })?;
    let f = d.join("q.json");
    let r = (|| -> R {
        if let Err(e) = q.save_to_file(&f) { return fail("save", format!("save_to_file failed: {e}; {log}")); }
        let mut l: PriorityQueue<u8, u32> = match PriorityQueue::load_from_file(&f) { Ok(l) => l, Err(e) => return fail("load", format!("load_from_file failed: {e}; {log}")) };
        pq_check(&q, &m, &log)?;
        pq_check(&l, &m, &log)?;
        let mut m2 = Model { cap, v: m.v.clone() };
        let k = c.rng.range(0, 8);
        log.push_str(" | loaded:");
        pq_steps(c, &mut l, &mut m2, k, &mut log)?;
        drain(&mut l, &mut m2, &log)?;
        drain(&mut q, &mut m, &log)
    })();
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_dir(&d);
    c.note(log);
    r
}

// ------------------------------------------------------------------- C13
pub fn is_pub(p: &MqttPacket) -> bool { matches!(p, MqttPacket::Publish5(_) | MqttPacket::Publish3(_)) }
/// holds a receive-maximum slot: a QoS 1/2 exchange until PUBACK / PUBCOMP
pub fn holds(p: &MqttPacket) -> bool { is_pub(p) || matches!(p, MqttPacket::PubRel5(_) | MqttPacket::PubRel3(_)) }

pub fn inflight_packet(r: &mut Rng, v5: bool, pid: u16) -> MqttPacket {
    use flowsdk::mqtt_serde::{mqttv3, mqttv5};
    let q = 1 + r.below(2) as u8;
    let t = format!("t{}", r.below(100));
    let payload = { let n = r.range(0, 6); r.bytes(n) };
    match (v5, r.below(6)) {
        (true, 0..=3) => MqttPacket::Publish5(mqttv5::publishv5::MqttPublish { dup: false, qos: q, retain: r.bool(), topic_name: t, packet_id: Some(pid), payload, properties: vec![] }),
        (true, 4) => MqttPacket::PubRel5(mqttv5::pubrelv5::MqttPubRel::new(pid, 0, vec![])),
        (true, _) => MqttPacket::Unsubscribe5(mqttv5::unsubscribev5::MqttUnsubscribe::new(pid, vec![t], vec![])),
        (false, 0..=3) => MqttPacket::Publish3(mqttv3::publishv3::MqttPublish { dup: false, qos: q, retain: r.bool(), topic_name: t, message_id: Some(pid), payload }),
        (false, 4) => MqttPacket::PubRel3(mqttv3::pubrel::MqttPubRel::new(pid)),
        (false, _) => MqttPacket::Unsubscribe3(mqttv3::unsubscribev3::MqttUnsubscribe::new(pid, vec![t])),
    }
}

fn inflight_ops(c: &mut Case) -> R {
    let rm0 = *c.rng.pick(&[0u16, 1, 2, 3, 5, 65535]);
    let v5 = c.rng.bool();
    let mut q = InflightQueue::new(rm0, if v5 { 5 } else { 3 }, Duration::from_secs(3600));
    let mut rm = if rm0 == 0 { 65535usize } else { rm0 as usize };
    let mut m: Vec<(u16, MqttPacket, u8, Option<u64>)> = vec![];
    let mut log = format!("receive_maximum {rm0} v{}:", if v5 { 5 } else { 3 });
    let ids = c.rng.range(1, 8) as u64;
    for _ in 0..c.rng.range(1, 60) {
        let held = |m: &Vec<(u16, MqttPacket, u8, Option<u64>)>| m.iter().filter(|e| holds(&e.1)).count();
        match c.rng.below(20) {
            0..=9 => {
                let pid = 1 + c.rng.below(ids) as u16;
                let p = inflight_packet(&mut c.rng, v5, pid);
                let qos = 1 + c.rng.below(2) as u8;
                let st = if c.rng.bool() { Some(c.rng.next()) } else { None };
                let expect = !(is_pub(&p) && held(&m) >= rm);
                let k = if is_pub(&p) { "P" } else if holds(&p) { "R" } else { "S" };
                log.push_str(&format!(" push{k}{pid}"));
                let r = q.push_with_stream(pid, p.clone(), qos, st);
                ensure!(r.is_ok() == expect, "admission", "push of {k}{pid} with {} of {rm} slots used gave {:?}: {log}", held(&m), r.as_ref().err());
                if r.is_ok() { m.retain(|e| e.0 != pid); m.push((pid, p, qos, st)); }
            }
            10..=16 => {
                let pid = 1 + c.rng.below(ids + 1) as u16;
                log.push_str(&format!(" ack{pid}"));
                let r = q.acknowledge(pid);
                let i = m.iter().position(|e| e.0 == pid);
                match (r, i) {
                    (None, None) => {}
                    (Some(e), Some(i)) => {
                        let x = m.remove(i);
                        ensure!(e.packet_id == pid && e.packet == x.1 && e.qos == x.2 && e.stream == x.3, "acknowledged-entry", "acknowledge({pid}) returned {} expected {}: {log}", dbg(&e.packet), dbg(&x.1));
                    }
                    (r, i) => return fail("acknowledge", format!("acknowledge({pid}) = {:?}, tracked: {:?}: {log}", r.map(|e| e.packet_id), i)),
                }
            }
            17 | 18 => {
                let n = *c.rng.pick(&[0u16, 1, 2, 4, 9]);
                log.push_str(&format!(" rm{n}"));
                q.update_receive_maximum(n);
                if n > 0 { rm = n as usize; }
            }
            _ => if c.rng.chance(1, 5) { log.push_str(" clear"); q.clear(); m.clear(); },
        }
        ensure!(q.len() == m.len() && q.is_empty() == m.is_empty(), "len", "len() = {} expected {}: {log}", q.len(), m.len());
        ensure!(q.can_push_publish() == (held(&m) < rm), "window", "can_push_publish() = {} with {} of {rm} slots used: {log}", q.can_push_publish(), held(&m));
        let all = q.get_all_for_reconnect();
        let exp: Vec<MqttPacket> = m.iter().map(|e| e.1.clone()).collect();
        ensure!(all == exp, "resend-list", "get_all_for_reconnect() = {} expected {}: {log}", dbg(&all), dbg(&exp));
    }
    c.note(log);
    Ok(())
}

// ------------------------------------------------------------------- C14
fn expiry(c: &mut Case) -> R {
    let v5 = c.rng.chance(1, 5);
    let t_ms = *c.rng.pick(&[0u64, 1000, 60_000, 3_600_000]);
    let t = Duration::from_millis(t_ms);
    let mut q = InflightQueue::new(0, if v5 { 5 } else { *c.rng.pick(&[3u8, 4]) }, t);
    // (pid, packet, stream, sent not before, sent not after)
    let mut m: Vec<(u16, MqttPacket, Option<u64>, Instant, Instant)> = vec![];
    let mut log = format!("timeout {t_ms} ms v{}:", if v5 { 5 } else { 3 });
    let n = c.rng.range(1, 8);
    for _ in 0..n {
        let pid = 1 + c.rng.below(9) as u16;
        let p = inflight_packet(&mut c.rng, v5, pid);
        let st = if c.rng.bool() { Some(c.rng.below(5)) } else { None };
        let a = Instant::now();
        let _ = q.push_with_stream(pid, p.clone(), 1, st);
        let b = Instant::now();
        m.retain(|e| e.0 != pid);
        m.push((pid, p, st, a, b));
        log.push_str(&format!(" push{pid}"));
        if c.rng.chance(1, 4) {
            let k = 1 + c.rng.below(9) as u16;
            q.acknowledge(k);
            m.retain(|e| e.0 != k);
            log.push_str(&format!(" ack{k}"));
        }
    }
    let mut now = Instant::now();
    let eps = Duration::from_nanos(1);
    for _ in 0..c.rng.range(1, 12) {
        // a moment at, just before, or well past some deadline; never before the last tick
        let mut cand = vec![now, now + t, now + t / 2, now + t * 3 + Duration::from_secs(1)];
        for e in &m {
            cand.push(e.4 + t);
            cand.push(e.4 + t + eps);
            if t > Duration::ZERO { cand.push(e.3 + t - eps); }
        }
        let nx = *c.rng.pick(&cand);
        if nx < now { continue; }
        now = nx;
        let must: Vec<u16> = m.iter().filter(|e| now.duration_since(e.4) >= t).map(|e| e.0).collect();
        let mustnt: Vec<u16> = m.iter().filter(|e| now.duration_since(e.3) < t).map(|e| e.0).collect();
        if !v5 && must.len() + mustnt.len() != m.len() { continue; }
        match q.next_expiration() {
            None => ensure!(v5 || m.is_empty(), "next-expiration", "no expiry announced with {} packets in flight: {log}", m.len()),
            Some(x) => {
                ensure!(!v5, "v5-timer", "an MQTT 5 queue announced an expiry: {log}");
                if let Some(e) = m.iter().map(|e| e.4).min() { ensure!(x <= e + t, "next-expiration", "announced expiry is after the first packet due: {log}"); }
            }
        }
        let r = q.get_expired_with_stream(now);
        log.push_str(&format!(" tick->{}", r.len()));
        if v5 {
            ensure!(r.is_empty(), "v5-timer", "MQTT 5 packets retransmitted on a timer: {log}");
            continue;
        }
        let mut got: Vec<u16> = vec![];
        for (p, st) in &r {
            let Some(e) = m.iter().find(|e| &e.1 == p && !got.contains(&e.0)) else { return fail("expired-unknown", format!("retransmitted {} which is not in flight (or twice): {log}", dbg(p))) };
            ensure!(*st == e.2, "expired-stream", "packet {} retransmitted on {st:?} but sent on {:?}: {log}", e.0, e.2);
            got.push(e.0);
        }
        for x in &must { ensure!(got.contains(x), "expired-missing", "packet {x} is due but was not retransmitted: {log}"); }
        for x in &mustnt { ensure!(!got.contains(x), "expired-early", "packet {x} was retransmitted before its timeout: {log}"); }
        for e in m.iter_mut() { if got.contains(&e.0) { e.3 = now; e.4 = now; } }
        if c.rng.chance(1, 3) {
            let k = 1 + c.rng.below(9) as u16;
            let was = m.iter().any(|e| e.0 == k);
            ensure!(q.acknowledge(k).is_some() == was, "ack-after-expiry", "acknowledge({k}) disagrees with what is in flight: {log}");
            m.retain(|e| e.0 != k);
            log.push_str(&format!(" ack{k}"));
        }
    }
    // what the resend list says afterwards, in original order
    let exp: Vec<MqttPacket> = m.iter().map(|e| e.1.clone()).collect();
    let all = q.get_all_for_reconnect();
    ensure!(all == exp, "resend-list", "get_all_for_reconnect() = {} expected {}: {log}", dbg(&all), dbg(&exp));
    let _ = gen::id;
    c.note(log);
    Ok(())
}
