//! C15, C22, C23: client and server session contracts, against list models.
use crate::ensure;
use crate::fw::*;
use flowsdk::mqtt_serde::control_packet::MqttPacket;
use flowsdk::mqtt_serde::mqttv5::pubackv5::MqttPubAck;
use flowsdk::mqtt_serde::mqttv5::pubcompv5::MqttPubComp;
use flowsdk::mqtt_serde::mqttv5::publishv5::MqttPublish;
use flowsdk::mqtt_serde::mqttv5::pubrecv5::MqttPubRec;
use flowsdk::mqtt_serde::mqttv5::pubrelv5::MqttPubRel;
use flowsdk::mqtt_serde::mqttv5::subscribev5::{MqttSubscribe, TopicSubscription};
use flowsdk::mqtt_serde::mqttv5::unsubscribev5::MqttUnsubscribe;
use flowsdk::mqtt_session::{ClientSession, ServerSession};

pub fn suites(p: &str) -> Vec<Suite> {
    let s = |name, rule, fixed, weight, run| Suite { name, rule, fixed, weight, run };
    match p {
        "C15" => vec![s("session-ids", "runs of 70000 and more allocations interleaved with the other session operations", 0, 1, ids)],
        "C22" => vec![s("client-session", "random sequences of every ClientSession operation over a few identifiers, against a list", 0, 1, client)],
        "C23" => vec![s("server-session", "random sequences of every ServerSession operation, receive maximum 0..6 and 65535, against a list", 0, 1, server)],
        _ => vec![],
    }
}

fn publ(r: &mut Rng, pid: Option<u16>, qos: u8) -> MqttPublish {
    let n = r.range(0, 4);
    MqttPublish { dup: false, qos, retain: r.bool(), topic_name: format!("t{}", r.below(1000)), packet_id: pid, payload: r.bytes(n), properties: vec![] }
}

fn ids(c: &mut Case) -> R {
    let mut s = ClientSession::new();
    let mut last = 0u16;
    let n = 66000 + c.rng.below(if c.thorough { 200_000 } else { 4000 });
    c.note(format!("{n} allocations"));
    for i in 0..n {
        if c.rng.chance(1, 300) {
            match c.rng.below(4) {
                0 => s.clear(),
                1 => { let p = publ(&mut c.rng, Some(last.max(1)), 1); s.handle_outgoing_publish(p); }
                2 => s.handle_incoming_puback(MqttPubAck::new(last, 0, vec![])),
                _ => { s.resend_pending_messages(); }
            }
        }
        let x = s.next_packet_id();
        ensure!(x != 0, "zero", "allocation {i} gave identifier 0");
        let want = if last == 65535 { 1 } else { last + 1 };
        ensure!(x == want, "successor", "allocation {i} gave {x} after {last}, expected {want}");
        last = x;
    }
    Ok(())
}

fn client(c: &mut Case) -> R {
    let mut s = ClientSession::new();
    let mut pubs: Vec<MqttPublish> = vec![];
    let mut rels: Vec<MqttPubRel> = vec![];
    let mut log = String::new();
    let ids = c.rng.range(1, 5) as u64;
    for _ in 0..c.rng.range(1, 50) {
        let id = 1 + c.rng.below(ids) as u16;
        let code = *c.rng.pick(&[0u8, 0, 0x10, 0x7f, 0x80, 0x83, 0x92, 0xff]);
        match c.rng.below(12) {
            0..=3 => {
                let q = c.rng.below(3) as u8;
                let pid = if q == 0 && c.rng.bool() { None } else { Some(id) };
                let p = publ(&mut c.rng, pid, q);
                log.push_str(&format!(" pub{id}q{q}"));
                s.handle_outgoing_publish(p.clone());
                if q > 0 && !pubs.iter().any(|x| x.packet_id == Some(id)) { pubs.push(p); }
            }
            4 => {
                log.push_str(&format!(" rel{id}"));
                let r = MqttPubRel::new(id, 0, vec![]);
                s.handle_outgoing_pubrel(r.clone());
                rels.retain(|x| x.packet_id != id);
                rels.push(r);
            }
            5 => { log.push_str(&format!(" puback{id}")); s.handle_incoming_puback(MqttPubAck::new(id, code, vec![])); pubs.retain(|x| x.packet_id != Some(id)); }
            6 | 7 => {
                log.push_str(&format!(" pubrec{id}/{code:02x}"));
                let r = s.handle_incoming_pubrec(MqttPubRec::new(id, code, vec![]));
                pubs.retain(|x| x.packet_id != Some(id));
                let want = if code < 0x80 { Some(MqttPubRel::new(id, 0, vec![])) } else { None };
                ensure!(r == want, "pubrec-answer", "PUBREC {id} with {code:#x} answered by {r:?}:{log}");
            }
            8 => { log.push_str(&format!(" pubcomp{id}")); s.handle_incoming_pubcomp(MqttPubComp::new(id, code, vec![])); rels.retain(|x| x.packet_id != id); }
            9 => {
                let r = s.handle_incoming_pubrel(MqttPubRel::new(id, code, vec![]));
                ensure!(r == MqttPubComp::new(id, 0, vec![]), "pubrel-answer", "PUBREL {id} answered by {r:?}");
            }
            10 => {
                let q = c.rng.below(3) as u8;
                let p = publ(&mut c.rng, if q == 0 { None } else { Some(id) }, q);
                let r = s.handle_incoming_publish(p);
                let want = match q { 1 => Some(MqttPacket::PubAck5(MqttPubAck::new(id, 0, vec![]))), 2 => Some(MqttPacket::PubRec5(MqttPubRec::new(id, 0, vec![]))), _ => None };
                ensure!(r == want, "publish-answer", "incoming QoS {q} PUBLISH {id} answered by {r:?}");
            }
            _ => if c.rng.chance(1, 4) { log.push_str(" clear"); s.clear(); pubs.clear(); rels.clear(); },
        }
        let got = s.resend_pending_messages();
        let mut want: Vec<MqttPacket> = pubs.iter().filter(|p| !rels.iter().any(|r| Some(r.packet_id) == p.packet_id)).map(|p| MqttPacket::Publish5(p.clone())).collect();
        want.extend(rels.iter().map(|r| MqttPacket::PubRel5(r.clone())));
        ensure!(got.len() == want.len(), "resend-count", "{} packets to resend, expected {}:{log}; got {}", got.len(), want.len(), dbg(&got));
        for w in &want { ensure!(got.contains(w), "resend-missing", "resend list lacks {}:{log}", dbg(w)); }
    }
    c.note(log);
    Ok(())
}

fn server(c: &mut Case) -> R {
    let max = *c.rng.pick(&[0u16, 1, 2, 3, 6, 65535]);
    let mut s = ServerSession::new(max);
    let mut subs: Vec<String> = vec![];
    let mut pending: std::collections::VecDeque<MqttPublish> = Default::default();
    let mut rels: Vec<u16> = vec![];
    let mut inflight = 0u16;
    let mut log = format!("max {max}:");
    for _ in 0..c.rng.range(1, 60) {
        let id = 1 + c.rng.below(5) as u16;
        let code = *c.rng.pick(&[0u8, 0, 0x10, 0x7f, 0x80, 0x83]);
        match c.rng.below(12) {
            0 | 1 => {
                let n = c.rng.range(1, 3);
                let fs: Vec<String> = (0..n).map(|_| format!("f{}", c.rng.below(4))).collect();
                log.push_str(&format!(" sub{fs:?}"));
                let ts = fs.iter().map(|f| TopicSubscription { topic_filter: f.clone(), qos: c.rng.below(3) as u8, no_local: false, retain_as_published: false, retain_handling: 0 }).collect();
                s.handle_incoming_subscribe(MqttSubscribe::new(id, ts, vec![]));
                for f in fs { if !subs.contains(&f) { subs.push(f); } }
            }
            2 => {
                let fs: Vec<String> = (0..c.rng.range(1, 2)).map(|_| format!("f{}", c.rng.below(5))).collect();
                log.push_str(&format!(" unsub{fs:?}"));
                s.handle_incoming_unsubscribe(MqttUnsubscribe::new(id, fs.clone(), vec![]));
                subs.retain(|f| !fs.contains(f));
            }
            3..=5 => {
                let q = c.rng.below(3) as u8;
                let p = publ(&mut c.rng, if q == 0 { None } else { Some(id) }, q);
                log.push_str(&format!(" pub{}q{q}", p.topic_name));
                let r = s.handle_incoming_publish(p.clone());
                for _ in 0..subs.len() { pending.push_back(p.clone()); }
                let want = match q { 1 => Some(MqttPacket::PubAck5(MqttPubAck::new(id, 0, vec![]))), 2 => Some(MqttPacket::PubRec5(MqttPubRec::new(id, 0, vec![]))), _ => None };
                ensure!(r == want, "publish-answer", "incoming QoS {q} PUBLISH {id} answered by {r:?}: {log}");
            }
            6 => { log.push_str(&format!(" puback{id}")); s.handle_incoming_puback(MqttPubAck::new(id, code, vec![])); inflight = inflight.saturating_sub(1); }
            7 => {
                log.push_str(&format!(" pubrec{id}/{code:02x}"));
                let r = s.handle_incoming_pubrec(MqttPubRec::new(id, code, vec![]));
                let want = if code < 0x80 { Some(MqttPubRel::new(id, 0, vec![])) } else { None };
                if code < 0x80 && !rels.contains(&id) { rels.push(id); }
                ensure!(r == want, "pubrec-answer", "PUBREC {id}/{code:#x} answered by {r:?}: {log}");
            }
            8 => { log.push_str(&format!(" pubcomp{id}")); s.handle_incoming_pubcomp(MqttPubComp::new(id, code, vec![])); rels.retain(|x| *x != id); inflight = inflight.saturating_sub(1); }
            9 => {
                let r = s.handle_incoming_pubrel(MqttPubRel::new(id, code, vec![]));
                ensure!(r == MqttPubComp::new(id, 0, vec![]), "pubrel-answer", "PUBREL {id} answered by {r:?}");
            }
            _ => {
                let room = (max - inflight) as usize;
                let got = s.resend_pending_messages();
                log.push_str(&format!(" batch->{}", got.len()));
                ensure!(got.len() <= room, "receive-maximum", "batch of {} with room for {room}: {log}", got.len());
                let mut seen = vec![];
                let mut pubs = vec![];
                for p in &got {
                    match p {
                        MqttPacket::PubRel5(r) => {
                            ensure!(rels.contains(&r.packet_id) && !seen.contains(&r.packet_id), "pubrel-resend", "PUBREL {} resent twice or not pending: {log}", r.packet_id);
                            seen.push(r.packet_id);
                        }
                        MqttPacket::Publish5(x) => pubs.push(x.clone()),
                        x => return fail("batch-kind", format!("unexpected {}", dbg(x))),
                    }
                }
                ensure!(seen.len() == rels.len().min(room), "pubrel-resend", "{} of {} pending PUBRELs resent with room for {room}: {log}", seen.len(), rels.len());
                let n = pending.len().min(room - seen.len());
                let want: Vec<MqttPublish> = pending.drain(..n).collect();
                ensure!(pubs == want, "pending-order", "handed out {} expected {}: {log}", dbg(&pubs), dbg(&want));
                inflight += got.len() as u16;
            }
        }
    }
    c.note(log);
    Ok(())
}
