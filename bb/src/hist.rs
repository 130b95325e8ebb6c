//! Oracles over recorded histories.

use crate::client::*;
use crate::mq::{self, Rx, M};
use crate::proc::wait_until;
use crate::util::*;
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: &'static str,
    pub msg: String,
}

fn viol(kind: &'static str, msg: String) -> Viol {
    Viol { kind, msg }
}

#[derive(Clone, Debug)]
pub struct Interval {
    pub filter: String,
    /// the subscription may exist from / until
    pub ps: u64,
    pub pe: u64,
    /// the subscription definitely exists from (acknowledged) / until (removal requested)
    pub ds: Option<u64>,
    pub de: u64,
    pub sub_op: usize,
    pub unsub_op: usize,
    pub granted: u8,
}

#[derive(Clone, Debug)]
pub struct PubRec {
    pub conn: usize,
    pub op: usize,
    pub t: u64,
    pub uid: u64,
    pub topic: String,
    pub len: usize,
    /// the broker has processed it by then
    pub done: u64,
}

pub struct ConnHist {
    pub conn: usize,
    pub id: String,
    pub ops: Vec<Op>,
    pub evs: Vec<Ev>,
    pub intervals: Vec<Interval>,
    pub end: u64,
}

pub struct Hist {
    pub conns: Vec<ConnHist>,
    pub pubs: HashMap<u64, PubRec>,
    short: HashMap<String, u64>,
    pub viols: Vec<Viol>,
}

/// answers in order; requests in order; the k-th answers the k-th
pub fn answers(ops: &[Op], evs: &[Ev]) -> (Vec<(usize, Option<(u64, Rx)>)>, Vec<Viol>) {
    let reqs: Vec<usize> = ops
        .iter()
        .enumerate()
        .filter(|(_, o)| !matches!(o, Op::Pub { .. } | Op::End { .. }))
        .map(|(i, _)| i)
        .collect();
    let mut out = vec![];
    let mut v = vec![];
    let mut k = 0;
    let mut seen_any = false;
    for e in evs {
        let K::P(p) = &e.k else {
            if let K::Malformed(m) = &e.k {
                v.push(viol("malformed", format!("the broker sent bytes that are no MQTT packet: {}", m)));
            }
            continue;
        };
        match p {
            Rx::Publish { .. } => {
                if !seen_any {
                    v.push(viol("answers", format!("{} before the CONNACK", p.brief())));
                }
                continue;
            }
            Rx::PubAck(_) | Rx::PubRec(_) | Rx::PubComp(_) | Rx::PubRel(_) => {
                let any_qos = ops.iter().any(|o| matches!(o, Op::Pub { qos, .. } if *qos > 0));
                if !any_qos {
                    v.push(viol("answers", format!("unsolicited {}", p.brief())));
                }
                continue;
            }
            _ => {}
        }
        seen_any = true;
        if k >= reqs.len() {
            v.push(viol("answers", format!("unsolicited {} after all {} requests were answered", p.brief(), reqs.len())));
            break;
        }
        let ok = match (&ops[reqs[k]], p) {
            (Op::Connect { .. }, Rx::ConnAck { .. }) => true,
            (Op::Sub { pid, filters, .. }, Rx::SubAck { pid: q, codes }) => {
                if pid == q && filters.len() != codes.len() {
                    v.push(viol("suback", format!("SUBACK {} has {} return codes for {} filters", q, codes.len(), filters.len())));
                }
                pid == q
            }
            (Op::Unsub { pid, .. }, Rx::UnsubAck { pid: q }) => pid == q,
            (Op::Ping { .. }, Rx::PingResp) => true,
            _ => false,
        };
        if !ok {
            let mut r = format!("{:?}", ops[reqs[k]]);
            r.truncate(200);
            v.push(viol("answers", format!("answer {} is {} but request {} was {}", k, p.brief(), k, r)));
            break;
        }
        out.push((reqs[k], Some((e.t, p.clone()))));
        k += 1;
    }
    while k < reqs.len() {
        out.push((reqs[k], None));
        k += 1;
    }
    (out, v)
}

impl Hist {
    pub fn new(clients: &[Client], quiet: bool) -> Hist {
        let mut h = Hist { conns: vec![], pubs: HashMap::new(), short: HashMap::new(), viols: vec![] };
        let now = tick();
        for c in clients {
            let evs = c.evs();
            let (ans, v) = answers(&c.ops, &evs);
            h.viols.extend(v.into_iter().map(|x| viol(x.kind, format!("client {:?}: {}", c.brief_id(), x.msg))));
            let at: HashMap<usize, (u64, Rx)> = ans.iter().filter_map(|(i, a)| a.clone().map(|a| (*i, a))).collect();
            let mut iv: Vec<Interval> = vec![];
            let mut end = c.ended_by_other.unwrap_or(u64::MAX);
            for (i, o) in c.ops.iter().enumerate() {
                match o {
                    Op::Sub { t, filters, .. } => {
                        let codes = match at.get(&i) {
                            Some((_, Rx::SubAck { codes, .. })) => Some(codes.clone()),
                            _ => None,
                        };
                        let mut last: BTreeMap<&str, usize> = BTreeMap::new();
                        for (n, (f, _)) in filters.iter().enumerate() {
                            last.insert(f, n);
                        }
                        for (n, (f, req)) in filters.iter().enumerate() {
                            let valid = mq::filter_valid(f);
                            let code = codes.as_ref().and_then(|c| c.get(n).copied());
                            if let Some(code) = code {
                                if valid != (code != 0x80) {
                                    h.viols.push(viol("suback", format!("client {:?}: filter {:?} (valid: {}) got return code {:#x}", c.brief_id(), f, valid, code)));
                                }
                                if code != 0x80 && code > *req {
                                    h.viols.push(viol("granted", format!("client {:?}: filter {:?} requested QoS {} and was granted {}", c.brief_id(), f, req, code)));
                                }
                            }
                            if !valid || code == Some(0x80) {
                                continue;
                            }
                            iv.push(Interval {
                                filter: f.clone(),
                                ps: *t,
                                pe: u64::MAX,
                                ds: at.get(&i).map(|a| a.0),
                                de: u64::MAX,
                                sub_op: i,
                                unsub_op: usize::MAX,
                                // duplicates within one SUBSCRIBE: the largest code counts
                                granted: code.unwrap_or(*req).max(last.get(f.as_str()).and_then(|n| codes.as_ref().and_then(|c| c.get(*n).copied())).filter(|c| *c < 3).unwrap_or(0)),
                            });
                        }
                    }
                    Op::Unsub { t, filters, .. } => {
                        let ack = at.get(&i).map_or(u64::MAX, |a| a.0);
                        for x in iv.iter_mut() {
                            if x.unsub_op == usize::MAX && filters.contains(&x.filter) {
                                x.unsub_op = i;
                                x.de = *t;
                                x.pe = ack;
                            }
                        }
                    }
                    Op::Pub { t, uid, topic, len, .. } => {
                        // processed when a later request was answered
                        let done = ans.iter().filter(|(j, a)| *j > i && a.is_some()).map(|(_, a)| a.as_ref().unwrap().0).next().unwrap_or(if quiet && !c.lossy && c.ended_by_other.is_none() { now } else { u64::MAX });
                        if *len < 8 {
                            h.short.insert(topic.clone(), *uid);
                        }
                        h.pubs.insert(*uid, PubRec { conn: c.conn, op: i, t: *t, uid: *uid, topic: topic.clone(), len: *len, done });
                    }
                    Op::End { t } => end = end.min(*t),
                    _ => {}
                }
            }
            if c.lossy {
                end = 0;
            }
            for x in iv.iter_mut() {
                x.de = x.de.min(end);
            }
            h.conns.push(ConnHist { conn: c.conn, id: c.id.clone(), ops: c.ops.clone(), evs, intervals: iv, end });
        }
        // whoever received a publication proves it was processed
        let mut seen: HashMap<u64, u64> = HashMap::new();
        for c in &h.conns {
            for e in &c.evs {
                if let K::P(Rx::Publish { payload, .. }) = &e.k {
                    if let Some(u) = uid_of(payload) {
                        let x = seen.entry(u).or_insert(e.t);
                        *x = (*x).min(e.t);
                    }
                }
            }
        }
        for (u, t) in seen {
            if let Some(p) = h.pubs.get_mut(&u) {
                p.done = p.done.min(t);
            }
        }
        h
    }

    pub fn find(&self, topic: &[u8], body: &[u8]) -> Option<&PubRec> {
        let uid = match uid_of(body) {
            Some(u) => u,
            None => *self.short.get(std::str::from_utf8(topic).ok()?)?,
        };
        self.pubs.get(&uid)
    }

    /// (conn, uid) that must have been, or must still be, delivered
    pub fn expected(&self) -> Vec<(usize, u64)> {
        let mut out = vec![];
        let mut cache: HashMap<(&str, &str), M> = HashMap::new();
        for c in &self.conns {
            for p in self.pubs.values() {
                let must = c.intervals.iter().any(|i| {
                    if p.done == u64::MAX {
                        return false;
                    }
                    if *cache.entry((i.filter.as_str(), p.topic.as_str())).or_insert_with(|| mq::matches(&i.filter, &p.topic)) != M::Yes {
                        return false;
                    }
                    let started = if p.conn == c.conn { i.sub_op < p.op } else { i.ds.map_or(false, |d| d < p.t) };
                    let held = if p.conn == c.conn && i.unsub_op != usize::MAX { i.unsub_op > p.op && p.done < c.end } else { p.done < i.de };
                    started && held
                });
                if must {
                    out.push((c.conn, p.uid));
                }
            }
        }
        out
    }

    /// phantom, altered, misrouted, duplicated, reordered, wrong flags
    pub fn check_received(&self) -> Vec<Viol> {
        let mut v = vec![];
        for c in &self.conns {
            let mut copies: HashMap<u64, (usize, u64)> = HashMap::new();
            let mut first: HashSet<u64> = HashSet::new();
            // (publisher, topic) -> last first-occurrence
            let mut last: HashMap<(usize, &str), (usize, u64)> = HashMap::new();
            let bid: String = c.id.chars().take(40).collect();
            for e in &c.evs {
                let K::P(pk @ Rx::Publish { dup, qos, retain, topic, pid, payload: body }) = &e.k else { continue };
                let Some(p) = self.find(topic, body) else {
                    v.push(viol("phantom", format!("client {:?} received {} which nobody published", bid, pk.brief())));
                    continue;
                };
                if p.topic.as_bytes() != topic.as_slice() {
                    v.push(viol("altered", format!("client {:?} received publication {:x} of topic {:?} under {}", bid, p.uid, p.topic, pk.brief())));
                    continue;
                }
                if body.len() != p.len || *body != payload(p.uid, p.len) {
                    let want = payload(p.uid, p.len);
                    let at = want.iter().zip(body.iter()).position(|(a, b)| a != b);
                    v.push(viol("altered", format!("client {:?} received publication {:x} with a payload that differs: {} bytes instead of {}, first difference at {:?}", bid, p.uid, body.len(), p.len, at)));
                    continue;
                }
                if e.t < p.t {
                    v.push(viol("phantom", format!("client {:?} received publication {:x} before it was published", bid, p.uid)));
                }
                if *retain || *dup {
                    v.push(viol("flags", format!("client {:?} received {} forwarded with retain={} dup={}", bid, pk.brief(), retain, dup)));
                }
                if pid.is_some() != (*qos > 0) {
                    v.push(viol("flags", format!("client {:?} received {}", bid, pk.brief())));
                }
                let open: Vec<&Interval> = c
                    .intervals
                    .iter()
                    .filter(|i| i.ps < e.t && i.pe > p.t && mq::matches(&i.filter, &p.topic) != M::No)
                    .collect();
                if open.is_empty() {
                    let subs: Vec<String> = c.intervals.iter().map(|i| i.filter.chars().take(60).collect()).take(12).collect();
                    v.push(viol("misrouted", format!("client {:?} received {} (published on connection {}) without a matching subscription at any moment from its publication on; its subscriptions over time: {:?}", bid, pk.brief(), p.conn, subs)));
                    continue;
                }
                let g = open.iter().map(|i| i.granted).max().unwrap_or(0);
                if *qos > g {
                    v.push(viol("flags", format!("client {:?} received {} although at most QoS {} was granted", bid, pk.brief(), g)));
                }
                let distinct: HashSet<&str> = open.iter().map(|i| i.filter.as_str()).collect();
                let n = copies.entry(p.uid).or_insert((0, 0));
                n.0 += 1;
                n.1 = n.1.max(distinct.len() as u64);
                if n.0 as u64 > n.1 {
                    v.push(viol("dup", format!("client {:?} received publication {:x} on {:?} {} times with {} matching filters", bid, p.uid, &topic_s(topic), n.0, n.1)));
                }
                if first.insert(p.uid) {
                    let l = last.entry((p.conn, p.topic.as_str())).or_insert((0, 0));
                    if l.1 != 0 && p.op < l.0 {
                        v.push(viol("order", format!("client {:?} received publication {:x} of connection {} on {:?} after {:x}, which was published later", bid, p.uid, p.conn, &topic_s(topic), l.1)));
                    }
                    *l = (p.op, p.uid);
                }
            }
        }
        v
    }
}

fn topic_s(t: &[u8]) -> String {
    String::from_utf8_lossy(&t[..t.len().min(60)]).into_owned()
}

/// Waits for everything that must arrive; what is missing when the broker has come to rest is lost.
pub fn wait_deliveries(clients: &[Client]) -> Result<(usize, Vec<Viol>), Stop> {
    let h = Hist::new(clients, true);
    let exp = h.expected();
    let mut want: HashMap<usize, HashSet<u64>> = HashMap::new();
    for (c, u) in &exp {
        want.entry(*c).or_default().insert(*u);
    }
    let mut pos: HashMap<usize, usize> = HashMap::new();
    let b = clients[0].broker.clone();
    let w = wait_until(&b, || {
        let mut all = true;
        for c in clients {
            let Some(s) = want.get_mut(&c.conn) else { continue };
            if s.is_empty() {
                continue;
            }
            let p = pos.entry(c.conn).or_insert(0);
            c.with_evs(|evs| {
                for e in &evs[*p..] {
                    if let K::P(Rx::Publish { topic, payload, .. }) = &e.k {
                        if let Some(r) = h.find(topic, payload) {
                            s.remove(&r.uid);
                        }
                    }
                }
                *p = evs.len();
            });
            all &= s.is_empty();
        }
        all
    });
    match w {
        crate::proc::Wait::Ok => Ok((exp.len(), vec![])),
        crate::proc::Wait::Idle => {
            let mut v = vec![];
            for c in clients {
                let Some(s) = want.get(&c.conn) else { continue };
                let mut s: Vec<&u64> = s.iter().collect();
                s.sort();
                if let Some(u) = s.first() {
                    let p = &h.pubs[u];
                    v.push(viol(
                        "loss",
                        format!(
                            "client {:?} lacks {} of its messages although the broker is idle; first: publication {:x} of connection {} on {:?} ({} bytes); connection closed: {}; incomplete packet bytes: {}",
                            c.brief_id(),
                            s.len(),
                            p.uid,
                            p.conn,
                            p.topic.chars().take(60).collect::<String>(),
                            p.len,
                            c.closed(),
                            c.rx.partial.load(std::sync::atomic::Ordering::SeqCst)
                        ),
                    ));
                }
            }
            Ok((exp.len(), v))
        }
        w => stop_if(w, || "deliveries".to_string()).map(|_| (0, vec![])),
    }
}

/// All oracles, once the traffic has ended: waits for deliveries, then checks what was received.
pub fn judge(clients: &[Client]) -> Result<(usize, Vec<Viol>, Hist), Stop> {
    let (n, mut v) = wait_deliveries(clients)?;
    let h = Hist::new(clients, true);
    v.extend(h.viols.clone());
    v.extend(h.check_received());
    Ok((n, v, h))
}

impl Hist {
    /// Deliveries only the parent-level rule of a final '#' makes mandatory that did not happen.
    pub fn parent_missing(&self) -> Option<String> {
        for c in &self.conns {
            let got: HashSet<u64> = c
                .evs
                .iter()
                .filter_map(|e| match &e.k {
                    K::P(Rx::Publish { topic, payload, .. }) => self.find(topic, payload).map(|p| p.uid),
                    _ => None,
                })
                .collect();
            for p in self.pubs.values() {
                if got.contains(&p.uid) || p.done == u64::MAX {
                    continue;
                }
                for i in &c.intervals {
                    if p.conn != c.conn && i.ds.map_or(false, |d| d < p.t) && p.done < i.de && mq::matches(&i.filter, &p.topic) == M::Parent {
                        return Some(format!("filter {:?} does not receive topic {:?}", i.filter, p.topic));
                    }
                }
            }
        }
        None
    }
}
