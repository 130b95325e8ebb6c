//! Monitors of the session and messaging core: the real code runs in this process.

use bb::mq::{self, M};
use bb::report::Report;
use bb::util::*;
use chrono::{DateTime, Duration, Utc};
use ratelmq::broker::messaging::{MessagingOperation as Mo, MessagingService};
use ratelmq::broker::session::Session;
use ratelmq::mqtt::events::ServerEvent;
use ratelmq::mqtt::packets::suback::SubAckReturnCode;
use ratelmq::mqtt::packets::QoS;
use ratelmq::mqtt::subscription::Subscription;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::net::{IpAddr, Ipv4Addr};
use std::sync::{Arc, Mutex};
use tokio::sync::{mpsc, oneshot};

const IP: IpAddr = IpAddr::V4(Ipv4Addr::LOCALHOST);

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

// ------------------------------------------------------------------ C22

/// Some(true/false): must (not) be expired; None: within the half second the whole-second rule leaves open
fn must_expire(ka: u16, elapsed: Duration) -> Option<bool> {
    if ka == 0 {
        return Some(false);
    }
    let ms = ka as i64 * 1500;
    let e = elapsed;
    if e >= Duration::milliseconds(ms) {
        return Some(true);
    }
    if e < Duration::seconds(ms / 1000) {
        return Some(false);
    }
    None
}

fn c22() -> Report {
    let r = Report::new("C22", "every keep-alive value 0..65535 with clock readings at, just before and just after the limit, before the activity and far after it, on sessions whose activity was recorded at creation or later; and random populations of the messaging core; an evaluation is one expiry decision compared with the reference; distinct: by keep-alive and elapsed time");
    let (tx, _rx) = mpsc::channel::<ServerEvent>(1);
    let bases: Vec<DateTime<Utc>> = vec![
        Utc::now(),
        DateTime::<Utc>::from_utc(chrono::NaiveDateTime::from_timestamp(0, 0), Utc),
        DateTime::<Utc>::from_utc(chrono::NaiveDateTime::from_timestamp(1_700_000_000, 999_999_999), Utc),
        DateTime::<Utc>::from_utc(chrono::NaiveDateTime::from_timestamp(4_102_444_799, 500_000_000), Utc),
    ];
    let mut decided = 0u64;
    let mut expired = 0u64;
    let step = if cfg!(miri) { 4099 } else { 1 };
    'all: for ka in (0..=65535u32).step_by(step).map(|k| k as u16) {
        let lim = ka as i64 * 3 / 2;
        let fl = Duration::seconds(lim);
        let ex = Duration::milliseconds(ka as i64 * 1500);
        let ns = Duration::nanoseconds(1);
        let mut el = vec![
            Duration::seconds(0), ns, -ns, Duration::seconds(-1), Duration::seconds(-100_000), Duration::milliseconds(999), Duration::seconds(1),
            Duration::seconds(ka as i64), Duration::seconds(ka as i64) + ns, fl - ns, fl, fl + ns, fl - Duration::seconds(1), fl + Duration::seconds(1), fl - Duration::milliseconds(1),
            ex, ex - ns, ex + ns, ex + Duration::milliseconds(499), ex + Duration::seconds(1), ex * 2, Duration::days(3650), Duration::seconds(65536), Duration::seconds(98304),
        ];
        let mut rng = Rng::new(mix64(r.seed) ^ ka as u64);
        for _ in 0..6 {
            el.push(Duration::milliseconds((rng.next() % 200_000_000) as i64 - 500_000));
        }
        let base = bases[ka as usize % bases.len()];
        for (k, e) in el.iter().enumerate() {
            let mut s = Session::new(format!("c{}", ka), IP, k % 2 == 0, tx.clone(), ka, if k % 3 == 0 { base - Duration::days(400) } else { base });
            s.set_last_activity(base);
            if k % 5 == 1 {
                s.set_last_activity(base - Duration::seconds(12345));
                s.set_last_activity(base);
            }
            let now = base + *e;
            let got = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.is_keep_alive_expired(&now))) {
                Ok(g) => g,
                Err(p) => {
                    r.violation("panic", format!("expiry of keep-alive {} after {} panics: {}", ka, e, panic_text(p)), json!({"keep_alive": ka}));
                    break 'all;
                }
            };
            decided += 1;
            expired += got as u64;
            if let Some(want) = must_expire(ka, *e) {
                if got != want {
                    r.violation("expiry", format!("keep-alive {} s, {} ns after the last activity: expired = {}, must be {}", ka, e.num_nanoseconds().unwrap_or(0), got, want), json!({"keep_alive": ka, "elapsed": e.to_string()}));
                    break 'all;
                }
                r.nontrivial(mix64(ka as u64) ^ e.num_nanoseconds().unwrap_or(k as i64) as u64);
            }
        }
    }
    r.evals(decided);
    r.count("expiry decisions", decided);
    r.count("of them expired", expired);
    r.sample(json!({"keep_alive values": "0..=65535, all", "readings per value": 30}));
    // populations: the collection is exactly the expired ones, whatever happened to them before
    let tb = TimeBox::secs(budget(8.0, 120.0));
    let mut i = 0u64;
    while !r.stopped() && (i < 20 || !tb.over()) && !(cfg!(miri) && i >= 3) {
        let seed = mix64(r.seed << 32 | i);
        i += 1;
        let mut rng = Rng::new(seed);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| population(&mut rng)));
        match res {
            Ok(Ok((n, e))) => {
                r.eval(seed);
                r.count("populations", 1);
                r.count("sessions in populations", n);
                r.count("expired sessions in populations", e);
                if i % 300 == 7 {
                    r.sample(json!({"population": n, "expired": e}));
                }
            }
            Ok(Err(m)) => r.violation("collection", m, json!({"seed": seed})),
            Err(p) => r.violation("panic", panic_text(p), json!({"seed": seed})),
        }
    }
    r
}

fn population(rng: &mut Rng) -> Result<(u64, u64), String> {
    let mut m = MessagingService::new();
    let mut model: BTreeMap<String, (u16, DateTime<Utc>)> = BTreeMap::new();
    let (tx, _rx) = mpsc::channel::<ServerEvent>(1);
    let mut n = 0;
    let mut exp = 0;
    for _ in 0..rng.range(1, 120) {
        let id = format!("c{}", rng.below(40));
        let ka = *rng.pick(&[0u16, 1, 2, 3, 5, 60, 61, 600, 32768, 65534, 65535]);
        let lim = ka as i64 * 3 / 2;
        let back = match rng.below(6) {
            0 => 0,
            1 => lim * 1000 - 1500,
            2 => lim * 1000 + 700,
            3 => lim * 500,
            4 => lim * 2000 + 1000,
            _ => (rng.next() % 200_000_000) as i64,
        };
        let at = Utc::now() - Duration::milliseconds(back);
        match rng.below(10) {
            0..=5 => {
                m.session_insert(Session::new(id.clone(), IP, rng.chance(50), tx.clone(), ka, at));
                model.insert(id, (ka, at));
            }
            6 => {
                if let Some(s) = m.session_get_mut(&id) {
                    s.set_last_activity(at);
                    match model.get_mut(&id) {
                        Some(e) => e.1 = at,
                        None => return Err(format!("session {} exists although it was ended", id)),
                    }
                } else if model.contains_key(&id) {
                    return Err(format!("session {} is gone", id));
                }
            }
            7 => {
                m.connection_lost(&id);
                model.remove(&id);
            }
            8 => {
                m.disconnect(&id);
                model.remove(&id);
            }
            _ => {
                let before = Utc::now();
                let got: Vec<String> = m.session_get_keep_alive_expired().iter().map(|s| s.client_id().clone()).collect();
                let after = Utc::now();
                let set: BTreeSet<String> = got.iter().cloned().collect();
                if set.len() != got.len() {
                    return Err(format!("a session is listed twice: {:?}", got));
                }
                for (id, (ka, at)) in &model {
                    let (b, a) = (must_expire(*ka, before - *at), must_expire(*ka, after - *at));
                    n += 1;
                    if b == Some(true) {
                        exp += 1;
                        if !set.contains(id) {
                            return Err(format!("session {} (keep-alive {}, last active {} ago) is expired but not listed", id, ka, before - *at));
                        }
                    }
                    if a == Some(false) && set.contains(id) {
                        return Err(format!("session {} (keep-alive {}, last active {} ago) is listed but not expired", id, ka, after - *at));
                    }
                }
                if let Some(x) = set.iter().find(|x| !model.contains_key(*x)) {
                    return Err(format!("session {} is listed but was ended", x));
                }
            }
        }
    }
    Ok((n, exp))
}

// ------------------------------------------------------------------ C25

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Exists(usize),
    Has(usize, usize),
    Insert(usize, usize),
    Count,
    Lost(usize),
    Disc(usize),
    Sub(usize, usize, u8),
    Unsub(usize, Vec<usize>),
    Senders(usize),
}

#[derive(Clone, Debug, PartialEq)]
enum Res {
    Bool(bool),
    Unit,
    N(usize),
    /// client id and queue of the session returned
    Sess(Option<(String, Option<usize>)>),
    Code(u8),
    /// queues, in any order; None: a queue nobody inserted
    Queues(Vec<Option<usize>>),
}

struct World {
    clients: Vec<String>,
    filters: Vec<String>,
    topics: Vec<String>,
    queues: Vec<mpsc::Sender<ServerEvent>>,
    _rx: Vec<mpsc::Receiver<ServerEvent>>,
    /// [filter][topic]
    m: Vec<Vec<M>>,
    valid: Vec<bool>,
}

fn world(rng: &mut Rng, nc: usize, nf: usize, nt: usize, nq: usize) -> World {
    let lv = ["a", "b", "", "$s", "é", "long-level-name", "A"];
    let k = rng.range(2, lv.len());
    let mut clients: Vec<String> = vec![];
    for i in 0..nc {
        // ids that are prefixes of each other, equal up to case, empty, long
        clients.push(match i {
            0 => "c".into(),
            1 => "C".into(),
            2 => "cc".into(),
            3 => String::new(),
            4 => "c ".into(),
            _ => format!("c{}", i),
        });
    }
    rng.shuffle(&mut clients);
    let lev = |rng: &mut Rng| lv[rng.below(k)].to_string();
    let mut topics: Vec<String> = vec![];
    while topics.len() < nt {
        let d = rng.range(1, 4);
        let t = (0..d).map(|_| lev(rng)).collect::<Vec<_>>().join("/");
        if !t.is_empty() {
            topics.push(t);
        }
    }
    let mut filters: BTreeSet<String> = BTreeSet::new();
    let mut tries = 0;
    while filters.len() < nf && tries < 500 {
        tries += 1;
        let mut l: Vec<String> = topics[rng.below(topics.len())].split('/').map(|s| s.to_string()).collect();
        for x in l.iter_mut() {
            if rng.chance(25) {
                *x = "+".into();
            }
        }
        if rng.chance(25) {
            let n = rng.below(l.len() + 1);
            l.truncate(n);
            l.push("#".into());
        }
        if rng.chance(6) {
            l.insert(0, rng.pick(&["#", "a#", "+a"]).to_string());
        }
        let f = l.join("/");
        if !f.is_empty() || rng.chance(10) {
            filters.insert(f);
        }
    }
    let filters: Vec<String> = filters.into_iter().collect();
    let (mut queues, mut rxs) = (vec![], vec![]);
    for _ in 0..nq {
        let (t, r) = mpsc::channel(1);
        queues.push(t);
        rxs.push(r);
    }
    let m = filters.iter().map(|f| topics.iter().map(|t| mq::matches(f, t)).collect()).collect();
    let valid = filters.iter().map(|f| mq::filter_valid(f)).collect();
    World { clients, filters, topics, queues, _rx: rxs, m, valid }
}

fn random_op(rng: &mut Rng, w: &World) -> Op {
    let c = rng.below(w.clients.len());
    let q = rng.below(w.queues.len());
    match rng.below(20) {
        0 => Op::Exists(c),
        1 | 2 => Op::Has(c, q),
        3..=5 => Op::Insert(c, q),
        6 => Op::Count,
        7 => Op::Lost(c),
        8 => Op::Disc(c),
        9..=13 => Op::Sub(c, rng.below(w.filters.len()), rng.below(3) as u8),
        14..=15 => {
            let n = rng.range(1, 3);
            Op::Unsub(c, (0..n).map(|_| rng.below(w.filters.len())).collect())
        }
        _ => Op::Senders(rng.below(w.topics.len())),
    }
}

type Ask = std::pin::Pin<Box<dyn std::future::Future<Output = Option<Res>> + Send>>;

/// Submits the request; the future gives the reply (None: the core dropped it).
async fn submit(tx: &mpsc::Sender<Mo>, w: &Arc<World>, op: &Op) -> Option<Ask> {
    macro_rules! ask {
        ($mk:expr, $map:expr) => {{
            let (t, r) = oneshot::channel();
            if tx.send($mk(t)).await.is_err() {
                return None;
            }
            let map = $map;
            Some(Box::pin(async move { r.await.ok().map(map) }) as Ask)
        }};
    }
    let id = |c: &usize| w.clients[*c].clone();
    let sess = {
        let w = w.clone();
        move |s: Option<Session>| Res::Sess(s.map(|s| (s.client_id().clone(), w.queues.iter().position(|q| q.same_channel(s.sender())))))
    };
    match op {
        Op::Exists(c) => ask!(|t| Mo::SessionExists { client_id: id(c), resp: t }, Res::Bool),
        Op::Has(c, q) => ask!(|t| Mo::SessionHasSender { client_id: id(c), sender: w.queues[*q].clone(), resp: t }, Res::Bool),
        Op::Insert(c, q) => {
            let s = Session::new(id(c), IP, false, w.queues[*q].clone(), 60, Utc::now());
            ask!(|t| Mo::SessionInsert { session: s, resp: t }, |_: ()| Res::Unit)
        }
        Op::Count => ask!(|t| Mo::SessionCount { resp: t }, Res::N),
        Op::Lost(c) => ask!(|t| Mo::ConnectionLost { client_id: id(c), resp: t }, sess),
        Op::Disc(c) => ask!(|t| Mo::ConnectionDisconnected { client_id: id(c), resp: t }, sess),
        Op::Sub(c, f, q) => {
            let s = Subscription::new(w.filters[*f].clone(), QoS::from_bits(*q));
            ask!(|t| Mo::Subscribe { client_id: id(c), subscription: s, resp: t }, |c: SubAckReturnCode| Res::Code(c as u8))
        }
        Op::Unsub(c, f) => {
            let v: Vec<String> = f.iter().map(|f| w.filters[*f].clone()).collect();
            ask!(|t| Mo::Unsubscribe { client_id: id(c), topics: v, resp: t }, |_: ()| Res::Unit)
        }
        Op::Senders(t_) => {
            let w2 = w.clone();
            let topic = w.topics[*t_].clone();
            ask!(|t| Mo::SendersToPublish { topic, resp: t }, move |v: Vec<mpsc::Sender<ServerEvent>>| {
                Res::Queues(v.iter().map(|s| w2.queues.iter().position(|q| q.same_channel(s))).collect())
            })
        }
    }
}

#[derive(Clone, Default, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct Model {
    sessions: BTreeMap<usize, usize>,
    subs: BTreeSet<(usize, usize)>,
}

/// Applies the request; false: the result is impossible in this state.
fn step(w: &World, m: &mut Model, op: &Op, res: &Res) -> bool {
    match (op, res) {
        (Op::Exists(c), Res::Bool(b)) => m.sessions.contains_key(c) == *b,
        (Op::Has(c, q), Res::Bool(b)) => (m.sessions.get(c) == Some(q)) == *b,
        (Op::Insert(c, q), Res::Unit) => {
            m.sessions.insert(*c, *q);
            true
        }
        (Op::Count, Res::N(n)) => m.sessions.len() == *n,
        (Op::Lost(c), Res::Sess(s)) | (Op::Disc(c), Res::Sess(s)) => {
            m.subs.retain(|x| x.0 != *c);
            match (m.sessions.remove(c), s) {
                (None, None) => true,
                (Some(q), Some((id, got))) => *id == w.clients[*c] && *got == Some(q),
                _ => false,
            }
        }
        (Op::Sub(c, f, q), Res::Code(code)) => {
            if w.valid[*f] {
                m.subs.insert((*c, *f));
                code <= q
            } else {
                *code == 0x80
            }
        }
        (Op::Unsub(c, f), Res::Unit) => {
            for f in f {
                m.subs.remove(&(*c, *f));
            }
            true
        }
        (Op::Senders(t), Res::Queues(v)) => {
            // most and least often each queue may be given
            let mut lo: BTreeMap<usize, usize> = BTreeMap::new();
            let mut hi: BTreeMap<usize, usize> = BTreeMap::new();
            let mut per: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
            for (c, f) in &m.subs {
                match w.m[*f][*t] {
                    M::Yes => per.entry(*c).or_default().0 += 1,
                    M::Parent => per.entry(*c).or_default().1 += 1,
                    M::No => {}
                }
            }
            for (c, (y, p)) in per {
                if let Some(q) = m.sessions.get(&c) {
                    *lo.entry(*q).or_default() += (y > 0) as usize;
                    *hi.entry(*q).or_default() += y + p;
                }
            }
            let mut n: BTreeMap<usize, usize> = BTreeMap::new();
            for q in v {
                match q {
                    Some(q) => *n.entry(*q).or_default() += 1,
                    None => return false,
                }
            }
            n.iter().all(|(q, k)| *k <= *hi.get(q).unwrap_or(&0)) && lo.iter().all(|(q, k)| n.get(q).unwrap_or(&0) >= k)
        }
        _ => false,
    }
}

#[derive(Clone, Debug)]
struct Rec {
    op: Op,
    res: Res,
    inv: u64,
    ret: u64,
}

/// Is there an order of all requests, respecting real time, that the model explains?
/// Err: too large to tell. The deepest point reached is returned for the report.
fn linearizable(w: &World, tasks: &[Vec<Rec>]) -> Result<Result<(), (Vec<usize>, Model)>, ()> {
    let mut seen: HashSet<(Vec<usize>, Model)> = HashSet::new();
    let mut stack = vec![(vec![0usize; tasks.len()], Model::default())];
    let mut best = stack[0].clone();
    let mut n = 0u64;
    while let Some((pos, m)) = stack.pop() {
        n += 1;
        if n > 3_000_000 {
            return Err(());
        }
        if pos.iter().zip(tasks).all(|(p, t)| *p == t.len()) {
            return Ok(Ok(()));
        }
        if pos.iter().sum::<usize>() > best.0.iter().sum::<usize>() {
            best = (pos.clone(), m.clone());
        }
        // the next one must have been submitted before any pending one was answered
        let min_ret = pos.iter().zip(tasks).filter(|(p, t)| **p < t.len()).map(|(p, t)| t[*p].ret).min().unwrap();
        for k in 0..tasks.len() {
            if pos[k] < tasks[k].len() && tasks[k][pos[k]].inv < min_ret {
                let e = &tasks[k][pos[k]];
                let mut m2 = m.clone();
                if step(w, &mut m2, &e.op, &e.res) {
                    let mut p2 = pos.clone();
                    p2[k] += 1;
                    if seen.insert((p2.clone(), m2.clone())) {
                        stack.push((p2, m2));
                    }
                }
            }
        }
    }
    Ok(Err(best))
}

fn show(w: &World, e: &Rec) -> String {
    let o = match &e.op {
        Op::Sub(c, f, _) => format!("Subscribe({:?}, {:?})", w.clients[*c], w.filters[*f]),
        Op::Unsub(c, f) => format!("Unsubscribe({:?}, {:?})", w.clients[*c], f.iter().map(|f| w.filters[*f].as_str()).collect::<Vec<_>>()),
        Op::Senders(t) => format!("SendersToPublish({:?})", w.topics[*t]),
        Op::Insert(c, q) => format!("SessionInsert({:?}, queue {})", w.clients[*c], q),
        Op::Has(c, q) => format!("SessionHasSender({:?}, queue {})", w.clients[*c], q),
        Op::Exists(c) => format!("SessionExists({:?})", w.clients[*c]),
        Op::Lost(c) => format!("ConnectionLost({:?})", w.clients[*c]),
        Op::Disc(c) => format!("ConnectionDisconnected({:?})", w.clients[*c]),
        Op::Count => "SessionCount".to_string(),
    };
    format!("{} -> {:?}", o, e.res)
}

async fn timed<T>(f: impl std::future::Future<Output = T>) -> Option<T> {
    tokio::time::timeout(std::time::Duration::from_secs(if cfg!(miri) { 6000 } else { 60 }), f).await.ok()
}

fn sequential(r: &Report, seed: u64) {
    let mut rng = Rng::new(seed);
    let (nc, nf, nt) = (rng.range(1, 12), rng.range(2, 40), rng.range(1, 15));
    let w = Arc::new(world(&mut rng, nc, nf, nt, 14));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let n = if cfg!(miri) { 60 } else { rng.range(20, 1500) };
    let res: Result<u64, (String, String)> = rt.block_on(async {
        let (tx, rx) = mpsc::channel(rng.range(1, 32));
        let core = tokio::spawn(MessagingService::new().run(rx));
        let mut m = Model::default();
        let mut fp = 0;
        for k in 0..n {
            let op = random_op(&mut rng, &w);
            let before = m.clone();
            let asked = match timed(submit(&tx, &w, &op)).await {
                Some(a) => a,
                None => return Err(("no reply".into(), format!("request {} cannot be submitted: {:?}", k, op))),
            };
            let ans = match asked {
                Some(a) => timed(a).await,
                None => Some(None),
            };
            match ans {
                Some(Some(res)) => {
                    let e = Rec { op, res, inv: 0, ret: 0 };
                    fp = mix64(fp ^ hash_bytes(1, format!("{:?}", e.op).as_bytes()));
                    if !step(&w, &mut m, &e.op, &e.res) {
                        let ses: Vec<String> = before.sessions.iter().map(|(c, q)| format!("{:?}:queue {}", w.clients[*c], q)).collect();
                        let subs: Vec<String> = before.subs.iter().map(|(c, f)| format!("{:?} on {:?}", w.clients[*c], w.filters[*f])).collect();
                        return Err(("result".into(), format!("request {}: {}; sessions {:?}; subscriptions {:?}", k, show(&w, &e), ses, subs)));
                    }
                }
                Some(None) => {
                    let why = if core.is_finished() { "; the core has ended" } else { "" };
                    return Err(("no reply".into(), format!("request {} got no reply: {:?}{}", k, op, why)));
                }
                None => return Err(("no reply".into(), format!("request {} is never answered: {:?}", k, op))),
            }
        }
        drop(tx);
        match timed(core).await {
            Some(Ok(())) => Ok(fp),
            Some(Err(e)) => Err(("panic".into(), format!("the core ended with {}", e))),
            None => Err(("end".into(), "the core does not end when nobody can ask it any more".into())),
        }
    });
    match res {
        Ok(fp) => {
            r.eval(fp);
            r.count("requests compared one by one", n as u64);
        }
        Err((sig, m)) => r.violation(&sig, m, json!({"seed": seed, "kind": "sequential"})),
    }
}

fn concurrent(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let threads = rng.range(2, 4);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(threads).enable_all().build().unwrap();
    let nt = rng.range(2, 5);
    let len = if cfg!(miri) { 8 } else { rng.range(5, 60) };
    let (nc, nf, ntop) = (rng.range(1, 4), rng.range(1, 6), rng.range(1, 4));
    let w = Arc::new(world(&mut rng, nc, nf, ntop, 5));
    let recs: Arc<Mutex<Vec<Vec<Rec>>>> = Arc::new(Mutex::new(vec![vec![]; nt]));
    let bad: Result<(), (String, String)> = rt.block_on(async {
        let (tx, rx) = mpsc::channel(rng.range(1, 32));
        let core = tokio::spawn(MessagingService::new().run(rx));
        let mut hs = vec![];
        for k in 0..nt {
            let (tx, w, recs) = (tx.clone(), w.clone(), recs.clone());
            let mut rng = Rng::new(rng.next());
            hs.push(tokio::spawn(async move {
                for _ in 0..len {
                    let op = random_op(&mut rng, &w);
                    for _ in 0..rng.below(3) {
                        tokio::task::yield_now().await;
                    }
                    let inv = tick();
                    let Some(asked) = timed(submit(&tx, &w, &op)).await else { return Err(format!("request cannot be submitted: {:?}", op)) };
                    let Some(a) = asked else { return Err(format!("the core is gone: {:?}", op)) };
                    if rng.chance(20) {
                        tokio::task::yield_now().await;
                    }
                    let Some(ans) = timed(a).await else { return Err(format!("request is never answered: {:?}", op)) };
                    let Some(res) = ans else { return Err(format!("request got no reply: {:?}", op)) };
                    let ret = tick();
                    recs.lock().unwrap()[k].push(Rec { op, res, inv, ret });
                }
                Ok(())
            }));
        }
        drop(tx);
        for h in hs {
            match h.await {
                Ok(Ok(())) => {}
                Ok(Err(m)) => return Err(("no reply".to_string(), m)),
                Err(e) => return Err(("harness".to_string(), e.to_string())),
            }
        }
        match timed(core).await {
            Some(Ok(())) => Ok(()),
            Some(Err(e)) => Err(("panic".into(), format!("the core ended with {}", e))),
            None => Err(("end".into(), "the core does not end when nobody can ask it any more".into())),
        }
    });
    drop(rt);
    let replay = json!({"seed": seed, "scenario": i, "kind": "concurrent"});
    if let Err((sig, m)) = bad {
        return r.violation(&sig, m, replay);
    }
    let recs = recs.lock().unwrap().clone();
    let total: usize = recs.iter().map(|t| t.len()).sum();
    let overlaps = recs.iter().enumerate().flat_map(|(k, t)| t.iter().map(move |e| (k, e))).filter(|(k, e)| recs.iter().enumerate().any(|(j, u)| j != *k && u.iter().any(|f| f.inv < e.ret && e.inv < f.ret))).count();
    match linearizable(&w, &recs) {
        Ok(Ok(())) => {
            let mut all: Vec<(u64, usize)> = recs.iter().enumerate().flat_map(|(k, t)| t.iter().flat_map(move |e| [(e.inv, k), (e.ret, k + 100)])).collect();
            all.sort();
            let fp = all.iter().fold(seed, |h, x| mix64(h ^ x.1 as u64));
            r.evals(1);
            if overlaps > 0 {
                r.nontrivial(fp);
            }
            r.count("concurrent histories found linearizable", 1);
            r.count("requests in them", total as u64);
            r.count("of them overlapping another", overlaps as u64);
            if i % 200 == 0 {
                r.sample(json!({"tasks": nt, "requests": total, "overlapping": overlaps, "history of the first task": recs[0].iter().take(6).map(|e| show(&w, e)).collect::<Vec<_>>()}));
            }
        }
        Ok(Err((pos, m))) => {
            let next: Vec<String> = pos.iter().enumerate().filter(|(k, p)| **p < recs[*k].len()).map(|(k, p)| show(&w, &recs[k][*p])).collect();
            r.violation("not linearizable", format!("no order explains the history of {} requests; furthest: {} done, state {:?}, none of these is possible next: {:?}", total, pos.iter().sum::<usize>(), m, next), replay);
        }
        Err(()) => r.inconclusive("history too ambiguous to decide".into()),
    }
}

fn c25() -> Report {
    let r = Report::new("C25", "random request sequences to the real messaging core, answered one at a time and compared with a model, and random concurrent ones from several tasks on several threads, checked for linearizability; an evaluation is one sequence or history; distinct: by request sequence, or by order of submissions and replies of histories with overlapping requests");
    if std::env::args().nth(1).map_or(false, |a| a == "C23") {
        r.mute.store(true, std::sync::atomic::Ordering::SeqCst);
    }
    let tb = TimeBox::secs(budget(20.0, 400.0));
    let next = std::sync::atomic::AtomicU64::new(0);
    let only = std::env::var("VERIF_ONLY").ok().and_then(|v| v.parse::<u64>().ok());
    let workers = if cfg!(miri) { 1 } else { 4 };
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                let mut i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if let Some(o) = only {
                    if i > 0 {
                        return;
                    }
                    i = o;
                }
                if r.stopped() || (i >= 40 && tb.over()) || (cfg!(miri) && i >= 8) {
                    return;
                }
                let seed = mix64(r.seed << 32 | i);
                if i % 4 == 0 {
                    sequential(&r, seed);
                } else {
                    concurrent(&r, i, seed);
                }
            });
        }
    });
    r
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let r = match a[1].as_str() {
        "C22" => c22(),
        "C25" => c25(),
        "C23" => {
            // under an interpreter or sanitizer: what matters is its report
            let mut r = c25();
            r.prop = "C23".into();
            r.rule = "request sequences and concurrent histories through the messaging core under an interpreter or sanitizer".into();
            r
        }
        p => panic!("no property {}", p),
    };
    if cfg!(miri) {
        println!("RESULT {}", r.json());
    } else {
        std::fs::write(&a[2], serde_json::to_string_pretty(&r.json()).unwrap()).unwrap();
    }
}
