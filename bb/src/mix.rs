//! Concurrent traffic of many clients against one broker.

use crate::client::*;
use crate::hist;
use crate::mq::{self, Connect};
use crate::proc::*;
use crate::report::Report;
use crate::util::*;
use serde_json::json;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub name: &'static str,
    pub clients: (usize, usize),
    pub listeners: (usize, usize),
    pub ops: (usize, usize),
    pub topics: (usize, usize),
    /// weights: publish, burst, subscribe, unsubscribe, ping, reconnect, pause
    pub w: [usize; 7],
    pub burst: (usize, usize),
    /// 0: small; 1: up to tens of KB; 2: up to MBs now and then
    pub sizes: usize,
    pub split: usize,
    pub slow: usize,
    pub qos: bool,
    pub pub_only: usize,
    /// percent of reconnects that reset, or take over the live connection
    pub rude: usize,
    pub pipeline: usize,
}

pub const BASE: Cfg = Cfg {
    name: "base",
    clients: (3, 12),
    listeners: (1, 3),
    ops: (10, 60),
    topics: (2, 10),
    w: [40, 8, 18, 10, 10, 2, 5],
    burst: (10, 120),
    sizes: 1,
    split: 30,
    slow: 20,
    qos: true,
    pub_only: 10,
    rude: 0,
    pipeline: 30,
};

pub fn topic_pool(rng: &mut Rng, n: usize) -> Vec<String> {
    let mut levels = ["a", "b", "c", "", "$s", "ü", "A", "a b", "x.y", "0"];
    if rng.chance(25) {
        // alike, but not the same
        levels = ["a", "a ", "\u{feff}a", "\u{feff}", " ", "aa", "A", "\u{e4}", "a\u{308}", "\ta"];
    }
    let used = rng.range(2, levels.len());
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        let d = rng.range(1, 4);
        let t: Vec<&str> = (0..d).map(|_| levels[rng.below(used)]).collect();
        let t = t.join("/");
        if !t.is_empty() && !v.contains(&t) {
            v.push(t);
        } else if rng.chance(5) {
            break;
        }
    }
    if v.is_empty() {
        v.push("a".into());
    }
    v
}

pub fn filter_for(rng: &mut Rng, topics: &[String]) -> String {
    if rng.chance(6) {
        return rng.pick(&["#", "+", "+/#", "+/+", "/#", "a/#"]).to_string();
    }
    let t = rng.pick(topics).clone();
    let mut l: Vec<String> = t.split('/').map(|s| s.to_string()).collect();
    for x in l.iter_mut() {
        if rng.chance(30) {
            *x = "+".into();
        }
    }
    if rng.chance(25) {
        let k = rng.below(l.len() + 1);
        l.truncate(k);
        l.push("#".into());
    }
    let f = l.join("/");
    if mq::filter_valid(&f) {
        f
    } else {
        "a".into()
    }
}

/// Publishes on every topic, in random order, some several times; often first on the one that was
/// published on last, so that nothing but what the caller did lies between the two.
pub fn probe(p: &mut Client, topics: &[String], size: usize, last: &mut String, rng: &mut Rng) {
    let mut ts: Vec<&String> = topics.iter().collect();
    rng.shuffle(&mut ts);
    if rng.chance(60) {
        if let Some(k) = ts.iter().position(|t| **t == *last) {
            ts.swap(0, k);
        }
    }
    for t in ts {
        for _ in 0..if rng.chance(20) { rng.range(2, 4) } else { 1 } {
            p.publish(t, size);
        }
        *last = t.clone();
    }
}

/// One publication on one topic, to be followed by a change and a probe.
pub fn touch(p: &mut Client, topics: &[String], size: usize, last: &mut String, rng: &mut Rng) {
    for _ in 0..rng.range(1, 3) {
        *last = rng.pick(topics).clone();
        p.publish(last, size);
    }
}

pub fn size(rng: &mut Rng, class: usize) -> usize {
    match (class, rng.below(100)) {
        (0, _) | (_, 0..=69) => rng.range(8, 200),
        (_, 70..=84) => *rng.pick(&[100, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129]) + rng.below(3),
        (_, 85..=94) => rng.range(4060, 4140),
        (1, _) => rng.range(8000, 20000),
        (_, 95..=98) => rng.range(16300, 16400) * rng.range(1, 5),
        (_, _) => rng.range(200_000, 2_200_000),
    }
}

/// All connections of all clients, ended or not, after everything sent was processed.
pub fn run(rng: &mut Rng, cfg: &Cfg, b: &Arc<Broker>) -> Result<Vec<Client>, Stop> {
    let n = rng.range(cfg.clients.0, cfg.clients.1);
    let nt = rng.range(cfg.topics.0, cfg.topics.1);
    let topics = topic_pool(rng, nt);
    let all = Mutex::new(Vec::new());
    let errs: Mutex<Vec<Stop>> = Mutex::new(vec![]);
    let gate = std::sync::Barrier::new(n);
    std::thread::scope(|s| {
        for i in 0..n {
            let mut rng = Rng::new(rng.next());
            let (topics, all, errs, gate) = (&topics, &all, &errs, &gate);
            let b = b.clone();
            s.spawn(move || {
                let mut mine = vec![];
                let r = client_thread(&mut rng, cfg, &b, i, topics, gate, &mut mine);
                if let Err(e) = r {
                    errs.lock().unwrap().push(e);
                }
                all.lock().unwrap().extend(mine);
            });
        }
    });
    let mut e = errs.into_inner().unwrap();
    if !e.is_empty() {
        // the worst first
        e.sort_by_key(|s| match s {
            Stop::Dead(_) => 0,
            Stop::Bad(_) => 1,
            Stop::Stuck(_) => 2,
            _ => 3,
        });
        return Err(e.remove(0));
    }
    Ok(all.into_inner().unwrap())
}

fn open(rng: &mut Rng, cfg: &Cfg, b: &Arc<Broker>, id: &str) -> Result<Client, Stop> {
    let addr = b.addr(rng);
    let rb = if rng.chance(cfg.slow) { Some(rng.range(16, 64) * 1024) } else { None };
    let mut c = Client::open(b, addr, id, rng, rb)?;
    c.split = rng.chance(cfg.split);
    if rng.chance(cfg.slow) {
        c.rx.slow_us.store(rng.range(20, 300) as u64, Ordering::Relaxed);
        c.rx.chunk.store(rng.range(700, 20000), Ordering::Relaxed);
    }
    let mut cp = Connect::new(id);
    cp.keep_alive = *rng.pick(&[0, 1, 60, 65535]);
    c.send_connect(&cp);
    c.expect_accepted()?;
    Ok(c)
}

fn client_thread(rng: &mut Rng, cfg: &Cfg, b: &Arc<Broker>, i: usize, topics: &[String], gate: &std::sync::Barrier, mine: &mut Vec<Client>) -> Result<(), Stop> {
    let id = format!("m{}-{}", i, rng.next() % 1000);
    let pub_only = rng.chance(cfg.pub_only);
    let r = open(rng, cfg, b, &id);
    gate.wait();
    mine.push(r?);
    let nops = rng.range(cfg.ops.0, cfg.ops.1);
    let mut held: Vec<String> = vec![];
    // some subscribe before anything is published
    if !pub_only && rng.chance(70) {
        let f = filter_for(rng, topics);
        held.push(f.clone());
        let c = mine.last_mut().unwrap();
        c.sub(&[(f, if cfg.qos { rng.below(3) as u8 } else { 0 })]);
    }
    let total: usize = cfg.w.iter().sum();
    let mut pending: Vec<u8> = vec![];
    let mut last = &topics[0];
    for _ in 0..nops {
        let c = mine.last_mut().unwrap();
        if c.closed() {
            return Err(Stop::Bad(format!("client {:?}: connection ended by the broker: {:?}", c.brief_id(), c.with_evs(|e| e.last().map(|e| brief(&e.k))))));
        }
        let mut x = rng.below(total);
        let mut k = 0;
        while x >= cfg.w[k] {
            x -= cfg.w[k];
            k += 1;
        }
        let q = |rng: &mut Rng| -> (u8, bool, bool) {
            if !cfg.qos {
                return (0, false, false);
            }
            let q = rng.below(3) as u8;
            (q, rng.chance(25), q > 0 && rng.chance(25))
        };
        match k {
            0 => {
                let (q, r, d) = q(rng);
                let sz = size(rng, cfg.sizes);
                if !rng.chance(40) {
                    last = rng.pick(topics);
                }
                let x = c.pub_bytes(last, sz, q, r, d);
                pending.extend(x);
            }
            1 => {
                let nb = rng.range(cfg.burst.0, cfg.burst.1);
                let t = rng.pick(topics).clone();
                let one = rng.chance(60);
                for _ in 0..nb {
                    let (q, r, d) = q(rng);
                    let sz = rng.range(8, 100);
                    let t2 = if one { &t } else { rng.pick(topics) };
                    let x = c.pub_bytes(t2, sz, q, r, d);
                    pending.extend(x);
                }
            }
            2 => {
                if pub_only {
                    continue;
                }
                let m = if rng.chance(80) { 1 } else { rng.range(2, 6) };
                let fs: Vec<(String, u8)> = (0..m)
                    .map(|_| {
                        let f = if !held.is_empty() && rng.chance(15) { rng.pick(&held).clone() } else { filter_for(rng, topics) };
                        (f, if cfg.qos { rng.below(3) as u8 } else { 0 })
                    })
                    .collect();
                held.extend(fs.iter().map(|f| f.0.clone()));
                let x = c.sub_bytes(&fs);
                pending.extend(x);
            }
            3 => {
                let f = if !held.is_empty() && rng.chance(85) {
                    let j = rng.below(held.len());
                    held.swap_remove(j)
                } else {
                    filter_for(rng, topics)
                };
                held.retain(|h| *h != f);
                let x = c.unsub_bytes(&[f]);
                pending.extend(x);
            }
            4 => {
                let x = c.ping_bytes();
                pending.extend(x);
            }
            5 => {
                c.raw(&pending);
                pending.clear();
                held.clear();
                let mode = if rng.chance(cfg.rude) { rng.below(2) } else { 2 + rng.below(2) };
                match mode {
                    0 => c.reset(),
                    1 => {
                        // takeover of the live connection
                        c.ended_by_other = Some(tick());
                    }
                    2 => c.bye()?,
                    _ => c.fin()?,
                }
                let n = open(rng, cfg, b, &id)?;
                if mode == 1 {
                    c.wait_closed()?;
                }
                mine.push(n);
            }
            _ => {
                std::thread::sleep(std::time::Duration::from_micros(rng.below(3000) as u64));
            }
        }
        let c = mine.last_mut().unwrap();
        if !pending.is_empty() && !rng.chance(cfg.pipeline) {
            c.raw(&pending);
            pending.clear();
            if rng.chance(30) {
                c.wait_answers()?;
            }
        }
    }
    let c = mine.last_mut().unwrap();
    c.raw(&pending);
    c.barrier()?;
    Ok(())
}

/// order in which the broker interleaved the publishers, as the receivers saw it
pub fn fingerprint(cs: &[Client]) -> u64 {
    let mut h = 7u64;
    for c in cs {
        c.with_evs(|e| {
            let mut last = 0u64;
            for e in e {
                if let K::P(mq::Rx::Publish { payload, .. }) = &e.k {
                    let p = uid_of(payload).unwrap_or(0) >> 32;
                    if p != last {
                        h = mix64(h ^ p);
                        last = p;
                    }
                }
            }
        });
        h = mix64(h ^ 0xff);
    }
    h
}

/// One scenario: traffic, then all oracles; reports the violations whose kind is in `kinds`.
pub fn scenario(r: &Report, i: u64, seed: u64, cfg: &Cfg, kinds: &[&str], stuck_counts: bool) {
    let mut rng = Rng::new(seed);
    let l = rng.range(cfg.listeners.0, cfg.listeners.1);
    let o = Opts::diverse(&mut rng, l);
    let replay = json!({"scenario": i, "seed": seed, "cfg": format!("{:?}", cfg), "opts": format!("threads={} pause={:?} listeners={}", o.threads, o.pause, o.listeners)});
    let b = match Broker::start(&o) {
        Ok(b) => Arc::new(b),
        Err(e) => return r.inconclusive(e),
    };
    let res = run(&mut rng, cfg, &b).and_then(|cs| hist::judge(&cs).map(|j| (cs, j)));
    match res {
        Ok((cs, (expected, v, h))) => {
            let got: usize = h.conns.iter().map(|c| c.evs.iter().filter(|e| matches!(e.k, K::P(mq::Rx::Publish { .. }))).count()).sum();
            r.count("connections", cs.len() as u64);
            r.count("publications", h.pubs.len() as u64);
            r.count("deliveries observed", got as u64);
            r.count("deliveries that had to happen", expected as u64);
            r.count("subscription intervals", h.conns.iter().map(|c| c.intervals.len() as u64).sum());
            r.count("answers checked", cs.iter().map(|c| c.answers() as u64).sum());
            let fp = fingerprint(&cs);
            r.evals(1);
            if expected > 0 && cs.len() > 1 {
                r.nontrivial(fp);
            }
            r.sample(json!({"scenario": i, "workload": cfg.name, "connections": cs.len(), "publications": h.pubs.len(), "deliveries": got, "required": expected, "interleaving": format!("{:016x}", fp)}));
            for x in v {
                if kinds.contains(&x.kind) {
                    r.violation(&format!("{}:{}", cfg.name, x.kind), x.msg, replay.clone());
                }
            }
        }
        Err(s) => {
            let al = b.alarms();
            match s {
                Stop::Unknown(m) | Stop::Harness(m) => r.inconclusive(m),
                Stop::Stuck(m) | Stop::Bad(m) | Stop::Dead(m) if stuck_counts => r.violation(&format!("{}:stuck", cfg.name), format!("{} {:?}", m, al.first()), replay),
                _ => r.evals(1),
            }
        }
    }
}
