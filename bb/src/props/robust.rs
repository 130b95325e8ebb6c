//! C01 C02 C03 (seen from outside), C15 C16: sizes, garbage, hostile and stalled peers.

use super::protocol::{rogue_publish, start};
use crate::client::*;
use crate::gen;
use crate::hist;
use crate::mix::{self, Cfg, BASE};
use crate::mq::{self, Connect, Rx};
use crate::proc::*;
use crate::refdec::{self, D};
use crate::props::long;
use crate::report::*;
use crate::util::*;
use serde_json::json;
use std::io::Write;
use std::net::{Shutdown, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};

const BOUNDS: [usize; 6] = [127, 128, 16383, 16384, 2_097_151, 2_097_152];

// ---------------------------------------------------------------- C01

pub fn c01() -> Report {
    let r = Report::new(
        "C01",
        "end to end: publications whose remaining length is at and around every boundary of the length encoding, with topics up to 65535 bytes, sent whole or in random segments, compared in order with what a subscriber receives; and CONNECT packets with all optional fields, whose decoded client id, user name and password show in take-over and authentication; distinct: by (topic, size) sequence",
    );
    run_many(&r, 4, budget(12.0, 300.0), 6, 1 << 40, |i, seed| match i % 4 {
        3 => connects(&r, i, seed),
        _ => sizes(&r, i, seed),
    });
    r
}

fn around(rng: &mut Rng, b: usize) -> usize {
    (b + rng.below(5)).saturating_sub(2)
}

fn sizes(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let o = Opts::diverse(&mut rng, 1);
    let replay = json!({"scenario": i, "seed": seed, "kind": "sizes"});
    let Some(b) = start(r, &o) else { return };
    let mut go = || -> Result<(), Stop> {
        let mut s = Client::connect(&b, b.addrs[0], "s", &mut rng)?;
        s.sub1("#");
        s.wait_answers()?;
        let mut p = Client::connect(&b, b.addrs[0], "p", &mut rng)?;
        p.split = rng.chance(60);
        let n = rng.range(4, 40);
        let mut want: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        let mut buf = vec![];
        let mut fp = 0;
        let mut total = 0usize;
        for k in 0..n {
            let qos = rng.below(3) as u8;
            let tl = match rng.below(10) {
                0 => 65535,
                1 => rng.range(32760, 32770),
                2 => rng.range(250, 260),
                3 => rng.range(120, 130),
                4 => rng.range(4080, 4100),
                _ => rng.range(1, 30),
            };
            let topic: String = "t".to_string() + &gen::text(&mut rng, 60) + &"y".repeat(tl);
            let topic = topic.chars().filter(|c| *c != '$').collect::<String>();
            let mut topic = topic.into_bytes();
            topic.truncate(tl);
            while std::str::from_utf8(&topic).is_err() {
                topic.pop();
            }
            let head = 2 + topic.len() + if qos > 0 { 2 } else { 0 };
            let mut target = if i == 0 && k < BOUNDS.len() { BOUNDS[k] } else { let b = *rng.pick(&BOUNDS); around(&mut rng, b) };
            if target > 1 << 20 && (rng.chance(70) && !(i == 0 && k < BOUNDS.len()) || total > 12 << 20) {
                target = rng.range(0, 70000);
            }
            if i == 1 && k == 0 && thorough() {
                target = 268_435_455;
            }
            total += target;
            let len = target.saturating_sub(head);
            let pl = rng.bytes(len);
            buf.extend(mq::publish(&topic, &pl, qos, rng.chance(20), false, rng.range(1, 65535) as u16));
            fp = hash_bytes(fp ^ len as u64, &topic[..topic.len().min(50)]);
            want.push((topic, pl));
            r.max("largest remaining length", (head + len) as u64);
            if rng.chance(40) {
                p.raw(&buf);
                buf.clear();
            }
        }
        p.raw(&buf);
        p.barrier()?;
        let n = want.len();
        let w = wait_until(&b, || s.rx.pubs.load(Ordering::SeqCst) >= n || s.closed());
        stop_if(w, || format!("the subscriber got {} of {} publications", s.rx.pubs.load(Ordering::SeqCst), n))?;
        let got = s.publishes();
        for (k, (t, pl)) in want.iter().enumerate() {
            match got.get(k) {
                Some((_, Rx::Publish { topic, payload, .. })) if topic == t && payload == pl => {}
                other => {
                    return Err(Stop::Bad(format!(
                        "publication {} ({} bytes on a topic of {} bytes {}) arrived as {}",
                        k,
                        pl.len(),
                        t.len(),
                        hex(&t[..t.len().min(20)]),
                        other.map_or("nothing".into(), |x| x.1.brief())
                    )))
                }
            }
        }
        r.eval(fp);
        r.count("publications compared", n as u64);
        r.count("payload bytes compared", total as u64);
        Ok(())
    };
    if let Err(s) = go() {
        r.stop_to("sizes", s, replay);
    }
}

fn connects(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let mut users: Vec<(String, String)> = vec![];
    let mut file = String::new();
    for k in 0..4 {
        let base = gen::text(&mut rng, if k == 0 { 60000 } else { 200 }).replace(':', "_");
        let u = format!("{}u{}", base, k);
        let p = format!("{}p{}", gen::text(&mut rng, 65000), k);
        file.push_str(&format!("{}:{}\n", u, super::conf::hash(&p, 0, rng.next())));
        users.push((u, p));
    }
    let o = Opts { passwd: file, ..Opts::diverse(&mut rng, 1) };
    let replay = json!({"scenario": i, "seed": seed, "kind": "connects"});
    let Some(b) = start(r, &o) else { return };
    let mut go = || -> Result<(), Stop> {
        for k in 0..8 {
            let mut id = gen::text(&mut rng, 65000) + &"i".repeat(rng.below(20));
            id.push_str(&format!("{}-{}", i, k));
            let make = |rng: &mut Rng, id: &str| {
                let mut c = Connect::new("");
                c.id = id.as_bytes().to_vec();
                c.clean = rng.chance(70);
                c.keep_alive = rng.next() as u16;
                if rng.chance(60) {
                    let n = gen::size(rng, 65535).min(65535);
                    c.will = Some((format!("w{}", gen::text(rng, 300)).into_bytes(), rng.bytes(n), rng.below(3) as u8, rng.chance(50)));
                }
                c
            };
            let mut c1 = Client::open(&b, b.addrs[0], "c1", &mut rng, None)?;
            c1.split = rng.chance(50);
            let mut p = make(&mut rng, &id);
            let auth = rng.chance(80);
            let (u, pw) = rng.pick(&users).clone();
            if auth {
                p.user = Some(u.clone().into_bytes());
                p.pass = Some(pw.clone().into_bytes());
            }
            let text = format!("CONNECT with id of {} bytes, will {:?}, user {} bytes, password {} bytes", id.len(), p.will.as_ref().map(|w| (w.0.len(), w.1.len())), p.user.as_ref().map_or(0, |u| u.len()), p.pass.as_ref().map_or(0, |u| u.len()));
            c1.send_connect(&p);
            c1.wait_evs("CONNACK", |e| !e.is_empty())?;
            match &c1.evs()[0].k {
                K::P(Rx::ConnAck { rc: 0, .. }) => {}
                o => return Err(Stop::Bad(format!("{} was answered with {:?}", text, o))),
            }
            // another id, differing in one character, is somebody else
            let mut other = id.clone().into_bytes();
            let l = other.len();
            other[l - 1] ^= 1;
            let mut c2 = Client::open(&b, b.addrs[0], "c2", &mut rng, None)?;
            let p2 = make(&mut rng, std::str::from_utf8(&other).unwrap());
            c2.send_connect(&p2);
            c2.expect_accepted()?;
            c1.barrier()?;
            if auth {
                // one byte of the password changed
                let mut c3 = Client::open(&b, b.addrs[0], "c3", &mut rng, None)?;
                let mut p3 = make(&mut rng, "third");
                p3.user = Some(u.clone().into_bytes());
                let mut w = pw.clone().into_bytes();
                w.push(b'x');
                p3.pass = Some(w);
                c3.send_connect(&p3);
                c3.wait_evs("CONNACK", |e| !e.is_empty())?;
                if let K::P(Rx::ConnAck { rc: 0, .. }) = c3.evs()[0].k {
                    return Err(Stop::Bad("a password with one character more was accepted".into()));
                }
            }
            // the same id takes the connection over
            let mut c4 = Client::open(&b, b.addrs[0], "c4", &mut rng, None)?;
            let p4 = make(&mut rng, &id);
            c4.send_connect(&p4);
            c4.expect_accepted()?;
            c1.wait_closed()?;
            c2.barrier()?;
            r.eval(hash_bytes(k as u64, &p.encode()));
            r.count("CONNECT packets whose fields were observed", 1);
        }
        Ok(())
    };
    if let Err(s) = go() {
        r.stop_to("connects", s, replay);
    }
}

// ---------------------------------------------------------------- C02

pub fn c02() -> Report {
    let r = Report::new(
        "C02",
        "live connections that send valid packets, then one packet the reference decoder refuses, then packets that must have no effect; the broker has to close the connection, and a witness subscribed to everything must see nothing of the tail; distinct: by the malformed bytes",
    );
    run_many(&r, 4, budget(12.0, 300.0), 6, 1 << 40, |i, seed| refused(&r, i, seed));
    r
}

/// bytes whose first packet must be refused
pub(crate) fn malformed(rng: &mut Rng) -> Option<(Vec<u8>, &'static str)> {
    for _ in 0..300 {
        let p = gen::broken(rng, 300);
        if let D::Malformed(why, upto) = refdec::next(&p) {
            if upto <= p.len() {
                return Some((p, why));
            }
        }
    }
    None
}

fn refused(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let l = rng.range(1, 2);
    let o = Opts::diverse(&mut rng, l).chatty(&mut rng, 20);
    let replay = json!({"scenario": i, "seed": seed, "kind": "refused"});
    let Some(b) = start(r, &o) else { return };
    let mut go = || -> Result<(), Stop> {
        let mut w = Client::connect(&b, b.addrs[0], "witness", &mut rng)?;
        w.sub1("#");
        w.wait_answers()?;
        for k in 0..25 {
            let a = b.addr(&mut rng);
            let id = if rng.chance(50) { format!("m{}", k) } else { "m".into() };
            let mut c = Client::open(&b, a, &id, &mut rng, None)?;
            c.split = rng.chance(40);
            c.send_connect(&Connect::new(&id));
            if rng.chance(50) {
                c.expect_accepted()?;
            }
            let mut buf = vec![];
            for _ in 0..rng.below(4) {
                if rng.chance(50) {
                    let x = c.pub_bytes("ok/1", 40, rng.below(3) as u8, false, false);
                    buf.extend(x);
                } else {
                    let x = c.sub_bytes(&[("held/#".into(), 0)]);
                    buf.extend(x);
                }
            }
            let cut = rng.chance(15);
            let Some((bad, why)) = malformed(&mut rng) else { continue };
            let what;
            if cut {
                // a packet that never ends, because the peer closes its direction
                let g = gen::valid(&mut rng, 3000);
                let n = rng.range(1, g.len() - 1);
                buf.extend_from_slice(&g[..n]);
                what = format!("a packet cut after {} of {} bytes: {}", n, g.len(), hex(&g[..n]));
                c.raw(&buf);
                c.mark_end();
                let _ = c.stream.shutdown(Shutdown::Write);
                r.count("cut packets", 1);
            } else {
                what = format!("{} ({})", hex(&bad), why);
                buf.extend_from_slice(&bad);
                r.count(&format!("refused: {}", why), 1);
                let late = rng.chance(40);
                if late {
                    c.raw(&buf);
                    buf.clear();
                    if rng.chance(50) {
                        sleep_ms(rng.range(0, 20) as u64);
                    }
                }
                for _ in 0..rng.range(1, 4) {
                    match rng.below(4) {
                        0 => buf.extend(mq::subscribe(0x7777, &[("held/#".into(), 0)])),
                        1 => buf.extend(mq::PINGREQ),
                        _ => buf.extend(rogue_publish(&mut rng, "rogue/x")),
                    }
                }
                c.mark_end();
                c.raw(&buf);
            }
            let res = c.wait_closed();
            if let Err(Stop::Stuck(m)) = &res {
                return Err(Stop::Stuck(format!("after {}: {}", what, m)));
            }
            res?;
            let max = c.requests();
            c.with_evs(|e| {
                let mut n = 0;
                for e in e {
                    match &e.k {
                        K::P(Rx::SubAck { pid: 0x7777, .. }) => return Err(Stop::Bad(format!("a SUBSCRIBE following {} was answered", what))),
                        K::P(Rx::Publish { .. }) => {}
                        K::P(Rx::PubAck(_) | Rx::PubRec(_) | Rx::PubComp(_) | Rx::PubRel(_)) => {}
                        K::P(_) => n += 1,
                        K::Malformed(m) => return Err(Stop::Bad(format!("after {} the broker sent {}", what, m))),
                        _ => {}
                    }
                }
                if n > max {
                    return Err(Stop::Bad(format!("{} answers to {} requests that precede {}", n, max, what)));
                }
                Ok(())
            })?;
            r.eval(hash_bytes(cut as u64, &bad));
            if let Err(e) = w.barrier() {
                return Err(match e {
                    Stop::Stuck(m) => Stop::Stuck(format!("after {}: {}", what, m)),
                    Stop::Bad(m) => Stop::Bad(format!("after {}: {}", what, m)),
                    e => e,
                });
            }
            for (_, p) in w.publishes() {
                if let Rx::Publish { topic, payload, .. } = &p {
                    if payload.starts_with(b"ROGUE") || topic.starts_with(b"rogue") {
                        return Err(Stop::Bad(format!("a publication following {} was delivered: {}", what, p.brief())));
                    }
                    if topic != b"ok/1" {
                        return Err(Stop::Bad(format!("{} made the broker deliver {}", what, p.brief())));
                    }
                }
            }
            if k == 0 {
                r.sample(json!({"scenario": i, "malformed": what}));
            }
        }
        if let Some(p) = b.alarms().first() {
            return Err(Stop::Bad(format!("panic: {}", p)));
        }
        Ok(())
    };
    if let Err(s) = go() {
        r.stop_to("refused", s, replay);
    }
}

// ---------------------------------------------------------------- C03

pub fn c03() -> Report {
    let r = Report::new(
        "C03",
        "end to end: publications and acknowledgements of all sizes to subscribers with small receive buffers that read slowly, in small pieces, or pause in the middle of packets; every byte they receive is parsed strictly and compared, in order, with what was published; distinct: by sequence of sizes and paces",
    );
    let slow = Cfg { name: "slow", sizes: 1, slow: 90, clients: (3, 6), ops: (8, 25), w: [35, 10, 18, 5, 15, 1, 5], burst: (20, 150), ..BASE };
    run_many(&r, 4, budget(12.0, 300.0), 6, 1 << 40, |i, seed| match i % 3 {
        2 => mix::scenario(&r, i, seed, &slow, &["malformed", "phantom", "loss"], true),
        _ => paces(&r, i, seed),
    });
    r
}

fn paces(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let o = Opts::diverse(&mut rng, 1);
    let replay = json!({"scenario": i, "seed": seed, "kind": "paces"});
    let Some(b) = start(r, &o) else { return };
    let mut go = || -> Result<(), Stop> {
        let ns = rng.range(1, 3);
        let mut subs = vec![];
        let mut fp = seed;
        // tiny windows take the kernel long: less data then
        let rb = *rng.pick(&[Some(1024), Some(4096), Some(16384), Some(65536), None]);
        let room = match rb {
            Some(1024) => 60_000,
            Some(4096) => 400_000,
            Some(16384) => 2_500_000,
            _ => 6 << 20,
        };
        for k in 0..ns {
            let mut s = Client::open(&b, b.addrs[0], "s", &mut rng, rb)?;
            s.send_connect(&Connect::new(&format!("s{}", k)));
            s.expect_accepted()?;
            s.rx.slow_us.store(rng.range(0, 200) as u64, Ordering::SeqCst);
            s.rx.chunk.store(if room > 1 << 20 { *rng.pick(&[1 << 16, 30000, 9000]) } else { *rng.pick(&[1 << 16, 4096, 1460, 513]) }, Ordering::SeqCst);
            // acknowledgements larger than every buffer
            let nf = *rng.pick(&[1, 3, 100, 4094, 4095, 4096, 20000]);
            let mut f: Vec<(String, u8)> = (0..nf - 1).map(|j| (format!("n/{}", j % 50), rng.below(3) as u8)).collect();
            f.push(("t/#".into(), 0));
            s.sub(&f);
            s.wait_answers()?;
            let want = f.len();
            s.with_evs(|e| match e.iter().rev().find_map(|e| if let K::P(Rx::SubAck { codes, .. }) = &e.k { Some(codes.len()) } else { None }) {
                Some(n) if n == want => Ok(()),
                o => Err(Stop::Bad(format!("SUBACK with {:?} return codes for {} filters", o, want))),
            })?;
            subs.push(s);
        }
        let mut p = Client::connect(&b, b.addrs[0], "p", &mut rng)?;
        let n = rng.range(5, 60);
        let mut want: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        let mut total = 0;
        for _ in 0..n {
            let len = match rng.below(10) {
                _ if total > room => rng.range(0, 300),
                0 if room > 2_200_000 => rng.range(1 << 20, 2_200_000),
                1 if room > 300_000 => rng.range(60_000, 300_000),
                2 => {
                    let b = *rng.pick(&[127, 128, 16383, 16384]);
                    around(&mut rng, b) - 6
                }
                3 => rng.range(4080, 4100),
                4 => rng.range(8180, 8200),
                _ => rng.range(0, 300),
            };
            total += len;
            fp = mix64(fp ^ len as u64);
            let pl = rng.bytes(len);
            let t = format!("t/{}", rng.below(10));
            p.raw(&mq::publish(t.as_bytes(), &pl, rng.below(3) as u8, false, false, 9));
            want.push((t.into_bytes(), pl));
            if rng.chance(10) {
                let s = &subs[rng.below(subs.len())];
                s.set_paused(true);
                sleep_ms(rng.range(0, 30) as u64);
                s.set_paused(false);
            }
            // its last byte must not wait for the next packet
            if rng.chance(20) {
                let n = want.len();
                for s in &subs {
                    let w = wait_until(&b, || s.rx.pubs.load(Ordering::SeqCst) >= n || s.closed());
                    stop_if(w, || format!("publication {} of {} bytes is not complete at a reading subscriber; it has {} packets and {} bytes of an incomplete one", n - 1, want[n - 1].1.len(), s.rx.pubs.load(Ordering::SeqCst), s.rx.partial.load(Ordering::SeqCst)))?;
                }
            }
        }
        for s in &subs {
            let w = wait_until(&b, || s.rx.pubs.load(Ordering::SeqCst) >= want.len() || s.closed());
            stop_if(w, || format!("a subscriber has {} of {} packets and {} bytes of an incomplete one", s.rx.pubs.load(Ordering::SeqCst), want.len(), s.rx.partial.load(Ordering::SeqCst)))?;
            let got = s.publishes();
            for (k, (t, pl)) in want.iter().enumerate() {
                match got.get(k) {
                    Some((_, Rx::Publish { topic, payload, .. })) if topic == t && payload == pl => {}
                    other => return Err(Stop::Bad(format!("packet {} ({} payload bytes) was received as {}; connection: {:?}", k, pl.len(), other.map_or("nothing".into(), |x| x.1.brief()), s.with_evs(|e| e.last().map(|e| brief(&e.k)))))),
                }
            }
            if s.rx.partial.load(Ordering::SeqCst) != 0 {
                return Err(Stop::Bad("bytes of a further packet follow the last one".into()));
            }
        }
        r.eval(fp);
        r.count("packets compared byte by byte", (want.len() * subs.len()) as u64);
        r.count("bytes received", subs.iter().map(|s| s.rx.bytes.load(Ordering::SeqCst)).sum());
        Ok(())
    };
    if let Err(s) = go() {
        r.stop_to("paces", s, replay);
    }
}

// ---------------------------------------------------------------- C15

pub fn c15() -> Report {
    let r = Report::new(
        "C15",
        "hostile clients (valid, broken and random bytes; floods; resets; abandoned and half-closed connections; huge declared lengths; very deep topics; descriptor exhaustion) against a broker with 1 to 8 worker threads, next to a well-behaved pair and probing new clients; the process has to live, without a panic, serve the well-behaved throughout, and come to rest afterwards; an evaluation is one hostile connection; distinct: by the bytes it sent and how it ended",
    );
    run_many(&r, 3, budget(30.0, 700.0), 6, 1 << 40, |i, seed| match i % 6 {
        2 => descriptors(&r, i, seed),
        3 => deep(&r, i, seed),
        4 => churn(&r, i, seed),
        _ => hostile(&r, i, seed),
    });
    r
}

pub struct Canary {
    pub s: Client,
    pub p: Client,
    topic: String,
    n: usize,
}

impl Canary {
    pub fn new(b: &Arc<Broker>, rng: &mut Rng) -> Result<Canary, Stop> {
        let tag = rng.next() % 100000;
        let a = b.addr(rng);
        let mut s = Client::connect(b, a, &format!("canary-s-{}", tag), rng)?;
        let topic = format!("canary/{}", tag);
        s.sub1(&topic);
        s.wait_answers()?;
        let a = b.addr(rng);
        let p = Client::connect(b, a, &format!("canary-p-{}", tag), rng)?;
        Ok(Canary { s, p, topic, n: 0 })
    }
    /// a message from one to the other, and a request each
    pub fn beat(&mut self) -> Result<(), Stop> {
        let t = self.topic.clone();
        let uid = self.p.publish(&t, 64);
        let body = payload(uid, 64);
        self.p.barrier()?;
        let has = |e: &[Ev]| e.iter().any(|e| matches!(&e.k, K::P(Rx::Publish { payload, .. }) if *payload == body)) || e.last().map_or(false, |e| !matches!(e.k, K::P(_)));
        self.s.wait_evs("the canary's message", has)?;
        let ok = self.s.with_evs(|e| e.iter().any(|e| matches!(&e.k, K::P(Rx::Publish { payload, .. }) if *payload == body)));
        if !ok {
            return Err(Stop::Bad(format!("the well-behaved subscriber's connection ended: {:?}", self.s.with_evs(|e| e.last().map(|e| brief(&e.k))))));
        }
        self.s.barrier()?;
        self.n += 1;
        // keep the search short
        self.s.rx.evs.lock().unwrap().clear();
        self.s.ops.clear();
        self.s.rx.acks.store(0, Ordering::SeqCst);
        self.p.rx.evs.lock().unwrap().clear();
        self.p.ops.clear();
        self.p.rx.acks.store(0, Ordering::SeqCst);
        Ok(())
    }
}

pub fn probe(b: &Arc<Broker>, rng: &mut Rng, n: u64) -> Result<(), Stop> {
    let a = b.addr(rng);
    let t = format!("probe/{}", n);
    let mut c = Client::connect(b, a, &format!("probe-{}-{}", n, rng.next() % 1000), rng)?;
    c.sub1(&t);
    c.wait_answers()?;
    c.publish(&t, 30);
    c.barrier()?;
    c.wait_evs("its own message", |e| e.iter().any(|e| matches!(&e.k, K::P(Rx::Publish { topic, .. }) if topic == t.as_bytes())))?;
    c.bye()
}

/// the process is healthy and, with nobody sending, at rest
pub fn health(b: &Arc<Broker>) -> Result<(), Stop> {
    if let Some(d) = b.death() {
        return Err(Stop::Dead(d));
    }
    if let Some(p) = b.alarms().first() {
        return Err(Stop::Bad(format!("the broker printed: {}", p)));
    }
    Ok(())
}

pub fn rest(b: &Arc<Broker>) -> Result<(), Stop> {
    for k in 0..4 {
        let c = b.cpu_ticks();
        sleep_ms(500);
        let d = b.cpu_ticks() - c;
        if d < 25 {
            return Ok(());
        }
        if k == 3 {
            return Err(Stop::Bad(format!("with all hostile connections closed the broker keeps using {} % of a processor", d * 2)));
        }
        sleep_ms(1500);
    }
    Ok(())
}

/// under load a broker that uses its processors may just be slow
fn busy(s: &Stop) -> bool {
    matches!(s, Stop::Stuck(m) if m.contains("burns CPU"))
}

/// a round trip did not complete under attack: does it, now that the attack is over?
fn afterwards(r: &Report, b: &Arc<Broker>, rng: &mut Rng, canary: &mut Canary, e: Stop) -> Result<(), Stop> {
    if canary.s.wait_answers().is_err() || canary.p.wait_answers().is_err() {
        return Err(e);
    }
    *canary = Canary::new(b, rng)?;
    canary.beat()?;
    r.count("round trips that took until the end of the attack", 1);
    Ok(())
}

/// one hostile connection: what it sent
pub fn hostile_conn(b: &Arc<Broker>, rng: &mut Rng, i: u64, kept: Option<&Mutex<Vec<Client>>>) -> u64 {
    let a = b.addr(rng);
    let Ok(mut c) = Client::open(b, a, "h", rng, None) else { return 0 };
    let _ = c.stream.set_write_timeout(Some(std::time::Duration::from_secs(5)));
    c.split = rng.chance(30);
    let mut fp = 0u64;
    let mut send = |c: &mut Client, x: &[u8]| -> bool {
        fp = hash_bytes(fp, &x[..x.len().min(4096)]);
        c.raw(x) && !c.closed()
    };
    if rng.chance(80) {
        let id = match rng.below(5) {
            0 => "same".to_string(),
            1 => gen::text(rng, 2000),
            2 => String::new(),
            _ => format!("h{}-{}", i, rng.below(6)),
        };
        let mut p = Connect::new(&id);
        p.keep_alive = rng.next() as u16;
        send(&mut c, &p.encode());
    }
    let n = rng.range(0, 25);
    let mode = rng.below(4);
    for _ in 0..n {
        let x = match (mode, rng.below(10)) {
            (0, _) => gen::valid(rng, 100_000),
            (1, 0..=8) => gen::valid(rng, 70_000),
            (2, 0..=4) => gen::valid(rng, 300),
            (3, _) => {
                let n = rng.range(1, 3000);
                rng.bytes(n)
            }
            _ => gen::broken(rng, 300),
        };
        if !send(&mut c, &x) {
            break;
        }
    }
    match rng.below(7) {
        0 => c.reset(),
        1 => {
            c.raw(&mq::DISCONNECT);
        }
        2 => {
            let _ = c.stream.shutdown(Shutdown::Write);
        }
        3 => {
            let _ = c.stream.shutdown(Shutdown::Both);
        }
        4 => {
            // a flood of requests, answers read
            let mut f = vec![];
            for _ in 0..rng.range(10, 1000) {
                f.extend(mq::PINGREQ);
            }
            send(&mut c, &f);
        }
        _ => {
            if let Some(k) = kept {
                let mut k = k.lock().unwrap();
                k.push(c);
                if k.len() > 40 {
                    let j = rng.below(40);
                    k.swap_remove(j);
                }
                return fp;
            }
        }
    }
    fp
}

fn hostile(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let l = rng.range(1, 2);
    let mut o = Opts::diverse(&mut rng, l).chatty(&mut rng, 30);
    if rng.chance(40) {
        o.threads = 1;
    }
    let replay = json!({"scenario": i, "seed": seed, "kind": "hostile", "threads": o.threads});
    let Some(b) = start(r, &o) else { return };
    let mut canary = match Canary::new(&b, &mut rng) {
        Ok(c) => c,
        Err(e) => return r.stop_to("hostile", e, replay),
    };
    let stop = AtomicBool::new(false);
    let kept = Mutex::new(vec![]);
    let done = std::sync::atomic::AtomicU64::new(0);
    let secs = if thorough() { 12.0 } else { 4.0 };
    let res = std::thread::scope(|s| {
        for t in 0..rng.range(2, 8) {
            let mut rng = Rng::new(rng.next());
            let (b, stop, kept, done) = (&b, &stop, &kept, &done);
            s.spawn(move || {
                while !stop.load(Ordering::SeqCst) && b.alive() {
                    // what the broker has not yet read of closed connections must not pile up
                    // without bound, or all are slow for lack of processors alone
                    if b.sockets() > 150 {
                        sleep_ms(2);
                        continue;
                    }
                    let fp = hostile_conn(b, &mut rng, t as u64, Some(kept));
                    done.fetch_add(1, Ordering::SeqCst);
                    r.eval(fp);
                }
            });
        }
        let tb = TimeBox::secs(secs);
        let mut n = 0;
        let mut res = Ok(());
        while !tb.over() && res.is_ok() && !r.stopped() {
            res = canary.beat().and_then(|_| probe(&b, &mut rng, n)).and_then(|_| health(&b));
            n += 1;
        }
        stop.store(true, Ordering::SeqCst);
        res.map(|_| n)
    });
    let res = match res {
        Err(e) if busy(&e) => afterwards(r, &b, &mut rng, &mut canary, e).map(|_| 0),
        x => x,
    };
    r.count("hostile connections", done.load(Ordering::SeqCst));
    let after = res.and_then(|n| {
        r.count("round trips of the well-behaved during attacks", n);
        // what is left open holds nothing up either
        canary.beat()?;
        probe(&b, &mut rng, 1 << 40)?;
        kept.lock().unwrap().clear();
        canary.beat()?;
        probe(&b, &mut rng, 2 << 40)?;
        rest(&b)?;
        health(&b)
    });
    if let Err(s) = after {
        let al = b.alarms();
        let s = match (s, al.first()) {
            (Stop::Stuck(m), Some(a)) => Stop::Stuck(format!("{}; the broker printed: {}", m, a)),
            (Stop::Bad(m), Some(a)) if !m.contains("printed") => Stop::Bad(format!("{}; the broker printed: {}", m, a)),
            (s, _) => s,
        };
        r.stop_to("hostile", s, replay);
    }
}

/// more connections than the broker may have descriptors
fn descriptors(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let mut o = Opts::diverse(&mut rng, 1);
    o.nofile = Some(48);
    o.threads = *rng.pick(&[1, 2, 4]);
    let replay = json!({"scenario": i, "seed": seed, "kind": "descriptors"});
    let Some(b) = start(r, &o) else { return };
    let mut go = || -> Result<(), Stop> {
        let mut canary = Canary::new(&b, &mut rng)?;
        for round in 0..2 {
            let mut v = vec![];
            let mut limit = false;
            for k in 0..80 {
                let Ok(mut s) = tcp(b.addrs[0], None) else { break };
                if rng.chance(50) {
                    let _ = s.write_all(&Connect::new(&format!("f{}", k)).encode());
                }
                v.push(s);
            }
            for _ in 0..5 {
                canary.beat()?;
                limit |= b.fds() >= 47;
                sleep_ms(20);
            }
            if limit {
                r.count("rounds with all descriptors in use", 1);
            }
            r.eval(mix64(seed ^ round));
            r.count("hostile connections", v.len() as u64);
            if rng.chance(50) {
                for s in &v {
                    set_linger_reset(s);
                }
            }
            drop(v);
            probe(&b, &mut rng, round)?;
            canary.beat()?;
        }
        rest(&b)?;
        health(&b)
    };
    if let Err(s) = go() {
        r.stop_to("descriptors", s, replay);
    }
}

/// very deep and very long topics, huge declared lengths
fn deep(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let o = Opts::diverse(&mut rng, 1).chatty(&mut rng, 30);
    let replay = json!({"scenario": i, "seed": seed, "kind": "deep"});
    let Some(b) = start(r, &o) else { return };
    let mut go = || -> Result<(), Stop> {
        let mut canary = Canary::new(&b, &mut rng)?;
        let mut keep = vec![];
        for k in 0..4 {
            let mut c = Client::connect(&b, b.addrs[0], &format!("d{}", k), &mut rng)?;
            let n = *rng.pick(&[65535, 65534, 30000]);
            let mut f = match rng.below(5) {
                0 => "/".repeat(n),
                1 => "+/".repeat(n / 2),
                2 => "a/".repeat(n / 2),
                3 => "+/".repeat(n / 2 - 1) + "#",
                _ => "a/+/".repeat(n / 4),
            };
            if rng.chance(30) {
                f = f.trim_end_matches('/').to_string();
            }
            let t = f.replace('+', "a").replace('#', "z");
            let mut buf = c.sub_bytes(&[(f.clone(), 0)]);
            buf.extend(c.pub_bytes(&t, 20, 0, false, false));
            if rng.chance(50) {
                buf.extend(c.unsub_bytes(&[f.clone()]));
                buf.extend(c.sub_bytes(&[(f.clone(), 0)]));
            }
            c.raw(&buf);
            canary.beat()?;
            r.eval(hash_bytes(seed, f.as_bytes()));
            r.count("deep topics", 1);
            if rng.chance(50) {
                keep.push(c);
            } else {
                c.wait_answers()?;
                c.bye()?;
            }
        }
        // lengths announced, never sent
        let mut big = vec![];
        for k in 0..20 {
            let mut s = tcp(b.addrs[0], None).map_err(|e| open_error(&b, b.addrs[0], &e))?;
            let mut x = Connect::new(&format!("l{}", k)).encode();
            match rng.below(3) {
                0 => x.extend([0x30, 0xff, 0xff, 0xff, 0x7f, 0, 1, b'a']),
                1 => x.extend([0x82, 0xff, 0xff, 0xff, 0x7f, 0, 1, 0xff, 0xff]),
                _ => x = vec![0x10, 0xff, 0xff, 0xff, 0x7f, 0, 4, b'M', b'Q', b'T', b'T', 4, 2],
            }
            let _ = s.write_all(&x);
            r.eval(mix64(seed ^ k));
            r.count("hostile connections", 1);
            big.push(s);
        }
        canary.beat()?;
        probe(&b, &mut rng, 7)?;
        health(&b)?;
        drop(big);
        drop(keep);
        canary.beat()?;
        rest(&b)?;
        health(&b)
    };
    if let Err(s) = go() {
        r.stop_to("deep", s, replay);
    }
}

/// connections that come and go in a hurry, with subscriptions and messages in flight to each other
fn churn(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let mut o = Opts::diverse(&mut rng, 2).chatty(&mut rng, 20);
    o.threads = *rng.pick(&[1, 2, 8]);
    let replay = json!({"scenario": i, "seed": seed, "kind": "churn"});
    let Some(b) = start(r, &o) else { return };
    let mut canary = match Canary::new(&b, &mut rng) {
        Ok(c) => c,
        Err(e) => return r.stop_to("churn", e, replay),
    };
    let stop = AtomicBool::new(false);
    let done = std::sync::atomic::AtomicU64::new(0);
    let res = std::thread::scope(|s| {
        for _ in 0..4 {
            let mut rng = Rng::new(rng.next());
            let (b, stop, done) = (&b, &stop, &done);
            s.spawn(move || {
                while !stop.load(Ordering::SeqCst) && b.alive() {
                    if b.sockets() > 150 {
                        sleep_ms(2);
                        continue;
                    }
                    let a = b.addr(&mut rng);
                    let Ok(mut s) = tcp(a, None) else { continue };
                    let id = format!("c{}", rng.below(8));
                    let mut x = Connect::new(&id).encode();
                    x.extend(mq::subscribe(1, &[("churn/#".into(), 0)]));
                    for _ in 0..rng.below(6) {
                        x.extend(mq::publish(b"churn/x", &rng.bytes(100), 0, false, false, 0));
                    }
                    if rng.chance(30) {
                        x.extend(mq::DISCONNECT);
                    }
                    let _ = s.write_all(&x);
                    if rng.chance(50) {
                        set_linger_reset(&s);
                    }
                    if rng.chance(40) {
                        std::thread::sleep(std::time::Duration::from_micros(rng.below(3000) as u64));
                    }
                    drop(s);
                    done.fetch_add(1, Ordering::SeqCst);
                    r.eval(hash_bytes(0, &x));
                }
            });
        }
        let tb = TimeBox::secs(if thorough() { 10.0 } else { 3.0 });
        let mut res = Ok(());
        let mut n = 0;
        while !tb.over() && res.is_ok() && !r.stopped() {
            res = canary.beat().and_then(|_| probe(&b, &mut rng, n)).and_then(|_| health(&b));
            n += 1;
        }
        stop.store(true, Ordering::SeqCst);
        res
    });
    let res = match res {
        Err(e) if busy(&e) => afterwards(r, &b, &mut rng, &mut canary, e),
        x => x,
    };
    r.count("hostile connections", done.load(Ordering::SeqCst));
    let res = res.and_then(|_| canary.beat()).and_then(|_| probe(&b, &mut rng, 99)).and_then(|_| rest(&b)).and_then(|_| health(&b));
    if let Err(s) = res {
        r.stop_to("churn", s, replay);
    }
}

// ---------------------------------------------------------------- C16

pub fn c16() -> Report {
    let r = Report::new(
        "C16",
        "clients that never send, stop inside a packet, stay idle, or stop reading with some messages outstanding, while the others run concurrent traffic judged by all delivery oracles; then the stalled ones resume and must get exactly their messages; distinct: by the kinds of stalled clients and the interleaving of the others",
    );
    let others = Cfg { name: "others", clients: (3, 7), ops: (10, 30), sizes: 1, slow: 0, ..BASE };
    let secs = budget(20.0, 500.0);
    long::with_idle(&r, secs, || {
        run_many(&r, 4, secs, 8, 1 << 40, |i, seed| {
            if i % 8 == 7 {
                not_reading(&r, i, seed);
            } else {
                stalled(&r, i, seed, &others);
            }
        })
    });
    r
}

fn stalled(r: &Report, i: u64, seed: u64, others: &Cfg) {
    let mut rng = Rng::new(seed);
    let l = rng.range(1, 2);
    let mut o = Opts::diverse(&mut rng, l);
    if rng.chance(40) {
        o.threads = *rng.pick(&[1, 2]);
    }
    let replay = json!({"scenario": i, "seed": seed, "kind": "stalled", "threads": o.threads});
    let Some(b) = start(r, &o) else { return };
    let mut kinds = 0u64;
    let mut go = || -> Result<u64, Stop> {
        // (client, messages it has to get in the end)
        let mut st: Vec<(Client, Vec<(Vec<u8>, Vec<u8>)>)> = vec![];
        let mut held: Vec<Client> = vec![];
        for k in 0..rng.range(1, 8) {
            let kind = rng.below(6);
            kinds = mix64(kinds ^ kind as u64);
            let a = b.addr(&mut rng);
            let rb = if rng.chance(50) { Some(2048) } else { None };
            let mut c = Client::open(&b, a, "st", &mut rng, rb)?;
            let id = format!("stalled{}", k);
            match kind {
                0 => held.push(c),
                1 => {
                    let x = Connect::new(&id).encode();
                    let n = rng.range(1, x.len() - 1);
                    c.raw(&x[..n]);
                    held.push(c);
                }
                2 => {
                    c.send_connect(&Connect::new(&id));
                    c.expect_accepted()?;
                    held.push(c);
                }
                3 => {
                    c.send_connect(&Connect::new(&id));
                    c.expect_accepted()?;
                    let x = mq::publish(b"half/a", &rng.bytes(500_000), 1, false, false, 1);
                    let n = rng.range(1, x.len() - 1);
                    c.raw(&x[..n]);
                    held.push(c);
                }
                4 => {
                    // unread answers, few
                    c.send_connect(&Connect::new(&id));
                    c.expect_accepted()?;
                    c.set_paused(true);
                    for _ in 0..rng.range(1, 20) {
                        c.ping();
                    }
                    held.push(c);
                }
                _ => {
                    c.send_connect(&Connect::new(&id));
                    c.expect_accepted()?;
                    c.sub1(&format!("stall/{}", k));
                    c.wait_answers()?;
                    c.rx.chunk.store(rng.range(1, 3000), Ordering::SeqCst);
                    let mut p = Client::connect(&b, b.addrs[0], &format!("feeder{}", k), &mut rng)?;
                    let mut want = vec![];
                    let big = rng.chance(50);
                    let n = rng.range(1, 20);
                    let early = rng.chance(30);
                    if !early {
                        c.set_paused(true);
                    }
                    for _ in 0..n {
                        let len = if big { rng.range(300_000, 1_000_000) } else { rng.range(0, 3000) };
                        let pl = rng.bytes(len);
                        let t = format!("stall/{}", k).into_bytes();
                        p.raw(&mq::publish(&t, &pl, 0, false, false, 0));
                        want.push((t, pl));
                    }
                    c.set_paused(true);
                    p.barrier()?;
                    r.count("messages held up", n as u64);
                    st.push((c, want));
                }
            }
            r.count("stalled clients", 1);
        }
        // many more of the cheap kinds
        let mut many: Vec<TcpStream> = vec![];
        if rng.chance(30) {
            let n = rng.range(30, 300);
            let kind = rng.below(6);
            kinds = mix64(kinds ^ (n * 10 + kind) as u64);
            for k in 0..n {
                let a = b.addr(&mut rng);
                let s = tcp(a, None).map_err(|e| open_error(&b, a, &e))?;
                let _ = s.set_write_timeout(Some(std::time::Duration::from_secs(20)));
                let x = Connect::new(&format!("many{}", k)).encode();
                let p = mq::publish(b"half/m", &rng.bytes(300), 0, false, false, 0);
                let w = match if kind == 5 { rng.below(5) } else { kind } {
                    0 => vec![],
                    1 => x[..rng.range(1, x.len() - 1)].to_vec(),
                    2 => x,
                    3 => [&x[..], &p[..rng.range(1, p.len() - 1)]].concat(),
                    _ => [&x[..], &mq::subscribe(1, &[("idle/many".to_string(), 0)])].concat(),
                };
                if (&s).write_all(&w).is_err() {
                    return Err(Stop::Bad(format!("the broker does not take the first {} bytes of connection {} of many", w.len(), k)));
                }
                many.push(s);
            }
            r.count("stalled clients", n as u64);
            r.count("crowds of stalled clients", 1);
        }
        let cs = mix::run(&mut rng, others, &b)?;
        let (n, v, _) = hist::judge(&cs)?;
        if let Some(x) = v.first() {
            return Err(Stop::Bad(format!("with stalled clients present: {}: {}", x.kind, x.msg)));
        }
        r.count("deliveries between the others", n as u64);
        probe(&b, &mut rng, 1)?;
        // they resume
        for c in &held {
            c.set_paused(false);
        }
        for (c, want) in &st {
            c.rx.chunk.store(1 << 16, Ordering::SeqCst);
            c.set_paused(false);
            let w = wait_until(&b, || c.rx.pubs.load(Ordering::SeqCst) >= want.len() || c.closed());
            stop_if(w, || format!("a client that had stopped reading gets {} of its {} messages", c.rx.pubs.load(Ordering::SeqCst), want.len()))?;
            let got: Vec<_> = c.publishes().into_iter().map(|(_, p)| p).collect();
            for (k, (t, pl)) in want.iter().enumerate() {
                match got.get(k) {
                    Some(Rx::Publish { topic, payload, .. }) if topic == t && payload == pl => {}
                    o => return Err(Stop::Bad(format!("message {} of a client that had stopped reading arrives as {}", k, o.map_or("nothing".into(), |p| p.brief())))),
                }
            }
        }
        Ok(mix64(mix::fingerprint(&cs) ^ kinds))
    };
    match go() {
        Ok(fp) => r.eval(fp),
        Err(s) => r.stop_to("stalled", s, replay),
    }
}

/// A subscriber that does not read what is far more than its socket and queue hold: at present this
/// stalls everybody (known finding). Judged beyond that: nothing is lost and all is well
/// again once it reads, or goes away.
fn not_reading(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let o = Opts::diverse(&mut rng, 1);
    let replay = json!({"scenario": i, "seed": seed, "kind": "not_reading"});
    let Some(b) = start(r, &o) else { return };
    let mut blocked = false;
    let mut go = || -> Result<(), Stop> {
        let mut s = Client::open(&b, b.addrs[0], "full", &mut rng, Some(4096))?;
        s.send_connect(&Connect::new("full"));
        s.expect_accepted()?;
        let answers = rng.chance(30);
        if !answers {
            s.sub1("full");
            s.wait_answers()?;
        }
        s.set_paused(true);
        let mut w = Client::connect(&b, b.addrs[0], "bystander", &mut rng)?;
        let mut p = Client::connect(&b, b.addrs[0], "feeder", &mut rng)?;
        let n = rng.range(150, 300);
        let len = 60_000;
        let mut bytes = vec![];
        let writer;
        if answers {
            // its own answers, unread: enough for any socket buffer
            for _ in 0..200 {
                let f: Vec<(String, u8)> = (0..8000).map(|_| ("q".to_string(), 0)).collect();
                bytes.extend(s.sub_bytes(&f));
            }
            let st = s.stream.try_clone().map_err(|e| Stop::Harness(e.to_string()))?;
            let _ = st.set_write_timeout(Some(std::time::Duration::from_secs(100)));
            writer = std::thread::spawn(move || {
                let _ = (&st).write_all(&bytes);
            });
        } else {
            for _ in 0..n {
                bytes.extend(p.pub_bytes("full", len, 0, false, false));
            }
            let st = p.stream.try_clone().map_err(|e| Stop::Harness(e.to_string()))?;
            let _ = st.set_write_timeout(Some(std::time::Duration::from_secs(100)));
            writer = std::thread::spawn(move || {
                let _ = (&st).write_all(&bytes);
            });
        }
        sleep_ms(300);
        w.ping();
        let x = wait_until(&b, || w.answers() >= w.requests());
        match x {
            Wait::Ok => {}
            Wait::Idle => blocked = true,
            x => stop_if(x, || "bystander's answer".into())?,
        }
        r.count("clients that stopped reading for good", 1);
        let leave = rng.chance(40);
        if leave {
            s.reset();
        } else {
            s.set_paused(false);
        }
        w.wait_answers()?;
        let x = wait_until(&b, || writer.is_finished());
        stop_if(x, || "the broker does not take what the client has sent, although everybody reads again".into())?;
        let _ = writer.join();
        p.barrier()?;
        probe(&b, &mut rng, 3)?;
        if !leave {
            if answers {
                s.wait_answers()?;
            } else {
                let w = wait_until(&b, || s.rx.pubs.load(Ordering::SeqCst) >= n || s.closed());
                stop_if(w, || format!("after resuming, the subscriber has {} of {} messages", s.rx.pubs.load(Ordering::SeqCst), n))?;
            }
            let hs = [p, w, s];
            let (_, v, _) = hist::judge(&hs)?;
            if let Some(x) = v.first() {
                return Err(Stop::Bad(format!("after the subscriber resumed: {}: {}", x.kind, x.msg)));
            }
        }
        health(&b)
    };
    let res = go();
    match res {
        Ok(()) => {
            r.eval(seed);
            if blocked {
                r.violation("known:queue-full", "a client that has stopped reading holds up a bystander's PINGREQ until it reads again or goes away".into(), replay);
            }
        }
        Err(s) => r.stop_to("not_reading", s, replay),
    }
}
