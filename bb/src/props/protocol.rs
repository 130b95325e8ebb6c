//! C09 C10 C12 C13 C14: connections and sessions.

use crate::client::*;
use crate::hist::{self, Viol};
use crate::mix::{self, Cfg, BASE};
use crate::mq::{self, Connect, Rx};
use crate::proc::*;
use crate::props::long;
use crate::refdec;
use crate::props::robust::malformed;
use crate::report::*;
use crate::util::*;
use serde_json::json;
use std::net::Shutdown;
use std::sync::Arc;

pub fn start(r: &Report, o: &Opts) -> Option<Arc<Broker>> {
    match Broker::start(o) {
        Ok(b) => Some(Arc::new(b)),
        Err(e) => {
            r.inconclusive(e);
            None
        }
    }
}

/// bytes of a publication nobody may ever receive
pub fn rogue_publish(rng: &mut Rng, topic: &str) -> Vec<u8> {
    let mut p = b"ROGUE!!!".to_vec();
    p.extend(rng.bytes(8));
    mq::publish(topic.as_bytes(), &p, rng.below(3) as u8, false, false, 7)
}

fn finish(r: &Report, ctx: &str, kinds: &[&str], res: Result<Vec<Viol>, Stop>, replay: serde_json::Value) {
    match res {
        Ok(v) => {
            for x in v {
                if kinds.is_empty() || kinds.contains(&x.kind) {
                    r.violation(&format!("{}:{}", ctx, x.kind), x.msg, replay.clone());
                }
            }
        }
        Err(s) => r.stop_to(ctx, s, replay),
    }
}

// ---------------------------------------------------------------- C09

pub fn c09() -> Report {
    let r = Report::new(
        "C09",
        "random request sequences with random packet identifiers, pipelined (also in one segment with the CONNECT) and interleaved with own and others' publications; an evaluation is one connection whose whole received stream was matched, in order, against its requests; distinct: by request sequence",
    );
    let busy = Cfg { name: "busy", sizes: 1, ops: (30, 100), w: [20, 4, 25, 20, 25, 2, 3], pipeline: 60, burst: (10, 60), ..BASE };
    run_many(&r, 4, budget(20.0, 500.0), 8, 1 << 40, |i, seed| {
        if i == 0 {
            long::volume(&r, i, seed, &["answers", "malformed"]);
        } else if i == 1 || i % 8 == 6 {
            clogged(&r, i, seed);
        } else if i % 3 == 2 {
            mix::scenario(&r, i, seed, &busy, &["answers", "malformed", "suback"], true);
        } else {
            pipelined(&r, i, seed);
        }
    });
    r
}

/// Requests of clients whose queue is full to some degree, because they do not read for a while.
fn clogged(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let l = rng.range(1, 2);
    let Some(b) = start(r, &Opts::diverse(&mut rng, l)) else { return };
    let replay = json!({"scenario": i, "seed": seed, "kind": "requests of clients that do not read"});
    let mut go = || -> Result<Vec<Viol>, Stop> {
        let mut all: Vec<Client> = vec![];
        let mut p = Client::connect(&b, b.addrs[0], "p", &mut rng)?;
        for g in 0..4 {
            let mut c = Client::open(&b, b.addr(&mut rng), &format!("c{}", g), &mut rng, Some(1 << 16))?;
            c.send_connect(&Connect::new(&format!("c{}", g)));
            c.sub(&[(format!("c/{}", g), 0)]);
            c.wait_answers()?;
            c.set_paused(true);
            // more than the socket takes: one packet is being written, the others stay in the queue of 32
            p.publish(&format!("c/{}", g), 12 << 20);
            p.barrier()?;
            sleep_ms(20);
            let fill = *rng.pick(&[0, 16, 24, 28, 29, 30, 31, 32, 32]);
            for _ in 0..fill {
                p.publish(&format!("c/{}", g), 16);
            }
            p.barrier()?;
            let mut fp = g as u64 ^ (fill as u64) << 8;
            let mut x = vec![];
            for _ in 0..rng.range(2, 60) {
                let k = rng.below(10);
                fp = mix64(fp ^ k as u64);
                match k {
                    0..=4 => x.extend(c.ping_bytes()),
                    5 | 6 => x.extend(c.sub_bytes(&[(format!("d/{}", g), 0)])),
                    7 => x.extend(c.unsub_bytes(&[format!("d/{}", g)])),
                    _ => x.extend(c.pub_bytes(&format!("{}/{}", rng.pick(&["c", "d", "e"]), g), 20, 0, false, false)),
                }
            }
            let late = rng.chance(50);
            let cut = if late { rng.below(x.len()) } else { x.len() };
            c.raw(&x[..cut]);
            sleep_ms(rng.range(0, 40) as u64);
            c.set_paused(false);
            c.raw(&x[cut..]);
            c.wait_answers()?;
            c.barrier()?;
            r.eval(fp);
            r.count("requests sent while not reading", c.requests() as u64 - 3);
            r.max("messages waiting before such requests", fill as u64);
            all.push(c);
        }
        p.barrier()?;
        all.push(p);
        let (_, v, _) = hist::judge(&all)?;
        Ok(v)
    };
    let res = go();
    finish(r, "clogged", &["answers", "malformed", "suback", "misrouted", "phantom", "loss", "dup"], res, replay);
}

fn pipelined(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let l = rng.range(1, 2);
    let Some(b) = start(r, &Opts::diverse(&mut rng, l).chatty(&mut rng, 15)) else { return };
    let replay = json!({"scenario": i, "seed": seed, "kind": "pipelined requests"});
    let mut go = || -> Result<Vec<Viol>, Stop> {
        let mut all: Vec<Client> = vec![];
        let n = rng.range(2, 6);
        // silent: connected, subscribed to nothing
        let mut silent = Client::connect(&b, b.addrs[0], "silent", &mut rng)?;
        let mut streams: Vec<Vec<u8>> = vec![];
        for k in 0..n {
            let a = b.addr(&mut rng);
            let mut c = Client::open(&b, a, &format!("q{}", k), &mut rng, None)?;
            c.split = rng.chance(40);
            c.ops.push(Op::Connect { t: tick() });
            let mut buf = Connect::new(&c.id.clone()).encode();
            let mut fp = 0;
            for _ in 0..rng.range(5, 300) {
                if rng.chance(60) {
                    c.pid = *rng.pick(&[0, 1, 2, 254, 255, 256, 65533, 65534]);
                } else if rng.chance(30) {
                    c.pid = rng.next() as u16;
                }
                let k = rng.below(100);
                fp = mix64(fp ^ k as u64 ^ (c.pid as u64) << 8);
                let x = match k {
                    0..=29 => {
                        let m = rng.range(1, 5);
                        let fs: Vec<(String, u8)> = (0..m)
                            .map(|_| (rng.pick(&["t/a", "t/+", "t/#", "x", "bad#", "", "t/b/c", "#"]).to_string(), rng.below(3) as u8))
                            .collect();
                        c.sub_bytes(&fs)
                    }
                    30..=54 => {
                        let m = rng.range(1, 4);
                        let fs: Vec<String> = (0..m).map(|_| rng.pick(&["t/a", "t/+", "t/#", "x", "none", "#"]).to_string()).collect();
                        c.unsub_bytes(&fs)
                    }
                    55..=79 => c.ping_bytes(),
                    _ => {
                        let t = *rng.pick(&["t/a", "t/b", "x", "y"]);
                        let sz = rng.range(8, 300);
                        c.pub_bytes(t, sz, rng.below(3) as u8, rng.chance(20), false)
                    }
                };
                buf.extend(x);
            }
            r.eval(fp);
            streams.push(buf);
            all.push(c);
        }
        std::thread::scope(|s| {
            for (c, buf) in all.iter_mut().zip(streams) {
                s.spawn(move || c.raw(&buf));
            }
        });
        for c in &all {
            c.wait_answers()?;
        }
        silent.barrier()?;
        for c in all.iter_mut() {
            c.barrier()?;
        }
        sleep_ms(40);
        r.count("requests answered", all.iter().map(|c| c.requests() as u64).sum());
        let n: usize = silent.with_evs(|e| e.len());
        if n != 2 {
            return Err(Stop::Bad(format!("a client that sent CONNECT and PINGREQ received {:?}", silent.evs())));
        }
        r.sample(json!({"scenario": i, "connections": all.len(), "requests of the first": all[0].requests(), "its last answer": all[0].with_evs(|e| e.last().map(|e| brief(&e.k)))}));
        all.push(silent);
        let (_, v, _) = hist::judge(&all)?;
        Ok(v)
    };
    let res = go();
    finish(r, "pipelined", &["answers", "malformed", "suback", "misrouted", "phantom"], res, replay);
}

// ---------------------------------------------------------------- C10

/// what a connection that must not be accepted starts with
fn bad_first(rng: &mut Rng, id: &str) -> (String, Vec<u8>) {
    let mut c = Connect::new(id);
    match rng.below(27) {
        0 => ("SUBSCRIBE".into(), mq::subscribe(5, &[("w/#".into(), 0)])),
        1 => ("PUBLISH".into(), rogue_publish(rng, "w/rogue")),
        2 => ("UNSUBSCRIBE".into(), mq::unsubscribe(6, &["own/t".into()])),
        3 => ("PINGREQ".into(), mq::PINGREQ.to_vec()),
        4 => ("DISCONNECT".into(), mq::DISCONNECT.to_vec()),
        5 => {
            let t = *rng.pick(&[0x40u8, 0x50, 0x62, 0x70]);
            (format!("ack {:#x}", t), mq::packet(t, &[0, 1]))
        }
        6 => {
            let t = *rng.pick(&[0x20u8, 0x90, 0xB0, 0xD0, 0x00, 0xF0]);
            (format!("server or reserved type {:#x}", t), mq::packet(t, &[0, 0]))
        }
        7 | 8 => {
            c.proto = rng.pick(&[&b"MQTX"[..], b"mqtt", b"", b"MQTT5", b"MQIsd", b"mqisdp", b"HTTP", b"MQT", b"MQTTT"]).to_vec();
            (format!("protocol name {:?}", String::from_utf8_lossy(&c.proto)), c.encode())
        }
        9 | 10 => {
            c.level = *rng.pick(&[0u8, 1, 2, 3, 5, 6, 7, 64, 127, 128, 131, 132, 255]);
            if rng.chance(25) {
                // the name of one version and the level of another
                c.proto = b"MQIsdp".to_vec();
                c.level = *rng.pick(&[0u8, 2, 4, 4, 4, 5, 131]);
            }
            (format!("protocol level {} of {}", c.level, String::from_utf8_lossy(&c.proto)), c.encode())
        }
        11 => {
            // a real MQTT 5 CONNECT
            let mut b = vec![0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 60, 5, 0x11, 0, 0, 0, 10];
            mq::put_str(&mut b, id.as_bytes());
            ("MQTT 5 CONNECT".into(), mq::packet(0x10, &b))
        }
        12 => {
            let mut e = c.encode();
            e[9] |= 1; // reserved connect flag
            ("reserved connect flag".into(), e)
        }
        13 => {
            let mut e = c.encode();
            e[0] |= 1 << rng.below(4);
            ("CONNECT with fixed header flags".into(), e)
        }
        14 => {
            let mut e = c.encode();
            e[1] += 1 + rng.below(2) as u8;
            ("CONNECT with bytes after its content".into(), {
                e.push(0);
                e.push(0);
                e
            })
        }
        15 => {
            let mut e = c.encode();
            e[1] -= 1;
            ("CONNECT longer than its length".into(), e)
        }
        16 => {
            c.id = vec![0xff, 0xfe, b'a'];
            ("client id that is not UTF-8".into(), c.encode())
        }
        17 => {
            let mut e = c.encode();
            e[9] |= 0x40; // password flag without user name flag; password supplied
            let mut p = vec![];
            mq::put_str(&mut p, b"pw");
            e[1] += p.len() as u8;
            e.extend(p);
            ("password without user name".into(), e)
        }
        18 => {
            let mut e = c.encode();
            e[9] |= *rng.pick(&[0x08u8, 0x10, 0x20]);
            ("will flags without will".into(), e)
        }
        19 => {
            let e = c.encode();
            let n = rng.range(1, e.len() - 1);
            (format!("CONNECT cut at {}", n), e[..n].to_vec())
        }
        20 => {
            let mut e = c.encode();
            let rest = e.split_off(2);
            let mut x = vec![0x10, 0x80 | e[1], 0x80, 0x80, 0x80, 0x01];
            x.extend(rest);
            ("five byte remaining length".into(), x)
        }
        21 => ("no byte".into(), vec![]),
        22..=25 => loop {
            // every combination of flags, with the fields they announce
            let f = rng.next() as u8;
            let mut x = vec![0, 4, b'M', b'Q', b'T', b'T', 4, f, 0, 60];
            mq::put_str(&mut x, id.as_bytes());
            if f & 4 != 0 {
                mq::put_str(&mut x, b"w/will");
                mq::put_str(&mut x, b"bye");
            }
            if f & 0x80 != 0 {
                mq::put_str(&mut x, b"nobody");
            }
            if f & 0x40 != 0 {
                mq::put_str(&mut x, b"pw");
            }
            let e = mq::packet(0x10, &x);
            if let refdec::D::Malformed(why, _) = refdec::next(&e) {
                break (format!("CONNECT flags {:#04x} ({})", f, why), e);
            }
        },
        _ => {
            let n = rng.range(1, 60);
            let mut g = rng.bytes(n);
            if g[0] >> 4 == 1 {
                g[0] ^= 0x30;
            }
            ("garbage".into(), g)
        }
    }
}

pub fn c10() -> Report {
    let r = Report::new(
        "C10",
        "connections starting with anything but an acceptable CONNECT (every packet type, wrong names, levels, flags, lengths, truncations, garbage), or sending a second CONNECT, followed by SUBSCRIBE, UNSUBSCRIBE and PUBLISH, in random segmentations and beside live clients; an evaluation is one such connection; distinct: by its bytes; plus positive cases for both supported protocol versions",
    );
    run_many(&r, 4, budget(15.0, 300.0), 8, 1 << 40, |i, seed| gate(&r, i, seed));
    r
}

struct Bystanders {
    legit: Client,
    watch: Client,
    publ: Client,
}

fn bystanders(b: &Arc<Broker>, rng: &mut Rng) -> Result<Bystanders, Stop> {
    let a = b.addr(rng);
    let mut legit = Client::connect(b, a, "legit", rng)?;
    legit.sub(&[("own/t".into(), 0), ("own/+/x".into(), 0)]);
    legit.wait_answers()?;
    let a = b.addr(rng);
    let mut watch = Client::connect(b, a, "watch", rng)?;
    watch.sub(&[("#".into(), 0), ("$x/#".into(), 0)]);
    watch.wait_answers()?;
    let publ = Client::connect(b, b.addrs[0], "publ", rng)?;
    Ok(Bystanders { legit, watch, publ })
}

fn follow_up(rng: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..rng.range(1, 5) {
        match rng.below(5) {
            0 => v.extend(mq::subscribe(9, &[("own/t".into(), 0), ("w/#".into(), 0)])),
            1 => v.extend(mq::unsubscribe(10, &["own/t".into(), "#".into(), "own/+/x".into()])),
            2 => v.extend(rogue_publish(rng, "w/rogue")),
            3 => v.extend(rogue_publish(rng, "own/t")),
            _ => v.extend(mq::PINGREQ),
        }
    }
    v
}

impl Bystanders {
    fn traffic(&mut self) -> Result<(), Stop> {
        self.publ.publish("own/t", 20);
        self.publ.publish("w/1", 20);
        self.publ.publish("own/z/x", 20);
        Ok(())
    }
    fn judge(mut self, mut others: Vec<Client>) -> Result<Vec<Viol>, Stop> {
        self.traffic()?;
        self.publ.barrier()?;
        self.watch.barrier()?;
        self.legit.barrier()?;
        others.extend([self.legit, self.watch, self.publ]);
        let (_, v, _) = hist::judge(&others)?;
        Ok(v)
    }
}

/// nothing but a refusing CONNACK may be received on a connection that was not accepted
fn check_refused(c: &Client, what: &str) -> Result<(), Stop> {
    for e in c.evs() {
        match e.k {
            K::Eof | K::Reset => {}
            K::P(Rx::ConnAck { sp: false, rc }) if rc != 0 => {}
            o => return Err(Stop::Bad(format!("a connection that started with {} received {}", what, brief(&o)))),
        }
    }
    Ok(())
}

fn gate(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let l = rng.range(1, 2);
    let Some(b) = start(r, &Opts::diverse(&mut rng, l).chatty(&mut rng, 20)) else { return };
    let replay = json!({"scenario": i, "seed": seed, "kind": "first packet"});
    let mut go = || -> Result<Vec<Viol>, Stop> {
        let mut by = bystanders(&b, &mut rng)?;
        let mut done = vec![];
        for n in 0..40 {
            by.traffic()?;
            let id = rng.pick(&["legit", "rogue", "watch", ""]).to_string();
            if n % 5 == 4 {
                second_connect(r, &b, &mut rng, &mut done)?;
                continue;
            }
            if n % 11 == 10 {
                // both supported versions are accepted
                let id = format!("ok{}", n);
                let mut c = Client::open(&b, b.addrs[0], &id, &mut rng, None)?;
                let mut p = Connect::new(&id);
                if rng.chance(60) {
                    p.proto = b"MQIsdp".to_vec();
                    p.level = 3;
                }
                p.keep_alive = rng.next() as u16;
                c.split = rng.chance(50);
                if rng.chance(40) {
                    p.will = Some((b"w/will".to_vec(), b"bye".to_vec(), rng.below(3) as u8, rng.chance(50)));
                }
                c.send_connect(&p);
                c.expect_accepted()?;
                c.barrier()?;
                c.bye()?;
                r.count("valid CONNECTs accepted", 1);
                done.push(c);
                continue;
            }
            let (what, first) = bad_first(&mut rng, &id);
            let more = follow_up(&mut rng);
            let mut c = Client::open(&b, b.addr(&mut rng), "rogue", &mut rng, None)?;
            c.split = rng.chance(40);
            let cut = what.starts_with("CONNECT cut") || what == "no byte" || what == "garbage";
            if cut {
                c.raw(&first);
                if what != "no byte" && rng.chance(50) && what == "garbage" {
                    c.raw(&more);
                }
                let _ = c.stream.shutdown(Shutdown::Write);
            } else if rng.chance(50) {
                let mut x = first.clone();
                x.extend(&more);
                if rng.chance(30) {
                    // a good CONNECT does not heal it
                    x.extend(Connect::new("rogue2").encode());
                    x.extend(&more);
                }
                c.raw(&x);
            } else {
                c.raw(&first);
                c.raw(&more);
            }
            r.eval(hash_bytes(hash_bytes(0, &first), &more));
            r.count(&format!("refused: {}", what.split(' ').next().unwrap()), 1);
            if n < 2 {
                r.sample(json!({"first packet": what, "bytes": hex(&first), "then": hex(&more)}));
            }
            c.wait_closed().map_err(|e| tag(e, &what))?;
            check_refused(&c, &what)?;
        }
        by.judge(done)
    };
    let res = go();
    finish(r, "gate", &[], res, replay);
}

fn tag(s: Stop, what: &str) -> Stop {
    match s {
        Stop::Stuck(m) => Stop::Stuck(format!("after {}: {}", what, m)),
        Stop::Bad(m) => Stop::Bad(format!("after {}: {}", what, m)),
        o => o,
    }
}

fn second_connect(r: &Report, b: &Arc<Broker>, rng: &mut Rng, done: &mut Vec<Client>) -> Result<(), Stop> {
    let mut c = Client::connect(b, b.addrs[0], "twice", rng)?;
    if rng.chance(60) {
        c.sub1("own/#");
        if rng.chance(50) {
            c.wait_answers()?;
        }
    }
    let id = rng.pick(&["twice", "legit", "other", ""]).to_string();
    let mut p = Connect::new(&id);
    if rng.chance(30) {
        p = p.creds("nobody", Some("x"));
    }
    if rng.chance(20) {
        p.level = 5;
    }
    let before = c.requests();
    let mut x = p.encode();
    x.extend(follow_up(rng));
    c.mark_end();
    c.raw(&x);
    r.eval(hash_bytes(1, &x));
    r.count("second CONNECTs", 1);
    c.wait_closed().map_err(|e| tag(e, "a second CONNECT"))?;
    if c.answers() > before {
        return Err(Stop::Bad(format!("after a second CONNECT the connection received {:?}", c.with_evs(|e| e.iter().map(|e| brief(&e.k)).collect::<Vec<_>>()))));
    }
    c.lossy = true;
    done.push(c);
    Ok(())
}

// ---------------------------------------------------------------- C12

pub fn c12() -> Report {
    let r = Report::new(
        "C12",
        "connections whose CONNECT is refused (unknown user, wrong or missing password, unsupported level), with SUBSCRIBE, UNSUBSCRIBE, PUBLISH, DISCONNECT or a second CONNECT sent together with it or after the refusal, using the id of a live client, an own one or none, singly and in crowds; an evaluation is one refused connection; distinct: by its bytes",
    );
    run_many(&r, 4, budget(15.0, 300.0), 8, 1 << 40, |i, seed| refused(&r, i, seed));
    r
}

fn refused(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let l = rng.range(1, 2);
    let mut o = Opts::diverse(&mut rng, l).chatty(&mut rng, 20);
    o.passwd = format!("alice:{}\nbob:{}\n", crate::props::conf::hash("secret", 2, 1), crate::props::conf::hash("hunter2", 0, 2));
    let Some(b) = start(r, &o) else { return };
    let replay = json!({"scenario": i, "seed": seed, "kind": "refused connections"});
    let mut go = || -> Result<Vec<Viol>, Stop> {
        let mut by = bystanders(&b, &mut rng)?;
        for n in 0..12 {
            by.traffic()?;
            let crowd = if rng.chance(25) { rng.range(2, 12) } else { 1 };
            let mut cs: Vec<(Client, String, bool)> = vec![];
            for _ in 0..crowd {
                let id = rng.pick(&["legit", "watch", "publ", "rogue", ""]).to_string();
                let p = Connect::new(&id);
                let (what, mut p) = match rng.below(7) {
                    0 => ("unknown user", p.creds("carol", Some("secret"))),
                    1 => ("wrong password", p.creds("alice", Some("hunter2"))),
                    2 => ("missing password", p.creds("alice", None)),
                    3 => ("empty password", p.creds("bob", Some(""))),
                    4 => ("empty user", p.creds("", Some("secret"))),
                    5 => ("case of the user name", p.creds("Alice", Some("secret"))),
                    _ => {
                        let mut p = p;
                        p.level = *rng.pick(&[5u8, 6, 2]);
                        ("unsupported level", p)
                    }
                };
                if rng.chance(30) {
                    p.will = Some((b"w/will".to_vec(), b"ROGUE!!!will".to_vec(), 1, false));
                }
                p.clean = rng.chance(70) || id.is_empty();
                let mut c = Client::open(&b, b.addr(&mut rng), "refused", &mut rng, None)?;
                c.split = rng.chance(30);
                let mut x = p.encode();
                let together = rng.chance(60);
                let mut more = follow_up(&mut rng);
                if rng.chance(20) {
                    more.extend(mq::DISCONNECT);
                }
                if rng.chance(20) {
                    more.extend(Connect::new("legit").encode());
                    more.extend(follow_up(&mut rng));
                }
                r.eval(hash_bytes(hash_bytes(together as u64, &x), &more));
                r.count(&format!("refused: {}", what), 1);
                if n < 2 {
                    r.sample(json!({"why": what, "client id": id, "together": together, "then": hex(&more)}));
                }
                if together {
                    x.extend(&more);
                    c.raw(&x);
                } else {
                    c.raw(&x);
                    c.wait_evs("an answer to its CONNECT", |e| !e.is_empty()).map_err(|e| tag(e, what))?;
                    c.raw(&more);
                }
                cs.push((c, what.to_string(), together));
            }
            if rng.chance(50) {
                by.traffic()?;
            }
            for (c, what, together) in &cs {
                c.wait_closed().map_err(|e| tag(e, what))?;
                check_refused(c, &format!("a CONNECT with {}", what))?;
                let want: &[u8] = if what == "unsupported level" { &[1] } else { &[4, 5] };
                let first = c.with_evs(|e| e[0].k.clone());
                let ok = matches!(&first, K::P(Rx::ConnAck { rc, .. }) if want.contains(rc));
                // with data of the client unread, closing may overtake the CONNACK
                if !ok && !(*together && matches!(first, K::Reset)) {
                    return Err(Stop::Bad(format!("a CONNECT with {} was answered by {}", what, brief(&first))));
                }
            }
            by.publ.barrier()?;
        }
        by.judge(vec![])
    };
    let res = go();
    finish(r, "refused", &[], res, replay);
}

// ---------------------------------------------------------------- C13

pub fn c13() -> Report {
    let r = Report::new(
        "C13",
        "connections sharing a client id: takeovers while the older connection keeps sending (SUBSCRIBE, UNSUBSCRIBE, PUBLISH, DISCONNECT, close, reset), simultaneous connects with one id, an end racing a reconnect, chains of takeovers, crowds without id, connected clients whose ids or addresses are nearly the same; an evaluation is one takeover or one client of a crowd; distinct: by scenario and timing seed",
    );
    run_many(&r, 4, budget(20.0, 500.0), 12, 1 << 40, |i, seed| match i % 6 {
        _ if i == 0 => long::crowd(&r, i, seed, true),
        _ if i == 2 => long::turnover(&r, i, seed),
        _ if i == 1 || i % 11 == 8 => alike_ids(&r, i, seed),
        5 => stalled_old(&r, i, seed),
        0 | 1 => takeover(&r, i, seed),
        2 => simultaneous(&r, i, seed),
        3 => end_races(&r, i, seed),
        _ => empty_ids(&r, i, seed),
    });
    r
}

fn takeover(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let l = rng.range(1, 3);
    let Some(b) = start(r, &Opts::diverse(&mut rng, l)) else { return };
    let replay = json!({"scenario": i, "seed": seed, "kind": "takeover"});
    let mut go = || -> Result<Vec<Viol>, Stop> {
        let mut by = bystanders(&b, &mut rng)?;
        let id = rng.pick(&["X", "ü-é", "a/b", "0123456789012345678901234567890123456789"]).to_string();
        let mut all: Vec<Client> = vec![];
        let mut old = Client::connect(&b, b.addr(&mut rng), &id, &mut rng)?;
        old.sub(&[("o/0".into(), 0)]);
        old.wait_answers()?;
        let mut cut: Vec<(usize, u64)> = vec![];
        let mut last = String::new();
        for g in 1..=rng.range(1, 6) {
            let topics: Vec<String> = ["o/0".into(), format!("o/{}", g), format!("o/{}", g - 1), format!("n/{}", g), "mine".into(), "own/t".into()].into();
            if rng.chance(60) {
                mix::touch(&mut by.publ, &topics, 16, &mut last, &mut rng);
                by.publ.barrier()?;
            }
            // the old connection is busy from another thread while the new one arrives
            let stop = std::sync::atomic::AtomicBool::new(false);
            let mut rng2 = Rng::new(rng.next());
            let delay = rng.below(1500) as u64;
            let a = b.addr(&mut rng);
            let (res, t0) = std::thread::scope(|s| {
                let h = s.spawn(|| {
                    let old = &mut old;
                    let mut n = 0;
                    while !stop.load(std::sync::atomic::Ordering::SeqCst) || n < 20 {
                        n += 1;
                        let x = match rng2.below(6) {
                            0 => old.sub_bytes(&[(format!("n/{}", g), 0), ("own/t".into(), 0)]),
                            1 => old.unsub_bytes(&[format!("n/{}", g), format!("o/{}", g - 1)]),
                            2 | 3 => old.pub_bytes("w/old", 16, 0, false, false),
                            4 => old.ping_bytes(),
                            _ => {
                                sleep_ms(rng2.below(2) as u64);
                                continue;
                            }
                        };
                        if !old.raw(&x) {
                            break;
                        }
                        if n > 2000 {
                            break;
                        }
                    }
                    // its end, in some way
                    match rng2.below(5) {
                        0 => {
                            old.raw(&mq::DISCONNECT);
                        }
                        1 => {
                            let _ = old.stream.shutdown(Shutdown::Write);
                        }
                        2 => {
                            old.raw(&[0xF0, 0]);
                        }
                        3 => {
                            old.raw(&Connect::new(&old.id.clone()).encode());
                        }
                        _ => {}
                    }
                });
                std::thread::sleep(std::time::Duration::from_micros(delay));
                let r = Client::open(&b, a, &id, &mut rng, None).and_then(|mut c| {
                    c.send_connect(&Connect::new(&id));
                    c.sub(&[(format!("o/{}", g), 0), ("mine".into(), 0)]);
                    c.wait_answers().map(|_| c)
                });
                let t0 = tick();
                if rng.chance(50) {
                    sleep_ms(rng.below(6) as u64);
                }
                stop.store(true, std::sync::atomic::Ordering::SeqCst);
                h.join().unwrap();
                (r, t0)
            });
            let new = res?;
            if let K::P(Rx::ConnAck { sp: true, .. }) = new.evs()[0].k {
                return Err(Stop::Bad("a clean CONNECT replacing a connection was told that a session is present".into()));
            }
            r.eval(mix64(seed ^ g as u64));
            old.wait_closed().map_err(|e| tag(e, "its client id was taken over"))?;
            // nothing it sent since the new connection was acknowledged counts
            cut.push((old.conn, t0));
            // the later expectations are on the new connection only
            old.ended_by_other = Some(0);
            mix::probe(&mut by.publ, &topics, 16, &mut last, &mut rng);
            by.publ.barrier()?;
            let prev = std::mem::replace(&mut old, new);
            all.push(prev);
            old.barrier()?;
        }
        r.sample(json!({"scenario": i, "takeovers": cut.len(), "packets of the replaced connection": all[0].ops.len()}));
        old.barrier()?;
        all.push(old);
        let mut v = vec![];
        // publications the replaced connections sent afterwards must not arrive anywhere
        let late: std::collections::HashSet<u64> = all
            .iter()
            .flat_map(|c| {
                let t0 = cut.iter().find(|x| x.0 == c.conn).map_or(u64::MAX, |x| x.1);
                c.ops.iter().filter_map(move |o| match o {
                    Op::Pub { t, uid, .. } if *t > t0 => Some(*uid),
                    _ => None,
                })
            })
            .collect();
        r.count("publications of replaced connections, sent after the takeover", late.len() as u64);
        by.publ.barrier()?;
        by.watch.barrier()?;
        for (_, p) in by.watch.publishes() {
            if let Rx::Publish { payload, .. } = &p {
                if uid_of(payload).map_or(false, |u| late.contains(&u)) {
                    v.push(Viol { kind: "late", msg: format!("a publication sent by a replaced connection after the new one was acknowledged was delivered: {}", p.brief()) });
                    break;
                }
            }
        }
        v.extend(by.judge(all)?);
        Ok(v)
    };
    let res = go();
    finish(r, "takeover", &["late", "loss", "misrouted", "phantom", "dup", "order", "altered"], res, replay);
}

/// The older connection does not read, its queue is full to some degree; its id is taken over, or it
/// ends in another way. When it reads again it must find no more than what it was sent before, and its end.
fn stalled_old(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let l = rng.range(1, 3);
    let Some(b) = start(r, &Opts::diverse(&mut rng, l)) else { return };
    let replay = json!({"scenario": i, "seed": seed, "kind": "taking over a connection that does not read"});
    let mut go = || -> Result<Vec<Viol>, Stop> {
        let mut by = bystanders(&b, &mut rng)?;
        let mut all: Vec<Client> = vec![];
        for g in 0..4 {
            let mut old = Client::open(&b, b.addr(&mut rng), "X", &mut rng, Some(1 << 16))?;
            old.send_connect(&Connect::new("X"));
            old.sub(&[(format!("o/{}", g), 0), ("both".into(), 0)]);
            old.wait_answers()?;
            old.set_paused(true);
            // more than the socket takes: one packet is being written, the others stay in the queue of 32
            by.publ.publish(&format!("o/{}", g), 12 << 20);
            by.publ.barrier()?;
            sleep_ms(20);
            let fill = *rng.pick(&[32, 32, 32, 31, 30, 16, 1, 0]);
            for _ in 0..fill {
                by.publ.publish("both", 16);
                if rng.chance(30) {
                    by.publ.publish("own/t", 16);
                    by.publ.barrier()?;
                }
            }
            by.publ.barrier()?;
            let way = if rng.chance(70) { 0 } else { rng.range(1, 3) };
            match way {
                1 => {
                    old.mark_end();
                    old.raw(&mq::DISCONNECT);
                }
                2 => {
                    old.mark_end();
                    let _ = old.stream.shutdown(Shutdown::Write);
                }
                3 => {
                    old.mark_end();
                    old.raw(&[0x30, 3, 0, 1, b'#']);
                }
                _ => {}
            }
            let mut new = Client::open(&b, b.addr(&mut rng), "X", &mut rng, None)?;
            new.send_connect(&Connect::new("X"));
            new.sub(&[("mine".into(), 0)]);
            new.wait_answers().map_err(|e| tag(e, "it takes over the id of a connection that does not read"))?;
            if let K::P(Rx::ConnAck { sp: true, .. }) = new.evs()[0].k {
                return Err(Stop::Bad("a clean CONNECT replacing a connection was told that a session is present".into()));
            }
            r.eval(mix64(seed ^ (g * 64 + way * 7 + fill) as u64));
            r.count("stalled connections replaced", 1);
            r.max("packets waiting in the queue of a replaced connection", fill as u64);
            old.lossy = true;
            old.ended_by_other = Some(0);
            let before = by.publ.last_uid();
            for t in ["mine", "both", "o/0", "o/1", "o/2", "o/3"] {
                by.publ.publish(t, 16);
            }
            by.publ.barrier()?;
            new.barrier()?;
            old.set_paused(false);
            old.wait_closed().map_err(|e| tag(e, "it did not read when its client id was taken over; now it has read everything"))?;
            for (_, p) in old.publishes() {
                if let Rx::Publish { payload, .. } = &p {
                    if uid_of(payload).map_or(false, |u| u > before) {
                        return Err(Stop::Bad(format!("a replaced connection received a message published after the new one was acknowledged: {}", p.brief())));
                    }
                }
            }
            all.push(old);
            if rng.chance(50) {
                new.bye()?;
            } else {
                new.barrier()?;
                new.ended_by_other = Some(0);
                new.lossy = true;
            }
            all.push(new);
        }
        by.judge(all)
    };
    let res = go();
    finish(r, "stalled_old", &["loss", "misrouted", "phantom", "dup", "order", "altered"], res, replay);
}

fn simultaneous(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let l = rng.range(1, 3);
    let Some(b) = start(r, &Opts::diverse(&mut rng, l)) else { return };
    let replay = json!({"scenario": i, "seed": seed, "kind": "simultaneous connects with one id"});
    let mut go = || -> Result<Vec<Viol>, Stop> {
        let mut p = Client::connect(&b, b.addrs[0], "publ", &mut rng)?;
        let mut all: Vec<Client> = vec![];
        for round in 0..rng.range(1, 4) {
            let k = rng.range(2, 12);
            let mut cs: Vec<Client> = vec![];
            for _ in 0..k {
                cs.push(Client::open(&b, b.addr(&mut rng), "same", &mut rng, None)?);
            }
            std::thread::scope(|s| {
                for (j, c) in cs.iter_mut().enumerate() {
                    s.spawn(move || {
                        let mut x = Connect::new("same").encode();
                        c.ops.push(Op::Connect { t: tick() });
                        x.extend(c.sub_bytes(&[(format!("r{}/k{}", round, j), 0)]));
                        x.extend(c.ping_bytes());
                        c.raw(&x);
                    });
                }
            });
            r.evals(k as u64);
            r.nontrivial(mix64(seed ^ round as u64));
            let w = wait_until(&b, || cs.iter().filter(|c| c.closed()).count() >= k - 1);
            stop_if(w, || format!("{} connections share one client id, {} of them stay open", k, cs.iter().filter(|c| !c.closed()).count()))?;
            let w = wait_until(&b, || cs.iter().all(|c| c.closed() || c.answers() >= 3));
            stop_if(w, || "the surviving connection is not answered".into())?;
            let open: Vec<usize> = (0..k).filter(|j| !cs[*j].closed()).collect();
            if open.len() != 1 {
                return Err(Stop::Bad(format!("{} connections with one client id: {} survive", k, open.len())));
            }
            r.count("simultaneous connects", k as u64);
            for j in 0..k {
                p.publish(&format!("r{}/k{}", round, j), 16);
            }
            p.barrier()?;
            cs[open[0]].barrier()?;
            for (j, c) in cs.into_iter().enumerate() {
                let mut c = c;
                if j != open[0] {
                    c.ended_by_other = Some(0);
                } else {
                    c.bye()?;
                }
                all.push(c);
            }
        }
        all.push(p);
        let (_, v, _) = hist::judge(&all)?;
        Ok(v)
    };
    let res = go();
    finish(r, "simultaneous", &["loss", "misrouted", "phantom", "dup"], res, replay);
}

fn end_races(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let l = rng.range(1, 3);
    let Some(b) = start(r, &Opts::diverse(&mut rng, l)) else { return };
    let replay = json!({"scenario": i, "seed": seed, "kind": "an end races a reconnect"});
    let mut go = || -> Result<Vec<Viol>, Stop> {
        let mut p = Client::connect(&b, b.addrs[0], "publ", &mut rng)?;
        let mut all: Vec<Client> = vec![];
        let mut old = Client::connect(&b, b.addr(&mut rng), "back", &mut rng)?;
        for g in 0..60 {
            old.sub1(&format!("g{}", g % 3));
            if rng.chance(50) {
                old.wait_answers()?;
            }
            let mut new = Client::open(&b, b.addr(&mut rng), "back", &mut rng, None)?;
            let mode = rng.below(5);
            let (d1, d2) = (rng.below(400) as u64, rng.below(400) as u64);
            std::thread::scope(|s| {
                let old = &mut old;
                s.spawn(move || {
                    std::thread::sleep(std::time::Duration::from_micros(d1));
                    match mode {
                        0 => old.reset(),
                        1 => {
                            let _ = old.stream.shutdown(Shutdown::Write);
                        }
                        2 => {
                            old.raw(&mq::DISCONNECT);
                        }
                        3 => {
                            old.raw(&[0x00, 0x00]);
                        }
                        _ => {
                            old.raw(&[0x30, 0x7f, 0, 5, b'w']);
                            let _ = old.stream.shutdown(Shutdown::Both);
                        }
                    }
                });
                std::thread::sleep(std::time::Duration::from_micros(d2));
                new.send_connect(&Connect::new("back"));
                new.sub1("mine");
            });
            new.wait_answers()?;
            old.lossy = true;
            old.ended_by_other = Some(0);
            r.eval(mix64(seed ^ (g * 8 + mode) as u64));
            if mode != 0 {
                old.wait_closed()?;
            }
            let mut ts = ["mine", "g0", "g1", "g2"];
            rng.shuffle(&mut ts);
            for t in ts {
                p.publish(t, 16);
            }
            p.barrier()?;
            new.barrier()?;
            all.push(std::mem::replace(&mut old, new));
        }
        r.count("ends racing a reconnect", 60);
        old.barrier()?;
        all.push(old);
        all.push(p);
        // every connection but the last was replaced; the last must have everything. Connections in
        // between are judged on what they received
        let (_, v, h) = hist::judge(&all)?;
        let mut v = v;
        // each of them got its own "mine" publication before being replaced
        for (k, c) in h.conns.iter().enumerate() {
            if k == 0 || k + 1 >= h.conns.len() {
                continue;
            }
            let n = c.evs.iter().filter(|e| matches!(&e.k, K::P(Rx::Publish { topic, .. }) if topic == b"mine")).count();
            if n != 1 {
                v.push(Viol { kind: "loss", msg: format!("connection {} of client \"back\" subscribed to \"mine\", acknowledged, and received {} of 1 publications before it was replaced", k, n) });
            }
        }
        Ok(v)
    };
    let res = go();
    finish(r, "end_races", &["loss", "misrouted", "phantom", "dup"], res, replay);
}

fn empty_ids(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let l = rng.range(1, 3);
    let Some(b) = start(r, &Opts::diverse(&mut rng, l)) else { return };
    let replay = json!({"scenario": i, "seed": seed, "kind": "clients without id"});
    let mut go = || -> Result<Vec<Viol>, Stop> {
        let k = rng.range(2, 30);
        let mut all: Vec<Client> = vec![];
        for j in 0..k {
            let mut c = Client::open(&b, b.addr(&mut rng), "", &mut rng, None)?;
            c.send_connect(&Connect::new(""));
            c.sub(&[(format!("e{}", j), 0), ("all".into(), 0)]);
            all.push(c);
        }
        for c in &all {
            c.wait_answers()?;
            if let K::P(Rx::ConnAck { sp: true, .. }) = c.evs()[0].k {
                return Err(Stop::Bad("a CONNECT without client id was told that a session is present".into()));
            }
        }
        r.evals(k as u64);
        r.nontrivial(seed);
        let mut p = Client::connect(&b, b.addrs[0], "publ", &mut rng)?;
        for j in 0..k {
            p.publish(&format!("e{}", j), 16);
        }
        // some leave; the others are not affected
        let gone = rng.below(k);
        for c in all[..gone].iter_mut() {
            c.barrier()?;
            match rng.below(2) {
                0 => c.bye()?,
                _ => c.fin()?,
            }
        }
        p.publish("all", 16);
        p.barrier()?;
        for c in all[gone..].iter_mut() {
            c.barrier()?;
        }
        r.count("clients without id", k as u64);
        all.push(p);
        let (_, v, _) = hist::judge(&all)?;
        Ok(v)
    };
    let res = go();
    finish(r, "empty_ids", &["loss", "misrouted", "phantom", "dup"], res, replay);
}

/// Ids that are not the same, however alike, and clients without id whose addresses are alike.
fn alike_ids(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let mut o = Opts::diverse(&mut rng, 3).chatty(&mut rng, 20);
    o.pause = None;
    let Some(b) = start(r, &o) else { return };
    let replay = json!({"scenario": i, "seed": seed, "kind": "ids and addresses alike"});
    let mut go = || -> Result<Vec<Viol>, Stop> {
        let base = *rng.pick(&["client", "Sensor-1", "a", "0", "räksmörgås", "x/y"]);
        let mut ids: Vec<String> = vec![base.into(), base.to_uppercase(), base.to_lowercase()];
        for c in [" ", "\t", "\n", "\r\n", "\u{1}", "\u{7f}", "\u{a0}", "\u{feff}", "\u{200b}", "/", "#", "+", ".", "0", "-", "%00", "\"", "\u{301}"] {
            ids.push(format!("{}{}", base, c));
            ids.push(format!("{}{}", c, base));
        }
        for n in [8, 16, 22, 23, 24, 31, 32, 36, 63, 64, 100, 127, 128, 255, 256, 1000, 1023, 1024, 4096, 65533, 65534] {
            // equal but for the last character, and the former but for that
            let p = "p".repeat(n);
            ids.push(format!("{}a", p));
            ids.push(format!("{}b", p));
            ids.push(p);
            // equal but for the first character
            ids.push(format!("1{}", "s".repeat(n)));
            ids.push(format!("2{}", "s".repeat(n)));
        }
        for x in ["\u{e9}", "e\u{301}", "\u{c5}", "\u{212b}", "A\u{30a}", "\u{ff41}", "ss", "\u{df}", "i", "\u{131}", "\u{130}", "I", "1", "01", "+1", "1.0", "１", "null", "None", "\u{fffd}", "\u{ffff}"] {
            ids.push(x.into());
        }
        // ids that somebody could give to the clients without one
        for k in 0..3u16 {
            for f in ["{}", "auto-{}", "client-{}", "ratelmq-{}", "anonymous-{}", "127.0.0.1:{}"] {
                ids.push(f.replace("{}", &k.to_string()));
            }
        }
        ids.sort();
        ids.dedup();
        rng.shuffle(&mut ids);
        ids.truncate(120);
        let mut all: Vec<Client> = vec![];
        for id in &ids {
            let mut c = Client::open(&b, b.addr(&mut rng), id, &mut rng, None)?;
            c.send_connect(&Connect::new(id));
            all.push(c);
        }
        // without id: one port on several addresses, one address and port on several listeners
        let port = all[0].stream.local_addr().map_or(0, |a| a.port());
        let mut placed = 0;
        for host in 1..6u8 {
            for l in &b.addrs {
                for p in [port, port ^ 1] {
                    let f = std::net::SocketAddrV4::new([127, 0, 0, host].into(), p);
                    let Some(s) = crate::client::tcp_from(f, *l) else { continue };
                    let mut c = Client::over(&b, s, "", &mut rng)?;
                    c.send_connect(&Connect::new(""));
                    all.push(c);
                    placed += 1;
                }
            }
        }
        for (j, c) in all.iter_mut().enumerate() {
            c.sub(&[(format!("al/{}", j), 0), ("all".into(), 0)]);
        }
        for c in &all {
            c.wait_answers()?;
            if let K::P(Rx::ConnAck { sp: true, .. }) = c.evs()[0].k {
                return Err(Stop::Bad(format!("client {:?} was told that its session is present, but no client of that id had connected before", c.brief_id())));
            }
        }
        let n = all.len();
        r.evals(n as u64);
        r.nontrivial(seed);
        r.count("connected clients with ids alike", ids.len() as u64);
        r.count("clients without id, addresses alike", placed);
        let mut p = Client::connect(&b, b.addrs[0], "the publisher of these", &mut rng)?;
        for j in 0..n {
            p.publish(&format!("al/{}", j), 16);
        }
        p.publish("all", 16);
        p.barrier()?;
        for c in all.iter_mut() {
            c.barrier()?;
        }
        // some leave, some come again
        for j in 0..n {
            match rng.below(4) {
                0 => all[j].bye()?,
                1 if !all[j].id.is_empty() => {
                    let id = all[j].id.clone();
                    let mut c = Client::open(&b, b.addr(&mut rng), &id, &mut rng, None)?;
                    all[j].ended_by_other = Some(tick());
                    c.send_connect(&Connect::new(&id));
                    c.expect_accepted()?;
                    all[j].wait_closed()?;
                    c.sub(&[(format!("al/{}", j), 0), ("all".into(), 0)]);
                    c.wait_answers()?;
                    all.push(c);
                }
                _ => {}
            }
        }
        p.publish("all", 16);
        for j in 0..n {
            p.publish(&format!("al/{}", j), 16);
        }
        p.barrier()?;
        for c in all.iter_mut().filter(|c| !c.closed()) {
            c.barrier()?;
        }
        all.push(p);
        let (_, v, _) = hist::judge(&all)?;
        Ok(v)
    };
    let res = go();
    finish(r, "alike_ids", &["loss", "misrouted", "phantom", "dup"], res, replay);
}

// ---------------------------------------------------------------- C14

pub fn c14() -> Report {
    let r = Report::new(
        "C14",
        "connections with random subscriptions, shared with other clients, ended by DISCONNECT (with and without packets after it), FIN, reset, protocol errors, and FIN or reset after every byte of a packet, many at once in a busy broker; then a connection with the same id; an evaluation is one ended connection; distinct: by way of ending, cut position and subscriptions",
    );
    run_many(&r, 4, budget(20.0, 400.0), 8, 1 << 40, |i, seed| {
        if i == 1 || i % 6 == 5 {
            clogged_endings(&r, i, seed)
        } else if i == 2 || i % 6 == 4 {
            super::long::crowd_ends(&r, i, seed)
        } else {
            endings(&r, i, seed)
        }
    });
    r
}

/// All that has been sent to the broker has been dealt with: it sleeps, in all its threads.
pub fn settle(b: &Broker) -> Result<(), Stop> {
    let t = std::time::Instant::now();
    let mut quiet = std::time::Instant::now();
    let mut cpu = b.cpu_ticks();
    while quiet.elapsed().as_millis() < 400 {
        sleep_ms(3);
        let c = b.cpu_ticks();
        if c != cpu || !b.asleep() {
            cpu = c;
            quiet = std::time::Instant::now();
        }
        if t.elapsed().as_secs() > 60 {
            return Err(Stop::Unknown("the broker does not come to rest".into()));
        }
    }
    Ok(())
}

/// Connections that end while messages are waiting for them, which their clients do not read yet.
fn clogged_endings(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let mut o = Opts::diverse(&mut rng, 1);
    o.pause = None;
    let Some(b) = start(r, &o) else { return };
    let replay = json!({"scenario": i, "seed": seed, "kind": "endings with messages waiting"});
    let mut go = || -> Result<Vec<Viol>, Stop> {
        let mut by = bystanders(&b, &mut rng)?;
        let mut all: Vec<Client> = vec![];
        for g in 0..5 {
            let id = format!("c{}", g);
            let topic = format!("c/{}", g);
            let mut c = Client::open(&b, b.addr(&mut rng), &id, &mut rng, Some(1 << 16))?;
            c.send_connect(&Connect::new(&id));
            c.sub(&[(topic.clone(), 0)]);
            c.wait_answers()?;
            c.set_paused(true);
            by.publ.publish(&topic, 12 << 20);
            by.publ.barrier()?;
            sleep_ms(20);
            let fill = *rng.pick(&[0, 8, 24, 28, 31, 32, 32]);
            for _ in 0..fill {
                by.publ.publish(&topic, 16);
            }
            by.publ.barrier()?;
            c.mark_end();
            c.lossy = true;
            let mode = rng.below(5);
            let name = ["DISCONNECT", "DISCONNECT FIN", "FIN", "protocol error", "second CONNECT"][mode];
            match mode {
                0 | 1 => {
                    c.raw(&mq::DISCONNECT);
                }
                2 => {}
                3 => {
                    c.raw(&[0xF0, 0]);
                }
                _ => {
                    let x = Connect::new(&id).encode();
                    c.raw(&x);
                }
            }
            if mode == 1 || mode == 2 {
                let _ = c.stream.shutdown(Shutdown::Write);
            }
            settle(&b)?;
            let mut after = vec![];
            for _ in 0..rng.range(1, 40) {
                after.push(by.publ.publish(&topic, 16));
            }
            by.publ.barrier().map_err(|e| tag(e, &format!("after {} of a client that does not read", name)))?;
            if rng.chance(50) {
                let mut d = Client::open(&b, b.addr(&mut rng), &id, &mut rng, None)?;
                d.send_connect(&Connect::new(&id));
                d.expect_accepted()?;
                by.publ.publish(&topic, 17);
                by.publ.barrier()?;
                d.barrier()?;
                all.push(d);
            }
            c.set_paused(false);
            c.wait_closed().map_err(|e| tag(e, name))?;
            let late = c.publishes().iter().filter(|(_, p)| matches!(p, Rx::Publish { payload, .. } if uid_of(payload).map_or(false, |u| after.contains(&u)))).count();
            if late > 0 {
                return Err(Stop::Bad(format!("{} of {} messages published after the end ({}) of a connection for which {} were waiting were delivered to it", late, after.len(), name, fill)));
            }
            r.eval(mix64(g ^ (mode as u64) << 8 ^ (fill as u64) << 16 ^ seed));
            r.count("ended with messages waiting", 1);
            all.push(c);
        }
        by.judge(all)
    };
    let res = go();
    finish(r, "clogged_end", &["loss", "misrouted", "phantom", "dup", "altered"], res, replay);
}

fn endings(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let l = rng.range(1, 2);
    let Some(b) = start(r, &Opts::diverse(&mut rng, l).chatty(&mut rng, 15)) else { return };
    let replay = json!({"scenario": i, "seed": seed, "kind": "endings"});
    let mut go = || -> Result<Vec<Viol>, Stop> {
        let mut by = bystanders(&b, &mut rng)?;
        let topics = mix::topic_pool(&mut rng, 6);
        let mut stay = Client::connect(&b, b.addrs[0], "stay", &mut rng)?;
        let shared: Vec<String> = (0..5).map(|_| mix::filter_for(&mut rng, &topics)).collect();
        for f in &shared {
            stay.sub1(f);
        }
        stay.wait_answers()?;
        let mut all: Vec<Client> = vec![];
        let cut_packet = if rng.chance(50) { mq::subscribe(3, &[("cut/#".into(), 0), ("w/+".into(), 1)]) } else { rogue_publish(&mut rng, "w/cut") };
        let mut cut = rng.below(cut_packet.len());
        let mut last = String::new();
        for n in 0..30 {
            let id = format!("gone{}", rng.below(2));
            let mut c = Client::open(&b, b.addr(&mut rng), &id, &mut rng, None)?;
            let mut cp = Connect::new(&id);
            cp.clean = rng.chance(80);
            cp.will = if rng.chance(20) { Some((b"w/will".to_vec(), b"bye".to_vec(), 0, false)) } else { None };
            c.send_connect(&cp);
            c.expect_accepted()?;
            if let K::P(Rx::ConnAck { sp: true, .. }) = c.evs()[0].k {
                return Err(Stop::Bad(format!("client {:?} connected again after its connection had ended (way {}) and was told that its session is present", id, n)));
            }
            // nothing is subscribed yet: what its predecessor had must be gone
            mix::probe(&mut by.publ, &topics, 12, &mut last, &mut rng);
            by.publ.barrier()?;
            c.barrier()?;
            let ns = rng.below(8);
            let mut fp = 0;
            for _ in 0..ns {
                let f = if rng.chance(50) { rng.pick(&shared).clone() } else { mix::filter_for(&mut rng, &topics) };
                fp = hash_bytes(fp, f.as_bytes());
                c.sub1(&f);
            }
            if rng.chance(20) {
                c.sub1("own/#");
            }
            if rng.chance(70) {
                c.wait_answers()?;
            }
            let mode = rng.below(9);
            if rng.chance(60) {
                c.wait_answers()?;
                mix::touch(&mut by.publ, &topics, 12, &mut last, &mut rng);
                by.publ.barrier()?;
            }
            let name = ["DISCONNECT", "DISCONNECT and more", "FIN", "RST", "protocol error", "cut FIN", "cut RST", "DISCONNECT FIN", "RST unread"][mode];
            match mode {
                0 => {
                    c.mark_end();
                    c.raw(&mq::DISCONNECT);
                    c.wait_closed().map_err(|e| tag(e, name))?;
                }
                1 => {
                    let mut x = mq::DISCONNECT.to_vec();
                    x.extend(follow_up(&mut rng));
                    x.extend(rogue_publish(&mut rng, "w/late"));
                    if rng.chance(30) {
                        x.extend(Connect::new(&id).encode());
                    }
                    c.mark_end();
                    c.raw(&x);
                    c.lossy = true; // closing with unread data may cut what is in flight
                    c.wait_closed().map_err(|e| tag(e, name))?;
                }
                2 => c.fin().map_err(|e| tag(e, name))?,
                3 => c.reset(),
                4 => {
                    let bad: &[&[u8]] = &[&[0x00, 0], &[0xF0, 0], &[0x36, 5, 0, 1, b'a', 0, 1], &[0x82, 2, 0, 1], &[0xC1, 0], &[0x30, 3, 0, 1, b'#'], &[0xFF, 0xFF, 0xFF, 0xFF, 0xFF], &[0x20, 2, 0, 0]];
                    let mut x = match rng.below(5) {
                        0 => rng.pick(bad).to_vec(),
                        1 => {
                            let other = rng.pick(&[&id[..], "", "stay", "publ"]).to_string();
                            Connect::new(&other).encode()
                        }
                        _ => loop {
                            if let Some(m) = malformed(&mut rng) {
                                break m.0;
                            }
                        },
                    };
                    fp = hash_bytes(fp, &x);
                    if rng.chance(60) {
                        x.extend(follow_up(&mut rng));
                    }
                    c.mark_end();
                    c.lossy = true;
                    c.raw(&x);
                    c.wait_closed().map_err(|e| tag(e, name))?;
                }
                5 | 6 => {
                    cut = (cut + 1) % cut_packet.len();
                    c.mark_end();
                    c.raw(&cut_packet[..cut]);
                    if rng.chance(50) {
                        sleep_ms(1);
                    }
                    if mode == 5 {
                        let _ = c.stream.shutdown(Shutdown::Write);
                        c.wait_closed().map_err(|e| tag(e, name))?;
                    } else {
                        c.reset();
                    }
                    fp ^= cut as u64;
                }
                7 => c.bye().map_err(|e| tag(e, name))?,
                _ => {
                    c.set_paused(true);
                    by.publ.publish(&topics[0], 3000);
                    by.publ.barrier()?;
                    c.reset();
                }
            }
            r.eval(mix64(fp ^ mode as u64));
            r.count(&format!("ended by {}", name), 1);
            if n < 2 {
                r.sample(json!({"scenario": i, "way": name, "subscriptions": ns, "cut": cut}));
            }
            mix::probe(&mut by.publ, &topics, 12, &mut last, &mut rng);
            if rng.chance(50) {
                by.traffic()?;
                last = "own/z/x".into();
            }
            all.push(c);
        }
        by.publ.barrier()?;
        stay.barrier()?;
        all.push(stay);
        by.judge(all)
    };
    let res = go();
    finish(r, "endings", &["loss", "misrouted", "phantom", "dup", "altered"], res, replay);
}
