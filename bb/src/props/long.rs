//! Long and large: many packets on one connection, many subscribers, many subscriptions, long idleness.

use crate::client::*;
use crate::hist;

use crate::mq::{self, Connect};
use crate::proc::*;
use crate::props::protocol::start;
use crate::report::*;
use crate::util::*;
use serde_json::json;
use std::io::{Read, Write};
use std::net::TcpStream;
use std::sync::atomic::Ordering;
use std::time::Duration;

/// More packets on single connections than 16-bit counters count.
pub fn volume(r: &Report, i: u64, seed: u64, kinds: &[&str]) {
    let mut rng = Rng::new(seed);
    let l = rng.range(1, 2);
    let mut o = Opts::diverse(&mut rng, l);
    o.pause = None;
    let Some(b) = start(r, &o) else { return };
    let n = if thorough() { 300_000 } else { 70_000 };
    let replay = json!({"scenario": i, "seed": seed, "kind": "volume", "packets": n});
    let go = || -> Result<Vec<hist::Viol>, Stop> {
        let mut s = Client::connect(&b, b.addr(&mut rng), "vs", &mut rng)?;
        s.sub(&[("v/+".into(), 0)]);
        s.wait_answers()?;
        let mut p = Client::connect(&b, b.addr(&mut rng), "vp", &mut rng)?;
        let mut buf = vec![];
        for k in 0..n {
            let t = ["v/a", "v/b", "v/c"][rng.below(3)];
            buf.extend(p.pub_bytes(t, 10, 0, false, false));
            if k % 5000 == 4999 {
                buf.extend(p.ping_bytes());
            }
            if buf.len() > 30_000 {
                p.raw(&buf);
                buf.clear();
            }
        }
        p.raw(&buf);
        p.barrier()?;
        s.barrier()?;
        r.count("publications on one connection", n as u64);
        let (_, mut v, _) = hist::judge(&[s, p])?;
        // requests
        let mut c = Client::connect(&b, b.addr(&mut rng), "vc", &mut rng)?;
        let m = n / 2;
        let mut buf = vec![];
        for k in 0..m {
            match k % 4 {
                0 => buf.extend(c.sub_bytes(&[("c/+".into(), 0), (format!("c/{}", k % 7), 0)])),
                1 => buf.extend(c.unsub_bytes(&["c/+".into(), format!("c/{}", k % 7)])),
                _ => {
                    buf.extend(c.ping_bytes());
                    buf.extend(c.ping_bytes());
                }
            }
            if buf.len() > 30_000 {
                c.raw(&buf);
                buf.clear();
            }
        }
        c.raw(&buf);
        c.wait_answers()?;
        r.count("requests on one connection", c.requests() as u64);
        v.extend(hist::answers(&c.ops, &c.evs()).1);
        Ok(v)
    };
    let mut go = go;
    match go() {
        Ok(v) => {
            r.eval(seed ^ 0x70);
            for x in v.into_iter().filter(|x| kinds.contains(&x.kind)) {
                r.violation(&format!("volume:{}", x.kind), x.msg, replay.clone());
            }
        }
        Err(s) => r.stop_to("volume", s, replay),
    }
}

pub struct Raw {
    pub s: TcpStream,
    buf: Vec<u8>,
}

impl Raw {
    pub fn open(b: &Broker, rng: &mut Rng) -> Result<Raw, Stop> {
        let a = b.addr(rng);
        let s = tcp(a, None).map_err(|e| open_error(b, a, &e))?;
        let _ = s.set_nodelay(true);
        let _ = s.set_write_timeout(Some(Duration::from_secs(60)));
        Ok(Raw { s, buf: vec![] })
    }
    pub fn send(&mut self, x: &[u8]) {
        let _ = self.s.write_all(x);
    }
    /// exactly these bytes come next
    pub fn expect(&mut self, b: &Broker, want: &[u8], what: &str) -> Result<(), Stop> {
        let _ = self.s.set_nonblocking(true);
        let mut eof = false;
        let mut tmp = vec![0u8; 65536];
        let s = &mut self.s;
        let buf = &mut self.buf;
        let w = wait_until(b, || {
            while buf.len() < want.len() && !eof {
                match s.read(&mut tmp) {
                    Ok(0) => eof = true,
                    Ok(n) => {
                        buf.extend_from_slice(&tmp[..n]);
                        b.progress.fetch_add(1, Ordering::SeqCst);
                    }
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                    Err(_) => eof = true,
                }
            }
            buf.len() >= want.len() || eof
        });
        let _ = self.s.set_nonblocking(false);
        let got = self.buf.len();
        stop_if(w, || format!("{}: {} of {} bytes arrive", what, got, want.len()))?;
        if self.buf.len() < want.len() {
            return Err(Stop::Bad(format!("{}: the connection ends after {} of {} bytes", what, self.buf.len(), want.len())));
        }
        let got: Vec<u8> = self.buf.drain(..want.len()).collect();
        if got != want {
            let k = got.iter().zip(want).position(|(a, b)| a != b).unwrap();
            return Err(Stop::Bad(format!("{}: byte {} of {} differs: {} instead of {}", what, k, want.len(), hex(&got[k..(k + 20).min(got.len())]), hex(&want[k..(k + 20).min(want.len())]))));
        }
        Ok(())
    }
    /// the connection is over, and nothing more arrives on it
    pub fn ended(&mut self, b: &Broker, what: &str) -> Result<(), Stop> {
        let _ = self.s.set_nonblocking(true);
        let mut over = false;
        let mut tmp = [0u8; 4096];
        let s = &mut self.s;
        let buf = &mut self.buf;
        let w = wait_until(b, || {
            while !over {
                match s.read(&mut tmp) {
                    Ok(0) => over = true,
                    Ok(n) => {
                        buf.extend_from_slice(&tmp[..n]);
                        b.progress.fetch_add(1, Ordering::SeqCst);
                    }
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                    Err(_) => over = true,
                }
            }
            over
        });
        if !self.buf.is_empty() {
            return Err(Stop::Bad(format!("{}: {} bytes arrive: {}", what, self.buf.len(), hex(&self.buf[..self.buf.len().min(32)]))));
        }
        stop_if(w, || format!("{}: the end of the connection", what))
    }
    /// nothing more has arrived
    pub fn nothing(&mut self, what: &str) -> Result<(), Stop> {
        let _ = self.s.set_nonblocking(true);
        let mut tmp = [0u8; 64];
        let r = self.s.read(&mut tmp);
        let _ = self.s.set_nonblocking(false);
        match r {
            Ok(0) => Err(Stop::Bad(format!("{}: the connection was ended by the broker", what))),
            Ok(n) => Err(Stop::Bad(format!("{}: {} more bytes arrive: {}", what, n, hex(&tmp[..n])))),
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(()),
            Err(e) => Err(Stop::Bad(format!("{}: {}", what, e))),
        }
    }
}

pub const CONNACK: [u8; 4] = [0x20, 2, 0, 0];
pub const PINGRESP: [u8; 2] = [0xD0, 0];

/// Many live connections at once; with an empty id each, or their own; all on one topic.
pub fn crowd(r: &Report, i: u64, seed: u64, empty: bool) {
    let mut rng = Rng::new(seed);
    let mut o = Opts::diverse(&mut rng, 2);
    o.pause = None;
    let Some(b) = start(r, &o) else { return };
    let n = match (empty, thorough()) {
        (true, false) => 2500,
        (false, false) => 1500,
        _ => 5000,
    };
    let replay = json!({"scenario": i, "seed": seed, "kind": "crowd", "connections": n, "empty ids": empty});
    let mut go = || -> Result<(), Stop> {
        let mut all: Vec<Raw> = vec![];
        let mut own: Vec<usize> = vec![];
        for k in 0..n {
            let mut c = Raw::open(&b, &mut rng)?;
            let id = if empty { String::new() } else { format!("crowd-{}", k) };
            let mut x = Connect::new(&id).encode();
            let f = *rng.pick(&["crowd/all", "crowd/+", "crowd/#", "+/all"]);
            x.extend(mq::subscribe(1, &[(f.to_string(), 0), (format!("own/{}", k), 0)]));
            c.send(&x);
            let mut want = CONNACK.to_vec();
            want.extend([0x90, 4, 0, 1, 0, 0]);
            c.expect(&b, &want, "CONNECT and SUBSCRIBE of one of many")?;
            all.push(c);
            own.push(k);
        }
        r.count("connections of a crowd", n as u64);
        let mut p = Raw::open(&b, &mut rng)?;
        p.send(&Connect::new("crowd-publisher").encode());
        p.expect(&b, &CONNACK, "the publisher's CONNECT")?;
        for round in 0..2u8 {
            let mut want: Vec<Vec<u8>> = vec![vec![]; n];
            let mut send = vec![];
            for j in 0..3u8 {
                let x = mq::publish(b"crowd/all", &[round, j, 1, 2, 3], 0, false, false, 0);
                send.extend(&x);
                for w in want.iter_mut() {
                    w.extend(&x);
                }
            }
            for k in 0..n {
                let x = mq::publish(format!("own/{}", k).as_bytes(), &[round, 9], 0, false, false, 0);
                send.extend(&x);
                want[k].extend(&x);
            }
            send.extend(mq::PINGREQ);
            p.send(&send);
            for (k, c) in all.iter_mut().enumerate() {
                c.expect(&b, &want[k], &format!("messages to member {} of a crowd of {}", k, n))?;
            }
            p.expect(&b, &PINGRESP, "the publisher's PINGREQ")?;
            for c in all.iter_mut() {
                c.send(&mq::PINGREQ);
            }
            for (k, c) in all.iter_mut().enumerate() {
                c.expect(&b, &PINGRESP, &format!("PINGREQ of member {} of a crowd of {}", k, n))?;
                c.nothing(&format!("member {} of a crowd of {}", k, n))?;
            }
            r.count("messages to a crowd", (n * 4) as u64);
        }
        Ok(())
    };
    match go() {
        Ok(()) => r.eval(seed ^ empty as u64),
        Err(s) => r.stop_to("crowd", s, replay),
    }
}

/// The same publication several times in a row, from one or more connections: each one counts.
pub fn repeats(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let Some(b) = start(r, &Opts::diverse(&mut rng, 2)) else { return };
    let replay = json!({"scenario": i, "seed": seed, "kind": "repeated publications"});
    let mut go = || -> Result<u64, Stop> {
        let mut n = 0;
        let mut subs = vec![];
        for k in 0..rng.range(1, 4) {
            let mut c = Raw::open(&b, &mut rng)?;
            let mut x = Connect::new(&format!("rs{}", k)).encode();
            x.extend(mq::subscribe(1, &[(rng.pick(&["#", "r/+", "r/#", "+/a"]).to_string(), 0)]));
            c.send(&x);
            let mut want = CONNACK.to_vec();
            want.extend([0x90, 3, 0, 1, 0]);
            c.expect(&b, &want, "CONNECT and SUBSCRIBE")?;
            subs.push(c);
        }
        let mut pubs = vec![];
        for k in 0..rng.range(1, 3) {
            let mut p = Raw::open(&b, &mut rng)?;
            p.send(&Connect::new(&format!("rp{}", k)).encode());
            p.expect(&b, &CONNACK, "CONNECT")?;
            pubs.push(p);
        }
        for round in 0..rng.range(10, 40) {
            let len = *rng.pick(&[0, 1, 7, 100, 5000]);
            let body = rng.bytes(len);
            let t = b"r/a";
            let m = rng.range(1, 8);
            let qos = rng.below(3) as u8;
            let mut want = vec![];
            let q = rng.below(pubs.len());
            for j in 0..m {
                // within a round from one connection or from all in turn; another identifier each
                let who = if round % 2 == 0 { q } else { j % pubs.len() };
                let p = &mut pubs[who];
                let mut x = mq::publish(t, &body, qos, false, false, (round * 10 + j + 1) as u16);
                x.extend(mq::PINGREQ);
                p.send(&x);
                p.expect(&b, &PINGRESP, "PINGREQ")?;
                want.extend(mq::publish(t, &body, 0, false, false, 0));
                n += 1;
            }
            let k = rng.below(subs.len());
            for (at, c) in subs.iter_mut().enumerate() {
                if at == k && rng.chance(30) {
                    c.send(&mq::PINGREQ);
                    let mut w = want.clone();
                    w.extend(PINGRESP);
                    c.expect(&b, &w, &format!("one publication sent {} times (QoS {}, {} bytes)", m, qos, len))?;
                } else {
                    c.expect(&b, &want, &format!("one publication sent {} times (QoS {}, {} bytes)", m, qos, len))?;
                }
            }
        }
        for c in subs.iter_mut() {
            c.send(&mq::PINGREQ);
            c.expect(&b, &PINGRESP, "after repeated publications")?;
            c.nothing("after repeated publications")?;
        }
        Ok(n)
    };
    match go() {
        Ok(n) => {
            r.eval(seed ^ 0x4e);
            r.count("repeated publications", n);
        }
        Err(s) => r.stop_to("repeats", s, replay),
    }
}

/// A few residents, and more connections coming and going than 16-bit counters count; clients
/// connecting afterwards are still told apart.
pub fn turnover(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let mut o = Opts::diverse(&mut rng, 2);
    o.pause = None;
    o.threads = o.threads.max(2);
    let Some(b) = start(r, &o) else { return };
    let n = if thorough() { 200_000 } else { 73_000u64 };
    let replay = json!({"scenario": i, "seed": seed, "kind": "turnover", "connections": n});
    let own = |c: &mut Raw, id: &str, k: usize| -> Result<(), Stop> {
        let mut x = Connect::new(id).encode();
        x.extend(mq::subscribe(1, &[(format!("home/{}", k), 0), ("all".into(), 0)]));
        c.send(&x);
        let mut want = CONNACK.to_vec();
        want.extend([0x90, 4, 0, 1, 0, 0]);
        c.expect(&b, &want, "CONNECT and SUBSCRIBE")
    };
    let mut go = || -> Result<(), Stop> {
        let mut all: Vec<Raw> = vec![];
        let add = |all: &mut Vec<Raw>, rng: &mut Rng| -> Result<(), Stop> {
            for j in 0..3 {
                let k = all.len();
                let mut c = Raw::open(&b, rng)?;
                own(&mut c, &if j == 2 { format!("named-{}", k) } else { String::new() }, k)?;
                all.push(c);
            }
            Ok(())
        };
        add(&mut all, &mut rng)?;
        let errs: std::sync::Mutex<Vec<Stop>> = std::sync::Mutex::new(vec![]);
        let done = std::sync::atomic::AtomicU64::new(0);
        for part in 0..2 {
            std::thread::scope(|s| {
                for w in 0..6u64 {
                    let mut rng = Rng::new(rng.next());
                    let (errs, done, b) = (&errs, &done, &b);
                    s.spawn(move || {
                        let mut one = || -> Result<(), Stop> {
                            while done.fetch_add(1, Ordering::SeqCst) < n / 2 * (part + 1) {
                                let mut c = Raw::open(b, &mut rng)?;
                                let id = if rng.chance(92) { String::new() } else { format!("t{}", w) };
                                c.send(&Connect::new(&id).encode());
                                c.expect(b, &CONNACK, "CONNECT of one of many short connections")?;
                                if rng.chance(20) {
                                    c.send(&mq::DISCONNECT);
                                }
                                // no TIME_WAIT
                                set_linger_reset(&c.s);
                            }
                            Ok(())
                        };
                        if let Err(e) = one() {
                            errs.lock().unwrap().push(e);
                        }
                    });
                }
            });
            if let Some(e) = errs.lock().unwrap().pop() {
                return Err(e);
            }
            add(&mut all, &mut rng)?;
        }
        r.count("connections that came and went", n);
        let mut p = Raw::open(&b, &mut rng)?;
        p.send(&Connect::new("turnover-publisher").encode());
        p.expect(&b, &CONNACK, "the publisher's CONNECT")?;
        let mut send = mq::publish(b"all", b"1", 0, false, false, 0);
        for k in 0..all.len() {
            send.extend(mq::publish(format!("home/{}", k).as_bytes(), &[k as u8], 0, false, false, 0));
        }
        send.extend(mq::PINGREQ);
        p.send(&send);
        p.expect(&b, &PINGRESP, "the publisher's PINGREQ")?;
        for (k, c) in all.iter_mut().enumerate() {
            c.send(&mq::PINGREQ);
            let mut want = mq::publish(b"all", b"1", 0, false, false, 0);
            want.extend(mq::publish(format!("home/{}", k).as_bytes(), &[k as u8], 0, false, false, 0));
            want.extend(PINGRESP);
            c.expect(&b, &want, &format!("messages to client {} after {} connections came and went", k, n))?;
            c.nothing(&format!("client {} after {} connections came and went", k, n))?;
        }
        Ok(())
    };
    match go() {
        Ok(()) => r.eval(seed ^ 0x7a),
        Err(s) => r.stop_to("turnover", s, replay),
    }
}

/// One client with thousands of subscriptions.
pub fn collector(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let mut o = Opts::diverse(&mut rng, 1);
    o.pause = None;
    let Some(b) = start(r, &o) else { return };
    let n = if thorough() { 40_000 } else { 12_000 };
    let replay = json!({"scenario": i, "seed": seed, "kind": "collector", "filters": n});
    let mut go = || -> Result<(), Stop> {
        let mut c = Raw::open(&b, &mut rng)?;
        c.send(&Connect::new("collector").encode());
        c.expect(&b, &CONNACK, "CONNECT")?;
        let name = |k: usize| match k % 3 {
            0 => format!("c/{}", k),
            1 => format!("d/{}/x", k),
            _ => format!("{}/e", k),
        };
        let filter = |k: usize| match k % 3 {
            0 => format!("c/{}", k),
            1 => format!("d/{}/+", k),
            _ => format!("{}/#", k),
        };
        let mut k = 0;
        while k < n {
            let m = rng.range(1, 600).min(n - k);
            let fs: Vec<(String, u8)> = (k..k + m).map(|j| (filter(j), 0)).collect();
            c.send(&mq::subscribe(7, &fs));
            let mut body = vec![0u8; 2 + m];
            body[1] = 7;
            let want = mq::packet(0x90, &body);
            c.expect(&b, &want, "SUBACK")?;
            k += m;
        }
        let mut p = Raw::open(&b, &mut rng)?;
        p.send(&Connect::new("feeder").encode());
        p.expect(&b, &CONNACK, "CONNECT")?;
        let mut held: Vec<bool> = vec![true; n];
        for round in 0..3u8 {
            let mut order: Vec<usize> = (0..n).collect();
            rng.shuffle(&mut order);
            let (mut send, mut want) = (vec![], vec![]);
            for &k in &order {
                let x = mq::publish(name(k).as_bytes(), &[round, 1], 0, false, false, 0);
                send.extend(&x);
                if held[k] {
                    want.extend(&x);
                }
            }
            send.extend(mq::PINGREQ);
            let (p2, c) = (&mut p, &mut c);
            std::thread::scope(|s| {
                s.spawn(|| p2.send(&send));
                c.expect(&b, &want, &format!("messages to a client with {} subscriptions", held.iter().filter(|h| **h).count()))
            })?;
            p.expect(&b, &PINGRESP, "PINGREQ")?;
            c.send(&mq::PINGREQ);
            c.expect(&b, &PINGRESP, "PINGREQ")?;
            r.count("filters of one client probed", n as u64);
            // some go
            let gone: Vec<usize> = (0..n).filter(|k| held[*k] && mix64(*k as u64 ^ seed ^ round as u64) % 3 == 0).collect();
            for part in gone.chunks(500) {
                c.send(&mq::unsubscribe(9, &part.iter().map(|k| filter(*k)).collect::<Vec<_>>()));
                c.expect(&b, &[0xB0, 2, 0, 9], "UNSUBACK")?;
            }
            for k in gone {
                held[k] = false;
            }
        }
        Ok(())
    };
    match go() {
        Ok(()) => r.eval(seed ^ 0xC0),
        Err(s) => r.stop_to("collector", s, replay),
    }
}

/// Many connections that end at once, while the broker is busy with what others publish.
pub fn crowd_ends(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let mut o = Opts::diverse(&mut rng, 1);
    o.pause = None;
    let Some(b) = start(r, &o) else { return };
    let n = rng.range(60, 140);
    let replay = json!({"scenario": i, "seed": seed, "kind": "many end at once", "connections": n});
    let mut go = || -> Result<(), Stop> {
        let mut open = |id: &str, f: &str, rng: &mut Rng| -> Result<Raw, Stop> {
            let mut c = Raw::open(&b, rng)?;
            c.send(&Connect::new(id).encode());
            c.expect(&b, &CONNACK, "CONNECT")?;
            if !f.is_empty() {
                c.send(&mq::subscribe(1, &[(f.into(), 0)]));
                c.expect(&b, &[0x90, 3, 0, 1, 0], "SUBSCRIBE")?;
            }
            Ok(c)
        };
        let mut stay = open("stay", "h/#", &mut rng)?;
        let mut probe = open("probe", "", &mut rng)?;
        let mut flood: Vec<Raw> = vec![];
        for k in 0..12 {
            flood.push(open(&format!("flood{}", k), "", &mut rng)?);
        }
        let mut going: Vec<(Raw, usize)> = vec![];
        for k in 0..n {
            let c = open(&format!("going{}", k), if k % 2 == 0 { "h/+" } else { "h/#" }, &mut rng)?;
            going.push((c, rng.below(4)));
        }
        let one = mq::publish(b"none/of/them", &[7; 8], 0, false, false, 0);
        let mut much: Vec<u8> = vec![];
        for _ in 0..4000 {
            much.extend(&one);
        }
        much.extend(mq::PINGREQ);
        std::thread::scope(|s| {
            for f in flood.iter_mut() {
                s.spawn(|| f.send(&much));
            }
            sleep_ms(30);
            for (c, how) in going.iter_mut() {
                match *how {
                    0 => c.send(&[0xF0, 0]),
                    1 => c.send(&[0x00, 0]),
                    _ => {
                        let _ = c.s.shutdown(std::net::Shutdown::Write);
                    }
                }
            }
        });
        for f in flood.iter_mut() {
            f.expect(&b, &PINGRESP, "PINGREQ after many PUBLISH")?;
        }
        super::protocol::settle(&b)?;
        let x = mq::publish(b"h/late", b"late", 0, false, false, 0);
        probe.send(&[x.as_slice(), &mq::PINGREQ].concat());
        probe.expect(&b, &PINGRESP, "PINGREQ")?;
        stay.expect(&b, &x, "a message after many connections ended")?;
        super::protocol::settle(&b)?;
        for (k, (c, how)) in going.iter_mut().enumerate() {
            let what = format!("one of {} connections that ended at once ({})", n, ["reserved packet", "reserved packet 0", "FIN", "FIN"][*how]);
            c.ended(&b, &what)?;
            r.count("connections that ended at once", 1);
            r.eval(mix64(seed ^ k as u64));
        }
        stay.nothing("the client that stays")?;
        Ok(())
    };
    if let Err(s) = go() {
        r.stop_to("crowd_ends", s, replay);
    }
}

/// Clients that do nothing, or send nothing but the rest of a packet, for as long as the check runs.
pub fn idle(r: &Report, secs: f64) {
    let seed = mix64(r.seed ^ 0x1d1e);
    let mut rng = Rng::new(seed);
    let mut o = Opts::diverse(&mut rng, 2);
    o.pause = None;
    let Some(b) = start(r, &o) else { return };
    let replay = json!({"kind": "long idleness", "seed": seed, "seconds": secs});
    let mut go = || -> Result<Vec<hist::Viol>, Stop> {
        let mut quiet: Vec<Client> = vec![];
        for k in 0..4 {
            let mut c = Client::open(&b, b.addr(&mut rng), &format!("idle{}", k), &mut rng, None)?;
            let mut cp = Connect::new(&c.id.clone());
            cp.keep_alive = 0;
            c.send_connect(&cp);
            c.expect_accepted()?;
            c.sub(&[("idle/#".into(), 0), (format!("i/{}", k), 0)]);
            c.wait_answers()?;
            quiet.push(c);
        }
        // half a packet, then single bytes
        let mut slow = Client::open(&b, b.addr(&mut rng), "dribble", &mut rng, None)?;
        let mut cp = Connect::new("dribble");
        cp.keep_alive = 0;
        slow.send_connect(&cp);
        slow.expect_accepted()?;
        let x = slow.pub_bytes("idle/dribble", 100 + 4 * secs as usize, 0, false, false);
        let mut sent = rng.range(1, 20);
        slow.raw(&x[..sent]);
        // keeps the broker busy, all the time
        let mut p = Client::connect(&b, b.addr(&mut rng), "busy", &mut rng)?;
        let mut s = Client::connect(&b, b.addr(&mut rng), "listener", &mut rng)?;
        s.sub1("busy");
        s.wait_answers()?;
        let t = TimeBox::secs(secs);
        while !t.over() && !r.stopped() {
            for _ in 0..5 {
                p.publish("busy", 20);
            }
            p.barrier()?;
            if sent + 1 < x.len() {
                slow.raw(&x[sent..sent + 1]);
                sent += 1;
            }
            sleep_ms(400);
        }
        slow.raw(&x[sent..]);
        slow.barrier()?;
        for k in 0..4 {
            p.publish(&format!("i/{}", k), 20);
        }
        p.publish("idle/after", 20);
        p.barrier()?;
        // one is heard of only after it got its messages
        for c in quiet[..3].iter_mut() {
            c.barrier()?;
        }
        r.count("seconds of idleness", secs as u64);
        quiet.extend([slow, p, s]);
        let (_, v, _) = hist::judge(&quiet)?;
        Ok(v)
    };
    match go() {
        Ok(v) => {
            r.eval(seed);
            for x in v.into_iter().filter(|x| x.kind == "loss" || x.kind == "altered") {
                r.violation(&format!("idle:{}", x.kind), format!("after {} s of idleness: {}", secs, x.msg), replay.clone());
            }
        }
        Err(s) => r.stop_to("idle", s, replay),
    }
}

/// `f` next to clients that idle for the whole time
pub fn with_idle(r: &Report, secs: f64, f: impl FnOnce()) {
    std::thread::scope(|s| {
        s.spawn(|| idle(r, secs));
        f();
    });
}


/// Subscribers of one topic leave one after the other, mostly in the order in which they subscribed,
/// while it is published without pause; those who stay miss nothing.
pub fn leavers(r: &Report, i: u64, seed: u64, kinds: &[&str]) {
    let mut rng = Rng::new(seed);
    let l = rng.range(1, 3);
    let Some(b) = start(r, &Opts::diverse(&mut rng, l)) else { return };
    let replay = json!({"scenario": i, "seed": seed, "kind": "leavers"});
    let mut go = || -> Result<Vec<hist::Viol>, Stop> {
        let n = rng.range(20, 60);
        let mut stay = vec![];
        let mut go = vec![];
        let filters = ["l/t", "l/+", "l/#", "#"];
        for k in 0..n {
            let mut c = Client::connect(&b, b.addr(&mut rng), &format!("l{}", k), &mut rng)?;
            c.sub1(filters[if rng.chance(70) { 0 } else { rng.below(4) }]);
            c.wait_answers()?;
            if k == 0 || k + 4 > n || rng.chance(8) {
                stay.push(c);
            } else {
                go.push(c);
            }
        }
        if rng.chance(30) {
            rng.shuffle(&mut go);
        }
        let mut p: Vec<Client> = vec![];
        for k in 0..rng.range(1, 2) {
            p.push(Client::connect(&b, b.addr(&mut rng), &format!("lp{}", k), &mut rng)?);
        }
        let left = std::sync::atomic::AtomicUsize::new(go.len());
        let way = rng.below(5);
        let size = *rng.pick(&[20, 20, 200, 3000]);
        std::thread::scope(|s| {
            for p in p.iter_mut() {
                let left = &left;
                let b = &b;
                s.spawn(move || {
                    let mut more = 0;
                    while more < 3 && b.alive() {
                        if left.load(Ordering::SeqCst) == 0 {
                            more += 1;
                        }
                        let mut buf = vec![];
                        for _ in 0..60 {
                            buf.extend(p.pub_bytes("l/t", size, 0, false, false));
                        }
                        p.raw(&buf);
                        // no backlog
                        if p.barrier().is_err() {
                            break;
                        }
                    }
                });
            }
            for c in go.iter_mut() {
                std::thread::sleep(Duration::from_micros(rng.range(0, 3000) as u64));
                match if way < 3 { way } else { rng.below(3) } {
                    0 => c.reset(),
                    1 => {
                        c.mark_end();
                        c.lossy = true;
                        c.raw(&mq::DISCONNECT);
                    }
                    _ => {
                        c.mark_end();
                        c.lossy = true;
                        let _ = c.stream.shutdown(std::net::Shutdown::Both);
                    }
                }
                left.fetch_sub(1, Ordering::SeqCst);
            }
        });
        for x in p.iter_mut() {
            x.barrier()?;
        }
        for x in stay.iter_mut() {
            x.barrier()?;
        }
        r.count("subscribers leaving while their topic is published", go.len() as u64);
        let all: Vec<Client> = stay.into_iter().chain(go).chain(p).collect();
        let (_, v, _) = hist::judge(&all)?;
        Ok(v)
    };
    match go() {
        Ok(v) => {
            r.eval(seed ^ 0x1ea);
            for x in v.into_iter().filter(|x| kinds.contains(&x.kind)) {
                r.violation(&format!("leavers:{}", x.kind), x.msg, replay.clone());
            }
        }
        Err(s) => r.stop_to("leavers", s, replay),
    }
}
