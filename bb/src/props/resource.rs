//! C23 C24 C25 seen from outside: sanitizer builds under load, descriptors and memory, churn.

use super::protocol::start;
use super::robust::{hostile_conn, Canary};
use crate::client::*;
use crate::mix::{self, Cfg, BASE};
use crate::mq::{self, Connect};
use crate::proc::*;
use crate::report::*;
use crate::util::*;
use serde_json::json;
use std::io::{Read, Write};
use std::net::Shutdown;
use std::os::unix::process::ExitStatusExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

// ---------------------------------------------------------------- C23

pub fn c23() -> Report {
    let r = Report::new(
        "C23",
        "broker builds with ThreadSanitizer, with AddressSanitizer and with debug assertions under concurrent and hostile traffic, interrupts included; a sanitizer report, a failed unsafe precondition or a fatal signal is a violation; distinct: by interleaving or bytes sent",
    );
    let churn = Cfg { name: "churn", sizes: 1, clients: (4, 12), ops: (15, 50), topics: (2, 5), w: [30, 6, 20, 15, 8, 10, 3], rude: 50, burst: (5, 60), ..BASE };
    let big = Cfg { name: "sizes", sizes: 2, clients: (2, 4), ops: (8, 20), w: [40, 0, 18, 6, 10, 2, 5], slow: 5, ..BASE };
    let cfgs = [churn, BASE, big];
    run_many(&r, 3, budget(10.0, 300.0), 4, 1 << 40, |i, seed| sanitized(&r, i, seed, &cfgs[i as usize % 3]));
    r
}

pub fn memory_alarm(b: &Broker) -> Option<String> {
    b.settle_stderr_if_dead();
    let s = b.stderr.lock().unwrap().clone();
    let t = String::from_utf8_lossy(&s).into_owned();
    let pats = ["ThreadSanitizer", "AddressSanitizer", "MemorySanitizer", "LeakSanitizer", "unsafe precondition", "misaligned pointer", "null pointer dereference", "overflowed its stack", "double free", "corrupted", "free(): invalid", "malloc(): "];
    if let Some(p) = t.lines().position(|l| pats.iter().any(|p| l.contains(p))) {
        let ctx: Vec<&str> = t.lines().skip(p).take(200).collect();
        return Some(ctx.join("\n"));
    }
    if let Some(st) = b.exited() {
        if let Some(sg) = st.signal() {
            if [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT].contains(&sg) {
                return Some(format!("killed by signal {}; stderr: {}", sg, b.stderr_text()));
            }
        }
    }
    None
}

fn tsan() -> bool {
    broker_bin().contains("broker-tsan")
}

fn sanitized(r: &Report, i: u64, seed: u64, cfg: &Cfg) {
    let mut rng = Rng::new(seed);
    let mut o = Opts::diverse(&mut rng, 2);
    o.threads = *rng.pick(&[2, 4, 8]);
    if tsan() {
        // The runtime's event loop waits on one descriptor of the epoll object and registers sockets on a
        // duplicate of it, so ThreadSanitizer does not see that a registration comes before its events.
        // No code of the broker runs inside this function.
        let f = scratch_root().join(format!("tsan-suppressions-{}", std::process::id()));
        let _ = std::fs::write(&f, "race:tokio::runtime::io::driver::Driver>::turn\n");
        o.env.push(("TSAN_OPTIONS".into(), format!("halt_on_error=0 report_signal_unsafe=0 external_symbolizer_path=/usr/bin/llvm-symbolizer print_suppressions=0 suppressions={}", f.display())));
    }
    o.env.push(("ASAN_OPTIONS".into(), "detect_leaks=0 detect_stack_use_after_return=1".into()));
    o.passwd = format!("u:{}\n", super::conf::hash("p", 0, 3));
    let replay = json!({"scenario": i, "seed": seed, "broker": broker_bin()});
    let Some(b) = start(r, &o) else { return };
    let stop = AtomicBool::new(false);
    let mut fp = seed;
    let (conns, deliveries) = std::thread::scope(|s| {
        let hs: Vec<_> = (0..rng.range(1, 3))
            .map(|t| {
                let mut rng = Rng::new(rng.next());
                let (b, stop) = (&b, &stop);
                s.spawn(move || {
                    let mut n = 0u64;
                    let tb = TimeBox::secs(6.0);
                    while !stop.load(Ordering::SeqCst) && b.alive() && !tb.over() {
                        if b.sockets() > 60 {
                            sleep_ms(2);
                            continue;
                        }
                        hostile_conn(b, &mut rng, t as u64, None);
                        n += 1;
                        if rng.chance(30) {
                            if let Ok(mut s) = tcp(b.addrs[0], None) {
                                let _ = s.write_all(&Connect::new("auth").creds("u", Some(if rng.chance(50) { "p" } else { "q" })).encode());
                            }
                        }
                    }
                    n
                })
            })
            .collect();
        let mut deliveries = 0u64;
        // what others do to each other is not judged here; the traffic has to run, that is all
        if let Ok(cs) = mix::run(&mut rng, cfg, &b) {
            fp = mix::fingerprint(&cs);
            deliveries = cs.iter().map(|c| c.rx.pubs.load(Ordering::SeqCst) as u64).sum();
        }
        stop.store(true, Ordering::SeqCst);
        (hs.into_iter().map(|h| h.join().unwrap_or(0)).sum::<u64>(), deliveries)
    });
    // an interrupt in the middle of what is left
    b.signal(libc::SIGINT);
    // ThreadSanitizer hands a signal on only when the thread that got it next calls into libc, which
    // a thread asleep in a bare futex call never does: there the thread inside epoll gets it too
    let tb = TimeBox::secs(if tsan() { 8.0 } else { 60.0 });
    while b.wait_exit(Duration::from_millis(300)).is_none() && !tb.over() {
        if tsan() {
            b.signal_thread_in("epoll", libc::SIGINT);
        }
    }
    if b.exited().is_none() {
        r.count("brokers that had to be killed", 1);
        b.kill();
    }
    b.settle_stderr();
    r.count("hostile connections", conns);
    r.count("deliveries", deliveries);
    if deliveries > 0 || conns > 10 {
        r.eval(fp);
    } else {
        r.evals(1);
    }
    if let Some(a) = memory_alarm(&b) {
        if tsan() && a.contains("<null> <null>") && !a.contains(".rs:") {
            r.inconclusive("a report of ThreadSanitizer could not be given function names".into());
            return;
        }
        r.violation("sanitizer", a.chars().take(30000).collect(), replay);
    }
}

// ---------------------------------------------------------------- C24

pub fn c24() -> Report {
    let r = Report::new(
        "C24",
        "histories of connections ending in every way, after which the broker's sockets are counted; and repeated batches of cycles that carry megabytes of unique ids, filters, topics, user names, or thousands of short connections, after each of which the process's memory is measured; an evaluation is one connection or one batch; distinct: by ending and batch",
    );
    let modes = MODES.len() as u64;
    run_many(&r, 5, budget(25.0, 500.0), modes + 4, 1 << 40, |i, seed| {
        if i % 4 == 3 {
            sockets(&r, i, seed);
        } else {
            memory(&r, i, seed);
        }
    });
    r
}

fn sockets(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let l = rng.range(1, 2);
    let mut o = Opts::diverse(&mut rng, l);
    o.passwd = format!("u:{}\n", super::conf::hash("p", 0, 3));
    let replay = json!({"scenario": i, "seed": seed, "kind": "sockets"});
    let Some(b) = start(r, &o) else { return };
    let mut go = || -> Result<(), Stop> {
        // the probes of the start have been dealt with once a client is answered
        let mut first = Client::connect(&b, b.addrs[0], "first", &mut rng)?;
        first.barrier()?;
        let mut base = b.sockets();
        let w = wait_until(&b, || {
            base = base.min(b.sockets());
            base <= o.listeners + 1 + 2
        });
        let _ = w;
        base -= 1;
        drop(first);
        for round in 0..4 {
            let mut live: Vec<Client> = vec![];
            let mut kinds = vec![];
            for k in 0..rng.range(5, 30) {
                let kind = rng.below(16);
                kinds.push(kind);
                let a = b.addr(&mut rng);
                let id = format!("s{}-{}", round, k);
                let mut c = Client::open(&b, a, &id, &mut rng, None)?;
                let mut p = Connect::new(&id);
                match kind {
                    0 => {
                        c.send_connect(&p);
                        c.expect_accepted()?;
                        live.push(c);
                        continue;
                    }
                    1 => {
                        // never says anything
                        drop(c);
                        continue;
                    }
                    2 => {
                        c.raw(&p.encode()[..5]);
                        drop(c);
                        continue;
                    }
                    3 => {
                        c.raw(&mq::PINGREQ);
                        c.wait_closed()?;
                        continue;
                    }
                    4 => {
                        p = p.creds("u", Some("wrong"));
                        c.send_connect(&p);
                        c.wait_closed()?;
                        continue;
                    }
                    5 => {
                        p.level = 9;
                        c.send_connect(&p);
                        c.wait_closed()?;
                        continue;
                    }
                    6 => {
                        p = p.creds("u", Some("p"));
                    }
                    _ => {}
                }
                c.send_connect(&p);
                if rng.chance(80) {
                    c.expect_accepted()?;
                }
                if rng.chance(60) {
                    c.sub1("#");
                    for _ in 0..rng.below(4) {
                        c.publish("x", 200);
                    }
                }
                match kind {
                    7 => c.bye()?,
                    8 => c.fin()?,
                    9 => c.reset(),
                    10 => {
                        // its own end stays open: the broker has to close
                        c.raw(&mq::DISCONNECT);
                        c.wait_closed()?;
                    }
                    11 => {
                        c.raw(&Connect::new(&id).encode());
                        c.wait_closed()?;
                    }
                    12 => {
                        c.raw(&[0xff, 0xff]);
                        c.raw(&[0xff, 0xff, 0xff, 0xff]);
                        c.wait_closed()?;
                    }
                    13 => {
                        c.barrier()?;
                        let mut d = Client::connect(&b, a, &id, &mut rng)?;
                        c.wait_closed()?;
                        if rng.chance(50) {
                            d.bye()?;
                        } else {
                            live.push(d);
                        }
                    }
                    14 => {
                        // in the middle of a packet, either way
                        let x = mq::publish(b"y", &rng.bytes(5000), 0, false, false, 0);
                        c.raw(&x[..rng.range(1, 5000)]);
                        if rng.chance(50) {
                            c.reset();
                        } else {
                            c.fin()?;
                        }
                    }
                    15 => {
                        // with messages for it on the way
                        c.set_paused(true);
                        let mut q = Client::connect(&b, a, &format!("{}q", id), &mut rng)?;
                        for _ in 0..10 {
                            q.publish("x", 30000);
                        }
                        q.barrier()?;
                        c.reset();
                        q.bye()?;
                    }
                    _ => c.bye()?,
                }
            }
            let want = base + live.len();
            let mut n = 0;
            let w = wait_until(&b, || {
                n = b.sockets();
                n <= want
            });
            stop_if(w, || format!("{} sockets are open, {} are those of live connections and listeners; endings used: {:?}", n, want, kinds))?;
            if n < want {
                return Err(Stop::Bad(format!("{} sockets are open with {} live connections (and {} for the rest)", n, live.len(), base)));
            }
            for k in &kinds {
                r.eval(mix64(*k as u64));
            }
            r.count("connections ended", (kinds.len() - live.len().min(kinds.len())) as u64);
            r.count("socket counts compared", 1);
            for c in live.iter_mut() {
                c.barrier()?;
            }
        }
        Ok(())
    };
    if let Err(s) = go() {
        r.stop_to("sockets", s, replay);
    }
}

/// thousands of small connections: whatever is left behind for each of them adds up
const SHORT: [&str; 10] = ["short FIN", "short refused", "short level", "short second CONNECT", "short PUBLISH first", "short reset", "short replaced", "short no id", "short publish", "short unsubscribe"];

const MODES: [&str; 29] = [
    "ids", "filters", "deep filters", "unknown filters", "topics", "refused", "takeover", "short connections", "resubscribe", "malformed", "many filters", "reset with subscriptions", "silent", "unsubscribed and left", "delivered", "invalid filters", "pings", "small messages", "mixed traffic",
    SHORT[0], SHORT[1], SHORT[2], SHORT[3], SHORT[4], SHORT[5], SHORT[6], SHORT[7], SHORT[8], SHORT[9],
];

const MIXED: Cfg = Cfg { name: "mixed traffic", clients: (8, 12), ops: (30, 60), sizes: 0, w: [30, 3, 25, 8, 5, 20, 2], burst: (5, 30), rude: 50, slow: 5, ..BASE };

/// a connection replaced by another one with the same id, which then leaves
fn replaced_cycle(b: &Arc<Broker>, id: &str) -> std::io::Result<()> {
    let x = Connect::new(id).encode();
    let mut two = vec![];
    for _ in 0..2 {
        let mut s = tcp(b.addrs[0], None)?;
        s.set_read_timeout(Some(Duration::from_secs(60)))?;
        s.write_all(&x)?;
        let mut ack = [0u8; 4];
        s.read_exact(&mut ack)?;
        two.push(s);
    }
    two[1].write_all(&mq::DISCONNECT)?;
    for mut s in two {
        let mut rest = [0; 64];
        while s.read(&mut rest)? > 0 {}
    }
    Ok(())
}

/// one short-lived raw connection: sends everything, reads to the end
fn raw_cycle(b: &Arc<Broker>, bytes: &[u8], reset: bool, n: u64) -> std::io::Result<()> {
    // each from another address
    let from = std::net::SocketAddrV4::new(std::net::Ipv4Addr::new(127, 128 + (n >> 16) as u8 % 100, (n >> 8) as u8, n as u8), 0);
    let mut s = match tcp_from(from, b.addrs[0]) {
        Some(s) => s,
        None => tcp(b.addrs[0], None)?,
    };
    s.set_read_timeout(Some(Duration::from_secs(60)))?;
    s.set_write_timeout(Some(Duration::from_secs(60)))?;
    let _ = s.write_all(bytes);
    if reset {
        // once it has been processed
        let mut one = [0u8; 4];
        let _ = s.read_exact(&mut one);
        set_linger_reset(&s);
        return Ok(());
    }
    let _ = s.shutdown(Shutdown::Write);
    let mut rest = vec![0; 65536];
    while let Ok(n) = s.read(&mut rest) {
        if n == 0 {
            break;
        }
    }
    Ok(())
}

fn unique(n: u64, len: usize) -> String {
    let mut s = format!("{:016x}", mix64(n));
    s.push_str(&"u".repeat(len.saturating_sub(16)));
    s
}

fn memory(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    // every mode once, in order
    let k = (i / 4 * 3 + i % 4) as usize % MODES.len();
    let mode = MODES[k];
    let o = Opts {
        threads: 1,
        passwd: format!("u:{}\n", super::conf::hash("p", 0, 3)),
        // large blocks go back to the system at once: what stays resident is in use
        env: vec![("MALLOC_ARENA_MAX".into(), "1".into()), ("MALLOC_MMAP_THRESHOLD_".into(), "16384".into()), ("MALLOC_TRIM_THRESHOLD_".into(), "65536".into())],
        ..Opts::default()
    };
    let replay = json!({"scenario": i, "seed": seed, "mode": mode});
    let heap_dir = scratch_dir("heap");
    let heap_file = heap_dir.join("counts");
    let so = std::env::var("VERIF_HEAPCOUNT").unwrap_or_default();
    let mut o = o;
    if !so.is_empty() {
        std::fs::write(&heap_file, vec![0; 4096]).unwrap();
        o.env.push(("LD_PRELOAD".into(), so.clone()));
        o.env.push(("VERIF_HEAP_FILE".into(), heap_file.to_str().unwrap().into()));
    }
    let heap = || -> [i64; 2] {
        let x = std::fs::read(&heap_file).unwrap_or_default();
        let n = |k: usize| x.get(k..k + 8).map_or(0, |b| i64::from_le_bytes(b.try_into().unwrap()));
        [n(0), n(8)]
    };
    let mut held: Vec<[i64; 2]> = vec![];
    let Some(b) = start(r, &o) else { return };
    let batches = if thorough() { 12 } else { 8 };
    let mut rss: Vec<u64> = vec![];
    let mut live = match Client::connect(&b, b.addrs[0], "live", &mut rng) {
        Ok(c) => c,
        Err(e) => return r.stop_to("memory", e, replay),
    };
    let seq = AtomicU64::new(seed);
    let mut per_batch = 0u64;
    for batch in 0..batches {
        let mut bytes = 0u64;
        let mut go = |live: &mut Client| -> Result<(), Stop> {
            // (count, bytes that must not stay, per cycle)
            let (n, each): (usize, usize) = match mode {
                "short connections" | "silent" | "malformed" => (3000, 0),
                "short replaced" => (1400, 0),
                "pings" | "small messages" => (10000, 0),
                m if SHORT.contains(&m) => (3000, 0),
                "deep filters" => (30, 60000),
                "many filters" => (20, 0),
                "mixed traffic" => (0, 0),
                _ => (100, 60000),
            };
            match mode {
                "mixed traffic" => {
                    let mut rng = Rng::new(seed ^ batch);
                    drop(mix::run(&mut rng, &MIXED, &b)?);
                    bytes = 1 << 20;
                }
                "pings" | "small messages" => {
                    if mode == "small messages" && batch == 0 {
                        live.sub1("small/#");
                        live.wait_answers()?;
                    }
                    for j in 0..n {
                        if mode == "pings" {
                            live.ping();
                        } else {
                            live.publish(&format!("small/{}", j), 20);
                        }
                        if j % 500 == 499 {
                            live.barrier()?;
                            live.ops.clear();
                            live.rx.acks.store(0, Ordering::SeqCst);
                            live.rx.evs.lock().unwrap().clear();
                        }
                    }
                    bytes = n as u64 * 30;
                }
                "topics" | "unknown filters" | "resubscribe" | "delivered" | "invalid filters" => {
                    if mode == "delivered" && batch == 0 {
                        live.sub1("d/#");
                        live.wait_answers()?;
                    }
                    for j in 0..n {
                        let u = unique(seq.fetch_add(1, Ordering::SeqCst), each);
                        match mode {
                            "topics" => {
                                live.publish(&u, 100);
                            }
                            "unknown filters" => live.unsub(&[u]),
                            "delivered" => {
                                live.publish(&format!("d/{}", u), 30000);
                            }
                            "invalid filters" => live.sub1(&format!("{}/#/a", u)),
                            _ => {
                                live.sub1(&u);
                                live.unsub(&[u]);
                                if j % 2 == 0 {
                                    live.sub1("same/filter");
                                }
                            }
                        }
                        bytes += each as u64;
                        if j % 10 == 9 {
                            live.barrier()?;
                            live.ops.clear();
                            live.rx.acks.store(0, Ordering::SeqCst);
                            live.rx.evs.lock().unwrap().clear();
                        }
                    }
                    live.barrier()?;
                    live.ops.clear();
                    live.rx.acks.store(0, Ordering::SeqCst);
                    live.rx.evs.lock().unwrap().clear();
                }
                _ => {
                    let next = AtomicU64::new(0);
                    let total = AtomicU64::new(0);
                    let fail = std::sync::Mutex::new(None);
                    std::thread::scope(|s| {
                        for _ in 0..2 {
                            s.spawn(|| {
                                while (next.fetch_add(1, Ordering::SeqCst) as usize) < n {
                                    let q = seq.fetch_add(1, Ordering::SeqCst);
                                    let u = unique(q, each.max(16));
                                    let mut x;
                                    let mut reset = false;
                                    match mode {
                                        "ids" => {
                                            x = Connect::new(&u).encode();
                                            x.extend(mq::PINGREQ);
                                        }
                                        "filters" => {
                                            x = Connect::new("f").encode();
                                            x[0] = 0x10;
                                            x = Connect::new(&format!("f{}", q)).encode();
                                            x.extend(mq::subscribe(1, &[(u.clone(), 0)]));
                                        }
                                        "reset with subscriptions" => {
                                            x = Connect::new(&format!("f{}", q)).encode();
                                            x.extend(mq::subscribe(1, &[(u.clone(), 0)]));
                                            x.extend(mq::PINGREQ);
                                            reset = true;
                                        }
                                        "unsubscribed and left" => {
                                            x = Connect::new(&format!("f{}", q)).encode();
                                            x.extend(mq::subscribe(1, &[(u.clone(), 0), ("kept/one".into(), 1)]));
                                            x.extend(mq::unsubscribe(2, &[u.clone()]));
                                            x.extend(mq::DISCONNECT);
                                        }
                                        "deep filters" => {
                                            let f = format!("{:x}/{}", mix64(q), "a/".repeat(300));
                                            x = Connect::new(&format!("f{}", q)).encode();
                                            x.extend(mq::subscribe(1, &[(f, 0)]));
                                        }
                                        "many filters" => {
                                            let f: Vec<(String, u8)> = (0..500).map(|j| (unique(q * 1000 + j, 1000), 0)).collect();
                                            x = Connect::new(&format!("f{}", q)).encode();
                                            x.extend(mq::subscribe(1, &f));
                                            total.fetch_add(500_000, Ordering::SeqCst);
                                        }
                                        "refused" => {
                                            x = Connect::new(&u[..30000]).creds(&u[..30000], Some("q")).encode();
                                        }
                                        "takeover" => {
                                            // the same id again and again, with a will and subscriptions
                                            let mut c = Connect::new("same");
                                            c.will = Some((b"w".to_vec(), u.clone().into_bytes(), 0, false));
                                            x = c.encode();
                                            x.extend(mq::subscribe(1, &[(u[..30000].to_string(), 0)]));
                                            x.extend(mq::PINGREQ);
                                        }
                                        "malformed" => {
                                            x = Connect::new(&format!("m{}", q)).encode();
                                            x.extend(mq::subscribe(1, &[(format!("m/{}", q), 0)]));
                                            x.extend([0xf0, 0]);
                                        }
                                        "silent" => {
                                            x = vec![];
                                        }
                                        "short FIN" => {
                                            x = Connect::new(&u).encode();
                                            x.extend(mq::subscribe(1, &[("s/#".into(), 0), (format!("s/{}", q), 0)]));
                                        }
                                        "short refused" => {
                                            let (user, pw) = if q % 8 == 0 { ("u".to_string(), Some("wrong")) } else if q % 8 < 3 { (u.clone(), None) } else { (u.clone(), Some("p")) };
                                            x = Connect::new(&u).creds(&user, pw).encode();
                                            if q % 2 == 1 {
                                                x.extend(mq::subscribe(1, &[(u.clone(), 0)]));
                                                x.extend(mq::PINGREQ);
                                            }
                                        }
                                        "short level" => {
                                            let mut c = Connect::new(&u);
                                            c.level = 5;
                                            x = c.encode();
                                            if q % 2 == 1 {
                                                x.extend(mq::publish(u.as_bytes(), b"x", 0, false, false, 0));
                                            }
                                        }
                                        "short second CONNECT" => {
                                            x = Connect::new(&u).encode();
                                            x.extend(mq::subscribe(1, &[(format!("m/{}", q), 0)]));
                                            x.extend(Connect::new(&u).encode());
                                        }
                                        "short PUBLISH first" => {
                                            x = mq::publish(u.as_bytes(), b"x", 0, false, false, 0);
                                            x.extend(Connect::new(&u).encode());
                                        }
                                        "short reset" => {
                                            x = Connect::new(&u).encode();
                                            x.extend(mq::subscribe(1, &[(format!("m/{}", q), 0)]));
                                            reset = true;
                                        }
                                        "short no id" => {
                                            x = Connect::new("").encode();
                                            x.extend(mq::PINGREQ);
                                        }
                                        "short publish" => {
                                            x = Connect::new(&u).encode();
                                            x.extend(mq::subscribe(1, &[(format!("m/{}", q), 0)]));
                                            x.extend(mq::publish(format!("m/{}", q).as_bytes(), b"to itself", 0, true, false, 0));
                                            x.extend(mq::publish(u.as_bytes(), b"to nobody", 1, true, true, 7));
                                            x.extend(mq::DISCONNECT);
                                        }
                                        "short unsubscribe" => {
                                            x = Connect::new(&u).encode();
                                            x.extend(mq::subscribe(1, &[(format!("m/{}", q), 0), (format!("n/{}/+", q), 0)]));
                                            x.extend(mq::unsubscribe(2, &[format!("m/{}", q), format!("never/{}", q)]));
                                            x.extend(mq::DISCONNECT);
                                        }
                                        "short replaced" => {
                                            if let Err(e) = replaced_cycle(&b, &if q % 2 == 0 { u } else { format!("always {:?}", std::thread::current().id()) }) {
                                                *fail.lock().unwrap() = Some(e);
                                                return;
                                            }
                                            continue;
                                        }
                                        _ => {
                                            x = Connect::new(&format!("c{}", q)).encode();
                                            x.extend(mq::subscribe(1, &[("s/#".into(), 0), (format!("s/{}", q), 0)]));
                                            x.extend(mq::DISCONNECT);
                                        }
                                    }
                                    total.fetch_add(each as u64, Ordering::SeqCst);
                                    if let Err(e) = raw_cycle(&b, &x, reset, q) {
                                        *fail.lock().unwrap() = Some(e);
                                        return;
                                    }
                                }
                            });
                        }
                    });
                    bytes = total.load(Ordering::SeqCst);
                    if let Some(e) = fail.into_inner().unwrap() {
                        return Err(match open_error(&b, b.addrs[0], &e) {
                            Stop::Harness(m) => Stop::Unknown(format!("a cycle's connection: {}", m)),
                            s => s,
                        });
                    }
                    if mode == "deep filters" {
                        // every node of the tree takes far more than this
                        bytes = (n * 300 * 40) as u64;
                    }
                    if mode == "short replaced" {
                        bytes = n as u64 * 80;
                    } else if ["short connections", "silent", "malformed"].contains(&mode) || SHORT.contains(&mode) {
                        bytes = n as u64 * 60;
                    }
                }
            }
            live.barrier()?;
            live.ops.clear();
            live.rx.acks.store(0, Ordering::SeqCst);
            live.rx.evs.lock().unwrap().clear();
            // all connections but the live one are gone
            let w = wait_until(&b, || b.sockets() <= 1 + 1 + 3);
            stop_if(w, || format!("sockets of ended connections stay open: {}", b.sockets()))
        };
        if let Err(s) = go(&mut live) {
            return r.stop_to(&format!("memory:{}", mode), s, replay);
        }
        sleep_ms(60);
        let m = (0..5).map(|_| { sleep_ms(10); b.rss_kb() }).min().unwrap();
        rss.push(m);
        held.push((0..5).map(|_| { sleep_ms(5); heap() }).min().unwrap());
        per_batch = bytes;
        r.eval(mix64(k as u64 * 100 + batch));
        r.count("batches measured", 1);
        if r.stopped() {
            return;
        }
    }
    let _ = std::fs::remove_dir_all(&heap_dir);
    if std::env::var("VERIF_SHOW").is_ok() {
        eprintln!("{}: {:?}", mode, held);
    }
    r.max(&format!("memory after the last batch of {:?} (kB)", mode), *rss.last().unwrap());
    // steady growth in all of the last batches, by at least half of what they carried
    let last = &rss[rss.len() - 6..];
    let half = per_batch / 2 / 1024;
    let up = last.windows(2).filter(|w| w[1] >= w[0] + half.max(40)).count();
    // tables grow in steps
    let grows = up == last.len() - 1 || (up >= 3 && last[last.len() - 1] >= last[0] + half.max(60) * (last.len() as u64 - 1));
    // exact: what the process holds from malloc hardly differs between batches
    let late = &held[held.len() - 6..];
    let ups = late.windows(2).filter(|w| w[1][0] > w[0][0]).count();
    let more = late[5][0] - late[0][0];
    let blocks = late[5][1] - late[0][1];
    let step = if mode == "many filters" { 300_000 } else { 20_000 };
    if !so.is_empty() && ((ups >= 4 && more > 2000) || more > step || blocks > 200) {
        r.violation(
            &format!("held:{}", mode),
            format!("what the broker holds from malloc grows with batches of short-lived use that leave one idle connection: {} bytes and {} blocks more after the last 5; [bytes, blocks] after each batch: {:?}", more, blocks, held),
            replay,
        );
        return;
    }
    if held.iter().all(|h| h[1] > 0) {
        r.count("exact heap measurements", held.len() as u64);
    }
    if grows {
        r.violation(
            &format!("memory:{}", mode),
            format!("the broker grows by at least {} kB with every batch that carries {} kB and leaves one idle connection; resident kB after each batch: {:?}", half, per_batch / 1024, rss),
            replay,
        );
    }
}

// ---------------------------------------------------------------- C25

pub fn c25() -> Report {
    let r = Report::new(
        "C25",
        "from outside: histories in which subscriptions, sessions and publications change concurrently at a high rate; every delivery must be explained by, and every required one follow from, the acknowledged set of subscriptions and sessions; distinct: by interleaving",
    );
    let churn = Cfg { name: "core", sizes: 0, clients: (4, 10), ops: (30, 100), topics: (1, 4), w: [30, 4, 25, 25, 3, 10, 1], rude: 50, burst: (5, 40), slow: 5, pub_only: 5, ..BASE };
    run_many(&r, 4, budget(10.0, 300.0), 5, 1 << 40, |i, seed| mix::scenario(&r, i, seed, &churn, &["loss", "phantom", "dup", "order", "answers", "suback", "misrouted", "altered"], true));
    r
}

#[allow(dead_code)]
fn unused(_: Canary) {}
