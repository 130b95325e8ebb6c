//! Monitors of the codec: the real decoder and encoder run in this process.

use bb::gen;
mod same;
mod rig;

use bb::mq;
use bb::report::Report;
use bb::util::*;
use bytes::BytesMut;
use ratelmq::mqtt::packets::connack::{ConnAckPacket, ConnAckReturnCode};
use ratelmq::mqtt::packets::puback::PubAckPacket;
use ratelmq::mqtt::packets::pubcomp::PubCompPacket;
use ratelmq::mqtt::packets::pubrec::PubRecPacket;
use ratelmq::mqtt::packets::pubrel::PubRelPacket;
use ratelmq::mqtt::packets::suback::{SubAckPacket, SubAckReturnCode};
use ratelmq::mqtt::packets::unsuback::UnSubAckPacket;
use ratelmq::mqtt::packets::{ControlPacket, PublishPacket, QoS};
use bb::refdec::{self, next, D};
use same::same;
use rig::End;
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}

// ------------------------------------------------------------------ judging one byte sequence

/// what the reference says about the whole sequence
pub struct Judged {
    pub packets: Vec<refdec::RP>,
    /// from here on nothing is judged, except that it must not panic or hang
    pub open_from: Option<usize>,
    pub malformed: Option<(&'static str, usize, usize)>,
    pub incomplete: bool,
    opens: Vec<bool>,
}

pub fn reference(data: &[u8]) -> Judged {
    let mut j = Judged { packets: vec![], open_from: None, malformed: None, incomplete: false, opens: vec![] };
    let mut o = 0;
    while o < data.len() {
        match next(&data[o..]) {
            D::Packet(p, n, open) => {
                j.packets.push(p);
                j.opens.push(open);
                o += n;
            }
            D::Incomplete => {
                j.incomplete = true;
                break;
            }
            D::Malformed(why, n) => {
                j.malformed = Some((why, o, n));
                break;
            }
            D::Open(_) => {
                j.open_from = Some(j.packets.len());
                break;
            }
        }
    }
    j
}

/// None: as it should be
pub fn compare(j: &Judged, d: &rig::Decoded, shut: bool) -> Option<(String, String)> {
    for (k, p) in d.packets.iter().enumerate() {
        if k >= j.packets.len() {
            if j.open_from == Some(k) {
                return None;
            }
            return Some(match j.malformed {
                Some((why, _, _)) => (format!("malformed accepted:{}", why), format!("a packet with {} was read as {}", why, brief(p))),
                None => ("read too much".into(), format!("{} packets were complete, but another was read: {}", j.packets.len(), brief(p))),
            });
        }
        if let Err(e) = same(p, &j.packets[k]) {
            return Some(("misread".into(), format!("packet {}: {}", k + 1, e)));
        }
    }
    let n = d.packets.len();
    match &d.end {
        End::Err(e) => {
            if n < j.packets.len() && !j.opens[n] {
                return Some(("valid refused".into(), format!("packet {} was refused with {:?}: {:?}", n + 1, e, cut(format!("{:?}", j.packets[n])))));
            }
            None
        }
        End::Waits | End::Slow => {
            if n < j.packets.len() {
                if matches!(d.end, End::Waits) {
                    return Some(("held back".into(), format!("packet {} arrived completely, but the decoder waits for more: {}", n + 1, cut(format!("{:?}", j.packets[n])))));
                }
                return Some(("slow".into(), String::new()));
            }
            if let Some((why, _, _)) = j.malformed {
                return Some(("malformed waited on".into(), format!("a packet with {} arrived completely and was not refused", why)));
            }
            if shut {
                return Some(("no end".into(), "the peer closed, and the decoder still waits".into()));
            }
            None
        }
    }
}

fn cut(s: String) -> String {
    s.chars().take(300).collect()
}
fn brief(p: &ControlPacket) -> String {
    cut(format!("{:?}", p))
}

// ------------------------------------------------------------------ workers and their watchdog

struct Slot {
    tid: AtomicU64,
    started: Mutex<Option<(Instant, u64, String)>>,
}

fn cpu_of(tid: u64) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    g(11) + g(12)
}

/// Runs cases until `f` says there are no more; a case that panics or spins is a violation.
fn run_cases(r: &Arc<Report>, out: &str, f: impl Fn(u64, &tokio::runtime::Runtime, &dyn Fn(&str)) -> bool + Sync) {
    let workers = if cfg!(miri) { 1 } else { 8 };
    let next = AtomicU64::new(0);
    let slots: Arc<Vec<Slot>> = Arc::new((0..workers).map(|_| Slot { tid: AtomicU64::new(0), started: Mutex::new(None) }).collect());
    if !cfg!(miri) {
        let (slots, r, out) = (slots.clone(), r.clone(), out.to_string());
        std::thread::spawn(move || loop {
            sleep_ms(500);
            for s in slots.iter() {
                let g = s.started.lock().unwrap().clone();
                if let Some((t, cpu, what)) = g {
                    let used = cpu_of(s.tid.load(Ordering::SeqCst)).saturating_sub(cpu);
                    if t.elapsed().as_secs() > 25 && used > 2000 {
                        r.violation("spin", format!("the codec burned {} s of CPU on a trivial input and does not end", used / 100), json!({"case": what}));
                        std::fs::write(&out, r.json().to_string()).unwrap();
                        std::process::exit(0);
                    }
                }
            }
        });
    }
    let only = std::env::var("VERIF_ONLY").ok().and_then(|v| v.parse::<u64>().ok());
    std::thread::scope(|sc| {
        for w in 0..workers {
            let (slots, r, next, f) = (slots.clone(), r.clone(), &next, &f);
            sc.spawn(move || {
                let tid = if cfg!(miri) { 0 } else { unsafe { libc::syscall(libc::SYS_gettid) as u64 } };
                slots[w].tid.store(tid, Ordering::SeqCst);
                let mut rt_ = rt();
                loop {
                    let mut i = next.fetch_add(1, Ordering::SeqCst);
                    if let Some(o) = only {
                        if i > 0 {
                            return;
                        }
                        i = o;
                    }
                    if r.stopped() {
                        return;
                    }
                    let name = |n: &str| {
                        let cpu = if cfg!(miri) { 0 } else { cpu_of(tid) };
                        *slots[w].started.lock().unwrap() = Some((Instant::now(), cpu, n.to_string()));
                    };
                    name(&format!("case {}", i));
                    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(i, &rt_, &name)));
                    let what = slots[w].started.lock().unwrap().take().map(|x| x.2).unwrap_or_default();
                    match res {
                        Ok(true) => {}
                        Ok(false) => return,
                        Err(e) => {
                            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            r.violation("panic", format!("panic: {}; input: {}", m, what), json!({"case": what, "index": i}));
                            rt_ = rt();
                        }
                    }
                }
            });
        }
    });
}

fn one(r: &Report, rt: &tokio::runtime::Runtime, name: &dyn Fn(&str), i: u64, seed: u64, data: &[u8], cuts: &[usize], shut: bool, cap: usize, tcp: bool) {
    let j = reference(data);
    let shut = shut || j.incomplete || j.open_from.is_some();
    let stop_after = if shut || j.malformed.is_some() { usize::MAX } else { j.packets.len() };
    name(&format!("case {} seed {}: {}", i, seed, hex(data)));
    let d = rt.block_on(rig::decode(data, cuts, shut, cap, stop_after, tcp));
    r.count("packets decoded and compared", d.packets.len() as u64);
    if j.malformed.is_some() {
        r.count("malformed inputs", 1);
    }
    if j.incomplete {
        r.count("truncated inputs", 1);
    }
    match compare(&j, &d, shut) {
        None => {}
        Some((sig, _)) if sig == "slow" => r.inconclusive("a decode did not finish in time".into()),
        Some((sig, msg)) => r.violation(
            &sig,
            format!("{} (input {}, {} bytes, in {} pieces, read buffer {})", msg, hex(data), data.len(), cuts.len(), cap),
            json!({"case": i, "seed": seed, "input": full_hex(data), "cuts": cuts.iter().take(50).collect::<Vec<_>>()}),
        ),
    }
}

fn full_hex(b: &[u8]) -> String {
    b.iter().take(4000).map(|x| format!("{:02x}", x)).collect()
}

fn fp(data: &[u8], cuts: usize) -> u64 {
    hash_bytes(cuts as u64, data)
}

const CAPS: [usize; 8] = [4096, 4096, 4096, 4096, 4096, 4096, 1024, 8192];

// ------------------------------------------------------------------ C01

fn c01(out: &str) -> Arc<Report> {
    let r = Arc::new(Report::new("C01", "byte streams of valid packets, random fields and sizes, random segmentation, and every two-way split of fixed streams, through the real decoder; an evaluation is one stream whose packets were all compared with the reference decoding; distinct: by bytes and segmentation"));
    let tb = TimeBox::secs(budget(12.0, 400.0));
    // fixed streams, to be split everywhere
    let mut fixed: Vec<Vec<u8>> = vec![];
    let mut g = Rng::new(77);
    for n in [3usize, 4, 5, 6] {
        let mut v = vec![];
        for _ in 0..n {
            v.extend(gen::valid(&mut g, 150));
        }
        v.truncate(1200);
        fixed.push(v);
    }
    fixed.push([mq::publish(b"t", &g.bytes(4080), 0, false, false, 0), mq::publish(b"t", &g.bytes(200), 1, false, false, 9)].concat());
    let mut splits: Vec<(usize, usize)> = vec![];
    for (k, f) in fixed.iter().enumerate() {
        for o in 0..=f.len() {
            splits.push((k, o));
        }
    }
    let sizes: Vec<usize> = (0..=400).chain(3900..=4300).chain(8100..=8300).chain(16200..=16500).chain(65500..=65600).chain(2097100..=2097110).collect();
    let (ns, nz) = (splits.len() as u64, sizes.len() as u64);
    run_cases(&r, out, |i, rt, name| {
        if i < ns {
            let (k, o) = splits[i as usize];
            let d = &fixed[k];
            one(&r, rt, name, i, 0, d, &[o, d.len()], i % 2 == 0, 4096, false);
            r.eval(fp(d, o));
            return true;
        }
        if i < ns + nz {
            let n = sizes[(i - ns) as usize];
            let mut rng = Rng::new(i);
            let d = [mq::publish(b"topic", &rng.bytes(n), 0, false, false, 0), mq::PINGREQ.to_vec(), mq::publish(b"x", &rng.bytes(n / 2), 2, true, false, 3)].concat();
            let c = rig::cuts(&mut rng, d.len());
            one(&r, rt, name, i, 0, &d, &c, false, 4096, false);
            r.eval(fp(&d, c.len()));
            return true;
        }
        if i == ns + nz {
            // the largest packet there is, after others and before one
            let mut d = mq::publish(b"before", b"x", 0, false, false, 0);
            let body = vec![0xabu8; 268_435_455 - 2 - 4];
            d.extend(mq::publish(b"huge", &body, 0, false, false, 0));
            drop(body);
            d.extend(mq::publish(b"after", b"y", 0, false, false, 0));
            let n = d.len();
            one(&r, rt, name, i, 0, &d, &[3, 7, 70_000, n], false, 4096, false);
            r.eval(1);
            r.count("largest possible packets", 1);
            return true;
        }
        if !cfg!(miri) && (i == ns + nz + 1 || i == ns + nz + 2) {
            let large = i == ns + nz + 2;
            let mut rng = Rng::new(i);
            let mut d = vec![];
            for _ in 0..if large { 0 } else { 500 } {
                d.extend(gen::valid(&mut rng, 60));
            }
            if large {
                d.extend(mq::publish(b"large", &rng.bytes(32 << 20), 0, false, false, 0));
                d.extend(gen::valid(&mut rng, 60));
            }
            let j = reference(&d);
            let per = j.packets.len() as u64;
            assert!(j.malformed.is_none() && !j.incomplete && j.open_from.is_none() && per > 1);
            let reps = if large { (1u64 << 32) / d.len() as u64 + 3 } else { 1_200_000 / per };
            let bytes = reps * d.len() as u64;
            let res = rt.block_on(rig::long_decode(d, per, reps, if large { 300_000 } else { 9000 }, Rng::new(i), &mut |k, p| {
                if k % if large { 4 } else { 50_000 } == 0 {
                    name(&format!("long connection at packet {}", k));
                }
                same(&p, &j.packets[(k % per) as usize]).map_err(|e| format!("packet {} of the connection: {}", k + 1, e))
            }));
            match res {
                Ok(n) => {
                    r.count(if large { "bytes decoded on one connection" } else { "packets decoded on one connection" }, if large { bytes } else { n });
                    r.eval(i);
                }
                Err(e) => r.violation("long connection", cut(e), json!({"case": i, "large": large})),
            }
            return true;
        }
        if tb.over() {
            return false;
        }
        let seed = mix64(r.seed << 32 | i);
        let mut rng = Rng::new(seed);
        let n = if rng.chance(3) { rng.range(100, 2000) } else { rng.range(1, 40) };
        let big = if n > 100 { 20_000 } else { 3_000_000 };
        let mut d = vec![];
        for _ in 0..n {
            d.extend(gen::valid(&mut rng, big));
            if d.len() > 12_000_000 {
                break;
            }
        }
        let c = rig::cuts(&mut rng, d.len());
        let cap = *rng.pick(&CAPS);
        let shut = rng.chance(50);
        let tcp = rng.chance(5);
        if i % 97 == 0 {
            r.sample(json!({"case": i, "packets": n, "bytes": d.len(), "pieces": c.len(), "first bytes": hex(&d[..d.len().min(24)])}));
        }
        one(&r, rt, name, i, seed, &d, &c, shut, cap, tcp);
        r.count("bytes decoded", d.len() as u64);
        r.eval(fp(&d, c.len()));
        true
    });
    r
}

// ------------------------------------------------------------------ C02

fn c02(out: &str) -> Arc<Report> {
    let r = Arc::new(Report::new("C02", "all byte sequences of up to two bytes, all packets with any first byte and up to three content bytes from a small alphabet, and random mutations of valid packets between valid ones, through the real decoder; an evaluation is one sequence of which the reference decoder says what must be read and where it must be refused; distinct: by bytes"));
    let tb = TimeBox::secs(budget(15.0, 400.0));
    let alpha = [0u8, 1, 2, 3, b'a', b'#', 0x80, 0xff];
    let mut small: Vec<Vec<u8>> = vec![];
    for a in 0..=255u8 {
        small.push(vec![a]);
        for b in 0..=255u8 {
            small.push(vec![a, b]);
        }
        for n in 1..=3usize {
            for k in 0..alpha.len().pow(n as u32) {
                let mut v = vec![a, n as u8];
                let mut k = k;
                for _ in 0..n {
                    v.push(alpha[k % alpha.len()]);
                    k /= alpha.len();
                }
                small.push(v);
            }
        }
    }
    // batches of sequences per case
    const B: usize = 256;
    let nb = small.len().div_ceil(B) as u64;
    run_cases(&r, out, |i, rt, name| {
        if i < nb {
            let lo = i as usize * B;
            for d in &small[lo..(lo + B).min(small.len())] {
                one(&r, rt, name, i, 0, d, &[d.len()], false, 4096, false);
                if next(d) != D::Incomplete {
                    r.nontrivial(fp(d, 0));
                }
                if r.stopped() {
                    return false;
                }
            }
            r.evals(B as u64);
            r.count("short sequences, exhaustively", B as u64);
            return true;
        }
        if tb.over() {
            return false;
        }
        let seed = mix64(r.seed << 32 | i);
        let mut rng = Rng::new(seed);
        let mut d = vec![];
        for _ in 0..rng.below(4) {
            d.extend(gen::valid(&mut rng, 5000));
        }
        d.extend(gen::broken(&mut rng, 5000));
        // whatever follows must not be read if the packet before is malformed
        for _ in 0..rng.below(4) {
            d.extend(gen::valid(&mut rng, 300));
        }
        let c = rig::cuts(&mut rng, d.len());
        let shut = rng.chance(40);
        if i % 997 == 0 {
            let j = reference(&d);
            r.sample(json!({"case": i, "input": hex(&d), "valid packets before": j.packets.len(), "malformed": j.malformed.map(|m| m.0), "truncated": j.incomplete}));
        }
        one(&r, rt, name, i, seed, &d, &c, shut, *rng.pick(&CAPS), false);
        r.eval(fp(&d, c.len()));
        true
    });
    r
}

// ------------------------------------------------------------------ C03

fn outgoing(rng: &mut Rng, big: usize) -> (ControlPacket, Vec<u8>) {
    let pid = *rng.pick(&[0u16, 1, 255, 256, 0x7fff, 0xffff]);
    let two = |t: u8| mq::packet(t, &pid.to_be_bytes());
    match rng.below(14) {
        0 => {
            let sp = rng.chance(50);
            let codes = [
                (ConnAckReturnCode::Accepted, 0),
                (ConnAckReturnCode::UnacceptableProtocolVersion, 1),
                (ConnAckReturnCode::IdentifierRejected, 2),
                (ConnAckReturnCode::ServerUnavailable, 3),
                (ConnAckReturnCode::BadUserNameOrPassword, 4),
                (ConnAckReturnCode::NotAuthorized, 5u8),
            ];
            let (c, n) = rng.pick(&codes).clone();
            (ControlPacket::ConnAck(ConnAckPacket::new(sp, c)), vec![0x20, 2, sp as u8, n])
        }
        1 | 2 => {
            let all = [(SubAckReturnCode::SuccessQoS0, 0u8), (SubAckReturnCode::SuccessQoS1, 1), (SubAckReturnCode::SuccessQoS2, 2), (SubAckReturnCode::Failure, 0x80)];
            let n = *rng.pick(&[1usize, 2, 3, 50, 124, 125, 126, 127, 128, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 5000, 16381, 16382]);
            let cs: Vec<(SubAckReturnCode, u8)> = (0..n).map(|_| rng.pick(&all).clone()).collect();
            let mut b = pid.to_be_bytes().to_vec();
            b.extend(cs.iter().map(|c| c.1));
            (ControlPacket::SubAck(SubAckPacket::new(pid, cs.into_iter().map(|c| c.0).collect())), mq::packet(0x90, &b))
        }
        3 => (ControlPacket::UnsubAck(UnSubAckPacket::new(pid)), two(0xb0)),
        4 => (ControlPacket::PingResp, vec![0xd0, 0]),
        5 => match rng.below(4) {
            0 => (ControlPacket::PubAck(PubAckPacket::new(pid)), two(0x40)),
            1 => (ControlPacket::PubRec(PubRecPacket::new(pid)), two(0x50)),
            2 => (ControlPacket::PubRel(PubRelPacket::new(pid)), two(0x62)),
            _ => (ControlPacket::PubComp(PubCompPacket::new(pid)), two(0x70)),
        },
        _ => {
            let t = format!("t{}", gen::text(rng, if big > 60000 { 65534 } else { 5000 }));
            let n = gen::size(rng, big);
            publish(rng, &t, n, pid)
        }
    }
}

fn publish(rng: &mut Rng, t: &str, n: usize, pid: u16) -> (ControlPacket, Vec<u8>) {
    let body = rng.bytes(n);
    let q = if rng.chance(60) { 0 } else { rng.below(3) as u8 };
    let (ret, dup) = (rng.chance(20), q > 0 && rng.chance(20));
    let p = PublishPacket::new(t.to_string(), BytesMut::from(&body[..]), QoS::from_bits(q), ret, if q > 0 { Some(pid) } else { None }, dup);
    (ControlPacket::Publish(p), mq::publish(t.as_bytes(), &body, q, ret, dup, pid))
}

fn judge_encode(r: &Report, rt: &tokio::runtime::Runtime, name: &dyn Fn(&str), i: u64, seed: u64, ps: Vec<(ControlPacket, Vec<u8>)>, cap: usize, sndbuf: Option<usize>, slow: bool, tcp: bool) {
    let mut want = vec![];
    let mut bounds = vec![];
    let mut pk = vec![];
    for (p, b) in ps {
        bounds.push((want.len(), cut(format!("{:?}", p)).chars().take(80).collect::<String>()));
        want.extend(b);
        pk.push(p);
    }
    let n = pk.len();
    name(&format!("case {} seed {}: {} packets, {} bytes", i, seed, n, want.len()));
    let (got, res) = rt.block_on(rig::encode(pk, cap, want.len(), sndbuf, Rng::new(seed), slow, tcp));
    r.count("packets encoded and compared", n as u64);
    r.count("bytes compared", got.len() as u64);
    let v = |sig: &str, msg: String| r.violation(sig, msg, json!({"case": i, "seed": seed, "packets": n, "bytes": want.len(), "write buffer": cap}));
    if let Err(e) = res {
        return v("write fails", format!("write_packet: {} after {} of {} bytes", e, got.len(), want.len()));
    }
    if got == want {
        return;
    }
    let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let p = bounds.iter().rposition(|b| b.0 <= k).unwrap_or(0);
    if k == got.len() {
        v("held back", format!("only {} of {} bytes were sent when all packets were written; stopped in packet {} at its byte {}: {}", got.len(), want.len(), p + 1, k - bounds[p].0, bounds[p].1));
    } else if k == want.len() {
        v("too much", format!("{} bytes sent, {} expected", got.len(), want.len()));
    } else {
        v("wrong bytes", format!("packet {} ({}): byte {} is {:02x} instead of {:02x} ({} bytes sent, {} expected)", p + 1, bounds[p].1, k - bounds[p].0, got[k], want[k], got.len(), want.len()));
    }
}

fn c03(out: &str) -> Arc<Report> {
    let r = Arc::new(Report::new("C03", "sequences of all kinds of server packets through the real encoder on one stream, with every payload size around the buffer and length-encoding boundaries, small socket buffers and slow readers; an evaluation is one stream compared byte for byte with the reference encoding, with the stream left open; distinct: by bytes"));
    let tb = TimeBox::secs(budget(12.0, 400.0));
    let sizes: Vec<usize> = (0..=300).chain(3950..=4250).chain(8150..=8230).chain(16350..=16420).chain(65500..=65560).chain([2097140, 2097141, 2097142, 2097149, 2097150, 2097151, 2097152]).collect();
    // every size alone, after 1..n other bytes in the stream
    let nz = sizes.len() as u64;
    run_cases(&r, out, |i, rt, name| {
        if i < nz * 2 {
            let n = sizes[(i / 2) as usize];
            let mut rng = Rng::new(i);
            let mut ps = vec![publish(&mut rng, "topic", n, 1)];
            if i % 2 == 1 {
                ps.insert(0, outgoing(&mut rng, 300));
                ps.push(outgoing(&mut rng, 300));
            }
            r.eval(hash_bytes(i, &[]));
            judge_encode(&r, rt, name, i, i, ps, 4096, None, false, false);
            return true;
        }
        if i == nz * 2 {
            let body = vec![0x5au8; 268_435_455 - 2 - 4];
            let p = PublishPacket::new("huge".into(), BytesMut::from(&body[..]), QoS::AtMostOnce, false, None, false);
            let b = mq::publish(b"huge", &body, 0, false, false, 0);
            drop(body);
            r.eval(1);
            r.count("largest possible packets", 1);
            judge_encode(&r, rt, name, i, i, vec![(ControlPacket::Publish(p), b), (ControlPacket::PingResp, vec![0xd0, 0])], 4096, None, false, false);
            return true;
        }
        if !cfg!(miri) && (i == nz * 2 + 1 || i == nz * 2 + 2) {
            let large = i == nz * 2 + 2;
            let mut rng = Rng::new(i);
            let mut ps = vec![];
            for _ in 0..if large { 1 } else { 500 } {
                ps.push(outgoing(&mut rng, 60));
            }
            if large {
                ps.push(publish(&mut rng, "large", 32 << 20, 1));
            }
            let (pk, bs): (Vec<_>, Vec<_>) = ps.into_iter().unzip();
            let block = bs.concat();
            let reps = if large { (1u64 << 32) / block.len() as u64 + 3 } else { 1200 };
            let bytes = reps * block.len() as u64;
            match rt.block_on(rig::long_encode(pk, block, reps, &|| name("long connection"))) {
                Ok(n) => {
                    r.count(if large { "bytes encoded on one connection" } else { "packets encoded on one connection" }, if large { bytes } else { n });
                    r.eval(i);
                }
                Err(e) => r.violation("long connection", cut(e), json!({"case": i, "large": large})),
            }
            return true;
        }
        if tb.over() {
            return false;
        }
        let seed = mix64(r.seed << 32 | i);
        let mut rng = Rng::new(seed);
        let n = if rng.chance(5) { rng.range(100, 800) } else { rng.range(1, 30) };
        let big = if n > 100 { 5000 } else { 3_000_000 };
        let slow = rng.chance(30);
        let big = if slow { big.min(70_000) } else { big };
        let mut ps = vec![];
        let mut total = 0;
        for _ in 0..n {
            let p = outgoing(&mut rng, big);
            total += p.1.len();
            ps.push(p);
            if total > if slow { 300_000 } else { 12_000_000 } {
                break;
            }
        }
        let sb = if rng.chance(50) { Some(rng.range(1, 20000)) } else { None };
        if i % 97 == 0 {
            r.sample(json!({"case": i, "packets": ps.len(), "bytes": total, "socket buffer": sb, "slow reader": slow}));
        }
        r.eval(hash_bytes(seed, &[slow as u8]));
        let cap = *rng.pick(&CAPS);
        judge_encode(&r, rt, name, i, seed, ps, cap, sb, slow, rng.chance(5));
        true
    });
    r
}

// ------------------------------------------------------------------ C23 under an interpreter or sanitizer

fn c23(out: &str) -> Arc<Report> {
    let r = Arc::new(Report::new("C23", "codec runs (valid, malformed and segmented input; all outgoing packets) under an interpreter or sanitizer that detects undefined behaviour; an evaluation is one stream decoded or encoded to its end; distinct: by bytes"));
    r.mute.store(true, std::sync::atomic::Ordering::SeqCst);
    let tb = TimeBox::secs(budget(if cfg!(miri) { 40.0 } else { 15.0 }, 600.0));
    let n = std::env::var("VERIF_CASES").ok().and_then(|v| v.parse().ok()).unwrap_or(1u64 << 40);
    run_cases(&r, out, |i, rt, name| {
        if i >= n || (tb.over() && i > 5) {
            return false;
        }
        let seed = mix64(r.seed << 32 | i);
        let mut rng = Rng::new(seed);
        let tcp = cfg!(miri);
        if i % 3 == 2 {
            let ps: Vec<_> = (0..rng.range(1, 5)).map(|_| outgoing(&mut rng, if cfg!(miri) { 5000 } else { 200_000 })).collect();
            r.eval(hash_bytes(seed, &[]));
            judge_encode(&r, rt, name, i, seed, ps, 4096, None, false, tcp);
            return true;
        }
        let mut d = vec![];
        for _ in 0..rng.range(1, 4) {
            let b = if rng.chance(30) { 5000 } else { 200 };
            d.extend(gen::valid(&mut rng, b));
        }
        if i % 3 == 1 {
            d.extend(gen::broken(&mut rng, 300));
            d.extend(gen::valid(&mut rng, 100));
        }
        let mut c = rig::cuts(&mut rng, d.len());
        if cfg!(miri) && c.len() > 60 {
            c = vec![1, 2, d.len() / 2, d.len()];
        }
        one(&r, rt, name, i, seed, &d, &c, true, 4096, tcp);
        r.count("bytes decoded", d.len() as u64);
        r.eval(fp(&d, c.len()));
        true
    });
    r
}

fn run(prop: &str, out: &str) {
    let r = match prop {
        "C01" => c01(out),
        "C02" => c02(out),
        "C03" => c03(out),
        "C23" => c23(out),
        _ => panic!("no property {}", prop),
    };
    let s = serde_json::to_string_pretty(&r.json()).unwrap();
    if cfg!(miri) {
        println!("RESULT {}", r.json());
    } else {
        std::fs::write(out, s).unwrap();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, out) = (a[1].clone(), a[2].clone());
    if cfg!(miri) || a.get(3).map_or(false, |x| x == "child") {
        if !cfg!(miri) {
            std::panic::set_hook(Box::new(|i| eprintln!("{}", i)));
            if std::env::var("VERIF_NO_AS").is_err() {
                let l = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
                unsafe {
                    libc::setrlimit(libc::RLIMIT_AS, &l);
                }
            }
        }
        return run(&prop, &out);
    }
    // a decoder that takes the process with it (abort, stack overflow, allocation failure) is seen from here
    let res = std::process::Command::new(std::env::current_exe().unwrap()).args([&prop, &out, "child"]).stderr(std::process::Stdio::piped()).output().unwrap();
    let err = String::from_utf8_lossy(&res.stderr).into_owned();
    eprintln!("{}", err.chars().take(4000).collect::<String>());
    if !std::path::Path::new(&out).exists() {
        let r = Report::new(&prop, "the codec process");
        let tail: String = err.chars().rev().take(1500).collect::<Vec<_>>().into_iter().rev().collect();
        r.evals(1);
        use std::os::unix::process::ExitStatusExt;
        let fatal = ["Sanitizer", "unsafe precondition", "misaligned pointer", "null pointer deref", "double free", "corrupted"].iter().any(|p| err.contains(p)) || matches!(res.status.signal(), Some(4 | 7 | 8 | 11));
        if prop == "C23" && !fatal {
            r.inconclusive(format!("the process running the codec ended with {:?}: {}", res.status, tail));
            std::fs::write(&out, r.json().to_string()).unwrap();
            return;
        }
        r.violation("process died", format!("the process running the codec ended with {:?}: {}", res.status, tail), json!({"stderr": tail}));
        std::fs::write(&out, r.json().to_string()).unwrap();
    }
}
