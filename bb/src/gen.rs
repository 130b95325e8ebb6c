//! Byte sequences: valid packet streams, and what hostile or broken peers send.

use crate::mq::{self, Connect};
use crate::util::Rng;

pub fn text(rng: &mut Rng, max: usize) -> String {
    let n = match rng.below(12) {
        0 => 0,
        1 => 1,
        2 => rng.range(0, 3),
        3 => 23,
        4 => rng.range(120, 130).min(max),
        5 if max > 5000 => rng.range(4080, 4110),
        6 if max > 60000 && rng.chance(10) => 65535,
        _ => rng.range(1, 30),
    }
    .min(max);
    let pool = ['a', 'b', '/', ' ', '.', '$', 'é', '漢', '\u{10FFFF}', '\u{FEFF}', 'Z', '0', '_', '\u{7f}', '\u{80}'];
    let mut s = String::new();
    while s.len() < n {
        let c = if rng.chance(60) { 'x' } else { *rng.pick(&pool) };
        if s.len() + c.len_utf8() > n {
            s.push('y');
        } else {
            s.push(c);
        }
    }
    s
}

pub fn filter(rng: &mut Rng) -> String {
    let d = rng.range(1, 5);
    let mut l: Vec<String> = (0..d).map(|_| if rng.chance(30) { "+".into() } else { text(rng, 20).replace('/', "") }).collect();
    if rng.chance(30) {
        l.push("#".into());
    }
    let f = l.join("/");
    if f.is_empty() {
        "a".into()
    } else {
        f
    }
}

/// payload sizes around the boundaries of the length encoding and of the buffers
pub fn size(rng: &mut Rng, big: usize) -> usize {
    let s = match rng.below(20) {
        0 => 0,
        1 => 1,
        2..=5 => rng.range(100, 135),
        6 => rng.range(250, 260),
        7..=9 => rng.range(4070, 4110),
        10 => rng.range(8170, 8210),
        11 => rng.range(16360, 16400),
        12 => rng.range(65510, 65560),
        13 if rng.chance(20) => rng.range(2097120, 2097170),
        14 if rng.chance(30) => rng.range(100_000, 1_000_000),
        _ => rng.range(0, 90),
    };
    if s > big {
        rng.range(0, 200.min(big))
    } else {
        s
    }
}

pub fn valid(rng: &mut Rng, big: usize) -> Vec<u8> {
    let pid = *rng.pick(&[1u16, 2, 255, 256, 0x7fff, 0x8000, 0xffff, 0x1234]);
    match rng.below(18) {
        0..=3 => {
            let id = text(rng, if big > 60000 { 65535 } else { 300 });
            let mut c = Connect::new(&id);
            if rng.chance(15) {
                c.proto = b"MQIsdp".to_vec();
                c.level = 3;
                c.id = b"short".to_vec();
            }
            c.clean = id.is_empty() || rng.chance(70);
            c.keep_alive = *rng.pick(&[0, 1, 60, 255, 256, 65535]);
            if rng.chance(40) {
                let n = size(rng, big.min(65535));
                let t = format!("w{}", text(rng, 40));
                c.will = Some((t.into_bytes(), rng.bytes(n), rng.below(3) as u8, rng.chance(50)));
            }
            if rng.chance(60) {
                c.user = Some(text(rng, if big > 60000 { 65535 } else { 200 }).into_bytes());
                if rng.chance(70) {
                    c.pass = Some(text(rng, 200).into_bytes());
                }
            }
            c.encode()
        }
        4..=9 => {
            let q = rng.below(3) as u8;
            let t = format!("t{}", text(rng, if big > 60000 { 65534 } else { 300 }));
            let n = size(rng, big);
            let pl = rng.bytes(n);
            mq::publish(t.as_bytes(), &pl, q, rng.chance(30), q > 0 && rng.chance(30), pid)
        }
        10 | 11 => {
            let n = if rng.chance(10) { rng.range(20, 400) } else { rng.range(1, 6) };
            let f: Vec<(String, u8)> = (0..n).map(|_| (filter(rng), rng.below(3) as u8)).collect();
            mq::subscribe(pid, &f)
        }
        12 | 13 => {
            let n = if rng.chance(10) { rng.range(20, 400) } else { rng.range(1, 6) };
            let f: Vec<String> = (0..n).map(|_| filter(rng)).collect();
            mq::unsubscribe(pid, &f)
        }
        14 => mq::PINGREQ.to_vec(),
        15 => mq::DISCONNECT.to_vec(),
        _ => {
            let t = rng.range(4, 7) as u8;
            mq::packet(t << 4 | if t == 6 { 2 } else { 0 }, &pid.to_be_bytes())
        }
    }
}

fn setlen(p: &[u8], new: usize) -> Vec<u8> {
    // keeps the first byte and the body, declares another length
    let mut i = 1;
    while p[i] & 128 != 0 {
        i += 1;
    }
    let mut v = vec![p[0]];
    v.extend(mq::remaining_length(new));
    v.extend_from_slice(&p[i + 1..]);
    v
}

fn body_of(p: &[u8]) -> Vec<u8> {
    let mut i = 1;
    while p[i] & 128 != 0 {
        i += 1;
    }
    p[i + 1..].to_vec()
}

/// one packet with something wrong in it, usually
pub fn broken(rng: &mut Rng, big: usize) -> Vec<u8> {
    let mut p = valid(rng, big.min(300));
    match rng.below(16) {
        0 => p[0] ^= 1 << rng.below(4),
        1 => p[0] = rng.next() as u8,
        2 => {
            let n = body_of(&p).len();
            let d = rng.range(1, 5);
            p = setlen(&p, if rng.chance(50) { n + d } else { n.saturating_sub(d) });
        }
        3 => {
            // longer content, declared honestly
            let mut b = body_of(&p);
            let n = rng.range(1, 5);
            b.extend(rng.bytes(n));
            p = mq::packet(p[0], &b);
        }
        4 => {
            // shorter content, declared honestly
            let mut b = body_of(&p);
            let n = rng.range(1, 5).min(b.len());
            b.truncate(b.len() - n);
            p = mq::packet(p[0], &b);
        }
        5 => {
            let k = rng.range(1, 3);
            for _ in 0..k {
                let i = rng.below(p.len());
                p[i] = *rng.pick(&[0, 1, 0x7f, 0x80, 0xff, 0xc0, 0xed, b'#', b'+']);
            }
        }
        6 => {
            let i = rng.below(p.len());
            p[i] = rng.next() as u8;
        }
        7 => {
            let i = rng.below(p.len());
            p.remove(i);
        }
        8 => {
            let i = rng.below(p.len() + 1);
            p.insert(i, rng.next() as u8);
        }
        9 => {
            // over-long or unusual length fields
            let n = rng.range(1, 6);
            let mut v = vec![p[0]];
            v.extend(std::iter::repeat(0x80 | (rng.below(2) as u8) * 0x7f).take(n));
            v.push(*rng.pick(&[0, 1, 0x7f]));
            if n < 3 {
                v.extend(rng.bytes(200));
            }
            p = v;
        }
        10 => {
            // invalid UTF-8 in a topic or filter
            let bad: &[&[u8]] = &[b"\xff", b"a\xc0\x80", b"\xed\xa0\x80", b"ab\xe2\x82", b"\xf8\x88\x80\x80\x80", b"\x80", b"\xf4\x90\x80\x80"];
            let t = rng.pick(bad).to_vec();
            p = match rng.below(4) {
                0 => mq::publish(&t, b"x", rng.below(3) as u8, false, false, 1),
                1 => {
                    let mut b = vec![0, 1];
                    mq::put_str(&mut b, &t);
                    b.push(0);
                    mq::packet(0x82, &b)
                }
                2 => {
                    let mut b = vec![0, 1];
                    mq::put_str(&mut b, b"ok");
                    mq::put_str(&mut b, &t);
                    mq::packet(0xa2, &b)
                }
                _ => {
                    let mut c = Connect::new("c");
                    match rng.below(3) {
                        0 => c.id = t,
                        1 => c.user = Some(t),
                        _ => c.will = Some((t, b"m".to_vec(), 0, false)),
                    }
                    c.encode()
                }
            };
        }
        11 => {
            let t: &[&[u8]] = &[b"", b"#", b"a/+", b"a/#", b"+", b"a#b", b"/+/"];
            p = mq::publish(rng.pick(t), b"payload", rng.below(4) as u8, false, false, 1);
        }
        12 => {
            // empty lists, bad QoS bytes, cut strings
            p = match rng.below(4) {
                0 => mq::packet(0x82, &[0, 1]),
                1 => mq::packet(0xa2, &[0, 1]),
                2 => {
                    let mut b = vec![0, 1];
                    mq::put_str(&mut b, b"ok");
                    b.push(*rng.pick(&[3, 4, 0x80, 0xff, 0x10]));
                    mq::packet(0x82, &b)
                }
                _ => {
                    let mut b = vec![0, 1];
                    mq::put_str(&mut b, b"ok");
                    b.push(0);
                    let n = rng.range(1, 9);
                    b.extend(rng.bytes(n));
                    mq::packet(0x82, &b)
                }
            };
        }
        13 => {
            let mut c = Connect::new("c");
            c.user = if rng.chance(50) { Some(b"u".to_vec()) } else { None };
            c.pass = if rng.chance(50) { Some(b"p".to_vec()) } else { None };
            if rng.chance(30) {
                c.will = Some((b"w".to_vec(), b"m".to_vec(), rng.below(4) as u8, false));
            }
            match rng.below(3) {
                0 => c.level = *rng.pick(&[0, 1, 2, 3, 5, 6, 0x84, 255]),
                1 => c.proto = rng.pick(&[&b"MQTT"[..], b"mqtt", b"MQTTX", b"", b"MQIsdp", b"MQTTMQTTMQTT", b"HTTP"]).to_vec(),
                _ => {}
            }
            p = c.encode();
            if rng.chance(50) {
                // flags
                let o = 2 + 2 + c.proto.len() + 1;
                if o < p.len() {
                    p[o] = rng.next() as u8;
                }
            }
        }
        14 => {
            let n = rng.range(1, 40);
            p = rng.bytes(n);
        }
        _ => {
            let k = rng.range(1, p.len());
            p.truncate(k);
        }
    }
    p
}
