//! C11 C18 C19 C20 C21: credentials, settings, the password tool.

/// PHC string with cheap parameters; variant 0 argon2d, 1 argon2i, 2 argon2id
pub fn hash(password: &str, variant: usize, salt: u64) -> String {
    use argon2::password_hash::{PasswordHasher, SaltString};
    use argon2::{Algorithm, Argon2, Params, Version};
    let a = Argon2::new([Algorithm::Argon2d, Algorithm::Argon2i, Algorithm::Argon2id][variant % 3], Version::V0x13, Params::new(16, 1, 1, None).unwrap());
    let s = SaltString::b64_encode(format!("salt-{:011x}", salt & 0xfff_ffff_ffff).as_bytes()).unwrap();
    a.hash_password(password.as_bytes(), &s).unwrap().to_string()
}

use crate::client::*;
use crate::hist;
use crate::mq::{self, Connect, Rx};
use crate::proc::*;
use crate::props::protocol::start;
use crate::report::*;
use crate::util::*;
use serde_json::json;
use std::net::{Shutdown, TcpStream};
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::Duration;

pub fn verify(phc: &str, password: &str) -> bool {
    use argon2::password_hash::{PasswordHash, PasswordVerifier};
    PasswordHash::new(phc).map_or(false, |h| argon2::Argon2::default().verify_password(password.as_bytes(), &h).is_ok())
}

// ---------------------------------------------------------------- C11

fn user_names(rng: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = [
        "alice", "Alice", "alic", "alice2", "alicealice", "al ice", " alice", "alice ", "bob", "bo", "ü", "u\u{308}", "user.name", "user+name", "a$1", "root", "日本", "x\ty", "*", ".*", "[a]",
        "(", "\\", "\"q\"", "#c", "admin", "admin1",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.push("n".repeat(3000));
    v.push("n".repeat(2999));
    rng.shuffle(&mut v);
    v
}

fn passwords(rng: &mut Rng) -> String {
    match rng.below(12) {
        0 => String::new(),
        1 => " ".into(),
        2 => "a:b".into(),
        3 => "päss wörd".into(),
        4 if rng.chance(50) => {
            // around lengths that a fixed buffer or a limit may have
            let n = *rng.pick(&[8usize, 16, 32, 55, 56, 63, 64, 71, 72, 73, 127, 128, 255, 256, 511, 512, 1023, 1024]);
            (0..n).map(|_| *rng.pick(&['a', 'b', 'c', '1'])).collect()
        }
        4 => "p".repeat(rng.range(100, 4000)),
        5 => "$argon2id$v=19$m=16,t=1,p=1$c2FsdA$aaaa".into(),
        6 => "line\nbreak".into(),
        7 => "$1$0${name}\\".into(),
        8 => "Pass".into(),
        9 => "pass".into(),
        _ => {
            let n = rng.range(1, 20);
            (0..n).map(|_| *rng.pick(&['a', 'b', 'Z', '0', ' ', 'é', '$', ':', '-', '"'])).collect()
        }
    }
}

pub fn c11() -> Report {
    let r = Report::new(
        "C11",
        "random password files (related names, odd characters, all argon2 variants, corrupt hashes) and random attempts: right, other users', near misses of both, the hash itself, missing; sequential and concurrent; an evaluation is one attempt; distinct: by (user, password, entry)",
    );
    run_many(&r, 4, budget(15.0, 300.0), 6, 1 << 40, |i, seed| credentials(&r, i, seed));
    r
}

fn attempt(b: &Arc<Broker>, rng: &mut Rng, user: &str, pass: Option<&str>, id: &str) -> Result<bool, Stop> {
    let a = b.addr(rng);
    let mut c = Client::open(b, a, id, rng, None)?;
    c.split = rng.chance(20);
    c.send_connect(&Connect::new(id).creds(user, pass));
    c.wait_evs("an answer to CONNECT", |e| !e.is_empty())?;
    let first = c.with_evs(|e| e[0].k.clone());
    match first {
        K::P(Rx::ConnAck { rc: 0, .. }) => {
            c.barrier()?;
            c.bye()?;
            Ok(true)
        }
        K::P(Rx::ConnAck { rc, .. }) if rc == 4 || rc == 5 => {
            c.wait_closed()?;
            if c.n_evs() > 2 {
                return Err(Stop::Bad(format!("after a refusal: {:?}", c.evs().iter().map(|e| brief(&e.k)).collect::<Vec<_>>())));
            }
            Ok(false)
        }
        o => Err(Stop::Bad(format!("CONNECT of user {:?} was answered by {}", user, brief(&o)))),
    }
}

fn credentials(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let l = rng.range(1, 2);
    let mut o = Opts::diverse(&mut rng, l).chatty(&mut rng, 20);
    let mut names = user_names(&mut rng);
    let n = rng.range(1, 14);
    // name, password (None: nothing is right)
    let mut users: Vec<(String, Option<String>, String)> = vec![];
    for k in 0..n {
        let mut p = passwords(&mut rng);
        if k > 0 && rng.chance(35) {
            // related to an earlier user: the same password, or both together the same text
            let v: &(String, Option<String>, String) = rng.pick(&users);
            if let Some(w) = v.1.clone().filter(|w| !w.is_empty()) {
                if rng.chance(30) {
                    p = w;
                } else {
                    let c = rng.below(w.chars().count());
                    let more: String = w.chars().take(c + 1).collect();
                    let u = format!("{}{}", v.0, more);
                    if !u.contains(':') && !u.contains('\n') && u.trim() == u && u.len() < 2000 && !names.contains(&u) {
                        names[k] = u;
                    }
                }
            }
        }
        let h = hash(&p, rng.below(3), rng.next());
        if rng.chance(12) {
            let bad = match rng.below(5) {
                0 => String::new(),
                1 => "garbage".into(),
                2 => p.replace('\n', ""),
                3 => h[..h.len() - 5].to_string(),
                _ => format!("x{}", h),
            };
            // some damage may leave a valid hash of another password; that is fine, but not of this one
            users.push((names[k].clone(), None, bad));
        } else {
            users.push((names[k].clone(), Some(p), h));
        }
    }
    let mut f: Vec<String> = users.iter().map(|u| format!("{}:{}", u.0, u.2)).collect();
    rng.shuffle(&mut f);
    // the last entry of a user counts
    let mut older: Vec<(String, String)> = vec![];
    if rng.chance(40) {
        for _ in 0..rng.range(1, 3) {
            let u = rng.pick(&users).clone();
            let p = passwords(&mut rng);
            let at = f.iter().rposition(|l| *l == format!("{}:{}", u.0, u.2)).unwrap();
            let line = format!("{}:{}", u.0, if rng.chance(85) { hash(&p, rng.below(3), rng.next()) } else { "old".into() });
            f.insert(rng.below(at + 1), line);
            older.push((u.0, p));
        }
        r.count("entries overridden by a later one", older.len() as u64);
    }
    let all = if i == 3 || rng.chance(8) {
        // among many other users
        let h = hash("somebody", 1, rng.next());
        let n = rng.range(800, 6000);
        let mut all: Vec<String> = (0..n).map(|k| format!("somebody{}:{}", k, h)).collect();
        for (k, l) in f.iter().enumerate() {
            let at = if k % 2 == 0 { all.len() } else { n / 2 + k };
            all.insert(at, l.clone());
        }
        // the order of the entries of one user counts
        let rank: std::collections::HashMap<&String, usize> = f.iter().enumerate().map(|(k, l)| (l, k)).collect();
        let at: Vec<usize> = (0..all.len()).filter(|&k| rank.contains_key(&all[k])).collect();
        for (k, l) in at.into_iter().zip(&f) {
            all[k] = l.clone();
        }
        r.max("entries of a password file", all.len() as u64);
        all
    } else {
        f.clone()
    };
    o.passwd = all.join("\n");
    if rng.chance(70) {
        o.passwd.push('\n');
    }
    let Some(b) = start(r, &o) else { return };
    let replay = json!({"scenario": i, "seed": seed, "passwd": f.join("\n")});
    // attempts
    let mut tries: Vec<(String, Option<String>, bool)> = vec![];
    while tries.len() < 70 {
        let u = rng.pick(&users).clone();
        let v = rng.pick(&users).clone();
        if rng.chance(12) {
            // a right login, then others that a careless memory would take for the same
            let (name, Some(p)) = (u.0.clone(), u.1.clone()) else { continue };
            let mut seq: Vec<(String, String)> = vec![(name.clone(), p.clone())];
            for sep in ["", "", ":", "\n", " "] {
                let text = format!("{}{}{}", name, sep, p);
                // another split of the same text, preferably with an existing name
                let others: Vec<&String> = names.iter().filter(|x| text.starts_with(x.as_str()) && text[x.len()..].starts_with(sep) && **x != name).collect();
                let (a, b) = if !others.is_empty() && rng.chance(80) {
                    let x = *rng.pick(&others);
                    (x.clone(), text[x.len() + sep.len()..].to_string())
                } else {
                    let cut: Vec<usize> = text.char_indices().map(|c| c.0).chain([text.len()]).collect();
                    let c = *rng.pick(&cut);
                    if !text[c..].starts_with(sep) {
                        continue;
                    }
                    (text[..c].to_string(), text[c + sep.len()..].to_string())
                };
                seq.push((a, b));
            }
            seq.push((v.0.clone(), p.clone()));
            seq.push((name.clone(), v.1.clone().unwrap_or_default()));
            seq.push((name.clone(), p.clone() + "2"));
            seq.push((name.clone(), p.chars().take(p.chars().count().saturating_sub(1)).collect()));
            seq.push((name.clone(), p.to_uppercase()));
            seq.push((name.to_uppercase(), p.clone()));
            seq.push((p.clone(), name.clone()));
            let keep = rng.range(3, 8);
            rng.shuffle(&mut seq[1..]);
            seq.truncate(keep);
            if rng.chance(30) {
                seq.push((name, p));
            }
            for (a, b) in seq {
                if a.contains('\0') || b.contains('\0') || a.len() > 60000 || b.len() > 60000 {
                    continue;
                }
                let ok = users.iter().any(|x| x.0 == a && x.1.as_ref() == Some(&b));
                tries.push((a, Some(b), ok));
            }
            continue;
        }
        let right = u.1.clone().unwrap_or_else(|| "pass".into());
        if !older.is_empty() && rng.chance(10) {
            let (a, b) = rng.pick(&older).clone();
            let ok = users.iter().any(|x| x.0 == a && x.1.as_ref() == Some(&b));
            let now = users.iter().find(|x| x.0 == a).unwrap().1.clone();
            tries.push((a.clone(), Some(b), ok));
            tries.extend(now.map(|p| (a, Some(p), true)));
            continue;
        }
        let (user, pass): (String, Option<String>) = match rng.below(14) {
            0..=3 => (u.0.clone(), Some(right)),
            4 => (u.0.clone(), Some(v.1.clone().unwrap_or_default())),
            5 => (u.0.clone(), Some(u.2.clone())),
            6 => (u.0.clone(), None),
            7 => (u.0.clone(), Some(format!("{}{}", right, rng.pick(&[" ", "x", "\n", "1", "\0", "xyz", &right])))),
            8 if rng.chance(40) && right.chars().count() > 1 => {
                // differs in one place only
                let mut p: Vec<char> = right.chars().collect();
                let n = if rng.chance(50) { p.len() - 1 } else { rng.below(p.len()) };
                p[n] = if p[n] == 'x' { 'y' } else { 'x' };
                (u.0.clone(), Some(p.into_iter().collect()))
            }
            8 => (u.0.clone(), Some(right.chars().skip(1).collect())),
            9 => (u.0.clone(), Some(if right.to_uppercase() == right { right.to_lowercase() } else { right.to_uppercase() })),
            10 => (format!("{}{}", u.0, rng.pick(&[" ", "x", "2", ":"])), Some(right)),
            11 => (u.0.chars().take(u.0.chars().count().saturating_sub(1)).collect(), Some(right)),
            12 => (rng.pick(&names).clone(), Some(right)),
            _ => (u.0.to_uppercase(), Some(right)),
        };
        let ok = users.iter().any(|x| x.0 == user && x.1.is_some() && x.1 == pass);
        tries.push((user, pass, ok));
    }
    let threads = *rng.pick(&[1, 1, 4, 8]);
    let errs: std::sync::Mutex<Vec<Stop>> = Default::default();
    std::thread::scope(|s| {
        for chunk in tries.chunks(tries.len() / threads + 1) {
            let (b, errs, mut rng) = (&b, &errs, Rng::new(rng.next()));
            s.spawn(move || {
                for (n, (user, pass, ok)) in chunk.iter().enumerate() {
                    let id = if threads == 1 && n % 2 == 0 { "one".to_string() } else { format!("c{}", rng.next()) };
                    match attempt(b, &mut rng, user, pass.as_deref(), &id) {
                        Ok(got) if got == *ok => {
                            r.eval(hash_bytes(hash_bytes(*ok as u64, user.as_bytes()), format!("{:?}", pass).as_bytes()));
                            r.count(if *ok { "accepted" } else { "refused" }, 1);
                        }
                        Ok(got) => {
                            let show = |s: &str| s.chars().take(60).collect::<String>();
                            errs.lock().unwrap().push(Stop::Bad(format!(
                                "user {:?} with password {:?} was {} (expected: {})",
                                show(user),
                                pass.as_deref().map(show),
                                if got { "accepted" } else { "refused" },
                                if *ok { "accepted" } else { "refused" }
                            )));
                            return;
                        }
                        Err(e) => {
                            errs.lock().unwrap().push(e);
                            return;
                        }
                    }
                }
            });
        }
    });
    r.sample(json!({"scenario": i, "users": users.iter().map(|u| u.0.chars().take(20).collect::<String>()).collect::<Vec<_>>(), "threads": threads, "first attempt": format!("{:?}", tries[0]).chars().take(200).collect::<String>()}));
    if let Some(e) = errs.into_inner().unwrap().into_iter().next() {
        r.stop_to("credentials", e, replay);
    }
}

// ---------------------------------------------------------------- C18

pub fn c18() -> Report {
    let r = Report::new(
        "C18",
        "SIGINT at random moments of an idle broker, with idle, half-sent, pipelining, flooding and stalled clients, during connects and disconnects; and 32 starts that have to fail; an evaluation is one shutdown or failed start; distinct: by situation and seed",
    );
    // a broker that cannot start does not linger
    run_many(&r, 8, 0.0, 32, 32, |k, seed| bad_config(&r, k / 2 * 4 + k % 2, seed));
    run_many(&r, 4, budget(15.0, 300.0), 16, 1 << 40, |i, seed| shutdown(&r, i, seed));
    r
}

fn catches_sigint(b: &Broker) -> bool {
    let s = std::fs::read_to_string(format!("/proc/{}/status", b.pid)).unwrap_or_default();
    s.lines().find(|l| l.starts_with("SigCgt:")).and_then(|l| u64::from_str_radix(l[7..].trim(), 16).ok()).map_or(false, |m| m & 2 != 0)
}

fn shutdown(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let kind = i % 8;
    let names = ["no client", "idle clients", "flood", "half-sent packets", "subscriber that stopped reading", "connects and disconnects", "after work", "requests in flight"];
    let l = rng.range(1, 3);
    let Some(b) = start(r, &Opts::diverse(&mut rng, l).chatty(&mut rng, 20)) else { return };
    let replay = json!({"scenario": i, "seed": seed, "kind": names[kind as usize]});
    // the handler is installed once the broker is ready
    let _ = wait_until(&b, || catches_sigint(&b));
    let stop = std::sync::atomic::AtomicBool::new(false);
    let mut keep: Vec<Client> = vec![];
    let mut raw: Vec<TcpStream> = vec![];
    let res = std::thread::scope(|s| -> Result<(), Stop> {
        let res = (|| -> Result<(), Stop> {
            match kind {
                0 => {}
                1 => {
                    for k in 0..rng.range(1, 30) {
                        if k % 2 == 0 {
                            let a = b.addr(&mut rng);
                            raw.push(tcp(a, None).map_err(|e| open_error(&b, a, &e))?);
                        } else {
                            let mut c = Client::connect(&b, b.addr(&mut rng), &format!("i{}", k), &mut rng)?;
                            c.sub1("#");
                            keep.push(c);
                        }
                    }
                }
                2 | 7 => {
                    for k in 0..rng.range(2, 8) {
                        let mut c = Client::connect(&b, b.addr(&mut rng), &format!("f{}", k), &mut rng)?;
                        c.sub1("f/#");
                        let stop = &stop;
                        let mut rng = Rng::new(rng.next());
                        s.spawn(move || {
                            while !stop.load(std::sync::atomic::Ordering::SeqCst) {
                                let mut x = vec![];
                                for _ in 0..rng.range(1, 50) {
                                    x.extend(match (kind, rng.below(4)) {
                                        (7, 0) => c.sub_bytes(&[(format!("f/{}", rng.below(30)), 0)]),
                                        (7, 1) => c.unsub_bytes(&[format!("f/{}", rng.below(30))]),
                                        (7, 2) => c.ping_bytes(),
                                        _ => mq::publish(b"f/x", &payload(1, 200), 0, false, false, 0),
                                    });
                                }
                                if !c.raw(&x) {
                                    break;
                                }
                            }
                        });
                    }
                    sleep_ms(rng.range(1, 60) as u64);
                }
                3 => {
                    for _ in 0..rng.range(1, 10) {
                        let mut c = Client::connect(&b, b.addr(&mut rng), &format!("h{}", rng.next()), &mut rng)?;
                        let p = mq::publish(b"x", &payload(1, 5000), 0, false, false, 0);
                        let n = rng.range(1, p.len() - 1);
                        c.raw(&p[..n]);
                        keep.push(c);
                        let a = b.addr(&mut rng);
                        let mut t = tcp(a, None).map_err(|e| open_error(&b, a, &e))?;
                        let p = Connect::new("half").encode();
                        let _ = std::io::Write::write_all(&mut t, &p[..rng.range(1, p.len() - 1)]);
                        raw.push(t);
                    }
                }
                4 => {
                    let mut c = Client::open(&b, b.addrs[0], "stalled", &mut rng, Some(16384))?;
                    c.send_connect(&Connect::new("stalled"));
                    c.expect_accepted()?;
                    c.sub1("f/#");
                    c.wait_answers()?;
                    c.set_paused(true);
                    let mut p = Client::connect(&b, b.addrs[0], "pub", &mut rng)?;
                    let _ = p.stream.set_write_timeout(Some(Duration::from_millis(1500)));
                    for _ in 0..400 {
                        if !p.raw(&mq::publish(b"f/x", &payload(1, 60_000), 0, false, false, 0)) {
                            break;
                        }
                    }
                    keep.push(c);
                    keep.push(p);
                }
                5 => {
                    for k in 0..4 {
                        let (b, stop, mut rng) = (&b, &stop, Rng::new(rng.next()));
                        s.spawn(move || {
                            while !stop.load(std::sync::atomic::Ordering::SeqCst) {
                                let Ok(mut t) = tcp(b.addr(&mut rng), None) else { break };
                                let _ = std::io::Write::write_all(&mut t, &Connect::new(&format!("k{}", k)).encode());
                                if rng.chance(50) {
                                    set_linger_reset(&t);
                                }
                                if rng.chance(30) {
                                    let _ = std::io::Read::read(&mut t, &mut [0u8; 4]);
                                }
                            }
                        });
                    }
                    sleep_ms(rng.range(1, 40) as u64);
                }
                _ => {
                    let cfg = crate::mix::Cfg { clients: (2, 5), ops: (5, 15), sizes: 0, slow: 0, ..crate::mix::BASE };
                    keep.extend(crate::mix::run(&mut rng, &cfg, &b)?);
                }
            }
            Ok(())
        })();
        if res.is_err() {
            stop.store(true, std::sync::atomic::Ordering::SeqCst);
            return res;
        }
        b.signal(libc::SIGINT);
        let t = std::time::Instant::now();
        let st = loop {
            if let Some(s) = b.wait_exit(Duration::from_millis(200)) {
                break Some(s);
            }
            if t.elapsed() > Duration::from_secs(12) {
                // still there: stuck or slow?
                let c0 = b.cpu_ticks();
                let mut asleep = true;
                for _ in 0..30 {
                    sleep_ms(100);
                    asleep &= b.asleep();
                }
                if let Some(s) = b.exited() {
                    break Some(s);
                }
                if (asleep && b.cpu_ticks() == c0) || t.elapsed() > Duration::from_secs(60) {
                    break None;
                }
            }
        };
        stop.store(true, std::sync::atomic::Ordering::SeqCst);
        b.settle_stderr();
        match st {
            None => return Err(Stop::Stuck(format!("{} s after SIGINT ({}) the broker still runs", t.elapsed().as_secs(), names[kind as usize]))),
            Some(s) if s.code() != Some(0) => return Err(Stop::Bad(format!("after SIGINT ({}) the broker ended with {:?}: {}", names[kind as usize], s, b.stderr_text()))),
            _ => {}
        }
        if let Some(a) = b.alarms().first() {
            return Err(Stop::Bad(format!("during shutdown ({}): {}", names[kind as usize], a)));
        }
        r.max("slowest shutdown, ms", t.elapsed().as_millis() as u64);
        Ok(())
    });
    for a in &b.addrs {
        if res.is_ok() && TcpStream::connect_timeout(a, Duration::from_secs(1)).is_ok() {
            r.violation("shutdown:still-accepting", format!("{} accepts connections after the broker ended", a), replay.clone());
        }
    }
    match res {
        Ok(()) => {
            r.eval(mix64(seed));
            r.count(&format!("shutdowns: {}", names[kind as usize]), 1);
            r.sample(json!({"scenario": i, "situation": names[kind as usize], "clients": keep.len() + raw.len()}));
        }
        Err(s) => r.stop_to("shutdown", s, replay),
    }
}

// ---------------------------------------------------------------- C19

pub fn c19() -> Report {
    let r = Report::new(
        "C19",
        "random configurations: numbers and kinds of listeners, settings given by file, environment or both, lookalike variables, and damaged or incomplete configurations; an evaluation is one start of the broker; distinct: by configuration kind and content",
    );
    run_many(&r, 4, budget(15.0, 200.0), 40, 1 << 40, |i, seed| match i % 4 {
        0 if i % 8 == 4 => forms(&r, i, seed),
        0 => listeners(&r, i, seed),
        1 => env_precedence(&r, i, seed),
        _ => bad_config(&r, i, seed),
    });
    r
}

/// addresses the process listens on
fn listening(pid: u32) -> Vec<String> {
    let mut inodes = std::collections::HashSet::new();
    if let Ok(d) = std::fs::read_dir(format!("/proc/{}/fd", pid)) {
        for e in d.flatten() {
            if let Ok(l) = std::fs::read_link(e.path()) {
                let l = l.to_string_lossy().into_owned();
                if let Some(x) = l.strip_prefix("socket:[") {
                    inodes.insert(x.trim_end_matches(']').to_string());
                }
            }
        }
    }
    let mut v = vec![];
    for (f, six) in [("/proc/net/tcp", false), ("/proc/net/tcp6", true)] {
        for l in std::fs::read_to_string(f).unwrap_or_default().lines().skip(1) {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.len() > 9 && w[3] == "0A" && inodes.contains(w[9]) {
                let (ip, port) = w[1].split_once(':').unwrap();
                let port = u16::from_str_radix(port, 16).unwrap();
                if six {
                    v.push(format!("v6:{}", port));
                } else {
                    let n = u32::from_str_radix(ip, 16).unwrap().to_le_bytes();
                    v.push(format!("{}.{}.{}.{}:{}", n[0], n[1], n[2], n[3], port));
                }
            }
        }
    }
    v.sort();
    v
}

fn listeners(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let n = if rng.chance(20) { rng.range(7, 40) } else { rng.range(1, 6) };
    let o = Opts::diverse(&mut rng, n);
    let replay = json!({"scenario": i, "seed": seed, "kind": "listeners", "n": n});
    let b = match Broker::start(&o) {
        Ok(b) => Arc::new(b),
        // the broker runs, and nobody listens at an address
        Err(e) if e.contains("no connection accepted") && e.contains("refused") => return r.violation("listeners:listen", cut(&e), replay),
        Err(e) => return r.inconclusive(e),
    };
    let res = serve_all(r, &mut rng, &b, true);
    judge_listeners(r, res, replay, seed)
}

/// Addresses written in other ways than numbers of IPv4.
fn forms(r: &Report, i: u64, seed: u64) {
    use std::net::ToSocketAddrs;
    let mut rng = Rng::new(seed);
    let dir = scratch_dir("forms");
    let mut texts = vec![];
    let mut addrs: Vec<std::net::SocketAddr> = vec![];
    for _ in 0..rng.range(1, 4) {
        let port = rng.range(20000, 30000);
        let t = match rng.below(5) {
            0 => format!("localhost:{}", port),
            1 => format!("[::1]:{}", port),
            2 => format!("[::]:{}", port),
            3 => format!("0.0.0.0:{}", port),
            _ => fresh_addr(),
        };
        // what this machine makes of it
        let Some(a) = t.to_socket_addrs().ok().and_then(|mut l| l.find(|a| std::net::TcpListener::bind(a).is_ok())) else { continue };
        let mut to = a;
        if to.ip().is_unspecified() {
            to.set_ip(if to.is_ipv4() { "127.0.0.1".parse().unwrap() } else { "::1".parse().unwrap() });
        }
        if addrs.iter().any(|x| x.port() == to.port()) {
            continue;
        }
        texts.push(t);
        addrs.push(to);
    }
    if texts.is_empty() {
        let a = fresh_addr();
        addrs.push(a.parse().unwrap());
        texts.push(a);
    }
    let pw = dir.join("passwd");
    std::fs::write(&pw, "").unwrap();
    let cfg = dir.join("config.toml");
    std::fs::write(&cfg, format!("[mqtt]\nlisteners_tcp = {:?}\n[authentication]\npassword_file = {:?}\n", texts, pw.to_str().unwrap())).unwrap();
    let replay = json!({"scenario": i, "seed": seed, "kind": "forms", "listeners": texts});
    let list: Vec<String> = addrs.iter().map(|a| a.to_string()).collect();
    let b = match Broker::start_with(&Opts { threads: 2, ..Opts::default() }, dir.clone(), &cfg, &list) {
        Ok(b) => Arc::new(b),
        Err(e) => {
            let _ = std::fs::remove_dir_all(&dir);
            match e {
                StartError::Exited(_, t) if t.contains("AddrInUse") => r.inconclusive(format!("{:?}: in use", texts)),
                StartError::Exited(s, t) => r.violation("forms:start", format!("listeners {:?}: the broker ended at start with {:?}: {}", texts, s, cut(&t)), replay),
                StartError::Other(t) => r.violation("forms:listen", format!("listeners {:?}: {}", texts, cut(&t)), replay),
            }
            return;
        }
    };
    r.sample(json!({"scenario": i, "listeners": texts}));
    for t in &texts {
        r.count(if t.starts_with('[') { "IPv6 listeners" } else if t.starts_with('l') { "listeners given by name" } else { "IPv4 listeners" }, 1);
    }
    let res = serve_all(r, &mut rng, &b, false);
    judge_listeners(r, res, replay, seed)
}

fn serve_all(r: &Report, rng: &mut Rng, b: &Arc<Broker>, compare: bool) -> Result<Vec<hist::Viol>, Stop> {
    let n = b.addrs.len();
    let mut go = || -> Result<Vec<hist::Viol>, Stop> {
        let mut want: Vec<String> = b.addrs.iter().map(|a| a.to_string()).collect();
        want.sort();
        let got = if compare { listening(b.pid) } else { vec![] };
        if !got.is_empty() && got != want {
            return Err(Stop::Bad(format!("configured {:?}, listening on {:?}", want, got)));
        }
        r.count("listening sets compared", !got.is_empty() as u64);
        let mut all = vec![];
        for (k, a) in b.addrs.clone().into_iter().enumerate() {
            let mut c = Client::connect(b, a, &format!("l{}", k), rng)?;
            c.sub(&[("x/#".into(), 0), (format!("to/{}", k), 0)]);
            c.wait_answers()?;
            all.push(c);
        }
        for k in 0..n {
            for j in 0..n {
                all[k].publish(&format!("to/{}", j), 16);
            }
            all[k].publish("x/y", 16);
            all[k].barrier()?;
        }
        // an id taken over through another listener
        if n > 1 {
            let again = Client::connect(b, b.addrs[1], "l0", rng)?;
            all[0].wait_closed()?;
            all[0].ended_by_other = Some(0);
            all.push(again);
        }
        r.count("listeners", n as u64);
        let (_, v, _) = hist::judge(&all)?;
        Ok(v)
    };
    go()
}

fn judge_listeners(r: &Report, res: Result<Vec<hist::Viol>, Stop>, replay: serde_json::Value, seed: u64) {
    match res {
        Ok(v) => {
            r.eval(mix64(seed));
            for x in v {
                r.violation(&format!("listeners:{}", x.kind), x.msg, replay.clone());
            }
        }
        Err(s) => r.stop_to("listeners", s, replay),
    }
}

fn env_precedence(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let dir = scratch_dir("env");
    let addr = fresh_addr();
    let other = fresh_addr();
    let fa = dir.join("from-file");
    let fb = dir.join("from-env");
    std::fs::write(&fa, format!("file:{}\n", hash("pw", 2, 1))).unwrap();
    std::fs::write(&fb, format!("env:{}\n", hash("pw", 2, 2))).unwrap();
    let mut o = Opts { threads: 2, ..Opts::default() };
    let kind = rng.below(7);
    // paths as written: from the working directory, or absolute
    let rel = rng.chance(40);
    let written = |f: &std::path::Path| if rel { f.file_name().unwrap().to_string_lossy().into_owned() } else { f.to_string_lossy().into_owned() };
    let mut in_file = true;
    let mut wins = "file";
    let mut what = "file only";
    match kind {
        0 => {}
        1 => {
            o.env.push(("RATELMQ_AUTHENTICATION__PASSWORD_FILE".into(), written(&fb)));
            wins = "env";
            what = "file and environment";
        }
        2 => {
            o.env.push(("RATELMQ_AUTHENTICATION__PASSWORD_FILE".into(), written(&fb)));
            in_file = false;
            wins = "env";
            what = "environment only";
        }
        5 | 6 => {
            // variables of a .env file in the working directory
            let a = dir.join("from-dot-env");
            std::fs::write(&a, format!("dotenv:{}\n", hash("pw", 2, 3))).unwrap();
            std::fs::write(dir.join(".env"), format!("RATELMQ_AUTHENTICATION__PASSWORD_FILE={}\n", written(&a))).unwrap();
            wins = "dotenv";
            what = "file and .env";
            if kind == 6 {
                o.env.push(("RATELMQ_AUTHENTICATION__PASSWORD_FILE".into(), written(&fb)));
                wins = "env";
                what = "file, .env and environment";
            }
        }
        3 => {
            let n = *rng.pick(&["AUTHENTICATION__PASSWORD_FILE", "RATELMQX_AUTHENTICATION__PASSWORD_FILE", "XRATELMQ_AUTHENTICATION__PASSWORD_FILE", "RATELMQ_AUTHENTICATION__PASSWORD_FILES", "RATELMQ_PASSWORD_FILE", "MQTT_AUTHENTICATION__PASSWORD_FILE"]);
            o.env.push((n.into(), written(&fb)));
            what = "file and a lookalike variable";
        }
        _ => {
            o.env.push(("RATELMQ_MQTT__LISTENERS_TCP".into(), other.clone()));
            what = "listener by environment";
        }
    }
    let cfg_name = *rng.pick(&["config.toml", "config.toml", "ratelmq.conf", "settings", "a.b.toml", "config.json"]);
    let cfg = dir.join(cfg_name);
    let auth = if in_file { format!("[authentication]\npassword_file = {:?}\n", written(&fa)) } else { String::new() };
    std::fs::write(&cfg, format!("[mqtt]\nlisteners_tcp = [ {:?} ]\n{}", addr, auth)).unwrap();
    let replay = json!({"scenario": i, "seed": seed, "kind": what, "env": format!("{:?}", o.env)});
    let expect = if kind == 4 { other.clone() } else { addr.clone() };
    r.count(what, 1);
    let res = Broker::start_with(&o, dir.clone(), if rel { std::path::Path::new(cfg_name) } else { &cfg }, &[expect.clone()]);
    let b = match res {
        Ok(b) => Arc::new(b),
        Err(StartError::Exited(s, e)) => {
            let _ = std::fs::remove_dir_all(&dir);
            if kind == 4 && e.contains("expected a sequence") {
                r.eval(4);
                r.violation("known:env-listeners", format!("RATELMQ_MQTT__LISTENERS_TCP={} ends the broker at start", other), replay);
            } else {
                r.violation("env:start", format!("{}: the broker ended at start with {:?}: {}", what, s, e.chars().take(400).collect::<String>()), replay);
            }
            return;
        }
        Err(StartError::Other(e)) => {
            let _ = std::fs::remove_dir_all(&dir);
            if kind == 4 && TcpStream::connect(&addr as &str).is_ok() {
                r.violation("env:ignored", "the listeners of the file were used although the environment gives others".into(), replay);
            } else {
                r.inconclusive(e);
            }
            return;
        }
    };
    let go = |rng: &mut Rng| -> Result<(), Stop> {
        for u in ["file", "env", "dotenv"] {
            let got = attempt(&b, rng, u, Some("pw"), "c")?;
            if got != (u == wins) {
                return Err(Stop::Bad(format!("{}: a user of the password file given by {} was {}", what, u, if got { "accepted" } else { "refused" })));
            }
        }
        Ok(())
    };
    match go(&mut rng) {
        Ok(()) => {
            r.eval(mix64(kind as u64 * 1000 + seed % 97));
            r.sample(json!({"scenario": i, "settings": what, "env": format!("{:?}", o.env), "effective": wins}));
        }
        Err(s) => r.stop_to("env", s, replay),
    }
}

fn bad_config(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let dir = scratch_dir("bad");
    let addr = fresh_addr();
    let pw = dir.join("passwd");
    std::fs::write(&pw, format!("user:{}\n", hash("pw", 2, 1))).unwrap();
    let cfg = dir.join("config.toml");
    let mqtt = format!("[mqtt]\nlisteners_tcp = [ {:?} ]\n", addr);
    let auth = format!("[authentication]\npassword_file = {:?}\n", pw.to_str().unwrap());
    let mut path = cfg.clone();
    let mut blocker = None;
    let (what, text): (&str, Vec<u8>) = match (i / 4 * 2 + i % 2) % 16 {
        0 => ("no [authentication]", mqtt.clone().into()),
        1 => ("no [mqtt]", auth.clone().into()),
        2 => ("no listeners_tcp", format!("[mqtt]\nother = 1\n{}", auth).into()),
        3 => ("no password_file", format!("{}[authentication]\nother = 1\n", mqtt).into()),
        4 => ("empty file", vec![]),
        5 => ("not TOML", format!("{}[[[authentication\n", mqtt).into()),
        6 => {
            path = dir.join("nowhere.toml");
            ("configuration file does not exist", vec![])
        }
        7 => {
            path = dir.join("d");
            std::fs::create_dir(&path).unwrap();
            ("configuration is a directory", vec![])
        }
        8 => ("listeners_tcp is a number", format!("[mqtt]\nlisteners_tcp = 5\n{}", auth).into()),
        9 => ("password_file is a list", format!("{}[authentication]\npassword_file = [1, 2]\n", mqtt).into()),
        10 => ("password file does not exist", format!("{}[authentication]\npassword_file = {:?}\n", mqtt, dir.join("none").to_str().unwrap()).into()),
        11 => {
            std::fs::write(&pw, format!("user:{}\nno colon here\n", hash("pw", 2, 1))).unwrap();
            ("password file with an invalid line", format!("{}{}", mqtt, auth).into())
        }
        12 => {
            std::fs::write(&pw, b"user:\xff\xfe\n").unwrap();
            ("password file that is not UTF-8", format!("{}{}", mqtt, auth).into())
        }
        13 => {
            let a = fresh_addr();
            blocker = std::net::TcpListener::bind(&a as &str).ok();
            ("a second listener on an address in use", format!("[mqtt]\nlisteners_tcp = [ {:?}, {:?} ]\n{}", addr, a, auth).into())
        }
        14 => {
            let bad = *rng.pick(&["nonsense", "127.0.0.1", "127.0.0.1:99999", ":", "300.1.1.1:1883"]);
            ("a second listener with an invalid address", format!("[mqtt]\nlisteners_tcp = [ {:?}, {:?} ]\n{}", addr, bad, auth).into())
        }
        _ => ("not UTF-8", {
            let mut x = mqtt.clone().into_bytes();
            x.extend(b"# \xff\xfe\n");
            x.extend(auth.as_bytes());
            x
        }),
    };
    if path == cfg {
        std::fs::write(&cfg, &text).unwrap();
    }
    let replay = json!({"scenario": i, "seed": seed, "kind": what, "config": String::from_utf8_lossy(&text)});
    let o = Opts { threads: 2, ..Opts::default() };
    let mut child = command(&broker_bin(), &path, &dir, &o).stderr(Stdio::null()).spawn().expect("spawn");
    let t = std::time::Instant::now();
    let st = loop {
        if let Ok(Some(s)) = child.try_wait() {
            break Some(s);
        }
        if t.elapsed() > Duration::from_secs(10) {
            break None;
        }
        sleep_ms(3);
    };
    let accepts = TcpStream::connect_timeout(&addr.parse().unwrap(), Duration::from_millis(500)).is_ok();
    let _ = child.kill();
    let _ = child.wait();
    drop(blocker);
    let _ = std::fs::remove_dir_all(&dir);
    r.count(what, 1);
    match st {
        None => r.violation("bad-config:lingers", format!("{}: the broker keeps running (accepting connections: {})", what, accepts), replay),
        Some(s) if s.code() == Some(0) => r.violation("bad-config:status", format!("{}: the broker ended with status 0", what), replay),
        Some(_) if accepts => r.violation("bad-config:accepts", format!("{}: somebody accepts connections after the broker ended", what), replay),
        Some(_) => {
            r.eval(hash_bytes(i, what.as_bytes()));
            r.sample(json!({"scenario": i, "configuration": what, "ended with": format!("{:?}", st)}));
        }
    }
}

// ---------------------------------------------------------------- C20

pub fn passwd_bin() -> String {
    std::env::var("VERIF_PASSWD").expect("VERIF_PASSWD")
}

pub fn c20() -> Report {
    let r = Report::new(
        "C20",
        "random password files and random sequences of set and delete with the real tool, names related to each other or full of special characters, compared with a model after every step; then the broker is asked about every user; an evaluation is one run of the tool; distinct: by (file, name, operation)",
    );
    run_many(&r, 6, budget(15.0, 300.0), 8, 1 << 40, |i, seed| tool(&r, i, seed));
    r
}

fn lines(s: &str) -> Vec<&str> {
    let mut v: Vec<&str> = s.split('\n').collect();
    if v.last() == Some(&"") {
        v.pop();
    }
    v
}

fn tool(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let dir = scratch_dir("tool");
    let file = dir.join("passwd");
    let mut names = user_names(&mut rng);
    names.extend(["a|b", "^", "x$", "{2}", "\\d", "a.c", "abc", "(?i)abc", "ABC", "$0", "${1}", "a\u{2028}b", "\u{b}", "é", "É", "user", "user2", "myuser", "use"].iter().map(|s| s.to_string()));
    rng.shuffle(&mut names);
    names.truncate(rng.range(2, 14));
    // model: entries in order
    let mut known: std::collections::BTreeMap<String, String> = Default::default();
    let mut text = String::new();
    for n in &names {
        if rng.chance(50) {
            let p = passwords(&mut rng);
            text.push_str(&format!("{}:{}\n", n, hash(&p, rng.below(3), rng.next())));
            known.insert(n.clone(), p);
        }
    }
    let mut plain = true;
    if rng.chance(30) && !known.is_empty() {
        // several entries of one user
        let mut l: Vec<String> = lines(&text).into_iter().map(|x| x.to_string()).collect();
        for _ in 0..rng.range(1, 4) {
            let k: Vec<&String> = known.keys().collect();
            let u = (*rng.pick(&k)).clone();
            let n = rng.range(0, l.len());
            let pos = l.iter().rposition(|x| x.split_once(':').unwrap().0 == u).unwrap();
            let p = passwords(&mut rng);
            l.insert(n, format!("{}:{}", u, hash(&p, rng.below(3), rng.next())));
            if n > pos {
                known.insert(u, p);
            }
        }
        text = l.join("\n") + "\n";
    }
    match rng.below(13) {
        3 => {
            text.insert_str(0, *rng.pick(&["\n", "\n\n", " \n", "\r\n"]));
            plain = false;
        }
        0 => text = text.replace('\n', "\r\n"),
        1 => {
            // more than entries; the broker does not take such a file
            let mut l: Vec<String> = lines(&text).into_iter().map(|x| x.to_string()).collect();
            for x in ["", "# comment", "no colon", "   ", "# alice"] {
                let n = rng.range(0, l.len());
                l.insert(n, x.to_string());
            }
            text = l.join("\n") + "\n";
            plain = false;
        }
        2 => {
            for k in 0..rng.range(200, 2000) {
                text.push_str(&format!("many{}:$argon2id$v=19$m=16,t=1,p=1$c2FsdHNhbHQ$AAAA\n", k));
            }
        }
        _ => {}
    }
    if rng.chance(30) && text.ends_with('\n') {
        text.pop();
    }
    std::fs::write(&file, &text).unwrap();
    use std::os::unix::fs::{chown, MetadataExt, PermissionsExt};
    let real = file.clone();
    let _ = std::fs::set_permissions(&real, std::fs::Permissions::from_mode(*rng.pick(&[0o600, 0o640, 0o644, 0o660, 0o400])));
    if rng.chance(30) {
        let _ = chown(&real, Some(rng.range(1, 60000) as u32), Some(rng.range(1, 60000) as u32));
    }
    let file = if rng.chance(25) {
        let l = dir.join("link");
        std::os::unix::fs::symlink("passwd", &l).unwrap();
        l
    } else {
        file
    };
    let place = |t: &str| std::fs::symlink_metadata(&real).map(|m| (m.is_file(), m.permissions().mode(), m.uid(), m.gid())).map_err(|e| Stop::Bad(format!("{}: the password file: {}", t, e)));
    let mut go = || -> Result<(), Stop> {
        let placed = place("before")?;
        for step in 0..rng.range(3, 12) {
            let before = std::fs::read_to_string(&file).map_err(|e| Stop::Bad(format!("password file: {}", e)))?;
            let odd = rng.chance(10);
            let name = if odd && rng.chance(50) && before.contains('\n') {
                // text of the file around the end of a line
                let l = lines(&before);
                let k = rng.below(l.len());
                let next = l.get(k + 1).map_or("", |x| x.split(':').next().unwrap());
                match rng.below(4) {
                    0 => format!("{}\n{}", l[k], next),
                    1 => format!("\n{}", next),
                    2 => l[k].to_string(),
                    _ => format!("{}\n", l[k]),
                }
            } else if odd {
                rng.pick(&["a:b", "x\ny", "-x", "--", ""]).to_string()
            } else {
                rng.pick(&names).clone()
            };
            let del = rng.chance(35);
            let pw = passwords(&mut rng);
            let mut c = Command::new(passwd_bin());
            c.env_clear().arg("-f").arg(&file).arg(format!("--user={}", name));
            if del {
                c.arg("-d");
            } else {
                c.arg(format!("--password={}", pw));
            }
            let out = c.stdin(Stdio::null()).output().map_err(|e| Stop::Harness(e.to_string()))?;
            let after = std::fs::read_to_string(&file).map_err(|e| Stop::Bad(format!("after the tool ran, the password file: {}", e)))?;
            let short: String = name.chars().take(40).collect();
            let ctx = format!("step {}: {} user {:?}", step, if del { "delete" } else { "set" }, short);
            let now = place(&ctx)?;
            if now != placed {
                return Err(Stop::Bad(format!("{}: the file's kind, permissions and owner {:?} became {:?}", ctx, placed, now)));
            }
            if std::fs::read_to_string(&real).ok().as_ref() != Some(&after) {
                return Err(Stop::Bad(format!("{}: the file that the given link leads to was left behind", ctx)));
            }
            r.eval(hash_bytes(hash_bytes(del as u64, before.as_bytes()), name.as_bytes()));
            r.count(if del { "deletes" } else { "sets" }, 1);
            if !out.status.success() {
                // clap takes an empty value or password for a missing one
                let may_refuse = odd || name.is_empty() || (!del && pw.is_empty());
                if !may_refuse {
                    return Err(Stop::Bad(format!("{}: the tool failed: {}", ctx, String::from_utf8_lossy(&out.stderr).chars().take(300).collect::<String>())));
                }
                if after != before {
                    return Err(Stop::Bad(format!("{}: the tool failed and changed the file", ctx)));
                }
                r.count("refused by the tool", 1);
                continue;
            }
            if odd && (name.contains(':') || name.contains('\n')) {
                if after != before {
                    return Err(Stop::Bad(format!("{}: this name cannot be stored, yet the tool changed the file", ctx)));
                }
                continue;
            }
            // None: not an entry
            let of = |l: &str| l.split_once(':').map(|x| x.0.to_string());
            let name = Some(name.clone());
            let others = |t: &str| -> Vec<String> { lines(t).into_iter().filter(|l| of(l) != name).map(|l| l.to_string()).collect() };
            if others(&before) != others(&after) {
                let (b, a) = (others(&before), others(&after));
                let d = b.iter().zip(a.iter()).find(|(x, y)| x != y).map(|(x, y)| format!("{:?} became {:?}", cut(x), cut(y))).unwrap_or_else(|| format!("{} entries became {}", b.len(), a.len()));
                return Err(Stop::Bad(format!("{}: other entries changed: {}", ctx, d)));
            }
            let mine: Vec<String> = lines(&after).into_iter().filter(|l| of(l) == name).map(|l| l.to_string()).collect();
            if del {
                if !mine.is_empty() {
                    return Err(Stop::Bad(format!("{}: the entry is still there", ctx)));
                }
                known.remove(name.as_ref().unwrap());
                if !before.is_empty() && lines(&before).iter().all(|l| of(l) != name) && after != before {
                    return Err(Stop::Bad(format!("{}: deleting an unknown user changed the file", ctx)));
                }
            } else {
                let had = lines(&before).into_iter().filter(|l| of(l) == name).count();
                if mine.is_empty() || mine.len() > had.max(1) {
                    return Err(Stop::Bad(format!("{}: {} entries for the user, {} before", ctx, mine.len(), had)));
                }
                if had > 1 {
                    r.count("users with several entries", 1);
                }
                for m in &mine {
                    let h = m.split_once(':').unwrap().1;
                    if !verify(h, &pw) {
                        return Err(Stop::Bad(format!("{}: an entry {:?} does not verify the password {:?}", ctx, cut(m), cut(&pw))));
                    }
                    if let Some(old) = known.get(name.as_ref().unwrap()) {
                        if *old != pw && verify(h, old) {
                            return Err(Stop::Bad(format!("{}: the entry still verifies the old password", ctx)));
                        }
                    }
                }
                known.insert(name.clone().unwrap(), pw);
            }
            if step == 0 {
                r.sample(json!({"scenario": i, "file": cut(&before), "operation": ctx, "password": "(random)"}));
            }
        }
        // and the broker agrees
        if !plain {
            return Ok(());
        }
        let text = std::fs::read_to_string(&file).unwrap_or_default();
        let o = Opts { passwd: text.clone(), threads: 2, ..Opts::default() };
        let b = Arc::new(Broker::start(&o).map_err(|e| Stop::Bad(format!("the broker does not start with the file the tool wrote: {}", e)))?);
        for n in names.iter().take(5) {
            let want = known.get(n);
            let p = want.cloned().unwrap_or_else(|| "pass".into());
            let got = attempt(&b, &mut rng, n, Some(&p), "c")?;
            if got != want.is_some() {
                return Err(Stop::Bad(format!("the broker {} user {:?} after the tool's updates", if got { "accepts" } else { "refuses" }, cut(n))));
            }
            if want.is_some() && attempt(&b, &mut rng, n, Some(&format!("{}x", p)), "c")? {
                return Err(Stop::Bad(format!("the broker accepts a wrong password for user {:?}", cut(n))));
            }
            r.count("users checked with the broker", 1);
        }
        Ok(())
    };
    let res = go();
    let _ = std::fs::remove_dir_all(&dir);
    if let Err(s) = res {
        r.stop_to("tool", s, json!({"scenario": i, "seed": seed, "initial file": text}));
    }
}

fn cut(s: &str) -> String {
    s.chars().take(120).collect()
}

