//! C26: runs of the password tool that overlap.

use super::conf::{hash, passwd_bin, verify};
use super::crash::{entries, traced, Fault};
use crate::client::Stop;
use crate::proc::scratch_dir;
use crate::report::*;
use crate::util::*;
use serde_json::json;
use std::ffi::CString;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// What one run was asked to do, and when it was under way.
#[derive(Clone, Debug)]
struct Op {
    user: String,
    /// deletes without a password
    pw: Option<String>,
    start: u64,
    end: u64,
    ok: bool,
}

impl Op {
    fn new(user: &str, pw: Option<String>) -> Op {
        Op { user: user.into(), pw, start: 0, end: u64::MAX, ok: false }
    }
    fn args(&self, file: &Path) -> Vec<String> {
        let mut v = vec![passwd_bin(), "-f".into(), file.to_str().unwrap().to_string(), format!("--user={}", self.user)];
        match &self.pw {
            Some(p) => v.push(format!("--password={}", p)),
            None => v.push("-d".into()),
        }
        v
    }
    fn spawn(&mut self, file: &Path) -> Result<Child, Stop> {
        let a = self.args(file);
        self.start = tick();
        let mut c = Command::new(&a[0]);
        c.args(&a[1..]).env_clear().stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        c.spawn().map_err(|e| Stop::Harness(e.to_string()))
    }
    fn ended(&mut self, ok: bool) {
        self.end = tick();
        self.ok = ok;
    }
}

fn name_of(l: &[u8]) -> &[u8] {
    &l[..l.iter().position(|b| *b == b':').unwrap_or(l.len())]
}

/// Is the file what the runs leave when they take effect one after another, each while it was under way? A run that
/// reported failure, or has not ended, may have taken effect or not.
fn judge(old: &[u8], now: &[u8], ops: &[Op]) -> Result<(), String> {
    let mine = |l: &[u8]| ops.iter().any(|o| o.user.as_bytes() == name_of(l));
    let others = |t: &[u8]| -> Vec<Vec<u8>> { entries(t).into_iter().filter(|l| !mine(l)).map(|l| l.to_vec()).collect() };
    let (a, b) = (others(old), others(now));
    if a != b {
        return Err(format!("of {} entries that no run was to change {} are left, or they changed ({} bytes before, {} now)", a.len(), b.len(), old.len(), now.len()));
    }
    let mut users: Vec<&str> = ops.iter().map(|o| o.user.as_str()).collect();
    users.sort();
    users.dedup();
    for u in users {
        let of_u = |t: &[u8]| -> Vec<Vec<u8>> { entries(t).into_iter().filter(|l| name_of(l) == u.as_bytes()).map(|l| l.to_vec()).collect() };
        let (before, after) = (of_u(old), of_u(now));
        let mine: Vec<&Op> = ops.iter().filter(|o| o.user == u).collect();
        let superseded = |o: &Op| mine.iter().any(|p| p.ok && p.start > o.end);
        let untouched = !mine.iter().any(|o| o.ok) && before == after;
        let by_one = mine.iter().any(|o| {
            !superseded(o)
                && match &o.pw {
                    None => after.is_empty(),
                    Some(pw) => !after.is_empty() && after.len() <= before.len().max(1) && after.iter().all(|l| verify(&String::from_utf8_lossy(&l[name_of(l).len() + 1..]), pw)),
                }
        });
        if !untouched && !by_one {
            return Err(format!(
                "user {:?} had {} entries and has {} now, which no order of the runs leads to: {}",
                u,
                before.len(),
                after.len(),
                mine.iter().map(|o| format!("{} from {} to {} ({})", if o.pw.is_some() { "set" } else { "delete" }, o.start, o.end as i64, if o.ok { "reported success" } else { "failed or unfinished" })).collect::<Vec<_>>().join(", ")
            ));
        }
    }
    Ok(())
}

struct Place {
    dir: PathBuf,
    file: PathBuf,
}

impl Drop for Place {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn place(old: &[u8]) -> Place {
    let dir = scratch_dir("overlap");
    let file = dir.join("passwd");
    std::fs::write(&file, old).unwrap();
    Place { dir, file }
}

fn file_of(n: usize, salt: u64) -> Vec<u8> {
    (0..n).map(|k| format!("user{}:{}\n", k, hash("p", 0, salt + k as u64))).collect::<String>().into_bytes()
}

/// state and CPU time of a process
fn stat(pid: u32) -> Option<(char, u64)> {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let f: Vec<&str> = s[s.rfind(')')? + 2..].split(' ').collect();
    Some((f[0].chars().next()?, f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?))
}

/// The run's end, or None once it sleeps for `calm` without using CPU time.
fn end_or_calm(c: &mut Child, calm: Duration, limit: Duration) -> Result<Option<bool>, Stop> {
    let t = Instant::now();
    let mut since = Instant::now();
    let mut last = None;
    loop {
        if let Some(s) = c.try_wait().map_err(|e| Stop::Harness(e.to_string()))? {
            return Ok(Some(s.success()));
        }
        let now = stat(c.id());
        if now != last || now.map_or(true, |s| s.0 != 'S') {
            last = now;
            since = Instant::now();
        }
        if since.elapsed() > calm {
            return Ok(None);
        }
        if t.elapsed() > limit {
            return Err(Stop::Unknown("the tool neither ended nor slept within the limit".into()));
        }
        sleep_ms(1);
    }
}

/// Nobody holds the file any more: the run has to end. All that sleep for seconds wait for ever.
fn must_end(c: &mut Child) -> Result<bool, Stop> {
    match end_or_calm(c, Duration::from_secs(5), Duration::from_secs(60))? {
        Some(ok) => Ok(ok),
        None => Err(Stop::Stuck("a run of the tool sleeps and does not end although no other run is left".into())),
    }
}

/// Run A, held (or killed) at its stop number `at`; there, other runs start, and end if they can.
struct Held {
    old: Vec<u8>,
    a: Op,
    others: Vec<Op>,
    kill: bool,
}

struct Outcome {
    stops: usize,
    /// runs that ended, and that waited, while A was held
    within: u64,
    waited: u64,
    verdict: Result<(), String>,
}

fn held(h: &Held, at: usize) -> Result<Outcome, Stop> {
    let p = place(&h.old);
    let (mut a, mut others) = (h.a.clone(), h.others.clone());
    let args: Vec<CString> = a.args(&p.file).into_iter().map(|s| CString::new(s).unwrap()).collect();
    let (mut stops, mut within, mut waited) = (0, 0, 0);
    let mut running: Vec<(usize, Child)> = vec![];
    let mut failed: Option<Stop> = None;
    a.start = tick();
    let look = |_call: usize| -> Option<String> {
        stops += 1;
        if stops != at + 1 || h.kill {
            return None;
        }
        for (i, o) in others.iter_mut().enumerate() {
            let r = o.spawn(&p.file).and_then(|mut c| end_or_calm(&mut c, Duration::from_millis(30), Duration::from_secs(30)).map(|e| (c, e)));
            match r {
                Ok((_, Some(ok))) => {
                    o.ended(ok);
                    within += 1;
                }
                Ok((c, None)) => {
                    waited += 1;
                    running.push((i, c));
                }
                Err(s) => {
                    failed = Some(s);
                    break;
                }
            }
        }
        None
    };
    let mut look = look;
    let run = traced(&args, if h.kill { at } else { usize::MAX }, if h.kill { Fault::KillAfter } else { Fault::None }, &mut look);
    let run = match run {
        Ok(r) => r,
        Err(s) => {
            for (_, c) in running.iter_mut() {
                let _ = c.kill();
                let _ = c.wait();
            }
            return Err(s);
        }
    };
    a.ended(libc::WIFEXITED(run.status) && libc::WEXITSTATUS(run.status) == 0);
    let mut stuck = None;
    for (i, mut c) in running {
        match if failed.is_some() || stuck.is_some() { Err(Stop::Unknown(String::new())) } else { must_end(&mut c) } {
            Ok(ok) => others[i].ended(ok),
            Err(s) => {
                let _ = c.kill();
                let _ = c.wait();
                stuck = Some(s);
            }
        }
    }
    if h.kill {
        // whatever the killed run left behind, the next ones take effect
        for o in others.iter_mut() {
            let mut c = o.spawn(&p.file)?;
            match must_end(&mut c) {
                Ok(ok) => o.ended(ok),
                Err(s) => {
                    let _ = c.kill();
                    let _ = c.wait();
                    return Err(s);
                }
            }
            if !o.ok {
                return Ok(Outcome { stops, within, waited, verdict: Err("a run after another one was killed failed".into()) });
            }
        }
    }
    if let Some(s) = failed.or(stuck) {
        return Err(s);
    }
    let now = std::fs::read(&p.file).map_err(|e| Stop::Bad(format!("the password file cannot be read: {}", e)))?;
    let mut ops = vec![a];
    ops.extend(others);
    Ok(Outcome { stops, within, waited, verdict: judge(&h.old, &now, &ops) })
}

fn set(u: &str, p: &str) -> Op {
    Op::new(u, Some(p.to_string()))
}

fn del(u: &str) -> Op {
    Op::new(u, None)
}

/// every place of one run at which others come between
fn systematic(r: &Report) {
    let cases: Vec<(&str, Held)> = vec![
        ("two new users", Held { old: file_of(3, 1), a: set("anna", "a"), others: vec![set("bert", "b")], kill: false }),
        ("a password and a deletion", Held { old: file_of(4, 2), a: set("user1", "a"), others: vec![del("user2")], kill: false }),
        ("a deletion and two passwords", Held { old: file_of(5, 3), a: del("user0"), others: vec![set("user3", "b"), set("carl", "c")], kill: false }),
        ("one user twice", Held { old: file_of(2, 4), a: set("user1", "a"), others: vec![set("user1", "b")], kill: false }),
        ("three runs at once", Held { old: file_of(2, 5), a: set("anna", "a"), others: vec![set("bert", "b"), del("user0"), set("anna", "c")], kill: false }),
        ("a run after one that was killed", Held { old: file_of(3, 6), a: set("user1", "a"), others: vec![set("bert", "b")], kill: true }),
    ];
    for (n, (what, h)) in cases.iter().enumerate() {
        if r.stopped() {
            return;
        }
        // the stops of a run alone
        let alone = Held { old: h.old.clone(), a: h.a.clone(), others: vec![], kill: false };
        let total = match held(&alone, usize::MAX - 1) {
            Ok(o) => match o.verdict {
                Ok(()) => o.stops,
                Err(m) => return r.violation("alone", format!("{}: {}", what, m), json!({"case": n})),
            },
            Err(s) => return r.stop_to("overlap", s, json!({"case": n})),
        };
        r.max("stops of a run", total as u64);
        if n == 0 {
            r.sample(json!({"case": what, "stops": total}));
        }
        let last = if h.kill { total / 2 } else { total };
        // the first half is the start of the process
        let places: Vec<usize> = (0..last).filter(|i| thorough() || if *i >= last / 2 { n == 0 || n == 5 || i % 3 == n % 3 } else { i % 16 == 0 }).collect();
        let next = AtomicU64::new(0);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::SeqCst) as usize;
                    if i >= places.len() || r.stopped() {
                        return;
                    }
                    let i = places[i];
                    match held(h, i) {
                        Ok(o) => {
                            r.eval(mix64((n as u64) << 32 | i as u64));
                            r.count(if h.kill { "runs after a killed run" } else { "runs held at a system call" }, 1);
                            r.count("runs that ended while another was held", o.within);
                            r.count("runs that waited for another", o.waited);
                            if let Err(m) = o.verdict {
                                r.violation("overlap", format!("{}: the first run {} at stop {} of {}: {}", what, if h.kill { "killed" } else { "held" }, i, last, m), json!({"case": n, "stop": i}));
                            }
                        }
                        Err(s) => r.stop_to("overlap", s, json!({"case": n, "stop": i})),
                    }
                });
            }
        });
        r.count(if thorough() { "cases with every stop tried" } else { "cases" }, 1);
    }
}

/// many runs at random moments, some of them stopped for a while; readers meanwhile
fn crowd(r: &Report, i: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let old = file_of(*rng.pick(&[0, 1, 5, 40, 1000]), seed);
    let users = ["user0", "user1", "user2", "anna", "bert", "Bert", "carl"];
    let n = rng.range(2, 8);
    let same = rng.chance(30);
    let mut ops: Vec<Op> = (0..n)
        .map(|k| {
            let u = if same { users[rng.below(2)] } else { users[rng.below(users.len())] };
            Op::new(u, if rng.chance(25) { None } else { Some(format!("pw-{}", k)) })
        })
        .collect();
    let p = place(&old);
    let mut waves: Vec<Vec<usize>> = vec![vec![]];
    for k in 0..n {
        if k > 0 && rng.chance(15) {
            waves.push(vec![]);
        }
        waves.last_mut().unwrap().push(k);
    }
    let mut seen: Vec<Vec<u8>> = vec![];
    let replay = json!({"scenario": i});
    for w in waves {
        let mut running: Vec<(usize, Child, Option<Instant>)> = vec![];
        let mut stuck = None;
        for k in w {
            if rng.chance(40) {
                std::thread::sleep(Duration::from_micros(rng.below(80_000) as u64));
            }
            match ops[k].spawn(&p.file) {
                Ok(c) => running.push((k, c, None)),
                Err(s) => stuck = Some(s),
            }
        }
        let t = Instant::now();
        let mut calm = Instant::now();
        let mut last: Vec<Option<(char, u64)>> = vec![];
        while !running.is_empty() && stuck.is_none() {
            // hold one for a moment
            if rng.chance(10) {
                let j = rng.below(running.len());
                if running[j].2.is_none() {
                    unsafe { libc::kill(running[j].1.id() as i32, libc::SIGSTOP) };
                    running[j].2 = Some(Instant::now() + Duration::from_millis(rng.range(1, 60) as u64));
                    r.count("runs stopped for a moment", 1);
                }
            }
            for x in running.iter_mut() {
                if x.2.map_or(false, |u| Instant::now() > u) {
                    unsafe { libc::kill(x.1.id() as i32, libc::SIGCONT) };
                    x.2 = None;
                }
            }
            let mut k = 0;
            while k < running.len() {
                match running[k].1.try_wait() {
                    Ok(Some(s)) => {
                        let x = running.swap_remove(k);
                        ops[x.0].ended(s.success());
                    }
                    _ => k += 1,
                }
            }
            // a reader, for instance a broker being started
            match std::fs::read(&p.file) {
                Ok(now) => {
                    if seen.last() != Some(&now) {
                        seen.push(now);
                    }
                }
                Err(e) => stuck = Some(Stop::Bad(format!("while runs overlap the password file cannot be read: {}", e))),
            }
            let now: Vec<_> = running.iter().map(|x| stat(x.1.id())).collect();
            if now != last || running.iter().any(|x| x.2.is_some()) || now.iter().any(|s| s.map_or(true, |s| s.0 != 'S')) {
                last = now;
                calm = Instant::now();
            }
            if calm.elapsed() > Duration::from_secs(5) {
                stuck = Some(Stop::Stuck(format!("{} runs of the tool sleep and do not end", running.len())));
            }
            if t.elapsed() > Duration::from_secs(90) {
                stuck = Some(Stop::Unknown("runs of the tool did not end within 90 s".into()));
            }
            sleep_ms(1);
        }
        for x in running.iter_mut() {
            let _ = x.1.kill();
            let _ = x.1.wait();
        }
        if let Some(s) = stuck {
            return r.stop_to("crowd", s, replay);
        }
    }
    r.eval(mix64(seed));
    r.count("runs in crowds", n as u64);
    r.count("runs in crowds that reported failure", ops.iter().filter(|o| !o.ok).count() as u64);
    r.count("different contents seen meanwhile", seen.len() as u64);
    let now = std::fs::read(&p.file).unwrap_or_default();
    if let Err(m) = judge(&old, &now, &ops) {
        return r.violation("crowd", format!("{} overlapping runs on a file of {} bytes: {}", n, old.len(), m), replay);
    }
    // any contents seen on the way consist of whole entries, and those nobody was to change
    let pending: Vec<Op> = ops.iter().map(|o| Op { ok: false, end: u64::MAX, ..o.clone() }).collect();
    for s in &seen {
        if let Err(m) = between(&old, s, &pending) {
            return r.violation("reader", format!("while {} runs overlap a reader finds: {}", n, m), replay);
        }
    }
}

/// what a reader may find while runs are under way: per user the old entries, none, or those of any run
fn between(old: &[u8], now: &[u8], ops: &[Op]) -> Result<(), String> {
    let mut users: Vec<&str> = ops.iter().map(|o| o.user.as_str()).collect();
    users.sort();
    users.dedup();
    // a deletion between two passwords leaves none for a moment
    let mut all = ops.to_vec();
    for u in users {
        if ops.iter().any(|o| o.user == u && o.pw.is_none()) || !entries(old).iter().any(|l| name_of(l) == u.as_bytes()) {
            all.push(del(u));
        }
    }
    judge(old, now, &all)
}

pub fn c26() -> Report {
    let r = Report::new(
        "C26",
        "two to four runs of the real tool on one file: the first held by ptrace before and after every one of its system calls while the others run (or wait for it), or killed there; then crowds of 2 to 8 runs at random moments, some stopped for a while, with readers; the file judged against all orders of the runs their times allow; an evaluation is one such group of runs; distinct: by (case, stop) or scenario",
    );
    systematic(&r);
    if !r.stopped() {
        run_many(&r, 4, budget(10.0, 600.0), 12, 1 << 40, |i, seed| crowd(&r, i, seed));
    }
    r
}
