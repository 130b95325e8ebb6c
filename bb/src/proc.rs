//! The real broker process: start, watch, stop.

use crate::util::*;
use std::io::Read;
use std::net::{SocketAddr, TcpStream};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

static NEXT: AtomicU32 = AtomicU32::new(1);

/// A loopback address nobody else in this run uses.
pub fn fresh_addr() -> String {
    let n = NEXT.fetch_add(1, Ordering::SeqCst);
    let p = std::process::id();
    format!("127.{}.{}.{}:{}", 1 + (p >> 2) % 250, (n >> 7) % 250, 1 + (n % 128) + (p % 2) * 100, 11883 + (p % 16) * 64)
}

pub fn scratch_root() -> PathBuf {
    std::env::var("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/tmp"))
}

pub fn scratch_dir(tag: &str) -> PathBuf {
    let n = NEXT.fetch_add(1, Ordering::SeqCst);
    let d = scratch_root().join(format!("rv-{}-{}-{}", std::process::id(), tag, n));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

pub fn broker_bin() -> String {
    std::env::var("VERIF_BROKER").expect("VERIF_BROKER")
}

#[derive(Clone)]
pub struct Opts {
    pub listeners: usize,
    pub passwd: String,
    pub threads: usize,
    /// seed, permille, max microseconds
    pub pause: Option<(u64, u64, u64)>,
    pub nofile: Option<u64>,
    pub env: Vec<(String, String)>,
    pub bin: Option<String>,
    pub log: String,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            listeners: 1,
            passwd: String::new(),
            threads: 4,
            pause: None,
            nofile: None,
            env: vec![],
            bin: None,
            log: "error".into(),
        }
    }
}

impl Opts {
    /// a random but seed-determined environment: worker threads and schedule noise
    pub fn diverse(rng: &mut Rng, listeners: usize) -> Opts {
        let pause = match rng.below(4) {
            0 => None,
            1 => Some((rng.next() >> 8, 30, 2000)),
            2 => Some((rng.next() >> 8, 200, 300)),
            _ => Some((rng.next() >> 8, 400, 50)),
        };
        Opts { listeners, threads: *rng.pick(&[1, 2, 3, 4, 8]), pause, ..Opts::default() }
    }
}

impl Opts {
    /// sometimes with everything logged: what is printed must not fail either
    pub fn chatty(mut self, rng: &mut Rng, percent: usize) -> Opts {
        if rng.chance(percent) {
            self.log = "ratelmq=trace".into();
        }
        self
    }
}

pub struct Broker {
    pub child: Mutex<Child>,
    pub pid: u32,
    pub addrs: Vec<SocketAddr>,
    pub dir: PathBuf,
    pub stderr: Arc<Mutex<Vec<u8>>>,
    reader_done: Arc<AtomicBool>,
    exit: Mutex<Option<std::process::ExitStatus>>,
    /// bytes received by all clients of this broker
    pub progress: std::sync::atomic::AtomicU64,
}

pub enum StartError {
    /// it ended instead of accepting connections
    Exited(std::process::ExitStatus, String),
    Other(String),
}

pub fn write_config(dir: &Path, addrs: &[String], passwd_path: &str) -> PathBuf {
    let l: Vec<String> = addrs.iter().map(|a| format!("{:?}", a)).collect();
    let cfg = format!(
        "[mqtt]\nlisteners_tcp = [ {} ]\n\n[authentication]\npassword_file = {:?}\n",
        l.join(", "),
        passwd_path
    );
    let p = dir.join("config.toml");
    std::fs::write(&p, cfg).unwrap();
    p
}

pub fn command(bin: &str, cfg: &Path, dir: &Path, o: &Opts) -> Command {
    let mut c = Command::new(bin);
    c.arg("-c").arg(cfg);
    c.current_dir(dir);
    c.env_clear();
    c.env("RUST_LOG", &o.log);
    c.env("TOKIO_WORKER_THREADS", o.threads.to_string());
    if let Some((a, b, m)) = o.pause {
        c.env("VERIF_PAUSE", format!("{},{},{}", a, b, m));
    }
    for (k, v) in &o.env {
        c.env(k, v);
    }
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
    let nofile = o.nofile;
    unsafe {
        c.pre_exec(move || {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if let Some(n) = nofile {
                let r = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_NOFILE, &r);
            }
            Ok(())
        });
    }
    c
}

impl Broker {
    pub fn start(o: &Opts) -> Result<Broker, String> {
        let dir = scratch_dir("broker");
        let pw = dir.join("passwd");
        std::fs::write(&pw, &o.passwd).unwrap();
        let addrs: Vec<String> = (0..o.listeners).map(|_| fresh_addr()).collect();
        let cfg = write_config(&dir, &addrs, pw.to_str().unwrap());
        match Broker::start_with(o, dir, &cfg, &addrs) {
            Ok(b) => Ok(b),
            Err(StartError::Exited(s, e)) => Err(format!("broker ended at start: {:?}: {}", s, e)),
            Err(StartError::Other(e)) => Err(e),
        }
    }

    /// Starts and waits until every address in `addrs` accepts connections.
    pub fn start_with(o: &Opts, dir: PathBuf, cfg: &Path, addrs: &[String]) -> Result<Broker, StartError> {
        let bin = o.bin.clone().unwrap_or_else(broker_bin);
        let mut child = command(&bin, cfg, &dir, o).spawn().map_err(|e| StartError::Other(format!("spawn {}: {}", bin, e)))?;
        let stderr = Arc::new(Mutex::new(Vec::new()));
        let reader_done = Arc::new(AtomicBool::new(false));
        let mut pipe = child.stderr.take().unwrap();
        {
            let stderr = stderr.clone();
            let done = reader_done.clone();
            std::thread::spawn(move || {
                let mut b = [0u8; 8192];
                while let Ok(n) = pipe.read(&mut b) {
                    if n == 0 {
                        break;
                    }
                    let mut s = stderr.lock().unwrap();
                    // repetitive error lines are of no use
                    if s.len() < 8 << 20 {
                        s.extend_from_slice(&b[..n]);
                    } else {
                        let tail = s.len() - (1 << 20);
                        let keep = s.split_off(tail);
                        let alarms = alarm_lines(&s);
                        *s = alarms.join("\n").into_bytes();
                        s.push(b'\n');
                        s.extend(keep);
                        s.extend_from_slice(&b[..n]);
                    }
                }
                done.store(true, Ordering::SeqCst);
            });
        }
        let sock: Vec<SocketAddr> = addrs.iter().map(|a| a.parse().expect("address")).collect();
        let b = Broker { pid: child.id(), child: Mutex::new(child), addrs: sock, dir, stderr, reader_done, exit: Mutex::new(None), progress: Default::default() };
        let t = Instant::now();
        let mut why = std::io::ErrorKind::Other;
        for a in b.addrs.clone() {
            loop {
                if let Some(s) = b.exited() {
                    b.settle_stderr();
                    return Err(StartError::Exited(s, b.stderr_text()));
                }
                match TcpStream::connect_timeout(&a, Duration::from_secs(2)) {
                    Ok(_) => break,
                    Err(e) => {
                        why = e.kind();
                        sleep_ms(5)
                    }
                }
                // addresses are bound one after the other and within moments
                if t.elapsed() > Duration::from_secs(if why == std::io::ErrorKind::ConnectionRefused && b.asleep() { 30 } else { 60 }) {
                    let why = if why == std::io::ErrorKind::ConnectionRefused { "refused".into() } else { format!("{}", why) };
                    return Err(StartError::Other(format!("no connection accepted on {} ({}): {}", a, why, b.stderr_text())));
                }
            }
        }
        Ok(b)
    }

    pub fn addr(&self, rng: &mut Rng) -> SocketAddr {
        *rng.pick(&self.addrs)
    }

    pub fn exited(&self) -> Option<std::process::ExitStatus> {
        let mut e = self.exit.lock().unwrap();
        if e.is_none() {
            *e = self.child.lock().unwrap().try_wait().ok().flatten();
        }
        *e
    }

    pub fn alive(&self) -> bool {
        self.exited().is_none()
    }

    pub fn settle_stderr(&self) {
        let t = Instant::now();
        while !self.reader_done.load(Ordering::SeqCst) && t.elapsed() < Duration::from_secs(3) {
            sleep_ms(5);
        }
    }

    pub fn settle_stderr_if_dead(&self) {
        if !self.alive() {
            self.settle_stderr();
        }
    }

    pub fn stderr_text(&self) -> String {
        let s = self.stderr.lock().unwrap();
        let from = s.len().saturating_sub(3000);
        String::from_utf8_lossy(&s[from..]).into_owned()
    }

    /// panics, fatal runtime errors, sanitizer reports
    pub fn alarms(&self) -> Vec<String> {
        alarm_lines(&self.stderr.lock().unwrap())
    }

    pub fn death(&self) -> Option<String> {
        self.exited().map(|s| {
            self.settle_stderr();
            format!("broker process ended: code {:?} signal {:?}; stderr: {}", s.code(), s.signal(), self.stderr_text())
        })
    }

    pub fn cpu_ticks(&self) -> u64 {
        let s = std::fs::read_to_string(format!("/proc/{}/stat", self.pid)).unwrap_or_default();
        let rest = s.rsplit(')').next().unwrap_or("");
        let f: Vec<&str> = rest.split_whitespace().collect();
        let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        g(11) + g(12)
    }

    /// every thread is sleeping
    pub fn asleep(&self) -> bool {
        let Ok(d) = std::fs::read_dir(format!("/proc/{}/task", self.pid)) else { return true };
        for t in d.flatten() {
            let s = std::fs::read_to_string(t.path().join("stat")).unwrap_or_default();
            let st = s.rsplit(')').next().unwrap_or("").trim().chars().next().unwrap_or('S');
            if st != 'S' && st != 'I' {
                return false;
            }
        }
        true
    }

    pub fn fds(&self) -> usize {
        std::fs::read_dir(format!("/proc/{}/fd", self.pid)).map(|d| d.count()).unwrap_or(0)
    }

    pub fn sockets(&self) -> usize {
        std::fs::read_dir(format!("/proc/{}/fd", self.pid))
            .map(|d| {
                d.flatten()
                    .filter(|e| std::fs::read_link(e.path()).map_or(false, |l| l.to_string_lossy().starts_with("socket:")))
                    .count()
            })
            .unwrap_or(0)
    }

    pub fn rss_kb(&self) -> u64 {
        let s = std::fs::read_to_string(format!("/proc/{}/status", self.pid)).unwrap_or_default();
        s.lines()
            .find(|l| l.starts_with("VmRSS"))
            .and_then(|l| l.split_whitespace().nth(1))
            .and_then(|x| x.parse().ok())
            .unwrap_or(0)
    }

    pub fn signal(&self, sig: i32) {
        if self.alive() {
            unsafe {
                libc::kill(self.pid as i32, sig);
            }
        }
    }

    /// the signal, to the threads that sleep in a kernel function with this in its name
    pub fn signal_thread_in(&self, wchan: &str, sig: i32) {
        let Ok(d) = std::fs::read_dir(format!("/proc/{}/task", self.pid)) else { return };
        for e in d.flatten() {
            let at = std::fs::read_to_string(e.path().join("wchan")).unwrap_or_default();
            if let (true, Ok(tid)) = (at.contains(wchan), e.file_name().to_string_lossy().parse::<i64>()) {
                if self.alive() {
                    unsafe {
                        libc::syscall(libc::SYS_tgkill, self.pid as i64, tid, sig as i64);
                    }
                }
            }
        }
    }

    pub fn wait_exit(&self, t: Duration) -> Option<std::process::ExitStatus> {
        let s = Instant::now();
        loop {
            if let Some(e) = self.exited() {
                return Some(e);
            }
            if s.elapsed() > t {
                return None;
            }
            sleep_ms(3);
        }
    }

    pub fn kill(&self) {
        if self.alive() {
            let _ = self.child.lock().unwrap().kill();
            let _ = self.wait_exit(Duration::from_secs(10));
        }
    }
}

impl Drop for Broker {
    fn drop(&mut self) {
        self.kill();
        if self.dir.file_name().map_or(false, |n| n.to_string_lossy().starts_with("rv-")) {
            let _ = std::fs::remove_dir_all(&self.dir);
        }
    }
}

pub fn alarm_lines(s: &[u8]) -> Vec<String> {
    let t = String::from_utf8_lossy(s);
    let pats = [
        "panicked at",
        "overflowed its stack",
        "fatal runtime error",
        "memory allocation of",
        "ERROR: AddressSanitizer",
        "ERROR: LeakSanitizer",
        "WARNING: ThreadSanitizer",
        "SUMMARY: ",
        "runtime error:",
    ];
    t.lines().filter(|l| pats.iter().any(|p| l.contains(p))).map(|l| l.to_string()).collect()
}

#[derive(Debug, Clone, PartialEq)]
pub enum Wait {
    Ok,
    /// the broker is up and idle, and what was waited for has not happened: it never will
    Idle,
    /// the broker burns CPU without getting there
    Spin,
    Dead(String),
    /// neither: the machine is too slow to tell
    Unknown,
}

/// Waits for `cond`. The verdict that it will not come true is not a deadline: it needs the broker to have
/// been asleep, in all its threads and without using CPU, for a sustained time (or to have used a lot
/// of CPU time on a trivial request).
pub fn wait_until(b: &Broker, mut cond: impl FnMut() -> bool) -> Wait {
    wait_until_t(b, 4.0, &mut cond)
}

pub fn wait_until_t(b: &Broker, idle_s: f64, cond: &mut dyn FnMut() -> bool) -> Wait {
    let start = Instant::now();
    let mut cpu0 = b.cpu_ticks();
    let mut moved = Instant::now();
    let mut progress = b.progress.load(Ordering::SeqCst);
    let mut quiet_since = Instant::now();
    let mut last_cpu = cpu0;
    let mut last_sample = Instant::now();
    let mut n = 0u32;
    loop {
        if cond() {
            return Wait::Ok;
        }
        n += 1;
        if n < 50 {
            std::thread::sleep(Duration::from_micros(200));
        } else {
            sleep_ms(3);
        }
        if last_sample.elapsed() > Duration::from_millis(100) {
            if let Some(d) = b.death() {
                return if cond() { Wait::Ok } else { Wait::Dead(d) };
            }
            let c = b.cpu_ticks();
            let p = b.progress.load(Ordering::SeqCst);
            if p != progress {
                progress = p;
                moved = Instant::now();
                quiet_since = moved;
                cpu0 = c;
            }
            // a busy machine may not give us samples often; only count well-sampled quiet time
            let gap = last_sample.elapsed() > Duration::from_millis(400);
            if c != last_cpu || !b.asleep() || gap {
                quiet_since = Instant::now();
            }
            last_cpu = c;
            last_sample = Instant::now();
            if quiet_since.elapsed().as_secs_f64() > idle_s {
                return if cond() { Wait::Ok } else { Wait::Idle };
            }
            if moved.elapsed() > Duration::from_secs(20) && c - cpu0 > 1500 {
                return if cond() { Wait::Ok } else { Wait::Spin };
            }
            if start.elapsed() > Duration::from_secs(180) {
                return if cond() { Wait::Ok } else { Wait::Unknown };
            }
        }
    }
}
