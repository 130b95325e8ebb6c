//! A test client: writes from the driving thread, reads from its own, records everything it
//! does and sees with tickets of one global clock.

use crate::mq::{self, Connect, Rx};
use crate::proc::{wait_until, Broker, Wait};
use crate::util::*;
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::os::fd::{AsRawFd, FromRawFd};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    P(Rx),
    Eof,
    Reset,
    /// the broker sent something that is no MQTT packet
    Malformed(String),
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub t: u64,
    pub k: K,
}

pub struct RxShared {
    pub evs: Mutex<Vec<Ev>>,
    pub paused: AtomicBool,
    pub slow_us: AtomicU64,
    pub chunk: AtomicUsize,
    pub closed: AtomicBool,
    /// bytes of an incomplete packet
    pub partial: AtomicUsize,
    pub bytes: AtomicU64,
    pub acks: AtomicUsize,
    pub pubs: AtomicUsize,
    stop: AtomicBool,
}

#[derive(Clone, Debug)]
pub enum Op {
    Connect { t: u64 },
    Sub { t: u64, pid: u16, filters: Vec<(String, u8)> },
    Unsub { t: u64, pid: u16, filters: Vec<String> },
    Ping { t: u64 },
    Pub { t: u64, uid: u64, topic: String, len: usize, qos: u8, retain: bool, dup: bool },
    /// the client starts to end the connection
    End { t: u64 },
}

pub struct Client {
    pub conn: usize,
    pub id: String,
    pub stream: TcpStream,
    pub rx: Arc<RxShared>,
    pub ops: Vec<Op>,
    pub broker: Arc<Broker>,
    pub rng: Rng,
    /// split writes at random places
    pub split: bool,
    pub pid: u16,
    last_req: Option<u16>,
    npub: u64,
    /// set by a scenario when somebody else ends this connection
    pub ended_by_other: Option<u64>,
    /// reset by the client: what was in flight may be lost
    pub lossy: bool,
}

static CONNS: AtomicUsize = AtomicUsize::new(1);

pub fn payload(uid: u64, len: usize) -> Vec<u8> {
    if len < 8 {
        return vec![0x55; len];
    }
    let mut r = Rng::new(uid);
    let mut v = uid.to_be_bytes().to_vec();
    v.extend(r.bytes(len - 8));
    v
}

pub fn uid_of(payload: &[u8]) -> Option<u64> {
    if payload.len() < 8 {
        None
    } else {
        Some(u64::from_be_bytes(payload[..8].try_into().unwrap()))
    }
}

/// Connects, with the receive buffer set before (as it must be).
pub fn tcp(addr: SocketAddr, rcvbuf: Option<usize>) -> std::io::Result<TcpStream> {
    let Some(n) = rcvbuf else {
        return TcpStream::connect_timeout(&addr, Duration::from_secs(30));
    };
    unsafe {
        let v4 = addr.is_ipv4();
        let fd = libc::socket(if v4 { libc::AF_INET } else { libc::AF_INET6 }, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return Err(std::io::Error::last_os_error());
        }
        let s = TcpStream::from_raw_fd(fd);
        let v = n as libc::c_int;
        libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_RCVBUF, &v as *const _ as *const _, 4);
        let r = match addr {
            SocketAddr::V4(a) => {
                let mut sa: libc::sockaddr_in = std::mem::zeroed();
                sa.sin_family = libc::AF_INET as u16;
                sa.sin_port = a.port().to_be();
                sa.sin_addr.s_addr = u32::from_ne_bytes(a.ip().octets());
                libc::connect(fd, &sa as *const _ as *const _, std::mem::size_of_val(&sa) as u32)
            }
            SocketAddr::V6(_) => -1,
        };
        if r != 0 {
            return Err(std::io::Error::last_os_error());
        }
        Ok(s)
    }
}

/// Connects from the given address; None where that address is taken.
pub fn tcp_from(from: std::net::SocketAddrV4, addr: SocketAddr) -> Option<TcpStream> {
    let SocketAddr::V4(to) = addr else { return None };
    let sa = |a: std::net::SocketAddrV4| unsafe {
        let mut sa: libc::sockaddr_in = std::mem::zeroed();
        sa.sin_family = libc::AF_INET as u16;
        sa.sin_port = a.port().to_be();
        sa.sin_addr.s_addr = u32::from_ne_bytes(a.ip().octets());
        sa
    };
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return None;
        }
        let s = TcpStream::from_raw_fd(fd);
        let one: libc::c_int = 1;
        libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_REUSEADDR, &one as *const _ as *const _, 4);
        for (a, f) in [(from, libc::bind as unsafe extern "C" fn(_, _, _) -> _), (to, libc::connect)] {
            let x = sa(a);
            if f(fd, &x as *const _ as *const libc::sockaddr, std::mem::size_of_val(&x) as u32) != 0 {
                return None;
            }
        }
        Some(s)
    }
}

pub fn set_linger_reset(s: &TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of_val(&l) as u32);
    }
}

fn reader(mut s: TcpStream, rx: Arc<RxShared>, broker: Arc<Broker>) {
    let mut buf: Vec<u8> = Vec::new();
    let mut start = 0usize;
    let mut tmp = vec![0u8; 256 * 1024];
    let done = |k: K| {
        rx.evs.lock().unwrap().push(Ev { t: tick(), k });
        rx.closed.store(true, Ordering::SeqCst);
    };
    loop {
        while rx.paused.load(Ordering::SeqCst) && !rx.stop.load(Ordering::SeqCst) {
            sleep_ms(1);
        }
        let us = rx.slow_us.load(Ordering::Relaxed);
        if us > 0 {
            std::thread::sleep(Duration::from_micros(us));
        }
        let n = rx.chunk.load(Ordering::Relaxed).min(tmp.len()).max(1);
        match s.read(&mut tmp[..n]) {
            Ok(0) => {
                rx.partial.store(buf.len() - start, Ordering::SeqCst);
                done(K::Eof);
                return;
            }
            Ok(n) => {
                broker.progress.fetch_add(n as u64, Ordering::SeqCst);
                rx.bytes.fetch_add(n as u64, Ordering::SeqCst);
                buf.extend_from_slice(&tmp[..n]);
                loop {
                    match mq::parse(&buf[start..]) {
                        Ok(Some((p, used))) => {
                            start += used;
                            match &p {
                                Rx::Publish { .. } => {
                                    rx.evs.lock().unwrap().push(Ev { t: tick(), k: K::P(p) });
                                    rx.pubs.fetch_add(1, Ordering::SeqCst);
                                }
                                Rx::PubAck(_) | Rx::PubRec(_) | Rx::PubRel(_) | Rx::PubComp(_) => {
                                    rx.evs.lock().unwrap().push(Ev { t: tick(), k: K::P(p) });
                                }
                                _ => {
                                    rx.evs.lock().unwrap().push(Ev { t: tick(), k: K::P(p) });
                                    rx.acks.fetch_add(1, Ordering::SeqCst);
                                }
                            };
                        }
                        Ok(None) => break,
                        Err(e) => {
                            let m = format!("{} in {}", e, hex(&buf[start..]));
                            done(K::Malformed(m));
                            return;
                        }
                    }
                }
                rx.partial.store(buf.len() - start, Ordering::SeqCst);
                if start > 1 << 20 || start == buf.len() {
                    buf.drain(..start);
                    start = 0;
                }
            }
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(_) => {
                rx.partial.store(buf.len() - start, Ordering::SeqCst);
                done(K::Reset);
                return;
            }
        }
    }
}

impl Client {
    /// TCP connection only.
    pub fn open(b: &Arc<Broker>, addr: SocketAddr, id: &str, rng: &mut Rng, rcvbuf: Option<usize>) -> Result<Client, Stop> {
        let stream = tcp(addr, rcvbuf).map_err(|e| open_error(b, addr, &e))?;
        Client::over(b, stream, id, rng)
    }

    /// On a connection made before.
    pub fn over(b: &Arc<Broker>, stream: TcpStream, id: &str, rng: &mut Rng) -> Result<Client, Stop> {
        let _ = stream.set_nodelay(true);
        let _ = stream.set_write_timeout(Some(Duration::from_secs(60)));
        let rx = Arc::new(RxShared {
            evs: Mutex::new(vec![]),
            paused: AtomicBool::new(false),
            slow_us: AtomicU64::new(0),
            chunk: AtomicUsize::new(1 << 18),
            closed: AtomicBool::new(false),
            partial: AtomicUsize::new(0),
            bytes: AtomicU64::new(0),
            acks: AtomicUsize::new(0),
            pubs: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
        });
        let rs = stream.try_clone().map_err(|e| Stop::Harness(e.to_string()))?;
        {
            let rx = rx.clone();
            let b = b.clone();
            std::thread::Builder::new()
                .stack_size(256 * 1024)
                .spawn(move || reader(rs, rx, b))
                .map_err(|e| Stop::Harness(e.to_string()))?;
        }
        Ok(Client {
            conn: CONNS.fetch_add(1, Ordering::SeqCst),
            id: id.to_string(),
            stream,
            rx,
            ops: vec![],
            broker: b.clone(),
            rng: Rng::new(rng.next()),
            split: false,
            pid: 0,
            last_req: None,
            npub: 0,
            ended_by_other: None,
            lossy: false,
        })
    }

    /// Opens, sends CONNECT, waits for the CONNACK and requires it to accept.
    pub fn connect(b: &Arc<Broker>, addr: SocketAddr, id: &str, rng: &mut Rng) -> Result<Client, Stop> {
        let mut c = Client::open(b, addr, id, rng, None)?;
        c.send_connect(&Connect::new(id));
        c.expect_accepted()?;
        Ok(c)
    }

    pub fn send_connect(&mut self, p: &Connect) {
        self.ops.push(Op::Connect { t: tick() });
        self.raw(&p.encode());
    }

    pub fn expect_accepted(&mut self) -> Result<(), Stop> {
        self.wait_evs("CONNACK", |e| !e.is_empty())?;
        match &self.evs()[0].k {
            K::P(Rx::ConnAck { rc: 0, .. }) => Ok(()),
            o => Err(Stop::Bad(format!("client {:?} sent a valid CONNECT and got {:?} instead of CONNACK 0", self.brief_id(), o))),
        }
    }

    pub fn brief_id(&self) -> String {
        self.id.chars().take(40).collect()
    }

    /// Writes; a failure means the connection is gone, which the reader reports.
    pub fn raw(&mut self, b: &[u8]) -> bool {
        if !self.split {
            return self.stream.write_all(b).is_ok();
        }
        let mut o = 0;
        let mut cuts = 0;
        while o < b.len() {
            let n = if cuts > 200 {
                b.len()
            } else {
                match self.rng.below(6) {
                    0 => 1,
                    1 => 2,
                    2 => self.rng.range(1, 16),
                    3 => self.rng.range(1, 1500),
                    4 => self.rng.range(4000, 4200),
                    _ => b.len(),
                }
            };
            cuts += 1;
            let e = (o + n).min(b.len());
            if self.stream.write_all(&b[o..e]).is_err() {
                return false;
            }
            o = e;
            if self.rng.chance(20) {
                std::thread::sleep(Duration::from_micros(self.rng.below(400) as u64));
            }
        }
        true
    }

    pub fn next_pid(&mut self) -> u16 {
        self.pid = self.pid.wrapping_add(1);
        if self.pid == 0 {
            self.pid = 1;
        }
        self.pid
    }

    /// for a request; an identifier whose request was answered may be used again at once
    fn request_pid(&mut self) -> u16 {
        if let Some(p) = self.last_req {
            if self.rng.chance(25) && self.ops.len() < 400 && self.answers() >= self.requests() {
                return p;
            }
        }
        let p = self.next_pid();
        self.last_req = Some(p);
        p
    }

    pub fn sub_bytes(&mut self, filters: &[(String, u8)]) -> Vec<u8> {
        let pid = self.request_pid();
        self.ops.push(Op::Sub { t: tick(), pid, filters: filters.to_vec() });
        mq::subscribe(pid, filters)
    }
    pub fn unsub_bytes(&mut self, filters: &[String]) -> Vec<u8> {
        let pid = self.request_pid();
        self.ops.push(Op::Unsub { t: tick(), pid, filters: filters.to_vec() });
        mq::unsubscribe(pid, filters)
    }
    pub fn ping_bytes(&mut self) -> Vec<u8> {
        self.ops.push(Op::Ping { t: tick() });
        mq::PINGREQ.to_vec()
    }
    pub fn pub_bytes(&mut self, topic: &str, len: usize, qos: u8, retain: bool, dup: bool) -> Vec<u8> {
        self.npub += 1;
        let uid = ((self.conn as u64) << 32) | self.npub;
        let pid = if qos > 0 { self.next_pid() } else { 0 };
        let body = payload(uid, len);
        self.ops.push(Op::Pub { t: tick(), uid, topic: topic.to_string(), len, qos, retain, dup });
        mq::publish(topic.as_bytes(), &body, qos, retain, dup, pid)
    }

    pub fn sub(&mut self, filters: &[(String, u8)]) {
        let b = self.sub_bytes(filters);
        self.raw(&b);
    }
    pub fn sub1(&mut self, f: &str) {
        self.sub(&[(f.to_string(), 0)]);
    }
    pub fn unsub(&mut self, filters: &[String]) {
        let b = self.unsub_bytes(filters);
        self.raw(&b);
    }
    pub fn ping(&mut self) {
        let b = self.ping_bytes();
        self.raw(&b);
    }
    pub fn publish(&mut self, topic: &str, len: usize) -> u64 {
        let b = self.pub_bytes(topic, len, 0, false, false);
        self.raw(&b);
        ((self.conn as u64) << 32) | self.npub
    }
    pub fn last_uid(&self) -> u64 {
        ((self.conn as u64) << 32) | self.npub
    }

    pub fn evs(&self) -> Vec<Ev> {
        self.rx.evs.lock().unwrap().clone()
    }
    pub fn n_evs(&self) -> usize {
        self.rx.evs.lock().unwrap().len()
    }
    pub fn with_evs<R>(&self, f: impl FnOnce(&[Ev]) -> R) -> R {
        f(&self.rx.evs.lock().unwrap())
    }
    pub fn closed(&self) -> bool {
        self.rx.closed.load(Ordering::SeqCst)
    }

    /// number of requests sent on this connection that have an answer
    pub fn requests(&self) -> usize {
        self.ops.iter().filter(|o| !matches!(o, Op::Pub { .. } | Op::End { .. })).count()
    }
    pub fn answers(&self) -> usize {
        self.rx.acks.load(Ordering::SeqCst)
    }
    pub fn publishes(&self) -> Vec<(u64, Rx)> {
        self.with_evs(|e| {
            e.iter()
                .filter_map(|e| match &e.k {
                    K::P(p @ Rx::Publish { .. }) => Some((e.t, p.clone())),
                    _ => None,
                })
                .collect()
        })
    }

    pub fn wait_evs(&self, what: &str, f: impl Fn(&[Ev]) -> bool) -> Result<(), Stop> {
        let w = wait_until(&self.broker, || self.with_evs(&f));
        self.verdict(w, what)
    }

    fn verdict(&self, w: Wait, what: &str) -> Result<(), Stop> {
        stop_if(w, || {
            let last: Vec<String> = self.with_evs(|e| e.iter().rev().take(4).map(|e| brief(&e.k)).collect());
            format!("client {:?} never got {}; last events (newest first): {:?}; partial packet bytes: {}", self.brief_id(), what, last, self.rx.partial.load(Ordering::SeqCst))
        })
    }

    /// Waits for the answers to all requests sent so far.
    pub fn wait_answers(&self) -> Result<(), Stop> {
        let n = self.requests();
        let w = wait_until(&self.broker, || self.answers() >= n || self.closed());
        self.verdict(w, &format!("its {} answers (has {})", n, self.answers()))?;
        if self.answers() < n {
            return Err(Stop::Bad(format!("client {:?}: connection ended by the broker ({:?}) with {} of {} answers given", self.brief_id(), self.with_evs(|e| e.last().map(|e| brief(&e.k))), self.answers(), n)));
        }
        Ok(())
    }

    /// Everything sent before is processed by the broker when this returns.
    pub fn barrier(&mut self) -> Result<(), Stop> {
        self.ping();
        self.wait_answers()
    }

    pub fn wait_closed(&self) -> Result<(), Stop> {
        let w = wait_until(&self.broker, || self.closed());
        self.verdict(w, "the end of its connection")
    }

    pub fn mark_end(&mut self) {
        self.ops.push(Op::End { t: tick() });
    }

    /// DISCONNECT, half-close, read to the end: nothing sent before is lost.
    pub fn bye(&mut self) -> Result<(), Stop> {
        self.mark_end();
        self.raw(&mq::DISCONNECT);
        let _ = self.stream.shutdown(Shutdown::Write);
        self.wait_closed()
    }
    /// FIN without DISCONNECT, read to the end.
    pub fn fin(&mut self) -> Result<(), Stop> {
        self.mark_end();
        let _ = self.stream.shutdown(Shutdown::Write);
        self.wait_closed()
    }
    pub fn reset(&mut self) {
        self.mark_end();
        self.lossy = true;
        set_linger_reset(&self.stream);
        // shutdown would not reset; close all descriptors: the reader holds one, so stop it
        self.rx.stop.store(true, Ordering::SeqCst);
        abort_connection(&self.stream);
    }
    pub fn set_paused(&self, p: bool) {
        self.rx.paused.store(p, Ordering::SeqCst);
    }
}

/// RST although other descriptors of the socket are open: connect to AF_UNSPEC.
pub fn abort_connection(s: &TcpStream) {
    unsafe {
        let mut sa: libc::sockaddr = std::mem::zeroed();
        sa.sa_family = libc::AF_UNSPEC as u16;
        libc::connect(s.as_raw_fd(), &sa, std::mem::size_of_val(&sa) as u32);
    }
}

impl Drop for Client {
    fn drop(&mut self) {
        self.rx.stop.store(true, Ordering::SeqCst);
        let _ = self.stream.shutdown(Shutdown::Both);
    }
}

pub fn brief(k: &K) -> String {
    match k {
        K::P(p) => p.brief(),
        o => format!("{:?}", o),
    }
}

/// a refused connection: nobody listens there any more
pub fn open_error(b: &Broker, addr: SocketAddr, e: &std::io::Error) -> Stop {
    if e.kind() != std::io::ErrorKind::ConnectionRefused {
        return Stop::Harness(format!("connect to {}: {}", addr, e));
    }
    for _ in 0..50 {
        if let Some(d) = b.death() {
            return Stop::Dead(d);
        }
        sleep_ms(20);
    }
    // still?
    match tcp(addr, None) {
        Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused => Stop::Bad(format!("the broker lives, but no longer accepts connections at {}", addr)),
        _ => Stop::Harness(format!("connect to {}: {}", addr, e)),
    }
}

/// Why a scenario ends early.
#[derive(Debug, Clone)]
pub enum Stop {
    /// the broker will never do what it must
    Stuck(String),
    /// the broker did what it must not
    Bad(String),
    Dead(String),
    /// too slow to tell
    Unknown(String),
    Harness(String),
}

pub fn stop_if(w: Wait, what: impl FnOnce() -> String) -> Result<(), Stop> {
    match w {
        Wait::Ok => Ok(()),
        Wait::Idle => Err(Stop::Stuck(format!("{} (broker idle in all threads)", what()))),
        Wait::Spin => Err(Stop::Stuck(format!("{} (broker only burns CPU)", what()))),
        Wait::Dead(d) => Err(Stop::Dead(d)),
        Wait::Unknown => Err(Stop::Unknown(what())),
    }
}
