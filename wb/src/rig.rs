//! Feeds bytes to the real decoder and takes bytes from the real encoder.

use bb::util::Rng;
use ratelmq::mqtt::packets::ControlPacket;
use ratelmq::mqtt::transport::mqtt_bytes_stream::{MqttBytesReadStream, MqttBytesWriteStream};
use ratelmq::mqtt::transport::packet_decoder::read_packet;
use ratelmq::mqtt::transport::packet_encoder::write_packet;
use std::os::fd::{AsRawFd, FromRawFd, RawFd};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;

/// Connected streams: a socket pair, or (under Miri, and sometimes) TCP.
pub async fn pair(tcp: bool) -> (TcpStream, TcpStream) {
    if tcp {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let a = TcpStream::connect(l.local_addr().unwrap()).await.unwrap();
        let (b, _) = l.accept().await.unwrap();
        let _ = a.set_nodelay(true);
        return (a, b);
    }
    let mut f = [0 as RawFd; 2];
    unsafe {
        if libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC | libc::SOCK_NONBLOCK, 0, f.as_mut_ptr()) != 0 {
            panic!("socketpair: {}", std::io::Error::last_os_error());
        }
        let mk = |fd| TcpStream::from_std(std::net::TcpStream::from_raw_fd(fd)).unwrap();
        (mk(f[0]), mk(f[1]))
    }
}

fn unread(fd: RawFd) -> i32 {
    let mut n: libc::c_int = 0;
    unsafe {
        libc::ioctl(fd, libc::FIONREAD, &mut n);
    }
    n
}

/// random cuts; None: in one piece
pub fn cuts(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut o = 0;
    let style = rng.below(6);
    while o < n && v.len() < 3000 {
        o += match style {
            0 => n,
            1 => 1,
            2 => rng.range(1, 3),
            3 => rng.range(1, 60),
            4 => rng.range(4090, 4100),
            _ => {
                if rng.chance(50) {
                    1
                } else {
                    rng.range(1, 5000)
                }
            }
        };
        v.push(o.min(n));
    }
    v.push(n);
    v
}

#[derive(Debug)]
pub enum End {
    /// the decoder reported an error
    Err(String),
    /// it waits for more although everything written is consumed
    Waits,
    /// unclear: neither within the time
    Slow,
}

pub struct Decoded {
    pub packets: Vec<ControlPacket>,
    pub end: End,
}

/// Writes `data` cut at `cuts`, then keeps the connection open (`shut` = false) or ends it;
/// reads packets until an error, or until `stop_after` were read.
pub async fn decode(data: &[u8], cuts: &[usize], shut: bool, cap: usize, stop_after: usize, tcp: bool) -> Decoded {
    let (peer, ours) = pair(tcp).await;
    let fd = ours.as_raw_fd();
    let (r, _w) = ours.into_split();
    let mut rs = MqttBytesReadStream::new(cap, r);
    let (_pr, mut pw) = peer.into_split();
    let owned: Vec<u8> = data.to_vec();
    let cuts = cuts.to_vec();
    let writer = tokio::spawn(async move {
        let mut o = 0;
        for e in cuts {
            if e > o {
                if pw.write_all(&owned[o..e]).await.is_err() {
                    return None;
                }
                o = e;
                tokio::task::yield_now().await;
            }
        }
        if shut {
            let _ = pw.shutdown().await;
            drop(pw);
            return None;
        }
        Some(pw)
    });
    let mut packets = vec![];
    let end;
    loop {
        if packets.len() >= stop_after {
            end = End::Waits;
            break;
        }
        let mut f = Box::pin(read_packet(&mut rs));
        let mut waits = 0;
        let res = loop {
            let t = if cfg!(miri) { 600 } else { 3 };
            match tokio::time::timeout(Duration::from_secs(t), &mut f).await {
                Ok(r) => break Some(r),
                Err(_) => {
                    if writer.is_finished() && unread(fd) == 0 && !shut {
                        waits += 1;
                        if waits >= 2 {
                            break None;
                        }
                    } else if waits > 20 {
                        break None;
                    } else {
                        waits += if writer.is_finished() { 4 } else { 1 };
                    }
                }
            }
        };
        match res {
            Some(Ok(p)) => packets.push(p),
            Some(Err(e)) => {
                end = End::Err(e.to_string());
                break;
            }
            None => {
                end = if writer.is_finished() { End::Waits } else { End::Slow };
                break;
            }
        }
    }
    writer.abort();
    Decoded { packets, end }
}

/// Writes the packets with the real encoder, the peer reading as told; returns what arrived after
/// each packet, the bytes that had arrived when nothing more came.
pub async fn encode(packets: Vec<ControlPacket>, cap: usize, want: usize, sndbuf: Option<usize>, mut reader: Rng, slow: bool, tcp: bool) -> (Vec<u8>, Result<(), String>) {
    let (peer, ours) = pair(tcp).await;
    if let Some(n) = sndbuf {
        let v = n as libc::c_int;
        unsafe {
            libc::setsockopt(ours.as_raw_fd(), libc::SOL_SOCKET, libc::SO_SNDBUF, &v as *const _ as *const _, 4);
        }
    }
    let (_r, w) = ours.into_split();
    let mut ws = MqttBytesWriteStream::new(cap, w);
    let (mut pr, _pw) = peer.into_split();
    let got = std::sync::Arc::new(std::sync::Mutex::new(Vec::with_capacity(want)));
    let g = got.clone();
    let rd = tokio::spawn(async move {
        let mut b = vec![0u8; 65536];
        loop {
            let n = if slow { reader.range(1, 3000) } else { b.len() };
            match pr.read(&mut b[..n]).await {
                Ok(0) | Err(_) => break,
                Ok(n) => g.lock().unwrap().extend_from_slice(&b[..n]),
            }
            if slow && reader.chance(3) {
                tokio::time::sleep(Duration::from_millis(1)).await;
            } else {
                tokio::task::yield_now().await;
            }
        }
    });
    let mut res = Ok(());
    let writing = async {
        for p in packets {
            write_packet(&mut ws, p).await.map_err(|e| e.to_string())?;
        }
        Ok(())
    };
    let limit = if cfg!(miri) { 6000 } else { 60 };
    match tokio::time::timeout(Duration::from_secs(limit), writing).await {
        Ok(Ok(())) => {}
        Ok(Err(e)) => res = Err(e),
        Err(_) => res = Err("write_packet does not return although the peer reads".into()),
    }
    // the write stream stays open: nothing may be held back until later packets or the end
    let mut last = 0;
    let mut still = std::time::Instant::now();
    loop {
        let n = got.lock().unwrap().len();
        if n >= want {
            break;
        }
        if n != last {
            last = n;
            still = std::time::Instant::now();
        }
        if still.elapsed() > Duration::from_secs(if cfg!(miri) { 600 } else { 5 }) {
            break;
        }
        tokio::time::sleep(Duration::from_micros(100)).await;
    }
    // anything too much?
    tokio::task::yield_now().await;
    drop(ws);
    let _ = tokio::time::timeout(Duration::from_secs(5), rd).await;
    let v = got.lock().unwrap().clone();
    (v, res)
}

/// One connection that carries `block` `reps` times, cut at random; every packet is handed to `on`
/// with its number. Stops at the first error of either side.
pub async fn long_decode(block: Vec<u8>, per_block: u64, reps: u64, largest_cut: usize, mut rng: Rng, on: &mut dyn FnMut(u64, ControlPacket) -> Result<(), String>) -> Result<u64, String> {
    let (peer, ours) = pair(false).await;
    let (r, _w) = ours.into_split();
    let mut rs = MqttBytesReadStream::new(4096, r);
    let (_pr, mut pw) = peer.into_split();
    let writer = tokio::spawn(async move {
        for _ in 0..reps {
            let mut o = 0;
            while o < block.len() {
                let n = rng.range(1, largest_cut).min(block.len() - o);
                if pw.write_all(&block[o..o + n]).await.is_err() {
                    return None;
                }
                o += n;
                tokio::task::yield_now().await;
            }
        }
        Some(pw)
    });
    for k in 0..per_block * reps {
        let p = match tokio::time::timeout(Duration::from_secs(60), read_packet(&mut rs)).await {
            Ok(Ok(p)) => p,
            Ok(Err(e)) => return Err(format!("packet {} of the connection was refused with {:?}", k + 1, e.to_string())),
            Err(_) => return Err(format!("packet {} of the connection is not read, although all of it was sent", k + 1)),
        };
        on(k, p)?;
    }
    writer.abort();
    Ok(per_block * reps)
}

/// One connection over which the real encoder sends `packets`, whose encoding is `block`, `reps` times.
pub async fn long_encode(packets: Vec<ControlPacket>, block: Vec<u8>, reps: u64, alive: &dyn Fn()) -> Result<u64, String> {
    let (peer, ours) = pair(false).await;
    let (_r, w) = ours.into_split();
    let mut ws = MqttBytesWriteStream::new(4096, w);
    let (mut pr, _pw) = peer.into_split();
    let total = block.len() as u64 * reps;
    let reader = tokio::spawn(async move {
        let mut b = vec![0u8; 1 << 16];
        let mut at = 0u64;
        while at < total {
            let n = match tokio::time::timeout(Duration::from_secs(30), pr.read(&mut b)).await {
                Ok(Ok(n)) if n > 0 => n,
                Err(_) => return Err(format!("nothing more was sent after {} of {} bytes", at, total)),
                r => return Err(format!("the stream ended after {} bytes: {:?}", at, r)),
            };
            let mut o = 0;
            while o < n {
                let from = (at % block.len() as u64) as usize;
                let m = (n - o).min(block.len() - from);
                if b[o..o + m] != block[from..from + m] {
                    let k = (0..m).find(|k| b[o + k] != block[from + k]).unwrap();
                    return Err(format!("byte {} of the connection is {:02x} instead of {:02x}", at + k as u64, b[o + k], block[from + k]));
                }
                o += m;
                at += m as u64;
            }
        }
        Ok(())
    });
    let writing = async {
        for k in 0..reps {
            if k % 16 == 0 {
                alive();
            }
            for p in &packets {
                write_packet(&mut ws, p.clone()).await.map_err(|e| e.to_string())?;
            }
        }
        Ok::<(), String>(())
    };
    // a reader that found something wrong ends, and then the writer fails
    let w = writing.await;
    match reader.await {
        Ok(Ok(())) => w.map(|_| packets.len() as u64 * reps),
        Ok(Err(e)) => Err(e),
        Err(e) => Err(e.to_string()),
    }
}
