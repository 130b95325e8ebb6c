//! MQTT 3.1.1 as the harness understands it, written from the standard and independent of the
//! broker's code: encoder for client packets, strict parser for server packets, topic matching.

#[derive(Clone, Debug, PartialEq)]
pub enum Rx {
    ConnAck { sp: bool, rc: u8 },
    Publish { dup: bool, qos: u8, retain: bool, topic: Vec<u8>, pid: Option<u16>, payload: Vec<u8> },
    SubAck { pid: u16, codes: Vec<u8> },
    UnsubAck { pid: u16 },
    PingResp,
    PubAck(u16),
    PubRec(u16),
    PubRel(u16),
    PubComp(u16),
}

impl Rx {
    pub fn brief(&self) -> String {
        match self {
            Rx::Publish { topic, payload, qos, dup, retain, pid } => format!(
                "PUBLISH(topic={:?} len={} qos={} dup={} retain={} pid={:?} payload={})",
                String::from_utf8_lossy(&topic[..topic.len().min(60)]),
                payload.len(),
                qos,
                dup,
                retain,
                pid,
                crate::util::hex(&payload[..payload.len().min(16)])
            ),
            Rx::SubAck { pid, codes } => {
                format!("SUBACK(pid={} codes={:?})", pid, &codes[..codes.len().min(20)])
            }
            o => format!("{:?}", o),
        }
    }
}

pub fn remaining_length(mut n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    loop {
        let mut b = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            b |= 128;
        }
        v.push(b);
        if n == 0 {
            return v;
        }
    }
}

pub fn packet(first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![first];
    v.extend(remaining_length(body.len()));
    v.extend_from_slice(body);
    v
}

pub fn put_str(v: &mut Vec<u8>, s: &[u8]) {
    v.extend_from_slice(&(s.len() as u16).to_be_bytes());
    v.extend_from_slice(s);
}

#[derive(Clone, Debug)]
pub struct Connect {
    pub proto: Vec<u8>,
    pub level: u8,
    pub id: Vec<u8>,
    pub clean: bool,
    pub keep_alive: u16,
    pub will: Option<(Vec<u8>, Vec<u8>, u8, bool)>,
    pub user: Option<Vec<u8>>,
    pub pass: Option<Vec<u8>>,
}

impl Connect {
    pub fn new(id: &str) -> Connect {
        Connect {
            proto: b"MQTT".to_vec(),
            level: 4,
            id: id.as_bytes().to_vec(),
            clean: true,
            keep_alive: 0,
            will: None,
            user: None,
            pass: None,
        }
    }
    pub fn creds(mut self, u: &str, p: Option<&str>) -> Connect {
        self.user = Some(u.as_bytes().to_vec());
        self.pass = p.map(|p| p.as_bytes().to_vec());
        self
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut b = Vec::new();
        put_str(&mut b, &self.proto);
        b.push(self.level);
        let mut f = 0u8;
        if self.clean {
            f |= 2;
        }
        if let Some((_, _, q, r)) = &self.will {
            f |= 4 | (q << 3) | ((*r as u8) << 5);
        }
        if self.user.is_some() {
            f |= 0x80;
        }
        if self.pass.is_some() {
            f |= 0x40;
        }
        b.push(f);
        b.extend_from_slice(&self.keep_alive.to_be_bytes());
        put_str(&mut b, &self.id);
        if let Some((t, m, _, _)) = &self.will {
            put_str(&mut b, t);
            put_str(&mut b, m);
        }
        if let Some(u) = &self.user {
            put_str(&mut b, u);
        }
        if let Some(p) = &self.pass {
            put_str(&mut b, p);
        }
        packet(0x10, &b)
    }
}

pub fn publish(topic: &[u8], payload: &[u8], qos: u8, retain: bool, dup: bool, pid: u16) -> Vec<u8> {
    let mut v = vec![0x30 | (dup as u8) << 3 | qos << 1 | retain as u8];
    let len = 2 + topic.len() + if qos > 0 { 2 } else { 0 } + payload.len();
    v.extend(remaining_length(len));
    put_str(&mut v, topic);
    if qos > 0 {
        v.extend_from_slice(&pid.to_be_bytes());
    }
    v.extend_from_slice(payload);
    v
}

pub fn subscribe(pid: u16, filters: &[(String, u8)]) -> Vec<u8> {
    let mut b = pid.to_be_bytes().to_vec();
    for (f, q) in filters {
        put_str(&mut b, f.as_bytes());
        b.push(*q);
    }
    packet(0x82, &b)
}

pub fn unsubscribe(pid: u16, filters: &[String]) -> Vec<u8> {
    let mut b = pid.to_be_bytes().to_vec();
    for f in filters {
        put_str(&mut b, f.as_bytes());
    }
    packet(0xA2, &b)
}

pub const PINGREQ: [u8; 2] = [0xC0, 0];
pub const DISCONNECT: [u8; 2] = [0xE0, 0];

/// Parses one server packet. Ok(None): more bytes needed.
pub fn parse(buf: &[u8]) -> Result<Option<(Rx, usize)>, String> {
    if buf.is_empty() {
        return Ok(None);
    }
    let first = buf[0];
    let mut len = 0usize;
    let mut i = 1;
    loop {
        if i >= buf.len() {
            return Ok(None);
        }
        let b = buf[i];
        len |= ((b & 127) as usize) << (7 * (i - 1));
        i += 1;
        if b & 128 == 0 {
            if b == 0 && i > 2 {
                return Err("remaining length is not minimally encoded".into());
            }
            break;
        }
        if i > 4 {
            return Err("remaining length longer than 4 bytes".into());
        }
    }
    let t = first >> 4;
    let flags = first & 15;
    let fixed = match t {
        2 | 4 | 5 | 6 | 7 | 11 => Some(2),
        13 => Some(0),
        3 | 9 => None,
        _ => return Err(format!("packet type {} is never sent by a server", t)),
    };
    if let Some(n) = fixed {
        if len != n {
            return Err(format!("type {} with remaining length {}", t, len));
        }
    }
    let want = match t {
        3 => flags,
        6 => 2,
        _ => 0,
    };
    if flags != want {
        return Err(format!("type {} with flags {}", t, flags));
    }
    if buf.len() < i + len {
        return Ok(None);
    }
    let b = &buf[i..i + len];
    let u16at = |o: usize| u16::from_be_bytes([b[o], b[o + 1]]);
    let rx = match t {
        2 => {
            if b[0] > 1 || b[1] > 5 {
                return Err(format!("CONNACK with content {:?}", b));
            }
            Rx::ConnAck { sp: b[0] == 1, rc: b[1] }
        }
        4 => Rx::PubAck(u16at(0)),
        5 => Rx::PubRec(u16at(0)),
        6 => Rx::PubRel(u16at(0)),
        7 => Rx::PubComp(u16at(0)),
        11 => Rx::UnsubAck { pid: u16at(0) },
        13 => Rx::PingResp,
        9 => {
            if len < 3 {
                return Err("SUBACK without return codes".into());
            }
            let codes = b[2..].to_vec();
            if codes.iter().any(|c| ![0, 1, 2, 0x80].contains(c)) {
                return Err(format!("SUBACK with codes {:?}", codes));
            }
            Rx::SubAck { pid: u16at(0), codes }
        }
        3 => {
            let qos = (flags >> 1) & 3;
            if qos == 3 {
                return Err("PUBLISH with QoS 3".into());
            }
            if len < 2 {
                return Err("PUBLISH too short".into());
            }
            let tl = u16at(0) as usize;
            let mut o = 2 + tl;
            if o > len {
                return Err("PUBLISH topic longer than the packet".into());
            }
            let topic = b[2..o].to_vec();
            if std::str::from_utf8(&topic).is_err() {
                return Err("PUBLISH topic is not UTF-8".into());
            }
            let pid = if qos > 0 {
                if o + 2 > len {
                    return Err("PUBLISH without packet id".into());
                }
                o += 2;
                Some(u16at(o - 2))
            } else {
                None
            };
            Rx::Publish {
                dup: flags & 8 != 0,
                qos,
                retain: flags & 1 != 0,
                topic,
                pid,
                payload: b[o..].to_vec(),
            }
        }
        _ => unreachable!(),
    };
    Ok(Some((rx, i + len)))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum M {
    No,
    Yes,
    /// matched only because a final '#' includes its parent level (known finding C04-1)
    Parent,
}

pub fn matches(filter: &str, topic: &str) -> M {
    let f: Vec<&str> = filter.split('/').collect();
    let t: Vec<&str> = topic.split('/').collect();
    if t[0].starts_with('$') && (f[0] == "#" || f[0] == "+") {
        return M::No;
    }
    let mut i = 0;
    loop {
        if i == f.len() {
            return if i == t.len() { M::Yes } else { M::No };
        }
        if f[i] == "#" {
            return if i < t.len() {
                M::Yes
            } else {
                M::Parent // all levels before '#' matched, and the topic ends there
            };
        }
        if i >= t.len() {
            return M::No;
        }
        if f[i] != "+" && f[i] != t[i] {
            return M::No;
        }
        i += 1;
    }
}

pub fn filter_valid(f: &str) -> bool {
    if f.is_empty() {
        return false;
    }
    let l: Vec<&str> = f.split('/').collect();
    l.iter().enumerate().all(|(i, s)| {
        !(s.contains('#') && (s.len() > 1 || i + 1 < l.len())) && !(s.contains('+') && s.len() > 1)
    })
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn matching() {
        assert_eq!(matches("a/+/c", "a//c"), M::Yes);
        assert_eq!(matches("a/#", "a"), M::Parent);
        assert_eq!(matches("a/#", "a/"), M::Yes);
        assert_eq!(matches("+", "a/"), M::No);
        assert_eq!(matches("+/+", "/a"), M::Yes);
        assert_eq!(matches("/+", "/a"), M::Yes);
        assert_eq!(matches("+", "/a"), M::No);
        assert_eq!(matches("#", "$x/a"), M::No);
        assert_eq!(matches("+/a", "$x/a"), M::No);
        assert_eq!(matches("$x/#", "$x/a"), M::Yes);
        assert_eq!(matches("+/#", "a"), M::Parent);
        assert_eq!(matches("a/b/#", "a"), M::No);
        assert!(filter_valid("a/+/#") && !filter_valid("a#") && !filter_valid("#/a") && !filter_valid("a+/b") && filter_valid("/"));
    }
}
