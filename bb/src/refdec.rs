//! Reference decoder of MQTT 3.1.1 client packets, written from the standard.

#[derive(Debug, Clone, PartialEq)]
pub enum RP {
    Unsupported,
    Connect { id: String, ka: u16, clean: bool, will: Option<(String, Vec<u8>, u8, bool)>, user: Option<String>, pass: Option<String> },
    Publish { dup: bool, qos: u8, retain: bool, topic: String, pid: Option<u16>, payload: Vec<u8> },
    PubAck(u16),
    PubRec(u16),
    PubRel(u16),
    PubComp(u16),
    Subscribe { pid: u16, subs: Vec<(String, u8)> },
    Unsubscribe { pid: u16, topics: Vec<String> },
    PingReq,
    Disconnect,
}

#[derive(Debug, Clone, PartialEq)]
pub enum D {
    /// packet, bytes used, the standard leaves (or the broker may leave) it open whether it is refused
    Packet(RP, usize, bool),
    /// a prefix of something
    Incomplete,
    /// must be refused once `usize` bytes are there
    Malformed(&'static str, usize),
    /// outside what is judged: may be refused or read as anything
    Open(&'static str),
}

struct Cur<'a> {
    b: &'a [u8],
    o: usize,
}

type R<T> = Result<T, &'static str>;

impl<'a> Cur<'a> {
    fn u8(&mut self) -> R<u8> {
        let v = *self.b.get(self.o).ok_or("content longer than the remaining length")?;
        self.o += 1;
        Ok(v)
    }
    fn u16(&mut self) -> R<u16> {
        Ok((self.u8()? as u16) << 8 | self.u8()? as u16)
    }
    fn bin(&mut self) -> R<&'a [u8]> {
        let n = self.u16()? as usize;
        if self.b.len() - self.o < n {
            return Err("content longer than the remaining length");
        }
        self.o += n;
        Ok(&self.b[self.o - n..self.o])
    }
    fn str(&mut self) -> R<String> {
        std::str::from_utf8(self.bin()?).map(|s| s.to_string()).map_err(|_| "invalid UTF-8")
    }
    fn rest(&self) -> usize {
        self.b.len() - self.o
    }
}

pub fn next(b: &[u8]) -> D {
    if b.is_empty() {
        return D::Incomplete;
    }
    let first = b[0];
    let mut len = 0usize;
    let mut i = 1;
    let mut minimal = true;
    loop {
        if i > 4 {
            return D::Malformed("remaining length of more than 4 bytes", 5);
        }
        let Some(x) = b.get(i) else { return D::Incomplete };
        len |= ((x & 127) as usize) << (7 * (i - 1));
        i += 1;
        if x & 128 == 0 {
            minimal = i == 2 || *x != 0;
            break;
        }
    }
    if b.len() < i + len {
        return D::Incomplete;
    }
    let total = i + len;
    let mut c = Cur { b: &b[i..total], o: 0 };
    let mut open = !minimal;
    match body(first, &mut c, &mut open) {
        Ok(Ok(p)) => {
            if c.rest() > 0 {
                D::Malformed("remaining length longer than the content", total)
            } else {
                D::Packet(p, total, open)
            }
        }
        Ok(Err(why)) => D::Open(why),
        Err(why) => D::Malformed(why, total),
    }
}

fn has_nul(s: &str) -> bool {
    s.contains('\0')
}

fn body(first: u8, c: &mut Cur, open: &mut bool) -> R<Result<RP, &'static str>> {
    let t = first >> 4;
    let fl = first & 15;
    let need = |n: u8| if fl == n { Ok(()) } else { Err("reserved fixed header flags") };
    let p = match t {
        1 => {
            need(0)?;
            let name = c.str()?;
            let level = c.u8()?;
            match (name.as_str(), level) {
                ("MQTT", 4) | ("MQIsdp", 3) => {}
                ("MQTT", _) | ("MQIsdp", _) => {
                    c.o = c.b.len();
                    *open = true;
                    return Ok(Ok(RP::Unsupported));
                }
                _ => return Err("unknown protocol name"),
            }
            let f = c.u8()?;
            if f & 1 != 0 {
                return Err("reserved connect flag");
            }
            if f & 4 == 0 && f & 0x38 != 0 {
                return Err("will options without a will");
            }
            if f & 0x18 == 0x18 {
                return Err("will QoS 3");
            }
            if f & 0x40 != 0 && f & 0x80 == 0 {
                return Err("password without user name");
            }
            let ka = c.u16()?;
            let id = c.str()?;
            *open |= has_nul(&id) || (id.is_empty() && f & 2 == 0) || id.len() > 23 && name == "MQIsdp";
            let will = if f & 4 != 0 {
                let t = c.str()?;
                let m = c.bin()?.to_vec();
                *open |= has_nul(&t) || t.is_empty() || t.contains(|x| x == '+' || x == '#');
                Some((t, m, f >> 3 & 3, f & 0x20 != 0))
            } else {
                None
            };
            let user = if f & 0x80 != 0 { Some(c.str()?) } else { None };
            *open |= user.as_ref().map_or(false, |u| has_nul(u));
            let pass = if f & 0x40 != 0 {
                let p = c.bin()?;
                match std::str::from_utf8(p) {
                    Ok(s) => Some(s.to_string()),
                    // the standard allows any bytes, the broker's type does not: documented limit
                    Err(_) => return Ok(Err("password is not UTF-8")),
                }
            } else {
                None
            };
            RP::Connect { id, ka, clean: f & 2 != 0, will, user, pass }
        }
        3 => {
            let qos = fl >> 1 & 3;
            if qos == 3 {
                return Err("QoS 3");
            }
            let topic = c.str()?;
            if topic.is_empty() || topic.contains(|x| x == '+' || x == '#') {
                return Err("topic name empty or with wildcards");
            }
            *open |= has_nul(&topic);
            let pid = if qos > 0 { Some(c.u16()?) } else { None };
            *open |= pid == Some(0) || (qos == 0 && fl & 8 != 0);
            let payload = c.b[c.o..].to_vec();
            c.o = c.b.len();
            RP::Publish { dup: fl & 8 != 0, qos, retain: fl & 1 != 0, topic, pid, payload }
        }
        4 | 5 | 6 | 7 => {
            need(if t == 6 { 2 } else { 0 })?;
            let pid = c.u16()?;
            *open |= pid == 0;
            match t {
                4 => RP::PubAck(pid),
                5 => RP::PubRec(pid),
                6 => RP::PubRel(pid),
                _ => RP::PubComp(pid),
            }
        }
        8 => {
            need(2)?;
            let pid = c.u16()?;
            let mut subs = vec![];
            while c.rest() > 0 {
                let f = c.str()?;
                let q = c.u8()?;
                if q > 2 {
                    return Err("requested QoS above 2");
                }
                // an invalid filter is refused in the SUBACK, or by closing
                *open |= !crate::mq::filter_valid(&f) || has_nul(&f);
                subs.push((f, q));
            }
            if subs.is_empty() {
                return Err("no filters");
            }
            *open |= pid == 0;
            RP::Subscribe { pid, subs }
        }
        10 => {
            need(2)?;
            let pid = c.u16()?;
            let mut topics = vec![];
            while c.rest() > 0 {
                let f = c.str()?;
                *open |= !crate::mq::filter_valid(&f) || has_nul(&f);
                topics.push(f);
            }
            if topics.is_empty() {
                return Err("no filters");
            }
            *open |= pid == 0;
            RP::Unsubscribe { pid, topics }
        }
        12 => {
            need(0)?;
            RP::PingReq
        }
        14 => {
            need(0)?;
            RP::Disconnect
        }
        _ => return Err("packet type a client must not send"),
    };
    Ok(Ok(p))
}
