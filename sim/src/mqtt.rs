//! Independent MQTT 3.1.1 codec used by the simulated clients (not the broker's).

#[derive(Clone, Debug, PartialEq)]
pub enum In {
    ConnAck { sp: bool, code: u8 },
    SubAck { pid: u16, codes: Vec<u8> },
    UnsubAck { pid: u16 },
    PingResp,
    Publish { qos: u8, dup: bool, retain: bool, pid: Option<u16>, topic: Vec<u8>, payload: Vec<u8> },
    Other { first: u8, body: Vec<u8> },
}

impl In {
    pub fn short(&self) -> String {
        match self {
            In::ConnAck { sp, code } => format!("CONNACK(sp={},code={})", *sp as u8, code),
            In::SubAck { pid, codes } => format!("SUBACK({},{:?})", pid, codes),
            In::UnsubAck { pid } => format!("UNSUBACK({})", pid),
            In::PingResp => "PINGRESP".into(),
            In::Publish { qos, dup, retain, pid, topic, payload } => format!(
                "PUBLISH(topic={},len={},qos={},dup={},retain={},pid={:?},payload={})",
                text(topic),
                payload.len(),
                qos,
                *dup as u8,
                *retain as u8,
                pid,
                text(&payload[..payload.len().min(24)])
            ),
            In::Other { first, body } => format!("packet {:#04x} ({} bytes)", first, body.len()),
        }
    }
}

/// Printable, and not too long.
fn text(b: &[u8]) -> String {
    let s: String = b.escape_ascii().map(char::from).take(200).collect();
    if s.len() == 200 {
        s + "..."
    } else {
        s
    }
}

pub fn put_len(out: &mut Vec<u8>, mut n: usize) {
    loop {
        let mut b = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            b |= 128;
        }
        out.push(b);
        if n == 0 {
            break;
        }
    }
}

pub fn put_str(out: &mut Vec<u8>, s: &[u8]) {
    out.extend_from_slice(&(s.len() as u16).to_be_bytes());
    out.extend_from_slice(s);
}

pub fn packet(first: u8, body: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(body.len() + 5);
    out.push(first);
    put_len(&mut out, body.len());
    out.extend_from_slice(body);
    out
}

pub struct ConnectOpts<'a> {
    pub id: &'a str,
    pub user: Option<&'a str>,
    pub pass: Option<&'a str>,
    pub clean: bool,
    pub keep_alive: u16,
    pub will: Option<(&'a str, &'a [u8], u8, bool)>,
    pub v31: bool,
}

pub fn connect(o: &ConnectOpts) -> Vec<u8> {
    let mut b = Vec::new();
    if o.v31 {
        put_str(&mut b, b"MQIsdp");
        b.push(3);
    } else {
        put_str(&mut b, b"MQTT");
        b.push(4);
    }
    let mut flags = 0u8;
    if o.clean {
        flags |= 2;
    }
    if let Some((_, _, q, r)) = o.will {
        flags |= 4 | (q << 3) | ((r as u8) << 5);
    }
    if o.pass.is_some() {
        flags |= 64;
    }
    if o.user.is_some() {
        flags |= 128;
    }
    b.push(flags);
    b.extend_from_slice(&o.keep_alive.to_be_bytes());
    put_str(&mut b, o.id.as_bytes());
    if let Some((t, m, _, _)) = o.will {
        put_str(&mut b, t.as_bytes());
        put_str(&mut b, m);
    }
    if let Some(u) = o.user {
        put_str(&mut b, u.as_bytes());
    }
    if let Some(p) = o.pass {
        put_str(&mut b, p.as_bytes());
    }
    packet(0x10, &b)
}

pub fn subscribe(pid: u16, filters: &[(String, u8)]) -> Vec<u8> {
    let mut b = pid.to_be_bytes().to_vec();
    for (f, q) in filters {
        put_str(&mut b, f.as_bytes());
        b.push(*q);
    }
    packet(0x82, &b)
}

pub fn unsubscribe(pid: u16, filters: &[String]) -> Vec<u8> {
    let mut b = pid.to_be_bytes().to_vec();
    for f in filters {
        put_str(&mut b, f.as_bytes());
    }
    packet(0xA2, &b)
}

pub fn publish(topic: &str, payload: &[u8], qos: u8, dup: bool, retain: bool, pid: u16) -> Vec<u8> {
    let mut b = Vec::with_capacity(payload.len() + topic.len() + 4);
    put_str(&mut b, topic.as_bytes());
    if qos > 0 {
        b.extend_from_slice(&pid.to_be_bytes());
    }
    b.extend_from_slice(payload);
    packet(0x30 | ((dup as u8) << 3) | (qos << 1) | retain as u8, &b)
}

pub fn pingreq() -> Vec<u8> {
    vec![0xC0, 0]
}

pub fn disconnect() -> Vec<u8> {
    vec![0xE0, 0]
}

/// Incremental parser of what the broker sends.
#[derive(Default)]
pub struct Parser {
    buf: Vec<u8>,
    pos: usize,
    pub total: u64,
}

impl Parser {
    pub fn feed(&mut self, d: &[u8]) {
        if self.pos > 65536 && self.pos * 2 > self.buf.len() {
            self.buf.drain(..self.pos);
            self.pos = 0;
        }
        self.buf.extend_from_slice(d);
        self.total += d.len() as u64;
    }
    pub fn pending(&self) -> usize {
        self.buf.len() - self.pos
    }
    pub fn next(&mut self) -> Result<Option<In>, String> {
        let b = &self.buf[self.pos..];
        if b.len() < 2 {
            return Ok(None);
        }
        let mut len = 0usize;
        let mut mult = 1usize;
        let mut i = 1;
        loop {
            if i >= b.len() {
                return Ok(None);
            }
            if i > 4 {
                return Err("length field longer than 4 bytes".into());
            }
            len += (b[i] & 127) as usize * mult;
            mult *= 128;
            if b[i] & 128 == 0 {
                break;
            }
            i += 1;
        }
        let start = i + 1;
        if b.len() < start + len {
            // an impossible type is an error even before the body is complete
            let t = b[0] >> 4;
            if !matches!(t, 2 | 3 | 4 | 5 | 6 | 7 | 9 | 11 | 13) {
                return Err(format!("byte {:#04x} where a packet should begin", b[0]));
            }
            return Ok(None);
        }
        let first = b[0];
        let body = &b[start..start + len];
        let r = parse_body(first, body);
        self.pos += start + len;
        r.map(Some)
    }
}

fn parse_body(first: u8, b: &[u8]) -> Result<In, String> {
    let bad = |m: &str| Err(format!("{} in packet {:#04x} of {} bytes", m, first, b.len()));
    match first >> 4 {
        2 => {
            if first != 0x20 || b.len() != 2 || b[0] > 1 {
                return bad("malformed CONNACK");
            }
            Ok(In::ConnAck { sp: b[0] == 1, code: b[1] })
        }
        3 => {
            let qos = (first >> 1) & 3;
            if qos == 3 || b.len() < 2 {
                return bad("malformed PUBLISH");
            }
            let tl = u16::from_be_bytes([b[0], b[1]]) as usize;
            let mut p = 2 + tl;
            if b.len() < p + if qos > 0 { 2 } else { 0 } {
                return bad("PUBLISH topic exceeds packet");
            }
            let topic = b[2..p].to_vec();
            let pid = if qos > 0 {
                let v = u16::from_be_bytes([b[p], b[p + 1]]);
                p += 2;
                Some(v)
            } else {
                None
            };
            Ok(In::Publish {
                qos,
                dup: first & 8 != 0,
                retain: first & 1 != 0,
                pid,
                topic,
                payload: b[p..].to_vec(),
            })
        }
        9 => {
            if first != 0x90 || b.len() < 3 {
                return bad("malformed SUBACK");
            }
            Ok(In::SubAck { pid: u16::from_be_bytes([b[0], b[1]]), codes: b[2..].to_vec() })
        }
        11 => {
            if first != 0xB0 || b.len() != 2 {
                return bad("malformed UNSUBACK");
            }
            Ok(In::UnsubAck { pid: u16::from_be_bytes([b[0], b[1]]) })
        }
        13 => {
            if first != 0xD0 || !b.is_empty() {
                return bad("malformed PINGRESP");
            }
            Ok(In::PingResp)
        }
        4..=7 => Ok(In::Other { first, body: b.to_vec() }),
        _ => Err(format!("byte {:#04x} where a packet should begin", first)),
    }
}

/// Reference matching of a topic against a filter, level by level.
pub fn matches(filter: &str, topic: &str) -> bool {
    let f: Vec<&str> = filter.split('/').collect();
    let t: Vec<&str> = topic.split('/').collect();
    let mut i = 0;
    loop {
        if i == f.len() {
            return i == t.len();
        }
        if f[i] == "#" && i + 1 == f.len() {
            return t.len() > i;
        }
        if i >= t.len() {
            return false;
        }
        if f[i] != "+" && f[i] != t[i] {
            return false;
        }
        i += 1;
    }
}
