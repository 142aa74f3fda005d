//! Looks for passwords and password hashes in what the broker lets out: its log, its standard
//! output, the texts of its panics and the bytes it sends.
use std::collections::HashSet;
use std::sync::Mutex;
use tokio::sim::Rng;

struct Leak {
    /// Any eight successive bytes of a secret.
    eight: HashSet<u64>,
    /// Two successive characters from far away.
    six: HashSet<u64>,
    /// Short secrets, only as a whole.
    words: Vec<Vec<u8>>,
    found: Vec<String>,
    scanned: u64,
    records: u64,
}

static LEAK: Mutex<Option<Leak>> = Mutex::new(None);

const FAR: (u32, u32) = (0x4E00, 0x9FA0);

fn fnv(s: &str, mut h: u64) -> u64 {
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// Makes a password one that cannot turn up anywhere by accident, the same for the same password.
pub fn mark(pass: &str, salt: u64) -> String {
    if pass.is_empty() {
        return String::new();
    }
    let mut r = Rng::new(fnv(pass, salt ^ 0xcbf29ce484222325));
    r.next();
    let style = r.below(5);
    let (a, b) = token(&mut r, style < 2);
    if style == 4 {
        return a.chars().take(6 + r.below(2) as usize).collect();
    }
    format!("{}{}{}", a, pass, b)
}

/// Only characters of one byte.
pub fn mark_plain(pass: &str, salt: u64) -> String {
    let mut r = Rng::new(fnv(pass, salt ^ 0x9ae16a3b2f90404f));
    r.next();
    let (a, b) = token(&mut r, false);
    format!("{}{}{}", a, pass, b)
}

fn token(r: &mut Rng, far: bool) -> (String, String) {
    const AB: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
    let near = |r: &mut Rng| (0..9).map(|_| AB[r.below(AB.len() as u64) as usize] as char).collect::<String>();
    let wide = |r: &mut Rng| {
        (0..3).map(|_| char::from_u32(FAR.0 + r.below((FAR.1 - FAR.0) as u64) as u32).unwrap_or('x')).collect::<String>()
    };
    let (a, b) = (near(r), near(r));
    if far {
        (format!("{}{}", wide(r), a), format!("{}{}", b, wide(r)))
    } else {
        (a, b)
    }
}

fn word(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| a << 8 | *x as u64)
}

/// From here on these are looked for.
pub fn watch(marked: &[String], hashes: &[String]) {
    let mut l = Leak { eight: HashSet::new(), six: HashSet::new(), words: Vec::new(), found: Vec::new(), scanned: 0, records: 0 };
    for s in marked.iter().filter(|s| !s.is_empty()) {
        let b = s.as_bytes();
        // the marks at both ends, not the word between them, which may be anywhere
        let c: Vec<char> = s.chars().collect();
        if c.len() < 9 {
            l.words.push(b.to_vec());
            continue;
        }
        let far = |c: &char| (FAR.0..FAR.1).contains(&(*c as u32));
        let n = if c.first().map_or(false, far) { 12 } else { 9 };
        let head: usize = c.iter().take(n).map(|c| c.len_utf8()).sum();
        let tail: usize = c.iter().rev().take(n).map(|c| c.len_utf8()).sum();
        for part in [&b[..head.min(b.len())], &b[b.len() - tail.min(b.len())..]] {
            for w in part.windows(8) {
                l.eight.insert(word(w));
            }
        }
        for w in c.windows(2) {
            if far(&w[0]) && far(&w[1]) {
                let t: String = w.iter().collect();
                l.six.insert(word(t.as_bytes()));
            }
        }
    }
    for s in hashes {
        for w in s.as_bytes().windows(8) {
            l.eight.insert(word(w));
        }
    }
    *LEAK.lock().unwrap() = Some(l);
}

pub fn found() -> (Vec<String>, u64, u64) {
    match LEAK.lock().unwrap().take() {
        Some(l) => (l.found, l.scanned, l.records),
        None => (Vec::new(), 0, 0),
    }
}

impl Leak {
    fn plain(&self, b: &[u8]) -> bool {
        let mut w = 0u64;
        for (i, x) in b.iter().enumerate() {
            w = w << 8 | *x as u64;
            if i >= 7 && self.eight.contains(&w) {
                return true;
            }
            if i >= 5 && *x >= 0x80 && self.six.contains(&(w & 0xFFFF_FFFF_FFFF)) {
                return true;
            }
        }
        self.words.iter().any(|s| b.windows(s.len()).any(|x| x == &s[..]))
    }

    /// The bytes, and what they may be an encoding of.
    fn anyhow(&self, b: &[u8]) -> Option<&'static str> {
        if self.plain(b) {
            return Some("as it is");
        }
        if self.plain(&decimals(b)) {
            return Some("as a list of numbers");
        }
        if self.plain(&escapes(b)) {
            return Some("with escapes");
        }
        if hexes(b).iter().any(|v| self.plain(v)) {
            return Some("in hexadecimal");
        }
        if base64s(b).iter().any(|v| self.plain(v)) {
            return Some("in base64");
        }
        let back: Vec<u8> = b.iter().rev().copied().collect();
        if self.plain(&back) {
            return Some("backwards");
        }
        None
    }
}

/// `97, 98, 99` as bytes; anything else in between ends a list.
fn decimals(b: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let s = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            match std::str::from_utf8(&b[s..i]).ok().and_then(|t| t.parse::<u8>().ok()) {
                Some(v) => out.push(v),
                None => out.push(0),
            }
        } else {
            if !matches!(b[i], b',' | b' ' | b'\n') {
                if out.last().map_or(false, |l| *l != 0) {
                    out.push(0);
                }
            }
            i += 1;
        }
    }
    out
}

/// `\xe4`, `\u{4e00}` and the like.
fn escapes(b: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() {
            let h = |s: &[u8]| std::str::from_utf8(s).ok().and_then(|t| u32::from_str_radix(t, 16).ok());
            match b[i + 1] {
                b'x' if i + 4 <= b.len() => {
                    if let Some(v) = h(&b[i + 2..i + 4]) {
                        out.push(v as u8);
                        i += 4;
                        continue;
                    }
                }
                b'u' if i + 2 < b.len() && b[i + 2] == b'{' => {
                    if let Some(e) = b[i..].iter().position(|c| *c == b'}') {
                        if let Some(c) = h(&b[i + 3..i + e]).and_then(char::from_u32) {
                            let mut t = [0u8; 4];
                            out.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                            i += e + 1;
                            continue;
                        }
                    }
                }
                _ => {
                    i += 1;
                    continue;
                }
            }
        }
        out.push(b[i]);
        i += 1;
    }
    out
}

/// Runs of hexadecimal digits, at both alignments, with or without something between the pairs.
fn hexes(b: &[u8]) -> Vec<Vec<u8>> {
    let v = |c: u8| (c as char).to_digit(16).map(|d| d as u8);
    let mut all = Vec::new();
    for tight in [true, false] {
        let mut run: Vec<u8> = Vec::new();
        let mut flush = |run: &mut Vec<u8>| {
            if run.len() >= 12 {
                for a in 0..2 {
                    all.push(run[a..].chunks_exact(2).map(|c| c[0] << 4 | c[1]).collect::<Vec<u8>>());
                }
            }
            run.clear();
        };
        let mut i = 0;
        while i < b.len() {
            if !tight && b[i] == b'0' && i + 1 < b.len() && b[i + 1] == b'x' {
                i += 2;
                continue;
            }
            match v(b[i]) {
                Some(d) => run.push(d),
                None if !tight && matches!(b[i], b' ' | b',' | b':' | b'-' | b'\n') => {}
                None => flush(&mut run),
            }
            i += 1;
        }
        flush(&mut run);
    }
    all
}

fn base64s(b: &[u8]) -> Vec<Vec<u8>> {
    let v = |c: u8| match c {
        b'A'..=b'Z' => Some(c - b'A'),
        b'a'..=b'z' => Some(c - b'a' + 26),
        b'0'..=b'9' => Some(c - b'0' + 52),
        b'+' | b'-' => Some(62),
        b'/' | b'_' => Some(63),
        _ => None,
    };
    let mut all = Vec::new();
    let mut run: Vec<u8> = Vec::new();
    for i in 0..=b.len() {
        match b.get(i).and_then(|c| v(*c)) {
            Some(d) => run.push(d),
            None => {
                if run.len() >= 12 {
                    for a in 0..4 {
                        all.push(
                            run[a..]
                                .chunks_exact(4)
                                .flat_map(|c| [c[0] << 2 | c[1] >> 4, c[1] << 4 | c[2] >> 2, c[2] << 6 | c[3]])
                                .collect::<Vec<u8>>(),
                        );
                    }
                }
                run.clear();
            }
        }
    }
    all
}

/// Something that left the broker.
pub fn out(place: &str, b: &[u8]) {
    let mut g = match LEAK.lock() {
        Ok(g) => g,
        Err(_) => return,
    };
    let Some(l) = g.as_mut() else { return };
    l.scanned += b.len() as u64;
    l.records += 1;
    if l.found.len() >= 5 {
        return;
    }
    if let Some(how) = l.anyhow(b) {
        let t: String = String::from_utf8_lossy(b).chars().take(160).collect();
        l.found.push(format!("{} contains a password or the hash of one {}: {}", place, how, t));
    }
}

/// Raw bytes only.
pub fn sent(place: &str, b: &[u8]) {
    let mut g = match LEAK.lock() {
        Ok(g) => g,
        Err(_) => return,
    };
    let Some(l) = g.as_mut() else { return };
    l.scanned += b.len() as u64;
    if l.found.len() < 5 && l.plain(b) {
        l.found.push(format!("{} contain a password or the hash of one", place));
    }
}

pub fn on() -> bool {
    LEAK.lock().map(|g| g.is_some()).unwrap_or(false)
}

/// Standard output and standard error of this process go to a file in memory.
pub fn capture() -> i32 {
    unsafe {
        let fd = libc::memfd_create(b"out\0".as_ptr() as *const _, 0);
        if fd >= 0 {
            libc::dup2(fd, 1);
            libc::dup2(fd, 2);
        }
        fd
    }
}

/// What was printed.
pub fn captured(fd: i32) -> Vec<u8> {
    let mut v = Vec::new();
    let mut b = [0u8; 65536];
    let mut at = 0;
    loop {
        let n = unsafe { libc::pread(fd, b.as_mut_ptr() as *mut _, b.len(), at) };
        if n <= 0 {
            return v;
        }
        v.extend_from_slice(&b[..n as usize]);
        at += n as i64;
    }
}
