//! Seeded generation of plans, per property.
use crate::mqtt;
use crate::plan::*;
use tokio::sim::Rng;

pub struct G {
    pub r: Rng,
    pub p: Plan,
    key: u32,
    meet: u32,
    /// The vocabulary of client ids and of topic levels of this plan.
    idk: u64,
    idlen: usize,
    lvk: u64,
    base: String,
    /// The user most attempts of this plan are about.
    focus: Option<usize>,
    /// What most topics and filters of this plan begin with.
    stem: String,
}

pub const USERS: [(&str, &str); 6] = [
    ("alice", "secret"),
    ("Alice", "Secret2"),
    ("al", "x"),
    ("bob", "p@ss:w$rd 1"),
    ("bob.smith", "long password with spaces and ünïcode"),
    ("zed", ""),
];

fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
}

fn pick<'a, T>(r: &mut Rng, v: &'a [T]) -> &'a T {
    &v[r.below(v.len() as u64) as usize]
}

impl G {
    pub fn new(property: &str, seed: u64) -> G {
        let mut r = Rng::new(seed);
        r.next();
        let dseed = r.next();
        let entropy = r.next();
        let mut g = G {
            r,
            p: Plan {
                property: property.to_string(),
                scenario: String::new(),
                seed: dseed,
                entropy,
                knobs: KnobsS::default(),
                listeners: 1,
                users: USERS.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
                no_final_newline: false,
                useless: Vec::new(),
                addresses: 0,
                passwd_file: None,
                secrets: Vec::new(),
                log: "off".into(),
                phases: Vec::new(),
                interrupt: None,
                memory: false,
                ceiling: 0,
                setup: None,
            },
            key: 1,
            meet: 1,
            idk: 0,
            idlen: 0,
            lvk: 0,
            base: String::new(),
            focus: None,
            stem: String::new(),
        };
        g.knobs();
        g.vocabulary();
        g
    }

    fn n(&mut self, a: u64, b: u64) -> u64 {
        a + self.r.below(b - a + 1)
    }
    fn chance(&mut self, pct: u64) -> bool {
        self.r.below(100) < pct
    }

    fn knobs(&mut self) {
        let r = &mut self.r;
        let k = &mut self.p.knobs;
        k.policy = pick(r, &["fifo", "random", "random", "random", "priority", "priority", "lifo"]).to_string();
        k.p_yield = *pick(r, &[0, 0, 0, 1500, 8000, 20000]);
        k.p_short_read = *pick(r, &[0, 0, 3000, 20000, 60000]);
        k.p_short_write = *pick(r, &[0, 0, 3000, 20000, 60000]);
        k.p_latency = *pick(r, &[0, 2000, 20000, 60000]);
        k.latency_unit = *pick(r, &[200, 2_000, 20_000, 50_000]);
        k.base_latency = *pick(r, &[1_000, 20_000, 500_000]);
        k.p_slow = *pick(r, &[0, 0, 0, 0, 200, 1500]);
        k.sock_buf = *pick(r, &[65536, 65536, 65536, 262144, 8192, 4096, 1500, 400, 128]);
        self.p.no_final_newline = r.below(3) == 0;
        self.p.log = pick(r, &["off", "off", "off", "off", "info", "debug", "trace"]).to_string();
    }

    fn vocabulary(&mut self) {
        let r = &mut self.r;
        self.idk = if r.below(100) < 50 { 0 } else { 1 + r.below(12) };
        self.idlen = *pick(r, &[22, 23, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 1000]);
        self.p.addresses = *pick(r, &[0, 0, 1, 2]);
        self.lvk = if r.below(100) < 55 { 0 } else { 1 + r.below(8) };
        let k = &self.p.knobs;
        let slow = k.sock_buf < 1000 || k.p_short_read >= 20000 || k.p_short_write >= 20000;
        if slow && self.lvk == 2 {
            self.lvk = 1;
        }
        let n = *pick(r, &[29, 30, 31, 60, 61, 62, 63, 64, 65, 120, 127, 128, 250, 255, 256, 300]);
        self.base = G::long_level(r, n);
        if r.below(100) < 8 {
            // a great many levels
            let n = *pick(r, &[7usize, 8, 9, 14, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 255, 256, 257]);
            let n = if slow { n.min(40) } else { n };
            self.stem = match r.below(3) {
                0 => "l/".repeat(n),
                1 => "/".repeat(n),
                _ => (0..n).map(|i| format!("{}/", i % 10)).collect(),
            };
        }
    }

    /// About `n` bytes, with characters of several bytes at odd offsets.
    fn long_level(r: &mut Rng, n: usize) -> String {
        let mut s = String::new();
        while s.len() < n {
            match r.below(6) {
                0 => s.push('é'),
                1 => s.push('Ж'),
                2 => s.push('€'),
                3 => s.push('🐀'),
                _ => s.push((b'a' + r.below(26) as u8) as char),
            }
        }
        s
    }

    /// A network so slow that a run's own bytes would take minutes to pass is made faster:
    /// nobody could tell it from one that is stuck.
    fn affordable(&mut self) {
        let bytes: u64 = self
            .p
            .phases
            .iter()
            .flat_map(|p| p.scripts.iter())
            .flat_map(|s| s.ops.iter())
            .map(|o| match o {
                Op::Pub { topics, n, size, size2, .. } => {
                    let t = topics.iter().map(|t| t.len()).max().unwrap_or(0) as u64;
                    *n as u64 * (t + 30 + (*size).max(*size2) as u64)
                }
                Op::Raw { hex, .. } | Op::Legal { hex, .. } | Op::Partial { hex } => hex.len() as u64 / 2,
                _ => 200,
            })
            .sum();
        let k = &mut self.p.knobs;
        let windows = bytes / k.sock_buf.max(1) as u64 + 1;
        let most = 20_000_000_000 / windows;
        k.base_latency = k.base_latency.min(most);
        if k.p_latency > 0 {
            // the longest delay is unit * 63 * 63
            k.latency_unit = k.latency_unit.min((most / 3969).max(1));
        }
    }

    /// Keeps runs with tiny buffers or single-byte I/O small.
    fn byte_budget(&self) -> u64 {
        let k = &self.p.knobs;
        let mut b: u64 = 3_000_000;
        if k.sock_buf < 1000 {
            b = b.min(k.sock_buf as u64 * 1500);
        }
        if k.p_short_read >= 20000 || k.p_short_write >= 20000 {
            b = b.min(400_000);
        }
        b
    }

    fn size(&mut self) -> u32 {
        if self.byte_budget() >= 3_000_000 && self.p.knobs.sock_buf >= 8192 && self.r.below(250) == 0 {
            return 200_000 + self.r.below(1_300_000) as u32;
        }
        let r = &mut self.r;
        match r.below(20) {
            0 => 0,
            1 => r.below(16) as u32,
            2..=9 => 10 + r.below(60) as u32,
            10 | 11 => 100 + r.below(60) as u32,
            12 | 13 => 300 + r.below(3000) as u32,
            14 | 15 => 4060 + r.below(80) as u32,
            16 => 8150 + r.below(80) as u32,
            17 => 16340 + r.below(60) as u32,
            18 => 20_000 + r.below(60_000) as u32,
            _ => 60 + r.below(200) as u32,
        }
    }

    fn key(&mut self) -> u32 {
        self.key += 1;
        self.key
    }

    fn chunk(&mut self) -> Chunk {
        let r = &mut self.r;
        match r.below(10) {
            0..=3 => Chunk::Whole,
            4 | 5 => Chunk::Join,
            6 => Chunk::Bytes,
            7 | 8 => Chunk::Cut {
                max: *pick(r, &[2, 7, 40, 1000, 4096, 9000]),
                gap_us: *pick(r, &[0, 0, 50, 2000]),
            },
            _ => Chunk::Tail { back: 1 + r.below(6) as u32, gap_us: *pick(r, &[0, 100, 30_000]) },
        }
    }

    pub fn level(&mut self) -> String {
        if self.r.below(60) == 0 {
            let n = 20 + self.r.below(120) as usize;
            return G::long_level(&mut self.r, n);
        }
        let r = &mut self.r;
        match self.lvk {
            // one a prefix or a suffix of the other
            1 => pick(r, &["s", "se", "sen", "sens", "sensor", "sensor1", "sensor10", "sensor11", "1", "r1", ""]).to_string(),
            // long, and different only at the end or at the beginning
            2 => {
                let b = self.base.clone();
                match r.below(5) {
                    0 => b,
                    1 => format!("{}a", b),
                    2 => format!("{}b", b),
                    3 => format!("a{}", b),
                    _ => "x".into(),
                }
            }
            // looks alike
            3 => pick(r, &["é", "e\u{301}", "É", "e", "ß", "ss", "i", "ı", "İ", "I", "k", "\u{212a}", "K"]).to_string(),
            4 => pick(r, &[" ", "  ", "a", "a ", " a", "a\t", "1", "01", "1.0", "1e0", "-1", "", "null", "\u{a0}", "a\u{200b}"]).to_string(),
            5 => pick(r, &["a$", "x$SYS", "SYS", "a", "b", "%", "%2F", "\\", "..", ".", "*", ">", "a*", "a.b", "a%b", "\"", "?"]).to_string(),
            // very many
            6 => format!("n{}", r.below(48)),
            // few, so that paths share long beginnings
            7 => pick(r, &["a", "a", "a", "b", ""]).to_string(),
            // what some take for nothing, and what some take for something else
            8 => pick(
                r,
                &[
                    "\u{feff}", "\u{feff}a", "a\u{feff}", "a", "\u{200b}a", "a\u{200d}", "\u{202e}a", "\u{2028}", "\u{fffd}", "\u{1f400}", "\u{f400}",
                    "\u{ac01}", "\u{1100}\u{1161}\u{11a8}", "\u{ff41}", "\u{430}", "", "ﬁ", "fi",
                ],
            )
            .to_string(),
            _ => pick(r, &["a", "a", "b", "b", "c", "", "aa", "A", "ab", "0", "é", "sensor temp", "a.b"]).to_string(),
        }
    }

    fn depth(&mut self) -> u64 {
        match self.r.below(40) {
            0..=11 => 1,
            12..=26 => 2,
            27..=34 => 3,
            35..=38 => 4,
            _ => 5 + self.r.below(26),
        }
    }

    pub fn topic(&mut self) -> String {
        loop {
            let d = self.depth();
            let v: Vec<String> = (0..d).map(|_| self.level()).collect();
            let t = v.join("/");
            let t = if self.stem.is_empty() || self.r.below(4) == 0 { t } else { format!("{}{}", self.stem, t) };
            if !t.is_empty() {
                return t;
            }
        }
    }

    pub fn filter(&mut self) -> String {
        loop {
            let d = self.depth();
            let mut v: Vec<String> = (0..d)
                .map(|_| if self.r.below(4) == 0 { "+".to_string() } else { self.level() })
                .collect();
            match self.r.below(8) {
                0 => v.push("#".into()),
                1 => *v.last_mut().unwrap() = "#".into(),
                _ => {}
            }
            let t = v.join("/");
            let t = if self.stem.is_empty() || self.r.below(4) == 0 {
                t
            } else if self.r.below(3) == 0 {
                // with a wildcard somewhere on the way
                let mut v: Vec<&str> = self.stem.split('/').collect();
                let n = v.len() - 1;
                v[self.r.below(n as u64) as usize] = "+";
                format!("{}{}", v.join("/"), t)
            } else {
                format!("{}{}", self.stem, t)
            };
            if !t.is_empty() {
                return t;
            }
        }
    }

    /// A topic close to what `f` matches.
    pub fn topic_near(&mut self, f: &str) -> String {
        for _ in 0..8 {
            let mut v: Vec<String> = Vec::new();
            for l in f.split('/') {
                match l {
                    "+" => {
                        let l = self.level();
                        v.push(l)
                    }
                    "#" => {
                        for _ in 0..self.r.below(4) {
                            let l = self.level();
                            v.push(l);
                        }
                    }
                    l => v.push(l.to_string()),
                }
            }
            match self.r.below(12) {
                0 => {
                    let l = self.level();
                    v.push(l)
                }
                1 => {
                    v.pop();
                }
                2 => {
                    let i = self.r.below(v.len() as u64 + 1) as usize;
                    let l = self.level();
                    v.insert(i.min(v.len()), l);
                }
                3 => {
                    if !v.is_empty() {
                        let i = self.r.below(v.len() as u64) as usize;
                        v[i] = self.level();
                    }
                }
                4 => {
                    if !v.is_empty() {
                        let i = self.r.below(v.len() as u64) as usize;
                        v[i] = v[i].to_uppercase();
                    }
                }
                5 => v.push(String::new()),
                6 => v.insert(0, String::new()),
                _ => {}
            }
            let t = v.join("/");
            if !t.is_empty() {
                return t;
            }
        }
        "a".into()
    }

    fn matching_topic(&mut self, f: &str) -> String {
        for _ in 0..40 {
            let t = self.topic_near(f);
            if t.len() <= 65_535 && mqtt::matches(f, &t) {
                return t;
            }
        }
        let v: Vec<&str> = f.split('/').map(|l| if l == "+" || l == "#" { "z" } else { l }).collect();
        let t = v.join("/");
        if t.is_empty() {
            "z".into()
        } else {
            t
        }
    }

    fn id(&mut self, slot: usize) -> String {
        let long = |n: usize| -> String { self.base.chars().cycle().take(n).collect() };
        match self.idk {
            1 => return format!("n{}", "1".repeat(slot)),
            2 => return format!("{}n", "1".repeat(slot)),
            3 => {
                // the letters' case tells them apart
                let name = "clientclientclient";
                return name
                    .chars()
                    .enumerate()
                    .map(|(i, c)| if slot >> i & 1 == 1 { c.to_ascii_uppercase() } else { c })
                    .collect();
            }
            4 => return format!("{}{}", "p".repeat(self.idlen), slot),
            5 => return format!("{}{}", slot, "s".repeat(self.idlen)),
            6 => return format!("c{}", " ".repeat(slot)),
            7 => return format!("{}1", "0".repeat(slot)),
            8 => {
                // composed and decomposed letters
                return (0..8).map(|i| if slot >> i & 1 == 1 { "e\u{301}" } else { "é" }).collect();
            }
            9 => return pick(&mut self.r, &["a/{}", "+/{}", "#{}", "$SYS/{}", "{}/#"]).replace("{}", &slot.to_string()),
            10 => return format!("00000000-0000-4000-8000-{:012x}", slot),
            11 => return format!("{}{}", long(self.idlen.min(128)), slot),
            12 => return format!("{}c{}", ["", "\u{feff}", "\u{200b}", "\u{2060}"][slot % 4], slot / 4),
            _ => {}
        }
        match self.r.below(12) {
            0 => format!("C{}", slot),
            1 => format!("c{}{}", slot, slot),
            2 => format!("клиент-{}", slot),
            3 => format!("c{}-{}", slot, "x".repeat(self.r.below(300) as usize)),
            4 => format!("c{} with spaces/and+#", slot),
            _ => format!("c{}", slot),
        }
    }

    fn connect(&mut self, id: &str, wait: bool) -> Op {
        let l = self.p.listeners as u64;
        let (user, pass) = if self.chance(25) {
            let u = *pick(&mut self.r, &USERS);
            (Some(u.0.to_string()), Some(u.1.to_string()))
        } else {
            (None, None)
        };
        let will = if self.chance(8) {
            let n = *pick(&mut self.r, &[0usize, 1, 20, 300, 5000]);
            let t = *pick(&mut self.r, &["w", "will/topic", "é/ w"]);
            Some((t.to_string(), "m".repeat(n), self.r.below(3) as u8, self.r.below(2) == 0))
        } else {
            None
        };
        Op::Connect {
            id: id.to_string(),
            user,
            pass,
            clean: !self.chance(12),
            keep_alive: if self.chance(70) { 0 } else { self.n(3000, 65535) as u16 },
            will,
            listener: self.r.below(l) as usize,
            wait,
        }
    }

    fn sub(&mut self, filters: Vec<String>, wait: bool) -> Op {
        let f = filters.into_iter().map(|f| (f, self.r.below(3) as u8)).collect();
        Op::Sub { filters: f, wait }
    }

    fn publish(&mut self, topics: Vec<String>, n: u32, size: u32, size2: u32) -> Op {
        let tiny = size < 14 && self.chance(60);
        let qos = if self.chance(15) { self.n(1, 2) as u8 } else { 0 };
        Op::Pub {
            key: self.key(),
            topics,
            n,
            size,
            size2,
            qos,
            dup: qos > 0 && self.chance(30),
            retain: self.chance(8),
            tiny,
        }
    }

    fn end_op(&mut self) -> Op {
        match self.r.below(8) {
            0 | 1 => Op::Disc { then: 0 },
            2 => Op::Disc { then: 1 },
            3 => Op::Disc { then: 2 },
            4 | 5 => Op::Close,
            6 => Op::Abort,
            _ => Op::HalfClose,
        }
    }

    fn phase(&mut self, scripts: Vec<Script>) {
        self.p.phases.push(Phase { scripts });
    }

    fn script(&mut self, slot: usize, ops: Vec<Op>) -> Script {
        let chunk = self.chunk();
        Script { slot, chunk, ops }
    }

    fn plain(&mut self, slot: usize, ops: Vec<Op>) -> Script {
        Script { slot, chunk: Chunk::Whole, ops }
    }

    fn sleep(&mut self, max_us: u64) -> Op {
        let us = match self.r.below(4) {
            0 => 0,
            1 => self.r.below(200),
            2 => self.r.below(max_us / 10 + 1),
            _ => self.r.below(max_us + 1),
        };
        Op::Sleep { us }
    }

    fn valid_packet(&mut self) -> (Vec<u8>, String) {
        let t = self.topic();
        let f = self.filter();
        match self.r.below(6) {
            0 => (mqtt::publish(&t, b"x-hostile", 0, false, false, 0), "PUBLISH".into()),
            1 => (mqtt::subscribe(7, &[(f, 1)]), "SUBSCRIBE".into()),
            2 => (mqtt::unsubscribe(8, &[f]), "UNSUBSCRIBE".into()),
            3 => (mqtt::pingreq(), "PINGREQ".into()),
            4 => (mqtt::disconnect(), "DISCONNECT".into()),
            _ => {
                let id = format!("hostile-{}", self.r.next());
                (
                    mqtt::connect(&mqtt::ConnectOpts {
                        id: &id,
                        user: Some("alice"),
                        pass: Some("secret"),
                        clean: true,
                        keep_alive: 10,
                        will: Some(("w", b"m", 1, false)),
                        v31: false,
                    }),
                    "CONNECT".into(),
                )
            }
        }
    }

    /// A packet that violates the format, why, and messages in it that must never be delivered.
    pub fn malformed(&mut self) -> (Vec<u8>, String, Vec<Ghost>) {
        let t = self.topic();
        let k = self.key();
        let payload = format!("ghost.{}", k);
        let ghost = vec![Ghost { topic: t.clone(), payload: payload.clone() }];
        let pl = payload.as_bytes();
        let f = self.filter();
        let pid = 1 + self.r.below(65535) as u16;
        let mut g = Vec::new();
        let str16 = |s: &[u8]| {
            let mut v = Vec::new();
            mqtt::put_str(&mut v, s);
            v
        };
        let (bytes, why): (Vec<u8>, String) = match self.r.below(44) {
            0 => (mqtt::packet(0x00, &self.junk(6)), "packet type 0".into()),
            1 => (mqtt::packet(0xF0 | self.r.below(16) as u8, &self.junk(6)), "packet type 15".into()),
            2 => (mqtt::packet(0x20, &[0, 0]), "CONNACK from a client".into()),
            3 => (mqtt::packet(0x90, &[0, 1, 0]), "SUBACK from a client".into()),
            4 => (mqtt::packet(0xB0, &[0, 1]), "UNSUBACK from a client".into()),
            5 => (mqtt::packet(0xD0, &[]), "PINGRESP from a client".into()),
            6 => {
                let mut b = str16(t.as_bytes());
                b.extend_from_slice(&pid.to_be_bytes());
                b.extend_from_slice(pl);
                g = ghost;
                (mqtt::packet(0x36 | (self.r.below(2) as u8) << 3 | self.r.below(2) as u8, &b), "PUBLISH with QoS 3".into())
            }
            7 => {
                let mut b = pid.to_be_bytes().to_vec();
                b.extend(str16(f.as_bytes()));
                b.push(0);
                let fl = [0x80, 0x81, 0x83, 0x8A, 0x8F];
                (mqtt::packet(*pick(&mut self.r, &fl), &b), "SUBSCRIBE with wrong flags".into())
            }
            8 => {
                let mut b = pid.to_be_bytes().to_vec();
                b.extend(str16(f.as_bytes()));
                let fl = [0xA0, 0xA1, 0xA3, 0xAA];
                (mqtt::packet(*pick(&mut self.r, &fl), &b), "UNSUBSCRIBE with wrong flags".into())
            }
            9 => {
                let fl = [0x41, 0x42, 0x48, 0x51, 0x58, 0x60, 0x61, 0x6A, 0x71, 0x72];
                (mqtt::packet(*pick(&mut self.r, &fl), &pid.to_be_bytes()), "acknowledgement with wrong flags".into())
            }
            10 => {
                let fl = [0xC1, 0xC2, 0xC8, 0xCF];
                (mqtt::packet(*pick(&mut self.r, &fl), &[]), "PINGREQ with wrong flags".into())
            }
            11 => {
                let fl = [0xE1, 0xE2, 0xE8, 0xEF];
                (mqtt::packet(*pick(&mut self.r, &fl), &[]), "DISCONNECT with wrong flags".into())
            }
            12 => {
                let ty = [0x30, 0x82, 0xC0, 0x10, 0xE0];
                let last = *pick(&mut self.r, &[0x00, 0x01, 0x7F, 0x80, 0xFF]);
                let b = *pick(&mut self.r, &[0x80, 0x81, 0xFF]);
                (vec![*pick(&mut self.r, &ty), b, b, b, b, last], "length field of five bytes".into())
            }
            13 => (vec![0x30, 0], "PUBLISH of length 0".into()),
            14 => (vec![0x30, 1, 0], "PUBLISH of length 1".into()),
            15 => {
                // topic longer than the packet: what follows could be taken for the topic
                let mut b = ((t.len() + 3 + self.r.below(40) as usize) as u16).to_be_bytes().to_vec();
                b.extend_from_slice(t.as_bytes());
                (mqtt::packet(0x30, &b), "PUBLISH topic longer than the packet".into())
            }
            16 => {
                let b = str16(t.as_bytes());
                let b2 = if self.chance(50) { b } else { [b, vec![1]].concat() };
                (mqtt::packet(0x32 + 2 * self.r.below(2) as u8, &b2), "PUBLISH with QoS but no packet id".into())
            }
            17 => (vec![0x82, 0], "SUBSCRIBE of length 0".into()),
            18 => (vec![0x82, 1, 9], "SUBSCRIBE of length 1".into()),
            19 => (mqtt::packet(0x82, &pid.to_be_bytes()), "SUBSCRIBE without filters".into()),
            20 => {
                let mut b = pid.to_be_bytes().to_vec();
                b.extend(str16(f.as_bytes()));
                (mqtt::packet(0x82, &b), "SUBSCRIBE without QoS byte".into())
            }
            21 => {
                let mut b = pid.to_be_bytes().to_vec();
                b.extend(str16(f.as_bytes()));
                b.push(0);
                b.extend_from_slice(&((t.len() + 1 + self.r.below(30) as usize) as u16).to_be_bytes());
                b.extend_from_slice(t.as_bytes());
                (mqtt::packet(0x82, &b), "SUBSCRIBE filter longer than the packet".into())
            }
            22 => {
                let mut b = pid.to_be_bytes().to_vec();
                b.extend(str16(f.as_bytes()));
                b.push(*pick(&mut self.r, &[3, 4, 0x80, 0xFF]));
                if self.chance(40) {
                    b.extend(str16(b"#"));
                    b.push(0);
                }
                (mqtt::packet(0x82, &b), "SUBSCRIBE asking for QoS above 2".into())
            }
            23 => {
                let mut b = pid.to_be_bytes().to_vec();
                b.extend(str16(f.as_bytes()));
                b.push(0);
                b.push(0);
                (mqtt::packet(0x82, &b), "SUBSCRIBE with a trailing byte".into())
            }
            24 => (mqtt::packet(0xA2, &pid.to_be_bytes()), "UNSUBSCRIBE without filters".into()),
            25 => {
                let mut b = pid.to_be_bytes().to_vec();
                b.extend_from_slice(&((f.len() + 1 + self.r.below(30) as usize) as u16).to_be_bytes());
                b.extend_from_slice(f.as_bytes());
                (mqtt::packet(0xA2, &b), "UNSUBSCRIBE filter longer than the packet".into())
            }
            26 => {
                let n = self.r.below(2);
                let b = if n == 0 { vec![] } else { vec![1] };
                (mqtt::packet(0xA2, &b), "UNSUBSCRIBE shorter than a packet id".into())
            }
            27 => {
                let n = 1 + self.r.below(5) as usize;
                (mqtt::packet(0xC0, &self.junk(n)), "PINGREQ with a body".into())
            }
            28 => {
                let n = 1 + self.r.below(5) as usize;
                (mqtt::packet(0xE0, &self.junk(n)), "DISCONNECT with a body".into())
            }
            29 => {
                let ty = *pick(&mut self.r, &[0x40, 0x50, 0x62, 0x70]);
                let n = *pick(&mut self.r, &[0usize, 1, 3, 4]);
                let mut b = pid.to_be_bytes().to_vec();
                b.extend_from_slice(&[0, 1]);
                b.truncate(n);
                (mqtt::packet(ty, &b), "acknowledgement of wrong length".into())
            }
            30 => {
                let mut bad = t.as_bytes().to_vec();
                let seqs: [&[u8]; 5] = [&[0xFF], &[0xC3], &[0xED, 0xA0, 0x80], &[0xF5, 0x80, 0x80, 0x80], &[0x80]];
                let i = self.r.below(bad.len() as u64 + 1) as usize;
                let s = *pick(&mut self.r, &seqs);
                // not in the middle of a character
                let i = if t.is_char_boundary(i) { i } else { 0 };
                bad.splice(i..i, s.iter().copied());
                let mut b = str16(&bad);
                b.extend_from_slice(pl);
                (mqtt::packet(0x30, &b), "PUBLISH topic that is not UTF-8".into())
            }
            31 => {
                let mut b = pid.to_be_bytes().to_vec();
                b.extend(str16(f.as_bytes()));
                b.push(0);
                b.extend(str16(&[0x61, 0xFE]));
                b.push(0);
                (mqtt::packet(0x82, &b), "SUBSCRIBE filter that is not UTF-8".into())
            }
            32 => {
                let mut b = pid.to_be_bytes().to_vec();
                b.extend(str16(&[0xC0, 0x80]));
                (mqtt::packet(0xA2, &b), "UNSUBSCRIBE filter that is not UTF-8".into())
            }
            33 | 34 => {
                // in place of a level or beside something else
                let w = *pick(&mut self.r, &["+", "#"]);
                let mut v: Vec<String> = t.split('/').map(String::from).collect();
                let i = self.r.below(v.len() as u64) as usize;
                match self.r.below(4) {
                    0 => v[i] = w.into(),
                    1 => v.push(w.into()),
                    2 => v[i] = format!("{}{}", v[i], w),
                    _ => v[i] = format!("{}{}", w, v[i]),
                }
                let t = v.join("/");
                let q = self.r.below(3) as u8;
                g = vec![Ghost { topic: t.clone(), payload: payload.clone() }];
                (mqtt::publish(&t, pl, q, false, false, pid), "PUBLISH on a topic with a wildcard".into())
            }
            35 => (mqtt::publish("", pl, 0, false, false, 0), "PUBLISH without a topic".into()),
            36 => {
                let mut t = t.clone();
                let i = self.r.below(t.len() as u64 + 1) as usize;
                t.insert(if t.is_char_boundary(i) { i } else { 0 }, '\0');
                g = vec![Ghost { topic: t.clone(), payload: payload.clone() }];
                (mqtt::publish(&t, pl, 0, false, false, 0), "PUBLISH topic with a null character".into())
            }
            37 | 38 => {
                let bad = self.bad_filter(&f);
                let mut fs = vec![(bad, self.r.below(3) as u8)];
                if self.chance(50) {
                    let i = self.r.below(2) as usize;
                    fs.insert(i, ("#".to_string(), 0));
                }
                (mqtt::subscribe(pid, &fs), "SUBSCRIBE with a malformed filter".into())
            }
            39 | 40 => {
                let mut fs = vec![self.bad_filter(&f)];
                if self.chance(50) {
                    let i = self.r.below(2) as usize;
                    fs.insert(i, f.clone());
                }
                (mqtt::unsubscribe(pid, &fs), "UNSUBSCRIBE with a malformed filter".into())
            }
            41 => (mqtt::subscribe(0, &[(f, 0)]), "SUBSCRIBE with packet id 0".into()),
            42 => {
                if self.chance(50) {
                    (mqtt::unsubscribe(0, &[f]), "UNSUBSCRIBE with packet id 0".into())
                } else {
                    let q = 1 + self.r.below(2) as u8;
                    g = ghost;
                    (mqtt::publish(&t, pl, q, false, false, 0), "PUBLISH with QoS and packet id 0".into())
                }
            }
            _ => {
                let mut b = pid.to_be_bytes().to_vec();
                b.extend(str16(f.as_bytes()));
                b.push(7);
                (mqtt::packet(0xA2, &b), "UNSUBSCRIBE with a trailing byte".into())
            }
        };
        (bytes, why, g)
    }

    /// A filter that MQTT forbids.
    fn bad_filter(&mut self, f: &str) -> String {
        let mut v: Vec<String> = f.split('/').filter(|l| *l != "#").map(String::from).collect();
        if v.is_empty() {
            v.push("a".into());
        }
        let i = self.r.below(v.len() as u64) as usize;
        match self.r.below(8) {
            0 => return String::new(),
            1 => v.insert(i, "#".into()),
            2 => v[i] = format!("{}#", v[i].replace('+', "a") + "x"),
            3 => v[i] = format!("{}+", v[i].replace('+', "a") + "x"),
            4 => v[i] = format!("+{}x", v[i]),
            5 => v[i] = format!("#{}x", v[i]),
            6 => v[i] = "+#".into(),
            _ => v[i] = format!("{}\0", v[i]),
        }
        v.join("/")
    }

    /// A CONNECT that violates the format.
    fn malformed_connect(&mut self) -> (Vec<u8>, String) {
        let id = format!("bad-{}", self.r.below(1000));
        let secret = match self.p.property == "B27" {
            true => crate::leak::mark_plain("secret", self.p.seed),
            false => "secret".to_string(),
        };
        let secret = secret.as_str();
        let secret0 = format!("{}\0", secret);
        let good = |will: bool| {
            mqtt::connect(&mqtt::ConnectOpts {
                id: &id,
                user: Some("alice"),
                pass: Some(secret),
                clean: true,
                keep_alive: 0,
                will: if will { Some(("w/t", b"bye", 0, false)) } else { None },
                v31: false,
            })
        };
        let body = |v: &[u8]| v[2..].to_vec();
        match self.r.below(12) {
            11 => {
                // a password that is not UTF-8
                let mut b = Vec::new();
                mqtt::put_str(&mut b, b"MQTT");
                b.extend_from_slice(&[4, 2 | 64 | 128, 0, 0]);
                mqtt::put_str(&mut b, id.as_bytes());
                mqtt::put_str(&mut b, b"alice");
                let mut p = secret.as_bytes().to_vec();
                let at = self.r.below(p.len() as u64 + 1) as usize;
                p.insert(at, 0xC0 + self.r.below(64) as u8);
                mqtt::put_str(&mut b, &p);
                (mqtt::packet(0x10, &b), "password that is not UTF-8".into())
            }
            9 => {
                let (user, pass, id2, t) = match self.r.below(4) {
                    0 => ("al\0ice", secret, id.clone(), "w/t"),
                    1 => ("alice", secret0.as_str(), id.clone(), "w/t"),
                    2 => ("alice", secret, format!("{}\0", id), "w/t"),
                    _ => ("alice", secret, id.clone(), "w\0t"),
                };
                let v = mqtt::connect(&mqtt::ConnectOpts {
                    id: &id2,
                    user: Some(user),
                    pass: Some(pass),
                    clean: true,
                    keep_alive: 0,
                    will: Some((t, b"bye", 0, false)),
                    v31: false,
                });
                (v, "CONNECT with a null character in a string".into())
            }
            10 => {
                let mut b = Vec::new();
                mqtt::put_str(&mut b, b"MQTT");
                b.extend_from_slice(&[4, 2 | 64, 0, 0]);
                mqtt::put_str(&mut b, id.as_bytes());
                mqtt::put_str(&mut b, secret.as_bytes());
                (mqtt::packet(0x10, &b), "CONNECT with a password but no user name".into())
            }
            7 => {
                let will = self.chance(30);
                let mut v = good(will);
                v[9] |= 1;
                (v, "CONNECT with the reserved flag".into())
            }
            8 => {
                let mut v = good(true);
                v[9] |= 0x18;
                (v, "CONNECT with will QoS 3".into())
            }
            0 => {
                let n = 1 + self.r.below(8) as usize;
                let mut b = body(&good(false));
                b.extend(self.junk(n));
                (mqtt::packet(0x10, &b), "CONNECT with trailing bytes".into())
            }
            1 => {
                let mut v = good(false);
                v[0] |= 1 + self.r.below(15) as u8;
                (v, "CONNECT with wrong fixed-header flags".into())
            }
            2 => {
                let will = self.chance(50);
                let mut b = body(&good(will));
                let cut = 1 + self.r.below(b.len() as u64 - 1) as usize;
                b.truncate(b.len() - cut);
                // the missing part follows as if it belonged to the packet
                (mqtt::packet(0x10, &b), "CONNECT with missing bytes".into())
            }
            3 => {
                // client id is not UTF-8
                let mut b = Vec::new();
                mqtt::put_str(&mut b, b"MQTT");
                b.extend_from_slice(&[4, 2, 0, 0]);
                mqtt::put_str(&mut b, &[0x61, 0xFF, 0x62]);
                (mqtt::packet(0x10, &b), "client id that is not UTF-8".into())
            }
            4 => {
                let mut b = Vec::new();
                mqtt::put_str(&mut b, b"MQTT");
                b.extend_from_slice(&[4, 2 | 128, 0, 0]);
                mqtt::put_str(&mut b, id.as_bytes());
                mqtt::put_str(&mut b, &[0xE2, 0x28, 0xA1]);
                (mqtt::packet(0x10, &b), "user name that is not UTF-8".into())
            }
            5 => (vec![0x10, 0], "CONNECT of length 0".into()),
            _ => {
                let mut b = Vec::new();
                mqtt::put_str(&mut b, b"MQTT");
                b.extend_from_slice(&[4, 2, 0, 0]);
                b.extend_from_slice(&(id.len() as u16 + 5).to_be_bytes());
                b.extend_from_slice(id.as_bytes());
                (mqtt::packet(0x10, &b), "client id longer than the packet".into())
            }
        }
    }

    fn junk(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.r.next() as u8).collect()
    }

    /// The malformed operation, followed on the wire by packets that must have no effect.
    fn malformed_op(&mut self, near: &[String]) -> Op {
        let (mut bytes, why, mut ghosts) = self.malformed();
        let follow = self.r.below(4);
        for _ in 0..follow {
            let k = self.key();
            let f = if near.is_empty() { self.filter() } else { pick(&mut self.r, near).clone() };
            match self.r.below(4) {
                0 | 1 => {
                    let t = self.matching_topic(&f);
                    let payload = format!("ghost.{}", k);
                    bytes.extend(mqtt::publish(&t, payload.as_bytes(), 0, false, false, 0));
                    ghosts.push(Ghost { topic: t, payload });
                }
                2 => bytes.extend(mqtt::unsubscribe(3, &[f])),
                _ => bytes.extend(mqtt::subscribe(4, &[("#".to_string(), 0)])),
            }
        }
        for g in &mut ghosts {
            if g.topic.is_empty() {
                g.topic = "a".into();
            }
        }
        Op::Raw { hex: hex(&bytes), why, ghosts }
    }

    fn legal(&mut self) -> Op {
        let pid = 1 + self.r.below(65535) as u16;
        let ty = *pick(&mut self.r, &[0x40u8, 0x50, 0x62, 0x70]);
        Op::Legal { hex: hex(&mqtt::packet(ty, &pid.to_be_bytes())), why: "acknowledgement".into() }
    }

    // ------------------------------------------------------------ scenarios

    /// Publishers, subscribers and bystanders that fail.
    pub fn fan(&mut self, heavy: bool, bystanders: bool) {
        self.p.scenario = "fan-out".into();
        let listeners = if self.chance(20) { 2 } else { 1 };
        self.p.listeners = listeners;
        let ns = self.n(1, if heavy { 10 } else { 4 }) as usize;
        let np = self.n(1, 3) as usize;
        let nb = if bystanders { self.n(0, 3) as usize } else { 0 };
        let fcount = self.n(1, 3) as usize;
        let filters: Vec<String> = (0..fcount).map(|_| self.filter()).collect();
        let mut scripts = Vec::new();
        let mut slot = 0;
        for _ in 0..ns {
            let id = self.id(slot);
            let w = self.chance(70);
            let c = self.connect(&id, w);
            let mut ops = vec![c];
            let k = self.n(1, 3);
            for _ in 0..k {
                let m = self.n(1, 2);
                let fs = (0..m)
                    .map(|_| {
                        if self.chance(75) {
                            pick(&mut self.r, &filters).clone()
                        } else {
                            self.filter()
                        }
                    })
                    .collect();
                let w = self.chance(80);
                let s = self.sub(fs, w);
                ops.push(s);
            }
            let s = self.script(slot, ops);
            scripts.push(s);
            slot += 1;
        }
        let pubs: Vec<usize> = (slot..slot + np).collect();
        let mut late_pub = Vec::new();
        for &p in &pubs {
            let id = self.id(p);
            let c = self.connect(&id, true);
            if self.chance(60) {
                let s = self.script(p, vec![c]);
                scripts.push(s);
                late_pub.push(None);
            } else {
                late_pub.push(Some(c));
            }
        }
        slot += np;
        let bys: Vec<usize> = (slot..slot + nb).collect();
        let mut late_by = Vec::new();
        for &b in &bys {
            let id = self.id(b);
            let c = self.connect(&id, true);
            if self.chance(60) {
                let f = pick(&mut self.r, &filters).clone();
                let s = self.sub(vec![f], true);
                let s = self.script(b, vec![c, s]);
                scripts.push(s);
                late_by.push(None);
            } else {
                late_by.push(Some(c));
            }
        }
        self.phase(scripts);
        let phases = self.n(1, 2);
        let mut budget = self.byte_budget();
        for ph in 0..phases {
            let mut scripts = Vec::new();
            for (i, &p) in pubs.iter().enumerate() {
                let mut ops = Vec::new();
                if let Some(c) = late_pub[i].take() {
                    ops.push(c);
                }
                let k = self.n(1, 3);
                for _ in 0..k {
                    let tn = self.n(1, 3) as usize;
                    let topics: Vec<String> = (0..tn)
                        .map(|_| {
                            let f = pick(&mut self.r, &filters).clone();
                            if self.chance(80) {
                                self.matching_topic(&f)
                            } else {
                                self.topic_near(&f)
                            }
                        })
                        .collect();
                    let size = self.size();
                    let size2 = if self.chance(30) { self.size() } else { 0 };
                    let avg = 40 + size.max(size2) as u64;
                    let cost = avg * (ns as u64 + 1) * 2;
                    let max = (budget / 3 / cost.max(1)).clamp(1, if heavy { 180 } else { 40 });
                    let n = if self.chance(40) { 1 } else { self.n(1, max) };
                    budget = budget.saturating_sub(n * cost);
                    let op = self.publish(topics, n as u32, size, size2);
                    ops.push(op);
                    if self.chance(15) {
                        let s = self.sleep(20_000);
                        ops.push(s);
                    }
                    if self.chance(10) {
                        ops.push(Op::Hold { dir: self.r.below(2) as u8, us: 1 + self.r.below(3_000_000) });
                    }
                }
                if ph == phases - 1 && self.chance(45) {
                    ops.push(match self.r.below(4) {
                        0 => Op::Close,
                        1 => Op::Disc { then: 1 },
                        2 => Op::HalfClose,
                        _ => Op::Disc { then: 0 },
                    });
                }
                let s = self.script(p, ops);
                scripts.push(s);
            }
            for s in 0..ns {
                if self.chance(25) {
                    let mut ops = Vec::new();
                    let k = self.n(1, 3);
                    for _ in 0..k {
                        let o = match self.r.below(5) {
                            0 => Op::Nap { us: 1 + self.r.below(2_500_000) },
                            1 => Op::Hold { dir: self.r.below(2) as u8, us: 1 + self.r.below(2_500_000) },
                            2 => Op::Ping { wait: self.chance(50) },
                            3 => {
                                let f = self.filter();
                                let w = self.chance(50);
                                self.sub(vec![f], w)
                            }
                            _ => self.sleep(50_000),
                        };
                        ops.push(o);
                    }
                    let sc = self.plain(s, ops);
                    scripts.push(sc);
                }
            }
            for (i, &b) in bys.iter().enumerate() {
                let mut ops = Vec::new();
                if let Some(c) = late_by[i].take() {
                    ops.push(c);
                }
                let s = self.sleep(30_000);
                ops.push(s);
                let f = pick(&mut self.r, &filters).clone();
                match self.r.below(9) {
                    0 => ops.push(Op::Abort),
                    1 => ops.push(Op::Close),
                    2 => ops.push(Op::Disc { then: 0 }),
                    3 => ops.push(Op::FailServer { read: true, kind: "reset".into() }),
                    4 => {
                        ops.push(Op::FailServer { read: false, kind: "brokenpipe".into() });
                        ops.push(Op::Ping { wait: false });
                    }
                    5 => {
                        let o = self.malformed_op(&[f]);
                        ops.push(o);
                    }
                    6 => {
                        let o = self.sub(vec![f.clone()], true);
                        ops.push(o);
                        let u = Op::Unsub { filters: vec![f], wait: true };
                        ops.push(u);
                    }
                    7 => {
                        // a client that leaves at once, with requests under way
                        let o = self.sub(vec![f], false);
                        ops.push(o);
                        ops.push(Op::Ping { wait: false });
                        ops.push(Op::Abort);
                    }
                    _ => {
                        ops.push(Op::Abort);
                        let id = self.id(b);
                        let c = self.connect(&id, true);
                        ops.push(c);
                        let o = self.sub(vec![f], true);
                        ops.push(o);
                    }
                }
                let s = self.script(b, ops);
                scripts.push(s);
            }
            self.phase(scripts);
        }
    }

    /// A bit of everything.
    pub fn mixed(&mut self, ends: bool, bad: bool) {
        self.p.scenario = "mixed".into();
        self.p.listeners = if self.chance(25) { self.n(2, 3) as usize } else { 1 };
        let ns = self.n(2, 6) as usize;
        let mut up = vec![false; ns];
        let mut held: Vec<Vec<String>> = vec![Vec::new(); ns];
        let ids: Vec<String> = (0..ns).map(|i| self.id(i)).collect();
        let phases = self.n(1, 4);
        let mut budget = self.byte_budget();
        for _ in 0..phases {
            let mut scripts = Vec::new();
            for s in 0..ns {
                if self.chance(15) {
                    continue;
                }
                let mut ops = Vec::new();
                let k = self.n(1, 7);
                for _ in 0..k {
                    if !up[s] {
                        let w = self.chance(75);
                        let c = self.connect(&ids[s], w);
                        ops.push(c);
                        up[s] = true;
                        held[s].clear();
                        continue;
                    }
                    let all: Vec<String> = held.iter().flatten().cloned().collect();
                    match self.r.below(20) {
                        0..=4 => {
                            let m = self.n(1, 3);
                            let fs: Vec<String> = (0..m)
                                .map(|_| {
                                    if !all.is_empty() && self.chance(40) {
                                        pick(&mut self.r, &all).clone()
                                    } else {
                                        self.filter()
                                    }
                                })
                                .collect();
                            held[s].extend(fs.iter().cloned());
                            let w = self.chance(70);
                            let o = self.sub(fs, w);
                            ops.push(o);
                        }
                        5 | 6 => {
                            let m = self.n(1, 2);
                            let fs: Vec<String> = (0..m)
                                .map(|_| {
                                    if !held[s].is_empty() && self.chance(75) {
                                        pick(&mut self.r, &held[s]).clone()
                                    } else if !all.is_empty() && self.chance(60) {
                                        pick(&mut self.r, &all).clone()
                                    } else {
                                        self.filter()
                                    }
                                })
                                .collect();
                            held[s].retain(|f| !fs.contains(f));
                            let w = self.chance(70);
                            ops.push(Op::Unsub { filters: fs, wait: w });
                        }
                        7..=13 => {
                            let t = if !all.is_empty() && self.chance(85) {
                                let f = pick(&mut self.r, &all).clone();
                                self.topic_near(&f)
                            } else {
                                self.topic()
                            };
                            let size = self.size();
                            let n = if self.chance(70) { 1 } else { self.n(1, 12) };
                            let cost = n * (60 + size as u64) * (ns as u64 + 1);
                            if cost > budget {
                                continue;
                            }
                            budget -= cost;
                            let o = self.publish(vec![t], n as u32, size, 0);
                            ops.push(o);
                        }
                        14 => ops.push(Op::Ping { wait: self.chance(60) }),
                        15 => {
                            let o = self.sleep(100_000);
                            ops.push(o);
                        }
                        16 => {
                            let o = match self.r.below(3) {
                                0 => Op::Nap { us: 1 + self.r.below(1_000_000) },
                                1 => Op::Hold { dir: self.r.below(2) as u8, us: 1 + self.r.below(1_000_000) },
                                _ => self.legal(),
                            };
                            ops.push(o);
                        }
                        17 if bad => {
                            let o = self.malformed_op(&all);
                            ops.push(o);
                            if self.chance(50) {
                                ops.push(Op::AwaitClose);
                            }
                            ops.push(Op::Close);
                            up[s] = false;
                            held[s].clear();
                        }
                        18 | 19 if ends => {
                            let e = self.end_op();
                            ops.push(e);
                            up[s] = false;
                            held[s].clear();
                        }
                        _ => {}
                    }
                }
                let s = self.script(s, ops);
                scripts.push(s);
            }
            self.phase(scripts);
        }
    }

    /// Histories of subscribing and unsubscribing, then a sweep of publishes.
    pub fn filters(&mut self, unsub_heavy: bool) {
        self.p.scenario = "filters".into();
        let nc = self.n(1, 5) as usize;
        let publisher = nc;
        let pool: Vec<String> = {
            let n = self.n(3, 10);
            (0..n).map(|_| self.filter()).collect()
        };
        let mut held: Vec<Vec<String>> = vec![Vec::new(); nc];
        let mut first = true;
        let rounds = self.n(2, 5);
        for _ in 0..rounds {
            let mut scripts = Vec::new();
            for c in 0..nc {
                let mut ops = Vec::new();
                if first {
                    let id = self.id(c);
                    let o = self.connect(&id, true);
                    ops.push(o);
                }
                let k = self.n(0, 5);
                for _ in 0..k {
                    let un = if unsub_heavy { 50 } else { 30 };
                    if self.chance(un) {
                        let m = self.n(1, 3);
                        let fs: Vec<String> = (0..m)
                            .map(|_| {
                                if !held[c].is_empty() && self.chance(75) {
                                    pick(&mut self.r, &held[c]).clone()
                                } else {
                                    pick(&mut self.r, &pool).clone()
                                }
                            })
                            .collect();
                        held[c].retain(|f| !fs.contains(f));
                        ops.push(Op::Unsub { filters: fs, wait: self.chance(80) });
                    } else {
                        let m = self.n(1, 3);
                        let fs: Vec<String> = (0..m)
                            .map(|_| {
                                if !held[c].is_empty() && self.chance(25) {
                                    pick(&mut self.r, &held[c]).clone()
                                } else {
                                    pick(&mut self.r, &pool).clone()
                                }
                            })
                            .collect();
                        for f in &fs {
                            if !held[c].contains(f) {
                                held[c].push(f.clone());
                            }
                        }
                        let w = self.chance(80);
                        let o = self.sub(fs, w);
                        ops.push(o);
                    }
                }
                if !first && self.chance(8) {
                    // the whole session goes, its filters with it
                    let e = self.end_op();
                    ops.push(e);
                    held[c].clear();
                    let id = format!("again-{}-{}", c, self.r.below(100));
                    let o = self.connect(&id, true);
                    ops.push(o);
                }
                let s = self.script(c, ops);
                scripts.push(s);
            }
            if first {
                let o = self.connect("publisher", true);
                let s = self.plain(publisher, vec![o]);
                scripts.push(s);
            }
            first = false;
            self.phase(scripts);
            let mut ops = Vec::new();
            let k = self.n(4, 16);
            for _ in 0..k {
                let t = if self.chance(88) {
                    let f = pick(&mut self.r, &pool).clone();
                    self.topic_near(&f)
                } else {
                    self.topic()
                };
                let key = self.key();
                ops.push(Op::Pub {
                    key,
                    topics: vec![t],
                    n: 1,
                    size: 20,
                    size2: 0,
                    qos: 0,
                    dup: false,
                    retain: false,
                    tiny: false,
                });
            }
            let who = if self.chance(75) { publisher } else { self.r.below(nc as u64) as usize };
            let s = self.script(who, ops);
            self.phase(vec![s]);
        }
    }

    /// Requests naming many filters at once, and many requests: what is held
    /// afterwards is exactly what they add up to.
    pub fn lists(&mut self) {
        self.p.scenario = "lists".into();
        let nc = self.n(1, 3) as usize;
        let total = match self.r.below(4) {
            0 => self.n(8, 24),
            1 => self.n(24, 80),
            2 => self.n(60, 160),
            _ => self.n(120, 400),
        };
        // names of their own mostly, so that each can be probed alone
        let mut pool: Vec<String> = Vec::new();
        while (pool.len() as u64) < total {
            let i = pool.len();
            let f = match self.r.below(8) {
                0 => self.filter(),
                1 => format!("list/{}/#", i),
                2 => format!("list/+/{}", i),
                3 => format!("list/{}/+/leaf", i % 7),
                4 => format!("{}/list", i),
                _ => format!("list/{}", i),
            };
            if !pool.contains(&f) {
                pool.push(f);
            }
        }
        let mut held: Vec<Vec<String>> = vec![Vec::new(); nc];
        let mut scripts = Vec::new();
        for c in 0..=nc {
            let id = self.id(c);
            let o = self.connect(&id, true);
            let mut ops = vec![o];
            if c < nc {
                let mut left: Vec<String> = pool.clone();
                shuffle(&mut self.r, &mut left);
                let keep = self.n((total / 2).max(1), total) as usize;
                left.truncate(keep);
                held[c] = left.clone();
                while !left.is_empty() {
                    let m = self.list_len().min(left.len());
                    let now: Vec<String> = left.drain(..m).collect();
                    let w = self.chance(70);
                    let o = self.sub(now, w);
                    ops.push(o);
                }
            }
            let s = self.script(c, ops);
            scripts.push(s);
        }
        self.phase(scripts);
        let rounds = self.n(1, 4);
        for round in 0..rounds {
            self.probe_lists(&pool, nc);
            let mut scripts = Vec::new();
            for c in 0..nc {
                let mut ops = Vec::new();
                for _ in 0..self.n(1, 2) {
                    let m = self.list_len();
                    if self.chance(75) {
                        let mut fs: Vec<String> = Vec::new();
                        let mut have = held[c].clone();
                        if self.chance(70) {
                            shuffle(&mut self.r, &mut have);
                        }
                        for _ in 0..m {
                            if self.chance(90) && !have.is_empty() {
                                fs.push(have.pop().unwrap());
                            } else {
                                fs.push(pick(&mut self.r, &pool).clone());
                            }
                        }
                        held[c].retain(|f| !fs.contains(f));
                        let w = self.chance(85);
                        ops.push(Op::Unsub { filters: fs, wait: w });
                    } else {
                        let fs: Vec<String> = (0..m).map(|_| pick(&mut self.r, &pool).clone()).collect();
                        for f in &fs {
                            if !held[c].contains(f) {
                                held[c].push(f.clone());
                            }
                        }
                        let w = self.chance(85);
                        let o = self.sub(fs, w);
                        ops.push(o);
                    }
                }
                if round > 0 && self.chance(10) {
                    let e = self.end_op();
                    ops.push(e);
                    held[c].clear();
                    let id = format!("again-{}-{}", c, self.r.below(100));
                    let o = self.connect(&id, true);
                    ops.push(o);
                }
                let s = self.script(c, ops);
                scripts.push(s);
            }
            self.phase(scripts);
        }
        self.probe_lists(&pool, nc);
    }

    /// How many filters one request names.
    fn list_len(&mut self) -> usize {
        match self.r.below(6) {
            0 => 1,
            1 => self.n(2, 8) as usize,
            2 => self.n(8, 20) as usize,
            3 => self.n(16, 40) as usize,
            4 => self.n(32, 130) as usize,
            _ => self.n(100, 400) as usize,
        }
    }

    /// A message for most of the filters of the pool.
    fn probe_lists(&mut self, pool: &[String], slot: usize) {
        let mut ops = Vec::new();
        for f in pool {
            if pool.len() > 40 && self.chance(30) {
                continue;
            }
            let t = self.matching_topic(f);
            let key = self.key();
            ops.push(Op::Pub { key, topics: vec![t], n: 1, size: 20, size2: 0, qos: 0, dup: false, retain: false, tiny: false });
        }
        let s = self.script(slot, ops);
        self.phase(vec![s]);
    }

    /// Unsubscribing while messages fly.
    pub fn unsub_race(&mut self) {
        self.p.scenario = "unsubscribe race".into();
        let nc = self.n(1, 4) as usize;
        let np = self.n(1, 2) as usize;
        let filters: Vec<String> = (0..3).map(|_| self.filter()).collect();
        let mut scripts = Vec::new();
        for c in 0..nc + np {
            let id = self.id(c);
            let o = self.connect(&id, true);
            let mut ops = vec![o];
            if c < nc {
                for f in &filters {
                    if self.chance(80) {
                        let o = self.sub(vec![f.clone()], true);
                        ops.push(o);
                    }
                }
            }
            let s = self.script(c, ops);
            scripts.push(s);
        }
        self.phase(scripts);
        let mut scripts = Vec::new();
        for c in 0..nc {
            let mut ops = Vec::new();
            let k = self.n(1, 6);
            for _ in 0..k {
                let s = self.sleep(5_000);
                ops.push(s);
                let m = self.n(1, 2);
                let fs: Vec<String> = (0..m).map(|_| pick(&mut self.r, &filters).clone()).collect();
                if self.chance(60) {
                    ops.push(Op::Unsub { filters: fs.clone(), wait: true });
                    if self.chance(40) {
                        // publishes to itself right after the acknowledgement
                        let t = self.matching_topic(&fs[0]);
                        let o = self.publish(vec![t], 1, 30, 0);
                        ops.push(o);
                    }
                } else {
                    let w = self.chance(60);
                    let o = self.sub(fs, w);
                    ops.push(o);
                }
            }
            let s = self.script(c, ops);
            scripts.push(s);
        }
        for p in nc..nc + np {
            let mut ops = Vec::new();
            let k = self.n(2, 8);
            for _ in 0..k {
                let f = pick(&mut self.r, &filters).clone();
                let t = self.matching_topic(&f);
                let n = self.n(1, 6) as u32;
                let o = self.publish(vec![t], n, 30, 0);
                ops.push(o);
                let s = self.sleep(4_000);
                ops.push(s);
            }
            let s = self.script(p, ops);
            scripts.push(s);
        }
        self.phase(scripts);
        let mut ops = Vec::new();
        for f in &filters {
            let t = self.matching_topic(f);
            let o = self.publish(vec![t], 1, 30, 0);
            ops.push(o);
        }
        let s = self.script(nc, ops);
        self.phase(vec![s]);
    }

    /// Sessions that end in every way and come back.
    pub fn sessions(&mut self) {
        self.p.scenario = "sessions".into();
        self.p.listeners = if self.chance(20) { 2 } else { 1 };
        let nc = self.n(2, 5) as usize;
        let publisher = nc;
        let ids: Vec<String> = (0..nc).map(|i| self.id(i)).collect();
        let filters: Vec<String> = (0..3).map(|_| self.filter()).collect();
        let mut scripts = Vec::new();
        for c in 0..nc {
            let o = self.connect(&ids[c], true);
            let f = pick(&mut self.r, &filters).clone();
            let f2 = pick(&mut self.r, &filters).clone();
            let s = self.sub(vec![f, f2], true);
            let s = self.script(c, vec![o, s]);
            scripts.push(s);
        }
        let o = self.connect("publisher", true);
        let s = self.plain(publisher, vec![o]);
        scripts.push(s);
        self.phase(scripts);
        let rounds = self.n(1, 4);
        for _ in 0..rounds {
            // some end
            let mut scripts = Vec::new();
            for c in 0..nc {
                if !self.chance(55) {
                    continue;
                }
                let mut ops = Vec::new();
                if self.chance(40) {
                    let f = pick(&mut self.r, &filters).clone();
                    let o = self.sub(vec![f], false);
                    ops.push(o);
                }
                if self.chance(15) {
                    let o = self.malformed_op(&filters);
                    ops.push(o);
                    ops.push(Op::AwaitClose);
                    ops.push(Op::Close);
                } else if self.chance(10) {
                    // cut off in the middle of a packet
                    let (b, _) = self.valid_packet();
                    let n = 1 + self.r.below(b.len() as u64) as usize;
                    ops.push(Op::Partial { hex: hex(&b[..n.min(b.len() - 1).max(1)]) });
                    ops.push(if self.chance(50) { Op::Close } else { Op::Abort });
                } else {
                    let e = self.end_op();
                    ops.push(e);
                }
                let s = self.script(c, ops);
                scripts.push(s);
            }
            if self.chance(50) {
                let f = pick(&mut self.r, &filters).clone();
                let t = self.matching_topic(&f);
                let n = self.n(1, 10) as u32;
                let o = self.publish(vec![t], n, 30, 0);
                let s = self.script(publisher, vec![o]);
                scripts.push(s);
            }
            self.phase(scripts);
            // some come back, with or without filters
            let mut scripts = Vec::new();
            for c in 0..nc {
                if !self.chance(60) {
                    continue;
                }
                let o = self.connect(&ids[c], true);
                let mut ops = vec![o];
                if self.chance(40) {
                    let f = pick(&mut self.r, &filters).clone();
                    let o = self.sub(vec![f], true);
                    ops.push(o);
                }
                let s = self.script(c, ops);
                scripts.push(s);
            }
            self.phase(scripts);
            let mut ops = Vec::new();
            for f in &filters {
                let t = self.matching_topic(f);
                let o = self.publish(vec![t], 1, 30, 0);
                ops.push(o);
            }
            let s = self.script(publisher, ops);
            self.phase(vec![s]);
        }
    }

    /// Requests and their answers, pipelined.
    pub fn requests(&mut self) {
        self.p.scenario = "requests".into();
        let nc = self.n(1, 4) as usize;
        let many = self.chance(25);
        if many && self.lvk == 2 {
            self.lvk = 0;
        }
        let phases = self.n(1, 3);
        for ph in 0..phases {
            let mut scripts = Vec::new();
            for c in 0..nc {
                let mut ops = Vec::new();
                if ph == 0 {
                    let id = self.id(c);
                    let w = self.chance(50);
                    let o = self.connect(&id, w);
                    ops.push(o);
                }
                let k = self.n(2, 40);
                for _ in 0..k {
                    let w = self.chance(15);
                    match self.r.below(10) {
                        0..=2 => ops.push(Op::Ping { wait: w }),
                        3..=5 => {
                            let m = if many && self.chance(25) {
                                *pick(&mut self.r, &[100, 126, 127, 128, 129, 200, 255, 256, 257, 300, 1000])
                            } else if self.chance(10) {
                                self.n(1, 60)
                            } else {
                                self.n(1, 5)
                            };
                            let fs = (0..m).map(|_| self.filter()).collect();
                            let o = self.sub(fs, w);
                            ops.push(o);
                        }
                        6 | 7 => {
                            let m = if many && self.chance(25) {
                                *pick(&mut self.r, &[100, 127, 128, 255, 256, 257, 300])
                            } else {
                                self.n(1, 4)
                            };
                            let fs = (0..m).map(|_| self.filter()).collect();
                            ops.push(Op::Unsub { filters: fs, wait: w });
                        }
                        8 => {
                            let t = self.topic();
                            let s = self.size().min(3000);
                            let o = self.publish(vec![t], 1, s, 0);
                            ops.push(o);
                        }
                        _ => {
                            let o = match self.r.below(4) {
                                0 => self.legal(),
                                1 => Op::Nap { us: 1 + self.r.below(500_000) },
                                _ => self.sleep(10_000),
                            };
                            ops.push(o);
                        }
                    }
                }
                if self.chance(20) {
                    let e = self.end_op();
                    ops.push(e);
                }
                let s = self.script(c, ops);
                scripts.push(s);
            }
            self.phase(scripts);
            if self.p.phases.last().map_or(false, |p| {
                p.scripts.iter().any(|s| {
                    matches!(s.ops.last(), Some(Op::Disc { .. } | Op::Close | Op::Abort | Op::HalfClose))
                })
            }) {
                break;
            }
        }
    }

    /// Credentials, good and bad.
    pub fn auth(&mut self) {
        self.p.scenario = "credentials".into();
        self.p.listeners = if self.chance(15) { 2 } else { 1 };
        self.people();
        if self.chance(60) {
            self.focus = Some(self.r.below(self.p.users.len() as u64) as usize);
        }
        let watchers = self.n(1, 2) as usize;
        let f = self.filter();
        let mut scripts = Vec::new();
        for c in 0..watchers {
            let u = self.somebody();
            let id = format!("watch{}", c);
            let anon = self.chance(40);
            let l = self.r.below(self.p.listeners as u64) as usize;
            let o = Op::Connect {
                id,
                user: if anon { None } else { Some(u.0.into()) },
                pass: if anon { None } else { Some(u.1.into()) },
                clean: true,
                keep_alive: 0,
                will: None,
                listener: l,
                wait: true,
            };
            let s = self.sub(vec![f.clone()], true);
            let s = self.script(c, vec![o, s]);
            scripts.push(s);
        }
        self.phase(scripts);
        let n = self.n(1, 5) as usize;
        let rounds = self.n(1, 4);
        for _ in 0..rounds {
            let mut scripts = Vec::new();
            for c in watchers..watchers + n {
                let (u, p) = self.credentials();
                let id = match self.r.below(5) {
                    // the id of a session that must not be touched
                    0 | 1 => {
                        let valid = self.valid(&u, &p);
                        if valid {
                            format!("in{}", c)
                        } else {
                            format!("watch{}", self.r.below(watchers as u64))
                        }
                    }
                    _ => format!("in{}", c),
                };
                let wait = self.chance(50);
                let l = self.r.below(self.p.listeners as u64) as usize;
                let will = if self.chance(15) { Some(("a/b".to_string(), "last words".to_string(), 0u8, false)) } else { None };
                let mut ops = vec![Op::Connect {
                    id,
                    user: Some(u),
                    pass: p,
                    clean: true,
                    keep_alive: 0,
                    will,
                    listener: l,
                    wait,
                }];
                let k = self.n(0, 4);
                for _ in 0..k {
                    match self.r.below(6) {
                        0 | 1 => {
                            let t = self.matching_topic(&f);
                            let o = self.publish(vec![t], 1, 30, 0);
                            ops.push(o);
                        }
                        2 => {
                            let o = self.sub(vec!["#".to_string()], false);
                            ops.push(o);
                        }
                        3 => ops.push(Op::Unsub { filters: vec![f.clone()], wait: false }),
                        4 => ops.push(Op::Ping { wait: false }),
                        _ => {
                            let o = self.sleep(3_000);
                            ops.push(o);
                        }
                    }
                }
                match self.r.below(6) {
                    0 => ops.push(Op::Disc { then: 2 }),
                    1 => ops.push(Op::Abort),
                    2 => ops.push(Op::Close),
                    _ => {}
                }
                let s = self.script(c, ops);
                scripts.push(s);
            }
            self.phase(scripts);
            let t = self.matching_topic(&f);
            let o = self.publish(vec![t], 2, 30, 0);
            let s = self.script(0, vec![o]);
            self.phase(vec![s]);
        }
    }

    /// The passwords of this plan become ones that would be recognised anywhere.
    fn keep_secret(&mut self) {
        let salt = self.p.seed;
        let mut all = vec![crate::leak::mark_plain("secret", salt)];
        let mut mark = |p: &mut String| {
            *p = crate::leak::mark(p, salt);
            if !p.is_empty() && !all.contains(p) {
                all.push(p.clone());
            }
        };
        for (_, p) in &mut self.p.users {
            mark(p);
        }
        for s in self.p.phases.iter_mut().flat_map(|p| p.scripts.iter_mut()) {
            for o in &mut s.ops {
                if let Op::Connect { pass: Some(p), .. } | Op::Reconnect { pass: Some(p), .. } = o {
                    mark(p);
                }
            }
        }
        for l in &mut self.p.useless {
            if let Some((u, h)) = l.clone().split_once(':') {
                let mut h = h.to_string();
                mark(&mut h);
                *l = format!("{}:{}", u, h);
            }
        }
        if self.r.below(100) < 5 {
            // a line without a user: the broker does not start, and does not say what stands there
            let l = crate::leak::mark("hunter2", salt);
            all.push(l.clone());
            self.p.useless.push(l);
        }
        self.p.secrets = all;
        self.p.log = pick(&mut self.r, &["trace", "trace", "trace", "debug", "info", "warn", "error", "off"]).to_string();
    }

    /// Other users than usual, and entries that let nobody in.
    fn people(&mut self) {
        if self.chance(40) {
            let n = self.n(1, 12);
            let stem = *pick(&mut self.r, &["u", "user", "Ω", "a b", "x.y", "-", "\u{1F600}"]);
            let mut v: Vec<(String, String)> = Vec::new();
            for i in 0..n {
                let name = match self.r.below(8) {
                    0 => format!("{}{}", stem, i),
                    6 => format!("\u{feff}{}{}", stem, i / 2),
                    7 => format!("{}{}\u{200b}", stem, i / 2),
                    1 => format!("{}{}", stem, "u".repeat(i as usize + 1)),
                    2 => format!("{} {}", stem, i),
                    3 => format!("{}{}", stem.to_uppercase(), i),
                    4 => format!("{}{}", i, "n".repeat(*pick(&mut self.r, &[1usize, 60, 127, 128, 255, 256, 1000]))),
                    _ => format!(" {}{}", stem, i),
                };
                let pass = match self.r.below(8) {
                    0 => String::new(),
                    7 => format!("\u{feff}p{}", i),
                    1 => "p".repeat(*pick(&mut self.r, &[1usize, 63, 64, 65, 127, 128, 255, 256, 1000])),
                    2 => format!("p{}", i),
                    3 => format!(" p{} ", i),
                    4 => format!("p:{}:", i),
                    5 => format!("pässwört{}", i),
                    _ => name.clone(),
                };
                if !v.iter().any(|(a, _)| *a == name) {
                    v.push((name, pass));
                }
            }
            self.p.users = v;
        }
        if self.chance(40) {
            let n = self.n(1, 4);
            for i in 0..n {
                let h = *pick(
                    &mut self.r,
                    &[
                        "",
                        "plain",
                        "secret",
                        "$argon2id$v=19$m=8,t=1,p=1",
                        "$argon2id$v=19$m=8,t=1,p=1$c2FsdHNhbHRzYWx0",
                        "$argon2id$v=19$m=8,t=1,p=1$c2FsdHNhbHRzYWx0$",
                        "$argon2id$v=19$m=8,t=1,p=1$!!!!$????",
                        "$sha256$c2FsdHNhbHRzYWx0$AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA",
                        "5ebe2294ecd0e0f08eab7690d2a6ee69",
                        "a:b:c",
                        "*",
                        "!",
                    ],
                );
                self.p.useless.push(format!("locked{}:{}", i, h));
            }
        }
    }

    fn valid(&self, u: &str, p: &Option<String>) -> bool {
        self.p.users.iter().any(|(a, b)| a == u && Some(b) == p.as_ref())
    }

    fn somebody(&mut self) -> (String, String) {
        let stay = self.chance(80);
        match self.focus {
            Some(i) if stay => self.p.users[i].clone(),
            _ => pick(&mut self.r, &self.p.users).clone(),
        }
    }

    /// Something that could pass for the valid user name and password.
    fn lookalike(&mut self, u: &str, p: &str) -> (String, Option<String>) {
        let uc: Vec<char> = u.chars().collect();
        let pc: Vec<char> = p.chars().collect();
        let s = |c: &[char]| c.iter().collect::<String>();
        let sep = *pick(&mut self.r, &["", ":", "/", " ", "\n", "@", "|"]);
        let (a, b) = match self.r.below(16) {
            // the same characters, divided elsewhere
            0 | 1 if !pc.is_empty() => {
                let k = 1 + self.r.below(pc.len() as u64) as usize;
                (format!("{}{}{}", u, sep, s(&pc[..k])), s(&pc[k..]))
            }
            2 | 3 if !uc.is_empty() => {
                let k = self.r.below(uc.len() as u64) as usize;
                (s(&uc[..k]), format!("{}{}{}", s(&uc[k..]), sep, p))
            }
            4 => (format!("{}:{}", u, p), String::new()),
            5 => (p.to_string(), u.to_string()),
            6 => (u.to_string(), u.to_string()),
            7 => {
                let t = *pick(&mut self.r, &[" ", "\t", "\n", "\r\n", "\u{a0}", "\u{200b}"]);
                if self.chance(50) {
                    (u.to_string(), format!("{}{}", p, t))
                } else {
                    (format!("{}{}", u, t), p.to_string())
                }
            }
            8 => (u.trim().to_string(), p.trim().to_string()),
            9 => (format!(" {}", u), p.to_string()),
            // agreeing in the beginning, or as long as some buffer
            10 if !pc.is_empty() => {
                let k = (*pick(&mut self.r, &[1usize, 8, 16, 32, 63, 64, 72, 127, 128, 255])).min(pc.len());
                (u.to_string(), s(&pc[..k]))
            }
            11 => (u.to_string(), format!("{}{}", p, "p".repeat(*pick(&mut self.r, &[1usize, 8, 64, 128, 256])))),
            12 => (u.to_string(), p.chars().rev().collect()),
            // one character changed
            13 if !pc.is_empty() => {
                let k = self.r.below(pc.len() as u64) as usize;
                let mut v = pc.clone();
                v[k] = if v[k] == 'q' { 'Q' } else { 'q' };
                (u.to_string(), s(&v))
            }
            14 => (u.to_lowercase(), p.to_lowercase()),
            _ => (u.chars().take(8).collect(), p.to_string()),
        };
        (a, Some(b))
    }

    fn credentials(&mut self) -> (String, Option<String>) {
        let (u, p) = self.somebody();
        let (u, p) = (u.as_str(), p.as_str());
        if self.chance(30) {
            return self.lookalike(u, p);
        }
        if !self.p.useless.is_empty() && self.chance(20) {
            // users whose entries let nobody in
            let l = pick(&mut self.r, &self.p.useless).clone();
            let (u, h) = l.split_once(':').unwrap_or((&l, ""));
            let p = match self.r.below(4) {
                0 => String::new(),
                1 => h.to_string(),
                2 => h.chars().take(100).collect(),
                _ => "secret".into(),
            };
            return (u.into(), Some(p));
        }
        match self.r.below(16) {
            0..=2 => (u.into(), Some(p.into())),
            14 => (if u.starts_with('\u{feff}') { u[3..].to_string() } else { format!("\u{feff}{}", u) }, Some(p.into())),
            15 => (u.into(), Some(if p.starts_with('\u{feff}') { p[3..].to_string() } else { format!("\u{feff}{}", p) })),
            3 => (u.into(), None),
            4 => (u.into(), Some(String::new())),
            5 => (u.into(), Some(format!("{}x", p))),
            6 => (u.into(), Some(p.chars().skip(1).collect())),
            7 => (u.to_uppercase(), Some(p.into())),
            8 => (format!("{}x", u), Some(p.into())),
            9 => (u.chars().take(u.chars().count() - 1).collect(), Some(p.into())),
            10 => (String::new(), Some(p.into())),
            11 => {
                let q = pick(&mut self.r, &self.p.users).clone();
                (u.into(), Some(q.1))
            }
            12 => (u.into(), Some(p.to_uppercase())),
            _ => ("nobody".into(), Some("$argon2id$v=19$m=8,t=1,p=1$".into())),
        }
    }

    /// First packets that are not CONNECT, pipelining, second CONNECTs.
    pub fn handshake(&mut self) {
        self.p.scenario = "handshake".into();
        let f = self.filter();
        let o = self.connect("watch", true);
        let s = self.sub(vec![f.clone()], true);
        let s = self.script(0, vec![o, s]);
        self.phase(vec![s]);
        let n = self.n(1, 5) as usize;
        let mut scripts = Vec::new();
        for c in 1..=n {
            let mut ops = Vec::new();
            let kind = self.r.below(4);
            match kind {
                0 => {
                    // no CONNECT
                    let l = self.r.below(self.p.listeners as u64) as usize;
                    ops.push(Op::Dial { listener: l });
                    let k = self.n(1, 4);
                    for _ in 0..k {
                        let o = self.some_request(&f);
                        ops.push(o);
                    }
                    if self.chance(50) {
                        let id = if self.chance(30) { "watch".to_string() } else { format!("late{}", c) };
                        ops.push(Op::Reconnect { id, user: None, pass: None });
                        let o = self.some_request(&f);
                        ops.push(o);
                    }
                }
                1 => {
                    // everything at once
                    let id = self.id(c);
                    let o = self.connect(&id, false);
                    ops.push(o);
                    let k = self.n(1, 6);
                    for _ in 0..k {
                        let o = self.some_request(&f);
                        ops.push(o);
                    }
                }
                2 => {
                    let id = self.id(c);
                    let w = self.chance(60);
                    let o = self.connect(&id, w);
                    ops.push(o);
                    let k = self.n(0, 3);
                    for _ in 0..k {
                        let o = self.some_request(&f);
                        ops.push(o);
                    }
                    let who = match self.r.below(4) {
                        0 => id.clone(),
                        1 => "watch".to_string(),
                        2 => String::new(),
                        _ => format!("other{}", c),
                    };
                    let (u, p) = if self.chance(40) {
                        let (u, p) = self.credentials();
                        (Some(u), p)
                    } else {
                        (None, None)
                    };
                    ops.push(Op::Reconnect { id: who, user: u, pass: p });
                    let k = self.n(0, 3);
                    for _ in 0..k {
                        let o = self.some_request(&f);
                        ops.push(o);
                    }
                }
                _ => {
                    let id = self.id(c);
                    let o = self.connect(&id, true);
                    ops.push(o);
                    let o = self.some_request(&f);
                    ops.push(o);
                }
            }
            match self.r.below(8) {
                0 => ops.push(Op::Close),
                1 => ops.push(Op::AwaitClose),
                _ => {}
            }
            let mut s = self.script(c, ops);
            if kind == 1 && self.chance(60) {
                s.chunk = Chunk::Join;
            }
            scripts.push(s);
        }
        self.phase(scripts);
        let t = self.matching_topic(&f);
        let o = self.publish(vec![t], 2, 30, 0);
        let s = self.script(0, vec![o]);
        self.phase(vec![s]);
    }

    fn some_request(&mut self, f: &str) -> Op {
        match self.r.below(6) {
            0 | 1 => {
                let t = self.matching_topic(f);
                self.publish(vec![t], 1, 30, 0)
            }
            2 => {
                let f = if self.chance(50) { f.to_string() } else { self.filter() };
                self.sub(vec![f], false)
            }
            3 => Op::Unsub { filters: vec![f.to_string()], wait: false },
            4 => Op::Ping { wait: false },
            _ => {
                let t = self.matching_topic(f);
                self.publish(vec![t], 3, 30, 0)
            }
        }
    }

    /// Two connections, one client id.
    pub fn takeover(&mut self) {
        self.p.scenario = "take-over".into();
        self.p.listeners = if self.chance(30) { 2 } else { 1 };
        let filters: Vec<String> = (0..3).map(|_| self.filter()).collect();
        let watch = self.n(1, 2) as usize;
        let mut scripts = Vec::new();
        for c in 0..watch {
            let o = self.connect(&format!("watch{}", c), true);
            let f = pick(&mut self.r, &filters).clone();
            let s = self.sub(vec![f], true);
            let s = self.script(c, vec![o, s]);
            scripts.push(s);
        }
        let id = self.id(90);
        let rivals = self.n(2, 4) as usize;
        let o = self.connect(&id, true);
        let first = pick(&mut self.r, &filters).clone();
        let sub = self.sub(vec![first.clone()], true);
        let s = self.script(watch, vec![o, sub]);
        let behind = self.chance(15);
        if behind {
            self.p.knobs.sock_buf = *pick(&mut self.r, &[400, 1500, 4096, 8192, 16384]);
            self.p.knobs.p_slow = 0;
        }
        scripts.push(s);
        self.phase(scripts);
        let concurrent = self.chance(30);
        for r in 1..rivals {
            let new = watch + r;
            let old = watch + r - 1;
            let mut scripts = Vec::new();
            let o = self.connect(&id, true);
            let mut ops = vec![];
            let behind = r == 1 && behind;
            if behind {
                let us = self.r.below(3_000_000);
                ops.push(Op::Sleep { us });
            } else if concurrent || self.chance(30) {
                let s = self.sleep(2_000);
                ops.push(s);
            }
            ops.push(o);
            let k = self.n(0, 3);
            for _ in 0..k {
                let f = pick(&mut self.r, &filters).clone();
                let w = self.chance(70);
                let o = match self.r.below(4) {
                    0 | 1 => self.sub(vec![f], w),
                    2 => Op::Ping { wait: w },
                    _ => {
                        let t = self.matching_topic(&f);
                        self.publish(vec![t], 2, 30, 0)
                    }
                };
                ops.push(o);
            }
            let s = self.script(new, ops);
            scripts.push(s);
            // what the old one still does
            if behind {
                // it reads on only after more has come than anything can hold
                let us = 1_000_000 + self.r.below(16_000_000);
                let s = self.plain(old, vec![Op::Nap { us }]);
                scripts.push(s);
                let size = *pick(&mut self.r, &[30u64, 200, 1000, 3000]);
                let full = (2 * self.p.knobs.sock_buf as u64 + 4096) / (size + 10) + 36;
                let n = full * *pick(&mut self.r, &[8, 10, 12, 15]) / 10;
                let t = self.matching_topic(&first);
                let o = self.publish(vec![t], n as u32, size as u32, 0);
                let s = self.plain(0, vec![Op::Sleep { us: 1000 }, o]);
                scripts.push(s);
            } else if self.chance(70) {
                let mut ops = Vec::new();
                let s = self.sleep(2_000);
                ops.push(s);
                let k = self.n(1, 4);
                for _ in 0..k {
                    let f = pick(&mut self.r, &filters).clone();
                    let o = match self.r.below(8) {
                        0 | 1 => self.sub(vec![f], false),
                        2 => Op::Unsub { filters: vec![f], wait: false },
                        3 => Op::Ping { wait: false },
                        4 => Op::Disc { then: self.r.below(3) as u8 },
                        5 => Op::Close,
                        6 => Op::Abort,
                        _ => self.sleep(2_000),
                    };
                    let last = matches!(o, Op::Disc { .. } | Op::Close | Op::Abort);
                    ops.push(o);
                    if last {
                        break;
                    }
                }
                let s = self.script(old, ops);
                scripts.push(s);
            }
            if !behind && self.chance(40) {
                let f = pick(&mut self.r, &filters).clone();
                let t = self.matching_topic(&f);
                let n = self.n(1, 6) as u32;
                let o = self.publish(vec![t], n, 30, 0);
                let s = self.script(0, vec![o]);
                scripts.push(s);
            }
            self.phase(scripts);
            let mut ops = Vec::new();
            for f in &filters {
                let t = self.matching_topic(f);
                let o = self.publish(vec![t], 1, 30, 0);
                ops.push(o);
            }
            let s = self.script(0, ops);
            let mut scripts = vec![s];
            if self.chance(40) {
                let f = pick(&mut self.r, &filters).clone();
                let o = self.sub(vec![f], true);
                let s = self.script(new, vec![o, Op::Ping { wait: true }]);
                scripts.push(s);
            }
            self.phase(scripts);
        }
    }

    /// Hostile bytes and failing connections around clients that behave.
    pub fn hostile(&mut self) {
        self.p.scenario = "hostile".into();
        let f = self.filter();
        let good = self.n(1, 3) as usize;
        let bad = self.n(1, 5) as usize;
        let mut scripts = Vec::new();
        for c in 0..good {
            let id = self.id(c);
            let o = self.connect(&id, true);
            let s = self.sub(vec![f.clone()], true);
            let s = self.script(c, vec![o, s]);
            scripts.push(s);
        }
        self.phase(scripts);
        let rounds = self.n(1, 3);
        for _ in 0..rounds {
            let mut scripts = Vec::new();
            for c in good..good + bad {
                let mut ops = Vec::new();
                if self.chance(75) {
                    let id = format!("hostile-{}", self.r.next() % 1_000_000);
                    let w = self.chance(50);
                    let o = self.connect(&id, w);
                    ops.push(o);
                    if self.chance(50) {
                        let o = self.sub(vec![f.clone()], false);
                        ops.push(o);
                    }
                } else {
                    let l = self.r.below(self.p.listeners as u64) as usize;
                    ops.push(Op::Dial { listener: l });
                }
                let k = self.n(1, 3);
                for _ in 0..k {
                    match self.r.below(12) {
                        0..=2 => {
                            let o = self.malformed_op(&[f.clone()]);
                            ops.push(o);
                        }
                        3 => {
                            let (b, w) = self.malformed_connect();
                            ops.push(Op::Raw { hex: hex(&b), why: w, ghosts: vec![] });
                        }
                        4 => {
                            let n = self.n(1, 60) as usize;
                            let b = self.junk(n);
                            ops.push(Op::Raw { hex: hex(&b), why: "random bytes".into(), ghosts: vec![] });
                        }
                        5 | 6 => {
                            let (mut b, w) = self.valid_packet();
                            let k = self.n(1, 3);
                            for _ in 0..k {
                                let i = self.r.below(b.len() as u64) as usize;
                                match self.r.below(5) {
                                    0 => b[i] ^= 1 << self.r.below(8),
                                    1 => b[i] = self.r.next() as u8,
                                    2 => {
                                        b.insert(i, self.r.next() as u8);
                                    }
                                    3 => {
                                        if b.len() > 2 {
                                            b.remove(i);
                                        }
                                    }
                                    _ => {
                                        let j = (1usize).min(b.len() - 1);
                                        b[j] = b[j].wrapping_add(*pick(&mut self.r, &[1, 2, 255, 128, 5]));
                                    }
                                }
                            }
                            ops.push(Op::Raw { hex: hex(&b), why: format!("damaged {}", w), ghosts: vec![] });
                        }
                        7 => {
                            // a large packet that never ends
                            let mut b = vec![0x30];
                            b.extend_from_slice(pick(&mut self.r, &[[0xFFu8, 0xFF, 0xFF, 0x7F], [0x80, 0x80, 0x80, 0x01]]));
                            b.extend_from_slice(&[0, 3, b'a', b'/', b'b']);
                            let n = self.r.below(9000) as usize;
                            b.extend(self.junk(n));
                            ops.push(Op::Partial { hex: hex(&b) });
                        }
                        8 => {
                            let t = self.matching_topic(&f);
                            let s = self.size();
                            let o = self.publish(vec![t], 2, s, 0);
                            ops.push(o);
                        }
                        9 => {
                            // filters and topics with very many levels
                            let n = *pick(&mut self.r, &[200usize, 4000, 20_000, 32_767]);
                            let level = *pick(&mut self.r, &["/", "a/", "+/"]);
                            let n = n.min(65_535 / level.len());
                            let mut deep = level.repeat(n);
                            deep.truncate(65_535);
                            if level == "+/" && deep.ends_with('+') {
                                deep.pop();
                            }
                            let o = self.sub(vec![deep.clone()], false);
                            ops.push(o);
                            match self.r.below(4) {
                                0 => ops.push(Op::Unsub { filters: vec![deep], wait: false }),
                                1 if level != "+/" => {
                                    let o = self.publish(vec![deep], 1, 40, 0);
                                    ops.push(o);
                                }
                                2 => ops.push(Op::Disc { then: 0 }),
                                _ => {}
                            }
                        }
                        10 => {
                            // very many filters at once
                            let n = *pick(&mut self.r, &[50usize, 300, 1500]);
                            let fs: Vec<String> = (0..n).map(|i| format!("many/{}/{}", i % 7, i)).collect();
                            let o = self.sub(fs.clone(), false);
                            ops.push(o);
                            if self.chance(50) {
                                ops.push(Op::Unsub { filters: fs, wait: false });
                            }
                        }
                        _ => {
                            // user name without password and the like
                            let (u, p) = self.credentials();
                            let l = self.r.below(self.p.listeners as u64) as usize;
                            let id = format!("hostile-{}", self.r.next() % 1_000_000);
                            ops.push(Op::Connect {
                                id,
                                user: Some(u),
                                pass: p,
                                clean: true,
                                keep_alive: 0,
                                will: None,
                                listener: l,
                                wait: false,
                            });
                        }
                    }
                }
                match self.r.below(7) {
                    0 => ops.push(Op::Abort),
                    1 => ops.push(Op::Close),
                    2 => ops.push(Op::FailServer { read: true, kind: pick(&mut self.r, &["reset", "timedout", "hostunreach", "io", "netdown", "netreset", "nobufs"]).to_string() }),
                    3 => ops.push(Op::FailServer { read: false, kind: pick(&mut self.r, &["brokenpipe", "timedout", "reset", "nobufs", "io", "hostunreach"]).to_string() }),
                    4 => ops.push(Op::HalfClose),
                    _ => {}
                }
                let s = self.script(c, ops);
                scripts.push(s);
            }
            for c in 0..good {
                if self.chance(60) {
                    let t = self.matching_topic(&f);
                    let n = self.n(1, 10) as u32;
                    let o = self.publish(vec![t], n, 40, 0);
                    let s = self.script(c, vec![o, Op::Ping { wait: true }]);
                    scripts.push(s);
                }
            }
            self.phase(scripts);
            let t = self.matching_topic(&f);
            let o = self.publish(vec![t], 1, 40, 0);
            let s = self.script(0, vec![o]);
            self.phase(vec![s]);
        }
    }

    /// One malformed packet at some place in an otherwise valid stream.
    pub fn malformed_stream(&mut self) {
        self.p.scenario = "malformed".into();
        let f = self.filter();
        let o = self.connect("watch", true);
        let s = self.sub(vec![f.clone(), "#".to_string()], true);
        let s = self.script(0, vec![o, s]);
        self.phase(vec![s]);
        let n = self.n(1, 4) as usize;
        let mut scripts = Vec::new();
        for c in 1..=n {
            let mut ops = Vec::new();
            if self.chance(12) {
                let l = self.r.below(self.p.listeners as u64) as usize;
                ops.push(Op::Dial { listener: l });
                let (b, w) = self.malformed_connect();
                ops.push(Op::Raw { hex: hex(&b), why: w, ghosts: vec![] });
                let o = self.some_request(&f);
                ops.push(o);
            } else {
                let id = self.id(c);
                let w = self.chance(70);
                let o = self.connect(&id, w);
                ops.push(o);
                let k = self.n(0, 4);
                for _ in 0..k {
                    let o = self.some_request(&f);
                    ops.push(o);
                }
                let o = self.malformed_op(&[f.clone()]);
                ops.push(o);
                let k = self.n(0, 3);
                for _ in 0..k {
                    let o = self.some_request(&f);
                    ops.push(o);
                }
            }
            match self.r.below(6) {
                0 => ops.push(Op::Close),
                1 => ops.push(Op::HalfClose),
                2 => ops.push(Op::AwaitClose),
                _ => {}
            }
            let mut s = self.script(c, ops);
            if self.chance(40) {
                s.chunk = Chunk::Join;
            }
            scripts.push(s);
        }
        self.phase(scripts);
        let t = self.matching_topic(&f);
        let o = self.publish(vec![t], 2, 30, 0);
        let s = self.script(0, vec![o]);
        self.phase(vec![s]);
    }

    fn boundary_size(&mut self, topic_len: usize) -> u32 {
        // payload so that the remaining length lands next to a limit of the length field,
        // or the packet next to a multiple of the buffers
        let target = match self.r.below(8) {
            0 => 127,
            1 => 16_383,
            2 => 4096,
            3 => 8192,
            4 => 4096 * (1 + self.r.below(6) as i64),
            5 => 1024,
            6 => 65_536,
            _ => 2048,
        } as i64;
        let d = self.r.below(12) as i64 - 6;
        (target + d - 2 - topic_len as i64).max(14) as u32
    }

    /// A length next to one at which a counter, a buffer or a protocol's advice ends.
    fn limit(&mut self) -> usize {
        let near = *pick(
            &mut self.r,
            &[128usize, 256, 512, 1000, 1024, 2048, 4096, 8192, 10_000, 16_384, 20_000, 32_768, 32_768, 40_000, 65_536, 65_536],
        );
        (near + 1 - self.r.below(3) as usize).min(65_535)
    }

    /// `n` bytes: `head`, something long, `tail`.
    fn stretched(&mut self, head: &str, tail: &str, n: usize, levels: bool) -> String {
        let room = n.saturating_sub(head.len() + tail.len());
        let mut s = String::with_capacity(n);
        s.push_str(head);
        let kind = if levels { self.r.below(4) } else { self.r.below(2) };
        match kind {
            0 => s.extend(std::iter::repeat('x').take(room)),
            1 => {
                let seven = self.base.chars().filter(|c| c.len_utf8() == 2).next().unwrap_or('é');
                for _ in 0..room / 2 {
                    s.push(seven);
                }
                s.extend(std::iter::repeat('x').take(room % 2));
            }
            2 => {
                // few levels, all long
                for i in 0..room {
                    s.push(if i % 9000 == 8999 && i + 1 < room { '/' } else { 'y' });
                }
            }
            _ => {
                for i in 0..room {
                    s.push(if i % 40 == 39 && i + 1 < room { '/' } else { 'z' });
                }
            }
        }
        s.push_str(tail);
        s
    }

    /// Every field as long as the protocol lets it be, or almost.
    pub fn limits(&mut self) {
        self.p.scenario = "limits".into();
        self.p.listeners = if self.chance(20) { 2 } else { 1 };
        let k = &mut self.p.knobs;
        k.sock_buf = k.sock_buf.max(8192);
        k.p_short_read = k.p_short_read.min(3000);
        k.p_short_write = k.p_short_write.min(3000);
        if k.p_yield > 8000 {
            k.p_yield = 1500;
        }
        let nc = self.n(2, 3) as usize;
        // names that differ in their first or in their last character only
        let len = self.limit().max(10);
        let own = self.chance(40);
        let front = self.chance(50);
        let ids: Vec<String> = (0..nc)
            .map(|c| {
                let len = if own { self.limit().max(10) } else { len };
                let c = c.to_string();
                if front {
                    let pad = len - 1;
                    format!("{}{}", c, "i".repeat(pad))
                } else {
                    format!("{}{}", "i".repeat(len - 1), c)
                }
            })
            .collect();
        // users whose names and passwords are as long
        let mut users = Vec::new();
        let (ul, pl) = (self.limit().max(8), self.limit().max(8));
        for i in 0..2 {
            let (ul, pl) = (if self.chance(40) { 8 } else { ul }, if self.chance(40) { 9 } else { pl });
            users.push((format!("{}u{}", "n".repeat(ul - 2), i), format!("{}s{}", "w".repeat(pl - 2), i)));
        }
        self.p.users = users.clone();
        // filters: long ones, alone and many together
        let mut filters: Vec<String> = Vec::new();
        for i in 0..self.n(1, 3) {
            let n = self.limit().max(20);
            let tail = *pick(&mut self.r, &["", "", "/+", "/#", "/end"]);
            let head = format!("{}/", i);
            let f = self.stretched(&head, tail, n, true);
            // and one that differs from it at its end only
            if self.chance(40) && tail.is_empty() {
                let mut g = f.clone();
                g.pop();
                while g.len() + 1 < f.len() {
                    g.push('o');
                }
                g.push('q');
                if g != f {
                    filters.push(g);
                }
            }
            filters.push(f);
        }
        let many: Vec<String> = if self.chance(50) {
            // a request longer than 65 535 bytes, sometimes longer than 2 097 151
            let each = *pick(&mut self.r, &[300usize, 2000, 9000, 60_000]);
            let sum = if self.r.below(12) == 0 { 2_097_152 } else { *pick(&mut self.r, &[16_384usize, 32_768, 65_536, 65_536, 131_072, 300_000]) };
            (0..sum / each + 1).map(|i| format!("many/{}/{}", i, "m".repeat(each - 9))).collect()
        } else {
            Vec::new()
        };
        let rounds = self.n(1, 3);
        let mut up = vec![false; nc];
        for round in 0..rounds {
            let mut scripts = Vec::new();
            for c in 0..nc {
                let mut ops = Vec::new();
                if !up[c] || self.chance(20) {
                    // connects, or takes its own session over
                    let w = self.chance(75);
                    let mut o = self.connect(&ids[c], w);
                    let will = self.chance(40);
                    let (tl, ml) = (self.limit().max(4), self.limit());
                    let wt = self.stretched("w/", "t", tl, false);
                    if let Op::Connect { user, pass, will: wl, .. } = &mut o {
                        *user = None;
                        *pass = None;
                        if self.r.below(100) < 60 {
                            let u = pick(&mut self.r, &users);
                            *user = Some(u.0.clone());
                            *pass = Some(u.1.clone());
                            if self.r.below(5) == 0 {
                                // one character too few, too many, or another
                                let p = pass.as_mut().unwrap();
                                match self.r.below(4) {
                                    0 => {
                                        p.pop();
                                    }
                                    1 if p.len() < 65_535 => p.push('x'),
                                    2 => {
                                        p.pop();
                                        p.push('x');
                                    }
                                    _ => {
                                        let half = p.len() / 2;
                                        p.truncate(half);
                                    }
                                }
                            }
                        }
                        if will {
                            *wl = Some((wt, "m".repeat(ml), self.r.below(3) as u8, self.r.below(2) == 0));
                        }
                    }
                    ops.push(o);
                    up[c] = true;
                }
                for _ in 0..self.n(1, 3) {
                    let w = self.chance(75);
                    let o = match self.r.below(8) {
                        0 | 1 | 2 => {
                            let f = pick(&mut self.r, &filters).clone();
                            self.sub(vec![f], w)
                        }
                        3 => {
                            let fs = filters.clone();
                            self.sub(fs, w)
                        }
                        4 if !many.is_empty() && c == 0 => {
                            let fs = many.clone();
                            if self.chance(70) {
                                self.sub(fs, w)
                            } else {
                                Op::Unsub { filters: fs, wait: w }
                            }
                        }
                        5 => {
                            let f = pick(&mut self.r, &filters).clone();
                            Op::Unsub { filters: vec![f], wait: w }
                        }
                        _ => {
                            let f = pick(&mut self.r, &filters).clone();
                            let t = self.matching_topic(&f);
                            let n = *pick(&mut self.r, &[20usize, 20, 300, 70_000]);
                            self.publish(vec![t], 2, n as u32, 0)
                        }
                    };
                    ops.push(o);
                }
                let s = self.script(c, ops);
                scripts.push(s);
            }
            self.phase(scripts);
            // what everybody holds
            let mut ops = Vec::new();
            if round == 0 {
                let o = self.connect("teller", true);
                ops.push(o);
            }
            for f in filters.clone() {
                let t = self.matching_topic(&f);
                let o = self.publish(vec![t], 1, 30, 0);
                ops.push(o);
            }
            for _ in 0..if many.is_empty() { 0 } else { 4 } {
                let t = pick(&mut self.r, &many).clone();
                let o = self.publish(vec![t], 1, 30, 0);
                ops.push(o);
            }
            let s = self.plain(nc, ops);
            self.phase(vec![s]);
        }
    }

    /// Valid streams, cut everywhere.
    pub fn segmentation(&mut self, big: bool) {
        self.p.scenario = "segmentation".into();
        self.p.knobs.p_short_read = *pick(&mut self.r, &[0, 3000, 20000, 60000]);
        let f = self.filter();
        let o = self.connect("watch", true);
        let s = self.sub(vec![f.clone()], true);
        let s = self.script(0, vec![o, s]);
        self.phase(vec![s]);
        let n = self.n(1, 3) as usize;
        let mut scripts = Vec::new();
        if big {
            self.p.knobs.sock_buf = 262_144;
            self.p.knobs.p_short_read = 0;
            self.p.knobs.p_short_write = 0;
            self.p.knobs.p_yield = 0;
        }
        for c in 1..=n {
            let id = self.id(c);
            let w = self.chance(50);
            let mut o = self.connect(&id, w);
            if let Op::Connect { will, .. } = &mut o {
                if self.r.below(4) == 0 {
                    let m = "w".repeat(self.r.below(300) as usize);
                    *will = Some(("will/topic".into(), m, self.r.below(3) as u8, self.r.below(2) == 0));
                }
            }
            let mut ops = vec![o];
            let k = self.n(2, 9);
            for i in 0..k {
                let o = match self.r.below(10) {
                    0..=4 => {
                        let t = self.matching_topic(&f);
                        let s = if big && i == 0 && c == 1 {
                            2_097_152 - 2 - t.len() as u32 - 3 + self.r.below(6) as u32
                        } else if self.chance(60) {
                            self.boundary_size(t.len())
                        } else {
                            self.size()
                        };
                        let s = if s < 1_000_000 && self.p.knobs.sock_buf < 1000 { s.min(9000) } else { s };
                        self.publish(vec![t], 1, s, 0)
                    }
                    5 => {
                        let m = if self.chance(30) { self.n(20, 120) } else { self.n(1, 4) };
                        let fs = (0..m)
                            .map(|_| {
                                let mut f = self.filter();
                                if self.r.below(3) == 0 {
                                    f = format!("{}/{}", "x".repeat(self.r.below(200) as usize), f);
                                }
                                f
                            })
                            .collect();
                        self.sub(fs, false)
                    }
                    6 => Op::Unsub { filters: vec![self.filter(), self.filter()], wait: false },
                    7 => Op::Ping { wait: false },
                    8 => self.legal(),
                    _ => {
                        // a very long topic
                        let l = 1 + self.r.below(if self.p.knobs.sock_buf < 1000 { 3000 } else { 9000 }) as usize;
                        let base = if mqtt::matches(&f, "q/z") { "q".to_string() } else { "long".to_string() };
                        self.publish(vec![format!("{}{}/z", base, "y".repeat(l))], 1, 20, 0)
                    }
                };
                ops.push(o);
            }
            if self.chance(30) {
                ops.push(Op::Disc { then: self.r.below(2) as u8 });
            }
            let chunk = match self.r.below(6) {
                0 if !big => Chunk::Bytes,
                1 => Chunk::Join,
                2 => Chunk::Whole,
                3 => Chunk::Tail { back: 1 + self.r.below(8) as u32, gap_us: *pick(&mut self.r, &[0, 100, 1_000_000, 100_000_000]) },
                _ => Chunk::Cut {
                    max: *pick(&mut self.r, &[1, 3, 17, 100, 1000, 4096, 5000]),
                    gap_us: *pick(&mut self.r, &[0, 0, 100, 5_000]),
                },
            };
            scripts.push(Script { slot: c, chunk, ops });
        }
        self.phase(scripts);
    }

    /// Large and many outgoing packets through narrow pipes.
    pub fn outbound(&mut self) {
        self.p.scenario = "outbound".into();
        let k = &mut self.p.knobs;
        k.p_short_write = *pick(&mut self.r, &[0, 8000, 30000, 65536]);
        k.sock_buf = *pick(&mut self.r, &[65536, 16384, 8192, 4096, 4095, 4097, 1000, 300]);
        let f = self.filter();
        let ns = self.n(1, 3) as usize;
        let mut scripts = Vec::new();
        for c in 0..ns {
            let id = self.id(c);
            let o = self.connect(&id, true);
            let s = self.sub(vec![f.clone()], true);
            let s = self.script(c, vec![o, s]);
            scripts.push(s);
        }
        let o = self.connect("pub", true);
        let s = self.plain(ns, vec![o]);
        scripts.push(s);
        self.phase(scripts);
        let mut budget = self.byte_budget();
        let phases = self.n(1, 3);
        for _ in 0..phases {
            let mut scripts = Vec::new();
            let mut ops = Vec::new();
            let k = self.n(1, 6);
            for _ in 0..k {
                let t = self.matching_topic(&f);
                let s = if self.chance(65) { self.boundary_size(t.len()) } else { self.size() };
                let n = if self.chance(60) { 1 } else { self.n(1, 10) };
                let cost = n * (s as u64 + 60) * (ns as u64 + 1);
                if cost > budget {
                    continue;
                }
                budget -= cost;
                let s2 = if self.chance(30) { 20 } else { 0 };
                let o = self.publish(vec![t], n as u32, s, s2);
                ops.push(o);
            }
            let s = self.script(ns, ops);
            scripts.push(s);
            for c in 0..ns {
                let mut ops = Vec::new();
                let k = self.n(0, 4);
                for _ in 0..k {
                    let o = match self.r.below(4) {
                        0 => Op::Nap { us: 1 + self.r.below(2_000_000) },
                        1 => Op::Ping { wait: false },
                        2 => {
                            let m = self.n(1, 90);
                            let fs = (0..m).map(|i| format!("only/{}/{}", c, i)).collect();
                            self.sub(fs, false)
                        }
                        _ => self.sleep(30_000),
                    };
                    ops.push(o);
                }
                let s = self.script(c, ops);
                scripts.push(s);
            }
            self.phase(scripts);
        }
    }

    /// Many connections that end in all ways, with traffic for them in flight.
    pub fn churn(&mut self) {
        self.p.scenario = "churn".into();
        self.p.listeners = if self.chance(20) { 2 } else { 1 };
        let f = self.filter();
        let o = self.connect("steady", true);
        let s = self.sub(vec![f.clone()], true);
        let s = self.script(0, vec![o, s]);
        self.phase(vec![s]);
        let rounds = self.n(1, 3);
        let n = self.n(1, 5) as usize;
        for _ in 0..rounds {
            let mut scripts = Vec::new();
            for c in 1..=n {
                let mut ops = Vec::new();
                let times = self.n(1, 4);
                for _ in 0..times {
                    if self.chance(8) {
                        let l = self.r.below(self.p.listeners as u64) as usize;
                        ops.push(Op::Dial { listener: l });
                        if self.chance(50) {
                            let (b, _) = self.valid_packet();
                            ops.push(Op::Partial { hex: hex(&b[..1]) });
                        }
                    } else if self.chance(12) {
                        let (u, p) = self.credentials();
                        let valid = self.valid(&u, &p);
                        let id = format!("churn{}", c);
                        let l = self.r.below(self.p.listeners as u64) as usize;
                        ops.push(Op::Connect {
                            id,
                            user: Some(u),
                            pass: p,
                            clean: true,
                            keep_alive: 0,
                            will: None,
                            listener: l,
                            wait: valid || self.chance(50),
                        });
                        if !valid && self.chance(60) {
                            ops.push(Op::AwaitClose);
                        }
                    } else {
                        let id = if self.chance(70) { format!("churn{}", c) } else { format!("churn{}-{}", c, self.r.below(1000)) };
                        let w = self.chance(75);
                        let o = self.connect(&id, w);
                        ops.push(o);
                        if self.chance(70) {
                            let w = self.chance(60);
                            let o = self.sub(vec![f.clone()], w);
                            ops.push(o);
                        }
                        if self.chance(30) {
                            let t = self.matching_topic(&f);
                            let s = self.size().min(9000);
                            let o = self.publish(vec![t], 2, s, 0);
                            ops.push(o);
                        }
                        if self.chance(30) {
                            let o = self.sleep(5_000);
                            ops.push(o);
                        }
                    }
                    match self.r.below(9) {
                        0 => {
                            let o = self.malformed_op(&[f.clone()]);
                            ops.push(o);
                            if self.chance(50) {
                                ops.push(Op::AwaitClose);
                            }
                        }
                        1 => {
                            ops.push(Op::Reconnect { id: "churn-again".into(), user: None, pass: None });
                            if self.chance(50) {
                                ops.push(Op::AwaitClose);
                            }
                        }
                        2 => {
                            ops.push(Op::FailServer { read: true, kind: "timedout".into() });
                            ops.push(Op::Close);
                        }
                        3 => {
                            let (b, _) = self.valid_packet();
                            let k = 1 + self.r.below(b.len() as u64 - 1) as usize;
                            ops.push(Op::Partial { hex: hex(&b[..k]) });
                            let e = if self.chance(50) { Op::Close } else { Op::Abort };
                            ops.push(e);
                        }
                        _ => {
                            let e = self.end_op();
                            ops.push(e);
                        }
                    }
                }
                let s = self.script(c, ops);
                scripts.push(s);
            }
            if self.chance(70) {
                let mut ops = Vec::new();
                let k = self.n(1, 8);
                for _ in 0..k {
                    let t = self.matching_topic(&f);
                    let n = self.n(1, 12) as u32;
                    let s = self.size().min(5000);
                    let o = self.publish(vec![t], n, s, 0);
                    ops.push(o);
                    let s = self.sleep(3_000);
                    ops.push(s);
                }
                let s = self.script(0, ops);
                scripts.push(s);
            }
            self.phase(scripts);
        }
    }

    /// Some clients stall; the others go on.
    pub fn stall(&mut self) {
        self.p.scenario = "stall".into();
        self.p.listeners = if self.chance(20) { 2 } else { 1 };
        self.p.knobs.p_slow = 0;
        let f = self.filter();
        let good = self.n(2, 3) as usize;
        // few of any kind, or a crowd that dials and leaves its CONNECT unfinished
        let crowd = self.chance(12);
        let bad = if crowd { self.n(8, 150) } else { self.n(1, 4) } as usize;
        let mut room = self.byte_budget() / (good as u64 + 6);
        let mut scripts = Vec::new();
        for c in 0..good {
            let id = self.id(c);
            let o = self.connect(&id, true);
            let s = self.sub(vec![f.clone()], true);
            let s = self.script(c, vec![o, s]);
            scripts.push(s);
        }
        let mut readers = Vec::new();
        for c in good..good + bad {
            let mut ops = Vec::new();
            match self.r.below(if crowd { 2 } else { 5 }) {
                0 => {
                    let l = self.r.below(self.p.listeners as u64) as usize;
                    ops.push(Op::Dial { listener: l });
                }
                1 => {
                    let l = self.r.below(self.p.listeners as u64) as usize;
                    ops.push(Op::Dial { listener: l });
                    let b = mqtt::connect(&mqtt::ConnectOpts {
                        id: "slowpoke",
                        user: None,
                        pass: None,
                        clean: true,
                        keep_alive: 0,
                        will: None,
                        v31: false,
                    });
                    let k = 1 + self.r.below(b.len() as u64 - 1) as usize;
                    ops.push(Op::Partial { hex: hex(&b[..k]) });
                }
                2 => {
                    let id = self.id(c);
                    let o = self.connect(&id, true);
                    ops.push(o);
                    let o = self.sub(vec![f.clone()], true);
                    ops.push(o);
                    let (mut b, _) = self.valid_packet();
                    if self.chance(40) {
                        // in the middle of a large message
                        let t = self.matching_topic(&f);
                        b = mqtt::publish(&t, &vec![7u8; 20_000], 0, false, false, 0);
                    }
                    let k = 1 + self.r.below(b.len() as u64 - 1) as usize;
                    ops.push(Op::Partial { hex: hex(&b[..k]) });
                }
                3 => {
                    let id = self.id(c);
                    let o = self.connect(&id, true);
                    ops.push(o);
                }
                _ => {
                    let id = self.id(c);
                    let o = self.connect(&id, true);
                    ops.push(o);
                    let o = self.sub(vec![f.clone()], true);
                    ops.push(o);
                    ops.push(Op::Pause { on: true });
                    readers.push(c);
                }
            }
            let s = self.script(c, ops);
            scripts.push(s);
        }
        self.phase(scripts);
        let mut due: u64 = 150;
        let rounds = self.n(1, 3);
        for _ in 0..rounds {
            let mut scripts = Vec::new();
            for c in 0..good {
                let mut ops = Vec::new();
                let k = self.n(1, 4);
                for _ in 0..k {
                    match self.r.below(5) {
                        0 | 1 => {
                            let n = if self.chance(20) { self.n(20, 60) } else { self.n(1, 8) }.min(due);
                            let s = self.size().min(20_000);
                            let n = n.min(room / (s as u64 + 60));
                            if n > 0 {
                                due -= n;
                                room -= n * (s as u64 + 60);
                                let t = self.matching_topic(&f);
                                let o = self.publish(vec![t], n as u32, s, 0);
                                ops.push(o);
                            }
                        }
                        2 => ops.push(Op::Ping { wait: true }),
                        3 => {
                            let x = self.filter();
                            let o = self.sub(vec![x], true);
                            ops.push(o);
                        }
                        _ => {
                            let s = self.sleep(400_000_000);
                            ops.push(s);
                        }
                    }
                }
                let s = self.script(c, ops);
                scripts.push(s);
            }
            // newcomers
            if self.chance(60) {
                let c = good + bad;
                let id = format!("new{}", self.r.below(100));
                let o = self.connect(&id, true);
                let s = self.sub(vec![f.clone()], true);
                let s = self.script(c, vec![o, s, Op::Ping { wait: true }]);
                scripts.push(s);
            }
            self.phase(scripts);
        }
        if self.chance(50) {
            // the stalled ones come back or go
            let mut scripts = Vec::new();
            for &c in &readers {
                let o = match self.r.below(3) {
                    0 => Op::Pause { on: false },
                    1 => Op::Abort,
                    _ => Op::Close,
                };
                let s = self.plain(c, vec![o]);
                scripts.push(s);
            }
            self.phase(scripts);
        }
    }

    /// The stall that is a known finding: a reader that stops with more due than its queue holds.
    pub fn stall_known(seed: u64) -> Plan {
        let mut g = G::new("B17", seed);
        g.p.knobs = KnobsS { sock_buf: 4096, ..KnobsS::default() };
        g.p.log = "off".into();
        g.p.scenario = "stalled reader with a full queue".into();
        let o = |id: &str| Op::Connect {
            id: id.into(),
            user: None,
            pass: None,
            clean: true,
            keep_alive: 0,
            will: None,
            listener: 0,
            wait: true,
        };
        let sub = |f: &str| Op::Sub { filters: vec![(f.into(), 0)], wait: true };
        let publ = |key, t: &str, n, size| Op::Pub {
            key,
            topics: vec![t.into()],
            n,
            size,
            size2: 0,
            qos: 0,
            dup: false,
            retain: false,
            tiny: false,
        };
        let sc = |slot, ops| Script { slot, chunk: Chunk::Whole, ops };
        g.p.phases = vec![
            Phase {
                scripts: vec![
                    sc(0, vec![o("stalled"), sub("t"), Op::Pause { on: true }]),
                    sc(1, vec![o("publisher")]),
                    sc(2, vec![o("victim"), sub("v")]),
                ],
            },
            Phase { scripts: vec![sc(1, vec![publ(11, "t", 200, 1000)])] },
            Phase { scripts: vec![sc(2, vec![publ(12, "v", 1, 20), Op::Ping { wait: true }])] },
            Phase { scripts: vec![sc(0, vec![Op::Pause { on: false }])] },
        ];
        g.p
    }

    /// Long idle times and clock steps.
    pub fn idle(&mut self) {
        self.p.scenario = "idle".into();
        let nc = self.n(2, 4) as usize;
        let filters: Vec<String> = (0..2).map(|_| self.filter()).collect();
        let mut scripts = Vec::new();
        let mut ka = Vec::new();
        for c in 0..nc {
            let id = self.id(c);
            let mut o = self.connect(&id, true);
            let k = *pick(&mut self.r, &[0u16, 0, 3600, 60, 5, 1, 65535]);
            if let Op::Connect { keep_alive, .. } = &mut o {
                *keep_alive = k;
            }
            ka.push(k);
            let f = pick(&mut self.r, &filters).clone();
            let s = self.sub(vec![f], true);
            let mut ops = vec![o, s];
            self.keep(&mut ops, k, 60);
            let s = self.plain(c, ops);
            scripts.push(s);
        }
        // barriers take half a minute: only patient clients survive them under their contract
        for (c, k) in ka.iter().enumerate() {
            if *k != 0 && *k < 3600 {
                // this client leaves before the barrier: it cannot ping during it
                if let Some(s) = scripts.iter_mut().find(|s| s.slot == c) {
                    s.ops.push(Op::Disc { then: 0 });
                }
            }
        }
        self.phase(scripts);
        let rounds = self.n(1, 4);
        for _ in 0..rounds {
            let mut scripts = Vec::new();
            for c in 0..nc {
                if ka[c] != 0 && ka[c] < 3600 {
                    // a fresh session that pings as promised, then publishes and leaves
                    let id = self.id(c);
                    let mut o = self.connect(&id, true);
                    if let Op::Connect { keep_alive, .. } = &mut o {
                        *keep_alive = ka[c];
                    }
                    let f = pick(&mut self.r, &filters).clone();
                    let s = self.sub(vec![f.clone()], true);
                    let mut ops = vec![o, s];
                    let secs = self.n(1, 400);
                    self.keep(&mut ops, ka[c], secs);
                    if self.chance(30) {
                        let o = self.step();
                        ops.push(o);
                    }
                    let t = self.matching_topic(&f);
                    let o = self.publish(vec![t], 2, 30, 0);
                    ops.push(o);
                    ops.push(Op::Ping { wait: true });
                    let e = if self.chance(40) { Op::Disc { then: 0 } } else { self.end_op() };
                    ops.push(e);
                    let s = self.plain(c, ops);
                    scripts.push(s);
                    continue;
                }
                let mut ops = Vec::new();
                let k = self.n(1, 4);
                for _ in 0..k {
                    match self.r.below(6) {
                        0 | 1 if ka[c] == 0 => {
                            let us = *pick(&mut self.r, &[1_000_000u64, 60_000_000, 3_600_000_000, 86_400_000_000, 40 * 86_400_000_000, 400 * 86_400_000_000]);
                            let f = 1 + self.r.below(3);
                            ops.push(Op::Sleep { us: us * f });
                        }
                        0 | 1 => ops.push(Op::Sleep { us: 1_000_000 * (1 + self.r.below(1000)) }),
                        2 => {
                            let o = self.step();
                            ops.push(o);
                        }
                        3 => ops.push(Op::Ping { wait: true }),
                        4 => {
                            let x = self.filter();
                            let o = self.sub(vec![x], true);
                            ops.push(o);
                        }
                        _ => {
                            let f = pick(&mut self.r, &filters).clone();
                            let t = self.matching_topic(&f);
                            let o = self.publish(vec![t], 2, 30, 0);
                            ops.push(o);
                        }
                    }
                }
                // a client with a keep-alive must be heard from in time
                if ka[c] != 0 {
                    let mut acc = 0u64;
                    let mut out = Vec::new();
                    for o in ops {
                        if let Op::Sleep { us } = &o {
                            acc += us;
                            if acc > ka[c] as u64 * 700_000 {
                                out.push(Op::Ping { wait: true });
                                acc = *us;
                            }
                        }
                        out.push(o);
                    }
                    out.push(Op::Ping { wait: true });
                    ops = out;
                }
                let s = self.plain(c, ops);
                scripts.push(s);
            }
            // a patient client with a keep-alive cannot wait for the others' days
            if ka.iter().any(|k| *k >= 3600) {
                for s in &mut scripts {
                    for o in &mut s.ops {
                        if let Op::Sleep { us } = o {
                            *us = (*us).min(500_000_000);
                        }
                    }
                }
            }
            self.phase(scripts);
            let mut ops = Vec::new();
            for f in &filters {
                let t = self.matching_topic(f);
                let o = self.publish(vec![t], 1, 30, 0);
                ops.push(o);
            }
            if let Some(c) = (0..nc).find(|c| ka[*c] == 0 || ka[*c] >= 3600) {
                let mut scripts = vec![self.plain(c, ops)];
                for d in 0..nc {
                    if d != c && ka[d] >= 3600 {
                        let s = self.plain(d, vec![Op::Ping { wait: true }]);
                        scripts.push(s);
                    }
                }
                self.phase(scripts);
            }
        }
    }

    fn step(&mut self) -> Op {
        let ms = *pick(
            &mut self.r,
            &[1i64, 1000, -1000, 3_600_000, -3_600_000, 86_400_000, -86_400_000, 400 * 86_400_000, -400 * 86_400_000, 30_000 * 86_400_000],
        );
        Op::StepClock { ms }
    }

    /// Sleeps `secs` seconds, pinging often enough for the keep-alive.
    fn keep(&mut self, ops: &mut Vec<Op>, ka: u16, secs: u64) {
        if ka == 0 || ka >= 3600 {
            return;
        }
        let step = (ka as u64 * 1_000_000 * 6 / 10).max(300_000);
        let n = (secs * 1_000_000 / step).min(60);
        for _ in 0..n {
            ops.push(Op::Sleep { us: step });
            ops.push(Op::Ping { wait: true });
            if self.r.below(12) == 0 {
                let o = self.step();
                ops.push(o);
            }
        }
    }

    /// Several listeners and failing accept calls.
    pub fn listeners(&mut self) {
        self.p.scenario = "listeners".into();
        self.p.listeners = if self.chance(20) { self.n(5, 40) } else { self.n(1, 4) } as usize;
        let nl = self.p.listeners as u64;
        let nc = self.n(2, 6) as usize;
        let filters: Vec<String> = (0..2).map(|_| self.filter()).collect();
        let ids: Vec<String> = (0..nc).map(|c| self.id(c)).collect();
        let mut scripts = Vec::new();
        for c in 0..nc {
            let mut ops = Vec::new();
            if self.chance(35) {
                let kind = pick(&mut self.r, &["aborted", "nofile", "nfile", "interrupted", "nomem", "nobufs", "permission", "reset", "proto", "netdown", "hostunreach", "timedout"]).to_string();
                ops.push(Op::FailAccept { listener: self.r.below(nl) as usize, kind, n: *pick(&mut self.r, &[1, 1, 2, 3, 4, 7, 16, 100, 700]) });
            }
            let o = self.connect(&ids[c], true);
            ops.push(o);
            let f = pick(&mut self.r, &filters).clone();
            let s = self.sub(vec![f], true);
            ops.push(s);
            let s = self.script(c, ops);
            scripts.push(s);
        }
        self.phase(scripts);
        let rounds = self.n(1, 3);
        for _ in 0..rounds {
            let mut scripts = Vec::new();
            for c in 0..nc {
                let mut ops = Vec::new();
                if self.chance(30) {
                    let kind = pick(&mut self.r, &["aborted", "nofile", "nfile", "interrupted", "nomem", "nobufs", "proto"]).to_string();
                    ops.push(Op::FailAccept { listener: self.r.below(nl) as usize, kind, n: *pick(&mut self.r, &[1, 1, 2, 3, 4, 7, 16, 100, 700]) });
                }
                match self.r.below(4) {
                    0 => {
                        // the same id through another listener
                        let slot = nc + c;
                        let o = self.connect(&ids[c], true);
                        let f = pick(&mut self.r, &filters).clone();
                        let s = self.sub(vec![f], true);
                        let s = self.script(slot, vec![o, s]);
                        scripts.push(s);
                    }
                    1 => {
                        let e = self.end_op();
                        ops.push(e);
                        let o = self.connect(&ids[c], true);
                        ops.push(o);
                        let f = pick(&mut self.r, &filters).clone();
                        let s = self.sub(vec![f], true);
                        ops.push(s);
                    }
                    _ => {
                        let f = pick(&mut self.r, &filters).clone();
                        let t = self.matching_topic(&f);
                        let n = self.n(1, 5) as u32;
                        let o = self.publish(vec![t], n, 30, 0);
                        ops.push(o);
                    }
                }
                let s = self.script(c, ops);
                scripts.push(s);
            }
            self.phase(scripts);
            let mut ops = Vec::new();
            for f in &filters {
                let t = self.matching_topic(f);
                let o = self.publish(vec![t], 1, 30, 0);
                ops.push(o);
            }
            let c = self.r.below(nc as u64) as usize;
            let s = self.script(c, ops);
            self.phase(vec![s]);
        }
    }

    /// All publish flags.
    pub fn flags(&mut self) {
        self.p.scenario = "publish flags".into();
        let ns = self.n(1, 3) as usize;
        let f = self.filter();
        let mut scripts = Vec::new();
        for c in 0..ns {
            let id = self.id(c);
            let o = self.connect(&id, true);
            let s = self.sub(vec![f.clone()], true);
            let s = self.script(c, vec![o, s]);
            scripts.push(s);
        }
        let np = self.n(1, 2) as usize;
        for c in ns..ns + np {
            let id = self.id(c);
            let mut ops = vec![self.connect(&id, true)];
            if self.chance(40) {
                // hears itself, too
                let mut fs = vec![f.clone()];
                if self.chance(30) {
                    fs.push("#".into());
                }
                ops.push(self.sub(fs, true));
            }
            let s = self.plain(c, ops);
            scripts.push(s);
        }
        self.phase(scripts);
        let mut scripts = Vec::new();
        for c in ns..ns + np {
            let mut ops = Vec::new();
            let k = self.n(2, 10);
            for _ in 0..k {
                let t = self.matching_topic(&f);
                let qos = self.r.below(3) as u8;
                let size = self.size().min(9000);
                let key = self.key();
                let n = self.n(1, 3) as u32;
                ops.push(Op::Pub {
                    key,
                    topics: vec![t],
                    n,
                    size,
                    size2: 0,
                    qos,
                    dup: qos > 0 && self.chance(50),
                    retain: self.chance(50),
                    tiny: self.r.below(8) == 0,
                });
            }
            let s = self.script(c, ops);
            scripts.push(s);
        }
        // a late subscriber
        if self.chance(40) {
            let o = self.connect("late", true);
            let s = self.sub(vec![f.clone(), "#".into()], true);
            let z = self.sleep(3_000);
            let s = self.script(ns + np, vec![z, o, s]);
            scripts.push(s);
        }
        self.phase(scripts);
        if self.chance(40) {
            let o = self.connect("later", true);
            let s = self.sub(vec![f.clone(), "#".into()], true);
            let s = self.script(ns + np + 1, vec![o, s]);
            self.phase(vec![s]);
        }
    }

    /// Clients without an id.
    pub fn anonymous(&mut self) {
        self.p.scenario = "anonymous".into();
        self.p.listeners = if self.chance(20) { 2 } else { 1 };
        let nc = self.n(2, 12) as usize;
        let filters: Vec<String> = (0..4).map(|_| self.filter()).collect();
        let stagger = self.chance(50);
        let mut scripts = Vec::new();
        if self.chance(40) {
            // neighbours with names that a generator might come up with
            let names = [
                "1", "0", "2", "client-1", "anonymous", "anonymous-1", "auto-1", "ratelmq-1", "ratelmq", "client1",
                "127.0.0.1:40000", "127.0.0.1:40001", "127.0.0.1", "auto-40001", "40001",
                "00000000-0000-0000-0000-000000000000", "00000000-0000-4000-8000-000000000001", "null", "-", "none",
            ];
            let k = self.n(1, 6) as usize;
            let at = self.r.below(names.len() as u64) as usize;
            for i in 0..k {
                let o = self.connect(names[(at + i) % names.len()], true);
                let f = pick(&mut self.r, &filters).clone();
                let s = self.sub(vec![f], true);
                let s = self.script(nc + 1 + i, vec![o, s]);
                scripts.push(s);
            }
        }
        for c in 0..nc {
            let mut ops = Vec::new();
            if stagger {
                let s = self.sleep(50_000);
                ops.push(s);
            }
            let w = self.chance(70);
            let mut o = self.connect("", w);
            if let Op::Connect { clean, .. } = &mut o {
                *clean = true;
            }
            ops.push(o);
            let f = pick(&mut self.r, &filters).clone();
            let s = self.sub(vec![f], w);
            ops.push(s);
            let s = self.script(c, ops);
            scripts.push(s);
        }
        self.phase(scripts);
        let rounds = self.n(1, 3);
        for _ in 0..rounds {
            let mut scripts = Vec::new();
            for c in 0..nc {
                let mut ops = Vec::new();
                if self.chance(10) {
                    let o = self.step();
                    ops.push(o);
                }
                match self.r.below(5) {
                    0 => {
                        let e = self.end_op();
                        ops.push(e);
                        if self.chance(60) {
                            let mut o = self.connect("", true);
                            if let Op::Connect { clean, .. } = &mut o {
                                *clean = true;
                            }
                            ops.push(o);
                            if self.chance(60) {
                                let f = pick(&mut self.r, &filters).clone();
                                let s = self.sub(vec![f], true);
                                ops.push(s);
                            }
                        }
                    }
                    1 => ops.push(Op::Ping { wait: true }),
                    2 => {
                        let f = pick(&mut self.r, &filters).clone();
                        ops.push(Op::Unsub { filters: vec![f], wait: true });
                    }
                    _ => {
                        let f = pick(&mut self.r, &filters).clone();
                        let t = self.matching_topic(&f);
                        let o = self.publish(vec![t], 1, 30, 0);
                        ops.push(o);
                    }
                }
                let s = self.script(c, ops);
                scripts.push(s);
            }
            self.phase(scripts);
            let mut ops = Vec::new();
            for f in &filters {
                let t = self.matching_topic(f);
                let o = self.publish(vec![t], 1, 30, 0);
                ops.push(o);
            }
            let mut o = self.connect("speaker", true);
            if let Op::Connect { clean, .. } = &mut o {
                *clean = true;
            }
            ops.insert(0, o);
            let s = self.script(nc, ops);
            self.phase(vec![s]);
        }
    }

    /// Very many clients at once.
    pub fn crowd(&mut self, anonymous: bool, stadium: bool) {
        self.p.scenario = if stadium { "stadium" } else if anonymous { "anonymous crowd" } else { "crowd" }.into();
        self.p.listeners = if self.chance(25) { self.n(2, 3) as usize } else { 1 };
        let k = &mut self.p.knobs;
        k.sock_buf = k.sock_buf.max(4096);
        k.p_short_read = k.p_short_read.min(3000);
        k.p_short_write = k.p_short_write.min(3000);
        k.p_yield = k.p_yield.min(1500);
        if stadium {
            // to draw by priority among thousands of tasks would take minutes
            if k.policy == "priority" {
                k.policy = "random".into();
            }
            k.p_slow = 0;
            k.p_yield = 0;
        }
        if self.lvk == 2 {
            self.lvk = 6;
        }
        let nc = match self.r.below(6) {
            _ if stadium => {
                let n = *pick(&mut self.r, &[513u64, 1025, 1025, 2049]);
                n + self.r.below(30)
            }
            0 if anonymous => self.n(257, 400),
            0 => self.n(129, 300),
            1 | 2 => self.n(60, 140),
            _ => self.n(20, 60),
        } as usize;
        let fcount = if stadium { 1 } else { self.n(1, 6) } as usize;
        let filters: Vec<String> = (0..fcount).map(|_| self.filter()).collect();
        let own = self.chance(50);
        let together = self.chance(60);
        let mut scripts = Vec::new();
        for c in 0..nc {
            let id = if anonymous { String::new() } else { self.id(c) };
            let mut ops = Vec::new();
            if stadium {
                ops.push(Op::Sleep { us: c as u64 * 100 });
            } else if !together {
                let o = self.sleep(60_000);
                ops.push(o);
            }
            let w = self.chance(60);
            let mut o = self.connect(&id, w);
            if let Op::Connect { clean, will, .. } = &mut o {
                *clean = *clean || anonymous;
                *will = None;
            }
            ops.push(o);
            let mut fs = vec![pick(&mut self.r, &filters).clone()];
            if own {
                fs.push(format!("own/{}", c));
            }
            let s = self.sub(fs, true);
            ops.push(s);
            let s = self.plain(c, ops);
            scripts.push(s);
        }
        self.phase(scripts);
        let rounds = if stadium { 1 } else { self.n(1, 3) };
        for _ in 0..rounds {
            let mut scripts = Vec::new();
            for c in 0..nc {
                let mut ops = Vec::new();
                match self.r.below(if stadium { 100 } else { 12 }) {
                    0 => {
                        let e = self.end_op();
                        ops.push(e);
                        if self.chance(60) {
                            let id = if anonymous { String::new() } else { self.id(c) };
                            let mut o = self.connect(&id, true);
                            if let Op::Connect { clean, .. } = &mut o {
                                *clean = *clean || anonymous;
                            }
                            ops.push(o);
                            if self.chance(60) {
                                let f = pick(&mut self.r, &filters).clone();
                                let s = self.sub(vec![f], true);
                                ops.push(s);
                            }
                        }
                    }
                    1 => ops.push(Op::Ping { wait: true }),
                    2 => {
                        let f = pick(&mut self.r, &filters).clone();
                        ops.push(Op::Unsub { filters: vec![f], wait: true });
                    }
                    3 => {
                        let f = pick(&mut self.r, &filters).clone();
                        let t = self.matching_topic(&f);
                        let o = self.publish(vec![t], 1, 30, 0);
                        ops.push(o);
                    }
                    _ => continue,
                }
                let s = self.plain(c, ops);
                scripts.push(s);
            }
            self.phase(scripts);
            let mut ops = Vec::new();
            for f in &filters {
                let t = self.matching_topic(f);
                let n = if stadium { 1 } else { self.n(1, 3) } as u32;
                let o = self.publish(vec![t], n, 30, 0);
                ops.push(o);
            }
            if own {
                for _ in 0..6 {
                    let c = self.r.below(nc as u64 + 2);
                    let o = self.publish(vec![format!("own/{}", c)], 1, 30, 0);
                    ops.push(o);
                }
            }
            let o = self.connect("speaker", true);
            ops.insert(0, o);
            let s = self.plain(nc, ops);
            self.phase(vec![s]);
        }
    }

    /// Messages of many megabytes.
    pub fn colossal(&mut self) {
        self.p.scenario = "colossal".into();
        let k = &mut self.p.knobs;
        k.sock_buf = *pick(&mut self.r, &[65_536, 262_144, 262_144]);
        k.p_short_read = k.p_short_read.min(3000);
        k.p_short_write = k.p_short_write.min(3000);
        k.p_yield = 0;
        k.p_latency = 0;
        k.base_latency = k.base_latency.min(20_000);
        let f = "c/+".to_string();
        let ns = self.n(1, 2) as usize;
        let mut scripts = Vec::new();
        for c in 0..ns + 1 {
            let id = self.id(c);
            let o = self.connect(&id, true);
            let mut ops = vec![o];
            if c < ns {
                let s = self.sub(vec![f.clone()], true);
                ops.push(s);
            }
            let s = self.plain(c, ops);
            scripts.push(s);
        }
        self.phase(scripts);
        let mut ops = Vec::new();
        for _ in 0..self.n(1, 3) {
            let near = *pick(&mut self.r, &[1u32 << 20, 1 << 21, 1 << 22, 1 << 23, 10_000_000, 1 << 24, 1 << 24, 20_000_000, 1 << 25]);
            let near = if ops.is_empty() { near } else { near.min(1 << 22) };
            let d = self.r.below(40) as u32;
            let o = self.publish(vec!["c/1".into()], 1, near + 20 - d, 0);
            ops.push(o);
            let o = self.publish(vec!["c/2".into()], 1, 20, 0);
            ops.push(o);
        }
        ops.push(Op::Ping { wait: true });
        let chunk = if self.chance(50) {
            Chunk::Whole
        } else {
            Chunk::Cut { max: *pick(&mut self.r, &[60_000, 65_536, 1_000_000]), gap_us: 0 }
        };
        self.phase(vec![Script { slot: ns, chunk, ops }]);
    }

    /// A few clients do very much.
    pub fn marathon(&mut self, far: bool) {
        self.p.scenario = "marathon".into();
        let k = &mut self.p.knobs;
        k.sock_buf = k.sock_buf.max(4096);
        k.p_short_read = k.p_short_read.min(3000);
        k.p_short_write = k.p_short_write.min(3000);
        k.p_yield = k.p_yield.min(1500);
        k.p_latency = k.p_latency.min(2000);
        let n = if far { self.n(65_500, 66_500) } else { *pick(&mut self.r, &[260, 300, 520, 1030, 1500, 2100]) } as u32;
        let ns = self.n(1, 3) as usize;
        let f = "m/#".to_string();
        let mut scripts = Vec::new();
        for c in 0..ns {
            let id = self.id(c);
            let o = self.connect(&id, true);
            let g = if self.chance(60) { f.clone() } else { "m/+".into() };
            let s = self.sub(vec![g], true);
            let s = self.plain(c, vec![o, s]);
            scripts.push(s);
        }
        let np = if far { 1 } else { self.n(1, 2) as usize };
        for c in ns..ns + np {
            let id = self.id(c);
            let o = self.connect(&id, true);
            let s = self.plain(c, vec![o]);
            scripts.push(s);
        }
        self.phase(scripts);
        let mut scripts = Vec::new();
        for c in ns..ns + np {
            let kind = if far { self.r.below(2) } else { self.r.below(6) };
            let mut ops = Vec::new();
            match kind {
                0 => {
                    for _ in 0..n {
                        ops.push(Op::Ping { wait: false });
                    }
                }
                // one topic, or as many topics as messages
                1 => {
                    let o = self.publish(vec!["m/one".into()], n, 20, 0);
                    ops.push(o);
                }
                2 => {
                    let t = (0..n).map(|i| format!("m/{}", i)).collect();
                    let o = self.publish(t, n, 20, 0);
                    ops.push(o);
                    let o = self.publish(vec!["m/0".into(), "m/1".into(), format!("m/{}", n - 1)], 9, 20, 0);
                    ops.push(o);
                }
                // very many filters, one after another, then some of them go
                3 => {
                    for i in 0..n {
                        let o = self.sub(vec![format!("own{}/{}", c, i)], false);
                        ops.push(o);
                    }
                    for _ in 0..12 {
                        let i = self.r.below(n as u64);
                        let o = self.publish(vec![format!("own{}/{}", c, i)], 1, 20, 0);
                        ops.push(o);
                    }
                    for i in 0..n {
                        if i % 3 == 0 {
                            ops.push(Op::Unsub { filters: vec![format!("own{}/{}", c, i)], wait: false });
                        }
                    }
                    ops.push(Op::Ping { wait: true });
                    for _ in 0..12 {
                        let i = self.r.below(n as u64);
                        let o = self.publish(vec![format!("own{}/{}", c, i)], 1, 20, 0);
                        ops.push(o);
                    }
                }
                // the same filter again and again
                4 => {
                    for _ in 0..n / 2 {
                        let o = self.sub(vec!["m/again".into()], false);
                        ops.push(o);
                        if self.chance(50) {
                            ops.push(Op::Unsub { filters: vec!["m/again".into()], wait: false });
                        }
                    }
                    ops.push(Op::Ping { wait: true });
                    let o = self.publish(vec!["m/again".into()], 3, 20, 0);
                    ops.push(o);
                }
                _ => {
                    for i in 0..n / 2 {
                        let o = match self.r.below(4) {
                            0 => Op::Ping { wait: false },
                            1 => self.sub(vec![format!("x/{}", i % 40)], false),
                            2 => Op::Unsub { filters: vec![format!("x/{}", i % 40)], wait: false },
                            _ => self.publish(vec![format!("m/{}", i % 7), format!("x/{}", i % 40)], 1, 20, 0),
                        };
                        ops.push(o);
                    }
                }
            }
            let chunk = if self.chance(60) { Chunk::Join } else { Chunk::Whole };
            scripts.push(Script { slot: c, chunk, ops });
        }
        self.phase(scripts);
    }

    /// Hundreds of connections, one after another.
    pub fn revolving(&mut self, anonymous: bool, far: bool) {
        self.p.scenario = "revolving door".into();
        self.p.listeners = if self.chance(25) { 2 } else { 1 };
        let k = &mut self.p.knobs;
        k.sock_buf = k.sock_buf.max(4096);
        k.p_short_read = k.p_short_read.min(3000);
        k.p_short_write = k.p_short_write.min(3000);
        k.p_yield = k.p_yield.min(1500);
        let f = self.filter();
        let o = self.connect("steady", true);
        let s = self.sub(vec![f.clone()], true);
        let s = self.plain(0, vec![o, s]);
        self.phase(vec![s]);
        let n = self.n(1, 4) as usize;
        let total = if far { self.n(65_500, 66_500) } else { self.n(130, 1100) };
        let each = total / n as u64;
        // mostly one way of ending, so that whatever it leaves behind adds up
        let way = self.r.below(10);
        let mut scripts = Vec::new();
        for c in 1..=n {
            let mut ops = Vec::new();
            let same = self.chance(60);
            for i in 0..each {
                let id = if anonymous {
                    String::new()
                } else if same {
                    format!("door{}", c)
                } else {
                    format!("door{}-{}", c, i)
                };
                let way = if self.chance(85) { way } else { self.r.below(10) };
                if way == 0 {
                    let (u, _) = *pick(&mut self.r, &USERS);
                    let l = self.r.below(self.p.listeners as u64) as usize;
                    ops.push(Op::Connect {
                        id,
                        user: Some(u.into()),
                        pass: Some("wrong".into()),
                        clean: true,
                        keep_alive: 0,
                        will: None,
                        listener: l,
                        wait: true,
                    });
                    ops.push(Op::AwaitClose);
                    continue;
                }
                if way == 1 {
                    let l = self.r.below(self.p.listeners as u64) as usize;
                    ops.push(Op::Dial { listener: l });
                    if self.chance(50) {
                        ops.push(Op::Ping { wait: false });
                        ops.push(Op::AwaitClose);
                    } else {
                        ops.push(Op::Close);
                    }
                    continue;
                }
                let mut o = self.connect(&id, true);
                if let Op::Connect { clean, will, user, pass, .. } = &mut o {
                    *clean = *clean || anonymous;
                    *will = None;
                    if self.r.below(8) != 0 {
                        // hashing passwords takes its time
                        *user = None;
                        *pass = None;
                    }
                }
                ops.push(o);
                if self.chance(60) {
                    let w = self.chance(70);
                    let o = self.sub(vec![f.clone()], w);
                    ops.push(o);
                }
                if self.chance(20) {
                    let t = self.matching_topic(&f);
                    let o = self.publish(vec![t], 1, 20, 0);
                    ops.push(o);
                }
                match way {
                    2 => ops.push(Op::Close),
                    3 => ops.push(Op::Abort),
                    4 => {
                        ops.push(Op::HalfClose);
                        ops.push(Op::AwaitClose);
                    }
                    5 => {
                        let o = self.malformed_op(&[f.clone()]);
                        ops.push(o);
                        ops.push(Op::AwaitClose);
                    }
                    6 => {
                        ops.push(Op::Reconnect { id: "door".into(), user: None, pass: None });
                        ops.push(Op::AwaitClose);
                    }
                    7 => ops.push(Op::Disc { then: 1 }),
                    _ => ops.push(Op::Disc { then: 0 }),
                }
            }
            let s = self.plain(c, ops);
            scripts.push(s);
        }
        self.phase(scripts);
        let t = self.matching_topic(&f);
        let o = self.publish(vec![t], 2, 30, 0);
        let s = self.plain(0, vec![o, Op::Ping { wait: true }]);
        self.phase(vec![s]);
    }

    /// One client id, very many connections in a row, none of which ends by itself.
    pub fn dynasty(&mut self) {
        self.p.scenario = "dynasty".into();
        self.p.listeners = if self.chance(30) { 2 } else { 1 };
        let k = &mut self.p.knobs;
        k.sock_buf = k.sock_buf.max(4096);
        k.p_yield = k.p_yield.min(1500);
        let f = self.filter();
        let o = self.connect("watch", true);
        let s = self.plain(0, vec![o]);
        self.phase(vec![s]);
        let id = self.id(90);
        let n = *pick(&mut self.r, &[17, 33, 65, 130, 270]);
        let wait_subs = self.chance(50);
        let step = 5 + self.r.below(40_000);
        let mut scripts = Vec::new();
        for c in 1..=n {
            let mut ops = vec![Op::Sleep { us: c as u64 * step }];
            let o = self.connect(&id, true);
            ops.push(o);
            if self.chance(70) {
                let s = self.sub(vec![f.clone()], wait_subs);
                ops.push(s);
            }
            let s = self.plain(c, ops);
            scripts.push(s);
        }
        self.phase(scripts);
        let o = self.connect(&id, true);
        let s = self.sub(vec![f.clone()], true);
        let s = self.plain(n + 1, vec![o, s]);
        self.phase(vec![s]);
        let t = self.matching_topic(&f);
        let o = self.publish(vec![t], 3, 30, 0);
        let a = self.plain(0, vec![o]);
        let b = self.plain(n + 1, vec![Op::Ping { wait: true }]);
        self.phase(vec![a, b]);
    }

    /// Rounds of the same kind of work, after each of which nothing of it is left.
    pub fn hoard(&mut self) {
        self.p.scenario = "hoard".into();
        self.p.memory = true;
        self.p.listeners = if self.chance(20) { 2 } else { 1 };
        let k = &mut self.p.knobs;
        k.sock_buf = k.sock_buf.max(4096);
        k.p_short_read = k.p_short_read.min(3000);
        k.p_short_write = k.p_short_write.min(3000);
        k.p_yield = k.p_yield.min(1500);
        let stay = self.n(1, 3) as usize;
        let come = self.n(1, 3) as usize;
        let rounds = self.n(9, 13);
        let each = if self.chance(10) { self.n(60, 150) } else { self.n(6, 30) };
        let fresh_ids = self.chance(50);
        let fresh_filters = self.chance(50);
        let fresh_topics = self.chance(50);
        // mostly one kind of coming and going, so that whatever it leaves behind adds up
        let main = self.r.below(12);
        let common: Vec<String> = (0..3).map(|_| self.filter()).collect();
        let mut scripts = Vec::new();
        for c in 0..stay {
            let id = self.id(c);
            let o = self.connect(&id, true);
            let fs: Vec<String> = common.iter().take(1 + self.r.below(3) as usize).cloned().chain(vec!["stay/#".to_string()]).collect();
            let s = self.sub(fs, true);
            let s = self.plain(c, vec![o, s]);
            scripts.push(s);
        }
        self.phase(scripts);
        let mut serial = 0u64;
        for _ in 0..rounds {
            let mut scripts = Vec::new();
            for c in 0..stay {
                let mut ops = Vec::new();
                for i in 0..each {
                    serial += 1;
                    match self.r.below(5) {
                        0 | 1 => {
                            let f: Vec<String> = (0..1 + self.r.below(3))
                                .map(|j| {
                                    if !fresh_filters {
                                        format!("own{}/{}", c, (i + j) % 7)
                                    } else if j == 1 {
                                        format!("own{}/+/{}-{}/#", c, serial, j)
                                    } else {
                                        format!("own{}/{}-{}", c, serial, j)
                                    }
                                })
                                .collect();
                            let w = self.chance(50);
                            let o = self.sub(f.clone(), w);
                            ops.push(o);
                            if self.chance(30) {
                                let o = self.publish(vec![f[0].clone()], 1, 20, 0);
                                ops.push(o);
                            }
                            ops.push(Op::Unsub { filters: f, wait: w });
                        }
                        2 => {
                            // never held
                            let f = if fresh_filters { format!("none{}/{}", c, serial) } else { format!("none{}/{}", c, i % 5) };
                            ops.push(Op::Unsub { filters: vec![f], wait: false });
                        }
                        3 => ops.push(Op::Ping { wait: false }),
                        _ => {
                            let t = if !fresh_topics {
                                self.matching_topic(&common[0])
                            } else if self.chance(50) {
                                format!("stay/{}", serial)
                            } else {
                                format!("nobody/{}/{}", c, serial)
                            };
                            let n = self.n(1, 3) as u32;
                            let size = *pick(&mut self.r, &[20u32, 20, 300, 5000]);
                            let o = self.publish(vec![t], n, size, 0);
                            ops.push(o);
                        }
                    }
                }
                ops.push(Op::Ping { wait: true });
                let s = self.plain(c, ops);
                scripts.push(s);
            }
            for c in stay..stay + come {
                let mut ops = Vec::new();
                for _ in 0..each {
                    serial += 1;
                    let id = if main == 11 {
                        String::new()
                    } else if fresh_ids {
                        format!("come{}-{}", c, serial)
                    } else {
                        format!("come{}", c)
                    };
                    let way = if self.chance(80) { main } else { self.r.below(11) };
                    let l = self.r.below(self.p.listeners as u64) as usize;
                    if way == 0 {
                        let (u, _) = *pick(&mut self.r, &USERS);
                        ops.push(Op::Connect {
                            id,
                            user: Some(if fresh_ids { format!("{}{}", u, serial) } else { u.into() }),
                            pass: Some("wrong".into()),
                            clean: true,
                            keep_alive: 0,
                            will: None,
                            listener: l,
                            wait: true,
                        });
                        ops.push(Op::AwaitClose);
                        continue;
                    }
                    if way == 1 {
                        ops.push(Op::Dial { listener: l });
                        if self.chance(50) {
                            ops.push(Op::Ping { wait: false });
                            ops.push(Op::AwaitClose);
                        } else {
                            ops.push(Op::Close);
                        }
                        continue;
                    }
                    let mut o = self.connect(&id, true);
                    if let Op::Connect { clean, user, pass, .. } = &mut o {
                        *clean = *clean || main == 11;
                        if self.r.below(10) != 0 {
                            *user = None;
                            *pass = None;
                        }
                    }
                    ops.push(o);
                    let mut fs = Vec::new();
                    for _ in 0..self.r.below(3) {
                        let f = if fresh_filters { format!("come/{}/{}", c, serial) } else { pick(&mut self.r, &common).clone() };
                        fs.push(f);
                    }
                    if !fs.is_empty() {
                        let w = self.chance(70);
                        let o = self.sub(fs.clone(), w);
                        ops.push(o);
                        if self.chance(25) {
                            ops.push(Op::Unsub { filters: vec![fs[0].clone()], wait: w });
                        }
                    }
                    if self.chance(40) {
                        let t = if fresh_topics { format!("stay/{}", serial) } else { self.matching_topic(&common[0]) };
                        let o = self.publish(vec![t], 1, 20, 0);
                        ops.push(o);
                    }
                    match way {
                        2 => ops.push(Op::Close),
                        3 => ops.push(Op::Abort),
                        4 => {
                            ops.push(Op::HalfClose);
                            ops.push(Op::AwaitClose);
                        }
                        5 => {
                            let o = self.malformed_op(&common.clone());
                            ops.push(o);
                            ops.push(Op::AwaitClose);
                        }
                        6 => {
                            ops.push(Op::Reconnect { id: "door".into(), user: None, pass: None });
                            ops.push(Op::AwaitClose);
                        }
                        7 => ops.push(Op::Disc { then: 1 }),
                        8 => {
                            // half-way through a packet
                            ops.push(Op::Partial { hex: "30".into() });
                            ops.push(Op::Close);
                        }
                        _ => ops.push(Op::Disc { then: 0 }),
                    }
                }
                let s = self.plain(c, ops);
                scripts.push(s);
            }
            self.phase(scripts);
        }
    }

    /// More than the broker can pass on, and lengths that are only announced.
    pub fn flood(&mut self) {
        self.p.scenario = "flood".into();
        self.p.log = "off".into();
        self.p.listeners = if self.chance(20) { 2 } else { 1 };
        let k = &mut self.p.knobs;
        k.p_slow = 0;
        k.sock_buf = *pick(&mut self.r, &[1500, 4096, 16384, 65536]);
        k.p_short_read = k.p_short_read.min(3000);
        k.p_short_write = k.p_short_write.min(3000);
        k.p_yield = k.p_yield.min(1500);
        k.base_latency = k.base_latency.min(200_000);
        let f = self.filter();
        let shape = self.r.below(10);
        let (deaf, liars) = match shape {
            0..=4 => (self.n(1, 4) as usize, 0),
            5..=7 => (0, self.n(1, 20) as usize),
            _ => (self.n(1, 3) as usize, self.n(1, 6) as usize),
        };
        let publishers = if deaf == 0 { 1 } else { self.n(1, 3) as usize };
        let good = 1;
        let mut scripts = Vec::new();
        let mut slot = 0;
        let anon = |o: Op| match o {
            // checking a password takes a great deal of memory
            Op::Connect { id, clean, keep_alive, will, listener, wait, .. } => {
                Op::Connect { id, user: None, pass: None, clean, keep_alive, will, listener, wait }
            }
            o => o,
        };
        for _ in 0..good {
            let id = self.id(slot);
            let o = anon(self.connect(&id, true));
            let s = self.sub(vec!["v/x".into()], true);
            let s = self.script(slot, vec![o, s]);
            scripts.push(s);
            slot += 1;
        }
        let deaf_slots: Vec<usize> = (slot..slot + deaf).collect();
        for _ in 0..deaf {
            let id = self.id(slot);
            let o = anon(self.connect(&id, true));
            let s = self.sub(vec![f.clone(), "v/y".into()], true);
            let s = self.script(slot, vec![o, s, Op::Pause { on: true }]);
            scripts.push(s);
            slot += 1;
        }
        let pub_slots: Vec<usize> = (slot..slot + publishers).collect();
        for _ in 0..publishers {
            let id = self.id(slot);
            let o = anon(self.connect(&id, true));
            let s = self.plain(slot, vec![o]);
            scripts.push(s);
            slot += 1;
        }
        self.phase(scripts);
        let size = *pick(&mut self.r, &[60u64, 300, 300, 1000, 1000, 4000, 20_000]);
        let conns = (good + deaf + publishers + liars) as u64 + 2;
        let ceiling = 512 * 1024 + conns * (160 * 1024 + 96 * (size + 500));
        self.p.ceiling = ceiling as i64;
        let mut scripts = Vec::new();
        if deaf > 0 {
            let total = ceiling * 5 / 2 / deaf as u64 / (size + 60) + 1;
            for s in &pub_slots {
                let t = self.matching_topic(&f);
                let mut left = total / publishers as u64 + 1;
                let mut ops = Vec::new();
                while left > 0 {
                    let n = left.min(if self.chance(50) { left } else { 1 + self.r.below(left) });
                    left -= n;
                    let o = self.publish(vec![t.clone()], n as u32, size as u32, 0);
                    ops.push(o);
                }
                let mut s = self.plain(*s, ops);
                if self.chance(60) {
                    s.chunk = Chunk::Join;
                }
                scripts.push(s);
            }
            for s in &deaf_slots {
                let mut ops = Vec::new();
                match self.r.below(4) {
                    0 => {
                        // asks for more and more without ever reading the answers
                        for _ in 0..self.n(100, 3000) {
                            ops.push(Op::Ping { wait: false });
                        }
                    }
                    1 => {
                        // reads again when most of it must have been refused
                        let us = self.r.below(60_000_000);
                        ops.push(Op::Sleep { us });
                        ops.push(Op::Pause { on: false });
                    }
                    _ => {}
                }
                let mut s = self.plain(*s, ops);
                s.chunk = Chunk::Join;
                scripts.push(s);
            }
        }
        for _ in 0..liars {
            let mut ops = Vec::new();
            let l = self.r.below(self.p.listeners as u64) as usize;
            let connected = self.chance(70);
            if connected {
                let id = self.id(slot);
                let o = anon(self.connect(&id, true));
                ops.push(o);
            } else {
                ops.push(Op::Dial { listener: l });
            }
            let n = *pick(&mut self.r, &[60_000u32, 1 << 20, 16 << 20, 200 << 20, 268_435_455]);
            let len = |mut n: u32| {
                let mut v = Vec::new();
                loop {
                    let b = (n % 128) as u8;
                    n /= 128;
                    v.push(if n > 0 { b | 128 } else { b });
                    if n == 0 {
                        return v;
                    }
                }
            };
            let mut b;
            if !connected {
                // CONNECT, or a PUBLISH before it
                b = vec![*pick(&mut self.r, &[0x10u8, 0x10, 0x30])];
                b.extend(len(n));
                if b[0] == 0x10 {
                    match self.r.below(3) {
                        0 => b.extend_from_slice(&[0xff, 0xff]),
                        1 => {
                            mqtt::put_str(&mut b, b"MQTT");
                            b.extend_from_slice(&[4, 2, 0, 0, 0xff, 0xff]);
                        }
                        _ => {
                            mqtt::put_str(&mut b, b"MQTT");
                            b.extend_from_slice(&[4, 6, 0, 0]);
                            mqtt::put_str(&mut b, b"liar");
                            mqtt::put_str(&mut b, b"w");
                            b.extend_from_slice(&[0xff, 0xff]);
                        }
                    }
                }
            } else {
                b = vec![*pick(&mut self.r, &[0x30u8, 0x30, 0x30, 0x32, 0x3d, 0x82, 0xa2, 0xc0, 0x40])];
                b.extend(len(n));
                match b[0] {
                    0x82 | 0xa2 => {
                        b.extend_from_slice(&[0, 9]);
                        if self.chance(50) {
                            b.extend_from_slice(&[0xff, 0xff]);
                        } else {
                            mqtt::put_str(&mut b, b"a/b");
                            if b[0] == 0x82 {
                                b.push(0);
                            }
                        }
                    }
                    0xc0 | 0x40 => {}
                    h => {
                        mqtt::put_str(&mut b, b"v/x");
                        if h & 6 != 0 {
                            b.extend_from_slice(&[0, 5]);
                        }
                        let k = self.r.below(300) as usize;
                        let j = self.junk(k);
                        b.extend(j);
                    }
                }
            }
            ops.push(Op::Partial { hex: hex(&b) });
            let s = self.plain(slot, ops);
            scripts.push(s);
            slot += 1;
        }
        self.phase(scripts);
        let o = self.publish(vec!["v/x".into()], 2, 30, 0);
        let s = self.plain(0, vec![o, Op::Ping { wait: true }]);
        self.phase(vec![s]);
    }

    /// Clients that no longer read while more is due to them than anything can hold, and what
    /// becomes of their connections.
    pub fn deaf(&mut self) {
        self.p.scenario = "deaf".into();
        self.p.listeners = if self.chance(20) { 2 } else { 1 };
        self.p.knobs.p_slow = 0;
        self.p.knobs.sock_buf = *pick(&mut self.r, &[400, 1500, 4096, 8192, 16384]);
        let cap = self.p.knobs.sock_buf as u64;
        let f = self.filter();
        let other = "v/x".to_string();
        let good = self.n(1, 3) as usize;
        let bad = self.n(1, 3) as usize;
        let publisher = good + bad;
        let ids: Vec<String> = (0..good + bad).map(|c| self.id(c)).collect();
        let mut scripts = Vec::new();
        for c in 0..good + bad {
            let o = self.connect(&ids[c], true);
            let fs = if c < good && self.chance(40) { vec![other.clone()] } else { vec![f.clone(), other.clone()] };
            let s = self.sub(fs, true);
            let mut ops = vec![o, s];
            if c >= good {
                ops.push(Op::Pause { on: true });
            }
            let s = self.script(c, ops);
            scripts.push(s);
        }
        let o = self.connect("flood", true);
        let s = self.plain(publisher, vec![o]);
        scripts.push(s);
        self.phase(scripts);
        // enough to fill the pipe, the buffers on both sides and the queue, or nearly so
        let size = *pick(&mut self.r, &[30u64, 200, 1000, 3000]);
        let full = (cap + 4096) / (size + 10) + 36;
        let n = match self.r.below(4) {
            0 => full * 8 / 10,
            1 => full,
            _ => full * 3 / 2,
        };
        let together = self.chance(50);
        let t = self.matching_topic(&f);
        let mut flood = vec![self.publish(vec![t], n as u32, size as u32, 0)];
        if self.chance(30) {
            let e = self.end_op();
            flood.push(e);
        }
        let mut scripts = vec![self.plain(publisher, flood)];
        if !together {
            self.phase(scripts);
            scripts = Vec::new();
        }
        for c in good..good + bad {
            let mut ops = Vec::new();
            if self.chance(60) {
                let s = self.sleep(30_000_000);
                ops.push(s);
            }
            match self.r.below(9) {
                0 => ops.push(Op::Disc { then: 2 }),
                1 => ops.push(Op::HalfClose),
                2 => ops.push(Op::Close),
                3 => ops.push(Op::Abort),
                4 | 5 => {
                    // the id is taken over
                    let slot = publisher + 1 + c;
                    let o = self.connect(&ids[c], true);
                    let s = self.sub(vec![f.clone()], true);
                    let us = self.r.below(30_000_000);
                    let s = self.plain(slot, vec![Op::Sleep { us }, o, s, Op::Ping { wait: true }]);
                    scripts.push(s);
                }
                6 => {
                    let o = self.malformed_op(&[f.clone()]);
                    ops.push(o);
                }
                7 => ops.push(Op::Pause { on: false }),
                _ => {}
            }
            let s = self.plain(c, ops);
            scripts.push(s);
        }
        for c in 0..good {
            let mut ops = Vec::new();
            let k = self.n(1, 3);
            for _ in 0..k {
                let s = self.sleep(10_000_000);
                ops.push(s);
                let o = match self.r.below(3) {
                    0 => Op::Ping { wait: true },
                    1 => self.publish(vec![other.clone()], 2, 30, 0),
                    _ => self.sub(vec!["v/+".into()], true),
                };
                ops.push(o);
            }
            let s = self.plain(c, ops);
            scripts.push(s);
        }
        self.phase(scripts);
        let o = self.publish(vec![other], 2, 30, 0);
        let n = self.connect("new", true);
        let s = self.sub(vec![f], true);
        let a = self.plain(0, vec![o, Op::Ping { wait: true }]);
        let b = self.plain(publisher + 1 + good + bad, vec![n, s, Op::Ping { wait: true }]);
        self.phase(vec![a, b]);
    }

    /// The signal comes in the middle of something.
    pub fn interrupt(&mut self) {
        match self.r.below(100) {
            98 | 99 => self.crowd(false, false),
            _ => match self.r.below(10) {
            9 => self.deaf(),
            0 => self.fan(true, true),
            1 => self.mixed(true, true),
            2 => self.sessions(),
            3 => self.takeover(),
            4 => self.hostile(),
            5 => self.churn(),
            6 => self.stall(),
            7 => self.auth(),
            _ => self.outbound(),
            },
        }
        if self.chance(25) {
            // somebody does not read at all
            let k = self.p.slots();
            let f = "#".to_string();
            let o = self.connect("deaf", true);
            let s = self.sub(vec![f], true);
            let ops = vec![o, s, Op::Pause { on: true }];
            let s = self.plain(k, ops);
            self.p.phases[0].scripts.push(s);
            let n = self.p.phases.len();
            if n > 1 {
                let o = self.connect("flood", true);
                let t = self.topic();
                let p = Op::Pub { key: 900_000, topics: vec![t], n: 60, size: 2000, size2: 0, qos: 0, dup: false, retain: false, tiny: false };
                let s = self.plain(k + 1, vec![o, p]);
                self.p.phases[n - 1].scripts.push(s);
            }
        }
        let n = self.p.phases.len();
        let phase = if self.chance(60) { n - 1 } else { self.r.below(n as u64) as usize };
        if self.chance(25) {
            // some go on for as long as they can
            let k = self.n(1, 3);
            for _ in 0..k {
                let c = self.p.slots();
                let kind = self.r.below(4) as u8;
                let us = *pick(&mut self.r, &[2_000, 20_000, 20_000, 150_000]);
                let o = self.connect(&format!("chat{}", c), true);
                let s = self.plain(c, vec![o, Op::Chatter { kind, us }]);
                self.p.phases[phase].scripts.push(s);
            }
        }
        if self.chance(12) {
            // one reads a little at a time, less than is sent to it
            self.p.knobs.sock_buf = self.p.knobs.sock_buf.min(4096);
            let c = self.p.slots();
            let us = *pick(&mut self.r, &[1_000_000, 5_000_000, 12_000_000, 18_000_000]);
            let o = self.connect("drip", true);
            let sub = self.sub(vec!["#".into()], true);
            let m = Op::Meet { id: 77, n: 2 };
            let s = self.plain(c, vec![o, sub, m.clone(), Op::Chatter { kind: 4, us }]);
            self.p.phases[phase].scripts.push(s);
            let o = self.connect("gush", true);
            let t = self.topic();
            let size = *pick(&mut self.r, &[200, 2_000, 20_000]);
            let p = Op::Pub { key: 901_000, topics: vec![t], n: 60, size, size2: 0, qos: 0, dup: false, retain: false, tiny: false };
            let s = self.plain(c + 1, vec![o, m, p]);
            self.p.phases[phase].scripts.push(s);
        }
        self.p.scenario = format!("interrupt during {}", self.p.scenario);
        let e = self.r.below(24);
        let us = (1u64 << e) + self.r.below(1 << e);
        self.p.interrupt = Some(Interrupt { phase, after_us: us });
    }
}

pub fn generate(prop: &str, seed: u64) -> Plan {
    let mut g = G::new(prop, seed);
    let d = g.r.below(100);
    // now and then something large
    let e = g.r.below(1000);
    let large = match prop {
        "B01" | "B02" | "B06" | "B11" | "B15" | "B17" | "B19" | "B24" if e < 12 => {
            g.crowd(prop == "B24", false);
            true
        }
        "B01" | "B02" | "B06" | "B11" | "B15" | "B19" | "B24" if e == 36 && d < 50 => {
            g.crowd(prop == "B24", true);
            true
        }
        "B01" | "B13" | "B14" if e == 36 && d < 60 || e == 37 && d < 50 => {
            g.colossal();
            true
        }
        "B06" | "B10" | "B11" | "B15" | "B19" | "B24" if (12..24).contains(&e) => {
            g.revolving(prop == "B24" && e % 2 == 0, false);
            true
        }
        "B01" | "B02" | "B03" | "B04" | "B05" | "B07" | "B13" | "B14" if (12..24).contains(&e) => {
            g.marathon(false);
            true
        }
        "B01" | "B03" | "B07" | "B14" if e == 24 => {
            g.marathon(true);
            true
        }
        "B11" | "B15" | "B24" if e == 24 && d < 30 => {
            g.revolving(prop == "B24", true);
            true
        }
        "B10" | "B15" | "B06" if (24..32).contains(&e) => {
            g.dynasty();
            true
        }
        "B02" | "B04" | "B05" | "B07" | "B08" | "B09" | "B10" | "B13" | "B15" if (40..55).contains(&e) => {
            g.limits();
            true
        }
        _ => false,
    };
    if large {
        return g.p;
    }
    match prop {
        "B01" => match d {
            0..=59 => g.fan(true, true),
            60..=74 => g.mixed(true, true),
            75..=84 => g.outbound(),
            85..=94 => g.segmentation(false),
            _ => g.sessions(),
        },
        "B02" => match d {
            0..=39 => g.mixed(true, true),
            40..=59 => g.filters(false),
            60..=64 => g.lists(),
            65..=79 => g.fan(false, true),
            80..=89 => g.sessions(),
            _ => g.unsub_race(),
        },
        "B03" => match d {
            0..=79 => g.fan(true, false),
            80..=89 => g.outbound(),
            _ => g.mixed(true, false),
        },
        "B04" => match d {
            0..=81 => g.filters(false),
            82..=89 => g.lists(),
            _ => g.mixed(true, false),
        },
        "B05" => match d {
            0..=41 => g.filters(true),
            42..=49 => g.lists(),
            50..=89 => g.unsub_race(),
            _ => g.mixed(false, false),
        },
        "B06" => match d {
            0..=69 => g.sessions(),
            70..=83 => g.mixed(true, true),
            84..=91 => g.churn(),
            _ => g.idle(),
        },
        "B07" => match d {
            0..=79 => g.requests(),
            80..=84 => g.lists(),
            _ => g.mixed(true, false),
        },
        "B08" => g.auth(),
        "B09" => g.handshake(),
        "B10" => match d {
            0..=79 => g.takeover(),
            80..=89 => g.deaf(),
            _ => g.listeners(),
        },
        "B11" => match d {
            0..=54 => g.hostile(),
            55..=59 => g.deaf(),
            60..=69 => g.malformed_stream(),
            70..=79 => g.churn(),
            80..=89 => g.auth(),
            _ => g.fan(false, true),
        },
        "B12" => g.malformed_stream(),
        "B13" => g.segmentation(d < 3),
        "B14" => match d {
            0..=79 => g.outbound(),
            80..=89 => g.requests(),
            _ => g.segmentation(false),
        },
        "B15" => match d {
            0..=49 => g.churn(),
            50..=64 => g.deaf(),
            65..=74 => g.sessions(),
            75..=84 => g.takeover(),
            85..=89 => g.malformed_stream(),
            90..=94 => g.handshake(),
            _ => g.auth(),
        },
        "B16" => g.interrupt(),
        "B17" => match d {
            0..=64 => g.stall(),
            _ => g.deaf(),
        },
        "B18" => g.idle(),
        "B19" => g.listeners(),
        "B22" => match d {
            0..=79 => g.flags(),
            80..=89 => g.mixed(true, false),
            _ => g.fan(false, false),
        },
        "B24" => g.anonymous(),
        "B23" => {
            g.p.scenario = "configuration".into();
            g.p.listeners = 0;
            g.p.phases.clear();
            g.p.setup = Some(crate::setup::generate(&mut g.r));
        }
        "B30" => {
            g.p.scenario = "program".into();
            g.p.listeners = 0;
            g.p.phases.clear();
            g.p.setup = Some(crate::setup::program(&mut g.r));
        }
        "B25" => g.hoard(),
        "B26" => g.flood(),
        "B27" => {
            match d {
                0..=59 => g.auth(),
                60..=74 => g.handshake(),
                75..=91 => g.malformed_stream(),
                _ => g.listeners(),
            }
            g.keep_secret();
        }
        _ => g.mixed(true, true),
    }
    let _ = g.meet;
    g.affordable();
    g.p
}

/// The broker with a given password file, and clients that try to enter.
pub fn passwords(seed: u64, file: &str, users: Vec<(String, String)>, tries: &[(String, String)]) -> Plan {
    let mut g = G::new("B21", seed);
    g.p.scenario = "password file".into();
    g.p.users = users;
    g.p.passwd_file = Some(file.to_string());
    let mut scripts = Vec::new();
    for (c, (u, p)) in tries.iter().enumerate() {
        let wait = g.chance(70);
        let o = Op::Connect {
            id: format!("c{}", c),
            user: Some(u.clone()),
            pass: Some(p.clone()),
            clean: true,
            keep_alive: 0,
            will: None,
            listener: 0,
            wait,
        };
        let s = g.script(c, vec![o, Op::Ping { wait }]);
        scripts.push(s);
    }
    g.phase(scripts);
    g.p
}
