//! A plan is everything one simulated execution does apart from the scheduler's decisions:
//! configuration, knobs, client scripts, injected faults.
use serde::{Deserialize, Serialize};
use tokio::sim::{Knobs, Policy, Rng};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct KnobsS {
    /// fifo, random, priority, lifo
    pub policy: String,
    pub p_yield: u32,
    pub p_short_read: u32,
    pub p_short_write: u32,
    pub p_latency: u32,
    pub p_slow: u32,
    pub base_latency: u64,
    pub latency_unit: u64,
    pub sock_buf: usize,
}

impl Default for KnobsS {
    fn default() -> Self {
        KnobsS {
            policy: "fifo".into(),
            p_yield: 0,
            p_short_read: 0,
            p_short_write: 0,
            p_latency: 0,
            p_slow: 0,
            base_latency: 20_000,
            latency_unit: 10_000,
            sock_buf: 65536,
        }
    }
}

impl KnobsS {
    pub fn to_knobs(&self) -> Knobs {
        Knobs {
            policy: match self.policy.as_str() {
                "random" => Policy::Random,
                "priority" => Policy::Priority,
                "lifo" => Policy::Lifo,
                _ => Policy::Fifo,
            },
            p_yield: self.p_yield,
            p_short_read: self.p_short_read,
            p_short_write: self.p_short_write,
            p_latency: self.p_latency,
            p_slow: self.p_slow,
            base_latency: self.base_latency,
            latency_unit: self.latency_unit,
            sock_buf: self.sock_buf,
            ..Knobs::default()
        }
    }
}

/// How a script's bytes are cut into write calls.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Chunk {
    /// One write per packet.
    Whole,
    /// Packets are joined until the script has to wait for something.
    Join,
    /// One byte per write.
    Bytes,
    /// Joined, then cut at random places into pieces of at most `max` bytes.
    Cut { max: u32, gap_us: u32 },
    /// One write per packet, but cut `back` bytes before its end, with a gap.
    Tail { back: u32, gap_us: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Ghost {
    pub topic: String,
    pub payload: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Connect {
        id: String,
        user: Option<String>,
        pass: Option<String>,
        clean: bool,
        keep_alive: u16,
        will: Option<(String, String, u8, bool)>,
        listener: usize,
        wait: bool,
    },
    /// Opens the transport connection and sends nothing.
    Dial { listener: usize },
    Sub { filters: Vec<(String, u8)>, wait: bool },
    Unsub { filters: Vec<String>, wait: bool },
    /// `n` messages; the j-th goes to `topics[j % len]`.
    Pub { key: u32, topics: Vec<String>, n: u32, size: u32, size2: u32, qos: u8, dup: bool, retain: bool, tiny: bool },
    Ping { wait: bool },
    /// A second CONNECT on the same connection.
    Reconnect { id: String, user: Option<String>, pass: Option<String> },
    /// `then`: 0 close at once, 1 wait for the broker to close, 2 leave open.
    Disc { then: u8 },
    Close,
    HalfClose,
    Abort,
    /// Bytes (hex). `why`: what is wrong with them. Ghosts must never be delivered.
    Raw { hex: String, why: String, ghosts: Vec<Ghost> },
    /// Bytes (hex) that are no violation by themselves: the beginning of a packet.
    Partial { hex: String },
    /// Packets that a client may legally send and that have no effect (PUBACK and the like).
    Legal { hex: String, why: String },
    Sleep { us: u64 },
    Pause { on: bool },
    /// Stops delivery in one direction for a while (0: to the broker, 1: from it).
    Hold { dir: u8, us: u64 },
    /// Goes on sending one request after the other, `us` apart, until the broker has ended.
    /// 0: PINGREQ, 1: SUBSCRIBE, 2: messages to nobody, 3: new connections
    Chatter { kind: u8, us: u64 },
    /// Stops the client's reading for a short while.
    Nap { us: u64 },
    FailServer { read: bool, kind: String },
    FailAccept { listener: usize, kind: String, n: u32 },
    StepClock { ms: i64 },
    /// Waits until the broker has closed the connection (or a deadline).
    AwaitClose,
    /// Waits until `n` other scripts of this phase have reached the same point.
    Meet { id: u32, n: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Script {
    pub slot: usize,
    pub chunk: Chunk,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Phase {
    pub scripts: Vec<Script>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Interrupt {
    pub phase: usize,
    pub after_us: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub property: String,
    pub scenario: String,
    pub seed: u64,
    pub entropy: u64,
    pub knobs: KnobsS,
    pub listeners: usize,
    pub users: Vec<(String, String)>,
    /// Lines of the password file that let nobody in.
    #[serde(default)]
    pub useless: Vec<String>,
    /// The password file without its final newline.
    pub no_final_newline: bool,
    /// The password file itself, where `users` are only what it should mean.
    #[serde(default)]
    pub passwd_file: Option<String>,
    /// Every phase but the first ends as it began: what the broker holds must not grow.
    #[serde(default)]
    pub memory: bool,
    /// What the broker may hold in memory at any moment, in bytes; 0 if that is not looked at.
    #[serde(default)]
    pub ceiling: i64,
    /// Passwords that must not turn up in anything the broker lets out.
    #[serde(default)]
    pub secrets: Vec<String>,
    /// Where clients come from. 0: all from one address, 1: each from its own, 2: now from one,
    /// now from another.
    #[serde(default)]
    pub addresses: u8,
    /// The start-up itself is what this run is about.
    #[serde(default)]
    pub setup: Option<crate::setup::Setup>,
    /// off, error, warn, info, debug, trace
    pub log: String,
    pub phases: Vec<Phase>,
    pub interrupt: Option<Interrupt>,
}

impl Plan {
    pub fn slots(&self) -> usize {
        self.phases
            .iter()
            .flat_map(|p| p.scripts.iter())
            .map(|s| s.slot + 1)
            .max()
            .unwrap_or(0)
    }
    pub fn ops(&self) -> usize {
        self.phases.iter().flat_map(|p| p.scripts.iter()).map(|s| s.ops.len()).sum()
    }
}

/// The content of message `j` of publish operation `key`.
pub fn message(key: u32, j: u32, topics: &[String], size: u32, size2: u32, tiny: bool) -> (String, Vec<u8>) {
    let mut rng = Rng::new(((key as u64) << 24) ^ j as u64 ^ 0xABCD_EF01);
    let base = &topics[j as usize % topics.len()];
    let size = if size2 > size && rng.below(2) == 1 { size2 } else { size } as usize;
    if tiny {
        // too short to carry its identity: the topic carries it
        let topic = format!("{}/{}.{}", base, key, j);
        let payload: Vec<u8> = (0..size.min(24)).map(|_| rng.next() as u8).collect();
        return (topic, payload);
    }
    let mut payload = format!("{}.{}|", key, j).into_bytes();
    while payload.len() < size {
        let left = size - payload.len();
        let v = rng.next().to_le_bytes();
        payload.extend_from_slice(&v[..left.min(8)]);
    }
    (base.clone(), payload)
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0))
        .collect()
}

/// The Linux error number of an injected fault.
pub fn errno(s: &str) -> i32 {
    match s {
        "permission" => 1,
        "interrupted" => 4,
        "io" => 5,
        "nomem" => 12,
        "nfile" => 23,
        "nofile" => 24,
        "brokenpipe" => 32,
        "proto" => 71,
        "netdown" => 100,
        "netreset" => 102,
        "aborted" => 103,
        "reset" => 104,
        "nobufs" => 105,
        "notconn" => 107,
        "timedout" => 110,
        "hostunreach" => 113,
        _ => 5,
    }
}
