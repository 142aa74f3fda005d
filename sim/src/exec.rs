//! Runs one plan: the real broker and simulated clients on one deterministic scheduler.
use crate::mqtt::{self, In, Parser};
use crate::plan::*;
use std::collections::BTreeMap;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::Poll;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
use tokio::net::TcpStream;
use tokio::sim::net as snet;
use tokio::sync::Notify;

pub const DEADLINE: u64 = 120_000_000_000;
pub const SEC: u64 = 1_000_000_000;

#[derive(Clone, Debug)]
pub enum What {
    Connect,
    Sub { pid: u16, filters: Vec<(String, u8)> },
    Unsub { pid: u16, filters: Vec<String> },
    Pub { msg: usize },
    Ping,
    Disc,
    Reconnect,
    Raw { why: String },
    Partial,
    Legal,
}

#[derive(Clone, Debug)]
pub struct Sent {
    pub what: What,
    /// First byte handed to the transport; `u64::MAX` if never.
    pub start: u64,
    pub end: Option<u64>,
    pub phase: usize,
}

#[derive(Clone, Debug)]
pub struct Recv {
    pub seq: u64,
    pub t: u64,
    pub pkt: In,
    /// For PUBLISH: index of the message it is a copy of.
    pub msg: Option<usize>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum EndKind {
    Disc,
    Close,
    HalfClose,
    Abort,
    Violation(String),
}

#[derive(Clone, Debug)]
pub struct ConnectInfo {
    pub id: String,
    pub user: Option<String>,
    pub pass: Option<String>,
    pub expect_accept: bool,
    pub sent: usize,
}

#[derive(Clone, Debug, Default)]
pub struct ConnRec {
    pub slot: usize,
    pub listener: usize,
    pub sim: usize,
    pub phase: usize,
    pub dial_start: u64,
    pub dialled: bool,
    pub dial_err: Option<String>,
    pub connect: Option<ConnectInfo>,
    pub sent: Vec<Sent>,
    pub recv: Vec<Recv>,
    pub acks: usize,
    pub eof: Option<(u64, u64, String)>,
    pub parse_err: Option<(u64, String)>,
    pub leftover: usize,
    pub ends: Vec<(EndKind, u64, usize)>,
    pub client_closed: bool,
    pub fault: Option<(u64, String)>,
    pub paused: Option<u64>,
    pub resumed: bool,
    /// Items of `sent` from here on come after a violation.
    pub bad_from: Option<usize>,
    pub write_stuck: bool,
    pub wait_stuck: bool,
    pub accept_lost: bool,
    pub label: String,
    /// The last bytes received, where they are looked at.
    pub tail: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Msg {
    pub key: u32,
    pub j: u32,
    pub topic: String,
    pub payload: Arc<Vec<u8>>,
    pub conn: usize,
    pub sent: usize,
    pub qos: u8,
    pub dup: bool,
    pub retain: bool,
}

#[derive(Clone, Debug)]
pub struct BarrierRec {
    pub seq: u64,
    pub t: u64,
    pub quiet: bool,
    pub conns: usize,
    pub server_open: Vec<bool>,
    pub accepted: Vec<bool>,
    pub client_reset: Vec<bool>,
    pub leftover: Vec<usize>,
    /// Bytes and blocks the broker holds.
    pub held: (i64, i64),
}

#[derive(Clone, Debug)]
pub struct GhostRec {
    pub topic: String,
    pub payload: Vec<u8>,
    pub conn: usize,
    pub why: String,
}

#[derive(Default)]
pub struct World {
    pub setup: bool,
    pub setup_serves: bool,
    pub startup: Vec<String>,
    /// What was wrong with a start-up.
    pub setup_errors: Vec<String>,
    /// Operations per phase, in plans that look at what the broker holds.
    pub rounds: Vec<usize>,
    pub seq: u64,
    pub conns: Vec<ConnRec>,
    pub msgs: Vec<Msg>,
    pub by_key: BTreeMap<(u32, u32), usize>,
    pub ghosts: Vec<GhostRec>,
    pub barriers: Vec<BarrierRec>,
    pub phase: usize,
    pub meets: BTreeMap<u32, u32>,
    pub started: bool,
    pub start_failed: bool,
    pub interrupt: Option<(u64, u64)>,
    pub run_end: Option<(u64, u64, Option<String>)>,
    pub late_accepts: Vec<String>,
    pub verbose: bool,
    pub events: Vec<String>,
    pub slots: usize,
    pub counts: BTreeMap<&'static str, u64>,
    pub finished: bool,
    /// What the broker may hold and the most it held.
    pub ceiling: i64,
    pub peak: i64,
    pub teardown_from: Option<usize>,
    pub users: Vec<(String, String)>,
    pub addresses: u8,
}

pub struct Shared {
    pub w: Mutex<World>,
    pub n: Notify,
}

pub type W = Arc<Shared>;

impl World {
    pub fn tick(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }
    pub fn ev(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let t = tokio::sim::now();
            let s = f();
            if self.events.len() < 20_000 {
                self.events.push(format!("{:>6} {:>12.6}s {}", self.seq, t as f64 / 1e9, s));
            }
        }
    }
    pub fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    fn find_msg(&self, topic: &[u8], payload: &[u8]) -> Option<usize> {
        let parse = |s: &[u8]| -> Option<(u32, u32)> {
            let s = std::str::from_utf8(s).ok()?;
            let (a, b) = s.split_once('.')?;
            Some((a.parse().ok()?, b.parse().ok()?))
        };
        let head = payload.iter().take(24).position(|b| *b == b'|').and_then(|p| parse(&payload[..p]));
        if let Some(k) = head {
            if let Some(i) = self.by_key.get(&k) {
                let m = &self.msgs[*i];
                if m.topic.as_bytes() == topic && m.payload.as_slice() == payload {
                    return Some(*i);
                }
            }
        }
        let tail = topic.rsplit(|b| *b == b'/').next().and_then(parse);
        if let Some(k) = tail {
            if let Some(i) = self.by_key.get(&k) {
                let m = &self.msgs[*i];
                if m.topic.as_bytes() == topic && m.payload.as_slice() == payload {
                    return Some(*i);
                }
            }
        }
        None
    }
}

/// The harness is at work, not the broker: its processor time is no hang.
pub static HARNESS: AtomicBool = AtomicBool::new(false);

impl Shared {
    pub fn with<R>(&self, f: impl FnOnce(&mut World) -> R) -> R {
        let mut g = self.w.lock().unwrap_or_else(|e| e.into_inner());
        HARNESS.store(true, Ordering::Relaxed);
        let r = f(&mut g);
        HARNESS.store(false, Ordering::Relaxed);
        r
    }

    /// Waits until `cond` holds; false at the deadline or once the broker has ended.
    pub async fn until(&self, deadline_ns: u64, mut cond: impl FnMut(&mut World) -> bool) -> bool {
        let at = tokio::sim::now() + deadline_ns;
        let mut sleep = Box::pin(tokio::sim::sleep_until(at));
        loop {
            let mut notified = Box::pin(self.n.notified());
            notified.as_mut().enable();
            let (ok, over) = self.with(|w| (cond(w), w.run_end.is_some()));
            if ok {
                return true;
            }
            if over || tokio::sim::now() >= at {
                return false;
            }
            std::future::poll_fn(|cx| {
                if notified.as_mut().poll(cx).is_ready() || sleep.as_mut().poll(cx).is_ready() {
                    Poll::Ready(())
                } else {
                    Poll::Pending
                }
            })
            .await;
        }
    }
}

async fn with_deadline<F: Future>(ns: u64, f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut s = Box::pin(tokio::sim::sleep(ns));
    std::future::poll_fn(move |cx| {
        if let Poll::Ready(v) = f.as_mut().poll(cx) {
            return Poll::Ready(Some(v));
        }
        if s.as_mut().poll(cx).is_ready() {
            return Poll::Ready(None);
        }
        Poll::Pending
    })
    .await
}

/// The name of the scratch directory is another one in every process and thread.
fn without_scratch(text: &str) -> String {
    let mut out = String::new();
    let mut rest = text;
    while let Some(i) = rest.find("ratelmq-sim-") {
        let (a, b) = rest.split_at(i + "ratelmq-sim-".len());
        out.push_str(a);
        rest = b.trim_start_matches(|c: char| c.is_ascii_digit());
        rest = rest.strip_prefix('/').unwrap_or(rest).trim_start_matches(|c: char| c.is_ascii_digit());
    }
    out + rest
}

pub fn addr(listener: usize) -> std::net::SocketAddr {
    std::net::SocketAddr::from(([127, 0, 0, 1], 18830 + listener as u16))
}

async fn reader(w: W, conn: usize, mut rd: OwnedReadHalf) {
    let mut parser = Parser::default();
    let mut buf = vec![0u8; 65536];
    loop {
        let r = rd.read(&mut buf).await;
        let stop = w.with(|w| {
            if w.conns[conn].client_closed {
                w.conns[conn].leftover = parser.pending();
                return true;
            }
            match r {
                Ok(0) | Err(_) => {
                    let what = match &r {
                        Ok(_) => "closed".to_string(),
                        Err(e) => format!("{:?}", e.kind()),
                    };
                    let seq = w.tick();
                    let t = tokio::sim::now();
                    w.conns[conn].leftover = parser.pending();
                    w.conns[conn].eof = Some((seq, t, what.clone()));
                    w.ev(|| format!("conn {} sees the end of the stream: {}", conn, what));
                    true
                }
                Ok(n) => {
                    if w.conns[conn].parse_err.is_some() {
                        return false;
                    }
                    if crate::leak::on() {
                        let t = &mut w.conns[conn].tail;
                        t.extend_from_slice(&buf[..n]);
                        crate::leak::sent("the bytes sent to a client", t);
                        let cut = t.len().saturating_sub(8);
                        t.drain(..cut);
                    }
                    parser.feed(&buf[..n]);
                    loop {
                        match parser.next() {
                            Ok(Some(pkt)) => {
                                let seq = w.tick();
                                let t = tokio::sim::now();
                                let msg = match &pkt {
                                    In::Publish { topic, payload, .. } => w.find_msg(topic, payload),
                                    _ => None,
                                };
                                w.ev(|| format!("conn {} <- {}", conn, pkt.short()));
                                if let In::ConnAck { .. } = pkt {
                                    w.conns[conn].acks += 1;
                                }
                                w.conns[conn].recv.push(Recv { seq, t, pkt, msg });
                            }
                            Ok(None) => {
                                w.conns[conn].leftover = parser.pending();
                                break;
                            }
                            Err(e) => {
                                let seq = w.tick();
                                w.ev(|| format!("conn {} <- unparsable: {}", conn, e));
                                w.conns[conn].parse_err = Some((seq, e));
                                break;
                            }
                        }
                    }
                    false
                }
            }
        });
        w.n.notify_waiters();
        if stop {
            return;
        }
    }
}

pub struct SlotState {
    conn: Option<usize>,
    wr: Option<OwnedWriteHalf>,
    buf: Vec<u8>,
    queued: Vec<usize>,
    pid: u16,
    stuck: bool,
    rng: tokio::sim::Rng,
}

struct Runner {
    w: W,
    slot: usize,
    st: SlotState,
    chunk: Chunk,
    phase: usize,
}

impl Runner {
    fn deadline(&self) -> u64 {
        if self.st.stuck {
            SEC
        } else {
            DEADLINE
        }
    }

    fn queue(&mut self, what: What, bytes: &[u8]) -> Option<usize> {
        let conn = self.st.conn?;
        self.st.wr.as_ref()?;
        let phase = self.phase;
        let idx = self.w.with(|w| {
            w.conns[conn].sent.push(Sent { what, start: u64::MAX, end: None, phase });
            w.conns[conn].sent.len() - 1
        });
        self.st.buf.extend_from_slice(bytes);
        self.st.queued.push(idx);
        Some(idx)
    }

    async fn sent(&mut self) {
        let join = matches!(self.chunk, Chunk::Join | Chunk::Cut { .. });
        if !join || self.st.buf.len() > 400_000 {
            self.flush().await;
        }
    }

    async fn flush(&mut self) {
        if self.st.buf.is_empty() {
            return;
        }
        let Some(conn) = self.st.conn else { return };
        let data = std::mem::take(&mut self.st.buf);
        let queued = std::mem::take(&mut self.st.queued);
        let Some(mut wr) = self.st.wr.take() else { return };
        self.w.with(|w| {
            let seq = w.tick();
            for q in &queued {
                w.conns[conn].sent[*q].start = seq;
            }
            if w.verbose {
                for q in &queued {
                    let what = w.conns[conn].sent[*q].what.clone();
                    let s = describe(w, &what);
                    w.ev(|| format!("conn {} -> {}", conn, s));
                }
            }
        });
        // where to cut
        let mut cuts: Vec<(usize, u64)> = Vec::new();
        match self.chunk {
            Chunk::Whole | Chunk::Join => cuts.push((data.len(), 0)),
            Chunk::Bytes => {
                if data.len() > 3000 {
                    // the beginning and the end byte by byte, the rest in one piece
                    cuts.extend((1..=1500).map(|i| (i, 0)));
                    cuts.push((data.len() - 1000, 0));
                    cuts.extend((data.len() - 999..=data.len()).map(|i| (i, 0)));
                } else {
                    cuts.extend((1..=data.len()).map(|i| (i, 0)));
                }
            }
            Chunk::Cut { max, gap_us } => {
                let mut p = 0;
                let big = data.len() / 400 + 1;
                while p < data.len() {
                    let m = (max as usize).max(big).max(1);
                    p = (p + 1 + self.st.rng.below(m as u64) as usize).min(data.len());
                    let g = if gap_us > 0 && self.st.rng.below(4) == 0 {
                        self.st.rng.below(gap_us as u64 * 2) * 1000
                    } else {
                        0
                    };
                    cuts.push((p, g));
                }
            }
            Chunk::Tail { back, gap_us } => {
                let b = back as usize;
                if b > 0 && b < data.len() {
                    cuts.push((data.len() - b, gap_us as u64 * 1000));
                }
                cuts.push((data.len(), 0));
            }
        }
        let mut pos = 0;
        let mut ok = true;
        let dl = self.deadline();
        for (p, gap) in cuts {
            // the time allowed starts anew with every byte that is taken
            let mut r = Some(Ok(()));
            while pos < p {
                match with_deadline(dl, wr.write(&data[pos..p])).await {
                    Some(Ok(0)) => {
                        r = Some(Err(std::io::ErrorKind::WriteZero.into()));
                        break;
                    }
                    Some(Ok(n)) => pos += n,
                    Some(Err(e)) => {
                        r = Some(Err(e));
                        break;
                    }
                    None => {
                        r = None;
                        break;
                    }
                }
            }
            match r {
                Some(Ok(())) => {}
                Some(Err(_)) => {
                    ok = false;
                    break;
                }
                None => {
                    ok = false;
                    self.st.stuck = true;
                    self.w.with(|w| {
                        w.conns[conn].write_stuck = true;
                        w.ev(|| format!("conn {}: the broker stopped reading", conn));
                    });
                    break;
                }
            }
            if gap > 0 {
                tokio::sim::sleep(gap).await;
            }
            if self.w.with(|w| w.run_end.is_some()) {
                ok = false;
                break;
            }
        }
        self.w.with(|w| {
            let seq = w.tick();
            if ok {
                for q in &queued {
                    w.conns[conn].sent[*q].end = Some(seq);
                }
            }
        });
        self.st.wr = Some(wr);
    }

    async fn wait(&mut self, what: &'static str, cond: impl FnMut(&mut World) -> bool) {
        self.flush().await;
        let dl = self.deadline();
        let ok = self.w.until(dl, cond).await;
        if !ok {
            if let Some(conn) = self.st.conn {
                let over = self.w.with(|w| {
                    if w.run_end.is_none() {
                        w.conns[conn].wait_stuck = true;
                        w.ev(|| format!("conn {}: gave up waiting for {}", conn, what));
                    }
                    w.run_end.is_some()
                });
                if !over {
                    self.st.stuck = true;
                }
            }
        }
    }

    fn end(&mut self, kind: EndKind) {
        if let Some(conn) = self.st.conn {
            let phase = self.phase;
            self.w.with(|w| {
                let seq = w.tick();
                w.ev(|| format!("conn {}: client ends it: {:?}", conn, kind));
                w.conns[conn].ends.push((kind, seq, phase));
            });
        }
    }

    fn close(&mut self, abort: bool) {
        let Some(conn) = self.st.conn.take() else { return };
        let sim = self.w.with(|w| {
            w.conns[conn].client_closed = true;
            w.conns[conn].sim
        });
        if abort {
            snet::abort_client(sim);
        } else {
            snet::close_client(sim);
        }
        self.st.wr = None;
        self.st.buf.clear();
        self.st.queued.clear();
        self.st.stuck = false;
        self.w.n.notify_waiters();
    }

    /// Whether the broker has ended this connection.
    fn ended(w: &World, conn: usize) -> bool {
        w.conns[conn].eof.is_some() || w.conns[conn].client_closed
    }

    async fn dial(&mut self, listener: usize) -> bool {
        if self.st.conn.is_some() {
            self.flush().await;
            self.end(EndKind::Close);
            self.close(false);
        }
        self.st.stuck = false;
        let slot = self.slot;
        let phase = self.phase;
        let conn = self.w.with(|w| {
            let seq = w.tick();
            w.conns.push(ConnRec {
                slot,
                listener,
                phase,
                sim: usize::MAX,
                dial_start: seq,
                ..ConnRec::default()
            });
            let c = w.conns.len() - 1;
            w.ev(|| format!("conn {} (client {}) dials listener {}", c, slot, listener));
            c
        });
        match self.w.with(|w| w.addresses) {
            0 => {}
            1 => snet::come_from([10, 1, (slot >> 8) as u8, slot as u8]),
            _ => snet::come_from([127, 0, 0, 1 + self.st.rng.below(3) as u8]),
        }
        let r = with_deadline(DEADLINE, TcpStream::connect(addr(listener))).await;
        match r {
            Some(Ok(s)) => {
                let sim = s.sim_conn();
                let (rd, wr) = s.into_split();
                self.w.with(|w| {
                    w.conns[conn].sim = sim;
                    w.conns[conn].dialled = true;
                });
                self.st.conn = Some(conn);
                self.st.wr = Some(wr);
                self.st.buf.clear();
                self.st.queued.clear();
                tokio::spawn(reader(self.w.clone(), conn, rd));
                true
            }
            other => {
                let e = match other {
                    Some(Err(e)) => format!("{:?}", e.kind()),
                    _ => "no answer".into(),
                };
                self.w.with(|w| {
                    w.ev(|| format!("conn {}: dialling failed: {}", conn, e));
                    w.conns[conn].dial_err = Some(e)
                });
                false
            }
        }
    }

    fn send_connect(
        &mut self,
        id: &str,
        user: &Option<String>,
        pass: &Option<String>,
        clean: bool,
        keep_alive: u16,
        will: &Option<(String, String, u8, bool)>,
    ) {
        let Some(conn) = self.st.conn else { return };
        let bytes = mqtt::connect(&mqtt::ConnectOpts {
            id,
            user: user.as_deref(),
            pass: pass.as_deref(),
            clean,
            keep_alive,
            will: will.as_ref().map(|(t, m, q, r)| (t.as_str(), m.as_bytes(), *q, *r)),
            v31: false,
        });
        self.w.with(|w| {
            let expect_accept = match user {
                None => true,
                Some(u) => match pass {
                    Some(p) => w.users.iter().any(|(a, b)| a == u && b == p),
                    None => false,
                },
            };
            let n = w.conns[conn].sent.len();
            w.conns[conn].connect = Some(ConnectInfo {
                id: id.to_string(),
                user: user.clone(),
                pass: pass.clone(),
                expect_accept,
                sent: n,
            });
            if !expect_accept {
                w.conns[conn].bad_from = Some(n);
            }
        });
        self.queue(What::Connect, &bytes);
    }

    async fn run(&mut self, ops: Vec<Op>) {
        for op in ops {
            if self.w.with(|w| w.run_end.is_some()) {
                break;
            }
            self.op(op).await;
        }
        self.flush().await;
    }

    fn before_connect(&mut self) {
        // a first packet other than CONNECT: nothing on this connection may count
        if let Some(conn) = self.st.conn {
            let phase = self.phase;
            self.w.with(|w| {
                if w.conns[conn].connect.is_none() && w.conns[conn].bad_from.is_none() {
                    let n = w.conns[conn].sent.len();
                    w.conns[conn].bad_from = Some(n);
                    let seq = w.tick();
                    w.conns[conn].ends.push((EndKind::Violation("first packet is not CONNECT".into()), seq, phase));
                }
            });
        }
    }

    fn next_pid(&mut self) -> u16 {
        self.st.pid = self.st.pid.wrapping_add(1);
        if self.st.pid == 0 {
            self.st.pid = 1;
        }
        self.st.pid
    }

    async fn op(&mut self, op: Op) {
        // what follows the beginning of a packet would be taken for the rest of it
        let partial = self.st.conn.map_or(false, |c| {
            self.w.with(|w| w.conns[c].sent.iter().any(|s| matches!(s.what, What::Partial)))
        });
        let op = match op {
            Op::Disc { .. } if partial => Op::Close,
            Op::Sub { .. }
            | Op::Unsub { .. }
            | Op::Pub { .. }
            | Op::Ping { .. }
            | Op::Reconnect { .. }
            | Op::Raw { .. }
            | Op::Partial { .. }
            | Op::Legal { .. }
                if partial =>
            {
                return;
            }
            op => op,
        };
        match op {
            Op::Connect { id, user, pass, clean, keep_alive, will, listener, wait } => {
                for _attempt in 0..4 {
                    if !self.dial(listener).await {
                        return;
                    }
                    self.send_connect(&id, &user, &pass, clean, keep_alive, &will);
                    self.sent().await;
                    let Some(conn) = self.st.conn else { return };
                    self.w.with(|w| w.count("connect"));
                    if wait {
                        self.wait("CONNACK", |w| {
                            w.conns[conn].acks > 0
                                || w.conns[conn].parse_err.is_some()
                                || Self::ended(w, conn)
                        })
                        .await;
                        let lost = self.w.with(|w| {
                            w.conns[conn].eof.is_some()
                                && snet::info(w.conns[conn].sim).map_or(false, |i| !i.accepted)
                        });
                        if lost {
                            self.w.with(|w| {
                                w.conns[conn].accept_lost = true;
                                w.count("attempt_lost")
                            });
                            self.close(false);
                            continue;
                        }
                    }
                    return;
                }
            }
            Op::Dial { listener } => {
                self.dial(listener).await;
                self.w.with(|w| w.count("dial_only"));
            }
            Op::Sub { filters, wait } => {
                self.before_connect();
                let pid = self.next_pid();
                let bytes = mqtt::subscribe(pid, &filters);
                let Some(i) = self.queue(What::Sub { pid, filters }, &bytes) else { return };
                self.w.with(|w| w.count("subscribe"));
                self.sent().await;
                self.wait_reply(i, wait, "SUBACK").await;
            }
            Op::Unsub { filters, wait } => {
                self.before_connect();
                let pid = self.next_pid();
                let bytes = mqtt::unsubscribe(pid, &filters);
                let Some(i) = self.queue(What::Unsub { pid, filters }, &bytes) else { return };
                self.w.with(|w| w.count("unsubscribe"));
                self.sent().await;
                self.wait_reply(i, wait, "UNSUBACK").await;
            }
            Op::Ping { wait } => {
                self.before_connect();
                let Some(i) = self.queue(What::Ping, &mqtt::pingreq()) else { return };
                self.w.with(|w| w.count("ping"));
                self.sent().await;
                self.wait_reply(i, wait, "PINGRESP").await;
            }
            Op::Pub { key, topics, n, size, size2, qos, dup, retain, tiny } => {
                self.before_connect();
                let Some(conn) = self.st.conn else { return };
                for j in 0..n {
                    if self.st.wr.is_none() || self.st.stuck {
                        break;
                    }
                    if self.w.with(|w| Self::ended(w, conn) || w.by_key.contains_key(&(key, j))) {
                        break;
                    }
                    let (topic, payload) = message(key, j, &topics, size, size2, tiny);
                    let pid = if qos > 0 { self.next_pid() } else { 0 };
                    let bytes = mqtt::publish(&topic, &payload, qos, dup, retain, pid);
                    let m = self.w.with(|w| {
                        let m = w.msgs.len();
                        let sent = w.conns[conn].sent.len();
                        w.msgs.push(Msg {
                            key,
                            j,
                            topic,
                            payload: Arc::new(payload),
                            conn,
                            sent,
                            qos,
                            dup,
                            retain,
                        });
                        w.by_key.insert((key, j), m);
                        w.count("publish");
                        m
                    });
                    self.queue(What::Pub { msg: m }, &bytes);
                    self.sent().await;
                }
            }
            Op::Reconnect { id, user, pass } => {
                let Some(conn) = self.st.conn else { return };
                if self.w.with(|w| w.conns[conn].connect.is_none()) {
                    return; // it would be the first
                }
                let bytes = mqtt::connect(&mqtt::ConnectOpts {
                    id: &id,
                    user: user.as_deref(),
                    pass: pass.as_deref(),
                    clean: true,
                    keep_alive: 0,
                    will: None,
                    v31: false,
                });
                self.mark_bad(conn, "second CONNECT");
                self.queue(What::Reconnect, &bytes);
                self.w.with(|w| w.count("second_connect"));
                self.sent().await;
            }
            Op::Disc { then } => {
                self.before_connect();
                let Some(conn) = self.st.conn else { return };
                let phase = self.phase;
                self.w.with(|w| {
                    let seq = w.tick();
                    w.conns[conn].ends.push((EndKind::Disc, seq, phase));
                    w.count("disconnect");
                });
                self.queue(What::Disc, &mqtt::disconnect());
                self.flush().await;
                match then {
                    0 => {
                        self.end(EndKind::Close);
                        self.close(false);
                    }
                    1 => {
                        self.wait("the broker to close", |w| Self::ended(w, conn)).await;
                        self.end(EndKind::Close);
                        self.close(false);
                    }
                    _ => {}
                }
            }
            Op::Close => {
                self.flush().await;
                if self.st.conn.is_some() {
                    self.w.with(|w| w.count("close"));
                }
                self.end(EndKind::Close);
                self.close(false);
            }
            Op::Abort => {
                self.flush().await;
                if self.st.conn.is_some() {
                    self.w.with(|w| w.count("reset"));
                }
                self.end(EndKind::Abort);
                self.close(true);
            }
            Op::HalfClose => {
                self.flush().await;
                if self.st.conn.is_some() {
                    self.w.with(|w| w.count("half_close"));
                    self.end(EndKind::HalfClose);
                    if let Some(mut wr) = self.st.wr.take() {
                        let _ = with_deadline(DEADLINE, wr.shutdown()).await;
                        // keep the half so that the read side stays open
                        std::mem::forget(wr);
                    }
                }
            }
            Op::Raw { hex, why, ghosts } => {
                let Some(conn) = self.st.conn else { return };
                self.mark_bad(conn, &why);
                self.w.with(|w| {
                    for g in ghosts {
                        w.ghosts.push(GhostRec {
                            topic: g.topic,
                            payload: g.payload.into_bytes(),
                            conn,
                            why: why.clone(),
                        });
                    }
                    w.count("malformed");
                });
                self.queue(What::Raw { why }, &unhex(&hex));
                self.sent().await;
            }
            Op::Partial { hex } => {
                self.queue(What::Partial, &unhex(&hex));
                self.flush().await;
                self.w.with(|w| w.count("partial_packet"));
            }
            Op::Legal { hex, .. } => {
                self.before_connect();
                self.queue(What::Legal, &unhex(&hex));
                self.sent().await;
            }
            Op::Sleep { us } => {
                self.flush().await;
                // long sleeps end early when the broker is gone
                self.w.until(us * 1000, |_| false).await;
            }
            Op::Pause { on } => {
                self.flush().await;
                if let Some(conn) = self.st.conn {
                    let sim = self.w.with(|w| {
                        if on {
                            let seq = w.tick();
                            w.conns[conn].paused.get_or_insert(seq);
                            w.count("reader_stalled");
                            w.ev(|| format!("conn {}: client stops reading", conn));
                        } else {
                            w.conns[conn].resumed = true;
                            w.ev(|| format!("conn {}: client reads again", conn));
                        }
                        w.conns[conn].sim
                    });
                    snet::pause_client_read(sim, on);
                }
            }
            Op::Nap { us } => {
                self.flush().await;
                if let Some(conn) = self.st.conn {
                    let sim = self.w.with(|w| {
                        w.count("reader_nap");
                        w.conns[conn].sim
                    });
                    snet::pause_client_read(sim, true);
                    self.w.until(us * 1000, |_| false).await;
                    snet::pause_client_read(sim, false);
                }
            }
            Op::Hold { dir, us } => {
                self.flush().await;
                if let Some(conn) = self.st.conn {
                    let sim = self.w.with(|w| {
                        w.count("partition");
                        w.conns[conn].sim
                    });
                    snet::hold(sim, dir as usize, true);
                    self.w.until(us * 1000, |_| false).await;
                    snet::hold(sim, dir as usize, false);
                }
            }
            Op::FailServer { read, kind } => {
                self.flush().await;
                if let Some(conn) = self.st.conn {
                    let sim = self.w.with(|w| {
                        let seq = w.tick();
                        w.ev(|| format!("conn {}: broker's {} will fail: {}", conn, if read { "read" } else { "write" }, kind));
                        w.conns[conn].fault.get_or_insert((seq, kind.clone()));
                        w.count(if read { "read_error" } else { "write_error" });
                        w.conns[conn].sim
                    });
                    snet::fail_server(sim, read, errno(&kind));
                }
            }
            Op::FailAccept { listener, kind, n } => {
                self.w.with(|w| {
                    for _ in 0..n {
                        w.count("accept_error");
                    }
                    w.ev(|| format!("next {} accepts on listener {} fail: {}", n, listener, kind));
                });
                snet::fail_accept(addr(listener), errno(&kind), n as usize);
            }
            Op::Chatter { kind, us } => {
                let end = tokio::sim::now() + 100 * SEC;
                let mut i = 0;
                if let (4, Some(conn)) = (kind, self.st.conn) {
                    // reads a little now and then
                    let sim = self.w.with(|w| {
                        w.count("dripping_reader");
                        w.conns[conn].sim
                    });
                    while tokio::sim::now() < end && !self.w.with(|w| w.run_end.is_some() || Self::ended(w, conn)) {
                        snet::pause_client_read(sim, true);
                        self.w.until(us * 1000, |w| w.run_end.is_some()).await;
                        snet::pause_client_read(sim, false);
                        tokio::sim::sleep(1_000_000).await;
                    }
                    return;
                }
                while tokio::sim::now() < end && !self.st.stuck && !self.w.with(|w| w.run_end.is_some()) {
                    i += 1;
                    let op = match kind {
                        0 => Op::Ping { wait: false },
                        1 => Op::Sub { filters: vec![("zz/chat".into(), 0)], wait: false },
                        2 => Op::Pub {
                            key: 3_000_000_000 + (self.slot as u32 % 900) * 1_000_000 + i,
                            topics: vec!["zz/nobody".into()],
                            n: 1,
                            size: 20,
                            size2: 0,
                            qos: 0,
                            dup: false,
                            retain: false,
                            tiny: false,
                        },
                        _ => Op::Dial { listener: 0 },
                    };
                    if kind < 3 && self.st.conn.map_or(true, |c| self.w.with(|w| Self::ended(w, c))) {
                        break;
                    }
                    Box::pin(self.op(op)).await;
                    tokio::sim::sleep(us.max(100) * 1000).await;
                }
                self.w.with(|w| w.count("chatter"));
            }
            Op::StepClock { ms } => {
                self.w.with(|w| {
                    w.count("clock_step");
                    w.ev(|| format!("wall clock steps by {} ms", ms));
                });
                tokio::sim::step_wall(ms * 1_000_000);
            }
            Op::AwaitClose => {
                if let Some(conn) = self.st.conn {
                    self.wait("the broker to close", |w| Self::ended(w, conn)).await;
                }
            }
            Op::Meet { id, n } => {
                self.flush().await;
                self.w.with(|w| *w.meets.entry(id).or_insert(0) += 1);
                self.w.n.notify_waiters();
                self.w.until(DEADLINE, |w| w.meets.get(&id).copied().unwrap_or(0) >= n).await;
            }
        }
    }

    fn mark_bad(&mut self, conn: usize, why: &str) {
        let phase = self.phase;
        self.w.with(|w| {
            let seq = w.tick();
            let n = w.conns[conn].sent.len();
            w.conns[conn].bad_from.get_or_insert(n);
            w.conns[conn].ends.push((EndKind::Violation(why.to_string()), seq, phase));
        });
    }

    async fn wait_reply(&mut self, idx: usize, wait: bool, what: &'static str) {
        if !wait {
            return;
        }
        let Some(conn) = self.st.conn else { return };
        self.wait(what, |w| {
            let c = &w.conns[conn];
            if c.eof.is_some() || c.client_closed || c.parse_err.is_some() {
                return true;
            }
            // the k-th request waits for the k-th reply
            let k = c.sent[..=idx]
                .iter()
                .filter(|s| matches!(s.what, What::Sub { .. } | What::Unsub { .. } | What::Ping))
                .count();
            let got = c
                .recv
                .iter()
                .filter(|r| matches!(r.pkt, In::SubAck { .. } | In::UnsubAck { .. } | In::PingResp))
                .count();
            got >= k
        })
        .await;
    }
}

pub fn describe(w: &World, what: &What) -> String {
    match what {
        What::Connect => "CONNECT".into(),
        What::Sub { pid, filters } => format!("SUBSCRIBE({}, {:?})", pid, filters),
        What::Unsub { pid, filters } => format!("UNSUBSCRIBE({}, {:?})", pid, filters),
        What::Pub { msg } => {
            let m = &w.msgs[*msg];
            let topic: String = m.topic.chars().take(80).collect();
            format!(
                "PUBLISH(msg {}.{}, topic={}, len={}, qos={}, dup={}, retain={})",
                m.key,
                m.j,
                topic,
                m.payload.len(),
                m.qos,
                m.dup as u8,
                m.retain as u8
            )
        }
        What::Ping => "PINGREQ".into(),
        What::Disc => "DISCONNECT".into(),
        What::Reconnect => "second CONNECT".into(),
        What::Raw { why } => format!("malformed: {}", why),
        What::Partial => "beginning of a packet".into(),
        What::Legal => "acknowledgement packet".into(),
    }
}

async fn barrier(w: &W, name: String) {
    let mut last = u64::MAX;
    let mut idle = 0;
    let mut total = 0;
    loop {
        let done = w.with(|w| w.run_end.is_some());
        if done {
            break;
        }
        w.until(SEC, |_| false).await;
        let a = snet::activity() + w.with(|w| w.seq);
        total += 1;
        if a != last {
            last = a;
            idle = 0;
        } else {
            idle += 1;
        }
        if idle >= 30 || total > 1500 {
            break;
        }
    }
    w.with(|w| {
        let seq = w.tick();
        let server_open = w
            .conns
            .iter()
            .map(|c| c.sim != usize::MAX && snet::info(c.sim).map_or(false, |i| i.server_open))
            .collect::<Vec<_>>();
        let ask = |f: &dyn Fn(usize) -> bool| w.conns.iter().map(|c| c.sim != usize::MAX && f(c.sim)).collect::<Vec<_>>();
        let accepted = ask(&|s| snet::info(s).map_or(false, |i| i.accepted));
        let client_reset = ask(&|s| snet::client_reset(s));
        let leftover = w.conns.iter().map(|c| c.leftover).collect();
        let b = BarrierRec {
            seq,
            t: tokio::sim::now(),
            quiet: idle >= 30,
            conns: server_open.len(),
            server_open,
            accepted,
            client_reset,
            leftover,
            held: crate::alloc::held(),
        };
        w.peak = crate::alloc::peak();
        w.barriers.push(b);
        w.ev(|| format!("---- barrier: {}", name));
        w.ev(|| {
            let (b, n) = crate::alloc::held();
            format!("     the broker holds {} bytes in {} blocks", b, n)
        });
    });
}

async fn run_phase(w: &W, k: usize, scripts: Vec<Script>, states: &mut Vec<Option<SlotState>>) {
    w.with(|w| w.phase = k);
    let mut tasks = Vec::new();
    for s in scripts {
        let st = match states[s.slot].take() {
            Some(s) => s,
            None => continue,
        };
        let w = w.clone();
        tasks.push((
            s.slot,
            tokio::spawn(async move {
                let mut r = Runner { w, slot: s.slot, st, chunk: s.chunk, phase: k };
                r.run(s.ops).await;
                r.st
            }),
        ));
    }
    for (slot, t) in tasks {
        if let Ok(st) = t.await {
            states[slot] = Some(st);
        }
    }
}

async fn drive(w: W, plan: Arc<Plan>) {
    // start-up
    let n = plan.listeners;
    let mut up = false;
    for _ in 0..600 {
        if snet::listeners_open() >= n {
            up = true;
            break;
        }
        if w.until(SEC / 10, |w| w.run_end.is_some()).await {
            break;
        }
    }
    if !up {
        w.with(|w| {
            w.start_failed = true;
            w.ev(|| "the broker did not open its listeners".into());
        });
        return;
    }
    tokio::sim::sleep(SEC).await;
    w.with(|w| w.started = true);
    let probes = n;
    let slots = plan.slots();
    let mut states: Vec<Option<SlotState>> = (0..slots + probes)
        .map(|i| {
            let mut rng = tokio::sim::Rng::new(plan.seed ^ (i as u64 + 1).wrapping_mul(0x9E37_79B9));
            let pid = match rng.below(6) {
                0 => 0xFFF0,
                1 => 0,
                2 => 0x00FE,
                3 => 0x7FFF,
                _ => rng.below(65000) as u16,
            };
            Some(SlotState {
                conn: None,
                wr: None,
                buf: Vec::new(),
                queued: Vec::new(),
                pid,
                stuck: false,
                rng,
            })
        })
        .collect();
    w.with(|w| w.slots = slots);

    let mut interrupted = false;
    for (k, ph) in plan.phases.iter().enumerate() {
        if let Some(i) = &plan.interrupt {
            if i.phase == k {
                interrupted = true;
                let w2 = w.clone();
                let us = i.after_us;
                tokio::spawn(async move {
                    tokio::sim::sleep(us * 1000).await;
                    w2.with(|w| {
                        let s = w.tick();
                        w.interrupt = Some((s, tokio::sim::now()));
                        w.ev(|| "==== interrupt signal".into());
                    });
                    tokio::sim::interrupt();
                });
            }
        }
        run_phase(&w, k, ph.scripts.clone(), &mut states).await;
        if interrupted {
            break;
        }
        barrier(&w, format!("end of phase {}", k)).await;
    }

    let k = plan.phases.len();
    if !interrupted {
        // is everybody else still served?
        tokio::sim::faults_off();
        let mut a = Vec::new();
        let mut b = Vec::new();
        for i in 0..probes {
            a.push(Script {
                slot: slots + i,
                chunk: Chunk::Whole,
                ops: vec![
                    Op::Connect {
                        id: format!("probe-{}", i),
                        user: None,
                        pass: None,
                        clean: true,
                        keep_alive: 0,
                        will: None,
                        listener: i,
                        wait: true,
                    },
                    Op::Sub { filters: vec![(format!("zz/probe/{}", i), 0)], wait: true },
                ],
            });
            b.push(Script {
                slot: slots + i,
                chunk: Chunk::Whole,
                ops: vec![
                    Op::Pub {
                        key: 4_000_000_000 + i as u32,
                        topics: vec![format!("zz/probe/{}", (i + 1) % probes)],
                        n: 1,
                        size: 40,
                        size2: 0,
                        qos: 0,
                        dup: false,
                        retain: false,
                        tiny: false,
                    },
                    Op::Ping { wait: true },
                ],
            });
        }
        run_phase(&w, k, a, &mut states).await;
        run_phase(&w, k, b, &mut states).await;
        barrier(&w, "probes".into()).await;
        // everybody leaves
        w.with(|w| w.teardown_from = Some(w.barriers.len()));
        let bye: Vec<Script> = (0..slots + probes)
            .map(|s| Script {
                slot: s,
                chunk: Chunk::Whole,
                ops: vec![if (plan.seed >> (s % 8)) & 1 == 0 { Op::Disc { then: 0 } } else { Op::Close }],
            })
            .collect();
        run_phase(&w, k + 1, bye, &mut states).await;
        barrier(&w, "everybody left".into()).await;
        w.with(|w| {
            let s = w.tick();
            w.interrupt = Some((s, tokio::sim::now()));
            w.ev(|| "==== interrupt signal".into());
        });
        tokio::sim::interrupt();
    }
    // the broker ends
    let at = loop {
        if let Some((_, t)) = w.with(|w| w.interrupt) {
            break t;
        }
        w.until(SEC, |w| w.interrupt.is_some()).await;
        if w.with(|w| w.run_end.is_some()) {
            break tokio::sim::now();
        }
    };
    let left = (at + 60 * SEC).saturating_sub(tokio::sim::now()).max(SEC);
    w.until(left, |w| w.run_end.is_some()).await;
    tokio::sim::sleep(SEC).await;
    if w.with(|w| w.run_end.is_some()) {
        for i in 0..n {
            // nobody may be let in any more
            if let Some(Ok(mut s)) = with_deadline(5 * SEC, TcpStream::connect(addr(i))).await {
                let c = mqtt::connect(&mqtt::ConnectOpts {
                    id: "late",
                    user: None,
                    pass: None,
                    clean: true,
                    keep_alive: 0,
                    will: None,
                    v31: false,
                });
                let _ = with_deadline(5 * SEC, s.write_all(&c)).await;
                let mut b = [0u8; 64];
                if let Some(Ok(n)) = with_deadline(5 * SEC, s.read(&mut b)).await {
                    if n > 0 {
                        w.with(|w| w.late_accepts.push(format!("listener {} answered {} bytes", i, n)));
                    }
                }
            }
        }
    }
    w.with(|w| w.finished = true);
}

/// Runs the plan on this thread. The simulation context must be installed.
pub fn execute(plan: &Plan, broker: Pin<Box<dyn Future<Output = ()>>>, w: W) {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .event_interval(1)
        .build()
        .expect("runtime");
    let plan = Arc::new(plan.clone());
    w.with(|w| {
        w.users = plan.users.clone();
        w.addresses = plan.addresses;
        w.ceiling = plan.ceiling;
        w.setup = plan.setup.is_some();
        w.setup_serves = plan.setup.as_ref().is_some_and(|s| s.expect.is_some());
        if plan.memory {
            w.rounds = plan.phases.iter().map(|p| p.scripts.iter().map(|s| s.ops.len()).sum()).collect();
        }
    });
    let w2 = w.clone();
    rt.block_on(async move {
        let d = match plan.setup.clone() {
            Some(s) => {
                for (i, e) in &s.taken {
                    snet::fail_bind(addr(*i), *e);
                }
                tokio::spawn(crate::setup::drive(w2.clone(), s))
            }
            None => tokio::spawn(drive(w2.clone(), plan)),
        };
        let d = {
            let mut run: Option<Pin<Box<dyn Future<Output = ()>>>> = Some(broker);
            let mut d = d;
            std::future::poll_fn(move |cx| {
                if let Some(f) = run.as_mut() {
                    tokio::sim::set_domain(1);
                    let r = std::panic::catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(cx)));
                    tokio::sim::set_domain(0);
                    let over = match r {
                        Ok(Poll::Pending) => None,
                        Ok(Poll::Ready(())) => Some(None),
                        Err(e) => {
                            let m = e
                                .downcast_ref::<String>()
                                .cloned()
                                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_else(|| "panic".into());
                            Some(Some(without_scratch(&m)))
                        }
                    };
                    if let Some(p) = over {
                        w2.with(|w| {
                            let s = w.tick();
                            w.ev(|| format!("==== the broker's run ended{}", p.as_ref().map(|p| format!(" with a panic: {}", p)).unwrap_or_default()));
                            w.run_end = Some((s, tokio::sim::now(), p));
                        });
                        let _ = std::panic::catch_unwind(AssertUnwindSafe(|| run = None));
                        w2.n.notify_waiters();
                    }
                }
                Pin::new(&mut d).poll(cx)
            })
            .await
        };
        d.expect("harness driver failed");
    });
    // what the broker still holds goes with the process
    drop(rt);
}
