//! Deterministic simulation context (verification fork only; not part of upstream tokio).
//!
//! One simulated execution lives on one OS thread (the harness forks a fresh process per
//! execution).  Every nondeterministic choice the runtime, the simulated network or the
//! simulated clock makes goes through [`decide`], so that an execution is a pure function of
//! (harness plan, decision source).  Decision value 0 is always the benign default.
//!
//! When no context is installed the crate behaves like upstream tokio, except that TCP
//! sockets are simulated and therefore unavailable.
#![allow(missing_docs, missing_debug_implementations, unreachable_pub)]

pub mod net;

use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

/// What a decision is about.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(u8)]
pub enum Kind {
    /// Which runnable task runs next (index into the run queue).
    Sched = 0,
    /// Whether a ready await point yields anyway.
    Yield = 1,
    /// Start branch of `select!` and similar internal randomness.
    Select = 2,
    /// How many bytes a read returns.
    Read = 3,
    /// How many bytes a write accepts.
    Write = 4,
    /// Network latency of a segment.
    Latency = 5,
    /// How much in-flight data a reset destroys.
    Reset = 6,
    /// How long a poll takes (slow CPU).
    Cost = 7,
    /// Choices made by the harness itself.
    Harness = 8,
}

pub const NKINDS: usize = 9;
pub const KIND_NAMES: [&str; NKINDS] = [
    "sched", "yield", "select", "read", "write", "latency", "reset", "cost", "harness",
];

/// How the next task is picked.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Policy {
    Fifo,
    Random,
    /// Random priorities with random change points.
    Priority,
    /// Newest runnable task first, mostly.
    Lifo,
}

/// Knobs of one execution.
#[derive(Clone, Debug)]
pub struct Knobs {
    pub policy: Policy,
    /// All probabilities are in 1/65536.
    pub p_yield: u32,
    pub p_short_read: u32,
    pub p_short_write: u32,
    pub p_latency: u32,
    pub p_slow: u32,
    /// Base one-way latency and the unit of extra latency, in ns.
    pub base_latency: u64,
    pub latency_unit: u64,
    /// Cost of a poll in ns.
    pub poll_cost: u64,
    /// Per-direction socket buffer (bytes in flight plus unread).
    pub sock_buf: usize,
    /// Linux semantics: closing with unread input resets the connection.
    pub rst_on_unread: bool,
    /// Upper bound on task polls.
    pub max_polls: u64,
}

impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            policy: Policy::Fifo,
            p_yield: 0,
            p_short_read: 0,
            p_short_write: 0,
            p_latency: 0,
            p_slow: 0,
            base_latency: 20_000,
            latency_unit: 50_000,
            poll_cost: 1_000,
            sock_buf: 65536,
            rst_on_unread: true,
            max_polls: 8_000_000,
        }
    }
}

/// Small, fast, seedable generator (xorshift64* over a splitmix seed).
#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut z = seed.wrapping_add(0x9E37_79B9_7F4A_7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 31;
        Rng(if z == 0 { 0x1234_5678_9ABC_DEF1 } else { z })
    }
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x >> 12;
        x ^= x << 25;
        x ^= x >> 27;
        self.0 = x;
        x.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() >> 32).wrapping_mul(n)) >> 32
    }
}

/// Where decisions come from.
#[derive(Clone, Debug)]
pub enum Source {
    Seeded(u64),
    /// Sparse list of non-default decisions: index of the decision -> value.
    Replay(BTreeMap<u64, u32>),
}

enum Src {
    Rng(Rng),
    Replay(BTreeMap<u64, u32>),
}

struct Timed {
    at: u64,
    seq: u64,
    ev: Event,
}

enum Event {
    Waker(Waker),
    Read(usize, usize),
    Accept(usize),
    Connected(usize),
}

impl PartialEq for Timed {
    fn eq(&self, o: &Self) -> bool {
        self.at == o.at && self.seq == o.seq
    }
}
impl Eq for Timed {}
impl PartialOrd for Timed {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Timed {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.at, self.seq).cmp(&(o.at, o.seq))
    }
}

/// Counters of what actually happened in an execution.
#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub polls: u64,
    pub decisions: u64,
    pub nonzero: [u64; NKINDS],
    pub asked: [u64; NKINDS],
    pub sched_hash: u64,
    pub switches: u64,
    pub max_ready: usize,
    pub short_reads: u64,
    pub short_writes: u64,
    pub write_blocked: u64,
    pub delayed_segments: u64,
    pub resets: u64,
    pub fins: u64,
    pub bytes: u64,
    pub accept_errors: u64,
    pub socket_errors: u64,
    pub holds: u64,
    pub clock_steps: u64,
    pub lost_on_reset: u64,
    pub conns: u64,
}

struct Ctx {
    src: Src,
    knobs: Knobs,
    index: u64,
    record: Vec<(u64, u32)>,
    record_on: bool,
    heap: BinaryHeap<Reverse<Timed>>,
    seq: u64,
    stats: Stats,
    prio: BTreeMap<u64, u64>,
    entropy: Rng,
    last_task: u64,
    faults_off: bool,
    net: net::Net,
    exhausted: bool,
    /// Bytes moved when the last window of polls began.
    window: u64,
}

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static NOW: Cell<u64> = const { Cell::new(0) };
    static WALL: Cell<i64> = const { Cell::new(0) };
    static NEXT_TASK: Cell<u64> = const { Cell::new(1) };
    static CTX: RefCell<Option<Box<Ctx>>> = const { RefCell::new(None) };
}

/// Monotonic clock value at the start of every execution, in ns.
pub const MONO_BASE: u64 = 1_000_000_000_000;
/// Wall clock value at the start of every execution, in ns (2026-01-01).
pub const WALL_BASE: u64 = 1_767_225_600_000_000_000;

pub fn install(source: Source, knobs: Knobs, entropy: u64) {
    let src = match source {
        Source::Seeded(s) => Src::Rng(Rng::new(s)),
        Source::Replay(m) => Src::Replay(m),
    };
    CTX.with(|c| {
        *c.borrow_mut() = Some(Box::new(Ctx {
            src,
            knobs,
            index: 0,
            record: Vec::new(),
            record_on: true,
            heap: BinaryHeap::new(),
            seq: 0,
            stats: Stats::default(),
            prio: BTreeMap::new(),
            entropy: Rng::new(entropy ^ 0x5bd1_e995),
            last_task: 0,
            faults_off: false,
            net: net::Net::new(),
            exhausted: false,
            window: 0,
        }))
    });
    NOW.with(|n| n.set(0));
    WALL.with(|n| n.set(0));
    NEXT_TASK.with(|n| n.set(1));
    ACTIVE.with(|a| a.set(true));
}

/// Ends the execution; returns what happened and all non-default decisions.
pub fn uninstall() -> (Stats, Vec<(u64, u32)>) {
    ACTIVE.with(|a| a.set(false));
    let ctx = CTX.with(|c| c.borrow_mut().take());
    match ctx {
        Some(c) => {
            let Ctx { stats, record, .. } = *c;
            (stats, record)
        }
        None => (Stats::default(), Vec::new()),
    }
}

#[inline]
pub fn active() -> bool {
    ACTIVE.try_with(|a| a.get()).unwrap_or(false)
}

/// Simulated nanoseconds since the start of the execution.
#[inline]
pub fn now() -> u64 {
    NOW.with(|n| n.get())
}

pub fn monotonic_ns() -> u64 {
    MONO_BASE + now()
}

pub fn wall_ns() -> u64 {
    (WALL_BASE as i128 + now() as i128 + WALL.with(|w| w.get()) as i128).max(0) as u64
}

/// Steps the wall clock by `delta` ns.
pub fn step_wall(delta: i64) {
    WALL.with(|w| w.set(w.get().saturating_add(delta)));
    with(|c| c.stats.clock_steps += 1);
}

thread_local! {
    /// On whose behalf this thread runs: 0 the simulator and the clients, 1 the system under test.
    static DOMAIN: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
    static OURS: std::cell::RefCell<std::collections::HashSet<u64>> = std::cell::RefCell::new(Default::default());
}

pub fn domain() -> u8 {
    DOMAIN.try_with(|d| d.get()).unwrap_or(0)
}

/// Sets the domain and returns the former one. Tasks inherit it when they are spawned.
pub fn set_domain(v: u8) -> u8 {
    DOMAIN.try_with(|d| d.replace(v)).unwrap_or(0)
}

struct AsSimulator(u8);
impl AsSimulator {
    fn new() -> Self {
        AsSimulator(set_domain(0))
    }
}
impl Drop for AsSimulator {
    fn drop(&mut self) {
        set_domain(self.0);
    }
}

fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> Option<R> {
    let _d = AsSimulator::new();
    CTX.try_with(|c| match c.try_borrow_mut() {
        Ok(mut c) => c.as_mut().map(|c| f(c)),
        Err(_) => None,
    })
    .ok()
    .flatten()
}

pub fn stats() -> Stats {
    with(|c| c.stats.clone()).unwrap_or_default()
}

/// Non-default decisions so far.
pub fn recorded() -> Vec<(u64, u32)> {
    with(|c| c.record.clone()).unwrap_or_default()
}

/// Turns all further fault and delay choices off (scheduling stays as it is).
pub fn faults_off() {
    with(|c| c.faults_off = true);
}

pub fn knobs() -> Knobs {
    with(|c| c.knobs.clone()).unwrap_or_default()
}

pub fn set_sock_buf(n: usize) {
    with(|c| c.knobs.sock_buf = n);
}

impl Ctx {
    fn take(&mut self, kind: Kind, n: u32, p: u32, pick: Option<u32>) -> u32 {
        if n <= 1 {
            return 0;
        }
        let idx = self.index;
        self.index += 1;
        self.stats.decisions += 1;
        self.stats.asked[kind as usize] += 1;
        let v = match &mut self.src {
            Src::Replay(m) => m.get(&idx).copied().unwrap_or(0).min(n - 1),
            Src::Rng(r) => match pick {
                Some(v) => v,
                None => {
                    if p >= 65536 {
                        r.below(n as u64) as u32
                    } else if p > 0 && (r.below(65536) as u32) < p {
                        1 + r.below(n as u64 - 1) as u32
                    } else {
                        0
                    }
                }
            },
        };
        if v != 0 {
            self.stats.nonzero[kind as usize] += 1;
            if self.record_on {
                self.record.push((idx, v));
            }
        }
        v
    }

    fn rnd(&mut self, n: u64) -> u64 {
        match &mut self.src {
            Src::Rng(r) => r.below(n),
            Src::Replay(_) => 0,
        }
    }

    fn push(&mut self, at: u64, ev: Event) {
        self.seq += 1;
        let seq = self.seq;
        self.heap.push(Reverse(Timed { at, seq, ev }));
    }

    fn latency(&mut self) -> u64 {
        if self.faults_off {
            return self.knobs.base_latency;
        }
        let p = self.knobs.p_latency;
        let v = self.take(Kind::Latency, 64, p, None) as u64;
        if v > 0 {
            self.stats.delayed_segments += 1;
        }
        // heavy tail: 1..63 -> up to about 4000 units
        self.knobs.base_latency + self.knobs.latency_unit * v * v
    }
}

/// A choice by the harness: uniform over `0..n` when seeded.
pub fn choose(n: u32) -> u32 {
    with(|c| c.take(Kind::Harness, n, 65536, None)).unwrap_or(0)
}

/// Picks the index of the next task among `ids`.
pub(crate) fn pick_task(ids: impl ExactSizeIterator<Item = u64> + Clone) -> usize {
    let n = ids.len();
    if n == 0 {
        return 0;
    }
    with(|c| {
        if n > c.stats.max_ready {
            c.stats.max_ready = n;
        }
        let i = if n == 1 {
            0
        } else {
            let pick = if let Src::Replay(_) = c.src {
                0
            } else {
                match c.knobs.policy {
                    Policy::Fifo => 0,
                    Policy::Random => c.rnd(n as u64) as usize,
                    Policy::Lifo => {
                        if c.rnd(8) == 0 {
                            c.rnd(n as u64) as usize
                        } else {
                            n - 1
                        }
                    }
                    Policy::Priority => {
                        if c.rnd(48) == 0 {
                            let k = c.rnd(n as u64) as usize;
                            let id = ids.clone().nth(k).unwrap();
                            let p = c.rnd(1 << 40);
                            c.prio.insert(id, p);
                        }
                        let mut best = 0;
                        let mut bp = 0;
                        for (k, id) in ids.clone().enumerate() {
                            let p = match c.prio.get(&id) {
                                Some(p) => *p,
                                None => {
                                    let p = c.rnd(1 << 40);
                                    c.prio.insert(id, p);
                                    p
                                }
                            };
                            if k == 0 || p > bp {
                                best = k;
                                bp = p;
                            }
                        }
                        best
                    }
                }
            };
            c.take(Kind::Sched, n as u32, 0, Some(pick as u32)) as usize
        };
        let id = ids.clone().nth(i).unwrap();
        if id != c.last_task {
            c.stats.switches += 1;
            c.last_task = id;
        }
        c.stats.sched_hash = (c.stats.sched_hash ^ id)
            .wrapping_mul(0x0000_0100_0000_01B3)
            .rotate_left(5);
        i
    })
    .unwrap_or(0)
}

/// Whether an await point that could complete yields to the scheduler instead.
pub(crate) fn spurious_yield() -> bool {
    with(|c| {
        if c.knobs.p_yield == 0 {
            return false;
        }
        let p = c.knobs.p_yield;
        c.take(Kind::Yield, 2, p, None) == 1
    })
    .unwrap_or(false)
}

pub(crate) fn select_n(n: u32) -> u32 {
    with(|c| c.take(Kind::Select, n, 65536, None)).unwrap_or(0)
}

/// Number of task polls of this process (read from a signal handler to notice a poll that
/// never returns).
pub static POLLS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Task polls in which at least one byte has to move, or a connection to open or close.
pub const IDLE_WINDOW: u64 = 1_000_000;

/// Called before every task poll: time passes, and runaway executions end.
pub(crate) fn on_poll(task: u64) {
    set_domain(0);
    let ours = OURS.with(|o| o.borrow().contains(&task));
    set_domain(ours as u8);
    POLLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let over = with(|c| {
        c.stats.polls += 1;
        let mut cost = c.knobs.poll_cost;
        if !c.faults_off && c.knobs.p_slow > 0 {
            let p = c.knobs.p_slow;
            let v = c.take(Kind::Cost, 32, p, None) as u64;
            cost += v * v * 10_000;
        }
        NOW.with(|n| n.set(n.get() + cost));
        if c.exhausted {
            return false;
        }
        if c.stats.polls > c.knobs.max_polls {
            c.exhausted = true;
        } else if c.stats.polls % IDLE_WINDOW == 0 {
            let a = net::activity_of(c);
            c.exhausted = a == c.window;
            c.window = a;
        }
        c.exhausted
    })
    .unwrap_or(false);
    if over {
        EXHAUSTED_HOOK.with(|h| {
            if let Some(f) = h.get() {
                f()
            }
        });
    }
}

thread_local! {
    static EXHAUSTED_HOOK: Cell<Option<fn()>> = const { Cell::new(None) };
}

/// Installs a function called once when the poll budget is exceeded.
pub fn on_exhausted(f: fn()) {
    EXHAUSTED_HOOK.with(|h| h.set(Some(f)));
}

pub(crate) fn next_task_id() -> u64 {
    NEXT_TASK.with(|n| {
        let v = n.get();
        n.set(v + 1);
        if domain() != 0 {
            let _d = AsSimulator::new();
            OURS.with(|o| o.borrow_mut().insert(v));
        }
        v
    })
}

/// Time of the next pending simulator event.
pub(crate) fn next_event() -> Option<u64> {
    with(|c| c.heap.peek().map(|r| r.0.at)).flatten()
}

/// Advances the clock (never backwards).
pub(crate) fn advance_to(t: u64) {
    NOW.with(|n| {
        if t > n.get() {
            n.set(t)
        }
    });
}

/// For intercepted blocking sleeps.
pub fn advance_by(d: u64) {
    NOW.with(|n| n.set(n.get().saturating_add(d)));
}

/// Fires everything due.
pub(crate) fn fire_due() {
    loop {
        let mut wakers: Vec<Waker> = Vec::new();
        let more = with(|c| {
            let now = now();
            let due = matches!(c.heap.peek(), Some(Reverse(t)) if t.at <= now);
            if !due {
                return false;
            }
            let Reverse(t) = c.heap.pop().unwrap();
            match t.ev {
                Event::Waker(w) => wakers.push(w),
                Event::Read(conn, side) => c.net.on_arrival(conn, side, now, &mut wakers),
                Event::Accept(conn) => {
                    let refused = c.net.on_syn(conn, &mut wakers);
                    let lat = c.knobs.base_latency;
                    if refused {
                        c.net.conns[conn].refused = true;
                    }
                    c.push(now + lat, Event::Connected(conn));
                }
                Event::Connected(conn) => c.net.on_connected(conn, &mut wakers),
            }
            true
        })
        .unwrap_or(false);
        for w in wakers {
            w.wake();
        }
        if !more {
            return;
        }
    }
}

/// Deterministic random bytes (stands in for the operating system's entropy).
pub fn fill_random(buf: &mut [u8]) {
    with(|c| {
        for chunk in buf.chunks_mut(8) {
            let v = c.entropy.next().to_le_bytes();
            chunk.copy_from_slice(&v[..chunk.len()]);
        }
    });
}

/// Delivers an interrupt signal to the simulated process.
pub fn interrupt() {
    let g = crate::signal::registry::globals();
    g.record_event(2);
    g.broadcast();
}

/// Sleep with nanosecond resolution on the simulated clock.
pub fn sleep_until(at: u64) -> Sleep {
    Sleep { at, armed: None }
}

pub fn sleep(d: u64) -> Sleep {
    sleep_until(now().saturating_add(d))
}

pub struct Sleep {
    at: u64,
    armed: Option<Waker>,
}

impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if now() >= self.at {
            return Poll::Ready(());
        }
        // one entry is enough for as long as it wakes the same task
        if !matches!(&self.armed, Some(w) if w.will_wake(cx.waker())) {
            let (at, w) = (self.at, cx.waker().clone());
            self.armed = Some(w.clone());
            with(|c| c.push(at, Event::Waker(w)));
        }
        Poll::Pending
    }
}

/// Takes over the main future of a program.
pub type MainHook = Box<dyn FnOnce(Pin<Box<dyn Future<Output = ()>>>)>;

thread_local! {
    static MAIN: RefCell<Option<MainHook>> = const { RefCell::new(None) };
}

/// The next `Runtime::block_on` of this thread hands its future to `hook`.
pub fn on_main(hook: MainHook) {
    MAIN.with(|m| *m.borrow_mut() = Some(hook));
}

pub(crate) fn take_main() -> Option<MainHook> {
    MAIN.try_with(|m| m.borrow_mut().take()).ok().flatten()
}
