//! Runs many simulated executions, each in a process of its own, and reports.
use crate::exec::{self, Shared, World, W};
use crate::gen;
use crate::oracle::{self, Kind, V};
use crate::plan::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Instant;
use tokio::sim::{Rng, Source};

// ------------------------------------------------------------------ one execution

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Job {
    pub plan: Plan,
    pub source: Src,
    pub verbose: bool,
    pub record: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Src {
    Seeded,
    Replay(Vec<(u64, u32)>),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub violations: Vec<V>,
    pub harness_error: Option<String>,
    pub panics: Vec<String>,
    pub sched_hash: u64,
    pub history_hash: u64,
    pub sim_ns: u64,
    pub polls: u64,
    pub switches: u64,
    pub decisions: u64,
    pub nonzero: Vec<u64>,
    pub asked: Vec<u64>,
    pub max_ready: usize,
    pub counts: BTreeMap<String, u64>,
    pub recorded: Vec<(u64, u32)>,
    pub events: Vec<String>,
    pub conns: u64,
    pub accepted: u64,
    pub msgs: u64,
    pub delivered: u64,
    pub answers: u64,
    pub probes: BTreeMap<String, u64>,
    /// Of the process that ran it.
    #[serde(default)]
    pub cpu_ms: u64,
    #[serde(default)]
    pub rss_mb: u64,
}

pub static PIPE: AtomicI32 = AtomicI32::new(-1);
static LAST: AtomicU64 = AtomicU64::new(0);
static STRIKES: AtomicU64 = AtomicU64::new(0);
pub static WORLD: OnceLock<W> = OnceLock::new();
static PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

/// Every half second of processor time: has the current poll been running for too long?
/// The processor time of this execution is used up.
extern "C" fn on_cpu(_: libc::c_int) {
    let m: &[u8] = if exec::HARNESS.load(Ordering::Relaxed) { b"SLOW" } else { b"LONG" };
    unsafe {
        libc::write(PIPE.load(Ordering::Relaxed), m.as_ptr() as *const _, m.len());
        libc::_exit(77);
    }
}

extern "C" fn on_tick(_: libc::c_int) {
    if exec::HARNESS.load(Ordering::Relaxed) {
        STRIKES.store(0, Ordering::Relaxed);
        return;
    }
    let p = tokio::sim::POLLS.load(Ordering::Relaxed);
    if p == LAST.swap(p, Ordering::Relaxed) {
        if STRIKES.fetch_add(1, Ordering::Relaxed) >= 6 {
            unsafe {
                let m = b"HANG";
                libc::write(PIPE.load(Ordering::Relaxed), m.as_ptr() as *const _, m.len());
                libc::_exit(77);
            }
        }
    } else {
        STRIKES.store(0, Ordering::Relaxed);
    }
}

fn exhausted() {
    let w = WORLD.get().expect("world").clone();
    let (stats, rec) = (tokio::sim::stats(), tokio::sim::recorded());
    let t = tokio::sim::now();
    let o = w.with(|w| {
        let busy = stats.polls % tokio::sim::IDLE_WINDOW == 0 || stats.polls / 1000 > tokio::sim::net::activity();
        let mut o = outcome(w, stats, rec, t);
        if busy {
            o.violations = vec![V {
                kind: Kind::Hang,
                text: format!("the broker kept its processor busy without end ({} task polls)", o.polls),
            }];
        } else {
            // traffic kept flowing: the plan was larger than a run may be
            o.counts.insert("runs_cut_short".into(), 1);
        }
        o
    });
    send(&o);
    unsafe { libc::_exit(0) }
}

pub fn send(o: &Outcome) {
    let s = serde_json::to_vec(o).expect("json");
    let fd = PIPE.load(Ordering::Relaxed);
    let mut p = 0;
    while p < s.len() {
        let n = unsafe { libc::write(fd, s[p..].as_ptr() as *const _, s.len() - p) };
        if n <= 0 {
            break;
        }
        p += n as usize;
    }
}

fn fnv(h: &mut u64, b: &[u8]) {
    for x in b {
        *h = (*h ^ *x as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
}

pub fn outcome(w: &World, stats: tokio::sim::Stats, recorded: Vec<(u64, u32)>, sim_ns: u64) -> Outcome {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut accepted = 0;
    let mut delivered = 0;
    let mut answers = 0;
    for c in &w.conns {
        for r in &c.recv {
            fnv(&mut h, &r.seq.to_le_bytes());
            fnv(&mut h, &r.t.to_le_bytes());
            match &r.pkt {
                crate::mqtt::In::Publish { .. } => delivered += 1,
                crate::mqtt::In::ConnAck { code: 0, .. } => accepted += 1,
                _ => answers += 1,
            }
            fnv(&mut h, r.pkt.short().as_bytes());
        }
        if let Some(e) = &c.eof {
            fnv(&mut h, &e.0.to_le_bytes());
            fnv(&mut h, &e.1.to_le_bytes());
        }
    }
    for e in &w.startup {
        fnv(&mut h, e.as_bytes());
    }
    let mut counts: BTreeMap<String, u64> = w.counts.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    for (k, v) in [
        ("net.short_reads", stats.short_reads),
        ("net.short_writes", stats.short_writes),
        ("net.writes_blocked_by_full_buffer", stats.write_blocked),
        ("net.delayed_segments", stats.delayed_segments),
        ("net.resets", stats.resets),
        ("net.fins", stats.fins),
        ("net.bytes_lost_in_resets", stats.lost_on_reset),
        ("net.accept_errors", stats.accept_errors),
        ("net.socket_errors", stats.socket_errors),
        ("net.one_way_partitions", stats.holds),
        ("clock.steps", stats.clock_steps),
        ("sched.spurious_yields", stats.nonzero[1]),
        ("sched.slow_polls", stats.nonzero[7]),
        ("sched.reordered_choices", stats.nonzero[0]),
        ("sched.select_start_branches", stats.nonzero[2]),
    ] {
        if v > 0 {
            *counts.entry(k.to_string()).or_insert(0) += v;
        }
    }
    Outcome {
        violations: Vec::new(),
        harness_error: None,
        panics: PANICS
            .lock()
            .map(|p| p.iter().map(|(l, m)| format!("{}: {}", l, m)).take(20).collect())
            .unwrap_or_default(),
        sched_hash: stats.sched_hash,
        history_hash: h,
        sim_ns,
        polls: stats.polls,
        switches: stats.switches,
        decisions: stats.decisions,
        nonzero: stats.nonzero.to_vec(),
        asked: stats.asked.to_vec(),
        max_ready: stats.max_ready,
        counts,
        recorded,
        events: w.events.clone(),
        conns: w.conns.len() as u64,
        accepted,
        msgs: w.msgs.len() as u64,
        delivered,
        answers,
        probes: BTreeMap::new(),
        cpu_ms: 0,
        rss_mb: 0,
    }
}

struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // format everything, as a real logger does
        let s = format!("{}", r.args());
        std::hint::black_box(s.len());
        if crate::leak::on() {
            let d = tokio::sim::set_domain(0);
            crate::leak::out("the log", s.as_bytes());
            tokio::sim::set_domain(d);
        }
    }
    fn flush(&self) {}
}

pub fn phc(pass: &str, user: &str) -> String {
    use argon2::password_hash::{PasswordHasher, SaltString};
    let mut rng = Rng::new(user.len() as u64 ^ user.bytes().fold(7u64, |a, b| a.wrapping_mul(31) + b as u64));
    let mut salt = [0u8; 16];
    for b in salt.iter_mut() {
        *b = rng.next() as u8;
    }
    let salt = SaltString::b64_encode(&salt).expect("salt");
    // the tool writes argon2id; entries may have other parameters
    let (alg, m, t, len) = match rng.below(12) {
        0 => (argon2::Algorithm::Argon2i, 8, 1, None),
        1 => (argon2::Algorithm::Argon2d, 8, 1, None),
        2 => (argon2::Algorithm::Argon2id, 16, 2, None),
        3 => (argon2::Algorithm::Argon2id, 8, 1, Some(16)),
        _ => (argon2::Algorithm::Argon2id, 8, 1, None),
    };
    let a = argon2::Argon2::new(alg, argon2::Version::V0x13, argon2::Params::new(m, t, 1, len).expect("params"));
    a.hash_password(pass.as_bytes(), &salt).expect("hash").to_string()
}

pub fn write_config(dir: &Path, plan: &Plan) -> String {
    std::fs::create_dir_all(dir).expect("scratch");
    let mut passwd = String::new();
    for (u, p) in &plan.users {
        passwd.push_str(&format!("{}:{}\n", u, phc(p, u)));
    }
    for (i, l) in plan.useless.iter().enumerate() {
        if i % 2 == 0 {
            passwd.insert_str(0, &format!("{}\n", l));
        } else {
            passwd.push_str(&format!("{}\n", l));
        }
    }
    if plan.no_final_newline {
        passwd.pop();
    }
    if let Some(f) = &plan.passwd_file {
        passwd = f.clone();
    }
    let cf = dir.join("ratelmq.toml");
    for (k, _) in std::env::vars_os() {
        if k.to_string_lossy().to_uppercase().starts_with("RATELMQ_") {
            std::env::remove_var(&k);
        }
    }
    if let Some(s) = &plan.setup {
        let here = |t: &str| t.replace("@DIR@", &dir.display().to_string());
        for i in 0..2 {
            let lines: String = crate::setup::users(i).iter().map(|(u, p)| format!("{}:{}\n", u, phc(p, u))).collect();
            std::fs::write(dir.join(format!("passwd{}", i)), lines).expect("scratch");
        }
        for e in std::fs::read_dir(dir).expect("scratch").flatten() {
            if !e.file_name().to_string_lossy().starts_with("passwd") {
                let _ = std::fs::remove_file(e.path());
            }
        }
        if s.program.is_some() {
            return String::new();
        }
        let cf = dir.join(&s.name);
        if let Some(f) = &s.file {
            std::fs::write(&cf, here(f)).expect("scratch");
        }
        for (k, v) in &s.env {
            std::env::set_var(k, here(v));
        }
        return cf.display().to_string();
    }
    let pf = dir.join("passwd");
    std::fs::write(&pf, passwd).expect("scratch");
    let ls: Vec<String> = (0..plan.listeners).map(|i| format!("\"{}\"", exec::addr(i))).collect();
    let cfg = format!(
        "[mqtt]\nlisteners_tcp = [{}]\n\n[authentication]\npassword_file = \"{}\"\n",
        ls.join(", "),
        pf.display()
    );
    std::fs::write(&cf, cfg).expect("scratch");
    cf.display().to_string()
}

/// Limits of one execution, and what notices that it runs away.
pub fn guard() {
    unsafe {
        let lim = |r, v, max| {
            let l = libc::rlimit { rlim_cur: v, rlim_max: max };
            libc::setrlimit(r, &l);
        };
        lim(libc::RLIMIT_CPU, 120, 130);
        lim(libc::RLIMIT_AS, 3 << 30, 3 << 30);
        lim(libc::RLIMIT_CORE, 0, 0);
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_cpu as usize;
        libc::sigaction(libc::SIGXCPU, &sa, std::ptr::null_mut());
        sa.sa_sigaction = on_tick as usize;
        sa.sa_flags = libc::SA_RESTART;
        libc::sigaction(libc::SIGPROF, &sa, std::ptr::null_mut());
        let tv = libc::timeval { tv_sec: 0, tv_usec: 500_000 };
        let it = libc::itimerval { it_interval: tv, it_value: tv };
        libc::setitimer(libc::ITIMER_PROF, &it, std::ptr::null_mut());
    }
}

pub fn watch_panics() {
    std::panic::set_hook(Box::new(|info| {
        let d = tokio::sim::set_domain(0);
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if let Ok(mut p) = PANICS.lock() {
            p.push((l, m));
        }
        tokio::sim::set_domain(d);
    }));
}

pub fn pipe(fd: i32) {
    PIPE.store(fd, Ordering::Relaxed);
}

/// Puts this thread under the simulator.
pub fn enter(job: &Job) -> W {
    let w: W = Arc::new(Shared { w: Mutex::new(World::default()), n: tokio::sync::Notify::new() });
    let _ = WORLD.set(w.clone());
    w.with(|w| w.verbose = job.verbose);
    let source = match &job.source {
        Src::Seeded => Source::Seeded(job.plan.seed),
        Src::Replay(v) => Source::Replay(v.iter().copied().collect()),
    };
    tokio::sim::install(source, job.plan.knobs.to_knobs(), job.plan.entropy);
    tokio::sim::on_exhausted(exhausted);
    w
}

/// In the child process: runs the job and sends the outcome. Does not return.
fn child(job: &Job, dir: &Path, fd: i32) -> ! {
    PIPE.store(fd, Ordering::Relaxed);
    if job.plan.setup.as_ref().is_some_and(|s| s.program.is_some()) {
        crate::program::child(job, dir);
    }
    guard();
    let cfg = write_config(dir, &job.plan);
    let mut printed = -1;
    if !job.plan.secrets.is_empty() {
        let hashes: Vec<String> = job
            .plan
            .users
            .iter()
            .map(|(u, p)| phc(p, u).rsplit('$').next().unwrap_or("").to_string())
            .collect();
        crate::leak::watch(&job.plan.secrets, &hashes);
        if !job.verbose {
            printed = crate::leak::capture();
        }
    }
    watch_panics();
    let job = job.clone();
    // a fresh thread, so that the hash seeds it draws come from this execution's entropy
    let th = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let w = enter(&job);
            let level = match job.plan.log.as_str() {
                "error" => log::LevelFilter::Error,
                "warn" => log::LevelFilter::Warn,
                "info" => log::LevelFilter::Info,
                "debug" => log::LevelFilter::Debug,
                "trace" => log::LevelFilter::Trace,
                _ => log::LevelFilter::Off,
            };
            log::set_max_level(level);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                exec::execute(&job.plan, Box::pin(async move { ratelmq::run(&cfg).await }), w.clone())
            }));
            let sim_ns = tokio::sim::now();
            let (stats, rec) = tokio::sim::uninstall();
            log::set_max_level(log::LevelFilter::Off);
            let mut o = w.with(|w| {
                let mut o = outcome(w, stats, if job.record { rec } else { Vec::new() }, sim_ns);
                o.violations = oracle::judge(w);
                if crate::leak::on() {
                    if let Ok(p) = PANICS.lock() {
                        p.iter().for_each(|p| crate::leak::out("the text of a panic", p.1.as_bytes()));
                    }
                    crate::leak::out("the standard output", &crate::leak::captured(printed));
                    let (found, bytes, records) = crate::leak::found();
                    o.violations.extend(found.into_iter().map(|text| V { kind: Kind::Leaked, text }));
                    o.counts.insert("leak.bytes_scanned".into(), bytes);
                    o.counts.insert("leak.records_scanned".into(), records);
                }
                o
            });
            if r.is_err() {
                o.harness_error = Some("execution panicked".into());
            }
            if let Some((l, m)) = PANICS
                .lock()
                .map(|p| p.iter().find(|p| p.0.starts_with("src/") && !p.0.starts_with("src/mqtt/transport")).cloned())
                .ok()
                .flatten()
                .filter(|p| {
                    ["src/exec.rs", "src/oracle.rs", "src/plan.rs", "src/driver.rs", "src/mqtt.rs", "src/gen.rs", "src/setup.rs", "src/program.rs"]
                        .iter()
                        .any(|f| p.0.starts_with(f))
                })
            {
                o.harness_error = Some(format!("harness panic at {}: {}", l, m));
            }
            o
        })
        .expect("thread");
    match th.join() {
        Ok(o) => send(&o),
        Err(_) => send(&Outcome { harness_error: Some("simulation thread panicked".into()), ..Outcome::default() }),
    }
    unsafe { libc::_exit(0) }
}

// ------------------------------------------------------------------ a pool of children

struct Running {
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    tag: usize,
    slot: usize,
    began: Instant,
}

pub struct Pool {
    dir: PathBuf,
    max: usize,
    free: Vec<usize>,
    running: Vec<Running>,
}

fn nonblock(fd: i32) {
    unsafe {
        let f = libc::fcntl(fd, libc::F_GETFL);
        libc::fcntl(fd, libc::F_SETFL, f | libc::O_NONBLOCK);
    }
}

impl Pool {
    pub fn new(max: usize) -> Pool {
        let dir = std::env::temp_dir().join(format!("ratelmq-sim-{}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        Pool { dir, max, free: (0..max).rev().collect(), running: Vec::new() }
    }

    pub fn busy(&self) -> usize {
        self.running.len()
    }

    pub fn has_room(&self) -> bool {
        self.running.len() < self.max
    }

    pub fn start(&mut self, tag: usize, job: &Job) {
        let slot = self.free.pop().expect("room");
        let mut fds = [0i32; 2];
        unsafe {
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0, "pipe");
        }
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            unsafe {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            }
            for r in &self.running {
                unsafe {
                    libc::close(r.fd);
                }
            }
            child(job, &self.dir.join(slot.to_string()), fds[1]);
        }
        unsafe {
            libc::close(fds[1]);
        }
        nonblock(fds[0]);
        self.running.push(Running { pid, fd: fds[0], buf: Vec::new(), tag, slot, began: Instant::now() });
    }

    /// Waits for one execution to finish.
    pub fn next(&mut self) -> Option<(usize, Outcome)> {
        loop {
            if self.running.is_empty() {
                return None;
            }
            let mut pf: Vec<libc::pollfd> = self
                .running
                .iter()
                .map(|r| libc::pollfd { fd: r.fd, events: libc::POLLIN, revents: 0 })
                .collect();
            unsafe {
                libc::poll(pf.as_mut_ptr(), pf.len() as libc::nfds_t, 1000);
            }
            let mut done = None;
            for (i, p) in pf.iter().enumerate() {
                if p.revents == 0 {
                    if self.running[i].began.elapsed().as_secs() > 600 {
                        unsafe {
                            libc::kill(self.running[i].pid, libc::SIGKILL);
                        }
                    }
                    continue;
                }
                let mut b = [0u8; 65536];
                loop {
                    let n = unsafe { libc::read(self.running[i].fd, b.as_mut_ptr() as *mut _, b.len()) };
                    if n > 0 {
                        self.running[i].buf.extend_from_slice(&b[..n as usize]);
                    } else {
                        if n == 0 {
                            done = Some(i);
                        }
                        break;
                    }
                }
                if done.is_some() {
                    break;
                }
            }
            let Some(i) = done else { continue };
            let r = self.running.remove(i);
            self.free.push(r.slot);
            let mut st = 0;
            let mut ru: libc::rusage = unsafe { std::mem::zeroed() };
            unsafe {
                libc::close(r.fd);
                libc::wait4(r.pid, &mut st, 0, &mut ru);
            }
            let cpu_ms = ru.ru_utime.tv_sec as u64 * 1000 + ru.ru_utime.tv_usec as u64 / 1000;
            let rss_mb = ru.ru_maxrss as u64 / 1024;
            let hang = |t: &str| Outcome {
                violations: vec![V { kind: Kind::Hang, text: t.to_string() }],
                ..Outcome::default()
            };
            let o = if r.buf.starts_with(b"HANG") {
                hang("a task of the broker ran for seconds of processor time without ever yielding")
            } else if r.buf.starts_with(b"LONG") {
                hang("the broker used two minutes of processor time")
            } else if r.buf.starts_with(b"SLOW") {
                Outcome { harness_error: Some("the harness used two minutes of processor time".into()), ..Outcome::default() }
            } else if libc::WIFSIGNALED(st) {
                match libc::WTERMSIG(st) {
                    libc::SIGKILL => Outcome {
                        harness_error: Some("child killed (memory or wall clock)".into()),
                        ..Outcome::default()
                    },
                    s => Outcome {
                        violations: vec![V {
                            kind: Kind::RunEnded,
                            text: format!("the broker's process died from signal {} (abort or stack overflow)", s),
                        }],
                        ..Outcome::default()
                    },
                }
            } else {
                match serde_json::from_slice::<Outcome>(&r.buf) {
                    Ok(o) => Outcome { cpu_ms, rss_mb, ..o },
                    Err(e) => Outcome {
                        harness_error: Some(format!("no result from child (status {}): {}", st, e)),
                        ..Outcome::default()
                    },
                }
            };
            return Some((r.tag, o));
        }
    }

    /// Runs all jobs and returns their outcomes in order.
    pub fn all(&mut self, jobs: &[Job]) -> Vec<Outcome> {
        let mut out: Vec<Option<Outcome>> = vec![None; jobs.len()];
        let mut k = 0;
        while k < jobs.len() || self.busy() > 0 {
            while k < jobs.len() && self.has_room() {
                self.start(k, &jobs[k]);
                k += 1;
            }
            if let Some((t, o)) = self.next() {
                out[t] = Some(o);
            }
        }
        out.into_iter().map(|o| o.expect("outcome")).collect()
    }

    fn kill_all(&mut self) {
        for r in &self.running {
            unsafe {
                libc::kill(r.pid, libc::SIGKILL);
            }
        }
        while self.next().is_some() {}
    }
}

impl Drop for Pool {
    fn drop(&mut self) {
        self.kill_all();
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

// ------------------------------------------------------------------ minimisation

fn hit(o: &Outcome, prop: &str, kind: Kind) -> bool {
    o.harness_error.is_none() && o.violations.iter().any(|v| v.kind == kind) && oracle::relevant(prop, kind)
}

type Edit = Box<dyn Fn(&mut Plan)>;

/// Ranges to try to drop from a list of `m`: halves, quarters, ..., single entries.
fn ranges(m: usize) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    let mut size = m / 2;
    while size >= 1 {
        let mut a = 0;
        while a < m {
            out.push((a, (a + size).min(m)));
            a += size;
        }
        size /= 2;
        if out.len() > 4000 {
            break;
        }
    }
    out
}

/// Ways to make the plan simpler, the most radical first.
fn simpler(p: &Plan) -> Vec<Edit> {
    let mut out: Vec<Edit> = Vec::new();
    let n = p.phases.len();
    // whole phases
    if n > 1 {
        for i in 0..n {
            if p.interrupt.as_ref().is_some_and(|x| x.phase == i) {
                continue;
            }
            out.push(Box::new(move |q| {
                q.phases.remove(i);
                if let Some(x) = &mut q.interrupt {
                    if x.phase > i {
                        x.phase -= 1;
                    }
                }
            }));
        }
    }
    // whole slots
    let slots: BTreeSet<usize> = p.phases.iter().flat_map(|f| f.scripts.iter().map(|s| s.slot)).collect();
    let slots: Vec<usize> = slots.into_iter().collect();
    if slots.len() > 1 {
        for (a, b) in ranges(slots.len()) {
            let gone: BTreeSet<usize> = slots[a..b].iter().copied().collect();
            out.push(Box::new(move |q| {
                for f in &mut q.phases {
                    f.scripts.retain(|x| !gone.contains(&x.slot));
                }
            }));
        }
    }
    // scripts
    for i in 0..n {
        let m = p.phases[i].scripts.len();
        let rs = if m == 1 { vec![(0, 1)] } else { ranges(m) };
        for (a, b) in rs {
            out.push(Box::new(move |q| {
                q.phases[i].scripts.drain(a..b);
            }));
        }
    }
    // operations
    for i in 0..n {
        for j in 0..p.phases[i].scripts.len() {
            let m = p.phases[i].scripts[j].ops.len();
            let rs = if m == 1 { vec![(0, 1)] } else { ranges(m) };
            for (a, b) in rs {
                out.push(Box::new(move |q| {
                    q.phases[i].scripts[j].ops.drain(a..b);
                }));
            }
        }
    }
    // arguments
    for i in 0..n {
        for j in 0..p.phases[i].scripts.len() {
            if p.phases[i].scripts[j].chunk != Chunk::Whole {
                out.push(Box::new(move |q| q.phases[i].scripts[j].chunk = Chunk::Whole));
            }
            for k in 0..p.phases[i].scripts[j].ops.len().min(300) {
                let mut put = |f: Box<dyn Fn(&mut Op)>| {
                    out.push(Box::new(move |q: &mut Plan| f(&mut q.phases[i].scripts[j].ops[k])));
                };
                match &p.phases[i].scripts[j].ops[k] {
                    Op::Pub { topics, n, size, size2, .. } => {
                        let num = |f: fn(&mut Op) -> &mut u32, v: u32| -> Box<dyn Fn(&mut Op)> { Box::new(move |o| *f(o) = v) };
                        fn fn_n(o: &mut Op) -> &mut u32 {
                            match o {
                                Op::Pub { n, .. } => n,
                                _ => unreachable!(),
                            }
                        }
                        fn fn_size(o: &mut Op) -> &mut u32 {
                            match o {
                                Op::Pub { size, .. } => size,
                                _ => unreachable!(),
                            }
                        }
                        fn fn_size2(o: &mut Op) -> &mut u32 {
                            match o {
                                Op::Pub { size2, .. } => size2,
                                _ => unreachable!(),
                            }
                        }
                        if *n > 1 {
                            put(num(fn_n, 1));
                            put(num(fn_n, n / 2));
                            put(num(fn_n, n - n / 8));
                            put(num(fn_n, n - 1));
                        }
                        if *size2 > 0 {
                            put(num(fn_size2, 0));
                        }
                        if *size > 20 {
                            put(num(fn_size, 20));
                            put(num(fn_size, size / 2));
                        }
                        if topics.len() > 1 {
                            for (a, b) in ranges(topics.len()) {
                                put(Box::new(move |o| {
                                    if let Op::Pub { topics, .. } = o {
                                        topics.drain(a..b);
                                    }
                                }));
                            }
                        }
                    }
                    o @ (Op::Sub { .. } | Op::Unsub { .. }) => {
                        let m = match o {
                            Op::Sub { filters, .. } => filters.len(),
                            Op::Unsub { filters, .. } => filters.len(),
                            _ => 0,
                        };
                        if m < 2 {
                            continue;
                        }
                        for (a, b) in ranges(m) {
                            put(Box::new(move |o| match o {
                                Op::Sub { filters, .. } => {
                                    filters.drain(a..b);
                                }
                                Op::Unsub { filters, .. } => {
                                    filters.drain(a..b);
                                }
                                _ => {}
                            }));
                        }
                    }
                    Op::Connect { clean, keep_alive, will, wait, .. } => {
                        if will.is_some() {
                            put(Box::new(|o| {
                                if let Op::Connect { will, .. } = o {
                                    *will = None;
                                }
                            }));
                        }
                        if *keep_alive > 0 {
                            put(Box::new(|o| {
                                if let Op::Connect { keep_alive, .. } = o {
                                    *keep_alive = 0;
                                }
                            }));
                        }
                        if !*wait {
                            put(Box::new(|o| {
                                if let Op::Connect { wait, .. } = o {
                                    *wait = true;
                                }
                            }));
                        }
                        if !*clean {
                            put(Box::new(|o| {
                                if let Op::Connect { clean, .. } = o {
                                    *clean = true;
                                }
                            }));
                        }
                    }
                    Op::Sleep { us } if *us > 1000 => {
                        let v = us / 10;
                        put(Box::new(move |o| *o = Op::Sleep { us: v }));
                    }
                    _ => {}
                }
            }
        }
    }
    if p.log != "off" {
        out.push(Box::new(|q| q.log = "off".into()));
    }
    let mut knob = |f: fn(&mut KnobsS)| {
        let mut k = p.knobs.clone();
        f(&mut k);
        if k != p.knobs {
            out.push(Box::new(move |q| f(&mut q.knobs)));
        }
    };
    knob(|k| *k = KnobsS { sock_buf: k.sock_buf, ..KnobsS::default() });
    knob(|k| k.policy = KnobsS::default().policy);
    knob(|k| k.p_yield = 0);
    knob(|k| k.p_short_read = 0);
    knob(|k| k.p_short_write = 0);
    knob(|k| k.p_latency = 0);
    knob(|k| k.p_slow = 0);
    knob(|k| k.sock_buf = KnobsS::default().sock_buf);
    out
}

struct Mini<'a> {
    pool: &'a mut Pool,
    prop: &'a str,
    kind: Kind,
    budget: usize,
    until: Instant,
    tried: usize,
}

impl<'a> Mini<'a> {
    /// The first of the candidates that still shows the violation.
    fn first(&mut self, n: usize, job: &dyn Fn(usize) -> Job) -> Option<usize> {
        let mut base = 0;
        while base < n {
            if self.tried >= self.budget || Instant::now() > self.until {
                return None;
            }
            let end = (base + self.pool.max).min(n);
            let batch: Vec<Job> = (base..end).map(job).collect();
            self.tried += batch.len();
            let os = self.pool.all(&batch);
            if let Some(i) = os.iter().position(|o| hit(o, self.prop, self.kind)) {
                return Some(base + i);
            }
            base = end;
        }
        None
    }

    fn run(&mut self, plan: Plan) -> (Plan, Src) {
        let job = |p: &Plan, s: &Src| Job { plan: p.clone(), source: s.clone(), verbose: false, record: false };
        let mut plan = plan;
        let benign = Src::Replay(Vec::new());
        let mut src = Src::Seeded;
        if self.first(1, &|_| job(&plan, &benign)).is_some() {
            src = benign.clone();
        }
        // goes on where the last simplification was found, until a whole round finds none
        let mut from = 0;
        loop {
            let edits = simpler(&plan);
            let m = edits.len();
            if m == 0 {
                break;
            }
            from %= m;
            let make = |i: usize| {
                let mut q = plan.clone();
                edits[(from + i) % m](&mut q);
                q
            };
            let Some(i) = self.first(m, &|i| job(&make(i), &src)) else { break };
            let q = make(i);
            from = (from + i) % m;
            plan = q;
            if matches!(src, Src::Seeded) && self.tried % 5 == 0 && self.first(1, &|_| job(&plan, &benign)).is_some() {
                src = benign.clone();
            }
        }
        if matches!(src, Src::Seeded) {
            if self.first(1, &|_| job(&plan, &benign)).is_some() {
                src = benign;
            } else {
                // turn the seed into its explicit decisions, then drop as many as possible
                let o = self.pool.all(&[Job { plan: plan.clone(), source: Src::Seeded, verbose: false, record: true }]);
                let mut d = o[0].recorded.clone();
                let exact = self.pool.all(&[job(&plan, &Src::Replay(d.clone()))]);
                if hit(&exact[0], self.prop, self.kind) {
                    let mut size = d.len().div_ceil(2).max(1);
                    loop {
                        let without = |i: usize| {
                            let mut x = d.clone();
                            x.drain(i * size..((i + 1) * size).min(d.len()));
                            x
                        };
                        match self.first(d.len().div_ceil(size), &|i| job(&plan, &Src::Replay(without(i)))) {
                            Some(i) => d = without(i),
                            None => {
                                if size <= 1 || self.tried >= self.budget || Instant::now() > self.until {
                                    break;
                                }
                                size = size / 2;
                            }
                        }
                        if d.is_empty() {
                            break;
                        }
                        size = size.min(d.len()).max(1);
                    }
                    src = Src::Replay(d);
                }
            }
        }
        (plan, src)
    }
}

// ------------------------------------------------------------------ checks

#[derive(Serialize, Deserialize)]
pub struct ReplayFile {
    pub property: String,
    pub kind: Kind,
    pub text: String,
    pub plan: Plan,
    pub source: Src,
    pub verif_seed: u64,
    pub original_seed: u64,
    pub sched_hash: u64,
    pub history_hash: u64,
    pub minimise_runs: usize,
    pub trace: Vec<String>,
}

fn mix(a: u64, b: u64) -> u64 {
    Rng::new(a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15)).next() & 0x7FFF_FFFF_FFFF_FFFF
}

pub fn run_seed(base: u64, prop: &str, i: u64) -> u64 {
    let p = prop.bytes().fold(11u64, |a, b| a.wrapping_mul(257).wrapping_add(b as u64));
    mix(mix(base, p), i)
}

pub fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

#[derive(Default)]
struct Totals {
    runs: u64,
    sim_ns: u128,
    polls: u64,
    switches: u64,
    decisions: u64,
    conns: u64,
    accepted: u64,
    msgs: u64,
    delivered: u64,
    answers: u64,
    max_ready: usize,
    counts: BTreeMap<String, u64>,
    scenarios: BTreeMap<String, u64>,
    interleavings: BTreeSet<u64>,
    histories: BTreeSet<u64>,
    nontrivial: BTreeSet<(u64, u64)>,
    panics: BTreeMap<String, u64>,
    policies: BTreeMap<String, u64>,
    max_polls: u64,
    max_cpu: (u64, String),
    max_rss: (u64, String),
}

impl Totals {
    fn add(&mut self, p: &Plan, o: &Outcome) {
        self.runs += 1;
        self.sim_ns += o.sim_ns as u128;
        self.polls += o.polls;
        self.max_polls = self.max_polls.max(o.polls);
        self.max_cpu = self.max_cpu.clone().max((o.cpu_ms, p.scenario.clone()));
        self.max_rss = self.max_rss.clone().max((o.rss_mb, p.scenario.clone()));
        self.switches += o.switches;
        self.decisions += o.decisions;
        self.conns += o.conns;
        self.accepted += o.accepted;
        self.msgs += o.msgs;
        self.delivered += o.delivered;
        self.answers += o.answers;
        self.max_ready = self.max_ready.max(o.max_ready);
        for (k, v) in &o.counts {
            *self.counts.entry(k.clone()).or_insert(0) += v;
        }
        *self.scenarios.entry(p.scenario.clone()).or_insert(0) += 1;
        *self.policies.entry(p.knobs.policy.clone()).or_insert(0) += 1;
        self.interleavings.insert(o.sched_hash);
        self.histories.insert(o.history_hash);
        let started = ["listeners_reached", "startups_refused"].iter().any(|k| o.counts.contains_key(*k));
        if (o.accepted >= 1 && o.delivered + o.answers >= 2 && o.switches >= 20) || (p.setup.is_some() && started) {
            self.nontrivial.insert((o.sched_hash, o.history_hash));
        }
        for x in &o.panics {
            let k: String = x.chars().take(120).collect();
            *self.panics.entry(k).or_insert(0) += 1;
        }
    }
}

fn known(prop: &str, id: &str) -> Option<String> {
    let t = std::fs::read_to_string(root().join("KNOWN_FINDINGS.txt")).ok()?;
    let head = format!("known: property={} id={} ", prop, id);
    t.lines().find_map(|l| l.strip_prefix(&head).map(|s| s.to_string()))
}

/// Runs per property: (quick, thorough).
fn budget(prop: &str) -> (u64, u64) {
    let quick = match prop {
        // the longest runs
        "B25" => 5_000,
        "B26" => 3_000,
        // a process each
        "B30" => 6_000,
        _ => 15_000,
    };
    (quick, quick * 40)
}

fn check(prop: &str, args: &Args) -> i32 {
    let began = Instant::now();
    let base = args.seed;
    let thorough = args.tier == "thorough";
    let (q, t) = budget(prop);
    let runs = args.runs.unwrap_or(if thorough { t } else { q });
    let cap = args.seconds.unwrap_or(if thorough { 3600 } else { 240 });
    let mut pool = Pool::new(args.jobs);
    let mut tot = Totals::default();
    let mut violations: Vec<(u64, Plan, V)> = Vec::new();
    let mut next = 0u64;
    let mut harness: Option<String> = None;
    let mut plans: BTreeMap<usize, Plan> = BTreeMap::new();
    let mut samples: Vec<(u64, Plan, Outcome)> = Vec::new();
    println!("check {} tier={} VERIF_SEED={} runs={}", prop, args.tier, base, runs);
    loop {
        let stop = !violations.is_empty() || harness.is_some() || began.elapsed().as_secs() > cap;
        while !stop && next < runs && pool.has_room() {
            let seed = run_seed(base, prop, args.start + next);
            let plan = gen::generate(prop, seed);
            pool.start(next as usize, &Job { plan: plan.clone(), source: Src::Seeded, verbose: false, record: false });
            plans.insert(next as usize, plan);
            next += 1;
        }
        let Some((tag, o)) = pool.next() else { break };
        let plan = plans.remove(&tag).expect("plan");
        let seed = run_seed(base, prop, args.start + tag as u64);
        if let Some(e) = &o.harness_error {
            harness.get_or_insert(format!("seed {}: {} {:?}", seed, e, o.panics));
            continue;
        }
        tot.add(&plan, &o);
        if let Some(v) = o.violations.iter().find(|v| oracle::relevant(prop, v.kind)) {
            violations.push((tag as u64, plan.clone(), v.clone()));
        }
        if samples.len() < 3 && o.delivered > 0 && plan.ops() < 40 {
            samples.push((seed, plan, o));
        }
    }
    if let (Some(e), true) = (harness, violations.is_empty()) {
        eprintln!("harness error: {}", e);
        return 2;
    }
    violations.sort_by_key(|v| v.0);
    let mut code = 0;
    let mut found = 0;
    let mut known_hits: Vec<String> = Vec::new();
    // the recorded defect, checked on its own fixed input
    if prop == "B17" && violations.is_empty() {
        let plan = gen::G::stall_known(base);
        let o = pool.all(&[Job { plan: plan.clone(), source: Src::Replay(Vec::new()), verbose: false, record: false }]);
        tot.add(&plan, &o[0]);
        if let Some(v) = o[0].violations.iter().find(|v| oracle::relevant(prop, v.kind)) {
            match known(prop, "stalled-reader-full-queue") {
                Some(text) => {
                    println!("KNOWN-FINDING: property={} {}", prop, text);
                    known_hits.push(text);
                }
                None => violations.push((u64::MAX, plan, v.clone())),
            }
        }
    }
    if let Some((idx, plan, v)) = violations.first().cloned() {
        found = violations.len();
        let seed = if idx == u64::MAX { base } else { run_seed(base, prop, args.start + idx) };
        println!("violation in run {} (seed {}): {:?}: {}", idx, seed, v.kind, v.text);
        let path = report(prop, &mut pool, base, seed, plan, &v, args);
        println!("VIOLATION property={} replay={}", prop, path.display());
        code = 1;
    }
    let wall = began.elapsed().as_secs_f64();
    write_evidence(prop, args, &tot, &samples, found, &known_hits, wall);
    println!(
        "{}: {} runs, {} distinct interleavings, {} distinct histories, {:.0} s simulated, {:.1} s wall, {} violating runs; longest run {} polls",
        prop,
        tot.runs,
        tot.interleavings.len(),
        tot.histories.len(),
        tot.sim_ns as f64 / 1e9,
        wall,
        found,
        tot.max_polls
    );
    println!(
        "heaviest runs: {} ms of processor time ({}), {} MB ({})",
        tot.max_cpu.0, tot.max_cpu.1, tot.max_rss.0, tot.max_rss.1
    );
    code
}

fn report(prop: &str, pool: &mut Pool, base: u64, seed: u64, plan: Plan, v: &V, args: &Args) -> PathBuf {
    let secs = args.shrink;
    let slow = matches!(v.kind, Kind::Hang);
    let mut m = Mini {
        pool,
        prop,
        kind: v.kind,
        budget: if slow { 200 } else { 3000 },
        until: Instant::now() + std::time::Duration::from_secs(secs),
        tried: 0,
    };
    let fixed = plan.scenario.starts_with("stalled reader with a full");
    let (plan2, src2) = if fixed { (plan.clone(), Src::Replay(Vec::new())) } else { m.run(plan.clone()) };
    let tried = m.tried;
    let job = |p: &Plan, s: &Src| Job { plan: p.clone(), source: s.clone(), verbose: true, record: false };
    // the minimised file must reproduce exactly
    let two = pool.all(&[job(&plan2, &src2), job(&plan2, &src2)]);
    let same = two[0].sched_hash == two[1].sched_hash && two[0].history_hash == two[1].history_hash;
    let (plan2, src2, o) = if hit(&two[0], prop, v.kind) && hit(&two[1], prop, v.kind) && same {
        (plan2, src2, two.into_iter().next().unwrap())
    } else {
        let o = pool.all(&[job(&plan, &Src::Seeded)]);
        (plan, Src::Seeded, o.into_iter().next().unwrap())
    };
    let text = o.violations.iter().find(|x| x.kind == v.kind).map(|x| x.text.clone()).unwrap_or(v.text.clone());
    println!(
        "minimised in {} runs to {} operations, {} non-default decisions: {}",
        tried,
        plan2.ops(),
        match &src2 {
            Src::Seeded => "seeded".to_string(),
            Src::Replay(d) => d.len().to_string(),
        },
        text
    );
    for e in o.events.iter().take(60) {
        println!("  {}", e);
    }
    let f = ReplayFile {
        property: prop.to_string(),
        kind: v.kind,
        text,
        plan: plan2,
        source: src2,
        verif_seed: base,
        original_seed: seed,
        sched_hash: o.sched_hash,
        history_hash: o.history_hash,
        minimise_runs: tried,
        trace: o.events.iter().take(400).cloned().collect(),
    };
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.json", prop, seed));
    std::fs::write(&path, serde_json::to_vec_pretty(&f).expect("json")).expect("replay file");
    path
}

fn replay(path: &str, args: &Args) -> i32 {
    if let Some(f) = std::fs::read(path).ok().and_then(|b| serde_json::from_slice::<crate::pw::PwReplay>(&b).ok()) {
        return crate::pw::replay(Path::new(path), f);
    }
    let f: ReplayFile = match std::fs::read(path).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("cannot read {}: {}", path, e);
            return 2;
        }
    };
    let mut pool = Pool::new(1);
    let o = pool.all(&[Job { plan: f.plan.clone(), source: f.source.clone(), verbose: true, record: false }]);
    let o = &o[0];
    for e in &o.events {
        println!("  {}", e);
    }
    for p in &o.panics {
        println!("  panic: {}", p);
    }
    for v in &o.violations {
        println!("{:?}: {}", v.kind, v.text);
    }
    if let Some(e) = &o.harness_error {
        eprintln!("harness error: {}", e);
        return 2;
    }
    let _ = args;
    if hit(o, &f.property, f.kind) {
        if o.sched_hash == f.sched_hash && o.history_hash == f.history_hash {
            println!("replayed exactly (schedule {:016x}, history {:016x})", o.sched_hash, o.history_hash);
        } else {
            println!("the code has changed since: same violation, another schedule or history");
        }
        println!("VIOLATION property={} replay={}", f.property, path);
        1
    } else {
        println!("the violation does not occur");
        0
    }
}

fn one(prop: &str, seed: u64, verbose: bool) -> i32 {
    let plan = if seed == 0 { gen::G::stall_known(1) } else { gen::generate(prop, seed) };
    if verbose {
        println!("{}", serde_json::to_string(&plan.knobs).unwrap());
        println!("scenario {} log {} listeners {}", plan.scenario, plan.log, plan.listeners);
    }
    let mut pool = Pool::new(1);
    let t = Instant::now();
    let o = pool.all(&[Job { plan, source: Src::Seeded, verbose, record: false }]);
    let o = &o[0];
    for e in &o.events {
        println!("{}", e);
    }
    for p in &o.panics {
        println!("panic: {}", p);
    }
    if let Some(e) = &o.harness_error {
        println!("harness error: {}", e);
    }
    for v in &o.violations {
        println!("{:?}{}: {}", v.kind, if oracle::relevant(prop, v.kind) { "" } else { " (not this property's)" }, v.text);
    }
    println!(
        "polls {} switches {} conns {} accepted {} msgs {} delivered {} answers {} sim {:.3}s wall {:?} hash {:016x} {:016x}",
        o.polls,
        o.switches,
        o.conns,
        o.accepted,
        o.msgs,
        o.delivered,
        o.answers,
        o.sim_ns as f64 / 1e9,
        t.elapsed(),
        o.sched_hash,
        o.history_hash
    );
    println!("{:?}", o.counts);
    0
}

pub const PROPS: [&str; 26] = [
    "B01", "B02", "B03", "B04", "B05", "B06", "B07", "B08", "B09", "B10", "B11", "B12", "B13", "B14", "B15", "B16", "B17",
    "B18", "B19", "B22", "B23", "B24", "B25", "B26", "B27", "B30",
];

/// Development aid: which violations occur where.
fn survey(args: &Args, all: bool) -> i32 {
    let runs = args.runs.unwrap_or(100);
    let mut pool = Pool::new(args.jobs);
    let props: Vec<&str> = match &args.prop {
        Some(p) => vec![p.as_str()],
        None => PROPS.to_vec(),
    };
    for prop in props {
        let began = Instant::now();
        let mut kinds: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
        let mut tot = Totals::default();
        let mut next = 0u64;
        let mut plans: BTreeMap<usize, Plan> = BTreeMap::new();
        let mut slow: Vec<(u64, u64)> = Vec::new();
        loop {
            while next < runs && pool.has_room() {
                let seed = run_seed(args.seed, prop, args.start + next);
                let plan = gen::generate(prop, seed);
                pool.start(next as usize, &Job { plan: plan.clone(), source: Src::Seeded, verbose: false, record: false });
                plans.insert(next as usize, plan);
                next += 1;
            }
            let Some((tag, o)) = pool.next() else { break };
            let plan = plans.remove(&tag).unwrap();
            let seed = run_seed(args.seed, prop, args.start + tag as u64);
            if let Some(e) = &o.harness_error {
                let k = kinds.entry("HARNESS".into()).or_insert((0, seed, format!("{} {:?}", e, o.panics)));
                k.0 += 1;
                continue;
            }
            tot.add(&plan, &o);
            slow.push((o.polls, seed));
            let mut seen = BTreeSet::new();
            for v in &o.violations {
                let rel = oracle::relevant(prop, v.kind);
                if (rel || all) && seen.insert(v.kind) {
                    let name = format!("{:?}{}", v.kind, if rel { "" } else { "~" });
                    let k = kinds.entry(name).or_insert((0, seed, format!("[{}] {}", plan.scenario, v.text)));
                    k.0 += 1;
                }
            }
        }
        slow.sort();
        println!(
            "{} runs={} {:.1}s inter={} hist={} nontriv={} msgs={} deliv={} answers={} sim={:.0}s maxpolls={:?}",
            prop,
            tot.runs,
            began.elapsed().as_secs_f64(),
            tot.interleavings.len(),
            tot.histories.len(),
            tot.nontrivial.len(),
            tot.msgs,
            tot.delivered,
            tot.answers,
            tot.sim_ns as f64 / 1e9,
            slow.last()
        );
        if args.verbose {
            println!("   {:?}", tot.scenarios);
            println!("   {:?}", tot.counts);
            println!("   panics {:?}", tot.panics);
        }
        for (k, (n, seed, text)) in &kinds {
            println!("   {:<24} {:>5}  seed {}  {}", k, n, seed, text);
        }
    }
    0
}

/// Every run twice, in different processes, slots and worker counts.
fn determinism(args: &Args) -> i32 {
    let runs = args.runs.unwrap_or(200);
    let mut bad = 0;
    let props: Vec<&str> = match &args.prop {
        Some(p) => vec![p.as_str()],
        None => PROPS.to_vec(),
    };
    for prop in props {
        let jobs: Vec<Job> = (0..runs)
            .map(|i| Job {
                plan: gen::generate(prop, run_seed(args.seed, prop, args.start + i)),
                source: Src::Seeded,
                verbose: i % 2 == 0,
                record: true,
            })
            .collect();
        let a = { Pool::new(args.jobs).all(&jobs) };
        let mut rev: Vec<Job> = jobs.clone();
        rev.reverse();
        let mut b = { Pool::new(3).all(&rev) };
        b.reverse();
        // and once more from the recorded decisions alone
        let rep: Vec<Job> = jobs
            .iter()
            .zip(&a)
            .map(|(j, o)| Job { source: Src::Replay(o.recorded.clone()), ..j.clone() })
            .collect();
        let c = { Pool::new(args.jobs).all(&rep) };
        let key = |o: &Outcome| {
            (o.sched_hash, o.history_hash, o.sim_ns, o.polls, o.decisions, format!("{:?}", o.violations), o.events.clone())
        };
        for i in 0..jobs.len() {
            if key(&a[i]) != key(&b[i]) || key(&a[i]) != key(&c[i]) {
                bad += 1;
                if bad < 5 {
                    println!("{} seed {} diverges", prop, jobs[i].plan.seed);
                    for (x, y) in a[i].events.iter().zip(&b[i].events) {
                        if x != y {
                            println!("  {}\n  {}", x, y);
                            break;
                        }
                    }
                    for (x, y) in a[i].events.iter().zip(&c[i].events) {
                        if x != y {
                            println!("  {}\n  replay {}", x, y);
                            break;
                        }
                    }
                }
            }
        }
        println!("{}: {} runs executed twice and replayed from their decisions, {} divergences so far", prop, runs, bad);
    }
    if bad > 0 {
        2
    } else {
        0
    }
}

fn write_evidence(
    prop: &str,
    args: &Args,
    t: &Totals,
    samples: &[(u64, Plan, Outcome)],
    found: usize,
    known: &[String],
    wall: f64,
) {
    let faults: BTreeMap<&String, &u64> = t.counts.iter().collect();
    let s: Vec<serde_json::Value> = samples
        .iter()
        .map(|(seed, p, o)| {
            serde_json::json!({
                "seed": seed,
                "scenario": p.scenario,
                "knobs": p.knobs,
                "plan": p.phases.iter().map(|f| f.scripts.iter().map(|s| {
                    let ops: Vec<String> = s.ops.iter().map(|o| format!("{:?}", o).chars().take(160).collect()).collect();
                    serde_json::json!({"client": s.slot, "chunking": format!("{:?}", s.chunk), "operations": ops})
                }).collect::<Vec<_>>()).collect::<Vec<_>>(),
                "schedule_hash": format!("{:016x}", o.sched_hash),
                "simulated_s": o.sim_ns as f64 / 1e9,
                "task_polls": o.polls,
                "delivered": o.delivered,
            })
        })
        .collect();
    let hours = wall / 3600.0;
    let v = serde_json::json!({
        "property": prop,
        "tier": args.tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": "One evaluation is one simulated execution of the whole broker (listeners, connection tasks, packet handler, messaging service, authentication, shutdown) with generated clients, from one seed. It counts as non-trivial if a client was accepted, at least two answers or deliveries were made and the scheduler switched tasks at least 20 times; two are distinct if the sequence of scheduled tasks or the observed history (packets, order, simulated times) differs.",
            "samples": s,
            "seeds_per_hour": (t.runs as f64 / hours).round(),
            "simulated_seconds": t.sim_ns as f64 / 1e9,
            "simulated_per_wall": (t.sim_ns as f64 / 1e9) / wall,
            "task_polls": t.polls,
            "task_switches": t.switches,
            "scheduler_and_fault_decisions": t.decisions,
            "largest_run_queue": t.max_ready,
            "distinct_interleavings_by_schedule_hash": t.interleavings.len(),
            "distinct_histories": t.histories.len(),
            "scheduling_policies": t.policies,
            "scenarios": t.scenarios,
            "faults_and_perturbations_fired": faults,
            "connections": t.conns,
            "accepted_connections": t.accepted,
            "messages_published": t.msgs,
            "messages_delivered": t.delivered,
            "answers": t.answers,
            "broker_task_panics_contained": t.panics,
            "known_findings_seen": known,
            "real_code": "ratelmq crate from /repo's working tree: application::run, settings, listener, packet decoder and encoder, client packet handler, messaging service, sessions, subscriptions, password-file authentication; tokio's channels, select!, tasks, timers and current-thread scheduler",
            "stubs": "TCP sockets and listeners (simulated network), choice of the next task, clocks, entropy, interrupt delivery; argument parsing and logger set-up of main.rs are not run",
        },
        "assumptions": [
            "Tasks interleave at await points; true parallelism inside one poll is not simulated (safe Rust, no shared mutable state outside channels in the broker).",
            "The simulated TCP delivers bytes in order or resets the connection; it does not corrupt them.",
            "A clean batch is evidence from sampled schedules, not a proof."
        ],
        "wall_s": wall,
        "violations": found,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", prop)), serde_json::to_vec_pretty(&v).expect("json")).expect("evidence");
}

pub struct Args {
    pub prop: Option<String>,
    pub tier: String,
    pub seed: u64,
    pub runs: Option<u64>,
    pub seconds: Option<u64>,
    pub start: u64,
    pub jobs: usize,
    pub shrink: u64,
    pub verbose: bool,
}

pub fn main() {
    // the same address-space layout in every execution
    unsafe {
        const NO_RANDOMIZE: libc::c_ulong = 0x0040000;
        let cur = libc::personality(0xffffffff);
        if cur >= 0 && (cur as libc::c_ulong & NO_RANDOMIZE) == 0 && std::env::var_os("RATELSIM_EXEC").is_none() {
            libc::personality(cur as libc::c_ulong | NO_RANDOMIZE);
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe")
                .args(std::env::args_os().skip(1))
                .env("RATELSIM_EXEC", "1")
                .exec();
            eprintln!("exec: {}", e);
        }
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
    }
    for (k, _) in std::env::vars_os() {
        let s = k.to_string_lossy().to_uppercase();
        if s.starts_with("RATELMQ") {
            std::env::remove_var(&k);
        }
    }
    log::set_logger(Box::leak(Box::new(Sink))).expect("logger");
    log::set_max_level(log::LevelFilter::Off);

    let argv: Vec<String> = std::env::args().skip(1).collect();
    let mut a = Args {
        prop: None,
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        runs: None,
        seconds: None,
        start: 0,
        jobs: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16),
        shrink: 60,
        verbose: false,
    };
    let mut pos = Vec::new();
    let mut i = 0;
    let mut all = false;
    while i < argv.len() {
        let val = |i: &mut usize| {
            *i += 1;
            argv.get(*i).cloned().unwrap_or_default()
        };
        match argv[i].as_str() {
            "--tier" => a.tier = val(&mut i),
            "--seed" => a.seed = val(&mut i).parse().expect("number"),
            "--runs" => a.runs = Some(val(&mut i).parse().expect("number")),
            "--seconds" => a.seconds = Some(val(&mut i).parse().expect("number")),
            "--start" => a.start = val(&mut i).parse().expect("number"),
            "--jobs" => a.jobs = val(&mut i).parse().expect("number"),
            "--shrink" => a.shrink = val(&mut i).parse().expect("number"),
            "--prop" => a.prop = Some(val(&mut i)),
            "-v" => a.verbose = true,
            "-a" => all = true,
            x => pos.push(x.to_string()),
        }
        i += 1;
    }
    let code = match pos.first().map(|s| s.as_str()) {
        Some("check") => match pos.get(1) {
            Some(p) if PROPS.contains(&p.as_str()) => check(p, &a),
            Some(p) if crate::pw::PROPS.contains(&p.as_str()) => crate::pw::check(p, &a),
            _ => 2,
        },
        Some("replay") => replay(pos.get(1).map(|s| s.as_str()).unwrap_or(""), &a),
        Some("one") if crate::pw::PROPS.contains(&pos[1].as_str()) => crate::pw::one(&pos[1], pos[2].parse().expect("index"), &a),
        Some("one") => one(&pos[1], pos[2].parse().expect("seed"), a.verbose),
        Some("survey") => survey(&a, all),
        Some("determinism") => determinism(&a),
        _ => {
            eprintln!("usage: ratelmq-sim check PROPERTY | replay FILE | one PROPERTY SEED [-v] | survey [--prop P] | determinism");
            2
        }
    };
    std::process::exit(code);
}
