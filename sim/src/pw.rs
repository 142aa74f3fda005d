//! ratelmq-passwd behind a system-call seam (pwshim/): every file operation can fail, be cut short
//! or be the last one; what a power loss may leave is derived from a model of a journaling file
//! system. The resulting files are judged entry by entry, and given to the simulated broker.
use crate::driver::{self, Args, Job, Pool, Src};
use crate::gen;
use crate::oracle::{self, Kind};
use crate::plan::{unhex, Plan};
use argon2::password_hash::{PasswordHash, PasswordVerifier};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::time::Instant;
use tokio::sim::Rng;

#[path = "together.rs"]
mod together;

pub const PROPS: [&str; 4] = ["B20", "B21", "B28", "B29"];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    pub user: String,
    /// None: delete.
    pub pass: Option<String>,
    /// "k X arg" for the shim.
    pub fault: Option<String>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Layout {
    /// An absolute path to the file.
    Plain,
    /// A path relative to the working directory.
    Relative,
    /// A symbolic link to the file, in another directory.
    Link,
    /// The file belongs to another user and has an unusual mode.
    Owned,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub seed: u64,
    pub layout: Layout,
    pub initial: String,
    /// Passwords of the initial entries, where known (first entry of that name).
    pub known: Vec<(String, String)>,
    pub steps: Vec<Step>,
    /// Judge what a power loss may leave during the last step.
    pub power: bool,
    /// Give the result to the broker.
    pub broker: bool,
    /// Look at who may read what, and at what is given away.
    #[serde(default)]
    pub secret: Option<Secret>,
    /// The steps are runs at the same time, in this interleaving.
    #[serde(default)]
    pub together: Option<together::Together>,
}

/// The circumstances of a case about secrecy.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Secret {
    pub mode: u32,
    pub uid: u32,
    pub gid: u32,
    pub umask: u32,
    /// RUST_LOG of the tool.
    pub log: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Res {
    pub violation: Option<String>,
    pub harness: Option<String>,
    pub runs: u64,
    pub states: u64,
    pub state_hashes: BTreeSet<u64>,
    pub faults: BTreeMap<String, u64>,
    pub unmodelled: u64,
    pub exits_ok: u64,
    pub exits_fail: u64,
    pub broker_runs: u64,
    pub broker_connects: u64,
    pub ops: u64,
    pub broker_sig: u64,
    pub trace: Vec<String>,
}

impl Res {
    fn merge(&mut self, o: Res) {
        self.runs += o.runs;
        self.states += o.states;
        self.state_hashes.extend(o.state_hashes);
        for (k, v) in o.faults {
            *self.faults.entry(k).or_insert(0) += v;
        }
        self.unmodelled += o.unmodelled;
        self.exits_ok += o.exits_ok;
        self.exits_fail += o.exits_fail;
        self.broker_runs += o.broker_runs;
        self.broker_connects += o.broker_connects;
        self.ops += o.ops;
    }
}

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

// ------------------------------------------------------------------ running the tool

struct Scratch {
    dir: PathBuf,
}

impl Scratch {
    fn file(&self) -> PathBuf {
        self.dir.join("etc/passwd")
    }
    fn fresh(&self, layout: Layout, content: &[u8]) {
        let _ = std::fs::remove_dir_all(&self.dir);
        std::fs::create_dir_all(self.dir.join("etc")).expect("scratch");
        std::fs::create_dir_all(self.dir.join("conf")).expect("scratch");
        std::fs::write(self.file(), content).expect("scratch");
        match layout {
            Layout::Link => {
                std::os::unix::fs::symlink("../etc/passwd", self.dir.join("conf/users")).expect("scratch");
            }
            Layout::Owned => unsafe {
                use std::os::unix::ffi::OsStrExt;
                let p = std::ffi::CString::new(self.file().as_os_str().as_bytes()).expect("path");
                libc::chown(p.as_ptr(), 65534, 65534);
                libc::chmod(p.as_ptr(), 0o640);
            },
            _ => {}
        }
    }
    fn arg(&self, layout: Layout) -> String {
        match layout {
            Layout::Relative => "etc/passwd".into(),
            Layout::Link => self.dir.join("conf/users").display().to_string(),
            _ => self.file().display().to_string(),
        }
    }
    /// The file as a user of the given path finds it.
    fn content(&self, layout: Layout) -> Option<Vec<u8>> {
        let p = match layout {
            Layout::Link => self.dir.join("conf/users"),
            _ => self.file(),
        };
        std::fs::read(p).ok()
    }
}

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    log: Vec<Vec<String>>,
    hung: bool,
}

fn tool(s: &Scratch, layout: Layout, st: &Step, seed: u64, secret: Option<&Secret>) -> Result<Ran, String> {
    let log = s.dir.with_extension("log");
    let mut c = std::process::Command::new(root().join("build/pw/debug/ratelmq-passwd"));
    c.env_clear()
        .env("LD_PRELOAD", root().join("build/pwshim.so"))
        .env("PWSIM_SCRATCH", &s.dir)
        .env("PWSIM_LOG", &log)
        .env("PWSIM_SEED", seed.to_string())
        .env("RUST_BACKTRACE", if secret.map_or(false, |s| s.log == "trace") { "full" } else { "0" })
        .env("LANG", "C.UTF-8")
        .current_dir(&s.dir)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .arg(format!("--file={}", s.arg(layout)))
        .arg(format!("--user={}", st.user));
    match &st.pass {
        Some(p) => c.arg(format!("--password={}", p)),
        None => c.arg("-d"),
    };
    if let Some(f) = &st.fault {
        c.env("PWSIM_FAULT", f);
    }
    let mut mask = None;
    if let Some(x) = secret {
        let out = std::fs::File::create(s.dir.with_extension("out")).expect("scratch");
        c.stdout(out.try_clone().expect("scratch")).stderr(out);
        c.env("TMPDIR", s.dir.join("tmp"));
        c.env("HOME", s.dir.join("tmp"));
        if !x.log.is_empty() {
            c.env("RUST_LOG", &x.log);
        }
        mask = Some(x.umask);
    }
    unsafe {
        c.pre_exec(move || {
            if let Some(m) = mask {
                libc::umask(m as libc::mode_t);
            }
            let l = libc::rlimit { rlim_cur: 20, rlim_max: 20 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 64 << 20, rlim_max: 64 << 20 };
            libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let status = c.status().map_err(|e| format!("cannot start ratelmq-passwd: {}", e))?;
    let text = std::fs::read_to_string(&log).map_err(|e| format!("no log from the seam: {}", e))?;
    let log = text.lines().map(|l| l.split(' ').filter(|w| !w.is_empty()).map(|w| w.to_string()).collect()).collect();
    Ok(Ran {
        code: status.code(),
        signal: status.signal(),
        log,
        hung: matches!(status.signal(), Some(libc::SIGXCPU) | Some(libc::SIGXFSZ)),
    })
}

// ------------------------------------------------------------------ the file-system model

#[derive(Clone, Debug)]
enum Change {
    Cut(u64),
    Put(u64, Vec<u8>),
}

fn apply(c: &mut Vec<u8>, ch: &Change) {
    match ch {
        Change::Cut(n) => c.resize(*n as usize, 0),
        Change::Put(p, d) => {
            let end = *p as usize + d.len();
            if c.len() < end {
                c.resize(end, 0);
            }
            c[*p as usize..end].copy_from_slice(d);
        }
    }
}

#[derive(Clone, Debug, Default)]
struct Inode {
    base: Vec<u8>,
    changes: Vec<Change>,
    durable: usize,
}

impl Inode {
    fn now(&self) -> Vec<u8> {
        let mut c = self.base.clone();
        for x in &self.changes {
            apply(&mut c, x);
        }
        c
    }
    /// Contents a power loss may leave.
    fn after_loss(&self) -> Vec<Vec<u8>> {
        let mut out = Vec::new();
        let mut c = self.base.clone();
        for (i, x) in self.changes.iter().enumerate() {
            if i >= self.durable {
                out.push(c.clone());
                if let Change::Put(p, d) = x {
                    // a part of the data; the new length without the data
                    for cut in [1, d.len() / 2, d.len().saturating_sub(1), 512] {
                        if cut > 0 && cut < d.len() {
                            let mut t = c.clone();
                            apply(&mut t, &Change::Put(*p, d[..cut].to_vec()));
                            out.push(t);
                        }
                    }
                    let mut z = c.clone();
                    apply(&mut z, &Change::Put(*p, vec![0; d.len()]));
                    out.push(z);
                }
            }
            apply(&mut c, x);
        }
        out.push(c);
        out
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Node {
    File(usize),
    Sym(String),
    Dir,
}

#[derive(Clone, Debug)]
enum DirOp {
    Add(String, Node),
    Remove(String),
    Move(String, String),
    Swap(String, String),
}

fn act(names: &mut BTreeMap<String, Node>, op: &DirOp) {
    match op {
        DirOp::Add(p, n) => {
            names.insert(p.clone(), n.clone());
        }
        DirOp::Remove(p) => {
            names.remove(p);
        }
        DirOp::Move(a, b) => {
            if let Some(n) = names.remove(a) {
                names.insert(b.clone(), n);
            }
        }
        DirOp::Swap(a, b) => {
            let (x, y) = (names.remove(a), names.remove(b));
            if let Some(x) = x {
                names.insert(b.clone(), x);
            }
            if let Some(y) = y {
                names.insert(a.clone(), y);
            }
        }
    }
}

fn norm(p: &str) -> String {
    let mut v: Vec<&str> = Vec::new();
    for x in p.split('/') {
        match x {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            x => v.push(x),
        }
    }
    format!("/{}", v.join("/"))
}

fn resolve(names: &BTreeMap<String, Node>, p: &str) -> String {
    let mut p = norm(p);
    for _ in 0..20 {
        match names.get(&p) {
            Some(Node::Sym(t)) => {
                p = if t.starts_with('/') {
                    norm(t)
                } else {
                    let dir = p.rsplit_once('/').map(|x| x.0).unwrap_or("");
                    norm(&format!("{}/{}", dir, t))
                };
            }
            _ => break,
        }
    }
    p
}

fn parent(p: &str) -> &str {
    p.rsplit_once('/').map(|x| x.0).unwrap_or("")
}

enum Handle {
    File(usize),
    Dir(String),
}

struct Model {
    inodes: Vec<Inode>,
    start: BTreeMap<String, Node>,
    names: BTreeMap<String, Node>,
    journal: Vec<DirOp>,
    durable: usize,
    fds: BTreeMap<i64, Handle>,
}

fn text(h: &str) -> String {
    if h == "-" {
        String::new()
    } else {
        String::from_utf8_lossy(&unhex(h)).into_owned()
    }
}

impl Model {
    fn new(s: &Scratch, layout: Layout, content: &[u8]) -> Model {
        let mut start = BTreeMap::new();
        start.insert(norm(&s.file().display().to_string()), Node::File(0));
        if layout == Layout::Link {
            start.insert(norm(&s.dir.join("conf/users").display().to_string()), Node::Sym("../etc/passwd".into()));
        }
        for d in ["", "/etc", "/conf"] {
            start.insert(norm(&format!("{}{}", s.dir.display(), d)), Node::Dir);
        }
        Model {
            inodes: vec![Inode { base: content.to_vec(), ..Inode::default() }],
            names: start.clone(),
            start,
            journal: Vec::new(),
            durable: 0,
            fds: BTreeMap::new(),
        }
    }

    fn dirop(&mut self, op: DirOp) {
        act(&mut self.names, &op);
        self.journal.push(op);
    }

    /// Applies one recorded operation. None: not understood.
    fn step(&mut self, l: &[String]) -> Option<()> {
        let eq = l.iter().position(|w| w == "=")?;
        let ret: i64 = l.get(eq + 1)?.parse().ok()?;
        let op = l.get(1)?.as_str();
        let a = &l[2..eq];
        if ret < 0 && op != "close" {
            return Some(());
        }
        match op {
            "open" => {
                let flags: i32 = a[0].parse().ok()?;
                let p = text(&a[2]);
                let r = resolve(&self.names, &p);
                if self.names.get(&r) == Some(&Node::Dir) {
                    self.fds.insert(ret, Handle::Dir(r));
                    return Some(());
                }
                let ino = match self.names.get(&r) {
                    Some(Node::File(i)) => *i,
                    None if flags & libc::O_CREAT != 0 => {
                        self.inodes.push(Inode::default());
                        let i = self.inodes.len() - 1;
                        self.dirop(DirOp::Add(r, Node::File(i)));
                        i
                    }
                    _ => return None,
                };
                if flags & libc::O_TRUNC != 0 && flags & libc::O_ACCMODE != libc::O_RDONLY {
                    self.inodes[ino].changes.push(Change::Cut(0));
                }
                self.fds.insert(ret, Handle::File(ino));
            }
            "close" => {
                self.fds.remove(&a[0].parse().ok()?);
            }
            "dup" => {
                let h = match self.fds.get(&a[0].parse().ok()?)? {
                    Handle::File(i) => Handle::File(*i),
                    Handle::Dir(p) => Handle::Dir(p.clone()),
                };
                self.fds.insert(ret, h);
            }
            "read" | "fchmod" | "fchown" | "chmod" | "flock" | "fcntl" => {}
            "write" => {
                let Handle::File(i) = self.fds.get(&a[0].parse().ok()?)? else { return None };
                let pos: u64 = a[1].parse().ok()?;
                let data = if a[2] == "-" { Vec::new() } else { unhex(&a[2]) };
                if data.len() as i64 != ret {
                    return None;
                }
                if !data.is_empty() {
                    self.inodes[*i].changes.push(Change::Put(pos, data));
                }
            }
            "ftruncate" => {
                let Handle::File(i) = self.fds.get(&a[0].parse().ok()?)? else { return None };
                self.inodes[*i].changes.push(Change::Cut(a[1].parse().ok()?));
            }
            "truncate" => {
                let r = resolve(&self.names, &text(&a[1]));
                let Some(Node::File(i)) = self.names.get(&r) else { return None };
                self.inodes[*i].changes.push(Change::Cut(a[0].parse().ok()?));
            }
            "fsync" => match self.fds.get(&a[0].parse().ok()?)? {
                Handle::File(i) => {
                    let n = &mut self.inodes[*i];
                    n.durable = n.changes.len();
                }
                Handle::Dir(d) => {
                    // the journal is written in order, up to this directory's last change
                    let last = self.journal.iter().rposition(|o| match o {
                        DirOp::Add(p, _) | DirOp::Remove(p) => parent(p) == d,
                        DirOp::Move(a, b) | DirOp::Swap(a, b) => parent(a) == d || parent(b) == d,
                    });
                    if let Some(x) = last {
                        self.durable = self.durable.max(x + 1);
                    }
                }
            },
            "sync" => {
                self.durable = self.journal.len();
                for n in &mut self.inodes {
                    n.durable = n.changes.len();
                }
            }
            "rename" => {
                let fl: u32 = a[0].parse().ok()?;
                let (x, y) = (norm(&text(&a[1])), norm(&text(&a[2])));
                if !self.names.contains_key(&x) {
                    return None;
                }
                self.dirop(if fl & libc::RENAME_EXCHANGE != 0 { DirOp::Swap(x, y) } else { DirOp::Move(x, y) });
            }
            "link" => {
                let (x, y) = (text(&a[1]), norm(&text(&a[2])));
                let n = match x.strip_prefix("/proc/self/fd/") {
                    Some(fd) => match self.fds.get(&fd.parse().ok()?)? {
                        Handle::File(i) => Node::File(*i),
                        _ => return None,
                    },
                    None => self.names.get(&norm(&x))?.clone(),
                };
                self.dirop(DirOp::Add(y, n));
            }
            "symlink" => {
                let y = norm(&text(&a[2]));
                self.dirop(DirOp::Add(y, Node::Sym(text(&a[1]))));
            }
            "mkdir" => {
                let y = norm(&text(&a[1]));
                self.dirop(DirOp::Add(y, Node::Dir));
            }
            "unlink" | "rmdir" => {
                let y = norm(&text(&a[1]));
                self.dirop(DirOp::Remove(y));
            }
            _ => return None,
        }
        Some(())
    }

    fn content(&self, path: &str) -> Option<Vec<u8>> {
        match self.names.get(&resolve(&self.names, path)) {
            Some(Node::File(i)) => Some(self.inodes[*i].now()),
            _ => None,
        }
    }

    /// What the path may hold after a power loss now: (directory operations that survived, contents).
    fn after_loss(&self, path: &str) -> Vec<(usize, Option<Vec<u8>>)> {
        let mut out = Vec::new();
        let mut names = self.start.clone();
        for k in 0..=self.journal.len() {
            if k >= self.durable {
                match names.get(&resolve(&names, path)) {
                    Some(Node::File(i)) => {
                        for c in self.inodes[*i].after_loss() {
                            out.push((k, Some(c)));
                        }
                    }
                    _ => out.push((k, None)),
                }
            }
            if k < self.journal.len() {
                act(&mut names, &self.journal[k]);
            }
        }
        out
    }
}

// ------------------------------------------------------------------ judging contents

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Is {
    Old,
    New,
    /// An update that changes nothing.
    Both,
}

fn lines(s: &str) -> Vec<&str> {
    let mut v: Vec<&str> = s.split('\n').collect();
    if v.last() == Some(&"") {
        v.pop();
    }
    v
}

fn name_of(l: &str) -> &str {
    l.split_once(':').map(|x| x.0).unwrap_or(l)
}

fn short(s: &str) -> String {
    let t: String = s.chars().take(90).collect();
    if t.len() < s.len() {
        format!("{:?}…", t)
    } else {
        format!("{:?}", t)
    }
}

struct Judge<'a> {
    before: &'a str,
    step: &'a Step,
    verified: BTreeMap<String, bool>,
}

impl<'a> Judge<'a> {
    fn verifies(&mut self, h: &str) -> bool {
        let Some(p) = &self.step.pass else { return false };
        if let Some(b) = self.verified.get(h) {
            return *b;
        }
        let ok = match PasswordHash::new(h) {
            Ok(x) => argon2::Argon2::default().verify_password(p.as_bytes(), &x).is_ok(),
            Err(_) => false,
        };
        self.verified.insert(h.to_string(), ok);
        ok
    }

    fn is(&mut self, content: &Option<Vec<u8>>) -> Result<Is, String> {
        let Some(c) = content else { return Err("the file is gone".into()) };
        let Ok(c) = std::str::from_utf8(c) else { return Err("the file is not text any more".into()) };
        let user = &self.step.user;
        let mut others: Vec<&str> = lines(self.before).into_iter().filter(|l| name_of(l) != user).collect();
        let mine: Vec<&str> = lines(self.before).into_iter().filter(|l| name_of(l) == user).collect();
        let mut others2: Vec<&str> = lines(c).into_iter().filter(|l| name_of(l) != user).collect();
        let mine2: Vec<&str> = lines(c).into_iter().filter(|l| name_of(l) == user).collect();
        others.sort();
        others2.sort();
        if others != others2 {
            let lost = others.iter().find(|l| !others2.contains(l));
            let extra = others2.iter().find(|l| !others.contains(l));
            return Err(match (lost, extra) {
                (Some(l), Some(x)) => format!("the entry {} has become {}", short(l), short(x)),
                (Some(l), None) => format!("the entry {} is gone", short(l)),
                (None, Some(x)) => format!("{} has appeared", short(x)),
                _ => "an entry of another user has been duplicated or merged".into(),
            });
        }
        let old = mine == mine2;
        let new = match &self.step.pass {
            None => mine2.is_empty(),
            Some(_) => {
                !mine2.is_empty()
                    && mine2.iter().all(|l| {
                        let h = l.split_once(':').map(|x| x.1.to_string());
                        h.map_or(false, |h| self.verifies(&h))
                    })
            }
        };
        match (old, new) {
            (true, true) => Ok(Is::Both),
            (true, false) => Ok(Is::Old),
            (false, true) => Ok(Is::New),
            (false, false) => Err(format!(
                "the entry of {:?} is neither the old nor the new one: {}",
                user,
                short(&mine2.join("\n"))
            )),
        }
    }
}

fn describe(l: &[String]) -> String {
    let eq = l.iter().position(|w| w == "=").unwrap_or(l.len());
    let arg = |i: usize| l.get(i).cloned().unwrap_or_default();
    let file = |h: String| text(&h).rsplit('/').next().unwrap_or("").to_string();
    let a = match arg(1).as_str() {
        "open" => file(arg(4)),
        "write" => format!("{} bytes at {}", arg(eq.saturating_sub(1)).trim_matches('-').len() / 2, arg(3)),
        "rename" | "link" => format!("{} -> {}", file(arg(3)), file(arg(4))),
        "unlink" | "truncate" => file(arg(3)),
        _ => l[2.min(l.len())..eq].join(" "),
    };
    format!("{} {} {} = {}", arg(0), arg(1), a, l.get(eq + 1).cloned().unwrap_or_else(|| "(killed)".into()))
}

/// Names the tool may refuse.
fn must_refuse(u: &str) -> bool {
    u.contains(':') || u.contains('\n')
}
fn may_refuse(st: &Step) -> bool {
    st.user.is_empty() || st.pass.as_deref() == Some("") || st.user.contains('\r') || st.user.chars().any(|c| c.is_control())
}

/// Runs a case. Everything in it is determined by the case.
pub fn run(case: &Case, s: &Scratch_, pool: &mut Option<Pool>) -> Res {
    let s = &s.0;
    if let Some(x) = &case.secret {
        return run_secret(case, x, s);
    }
    if let Some(x) = &case.together {
        return together::run(case, x, s);
    }
    let mut res = Res::default();
    s.fresh(case.layout, case.initial.as_bytes());
    let path = s.arg(case.layout);
    let full = if path.starts_with('/') { path.clone() } else { s.dir.join(&path).display().to_string() };
    let mut cur = case.initial.clone();
    let mut creds: BTreeMap<String, Option<String>> = BTreeMap::new();
    for (u, p) in &case.known {
        creds.insert(u.clone(), Some(p.clone()));
    }
    for (i, st) in case.steps.iter().enumerate() {
        let last = i + 1 == case.steps.len();
        let what = match &st.pass {
            Some(p) => format!("set {:?} to {:?}", st.user, p),
            None => format!("delete {:?}", st.user),
        };
        let what = match &st.fault {
            Some(f) => format!("{} with fault [{}]", what, f),
            None => what,
        };
        res.trace.push(what.clone());
        let r = match tool(s, case.layout, st, case.seed.wrapping_add(i as u64), None) {
            Ok(r) => r,
            Err(e) => {
                res.harness = Some(e);
                return res;
            }
        };
        res.runs += 1;
        res.ops += r.log.len() as u64;
        for l in &r.log {
            res.trace.push(format!("  {}", describe(l)));
        }
        count_fault(&mut res, st, &r);
        if r.hung {
            res.violation = Some(format!("{}: the tool did not come to an end", what));
            return res;
        }
        let ok = r.code == Some(0);
        if ok {
            res.exits_ok += 1;
        } else {
            res.exits_fail += 1;
        }
        let end = if ok {
            "reported success".to_string()
        } else if let Some(x) = r.signal {
            format!("was killed by signal {}", x)
        } else {
            format!("failed with status {}", r.code.unwrap_or(-1))
        };
        res.trace.push(format!("  the tool {}", end));
        let after = s.content(case.layout);
        let mut j = Judge { before: &cur, step: st, verified: BTreeMap::new() };
        let verdict = j.is(&after);
        res.states += 1;
        res.state_hashes.insert(hash(after.as_deref().unwrap_or(b"-")));
        let is = match verdict {
            Ok(x) => x,
            Err(e) => {
                res.violation = Some(format!("{}: the tool {}; afterwards {}", what, end, e));
                return res;
            }
        };
        if must_refuse(&st.user) {
            if is == Is::New {
                res.violation = Some(format!("{}: a name that cannot be stored was written to the file", what));
                return res;
            }
        } else if ok && is == Is::Old {
            res.violation = Some(format!("{}: the tool reported success, but nothing was changed", what));
            return res;
        }
        let benign = match &st.fault {
            None => true,
            Some(f) => {
                let mut w = f.split(' ').skip(1);
                let (k, a) = (w.next().unwrap_or(""), w.next().unwrap_or(""));
                let op = f
                    .split(' ')
                    .next()
                    .and_then(|k| k.parse::<usize>().ok())
                    .and_then(|k| r.log.get(k))
                    .and_then(|l| l.get(1).cloned())
                    .unwrap_or_default();
                // interrupted and partial transfers are to be continued
                k == "S" && a != "0" || (k == "E" && a == libc::EINTR.to_string() && ["read", "write", "open"].contains(&op.as_str()))
            }
        };
        if benign && !ok && !must_refuse(&st.user) && !may_refuse(st) {
            res.violation = Some(format!("{}: the tool {}", what, end));
            return res;
        }
        if case.power && last && std::str::from_utf8(cur.as_bytes()).is_ok() {
            let mut m = Model::new(s, case.layout, cur.as_bytes());
            let mut understood = true;
            let mut judged: BTreeMap<u64, Result<Is, String>> = BTreeMap::new();
            let mut bad: Option<String> = None;
            for k in 0..=r.log.len() {
                for (d, c) in m.after_loss(&full) {
                    let h = hash(c.as_deref().unwrap_or(b"-"));
                    let v = judged.entry(h).or_insert_with(|| j.is(&c)).clone();
                    res.states += 1;
                    res.state_hashes.insert(h);
                    let at = || {
                        if k == 0 {
                            "before the first operation".to_string()
                        } else {
                            format!("after operation [{}] ({} directory changes on disk)", describe(&r.log[k - 1]), d)
                        }
                    };
                    match v {
                        Err(e) => {
                            bad.get_or_insert(format!("{}: power is lost {}: {}", what, at(), e));
                        }
                        Ok(Is::Old) if ok && k == r.log.len() => {
                            bad.get_or_insert(format!(
                                "{}: the tool reported success, but a power loss afterwards leaves the old contents",
                                what
                            ));
                        }
                        _ => {}
                    }
                }
                if k < r.log.len() {
                    let killed = !r.log[k].iter().any(|w| w == "=");
                    if !killed && m.step(&r.log[k]).is_none() {
                        understood = false;
                        break;
                    }
                }
            }
            if r.signal.is_none() && understood && m.content(&full) != after {
                understood = false;
            }
            if !understood {
                res.unmodelled += 1;
                if st.fault.is_none() {
                    res.harness = Some(format!("{}: the recorded operations do not explain the file", what));
                    return res;
                }
            } else if bad.is_some() {
                res.violation = bad;
                return res;
            }
        }
        if is != Is::Old || ok {
            if !must_refuse(&st.user) && is != Is::Old {
                creds.insert(st.user.clone(), st.pass.clone());
            }
        }
        cur = match after.and_then(|b| String::from_utf8(b).ok()) {
            Some(x) => x,
            None => return res,
        };
    }
    if case.broker {
        broker(case, &cur, &creds, &mut res, pool);
    }
    res
}

/// Every file below the directory: name, mode, owner, group.
fn all_files(dir: &Path) -> Vec<(PathBuf, std::fs::Metadata)> {
    let mut out = Vec::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        let Ok(es) = std::fs::read_dir(&d) else { continue };
        for e in es.flatten() {
            let Ok(m) = std::fs::symlink_metadata(e.path()) else { continue };
            if m.is_dir() {
                todo.push(e.path());
            } else {
                out.push((e.path(), m));
            }
        }
    }
    out.sort_by(|a, b| a.0.cmp(&b.0));
    out
}

/// What is wrong with the way a password is stored.
fn weak(h: &str) -> Result<(Vec<u8>, String), String> {
    let x = PasswordHash::new(h).map_err(|e| format!("it is not a password hash ({})", e))?;
    if !["argon2id", "argon2i", "argon2d"].contains(&x.algorithm.as_str()) {
        return Err(format!("it is a {} hash", x.algorithm));
    }
    let p = |n: &str| x.params.get_decimal(n).unwrap_or(0) as u64;
    if p("m") * p("t") < 4096 * 3 {
        return Err(format!("it is hashed at too low a cost (m={}, t={})", p("m"), p("t")));
    }
    let mut b = [0u8; 64];
    let salt = x.salt.ok_or("it has no salt")?.b64_decode(&mut b).map_err(|e| format!("its salt is {}", e))?.to_vec();
    if salt.len() < 8 {
        return Err(format!("its salt has only {} bytes", salt.len()));
    }
    let hash = x.hash.ok_or("it has no hash")?;
    if hash.len() < 16 {
        return Err(format!("its hash has only {} bytes", hash.len()));
    }
    Ok((salt, hash.to_string()))
}

/// A case about secrecy: who may read which file after every run, wherever it ended, what the
/// stored entries are like and what the tool printed.
fn run_secret(case: &Case, x: &Secret, s: &Scratch) -> Res {
    use std::os::unix::ffi::OsStrExt;
    use std::os::unix::fs::MetadataExt;
    let mut res = Res::default();
    s.fresh(case.layout, case.initial.as_bytes());
    std::fs::create_dir_all(s.dir.join("tmp")).expect("scratch");
    unsafe {
        let p = std::ffi::CString::new(s.file().as_os_str().as_bytes()).expect("path");
        libc::chown(p.as_ptr(), x.uid, x.gid);
        libc::chmod(p.as_ptr(), x.mode as libc::mode_t);
    }
    res.trace.push(format!("file of {}:{} with mode {:o}, umask {:o}, RUST_LOG={}", x.uid, x.gid, x.mode, x.umask, x.log));
    let marked: Vec<String> = case.steps.iter().filter_map(|s| s.pass.clone()).collect();
    let names = |v: &[(PathBuf, std::fs::Metadata)]| -> Vec<(PathBuf, bool)> {
        v.iter().map(|f| (f.0.clone(), f.1.file_type().is_symlink())).collect()
    };
    let begin = names(&all_files(&s.dir));
    let mut salts: Vec<Vec<u8>> = Vec::new();
    let mut hashes: BTreeSet<String> = BTreeSet::new();
    let mut killed = false;
    for (i, st) in case.steps.iter().enumerate() {
        let what = match &st.pass {
            Some(p) => format!("set {:?} to {:?}", st.user, p),
            None => format!("delete {:?}", st.user),
        };
        let what = match &st.fault {
            Some(f) => format!("{} with fault [{}]", what, f),
            None => what,
        };
        res.trace.push(what.clone());
        let before = std::fs::read_to_string(s.file()).unwrap_or_default();
        let r = match tool(s, case.layout, st, case.seed.wrapping_add(i as u64), Some(x)) {
            Ok(r) => r,
            Err(e) => {
                res.harness = Some(e);
                return res;
            }
        };
        res.runs += 1;
        res.ops += r.log.len() as u64;
        for l in &r.log {
            res.trace.push(format!("  {}", describe(l)));
        }
        count_fault(&mut res, st, &r);
        let ok = r.code == Some(0);
        if ok {
            res.exits_ok += 1;
        } else {
            res.exits_fail += 1;
        }
        killed |= r.signal.is_some() || st.fault.is_some();
        let end = match (r.code, r.signal) {
            (Some(0), _) => "reported success".to_string(),
            (_, Some(n)) => format!("was killed by signal {}", n),
            (c, _) => format!("failed with status {}", c.unwrap_or(-1)),
        };
        res.trace.push(format!("  the tool {}", end));
        let mut bad: Vec<String> = Vec::new();
        let files = all_files(&s.dir);
        for (p, m) in &files {
            if m.file_type().is_symlink() {
                continue;
            }
            res.states += 1;
            let n = p.strip_prefix(&s.dir).unwrap_or(p).display().to_string();
            res.state_hashes.insert(hash(format!("{} {:o} {} {}", n, m.mode() & 0o777, m.uid(), m.gid()).as_bytes()));
            let mode = m.mode() & 0o777;
            let wider = mode & 0o007 & !x.mode != 0
                || mode & 0o070 != 0 && (m.gid() != x.gid || mode & 0o070 & !x.mode != 0)
                || m.uid() != x.uid && m.uid() != unsafe { libc::geteuid() };
            if wider {
                bad.push(format!(
                    "{} is open to more than the password file was: {}:{} with mode {:o}",
                    n,
                    m.uid(),
                    m.gid(),
                    mode
                ));
            }
            crate::leak::watch(&marked, &[]);
            crate::leak::out(&n, &std::fs::read(p).unwrap_or_default());
            bad.extend(crate::leak::found().0);
        }
        let after = std::fs::read_to_string(s.file()).unwrap_or_default();
        let secrets: Vec<String> = lines(&before)
            .into_iter()
            .chain(lines(&after))
            .filter_map(|l| l.rsplit_once('$').map(|x| x.1.to_string()))
            .filter(|h| h.len() >= 20)
            .collect();
        crate::leak::watch(&marked, &secrets);
        crate::leak::out("the tool's output", &std::fs::read(s.dir.with_extension("out")).unwrap_or_default());
        bad.extend(crate::leak::found().0);
        if ok && !killed {
            if names(&files) != begin {
                let v: Vec<String> = names(&files)
                    .iter()
                    .map(|f| f.0.strip_prefix(&s.dir).unwrap_or(&f.0).display().to_string() + if f.1 { " (a link)" } else { "" })
                    .collect();
                bad.push(format!("there are other files than before: {}", v.join(", ")));
            }
        }
        if ok {
            if let Some((_, m)) = files.iter().find(|f| f.0 == s.file()) {
                if (m.mode() & 0o777, m.uid(), m.gid()) != (x.mode, x.uid, x.gid) && st.fault.is_none() && !killed {
                    bad.push(format!("the file is now of {}:{} with mode {:o}", m.uid(), m.gid(), m.mode() & 0o777));
                }
            }
        }
        if st.pass.is_some() && !must_refuse(&st.user) && before != after {
            let old: Vec<&str> = lines(&before);
            for l in lines(&after).into_iter().filter(|l| name_of(l) == st.user && !old.contains(l)).take(1) {
                let h = l.split_once(':').map(|x| x.1).unwrap_or("");
                match weak(h) {
                    Err(e) => bad.push(format!("the new entry of {:?} can be guessed: {}", st.user, e)),
                    Ok((salt, hash)) => {
                        if salts.contains(&salt) {
                            bad.push(format!("the new entry of {:?} has a salt that was used before", st.user));
                        }
                        if !hashes.insert(hash) {
                            bad.push(format!("the new entry of {:?} has the hash of another", st.user));
                        }
                        salts.push(salt);
                    }
                }
            }
        }
        if let Some(b) = bad.first() {
            res.violation = Some(format!("{}: the tool {}; {}", what, end, b));
            return res;
        }
    }
    if salts.len() >= 12 {
        // chance alone never leaves a byte of so many salts the same
        let n = salts.iter().map(|s| s.len()).min().unwrap_or(0);
        let varying = (0..n).filter(|i| salts.iter().any(|s| s[*i] != salts[0][*i])).count();
        if varying < 8 {
            res.violation = Some(format!("of {} salts only {} bytes ever differ", salts.len(), varying));
        }
    }
    res
}

fn count_fault(res: &mut Res, st: &Step, r: &Ran) {
    let Some(f) = &st.fault else { return };
    let mut w = f.split(' ');
    let k: usize = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    let kind = w.next().unwrap_or("").to_string();
    let e: i32 = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    if r.log.len() > k || (kind == "K" && r.log.len() == k) {
        let op = r.log.get(k).and_then(|l| l.get(1)).cloned().unwrap_or_else(|| "kill".into());
        let name = match kind.as_str() {
            "K" => "process killed before an operation".to_string(),
            "T" => "process killed in the middle of a write".to_string(),
            "S" => format!("short {}", op),
            "F" => format!("{} {} from then on", op, errno(e)),
            _ => format!("{} {}", op, errno(e)),
        };
        *res.faults.entry(name).or_insert(0) += 1;
    }
}

fn errno(e: i32) -> &'static str {
    match e {
        libc::EACCES => "EACCES",
        libc::EMFILE => "EMFILE",
        libc::ENOSPC => "ENOSPC",
        libc::EINTR => "EINTR",
        libc::EIO => "EIO",
        libc::EPERM => "EPERM",
        libc::EROFS => "EROFS",
        libc::EDQUOT => "EDQUOT",
        libc::EXDEV => "EXDEV",
        libc::ENOLCK => "ENOLCK",
        _ => "error",
    }
}

/// The broker with the resulting file, and clients that try to enter.
fn broker(case: &Case, file: &str, creds: &BTreeMap<String, Option<String>>, res: &mut Res, pool: &mut Option<Pool>) {
    let mut r = Rng::new(case.seed ^ 0xB10C);
    let users: Vec<(String, String)> =
        creds.iter().filter_map(|(u, p)| p.as_ref().map(|p| (u.clone(), p.clone()))).collect();
    let mut tries: Vec<(String, String)> = Vec::new();
    let names: Vec<&String> = creds.keys().filter(|u| !must_refuse(u)).collect();
    let used: Vec<&String> = case.steps.iter().map(|s| &s.user).filter(|u| !must_refuse(u)).collect();
    for u in used.iter().chain(names.iter()) {
        if tries.len() >= 8 {
            break;
        }
        let (t, p) = match creds.get(*u) {
            Some(Some(p)) => (true, p.clone()),
            // deleted: the last password it had
            _ => (
                false,
                case.steps
                    .iter()
                    .rev()
                    .filter(|s| s.user == **u)
                    .find_map(|s| s.pass.clone())
                    .or_else(|| case.known.iter().find(|k| k.0 == **u).map(|k| k.1.clone()))
                    .unwrap_or_else(|| "x".into()),
            ),
        };
        if tries.iter().any(|x| x.0 == **u) {
            continue;
        }
        tries.push(((*u).clone(), p.clone()));
        if t && r.below(3) == 0 {
            tries.push(((*u).clone(), format!("{}x", p)));
        }
    }
    // a password that was replaced
    for s in &case.steps {
        if let Some(p) = &s.pass {
            if tries.len() < 11 && !must_refuse(&s.user) && creds.get(&s.user) != Some(&Some(p.clone())) {
                tries.push((s.user.clone(), p.clone()));
            }
        }
    }
    if r.below(2) == 0 {
        tries.push(("nobody.at.all".into(), "x".into()));
    }
    let plan: Plan = gen::passwords(case.seed, file, users, &tries);
    let p = pool.get_or_insert_with(|| Pool::new(1));
    let o = p.all(&[Job { plan, source: Src::Seeded, verbose: true, record: false }]).remove(0);
    res.broker_runs += 1;
    res.broker_connects += tries.len() as u64;
    res.broker_sig = o.sched_hash ^ o.history_hash;
    if let Some(e) = &o.harness_error {
        res.harness = Some(e.clone());
        return;
    }
    if let Some(v) = o.violations.iter().find(|v| oracle::relevant("B21", v.kind)) {
        res.trace.push("the broker with this file:".into());
        for e in &o.events {
            res.trace.push(format!("  {}", e));
        }
        let k = match v.kind {
            Kind::Startup => "the broker does not start with the resulting file",
            _ => "the broker with the resulting file",
        };
        res.violation = Some(format!("{}: {}", k, v.text));
    }
}

// ------------------------------------------------------------------ generation

fn pick<'a, T>(r: &mut Rng, v: &'a [T]) -> &'a T {
    &v[r.below(v.len() as u64) as usize]
}

const NAMES: [&str; 33] = [
    "alice", "Alice", "ALICE", "alice2", "2alice", "malice", "al", "a", "ali", "alice ", " alice", "al.ce", "al*", "al?ce",
    "^alice", "alice$", "$1", "${0}", "alice|bob", "[a-z]+", "\\w", "bob", "Bob", "ünï", "ünïcode", "#bob", "-bob", "--user",
    "bob@example.org", "(bob)", "\u{feff}alice", "ali\u{200b}ce", "alice\u{301}",
];
const PASSES: [&str; 12] = [
    "secret", "Secret", "s", "p:w", "with space", " lead", "$1$2", "${0}", "pässwörd", "a\nb", "-x", "\\1",
];

fn phc(user: &str, pass: &str) -> String {
    driver::phc(pass, user)
}

fn initial(r: &mut Rng, max: u64) -> (String, Vec<(String, String)>) {
    let n = r.below(max + 1);
    let mut known: Vec<(String, String)> = Vec::new();
    let mut s = String::new();
    for _ in 0..n {
        let u = pick(r, &NAMES).to_string();
        if known.iter().any(|k| k.0 == u) {
            continue;
        }
        let p = pick(r, &PASSES).to_string();
        s.push_str(&format!("{}:{}\n", u, phc(&u, &p)));
        known.push((u, p));
    }
    // an entry twice: the later one counts
    if !known.is_empty() && r.below(8) == 0 {
        let i = r.below(known.len() as u64) as usize;
        let p = pick(r, &PASSES).to_string();
        let u = known[i].0.clone();
        s.push_str(&format!("{}:{}\n", u, phc(&format!("{}2", u), &p)));
        known[i].1 = p;
    }
    if r.below(3) == 0 {
        s.pop();
    }
    (s, known)
}

fn layout(r: &mut Rng) -> Layout {
    *pick(r, &[Layout::Plain, Layout::Plain, Layout::Relative, Layout::Link, Layout::Owned])
}

fn user(r: &mut Rng, known: &[(String, String)]) -> String {
    match r.below(20) {
        0..=7 if !known.is_empty() => pick(r, known).0.clone(),
        8 => {
            let mut s: String = (0..r.below(300)).map(|_| (b'a' + r.below(26) as u8) as char).collect();
            s.push('x');
            s
        }
        9 => pick(r, &["a:b", "alice:", ":", "x\ny", "alice\n", "\nalice", "bob:$argon2id$v=19"]).to_string(),
        10 if !known.is_empty() => {
            let k = pick(r, known).0.clone();
            match r.below(4) {
                0 => format!("{}x", k),
                1 => format!("x{}", k),
                2 => k.chars().skip(1).collect(),
                _ => k.to_uppercase(),
            }
        }
        11 if r.below(4) == 0 => String::new(),
        _ => pick(r, &NAMES).to_string(),
    }
}

/// One update and the faults to try on it.
pub fn case_b20(seed: u64) -> Case {
    let mut r = Rng::new(seed);
    let (mut s, known) = initial(&mut r, 6);
    let extra = if r.below(6) == 0 { 60 } else { 0 };
    if extra > 0 && !s.is_empty() && !s.ends_with('\n') {
        s.push('\n');
    }
    for i in 0..extra {
        s.push_str(&format!("user{}:{}\n", i, "$argon2id$v=19$m=8,t=1,p=1$c2FsdHNhbHQ$".to_string() + &"x".repeat(43)));
    }
    let u = loop {
        let u = user(&mut r, &known);
        if !must_refuse(&u) && !u.is_empty() {
            break u;
        }
    };
    let pass = if r.below(2) == 0 { None } else { Some(pick(&mut r, &PASSES).to_string()) };
    Case {
        seed,
        layout: layout(&mut r),
        initial: s,
        known,
        steps: vec![Step { user: u, pass, fault: None }],
        power: true,
        broker: false,
        secret: None,
        together: None,
    }
}

/// The faults to try, given the operations of the undisturbed update.
fn faults(log: &[(String, usize)]) -> Vec<String> {
    let mut v = Vec::new();
    for (k, (op, size)) in log.iter().enumerate() {
        v.push(format!("{} K 0", k));
        let mut e = |x: i32| v.push(format!("{} E {}", k, x));
        match op.as_str() {
            "open" => [libc::EACCES, libc::EMFILE, libc::ENOSPC, libc::EINTR].map(&mut e).len(),
            "read" => [libc::EIO, libc::EINTR].map(&mut e).len(),
            "write" => [libc::ENOSPC, libc::EIO, libc::EINTR].map(&mut e).len(),
            "fsync" | "sync" => [libc::EIO, libc::ENOSPC].map(&mut e).len(),
            "rename" | "link" => [libc::EACCES, libc::EIO, libc::ENOSPC].map(&mut e).len(),
            "close" => [libc::EIO].map(&mut e).len(),
            "fchmod" | "fchown" | "chmod" => [libc::EPERM].map(&mut e).len(),
            "ftruncate" | "truncate" => [libc::EIO].map(&mut e).len(),
            "unlink" => [libc::EIO].map(&mut e).len(),
            "flock" | "fcntl" => [libc::EINTR, libc::ENOLCK].map(&mut e).len(),
            "mkdir" | "symlink" => [libc::ENOSPC].map(&mut e).len(),
            _ => 0,
        };
        if op == "read" {
            v.push(format!("{} S 1", k));
        }
        if op == "write" {
            for n in [1, size / 2, size.saturating_sub(1)] {
                if n > 0 && n < *size {
                    v.push(format!("{} S {}", k, n));
                    v.push(format!("{} T {}", k, n));
                }
            }
            v.push(format!("{} S 0", k));
            v.push(format!("{} F {}", k, libc::ENOSPC));
        }
    }
    // the disk is full from some point on
    v.push(format!("{} K 0", log.len()));
    v
}

pub fn case_b21(seed: u64) -> Case {
    let mut r = Rng::new(seed);
    let (s, known) = initial(&mut r, 7);
    let n = 1 + r.below(5);
    let mut names: Vec<(String, String)> = known.clone();
    let mut steps = Vec::new();
    for _ in 0..n {
        let u = user(&mut r, &names);
        let pass = match r.below(10) {
            0..=3 => None,
            4 => Some(format!("{}{}", pick(&mut r, &PASSES), "y".repeat(r.below(200) as usize))),
            5 if r.below(3) == 0 => Some(String::new()),
            _ => Some(pick(&mut r, &PASSES).to_string()),
        };
        if !names.iter().any(|x| x.0 == u) && !must_refuse(&u) {
            names.push((u.clone(), String::new()));
        }
        let fault = match r.below(8) {
            0 => Some(format!("{} E {}", r.below(16), libc::EINTR)),
            1 => Some(format!("{} S {}", r.below(16), 1 + r.below(60))),
            _ => None,
        };
        steps.push(Step { user: u, pass, fault });
    }
    Case { seed, layout: layout(&mut r), initial: s, known, steps, power: false, broker: true, secret: None, together: None }
}

/// Who may read what: one update with every fault, or many updates in a row.
pub fn case_b28(seed: u64) -> Case {
    let mut r = Rng::new(seed ^ 0xB28);
    let (s, known) = initial(&mut r, 5);
    let x = Secret {
        mode: *pick(&mut r, &[0o600, 0o600, 0o640, 0o640, 0o400, 0o660, 0o644, 0o440]),
        uid: *pick(&mut r, &[0, 65534, 65534, 1234]),
        gid: *pick(&mut r, &[0, 65534, 65534, 1234]),
        umask: *pick(&mut r, &[0o022, 0o022, 0o002, 0, 0o077]),
        log: pick(&mut r, &["", "", "info", "trace", "trace"]).to_string(),
    };
    let long = r.below(3) == 0;
    let n = if long { 12 + r.below(30) } else { 1 };
    let mut names: Vec<(String, String)> = known.clone();
    let mut steps: Vec<Step> = Vec::new();
    for _ in 0..n {
        let u = loop {
            let u = if long && !steps.is_empty() && r.below(3) > 0 {
                steps[r.below(steps.len() as u64) as usize].user.clone()
            } else {
                user(&mut r, &names)
            };
            if (long || !must_refuse(&u)) && !u.is_empty() {
                break u;
            }
        };
        if !names.iter().any(|x| x.0 == u) && !must_refuse(&u) {
            names.push((u.clone(), String::new()));
        }
        let mut p = pick(&mut r, &PASSES).to_string();
        if r.below(4) == 0 {
            p.push_str(&"y".repeat(r.below(200) as usize));
        }
        let pass = if r.below(if long { 8 } else { 4 }) == 0 { None } else { Some(crate::leak::mark(&p, seed)) };
        steps.push(Step { user: u, pass, fault: None });
    }
    let layout = *pick(&mut r, &[Layout::Plain, Layout::Plain, Layout::Relative, Layout::Link]);
    Case { seed, layout, initial: s, known, steps, power: false, broker: false, secret: Some(x), together: None }
}

// ------------------------------------------------------------------ the check

pub struct Scratch_(Scratch);

fn scratch(tag: usize) -> Scratch_ {
    // a fixed length and no symbolic links, so that file operations do not depend on it
    let base = std::env::temp_dir();
    let base = std::fs::canonicalize(&base).unwrap_or(base);
    Scratch_(Scratch { dir: base.join(format!("ratelmq-pw-{:07}", std::process::id() % 10_000_000)).join(format!("w{:03}", tag)) })
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct Part {
    res: Res,
    cases: u64,
    sigs: BTreeSet<u64>,
    failed: Option<(u64, Case, String)>,
    samples: Vec<Case>,
}

fn ops_of(res: &Res) -> Vec<(String, usize)> {
    res.trace
        .iter()
        .filter_map(|l| {
            let w: Vec<&str> = l.strip_prefix("  ")?.split(' ').collect();
            w.first()?.parse::<usize>().ok()?;
            Some((w.get(1)?.to_string(), w.get(2)?.parse().unwrap_or(0)))
        })
        .collect()
}

fn sig(case: &Case, res: &Res) -> u64 {
    let mut t = String::new();
    for l in &res.trace {
        t.push_str(l);
        t.push('\n');
    }
    hash(format!("{}{:?}{}", case.initial, case.layout, t).as_bytes()) ^ res.broker_sig
}

/// All runs of one index.
fn index(prop: &str, seed: u64, i: u64, s: &Scratch_, pool: &mut Option<Pool>, part: &mut Part) {
    let mut one = |case: Case, part: &mut Part| -> Option<Res> {
        let r = run(&case, s, pool);
        part.cases += 1;
        part.sigs.insert(sig(&case, &r));
        part.res.merge(r.clone());
        if let Some(e) = &r.harness {
            part.res.harness.get_or_insert(e.clone());
            return None;
        }
        if let Some(v) = &r.violation {
            if part.failed.is_none() {
                part.failed = Some((i, case, v.clone()));
            }
            return None;
        }
        if part.samples.is_empty() {
            part.samples.push(case);
        }
        Some(r)
    };
    if prop == "B21" {
        one(case_b21(seed), part);
        return;
    }
    if prop == "B29" {
        one(together::case(seed), part);
        return;
    }
    let case = if prop == "B28" { case_b28(seed) } else { case_b20(seed) };
    let Some(clean) = one(case.clone(), part) else { return };
    if case.steps.len() > 1 {
        return;
    }
    let log = ops_of(&clean);
    for f in faults(&log) {
        let mut c = case.clone();
        c.steps[0].fault = Some(f.clone());
        let Some(r) = one(c.clone(), part) else { return };
        let _ = r;
        // the same command again, after the failure
        let mut rng = Rng::new(seed ^ hash(f.as_bytes()));
        if rng.below(4) == 0 || prop == "B28" && f.contains('K') {
            c.steps.push(case.steps[0].clone());
            if one(c, part).is_none() {
                return;
            }
        }
    }
}

fn simpler(c: &Case) -> Vec<Case> {
    let mut out = Vec::new();
    for i in 0..c.steps.len() {
        if c.steps.len() > 1 {
            let mut q = c.clone();
            q.steps.remove(i);
            out.push(q);
        }
    }
    let ls = lines(&c.initial);
    let nl = c.initial.ends_with('\n');
    if ls.len() > 2 {
        for (a, b) in [(0, ls.len() / 2), (ls.len() / 2, ls.len())] {
            let mut q = c.clone();
            let v: Vec<&str> = ls[a..b].to_vec();
            q.initial = v.join("\n") + if nl { "\n" } else { "" };
            q.known.retain(|k| v.iter().any(|l| name_of(l) == k.0));
            out.push(q);
        }
    }
    for i in 0..ls.len() {
        let mut v = ls.clone();
        v.remove(i);
        let mut q = c.clone();
        q.initial = v.join("\n") + if nl && !v.is_empty() { "\n" } else { "" };
        let names: Vec<String> = v.iter().map(|l| name_of(l).to_string()).collect();
        // an entry that was there twice has another password now
        if names.len() != names.iter().collect::<BTreeSet<_>>().len()
            || ls.iter().filter(|l| name_of(l) == name_of(ls[i])).count() > 1
        {
            continue;
        }
        q.known.retain(|k| names.contains(&k.0));
        out.push(q);
    }
    for i in 0..c.steps.len() {
        if c.steps[i].fault.is_some() {
            let mut q = c.clone();
            q.steps[i].fault = None;
            out.push(q);
        }
        if c.steps[i].pass.as_deref().map_or(false, |p| p != "x") {
            let mut q = c.clone();
            q.steps[i].pass = Some("x".into());
            out.push(q);
        }
    }
    if let Some(t) = &c.together {
        for t in t.simpler() {
            let mut q = c.clone();
            q.together = Some(t);
            out.push(q);
        }
    }
    if c.layout != Layout::Plain {
        let mut q = c.clone();
        q.layout = Layout::Plain;
        out.push(q);
    }
    if !c.initial.is_empty() && !nl {
        let mut q = c.clone();
        q.initial.push('\n');
        out.push(q);
    }
    out
}

#[derive(Serialize, Deserialize)]
pub struct PwReplay {
    pub passwd: bool,
    pub property: String,
    pub text: String,
    pub case: Case,
    pub verif_seed: u64,
    pub original_index: u64,
    pub signature: u64,
    pub minimise_runs: usize,
    pub trace: Vec<String>,
}

pub fn check(prop: &str, args: &Args) -> i32 {
    let began = Instant::now();
    let thorough = args.tier == "thorough";
    let quick = match prop {
        "B20" => 96,
        "B28" => 160,
        "B29" => 2400,
        _ => 640,
    };
    let n = args.runs.unwrap_or(if thorough { quick * 60 } else { quick });
    let cap = args.seconds.unwrap_or(if thorough { 3600 } else { 240 });
    println!("check {} tier={} VERIF_SEED={} cases={}", prop, args.tier, args.seed, n);
    let s0 = scratch(0);
    let dir = s0.0.dir.parent().expect("parent").to_path_buf();
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch");
    let workers = args.jobs.max(1);
    let names: Vec<Scratch_> = (0..workers).map(scratch).collect();
    let mut pids = Vec::new();
    for w in 0..workers {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            }
            let mut part = Part::default();
            let mut pool = None;
            let mut i = w as u64;
            while i < n && began.elapsed().as_secs() < cap && part.failed.is_none() && part.res.harness.is_none() {
                let seed = driver::run_seed(args.seed, prop, args.start + i);
                index(prop, seed, args.start + i, &names[w], &mut pool, &mut part);
                i += workers as u64;
            }
            drop(pool);
            part.res.trace.clear();
            std::fs::write(dir.join(format!("part{}", w)), serde_json::to_vec(&part).expect("json")).expect("part");
            unsafe { libc::_exit(0) }
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe {
            libc::waitpid(p, &mut st, 0);
        }
    }
    let mut tot = Part::default();
    for w in 0..workers {
        let part: Part = match std::fs::read(dir.join(format!("part{}", w))).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
            Some(p) => p,
            None => {
                eprintln!("harness error: worker {} gave no result", w);
                let _ = std::fs::remove_dir_all(&dir);
                return 2;
            }
        };
        if let Some(e) = &part.res.harness {
            tot.res.harness.get_or_insert(e.clone());
        }
        tot.cases += part.cases;
        tot.sigs.extend(part.sigs.iter().copied());
        if tot.samples.len() < 3 {
            tot.samples.extend(part.samples.iter().cloned());
        }
        if let Some(f) = part.failed.clone() {
            if tot.failed.as_ref().map_or(true, |g| f.0 < g.0) {
                tot.failed = Some(f);
            }
        }
        tot.res.merge(part.res);
    }
    let mut code = 0;
    if let Some((i, case, text)) = tot.failed.clone() {
        println!("violation in case {}: {}", i, text);
        let s = scratch(0);
        let mut pool = None;
        let mut tried = 0;
        let mut case = case;
        let until = Instant::now() + std::time::Duration::from_secs(args.shrink);
        'again: loop {
            for q in simpler(&case) {
                if Instant::now() > until {
                    break 'again;
                }
                tried += 1;
                let r = run(&q, &s, &mut pool);
                if r.violation.is_some() && r.harness.is_none() {
                    case = q;
                    continue 'again;
                }
            }
            break;
        }
        let a = run(&case, &s, &mut pool);
        let b = run(&case, &s, &mut pool);
        drop(pool);
        if sig(&case, &a) != sig(&case, &b) {
            println!("note: the two replays differ");
        }
        let text = a.violation.clone().unwrap_or(text);
        println!("minimised in {} runs: {}", tried, text);
        for l in a.trace.iter().take(80) {
            println!("  {}", l);
        }
        let f = PwReplay {
            passwd: true,
            property: prop.into(),
            text,
            signature: sig(&case, &a),
            case,
            verif_seed: args.seed,
            original_index: i,
            minimise_runs: tried,
            trace: a.trace.clone(),
        };
        let d = root().join("replays");
        let _ = std::fs::create_dir_all(&d);
        let path = d.join(format!("{}-{:016x}.json", prop, driver::run_seed(args.seed, prop, i)));
        std::fs::write(&path, serde_json::to_vec_pretty(&f).expect("json")).expect("replay");
        println!("VIOLATION property={} replay={}", prop, path.display());
        code = 1;
    } else if let Some(e) = &tot.res.harness {
        eprintln!("harness error: {}", e);
        code = 2;
    }
    let _ = std::fs::remove_dir_all(&dir);
    let wall = began.elapsed().as_secs_f64();
    evidence(prop, args, &tot, code, wall);
    println!(
        "{}: {} cases, {} runs of the tool, {} file operations, {} states judged ({} distinct), {} broker runs, {:.1} s wall",
        prop,
        tot.cases,
        tot.res.runs,
        tot.res.ops,
        tot.res.states,
        tot.res.state_hashes.len(),
        tot.res.broker_runs,
        wall
    );
    code
}

fn evidence(prop: &str, args: &Args, t: &Part, code: i32, wall: f64) {
    let samples: Vec<serde_json::Value> = t
        .samples
        .iter()
        .map(|c| {
            serde_json::json!({
                "seed": c.seed, "layout": format!("{:?}", c.layout),
                "initial_names": lines(&c.initial).iter().take(8).map(|l| name_of(l)).collect::<Vec<_>>(),
                "final_newline": c.initial.ends_with('\n'),
                "steps": c.steps,
            })
        })
        .collect();
    let rule = if prop == "B28" {
        "One evaluation is one history of simulated runs of ratelmq-passwd on a file with a generated owner, group and mode, under a generated umask and log level: one update undisturbed, or with one fault at one of its file operations (each operation gets every kind that applies to it, including a kill before it) and for kills the same command again; or a dozen to forty updates in a row with repeated users and passwords. After every run every file below the directory is judged (who may read it, whether a password stands in it), and so are the new entry and all the tool printed. Two are distinct if file, layout, command, fault or recorded operations differ; all are non-trivial, since each performs an update."
    } else if prop == "B29" {
        "One evaluation is one interleaving of two to four simulated runs of ratelmq-passwd on one generated file: a scheduler lets one run do one file operation at a time (also those that only look), in an order drawn from the seed in one of several styles (evenly mixed, long turns, few switches), in some with a kill or an error at one operation of one run. The file is judged after every operation, the outcome at the end. Two are distinct if file, layout, commands, faults or the sequence of operations differ; all are non-trivial, since at least two updates overlap."
    } else if prop == "B20" {
        "One evaluation is one history of simulated runs of ratelmq-passwd from a generated file: an update undisturbed, or with one fault at one of its file operations (each operation of the update gets every kind that applies to it, including a kill before it), or followed by the same command again; for the last run of each, every state a power loss may leave after each operation is derived and judged. Two are distinct if file, layout, command, fault or recorded operations differ; all are non-trivial, since each performs an update."
    } else {
        "One evaluation is one history of one to five simulated runs of ratelmq-passwd with generated names and passwords, judged after each run, followed by a simulated execution of the broker with the resulting file and clients that try right, wrong, replaced and deleted credentials. Two are distinct if file, layout, commands, faults, recorded operations or the broker's schedule differ."
    };
    let v = serde_json::json!({
        "property": prop,
        "tier": args.tier,
        "seed": args.seed,
        "level": if prop == "B20" || prop == "B28" { "fault_enumeration" } else { "exploration" },
        "coverage": {
            "evaluations": t.cases,
            "distinct_nontrivial": t.sigs.len(),
            "rule": rule,
            "samples": samples,
            "seeds_per_hour": (t.cases as f64 / wall * 3600.0).round(),
            "tool_runs": t.res.runs,
            "file_operations": t.res.ops,
            "file_states_judged": t.res.states,
            "distinct_file_states": t.res.state_hashes.len(),
            "faults_fired": t.res.faults,
            "runs_reported_success": t.res.exits_ok,
            "runs_failed_or_killed": t.res.exits_fail,
            "faulted_runs_the_file_system_model_could_not_follow": t.res.unmodelled,
            "broker_runs": t.res.broker_runs,
            "broker_connection_attempts": t.res.broker_connects,
            "real_code": "ratelmq-passwd's binary built from /repo's working tree, including clap, regex and argon2; for B21 also the broker with its real password-file reader and verifier",
            "stubs": "file system calls of libc (recorded, failed, shortened, cut off; fsync not performed), entropy, clocks, process id; for the broker: network, scheduling, clocks, entropy",
        },
        "assumptions": [
            "After a power loss directory changes survive in order up to some point, at least to the last successful fsync of their directory; file contents survive independently, at least to the last successful fsync, the first lost write possibly in part or as zeroes.",
            "The tool reaches the file system through libc (checked: the recorded operations of every undisturbed run must reproduce the real file)."
        ],
        "wall_s": wall,
        "violations": if code == 1 { 1 } else { 0 },
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", prop)), serde_json::to_vec_pretty(&v).expect("json")).expect("evidence");
}

pub fn replay(path: &Path, f: PwReplay) -> i32 {
    let s = scratch(0);
    let dir = s.0.dir.parent().expect("parent").to_path_buf();
    std::fs::create_dir_all(&dir).expect("scratch");
    let mut pool = None;
    let r = run(&f.case, &s, &mut pool);
    drop(pool);
    let _ = std::fs::remove_dir_all(&dir);
    for l in &r.trace {
        println!("{}", l);
    }
    if let Some(e) = &r.harness {
        eprintln!("harness error: {}", e);
        return 2;
    }
    match &r.violation {
        Some(t) => {
            println!("{}", t);
            if sig(&f.case, &r) == f.signature {
                println!("replayed exactly ({:016x})", f.signature);
            } else {
                println!("the code has changed since: still a violation, other operations");
            }
            println!("VIOLATION property={} replay={}", f.property, path.display());
            1
        }
        None => {
            println!("the violation does not occur");
            0
        }
    }
}

/// Development aid: prints one case.
pub fn one(prop: &str, i: u64, args: &Args) -> i32 {
    let s = scratch(0);
    let dir = s.0.dir.parent().expect("parent").to_path_buf();
    std::fs::create_dir_all(&dir).expect("scratch");
    let seed = driver::run_seed(args.seed, prop, i);
    let c = match prop {
        "B20" => case_b20(seed),
        "B28" => case_b28(seed),
        "B29" => together::case(seed),
        _ => case_b21(seed),
    };
    println!("{:?} {}", c.layout, c.initial);
    let mut pool = None;
    let r = run(&c, &s, &mut pool);
    drop(pool);
    let _ = std::fs::remove_dir_all(&dir);
    for l in &r.trace {
        println!("{}", l);
    }
    println!("{:?} {:?} states {} sig {:016x}", r.violation, r.harness, r.states, sig(&c, &r));
    0
}
