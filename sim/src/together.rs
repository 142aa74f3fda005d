//! Several runs of ratelmq-passwd on one file at once: the seam asks for leave before every file
//! operation, and a schedule drawn from the seed says who is next. One run moves at a time.
use super::*;
use std::collections::HashMap;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};

/// Operations until runs that take turns without end are given up.
const LIMIT: usize = 3000;
/// Operations in a row after which another run has its turn.
const TURN: usize = 60;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Together {
    /// Who is next, among the runs that can go on (modulo their number); then the first of them.
    pub picks: Vec<u8>,
}

impl Together {
    pub fn simpler(&self) -> Vec<Together> {
        let mut out = Vec::new();
        let n = self.picks.len();
        let mut size = n;
        while size > 0 {
            let mut i = 0;
            while i < n {
                let mut p = self.picks.clone();
                p.drain(i..(i + size).min(n));
                out.push(Together { picks: p });
                i += size;
            }
            if size <= 4 {
                for i in (0..n).step_by(size) {
                    if self.picks[i..(i + size).min(n)].iter().any(|x| *x != 0) {
                        let mut p = self.picks.clone();
                        p[i..(i + size).min(n)].fill(0);
                        out.push(Together { picks: p });
                    }
                }
            }
            size /= 2;
        }
        out
    }
}

struct Actor {
    child: std::process::Child,
    pipe: Option<std::fs::File>,
    log: PathBuf,
    read: u64,
    lines: usize,
    /// Found a lock held, and nobody else has moved since.
    blocked: bool,
    status: Option<std::process::ExitStatus>,
    began: Option<usize>,
    ended: Option<usize>,
}

impl Actor {
    fn start(s: &Scratch, case: &Case, i: usize) -> Result<Actor, String> {
        let st = &case.steps[i];
        let mut ends = [0i32; 2];
        if unsafe { libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, ends.as_mut_ptr()) } != 0 {
            return Err("socketpair".into());
        }
        let (mine, theirs) = unsafe { (std::fs::File::from_raw_fd(ends[0]), OwnedFd::from_raw_fd(ends[1])) };
        let log = s.dir.with_extension(format!("log{}", i));
        let mut c = std::process::Command::new(root().join("build/pw/debug/ratelmq-passwd"));
        c.env_clear()
            .env("LD_PRELOAD", root().join("build/pwshim.so"))
            .env("PWSIM_SCRATCH", &s.dir)
            .env("PWSIM_LOG", &log)
            .env("PWSIM_SEED", case.seed.wrapping_add(i as u64).to_string())
            .env("PWSIM_PID", (4242 + i).to_string())
            .env("PWSIM_CTL", "900")
            .env("RUST_BACKTRACE", "0")
            .env("LANG", "C.UTF-8")
            .current_dir(&s.dir)
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .arg(format!("--file={}", s.arg(case.layout)))
            .arg(format!("--user={}", st.user));
        match &st.pass {
            Some(p) => c.arg(format!("--password={}", p)),
            None => c.arg("-d"),
        };
        if let Some(f) = &st.fault {
            c.env("PWSIM_FAULT", f);
        }
        let fd = theirs.as_raw_fd();
        unsafe {
            c.pre_exec(move || {
                libc::dup2(fd, 900);
                let l = libc::rlimit { rlim_cur: 20, rlim_max: 20 };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
                let l = libc::rlimit { rlim_cur: 64 << 20, rlim_max: 64 << 20 };
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &l);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let child = c.spawn().map_err(|e| format!("cannot start ratelmq-passwd: {}", e))?;
        Ok(Actor {
            child,
            pipe: Some(mine),
            log,
            read: 0,
            lines: 0,
            blocked: false,
            status: None,
            began: None,
            ended: None,
        })
    }

    /// Waits until the run asks for leave or is over.
    fn settle(&mut self, at: usize) -> Result<(), String> {
        let Some(p) = &mut self.pipe else { return Ok(()) };
        let mut b = [0u8; 1];
        match p.read(&mut b) {
            Ok(1) => self.blocked = b[0] == b'b',
            _ => {
                self.pipe = None;
                self.status = Some(self.child.wait().map_err(|e| e.to_string())?);
                self.ended = Some(at);
            }
        }
        Ok(())
    }

    /// What it did since the last call.
    fn news(&mut self) -> Vec<Vec<String>> {
        let mut t = String::new();
        if let Ok(mut f) = std::fs::File::open(&self.log) {
            let _ = f.seek(SeekFrom::Start(self.read));
            let _ = f.read_to_string(&mut t);
        }
        // a line without its end belongs to an operation that is not over
        let full = if self.status.is_some() { t.len() } else { t.rfind('\n').map_or(0, |x| x + 1) };
        self.read += full as u64;
        let v: Vec<Vec<String>> =
            t[..full].lines().map(|l| l.split(' ').filter(|w| !w.is_empty()).map(|w| w.to_string()).collect()).collect();
        self.lines += v.len();
        v
    }
}

impl Drop for Actor {
    fn drop(&mut self) {
        if self.status.is_none() {
            let _ = self.child.kill();
            let _ = self.child.wait();
        }
    }
}

/// What entries there may be.
struct Entries<'a> {
    case: &'a Case,
    initial: Vec<&'a str>,
    verified: HashMap<(usize, String), bool>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Has {
    Initial,
    /// What this run was to write.
    Of(usize),
}

impl<'a> Entries<'a> {
    fn by(&mut self, i: usize, mine: &[&str]) -> bool {
        let st = &self.case.steps[i];
        match &st.pass {
            None => mine.is_empty(),
            Some(p) => {
                !mine.is_empty()
                    && mine.iter().all(|l| {
                        let h = l.split_once(':').map(|x| x.1).unwrap_or("");
                        *self.verified.entry((i, h.to_string())).or_insert_with(|| match PasswordHash::new(h) {
                            Ok(x) => argon2::Argon2::default().verify_password(p.as_bytes(), &x).is_ok(),
                            Err(_) => false,
                        })
                    })
            }
        }
    }

    /// For each user the runs are about: whose entry there is.
    fn judge(&mut self, c: &[u8]) -> Result<BTreeMap<String, Vec<Has>>, String> {
        let Ok(c) = std::str::from_utf8(c) else { return Err("the file is not text any more".into()) };
        let users: BTreeSet<&str> = self.case.steps.iter().map(|s| s.user.as_str()).collect();
        let now = lines(c);
        let pick = |v: &[&'a str]| -> Vec<&'a str> { v.iter().copied().filter(|l| !users.contains(name_of(l))).collect() };
        let mut before = pick(&self.initial);
        let mut after: Vec<&str> = now.iter().copied().filter(|l| !users.contains(name_of(l))).collect();
        before.sort();
        after.sort();
        if before != after {
            let lost = before.iter().find(|l| !after.contains(l));
            let extra = after.iter().find(|l| !before.contains(l));
            return Err(match (lost, extra) {
                (Some(l), Some(x)) => format!("the entry {} has become {}", short(l), short(x)),
                (Some(l), None) => format!("the entry {} is gone", short(l)),
                (None, Some(x)) => format!("{} has appeared", short(x)),
                _ => "an entry of another user has been duplicated or merged".into(),
            });
        }
        let mut out = BTreeMap::new();
        for u in users {
            let mine: Vec<&str> = now.iter().copied().filter(|l| name_of(l) == u).collect();
            let old: Vec<&str> = self.initial.iter().copied().filter(|l| name_of(l) == u).collect();
            let mut has = Vec::new();
            if mine == old {
                has.push(Has::Initial);
            }
            for i in 0..self.case.steps.len() {
                if self.case.steps[i].user == u && self.by(i, &mine) {
                    has.push(Has::Of(i));
                }
            }
            if has.is_empty() {
                return Err(format!("the entry of {:?} is none that was ever set: {}", u, short(&mine.join("\n"))));
            }
            if mine.len() > old.len().max(1) {
                return Err(format!("{:?} has {} entries", u, mine.len()));
            }
            out.insert(u.to_string(), has);
        }
        Ok(out)
    }
}

pub fn run(case: &Case, t: &Together, s: &Scratch) -> Res {
    let mut res = Res::default();
    s.fresh(case.layout, case.initial.as_bytes());
    let begin: Vec<PathBuf> = all_files(&s.dir).into_iter().map(|f| f.0).collect();
    let n = case.steps.len();
    for (i, st) in case.steps.iter().enumerate() {
        let what = match &st.pass {
            Some(p) => format!("set {:?} to {:?}", st.user, p),
            None => format!("delete {:?}", st.user),
        };
        res.trace.push(match &st.fault {
            Some(f) => format!("run {}: {} with fault [{}]", i, what, f),
            None => format!("run {}: {}", i, what),
        });
    }
    let mut actors: Vec<Actor> = Vec::new();
    for i in 0..n {
        match Actor::start(s, case, i).and_then(|mut a| a.settle(0).map(|_| a)) {
            Ok(a) => actors.push(a),
            Err(e) => {
                res.harness = Some(e);
                return res;
            }
        }
    }
    res.runs = n as u64;
    let mut e = Entries { case, initial: lines(&case.initial), verified: HashMap::new() };
    let mut seen: HashMap<Vec<u8>, Result<(), String>> = HashMap::new();
    let mut at = 0;
    let mut pick = 0;
    let mut last = usize::MAX;
    let mut turn = 0;
    let mut faulted = vec![false; n];
    loop {
        let live: Vec<usize> = (0..n).filter(|i| actors[*i].pipe.is_some()).collect();
        if live.is_empty() {
            break;
        }
        let able: Vec<usize> = live.iter().copied().filter(|i| !actors[*i].blocked).collect();
        if able.is_empty() {
            let v: Vec<String> = live.iter().map(|i| format!("run {}", i)).collect();
            res.violation = Some(format!("{} wait for a lock that nobody gives back", v.join(" and ")));
            return res;
        }
        if at >= LIMIT {
            res.violation = Some(format!("after {} operations the runs have not come to an end", at));
            return res;
        }
        let p = t.picks.get(pick).copied().unwrap_or(0) as usize;
        pick += 1;
        // once the drawn turns are over, each goes on until its end, but one that tries again and again must not
        // keep the others from going on
        let who = if pick <= t.picks.len() {
            able[p % able.len()]
        } else if able.contains(&last) && turn < TURN {
            last
        } else {
            able.iter().copied().find(|i| *i > last).unwrap_or(able[0])
        };
        turn = if who == last { turn + 1 } else { 0 };
        last = who;
        at += 1;
        let a = &mut actors[who];
        a.began.get_or_insert(at);
        let was = a.blocked;
        if let Err(x) = a.pipe.as_mut().expect("alive").write_all(b"x").map_err(|e| e.to_string()).and_then(|_| a.settle(at)) {
            res.harness = Some(x);
            return res;
        }
        let news = a.news();
        let wait = a.blocked && news.is_empty();
        let _ = was;
        for l in &news {
            res.ops += 1;
            res.trace.push(format!("  run {}: {}", who, describe(l)));
            if let Some(f) = &case.steps[who].fault {
                let k = f.split(' ').next().unwrap_or("");
                if l.first().map(|x| x.as_str()) == Some(k) {
                    faulted[who] = true;
                }
            }
        }
        if wait {
            res.trace.push(format!("  run {}: waits for a lock", who));
        } else {
            for x in actors.iter_mut() {
                x.blocked = false;
            }
        }
        if let Some(st) = actors[who].status {
            let ok = st.code() == Some(0);
            if ok {
                res.exits_ok += 1;
            } else {
                res.exits_fail += 1;
            }
            if matches!(st.signal(), Some(libc::SIGXCPU) | Some(libc::SIGXFSZ)) {
                res.violation = Some(format!("run {} did not come to an end", who));
                return res;
            }
            if st.signal() == Some(libc::SIGKILL) {
                faulted[who] = true;
            }
            res.trace.push(match (st.code(), st.signal()) {
                (Some(0), _) => format!("  run {} reports success", who),
                (_, Some(x)) => format!("  run {} is killed by signal {}", who, x),
                (c, _) => format!("  run {} fails with status {}", who, c.unwrap_or(-1)),
            });
            if !ok && !faulted[who] {
                res.violation = Some(format!(
                    "run {} failed ({}), though nothing but other runs was in its way",
                    who,
                    st.code().map(|c| format!("status {}", c)).unwrap_or_else(|| "killed".into())
                ));
                return res;
            }
        }
        // the file is whole at every moment
        let Some(c) = s.content(case.layout) else {
            res.violation = Some(format!("after an operation of run {} the file is gone", who));
            return res;
        };
        res.states += 1;
        res.state_hashes.insert(hash(&c));
        let v = match seen.get(&c) {
            Some(v) => v.clone(),
            None => {
                let v = e.judge(&c).map(|_| ());
                seen.insert(c, v.clone());
                v
            }
        };
        if let Err(x) = v {
            res.violation = Some(format!("after an operation of run {}: {}", who, x));
            return res;
        }
    }
    for (i, f) in faulted.iter().enumerate() {
        if *f {
            let w: Vec<&str> = case.steps[i].fault.as_deref().unwrap_or("").split(' ').collect();
            let k = match w.get(1).copied().unwrap_or("") {
                "K" | "T" => "a run killed among others".to_string(),
                "E" => format!("an operation of one run fails with {}", errno(w.get(2).and_then(|x| x.parse().ok()).unwrap_or(0))),
                "F" => "the disk is full for one run".to_string(),
                _ => "a short write or read of one run".to_string(),
            };
            *res.faults.entry(k).or_insert(0) += 1;
        }
    }
    let waited = res.trace.iter().filter(|l| l.ends_with("waits for a lock")).count() as u64;
    *res.faults.entry("a run found the file locked by another".into()).or_insert(0) += waited;
    let c = s.content(case.layout).unwrap_or_default();
    let end = match e.judge(&c) {
        Ok(x) => x,
        Err(x) => {
            res.violation = Some(format!("in the end {}", x));
            return res;
        }
    };
    for (u, has) in end {
        let good: Vec<usize> = (0..n)
            .filter(|i| case.steps[*i].user == u && actors[*i].status.map_or(false, |s| s.code() == Some(0)))
            .collect();
        let mut may: Vec<Has> = Vec::new();
        for i in 0..n {
            if case.steps[i].user != u {
                continue;
            }
            // superseded by a run that succeeded and began after this one was over?
            let over = good.iter().any(|j| *j != i && actors[*j].began > actors[i].ended);
            if !over {
                may.push(Has::Of(i));
            }
        }
        if good.is_empty() {
            may.push(Has::Initial);
        }
        if !has.iter().any(|h| may.contains(h)) {
            let v: Vec<String> = good.iter().map(|i| format!("run {}", i)).collect();
            res.violation = Some(format!(
                "{} reported success, but in the end the entry of {:?} is {}",
                v.join(" and "),
                u,
                match has[0] {
                    Has::Initial => "the one of the beginning".to_string(),
                    Has::Of(i) => format!("the one of run {}, which had ended before", i),
                }
            ));
            return res;
        }
    }
    if !faulted.iter().any(|f| *f) {
        let files: Vec<PathBuf> = all_files(&s.dir).into_iter().map(|f| f.0).collect();
        if let Some(f) = files.iter().find(|f| !begin.contains(f)) {
            let f = f.strip_prefix(&s.dir).unwrap_or(f);
            res.violation = Some(format!("all runs are over, but {} is left", f.display()));
        }
    }
    res
}

pub fn case(seed: u64) -> Case {
    let mut r = Rng::new(seed ^ 0xB29);
    let (s, known) = initial(&mut r, 5);
    let n = *pick(&mut r, &[2usize, 2, 2, 3, 3, 4]);
    let mut steps: Vec<Step> = Vec::new();
    while steps.len() < n {
        let u = if !steps.is_empty() && r.below(4) == 0 {
            steps[r.below(steps.len() as u64) as usize].user.clone()
        } else {
            user(&mut r, &known)
        };
        if must_refuse(&u) || u.is_empty() || u.chars().any(|c| c.is_control()) {
            continue;
        }
        let pass = if r.below(3) == 0 { None } else { Some(format!("{}{}", pick(&mut r, &PASSES), steps.len())) };
        steps.push(Step { user: u, pass, fault: None });
    }
    if r.below(3) == 0 {
        let i = r.below(n as u64) as usize;
        let k = r.below(22);
        steps[i].fault = Some(match r.below(6) {
            0..=3 => format!("{} K 0", k),
            4 => format!("{} E {}", k, pick(&mut r, &[libc::ENOSPC, libc::EIO])),
            _ => format!("{} T {}", k, 1 + r.below(60)),
        });
    }
    let len = 30 * n;
    let mut picks = Vec::with_capacity(len);
    match r.below(4) {
        0 => picks.extend((0..len).map(|_| r.below(12) as u8)),
        // long turns
        1 | 2 => {
            let mean = *pick(&mut r, &[2u64, 4, 8]);
            let mut x = r.below(12) as u8;
            for _ in 0..len {
                if r.below(mean) == 0 {
                    x = r.below(12) as u8;
                }
                picks.push(x);
            }
        }
        // few switches
        _ => {
            let mut x = r.below(12) as u8;
            let mut at: Vec<usize> = (0..1 + r.below(4)).map(|_| r.below(len as u64) as usize).collect();
            at.sort();
            for i in 0..len {
                if at.contains(&i) {
                    x = x.wrapping_add(1 + r.below(3) as u8) % 12;
                }
                picks.push(x);
            }
        }
    }
    Case {
        seed,
        layout: layout(&mut r),
        initial: s,
        known,
        steps,
        power: false,
        broker: false,
        secret: None,
        together: Some(Together { picks }),
    }
}
