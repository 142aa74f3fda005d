//! Start-up of the whole broker from generated configuration files and environments.
use crate::exec::{addr, World, W};
use crate::gen::USERS;
use crate::mqtt;
use serde::{Deserialize, Serialize};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;
use tokio::sim::{net as snet, Rng};

const SEC: u64 = 1_000_000_000;
/// Addresses that a configuration may name.
pub const PLACES: usize = 6;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Expect {
    pub listeners: Vec<usize>,
    /// The password file in use.
    pub passwd: usize,
}

/// `@DIR@` stands for the scratch directory.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Setup {
    /// The configuration file; none if it is missing.
    pub file: Option<String>,
    pub env: Vec<(String, String)>,
    /// The name of the file.
    pub name: String,
    /// Addresses at which nobody can listen, and the error number.
    pub taken: Vec<(usize, i32)>,
    /// None: the broker must not come up.
    pub expect: Option<Expect>,
    /// What is special about it.
    pub why: String,
    /// The whole program is started, not only the broker in it.
    #[serde(default)]
    pub program: Option<Program>,
}

/// How the program is started. `@DIR@` as above; `@ETC@` stands for /etc/ratelmq, which the
/// program is shown a directory of its own for.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Program {
    pub args: Vec<String>,
    pub cwd: String,
    pub files: Vec<(String, String)>,
    pub ends: Ends,
    /// How long it is left running, in seconds.
    pub stay: u64,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ends {
    /// Serves until it is interrupted.
    Interrupted,
    /// Does not serve and says so by its exit status.
    Refuses,
    /// Prints something and is done.
    Prints,
}

/// The users of password file `i`.
pub fn users(i: usize) -> Vec<(String, String)> {
    USERS.iter().skip(i).step_by(2).take(2).map(|(u, p)| (u.to_string(), format!("{}{}", p, i))).collect()
}

fn pick<'a, T>(r: &mut Rng, v: &'a [T]) -> &'a T {
    &v[r.below(v.len() as u64) as usize]
}

fn quote(r: &mut Rng, s: &str) -> String {
    if r.below(3) == 0 {
        format!("'{}'", s)
    } else {
        format!("\"{}\"", s)
    }
}

fn list(r: &mut Rng, v: &[String]) -> String {
    let mut items: Vec<String> = v.iter().map(|a| quote(r, a)).collect();
    if items.len() > 1 && r.below(5) == 0 {
        items.push(String::new()); // a trailing comma
    }
    match r.below(3) {
        0 => format!("[{}]", items.join(",")),
        1 => format!("[ {} ]", items.join(", ")),
        _ => format!("[\n  {}\n]", items.join(",\n  ")),
    }
}

/// A file with the given settings (None: left out).
fn file(r: &mut Rng, ls: Option<&str>, pw: Option<&str>) -> String {
    let mut parts: Vec<String> = Vec::new();
    let junk = |r: &mut Rng| match r.below(6) {
        0 => "# a comment\n".to_string(),
        1 => "\n".to_string(),
        2 => "something = 1\n".to_string(),
        _ => String::new(),
    };
    let dotted = r.below(8) == 0;
    if dotted {
        let a = ls.map(|l| format!("mqtt.listeners_tcp = {}\n", l)).unwrap_or_default();
        let b = pw.map(|p| format!("authentication.password_file = {}\n", p)).unwrap_or_default();
        let mut s = junk(r);
        if r.below(2) == 0 {
            s += &a;
            s += &b;
        } else {
            s += &b;
            s += &a;
        }
        return s;
    }
    if ls.is_some() || r.below(2) == 0 {
        let mut s = "[mqtt]\n".to_string();
        s += &junk(r);
        if let Some(l) = ls {
            s += &format!("listeners_tcp = {}\n", l);
        }
        s += &junk(r).replace("something", "other");
        parts.push(s);
    }
    if pw.is_some() || r.below(2) == 0 {
        let mut s = "[authentication]\n".to_string();
        s += &junk(r);
        if let Some(p) = pw {
            s += &format!("password_file = {}\n", p);
        }
        s += &junk(r).replace("something", "other");
        parts.push(s);
    }
    if r.below(6) == 0 {
        parts.push("[unknown]\npassword_file = \"/nowhere\"\nlisteners_tcp = [\"127.0.0.1:1\"]\n".into());
    }
    if r.below(2) == 0 {
        parts.reverse();
    }
    let s = parts.concat();
    if r.below(6) == 0 {
        s.replace('\n', "\r\n")
    } else {
        s
    }
}

pub fn generate(r: &mut Rng) -> Setup {
    let pick_ls = |r: &mut Rng| -> Vec<usize> {
        let n = *pick(r, &[1usize, 1, 2, 3]);
        let mut v: Vec<usize> = (0..PLACES).collect();
        for i in 0..v.len() {
            let j = i + r.below((v.len() - i) as u64) as usize;
            v.swap(i, j);
        }
        v.truncate(n);
        v
    };
    let names = |v: &[usize]| -> Vec<String> { v.iter().map(|i| addr(*i).to_string()).collect() };
    let path = |i: usize| format!("@DIR@/passwd{}", i);
    let (fl, fp) = (pick_ls(r), r.below(2) as usize);
    // what each layer says; Err is a value that cannot work
    let mut ls_file: Option<Result<Vec<usize>, String>> = Some(Ok(fl));
    let mut pw_file: Option<Result<usize, String>> = Some(Ok(fp));
    let mut ls_env: Option<Result<Vec<usize>, String>> = None;
    let mut pw_env: Option<Result<usize, String>> = None;
    let mut why = Vec::new();
    if r.below(3) == 0 {
        pw_env = Some(Ok(1 - fp));
        why.push("the password file from the environment");
    }
    if r.below(4) == 0 {
        ls_env = Some(Ok(pick_ls(r)));
        why.push("the listeners from the environment");
    }
    match r.below(12) {
        0 => {
            pw_file = None;
            why.push("no password file in the file");
        }
        1 => {
            ls_file = None;
            why.push("no listeners in the file");
        }
        2 => {
            pw_file = Some(Err(pick(r, &["\"@DIR@/missing\"", "\"@DIR@\"", "\"\"", "[\"@DIR@/passwd0\", \"@DIR@/passwd1\"]"]).to_string()));
            why.push("a password file that cannot be read in the file");
        }
        3 => {
            let good = addr(0).to_string();
            ls_file = Some(Err(pick(
                r,
                &[
                    "[\"nonsense\"]".to_string(),
                    "5".to_string(),
                    "[\"127.0.0.1:99999\"]".to_string(),
                    "[\"127.0.0.1\"]".to_string(),
                    format!("[\"{}\", \"{}\"]", good, good),
                    format!("[\"{}\", \"nonsense\"]", good),
                    "true".to_string(),
                    "{}".to_string(),
                ],
            )
            .clone()));
            why.push("listeners that cannot be opened in the file");
        }
        4 => {
            pw_env = Some(Err("@DIR@/missing".into()));
            why.push("a password file that cannot be read from the environment");
        }
        5 => {
            ls_env = Some(Err(pick(r, &["nonsense", "127.0.0.1:99999", "127.0.0.1"]).to_string()));
            why.push("listeners that cannot be opened from the environment");
        }
        _ => {}
    }
    let mut env = Vec::new();
    match &pw_env {
        Some(Ok(i)) => env.push(("RATELMQ_AUTHENTICATION__PASSWORD_FILE".to_string(), path(*i))),
        Some(Err(t)) => env.push(("RATELMQ_AUTHENTICATION__PASSWORD_FILE".to_string(), t.clone())),
        None => {}
    }
    match &ls_env {
        Some(Ok(v)) => env.push(("RATELMQ_MQTT__LISTENERS_TCP".to_string(), names(v).join(","))),
        Some(Err(t)) => env.push(("RATELMQ_MQTT__LISTENERS_TCP".to_string(), t.clone())),
        None => {}
    }
    // names that mean nothing
    for (k, v) in [
        ("AUTHENTICATION__PASSWORD_FILE", "/nowhere"),
        ("PASSWORD_FILE", "/nowhere"),
        ("RATELMQ_PASSWORD_FILE", "/nowhere"),
        ("RATELMQ_AUTHENTICATION_PASSWORD_FILE", "/nowhere"),
        ("RATELMQ_UNKNOWN__PASSWORD_FILE", "/nowhere"),
        ("MQTT__LISTENERS_TCP", "127.0.0.1:1"),
        ("RATELMQ_MQTT_LISTENERS_TCP", "127.0.0.1:1"),
        ("RATELMQ_MQTT__LISTENERS", "127.0.0.1:1"),
    ] {
        if r.below(12) == 0 {
            env.push((k.to_string(), v.to_string()));
        }
    }
    let l = ls_file.as_ref().map(|x| match x {
        Ok(v) => list(r, &names(v)),
        Err(t) => t.clone(),
    });
    let p = pw_file.as_ref().map(|x| match x {
        Ok(i) => quote(r, &path(*i)),
        Err(t) => t.clone(),
    });
    let mut text = Some(file(r, l.as_deref(), p.as_deref()));
    let ls = ls_env.or(ls_file);
    let pw = pw_env.or(pw_file);
    let mut expect = match (ls, pw) {
        (Some(Ok(mut listeners)), Some(Ok(passwd))) => {
            listeners.sort();
            Some(Expect { listeners, passwd })
        }
        _ => None,
    };
    // the file as such
    match r.below(16) {
        0 => {
            text = None;
            expect = None;
            why.push("no configuration file");
        }
        1 => {
            let t = text.take().unwrap();
            text = Some(format!("{}{}", t, pick(r, &["[mqtt\n", "= 5\n", "broken\n", "x = \"open\n", "\u{0}\n"])));
            expect = None;
            why.push("a configuration file with a syntax error");
        }
        _ => {}
    }
    let name = pick(r, &["ratelmq.toml", "ratelmq.toml", "ratelmq.conf", "ratelmq", "my ratelmq.conf", "ratelmq.json", "ratelmq.toml.d"]).to_string();
    let mut taken = Vec::new();
    if r.below(6) == 0 {
        let i = r.below(PLACES as u64) as usize;
        taken.push((i, *pick(r, &[98, 99, 13, 24])));
        if expect.as_ref().is_some_and(|e| e.listeners.contains(&i)) {
            expect = None;
            why.push("a listener whose address cannot be bound");
        }
    }
    Setup { file: text, env, name, taken, expect, why: if why.is_empty() { "everything in the file".into() } else { why.join(", ") }, program: None }
}

/// A command line, a working directory and `.env` files around a configuration.
pub fn program(r: &mut Rng) -> Setup {
    let mut s = generate(r);
    let mut files: Vec<(String, String)> = Vec::new();
    let mut args: Vec<String> = Vec::new();
    let mut why: Vec<&str> = Vec::new();
    // what would be served if the program took the wrong file or the wrong variable
    let decoy = |r: &mut Rng| {
        let l: Vec<String> = (0..PLACES).filter(|_| r.below(2) == 0).map(|i| addr(i).to_string()).collect();
        let l = if l.is_empty() { vec![addr(1).to_string()] } else { l };
        format!("[mqtt]\nlisteners_tcp = {}\n[authentication]\npassword_file = \"@DIR@/passwd{}\"\n", list(r, &l), r.below(2))
    };
    let dirs = ["@DIR@", "@DIR@/a", "@DIR@/a/b"];
    let depth = r.below(3) as usize;
    let cwd = dirs[depth];
    let text = s.file.take();
    if r.below(3) == 0 {
        why.push("the default configuration file");
        if let Some(t) = text {
            files.push(("@ETC@/ratelmq.conf".into(), t));
        }
    } else {
        why.push("a configuration file named on the command line");
        let name = s.name.clone();
        let (place, shown) = match r.below(4) {
            0 => (format!("{}/{}", cwd, name), name.clone()),
            1 => (format!("{}/{}", cwd, name), format!("./{}", name)),
            2 if depth > 0 => (format!("{}/{}", dirs[depth - 1], name), format!("../{}", name)),
            _ => {
                let d = format!("@DIR@/a/{}", name);
                (d.clone(), d)
            }
        };
        if let Some(t) = text {
            files.push((place, t));
        }
        match r.below(4) {
            0 => args.extend(["-c".to_string(), shown]),
            1 => args.extend(["--config".to_string(), shown]),
            2 => args.push(format!("--config={}", shown)),
            _ => args.push(format!("-c{}", shown)),
        }
        if r.below(2) == 0 {
            let t = decoy(r);
            files.push(("@ETC@/ratelmq.conf".into(), t));
        }
    }
    if args.is_empty() {
        for d in ["ratelmq.conf", "etc/ratelmq.conf", "config/ratelmq.conf", "etc/ratelmq/ratelmq.conf"] {
            if r.below(3) == 0 {
                let t = decoy(r);
                files.push((format!("{}/{}", cwd, d), t));
            }
        }
    }
    // some of the environment comes from the nearest .env file
    let near = r.below(depth as u64 + 1) as usize;
    let mut dot: Vec<String> = Vec::new();
    let line = |r: &mut Rng, k: &str, v: &str| match r.below(4) {
        0 => format!("{}=\"{}\"", k, v),
        1 => format!("export {}={}", k, v),
        2 => format!("{}='{}'", k, v),
        _ => format!("{}={}", k, v),
    };
    let mut env = Vec::new();
    for (k, v) in std::mem::take(&mut s.env) {
        match r.below(3) {
            0 => {
                dot.push(line(r, &k, &v));
                why.push("a variable in .env");
            }
            1 => {
                env.push((k.clone(), v));
                if r.below(2) == 0 {
                    let other = if k.ends_with("FILE") { format!("@DIR@/passwd{}", r.below(2)) } else { addr(r.below(PLACES as u64) as usize).to_string() };
                    dot.push(line(r, &k, &other));
                    why.push("a variable in .env that is set already");
                }
            }
            _ => env.push((k, v)),
        }
    }
    if !dot.is_empty() || r.below(3) == 0 {
        for (i, t) in ["# variables", "", "OTHER=1", "SOME_PATH=\"/a b\""].iter().enumerate() {
            if r.below(4) == 0 {
                dot.insert((r.below(dot.len() as u64 + 1)) as usize, t.to_string());
            }
            let _ = i;
        }
        let end = if r.below(4) == 0 { "" } else { "\n" };
        files.push((format!("{}/.env", dirs[depth - near]), dot.join("\n") + end));
        // one further away does not count
        if depth > near && r.below(2) == 0 {
            let t = format!("RATELMQ_AUTHENTICATION__PASSWORD_FILE=@DIR@/passwd{}\nRATELMQ_MQTT__LISTENERS_TCP={}\n", r.below(2), addr(r.below(PLACES as u64) as usize));
            files.push((format!("{}/.env", dirs[depth - near - 1]), t));
        }
    }
    if depth < 2 && r.below(3) == 0 {
        // nor does one below
        files.push((format!("{}/.env", dirs[depth + 1]), format!("RATELMQ_MQTT__LISTENERS_TCP={}\n", addr(0))));
    }
    s.env = env;
    match r.below(4) {
        0 => s.env.push(("RUST_LOG".into(), pick(r, &["trace", "debug", "info", "ratelmq=debug", "off", "nonsense=x"]).to_string())),
        _ => {}
    }
    let mut ends = if s.expect.is_some() { Ends::Interrupted } else { Ends::Refuses };
    match r.below(10) {
        0 => {
            let t = pick(r, &["--nonsense", "-x", "extra", "-c", "--config", "-c-", "--confg=a"]).to_string();
            if t.starts_with("-c") || t.starts_with("--config") {
                // without its value
                args = vec![if t == "-c-" { "--config".into() } else { t }];
            } else {
                let at = if r.below(2) == 0 { 0 } else { args.len() };
                args.insert(at, t);
            }
            ends = Ends::Refuses;
            why.push("a wrong command line");
        }
        1 => {
            let t = pick(r, &["--help", "-h", "--version", "-V"]).to_string();
            let at = if r.below(2) == 0 { 0 } else { args.len() };
            args.insert(at, t);
            ends = Ends::Prints;
            why.push("help or version");
        }
        _ => {}
    }
    if ends != Ends::Interrupted {
        s.expect = None;
    }
    s.why = format!("{}; {}", why.join(", "), s.why);
    let stay = *pick(r, &[0, 0, 1, 20, 70, 400, 4_000, 90_000, 3_000_000]);
    s.program = Some(Program { args, cwd: cwd.into(), files, ends, stay });
    s
}

async fn talk(s: &mut TcpStream, bytes: &[u8]) -> Vec<u8> {
    let _ = s.write_all(bytes).await;
    let mut got = Vec::new();
    while got.len() < 4 {
        let mut b = [0u8; 64];
        match tokio::time::timeout(std::time::Duration::from_secs(10), s.read(&mut b)).await {
            Ok(Ok(n)) if n > 0 => got.extend_from_slice(&b[..n]),
            _ => break,
        }
    }
    got
}

async fn enter(i: usize, user: Option<(&str, &str)>) -> Result<Vec<u8>, String> {
    let mut s = match tokio::time::timeout(std::time::Duration::from_secs(10), TcpStream::connect(addr(i))).await {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => return Err(format!("{:?}", e.kind())),
        Err(_) => return Err("no answer".into()),
    };
    let c = mqtt::connect(&mqtt::ConnectOpts {
        id: "visitor",
        user: user.map(|u| u.0),
        pass: user.map(|u| u.1),
        clean: true,
        keep_alive: 0,
        will: None,
        v31: false,
    });
    Ok(talk(&mut s, &c).await)
}

fn note(w: &mut World, t: String) {
    w.ev(|| t.clone());
    w.setup_errors.push(t);
}

pub async fn drive(w: W, s: Setup) {
    let want = s.expect.as_ref().map(|e| e.listeners.len());
    w.with(|w| {
        w.ev(|| format!("configuration: {}", s.why));
        w.startup.push(serde_json::to_string(&s).expect("json"));
    });
    for _ in 0..600 {
        if w.with(|w| w.run_end.is_some()) || want.is_some_and(|n| snet::listeners_open() >= n) {
            break;
        }
        w.until(SEC / 10, |w| w.run_end.is_some()).await;
    }
    tokio::sim::sleep(2 * SEC).await;
    let ended = w.with(|w| w.run_end.clone());
    let Some(e) = &s.expect else {
        if ended.is_none() {
            w.with(|w| note(w, format!("the broker is running although it should not ({})", s.why)));
        }
        w.with(|w| {
            w.count("startups_refused");
            w.finished = true
        });
        return;
    };
    if let Some((_, _, p)) = ended {
        w.with(|w| {
            note(w, format!("the broker did not start with a valid configuration ({}): {}", s.why, p.unwrap_or_default()))
        });
        return;
    }
    for i in 0..PLACES {
        let open = e.listeners.contains(&i);
        match enter(i, None).await {
            Ok(b) if open && b == [0x20, 2, 0, 0] => w.with(|w| {
                w.count("listeners_reached");
                w.tick();
            }),
            Err(_) if !open => {}
            x => w.with(|w| {
                note(w, format!("{} is{} a configured address ({}), but a client there got {:?}", addr(i), if open { "" } else { " not" }, s.why, x))
            }),
        }
    }
    for f in 0..2 {
        for (u, p) in users(f) {
            let l = e.listeners[(u.len() + f) % e.listeners.len()];
            let r = enter(l, Some((&u, &p))).await;
            let ok = matches!(&r, Ok(b) if b.len() == 4 && b[0] == 0x20 && b[3] == 0);
            let no = matches!(&r, Ok(b) if b.len() == 4 && b[0] == 0x20 && b[3] != 0);
            w.with(|w| {
                w.count(if ok { "users_let_in" } else { "users_refused" });
                if (f == e.passwd && !ok) || (f != e.passwd && !no) {
                    note(
                        w,
                        format!(
                            "user {:?} is{} in the configured password file ({}), but the answer was {:?}",
                            u,
                            if f == e.passwd { "" } else { " not" },
                            s.why,
                            r
                        ),
                    );
                }
            });
        }
    }
    if let Some(p) = s.program.as_ref().filter(|p| p.stay > 0) {
        w.until(p.stay * SEC, |w| w.run_end.is_some()).await;
        let us = users(e.passwd);
        let (u, pass) = &us[p.stay as usize % us.len()];
        let r = if w.with(|w| w.run_end.is_some()) { Err("the program has ended".into()) } else { enter(e.listeners[0], Some((u, pass))).await };
        w.with(|w| {
            if !matches!(&r, Ok(b) if b.len() == 4 && b[0] == 0x20 && b[3] == 0) {
                note(w, format!("{} s after its start, and not interrupted, the program does not serve user {:?}: {:?}", p.stay, u, r));
            }
            w.count("served_after_a_while");
        });
    }
    w.with(|w| {
        let s = w.tick();
        w.interrupt = Some((s, tokio::sim::now()));
    });
    tokio::sim::interrupt();
    w.until(60 * SEC, |w| w.run_end.is_some()).await;
    w.with(|w| {
        w.count("startups");
        if !matches!(w.run_end, Some((_, _, None))) {
            note(w, "the broker did not stop in an orderly way".into());
        }
        w.finished = true;
    });
}
