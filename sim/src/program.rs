//! The whole program, from its command line to its exit status.
//!
//! `ratelmq-main` is the program's own main function, compiled from /repo's src/main.rs, on the
//! simulated runtime. It runs in a process of its own, with its arguments, environment, working
//! directory and `/etc/ratelmq`; the main future it hands to the runtime runs under the simulator.
use crate::driver::{self, Job, Outcome, WORLD};
use crate::exec;
use crate::oracle::{self, Kind, V};
use crate::setup::Ends;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::ExitStatusExt;
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering;

const JOB: &str = "SIM_PROGRAM_JOB";
const OUT: &str = "SIM_PROGRAM_OUT";
const ETC: &str = "SIM_PROGRAM_ETC";

/// Starts the program and judges how it ended. Does not return.
pub fn child(job: &Job, dir: &Path) -> ! {
    let o = start(job, dir).unwrap_or_else(|e| Outcome { harness_error: Some(e), ..Outcome::default() });
    driver::send(&o);
    unsafe { libc::_exit(0) }
}

fn start(job: &Job, dir: &Path) -> Result<Outcome, String> {
    let text = |e: std::io::Error| format!("cannot start the program: {}", e);
    let setup = job.plan.setup.as_ref().ok_or("no setup")?;
    let p = setup.program.as_ref().ok_or("no program")?;
    let _ = std::fs::remove_dir_all(dir);
    driver::write_config(dir, &job.plan);
    let here = dir.display().to_string();
    let own = dir.with_extension("run");
    let _ = std::fs::remove_dir_all(&own);
    let etc = own.join("etc");
    std::fs::create_dir_all(&etc).map_err(text)?;
    let place = |t: &str| t.replace("@DIR@", &here).replace("@ETC@", &etc.display().to_string());
    for d in ["", "/a", "/a/b"] {
        std::fs::create_dir_all(format!("{}{}", here, d)).map_err(text)?;
    }
    // no file above the scratch directory may count
    std::fs::write(format!("{}/.env", here), "").map_err(text)?;
    for (name, content) in &p.files {
        let f = place(name);
        if let Some(d) = Path::new(&f).parent() {
            std::fs::create_dir_all(d).map_err(text)?;
        }
        std::fs::write(&f, place(content)).map_err(text)?;
    }
    let (job_file, out_file) = (own.join("job"), own.join("out"));
    std::fs::write(&job_file, serde_json::to_vec(job).map_err(|e| e.to_string())?).map_err(text)?;
    let exe = std::env::current_exe().map_err(text)?.with_file_name("ratelmq-main");
    let shim = driver::root().join("build/etcshim.so");
    for f in [&exe, &shim] {
        if !f.exists() {
            return Err(format!("{} is missing", f.display()));
        }
    }
    let printed = own.join("printed");
    let mut c = Command::new(exe);
    c.env_clear();
    c.env(JOB, &job_file).env(OUT, &out_file).env(ETC, &etc).env("LD_PRELOAD", &shim).env("PATH", "/usr/bin:/bin");
    for (k, v) in &setup.env {
        c.env(k, place(v));
    }
    c.args(p.args.iter().map(|a| place(a)));
    c.current_dir(place(&p.cwd));
    c.stdin(Stdio::null());
    c.stdout(std::fs::File::create(&printed).map_err(text)?);
    c.stderr(if job.verbose { std::fs::File::create(own.join("err")).map_err(text)?.into() } else { Stdio::null() });
    let st = c.spawn().and_then(|mut k| k.wait()).map_err(text)?;
    let raw = std::fs::read(&out_file).unwrap_or_default();
    for w in [&b"HANG"[..], b"LONG", b"SLOW"] {
        if raw.starts_with(w) {
            unsafe {
                libc::write(driver::PIPE.load(Ordering::Relaxed), w.as_ptr() as *const _, w.len());
                libc::_exit(77);
            }
        }
    }
    let mut o = match serde_json::from_slice::<Outcome>(&raw) {
        Ok(o) => o,
        Err(_) => Outcome { events: vec!["the program ended before the broker was started".into()], ..Outcome::default() },
    };
    // the simulator stopped it
    if ["sim.stopped", "runs_cut_short"].iter().any(|k| o.counts.contains_key(*k)) || o.violations.iter().any(|v| v.kind == Kind::Hang) {
        return Ok(o);
    }
    let cmd = format!("ratelmq {}", p.args.join(" "));
    let mut add = |t: String| {
        o.events.push(t.clone());
        o.violations.push(V { kind: Kind::Program, text: format!("{} ({}): {}", cmd.trim(), setup.why, t) });
    };
    let ended = match (st.code(), st.signal()) {
        (Some(c), _) => format!("it exited with status {}", c),
        (_, Some(s)) => format!("it died from signal {}", s),
        _ => "it ended".into(),
    };
    match p.ends {
        Ends::Interrupted => {
            if st.code() != Some(0) {
                add(format!("{}, although it was interrupted in good order", ended));
            } else if raw.is_empty() {
                add("it ended with status 0 and has not served anybody".to_string());
            }
        }
        Ends::Refuses => {
            if st.code() == Some(0) {
                add("it cannot serve, but exited with status 0".to_string());
            }
        }
        Ends::Prints => {
            if st.code() != Some(0) {
                add(format!("{} where it only had to print something", ended));
            } else if std::fs::read(&printed).unwrap_or_default().is_empty() {
                add("it printed nothing".to_string());
            }
        }
    }
    let key = match p.ends {
        Ends::Interrupted => "programs_interrupted",
        Ends::Refuses => "programs_refused",
        Ends::Prints => "programs_that_only_print",
    };
    *o.counts.entry(key.into()).or_insert(0) += 1;
    Ok(o)
}

// ------------------------------------------------------------------ in the program's process

fn finish(record: bool) {
    let Some(w) = WORLD.get() else { return };
    let sim_ns = tokio::sim::now();
    let (stats, rec) = tokio::sim::uninstall();
    let o = w.with(|w| {
        let mut o = driver::outcome(w, stats, if record { rec } else { Vec::new() }, sim_ns);
        o.violations = oracle::judge(w);
        if w.run_end.is_none() {
            o.counts.insert("sim.stopped".into(), 1);
        }
        o
    });
    driver::send(&o);
}

/// The program has come to its runtime.
static STARTED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static RECORD: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// The program ends itself.
#[no_mangle]
pub unsafe extern "C" fn exit(code: libc::c_int) -> ! {
    if tokio::sim::active() && STARTED.load(Ordering::Relaxed) {
        tokio::sim::set_domain(0);
        if let Some(w) = WORLD.get() {
            w.with(|w| {
                let s = w.tick();
                w.ev(|| format!("==== the program ended itself with status {}", code));
                w.run_end = Some((s, tokio::sim::now(), None));
                if w.setup_serves && w.interrupt.is_none() {
                    w.setup_errors.push(format!("the program ended itself with status {} before it was interrupted", code));
                }
            });
        }
        finish(RECORD.load(Ordering::Relaxed));
    }
    libc::_exit(code)
}

/// The main function of `ratelmq-main`.
pub fn real_main(call: fn() -> std::process::ExitCode) -> std::process::ExitCode {
    let (Some(job), Some(out)) = (std::env::var_os(JOB), std::env::var_os(OUT)) else {
        eprintln!("to be started by the simulator only");
        return std::process::ExitCode::from(2);
    };
    let job: Job = serde_json::from_slice(&std::fs::read(job).expect("job")).expect("job");
    for k in [JOB, OUT, ETC, "LD_PRELOAD", "PATH"] {
        std::env::remove_var(k);
    }
    let out = std::ffi::CString::new(out.as_bytes()).expect("name");
    driver::pipe(unsafe { libc::open(out.as_ptr(), libc::O_WRONLY | libc::O_CREAT | libc::O_CLOEXEC, 0o600) });
    driver::guard();
    driver::watch_panics();
    RECORD.store(job.record, Ordering::Relaxed);
    let th = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let w = driver::enter(&job);
            let record = job.record;
            tokio::sim::on_main(Box::new(move |main| {
                STARTED.store(true, Ordering::Relaxed);
                exec::execute(&job.plan, main, w.clone());
                let ended = w.with(|w| w.run_end.clone());
                finish(record);
                match ended {
                    None => unsafe { libc::_exit(0) },
                    Some((_, _, Some(p))) => std::panic::resume_unwind(Box::new(p)),
                    Some((_, _, None)) => {}
                }
            }));
            call()
        })
        .expect("thread");
    match th.join() {
        Ok(c) => c,
        Err(_) => std::process::ExitCode::from(101),
    }
}
