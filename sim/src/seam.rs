//! Process-level seams: entropy, clocks and sleeps that do not go through tokio.
//!
//! These symbols take precedence over libc's (the binary is linked with -rdynamic, so dlsym
//! finds them too). Outside a simulated execution they do what libc does.
use libc::{c_int, c_long, c_uint, c_void, size_t, ssize_t, timespec, timeval};

unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let r: c_long;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a,
        in("rsi") b,
        in("rdx") c,
        in("r10") d,
        in("r8") e,
        in("r9") f,
        out("rcx") _,
        out("r11") _,
        options(nostack)
    );
    r
}

unsafe fn ret(r: c_long) -> c_long {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}

fn fill(buf: *mut u8, n: usize) {
    let b = unsafe { std::slice::from_raw_parts_mut(buf, n) };
    tokio::sim::fill_random(b);
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if tokio::sim::active() {
        fill(buf as *mut u8, n);
        return n as ssize_t;
    }
    ret(raw(libc::SYS_getrandom, buf as usize, n, flags as usize, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, n: size_t) -> c_int {
    let r = getrandom(buf, n, 0);
    if r == n as ssize_t {
        0
    } else {
        -1
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_getrandom && tokio::sim::active() {
        fill(a as *mut u8, b);
        return b as c_long;
    }
    ret(raw(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut timespec) -> c_int {
    if tokio::sim::active() {
        let ns = match id {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI => tokio::sim::wall_ns(),
            _ => tokio::sim::monotonic_ns(),
        };
        (*ts).tv_sec = (ns / 1_000_000_000) as i64;
        (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, _tz: *mut c_void) -> c_int {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}

#[no_mangle]
pub unsafe extern "C" fn time(out: *mut i64) -> i64 {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !out.is_null() {
        *out = ts.tv_sec;
    }
    ts.tv_sec
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if tokio::sim::active() {
        tokio::sim::advance_by((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    ret(raw(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if tokio::sim::active() {
        let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        if flags & libc::TIMER_ABSTIME != 0 {
            let now = if id == libc::CLOCK_REALTIME { tokio::sim::wall_ns() } else { tokio::sim::monotonic_ns() };
            tokio::sim::advance_by(t.saturating_sub(now));
        } else {
            tokio::sim::advance_by(t);
        }
        return 0;
    }
    let r = raw(libc::SYS_clock_nanosleep, id as usize, flags as usize, req as usize, rem as usize, 0, 0);
    -r as c_int
}
