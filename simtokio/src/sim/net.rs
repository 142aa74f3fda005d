//! Simulated TCP (verification fork only).
use super::{with, Ctx, Event, Kind};
use std::collections::{BTreeMap, VecDeque};
use std::io;
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};
use std::task::{Context, Poll, Waker};

// Linux error numbers: the broker sees exactly what the kernel would report.
const EAGAIN: i32 = 11;
const EPIPE: i32 = 32;
const EADDRINUSE: i32 = 98;
const ECONNABORTED: i32 = 103;
const ECONNRESET: i32 = 104;
const ENOTCONN: i32 = 107;
const ECONNREFUSED: i32 = 111;

fn os(errno: i32) -> io::Error {
    io::Error::from_raw_os_error(errno)
}

struct Seg {
    at: u64,
    data: Vec<u8>,
    pos: usize,
}

#[derive(Default)]
struct Pipe {
    segs: VecDeque<Seg>,
    bytes: usize,
    last_at: u64,
    fin: Option<u64>,
    rst: Option<u64>,
    held: bool,
    written: u64,
    read: u64,
}

struct End {
    open: bool,
    wr_shut: bool,
    rd_shut: bool,
    dead: bool,
    eof_after_err: bool,
    err: Option<i32>,
    read_wakers: Vec<Waker>,
    write_wakers: Vec<Waker>,
    inject_read: Option<i32>,
    inject_write: Option<i32>,
    linger0: bool,
    rd_paused: bool,
}

impl End {
    fn new() -> End {
        End {
            open: true,
            wr_shut: false,
            rd_shut: false,
            dead: false,
            eof_after_err: false,
            err: None,
            read_wakers: Vec::new(),
            write_wakers: Vec::new(),
            inject_read: None,
            inject_write: None,
            linger0: false,
            rd_paused: false,
        }
    }
}

pub(super) struct Conn {
    addrs: [SocketAddr; 2],
    /// pipes[0]: client to server, pipes[1]: server to client.
    pipes: [Pipe; 2],
    ends: [End; 2],
    cap: usize,
    pub(super) refused: bool,
    connected: bool,
    connect_waker: Option<Waker>,
    accepted: bool,
    server_closed_at: Option<u64>,
}

struct Listener {
    addr: SocketAddr,
    open: bool,
    backlog: VecDeque<usize>,
    wakers: Vec<Waker>,
    faults: VecDeque<i32>,
}

pub(super) struct Net {
    pub(super) conns: Vec<Conn>,
    listeners: Vec<Listener>,
    bind_faults: BTreeMap<SocketAddr, i32>,
    by_addr: BTreeMap<SocketAddr, usize>,
    next_port: u16,
    ports: std::collections::BTreeMap<([u8; 4], SocketAddr), u16>,
    /// The address the next connection comes from.
    source: Option<[u8; 4]>,
}

impl Net {
    pub(super) fn new() -> Net {
        Net {
            conns: Vec::new(),
            listeners: Vec::new(),
            bind_faults: BTreeMap::new(),
            by_addr: BTreeMap::new(),
            next_port: 40000,
            ports: Default::default(),
            source: None,
        }
    }

    fn find_listener(&self, addr: &SocketAddr) -> Option<usize> {
        if let Some(l) = self.by_addr.get(addr) {
            return Some(*l);
        }
        self.by_addr
            .iter()
            .find(|(a, _)| a.ip().is_unspecified() && a.port() == addr.port())
            .map(|(_, l)| *l)
    }

    /// Returns true if the connection was refused.
    pub(super) fn on_syn(&mut self, conn: usize, wakers: &mut Vec<Waker>) -> bool {
        let dst = self.conns[conn].addrs[1];
        match self.find_listener(&dst) {
            Some(l) if self.listeners[l].open => {
                self.listeners[l].backlog.push_back(conn);
                wakers.append(&mut self.listeners[l].wakers);
                false
            }
            _ => true,
        }
    }

    pub(super) fn on_connected(&mut self, conn: usize, wakers: &mut Vec<Waker>) {
        let c = &mut self.conns[conn];
        c.connected = true;
        if let Some(w) = c.connect_waker.take() {
            wakers.push(w);
        }
    }

    /// Something arrived for `side` of `conn`.
    pub(super) fn on_arrival(&mut self, conn: usize, side: usize, now: u64, wakers: &mut Vec<Waker>) {
        let c = &mut self.conns[conn];
        let p = &mut c.pipes[1 - side];
        if p.held {
            return;
        }
        let e = &mut c.ends[side];
        if !e.rd_paused {
            wakers.append(&mut e.read_wakers);
        }
        if matches!(p.rst, Some(t) if t <= now) {
            // a reset also fails pending writes
            wakers.append(&mut e.write_wakers);
            // and what this side had in flight is gone
            let out = &mut c.pipes[side];
            out.bytes -= out.segs.iter().map(|s| s.data.len() - s.pos).sum::<usize>().min(out.bytes);
            out.segs.clear();
        }
    }
}

impl Pipe {
    fn ready_bytes(&self, now: u64) -> usize {
        if self.held {
            return 0;
        }
        self.segs
            .iter()
            .take_while(|s| s.at <= now)
            .map(|s| s.data.len() - s.pos)
            .sum()
    }
}

fn rst_arrived(p: &Pipe, now: u64) -> bool {
    !p.held && matches!(p.rst, Some(t) if t <= now)
}

fn reg(list: &mut Vec<Waker>, cx: &mut Context<'_>) {
    if !list.iter().any(|w| w.will_wake(cx.waker())) {
        list.push(cx.waker().clone());
    }
}

impl Ctx {
    fn send_ctl(&mut self, conn: usize, side: usize, rst: bool) {
        let lat = self.latency();
        let now = super::now();
        let p = &mut self.net.conns[conn].pipes[side];
        let at = p.last_at.max(now + lat);
        p.last_at = at;
        if rst {
            if p.rst.is_none() {
                p.rst = Some(at);
                self.stats.resets += 1;
            }
        } else if p.fin.is_none() {
            p.fin = Some(at);
            self.stats.fins += 1;
        }
        self.push(at, Event::Read(conn, 1 - side));
    }

    /// Drops a suffix of what `side` has in flight (a reset may overtake it).
    fn lose_in_flight(&mut self, conn: usize, side: usize) {
        let now = super::now();
        let n = self.net.conns[conn].pipes[side]
            .segs
            .iter()
            .filter(|s| s.at > now)
            .count();
        let k = self.take(Kind::Reset, n as u32 + 1, 65536, None) as usize;
        let p = &mut self.net.conns[conn].pipes[side];
        for _ in 0..k {
            if let Some(s) = p.segs.pop_back() {
                p.bytes -= s.data.len() - s.pos;
            }
        }
        if k > 0 {
            let last = p.segs.back().map(|s| s.at).unwrap_or(now);
            p.last_at = last.max(now);
            self.stats.lost_on_reset += k as u64;
        }
    }

    /// The socket of `side` goes away. `abort`: by reset.
    fn close_end(&mut self, conn: usize, side: usize, abort: bool, wakers: &mut Vec<Waker>) {
        let now = super::now();
        let c = &mut self.net.conns[conn];
        if !c.ends[side].open {
            return;
        }
        c.ends[side].open = false;
        if side == 1 {
            c.server_closed_at = Some(now);
        }
        let unread = c.pipes[1 - side].bytes > 0;
        let already = rst_arrived(&c.pipes[1 - side], now);
        let linger0 = c.ends[side].linger0 || c.ends[side].dead;
        // whatever was still coming towards this side is discarded
        let inc = &mut c.pipes[1 - side];
        inc.segs.clear();
        inc.bytes = 0;
        wakers.append(&mut c.ends[side].read_wakers);
        wakers.append(&mut c.ends[side].write_wakers);
        let peer_writers: Vec<Waker> = std::mem::take(&mut c.ends[1 - side].write_wakers);
        wakers.extend(peer_writers);
        if already {
            return;
        }
        if abort || linger0 || (unread && self.knobs.rst_on_unread) {
            self.lose_in_flight(conn, side);
            self.send_ctl(conn, side, true);
        } else {
            self.send_ctl(conn, side, false);
        }
    }
}

fn wake_all(ws: Vec<Waker>) {
    for w in ws {
        w.wake();
    }
}

// ---------------------------------------------------------------- socket operations

/// Handle of one side of a simulated connection; dropping it closes that side.
#[derive(Debug)]
pub(crate) struct Sock {
    pub(crate) conn: usize,
    pub(crate) side: usize,
}

impl Drop for Sock {
    fn drop(&mut self) {
        let mut ws = Vec::new();
        with(|c| c.close_end(self.conn, self.side, false, &mut ws));
        wake_all(ws);
    }
}

fn gone() -> io::Error {
    io::Error::new(io::ErrorKind::NotConnected, "no simulation")
}

impl Sock {
    pub(crate) fn addr(&self, side: usize) -> io::Result<SocketAddr> {
        with(|c| c.net.conns[self.conn].addrs[side]).ok_or_else(gone)
    }

    fn do_read(&self, cx: Option<&mut Context<'_>>, buf: &mut [u8], peek: bool) -> Poll<io::Result<usize>> {
        let (conn, side) = (self.conn, self.side);
        let mut ws = Vec::new();
        let r = with(|c| {
            let now = super::now();
            let k = &mut c.net.conns[conn];
            let e = &mut k.ends[side];
            if let Some(kind) = e.inject_read.take() {
                e.dead = true;
                e.eof_after_err = true;
                c.stats.socket_errors += 1;
                return Poll::Ready(Err(os(kind)));
            }
            if e.rd_shut {
                return Poll::Ready(Ok(0));
            }
            let avail = if e.rd_paused { 0 } else { k.pipes[1 - side].ready_bytes(now) };
            if buf.is_empty() {
                return Poll::Ready(Ok(0));
            }
            if avail > 0 && !e.dead {
                let max = avail.min(buf.len());
                let mut n = max;
                if max > 1 && side == 1 && !c.faults_off {
                    let p = c.knobs.p_short_read;
                    let v = c.take(Kind::Read, 32, p, None) as usize;
                    if v > 0 {
                        n = match v {
                            1..=8 => 1,
                            9..=14 => 2.min(max),
                            15..=18 => max - 1,
                            _ => (max * (v - 15) / 18).clamp(1, max),
                        };
                        c.stats.short_reads += 1;
                    }
                }
                let k = &mut c.net.conns[conn];
                let p = &mut k.pipes[1 - side];
                let mut done = 0;
                let mut i = 0;
                while done < n {
                    let s = &mut p.segs[i];
                    let take = (s.data.len() - s.pos).min(n - done);
                    buf[done..done + take].copy_from_slice(&s.data[s.pos..s.pos + take]);
                    done += take;
                    if peek {
                        i += 1;
                    } else {
                        s.pos += take;
                        if s.pos == s.data.len() {
                            p.segs.pop_front();
                        }
                    }
                }
                if !peek {
                    p.bytes -= n;
                    p.read += n as u64;
                    ws.append(&mut k.ends[1 - side].write_wakers);
                }
                return Poll::Ready(Ok(n));
            }
            let k = &mut c.net.conns[conn];
            let e = &mut k.ends[side];
            if let Some(kind) = e.err.take() {
                e.dead = true;
                e.eof_after_err = true;
                return Poll::Ready(Err(os(kind)));
            }
            if e.eof_after_err {
                return Poll::Ready(Ok(0));
            }
            if !e.rd_paused {
                if rst_arrived(&k.pipes[1 - side], now) {
                    e.dead = true;
                    e.eof_after_err = true;
                    return Poll::Ready(Err(os(ECONNRESET)));
                }
                let p = &k.pipes[1 - side];
                if !p.held && p.segs.is_empty() && matches!(p.fin, Some(t) if t <= now) {
                    return Poll::Ready(Ok(0));
                }
            }
            if let Some(cx) = cx {
                reg(&mut k.ends[side].read_wakers, cx);
            }
            Poll::Pending
        });
        wake_all(ws);
        r.unwrap_or_else(|| Poll::Ready(Err(gone())))
    }

    fn do_write(&self, cx: Option<&mut Context<'_>>, data: &[u8]) -> Poll<io::Result<usize>> {
        let (conn, side) = (self.conn, self.side);
        with(|c| {
            let now = super::now();
            let k = &mut c.net.conns[conn];
            let e = &mut k.ends[side];
            if let Some(kind) = e.inject_write.take() {
                e.dead = true;
                e.eof_after_err = true;
                c.stats.socket_errors += 1;
                return Poll::Ready(Err(os(kind)));
            }
            if e.dead || e.wr_shut {
                return Poll::Ready(Err(os(EPIPE)));
            }
            if rst_arrived(&k.pipes[1 - side], now) {
                e.dead = true;
                e.eof_after_err = false;
                return Poll::Ready(Err(os(ECONNRESET)));
            }
            if data.is_empty() {
                return Poll::Ready(Ok(0));
            }
            if !k.ends[1 - side].open && !k.pipes[side].held {
                // nobody is there any more: the peer's host answers with a reset
                c.send_ctl(conn, 1 - side, true);
                return Poll::Ready(Ok(data.len()));
            }
            let space = k.cap.saturating_sub(k.pipes[side].bytes);
            if space == 0 {
                c.stats.write_blocked += 1;
                if let Some(cx) = cx {
                    reg(&mut k.ends[side].write_wakers, cx);
                }
                return Poll::Pending;
            }
            let max = space.min(data.len());
            let mut n = max;
            if max < data.len() {
                c.stats.short_writes += 1;
            }
            if max > 1 && side == 1 && !c.faults_off {
                let p = c.knobs.p_short_write;
                let v = c.take(Kind::Write, 32, p, None) as usize;
                if v > 0 {
                    n = match v {
                        1..=8 => 1,
                        9..=14 => 2.min(max),
                        15..=18 => max - 1,
                        _ => (max * (v - 15) / 18).clamp(1, max),
                    };
                    c.stats.short_writes += 1;
                }
            }
            let lat = c.latency();
            c.stats.bytes += n as u64;
            let k = &mut c.net.conns[conn];
            let p = &mut k.pipes[side];
            let at = p.last_at.max(now + lat);
            p.last_at = at;
            p.bytes += n;
            p.written += n as u64;
            p.segs.push_back(Seg {
                at,
                data: data[..n].to_vec(),
                pos: 0,
            });
            c.push(at, Event::Read(conn, 1 - side));
            Poll::Ready(Ok(n))
        })
        .unwrap_or_else(|| Poll::Ready(Err(gone())))
    }

    pub(crate) fn poll_read(&self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let coop = std::task::ready!(crate::task::coop::poll_proceed(cx));
        let r = self.do_read(Some(cx), buf, false);
        if r.is_ready() {
            coop.made_progress();
        }
        r
    }

    pub(crate) fn poll_peek(&self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.do_read(Some(cx), buf, true)
    }

    pub(crate) fn poll_write(&self, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        let coop = std::task::ready!(crate::task::coop::poll_proceed(cx));
        let r = self.do_write(Some(cx), data);
        if r.is_ready() {
            coop.made_progress();
        }
        r
    }

    pub(crate) fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        match self.do_read(None, buf, false) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(os(EAGAIN)),
        }
    }

    pub(crate) fn try_peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        match self.do_read(None, buf, true) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(os(EAGAIN)),
        }
    }

    pub(crate) fn try_write(&self, data: &[u8]) -> io::Result<usize> {
        match self.do_write(None, data) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(os(EAGAIN)),
        }
    }

    /// (readable, writable, read_closed, write_closed)
    pub(crate) fn readiness(&self) -> (bool, bool, bool, bool) {
        let (conn, side) = (self.conn, self.side);
        with(|c| {
            let now = super::now();
            let k = &c.net.conns[conn];
            let e = &k.ends[side];
            let p = &k.pipes[1 - side];
            let rst = rst_arrived(p, now);
            let fin = !p.held && p.segs.is_empty() && matches!(p.fin, Some(t) if t <= now);
            let broken = e.dead || e.err.is_some() || e.inject_read.is_some() || rst;
            let rc = broken || fin || e.rd_shut;
            let readable = (!e.rd_paused && p.ready_bytes(now) > 0) || rc;
            let wc = broken || e.wr_shut || e.inject_write.is_some();
            let writable = wc || k.cap > k.pipes[side].bytes || !k.ends[1 - side].open;
            (readable, writable, rc, wc)
        })
        .unwrap_or((true, true, true, true))
    }

    pub(crate) fn register(&self, cx: &mut Context<'_>, read: bool, write: bool) {
        let (conn, side) = (self.conn, self.side);
        with(|c| {
            let e = &mut c.net.conns[conn].ends[side];
            if read {
                reg(&mut e.read_wakers, cx);
            }
            if write {
                reg(&mut e.write_wakers, cx);
            }
        });
    }

    pub(crate) fn shutdown(&self, how: std::net::Shutdown) -> io::Result<()> {
        use std::net::Shutdown::*;
        let (conn, side) = (self.conn, self.side);
        let mut ws = Vec::new();
        let r = with(|c| {
            let now = super::now();
            let k = &mut c.net.conns[conn];
            if k.ends[side].dead || rst_arrived(&k.pipes[1 - side], now) {
                return Err(os(ENOTCONN));
            }
            if matches!(how, Read | Both) {
                k.ends[side].rd_shut = true;
                ws.append(&mut k.ends[side].read_wakers);
            }
            if matches!(how, Write | Both) && !k.ends[side].wr_shut {
                k.ends[side].wr_shut = true;
                ws.append(&mut k.ends[side].write_wakers);
                c.send_ctl(conn, side, false);
            }
            Ok(())
        });
        wake_all(ws);
        r.unwrap_or(Ok(()))
    }

    pub(crate) fn set_linger0(&self, on: bool) {
        with(|c| c.net.conns[self.conn].ends[self.side].linger0 = on);
    }

    pub(crate) fn take_error(&self) -> Option<io::Error> {
        with(|c| c.net.conns[self.conn].ends[self.side].err.take())
            .flatten()
            .map(os)
    }
}

// ---------------------------------------------------------------- connect / listen

pub(crate) fn start_connect(local: Option<SocketAddr>, dst: SocketAddr) -> io::Result<Sock> {
    with(|c| {
        let src = local.unwrap_or_else(|| {
            let ip = c.net.source.take().unwrap_or([127, 0, 0, 1]);
            // hosts choose their ports independently of each other
            let next = c.net.ports.entry((ip, dst)).or_insert(40000);
            let port = *next;
            *next = next.wrapping_add(1).max(1024);
            SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::from(ip), port))
        });
        let id = c.net.conns.len();
        let cap = c.knobs.sock_buf;
        c.net.conns.push(Conn {
            addrs: [src, dst],
            pipes: [Pipe::default(), Pipe::default()],
            ends: [End::new(), End::new()],
            cap,
            refused: false,
            connected: false,
            connect_waker: None,
            accepted: false,
            server_closed_at: None,
        });
        c.stats.conns += 1;
        let lat = c.latency();
        let at = super::now() + lat;
        c.push(at, Event::Accept(id));
        Sock { conn: id, side: 0 }
    })
    .ok_or_else(gone)
}

pub(crate) fn poll_connect(s: &Sock, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    with(|c| {
        let k = &mut c.net.conns[s.conn];
        if !k.connected {
            k.connect_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if k.refused {
            k.ends[0].dead = true;
            return Poll::Ready(Err(os(ECONNREFUSED)));
        }
        Poll::Ready(Ok(()))
    })
    .unwrap_or_else(|| Poll::Ready(Err(gone())))
}

#[derive(Debug)]
pub(crate) struct ListenSock {
    pub(crate) id: usize,
    pub(crate) addr: SocketAddr,
}

pub(crate) fn listen(addr: SocketAddr) -> io::Result<ListenSock> {
    with(|c| {
        let mut addr = addr;
        if addr.port() == 0 {
            c.net.next_port = c.net.next_port.wrapping_add(1).max(1024);
            addr.set_port(c.net.next_port);
        }
        let clash = c.net.by_addr.iter().any(|(a, l)| {
            c.net.listeners[*l].open
                && a.port() == addr.port()
                && (a.ip() == addr.ip() || a.ip().is_unspecified() || addr.ip().is_unspecified())
        });
        if clash {
            return Err(os(EADDRINUSE));
        }
        if let Some(e) = c.net.bind_faults.get(&addr) {
            return Err(os(*e));
        }
        let id = c.net.listeners.len();
        c.net.listeners.push(Listener {
            addr,
            open: true,
            backlog: VecDeque::new(),
            wakers: Vec::new(),
            faults: VecDeque::new(),
        });
        c.net.by_addr.insert(addr, id);
        Ok(ListenSock { id, addr })
    })
    .unwrap_or_else(|| Err(gone()))
}

impl ListenSock {
    pub(crate) fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(Sock, SocketAddr)>> {
        let coop = std::task::ready!(crate::task::coop::poll_proceed(cx));
        let mut ws = Vec::new();
        let r = with(|c| {
            let l = &mut c.net.listeners[self.id];
            if l.backlog.is_empty() {
                reg(&mut l.wakers, cx);
                return Poll::Pending;
            }
            if let Some(kind) = l.faults.pop_front() {
                c.stats.accept_errors += 1;
                if kind == ECONNABORTED {
                    // that connection attempt is lost
                    let conn = l.backlog.pop_front().unwrap();
                    c.close_end(conn, 1, true, &mut ws);
                }
                return Poll::Ready(Err(os(kind)));
            }
            let conn = l.backlog.pop_front().unwrap();
            let k = &mut c.net.conns[conn];
            k.accepted = true;
            Poll::Ready(Ok((Sock { conn, side: 1 }, k.addrs[0])))
        });
        wake_all(ws);
        if matches!(r, Some(Poll::Ready(_))) {
            coop.made_progress();
        }
        r.unwrap_or_else(|| Poll::Ready(Err(gone())))
    }
}

impl Drop for ListenSock {
    fn drop(&mut self) {
        let mut ws = Vec::new();
        with(|c| {
            let l = &mut c.net.listeners[self.id];
            l.open = false;
            let addr = l.addr;
            let pending: Vec<usize> = l.backlog.drain(..).collect();
            l.wakers.clear();
            c.net.by_addr.remove(&addr);
            for conn in pending {
                c.close_end(conn, 1, true, &mut ws);
            }
        });
        wake_all(ws);
    }
}

// ---------------------------------------------------------------- harness controls

/// State of one connection as the harness sees it.
#[derive(Clone, Copy, Debug)]
pub struct ConnInfo {
    pub accepted: bool,
    pub refused: bool,
    pub server_open: bool,
    pub client_open: bool,
    pub server_closed_at: Option<u64>,
    pub c2s_written: u64,
    pub c2s_read: u64,
    pub s2c_written: u64,
    pub s2c_unread: usize,
    pub c2s_unread: usize,
    pub server_sent_fin: bool,
}

pub fn info(conn: usize) -> Option<ConnInfo> {
    with(|c| {
        c.net.conns.get(conn).map(|k| ConnInfo {
            accepted: k.accepted,
            refused: k.refused,
            server_open: k.accepted && k.ends[1].open,
            client_open: k.ends[0].open,
            server_closed_at: k.server_closed_at,
            c2s_written: k.pipes[0].written,
            c2s_read: k.pipes[0].read,
            s2c_written: k.pipes[1].written,
            s2c_unread: k.pipes[1].bytes,
            c2s_unread: k.pipes[0].bytes,
            server_sent_fin: k.pipes[1].fin.is_some() || k.pipes[1].rst.is_some(),
        })
    })
    .flatten()
}

pub fn conn_count() -> usize {
    with(|c| c.net.conns.len()).unwrap_or(0)
}

pub fn listeners_open() -> usize {
    with(|c| c.net.listeners.iter().filter(|l| l.open).count()).unwrap_or(0)
}

/// Resets the connection from the client side, now.
pub fn abort_client(conn: usize) {
    let mut ws = Vec::new();
    with(|c| {
        c.close_end(conn, 0, true, &mut ws);
        // the client's own tasks notice too
        let e = &mut c.net.conns[conn].ends[0];
        e.dead = true;
        e.eof_after_err = true;
        ws.append(&mut e.read_wakers);
        ws.append(&mut e.write_wakers);
    });
    wake_all(ws);
}

/// Closes the client's socket the ordinary way (both directions), now.
pub fn close_client(conn: usize) {
    let mut ws = Vec::new();
    with(|c| {
        c.close_end(conn, 0, false, &mut ws);
        let e = &mut c.net.conns[conn].ends[0];
        e.dead = true;
        e.eof_after_err = true;
        ws.append(&mut e.read_wakers);
        ws.append(&mut e.write_wakers);
    });
    wake_all(ws);
}

/// Stops (or resumes) delivery in one direction: 0 client to server, 1 server to client.
pub fn hold(conn: usize, dir: usize, on: bool) {
    let mut ws = Vec::new();
    with(|c| {
        let now = super::now();
        let k = &mut c.net.conns[conn];
        if k.pipes[dir].held == on {
            return;
        }
        k.pipes[dir].held = on;
        if on {
            c.stats.holds += 1;
        } else {
            c.net.on_arrival(conn, 1 - dir, now, &mut ws);
            let k = &mut c.net.conns[conn];
            ws.append(&mut k.ends[1 - dir].read_wakers);
            ws.append(&mut k.ends[dir].write_wakers);
        }
    });
    wake_all(ws);
}

/// Makes the next server-side read or write on this connection fail.
pub fn fail_server(conn: usize, read: bool, kind: i32) {
    let mut ws = Vec::new();
    with(|c| {
        let e = &mut c.net.conns[conn].ends[1];
        if !e.open {
            return;
        }
        if read {
            e.inject_read = Some(kind);
            ws.append(&mut e.read_wakers);
        } else {
            e.inject_write = Some(kind);
            ws.append(&mut e.write_wakers);
        }
    });
    wake_all(ws);
}

/// Makes the next accept calls on a listener fail.
pub fn fail_accept(addr: SocketAddr, kind: i32, times: usize) {
    with(|c| {
        if let Some(l) = c.net.find_listener(&addr) {
            for _ in 0..times {
                c.net.listeners[l].faults.push_back(kind);
            }
        }
    });
}

/// The address and port the next connection comes from (port 0: the next free one).
pub fn come_from(ip: [u8; 4]) {
    with(|c| c.net.source = Some(ip));
}

/// Nobody can listen there.
pub fn fail_bind(addr: SocketAddr, kind: i32) {
    with(|c| {
        c.net.bind_faults.insert(addr, kind);
    });
}

/// Stops (or resumes) the client's own reading.
pub fn pause_client_read(conn: usize, on: bool) {
    let mut ws = Vec::new();
    with(|c| {
        let e = &mut c.net.conns[conn].ends[0];
        e.rd_paused = on;
        if !on {
            ws.append(&mut e.read_wakers);
        }
    });
    wake_all(ws);
}

/// True if the client's side sent a reset at any time.
pub fn client_reset(conn: usize) -> bool {
    with(|c| c.net.conns[conn].pipes[0].rst.is_some()).unwrap_or(false)
}

/// Total bytes read and written so far (a measure of progress).
pub fn activity() -> u64 {
    with(|c| activity_of(c)).unwrap_or(0)
}

pub(super) fn activity_of(c: &Ctx) -> u64 {
    c.net
        .conns
        .iter()
        .map(|k| {
            k.pipes[0].read
                + k.pipes[0].written
                + k.pipes[1].read
                + k.pipes[1].written
                + (!k.ends[0].open) as u64
                + (!k.ends[1].open) as u64
                + k.accepted as u64
                + k.connected as u64
        })
        .sum::<u64>()
}
