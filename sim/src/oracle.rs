//! Judges the recorded history of one execution against the properties.
use crate::exec::*;
use crate::mqtt::{matches, In};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Kind {
    Startup,
    RunEnded,
    Hang,
    Restless,
    DialFailed,
    ConnectUnanswered,
    RefusedValid,
    AcceptedInvalid,
    RefusalUnanswered,
    ServedRefused,
    SessionPresent,
    FirstNotConnack,
    TwoConnacks,
    ServedWithoutConnect,
    UnexpectedClose,
    Blocked,
    Missing,
    Corrupt,
    Unmatched,
    AfterUnsub,
    AfterTakeover,
    AfterMalformed,
    AfterSecondConnect,
    AfterDisconnect,
    AfterRefusal,
    AfterNoConnect,
    Copies,
    Order,
    ReplyMissing,
    ReplyWrong,
    ReplyExtra,
    NotClosed,
    NotClosedMalformed,
    NotClosedRefused,
    NotClosedNoConnect,
    NotClosedSecondConnect,
    NotClosedTakeover,
    BothAlive,
    Parse,
    Flags,
    Shutdown,
    Hoards,
    Swollen,
    Leaked,
    Setup,
    /// The program as a whole starts or ends in a wrong way.
    Program,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct V {
    pub kind: Kind,
    pub text: String,
}

/// Which violations a property's check reports.
pub fn relevant(prop: &str, k: Kind) -> bool {
    use Kind::*;
    // the broker does not work at all
    let dead = matches!(k, Startup | RunEnded | Hang | Restless | DialFailed | ConnectUnanswered | RefusedValid);
    // a well-behaved client is not served as it should be
    let service = dead || matches!(k, UnexpectedClose | Blocked | Missing | ReplyMissing);
    let replies = matches!(k, ReplyMissing | ReplyWrong | ReplyExtra);
    let foreign = matches!(
        k,
        Unmatched
            | AfterUnsub
            | AfterTakeover
            | AfterMalformed
            | AfterSecondConnect
            | AfterDisconnect
            | AfterRefusal
            | AfterNoConnect
    );
    match prop {
        "B01" => service || k == Corrupt,
        "B02" => foreign || matches!(k, Corrupt | Copies),
        "B03" => k == Order,
        "B04" => matches!(k, Missing | Hang | RunEnded | UnexpectedClose) || foreign,
        "B05" => matches!(k, AfterUnsub | Missing | Hang | RunEnded | UnexpectedClose | ReplyMissing | ReplyWrong),
        "B06" => service || foreign || k == SessionPresent,
        "B07" => dead || replies || matches!(k, TwoConnacks | UnexpectedClose | Blocked),
        "B08" => {
            service || foreign || matches!(k, AcceptedInvalid | RefusalUnanswered | ServedRefused | NotClosedRefused)
        }
        "B09" => {
            service
                || matches!(
                    k,
                    FirstNotConnack
                        | TwoConnacks
                        | ServedWithoutConnect
                        | AfterNoConnect
                        | AfterSecondConnect
                        | NotClosedNoConnect
                        | NotClosedSecondConnect
                        | ReplyWrong
                        | ReplyExtra
                        | Unmatched
                )
        }
        "B10" => service || foreign || matches!(k, SessionPresent | NotClosedTakeover | BothAlive | Copies),
        "B11" => service,
        "B12" => service || foreign || matches!(k, NotClosedMalformed | ReplyExtra | ReplyWrong),
        "B13" => service || foreign || replies || matches!(k, Corrupt | Copies | Order),
        "B14" => {
            dead || matches!(k, Parse | Missing | ReplyMissing | Corrupt | Copies | ReplyExtra | ReplyWrong | UnexpectedClose | Blocked)
        }
        "B15" => {
            matches!(
                k,
                NotClosed
                    | NotClosedMalformed
                    | NotClosedRefused
                    | NotClosedNoConnect
                    | NotClosedSecondConnect
                    | NotClosedTakeover
                    | Hang
                    | Restless
                    | RunEnded
            )
        }
        "B16" => matches!(k, Shutdown | RunEnded | Hang),
        "B17" => service,
        "B18" => service || foreign || replies || k == Copies,
        "B19" => service || foreign || matches!(k, BothAlive | NotClosedTakeover | SessionPresent),
        "B21" => dead || matches!(k, AcceptedInvalid | ServedRefused | UnexpectedClose),
        "B22" => matches!(k, Flags | Corrupt),
        "B23" => dead || k == Setup,
        "B30" => dead || matches!(k, Setup | Program),
        "B25" => dead || k == Hoards,
        "B26" => dead || k == Swollen,
        "B27" => k == Leaked,
        "B24" => service || foreign || matches!(k, NotClosedTakeover),
        _ => false,
    }
}

struct C<'a> {
    r: &'a ConnRec,
    start: u64,
    acc: Option<u64>,
    first_end: Option<u64>,
    fault: Option<u64>,
    disturb: Option<u64>,
    superseded: Option<u64>,
    window_end: u64,
    eof: u64,
    /// Position of the first DISCONNECT among the packets it sent.
    disc: usize,
}

impl<'a> C<'a> {
    fn healthy(&self, s: u64) -> bool {
        let later = |x: Option<u64>| x.map_or(true, |v| v > s);
        self.acc.is_some() && later(self.first_end) && later(self.fault) && later(self.disturb) && later(self.r.paused)
    }
    fn bad_from(&self) -> usize {
        self.r.bad_from.unwrap_or(usize::MAX)
    }
    fn disc_from(&self) -> usize {
        self.disc
    }
}

fn topic_s(t: &str) -> String {
    if t.len() > 80 {
        format!("{}... ({} bytes)", t.chars().take(60).collect::<String>(), t.len())
    } else {
        t.to_string()
    }
}

/// Rounds of work that leave nothing behind: does the broker hold more after each of them?
fn hoards(w: &World, add: &mut dyn FnMut(Kind, String)) {
    let n = w.rounds.len();
    if n < 8 || w.barriers.len() < n {
        return;
    }
    let s: Vec<(i64, i64)> = w.barriers[3..n].iter().map(|b| b.held).collect();
    if w.barriers[..n].iter().any(|b| !b.quiet) {
        return;
    }
    let third = (s.len() / 3).max(1);
    let (early, late) = (&s[..third], &s[s.len() - third..]);
    // operations between the two
    let ops: usize = w.rounds[3 + third..n - third + 1].iter().sum();
    let grow = |f: &dyn Fn(&(i64, i64)) -> i64| late.iter().map(f).min().unwrap() - early.iter().map(f).max().unwrap();
    let (bytes, blocks) = (grow(&|x| x.0), grow(&|x| x.1));
    let list = || s.iter().map(|x| format!("{}/{}", x.0, x.1)).collect::<Vec<_>>().join(" ");
    if blocks > 10 + ops as i64 / 100 {
        add(Kind::Hoards, format!("rounds that leave nothing behind: the broker held {} more blocks of memory after {} operations (bytes/blocks after each round: {})", blocks, ops, list()));
    } else if bytes > 20 * 1024 + ops as i64 / 2 {
        add(Kind::Hoards, format!("rounds that leave nothing behind: the broker held {} more bytes of memory after {} operations (bytes/blocks after each round: {})", bytes, ops, list()));
    }
}

pub fn judge(w: &World) -> Vec<V> {
    let mut out: Vec<V> = Vec::new();
    let mut add = |kind: Kind, text: String| {
        if out.iter().filter(|v: &&V| v.kind == kind).count() < 3 {
            out.push(V { kind, text });
        }
    };
    if w.setup {
        for e in &w.setup_errors {
            add(Kind::Setup, e.clone());
        }
        return out;
    }
    if w.start_failed {
        add(
            Kind::Startup,
            format!(
                "the broker did not open its listeners{}",
                w.run_end
                    .as_ref()
                    .and_then(|r| r.2.clone())
                    .map(|p| format!("; its run ended with: {}", p))
                    .unwrap_or_default()
            ),
        );
        return out;
    }
    let int_seq = w.interrupt.map(|i| i.0).unwrap_or(u64::MAX);
    if let Some((s, at, p)) = &w.run_end {
        if let Some((_, t)) = w.interrupt {
            if *at > t + 60_000_000_000 {
                add(Kind::Shutdown, "60 s after the interrupt the broker's run had not ended".into());
            }
        }
        if *s < int_seq {
            add(
                Kind::RunEnded,
                format!(
                    "the broker's run ended without an interrupt{}",
                    p.as_ref().map(|p| format!(", with a panic: {}", p)).unwrap_or_default()
                ),
            );
            return out;
        }
        if let Some(p) = p {
            add(Kind::Shutdown, format!("after the interrupt the broker's run ended with a panic: {}", p));
        }
    } else if w.interrupt.is_some() {
        add(Kind::Shutdown, "60 s after the interrupt the broker's run had not ended".into());
    }
    for l in &w.late_accepts {
        add(Kind::Shutdown, format!("after its run had ended the broker still served: {}", l));
    }
    hoards(w, &mut add);
    if w.ceiling > 0 && w.peak > w.ceiling {
        add(
            Kind::Swollen,
            format!("the broker held {} bytes of memory at once, for {} connections that is more than {}", w.peak, w.conns.len(), w.ceiling),
        );
    }
    let barrier_of = |phase: usize| w.barriers.get(phase);
    let next_barrier = |seq: u64| w.barriers.iter().find(|b| b.seq > seq).map(|b| b.seq).unwrap_or(u64::MAX);

    let mut cs: Vec<C> = w
        .conns
        .iter()
        .map(|r| {
            let start = r.connect.as_ref().map(|c| r.sent[c.sent].start).unwrap_or(u64::MAX);
            let acc = r
                .recv
                .iter()
                .find(|x| matches!(x.pkt, In::ConnAck { code: 0, .. }))
                .map(|x| x.seq)
                .filter(|_| r.connect.is_some());
            let ack_any = r.recv.iter().find(|x| matches!(x.pkt, In::ConnAck { .. })).map(|x| x.seq);
            let eof = r.eof.as_ref().map(|e| e.0).unwrap_or(u64::MAX);
            let window_end = if start == u64::MAX {
                0
            } else {
                ack_any.unwrap_or(u64::MAX).min(eof).min(next_barrier(start))
            };
            C {
                r,
                start,
                acc,
                first_end: r.ends.iter().map(|e| e.1).min(),
                fault: r.fault.as_ref().map(|f| f.0),
                disturb: None,
                superseded: None,
                window_end,
                eof,
                disc: r.sent.iter().position(|s| matches!(s.what, What::Disc)).unwrap_or(usize::MAX),
            }
        })
        .collect();

    // -------- client ids shared by several connections
    let mut groups: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
    for (i, c) in cs.iter().enumerate() {
        if let Some(k) = &c.r.connect {
            if k.expect_accept && !k.id.is_empty() && c.start != u64::MAX {
                groups.entry(k.id.as_str()).or_default().push(i);
            }
        }
    }
    let mut effects: Vec<(Option<u64>, Option<u64>)> = vec![(None, None); cs.len()];
    let mut effect = |c: usize, at: u64, sup: Option<u64>| {
        let e = &mut effects[c];
        e.0 = Some(e.0.unwrap_or(u64::MAX).min(at));
        if let Some(s) = sup {
            e.1 = Some(e.1.unwrap_or(u64::MAX).min(s));
        }
    };
    for g in groups.values_mut() {
        g.sort_by_key(|i| (cs[*i].start, *i));
        for (k, &a) in g.iter().enumerate() {
            // a's CONNECT was sent first
            let mut least: Option<u64> = None;
            for &b in &g[k + 1..] {
                if cs[a].eof < cs[b].start || least.is_some_and(|l| l <= cs[b].start) {
                    break;
                }
                if cs[a].window_end < cs[b].start {
                    effect(a, cs[b].start, cs[b].acc);
                    least = least.into_iter().chain(cs[b].acc).min();
                } else {
                    effect(a, cs[a].start, None);
                    effect(b, cs[b].start, None);
                }
            }
        }
    }
    for (c, (d, x)) in effects.into_iter().enumerate() {
        cs[c].disturb = d;
        cs[c].superseded = x;
    }
    let cs = cs;

    // -------- transport level and connection set-up
    for (i, c) in cs.iter().enumerate() {
        let r = c.r;
        if r.dial_start > int_seq {
            continue;
        }
        let bar = barrier_of(r.phase);
        if let Some(e) = &r.dial_err {
            if bar.is_some() {
                add(Kind::DialFailed, format!("conn {} to listener {} failed: {}", i, r.listener, e));
            }
            continue;
        }
        let accepted_tcp = bar.map_or(true, |b| b.accepted.get(i).copied().unwrap_or(false));
        let lost = r.accept_lost || (!accepted_tcp && c.eof != u64::MAX);
        if lost {
            continue; // an injected accept failure took this attempt
        }
        let Some(k) = &r.connect else {
            // never sent CONNECT
            if let Some(x) = r.recv.first() {
                add(
                    Kind::ServedWithoutConnect,
                    format!("conn {} never sent CONNECT but received {}", i, x.pkt.short()),
                );
            }
            continue;
        };
        let ca: Vec<(&Recv, bool, u8)> = r
            .recv
            .iter()
            .filter_map(|x| match x.pkt {
                In::ConnAck { sp, code } => Some((x, sp, code)),
                _ => None,
            })
            .collect();
        if r.bad_from.map_or(false, |b| b < k.sent) {
            // something else came first
            if let Some(x) = r.recv.first() {
                add(
                    Kind::ServedWithoutConnect,
                    format!("conn {}: its first packet was not CONNECT but it received {}", i, x.pkt.short()),
                );
            }
            continue;
        }
        if k.expect_accept {
            if let Some(x) = r.recv.first() {
                if !matches!(x.pkt, In::ConnAck { .. }) {
                    add(
                        Kind::FirstNotConnack,
                        format!("conn {}: the broker's first packet is {}", i, x.pkt.short()),
                    );
                }
            }
            if ca.len() > 1 {
                add(Kind::TwoConnacks, format!("conn {} received {} CONNACKs", i, ca.len()));
            }
            if let Some((_, sp, code)) = ca.first() {
                if *code != 0 {
                    add(
                        Kind::RefusedValid,
                        format!(
                            "conn {}: a valid CONNECT (id {:?}, user {:?}) was refused with code {}",
                            i, k.id, k.user, code
                        ),
                    );
                } else if *sp {
                    add(
                        Kind::SessionPresent,
                        format!("conn {} (id {:?}) was told that a session is present", i, k.id),
                    );
                }
            } else if let Some(b) = bar {
                let later = |x: Option<u64>| x.map_or(true, |v| v > b.seq);
                let written = r.sent[k.sent].end.is_some();
                if written
                    && later(c.first_end)
                    && later(c.fault)
                    && later(c.disturb)
                    && later(r.paused)
                    && r.sent[k.sent].phase == r.phase
                {
                    add(
                        Kind::ConnectUnanswered,
                        format!("conn {}: CONNECT (id {:?}, user {:?}) was not answered", i, k.id, k.user),
                    );
                }
            }
        } else {
            for x in &r.recv {
                match x.pkt {
                    In::ConnAck { code: 0, .. } => add(
                        Kind::AcceptedInvalid,
                        format!("conn {}: CONNECT with user {:?} and password {:?} was accepted", i, k.user, k.pass),
                    ),
                    In::ConnAck { sp: true, .. } => {
                        add(Kind::ServedRefused, format!("conn {}: refusal with session present", i))
                    }
                    In::ConnAck { .. } => {}
                    _ => add(
                        Kind::ServedRefused,
                        format!("conn {} was refused but received {}", i, x.pkt.short()),
                    ),
                }
            }
            if ca.len() > 1 {
                add(Kind::ServedRefused, format!("conn {} was refused {} times", i, ca.len()));
            }
            if let Some(b) = bar {
                let later = |x: Option<u64>| x.map_or(true, |v| v > b.seq);
                let alone = r.sent.iter().filter(|s| s.start != u64::MAX).count() == 1;
                let own_end = r.ends.iter().any(|e| e.1 < ca.first().map(|x| x.0.seq).unwrap_or(c.eof));
                if ca.is_empty()
                    && alone
                    && !own_end
                    && r.sent[k.sent].end.is_some()
                    && r.sent[k.sent].phase == r.phase
                    && later(c.fault)
                    && later(r.paused)
                {
                    add(
                        Kind::RefusalUnanswered,
                        format!("conn {}: CONNECT with user {:?}, password {:?} got no CONNACK", i, k.user, k.pass),
                    );
                }
            }
        }
        // closed without cause
        if let Some((e, _, how)) = &r.eof {
            let before = |x: Option<u64>| x.map_or(false, |v| v < *e);
            if k.expect_accept
                && !before(c.first_end)
                && !before(c.fault)
                && !before(c.disturb)
                && !before(r.paused)
                && *e < int_seq
                && !r.sent.iter().any(|s| matches!(s.what, What::Partial))
                && r.parse_err.is_none()
                && !(ca.first().map_or(false, |x| x.2 != 0))
            {
                add(
                    Kind::UnexpectedClose,
                    format!("conn {} (id {:?}) did nothing wrong but was closed by the broker ({})", i, k.id, how),
                );
            }
        }
        if r.write_stuck && k.expect_accept {
            let b = next_barrier(c.start);
            let ok = c.first_end.map_or(true, |v| v > b)
                && c.fault.is_none()
                && c.disturb.is_none()
                && r.paused.is_none()
                && w.teardown_from.is_some();
            if ok && r.eof.is_none() {
                add(Kind::Blocked, format!("conn {}: the broker stopped reading from it for 120 s", i));
            }
        }
    }

    // -------- releases
    for (bi, b) in w.barriers.iter().enumerate() {
        if b.seq > int_seq && w.teardown_from.is_none() {
            break;
        }
        if !b.quiet && w.run_end.as_ref().map_or(true, |r| r.0 > b.seq) {
            add(
                Kind::Restless,
                format!("1500 s after phase {} had ended there was still traffic", bi),
            );
        }
        for (i, c) in cs.iter().enumerate().take(b.conns) {
            if !b.server_open[i] {
                continue;
            }
            let r = c.r;
            let mut why: Option<(Kind, String)> = None;
            for (k, s, _) in &r.ends {
                if *s > b.seq {
                    continue;
                }
                let w = match k {
                    EndKind::Disc => (Kind::NotClosed, "it sent DISCONNECT".to_string()),
                    EndKind::Close => (Kind::NotClosed, "the client closed it".to_string()),
                    EndKind::HalfClose => (Kind::NotClosed, "the client shut its side down".to_string()),
                    EndKind::Abort => (Kind::NotClosed, "the client reset it".to_string()),
                    EndKind::Violation(v) if v == "second CONNECT" => {
                        (Kind::NotClosedSecondConnect, "it sent a second CONNECT".to_string())
                    }
                    EndKind::Violation(v) if v.starts_with("first packet") => {
                        (Kind::NotClosedNoConnect, "its first packet was not CONNECT".to_string())
                    }
                    EndKind::Violation(v) => (Kind::NotClosedMalformed, format!("it sent a malformed packet ({})", v)),
                };
                why.get_or_insert(w);
            }
            // only if those bytes were really sent
            if let Some((k, _)) = &why {
                if matches!(k, Kind::NotClosedMalformed | Kind::NotClosedSecondConnect | Kind::NotClosedNoConnect | Kind::NotClosed) {
                    let last_unsent = r.sent.iter().any(|s| s.end.is_none());
                    let hard = r.ends.iter().any(|e| {
                        e.1 < b.seq && matches!(e.0, EndKind::Close | EndKind::Abort | EndKind::HalfClose)
                    });
                    if last_unsent && !hard {
                        why = None;
                    }
                }
            }
            if why.is_none() {
                if let Some(k) = &r.connect {
                    if !k.expect_accept && c.start < b.seq && r.sent[k.sent].end.is_some() {
                        why = Some((Kind::NotClosedRefused, "its credentials were refused".into()));
                    }
                }
            }
            if why.is_none() && c.superseded.map_or(false, |s| s < b.seq) && c.acc.is_some() {
                why = Some((Kind::NotClosedTakeover, "a newer connection took over its client id".into()));
            }
            if let Some((k, t)) = why {
                add(k, format!("conn {} is still open on the broker's side after phase {}: {}", i, bi, t));
            }
        }
        for g in groups.values() {
            let alive: Vec<usize> = g
                .iter()
                .copied()
                .filter(|&i| {
                    i < b.conns
                        && b.server_open[i]
                        && cs[i].acc.map_or(false, |a| a < b.seq)
                        && cs[i].r.paused.is_none()
                })
                .collect();
            if alive.len() > 1 {
                add(
                    Kind::BothAlive,
                    format!("after phase {} connections {:?} with the same client id are all alive", bi, alive),
                );
            }
        }
    }

    // -------- bytes
    for (i, c) in cs.iter().enumerate() {
        if let Some((_, e)) = &c.r.parse_err {
            add(Kind::Parse, format!("conn {}: {}", i, e));
        }
        for b in &w.barriers {
            if b.leftover.get(i).copied().unwrap_or(0) > 0 && c.healthy(b.seq) && b.quiet && c.eof > b.seq {
                add(
                    Kind::Parse,
                    format!("conn {}: {} bytes of an unfinished packet were left at rest", i, b.leftover[i]),
                );
            }
        }
        if let Some((e, _, how)) = &c.r.eof {
            let own = c.r.ends.iter().any(|x| x.1 < *e && matches!(x.0, EndKind::Close | EndKind::Abort));
            if how == "closed" && c.r.leftover > 0 && !own && c.fault.is_none() && *e < int_seq {
                add(
                    Kind::Parse,
                    format!("conn {}: the broker closed it in the middle of a packet ({} bytes)", i, c.r.leftover),
                );
            }
        }
    }

    // -------- answers
    for (i, c) in cs.iter().enumerate() {
        let r = c.r;
        if c.acc.is_none() {
            continue;
        }
        let disc = c.disc_from();
        let reqs: Vec<(usize, &Sent)> = r
            .sent
            .iter()
            .enumerate()
            .filter(|(n, s)| {
                *n < c.bad_from()
                    && s.start != u64::MAX
                    && *n < disc
                    && matches!(s.what, What::Sub { .. } | What::Unsub { .. } | What::Ping)
            })
            .collect();
        let replies: Vec<&Recv> = r
            .recv
            .iter()
            .filter(|x| matches!(x.pkt, In::SubAck { .. } | In::UnsubAck { .. } | In::PingResp))
            .collect();
        for (n, x) in replies.iter().enumerate() {
            let Some((_, s)) = reqs.get(n) else {
                add(Kind::ReplyExtra, format!("conn {}: {} answers nothing", i, x.pkt.short()));
                break;
            };
            let ok = match (&s.what, &x.pkt) {
                (What::Sub { pid, filters }, In::SubAck { pid: p, codes }) => {
                    pid == p && codes.len() == filters.len() && codes.iter().all(|c| *c == 0)
                }
                (What::Unsub { pid, .. }, In::UnsubAck { pid: p }) => pid == p,
                (What::Ping, In::PingResp) => true,
                _ => false,
            };
            if !ok {
                add(
                    Kind::ReplyWrong,
                    format!("conn {}: {} was answered with {}", i, describe(w, &s.what), x.pkt.short()),
                );
                break;
            }
            if x.seq < s.start {
                add(
                    Kind::ReplyExtra,
                    format!("conn {}: {} came before the request was sent", i, x.pkt.short()),
                );
                break;
            }
        }
        for (n, (_, s)) in reqs.iter().enumerate() {
            let Some(b) = barrier_of(s.phase) else { continue };
            if n >= replies.len() && s.end.is_some() && c.healthy(b.seq) {
                add(
                    Kind::ReplyMissing,
                    format!("conn {}: {} was not answered", i, describe(w, &s.what)),
                );
                break;
            }
        }
        for x in &r.recv {
            if let In::Other { first, .. } = x.pkt {
                let qos = r.sent.iter().any(|s| match s.what {
                    What::Pub { msg } => w.msgs[msg].qos > 0 && s.start < x.seq,
                    What::Legal => s.start < x.seq,
                    _ => false,
                });
                if !qos {
                    add(
                        Kind::ReplyExtra,
                        format!("conn {}: packet {:#04x} answers nothing", i, first),
                    );
                }
            }
        }
    }

    // -------- messages
    // per connection: subscribe and unsubscribe events per filter, in sending order
    struct SubEv {
        sub: bool,
        start: u64,
        ack: u64,
        ok: bool,
    }
    let mut subs: Vec<BTreeMap<&str, Vec<SubEv>>> = Vec::new();
    for c in &cs {
        let mut m: BTreeMap<&str, Vec<SubEv>> = BTreeMap::new();
        let replies: Vec<&Recv> = c
            .r
            .recv
            .iter()
            .filter(|x| matches!(x.pkt, In::SubAck { .. } | In::UnsubAck { .. } | In::PingResp))
            .collect();
        let mut n = 0;
        let disc = c.disc_from();
        for (k, s) in c.r.sent.iter().enumerate() {
            let valid = k < c.bad_from() && k < disc;
            let (sub, fs): (bool, Vec<&str>) = match &s.what {
                What::Sub { filters, .. } => (true, filters.iter().map(|f| f.0.as_str()).collect()),
                What::Unsub { filters, .. } => (false, filters.iter().map(|f| f.as_str()).collect()),
                What::Ping => {
                    n += 1;
                    continue;
                }
                _ => continue,
            };
            let ack = match (replies.get(n), sub) {
                (Some(x), true) if matches!(x.pkt, In::SubAck { .. }) => x.seq,
                (Some(x), false) if matches!(x.pkt, In::UnsubAck { .. }) => x.seq,
                _ => u64::MAX,
            };
            n += 1;
            if s.start == u64::MAX {
                continue;
            }
            for f in fs {
                m.entry(f).or_default().push(SubEv { sub, start: s.start, ack, ok: valid });
            }
        }
        subs.push(m);
    }
    // copies received per (connection, message)
    let mut got: Vec<BTreeMap<usize, u32>> = vec![BTreeMap::new(); cs.len()];
    for (i, c) in cs.iter().enumerate() {
        let mut last: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
        for x in &c.r.recv {
            let In::Publish { qos, dup, retain, pid, topic, payload } = &x.pkt else { continue };
            if *qos != 0 || *dup || *retain || pid.is_some() {
                add(Kind::Flags, format!("conn {} received {}", i, x.pkt.short()));
            }
            let Some(mi) = x.msg else {
                let ghost = w
                    .ghosts
                    .iter()
                    .find(|g| g.topic.as_bytes() == topic.as_slice() && &g.payload == payload);
                match ghost {
                    Some(g) => add(
                        Kind::AfterMalformed,
                        format!(
                            "conn {} received a message that conn {} sent in or after a malformed packet ({})",
                            i, g.conn, g.why
                        ),
                    ),
                    None => add(
                        Kind::Corrupt,
                        format!("conn {} received a message nobody published: {}", i, x.pkt.short()),
                    ),
                }
                continue;
            };
            let m = &w.msgs[mi];
            *got[i].entry(mi).or_insert(0) += 1;
            let p = &cs[m.conn];
            let pstart = p.r.sent[m.sent].start;
            // was it published at all?
            if m.sent >= p.bad_from() || p.disc_from() < m.sent {
                let (k, t) = if p.r.connect.is_none() || p.r.connect.as_ref().map_or(false, |k| p.bad_from() < k.sent) {
                    (Kind::AfterNoConnect, "whose first packet was not CONNECT".to_string())
                } else if p.r.connect.as_ref().map_or(false, |k| !k.expect_accept) {
                    (Kind::AfterRefusal, "whose credentials are wrong".to_string())
                } else {
                    match p.r.ends.iter().find(|e| matches!(e.0, EndKind::Violation(_) | EndKind::Disc)) {
                        Some((EndKind::Violation(v), _, _)) if v == "second CONNECT" => {
                            (Kind::AfterSecondConnect, "after a second CONNECT".into())
                        }
                        Some((EndKind::Violation(v), _, _)) => {
                            (Kind::AfterMalformed, format!("after a malformed packet ({})", v))
                        }
                        _ => (Kind::AfterDisconnect, "after its DISCONNECT".into()),
                    }
                };
                add(
                    k,
                    format!("conn {} received message {}.{} sent by conn {} {}", i, m.key, m.j, m.conn, t),
                );
                continue;
            }
            // order
            let pos = (m.sent, mi);
            if let Some((ls, lm)) = last.get(&m.conn) {
                if pos.0 < *ls {
                    let l = &w.msgs[*lm];
                    add(
                        Kind::Order,
                        format!(
                            "conn {} received message {}.{} of conn {} after {}.{}, which was sent later",
                            i, m.key, m.j, m.conn, l.key, l.j
                        ),
                    );
                }
            }
            let e = last.entry(m.conn).or_insert(pos);
            if pos.0 > e.0 {
                *e = pos;
            }
            // entitled?
            if let Some(s) = c.superseded {
                if s < pstart {
                    add(
                        Kind::AfterTakeover,
                        format!(
                            "conn {} received message {}.{} although a newer connection had taken over its client id before it was sent",
                            i, m.key, m.j
                        ),
                    );
                    continue;
                }
            }
            let mut may: BTreeSet<&str> = BTreeSet::new();
            let mut had: Option<&str> = None;
            if c.acc.is_some() {
                for (f, evs) in &subs[i] {
                    if !matches(f, &m.topic) {
                        continue;
                    }
                    let mut on = false;
                    for e in evs {
                        if e.sub {
                            if e.ok && e.start < x.seq {
                                on = true;
                            }
                        } else if e.ok && e.ack < pstart {
                            if on {
                                had = Some(f);
                            }
                            on = false;
                        }
                    }
                    if on {
                        may.insert(f);
                    }
                }
            }
            if may.is_empty() {
                match had {
                    Some(f) => add(
                        Kind::AfterUnsub,
                        format!(
                            "conn {} received message {}.{} on {:?} although its unsubscription of {:?} was acknowledged before the message was sent",
                            i, m.key, m.j, topic_s(&m.topic), topic_s(f)
                        ),
                    ),
                    None => add(
                        Kind::Unmatched,
                        format!(
                            "conn {} (id {:?}) received message {}.{} on {:?} without holding a matching subscription (it asked for {:?})",
                            i,
                            c.r.connect.as_ref().map(|k| k.id.as_str()).unwrap_or(""),
                            m.key,
                            m.j,
                            topic_s(&m.topic),
                            subs[i].keys().map(|f| topic_s(f)).take(12).collect::<Vec<_>>()
                        ),
                    ),
                }
                continue;
            }
            let n = got[i][&mi];
            if n as usize > may.len() {
                if had.is_some() {
                    add(
                        Kind::AfterUnsub,
                        format!("conn {} received {} copies of message {}.{} but only {:?} still match", i, n, m.key, m.j, may),
                    );
                }
                add(
                    Kind::Copies,
                    format!(
                        "conn {} received {} copies of message {}.{} but holds only {} matching filters {:?}",
                        i,
                        n,
                        m.key,
                        m.j,
                        may.len(),
                        may
                    ),
                );
            }
        }
    }
    for (mi, m) in w.msgs.iter().enumerate() {
        let p = &cs[m.conn];
        let s = &p.r.sent[m.sent];
        let Some(b) = barrier_of(s.phase) else { continue };
        let later = |x: Option<u64>| x.map_or(true, |v| v > b.seq);
        if p.acc.is_none()
            || m.sent >= p.bad_from()
            || s.end.is_none()
            || p.disc_from() < m.sent
            || !later(p.fault)
            || !later(p.disturb)
            || b.client_reset.get(m.conn).copied().unwrap_or(true)
        {
            continue;
        }
        for (i, c) in cs.iter().enumerate() {
            if !c.healthy(b.seq) || c.acc.unwrap() > s.start {
                continue;
            }
            let mut must: Option<&str> = None;
            for (f, evs) in &subs[i] {
                if !matches(f, &m.topic) {
                    continue;
                }
                let mut on = false;
                for e in evs {
                    if e.start > b.seq {
                        break;
                    }
                    if e.sub {
                        if e.ok && e.ack < s.start {
                            on = true;
                        }
                    } else {
                        on = false;
                    }
                }
                if on {
                    must = Some(f);
                }
            }
            if let Some(f) = must {
                if got[i].get(&mi).copied().unwrap_or(0) == 0 {
                    add(
                        Kind::Missing,
                        format!(
                            "conn {} holds {:?} but message {}.{} on {:?} ({} bytes, from conn {}) never reached it",
                            i,
                            topic_s(f),
                            m.key,
                            m.j,
                            topic_s(&m.topic),
                            m.payload.len(),
                            m.conn
                        ),
                    );
                }
            }
        }
    }
    out
}
