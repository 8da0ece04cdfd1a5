//! Two connected services, short histories of requests and faults on either side.
use std::cell::RefCell;
use std::io::ErrorKind;
use std::rc::Rc;

use bytes::Bytes;
use mc_engine::exec::{self, Opts, SEC};
use mc_engine::{bad, choose, Scenario, R};

use crate::judge;
use crate::world::*;

/// service numbers: the listener is started first
pub const B: usize = 0;
pub const A: usize = 1;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    CloseProto(usize, usize),
    OpenProto(usize, usize),
    Disc(usize),
    /// connection reset, both sides see an error
    Reset,
    /// the dialer's network stack goes away without a word, the listener sees end of stream
    Eof,
    Close(usize),
    Shutdown(usize),
    Send(usize, usize),
    /// dial the listener a second time
    Dial,
}

pub struct Duo {
    pub svc: Vec<Svc>,
    pub kind: Kind,
    pub sent: RefCell<Vec<(usize, usize, Bytes)>>,
    pub done: RefCell<Vec<Op>>,
    pub protos: Vec<usize>,
}

pub fn payload(n: usize) -> Bytes {
    Bytes::from(format!("m{}", n))
}

impl Duo {
    /// Two services with protocols 1 and 2 of the given kind, connected, both protocols open.
    pub fn new(kind: Kind, tweak: impl Fn(SvcCfg) -> SvcCfg) -> Rc<Duo> {
        start(Default::default(), 2);
        let protos = vec![proto(1, kind), proto(2, kind)];
        let b = service(tweak(cfg(protos.clone()).listen(1)));
        let a = service(tweak(cfg(protos)));
        a.dial(addr(1), all()).unwrap();
        settle();
        Rc::new(Duo {
            svc: vec![b, a],
            kind,
            sent: RefCell::new(Vec::new()),
            done: RefCell::new(Vec::new()),
            protos: vec![1, 2],
        })
    }

    pub fn up(&self) -> bool {
        let log = log();
        [A, B].iter().all(|s| {
            judge::live(&log, *s).len() == 1
                && self.protos.iter().all(|p| {
                    self.kind
                        .levels()
                        .iter()
                        .all(|l| judge::connected(&log, *s, *l, 1, *p))
                })
        })
    }

    pub fn apply(&self, op: Op) {
        mc_engine::log(|| format!("=> {:?}", op));
        self.done.borrow_mut().push(op);
        match op {
            Op::CloseProto(s, p) => drop(self.svc[s].close_protocol(sid(1), pid(p))),
            Op::OpenProto(s, p) => drop(self.svc[s].open_protocol(sid(1), pid(p))),
            Op::Disc(s) => drop(self.svc[s].disconnect(sid(1))),
            Op::Reset => reset_conn(0, ErrorKind::ConnectionReset),
            Op::Eof => {
                let (ab, ba) = conn(0).unwrap();
                mc_engine::pipe::eof_dir(&ab);
                mc_engine::pipe::eof_dir(&ba);
            }
            Op::Close(s) => drop(self.svc[s].close()),
            Op::Shutdown(s) => drop(self.svc[s].shutdown()),
            Op::Send(s, p) => {
                let data = payload(self.sent.borrow().len());
                if self.svc[s]
                    .send_message_to(sid(1), pid(p), data.clone())
                    .is_ok()
                {
                    self.sent.borrow_mut().push((s, p, data));
                }
            }
            Op::Dial => drop(self.svc[A].dial(addr(1), all())),
        }
    }

    pub fn did(&self, f: impl Fn(&Op) -> bool) -> bool {
        self.done.borrow().iter().any(f)
    }

    pub fn told_to_stop(&self, s: usize) -> bool {
        self.did(|o| *o == Op::Close(s) || *o == Op::Shutdown(s))
    }

    /// Messages a handler level of a service got on a protocol.
    pub fn got(&self, s: usize, lv: Lv, p: usize) -> Vec<Bytes> {
        log()
            .iter()
            .filter_map(|e| match &e.ev {
                Ev::Recv {
                    lv: l, proto, data, ..
                } if e.svc == s && *l == lv && *proto == p => Some(data.clone()),
                _ => None,
            })
            .collect()
    }
}

/// What a history with a given first and second request is judged for.
pub type Judge = fn(&Duo, &exec::End) -> R<()>;

/// One of `ops` at every pair of positions: the first before anything runs, the others each
/// `gap` steps later, `gap` enumerated below `gaps`.
pub fn history(
    kind: Kind,
    tweak: fn(SvcCfg) -> SvcCfg,
    menu: &[Op],
    n: usize,
    gaps: usize,
    opts: Opts,
    judge: Judge,
) -> R<()> {
    let duo = Duo::new(kind, tweak);
    if !duo.up() {
        return bad("set-up", "services did not connect");
    }
    let mut at = exec::steps();
    for i in 0..n {
        let op = menu[choose(menu.len(), "request")];
        if i == 0 {
            duo.apply(op);
        } else {
            at += 1 + choose(gaps, "gap") as u64;
            let d = duo.clone();
            exec::at_step(at, move || d.apply(op));
        }
    }
    let end = exec::run(Opts {
        horizon: exec::now() + 40 * SEC,
        ..opts
    });
    let r = finish(&duo, end, judge);
    stop();
    r
}

fn finish(duo: &Duo, end: exec::End, j: Judge) -> R<()> {
    if end == exec::End::Steps {
        return bad("no-rest", "the services do not come to rest");
    }
    judge::no_panic()?;
    history_seen();
    j(duo, &end)
}

/// Tell the explorer which history of callbacks this execution was.
pub fn history_seen() {
    let mut s = String::new();
    for e in log() {
        s.push_str(&format!("{} {:?};", e.svc, e.ev));
    }
    mc_engine::outcome(s.as_bytes());
}

/// Every live session at one end has its counterpart.
pub fn both_ends(duo: &Duo) -> R<()> {
    let log = log();
    let (a, b) = (judge::live(&log, A), judge::live(&log, B));
    for s in &[A, B] {
        if !duo.told_to_stop(*s) && judge::ended(&log, *s) {
            return bad(
                "ended",
                format!("service {} ended although nobody stopped it", s),
            );
        }
    }
    let count = |s: usize, m: usize| {
        if duo.did(|o| *o == Op::Shutdown(s)) {
            0
        } else {
            m
        }
    };
    let (na, nb) = (count(A, a.len()), count(B, b.len()));
    if na != nb {
        return bad(
            "half-session",
            format!(
                "at rest the dialling service has {} open sessions and the listening service {}",
                na, nb
            ),
        );
    }
    Ok(())
}

pub fn t03(duo: &Duo, _e: &exec::End) -> R<()> {
    judge::sessions(&log())?;
    both_ends(duo)?;
    // the session that was open is gone if anything ended it
    let closing = duo.did(|o| {
        matches!(
            o,
            Op::Disc(_) | Op::Reset | Op::Eof | Op::Close(_) | Op::Shutdown(_)
        )
    });
    let log = log();
    for s in &[A, B] {
        if duo.did(|o| *o == Op::Shutdown(*s)) {
            continue;
        }
        if judge::live(&log, *s).contains_key(&1) == closing {
            return bad(
                "session-1",
                format!(
                    "service {}: session 1 {}",
                    s,
                    if closing {
                        "is still open"
                    } else {
                        "closed for no reason"
                    }
                ),
            );
        }
    }
    Ok(())
}

pub fn t02(duo: &Duo, _e: &exec::End) -> R<()> {
    judge::nesting(&log())?;
    let l = log();
    let live_a = judge::live(&l, A);
    for s in &[A, B] {
        if duo.told_to_stop(*s) {
            continue;
        }
        let live = judge::live(&l, *s);
        for lv in duo.kind.levels() {
            for p in &duo.protos {
                if !live.contains_key(&1)
                    && *lv != Lv::Session
                    && judge::connected(&l, *s, *lv, 1, *p)
                {
                    return bad("disconnected-missing", format!("service {}: session 1 has ended, but the {:?} handler of protocol {} was not told disconnected", s, lv, p));
                }
            }
        }
    }
    if duo.told_to_stop(A) || duo.told_to_stop(B) || !live_a.contains_key(&1) {
        return Ok(());
    }
    // the session lives: both ends agree on which protocols are open, and all levels agree
    for p in &duo.protos {
        let state: Vec<bool> = [A, B]
            .iter()
            .flat_map(|s| {
                duo.kind
                    .levels()
                    .iter()
                    .map(|lv| judge::connected(&l, *s, *lv, 1, *p))
                    .collect::<Vec<_>>()
            })
            .collect();
        if state.iter().any(|x| *x != state[0]) {
            return bad(
                "half-open",
                format!("at rest the handlers of protocol {} disagree whether it is open on session 1: {:?} (dialler, listener)", p, state),
            );
        }
        if !state[0] {
            // it can be opened again
            duo.apply(Op::OpenProto(A, *p));
            settle();
            let l = log();
            for s in &[A, B] {
                for lv in duo.kind.levels() {
                    if !judge::connected(&l, *s, *lv, 1, *p) {
                        return bad(
                            "no-reopen",
                            format!(
                                "protocol {} was closed and cannot be opened again on session 1 (service {})",
                                p, s
                            ),
                        );
                    }
                }
            }
        }
    }
    // and what is open carries messages
    for p in &duo.protos {
        for s in &[A, B] {
            let to = 1 - *s;
            let before = duo.got(to, duo.kind.levels()[0], *p).len();
            duo.apply(Op::Send(*s, *p));
            settle();
            if duo.got(to, duo.kind.levels()[0], *p).len() != before + 1 {
                return bad(
                    "dead-protocol",
                    format!("protocol {} is reported open at both ends of session 1, but a message from service {} does not arrive", p, s),
                );
            }
        }
    }
    judge::nesting(&log())
}

pub fn t07(duo: &Duo, _e: &exec::End) -> R<()> {
    let l = log();
    for s in &[A, B] {
        if duo.told_to_stop(*s) {
            let graceful = !duo.did(|o| *o == Op::Shutdown(*s));
            judge::stopped(&l, *s, graceful)?;
            let c = &duo.svc[*s];
            if c.close().is_ok() || c.disconnect(sid(1)).is_ok() || c.dial(addr(1), all()).is_ok() {
                return bad(
                    "control-after-end",
                    format!("service {} has ended, yet a request to it is accepted", s),
                );
            }
        } else if judge::ended(&l, *s) {
            return bad(
                "ended",
                format!("service {} ended although nobody stopped it", s),
            );
        }
    }
    if duo.told_to_stop(B) && net_connect(sock(1)).is_ok() {
        return bad("still-listening", "the stopped service still accepts");
    }
    for i in 0..conns() {
        let (ab, ba) = conn(i).unwrap();
        let open = |d: &mc_engine::pipe::DirRef| {
            let d = d.lock().unwrap();
            !d.eof && d.read_err.is_none()
        };
        if (duo.told_to_stop(A) && open(&ab)) || (duo.told_to_stop(B) && open(&ba)) {
            return bad(
                "connection-left",
                "a stopped service left a connection open",
            );
        }
    }
    Ok(())
}

pub fn id(c: SvcCfg) -> SvcCfg {
    c
}

pub const OPS: &[Op] = &[
    Op::CloseProto(A, 1),
    Op::CloseProto(B, 1),
    Op::OpenProto(A, 1),
    Op::OpenProto(B, 1),
    Op::Disc(A),
    Op::Disc(B),
    Op::Reset,
    Op::Eof,
    Op::Send(A, 1),
    Op::Send(B, 1),
    Op::Dial,
];

pub const STOPS: &[Op] = &[
    Op::Close(A),
    Op::Close(B),
    Op::Shutdown(A),
    Op::Shutdown(B),
    Op::Disc(A),
    Op::Disc(B),
    Op::CloseProto(A, 1),
    Op::CloseProto(B, 1),
    Op::OpenProto(A, 1),
    Op::Reset,
    Op::Send(A, 1),
    Op::Dial,
];

pub fn scen(
    name: &str,
    kind: Kind,
    menu: &'static [Op],
    n: usize,
    gaps: usize,
    dev: usize,
    wall: u64,
    opts: Opts,
    judge: Judge,
) -> Scenario {
    let name = format!("{}-{:?}", name, kind);
    Scenario::new(
        &name,
        dev,
        wall,
        "two connected services, every history of requests and faults",
        move || history(kind, id, menu, n, gaps, opts, judge),
    )
}
