//! Handlers that panic.
use std::cell::Cell;
use std::rc::Rc;
use std::task::Poll;
use std::time::Duration;

use mc_engine::exec::{self, Opts, SEC};
use mc_engine::{bad, choose, Scenario, R};

use crate::duo::history_seen;
use crate::judge;
use crate::world::*;

const B: usize = 0;
const A: usize = 1;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Call {
    Conn,
    Recv,
    Disc,
    Notify,
    Poll,
}

const CALLS: &[Call] = &[Call::Conn, Call::Recv, Call::Disc, Call::Notify, Call::Poll];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// message from the peer, to the peer
    Recv,
    Send,
    Notify,
    ClosePeer,
    Close,
    Open,
    Disc,
    DiscPeer,
    Lost,
    Dial,
    Wake,
    Listen,
}

const OPS: &[Op] = &[
    Op::Recv,
    Op::Send,
    Op::Notify,
    Op::ClosePeer,
    Op::Close,
    Op::Open,
    Op::Disc,
    Op::DiscPeer,
    Op::Lost,
    Op::Dial,
    Op::Wake,
    Op::Listen,
];

#[derive(Clone, Copy, Debug)]
struct Hit {
    lv: Lv,
    id: Option<usize>,
}

/// Protocol 1 of one service has a handler that panics in one kind of callback; protocol 2 is
/// there to be closed with the rest.
fn crash(kind: Kind, n: usize, gaps: usize, opts: Opts) -> R<()> {
    start(Default::default(), 0);
    let victim = choose(2, "victim");
    let levels: Vec<Lv> = kind
        .levels()
        .iter()
        .copied()
        .filter(|l| *l == Lv::Service || *l == Lv::Session)
        .collect();
    let lv = levels[choose(levels.len(), "level")];
    let call = CALLS[choose(CALLS.len(), "callback")];
    // the first call or the second one
    let skip = choose(2, "skip");
    let hit: Rc<Cell<Option<Hit>>> = Rc::default();
    let seen: Rc<Cell<usize>> = Rc::default();
    let wakers: Rc<std::cell::RefCell<Vec<std::task::Waker>>> = Rc::default();
    let boom = {
        let (hit, seen) = (hit.clone(), seen.clone());
        move |lv: Lv, id: Option<usize>| {
            seen.set(seen.get() + 1);
            if seen.get() == skip + 1 {
                hit.set(Some(Hit { lv, id }));
                panic!("planned")
            }
        }
    };
    {
        let boom = boom.clone();
        hook(move |e| {
            let (x, l, id, p) = match e.ev {
                Ev::Conn { lv, id, proto, .. } => (Call::Conn, lv, Some(id), proto),
                Ev::Recv { lv, id, proto, .. } => (Call::Recv, lv, Some(id), proto),
                Ev::Disc { lv, id, proto } => (Call::Disc, lv, Some(id), proto),
                Ev::Notify { lv, id, proto, .. } => (Call::Notify, lv, id, proto),
                _ => return,
            };
            if e.svc == victim && x == call && l == lv && p == 1 {
                boom(l, id)
            }
        });
    }
    if call == Call::Poll {
        let wakers = wakers.clone();
        poll_with(move |(svc, l, id, p), cx| {
            if svc == victim && l == lv && p == 1 {
                boom(l, id)
            }
            wakers.borrow_mut().push(cx.waker().clone());
            Poll::Pending
        });
    }
    let protos = || vec![proto(1, kind), proto(2, kind)];
    let b = service(cfg(protos()).listen(1));
    let a = service(cfg(protos()));
    // somebody else, connected to both
    let c = service(cfg(protos()).listen(5));
    settle();
    drop(a.dial(addr(1), all()));
    settle();
    drop(c.dial(addr(1), all()));
    settle();
    drop(a.dial(addr(5), all()));
    settle();
    let v = if victim == B { b.clone() } else { a.clone() };
    let peer = if victim == B { a.clone() } else { b.clone() };
    let mut at = exec::steps();
    for i in 0..n {
        let op = OPS[choose(OPS.len(), "op")];
        let (v, peer, wakers) = (v.clone(), peer.clone(), wakers.clone());
        let go = move || {
            mc_engine::log(|| format!("=> {:?}", op));
            match op {
                Op::Recv => drop(peer.send_message_to(sid(1), pid(1), "r".into())),
                Op::Send => drop(v.send_message_to(sid(1), pid(1), "s".into())),
                Op::Notify => {
                    let s = Duration::from_secs(1);
                    if lv == Lv::Service {
                        drop(v.set_service_notify(pid(1), s, 7))
                    } else {
                        drop(v.set_session_notify(sid(1), pid(1), s, 7))
                    }
                }
                Op::ClosePeer => drop(peer.close_protocol(sid(1), pid(1))),
                Op::Close => drop(v.close_protocol(sid(1), pid(1))),
                Op::Open => drop(v.open_protocol(sid(1), pid(1))),
                Op::Disc => drop(v.disconnect(sid(1))),
                Op::DiscPeer => drop(peer.disconnect(sid(1))),
                Op::Lost => reset_conn(0, std::io::ErrorKind::ConnectionReset),
                Op::Dial => drop(v.dial(addr(5), all())),
                Op::Wake => {
                    let all: Vec<_> = wakers.borrow_mut().drain(..).collect();
                    all.into_iter().for_each(|w| w.wake())
                }
                Op::Listen => drop(v.listen(addr(8))),
            }
        };
        if i == 0 {
            go()
        } else {
            at += choose(gaps, "gap") as u64;
            if at <= exec::steps() {
                go()
            } else {
                exec::at_step(at, go)
            }
        }
    }
    let end = exec::run(Opts {
        horizon: exec::now() + 5 * SEC,
        ..opts
    });
    if end == exec::End::Steps {
        return bad("no-rest", "the services do not come to rest");
    }
    // what is left of the streams times out
    exec::run(Opts {
        sched: false,
        horizon: exec::now() + 60 * SEC,
        ..opts
    });
    history_seen();
    let l = log();
    let reports: Vec<(usize, Option<usize>, String)> = l
        .iter()
        .filter_map(|e| match &e.ev {
            Ev::Err {
                kind: "handle",
                proto,
                detail,
                ..
            } if detail.contains("Abnormally") => Some((e.svc, *proto, detail.clone())),
            _ => None,
        })
        .collect();
    let n_panics = panics().len();
    if n_panics != hit.get().is_some() as usize {
        return bad("task-panic", format!("{} tasks panicked", n_panics));
    }
    let hit = match hit.get() {
        Some(h) => h,
        None => {
            if let Some(r) = reports.first() {
                return bad("false-report", format!("no handler failed: {:?}", r));
            }
            if [A, B].iter().any(|s| judge::ended(&l, *s)) {
                return bad("ended", "a service ended although no handler failed");
            }
            stop();
            return Ok(());
        }
    };
    let want = format!("AbnormallyClosed({:?})", hit.id.map(sid));
    if !reports
        .iter()
        .any(|r| *r == (victim, Some(1), want.clone()))
    {
        return bad(
            "not-reported",
            format!(
                "the {:?} handler of protocol 1 failed in {:?}: {:?} was not reported but {:?}",
                hit.lv, call, want, reports
            ),
        );
    }
    if let Some(r) = reports.iter().find(|r| r.0 != victim || r.1 != Some(1)) {
        return bad(
            "false-report",
            format!("this handler did not fail: {:?}", r),
        );
    }
    judge::stopped(&l, victim, true)?;
    for s in &[A, B, 2] {
        if *s != victim && judge::ended(&l, *s) {
            return bad("ended", "a service whose handlers did not fail ended");
        }
    }
    // the others see their sessions with it end
    let left: usize = [A, B, 2]
        .iter()
        .filter(|s| **s != victim)
        .map(|s| judge::live(&l, *s).len())
        .sum();
    if left > 2 {
        return bad(
            "session-left",
            "a session to the stopped service is still open",
        );
    }
    judge::sessions(&l)?;
    stop();
    Ok(())
}

pub fn t15(t: bool) -> Vec<Scenario> {
    let o = Opts {
        starve: true,
        ..Opts::default()
    };
    let d = t as usize;
    let b = "a handler that panics in any one of its callbacks, the first or second time: every sequence of requests and faults, all schedules up to the bound";
    let mut v = Vec::new();
    for kind in &[
        Kind::Service,
        Kind::Session,
        Kind::Both,
        Kind::Two,
        Kind::SessionBoth,
    ] {
        let k = *kind;
        v.push(Scenario::new(
            &format!("one-{:?}", k),
            1 + d,
            300,
            b,
            move || crash(k, 1, 1, o),
        ));
        if t || k == Kind::Both || k == Kind::SessionBoth {
            v.push(Scenario::new(
                &format!("inside-{:?}", k),
                1,
                300,
                INSIDE,
                move || crash(k, 1, 1, inside()),
            ));
        }
        v.push(Scenario::new(
            &format!("gap-{:?}", k),
            d,
            600,
            b,
            move || crash(k, 2, if t { 40 } else { 12 }, o),
        ));
    }
    v
}
