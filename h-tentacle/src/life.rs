//! How long a service lives, and how many sessions it keeps.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::io::ErrorKind;
use std::rc::Rc;

use mc_engine::exec::{self, Opts, SEC};
use mc_engine::{bad, choose, Scenario, R};
use tentacle::multiaddr::Multiaddr;

use crate::duo::history_seen;
use crate::judge;
use crate::world::*;

fn p(s: &str) -> Multiaddr {
    s.parse().unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Dial(usize),
    Listen(usize),
    /// close the sessions there are, from here or from there
    Disc,
    PeerDisc,
    Lost,
    /// the anchor can accept no more
    Broken,
    /// a peer comes in
    Incoming,
}

const OPS: &[Op] = &[
    Op::Dial(0),
    Op::Dial(1),
    Op::Dial(2),
    Op::Dial(3),
    Op::Dial(4),
    Op::Listen(0),
    Op::Listen(1),
    Op::Listen(2),
    Op::Disc,
    Op::PeerDisc,
    Op::Lost,
    Op::Broken,
    Op::Incoming,
];

fn dials() -> Vec<Multiaddr> {
    vec![
        addr(1),
        // nobody there
        addr(3),
        // never answers
        addr(4),
        // not supported
        p("/ip4/127.0.0.1/tcp/1020/wss"),
        // closes at once
        addr(5),
    ]
}

fn listens() -> Vec<Multiaddr> {
    vec![addr(10), addr(1), p("/ip4/127.0.0.1/tcp/1023/tls/a")]
}

const ME: usize = 2;

/// What a service still has to do, by its own reports and the requests made to it.
#[derive(Default)]
struct Todo {
    sessions: BTreeSet<usize>,
    listeners: BTreeSet<String>,
    /// requests without an answer; whether the service surely has taken them up
    open: BTreeMap<String, bool>,
}

impl Todo {
    fn answer(&mut self, k: String) {
        self.open.remove(&k);
    }
    fn take(&mut self, ev: &Ev) {
        match ev {
            Ev::Open { id, out, addr, .. } => {
                self.sessions.insert(*id);
                if *out {
                    self.answer(format!("dial {}", addr));
                }
            }
            Ev::Close { id } => {
                self.sessions.remove(id);
            }
            Ev::ListenStarted(a) => {
                self.listeners.insert(a.clone());
                self.answer(format!("listen {}", a));
            }
            Ev::ListenClose(a) => {
                self.listeners.remove(a);
            }
            Ev::Err { kind, addr, .. } => self.answer(format!("{} {}", kind, addr)),
            _ => (),
        }
    }
    /// `sure`: without requests that may still have been queued
    fn left(&self, sure: bool) -> Option<String> {
        if let Some(s) = self.sessions.iter().next() {
            return Some(format!("session {}", s));
        }
        if let Some(s) = self.listeners.iter().next() {
            return Some(format!("listener {}", s));
        }
        self.open
            .iter()
            .find(|(_, s)| **s || !sure)
            .map(|(k, _)| k.clone())
    }
}

fn judge_now(todo: &RefCell<Todo>, when: &str) -> R<()> {
    judge::no_panic()?;
    let l = log();
    if judge::ended(&l, ME) {
        return match todo.borrow().left(true) {
            Some(x) => bad(
                "ended",
                format!("{}: the service ended with {} left", when, x),
            ),
            None => Ok(()),
        };
    }
    if todo.borrow().left(false).is_none() {
        return bad(
            "no-end",
            format!("{}: nothing is left to do, the service has not ended", when),
        );
    }
    // at rest, so it has seen every request
    for s in todo.borrow_mut().open.values_mut() {
        *s = true;
    }
    Ok(())
}

/// A service that is not to run forever, kept by a listener or by a dial made before it runs.
fn life(forever: bool, by_dial: bool, n: usize, gaps: usize, opts: Opts) -> R<()> {
    start(Default::default(), 0);
    let protos = vec![proto(1, Kind::Both)];
    let peer = Rc::new(service(cfg(protos.clone()).listen(1)));
    let other = Rc::new(service(cfg(protos.clone())));
    silent(sock(4));
    let mut l = net_listen(sock(5));
    exec::spawn_daemon("closer", async move {
        loop {
            drop(l.accept().await);
        }
    });
    settle();
    let todo: Rc<RefCell<Todo>> = Rc::default();
    let t2 = todo.clone();
    let early: Rc<RefCell<Option<String>>> = Rc::default();
    let e2 = early.clone();
    hook(move |e| {
        if e.svc == ME {
            if e.ev == Ev::End {
                *e2.borrow_mut() = t2.borrow().left(true);
            }
            t2.borrow_mut().take(&e.ev)
        }
    });
    let mut c = cfg(protos);
    c.forever = forever;
    if by_dial {
        c.dial_first = vec![addr(1)];
        todo.borrow_mut()
            .open
            .insert(format!("dial {}", addr(1)), true);
    } else {
        c = c.listen(9);
        todo.borrow_mut().listeners.insert(addr(9).to_string());
    }
    let me = Rc::new(service(c));
    settle();
    let mut at = exec::steps();
    let program: Vec<Op> = (0..n).map(|_| OPS[choose(OPS.len(), "op")]).collect();
    let calm = program.iter().all(|o| match o {
        Op::Disc | Op::PeerDisc | Op::Lost | Op::Broken => false,
        _ => true,
    });
    for (i, op) in program.into_iter().enumerate() {
        if i > 0 {
            at += choose(gaps, "gap") as u64;
        }
        let (me, peer, other, todo) = (me.clone(), peer.clone(), other.clone(), todo.clone());
        let go = move || {
            mc_engine::log(|| format!("=> {:?}", op));
            let close_all = |s: &Svc| {
                for id in judge::live(&log(), s.n).keys() {
                    drop(s.disconnect(sid(*id)));
                }
            };
            let asked = |k: String, ok: bool| {
                if ok {
                    let mut t = todo.borrow_mut();
                    let sure = calm && !(t.sessions.is_empty() && t.listeners.is_empty());
                    let x = t.open.entry(k).or_insert(sure);
                    *x |= sure;
                }
            };
            match op {
                Op::Dial(i) => {
                    let a = dials()[i].clone();
                    let r = me.dial(a.clone(), all());
                    asked(format!("dial {}", a), r.is_ok());
                }
                Op::Listen(i) => {
                    let a = listens()[i].clone();
                    let there = todo.borrow().listeners.contains(&a.to_string());
                    let r = me.listen(a.clone());
                    asked(format!("listen {}", a), r.is_ok() && !there);
                }
                Op::Disc => close_all(&me),
                Op::PeerDisc => {
                    close_all(&peer);
                    close_all(&other)
                }
                Op::Lost => {
                    for i in 0..conns() {
                        reset_conn(i, ErrorKind::ConnectionReset)
                    }
                }
                Op::Broken => break_listener(sock(9)),
                Op::Incoming => drop(other.dial(addr(9), all())),
            }
        };
        if at <= exec::steps() {
            go()
        } else {
            exec::at_step(at, go)
        }
    }
    // no time passes: only what waits for a timer is left over
    let end = exec::run(Opts {
        horizon: exec::now(),
        ..opts
    });
    if end == exec::End::Steps {
        return bad("no-rest", "the services do not come to rest");
    }
    // then everything goes away, bit by bit
    for step in 0..4 {
        if !forever {
            judge_now(&todo, &format!("step {}", step))?;
        } else if judge::ended(&log(), ME) {
            return bad("ended", "the service was to run forever");
        }
        let mut horizon = exec::now();
        match step {
            0 => {
                for i in 0..conns() {
                    reset_conn(i, ErrorKind::ConnectionReset)
                }
            }
            1 => {
                horizon += 30 * SEC;
            }
            2 => {
                break_listener(sock(9));
                break_listener(sock(10));
            }
            _ => {
                if !forever && !judge::ended(&log(), ME) {
                    return bad("no-end", "everything has gone, the service has not ended");
                }
            }
        }
        exec::run(Opts { horizon, ..opts });
    }
    exec::run(Opts {
        horizon: exec::now() + 30 * SEC,
        ..opts
    });
    if !forever {
        judge::stopped(&log(), ME, true)?;
    }
    if let Some(x) = early.borrow().as_ref() {
        return bad("ended", format!("the service ended with {} left", x));
    }
    history_seen();
    stop();
    Ok(())
}

pub fn t11(t: bool) -> Vec<Scenario> {
    let o = Opts {
        starve: true,
        ..Opts::default()
    };
    let d = t as usize;
    let b = "a service kept by a listener or a dial: every sequence of requests and losses, at every gap; all schedules up to the bound";
    let mut v = Vec::new();
    for by_dial in &[false, true] {
        let by = *by_dial;
        let name = if by { "dial" } else { "listen" };
        v.push(Scenario::new(
            &format!("one-{}", name),
            if by { 1 + d } else { 2 },
            300,
            b,
            move || life(false, by, 1, 1, o),
        ));
        v.push(Scenario::new(
            &format!("two-{}", name),
            1 + d,
            600,
            b,
            move || life(false, by, 2, 1, o),
        ));
        v.push(Scenario::new(
            &format!("inside-{}", name),
            1 + d,
            600,
            INSIDE,
            move || life(false, by, 2, 1, inside()),
        ));
        v.push(Scenario::new(
            &format!("gap-{}", name),
            d,
            600,
            b,
            move || life(false, by, 2, if t { 60 } else { 40 }, o),
        ));
        v.push(Scenario::new(
            &format!("three-{}", name),
            0,
            600,
            b,
            move || life(false, by, 3, if t { 5 } else { 1 }, o),
        ));
        v.push(Scenario::new(
            &format!("forever-{}", name),
            d,
            300,
            b,
            move || life(true, by, 2, if t { 20 } else { 4 }, o),
        ));
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Cn {
    /// this peer dials in
    In(usize),
    /// dial that peer
    Out(usize),
    /// the oldest open session goes: closed here, there or lost
    Close(usize),
    /// dial somebody who never answers
    Silent,
}

const CNS: &[Cn] = &[
    Cn::In(0),
    Cn::In(1),
    Cn::Out(0),
    Cn::Out(1),
    Cn::Close(0),
    Cn::Close(1),
    Cn::Silent,
];

/// A service with a limit on its connections; `calm`: each operation at rest.
fn limit(forever: bool, secure: bool, calm: bool, n: usize, gaps: usize, opts: Opts) -> R<()> {
    start(Default::default(), 5);
    let max = if calm {
        choose(4, "limit")
    } else {
        1 + choose(2, "limit")
    };
    let protos = vec![proto(1, Kind::Both)];
    let with = |k: usize, c: SvcCfg| if secure { c.key(k) } else { c };
    let mut c = with(0, cfg(protos.clone()).listen(1));
    c.max_conn = Some(max);
    c.forever = forever;
    let me = Rc::new(service(c));
    let ins: Rc<Vec<Svc>> = Rc::new(
        (0..2)
            .map(|k| service(with(1 + k, cfg(protos.clone()))))
            .collect(),
    );
    for k in 0..2 {
        service(with(3 + k, cfg(protos.clone()).listen(2 + k as u16)));
    }
    silent(sock(4));
    settle();
    let me_n = me.n;
    let live = move || judge::live(&log(), me_n).len();
    let refused = move || {
        count(|e| {
            e.svc == me_n
                && match &e.ev {
                    Ev::Err {
                        kind: "dial",
                        detail,
                        ..
                    } => !detail.contains("Repeated"),
                    _ => false,
                }
        })
    };
    let mut at = exec::steps();
    // dials that will not be answered for a while
    let mut waiting = false;
    let mut ops: Vec<Cn> = Vec::new();
    let mut distinct = true;
    for i in 0..n {
        let op = CNS[choose(CNS.len(), "op")];
        distinct &= !ops.contains(&op);
        ops.push(op);
        if i > 0 && !calm {
            at += choose(gaps, "gap") as u64;
        }
        let (me, ins2) = (me.clone(), ins.clone());
        let go = move || {
            mc_engine::log(|| format!("=> {:?}", op));
            match op {
                Cn::In(k) => drop(ins2[k].dial(addr(1), all())),
                Cn::Out(k) => drop(me.dial(addr(2 + k as u16), all())),
                Cn::Silent => drop(me.dial(addr(4), all())),
                Cn::Close(how) => {
                    let l = judge::live(&log(), me.n);
                    if let Some(id) = l.keys().next() {
                        match how {
                            0 => drop(me.disconnect(sid(*id))),
                            _ => {
                                for i in 0..conns() {
                                    reset_conn(i, ErrorKind::ConnectionReset)
                                }
                            }
                        }
                    }
                }
            }
        };
        if !calm {
            if at <= exec::steps() {
                go()
            } else {
                exec::at_step(at, go)
            }
            continue;
        }
        let (before, errs) = (live(), refused());
        go();
        exec::run(Opts {
            horizon: exec::now(),
            ..opts
        });
        judge::no_panic()?;
        waiting |= op == Cn::Silent;
        let (after, errs2) = (live(), refused());
        let room = before < max;
        let twice = secure
            && match op {
                // the peer may be connected already
                Cn::In(_) | Cn::Out(_) => true,
                _ => false,
            };
        match op {
            Cn::In(_) | Cn::Out(_) if room && !twice && !(waiting && !forever) => {
                if after != before + 1 {
                    return bad(
                        "refused",
                        format!("{:?} with {} of {} sessions was refused", op, before, max),
                    );
                }
            }
            Cn::Out(_) if !room => {
                if after == before && errs2 != errs + 1 && !twice {
                    return bad("silent", format!("{:?} was not answered", op));
                }
            }
            _ => (),
        }
    }
    if !calm {
        exec::run(Opts {
            horizon: exec::now() + 5 * SEC,
            ..opts
        });
    }
    judge::no_panic()?;
    let closes = ops.iter().any(|o| match o {
        Cn::Close(_) => true,
        _ => false,
    });
    if !closes {
        if count(|e| {
            e.svc == me_n
                && match e.ev {
                    Ev::Close { .. } => true,
                    _ => false,
                }
        }) > 0
        {
            return bad("closed", "an open session was closed");
        }
        let want = max.min(ops.iter().filter(|o| **o != Cn::Silent).count());
        if distinct && (forever || !ops.contains(&Cn::Silent)) && live() != want {
            return bad(
                "refused",
                format!("{} sessions are open, {} fit", live(), want),
            );
        }
    }
    let mut open = 0;
    for e in log().iter().filter(|e| e.svc == me_n) {
        match &e.ev {
            Ev::Open { id, .. } => {
                open += 1;
                if open > max {
                    return bad(
                        "limit",
                        format!(
                            "session {} is open, that makes {}; the limit is {}",
                            id, open, max
                        ),
                    );
                }
            }
            Ev::Close { .. } => open -= 1,
            _ => (),
        }
    }
    history_seen();
    stop();
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ls {
    Listen(u16),
    Broken(u16),
    Incoming(usize),
    Gone,
    Talk,
    /// close and open a protocol of the first session
    CloseProto,
    OpenProto,
}

const LSS: &[Ls] = &[
    Ls::Listen(10),
    Ls::Listen(11),
    // taken
    Ls::Listen(1),
    Ls::Broken(8),
    Ls::Broken(9),
    Ls::Broken(10),
    Ls::Incoming(0),
    Ls::Incoming(1),
    Ls::Gone,
    Ls::Talk,
    Ls::CloseProto,
    Ls::OpenProto,
];

/// Listeners come and go; handlers are shown those there are.
fn change(op: Ls, me: &Svc, peers: &[Svc]) {
    mc_engine::log(|| format!("=> {:?}", op));
    match op {
        Ls::Listen(k) => drop(me.listen(addr(k))),
        Ls::Broken(k) => break_listener(sock(k)),
        Ls::Incoming(k) => drop(peers[k].dial(addr(8 + k as u16), all())),
        Ls::Gone => {
            if let Some(id) = judge::live(&log(), me.n).keys().next() {
                drop(me.disconnect(sid(*id)))
            }
        }
        Ls::CloseProto => drop(me.close_protocol(sid(1), pid(1))),
        Ls::OpenProto => drop(me.open_protocol(sid(1), pid(1))),
        Ls::Talk => {
            for s in peers.iter() {
                for id in judge::live(&log(), s.n).keys() {
                    drop(s.send_message_to(sid(*id), pid(1), "x".into()));
                }
            }
        }
    }
}

fn listens_shown(kind: Kind, n: usize, gaps: usize, opts: Opts) -> R<()> {
    start(Default::default(), 0);
    let protos = vec![proto(1, kind), proto(2, kind)];
    let mut c = cfg(protos.clone()).listen(8);
    c.listen_also = Some(9);
    let me = Rc::new(service(c));
    let peers: Rc<Vec<Svc>> = Rc::new(
        (0..3)
            .map(|k| {
                service(if k == 2 {
                    cfg(protos.clone()).listen(1)
                } else {
                    cfg(protos.clone())
                })
            })
            .collect(),
    );
    settle();
    drop(me.dial(addr(1), all()));
    settle();
    let mut at = exec::steps();
    for i in 0..n {
        let op = LSS[choose(LSS.len(), "op")];
        if i > 0 {
            at += choose(gaps, "gap") as u64;
        }
        let (me, peers) = (me.clone(), peers.clone());
        let go = move || change(op, &me, &peers);
        if at <= exec::steps() {
            go()
        } else {
            exec::at_step(at, go)
        }
    }
    exec::run(Opts {
        horizon: exec::now() + SEC,
        ..opts
    });
    shown_right(&me, &peers, opts)?;
    stop();
    Ok(())
}

/// Everybody talks once more; the handlers are shown the listeners there are.
fn shown_right(me: &Svc, peers: &[Svc], opts: Opts) -> R<()> {
    let me_n = me.n;
    for s in peers.iter() {
        for id in judge::live(&log(), s.n).keys() {
            for p in 1..=2 {
                drop(s.send_message_to(sid(*id), pid(p), "y".into()));
            }
        }
    }
    exec::run(Opts {
        sched: false,
        horizon: exec::now() + SEC,
        ..opts
    });
    judge::no_panic()?;
    history_seen();
    let l = log();
    if judge::ended(&l, me_n) {
        return bad("ended", "the service ended although nobody stopped it");
    }
    let mut want: BTreeSet<String> = BTreeSet::new();
    for e in l.iter().filter(|e| e.svc == me_n) {
        match &e.ev {
            Ev::ListenStarted(a) => {
                if !want.insert(a.clone()) {
                    return bad("listen-twice", format!("{} started twice", a));
                }
            }
            Ev::ListenClose(a) => {
                if !want.remove(a) {
                    return bad("close-twice", format!("{} closed but not listening", a));
                }
                let told = |e: &Entry| match &e.ev {
                    Ev::Err {
                        kind: "listen",
                        addr,
                        detail,
                        ..
                    } => e.svc == me_n && addr == a && detail.contains("24"),
                    _ => false,
                };
                if !l.iter().any(told) {
                    return bad("no-error", format!("{} closed without an error", a));
                }
            }
            _ => (),
        }
    }
    for k in 8..12 {
        let (on, works) = (want.contains(&addr(k).to_string()), can_accept(sock(k)));
        if on != works {
            return bad(
                "listener-state",
                format!("{} reported listening: {}, is: {}", addr(k), on, works),
            );
        }
    }
    let want: Vec<String> = want.into_iter().collect();
    let live = judge::live(&l, me_n);
    for ((svc, lv, id, p), got) in shown() {
        // a handler whose protocol is closed is not called
        if svc != me_n || !live.contains_key(&id) || !judge::connected(&l, me_n, lv, id, p) {
            continue;
        }
        if got != want {
            return bad(
                "listens",
                format!(
                    "the {:?} handler of protocol {} on session {} is shown {:?}, the listeners are {:?}",
                    lv, p, id, got, want
                ),
            );
        }
    }
    Ok(())
}

/// The same while a handler of protocol 1 on the first session does not return, with messages
/// queued for it.
fn listens_stuck(kind: Kind, lv: Lv, first: &[usize], n: usize, opts: Opts) -> R<()> {
    start(Default::default(), 0);
    let protos = vec![proto(1, kind), proto(2, kind)];
    let mut c = cfg(protos.clone()).listen(8);
    c.listen_also = Some(9);
    let me = Rc::new(service(crate::stall::small(c)));
    let peers: Rc<Vec<Svc>> = Rc::new(
        (0..3)
            .map(|k| {
                let c = crate::stall::small(cfg(protos.clone()));
                service(if k == 2 { c.listen(1) } else { c })
            })
            .collect(),
    );
    settle();
    drop(me.dial(addr(1), all()));
    settle();
    let first = first[choose(first.len(), "messages")];
    let ops: Vec<Ls> = (0..n).map(|_| LSS[choose(LSS.len(), "op")]).collect();
    let apart = choose(2, "apart") == 1;
    let held = Cell::new(false);
    {
        let (me, peers) = (me.clone(), peers.clone());
        hook(move |e| match &e.ev {
            Ev::Recv {
                lv: x,
                id: 1,
                proto: 1,
                ..
            } if *x == lv && e.svc == me.n && !held.get() => {
                held.set(true);
                exec::block_until(|| false);
                for op in &ops {
                    change(*op, &me, &peers);
                    if apart {
                        exec::block_until(|| false);
                    }
                }
                exec::block_until(|| false);
            }
            _ => (),
        });
    }
    for _ in 0..first {
        drop(peers[2].send_message_to(sid(1), pid(1), "12345678".into()));
    }
    exec::run(Opts {
        horizon: exec::now() + SEC,
        ..opts
    });
    shown_right(&me, &peers, opts)?;
    stop();
    Ok(())
}

pub fn t13(t: bool) -> Vec<Scenario> {
    let o = Opts {
        starve: true,
        ..Opts::default()
    };
    let d = t as usize;
    let b = "a service whose listeners and sessions come and go: every sequence of operations, at every gap; all schedules up to the bound";
    let mut v = Vec::new();
    for kind in &[Kind::Service, Kind::Session, Kind::Two, Kind::SessionBoth] {
        let k = *kind;
        v.push(Scenario::new(
            &format!("two-{:?}", k),
            1 + d,
            300,
            b,
            move || listens_shown(k, 2, 1, o),
        ));
        v.push(Scenario::new(
            &format!("inside-{:?}", k),
            1 + d,
            300,
            INSIDE,
            move || listens_shown(k, 1 + d, 1, inside()),
        ));
        v.push(Scenario::new(
            &format!("gap-{:?}", k),
            d,
            300,
            b,
            move || listens_shown(k, 2, if t { 40 } else { 20 }, o),
        ));
        v.push(Scenario::new(
            &format!("three-{:?}", k),
            0,
            300,
            b,
            move || listens_shown(k, 3, if t { 10 } else { 3 }, o),
        ));
    }
    let b = "the same while a handler of one session does not return and messages wait for it";
    let fifo = Opts { sched: false, ..o };
    for (k, lv) in &[
        (Kind::Service, Lv::Service),
        (Kind::Session, Lv::Session),
        (Kind::SessionBoth, Lv::Session),
    ] {
        let (k, lv) = (*k, *lv);
        v.push(Scenario::new(
            &format!("stuck-{:?}", k),
            0,
            300,
            b,
            move || listens_stuck(k, lv, &[1, 3, 300], if t { 3 } else { 2 }, fifo),
        ));
        v.push(Scenario::new(
            &format!("stuck-full-{:?}", k),
            0,
            300,
            b,
            move || listens_stuck(k, lv, &[700], 3, fifo),
        ));
        v.push(Scenario::new(
            &format!("stuck-dev-{:?}", k),
            1,
            300,
            b,
            move || listens_stuck(k, lv, &[6], 1, o),
        ));
    }
    v
}

pub fn t12(t: bool) -> Vec<Scenario> {
    let o = Opts {
        starve: true,
        ..Opts::default()
    };
    let fifo = Opts {
        sched: false,
        ..Opts::default()
    };
    let d = t as usize;
    let mut v = Vec::new();
    for forever in &[true, false] {
        for secure in &[false, true] {
            let (f, s) = (*forever, *secure);
            let name = format!(
                "{}{}",
                if f { "forever" } else { "ending" },
                if s { "-secure" } else { "" }
            );
            v.push(Scenario::new(
                &format!("calm-{}", name),
                0,
                300,
                "limits 0 to 3, every sequence of connections in and out and of closes, each at rest",
                move || limit(f, s, true, if s { 3 + d } else { 4 + d }, 1, fifo),
            ));
            v.push(Scenario::new(
                &format!("race-{}", name),
                if s { d } else { 1 + d },
                300,
                "limits 1 and 2, every sequence of connections in and out and of closes, back to back or at a gap, all schedules up to the bound",
                move || limit(f, s, false, if t || s { 3 } else { 2 }, if s || !t { 1 } else { 3 }, o),
            ));
        }
        let f = *forever;
        v.push(Scenario::new(
            &format!("inside-{}", if f { "forever" } else { "ending" }),
            1,
            300,
            INSIDE,
            move || limit(f, false, false, 1 + d, 1, inside()),
        ));
        v.push(Scenario::new(
            &format!("gap-{}", if f { "forever" } else { "ending" }),
            0,
            300,
            "limits 1 and 2, every sequence of connections in and out and of closes, at every gap",
            move || limit(f, false, false, 3, if t { 16 } else { 4 }, o),
        ));
    }
    v
}
