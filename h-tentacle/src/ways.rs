//! The same request made in every way there is, against a model of what it asks for.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::task::Poll;
use std::time::Duration;

use bytes::Bytes;
use futures::future::BoxFuture;
use mc_engine::exec::{self, Opts, SEC};
use mc_engine::{bad, choose, Scenario, R};
use tentacle::context::ServiceContext;
use tentacle::multiaddr::Multiaddr;
use tentacle::service::{ServiceAsyncControl, ServiceControl, TargetProtocol, TargetSession};
use tentacle::{ProtocolId, SessionId};

use crate::duo::history_seen;
use crate::judge;
use crate::world::*;

const C: usize = 1;
const B: usize = 2;
const A: usize = 3;

trait Ask {
    fn listen(&self, a: Multiaddr) -> bool;
    fn dial(&self, a: Multiaddr, t: TargetProtocol) -> bool;
    fn disconnect(&self, s: SessionId) -> bool;
    fn send_message_to(&self, s: SessionId, p: ProtocolId, d: Bytes) -> bool;
    fn quick_send_message_to(&self, s: SessionId, p: ProtocolId, d: Bytes) -> bool;
    fn filter_broadcast(&self, t: TargetSession, p: ProtocolId, d: Bytes) -> bool;
    fn quick_filter_broadcast(&self, t: TargetSession, p: ProtocolId, d: Bytes) -> bool;
    fn future_task(&self, f: BoxFuture<'static, ()>) -> bool;
    fn open_protocol(&self, s: SessionId, p: ProtocolId) -> bool;
    fn open_protocols(&self, s: SessionId, t: TargetProtocol) -> bool;
    fn close_protocol(&self, s: SessionId, p: ProtocolId) -> bool;
    fn set_service_notify(&self, p: ProtocolId, d: Duration, t: u64) -> bool;
    fn remove_service_notify(&self, p: ProtocolId, t: u64) -> bool;
    fn set_session_notify(&self, s: SessionId, p: ProtocolId, d: Duration, t: u64) -> bool;
    fn remove_session_notify(&self, s: SessionId, p: ProtocolId, t: u64) -> bool;
    fn close(&self) -> bool;
    fn shutdown(&self) -> bool;
}

struct Slow(ServiceAsyncControl);

macro_rules! ask {
    ($($f:ident($($a:ident: $t:ty),*);)*) => {
        impl Ask for ServiceControl {
            $(fn $f(&self, $($a: $t),*) -> bool { ServiceControl::$f(self, $($a),*).is_ok() })*
        }
        impl Ask for ServiceContext {
            $(fn $f(&self, $($a: $t),*) -> bool { ServiceContext::$f(self, $($a),*).is_ok() })*
        }
        impl Ask for Slow {
            $(fn $f(&self, $($a: $t),*) -> bool {
                let mut c = self.0.clone();
                match exec::poll_once(Box::pin(async move { c.$f($($a),*).await }).as_mut()) {
                    Poll::Ready(r) => r.is_ok(),
                    Poll::Pending => false,
                }
            })*
        }
    };
}

ask! {
    listen(a: Multiaddr);
    dial(a: Multiaddr, t: TargetProtocol);
    disconnect(s: SessionId);
    send_message_to(s: SessionId, p: ProtocolId, d: Bytes);
    quick_send_message_to(s: SessionId, p: ProtocolId, d: Bytes);
    filter_broadcast(t: TargetSession, p: ProtocolId, d: Bytes);
    quick_filter_broadcast(t: TargetSession, p: ProtocolId, d: Bytes);
    future_task(f: BoxFuture<'static, ()>);
    open_protocol(s: SessionId, p: ProtocolId);
    open_protocols(s: SessionId, t: TargetProtocol);
    close_protocol(s: SessionId, p: ProtocolId);
    set_service_notify(p: ProtocolId, d: Duration, t: u64);
    remove_service_notify(p: ProtocolId, t: u64);
    set_session_notify(s: SessionId, p: ProtocolId, d: Duration, t: u64);
    remove_session_notify(s: SessionId, p: ProtocolId, t: u64);
    close();
    shutdown();
}

/// Which sessions, or which protocols.
#[derive(Clone, Copy, Debug, PartialEq)]
enum To {
    All,
    One(usize),
    Some(&'static [usize]),
}

impl To {
    fn has(self, n: usize) -> bool {
        match self {
            To::All => true,
            To::One(x) => x == n,
            To::Some(l) => l.contains(&n),
        }
    }
    fn sessions(self) -> TargetSession {
        match self {
            To::All => TargetSession::All,
            To::One(x) => TargetSession::Single(sid(x)),
            To::Some(l) => TargetSession::Multi(l.iter().map(|x| sid(*x)).collect()),
        }
    }
    fn protocols(self) -> TargetProtocol {
        match self {
            To::All => TargetProtocol::All,
            To::One(x) => TargetProtocol::Single(pid(x)),
            To::Some(l) => TargetProtocol::Multi(l.iter().map(|x| pid(*x)).collect()),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Listen,
    Dial(To),
    Disc(usize),
    /// quick, session, protocol
    Send(bool, usize, usize),
    /// quick, sessions, protocol
    Cast(bool, To, usize),
    Future,
    Open(usize, usize),
    Opens(usize, To),
    CloseProto(usize, usize),
    SetSvc(usize),
    SetSess(usize, usize),
    RemSvc(usize),
    RemSess(usize, usize),
    /// to where the message came from; quick
    Reply(bool),
    Close,
    Shutdown,
}

const OPS: &[Op] = &[
    Op::Listen,
    Op::Dial(To::All),
    Op::Dial(To::One(2)),
    Op::Dial(To::Some(&[1])),
    Op::Disc(1),
    Op::Disc(2),
    Op::Send(false, 1, 1),
    Op::Send(false, 1, 2),
    Op::Send(false, 2, 1),
    Op::Send(false, 2, 2),
    Op::Send(true, 1, 1),
    Op::Send(true, 1, 2),
    Op::Send(true, 2, 1),
    Op::Send(true, 2, 2),
    Op::Cast(false, To::All, 1),
    Op::Cast(false, To::All, 2),
    Op::Cast(false, To::One(2), 1),
    Op::Cast(false, To::Some(&[1, 2]), 1),
    Op::Cast(false, To::Some(&[1]), 2),
    Op::Cast(true, To::All, 1),
    Op::Cast(true, To::All, 2),
    Op::Cast(true, To::One(2), 1),
    Op::Cast(true, To::Some(&[1, 2]), 1),
    Op::Cast(true, To::Some(&[1]), 2),
    Op::Future,
    Op::Open(2, 2),
    Op::Open(1, 2),
    Op::Opens(2, To::All),
    Op::Opens(2, To::Some(&[2])),
    Op::CloseProto(1, 1),
    Op::CloseProto(1, 2),
    Op::SetSvc(1),
    Op::SetSvc(2),
    Op::SetSess(1, 2),
    Op::SetSess(2, 1),
    Op::RemSvc(1),
    Op::RemSess(1, 1),
    Op::Reply(false),
    Op::Reply(true),
    Op::Close,
    Op::Shutdown,
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    Control,
    Async,
    /// in the handler's `received`
    Received,
    /// in the handler's `notify`
    Notify,
    /// in `handle_proto`
    Proto,
    /// in `handle_event`
    Event,
    /// in `handle_error`
    Error,
}

const WAYS: &[Way] = &[
    Way::Control,
    Way::Async,
    Way::Received,
    Way::Notify,
    Way::Proto,
    Way::Event,
    Way::Error,
];

#[derive(Clone, Debug, PartialEq, Default)]
struct Model {
    /// open sessions of A: (other service, open protocols)
    sessions: BTreeMap<usize, (usize, BTreeSet<usize>)>,
    /// protocols that were open on a session
    had: BTreeSet<(usize, usize)>,
    next: usize,
    listens: BTreeSet<String>,
    /// received elsewhere: (service, protocol, data) to how often
    got: BTreeMap<(usize, usize, Bytes), usize>,
    /// (session, protocol, token)
    tokens: BTreeSet<(Option<usize>, usize, u64)>,
    tasks: usize,
    ended: bool,
}

impl Model {
    fn deliver(&mut self, to: To, p: usize, d: &Bytes) {
        for (id, s) in &self.sessions {
            if to.has(*id) && s.1.contains(&p) {
                *self.got.entry((s.0, p, d.clone())).or_default() += 1
            }
        }
    }
    fn open(&self, s: usize, p: usize) -> bool {
        self.sessions.get(&s).map_or(false, |x| x.1.contains(&p))
    }
    fn apply(&mut self, op: Op, kind: Kind, n: usize) {
        let d = payload(n);
        match op {
            Op::Listen => drop(self.listens.insert(addr(9).to_string())),
            Op::Dial(to) => {
                let ps = [1, 2].iter().copied().filter(|p| to.has(*p)).collect();
                self.sessions.insert(self.next, (0, ps));
                self.next += 1
            }
            Op::Disc(s) => {
                self.sessions.remove(&s);
                self.had.retain(|h| h.0 != s);
                self.tokens.retain(|t| t.0 != Some(s))
            }
            Op::Send(_, s, p) => self.deliver(To::One(s), p, &d),
            Op::Cast(_, to, p) => self.deliver(to, p, &d),
            Op::Reply(_) => self.deliver(To::One(1), 1, &d),
            Op::Future => self.tasks += 1,
            Op::Open(s, p) => {
                if let Some(x) = self.sessions.get_mut(&s) {
                    x.1.insert(p);
                }
            }
            Op::Opens(s, to) => {
                if let Some(x) = self.sessions.get_mut(&s) {
                    x.1.extend([1, 2].iter().filter(|p| to.has(**p)))
                }
            }
            Op::CloseProto(s, p) => {
                if let Some(x) = self.sessions.get_mut(&s) {
                    x.1.remove(&p);
                    // the handler is there, with its notifications, until the session closes
                    self.had.insert((s, p));
                }
            }
            Op::SetSvc(p) => {
                if kind == Kind::Both {
                    self.tokens.insert((None, p, 7));
                }
            }
            Op::SetSess(s, p) => {
                if kind == Kind::SessionBoth && (self.open(s, p) || self.had.contains(&(s, p))) {
                    self.tokens.insert((Some(s), p, 7));
                }
            }
            Op::RemSvc(p) => drop(self.tokens.remove(&(None, p, 5))),
            Op::RemSess(s, p) => drop(self.tokens.remove(&(Some(s), p, 5))),
            Op::Close | Op::Shutdown => {
                self.ended = true;
                self.sessions.clear();
                self.listens.clear();
                self.tokens.clear()
            }
        }
    }
}

fn payload(n: usize) -> Bytes {
    Bytes::from(format!("d{}", n))
}

fn ask(to: &dyn Ask, op: Op, n: usize, kind: Kind) -> bool {
    let sec = Duration::from_secs(1);
    let d = payload(n);
    match op {
        Op::Listen => to.listen(addr(9)),
        Op::Dial(t) => to.dial(addr(1), t.protocols()),
        Op::Disc(s) => to.disconnect(sid(s)),
        Op::Send(false, s, p) => to.send_message_to(sid(s), pid(p), d),
        Op::Send(true, s, p) => to.quick_send_message_to(sid(s), pid(p), d),
        Op::Cast(false, t, p) => to.filter_broadcast(t.sessions(), pid(p), d),
        Op::Cast(true, t, p) => to.quick_filter_broadcast(t.sessions(), pid(p), d),
        Op::Future => to.future_task(Box::pin(async move { emit(A, Ev::Task(0)) })),
        Op::Open(s, p) => to.open_protocol(sid(s), pid(p)),
        Op::Opens(s, t) => to.open_protocols(sid(s), t.protocols()),
        Op::CloseProto(s, p) => to.close_protocol(sid(s), pid(p)),
        Op::SetSvc(p) => to.set_service_notify(pid(p), sec, 7),
        Op::SetSess(s, p) => to.set_session_notify(sid(s), pid(p), sec, 7),
        Op::RemSvc(p) => to.remove_service_notify(pid(p), 5),
        Op::RemSess(s, p) => to.remove_session_notify(sid(s), pid(p), 5),
        Op::Close => to.close(),
        Op::Shutdown => to.shutdown(),
        Op::Reply(_) => unreachable!("{:?}", kind),
    }
}

fn compare(m: &Model, kind: Kind, since: u64) -> R<()> {
    let l = log();
    if judge::ended(&l, A) != m.ended {
        return bad(
            "ended",
            format!("the service has ended: {}", judge::ended(&l, A)),
        );
    }
    let live = judge::live(&l, A);
    if live.keys().ne(m.sessions.keys()) {
        return bad(
            "sessions",
            format!(
                "sessions {:?}, not {:?}",
                live.keys().collect::<Vec<_>>(),
                m.sessions.keys().collect::<Vec<_>>()
            ),
        );
    }
    let lv = kind.levels()[0];
    for (id, (svc, ps)) in &m.sessions {
        let to = addr([1, 3, 2][*svc]).to_string();
        if live[id].1 != to {
            return bad(
                "address",
                format!("session {} is with {}, not {}", id, live[id].1, to),
            );
        }
        for p in 1..3 {
            if judge::connected(&l, A, lv, *id, p) != ps.contains(&p) {
                return bad(
                    "protocols",
                    format!(
                        "protocol {} open on session {}: {}",
                        p,
                        id,
                        !ps.contains(&p)
                    ),
                );
            }
        }
    }
    for svc in 0..A {
        let n = judge::live(&l, svc).len();
        let exp = m.sessions.values().filter(|x| x.0 == svc).count();
        if n != exp {
            return bad(
                "far-sessions",
                format!("service {} has {} sessions, not {}", svc, n, exp),
            );
        }
    }
    let mut on = BTreeSet::new();
    for e in l.iter().filter(|e| e.svc == A) {
        match &e.ev {
            Ev::ListenStarted(a) => drop(on.insert(a.clone())),
            Ev::ListenClose(a) => drop(on.remove(a)),
            _ => (),
        }
    }
    on.retain(|a| *a == addr(9).to_string());
    if on != m.listens {
        return bad(
            "listens",
            format!("listening at {:?}, not {:?}", on, m.listens),
        );
    }
    for lv in kind.levels() {
        let mut got: BTreeMap<(usize, usize, Bytes), usize> = BTreeMap::new();
        for e in l.iter().filter(|e| e.svc != A) {
            match &e.ev {
                Ev::Recv {
                    lv: x, proto, data, ..
                } if x == lv => *got.entry((e.svc, *proto, data.clone())).or_default() += 1,
                _ => (),
            }
        }
        if got != m.got {
            return bad("messages", format!("received {:?}, not {:?}", got, m.got));
        }
    }
    let mut tokens = BTreeSet::new();
    for e in l.iter().filter(|e| e.at >= since) {
        match e.ev {
            Ev::Notify {
                id, proto, token, ..
            } if token != 99 => drop(tokens.insert((id, proto, token))),
            _ => (),
        }
    }
    if tokens != m.tokens {
        return bad(
            "tokens",
            format!("notified {:?}, not {:?}", tokens, m.tokens),
        );
    }
    let n = l.iter().filter(|e| e.ev == Ev::Task(0)).count();
    if n != m.tasks {
        return bad("tasks", format!("{} futures run, not {}", n, m.tasks));
    }
    Ok(())
}

fn ways(kind: Kind, n: usize, opts: Opts) -> R<()> {
    start(Default::default(), 0);
    let patient = |ps| {
        let mut c = cfg(ps);
        c.timeout = Duration::from_secs(1000);
        c
    };
    let ps = || vec![proto(1, kind), proto(2, kind)];
    let _d = service(patient(ps()).listen(1));
    let _c = service(patient(ps()).listen(3));
    let b = service(patient(ps()).listen(2));
    let a = service(patient(ps()));
    settle();
    drop(a.dial(addr(2), all()));
    settle();
    drop(a.dial(addr(3), TargetProtocol::Single(pid(1))));
    settle();
    let mut m = Model {
        next: 3,
        ..Model::default()
    };
    m.sessions.insert(1, (B, vec![1, 2].into_iter().collect()));
    m.sessions.insert(2, (C, vec![1].into_iter().collect()));
    let sec = Duration::from_secs(1);
    let svc = kind == Kind::Both;
    for t in &[5, 6] {
        if svc {
            drop(a.set_service_notify(pid(1), sec, *t));
            m.tokens.insert((None, 1, *t));
        } else {
            drop(a.set_session_notify(sid(1), pid(1), sec, *t));
            m.tokens.insert((Some(1), 1, *t));
        }
    }
    settle();

    // what to ask for, where; filled in below
    let armed: Rc<RefCell<Option<(Way, Op, usize)>>> = Rc::default();
    let taken: Rc<Cell<bool>> = Rc::default();
    let lv = kind.levels()[0];
    let is = move |w: Way, e: &Entry| match (w, &e.ev) {
        (Way::Received, Ev::Recv { lv: x, .. }) => *x == lv,
        (Way::Proto, Ev::Recv { lv: x, .. }) => *x == Lv::Event,
        (Way::Notify, Ev::Notify { token: 99, .. }) => true,
        (Way::Event, Ev::ListenStarted(_)) => true,
        (Way::Error, Ev::Err { .. }) => true,
        _ => false,
    };
    {
        let (armed, taken) = (armed.clone(), taken.clone());
        act(move |e, c| {
            let x = *armed.borrow();
            if let Some((w, Op::Reply(quick), n)) = x {
                if e.svc == A && is(w, e) {
                    *armed.borrow_mut() = None;
                    taken.set(if quick {
                        c.quick_send_message(payload(n)).is_ok()
                    } else {
                        c.send_message(payload(n)).is_ok()
                    })
                }
            }
        });
    }
    {
        let (armed, taken) = (armed.clone(), taken.clone());
        given(move |e, c| {
            let x = *armed.borrow();
            if let Some((w, op, n)) = x {
                if !matches!(op, Op::Reply(_)) && e.svc == A && is(w, e) {
                    *armed.borrow_mut() = None;
                    taken.set(ask(c, op, n, kind))
                }
            }
        });
    }

    for i in 0..n {
        let op = OPS[choose(OPS.len(), "op")];
        let reply = matches!(op, Op::Reply(_));
        // a session and a handler to have it from
        let there = m.open(1, 1);
        let menu: Vec<Way> = WAYS
            .iter()
            .copied()
            .filter(|w| match w {
                Way::Received => there,
                Way::Proto => there && !reply,
                Way::Notify => (svc || there) && !reply,
                _ => !reply,
            })
            .collect();
        if menu.is_empty() {
            break;
        }
        let way = menu[choose(menu.len(), "way")];
        mc_engine::log(|| format!("=> {:?} by {:?}", op, way));
        taken.set(false);
        *armed.borrow_mut() = Some((way, op, i));
        match way {
            Way::Control => taken.set(ask(&a.ctl, op, i, kind)),
            Way::Async => taken.set(ask(&Slow(a.ctl.clone().into()), op, i, kind)),
            Way::Received | Way::Proto => {
                drop(b.send_message_to(sid(1), pid(1), Bytes::from_static(b"go")))
            }
            Way::Notify if svc => {
                drop(a.set_service_notify(pid(1), Duration::from_millis(100), 99))
            }
            Way::Notify => {
                drop(a.set_session_notify(sid(1), pid(1), Duration::from_millis(100), 99))
            }
            Way::Event => drop(a.listen(addr(20 + i as u16))),
            Way::Error => drop(a.dial(addr(500 + i as u16), all())),
        }
        let end = exec::run(Opts {
            horizon: exec::now() + SEC / 2,
            ..opts
        });
        if end == exec::End::Steps {
            return bad("no-rest", "the services do not come to rest");
        }
        *armed.borrow_mut() = None;
        if way == Way::Notify {
            if svc {
                drop(a.remove_service_notify(pid(1), 99))
            } else {
                drop(a.remove_session_notify(sid(1), pid(1), 99))
            }
        }
        if !taken.get() {
            return bad("refused", format!("{:?} was refused or never made", op));
        }
        m.apply(op, kind, i);
        // the last notifications of what is gone are over
        let since = exec::now() + SEC / 10;
        exec::run(Opts {
            sched: false,
            horizon: exec::now() + 2 * SEC,
            ..opts
        });
        judge::no_panic()?;
        judge::sessions(&log())?;
        compare(&m, kind, since)?;
        if m.ended {
            break;
        }
    }
    history_seen();
    stop();
    Ok(())
}

pub fn t16(t: bool) -> Vec<Scenario> {
    let o = Opts {
        starve: true,
        max_steps: 100_000,
        ..Opts::default()
    };
    let fifo = Opts { sched: false, ..o };
    let d = t as usize;
    let b = "41 requests in seven ways, one after the other has come to rest, against the model, all schedules up to the bound";
    let mut v = vec![];
    for kind in &[Kind::Both, Kind::SessionBoth] {
        let k = *kind;
        v.push(Scenario::new(
            &format!("one-{:?}", k),
            1 + d,
            300,
            b,
            move || ways(k, 1, o),
        ));
        v.push(Scenario::new(
            &format!("inside-{:?}", k),
            1,
            300,
            INSIDE,
            move || ways(k, 1, inside()),
        ));
        v.push(Scenario::new(
            &format!("two-{:?}", k),
            0,
            600,
            b,
            move || ways(k, 2, fifo),
        ));
        if t {
            v.push(Scenario::new(
                &format!("three-{:?}", k),
                0,
                3000,
                b,
                move || ways(k, 3, fifo),
            ));
        }
    }
    v
}
