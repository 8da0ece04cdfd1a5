//! Remotes that do not keep to the protocol.
use std::cell::RefCell;
use std::rc::Rc;

use bytes::Bytes;
use mc_engine::exec::{self, Opts, MS, SEC};
use mc_engine::{bad, choose, Scenario, R};

use crate::duo::history_seen;
use crate::judge;
use crate::raw::*;
use crate::world::*;

/// The service under attack listens on 1, the other one is its friend.
pub const B: usize = 0;
pub const A: usize = 1;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Role {
    /// the remote dials the service
    Client,
    /// the service dials the remote
    Server,
}

pub struct Siege {
    pub b: Svc,
    pub a: Svc,
    pub kind: Kind,
    pub secure: bool,
    pub ws: bool,
    pub role: Role,
    pub raw: Rc<RefCell<Option<Rc<Raw>>>>,
    pub menu: Vec<(String, Act)>,
}

/// What the remote does next.
pub enum Act {
    Send(Vec<u8>),
    Eof,
    Reset,
}

fn send(l: &Svc, id: usize, p: usize, s: &'static [u8]) {
    drop(l.send_message_to(sid(id), pid(p), Bytes::from_static(s)))
}

impl Siege {
    pub fn new(kind: Kind, secure: bool, role: Role) -> Siege {
        Siege::over(kind, secure, role, false)
    }

    pub fn over(kind: Kind, secure: bool, role: Role, ws: bool) -> Siege {
        start(Default::default(), 4);
        let protos = vec![proto(1, kind), proto(2, kind)];
        let c = |k: usize| {
            let c = cfg(protos.clone());
            if secure {
                c.key(k)
            } else {
                c
            }
        };
        let mut cb = c(0).listen(1);
        cb.ws = ws;
        let b = service(cb);
        let a = service(c(1));
        drop(a.dial(if ws { addr_ws(1) } else { addr(1) }, all()));
        settle();
        let raw = Rc::new(RefCell::new(None));
        match role {
            Role::Client => *raw.borrow_mut() = Some(Raw::connect(1)),
            Role::Server => {
                let r2 = raw.clone();
                accept_on(7, move |r| *r2.borrow_mut() = Some(r));
                drop(b.dial(addr(7), all()));
            }
        }
        settle();
        let menu = acts(role);
        Siege {
            b,
            a,
            kind,
            secure,
            ws,
            role,
            raw,
            menu,
        }
    }

    pub fn raw(&self) -> Rc<Raw> {
        self.raw.borrow().clone().expect("no connection")
    }

    pub fn act(&self, i: usize) {
        let (name, act) = &self.menu[i];
        mc_engine::log(|| format!("=> {}", name));
        match act {
            Act::Send(b) => self.raw().send(b),
            Act::Eof => self.raw().eof(),
            Act::Reset => self.raw().reset(),
        }
    }

    /// The friend is served, newcomers are welcome, callbacks are in order.
    pub fn judge(&self) -> R<()> {
        judge::no_panic()?;
        let l = log();
        judge::sessions(&l)?;
        judge::nesting(&l)?;
        for s in &[A, B] {
            if judge::ended(&l, *s) {
                return bad("ended", format!("service {} ended", s));
            }
            if !judge::live(&l, *s).contains_key(&1) {
                return bad("friend-lost", "the session of another peer is gone");
            }
        }
        for p in &[1, 2] {
            let got = |s: usize| {
                count(|e| {
                    e.svc == s
                        && matches!(&e.ev, Ev::Recv { id: 1, proto, lv, .. } if proto == p && *lv == self.kind.levels()[0])
                })
            };
            let before = (got(A), got(B));
            send(&self.a, 1, *p, b"from a");
            send(&self.b, 1, *p, b"from b");
            settle();
            if (got(A), got(B)) != (before.0 + 1, before.1 + 1) {
                return bad(
                    "friend-stalled",
                    format!("protocol {} of another peer no longer carries messages", p),
                );
            }
        }
        let mut c = cfg(vec![proto(1, self.kind), proto(2, self.kind)]);
        if self.secure {
            c = c.key(2)
        }
        let c = service(c);
        drop(c.dial(if self.ws { addr_ws(1) } else { addr(1) }, all()));
        settle();
        let l = log();
        let ok = judge::live(&l, c.n).len() == 1
            && [1, 2].iter().all(|p| {
                self.kind
                    .levels()
                    .iter()
                    .all(|lv| judge::connected(&l, c.n, *lv, 1, *p))
            });
        if !ok {
            return bad("no-newcomers", "the service does not take new sessions");
        }
        judge::no_panic()
    }

    /// Sessions of the service with the hostile remote.
    pub fn hostile(&self) -> Vec<usize> {
        log()
            .iter()
            .filter_map(|e| match &e.ev {
                Ev::Open { id, .. } if e.svc == B && *id == 2 => Some(*id),
                _ => None,
            })
            .collect()
    }

    /// A session without any protocol is gone after the timeout.
    pub fn dropped(&self) -> R<()> {
        let l = log();
        if self.raw().is_closed() && judge::live(&l, B).contains_key(&2) {
            return bad(
                "connection-gone",
                "the connection is closed, but its session is still reported open",
            );
        }
        for id in self.hostile() {
            let any = l
                .iter()
                .any(|e| e.svc == B && matches!(&e.ev, Ev::Conn { id: i, .. } if *i == id));
            if !any && judge::live(&l, B).contains_key(&id) {
                return bad(
                    "idle-session",
                    "a session that opened no protocol is still there long after the timeout",
                );
            }
        }
        let any = l
            .iter()
            .any(|e| e.svc == B && matches!(&e.ev, Ev::Conn { id: 2, .. }));
        if !any && !self.raw().is_closed() {
            return bad(
                "connection-kept",
                "the connection of a remote that opened no protocol is kept",
            );
        }
        Ok(())
    }
}

fn acts(role: Role) -> Vec<(String, Act)> {
    let mut v: Vec<(String, Act)> = Vec::new();
    let mut add = |n: &str, b: Vec<u8>| v.push((n.to_string(), Act::Send(b)));
    let own = |n: u32| match role {
        Role::Client => 2 * n + 1,
        Role::Server => 2 * n + 2,
    };
    add("open p1", data(SYN, own(0), &select("/p/1", &["1"])));
    add("open p2", data(SYN, own(1), &select("/p/2", &["1"])));
    add("open p1 again", data(SYN, own(2), &select("/p/1", &["1"])));
    add("open unknown", data(SYN, own(3), &select("/p/9", &["1"])));
    add(
        "open p2 no version",
        data(SYN, own(3), &select("/p/2", &[])),
    );
    add("open garbage", data(SYN, own(3), &msg(&[0xff; 9])));
    add("open huge", data(SYN, own(3), &[0xff; 8]));
    add("open half", data(SYN, own(3), &select("/p/2", &["1"])[..9]));
    add("open mute", frame(WINDOW, SYN, own(4), 0, &[]));
    add("open then fin", {
        let mut b = data(SYN, own(5), &select("/p/2", &["1"]));
        b.extend(frame(WINDOW, FIN, own(5), 0, &[]));
        b
    });
    add("open then rst", {
        let mut b = data(SYN, own(5), &select("/p/2", &["1"]));
        b.extend(frame(WINDOW, RST, own(5), 0, &[]));
        b
    });
    add("open with message", {
        let mut b = select("/p/1", &["1"]);
        b.extend(msg(b"early"));
        data(SYN, own(0), &b)
    });
    // stream the service opened, or the first of its own
    let first = match role {
        Role::Client => own(0),
        Role::Server => 1,
    };
    if role == Role::Server {
        let second = 3;
        for (n, s) in &[("first", first), ("second", second)] {
            let r = |name: &str, v: &[&str]| data(0, *s, &select(name, v));
            add(&format!("{} reply p1", n), r("/p/1", &["1"]));
            add(&format!("{} reply p2", n), r("/p/2", &["1"]));
            add(&format!("{} reply p1 none", n), r("/p/1", &[]));
            add(&format!("{} reply unknown", n), r("/p/9", &["1"]));
        }
        add("reply unknown none", data(0, first, &select("/p/9", &[])));
        add(
            "reply other version",
            data(0, first, &select("/p/1", &["7"])),
        );
        add(
            "reply two versions",
            data(0, first, &select("/p/1", &["1", "1"])),
        );
        add("reply garbage", data(0, first, &msg(&[0xff; 9])));
        add("reply p1 with message", {
            let mut b = select("/p/1", &["1"]);
            b.extend(msg(b"early"));
            data(0, first, &b)
        });
    }
    add("message", data(0, first, &msg(b"hello")));
    add("empty message", data(0, first, &msg(b"")));
    add("oversized message", data(0, first, &[0xff; 8]));
    add("half message", data(0, first, &msg(b"hello")[..6]));
    add("rst", frame(WINDOW, RST, first, 0, &[]));
    add("fin", frame(WINDOW, FIN, first, 0, &[]));
    add("data fin", data(FIN, first, &msg(b"last")));
    add("window max", frame(WINDOW, 0, first, u32::MAX, &[]));
    add("go away", frame(GO_AWAY, 0, 0, 0, &[]));
    add("go away error", frame(GO_AWAY, 0, 0, 1, &[]));
    add("ping", frame(PING, SYN, 0, 7, &[]));
    add("bad version", {
        let mut b = frame(PING, SYN, 0, 7, &[]);
        b[0] = 1;
        b
    });
    add("bad type", frame(9, 0, 0, 0, &[]));
    add("unknown stream", data(0, 999, b"x"));
    add("huge frame", frame(DATA, 0, first, u32::MAX, b"x"));
    add("half header", vec![0, 0, 0]);
    v.push(("eof".into(), Act::Eof));
    v.push(("reset".into(), Act::Reset));
    v
}

fn rest(opts: Opts, secs: u64) -> R<()> {
    let end = exec::run(Opts {
        horizon: exec::now() + secs * SEC,
        ..opts
    });
    if end == exec::End::Steps {
        return bad("no-rest", "the services do not come to rest");
    }
    Ok(())
}

/// All sequences of acts; before each act either nothing, rest, or (if `late`) the timeout passes.
pub fn siege(kind: Kind, role: Role, n: usize, pauses: usize, opts: Opts) -> R<()> {
    let s = Siege::new(kind, false, role);
    for i in 0..n {
        if i > 0 {
            match choose(pauses, "pause") {
                0 => (),
                1 => settle(),
                _ => rest(
                    Opts {
                        sched: false,
                        ..opts
                    },
                    11,
                )?,
            }
        }
        s.act(choose(s.menu.len(), "act"));
    }
    rest(opts, 40)?;
    history_seen();
    s.dropped()?;
    s.judge()?;
    stop();
    Ok(())
}

/// A recorded good connection, cut at every byte or with every byte changed, then silence, end or
/// reset.
fn bytes(secure: bool, ws: bool, changes: &[u8], opts: Opts) -> R<()> {
    let s = Siege::over(Kind::Both, secure, Role::Client, ws);
    let raw = s.raw();
    let good = if ws {
        UPGRADE.to_vec()
    } else {
        recording(secure)
    };
    let n = choose(changes.len() + 1, "kind");
    let at = choose(good.len() + (n == 0) as usize, "position");
    let mut b = good.clone();
    if n == 0 {
        b.truncate(at)
    } else {
        b[at] ^= changes[n - 1];
    }
    raw.send(&b);
    match choose(4, "then") {
        0 => (),
        1 => raw.eof(),
        2 => {
            settle();
            raw.eof()
        }
        _ => {
            settle();
            raw.reset()
        }
    }
    rest(opts, 40)?;
    history_seen();
    s.dropped()?;
    s.judge()?;
    stop();
    Ok(())
}

/// What a good client sends: two protocols and a message. With encryption only its first message
/// is known beforehand.
fn recording(secure: bool) -> Vec<u8> {
    if secure {
        // the proposal and the exchange message of a real client towards another service
        return RECORD.with(|r| {
            let mut r = r.borrow_mut();
            if r.is_none() {
                *r = Some(record());
            }
            r.clone().unwrap()
        });
    }
    let mut v = data(SYN, 1, &select("/p/1", &["1"]));
    v.extend(data(SYN, 3, &select("/p/2", &["1"])));
    v.extend(data(0, 1, &msg(b"hello")));
    v
}

pub const UPGRADE: &[u8] = b"GET / HTTP/1.1\r\nHost: a\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n\x82\x80\x01\x02\x03\x04\x89\x80\x01\x02\x03\x04";

thread_local! {
    static RECORD: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) };
}

fn record() -> Vec<u8> {
    // 4-byte length and a proposal; what follows is garbage for the peer anyway
    use tokio::io::AsyncReadExt;
    let (end, i) = net_connect(sock(1)).unwrap();
    let mut end = end;
    let (out, _) = conn(i).unwrap();
    let _ = out;
    // the service speaks first as well; its own proposal serves as a well-formed one
    settle();
    let mut buf = vec![0u8; 4096];
    let mut f = Box::pin(async move {
        let n = end.read(&mut buf).await.unwrap_or(0);
        buf.truncate(n);
        buf
    });
    match exec::poll_once(f.as_mut()) {
        std::task::Poll::Ready(b) => b,
        _ => panic!("no proposal"),
    }
}

/// A client that says nothing, or stops half way: the connection ends no later than the timeout.
fn mute(secure: bool, ws: bool) -> R<()> {
    let s = Siege::over(Kind::Both, secure, Role::Client, ws);
    let t0 = exec::now();
    let raw = s.raw();
    exec::run(Opts {
        sched: false,
        horizon: t0 + 10 * SEC - 10 * MS,
        ..Opts::default()
    });
    let gone = || count(|e| e.svc == B && e.ev == Ev::Close { id: 2 }) == 1;
    if raw.is_closed() || gone() {
        return bad("early", "the remote was dropped before the timeout");
    }
    let on = |h: u64| {
        exec::run(Opts {
            sched: false,
            horizon: t0 + h,
            ..Opts::default()
        })
    };
    on(10 * SEC + 500 * MS);
    if !raw.is_closed() && !gone() {
        return bad("late", "the remote was not dropped after the timeout");
    }
    // the muxer gives the remote until the next keepalive tick to say goodbye
    on(45 * SEC);
    if !raw.is_closed() {
        return bad("kept", "the connection was kept beyond the timeout");
    }
    s.judge()?;
    stop();
    Ok(())
}

/// Protocols open and close before the timeout; a session that has none open then is dropped.
fn idle(kind: Kind, n: usize, opts: Opts) -> R<()> {
    start(Default::default(), 0);
    let patient = choose(2, "patient");
    let c = |who: usize| {
        let mut c = cfg(vec![proto(1, kind), proto(2, kind)]);
        c.timeout = std::time::Duration::from_secs(if who == patient { 1000 } else { 4 });
        c
    };
    let b = service(c(B).listen(1));
    let a = service(c(A));
    settle();
    let first = choose(3, "dialled");
    let mut open = match first {
        0 => vec![],
        1 => vec![1],
        _ => vec![1, 2],
    };
    let t0 = exec::now();
    drop(a.dial(
        addr(1),
        tentacle::service::TargetProtocol::Multi(open.iter().map(|p| pid(*p)).collect()),
    ));
    settle();
    for _ in 0..n {
        // the time itself first: nothing, then open and close of each protocol by each side
        let k = choose(9, "op");
        if k == 0 {
            continue;
        }
        let who = if (k - 1) % 2 == 0 { &a } else { &b };
        let p = 1 + (k - 1) / 2 % 2;
        if k <= 4 {
            drop(who.open_protocol(sid(1), pid(p)));
            if !open.contains(&p) {
                open.push(p)
            }
        } else {
            drop(who.close_protocol(sid(1), pid(p)));
            open.retain(|x| *x != p)
        }
        exec::run(Opts {
            horizon: exec::now(),
            ..opts
        });
    }
    let on = |h: u64| {
        exec::run(Opts {
            sched: false,
            horizon: t0 + h,
            ..opts
        })
    };
    on(4 * SEC - 10 * MS);
    judge::no_panic()?;
    for s in 0..2 {
        if !judge::live(&log(), s).contains_key(&1) {
            return bad("early", "the session was closed before the timeout");
        }
    }
    on(9 * SEC);
    history_seen();
    let l = log();
    judge::sessions(&l)?;
    judge::nesting(&l)?;
    let told = |s: usize| {
        count(|e| {
            e.svc == s
                && matches!(
                    &e.ev,
                    Ev::Err {
                        kind: "timeout",
                        id: Some(1),
                        ..
                    }
                )
        })
    };
    for s in 0..2 {
        let drops = open.is_empty() && s != patient;
        if told(s) != drops as usize {
            return bad(
                "timeout",
                format!(
                    "protocols {:?} are open, service {} reports {} timeouts",
                    open,
                    s,
                    told(s)
                ),
            );
        }
        if judge::live(&l, s).contains_key(&1) == open.is_empty() {
            return bad(
                "timeout-session",
                format!(
                    "protocols {:?} are open, the session is open at service {}: {}",
                    open,
                    s,
                    open.is_empty()
                ),
            );
        }
        if judge::ended(&l, s) {
            return bad("ended", "a service ended");
        }
    }
    stop();
    Ok(())
}

/// Many connections that die before the service looks at them.
fn stillborn(ws: bool, opts: Opts) -> R<()> {
    let s = Siege::over(Kind::Both, false, Role::Client, ws);
    let n = 1 + choose(3, "number");
    let named = choose(2, "named") == 0;
    for _ in 0..n {
        let (end, _) = net_connect_as(sock(1), named).unwrap();
        if choose(2, "keep") == 0 {
            drop(end)
        } else {
            std::mem::forget(end)
        }
    }
    rest(opts, 40)?;
    history_seen();
    s.judge()?;
    stop();
    Ok(())
}

pub fn t10(t: bool) -> Vec<Scenario> {
    let o = Opts {
        starve: true,
        ..Opts::default()
    };
    let fifo = Opts {
        sched: false,
        ..Opts::default()
    };
    let mut v = Vec::new();
    let b = "a service with a friendly session, and a remote that sends every sequence of frames of the alphabet";
    for (name, role) in &[("client", Role::Client), ("server", Role::Server)] {
        let role = *role;
        v.push(Scenario::new(
            &format!("frames-{}", name),
            0,
            400,
            b,
            move || siege(Kind::Both, role, 2, 3, fifo),
        ));
        v.push(Scenario::new(
            &format!("frame-dev-{}", name),
            if t { 2 } else { 1 },
            400,
            b,
            move || siege(Kind::Both, role, 1, 1, o),
        ));
        v.push(Scenario::new(
            &format!("frame-inside-{}", name),
            1,
            400,
            INSIDE,
            move || siege(Kind::Both, role, 1, 1, inside()),
        ));
        if t {
            v.push(Scenario::new(
                &format!("frames-dev-{}", name),
                1,
                900,
                b,
                move || siege(Kind::Both, role, 2, 1, o),
            ));
            v.push(Scenario::new(
                &format!("frames3-{}", name),
                0,
                900,
                b,
                move || siege(Kind::Both, role, 3, 2, fifo),
            ));
        }
    }
    let c = "a good exchange cut at every byte or with one byte changed, followed by silence, end of stream or reset";
    v.push(Scenario::new("bytes", 0, 300, c, move || {
        bytes(false, false, &[1, 0x80, 0xff], fifo)
    }));
    v.push(Scenario::new("bytes-secure", 0, 300, c, move || {
        bytes(
            true,
            false,
            if t { &[1, 0x80, 0xff] } else { &[0xff] },
            fifo,
        )
    }));
    let d = "protocols open and close at either end before the timeout of one end";
    for k in &[Kind::Both, Kind::Session] {
        let k = *k;
        v.push(Scenario::new(
            &format!("idle-{:?}", k),
            0,
            300,
            d,
            move || idle(k, if t { 4 } else { 3 }, fifo),
        ));
        v.push(Scenario::new(
            &format!("idle-dev-{:?}", k),
            1,
            300,
            d,
            move || idle(k, if t { 2 } else { 1 }, o),
        ));
    }
    v.push(Scenario::new("mute", 0, 60, "silent client", || {
        mute(false, false)
    }));
    v.push(Scenario::new("mute-ws", 0, 60, "silent client", || {
        mute(false, true)
    }));
    v.push(Scenario::new("bytes-ws", 0, 300, c, move || {
        bytes(false, true, if t { &[1, 0x80, 0xff] } else { &[1] }, fifo)
    }));
    v.push(Scenario::new(
        "stillborn-ws",
        1,
        300,
        "connections that are gone before they are accepted",
        move || stillborn(true, o),
    ));
    v.push(Scenario::new("mute-secure", 0, 60, "silent client", || {
        mute(true, false)
    }));
    v.push(Scenario::new(
        "stillborn",
        if t { 2 } else { 1 },
        200,
        "connections that are gone before they are accepted",
        move || stillborn(false, o),
    ));
    v
}
