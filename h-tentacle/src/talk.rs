//! Messages: what is sent is what the addressed handlers get.
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

use bytes::Bytes;
use mc_engine::exec::{self, Opts, SEC};
use mc_engine::pipe::PipeCfg;
use mc_engine::{bad, choose, Scenario, R};
use tentacle::context::ProtocolContextMutRef;
use tentacle::service::{TargetProtocol, TargetSession};

use crate::duo::history_seen;
use crate::hostile::Role;
use crate::judge;
use crate::raw::*;
use crate::world::*;

const B: usize = 0;

#[derive(Clone, Debug)]
pub struct Sent {
    pub from: usize,
    /// receiving service and its session
    pub to: usize,
    pub id: usize,
    pub proto: usize,
    pub quick: bool,
    pub data: Bytes,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Net {
    Plain,
    /// stream windows of a few messages
    Window,
    /// connections that hold a few frames
    Pipe,
    Secure,
    Ws,
    Keep,
    /// messages are changed before sending and before receiving
    Hooks,
}

fn tweak(net: Net, key: usize, mut c: SvcCfg) -> SvcCfg {
    match net {
        Net::Window => c.yamux.max_stream_window_size = 64,
        Net::Secure => c.key = Some(key),
        Net::Ws => c.ws = true,
        Net::Keep => c.keep_buffer = true,
        Net::Hooks => c.protos.iter_mut().for_each(|p| p.hooks = true),
        _ => (),
    }
    c
}

fn pipe(net: Net) -> PipeCfg {
    let mut p = PipeCfg::default();
    if net == Net::Pipe {
        p.cap = 40;
    }
    p
}

fn dial(net: Net, from: &Svc, what: TargetProtocol) {
    let to = if net == Net::Ws { addr_ws(1) } else { addr(1) };
    drop(from.dial(to, what));
}

#[derive(Default)]
pub struct Book {
    pub sent: RefCell<Vec<Sent>>,
    /// (service, session, protocol) whose stream may have ended
    pub touched: RefCell<BTreeSet<(usize, usize, usize)>>,
}

impl Book {
    pub fn payload(&self, size: usize) -> Bytes {
        let n = self.sent.borrow().len();
        let mut v = format!("<{}>", n).into_bytes();
        while v.len() < size {
            v.push(b'a' + (v.len() % 23) as u8)
        }
        Bytes::from(v)
    }

    pub fn push(&self, s: Sent) {
        self.sent.borrow_mut().push(s)
    }

    /// Everything arrived as it was sent.
    pub fn judge(&self, kind: Kind) -> R<()> {
        let l = log();
        judge::nesting(&l)?;
        let sent = self.sent.borrow();
        let touched = self.touched.borrow();
        let mut by_data: HashMap<(usize, usize, usize, &Bytes), Vec<usize>> = HashMap::new();
        for (i, s) in sent.iter().enumerate() {
            by_data
                .entry((s.to, s.id, s.proto, &s.data))
                .or_default()
                .push(i)
        }
        for lv in kind.levels() {
            let mut seen: Vec<bool> = vec![false; sent.len()];
            // (service, session, protocol, quick) to the number last received
            let mut last: HashMap<(usize, usize, usize, bool), usize> = HashMap::new();
            for e in &l {
                let (id, p, d) = match &e.ev {
                    Ev::Recv {
                        lv: x,
                        id,
                        proto,
                        data,
                    } if x == lv => (*id, *proto, data),
                    _ => continue,
                };
                let at = by_data.get(&(e.svc, id, p, d));
                let i = at.and_then(|v| v.iter().copied().find(|i| !seen[*i]));
                let i = match i {
                    Some(i) => i,
                    None => {
                        let again = at.is_some();
                        return bad(
                            if again { "twice" } else { "stray" },
                            format!(
                                "service {} received {:?} on session {}, protocol {}: {}",
                                e.svc,
                                &d[..d.len().min(12)],
                                id,
                                p,
                                if again {
                                    "again"
                                } else {
                                    "nobody sent it there"
                                }
                            ),
                        );
                    }
                };
                seen[i] = true;
                if sent[i].quick {
                    if let Some(j) = last.get(&(e.svc, id, p, false)) {
                        if *j > i {
                            return bad(
                                "overtaken",
                                format!(
                                    "service {} received quick message {} after message {}, sent later and not quick",
                                    e.svc, i, j
                                ),
                            );
                        }
                    }
                }
                let k = (e.svc, id, p, sent[i].quick);
                if let Some(j) = last.insert(k, i) {
                    if j > i {
                        return bad(
                            "order",
                            format!(
                                "service {} received message {} after message {} of the same priority",
                                e.svc, i, j
                            ),
                        );
                    }
                }
            }
            for (i, s) in sent.iter().enumerate() {
                if !seen[i] && !touched.contains(&(s.to, s.id, s.proto)) {
                    return bad(
                        "lost",
                        format!(
                            "message {} from service {} to session {} of service {}, protocol {} ({} bytes) was not received ({:?} handler)",
                            i, s.from, s.id, s.to, s.proto, s.data.len(), lv
                        ),
                    );
                }
            }
        }
        Ok(())
    }
}

pub fn rest(opts: Opts) -> R<()> {
    let end = exec::run(Opts {
        horizon: exec::now() + 5 * SEC,
        ..opts
    });
    if end == exec::End::Steps {
        return bad("no-rest", "the services do not come to rest");
    }
    judge::no_panic()
}

fn set_up(net: Net, kind: Kind) -> R<(Rc<Svc>, Rc<Svc>)> {
    start(pipe(net), 3);
    let protos = vec![proto(1, kind), proto(2, kind)];
    let b = Rc::new(service(tweak(net, 0, cfg(protos.clone()).listen(1))));
    let a = Rc::new(service(tweak(net, 1, cfg(protos))));
    settle();
    dial(net, &a, all());
    settle();
    let l = log();
    for s in 0..2 {
        for p in 1..=2 {
            if !kind
                .levels()
                .iter()
                .all(|lv| judge::connected(&l, s, *lv, 1, p))
            {
                return bad("set-up", "services did not connect");
            }
        }
    }
    Ok((b, a))
}

/// All programs of `n` messages between two services: sender, protocol, priority and size of each,
/// at every distance below `gaps` steps.
fn programs(
    net: Net,
    kind: Kind,
    n: usize,
    sizes: &'static [usize],
    gaps: usize,
    opts: Opts,
) -> R<()> {
    let (b, a) = set_up(net, kind)?;
    let book: Rc<Book> = Rc::default();
    let mut at = exec::steps();
    for i in 0..n {
        // by symmetry of the protocols the first message is for protocol 1
        let from = choose(2, "from");
        let p = if i == 0 { 1 } else { 1 + choose(2, "protocol") };
        let quick = choose(2, "quick") == 1;
        let size = sizes[choose(sizes.len(), "size")];
        if i > 0 {
            at += choose(gaps, "gap") as u64;
        }
        let (s, book) = (if from == 0 { b.clone() } else { a.clone() }, book.clone());
        let go = move || {
            let data = if size == 0 {
                Bytes::new()
            } else {
                book.payload(size)
            };
            mc_engine::log(|| format!("=> {} sends {} bytes on {} quick {}", from, size, p, quick));
            let r = if quick {
                s.quick_send_message_to(sid(1), pid(p), data.clone())
            } else {
                s.send_message_to(sid(1), pid(p), data.clone())
            };
            if r.is_ok() {
                book.push(Sent {
                    from,
                    to: 1 - from,
                    id: 1,
                    proto: p,
                    quick,
                    data,
                });
            }
        };
        if at <= exec::steps() {
            go()
        } else {
            exec::at_step(at, go)
        }
    }
    rest(opts)?;
    history_seen();
    if book.sent.borrow().len() != n {
        return bad("refused", "a message was not accepted");
    }
    book.judge(kind)?;
    stop();
    Ok(())
}

/// Messages sent from the callbacks: two on connected, an answer to each of the first ones.
fn callbacks(net: Net, kind: Kind, depth: usize, opts: Opts) -> R<()> {
    start(pipe(net), 3);
    let protos = vec![proto(1, kind), proto(2, kind)];
    let svc: Rc<Vec<Svc>> = Rc::new(vec![
        service(tweak(net, 0, cfg(protos.clone()).listen(1))),
        service(tweak(net, 1, cfg(protos))),
    ]);
    settle();
    let book: Rc<Book> = Rc::default();
    let quick = choose(2, "quick") == 1;
    let big = choose(2, "size") == 1;
    let lv = kind.levels()[0];
    let own = (lv == Lv::Service || lv == Lv::Session) && choose(2, "through") == 1;
    let (s2, b2) = (svc.clone(), book.clone());
    let answers = RefCell::new(0);
    let send = move |e: &Entry, c: Option<&ProtocolContextMutRef>| {
        let (p, n) = match &e.ev {
            Ev::Conn { lv: x, proto, .. } if *x == lv => (*proto, 2),
            Ev::Recv { lv: x, proto, .. } if *x == lv && *answers.borrow() < depth => {
                *answers.borrow_mut() += 1;
                (*proto, 1)
            }
            _ => return,
        };
        for i in 0..n {
            let data = b2.payload(if big { 90 } else { 3 });
            let q = quick && i == 1;
            let d = data.clone();
            let s = &s2[e.svc];
            let r = match (q, c) {
                (true, None) => s.quick_send_message_to(sid(1), pid(p), d),
                (false, None) => s.send_message_to(sid(1), pid(p), d),
                (true, Some(c)) => c.quick_send_message(d),
                (false, Some(c)) => c.send_message(d),
            };
            if r.is_ok() {
                b2.push(Sent {
                    from: e.svc,
                    to: 1 - e.svc,
                    id: 1,
                    proto: p,
                    quick: q,
                    data,
                });
            }
        }
    };
    if own {
        act(move |e, c| send(e, Some(c)))
    } else {
        hook(move |e| send(e, None))
    }
    dial(net, &svc[1], all());
    rest(opts)?;
    history_seen();
    if book.sent.borrow().len() != 8 + depth {
        return bad(
            "lost",
            format!(
                "the exchange stopped after {} messages",
                book.sent.borrow().len()
            ),
        );
    }
    book.judge(kind)?;
    stop();
    Ok(())
}

/// A burst of messages that overflows the queues between the tasks.
fn burst(net: Net, kind: Kind, opts: Opts) -> R<()> {
    let n = [1usize, 513, 514, 600, 1100][choose(5, "number")];
    let quick = choose(3, "quick");
    waves(net, kind, &[(n, quick)], &[0], 8, opts)
}

/// Two bursts; the second when the first is under way.
fn two_bursts(net: Net, kind: Kind, gaps: &[usize], opts: Opts) -> R<()> {
    let n = [40usize, 600, 1000][choose(3, "number")];
    let size = if net == Net::Window {
        8
    } else {
        [8, 300][choose(2, "size")]
    };
    let q1 = choose(3, "quick");
    let q2 = choose(3, "quick");
    waves(net, kind, &[(n, q1), (30, q2)], gaps, size, opts)
}

/// A burst while the peer does not read, more once it does.
fn thaw(kind: Kind, gaps: &[u64], opts: Opts) -> R<()> {
    let (b, a) = set_up(Net::Window, kind)?;
    let book: Rc<Book> = Rc::default();
    let from = choose(2, "from");
    let n = [300usize, 700, 1100, 1500][choose(4, "number")];
    let send = {
        let s = if from == 1 { a } else { b };
        let book = book.clone();
        move |quick: bool| {
            let data = book.payload(8);
            let r = if quick {
                s.quick_send_message_to(sid(1), pid(1), data.clone())
            } else {
                s.send_message_to(sid(1), pid(1), data.clone())
            };
            if r.is_ok() {
                book.push(Sent {
                    from,
                    to: 1 - from,
                    id: 1,
                    proto: 1,
                    quick,
                    data,
                });
            }
        }
    };
    freeze_conn(0);
    for i in 0..n {
        // quick ones at the end and now and then
        send(i % 100 == 60 || i + 3 > n);
    }
    exec::run(Opts {
        horizon: exec::now() + SEC,
        ..opts
    });
    let gap = gaps[choose(gaps.len(), "gap")];
    let quick = choose(2, "quick") == 0;
    unfreeze_conn(0);
    let more = move || {
        for _ in 0..3 {
            send(quick)
        }
    };
    if gap == 0 {
        more()
    } else {
        exec::at_step(exec::steps() + gap, more)
    }
    rest(opts)?;
    book.judge(kind)?;
    stop();
    Ok(())
}

fn waves(
    net: Net,
    kind: Kind,
    parts: &[(usize, usize)],
    gaps: &[usize],
    size: usize,
    opts: Opts,
) -> R<()> {
    let (b, a) = set_up(net, kind)?;
    let book: Rc<Book> = Rc::default();
    let two = choose(2, "protocols") == 1;
    let back = choose(2, "answers") == 1;
    let failed: Rc<RefCell<Option<usize>>> = Rc::default();
    let mut at = exec::steps();
    for (k, (n, quick)) in parts.iter().enumerate() {
        let (n, quick) = (*n, *quick);
        if k > 0 {
            at += gaps[choose(gaps.len(), "gap")] as u64;
        }
        let (a, b, book, failed) = (a.clone(), b.clone(), book.clone(), failed.clone());
        let go = move || {
            for i in 0..n {
                for (from, s) in &[(1, &a), (0, &b)] {
                    if *from == 0 && !back {
                        continue;
                    }
                    let p = if two { 1 + i % 2 } else { 1 };
                    let q = quick == 1 || quick == 2 && i % 3 == 0;
                    let data = book.payload(size);
                    let r = if q {
                        s.quick_send_message_to(sid(1), pid(p), data.clone())
                    } else {
                        s.send_message_to(sid(1), pid(p), data.clone())
                    };
                    if r.is_err() {
                        *failed.borrow_mut() = Some(i);
                        continue;
                    }
                    book.push(Sent {
                        from: *from,
                        to: 1 - from,
                        id: 1,
                        proto: p,
                        quick: q,
                        data,
                    });
                }
            }
        };
        if at <= exec::steps() {
            go()
        } else {
            exec::at_step(at, go)
        }
    }
    rest(opts)?;
    if let Some(i) = *failed.borrow() {
        return bad("refused", format!("message {} was not accepted", i));
    }
    book.judge(kind)?;
    stop();
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    All(usize, bool),
    Single(usize, usize),
    Multi(usize),
    Only2(usize),
    Peer(usize, usize),
    Disc2,
    Lost2,
    Close2(usize),
    Open2,
}

const OPS: &[Op] = &[
    Op::All(1, false),
    Op::All(1, true),
    Op::All(2, false),
    Op::Single(1, 1),
    Op::Single(2, 1),
    Op::Single(2, 2),
    Op::Single(9, 1),
    Op::Multi(1),
    Op::Only2(1),
    Op::Peer(1, 1),
    Op::Peer(2, 1),
    Op::Disc2,
    Op::Lost2,
    Op::Close2(1),
    Op::Open2,
];

/// One service with two sessions; protocol 2 is open on the first only.
fn trio(kind: Kind, n: usize, gaps: usize, opts: Opts) -> R<()> {
    start(Default::default(), 0);
    let protos = vec![proto(1, kind), proto(2, kind)];
    let b = Rc::new(service(cfg(protos.clone()).listen(1)));
    let a = Rc::new(service(cfg(protos.clone())));
    let c = Rc::new(service(cfg(protos)));
    settle();
    drop(a.dial(addr(1), all()));
    settle();
    drop(c.dial(addr(1), TargetProtocol::Single(pid(1))));
    settle();
    let book: Rc<Book> = Rc::default();
    let mut at = exec::steps();
    for i in 0..n {
        let op = OPS[choose(OPS.len(), "op")];
        if i > 0 {
            at += choose(gaps, "gap") as u64;
        }
        let (b, a, c, book) = (b.clone(), a.clone(), c.clone(), book.clone());
        let go = move || {
            mc_engine::log(|| format!("=> {:?}", op));
            let data = book.payload(3);
            let add = |from: usize, to: usize, id: usize, p: usize, quick: bool| {
                book.push(Sent {
                    from,
                    to,
                    id,
                    proto: p,
                    quick,
                    data: data.clone(),
                })
            };
            let touch = |p: usize| {
                let mut t = book.touched.borrow_mut();
                t.insert((2, 1, p));
                t.insert((B, 2, p));
            };
            let d = data.clone();
            match op {
                Op::All(p, quick) => {
                    add(B, 1, 1, p, quick);
                    if p == 1 {
                        add(B, 2, 1, p, quick);
                    } else {
                        // not open there, unless it has been opened in between
                        if book.touched.borrow().contains(&(2, 1, 2)) {
                            add(B, 2, 1, 2, quick)
                        }
                    }
                    if quick {
                        drop(b.quick_filter_broadcast(TargetSession::All, pid(p), d))
                    } else {
                        drop(b.filter_broadcast(TargetSession::All, pid(p), d))
                    }
                }
                Op::Single(id, p) => {
                    if id == 1 || id == 2 && (p == 1 || book.touched.borrow().contains(&(2, 1, 2)))
                    {
                        add(B, id, 1, p, false)
                    }
                    drop(b.send_message_to(sid(id), pid(p), d))
                }
                Op::Multi(p) => {
                    add(B, 1, 1, p, false);
                    add(B, 2, 1, p, false);
                    drop(b.filter_broadcast(TargetSession::Multi(vec![sid(2), sid(1)]), pid(p), d))
                }
                Op::Only2(p) => {
                    add(B, 2, 1, p, false);
                    drop(b.filter_broadcast(TargetSession::Multi(vec![sid(2)]), pid(p), d))
                }
                Op::Peer(k, p) => {
                    add(k, B, k, p, false);
                    let s = if k == 1 { &a } else { &c };
                    drop(s.send_message_to(sid(1), pid(p), d))
                }
                Op::Disc2 => {
                    touch(1);
                    touch(2);
                    drop(b.disconnect(sid(2)))
                }
                Op::Lost2 => {
                    touch(1);
                    touch(2);
                    reset_conn(1, std::io::ErrorKind::ConnectionReset)
                }
                Op::Close2(p) => {
                    touch(p);
                    drop(b.close_protocol(sid(2), pid(p)))
                }
                Op::Open2 => {
                    touch(2);
                    drop(b.open_protocol(sid(2), pid(2)))
                }
            }
        };
        if at <= exec::steps() {
            go()
        } else {
            exec::at_step(at, go)
        }
    }
    rest(opts)?;
    history_seen();
    book.judge(kind)?;
    stop();
    Ok(())
}

/// The first messages of a hand-written remote share a frame or a segment with its negotiation,
/// cut anywhere.
fn early(kind: Kind, role: Role, frames: bool, opts: Opts) -> R<()> {
    start(Default::default(), 0);
    let b = service(cfg(vec![proto(1, kind)]).listen(1));
    settle();
    let slot: Rc<RefCell<Option<Rc<Raw>>>> = Rc::default();
    match role {
        Role::Client => *slot.borrow_mut() = Some(Raw::connect(1)),
        Role::Server => {
            let s = slot.clone();
            accept_on(7, move |r| *s.borrow_mut() = Some(r));
            drop(b.dial(addr(7), all()));
        }
    }
    settle();
    let raw = slot.borrow().clone().expect("no connection");
    let mut bytes = select("/p/1", &["1"]);
    bytes.extend(msg(b"one"));
    bytes.extend(msg(b""));
    bytes.extend(msg(b"three"));
    let cut = choose(bytes.len() + 1, "cut");
    let cut2 = cut + choose(bytes.len() + 1 - cut, "second cut");
    let pause = choose(3, "pause");
    let first = if role == Role::Client { SYN } else { 0 };
    for (i, (x, y)) in [(0, cut), (cut, cut2), (cut2, bytes.len())]
        .iter()
        .enumerate()
    {
        if x == y && i > 0 {
            continue;
        }
        let part = &bytes[*x..*y];
        let flags = if i == 0 { first } else { 0 };
        if frames {
            raw.send(&data(flags, 1, part));
        } else {
            // one frame, delivered in pieces
            if i == 0 {
                raw.send(&frame(DATA, flags, 1, bytes.len() as u32, &[]));
            }
            raw.send(part);
        }
        if pause > i {
            settle()
        }
    }
    rest(opts)?;
    history_seen();
    for lv in kind.levels() {
        let got: Vec<Bytes> = log()
            .iter()
            .filter_map(|e| match &e.ev {
                Ev::Recv { lv: x, data, .. } if x == lv => Some(data.clone()),
                _ => None,
            })
            .collect();
        if got != vec![&b"one"[..], &b""[..], &b"three"[..]] {
            return bad("early", format!("the {:?} handler got {:?}", lv, got));
        }
    }
    stop();
    Ok(())
}

/// The first messages are larger than any buffer on the way; cuts near every boundary.
fn early_big(kind: Kind, role: Role, opts: Opts) -> R<()> {
    start(Default::default(), 0);
    let b = service(cfg(vec![proto(1, kind)]).listen(1));
    settle();
    let slot: Rc<RefCell<Option<Rc<Raw>>>> = Rc::default();
    match role {
        Role::Client => *slot.borrow_mut() = Some(Raw::connect(1)),
        Role::Server => {
            let s = slot.clone();
            accept_on(7, move |r| *s.borrow_mut() = Some(r));
            drop(b.dial(addr(7), all()));
        }
    }
    settle();
    let raw = slot.borrow().clone().expect("no connection");
    let size = [4000usize, 8180, 9000, 20_000][choose(4, "size")];
    let want: Vec<Bytes> = (0..3usize)
        .map(|k| {
            (0..size)
                .map(|i| (i * 7 + i / 251 + k) as u8)
                .collect::<Vec<u8>>()
                .into()
        })
        .collect();
    // a long list of versions comes with a large read buffer
    let old = "0".repeat([0, 9000, 20_000][choose(3, "versions")]);
    let sel = if old.is_empty() || role == Role::Server {
        select("/p/1", &["1"])
    } else {
        select("/p/1", &[&old, "1"])
    };
    let mut bytes = sel.clone();
    let mut marks = vec![0, sel.len()];
    for m in &want {
        bytes.extend(msg(m));
        marks.push(bytes.len());
    }
    marks.extend(&[8192, 8192 * 2, 8192 * 3]);
    let mut cuts: Vec<usize> = marks
        .iter()
        .flat_map(|m| (m.saturating_sub(5)..m + 6).collect::<Vec<_>>())
        .filter(|c| *c <= bytes.len())
        .collect();
    cuts.sort_unstable();
    cuts.dedup();
    let cut = cuts[choose(cuts.len(), "cut")];
    let pause = choose(2, "pause") == 1;
    let first = if role == Role::Client { SYN } else { 0 };
    raw.send(&data(first, 1, &bytes[..cut]));
    if pause {
        settle()
    }
    if cut < bytes.len() {
        raw.send(&data(0, 1, &bytes[cut..]));
    }
    rest(opts)?;
    history_seen();
    for lv in kind.levels() {
        let got: Vec<Bytes> = log()
            .iter()
            .filter_map(|e| match &e.ev {
                Ev::Recv { lv: x, data, .. } if x == lv => Some(data.clone()),
                _ => None,
            })
            .collect();
        if got != want {
            return bad(
                "early",
                format!(
                    "the {:?} handler got {} messages of {:?} bytes, expected 3 of {}",
                    lv,
                    got.len(),
                    got.iter().map(|d| d.len()).collect::<Vec<_>>(),
                    size
                ),
            );
        }
    }
    stop();
    Ok(())
}

pub fn t01(t: bool) -> Vec<Scenario> {
    let o = Opts {
        starve: true,
        ..Opts::default()
    };
    let fifo = Opts {
        sched: false,
        ..Opts::default()
    };
    let inside = Opts {
        preempt: true,
        ..fifo
    };
    let d = t as usize;
    let mut v = Vec::new();
    let kinds = [
        Kind::Service,
        Kind::Session,
        Kind::Event,
        Kind::Both,
        Kind::Two,
        Kind::SessionBoth,
        Kind::Spawn,
    ];
    let nets = [
        Net::Plain,
        Net::Window,
        Net::Pipe,
        Net::Secure,
        Net::Ws,
        Net::Keep,
        Net::Hooks,
    ];
    let pb = "all programs of messages between two services: sender, protocol, priority, size; all schedules up to the bound";
    for k in &kinds {
        let k = *k;
        v.push(Scenario::new(
            &format!("programs-{:?}", k),
            1 + d,
            300,
            pb,
            move || programs(Net::Plain, k, 2, &[3], 1, o),
        ));
        v.push(Scenario::new(
            &format!("inside-{:?}", k),
            1 + d,
            300,
            "as programs, tasks interrupted at every channel operation",
            move || programs(Net::Plain, k, 2, &[3], 1, inside),
        ));
        v.push(Scenario::new(
            &format!("hooks-{:?}", k),
            d,
            300,
            "messages changed before sending and back before receiving",
            move || programs(Net::Hooks, k, 2, &[0, 3], 1, o),
        ));
        v.push(Scenario::new(
            &format!("callbacks-{:?}", k),
            1 + d,
            300,
            "messages sent from the callbacks as soon as the protocol opens",
            move || callbacks(Net::Plain, k, 2, o),
        ));
        for (name, role) in &[("client", Role::Client), ("server", Role::Server)] {
            let role = *role;
            v.push(Scenario::new(
                &format!("early-{}-{:?}", name, k),
                0,
                300,
                "negotiation and first messages of a remote cut into frames or segments at every pair of positions",
                move || early(k, role, choose(2, "frames") == 0, fifo),
            ));
            v.push(Scenario::new(
                &format!("early-big-{}-{:?}", name, k),
                0,
                300,
                "negotiation and large first messages, cut near every message and buffer boundary",
                move || early_big(k, role, fifo),
            ));
        }
    }
    for n in &nets {
        let n = *n;
        let slow = n == Net::Secure;
        let sizes: &'static [usize] = &[0, 3, 150];
        v.push(Scenario::new(
            &format!("net-{:?}", n),
            if slow { d } else { 1 + d },
            600,
            pb,
            move || programs(n, Kind::Both, 2, sizes, 1, o),
        ));
        if n != Net::Plain {
            v.push(Scenario::new(
                &format!("net-callbacks-{:?}", n),
                if slow { d } else { 1 + d },
                600,
                "messages sent from the callbacks as soon as the protocol opens",
                move || callbacks(n, Kind::Both, 2, o),
            ));
        }
        if !slow {
            v.push(Scenario::new(
                &format!("three-{:?}", n),
                d,
                600,
                pb,
                move || {
                    let wide = n == Net::Plain || n == Net::Window;
                    programs(
                        n,
                        Kind::Both,
                        3,
                        &[3, 150],
                        if t {
                            6
                        } else if wide {
                            3
                        } else {
                            2
                        },
                        o,
                    )
                },
            ));
        }
    }
    let tb = "one service with two sessions: broadcasts, lists and single targets, with the second session or its protocols closing; all schedules up to the bound";
    v.push(Scenario::new("trio", 1, 600, tb, move || {
        trio(Kind::Both, 2, 1, o)
    }));
    v.push(Scenario::new("trio-gap", d, 600, tb, move || {
        trio(Kind::Both, 2, if t { 40 } else { 25 }, o)
    }));
    v.push(Scenario::new("trio-three", 0, 600, tb, move || {
        trio(Kind::Two, 3, if t { 5 } else { 2 }, fifo)
    }));
    for k in &[Kind::Two, Kind::Event, Kind::Spawn] {
        let k = *k;
        v.push(Scenario::new(
            &format!("burst-{:?}", k),
            0,
            600,
            "up to 1100 messages at once through queues of 512, all mixes of priority, protocol and direction",
            move || burst(Net::Plain, k, fifo),
        ));
    }
    for (k, n) in &[
        (Kind::Two, Net::Plain),
        (Kind::Spawn, Net::Plain),
        (Kind::Both, Net::Window),
    ] {
        let (k, n) = (*k, *n);
        v.push(Scenario::new(
            &format!("two-bursts-{:?}-{:?}", k, n),
            0,
            600,
            "a burst of messages while an earlier one is under way",
            move || {
                let gaps: Vec<usize> = if t {
                    (0..60).chain((60..600).step_by(20)).collect()
                } else {
                    vec![0, 1, 2, 3, 5, 10, 20, 40, 80]
                };
                let long = Opts {
                    max_steps: 200_000,
                    ..fifo
                };
                two_bursts(n, k, &gaps, long)
            },
        ));
    }
    for k in &[Kind::Both, Kind::Spawn] {
        let k = *k;
        v.push(Scenario::new(
            &format!("thaw-{:?}", k),
            0,
            600,
            "up to 1500 messages while the peer does not read, three more at every gap once it does",
            move || {
                let gaps: Vec<u64> = if t {
                    (0..16000).step_by(40).collect()
                } else {
                    (0..16000).step_by(400).collect()
                };
                let long = Opts {
                    max_steps: 400_000,
                    ..fifo
                };
                thaw(k, &gaps, long)
            },
        ));
    }
    v.push(Scenario::new(
        "burst-Window",
        0,
        600,
        "up to 1100 messages at once through small windows",
        move || burst(Net::Window, Kind::Both, fifo),
    ));
    v
}
