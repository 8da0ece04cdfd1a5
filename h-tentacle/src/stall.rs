//! Handlers and peers that stop consuming.
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::rc::Rc;
use std::time::Duration;

use bytes::Bytes;
use mc_engine::exec::{self, Opts, SEC};
use mc_engine::{bad, choose, Scenario, R};
use tentacle::service::{TargetProtocol, TargetSession};

use crate::duo::history_seen;
use crate::judge;
use crate::talk::{rest, Book, Sent};
use crate::world::*;

const B: usize = 0;

/// What happens while the handler is blocked.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// the first peer sends on the blocked protocol
    More,
    /// the first peer sends on the other protocol
    In2,
    /// to the first peer on the other protocol
    Out2,
    /// the second peer sends on the blocked protocol
    Peer1,
    Peer2,
    ToPeer1,
    All2,
    /// end the second session
    Disc2,
    /// end the first session, from the other side
    DiscBy1,
    Lost1,
    Close1,
    Close2,
    Dial,
    Notify,
}

const OPS: &[Op] = &[
    Op::More,
    Op::In2,
    Op::Out2,
    Op::Peer1,
    Op::Peer2,
    Op::ToPeer1,
    Op::All2,
    Op::Disc2,
    Op::DiscBy1,
    Op::Lost1,
    Op::Close1,
    Op::Close2,
    Op::Dial,
    Op::Notify,
];

/// Something that has to be in the log before the handler goes on.
#[derive(Clone, Debug)]
enum Due {
    Message(usize),
    Close(usize, usize),
    Disc(usize, usize),
    Open,
    Notify,
}

struct Stage {
    svc: Vec<Svc>,
    book: Rc<Book>,
    due: RefCell<Vec<Due>>,
    ops: RefCell<Vec<Op>>,
    /// messages per request
    k: usize,
    lv: Lv,
}

impl Stage {
    fn send(&self, from: usize, at: usize, to: usize, id: usize, p: usize, due: bool) {
        for i in 0..self.k {
            let data = self.book.payload(8);
            if self.svc[from]
                .send_message_to(sid(at), pid(p), data.clone())
                .is_err()
            {
                return;
            }
            if due {
                let n = self.book.sent.borrow().len();
                self.due.borrow_mut().push(Due::Message(n));
            }
            self.book.push(Sent {
                from,
                to,
                id,
                proto: p,
                quick: false,
                data,
            });
            let _ = i;
        }
    }

    fn touch(&self, session: usize, p: usize) {
        let mut t = self.book.touched.borrow_mut();
        t.insert((B, session, p));
        t.insert((session, 1, p));
    }

    fn run(&self, op: Op) {
        mc_engine::log(|| format!("=> {:?}", op));
        self.ops.borrow_mut().push(op);
        let due = |d| self.due.borrow_mut().push(d);
        match op {
            Op::More => self.send(1, 1, B, 1, 1, false),
            Op::In2 => self.send(1, 1, B, 1, 2, true),
            Op::Out2 => self.send(B, 1, 1, 1, 2, true),
            // one handler serves the protocol of all sessions
            Op::Peer1 => self.send(2, 1, B, 2, 1, self.lv != Lv::Service),
            Op::Peer2 => self.send(2, 1, B, 2, 2, true),
            Op::ToPeer1 => self.send(B, 2, 2, 1, 1, true),
            Op::All2 => {
                let data = self.book.payload(8);
                let to = TargetSession::Multi(vec![sid(1), sid(2)]);
                if self.svc[B]
                    .filter_broadcast(to, pid(2), data.clone())
                    .is_err()
                {
                    return;
                }
                for to in 1..=2 {
                    let n = self.book.sent.borrow().len();
                    due(Due::Message(n));
                    self.book.push(Sent {
                        from: B,
                        to,
                        id: 1,
                        proto: 2,
                        quick: false,
                        data: data.clone(),
                    });
                }
            }
            Op::Disc2 => {
                self.touch(2, 1);
                self.touch(2, 2);
                due(Due::Close(B, 2));
                due(Due::Close(2, 1));
                drop(self.svc[B].disconnect(sid(2)))
            }
            Op::DiscBy1 => {
                self.touch(1, 1);
                self.touch(1, 2);
                due(Due::Close(B, 1));
                due(Due::Close(1, 1));
                drop(self.svc[1].disconnect(sid(1)))
            }
            Op::Lost1 => {
                self.touch(1, 1);
                self.touch(1, 2);
                due(Due::Close(B, 1));
                due(Due::Close(1, 1));
                reset_conn(0, std::io::ErrorKind::ConnectionReset)
            }
            Op::Close1 => {
                self.touch(1, 1);
                drop(self.svc[B].close_protocol(sid(1), pid(1)))
            }
            Op::Close2 => {
                self.touch(1, 2);
                due(Due::Disc(B, 2));
                due(Due::Disc(1, 2));
                drop(self.svc[B].close_protocol(sid(1), pid(2)))
            }
            Op::Dial => {
                due(Due::Open);
                drop(self.svc[B].dial(addr(7), TargetProtocol::All))
            }
            Op::Notify => {
                let every = Duration::from_secs(1);
                match self.lv {
                    Lv::Service => {
                        due(Due::Notify);
                        drop(self.svc[B].set_service_notify(pid(2), every, 5))
                    }
                    Lv::Session => {
                        if !self.book.touched.borrow().contains(&(B, 1, 2)) {
                            due(Due::Notify)
                        }
                        drop(self.svc[B].set_session_notify(sid(1), pid(2), every, 5))
                    }
                    _ => (),
                }
            }
        }
    }

    /// Everything due happened before the handler went on.
    fn judge(&self, kind: Kind) -> R<()> {
        let l = log();
        let end = l
            .iter()
            .position(|e| e.ev == Ev::Note("released".into()))
            .unwrap_or(l.len());
        let l = &l[..end];
        let got: HashSet<(Lv, usize, usize, usize, &Bytes)> = l
            .iter()
            .filter_map(|e| match &e.ev {
                Ev::Recv {
                    lv,
                    id,
                    proto,
                    data,
                } => Some((*lv, e.svc, *id, *proto, data)),
                _ => None,
            })
            .collect();
        let sent = self.book.sent.borrow();
        let touched = self.book.touched.borrow();
        for d in self.due.borrow().iter() {
            let ok = match d {
                Due::Message(n) => {
                    let s = &sent[*n];
                    // a stream that is not read may not be written either
                    let same = s.proto == 1 && self.lv == Lv::Service;
                    touched.contains(&(s.to, s.id, s.proto))
                        || same && self.ops.borrow().contains(&Op::Peer1)
                        || kind
                            .levels()
                            .iter()
                            .all(|lv| got.contains(&(*lv, s.to, s.id, s.proto, &s.data)))
                }
                Due::Close(svc, id) => l
                    .iter()
                    .any(|e| e.svc == *svc && e.ev == Ev::Close { id: *id }),
                Due::Disc(svc, p) => kind.levels().iter().all(|lv| {
                    // session handlers need not be told when the session itself ends
                    let o = self.ops.borrow();
                    let over = o.contains(&Op::DiscBy1) || o.contains(&Op::Lost1);
                    *lv == Lv::Session && over
                        || l.iter().any(|e| {
                            e.svc == *svc
                                && e.ev
                                    == Ev::Disc {
                                        lv: *lv,
                                        id: 1,
                                        proto: *p,
                                    }
                        })
                }),
                Due::Open => l
                    .iter()
                    .any(|e| matches!(&e.ev, Ev::Open { out: true, .. } if e.svc == B)),
                Due::Notify => {
                    touched.contains(&(B, 1, 2)) && self.lv == Lv::Session
                        || l.iter()
                            .any(|e| matches!(&e.ev, Ev::Notify { token: 5, .. } if e.svc == B))
                }
            };
            if !ok {
                return bad(
                    "held-up",
                    format!(
                        "{:?} did not happen while the {:?} handler of protocol 1 was blocked (requests {:?}, {} messages each)",
                        d, self.lv, self.ops.borrow(), self.k
                    ),
                );
            }
        }
        Ok(())
    }
}

pub fn small(mut c: SvcCfg) -> SvcCfg {
    // 83 messages of eight bytes in flight per stream, two and 65 more in its queues
    c.yamux.max_stream_window_size = 1000;
    c.recv_buf = Some(1000);
    c.send_buf = Some(64_000);
    c
}

/// A handler of protocol 1 blocks on its first message and goes on when nothing else can.
fn handler(kind: Kind, lv: Lv, before: &[usize], n: usize, k: &[usize], opts: Opts) -> R<()> {
    // the order of the hash tables
    mc_engine::rng::reseed(choose(if before[0] > 100 { 4 } else { 1 }, "hash keys") as u64);
    start(Default::default(), 0);
    let protos = vec![proto(1, kind), proto(2, kind)];
    let svc = vec![
        service(small(cfg(protos.clone()).listen(1))),
        service(small(cfg(protos.clone()))),
        service(small(cfg(protos.clone()))),
        service(cfg(protos).listen(7)),
    ];
    settle();
    drop(svc[1].dial(addr(1), all()));
    settle();
    drop(svc[2].dial(addr(1), all()));
    settle();
    let first = before[choose(before.len(), "first messages")];
    let k = k[choose(k.len(), "messages")];
    let stage = Rc::new(Stage {
        svc,
        book: Rc::default(),
        due: RefCell::default(),
        ops: RefCell::default(),
        k,
        lv,
    });
    let ops: Vec<Op> = (0..n).map(|_| OPS[choose(OPS.len(), "op")]).collect();
    if ops
        .iter()
        .enumerate()
        .any(|(i, o)| *o != Op::More && ops[..i].contains(o))
    {
        // repeating any other request brings nothing new
        return Ok(());
    }
    let apart = n > 1 && choose(2, "apart") == 1;
    let held = Cell::new(false);
    let s = stage.clone();
    // a task interrupted by the handler that blocks would be blocked with it
    let cut = opts.preempt;
    let opts = Opts {
        preempt: false,
        ..opts
    };
    hook(move |e| match &e.ev {
        Ev::Recv {
            lv: x,
            id: 1,
            proto: 1,
            ..
        } if *x == lv && e.svc == B && !held.get() => {
            held.set(true);
            exec::interrupt(cut);
            if apart {
                exec::block_until(|| false);
            }
            for op in &ops {
                s.run(*op);
                if apart {
                    exec::block_until(|| false);
                }
            }
            if !apart {
                exec::block_until(|| false);
            }
            exec::interrupt(false);
            note(B, "released");
        }
        _ => (),
    });
    for _ in 0..first {
        let data = stage.book.payload(8);
        if stage.svc[1]
            .send_message_to(sid(1), pid(1), data.clone())
            .is_err()
        {
            break;
        }
        stage.book.push(Sent {
            from: 1,
            to: B,
            id: 1,
            proto: 1,
            quick: false,
            data,
        });
    }
    rest(opts)?;
    history_seen();
    if count(|e| e.ev == Ev::Note("released".into())) != 1 {
        return bad("lost", "the first message did not arrive");
    }
    stage.judge(kind)?;
    stage.book.judge(kind)?;
    judge::sessions(&log())?;
    stop();
    Ok(())
}

/// Requests while the connection of the first session does not move.
#[derive(Clone, Copy, Debug, PartialEq)]
enum F {
    A1,
    A2,
    QuickA1,
    All1,
    /// a protocol the session has not opened
    A3,
    C1,
    ByC,
    DiscA,
    DiscC,
    CloseA1,
    Dial,
}

const FS: &[F] = &[
    F::A1,
    F::A2,
    F::QuickA1,
    F::All1,
    F::A3,
    F::C1,
    F::ByC,
    F::DiscA,
    F::DiscC,
    F::CloseA1,
    F::Dial,
];

fn nothing_pending(n: usize) -> R<()> {
    for svc in 0..n {
        for (id, size) in pending(svc) {
            if size != 0 {
                return bad(
                    "pending",
                    format!(
                        "everything has been sent, but session {} of service {} counts {} bytes as pending",
                        id, svc, size
                    ),
                );
            }
        }
    }
    Ok(())
}

fn blocked(svc: usize, id: usize) -> usize {
    count(|e| {
        e.svc == svc
            && matches!(&e.ev, Ev::Err { kind, id: i, .. } if *kind == "blocked" && *i == Some(id))
    })
}

impl Stage {
    fn frozen(&self, op: F) {
        mc_engine::log(|| format!("=> {:?}", op));
        let due = |d| self.due.borrow_mut().push(d);
        let b = &self.svc[B];
        match op {
            F::A1 => self.send(B, 1, 1, 1, 1, false),
            F::A2 => self.send(B, 1, 1, 1, 2, false),
            F::QuickA1 => {
                for _ in 0..self.k {
                    let data = self.book.payload(8);
                    if b.quick_send_message_to(sid(1), pid(1), data.clone())
                        .is_err()
                    {
                        return;
                    }
                    self.book.push(Sent {
                        from: B,
                        to: 1,
                        id: 1,
                        proto: 1,
                        quick: true,
                        data,
                    });
                }
            }
            F::All1 => {
                let data = self.book.payload(8);
                let to = TargetSession::Multi(vec![sid(1), sid(2)]);
                if b.filter_broadcast(to, pid(1), data.clone()).is_err() {
                    return;
                }
                for to in 1..=2 {
                    if to == 2 {
                        let n = self.book.sent.borrow().len();
                        due(Due::Message(n));
                    }
                    self.book.push(Sent {
                        from: B,
                        to,
                        id: 1,
                        proto: 1,
                        quick: false,
                        data: data.clone(),
                    });
                }
            }
            F::A3 => {
                for _ in 0..self.k {
                    drop(b.send_message_to(sid(1), pid(3), Bytes::from_static(b"12345678")))
                }
            }
            F::C1 => self.send(B, 2, 2, 1, 1, true),
            F::ByC => self.send(2, 1, B, 2, 1, true),
            F::DiscA => {
                self.touch(1, 1);
                self.touch(1, 2);
                due(Due::Close(B, 1));
                drop(b.disconnect(sid(1)))
            }
            F::DiscC => {
                self.touch(2, 1);
                self.touch(2, 2);
                due(Due::Close(B, 2));
                due(Due::Close(2, 1));
                drop(b.disconnect(sid(2)))
            }
            F::CloseA1 => {
                self.touch(1, 1);
                // a stream that is full learns of it when it moves again
                drop(b.close_protocol(sid(1), pid(1)))
            }
            F::Dial => {
                due(Due::Open);
                drop(b.dial(addr(7), TargetProtocol::All))
            }
        }
    }
}

/// A peer whose connection does not move for a while.
fn peer(kind: Kind, n: usize, k: &[usize], opts: Opts) -> R<()> {
    mc_engine::rng::reseed(choose(if k.len() > 1 { 4 } else { 1 }, "hash keys") as u64);
    start(Default::default(), 0);
    let protos = vec![proto(1, kind), proto(2, kind)];
    let mut own = protos.clone();
    own.push(proto(3, kind));
    let svc = vec![
        service(small(cfg(own).listen(1))),
        service(small(cfg(protos.clone()))),
        service(small(cfg(protos.clone()))),
        service(cfg(protos).listen(7)),
    ];
    settle();
    drop(svc[1].dial(addr(1), all()));
    settle();
    drop(svc[2].dial(addr(1), all()));
    settle();
    let stage = Stage {
        svc,
        book: Rc::default(),
        due: RefCell::default(),
        ops: RefCell::default(),
        k: k[choose(k.len(), "messages")],
        lv: Lv::Event,
    };
    let ops: Vec<F> = (0..n).map(|_| FS[choose(FS.len(), "op")]).collect();
    let apart = n > 1 && choose(2, "apart") == 1;
    freeze_conn(0);
    for op in &ops {
        stage.frozen(*op);
        if apart {
            rest(opts)?
        }
    }
    let end = exec::now() + 2 * SEC;
    exec::run(Opts {
        horizon: end,
        ..opts
    });
    note(B, "released");
    unfreeze_conn(0);
    if choose(2, "cut") == 1 && !ops.contains(&F::DiscA) {
        // it never moves again
        stage.touch(1, 1);
        stage.touch(1, 2);
        reset_conn(0, std::io::ErrorKind::ConnectionReset);
    }
    rest(opts)?;
    history_seen();
    stage.judge(kind)?;
    stage.book.judge(kind)?;
    judge::sessions(&log())?;
    nothing_pending(4)?;
    if ops.contains(&F::CloseA1) {
        for lv in kind.levels() {
            // the session handlers need not be told when the session ends
            if *lv != Lv::Session && judge::connected(&log(), B, *lv, 1, 1) {
                return bad("not-closed", "the closed protocol is still open");
            }
        }
    }
    if blocked(B, 1) + blocked(B, 2) > 0 {
        return bad(
            "blocked",
            "a session within its limit was reported as blocked",
        );
    }
    stop();
    Ok(())
}

/// More and more data for a connection that does not move.
fn limit(kind: Kind, opts: Opts) -> R<()> {
    mc_engine::rng::reseed(choose(2, "hash keys") as u64);
    start(Default::default(), 0);
    let protos = vec![proto(1, kind), proto(2, kind)];
    let max = [3_000, 20_000][choose(2, "limit")];
    let window = 1000;
    let mut c = cfg(protos.clone()).listen(1);
    c.yamux.max_stream_window_size = window;
    c.send_buf = Some(max);
    let mut svc = vec![service(c)];
    for _ in 0..2 {
        let mut c = cfg(protos.clone());
        c.yamux.max_stream_window_size = window;
        svc.push(service(c));
    }
    settle();
    drop(svc[1].dial(addr(1), all()));
    settle();
    drop(svc[2].dial(addr(1), all()));
    settle();
    let size = [4usize, 30, 200][choose(3, "size")];
    let rounds = 1 + choose(6, "rounds");
    let two = choose(2, "protocols") == 1;
    let quick = choose(2, "quick") == 1;
    let apart = choose(2, "apart") == 1;
    let book = Book::default();
    let mut number = [0usize; 3];
    freeze_conn(0);
    for r in 0..rounds {
        for _ in 0..300 {
            let p = if two { 1 + r % 2 } else { 1 };
            // small messages of the same text, the longer ones all differ
            let data = if size == 4 {
                Bytes::from_static(b"1234")
            } else {
                book.payload(size)
            };
            let done = if quick {
                svc[B].quick_send_message_to(sid(1), pid(p), data.clone())
            } else {
                svc[B].send_message_to(sid(1), pid(p), data.clone())
            };
            if done.is_ok() {
                number[p] += 1;
                book.push(Sent {
                    from: B,
                    to: 1,
                    id: 1,
                    proto: p,
                    quick,
                    data,
                });
            }
        }
        if apart {
            exec::run(Opts {
                horizon: exec::now(),
                ..opts
            });
        }
    }
    exec::run(Opts {
        horizon: exec::now() + SEC,
        ..opts
    });
    let total = size * (number[1] + number[2]);
    // what may have left the queues: a window and the write buffer of each stream
    let left = (window as usize + 8192) / (size + 4) + 3;
    let mut least = 0;
    let mut full = false;
    for p in 1..=2 {
        let still = number[p].saturating_sub(left);
        least += still * size;
        full |= still > max / window as usize + 1 + 520;
    }
    let n = blocked(B, 1);
    let closed = count(|e| e.svc == B && e.ev == Ev::Close { id: 1 });
    mc_engine::outcome(&[n as u8, closed as u8]);
    if n > 1 {
        return bad("twice", "the session was reported as blocked twice");
    }
    if n != closed {
        return bad(
            "unreported",
            format!(
                "{} bytes queued, limit {}: {} reports of a blocked session, {} of its close",
                total, max, n, closed
            ),
        );
    }
    if total <= max && n > 0 {
        return bad(
            "blocked",
            format!("a session with {} bytes was closed, limit {}", total, max),
        );
    }
    if least > max && full && n == 0 {
        return bad(
            "unlimited",
            format!(
                "{} bytes or more are queued for a session, limit {}",
                least, max
            ),
        );
    }
    // the other session is not concerned
    let data = book.payload(9);
    drop(svc[B].send_message_to(sid(2), pid(1), data.clone()));
    book.push(Sent {
        from: B,
        to: 2,
        id: 1,
        proto: 1,
        quick: false,
        data,
    });
    unfreeze_conn(0);
    if n > 0 {
        for p in 1..=2 {
            book.touched.borrow_mut().insert((1, 1, p));
        }
    }
    rest(opts)?;
    book.judge(kind)?;
    nothing_pending(3)?;
    if n > 0 && judge::live(&log(), 1).contains_key(&1) {
        return bad("alive", "the other end of the closed session stays open");
    }
    if blocked(B, 1) != n || blocked(B, 2) > 0 {
        return bad(
            "blocked",
            "a session was reported as blocked when it could send",
        );
    }
    stop();
    Ok(())
}

/// A flood for a connection that does not move, with a limit: the bytes pending at the end,
/// and whether the session was reported as blocked.
fn flood(kind: Kind, max: usize, size: usize, n: usize, quick: bool, opts: Opts) -> (usize, bool) {
    start(Default::default(), 0);
    let mut svc = Vec::new();
    for k in 0..2 {
        let mut c = cfg(vec![proto(1, kind)]);
        if k == 0 {
            c = c.listen(1);
            c.send_buf = Some(max);
        }
        c.yamux.max_stream_window_size = 1000;
        svc.push(service(c));
    }
    settle();
    drop(svc[1].dial(addr(1), all()));
    settle();
    freeze_conn(0);
    for i in 0..n {
        let data = Bytes::from(vec![i as u8; size]);
        drop(if quick {
            svc[B].quick_send_message_to(sid(1), pid(1), data)
        } else {
            svc[B].send_message_to(sid(1), pid(1), data)
        });
        exec::run(Opts {
            horizon: exec::now(),
            ..opts
        });
    }
    let size = pending(B).iter().map(|p| p.1).sum();
    let told = blocked(B, 1) > 0;
    stop();
    (size, told)
}

/// A session is closed for its queued data once that is more than the limit, and not before.
fn exact(kind: Kind, opts: Opts) -> R<()> {
    let size = [7usize, 64][choose(2, "size")];
    let quick = choose(2, "quick") == 1;
    let n = 1500 + 100 * choose(3, "messages");
    let (all, told) = flood(kind, usize::MAX, size, n, quick, opts);
    if told {
        return bad("blocked", "a session without limit was reported as blocked");
    }
    mc_engine::outcome(&(all as u32).to_le_bytes());
    if flood(kind, all, size, n, quick, opts).1 {
        return bad(
            "blocked",
            format!("a session with {} bytes was closed, limit {}", all, all),
        );
    }
    if !flood(kind, all - 1, size, n, quick, opts).1 {
        return bad(
            "unlimited",
            format!("{} bytes are queued for a session, limit {}", all, all - 1),
        );
    }
    Ok(())
}

pub fn t08(t: bool) -> Vec<Scenario> {
    let o = Opts {
        starve: true,
        ..Opts::default()
    };
    let fifo = Opts {
        sched: false,
        max_steps: 400_000,
        ..Opts::default()
    };
    let d = t as usize;
    let mut v = Vec::new();
    let kinds = [
        (Kind::Service, Lv::Service),
        (Kind::Session, Lv::Session),
        (Kind::Two, Lv::Service),
        (Kind::Two, Lv::Session),
        (Kind::Both, Lv::Service),
        (Kind::Spawn, Lv::Spawn),
    ];
    let hb = "a handler blocks on its first message until nothing else moves; all sequences of requests and traffic meanwhile";
    for (k, lv) in &kinds {
        let (k, lv) = (*k, *lv);
        v.push(Scenario::new(
            &format!("handler-{:?}-{:?}", k, lv),
            1 + d,
            300,
            hb,
            move || handler(k, lv, &[1, 3], 1, &[1, 3], o),
        ));
        v.push(Scenario::new(
            &format!("handler-inside-{:?}-{:?}", k, lv),
            1 + d,
            300,
            INSIDE,
            move || handler(k, lv, &[2], 1, &[1], inside()),
        ));
        v.push(Scenario::new(
            &format!("handler-two-{:?}-{:?}", k, lv),
            d,
            300,
            hb,
            move || handler(k, lv, &[2], 2, &[1], o),
        ));
        v.push(Scenario::new(
            &format!("handler-full-{:?}-{:?}", k, lv),
            0,
            300,
            hb,
            move || handler(k, lv, &[600, 2040], 2, &[1, 1400], fifo),
        ));
    }
    let pb = "a connection does not move for a while; all sequences of requests meanwhile";
    for k in &[Kind::Service, Kind::Session, Kind::Both, Kind::Spawn] {
        let k = *k;
        v.push(Scenario::new(
            &format!("peer-{:?}", k),
            1 + d,
            300,
            pb,
            move || peer(k, 1, &[2], o),
        ));
        v.push(Scenario::new(
            &format!("peer-inside-{:?}", k),
            1 + d,
            300,
            INSIDE,
            move || peer(k, 1, &[2], inside()),
        ));
        v.push(Scenario::new(
            &format!("peer-two-{:?}", k),
            d,
            300,
            pb,
            move || peer(k, 2, &[1], o),
        ));
        v.push(Scenario::new(
            &format!("peer-full-{:?}", k),
            0,
            300,
            pb,
            move || peer(k, 2, &[700, 2040], fifo),
        ));
        v.push(Scenario::new(
            &format!("exact-{:?}", k),
            0,
            120,
            "floods that end exactly at the limit and one byte above it",
            move || exact(k, fifo),
        ));
        v.push(Scenario::new(
            &format!("limit-{:?}", k),
            0,
            300,
            "up to 1800 messages of each size for a connection that does not move, two limits",
            move || limit(k, fifo),
        ));
    }
    v
}
