//! Every operation sequence up to a depth on one thread, compared with a reference channel.
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

use futures::stream::FusedStream;
use futures::{Future, FutureExt, Sink, SinkExt, Stream};
use mc_engine::{bad, choose, choose_in, log, outcome, step, tick_steps, Scenario, R};

use crate::plain_chan::channel::mpsc::{channel, unbounded, Priority, Receiver, Sender, UnboundedReceiver, UnboundedSender};
use crate::plain_chan::channel::QuickSinkExt;

struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}

struct Flag {
    c: Arc<Count>,
    waker: Waker,
    /// a task that was told to wait has not been woken since
    waiting: bool,
}

impl Flag {
    fn new() -> Self {
        let c = Arc::new(Count(AtomicUsize::new(0)));
        Flag { waker: Waker::from(c.clone()), c, waiting: false }
    }
    fn arm(&mut self) {
        self.c.0.store(0, SeqCst);
        self.waiting = true;
    }
    fn woken(&mut self) -> bool {
        if self.c.0.load(SeqCst) > 0 {
            self.waiting = false;
        }
        !self.waiting
    }
}

struct Msg {
    id: u32,
    live: Arc<AtomicUsize>,
}
impl Drop for Msg {
    fn drop(&mut self) {
        self.live.fetch_sub(1, SeqCst);
    }
}

enum Tx {
    B(Sender<Msg>),
    U(UnboundedSender<Msg>),
}

enum Rc {
    B(Receiver<Msg>),
    U(UnboundedReceiver<Msg>),
}

#[derive(Debug, PartialEq)]
enum Refused {
    Full,
    Gone,
}

impl Tx {
    fn attempt(&self, m: Msg, urgent: bool) -> Result<(), (Refused, Msg)> {
        let r = match (self, urgent) {
            (Tx::B(t), false) => t.try_send(m),
            (Tx::B(t), true) => t.try_quick_send(m),
            (Tx::U(t), false) => t.unbounded_send(m),
            (Tx::U(t), true) => t.unbounded_quick_send(m),
        };
        r.map_err(|e| {
            let k = if e.is_full() { Refused::Full } else { Refused::Gone };
            (k, e.into_inner())
        })
    }
    fn poll_ready(&self, cx: &mut Context<'_>) -> Poll<bool> {
        match self {
            Tx::B(t) => t.poll_ready(cx).map(|r| r.is_ok()),
            Tx::U(t) => t.poll_ready(cx).map(|r| r.is_ok()),
        }
    }
    fn is_closed(&self) -> bool {
        match self {
            Tx::B(t) => t.is_closed(),
            Tx::U(t) => t.is_closed(),
        }
    }
    fn close(&mut self) {
        match self {
            Tx::B(t) => t.close_channel(),
            Tx::U(t) => t.close_channel(),
        }
    }
    fn disconnect(&mut self) {
        match self {
            Tx::B(t) => t.disconnect(),
            Tx::U(t) => t.disconnect(),
        }
    }
    fn dup(&self) -> Tx {
        match self {
            Tx::B(t) => Tx::B(t.clone()),
            Tx::U(t) => Tx::U(t.clone()),
        }
    }
}

impl Rc {
    fn poll_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<(bool, Msg)>> {
        match self {
            Rc::B(r) => Pin::new(r).poll_next(cx),
            Rc::U(r) => Pin::new(r).poll_next(cx),
        }
        .map(|o| o.map(|(p, m)| (p == Priority::High, m)))
    }
    fn try_next(&mut self) -> Poll<Option<(bool, Msg)>> {
        let r = match self {
            Rc::B(r) => r.try_next(),
            Rc::U(r) => r.try_next(),
        };
        match r {
            Ok(o) => Poll::Ready(o.map(|(p, m)| (p == Priority::High, m))),
            Err(_) => Poll::Pending,
        }
    }
    fn close(&mut self) {
        match self {
            Rc::B(r) => r.close(),
            Rc::U(r) => r.close(),
        }
    }
    fn terminated(&self) -> bool {
        match self {
            Rc::B(r) => r.is_terminated(),
            Rc::U(r) => r.is_terminated(),
        }
    }
}

struct Model {
    buffer: Option<usize>,
    normal: VecDeque<u32>,
    urgent: VecDeque<u32>,
    open: bool,
    /// senders that ever existed
    senders: usize,
}

impl Model {
    fn len(&self) -> usize {
        self.normal.len() + self.urgent.len()
    }
    fn next(&mut self) -> Option<(bool, u32)> {
        if let Some(u) = self.urgent.pop_front() {
            return Some((true, u));
        }
        self.normal.pop_front().map(|n| (false, n))
    }
}

pub fn run(buffers: &[Option<usize>], max_senders: usize, depth: usize) -> R<()> {
    let buffer = choose_in(buffers, "capacity");
    let live = Arc::new(AtomicUsize::new(0));
    let (tx, rc) = match buffer {
        Some(b) => {
            let (t, r) = channel(b);
            (Tx::B(t), Rc::B(r))
        }
        None => {
            let (t, r) = unbounded();
            (Tx::U(t), Rc::U(r))
        }
    };
    let mut txs: Vec<Option<Tx>> = vec![Some(tx)];
    let mut wait: Vec<Flag> = vec![Flag::new()];
    let mut rc = Some(rc);
    let mut ended = false;
    let mut rwait = Flag::new();
    let mut m = Model { buffer, normal: VecDeque::new(), urgent: VecDeque::new(), open: true, senders: 1 };
    let mut next = 0u32;
    let mut trace = String::new();
    for d in 0..depth {
        // the operations that make sense now
        let mut ops: Vec<(char, usize)> = Vec::new();
        for (i, t) in txs.iter().enumerate() {
            if t.is_none() {
                continue;
            }
            for k in "nqdx".chars() {
                ops.push((k, i));
            }
            if buffer.is_some() {
                ops.push(('r', i));
            }
            if txs.len() < max_senders {
                ops.push(('c', i));
            }
        }
        if rc.is_some() {
            if !ended {
                ops.push(('P', 0));
                if d + 1 == depth {
                    ops.push(('T', 0));
                }
            }
            ops.push(('C', 0));
            ops.push(('D', 0));
        }
        if ops.is_empty() {
            break;
        }
        let (k, i) = ops[choose(ops.len(), "op")];
        step();
        let was_open = m.open;
        trace.push(k);
        trace.push_str(&i.to_string());
        log(|| format!("{} {}", k, i));
        match k {
            'n' | 'q' => {
                live.fetch_add(1, SeqCst);
                let id = next;
                next += 1;
                let was = m.len();
                match txs[i].as_ref().unwrap().attempt(Msg { id, live: live.clone() }, k == 'q') {
                    Ok(()) => {
                        if !m.open {
                            return bad("accepted-closed", format!("{}: message accepted after the channel was closed", trace));
                        }
                        if k == 'q' {
                            m.urgent.push_back(id)
                        } else {
                            m.normal.push_back(id)
                        }
                        if let Some(b) = buffer {
                            if m.len() > b + m.senders {
                                return bad("over-capacity", format!("{}: {} messages held", trace, m.len()));
                            }
                        }
                    }
                    Err((why, back)) => {
                        if back.id != id {
                            return bad("wrong-return", format!("{}: another message came back", trace));
                        }
                        match (why, m.open, buffer) {
                            (Refused::Gone, false, _) => {}
                            // an attempt that names no task to wake replaces the sender's waiting
                            (Refused::Full, _, Some(b)) if was > b => wait[i].waiting = false,
                            // a sender may learn of the close only at its next turn
                            (w, _, _) => {
                                return bad("refused", format!("{}: refused as {:?} with {} held, open {}", trace, w, was, m.open));
                            }
                        }
                    }
                }
            }
            'r' => {
                // each time another task asks: the last one is to be woken
                wait[i] = Flag::new();
                let w = wait[i].waker.clone();
                let mut cx = Context::from_waker(&w);
                wait[i].arm();
                match txs[i].as_ref().unwrap().poll_ready(&mut cx) {
                    Poll::Ready(ok) => {
                        wait[i].waiting = false;
                        if ok != m.open {
                            return bad("ready", format!("{}: ready says {} with the channel open {}", trace, ok, m.open));
                        }
                    }
                    Poll::Pending => {
                        if !m.open || buffer.map_or(true, |b| m.len() <= b) {
                            return bad("not-ready", format!("{}: told to wait with {} held, open {}", trace, m.len(), m.open));
                        }
                    }
                }
            }
            'd' => {
                if i % 2 == 0 {
                    txs[i] = None;
                } else {
                    txs[i].as_mut().unwrap().disconnect();
                    txs[i] = None;
                }
                wait[i].waiting = false;
                if txs.iter().all(|t| t.is_none()) {
                    m.open = false;
                }
            }
            'x' => {
                txs[i].as_mut().unwrap().close();
                m.open = false;
            }
            'c' => {
                let t = txs[i].as_ref().unwrap().dup();
                txs.push(Some(t));
                wait.push(Flag::new());
                m.senders += 1;
            }
            'P' | 'T' => {
                if k == 'P' {
                    rwait = Flag::new();
                }
                let w = rwait.waker.clone();
                let mut cx = Context::from_waker(&w);
                let r = if k == 'P' {
                    rwait.arm();
                    rc.as_mut().unwrap().poll_next(&mut cx)
                } else {
                    rc.as_mut().unwrap().try_next()
                };
                match r {
                    Poll::Ready(Some((u, msg))) => {
                        rwait.waiting = false;
                        let want = m.next();
                        if want != Some((u, msg.id)) {
                            return bad("received", format!("{}: received {:?}, expected {:?}", trace, (u, msg.id), want));
                        }
                    }
                    Poll::Ready(None) => {
                        rwait.waiting = false;
                        ended = true;
                        if m.open || m.len() > 0 {
                            return bad("early-end", format!("{}: end of stream with {} held, open {}", trace, m.len(), m.open));
                        }
                        if !rc.as_ref().unwrap().terminated() {
                            return bad("terminated", format!("{}: not terminated after the end of the stream", trace));
                        }
                    }
                    Poll::Pending => {
                        if m.len() > 0 || !m.open {
                            return bad("not-received", format!("{}: nothing to receive with {} held, open {}", trace, m.len(), m.open));
                        }
                    }
                }
            }
            'C' => {
                rc.as_mut().unwrap().close();
                m.open = false;
            }
            'D' => {
                rc = None;
                m.open = false;
                m.normal.clear();
                m.urgent.clear();
                rwait.waiting = false;
            }
            _ => unreachable!(),
        }
        // wake-ups owed
        // (closing from the receiving side needs no wake-up of the receiver itself)
        let ended_by_sender = was_open && !m.open && k != 'C';
        if rc.is_some() && rwait.waiting && (m.len() > 0 || ended_by_sender) && !rwait.woken() {
            return bad("receiver-asleep", format!("{}: the receiver was not woken", trace));
        }
        for (j, f) in wait.iter_mut().enumerate() {
            if txs[j].is_none() || !f.waiting || f.woken() {
                continue;
            }
            if let Some(b) = buffer {
                if m.len() <= b {
                    return bad("sender-asleep", format!("{}: sender {} not woken with {} held", trace, j, m.len()));
                }
            }
            if rc.is_none() || k == 'C' {
                return bad("sender-asleep-close", format!("{}: sender {} not woken by the close", trace, j));
            }
        }
        for t in txs.iter().flatten() {
            if t.is_closed() != !m.open {
                return bad("is-closed", format!("{}: a sender says closed={} with open={}", trace, t.is_closed(), m.open));
            }
            if let Tx::U(u) = t {
                let want = if m.open { Some(m.len()) } else { None };
                if u.len() != want {
                    return bad("len", format!("{}: len() is {:?}, expected {:?}", trace, u.len(), want));
                }
            }
        }
        if live.load(SeqCst) != m.len() {
            return bad("leak", format!("{}: {} messages alive, {} held", trace, live.load(SeqCst), m.len()));
        }
    }
    drop(txs);
    drop(rc);
    if live.load(SeqCst) != 0 {
        return bad("leak", format!("{}: {} messages alive in the end", trace, live.load(SeqCst)));
    }
    outcome(trace.as_bytes());
    Ok(())
}
