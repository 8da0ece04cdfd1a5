// The program driver; included by `weak_run` and `sc_run`, which differ in what provides
// threads, wake-ups and the channel.
use std::collections::BTreeSet;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool as StdBool, AtomicUsize as StdUsize, Ordering::SeqCst};
use std::sync::{Arc as StdArc, Mutex as StdMutex};
use std::task::{Context, Poll};

use futures::future::poll_fn;
use futures::{SinkExt, Stream};
use mc_engine::{bad, log, outcome, tick_steps, R};

use crate::threads::{Op, Prog, Rx};

struct Shared {
    bad: StdMutex<Option<(String, String)>>,
    dropped: StdUsize,
    created: StdUsize,
    /// sends completed, receives begun
    accepted: StdUsize,
    begun: StdUsize,
    closing: StdBool,
}

impl Shared {
    fn bad(&self, sig: &str, msg: String) {
        let mut b = self.bad.lock().unwrap();
        if b.is_none() {
            *b = Some((sig.to_string(), msg));
        }
    }
}

struct Msg {
    id: usize,
    body: UnsafeCell<usize>,
    sh: StdArc<Shared>,
}

impl Msg {
    fn new(id: usize, sh: &StdArc<Shared>) -> Self {
        sh.created.fetch_add(1, SeqCst);
        let m = Msg { id, body: UnsafeCell::new(0), sh: sh.clone() };
        m.body.with_mut(|p| unsafe { *p = id + 1000 });
        m
    }
    fn open(self) -> usize {
        let v = self.body.with(|p| unsafe { *p });
        if v != self.id + 1000 {
            self.sh.bad("corrupt", format!("message {} arrived as {}", self.id, v));
        }
        self.id
    }
}

impl Drop for Msg {
    fn drop(&mut self) {
        self.sh.dropped.fetch_add(1, SeqCst);
    }
}

enum Tx {
    B(Sender<Msg>),
    U(UnboundedSender<Msg>),
}

enum Rc {
    B(Receiver<Msg>),
    U(UnboundedReceiver<Msg>),
}

impl Tx {
    fn dup(&self) -> Tx {
        match self {
            Tx::B(t) => Tx::B(t.clone()),
            Tx::U(t) => Tx::U(t.clone()),
        }
    }
    fn poll_ready(&self, cx: &mut Context<'_>) -> Poll<bool> {
        match self {
            Tx::B(t) => t.poll_ready(cx).map(|r| r.is_ok()),
            Tx::U(t) => t.poll_ready(cx).map(|r| r.is_ok()),
        }
    }
    /// Ok, or Err(disconnected?)
    fn start(&self, m: Msg, urgent: bool) -> Result<(), bool> {
        match (self, urgent) {
            (Tx::B(t), false) => t.start_send(m).map_err(|e| e.is_disconnected()),
            (Tx::B(t), true) => t.start_quick_send(m).map_err(|e| e.is_disconnected()),
            (Tx::U(t), false) => t.start_send(m).map_err(|e| e.is_disconnected()),
            (Tx::U(t), true) => t.start_quick_send(m).map_err(|e| e.is_disconnected()),
        }
    }
    fn attempt(&self, m: Msg, urgent: bool) -> Result<(), bool> {
        match (self, urgent) {
            (Tx::B(t), false) => t.try_send(m).map_err(|e| e.is_disconnected()),
            (Tx::B(t), true) => t.try_quick_send(m).map_err(|e| e.is_disconnected()),
            (Tx::U(t), false) => t.unbounded_send(m).map_err(|e| e.is_disconnected()),
            (Tx::U(t), true) => t.unbounded_quick_send(m).map_err(|e| e.is_disconnected()),
        }
    }
    fn send(&mut self, m: Msg, urgent: bool) -> bool {
        match (self, urgent) {
            (Tx::B(t), false) => block_on(t.send(m)).is_ok(),
            (Tx::B(t), true) => block_on(t.quick_send(m)).is_ok(),
            (Tx::U(t), false) => block_on(t.send(m)).is_ok(),
            (Tx::U(t), true) => block_on(t.quick_send(m)).is_ok(),
        }
    }
    fn close(&mut self) {
        match self {
            Tx::B(t) => t.close_channel(),
            Tx::U(t) => t.close_channel(),
        }
    }
}

impl Rc {
    fn poll_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<(bool, Msg)>> {
        let r = match self {
            Rc::B(r) => Pin::new(r).poll_next(cx),
            Rc::U(r) => Pin::new(r).poll_next(cx),
        };
        r.map(|o| o.map(|(p, m)| (p == Priority::High, m)))
    }
    fn close(&mut self) {
        match self {
            Rc::B(r) => r.close(),
            Rc::U(r) => r.close(),
        }
    }
}

struct Receiving {
    rc: Rc,
    sh: StdArc<Shared>,
    done: Option<Arc<AtomicUsize>>,
    got: Vec<usize>,
    class: Vec<bool>,
}

impl Receiving {
    fn recv(&mut self) -> bool {
        let Receiving { rc, sh, done, got, class } = self;
        sh.begun.fetch_add(1, SeqCst);
        let r = block_on(poll_fn(|cx| {
            let seen = done.as_ref().map(|d| d.load(Ordering::Acquire)).unwrap_or(0);
            match rc.poll_next(cx) {
                Poll::Ready(Some((urgent, m))) => {
                    let id = m.open();
                    if !urgent {
                        for u in 0..usize::BITS as usize {
                            if seen & (1 << u) != 0 && !got.contains(&u) {
                                sh.bad(
                                    "urgent-waits",
                                    format!("normal message {} taken while urgent message {} was waiting", id, u),
                                );
                            }
                        }
                    }
                    Poll::Ready(Some((urgent, id)))
                }
                Poll::Ready(None) => Poll::Ready(None),
                Poll::Pending => Poll::Pending,
            }
        }));
        match r {
            Some((u, id)) => {
                got.push(id);
                class.push(u);
                true
            }
            None => {
                sh.begun.fetch_sub(1, SeqCst);
                false
            }
        }
    }
}

fn sender(
    s: usize,
    mut tx: Tx,
    ops: &[Op],
    sh: &StdArc<Shared>,
    done: &Option<Arc<AtomicUsize>>,
    bound: Option<usize>,
) -> (Vec<(usize, bool, bool)>, Tx) {
    let mut out = Vec::new();
    for (i, op) in ops.iter().enumerate() {
        let id = s * 8 + i;
        let fin = |r: bool, urgent: bool, out: &mut Vec<(usize, bool, bool)>| {
            if r {
                let acc = sh.accepted.fetch_add(1, SeqCst) + 1;
                let begun = sh.begun.load(SeqCst);
                if let Some(b) = bound {
                    if !sh.closing.load(SeqCst) && acc > begun + b {
                        sh.bad("over-capacity", format!("{} messages accepted, {} receives begun, bound {}", acc, begun, b));
                    }
                }
                if urgent {
                    if let Some(d) = done {
                        d.fetch_or(1 << id, Ordering::Release);
                    }
                }
            }
            out.push((id, urgent, r));
        };
        match *op {
            Op::Put(u) => {
                let ready = block_on(poll_fn(|cx| tx.poll_ready(cx)));
                let r = ready
                    && match tx.start(Msg::new(id, sh), u) {
                        Ok(()) => true,
                        Err(dis) => {
                            if !dis {
                                sh.bad("ready-then-full", format!("message {}: refused as full after poll_ready said ready", id));
                            }
                            false
                        }
                    };
                fin(r, u, &mut out);
            }
            Op::Send(u) => {
                let r = tx.send(Msg::new(id, sh), u);
                fin(r, u, &mut out);
            }
            Op::Try(u) => {
                let r = tx.attempt(Msg::new(id, sh), u).is_ok();
                fin(r, u, &mut out);
            }
            Op::Via(u) => {
                let t = tx.dup();
                let r = t.attempt(Msg::new(id, sh), u).is_ok();
                fin(r, u, &mut out);
            }
            Op::Close => {
                sh.closing.store(true, SeqCst);
                tx.close()
            }
        }
    }
    (out, tx)
}

type Sent = Vec<(usize, bool, bool)>;

/// Wait for the senders; those that are still there must learn that the channel is closed.
fn join(hs: &mut Vec<JoinHandle<(Sent, Option<Tx>)>>, sent: &mut Sent, sh: &StdArc<Shared>) {
    for h in hs.drain(..) {
        let (out, tx) = h.join().unwrap();
        sent.extend(out);
        if let Some(tx) = tx {
            for urgent in [false, true].iter() {
                match tx.attempt(Msg::new(99, sh), *urgent) {
                    Err(true) => {}
                    r => sh.bad("send-after-close", format!("a send after the receiver had closed gave {:?}", r)),
                }
            }
        }
    }
}

struct Once {
    outcome: String,
    bad: Option<(String, String)>,
}

fn one(p: &Prog) -> Once {
    let sh = StdArc::new(Shared {
        bad: StdMutex::new(None),
        dropped: StdUsize::new(0),
        created: StdUsize::new(0),
        accepted: StdUsize::new(0),
        begun: StdUsize::new(0),
        closing: StdBool::new(false),
    });
    let done = if p.urgent { Some(Arc::new(AtomicUsize::new(0))) } else { None };
    let (tx, rc) = match p.buffer {
        Some(b) => {
            let (t, r) = channel(b);
            (Tx::B(t), Rc::B(r))
        }
        None => {
            let (t, r) = unbounded();
            (Tx::U(t), Rc::U(r))
        }
    };
    let clones: usize = p.senders.iter().map(|o| o.iter().filter(|o| matches!(o, Op::Via(_))).count()).sum();
    let bound = p.buffer.map(|b| b + p.senders.len() + clones);
    let mut txs = vec![tx];
    for _ in 1..p.senders.len() {
        let t = txs[0].dup();
        txs.push(t);
    }
    // senders that outlive the receiver are asked once more in the end
    // (loom gives SeqCst only the strength of AcqRel, too little to judge this)
    let keep = SEQ_CST && matches!(p.rx, Rx::TakeClose(_) | Rx::CloseJoin(_) | Rx::TakeDrop(_));
    let mut hs = Vec::new();
    for (s, tx) in txs.into_iter().enumerate() {
        let ops = p.senders[s].clone();
        let sh = sh.clone();
        let done = done.clone();
        hs.push(spawn(move || {
            let (sent, tx) = sender(s, tx, &ops, &sh, &done, bound);
            (sent, if keep { Some(tx) } else { None })
        }));
    }
    let mut r = Receiving { rc, sh: sh.clone(), done, got: vec![], class: vec![] };
    let mut sent = Vec::new();
    let mut drained = true;
    match p.rx {
        Rx::Drain => while r.recv() {},
        Rx::TakeJoin(n) => {
            for _ in 0..n {
                r.recv();
            }
            join(&mut hs, &mut sent, &sh);
            while r.recv() {}
        }
        Rx::TakePause(n) => {
            for _ in 0..n {
                r.recv();
            }
            yield_now();
            while r.recv() {}
        }
        Rx::TakeClose(n) => {
            for _ in 0..n {
                r.recv();
            }
            sh.closing.store(true, SeqCst);
            r.rc.close();
            while r.recv() {}
        }
        Rx::CloseJoin(n) => {
            for _ in 0..n {
                r.recv();
            }
            sh.closing.store(true, SeqCst);
            r.rc.close();
            join(&mut hs, &mut sent, &sh);
            while r.recv() {}
        }
        Rx::TakeDrop(n) => {
            for _ in 0..n {
                if !r.recv() {
                    break;
                }
            }
            sh.closing.store(true, SeqCst);
            drained = false;
        }
    }
    let Receiving { rc, got, class, .. } = r;
    drop(rc);
    join(&mut hs, &mut sent, &sh);
    // the sink's send also waits for room after handing the message over, so that an error can
    // follow an accepted message; only there may a message whose send failed arrive
    let waits = |id: usize| matches!(p.senders[id / 8][id % 8], Op::Send(_));
    let mut seen = BTreeSet::new();
    for (k, id) in got.iter().enumerate() {
        if !seen.insert(*id) {
            sh.bad("duplicate", format!("message {} received twice", id));
        }
        match sent.iter().find(|s| s.0 == *id) {
            None => sh.bad("invented", format!("message {} was never sent", id)),
            Some(s) => {
                if s.1 != class[k] {
                    sh.bad("class", format!("message {} sent urgent={} arrived urgent={}", id, s.1, class[k]));
                }
                if !s.2 && !waits(*id) {
                    sh.bad("refused-but-delivered", format!("message {} was refused, yet received", id));
                }
            }
        }
    }
    for (k, a) in got.iter().enumerate() {
        for (j, b) in got.iter().enumerate().skip(k + 1) {
            if a / 8 == b / 8 && class[k] == class[j] && a > b {
                sh.bad("order", format!("messages {} and {} of one sender and class swapped: {:?}", a, b, got));
            }
        }
    }
    if drained {
        for s in &sent {
            if s.2 && !seen.contains(&s.0) {
                sh.bad("lost", format!("message {} was accepted and never received; received {:?}", s.0, got));
            }
        }
        if !sh.closing.load(SeqCst) {
            for s in &sent {
                let single = matches!(p.senders[s.0 / 8][s.0 % 8], Op::Try(_) | Op::Via(_));
                if !s.2 && !(single && p.buffer.is_some()) {
                    sh.bad("refused-open", format!("message {} refused although the channel stayed open", s.0));
                }
            }
        }
    }
    let (c, d) = (sh.created.load(SeqCst), sh.dropped.load(SeqCst));
    if c != d {
        sh.bad("leak", format!("{} messages created, {} dropped in the end", c, d));
    }
    let bad = sh.bad.lock().unwrap().take();
    sent.sort();
    Once { outcome: format!("{:?} got {:?}", sent.iter().map(|s| s.2 as u8).collect::<Vec<_>>(), got), bad }
}
