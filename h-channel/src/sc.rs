//! Threads of a closed program as coroutines under a scheduler of ours: every operation on a
//! synchronisation primitive is a scheduling point; switching away from a thread that could go
//! on costs one deviation, and which thread continues after one blocks, yields or ends is
//! enumerated freely.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

use futures::Future;
use generator::{Generator, Gn};
use mc_engine::{bad, choose, deviate, log, step, R};

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Ready,
    /// gave way: others go first
    Yielded,
    Join(usize),
    Lock(usize),
    Parked,
    Done,
}

struct Th {
    state: State,
    notified: bool,
}

#[derive(Default)]
struct Sched {
    ths: Vec<Th>,
    gens: Vec<Option<Generator<'static, (), ()>>>,
    fresh: Vec<(usize, Generator<'static, (), ()>)>,
    cur: usize,
    points: usize,
    stuck: bool,
    endless: bool,
    panic: Option<String>,
    active: bool,
}

thread_local! {
    static S: RefCell<Sched> = RefCell::new(Sched::default());
}

const MAX_POINTS: usize = 20_000;

fn active() -> bool {
    S.with(|s| s.borrow().active)
}

fn enabled(s: &Sched) -> Vec<usize> {
    (0..s.ths.len())
        .filter(|i| match s.ths[*i].state {
            State::Ready => true,
            State::Join(t) => s.ths[t].state == State::Done,
            _ => false,
        })
        .collect()
}

fn switch() {
    generator::yield_with(());
}

/// Before every operation on shared state.
pub fn point() {
    if !active() {
        return;
    }
    step();
    let (me, others, over) = S.with(|s| {
        let mut s = s.borrow_mut();
        s.points += 1;
        let me = s.cur;
        // whoever gave way to us may be considered again
        for t in s.ths.iter_mut() {
            if t.state == State::Yielded {
                t.state = State::Ready;
            }
        }
        let e: Vec<usize> = enabled(&s).into_iter().filter(|i| *i != me).collect();
        (me, e, s.points > MAX_POINTS)
    });
    if over {
        S.with(|s| s.borrow_mut().endless = true);
        switch();
        unreachable!();
    }
    let k = deviate(1 + others.len(), "preempt");
    if k > 0 {
        let to = others[k - 1];
        log(|| format!("thread {} preempted by {}", me, to));
        S.with(|s| s.borrow_mut().cur = to);
        switch();
    }
}

/// The current thread cannot go on in state `st`.
fn away(st: State) {
    let (e, me) = S.with(|s| {
        let mut s = s.borrow_mut();
        s.points += 1;
        let me = s.cur;
        s.ths[me].state = st;
        if s.points > MAX_POINTS {
            s.endless = true;
        }
        (enabled(&s), me)
    });
    if S.with(|s| s.borrow().endless) {
        switch();
        unreachable!();
    }
    let to = if e.is_empty() {
        // only threads that gave way are left?
        let y: Vec<usize> = S.with(|s| {
            let s = s.borrow();
            (0..s.ths.len()).filter(|i| s.ths[*i].state == State::Yielded).collect()
        });
        match y.len() {
            0 => None,
            n => Some(y[choose(n, "next")]),
        }
    } else {
        Some(e[choose(e.len(), "next")])
    };
    match to {
        Some(t) => {
            log(|| format!("thread {} {:?}, thread {} goes on", me, st, t));
            S.with(|s| {
                let mut s = s.borrow_mut();
                s.ths[t].state = State::Ready;
                s.cur = t;
            });
            if t != me && st != State::Done {
                switch();
            }
        }
        None => {
            let all = S.with(|s| s.borrow().ths.iter().all(|t| t.state == State::Done));
            if !all {
                S.with(|s| s.borrow_mut().stuck = true);
            }
            if st != State::Done {
                switch();
            }
        }
    }
}

pub fn yield_now() {
    if active() {
        away(State::Yielded)
    }
}

/// Run `main` as thread 0 to the end of all threads.
pub fn run(main: impl FnOnce() + 'static) -> R<()> {
    S.with(|s| *s.borrow_mut() = Sched { active: true, ..Sched::default() });
    start(Box::new(main));
    loop {
        let (cur, mut g) = S.with(|s| {
            let mut s = s.borrow_mut();
            let fresh = std::mem::take(&mut s.fresh);
            for (i, g) in fresh {
                while s.gens.len() <= i {
                    s.gens.push(None);
                }
                s.gens[i] = Some(g);
            }
            let c = s.cur;
            (c, s.gens[c].take().unwrap())
        });
        g.resume();
        let end = S.with(|s| {
            let mut s = s.borrow_mut();
            s.gens[cur] = Some(g);
            s.stuck || s.endless || s.panic.is_some() || s.ths.iter().all(|t| t.state == State::Done)
        });
        if end {
            break;
        }
    }
    let s = S.with(|s| std::mem::take(&mut *s.borrow_mut()));
    let states: Vec<State> = s.ths.iter().map(|t| t.state).collect();
    let fine = !s.stuck && !s.endless && s.panic.is_none();
    if fine {
        drop(s.gens);
    } else {
        // their stacks hold half-finished operations; never unwind them
        std::mem::forget(s.gens);
        std::mem::forget(s.fresh);
    }
    if let Some(p) = s.panic {
        return bad("panic", p);
    }
    if s.stuck {
        return bad("stuck", format!("no thread can go on: {:?}", states));
    }
    if s.endless {
        return bad("endless", format!("no end after {} operations: {:?}", MAX_POINTS, states));
    }
    Ok(())
}

fn start(f: Box<dyn FnOnce()>) -> usize {
    struct Send_(Box<dyn FnOnce()>);
    unsafe impl Send for Send_ {}
    let id = S.with(|s| {
        let mut s = s.borrow_mut();
        s.ths.push(Th { state: State::Ready, notified: false });
        s.ths.len() - 1
    });
    let f = Send_(f);
    let g = Gn::new_opt(0x4000, move || {
        let f = f;
        let r = catch_unwind(AssertUnwindSafe(move || {
            let f = f;
            (f.0)()
        }));
        if let Err(e) = r {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            S.with(|s| s.borrow_mut().panic = Some(m));
            return;
        }
        away(State::Done);
    });
    S.with(|s| s.borrow_mut().fresh.push((id, g)));
    id
}

pub struct JoinHandle<T> {
    id: usize,
    out: Arc<std::sync::Mutex<Option<T>>>,
}

pub fn spawn<T: 'static>(f: impl FnOnce() -> T + 'static) -> JoinHandle<T> {
    let out = Arc::new(std::sync::Mutex::new(None));
    let o = out.clone();
    let id = start(Box::new(move || {
        let r = f();
        *o.lock().unwrap() = Some(r);
    }));
    point();
    JoinHandle { id, out }
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T, ()> {
        let done = S.with(|s| s.borrow().ths[self.id].state == State::Done);
        if !done {
            away(State::Join(self.id));
        }
        let r = self.out.lock().unwrap().take();
        r.ok_or(())
    }
}

struct Unpark(usize);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        S.with(|s| {
            let mut s = s.borrow_mut();
            if let Some(t) = s.ths.get_mut(self.0) {
                t.notified = true;
                if t.state == State::Parked {
                    t.state = State::Ready;
                }
            }
        })
    }
}

pub fn block_on<F: Future>(f: F) -> F::Output {
    let me = S.with(|s| s.borrow().cur);
    let w = Waker::from(Arc::new(Unpark(me)));
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    loop {
        S.with(|s| s.borrow_mut().ths[me].notified = false);
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        let woken = S.with(|s| s.borrow().ths[me].notified);
        if !woken {
            away(State::Parked);
        }
    }
}

/// Blocking on a lock and its release.
pub fn lock_wait(addr: usize) {
    away(State::Lock(addr))
}

pub fn lock_free(addr: usize) {
    if !active() {
        return;
    }
    S.with(|s| {
        for t in s.borrow_mut().ths.iter_mut() {
            if t.state == State::Lock(addr) {
                t.state = State::Ready;
            }
        }
    })
}
