//! Controlled single-threaded executor.  Only woken tasks are polled, so a lost
//! wake-up shows as a stall; which ready task runs next is a choice point; the
//! clock is virtual and advances only when the explorer says so.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

use crate::{deviate, log, step};

pub type TaskId = usize;

struct Ready {
    queue: VecDeque<TaskId>,
    queued: Vec<bool>,
    /// tasks demoted by a deviation: they run only when nothing else can
    slow: VecDeque<TaskId>,
    is_slow: Vec<bool>,
}

impl Ready {
    fn push(&mut self, id: TaskId) {
        self.queued[id] = true;
        if self.is_slow[id] {
            self.slow.push_back(id)
        } else {
            self.queue.push_back(id)
        }
    }
}

struct TaskWaker {
    id: TaskId,
    ready: Arc<Mutex<Ready>>,
}

impl TaskWaker {
    fn wake(&self) {
        let mut r = self.ready.lock().unwrap();
        if self.id < r.queued.len() && !r.queued[self.id] {
            r.push(self.id);
        }
    }
}

// A waker that compares equal for the same task (`will_wake`), like a real executor's.
static VTABLE: RawWakerVTable = RawWakerVTable::new(
    |p| unsafe {
        Arc::increment_strong_count(p as *const TaskWaker);
        RawWaker::new(p, &VTABLE)
    },
    |p| unsafe { Arc::from_raw(p as *const TaskWaker).wake() },
    |p| unsafe { (*(p as *const TaskWaker)).wake() },
    |p| unsafe { drop(Arc::from_raw(p as *const TaskWaker)) },
);

fn make_waker(w: Arc<TaskWaker>) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(w) as *const (), &VTABLE)) }
}

struct Slot {
    name: String,
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    waker: Waker,
    done: bool,
    daemon: bool,
    polls: u64,
    /// woken while it was running (a callback of it blocks)
    rewake: bool,
}

struct Inner {
    slots: Vec<Slot>,
    ready: Arc<Mutex<Ready>>,
    steps: u64,
    at_step: Vec<(u64, Box<dyn FnOnce()>)>,
}

#[derive(Clone, Copy)]
pub struct Clock {
    pub now: fn() -> u64,
    pub next: fn() -> Option<u64>,
    pub advance_to: fn(u64),
}

thread_local! {
    static EXEC: RefCell<Option<Inner>> = const { RefCell::new(None) };
    static CLOCK: Cell<Option<Clock>> = const { Cell::new(None) };
    static CURRENT: Cell<usize> = const { Cell::new(usize::MAX) };
    static PREEMPT: Cell<bool> = const { Cell::new(false) };
    static OPTS: Cell<Opts> = const { Cell::new(PLAIN) };
}

/// Start a fresh executor on this thread.
pub fn reset(clock: Option<Clock>) {
    teardown();
    CLOCK.with(|c| c.set(clock));
    EXEC.with(|e| {
        *e.borrow_mut() = Some(Inner {
            slots: Vec::new(),
            ready: Arc::new(Mutex::new(Ready {
                queue: VecDeque::new(),
                queued: Vec::new(),
                slow: VecDeque::new(),
                is_slow: Vec::new(),
            })),
            steps: 0,
            at_step: Vec::new(),
        })
    });
}

/// Drop all tasks.
pub fn teardown() {
    CURRENT.with(|c| c.set(usize::MAX));
    loop {
        let f = EXEC.with(|e| {
            let mut e = e.borrow_mut();
            let inner = e.as_mut()?;
            for s in inner.slots.iter_mut() {
                if let Some(f) = s.fut.take() {
                    s.done = true;
                    return Some(f);
                }
            }
            None
        });
        match f {
            Some(f) => drop(f),
            None => break,
        }
    }
    let i = EXEC.with(|e| e.borrow_mut().take());
    drop(i);
}

pub struct Handle<T> {
    res: Rc<RefCell<Option<T>>>,
    waker: Rc<RefCell<Option<Waker>>>,
    pub id: TaskId,
}

impl<T> Handle<T> {
    pub fn is_done(&self) -> bool {
        self.res.borrow().is_some()
    }
    pub fn take(&self) -> Option<T> {
        self.res.borrow_mut().take()
    }
}

impl<T> Future for Handle<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<T> {
        if let Some(r) = self.res.borrow_mut().take() {
            return Poll::Ready(r);
        }
        *self.waker.borrow_mut() = Some(cx.waker().clone());
        Poll::Pending
    }
}

pub fn spawn<F>(name: impl Into<String>, f: F) -> Handle<F::Output>
where
    F: Future + 'static,
{
    spawn_inner(name.into(), f, false)
}

/// A task that may legitimately stay blocked at the end.
pub fn spawn_daemon<F>(name: impl Into<String>, f: F) -> Handle<F::Output>
where
    F: Future + 'static,
{
    spawn_inner(name.into(), f, true)
}

fn spawn_inner<F>(name: String, f: F, daemon: bool) -> Handle<F::Output>
where
    F: Future + 'static,
{
    let res = Rc::new(RefCell::new(None));
    let waker: Rc<RefCell<Option<Waker>>> = Rc::new(RefCell::new(None));
    let (r2, w2) = (res.clone(), waker.clone());
    let fut = async move {
        let out = f.await;
        *r2.borrow_mut() = Some(out);
        if let Some(w) = w2.borrow_mut().take() {
            w.wake();
        }
    };
    let id = EXEC.with(|e| {
        let mut e = e.borrow_mut();
        let e = e.as_mut().expect("no executor");
        let id = e.slots.len();
        {
            let mut r = e.ready.lock().unwrap();
            r.queued.push(true);
            r.is_slow.push(false);
            r.queue.push_back(id);
        }
        let waker = make_waker(Arc::new(TaskWaker {
            id,
            ready: e.ready.clone(),
        }));
        e.slots.push(Slot {
            name,
            fut: Some(Box::pin(fut)),
            waker,
            done: false,
            daemon,
            polls: 0,
            rewake: false,
        });
        id
    });
    Handle { res, waker, id }
}

/// Cancel a task: its future is dropped.
pub fn abort(id: TaskId) {
    let f = EXEC.with(|e| {
        let mut e = e.borrow_mut();
        let s = &mut e.as_mut().unwrap().slots[id];
        s.done = true;
        s.fut.take()
    });
    drop(f);
}

/// Run `f` right before scheduling step number `n` (1-based).
pub fn at_step(n: u64, f: impl FnOnce() + 'static) {
    EXEC.with(|e| {
        e.borrow_mut()
            .as_mut()
            .unwrap()
            .at_step
            .push((n, Box::new(f)))
    })
}

pub fn steps() -> u64 {
    EXEC.with(|e| e.borrow().as_ref().map(|e| e.steps).unwrap_or(0))
}

pub fn now() -> u64 {
    CLOCK.with(|c| c.get()).map(|c| (c.now)()).unwrap_or(0)
}

/// Names of tasks that have neither finished nor are daemons.
pub fn unfinished() -> Vec<String> {
    EXEC.with(|e| {
        e.borrow()
            .as_ref()
            .map(|e| {
                e.slots
                    .iter()
                    .filter(|s| !s.done && !s.daemon)
                    .map(|s| s.name.clone())
                    .collect()
            })
            .unwrap_or_default()
    })
}

/// Names of all live tasks, daemons included.
pub fn live() -> Vec<String> {
    EXEC.with(|e| {
        e.borrow()
            .as_ref()
            .map(|e| {
                e.slots
                    .iter()
                    .filter(|s| !s.done)
                    .map(|s| s.name.clone())
                    .collect()
            })
            .unwrap_or_default()
    })
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum End {
    /// nothing can run any more and no timer is due before the horizon
    Idle,
    /// step bound hit: the system did not come to rest
    Steps,
    /// the `until` condition became true
    Until,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub max_steps: u64,
    /// absolute virtual time up to which timers may fire
    pub horizon: u64,
    /// explore orders of ready tasks
    pub sched: bool,
    /// explore timers firing while tasks are ready
    pub early_timers: bool,
    /// explore demoting a ready task: from then on it runs only when nothing else can
    pub starve: bool,
    /// explore interrupting a task in the middle of its poll (see `preempt`)
    pub preempt: bool,
}

const PLAIN: Opts = Opts {
    max_steps: 20_000,
    horizon: 0,
    sched: true,
    early_timers: false,
    starve: false,
    preempt: false,
};

impl Default for Opts {
    fn default() -> Self {
        PLAIN
    }
}

pub const SEC: u64 = 1_000_000_000;
pub const MS: u64 = 1_000_000;

pub fn run(o: Opts) -> End {
    run_until(o, || false)
}

pub fn run_until(o: Opts, mut until: impl FnMut() -> bool) -> End {
    let clock = CLOCK.with(|c| c.get());
    let ready = EXEC.with(|e| e.borrow().as_ref().expect("no executor").ready.clone());
    let start = steps();
    let outer = OPTS.with(|c| c.replace(o));
    let _restore = Restore(outer);
    loop {
        if crate::explore::failed() || until() {
            return End::Until;
        }
        // scheduled actions
        loop {
            let act = EXEC.with(|e| {
                let mut e = e.borrow_mut();
                let e = e.as_mut().unwrap();
                let n = e.steps + 1;
                e.at_step
                    .iter()
                    .position(|(k, _)| *k <= n)
                    .map(|i| e.at_step.remove(i).1)
            });
            match act {
                Some(f) => f(),
                None => break,
            }
        }
        let n = {
            let mut r = ready.lock().unwrap();
            if r.queue.is_empty() {
                if let Some(id) = r.slow.pop_front() {
                    r.queue.push_back(id);
                }
            }
            r.queue.len()
        };
        let due = clock.and_then(|c| (c.next)()).filter(|t| *t <= o.horizon);
        if n == 0 {
            // pending scheduled actions happen before time moves
            let act = EXEC.with(|e| {
                let mut e = e.borrow_mut();
                let e = e.as_mut().unwrap();
                if e.at_step.is_empty() {
                    None
                } else {
                    let i = (0..e.at_step.len())
                        .min_by_key(|i| e.at_step[*i].0)
                        .unwrap();
                    Some(e.at_step.remove(i).1)
                }
            });
            if let Some(f) = act {
                f();
                continue;
            }
            match due {
                Some(t) => {
                    log(|| format!("-- time {} ms", t / MS));
                    step();
                    (clock.unwrap().advance_to)(t);
                    continue;
                }
                None => return End::Idle,
            }
        }
        let early = (o.early_timers && due.is_some()) as usize;
        let starve = (o.starve && n > 1) as usize;
        let k = if o.sched {
            deviate(n + early + starve, "sched")
        } else {
            0
        };
        if k >= n + early {
            let mut r = ready.lock().unwrap();
            let id = r.queue.pop_front().unwrap();
            r.is_slow[id] = true;
            r.slow.push_back(id);
            continue;
        }
        if k == n {
            let t = due.unwrap();
            log(|| format!("-- time {} ms (early)", t / MS));
            (clock.unwrap().advance_to)(t);
            continue;
        }
        let id = {
            let mut r = ready.lock().unwrap();
            let id = r.queue.remove(k).unwrap();
            r.queued[id] = false;
            id
        };
        poll_task(id);
        if steps() - start > o.max_steps {
            return End::Steps;
        }
    }
}

struct Restore(Opts);

impl Drop for Restore {
    fn drop(&mut self) {
        OPTS.with(|c| c.set(self.0))
    }
}

/// Block the running task, in the middle of its poll, until `cond` holds: every other
/// task goes on.  Returns whether it held; if everything comes to rest first the block
/// ends anyway.
pub fn block_until(cond: impl FnMut() -> bool) -> bool {
    let o = OPTS.with(|c| c.get());
    let me = CURRENT.with(|c| c.get());
    log(|| format!("   task #{} blocks", me));
    let end = run_until(o, cond);
    CURRENT.with(|c| c.set(me));
    log(|| format!("   task #{} goes on", me));
    end == End::Until
}

/// From here on explore interrupting tasks in the middle of their polls (each execution
/// starts without).
pub fn interrupt(on: bool) {
    PREEMPT.with(|c| c.set(on))
}

/// A place at which other threads could run in the middle of a poll.  One of the ready
/// tasks runs once, or all others run until nothing is ready.
pub fn preempt() {
    let me = CURRENT.with(|c| c.get());
    let on = PREEMPT.with(|c| c.get()) || OPTS.with(|c| c.get()).preempt;
    if !on || me == usize::MAX || std::thread::panicking() {
        return;
    }
    let ready = EXEC.try_with(|e| {
        e.try_borrow()
            .ok()
            .and_then(|e| e.as_ref().map(|e| e.ready.clone()))
    });
    let ready = match ready {
        Ok(Some(r)) => r,
        _ => return,
    };
    let others: Vec<TaskId> = {
        let r = ready.lock().unwrap();
        let runs = |id: &TaskId| {
            EXEC.with(|e| {
                let e = e.borrow();
                let s = &e.as_ref().unwrap().slots[*id];
                !s.done && s.fut.is_some()
            })
        };
        r.queue.iter().copied().filter(runs).collect()
    };
    if others.is_empty() {
        return;
    }
    let m = others.len().min(2);
    let k = deviate(m + 2, "preempt");
    if k == 0 {
        return;
    }
    log(|| format!("   task #{} is interrupted", me));
    let next = || {
        let mut r = ready.lock().unwrap();
        let at = r.queue.iter().position(|id| {
            EXEC.with(|e| {
                let e = e.borrow();
                let s = &e.as_ref().unwrap().slots[*id];
                !s.done && s.fut.is_some()
            })
        })?;
        let id = r.queue.remove(at).unwrap();
        r.queued[id] = false;
        Some(id)
    };
    if k <= m {
        {
            let mut r = ready.lock().unwrap();
            r.queue.retain(|id| *id != others[k - 1]);
            r.queued[others[k - 1]] = false;
        }
        poll_task(others[k - 1]);
    } else {
        for _ in 0..500 {
            match next() {
                Some(id) => poll_task(id),
                None => break,
            }
        }
    }
    CURRENT.with(|c| c.set(me));
    log(|| format!("   task #{} goes on", me));
}

fn poll_task(id: TaskId) {
    let t = EXEC.with(|e| {
        let mut e = e.borrow_mut();
        let e = e.as_mut().unwrap();
        e.steps += 1;
        let s = &mut e.slots[id];
        if s.done {
            return None;
        }
        s.polls += 1;
        let f = match s.fut.take() {
            Some(f) => f,
            None => {
                s.rewake = true;
                return None;
            }
        };
        Some((f, s.waker.clone(), s.name.clone()))
    });
    if let Some((mut f, w, name)) = t {
        step();
        log(|| format!("poll {}#{}", name, id));
        let outer = CURRENT.with(|c| c.replace(id));
        let mut cx = Context::from_waker(&w);
        let r = f.as_mut().poll(&mut cx);
        CURRENT.with(|c| c.set(outer));
        match r {
            Poll::Pending => {
                let dropped = EXEC.with(|e| {
                    let mut e = e.borrow_mut();
                    let s = &mut e.as_mut().unwrap().slots[id];
                    if s.done {
                        Some(f)
                    } else {
                        s.fut = Some(f);
                        if std::mem::take(&mut s.rewake) {
                            s.waker.wake_by_ref();
                        }
                        None
                    }
                });
                drop(dropped);
            }
            Poll::Ready(()) => {
                EXEC.with(|e| e.borrow_mut().as_mut().unwrap().slots[id].done = true);
                log(|| format!("   {}#{} finished", name, id));
                drop(f);
            }
        }
    }
}

/// Yield once to the scheduler.
pub async fn yield_now() {
    struct Y(bool);
    impl Future for Y {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
            if self.0 {
                Poll::Ready(())
            } else {
                self.0 = true;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    }
    Y(false).await
}

/// A shared flag that tasks can wait for.
#[derive(Clone, Default)]
pub struct Event(Rc<RefCell<(bool, Vec<Waker>)>>);

impl Event {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set(&self) {
        let ws = {
            let mut s = self.0.borrow_mut();
            s.0 = true;
            std::mem::take(&mut s.1)
        };
        for w in ws {
            w.wake();
        }
    }
    pub fn is_set(&self) -> bool {
        self.0.borrow().0
    }
    pub fn wait(&self) -> EventWait {
        EventWait(self.clone())
    }
}

pub struct EventWait(Event);

impl Future for EventWait {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        let mut s = (self.0).0.borrow_mut();
        if s.0 {
            Poll::Ready(())
        } else {
            s.1.push(cx.waker().clone());
            Poll::Pending
        }
    }
}

/// Poll a future once outside any task with a no-op waker.
pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> {
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    f.poll(&mut cx)
}

pub fn noop_waker() -> Waker {
    static VT: RawWakerVTable = RawWakerVTable::new(
        |_| RawWaker::new(std::ptr::null(), &VT),
        |_| {},
        |_| {},
        |_| {},
    );
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}

#[allow(dead_code)]
fn _any(_: &dyn Any) {}
