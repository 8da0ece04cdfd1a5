//! What a service is given to run: futures and the handlers' own polls.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use mc_engine::exec::{self, Opts, SEC};
use mc_engine::{bad, choose, Scenario, R};
use tentacle::service::ServiceControl;

use crate::duo::history_seen;
use crate::judge;
use crate::world::*;

const B: usize = 0;
const A: usize = 1;

fn rest(opts: Opts, secs: u64) -> R<()> {
    let end = exec::run(Opts {
        horizon: exec::now() + secs * SEC,
        ..opts
    });
    if end == exec::End::Steps {
        return bad("no-rest", "the services do not come to rest");
    }
    Ok(())
}

#[derive(Default)]
struct Bell(RefCell<(bool, Vec<Waker>)>);

impl Bell {
    fn ring(&self) {
        let all = {
            let mut b = self.0.borrow_mut();
            b.0 = true;
            std::mem::take(&mut b.1)
        };
        all.into_iter().for_each(|w| w.wake())
    }
}

/// Futures given to a service must be `Send`; everything runs on one thread here.
struct Local<T>(T);

unsafe impl<T> Send for Local<T> {}

impl<F: Future> Future for Local<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<F::Output> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}

struct Alive(Arc<AtomicUsize>);

impl Drop for Alive {
    fn drop(&mut self) {
        self.0.fetch_sub(1, Ordering::SeqCst);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// ready at once
    Now,
    /// gives way a few times
    Yield,
    Timer,
    /// waits for the driver
    Bell,
    Never,
    /// hands in another one
    Chain,
    Panic,
    /// more than the queues hold
    Many,
    /// as many that have no end
    Waiting,
    Ring,
    Disc,
    Close,
    Shutdown,
}

const OPS: &[Op] = &[
    Op::Now,
    Op::Yield,
    Op::Timer,
    Op::Bell,
    Op::Never,
    Op::Chain,
    Op::Panic,
    Op::Many,
    Op::Waiting,
    Op::Ring,
    Op::Disc,
    Op::Close,
    Op::Shutdown,
];

struct Work {
    ctl: ServiceControl,
    bell: Rc<Bell>,
    alive: Arc<AtomicUsize>,
    made: Cell<u64>,
    /// accepted and certain to end: numbers
    sure: RefCell<Vec<u64>>,
    never: Cell<usize>,
    panics: Cell<usize>,
    told: Cell<bool>,
    rung: Cell<bool>,
}

impl Work {
    fn give(self: &Rc<Work>, op: Op) {
        let n = self.made.get();
        self.made.set(n + 1);
        self.alive.fetch_add(1, Ordering::SeqCst);
        let alive = Alive(self.alive.clone());
        let me = self.clone();
        let bell = self.bell.clone();
        let fut = Local(async move {
            let _alive = alive;
            match op {
                Op::Yield => {
                    for _ in 0..3 {
                        exec::yield_now().await
                    }
                }
                Op::Timer => tentacle::runtime::delay_for(Duration::from_secs(1)).await,
                Op::Bell => {
                    futures::future::poll_fn(|cx| {
                        let mut b = bell.0.borrow_mut();
                        if b.0 {
                            return Poll::Ready(());
                        }
                        b.1.push(cx.waker().clone());
                        Poll::Pending
                    })
                    .await
                }
                Op::Never => futures::future::pending::<()>().await,
                Op::Chain => me.give(Op::Yield),
                Op::Panic => {
                    emit(A, Ev::Task(n));
                    panic!("planned")
                }
                _ => (),
            }
            emit(A, Ev::Task(n));
        });
        if self.ctl.future_task(fut).is_err() {
            return;
        }
        match op {
            Op::Never => self.never.set(self.never.get() + 1),
            Op::Panic => {
                self.panics.set(self.panics.get() + 1);
                self.sure.borrow_mut().push(n)
            }
            _ => self.sure.borrow_mut().push(n),
        }
    }
}

fn tasks(menu: &'static [Op], n: usize, gaps: usize, opts: Opts) -> R<()> {
    start(Default::default(), 0);
    let b = service(cfg(vec![proto(1, Kind::Both)]).listen(1));
    let a = service(cfg(vec![proto(1, Kind::Both)]));
    settle();
    drop(a.dial(addr(1), all()));
    settle();
    drop(b);
    let work = Rc::new(Work {
        ctl: a.ctl.clone(),
        bell: Rc::default(),
        alive: Arc::default(),
        made: Cell::new(0),
        sure: RefCell::default(),
        never: Cell::new(0),
        panics: Cell::new(0),
        told: Cell::new(false),
        rung: Cell::new(false),
    });
    let mut at = exec::steps();
    for i in 0..n {
        let op = menu[choose(menu.len(), "op")];
        let (work, a) = (work.clone(), a.clone());
        let go = move || {
            mc_engine::log(|| format!("=> {:?}", op));
            match op {
                Op::Ring => {
                    work.rung.set(true);
                    work.bell.ring()
                }
                Op::Disc => drop(a.disconnect(sid(1))),
                Op::Close => {
                    work.told.set(true);
                    drop(a.close())
                }
                Op::Shutdown => {
                    work.told.set(true);
                    drop(a.shutdown())
                }
                Op::Many => {
                    (0..700).for_each(|i| work.give(if i % 3 == 0 { Op::Yield } else { Op::Now }))
                }
                Op::Waiting => (0..700).for_each(|_| work.give(Op::Never)),
                op => work.give(op),
            }
        };
        if i == 0 {
            go()
        } else {
            at += choose(gaps, "gap") as u64;
            if at <= exec::steps() {
                go()
            } else {
                exec::at_step(at, go)
            }
        }
    }
    rest(opts, 5)?;
    let told = work.told.get();
    if !told && !work.rung.get() {
        // those waiting for the bell still wait
        work.bell.ring();
        rest(opts, 1)?;
    }
    history_seen();
    let l = log();
    let mut runs: BTreeMap<u64, usize> = BTreeMap::new();
    for e in &l {
        if let Ev::Task(k) = e.ev {
            *runs.entry(k).or_default() += 1
        }
    }
    if let Some((k, c)) = runs.iter().find(|r| *r.1 > 1) {
        return bad("twice", format!("future {} ended {} times", k, c));
    }
    if !told {
        if let Some(k) = work.sure.borrow().iter().find(|k| !runs.contains_key(k)) {
            return bad(
                "not-run",
                format!("future {} was accepted and has not ended", k),
            );
        }
        let left = work.alive.load(Ordering::SeqCst);
        if left != work.never.get() {
            return bad(
                "dropped",
                format!(
                    "{} futures have no end, {} are left",
                    work.never.get(),
                    left
                ),
            );
        }
        if panics().len() != work.panics.get() {
            return bad("task-panic", "another task panicked");
        }
        if judge::ended(&l, A) {
            return bad("ended", "the service ended although nobody stopped it");
        }
        // still able to run more
        let k = work.made.get();
        work.give(Op::Yield);
        rest(opts, 1)?;
        if count(|e| e.ev == Ev::Task(k)) != 1 {
            return bad("not-run", "a later future was not run");
        }
    } else {
        exec::run(Opts {
            sched: false,
            horizon: exec::now() + 30 * SEC,
            ..opts
        });
        judge::stopped(&log(), A, false)?;
        let left = work.alive.load(Ordering::SeqCst);
        if left != 0 {
            return bad(
                "left",
                format!("the service has ended, {} futures are left", left),
            );
        }
        work.give(Op::Now);
        if work.alive.load(Ordering::SeqCst) != 0 {
            return bad("left", "an ended service accepts a future");
        }
    }
    if judge::ended(&log(), B) {
        return bad("ended", "the other service ended");
    }
    // the futures refer to the driver, which keeps the control
    work.bell.0.borrow_mut().1.clear();
    stop();
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ans {
    Pending,
    More,
    Done,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    Wake,
    /// wakes twice
    Wake2,
    /// message to the handler
    Msg,
    /// a notification is due
    Notify,
    CloseProto,
    Disc,
}

const DOS: &[Do] = &[
    Do::Wake,
    Do::Wake2,
    Do::Msg,
    Do::Notify,
    Do::CloseProto,
    Do::Disc,
];

#[derive(Default)]
struct Seat {
    calls: usize,
    last: Option<Ans>,
    waker: Option<Waker>,
    woken: bool,
}

/// The handler of protocol 1 at service A answers its polls from a script.
fn polls(kind: Kind, script: usize, n: usize, gaps: usize, opts: Opts) -> R<()> {
    start(Default::default(), 0);
    let lv = kind.levels()[0];
    let plan: Vec<Ans> = (0..script)
        .map(|_| [Ans::Pending, Ans::More, Ans::Done][choose(3, "answer")])
        .collect();
    let seats: Rc<RefCell<BTreeMap<Option<usize>, Seat>>> = Rc::default();
    let wrong: Rc<Cell<bool>> = Rc::default();
    {
        let (seats, wrong) = (seats.clone(), wrong.clone());
        poll_with(move |(svc, l, id, p), cx| {
            if svc != A || l != lv || p != 1 {
                return Poll::Ready(None);
            }
            let mut seats = seats.borrow_mut();
            let seat = seats.entry(id).or_default();
            if seat.last == Some(Ans::Done) {
                wrong.set(true)
            }
            let ans = plan.get(seat.calls).copied().unwrap_or(Ans::Pending);
            seat.calls += 1;
            seat.last = Some(ans);
            seat.woken = false;
            seat.waker = Some(cx.waker().clone());
            match ans {
                Ans::Pending => Poll::Pending,
                Ans::More => Poll::Ready(Some(())),
                Ans::Done => Poll::Ready(None),
            }
        });
    }
    let b = service(cfg(vec![proto(1, kind), proto(2, kind)]).listen(1));
    let a = service(cfg(vec![proto(1, kind), proto(2, kind)]));
    settle();
    drop(a.dial(addr(1), all()));
    settle();
    let seat = if lv == Lv::Service { None } else { Some(1) };
    if seats.borrow().get(&seat).map_or(0, |s| s.calls) == 0 {
        return bad("not-polled", "the handler is up and has not been polled");
    }
    let gone: Rc<Cell<bool>> = Rc::default();
    let msgs: Rc<Cell<usize>> = Rc::default();
    let ticks: Rc<Cell<bool>> = Rc::default();
    let mut at = exec::steps();
    for i in 0..n {
        let op = DOS[choose(DOS.len(), "op")];
        let (a, b, seats) = (a.clone(), b.clone(), seats.clone());
        let (gone, msgs, ticks) = (gone.clone(), msgs.clone(), ticks.clone());
        let go = move || {
            mc_engine::log(|| format!("=> {:?}", op));
            let wake = |times: usize| {
                let wk = seats.borrow_mut().get_mut(&seat).and_then(|s| {
                    s.woken = s.last == Some(Ans::Pending);
                    s.waker.clone()
                });
                if let Some(wk) = wk {
                    (0..times).for_each(|_| wk.wake_by_ref())
                }
            };
            match op {
                Do::Wake => wake(1),
                Do::Wake2 => wake(2),
                Do::Msg => {
                    if b.send_message_to(sid(1), pid(1), "x".into()).is_ok() {
                        msgs.set(msgs.get() + 1)
                    }
                }
                Do::Notify => {
                    let s = Duration::from_secs(1);
                    ticks.set(true);
                    if lv == Lv::Service {
                        drop(a.set_service_notify(pid(1), s, 7))
                    } else {
                        drop(a.set_session_notify(sid(1), pid(1), s, 7))
                    }
                }
                Do::CloseProto => {
                    gone.set(true);
                    drop(a.close_protocol(sid(1), pid(1)))
                }
                Do::Disc => {
                    gone.set(true);
                    drop(a.disconnect(sid(1)))
                }
            }
        };
        if i == 0 {
            go()
        } else {
            at += choose(gaps, "gap") as u64;
            if at <= exec::steps() {
                go()
            } else {
                exec::at_step(at, go)
            }
        }
    }
    rest(opts, 3)?;
    judge::no_panic()?;
    history_seen();
    if wrong.get() {
        return bad("polled-again", "polled after it had answered None");
    }
    let l = log();
    let up = lv == Lv::Service || judge::live(&l, A).contains_key(&1);
    let seats = seats.borrow();
    let s = &seats[&seat];
    if up {
        if s.last == Some(Ans::More) {
            return bad("not-polled", "it has more to do and is not polled");
        }
        if s.woken {
            return bad("not-polled", "it was woken and is not polled");
        }
    }
    if !gone.get() {
        let got = count(|e| match e.ev {
            Ev::Recv {
                lv: x,
                id: 1,
                proto: 1,
                ..
            } => e.svc == A && x == lv,
            _ => false,
        });
        if got != msgs.get() {
            return bad(
                "messages",
                format!("{} messages received of {}", got, msgs.get()),
            );
        }
        if ticks.get() && count(|e| matches!(e.ev, Ev::Notify { token: 7, .. })) < 2 {
            return bad("notify", "notifications are missing");
        }
    }
    drop(seats);
    stop();
    Ok(())
}

pub fn t14(t: bool) -> Vec<Scenario> {
    let o = Opts {
        starve: true,
        max_steps: 100_000,
        ..Opts::default()
    };
    let fifo = Opts { sched: false, ..o };
    let d = t as usize;
    const FEW: &[Op] = &[
        Op::Now,
        Op::Yield,
        Op::Timer,
        Op::Bell,
        Op::Never,
        Op::Chain,
        Op::Panic,
        Op::Ring,
        Op::Disc,
        Op::Close,
        Op::Shutdown,
    ];
    let b = "futures of every kind handed in, requests and a stop among them, at every gap, all schedules up to the bound";
    let mut v = vec![
        Scenario::new("tasks-one", 1 + d, 300, b, move || tasks(FEW, 1, 1, o)),
        Scenario::new("tasks-two", 1 + d, 300, b, move || tasks(FEW, 2, 1, o)),
        Scenario::new("tasks-inside", 1 + d, 300, INSIDE, move || {
            tasks(FEW, 2, 1, inside())
        }),
        Scenario::new("tasks-gap", d, 300, b, move || {
            tasks(FEW, 2, if t { 60 } else { 30 }, o)
        }),
        Scenario::new("tasks-three", 0, 300, b, move || {
            tasks(FEW, 3, if t { 6 } else { 3 }, o)
        }),
        Scenario::new("tasks-many", 0, 300, b, move || {
            tasks(OPS, 2, if t { 40 } else { 4 }, fifo)
        }),
    ];
    let b = "a handler that answers its polls from every script, woken, called and closed at every gap, all schedules up to the bound";
    for kind in &[Kind::Service, Kind::Session] {
        let k = *kind;
        v.push(Scenario::new(
            &format!("polls-one-{:?}", k),
            1 + d,
            300,
            b,
            move || polls(k, 3, 1, 1, o),
        ));
        v.push(Scenario::new(
            &format!("polls-inside-{:?}", k),
            1 + d,
            300,
            INSIDE,
            move || polls(k, 3, 1, 1, inside()),
        ));
        v.push(Scenario::new(
            &format!("polls-two-{:?}", k),
            1,
            300,
            b,
            move || polls(k, 2 + d, 2, 1, o),
        ));
        v.push(Scenario::new(
            &format!("polls-gap-{:?}", k),
            0,
            300,
            b,
            move || polls(k, 3, 2, if t { 40 } else { 16 }, o),
        ));
    }
    v
}
