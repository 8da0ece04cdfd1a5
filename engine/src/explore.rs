use std::cell::RefCell;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// A broken property on one execution.
#[derive(Clone, Debug)]
pub struct Violation {
    /// stable signature: what kind of failure, independent of the trace
    pub sig: String,
    pub msg: String,
}

pub type R<T> = Result<T, Violation>;

pub fn bad<T>(sig: &str, msg: impl Into<String>) -> R<T> {
    Err(Violation {
        sig: sig.to_string(),
        msg: msg.into(),
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Choice {
    pub taken: u16,
    pub n: u16,
    pub costly: bool,
}

struct Ctx {
    prefix: Arc<Vec<u16>>,
    trace: Vec<Choice>,
    steps: u64,
    outcome: Vec<u8>,
    log: Option<Vec<String>>,
    diverged: bool,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn pick(n: usize, costly: bool, label: &str) -> usize {
    if n <= 1 {
        return 0;
    }
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let c = match c.as_mut() {
            Some(c) => c,
            None => return 0,
        };
        let pos = c.trace.len();
        let mut taken = c.prefix.get(pos).copied().unwrap_or(0);
        if taken as usize >= n {
            c.diverged = true;
            taken = 0;
        }
        c.trace.push(Choice {
            taken,
            n: n as u16,
            costly,
        });
        if let Some(l) = c.log.as_mut() {
            if taken != 0 || !costly {
                l.push(format!(
                    "  choice#{} {} {} = {}/{}",
                    pos,
                    if costly { "deviate" } else { "choose" },
                    label,
                    taken,
                    n
                ));
            }
        }
        taken as usize
    })
}

/// All `n` alternatives are explored.
pub fn choose(n: usize, label: &str) -> usize {
    pick(n, false, label)
}

/// One element of a slice; all are explored.
pub fn choose_in<T: Clone>(xs: &[T], label: &str) -> T {
    xs[choose(xs.len(), label)].clone()
}

pub fn flip(label: &str) -> bool {
    choose(2, label) == 1
}

/// 0 is the default; every other alternative costs one deviation.
pub fn deviate(n: usize, label: &str) -> usize {
    pick(n, true, label)
}

/// Note for the replay log.
pub fn log(f: impl FnOnce() -> String) {
    CTX.with(|c| {
        if let Some(l) = c.borrow_mut().as_mut().and_then(|c| c.log.as_mut()) {
            l.push(f());
        }
    })
}

pub fn logging() -> bool {
    CTX.with(|c| {
        c.borrow()
            .as_ref()
            .map(|c| c.log.is_some())
            .unwrap_or(false)
    })
}

/// Count one transition of the system.
pub fn step() {
    CTX.with(|c| {
        if let Some(c) = c.borrow_mut().as_mut() {
            c.steps += 1
        }
    })
}

pub fn tick_steps(n: u64) {
    CTX.with(|c| {
        if let Some(c) = c.borrow_mut().as_mut() {
            c.steps += n
        }
    })
}

thread_local! {
    static FAIL: RefCell<Option<Violation>> = const { RefCell::new(None) };
}

/// Report a violation from inside a task; the execution stops at the next step.
pub fn fail(sig: &str, msg: impl Into<String>) {
    let msg = msg.into();
    log(|| format!("!! {}: {}", sig, msg));
    FAIL.with(|f| {
        let mut f = f.borrow_mut();
        if f.is_none() {
            *f = Some(Violation {
                sig: sig.to_string(),
                msg,
            })
        }
    })
}

pub fn failed() -> bool {
    FAIL.with(|f| f.borrow().is_some())
}

/// Violation reported from a task so far.
pub fn take_failure() -> Option<Violation> {
    FAIL.with(|f| f.borrow_mut().take())
}

/// Add to the observable outcome of this execution.
pub fn outcome(data: &[u8]) {
    CTX.with(|c| {
        if let Some(c) = c.borrow_mut().as_mut() {
            c.outcome.extend_from_slice(data);
            c.outcome.push(b';');
        }
    })
}

pub type Body = Arc<dyn Fn() -> R<()> + Send + Sync>;

pub struct RunResult {
    pub trace: Vec<Choice>,
    pub steps: u64,
    pub outcome: Vec<u8>,
    pub result: R<()>,
    pub log: Vec<String>,
    pub diverged: bool,
}

/// One execution on a fresh thread.
pub fn run_once(body: &Body, prefix: Arc<Vec<u16>>, with_log: bool, seed: u64) -> RunResult {
    let body = body.clone();
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            crate::rng::reseed(seed);
            CTX.with(|c| {
                *c.borrow_mut() = Some(Ctx {
                    prefix,
                    trace: Vec::new(),
                    steps: 0,
                    outcome: Vec::new(),
                    log: if with_log { Some(Vec::new()) } else { None },
                    diverged: false,
                })
            });
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let r = body();
                crate::exec::teardown();
                r
            }));
            let result = match res {
                Ok(r) => match take_failure() {
                    Some(v) => Err(v),
                    None => r,
                },
                Err(_) => {
                    let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                    bad("panic", m)
                }
            };
            let c = CTX.with(|c| c.borrow_mut().take()).unwrap();
            RunResult {
                trace: c.trace,
                steps: c.steps,
                outcome: c.outcome,
                result,
                log: c.log.unwrap_or_default(),
                diverged: c.diverged,
            }
        })
        .expect("spawn")
        .join()
        .expect("execution thread died")
}

/// Take the message of the last caught panic on this thread.
pub fn take_panic() -> Option<String> {
    PANIC.with(|p| p.borrow_mut().take())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string();
        if m.contains("panic in a destructor during cleanup")
            || m.contains("panic in a function that cannot unwind")
            || m.contains("unsafe precondition(s) violated")
            || m.contains("pointer dereference")
        {
            // the process is about to abort: report the panic that started it
            let first = PANIC
                .with(|p| p.try_borrow_mut().ok().and_then(|mut p| p.take()))
                .unwrap_or(m);
            let choices = CTX.with(|c| {
                c.try_borrow().ok().and_then(|c| {
                    c.as_ref()
                        .map(|c| c.trace.iter().map(|t| t.taken).collect::<Vec<u16>>())
                })
            });
            if let Some(choices) = choices {
                (crate::report::hang_hook())(Found {
                    violation: Violation {
                        sig: "panic".into(),
                        msg: first,
                    },
                    choices,
                });
            }
            return;
        }
        let _ = PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                // a panic during unwinding does not hide the first one
                if p.is_none() {
                    *p = Some(m)
                }
            }
        });
    }));
}

struct Expander {
    /// executed choices
    taken: Arc<Vec<Choice>>,
    i: usize,
    a: u16,
    costly: bool,
    cost: Arc<Vec<u8>>,
    budget_cost: u8,
}

impl Expander {
    /// next child prefix: flips position i to alternative a
    fn next(&mut self) -> Option<Vec<u16>> {
        while self.i < self.taken.len() {
            let c = self.taken[self.i];
            if c.costly == self.costly && self.cost[self.i] + (c.costly as u8) == self.budget_cost {
                if self.a < c.n {
                    let mut p: Vec<u16> = self.taken[..self.i].iter().map(|c| c.taken).collect();
                    p.push(self.a);
                    self.a += 1;
                    return Some(p);
                }
            }
            self.i += 1;
            self.a = 1;
        }
        None
    }
}

pub struct Limits {
    pub max_dev: usize,
    pub wall: Duration,
    pub max_exec: u64,
    pub threads: usize,
    /// seconds one execution may take before it counts as a hang
    pub hang_s: u64,
}

#[derive(Default)]
pub struct Stats {
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
    pub outcomes: u64,
    pub replayed: u64,
    /// executions per number of deviations
    pub by_dev: Vec<u64>,
    pub exhaustive: bool,
    /// largest deviation count whose executions were all run
    pub complete_dev: i64,
    pub max_depth: usize,
    pub samples: Vec<String>,
    pub wall: f64,
    pub known: Vec<(String, u64)>,
}

pub struct Found {
    pub violation: Violation,
    pub choices: Vec<u16>,
}

struct Work {
    stacks: Vec<Vec<Expander>>,
    initial: bool,
    active: usize,
    active_by_cost: Vec<usize>,
    stop: bool,
    capped: bool,
}

/// Explore all executions of `body` within the limits.  `known` tells whether a
/// violation is a listed finding.
pub fn explore(
    body: Body,
    lim: &Limits,
    seed: u64,
    known: &(dyn Fn(&Violation) -> Option<String> + Sync),
) -> Result<(Stats, Option<Found>), String> {
    let t0 = Instant::now();
    let nb = lim.max_dev + 1;
    let work = Mutex::new(Work {
        stacks: (0..nb).map(|_| Vec::new()).collect(),
        initial: true,
        active: 0,
        active_by_cost: vec![0; nb],
        stop: false,
        capped: false,
    });
    let cv = Condvar::new();
    let execs = AtomicU64::new(0);
    let states = AtomicU64::new(0);
    let trans = AtomicU64::new(0);
    let replayed = AtomicU64::new(0);
    let depth = AtomicUsize::new(0);
    let by_dev: Vec<AtomicU64> = (0..nb).map(|_| AtomicU64::new(0)).collect();
    let outcomes: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let samples: Mutex<Vec<String>> = Mutex::new(Vec::new());
    let found: Mutex<Option<(usize, Found)>> = Mutex::new(None);
    let known_hits: Mutex<Vec<(String, u64)>> = Mutex::new(Vec::new());
    let error: Mutex<Option<String>> = Mutex::new(None);
    let done = AtomicBool::new(false);
    // current execution per worker, for the watchdog, which counts its own beats: a machine
    // that was stopped for a while is not a hang
    let beats = AtomicU64::new(0);
    let slots: Vec<Mutex<Option<(u64, Arc<Vec<u16>>)>>> =
        (0..lim.threads).map(|_| Mutex::new(None)).collect();

    let hang: Option<Found> = std::thread::scope(|s| {
        for w in 0..lim.threads {
            let (work, cv, execs, states, trans) = (&work, &cv, &execs, &states, &trans);
            let (depth, by_dev, outcomes, samples) = (&depth, &by_dev, &outcomes, &samples);
            let (found, known_hits, error, slots, replayed) =
                (&found, &known_hits, &error, &slots, &replayed);
            let beats = &beats;
            let body = body.clone();
            s.spawn(move || loop {
                // get work
                let (prefix, cost) = {
                    let mut g = work.lock().unwrap();
                    loop {
                        if g.stop {
                            return;
                        }
                        if g.initial {
                            g.initial = false;
                            g.active += 1;
                            g.active_by_cost[0] += 1;
                            break (Arc::new(Vec::new()), 0usize);
                        }
                        let mut got = None;
                        for c in 0..nb {
                            while let Some(e) = g.stacks[c].last_mut() {
                                if let Some(p) = e.next() {
                                    got = Some((p, c));
                                    break;
                                }
                                g.stacks[c].pop();
                            }
                            if got.is_some() {
                                break;
                            }
                        }
                        if let Some((p, c)) = got {
                            g.active += 1;
                            g.active_by_cost[c] += 1;
                            break (Arc::new(p), c);
                        }
                        if g.active == 0 {
                            g.stop = true;
                            cv.notify_all();
                            return;
                        }
                        g = cv.wait(g).unwrap();
                    }
                };
                *slots[w].lock().unwrap() = Some((beats.load(Ordering::Relaxed), prefix.clone()));
                let r = run_once(&body, prefix.clone(), false, seed);
                *slots[w].lock().unwrap() = None;
                let n = execs.fetch_add(1, Ordering::Relaxed) + 1;
                by_dev[cost].fetch_add(1, Ordering::Relaxed);
                states.fetch_add(
                    (r.trace.len() + 1 - prefix.len().min(r.trace.len())) as u64,
                    Ordering::Relaxed,
                );
                trans.fetch_add(r.steps + r.trace.len() as u64, Ordering::Relaxed);
                depth.fetch_max(r.trace.len(), Ordering::Relaxed);
                if r.diverged {
                    *error.lock().unwrap() = Some(format!(
                        "replay divergence (nondeterminism not owned) at prefix {:?}",
                        prefix
                    ));
                    let mut g = work.lock().unwrap();
                    g.stop = true;
                    g.active -= 1;
                    cv.notify_all();
                    return;
                }
                outcomes.lock().unwrap().insert(crate::fnv(&r.outcome));
                // prove determinism: replay the first, every 512th and every failing execution
                if n == 1 || n % 512 == 0 || r.result.is_err() {
                    let full: Vec<u16> = r.trace.iter().map(|c| c.taken).collect();
                    let r2 = run_once(&body, Arc::new(full), n == 1, seed);
                    replayed.fetch_add(1, Ordering::Relaxed);
                    let same = (r2.trace == r.trace
                        && r2.outcome == r.outcome
                        && r2.result.is_err() == r.result.is_err())
                        || (r2.result.is_err() && r.result.is_err());
                    if !same {
                        *error.lock().unwrap() = Some(format!(
                            "execution is not reproducible: prefix {:?}, {} vs {} choices, outcomes equal: {}, {:?} vs {:?}",
                            prefix,
                            r.trace.len(),
                            r2.trace.len(),
                            r2.outcome == r.outcome,
                            r.result.as_ref().err().map(|v| v.sig.clone()),
                            r2.result.as_ref().err().map(|v| v.sig.clone())
                        ));
                        let mut g = work.lock().unwrap();
                        g.stop = true;
                        g.active -= 1;
                        cv.notify_all();
                        return;
                    }
                    if r.result.is_ok() {
                        let mut sm = samples.lock().unwrap();
                        if sm.len() < 3 {
                            sm.push(format!(
                                "choices={:?} outcome={}",
                                r.trace.iter().map(|c| c.taken).collect::<Vec<_>>(),
                                String::from_utf8_lossy(&r.outcome[..r.outcome.len().min(400)])
                            ));
                        }
                    }
                }
                let mut stop = false;
                if let Err(v) = &r.result {
                    match known(v) {
                        Some(id) => {
                            let mut k = known_hits.lock().unwrap();
                            match k.iter_mut().find(|(i, _)| *i == id) {
                                Some(e) => e.1 += 1,
                                None => k.push((id, 1)),
                            }
                        }
                        None => {
                            let mut f = found.lock().unwrap();
                            let better = match f.as_ref() {
                                None => true,
                                Some((c, g)) => {
                                    cost < *c || (cost == *c && r.trace.len() < g.choices.len())
                                }
                            };
                            if better {
                                *f = Some((
                                    cost,
                                    Found {
                                        violation: v.clone(),
                                        choices: r.trace.iter().map(|c| c.taken).collect(),
                                    },
                                ));
                            }
                            stop = true;
                        }
                    }
                }
                let mut g = work.lock().unwrap();
                g.active -= 1;
                g.active_by_cost[cost] -= 1;
                if stop {
                    g.stop = true;
                }
                if t0.elapsed() > lim.wall || n >= lim.max_exec {
                    g.stop = true;
                    g.capped = true;
                }
                if !g.stop {
                    let mut costs = Vec::with_capacity(r.trace.len());
                    let mut acc = 0u8;
                    for c in &r.trace {
                        costs.push(acc);
                        if c.costly && c.taken != 0 {
                            acc += 1;
                        }
                    }
                    let costs = Arc::new(costs);
                    let tr = Arc::new(r.trace);
                    let mk = |costly: bool, b: usize| Expander {
                        taken: tr.clone(),
                        i: prefix.len(),
                        a: 1,
                        costly,
                        cost: costs.clone(),
                        budget_cost: b as u8,
                    };
                    let (free, dev) = tr[prefix.len().min(tr.len())..]
                        .iter()
                        .fold((false, false), |(f, d), c| (f || !c.costly, d || c.costly));
                    if free {
                        g.stacks[cost].push(mk(false, cost));
                    }
                    if dev && cost + 1 < nb {
                        g.stacks[cost + 1].push(mk(true, cost + 1));
                    }
                }
                cv.notify_all();
            });
        }
        // watchdog
        let (slots, done, work, cv, beats) = (&slots, &done, &work, &cv, &beats);
        let wd = s.spawn(move || -> Option<Found> {
            loop {
                std::thread::sleep(Duration::from_millis(50));
                let beat = beats.fetch_add(1, Ordering::Relaxed) + 1;
                if work.lock().unwrap().stop && slots.iter().all(|s| s.lock().unwrap().is_none()) {
                    return None;
                }
                if done.load(Ordering::Relaxed) {
                    return None;
                }
                for sl in slots {
                    let g = sl.lock().unwrap();
                    if let Some((t, p)) = g.as_ref() {
                        if beat - t > lim.hang_s * 20 {
                            let f = Found {
                                violation: Violation {
                                    sig: "hang".into(),
                                    msg: format!(
                                        "one execution ran for more than {} s without yielding",
                                        lim.hang_s
                                    ),
                                },
                                choices: p.to_vec(),
                            };
                            // the hung thread cannot be stopped: report from here
                            (crate::report::hang_hook())(f);
                        }
                    }
                }
                cv.notify_all();
            }
        });
        wd.join().unwrap()
    });
    let _ = hang;
    done.store(true, Ordering::Relaxed);
    if let Some(e) = error.into_inner().unwrap() {
        return Err(e);
    }
    let w = work.into_inner().unwrap();
    let found = found.into_inner().unwrap().map(|(_, f)| f);
    let exhaustive = !w.capped && found.is_none();
    let mut complete = lim.max_dev as i64;
    if !exhaustive {
        complete = -1;
        for (c, st) in w.stacks.iter().enumerate() {
            let mut pending = !st.is_empty();
            if pending {
                // an expander may be exhausted; treat conservatively
                pending = true;
            }
            if pending {
                complete = c as i64 - 1;
                break;
            }
            complete = c as i64;
        }
    }
    let stats = Stats {
        executions: execs.into_inner(),
        states: states.into_inner(),
        transitions: trans.into_inner(),
        outcomes: outcomes.into_inner().unwrap().len() as u64,
        replayed: replayed.into_inner(),
        by_dev: by_dev.into_iter().map(|a| a.into_inner()).collect(),
        exhaustive,
        complete_dev: complete,
        max_depth: depth.into_inner(),
        samples: samples.into_inner().unwrap(),
        wall: t0.elapsed().as_secs_f64(),
        known: known_hits.into_inner().unwrap(),
    };
    Ok((stats, found))
}
