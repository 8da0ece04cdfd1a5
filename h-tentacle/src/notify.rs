//! Notify timers against a reference on the virtual clock.
use std::collections::BTreeMap;
use std::time::Duration;

use mc_engine::exec::{self, Opts, SEC};
use mc_engine::{bad, choose, Scenario, R};

use crate::duo::history_seen;
use crate::judge;
use crate::world::*;

const B: usize = 0;

/// session (if of a session), protocol, token
type Key = (Option<usize>, usize, u64);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Set(Key, u64),
    Remove(Key),
    Wait(u64),
    Disc(usize),
    CloseProto(usize, usize),
    OpenProto(usize, usize),
}

#[derive(Default)]
struct Model {
    now: u64,
    on: BTreeMap<Key, (u64, u64)>,
    gone: Vec<usize>,
    fired: Vec<(u64, Key)>,
}

impl Model {
    fn wait(&mut self, s: u64) {
        let to = self.now + s;
        while let Some((k, (_, at))) = self
            .on
            .iter()
            .min_by_key(|(_, v)| v.1)
            .map(|(k, v)| (*k, *v))
        {
            if at > to {
                break;
            }
            self.fired.push((at, k));
            let e = self.on.get_mut(&k).unwrap();
            e.1 += e.0;
        }
        self.now = to;
    }
    fn step(&mut self, op: Op) {
        match op {
            Op::Set(k, i) => {
                if !k.0.map_or(false, |s| self.gone.contains(&s)) {
                    let at = self.now + i;
                    self.on.entry(k).or_insert((i, at));
                }
            }
            Op::Remove(k) => {
                self.on.remove(&k);
            }
            Op::Wait(s) => self.wait(s),
            Op::Disc(s) => {
                self.gone.push(s);
                self.on.retain(|k, _| k.0 != Some(s))
            }
            Op::CloseProto(..) | Op::OpenProto(..) => (),
        }
    }
}

fn run_for(s: u64, opts: Opts) -> R<()> {
    let to = exec::now() + s * SEC;
    if exec::run(Opts {
        horizon: to,
        ..opts
    }) == exec::End::Steps
    {
        return bad("no-rest", "the service does not come to rest");
    }
    if exec::now() < to {
        tokio_yamux::verif::advance_to(to);
        settle();
    }
    Ok(())
}

fn histories(kind: Kind, menu: &[Op], depth: usize, opts: Opts) -> R<()> {
    start(Default::default(), 0);
    let protos = vec![proto(1, kind), proto(2, kind)];
    let b = service(cfg(protos.clone()).listen(1));
    for _ in 0..2 {
        let a = service(cfg(protos.clone()));
        drop(a.dial(addr(1), all()));
        settle();
    }
    let t0 = exec::now();
    let mut m = Model::default();
    for _ in 0..depth {
        let op = menu[choose(menu.len(), "op")];
        mc_engine::log(|| format!("=> {:?}", op));
        let ok = match op {
            Op::Set((None, p, t), i) => b.set_service_notify(pid(p), Duration::from_secs(i), t),
            Op::Set((Some(s), p, t), i) => {
                b.set_session_notify(sid(s), pid(p), Duration::from_secs(i), t)
            }
            Op::Remove((None, p, t)) => b.remove_service_notify(pid(p), t),
            Op::Remove((Some(s), p, t)) => b.remove_session_notify(sid(s), pid(p), t),
            Op::Disc(s) => b.disconnect(sid(s)),
            Op::CloseProto(s, p) => b.close_protocol(sid(s), pid(p)),
            Op::OpenProto(s, p) => b.open_protocol(sid(s), pid(p)),
            Op::Wait(_) => Ok(()),
        };
        if ok.is_err() {
            return bad("refused", format!("{:?} was refused", op));
        }
        run_for(if let Op::Wait(s) = op { s } else { 0 }, opts)?;
        m.step(op);
    }
    run_for(7, opts)?;
    m.wait(7);
    history_seen();
    judge::no_panic()?;
    let key = |l: &(u64, Key)| (l.0, l.1);
    let mut got: Vec<(u64, Key)> = log()
        .iter()
        .filter_map(|e| match &e.ev {
            Ev::Notify {
                id, proto, token, ..
            } if e.svc == B => Some(((e.at - t0) / SEC, (*id, *proto, *token))),
            _ => None,
        })
        .collect();
    got.sort_by_key(key);
    m.fired.sort_by_key(key);
    if got != m.fired {
        let extra: Vec<_> = got.iter().filter(|x| !m.fired.contains(x)).collect();
        let missing: Vec<_> = m.fired.iter().filter(|x| !got.contains(x)).collect();
        let sig = match (extra.is_empty(), missing.is_empty()) {
            (true, true) => "repeated",
            (false, _) => "extra",
            (true, false) => "missing",
        };
        return bad(
            sig,
            format!(
                "notifications (second, (session, protocol, token)) {:?} instead of {:?}",
                got, m.fired
            ),
        );
    }
    stop();
    Ok(())
}

/// A history of requests all made at once, at a moment when timers are due or not: nothing fires
/// early, nothing set in the end is lost, nothing removed in the end stays.
fn burst(n: usize, opts: Opts) -> R<()> {
    start(Default::default(), 0);
    let b = service(cfg(vec![proto(1, Kind::Service)]));
    settle();
    let first = choose(2, "set before") == 0;
    if first {
        drop(b.set_service_notify(pid(1), Duration::from_secs(2), 0));
        run_for(
            1,
            Opts {
                sched: false,
                ..opts
            },
        )?;
    }
    let t0 = exec::now();
    let mut on = if first { Some(1) } else { None };
    for _ in 0..n {
        if choose(2, "op") == 0 {
            drop(b.set_service_notify(pid(1), Duration::from_secs(2), 0));
            on = on.or(Some(2));
        } else {
            drop(b.remove_service_notify(pid(1), 0));
            on = None;
        }
    }
    run_for(8, opts)?;
    history_seen();
    judge::no_panic()?;
    let got: Vec<u64> = log()
        .iter()
        .filter(|e| matches!(e.ev, Ev::Notify { .. }) && e.at >= t0)
        .map(|e| (e.at - t0) / SEC)
        .collect();
    let want: Vec<u64> = match on {
        None => Vec::new(),
        Some(at) => (0..8).map(|i| at + 2 * i).filter(|t| *t <= 8).collect(),
    };
    if got != want {
        return bad(
            "burst",
            format!("notifications at {:?} instead of {:?}", got, want),
        );
    }
    stop();
    Ok(())
}

pub fn t09(t: bool) -> Vec<Scenario> {
    let fifo = Opts {
        sched: false,
        ..Opts::default()
    };
    let o = Opts {
        starve: true,
        ..Opts::default()
    };
    let b = "set and remove of tokens, waits and closes in every order, against a reference on the virtual clock";
    let mk = |keys: &[Key], more: &[Op]| {
        let mut v: Vec<Op> = Vec::new();
        for k in keys {
            v.push(Op::Set(*k, 2));
            v.push(Op::Set(*k, 3));
            v.push(Op::Remove(*k));
        }
        v.extend_from_slice(&[Op::Wait(1), Op::Wait(2), Op::Wait(5)]);
        v.extend_from_slice(more);
        v
    };
    let svc = mk(&[(None, 1, 0), (None, 1, 1), (None, 2, 0)], &[]);
    let one = mk(&[(None, 1, 0)], &[]);
    let sess = mk(
        &[(Some(1), 1, 0), (Some(1), 1, 1), (Some(2), 1, 0)],
        &[Op::Disc(1)],
    );
    let mix = mk(
        &[(None, 1, 0), (Some(1), 1, 0)],
        &[Op::Disc(1), Op::CloseProto(1, 1)],
    );
    let both = mk(
        &[(Some(1), 1, 0)],
        &[
            Op::Disc(1),
            Op::CloseProto(1, 1),
            Op::OpenProto(1, 1),
            Op::Disc(2),
        ],
    );
    let both2 = both.clone();
    let (d, e) = if t { (1, 2) } else { (0, 1) };
    let (one2, mix2, mix3) = (one.clone(), mix.clone(), mix.clone());
    vec![
        Scenario::new("service", 0, 300, b, move || {
            histories(Kind::Two, &svc, 4 + d, fifo)
        }),
        Scenario::new("service-deep", 0, 300, b, move || {
            histories(Kind::Two, &one, 6 + d, fifo)
        }),
        Scenario::new("session", 0, 300, b, move || {
            histories(Kind::Two, &sess, 4 + d, fifo)
        }),
        Scenario::new("mixed", 0, 300, b, move || {
            histories(Kind::Two, &mix, 4 + d, fifo)
        }),
        Scenario::new("reopen", 0, 300, b, move || {
            histories(Kind::Two, &both, 4 + d, fifo)
        }),
        Scenario::new("reopen-both", 0, 300, b, move || {
            histories(Kind::SessionBoth, &both2, 4 + d, fifo)
        }),
        Scenario::new("service-dev", e, 300, b, move || {
            histories(Kind::Two, &one2, 3 + d, o)
        }),
        Scenario::new("mixed-dev", 1, 600, b, move || {
            histories(Kind::Two, &mix2, 2 + d, o)
        }),
        Scenario::new("inside", 1, 300, INSIDE, move || {
            histories(Kind::Two, &mix3, 2 + d, inside())
        }),
        Scenario::new("burst-inside", 1 + d, 300, INSIDE, move || {
            burst(3, inside())
        }),
        Scenario::new(
            "burst",
            1 + e,
            300,
            "requests for one token made at once, every schedule up to the bound",
            move || burst(3, o),
        ),
    ]
}
