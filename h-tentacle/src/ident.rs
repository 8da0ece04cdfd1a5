//! Encrypted services that know each other by key: who is connected to whom.
use std::rc::Rc;

use bytes::Bytes;
use mc_engine::exec::{self, Opts, SEC};
use mc_engine::{bad, choose, Scenario, R};
use tentacle::multiaddr::Multiaddr;

use crate::duo::history_seen;
use crate::judge;
use crate::world::*;

/// Services 0, 1, 2 hold keys 0, 1, 2 and listen on 1 and 2, 3 and 4, 5 and 6.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// from, to, which listener
    Dial(usize, usize, u16),
    /// from, to, peer id named
    Named(usize, usize, usize),
    Disc(usize),
}

struct Trio {
    svc: Vec<Svc>,
}

fn port(to: usize, l: u16) -> u16 {
    1 + 2 * to as u16 + l
}

/// The service listening on this address.
fn owner(addr: &str) -> Option<usize> {
    let port: u16 = addr.split('/').nth(4)?.parse().ok()?;
    match port {
        1001..=1006 => Some((port as usize - 1001) / 2),
        _ => None,
    }
}

impl Trio {
    fn new(n: usize) -> Rc<Trio> {
        start(Default::default(), 3);
        let svc = (0..n)
            .map(|i| {
                let mut c = cfg(vec![proto(1, Kind::Both)]).listen(port(i, 0)).key(i);
                c.listen_also = Some(port(i, 1));
                service(c)
            })
            .collect();
        settle();
        Rc::new(Trio { svc })
    }

    fn apply(&self, op: Op) {
        mc_engine::log(|| format!("=> {:?}", op));
        match op {
            Op::Dial(f, t, l) => drop(self.svc[f].dial(addr(port(t, l)), all())),
            Op::Named(f, t, k) => {
                let a: Multiaddr = addr_with_peer(port(t, 0), k);
                drop(self.svc[f].dial(a, all()))
            }
            Op::Disc(s) => {
                for id in judge::live(&log(), s).keys() {
                    drop(self.svc[s].disconnect(sid(*id)));
                }
            }
        }
    }

    fn judge(&self, quiet: bool) -> R<()> {
        let l = log();
        judge::no_panic()?;
        judge::sessions(&l)?;
        judge::one_per_key(&l, self.svc.len())?;
        for e in &l {
            if let Ev::Open {
                out: true,
                addr,
                key,
                ..
            } = &e.ev
            {
                let o = owner(addr);
                if *key != o {
                    return bad(
                        "key",
                        format!(
                            "service {}: session to {} carries the key of peer {:?}",
                            e.svc, addr, key
                        ),
                    );
                }
                let id = addr.rsplit('/').next().unwrap();
                let want = addr_with_peer(1, o.unwrap()).to_string();
                if !want.ends_with(&format!("/p2p/{}", id)) {
                    return bad(
                        "peer-id",
                        format!(
                            "service {}: session to {}, but peer {:?} is there",
                            e.svc, addr, o
                        ),
                    );
                }
            }
            if let Ev::Open {
                out: false, key, ..
            } = &e.ev
            {
                if key.is_none() || *key == Some(usize::MAX) {
                    return bad("key", format!("service {}: session without key", e.svc));
                }
            }
        }
        if !quiet {
            return Ok(());
        }
        // both ends of every session agree on who the other is
        for s in 0..self.svc.len() {
            for (id, (_, _, k)) in judge::live(&l, s) {
                let back = judge::live(&l, k.unwrap())
                    .values()
                    .filter(|x| x.2 == Some(s))
                    .count();
                if back != 1 {
                    return bad(
                        "one-sided",
                        format!(
                            "service {}: session {} to peer {:?} has no counterpart",
                            s, id, k
                        ),
                    );
                }
            }
        }
        Ok(())
    }
}

fn rest(opts: Opts) -> R<()> {
    let end = exec::run(Opts {
        horizon: exec::now() + 40 * SEC,
        ..opts
    });
    if end == exec::End::Steps {
        return bad("no-rest", "the services do not come to rest");
    }
    Ok(())
}

/// Histories in which a session exists first: a further connection to the same peer leaves it alone.
fn surplus(menu: &[Op], n: usize, gaps: usize, opts: Opts) -> R<()> {
    let t = Trio::new(2);
    t.apply(menu[choose(2, "first")]);
    settle();
    let before = [judge::live(&log(), 0), judge::live(&log(), 1)];
    if before[0].len() != 1 || before[1].len() != 1 {
        return bad("set-up", "no session");
    }
    let mark = log().len();
    let mut at = exec::steps();
    let mut dials = 0;
    for _ in 0..n {
        let op = menu[choose(menu.len(), "op")];
        dials += 1;
        at += choose(gaps, "gap") as u64;
        if at <= exec::steps() {
            t.apply(op);
        } else {
            let t2 = t.clone();
            exec::at_step(at, move || t2.apply(op));
        }
    }
    rest(opts)?;
    t.judge(true)?;
    history_seen();
    let l = log();
    if [judge::live(&l, 0), judge::live(&l, 1)] != before {
        return bad(
            "disturbed",
            "a further connection to a connected peer changed the session that was there",
        );
    }
    let errors = l[mark..]
        .iter()
        .filter(|e| matches!(&e.ev, Ev::Err { kind: "dial", .. }))
        .count();
    if errors == 0 || errors > dials {
        return bad(
            "refusal",
            format!(
                "{} dials to a connected peer, {} dial errors",
                dials, errors
            ),
        );
    }
    // and it still carries messages
    for s in 0..2 {
        let id = *before[s].keys().next().unwrap();
        drop(t.svc[s].send_message_to(sid(id), pid(1), Bytes::from_static(b"x")));
        settle();
        if count(|e| {
            e.svc == 1 - s
                && matches!(
                    e.ev,
                    Ev::Recv {
                        lv: Lv::Service,
                        ..
                    }
                )
        }) != 1
        {
            return bad("dead-session", "the session no longer carries messages");
        }
    }
    stop();
    Ok(())
}

fn history(svcs: usize, menu: &[Op], n: usize, gaps: usize, opts: Opts) -> R<()> {
    let t = Trio::new(svcs);
    let mut at = exec::steps();
    for i in 0..n {
        let op = menu[choose(menu.len(), "op")];
        if i > 0 {
            at += choose(gaps, "gap") as u64;
        }
        if at <= exec::steps() {
            t.apply(op);
        } else {
            let t2 = t.clone();
            exec::at_step(at, move || t2.apply(op));
        }
    }
    rest(opts)?;
    history_seen();
    t.judge(true)?;
    stop();
    Ok(())
}

const PAIR: &[Op] = &[
    Op::Dial(0, 1, 0),
    Op::Dial(1, 0, 0),
    Op::Dial(0, 1, 1),
    Op::Named(0, 1, 1),
    Op::Named(0, 1, 2),
    Op::Named(1, 0, 1),
];

const CROSS: &[Op] = &[Op::Dial(0, 1, 0), Op::Dial(0, 1, 1), Op::Dial(1, 0, 0)];

const TRIO: &[Op] = &[
    Op::Dial(0, 1, 0),
    Op::Dial(1, 0, 0),
    Op::Dial(0, 1, 1),
    Op::Dial(2, 0, 0),
    Op::Dial(0, 2, 1),
    Op::Named(0, 1, 2),
    Op::Named(0, 2, 1),
    Op::Named(0, 1, 0),
    Op::Disc(0),
    Op::Disc(1),
];

pub fn t05(t: bool) -> Vec<Scenario> {
    let o = Opts {
        starve: true,
        ..Opts::default()
    };
    let d = t as usize;
    let mut v = Vec::new();
    let b = "two or three encrypted services, every history of dials (repeated, crossing, naming right and wrong peers) and disconnects";
    v.push(Scenario::new("surplus", d, 300, b, move || {
        surplus(PAIR, 2, if t { 30 } else { 8 }, o)
    }));
    v.push(Scenario::new("surplus-dev", 1 + d, 600, b, move || {
        surplus(PAIR, 1, 1, o)
    }));
    v.push(Scenario::new("cross", 1 + d, 600, b, move || {
        history(2, CROSS, 2, 1, o)
    }));
    v.push(Scenario::new("inside", 1 + d, 600, INSIDE, move || {
        history(2, CROSS, 2, 1, inside())
    }));
    v.push(Scenario::new(
        "surplus-inside",
        1 + d,
        600,
        INSIDE,
        move || surplus(PAIR, 1, 1, inside()),
    ));
    v.push(Scenario::new("cross-gap", d, 600, b, move || {
        history(2, PAIR, 2, if t { 90 } else { 60 }, o)
    }));
    v.push(Scenario::new("trio", d, 600, b, move || {
        history(3, TRIO, 3, if t { 3 } else { 1 }, o)
    }));
    if t {
        v.push(Scenario::new("trio-dev", 1, 900, b, move || {
            history(3, TRIO, 3, 1, o)
        }));
    }
    v
}
