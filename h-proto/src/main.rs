mod clock;
mod discovery;
mod identify;
mod ping;
mod wire;
#[allow(dead_code)]
#[path = "../../h-tentacle/src/world.rs"]
mod world;

use mc_engine::exec::{self, Opts, SEC};
use mc_engine::{bad, choose, Check, R};
use world::*;

/// The node whose handler is checked.
const A: usize = 0;

fn run_for(s: u64, opts: Opts) -> R<()> {
    let to = exec::now() + s * SEC;
    if exec::run(Opts {
        horizon: to,
        ..opts
    }) == exec::End::Steps
    {
        return bad("no-rest", "the service does not come to rest");
    }
    if exec::now() < to {
        tokio_yamux::verif::advance_to(to);
        settle();
    }
    if let Some(p) = panics().first() {
        return bad("panic", format!("a task panicked: {}", p));
    }
    Ok(())
}

fn fifo() -> Opts {
    Opts {
        sched: false,
        max_steps: 200_000,
        ..Opts::default()
    }
}

fn orders() -> Opts {
    Opts {
        starve: true,
        max_steps: 200_000,
        ..Opts::default()
    }
}

fn begin(keys: usize) {
    start(Default::default(), keys);
    clock::install();
}

/// What a service received on the protocol so far: seconds and bytes.
fn received(svc: usize) -> Vec<(u64, bytes::Bytes)> {
    log()
        .into_iter()
        .filter_map(|e| match e.ev {
            Ev::Recv { data, .. } if e.svc == svc => Some((e.at / SEC, data)),
            _ => None,
        })
        .collect()
}

/// What the checked node's own callbacks were told, with the second.
fn told() -> Vec<(u64, String)> {
    log()
        .into_iter()
        .filter_map(|e| match e.ev {
            Ev::Note(s) if e.svc == A => Some((e.at / SEC, s)),
            _ => None,
        })
        .collect()
}

/// The checked node still has this session.
fn is_open(id: usize) -> bool {
    let l = log();
    l.iter()
        .any(|e| e.svc == A && matches!(e.ev, Ev::Open { id: i, .. } if i == id))
        && !l
            .iter()
            .any(|e| e.svc == A && matches!(e.ev, Ev::Close { id: i } if i == id))
}

/// A message that is cut or changed anywhere ends nothing but, at most, its sender's session:
/// another peer is listened to as before.
fn mangled(made: fn() -> Made, good: &[bytes::Bytes], fine: bytes::Bytes) -> R<()> {
    begin(3);
    let m = &good[choose(good.len(), "message")];
    let k = choose(if cfg!(feature = "molc") { 4 } else { 1 }, "how");
    let at = choose(m.len() + (k == 0) as usize, "at");
    let mut d = m.to_vec();
    match k {
        0 => d.truncate(at),
        1 => d[at] ^= 1,
        2 => d[at] ^= 0xff,
        _ => d.insert(at, 0),
    }
    let mut p = proto(1, Kind::Service);
    p.made = Some(made);
    let _a = service(cfg(vec![p]).key(0).listen(1));
    settle();
    let mut svcs = Vec::new();
    for i in 0..2 {
        let s = service(cfg(vec![proto(1, Kind::Service)]).key(i + 1));
        settle();
        drop(s.dial(addr(1), all()));
        run_for(0, fifo())?;
        svcs.push(s);
    }
    drop(svcs[0].send_message_to(sid(1), pid(1), d.into()));
    run_for(0, fifo())?;
    let of = || {
        told()
            .iter()
            .filter(|t| t.1.split(' ').nth(1) == Some("2"))
            .count()
    };
    let before = of();
    drop(svcs[1].send_message_to(sid(1), pid(1), fine));
    run_for(0, fifo())?;
    if of() == before || !is_open(2) {
        return bad(
            "mangled",
            "another peer is not listened to after a mangled message",
        );
    }
    mc_engine::outcome(format!("{:?}", told()).as_bytes());
    stop();
    Ok(())
}

fn main() {
    futures_core::preempt::set(mc_engine::exec::preempt);
    mc_engine::main_cli(vec![
        Check {
            property: "P01",
            assumptions: vec![
                "the crate is built with the versions of its dependencies that are installed",
            ],
            scenarios: ping::p01,
        },
        Check {
            property: "P02",
            assumptions: vec![
                "the crate is built with the versions of its dependencies that are installed",
            ],
            scenarios: identify::p02,
        },
        Check {
            property: "P03",
            assumptions: vec![
                "the crate is built with the versions of its dependencies that are installed",
                "the filter of known addresses, of a crate that is not installed, is replaced by one that errs in no direction",
            ],
            scenarios: discovery::p03,
        },
    ])
}
