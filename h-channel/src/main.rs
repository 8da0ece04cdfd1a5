#![allow(deprecated, dead_code, unused_imports)]

pub mod plain_chan;
mod sc;
pub mod sc_chan;
mod sc_run;
mod seq;
pub mod shim_sc;
#[cfg(feature = "weak")]
pub mod shim_weak;
mod threads;
#[cfg(feature = "weak")]
pub mod weak_chan;
#[cfg(feature = "weak")]
mod weak_run;

use mc_engine::{main_cli, Check, Scenario};
use threads::Mem;

const B: [Option<usize>; 3] = [None, Some(0), Some(1)];
const LEAN: [Option<usize>; 2] = [None, Some(0)];

/// Without loom's primitives, the scenarios for the weak memory model are left out.
fn without_weak(v: Vec<Scenario>) -> Vec<Scenario> {
    v.into_iter().filter(|s| cfg!(feature = "weak") || !s.name.ends_with("-weak")).collect()
}

fn c01(thorough: bool) -> Vec<Scenario> {
    let t = thorough;
    let w = if t { 600 } else { 60 };
    let more: &'static [&'static [usize]] = if t { &[&[2, 1], &[2, 2], &[1, 1, 1]] } else { &[&[2, 1]] };
    vec![
        Scenario::new(
            "sequences",
            0,
            w,
            "all sequences of sending (either class), waiting for room, cloning, dropping, closing, receiving over an unbounded channel and capacities 0 and 1, up to 2 senders, each wait by another task; depth 5, thorough 7",
            move || seq::run(&B, 2, if t { 7 } else { 5 }),
        ),
        Scenario::new(
            "deliver",
            if t { 2 } else { 1 },
            w,
            "2 sender threads with 2+1 messages (thorough also 2+2 and three senders), all classes, receiver draining, closing or dropping after 0 or 1 messages; every interleaving with at most 1 preemption (thorough 2)",
            move || threads::deliver(&B, more, Mem::Sc),
        ),
        Scenario::new("deliver-pair", 2, w, "as deliver, 1+1 messages and a single sender with 2, at most 2 preemptions", move || {
            threads::deliver(&LEAN, &[&[1, 1], &[2]], Mem::Sc)
        }),
        Scenario::new(
            "urgent-first",
            2,
            w,
            "as deliver, with the receiver learning of completed urgent sends before each receive",
            move || threads::urgent(if t { &LEAN } else { &LEAN[..1] }, if t { &[&[2, 1], &[3], &[2, 2]] } else { &[&[2, 1]] }, Mem::Sc),
        ),
        Scenario::new(
            "deliver-weak",
            0,
            w,
            "one sender thread, 1 and 2 messages, C11 memory model, at most 1 preemption (thorough 2)",
            move || threads::deliver(&B, &[&[1], &[2]], Mem::Weak(if t { 2 } else { 1 })),
        )
        .slow(1800),
        Scenario::new("urgent-weak", 0, w, "one sender, urgent first, C11 memory model, at most 1 preemption (thorough 2)", move || {
            threads::urgent(&LEAN, &[&[2]], Mem::Weak(if t { 2 } else { 1 }))
        })
        .slow(1800),
        Scenario::new("pair-weak", 0, w, "two senders, one message each, C11 memory model, at most 1 preemption", move || {
            threads::deliver(&LEAN, &[&[1, 1]], Mem::Weak(1))
        })
        .slow(1800),
    ]
}

fn c02(thorough: bool) -> Vec<Scenario> {
    let t = thorough;
    let w = if t { 600 } else { 60 };
    vec![
        Scenario::new(
            "sequences",
            0,
            w,
            "as for C01, capacities 0 to 2; depth 5, thorough 7; capacity, wake-ups owed, is_closed and len after every step",
            move || seq::run(&[Some(0), Some(1), Some(2)], 2, if t { 7 } else { 5 }),
        ),
        Scenario::new(
            "wake-ups",
            if t { 2 } else { 1 },
            w,
            "2 sender threads, 2+1 messages, every way of sending; receiver draining, waiting for the senders, closing or dropping; every interleaving with at most 1 preemption (thorough 2)",
            move || threads::wakes(&B, &[&[2, 1]], Mem::Sc),
        ),
        Scenario::new("waiting", 2, w, "one sender thread with 2 messages, as wake-ups, at most 2 preemptions", move || {
            threads::wakes(if t { &B } else { &B[1..2] }, &[&[2]], Mem::Sc)
        }),
        Scenario::new("room", 2, w, "4 messages from one sender (thorough also 3+2) into capacities 0 and 1, the receiver taking one and pausing; at most 2 preemptions", move || {
            threads::room(if t { &[&[4], &[3, 2]] } else { &[&[4]] }, Mem::Sc)
        }),
        Scenario::new("closing", if t { 2 } else { 1 }, w, "one sender closes the channel while another sends", move || {
            threads::closing(&B, Mem::Sc)
        }),
        Scenario::new(
            "wake-ups-weak",
            0,
            w,
            "one sender thread, C11 memory model, at most 1 preemption (thorough 2)",
            move || threads::wakes(&LEAN, if t { &[&[1], &[2]] } else { &[&[1]] }, Mem::Weak(if t { 2 } else { 1 })),
        )
        .slow(1800),
    ]
}

fn main() {
    main_cli(vec![
        Check { property: "C01", assumptions: vec!["futures' AtomicWaker works as documented"], scenarios: |t| without_weak(c01(t)) },
        Check { property: "C02", assumptions: vec!["futures' AtomicWaker works as documented"], scenarios: |t| without_weak(c02(t)) },
    ])
}
