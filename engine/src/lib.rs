//! Stateless bounded model checker for deterministic executions of real code.
//!
//! An execution is a function of a sequence of choices.  `choose` enumerates all
//! alternatives freely (inputs, programs, configurations, crash points);
//! `deviate` enumerates alternatives to a default and costs one unit of the
//! deviation budget (schedules, fragmentation, faults).
pub mod exec;
pub mod explore;
pub mod pipe;
pub mod report;
pub mod rng;

pub use explore::{
    bad, choose, choose_in, deviate, fail, failed, flip, log, logging, outcome, step, take_failure,
    tick_steps, Violation, R,
};
pub use report::{main_cli, Check, Scenario};

/// FNV-1a, for outcome hashing.
pub fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in data {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    h
}
