//! Programs under loom: every interleaving up to the preemption bound, and every value the C11
//! memory model lets a load return.
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::weak_chan::channel::mpsc::{
    channel, unbounded, Priority, Receiver, Sender, UnboundedReceiver, UnboundedSender,
};
use crate::weak_chan::channel::QuickSinkExt;
use loom::cell::UnsafeCell;
use loom::future::block_on;
use loom::sync::atomic::{AtomicUsize, Ordering};
use loom::sync::Arc;
use loom::thread::{spawn, yield_now, JoinHandle};

/// do SeqCst operations have a single total order?
const SEQ_CST: bool = false;

include!("prog.rs");

/// Explore every interleaving of `p` with at most `bound` preemptions.
pub fn explore(p: &Prog, bound: usize) -> R<()> {
    let n = StdArc::new(StdUsize::new(0));
    let outs: StdArc<StdMutex<BTreeSet<String>>> = StdArc::new(StdMutex::new(BTreeSet::new()));
    let first: StdArc<StdMutex<Option<(String, String)>>> = StdArc::new(StdMutex::new(None));
    let mut b = loom::model::Builder::new();
    b.preemption_bound = Some(bound);
    b.max_branches = 50_000;
    b.max_duration = None;
    b.max_permutations = None;
    b.checkpoint_file = None;
    let (n2, o2, f2, p2) = (n.clone(), outs.clone(), first.clone(), p.clone());
    let r = catch_unwind(AssertUnwindSafe(|| {
        b.check(move || {
            if f2.lock().unwrap().is_some() {
                panic!("violation recorded");
            }
            let k = n2.fetch_add(1, SeqCst);
            let o = one(&p2);
            if let Some((sig, msg)) = o.bad {
                *f2.lock().unwrap() = Some((sig, format!("{} (schedule {})", msg, k)));
            }
            o2.lock().unwrap().insert(o.outcome);
        })
    }));
    let count = n.load(SeqCst);
    tick_steps(count as u64);
    let outs = outs.lock().unwrap();
    log(|| format!("{:?}: {} schedules, {} outcomes", p, count, outs.len()));
    outcome(format!("{:?} {} schedules {:?}", p, count, *outs).as_bytes());
    if let Some((sig, msg)) = first.lock().unwrap().take() {
        return bad(&sig, format!("{:?}: {}", p, msg));
    }
    if let Err(e) = r {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        let sig = if m.contains("deadlock") {
            "stuck"
        } else if m.contains("exceeded maximum number of branches") {
            "endless"
        } else {
            "panic"
        };
        return bad(sig, format!("{:?}: schedule {}: {}", p, count, m.lines().next().unwrap_or("")));
    }
    Ok(())
}
