//! Programs under our own scheduler: every interleaving up to the preemption bound, with
//! sequentially consistent memory.
use std::cell::RefCell;
use std::rc::Rc as LocalRc;

use crate::sc::{block_on, spawn, yield_now, JoinHandle};
use crate::sc_chan::channel::mpsc::{
    channel, unbounded, Priority, Receiver, Sender, UnboundedReceiver, UnboundedSender,
};
use crate::sc_chan::channel::QuickSinkExt;
use crate::shim_sc::std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

/// loom's interface to a cell
struct UnsafeCell<T>(std::cell::UnsafeCell<T>);
impl<T> UnsafeCell<T> {
    fn new(t: T) -> Self {
        UnsafeCell(std::cell::UnsafeCell::new(t))
    }
    fn with<R>(&self, f: impl FnOnce(*const T) -> R) -> R {
        f(self.0.get())
    }
    fn with_mut<R>(&self, f: impl FnOnce(*mut T) -> R) -> R {
        f(self.0.get())
    }
}

/// do SeqCst operations have a single total order?
const SEQ_CST: bool = true;

include!("prog.rs");

/// One interleaving of `p`.
pub fn explore(p: &Prog) -> R<()> {
    let out: LocalRc<RefCell<Option<Once>>> = LocalRc::new(RefCell::new(None));
    let (o2, p2) = (out.clone(), p.clone());
    log(|| format!("{:?}", p));
    if let Err(v) = crate::sc::run(move || {
        let r = one(&p2);
        *o2.borrow_mut() = Some(r);
    }) {
        return bad(&v.sig, format!("{:?}: {}", p, v.msg));
    }
    let o = out.borrow_mut().take().unwrap();
    outcome(format!("{:?} {}", p, o.outcome).as_bytes());
    match o.bad {
        Some((sig, msg)) => bad(&sig, format!("{:?}: {}", p, msg)),
        None => Ok(()),
    }
}
