//! The program families.
use mc_engine::{choose, R};

/// What a sender thread does, in order; afterwards it drops its sender.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    /// wait for room, then hand the message over (not waiting for further room)
    Put(bool),
    /// the sink's `send` / `quick_send`, which also waits until there is room again
    Send(bool),
    /// one attempt
    Try(bool),
    /// send through a clone made for the occasion
    Via(bool),
    /// close the channel from this side
    Close,
}

/// What the receiver does; afterwards it is dropped.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rx {
    /// receive until the end of the stream
    Drain,
    /// receive this many, wait for the senders to finish, then receive the rest
    TakeJoin(usize),
    /// receive this many, give way, receive the rest
    TakePause(usize),
    /// receive this many, close, receive the rest
    TakeClose(usize),
    /// receive this many, close, wait for the senders to finish, receive the rest
    CloseJoin(usize),
    /// receive this many and go away
    TakeDrop(usize),
}

#[derive(Clone, Debug)]
pub struct Prog {
    /// None: unbounded
    pub buffer: Option<usize>,
    pub senders: Vec<Vec<Op>>,
    pub rx: Rx,
    /// check the urgent-first rule (adds synchronisation of its own to the program)
    pub urgent: bool,
}


fn ops(alphabet: &[Op], n: usize) -> Vec<Op> {
    (0..n).map(|k| alphabet[choose(alphabet.len(), if k == 0 { "first" } else { "next" })]).collect()
}

const PUTS: [Op; 2] = [Op::Put(false), Op::Put(true)];
const ALL: [Op; 8] = [
    Op::Put(false),
    Op::Put(true),
    Op::Send(false),
    Op::Send(true),
    Op::Try(false),
    Op::Try(true),
    Op::Via(false),
    Op::Via(true),
];

#[derive(Clone, Copy)]
pub enum Mem {
    /// our scheduler, sequentially consistent
    Sc,
    /// loom with this preemption bound
    Weak(usize),
}

fn run(p: &Prog, mem: Mem) -> R<()> {
    match mem {
        Mem::Sc => crate::sc_run::explore(p),
        #[cfg(feature = "weak")]
        Mem::Weak(b) => crate::weak_run::explore(p, b),
        #[cfg(not(feature = "weak"))]
        Mem::Weak(_) => Ok(()),
    }
}

/// Programs for the delivery guarantees.
pub fn deliver(buffers: &[Option<usize>], lens: &[&[usize]], mem: Mem) -> R<()> {
    let buffer = buffers[choose(buffers.len(), "capacity")];
    let shape = lens[choose(lens.len(), "shape")];
    let senders: Vec<Vec<Op>> = shape.iter().map(|n| ops(&PUTS, *n)).collect();
    let rx = [Rx::Drain, Rx::TakeClose(0), Rx::TakeClose(1), Rx::TakeDrop(0), Rx::TakeDrop(1)][choose(5, "receiver")];
    run(&Prog { buffer, senders, rx, urgent: false }, mem)
}

/// Programs in which the receiver knows of completed urgent sends.
pub fn urgent(buffers: &[Option<usize>], lens: &[&[usize]], mem: Mem) -> R<()> {
    let buffer = buffers[choose(buffers.len(), "capacity")];
    let shape = lens[choose(lens.len(), "shape")];
    let senders: Vec<Vec<Op>> = shape.iter().map(|n| ops(&PUTS, *n)).collect();
    run(&Prog { buffer, senders, rx: Rx::Drain, urgent: true }, mem)
}

/// Programs for capacity and wake-ups: the first sender enumerates every way of sending, the
/// others alternate classes.
pub fn wakes(buffers: &[Option<usize>], lens: &[&[usize]], mem: Mem) -> R<()> {
    let buffer = buffers[choose(buffers.len(), "capacity")];
    let shape = lens[choose(lens.len(), "shape")];
    let total: usize = shape.iter().sum();
    // the weak runs leave out the last kind: it leans on the total order of SeqCst operations,
    // which loom does not provide
    let kind = choose(if let Mem::Sc = mem { 5 } else { 4 }, "receiver");
    let alphabet: &[Op] = if kind == 1 { &PUTS } else { &ALL };
    let senders: Vec<Vec<Op>> = shape
        .iter()
        .enumerate()
        .map(|(s, n)| if s == 0 { ops(alphabet, *n) } else { (0..*n).map(|k| PUTS[(s + k) % 2]).collect() })
        .collect();
    let rx = match kind {
        0 => Rx::Drain,
        // all but one: the last send must find a woken sender
        1 => Rx::TakeJoin(total - 1),
        2 => Rx::TakeClose(choose(2, "taken")),
        3 => Rx::TakeDrop(choose(2, "taken")),
        _ => Rx::CloseJoin(choose(2, "taken")),
    };
    run(&Prog { buffer, senders, rx, urgent: false }, mem)
}

/// More messages than fit: the receiver takes one and gives way.
pub fn room(lens: &[&[usize]], mem: Mem) -> R<()> {
    let buffer = Some(choose(2, "capacity"));
    let shape = lens[choose(lens.len(), "shape")];
    let first = choose(2, "class");
    let senders: Vec<Vec<Op>> =
        shape.iter().enumerate().map(|(s, n)| (0..*n).map(|k| PUTS[(first + s + k / 2) % 2]).collect()).collect();
    run(&Prog { buffer, senders, rx: Rx::TakePause(1), urgent: false }, mem)
}

/// One sender closes the channel while the other sends.
pub fn closing(buffers: &[Option<usize>], mem: Mem) -> R<()> {
    let buffer = buffers[choose(buffers.len(), "capacity")];
    let a = vec![PUTS[choose(2, "a")], Op::Close];
    let b = ops(&[Op::Put(false), Op::Send(true), Op::Try(false)], 2);
    let rx = [Rx::Drain, Rx::TakeDrop(0)][choose(2, "receiver")];
    run(&Prog { buffer, senders: vec![a, b], rx, urgent: false }, mem)
}
