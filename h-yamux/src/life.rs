//! Stream and session lifecycle: Y04, Y05, Y06.
use std::cell::{Cell, RefCell};
use std::io;
use std::rc::Rc;
use std::time::Duration;

use mc_engine::exec::{self, Event, SEC};
use mc_engine::pipe::{break_dir, duplex, eof_dir, freeze_dir, PipeCfg};
use mc_engine::{bad, choose, choose_in, fail, outcome, Scenario, R};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio_yamux::{session::Session, stream::StreamHandle};

use crate::common::*;

// ---------------------------------------------------------------- Y04

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Write,
    Close,
    Drop,
    ReadToEnd,
}

fn scripts(max: usize) -> Vec<Vec<Op>> {
    let ops = [Op::Write, Op::Close, Op::Drop, Op::ReadToEnd];
    let mut out: Vec<Vec<Op>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let end = out.len();
        for i in from..end {
            if out[i].contains(&Op::Drop) {
                continue;
            }
            for o in ops.iter() {
                let mut v = out[i].clone();
                v.push(*o);
                out.push(v);
            }
        }
        from = end;
    }
    out
}

/// Does this script end the stream without first waiting for the peer to do so?
fn ends_alone(s: &[Op]) -> bool {
    for o in s {
        match o {
            Op::Close | Op::Drop => return true,
            Op::ReadToEnd => return false,
            Op::Write => {}
        }
    }
    false
}

fn script_pairs(max: usize) -> Vec<(Vec<Op>, Vec<Op>)> {
    let mut v = Vec::new();
    for a in scripts(max) {
        for b in scripts(max) {
            // somebody has to end the stream
            if ends_alone(&a) || ends_alone(&b) {
                v.push((a.clone(), b.clone()));
            }
        }
    }
    v
}

/// Run one end's script; then wait for the end of the stream and let go of it.
async fn run_script(who: String, s: Vec<Op>, h: StreamHandle, peer_wrote: Rc<RefCell<Vec<u8>>>, wrote: Rc<RefCell<Vec<u8>>>) {
    let h = Sh::new(h);
    let mut closed = false; // locally closed
    let mut ended = false; // end seen
    let mut got = 0usize;
    let mut val = who.len() as u8 * 16;
    let mut ops = s;
    if !ops.contains(&Op::Drop) {
        ops.push(Op::ReadToEnd);
    }
    for op in ops {
        match op {
            Op::Write => {
                let d = [val, val + 1];
                val += 2;
                let before = wrote.borrow().len();
                wrote.borrow_mut().extend_from_slice(&d);
                let r = h.write(&d).await;
                wrote.borrow_mut().truncate(before + *r.as_ref().unwrap_or(&0));
                if r.is_ok() {
                    if closed {
                        fail("write-after-close", format!("{}: write on a locally closed stream succeeded", who));
                    }
                    if ended {
                        fail("write-after-end", format!("{}: write succeeded after the peer ended the stream", who));
                    }
                }
                outcome(&[b'w', r.is_ok() as u8]);
            }
            Op::Close => {
                let r = h.shutdown().await;
                outcome(&[b'c', r.is_ok() as u8]);
                closed = true;
            }
            Op::Drop => {
                h.close();
                outcome(b"d");
                return;
            }
            Op::ReadToEnd => {
                let mut buf = [0u8; 8];
                loop {
                    match h.read(&mut buf).await {
                        Ok(0) => break,
                        Ok(n) => {
                            let w = peer_wrote.borrow();
                            if got + n > w.len() || w[got..got + n] != buf[..n] {
                                fail("wrong-bytes", format!("{}: read bytes the peer did not write", who));
                                return;
                            }
                            got += n;
                        }
                        Err(e) => {
                            outcome(format!("{}:{:?}", who, e.kind()).as_bytes());
                            break;
                        }
                    }
                }
                ended = true;
                // an ended stream stays ended
                if let Ok(n) = h.read(&mut buf).await {
                    if n > 0 {
                        fail("data-after-end", format!("{}: data after the end of the stream", who));
                    }
                }
                if h.write(&[1]).await.is_ok() {
                    fail("write-after-end", format!("{}: write succeeded after the end of the stream", who));
                }
            }
        }
    }
    h.close();
}

fn lifecycle(max: usize, two: bool) -> R<()> {
    let pairs = script_pairs(max);
    let (a, b) = choose_in(&pairs, "scripts");
    let by_client = choose_in(&[true, false], "opener");
    let second = if two {
        Some(choose_in(
            &[
                (vec![Op::Write, Op::Close], vec![Op::Write]),
                (vec![Op::Write], vec![Op::Drop]),
            ],
            "second stream",
        ))
    } else {
        None
    };
    let mut specs = vec![(by_client, a, b)];
    if let Some((a, b)) = second {
        specs.push((!by_client, a, b));
    }
    setup();
    let mut cfg = config(16);
    cfg.max_stream_count = specs.len();
    let p = pair(cfg, PipeCfg::default());
    let _w = tap(&p, |_, _| {});
    let n = specs.len();
    let wrote: Vec<[Rc<RefCell<Vec<u8>>>; 2]> = (0..n).map(|_| [Default::default(), Default::default()]).collect();
    let surfaced: Rc<RefCell<Vec<(bool, u32)>>> = Default::default();
    let opened: Rc<RefCell<Vec<(bool, u32)>>> = Default::default();
    // second round: streams opened after everything ended; the acceptor echoes one byte
    let round2 = Rc::new(Cell::new(false));
    let specs = Rc::new(specs);
    let acceptor = |client_side: bool| {
        let (surfaced, specs, wrote, round2) = (surfaced.clone(), specs.clone(), wrote.clone(), round2.clone());
        move |h: StreamHandle| {
            let by_client = !client_side;
            let id = h.id();
            if surfaced.borrow().contains(&(by_client, id)) {
                fail("stream-twice", format!("stream {} surfaced twice", id));
            }
            if (id % 2 == 1) != by_client {
                fail("parity", format!("stream {} surfaced at the {}", id, if client_side { "client" } else { "server" }));
            }
            surfaced.borrow_mut().push((by_client, id));
            if round2.get() {
                exec::spawn("echo", async move {
                    let h = Sh::new(h);
                    let mut b = [0u8; 4];
                    match h.read(&mut b).await {
                        Ok(1) => {
                            let _ = h.write(&b[..1]).await;
                            let _ = h.read(&mut b).await;
                        }
                        r => fail("refused-later", format!("later stream {}: {:?}", id, r)),
                    }
                });
                return;
            }
            if let Some(i) = (0..specs.len()).find(|i| specs[*i].0 == by_client) {
                let who = if client_side { "C-acc" } else { "S-acc" };
                exec::spawn(who, run_script(who.to_string(), specs[i].2.clone(), h, wrote[i][0].clone(), wrote[i][1].clone()));
            }
        }
    };
    let (mut ctl_c, mut ctl_s) = (p.client.control(), p.server.control());
    let (mut c2, mut s2) = (p.client.control(), p.server.control());
    drive("client", p.client, acceptor(true));
    drive("server", p.server, acceptor(false));
    for (i, (by_client, a, _)) in specs.iter().enumerate() {
        let mut ctl = if *by_client { ctl_c.clone() } else { ctl_s.clone() };
        let (opened, a, bc) = (opened.clone(), a.clone(), *by_client);
        let (w0, w1) = (wrote[i][0].clone(), wrote[i][1].clone());
        let who = if bc { "C-opn" } else { "S-opn" };
        exec::spawn(who, async move {
            match ctl.open_stream().await {
                Ok(h) => {
                    opened.borrow_mut().push((bc, h.id()));
                    run_script(who.to_string(), a, h, w1, w0).await
                }
                Err(e) => fail("open-failed", format!("{:?}", e)),
            }
        });
    }
    let e = exec::run(horizon(60));
    if let Some(v) = mc_engine::take_failure() {
        return Err(v);
    }
    if e == exec::End::Steps {
        return bad("livelock", "no rest");
    }
    let un: Vec<_> = exec::unfinished().into_iter().filter(|n| n != "client" && n != "server").collect();
    if !un.is_empty() {
        return bad("hang", format!("operations never complete: {:?}", un));
    }
    {
        let (mut o, mut s) = (opened.borrow().clone(), surfaced.borrow().clone());
        o.sort_unstable();
        s.sort_unstable();
        if o != s {
            return bad("surface", format!("opened {:?}, surfaced {:?}", o, s));
        }
    }
    // resources are free again: as many streams as the limit allows, from both sides
    exec::interrupt(false);
    round2.set(true);
    let n = specs.len();
    exec::spawn("round2", async move {
        let mut all = Vec::new();
        for side in 0..2 {
            let ctl = if side == 0 { &mut c2 } else { &mut s2 };
            for _ in 0..n {
                match ctl.open_stream().await {
                    Ok(h) => all.push(Sh::new(h)),
                    Err(e) => {
                        fail("not-released", format!("open after all streams ended: {:?}", e));
                        return;
                    }
                }
            }
            let mut b = [0u8; 4];
            for h in all.drain(..) {
                let _ = h.write(&[7]).await;
                match h.read(&mut b).await {
                    Ok(1) if b[0] == 7 => {}
                    r => {
                        fail("not-released", format!("stream opened after all others ended does not work: {:?}", r));
                        return;
                    }
                }
                let _ = h.shutdown().await;
            }
            // let the closes settle before the other direction
            for _ in 0..40 {
                exec::yield_now().await;
            }
        }
        ctl_c.close().await;
        ctl_s.close().await;
    });
    let mut o = horizon(120);
    o.sched = false;
    exec::run(o);
    if let Some(v) = mc_engine::take_failure() {
        return Err(v);
    }
    let un = exec::unfinished();
    if !un.is_empty() {
        return bad("hang", format!("never finish: {:?}", un));
    }
    Ok(())
}

/// One end is blocked writing on an exhausted window when the other end goes away.
fn blocked_writer() -> R<()> {
    setup();
    let op = choose_in(&[Op::Close, Op::Drop], "end");
    let reads_first = choose_in(&[0usize, 1, 3], "bytes the other end reads first");
    let writer_opens = choose_in(&[true, false], "writer opens");
    let p = pair(config(2), PipeCfg::default());
    let _w = tap(&p, |_, _| {});
    let writer_side = |h: StreamHandle| {
        let h = Sh::new(h);
        let h2 = h.clone();
        exec::spawn("blocked-writer", async move {
            let mut n = 0;
            loop {
                match h.write(&[9; 3]).await {
                    Ok(k) => n += k,
                    Err(_) => break,
                }
                if n > 40 {
                    fail("unbounded-write", "writer never blocks although nobody reads");
                    break;
                }
            }
            outcome(&[n as u8]);
        });
        exec::spawn("writer-reader", async move {
            let mut b = [0; 4];
            while let Ok(n) = h2.read(&mut b).await {
                if n == 0 {
                    break;
                }
            }
        });
    };
    let other_side = move |h: StreamHandle| {
        exec::spawn("other", async move {
            let h = Sh::new(h);
            let mut b = vec![0; reads_first];
            if reads_first > 0 {
                let _ = h.read(&mut b).await;
            }
            for _ in 0..6 {
                exec::yield_now().await;
            }
            match op {
                Op::Close => {
                    let _ = h.shutdown().await;
                    let mut b = [0; 8];
                    while let Ok(n) = h.read(&mut b).await {
                        if n == 0 {
                            break;
                        }
                    }
                }
                _ => h.close(),
            }
        });
    };
    let mut ctl = p.client.control();
    let mut close = p.client.control();
    drive("client", p.client, |_| {});
    drive("server", p.server, move |h| {
        if writer_opens {
            other_side(h)
        } else {
            writer_side(h)
        }
    });
    exec::spawn("opener", async move {
        if let Ok(h) = ctl.open_stream().await {
            if writer_opens {
                writer_side(h)
            } else {
                other_side(h)
            }
        }
    });
    exec::run(horizon(60));
    if let Some(v) = mc_engine::take_failure() {
        return Err(v);
    }
    let un: Vec<_> = exec::unfinished().into_iter().filter(|n| n != "client" && n != "server").collect();
    if !un.is_empty() {
        return bad("hang", format!("never finish after the peer ended the stream: {:?}", un));
    }
    exec::spawn("close", async move { close.close().await });
    let mut o = horizon(120);
    o.sched = false;
    exec::run(o);
    let un = exec::unfinished();
    if !un.is_empty() {
        return bad("hang", format!("never finish: {:?}", un));
    }
    Ok(())
}

/// Both sides open several streams at once; all surface once, with distinct ids.
fn concurrent_open(k: usize) -> R<()> {
    setup();
    let drop_now = choose_in(&[false, true], "drop at once");
    let p = pair(config(16), PipeCfg::default());
    let _w = tap(&p, |_, _| {});
    let seen: Rc<RefCell<Vec<(bool, u32)>>> = Default::default();
    let opened: Rc<RefCell<Vec<(bool, u32)>>> = Default::default();
    let keep: Rc<RefCell<Vec<StreamHandle>>> = Default::default();
    let (mut c, mut s) = (p.client.control(), p.server.control());
    let acc = |client: bool| {
        let (seen, keep) = (seen.clone(), keep.clone());
        move |h: StreamHandle| {
            seen.borrow_mut().push((!client, h.id()));
            keep.borrow_mut().push(h);
        }
    };
    drive("client", p.client, acc(true));
    drive("server", p.server, acc(false));
    for i in 0..2 * k {
        let client = i % 2 == 0;
        let mut ctl = if client { c.clone() } else { s.clone() };
        let (opened, keep) = (opened.clone(), keep.clone());
        exec::spawn(format!("open{}", i), async move {
            match ctl.open_stream().await {
                Ok(h) => {
                    opened.borrow_mut().push((client, h.id()));
                    if !drop_now {
                        keep.borrow_mut().push(h);
                    }
                }
                Err(e) => fail("open-failed", format!("{:?}", e)),
            }
        });
    }
    exec::run(horizon(60));
    if let Some(v) = mc_engine::take_failure() {
        return Err(v);
    }
    let (mut o, mut z) = (opened.borrow().clone(), seen.borrow().clone());
    outcome(format!("{:?}", z).as_bytes());
    o.sort_unstable();
    z.sort_unstable();
    if o.len() != 2 * k {
        return bad("hang", format!("only {} of {} opens completed", o.len(), 2 * k));
    }
    if o != z {
        return bad("surface", format!("opened {:?}, surfaced {:?}", o, z));
    }
    let mut ids: Vec<u32> = o.iter().map(|x| x.1).collect();
    ids.dedup();
    if ids.len() != o.len() || o.iter().any(|(c, id)| (*id % 2 == 1) != *c) {
        return bad("ids", format!("ids not unique or wrong parity: {:?}", o));
    }
    let _ = (&mut c, &mut s);
    Ok(())
}

pub fn y04(thorough: bool) -> Vec<Scenario> {
    let d = thorough as usize;
    vec![
        Scenario::new("scripts", 2 + d, 900,
            "one stream, each end runs every script of <=2 operations over {write, close, drop, read to end} in which somebody ends the stream, opened by either side; schedules within the deviation bound; afterwards max_stream_count new streams in each direction must work",
            || lifecycle(2, false)),
        Scenario::new("scripts-two-streams", 2 + d, 900,
            "as scripts with <=1 operation per end, plus a second stream opened by the other side; schedules within the bound",
            || lifecycle(1, true)),
        Scenario::new("blocked-writer", 2 + d, 300,
            "one end blocked on an exhausted window of 2 bytes, the other reads {0,1,3} bytes and closes or drops; schedules within the bound", blocked_writer),
        Scenario::new("concurrent-open", 2 + d, 300,
            "2 opens on each side at once, dropped at once or kept; schedules within the bound", || concurrent_open(2)),
        Scenario::new("scripts-inside", 1 + d, 900,
            "as scripts, tasks also interrupted at every channel operation", || { exec::interrupt(true); lifecycle(2, false) }),
        Scenario::new("blocked-writer-inside", 1 + d, 300,
            "as blocked-writer, tasks also interrupted at every channel operation", || { exec::interrupt(true); blocked_writer() }),
        Scenario::new("concurrent-open-inside", 1 + d, 300,
            "as concurrent-open, tasks also interrupted at every channel operation", || { exec::interrupt(true); concurrent_open(2) }),
        Scenario::new("scripts-long", 0, 300,
            "as scripts with up to 3 operations per end, FIFO schedule", || lifecycle(3, false)),
    ]
}

// ---------------------------------------------------------------- Y05

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kill {
    ClientClose,
    ServerClose,
    BothClose,
    CloseTwice,
    TransportEof,
    TransportError,
    ServerHalfEof,
    DropClientSession,
    FrozenThenClose,
}

fn session_end(max_step: usize, kinds: &[Kill], caps: &[usize]) -> R<()> {
    setup();
    let kind = choose_in(kinds, "end of session");
    let cap = choose_in(caps, "transport capacity");
    let k = choose(max_step, "step") as u64 + 1;
    let p = pair(config(4), PipeCfg { cap, ..Default::default() });
    let _w = tap(&p, |_, _| {});
    let (ab, ba) = (p.ab.clone(), p.ba.clone());
    let (cc, cs) = (p.client.control(), p.server.control());
    let use_stream = |h: StreamHandle, side: &'static str| {
        let h = Sh::new(h);
        let h2 = h.clone();
        // a writer that soon exhausts the window
        exec::spawn(format!("writer{}-{}", h.id(), side), async move {
            let r = h.write_all(&[5; 11]).await;
            outcome(&[b'w', r.is_ok() as u8]);
        });
        // a reader that takes a few bytes and then only waits for the end
        exec::spawn(format!("reader-{}", side), async move {
            let mut b = [0u8; 1];
            while let Ok(n) = h2.read(&mut b).await {
                if n == 0 {
                    break;
                }
            }
        });
    };
    let idle_stream = |h: StreamHandle, side: &'static str| {
        exec::spawn(format!("idle-{}", side), async move {
            let h = Sh::new(h);
            let mut b = [0u8; 1];
            // nobody ever writes on this stream
            if let Ok(n) = h.read(&mut b).await {
                if n > 0 {
                    fail("wrong-bytes", "data on a stream nobody wrote to");
                }
            }
        });
    };
    // the acceptor of stream 1 never reads: the opener's writer blocks on the window
    let blocked = |h: StreamHandle, side: &'static str, stop: Event| {
        exec::spawn_daemon(format!("hold-{}", side), async move {
            let h = Sh::new(h);
            stop.wait().await;
            h.close();
        });
    };
    let never = Event::new();
    let n2 = never.clone();
    let ce = {
        let s = exec::spawn_daemon("noop", async {});
        let _ = s;
        let name = "client-c";
        let cell = Rc::new(RefCell::new(SessEnd::Running));
        let c2 = cell.clone();
        let mut session = p.client;
        let h = exec::spawn(name, async move {
            use futures::StreamExt;
            loop {
                match session.next().await {
                    Some(Ok(h)) => idle_stream(h, "c"),
                    Some(Err(e)) => {
                        *c2.borrow_mut() = SessEnd::Failed(e.kind(), exec::now());
                        break;
                    }
                    None => {
                        *c2.borrow_mut() = SessEnd::Finished(exec::now());
                        break;
                    }
                }
            }
        });
        (cell, h.id)
    };
    let (ce, client_task) = ce;
    let count = Cell::new(0);
    let se = drive("server-s", p.server, move |h| {
        count.set(count.get() + 1);
        if h.id() == 1 {
            blocked(h, "s", n2.clone())
        } else {
            use_stream(h, "s")
        }
    });
    // client opens a stream whose peer never reads, one with traffic both ways, and more later
    {
        let mut ctl = cc.clone();
        exec::spawn("opener-c", async move {
            for i in 0..5 {
                match ctl.open_stream().await {
                    Ok(h) => use_stream(h, "c"),
                    Err(_) => {
                        outcome(&[b'o', i]);
                        break;
                    }
                }
                exec::yield_now().await;
            }
        });
        let mut ctl = cs.clone();
        exec::spawn("opener-s", async move {
            if let Ok(h) = ctl.open_stream().await {
                idle_stream(h, "s")
            }
        });
    }
    let t_end: Rc<Cell<Option<u64>>> = Rc::new(Cell::new(None));
    {
        let t_end = t_end.clone();
        let (mut a, mut b, a2) = (cc.clone(), cs.clone(), cc.clone());
        exec::at_step(k, move || {
            t_end.set(Some(exec::now()));
            match kind {
                Kill::ClientClose => {
                    exec::spawn("close-c", async move { a.close().await });
                }
                Kill::ServerClose => {
                    exec::spawn("close-s", async move { b.close().await });
                }
                Kill::BothClose => {
                    exec::spawn("close-c", async move { a.close().await });
                    exec::spawn("close-s", async move { b.close().await });
                }
                Kill::CloseTwice => {
                    let mut a2 = a2;
                    exec::spawn("close-c", async move { a.close().await });
                    exec::spawn("close2-c", async move { a2.close().await });
                }
                Kill::TransportEof => {
                    eof_dir(&ab);
                    eof_dir(&ba);
                }
                Kill::TransportError => {
                    break_dir(&ab, io::ErrorKind::ConnectionReset);
                    break_dir(&ba, io::ErrorKind::ConnectionReset);
                }
                Kill::ServerHalfEof => {
                    let mut d = ba.lock().unwrap();
                    d.eof = true;
                    d.wake_all();
                }
                Kill::DropClientSession => exec::abort(client_task),
                Kill::FrozenThenClose => {
                    freeze_dir(&ab);
                    freeze_dir(&ba);
                    exec::spawn("close-c", async move { a.close().await });
                }
            }
        });
    }
    let e = exec::run(horizon(300));
    if let Some(v) = mc_engine::take_failure() {
        return Err(v);
    }
    if e == exec::End::Steps {
        return bad("livelock", format!("no rest after {:?}", kind));
    }
    let t0 = t_end.get().unwrap_or(0);
    let one_sided = kind == Kill::FrozenThenClose;
    if kind != Kill::DropClientSession {
        match ce.borrow().at() {
            Some(t) if t <= t0 + 10 * SEC => {}
            o => return bad("session-hangs", format!("client session after {:?}: {:?} (event at {})", kind, o, t0)),
        }
    }
    if !one_sided {
        match se.borrow().at() {
            Some(t) if t <= t0 + 10 * SEC => {}
            o => return bad("session-hangs", format!("server session after {:?}: {:?} (event at {})", kind, o, t0)),
        }
    }
    let un: Vec<String> = exec::unfinished().into_iter().filter(|n| !(one_sided && n.ends_with("-s"))).collect();
    if !un.is_empty() {
        return bad("waiter-hangs", format!("still waiting after {:?}: {:?}", kind, un));
    }
    // nothing can be opened any more, and closing again does not hang
    let ok = Rc::new(Cell::new(0));
    for mut ctl in if one_sided { vec![cc] } else { vec![cc, cs] } {
        let ok = ok.clone();
        exec::spawn("late-open", async move {
            if ctl.open_stream().await.is_ok() {
                fail("open-after-end", "a stream was opened on an ended session");
            }
            ctl.close().await;
            ok.set(ok.get() + 1);
        });
    }
    let mut o = horizon(300);
    o.sched = false;
    exec::run(o);
    if let Some(v) = mc_engine::take_failure() {
        return Err(v);
    }
    if exec::unfinished().iter().any(|n| n == "late-open") {
        return bad("late-open-hangs", "open or close on an ended session hangs");
    }
    outcome(format!("{:?}", kind).as_bytes());
    never.set();
    Ok(())
}

pub fn y05(thorough: bool) -> Vec<Scenario> {
    use Kill::*;
    let d = thorough as usize;
    vec![
        Scenario::new("end-anywhere", 1 + d, 900,
            "idle, busy and blocked streams and pending opens on both sides, 9 ways to end the session at every scheduling step 1..40; schedules within the bound",
            || session_end(40, &[ClientClose, ServerClose, BothClose, CloseTwice, TransportEof, TransportError, ServerHalfEof, DropClientSession, FrozenThenClose], &[1 << 20])),
        Scenario::new("late-open", 0, 60,
            "one to three streams opened by the peer after this side asked to close, with or without data, a peer that answers the close or not", crate::raw::late_open),
        Scenario::new("end-inside", 1, 900,
            "as end-anywhere, at each of the first thirteen steps, tasks also interrupted at every channel operation",
            || { exec::interrupt(true); session_end(13, &[ClientClose, ServerClose, BothClose, TransportEof, DropClientSession, FrozenThenClose], &[1 << 20]) }),
        Scenario::new("end-slow-transport", 1 + d, 900,
            "same with a transport that holds 20 bytes, steps 1..70",
            || session_end(70, &[ClientClose, ServerClose, BothClose, CloseTwice, TransportEof, TransportError, ServerHalfEof, DropClientSession, FrozenThenClose], &[20, 5])),
    ]
}

// ---------------------------------------------------------------- Y06

#[derive(Clone, Copy, PartialEq, Debug)]
enum Answer {
    Now,
    Late(u64),
    Skip,
}

/// A scripted peer answers keepalive pings; `stop_after` pings it falls silent.
fn keepalive(intervals: &[u64], n: usize, lates: &[u64]) -> R<()> {
    setup();
    let interval = choose_in(intervals, "interval");
    let stop = choose(n + 1, "silent after");
    let as_client = choose_in(&[true, false], "session type");
    let traffic = choose_in(&[false, true], "peer sends pings of its own");
    let mut cfg = config(64);
    cfg.enable_keepalive = true;
    cfg.keepalive_interval = Duration::from_secs(interval);
    let (a, b, _, _) = duplex(PipeCfg::default());
    let session = if as_client { Session::new_client(a, cfg) } else { Session::new_server(a, cfg) };
    let end = drive("session", session, |_| {});
    let lates = lates.to_vec();
    let (mut rd, wr) = tokio::io::split(b);
    let wr = Rc::new(RefCell::new(wr));
    let last_answer = Rc::new(Cell::new(0u64));
    let seen = Rc::new(Cell::new(0usize));
    let acks: Rc<RefCell<Vec<u32>>> = Default::default();
    async fn send(wr: &Rc<RefCell<tokio::io::WriteHalf<mc_engine::pipe::End>>>, f: RefFrame) {
        // the pipe never blocks here
        let b = f.bytes();
        let _ = wr.borrow_mut().write_all(&b).await;
    }
    {
        let (wr, last, seen, acks) = (wr.clone(), last_answer.clone(), seen.clone(), acks.clone());
        exec::spawn_daemon("peer", async move {
            let mut dec = RefDecoder::default();
            let mut buf = [0u8; 256];
            let mut unanswered = 0;
            loop {
                let k = match rd.read(&mut buf).await {
                    Ok(k) if k > 0 => k,
                    _ => return,
                };
                for f in dec.push(&buf[..k]) {
                    if f.ty == 2 && f.has(ACK) {
                        acks.borrow_mut().push(f.len);
                    }
                    if f.ty == 2 && f.has(SYN) {
                        seen.set(seen.get() + 1);
                        if seen.get() > stop && stop < n {
                            continue;
                        }
                        let mut alts = vec![Answer::Now];
                        for l in &lates {
                            alts.push(Answer::Late(*l));
                        }
                        // one ping may go unanswered when the next one is answered in time
                        if interval * 2 <= 25 && unanswered == 0 {
                            alts.push(Answer::Skip);
                        }
                        let k = alts[mc_engine::deviate(alts.len(), "answer")];
                        unanswered = (k == Answer::Skip) as usize;
                        match k {
                            Answer::Now => {
                                last.set(exec::now());
                                send(&wr, RefFrame::ping(ACK, f.len)).await
                            }
                            Answer::Late(d) => {
                                let (wr, last) = (wr.clone(), last.clone());
                                exec::spawn_daemon("late", async move {
                                    tokio_yamux::verif::Delay::new(Duration::from_secs(d)).await;
                                    last.set(exec::now());
                                    send(&wr, RefFrame::ping(ACK, f.len)).await
                                });
                            }
                            Answer::Skip => {}
                        }
                    }
                }
            }
        });
    }
    let mine = [0u32, 1, 7, 64, 65, 262_144, 262_145, u32::max_value()];
    if traffic {
        let wr = wr.clone();
        exec::spawn_daemon("pinger", async move {
            for v in mine.iter() {
                send(&wr, RefFrame::ping(SYN, *v)).await;
                tokio_yamux::verif::Delay::new(Duration::from_secs(1)).await;
            }
        });
    }
    let total = interval * (n as u64 + 2);
    let mut o = horizon(total);
    o.sched = false;
    exec::run(o);
    if let Some(v) = mc_engine::take_failure() {
        return Err(v);
    }
    if stop == n {
        if *end.borrow() != SessEnd::Running {
            return bad("killed-alive", format!("session ended though every ping was answered in time: {:?}", end.borrow()));
        }
        if seen.get() < n {
            return bad("no-ping", format!("only {} pings in {} s at interval {} s", seen.get(), total, interval));
        }
    }
    // now (or since) the peer is silent: the session has to end
    if stop == n {
        // stop answering
        exec::abort(1);
    }
    let mut o = horizon(total + 400);
    o.sched = false;
    exec::run(o);
    let t_silent = if stop == n { (total * SEC).max(last_answer.get()) } else { last_answer.get() };
    let bound = t_silent + (30 + 3 * interval) * SEC;
    match end.borrow().at() {
        Some(t) if t <= bound => {}
        o => return bad("silent-peer-kept", format!("peer silent since {} s, interval {} s: session {:?}", t_silent / SEC, interval, o)),
    }
    if traffic && mine.len() as u64 <= total {
        let got = acks.borrow();
        if *got != mine.to_vec()[..] && end.borrow().at().unwrap() > 9 * SEC {
            return bad("ping-answer", format!("pings {:?} answered with {:?}", mine, got));
        }
    }
    outcome(format!("{:?} {}", end.borrow(), seen.get()).as_bytes());
    Ok(())
}

/// A long-lived session with prompt answers.
fn long_life(window: u32, pings: u64) -> R<()> {
    setup();
    let mut cfg = config(window);
    cfg.enable_keepalive = true;
    cfg.keepalive_interval = Duration::from_secs(30);
    let (a, b, _, _) = duplex(PipeCfg::default());
    let end = drive("session", Session::new_client(a, cfg), |_| {});
    // the peer is a real session
    let mut pc = cfg;
    pc.enable_keepalive = false;
    let pend = drive("peer", Session::new_server(b, pc), |_| {});
    let mut o = horizon(30 * pings + 5);
    o.sched = false;
    o.max_steps = 10 * pings + 1000;
    exec::run(o);
    if *end.borrow() != SessEnd::Running || *pend.borrow() != SessEnd::Running {
        return bad("killed-alive", format!("after at most {} answered pings: {:?} / {:?}", pings, end.borrow(), pend.borrow()));
    }
    Ok(())
}

pub fn y06(thorough: bool) -> Vec<Scenario> {
    let n = if thorough { 9 } else { 7 };
    vec![
        Scenario::new("answers", if thorough { 5 } else { 3 }, 600,
            "keepalive interval {5,30,40} s, peer answers each ping at once, 9 s or 29 s late, or skips one, then falls silent after any number of pings or never; peer pings with 8 boundary values",
            move || keepalive(&[5, 30, 40], n, &[9, 29])),
        Scenario::new("long-life-small-window", 0, 60, "200 answered pings, window 16", || long_life(16, 200)),
        Scenario::new("long-life", 0, 120, "262,150 answered pings, default window", || long_life(262_144, 262_150)),
    ]
}
