//! Byte transfer over real session pairs: Y01, Y02, Y03.
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Duration;

use futures::future::poll_fn;
use mc_engine::exec::{self, Event};
use mc_engine::pipe::PipeCfg;
use mc_engine::{bad, choose_in, fail, outcome, Scenario, R};
use tokio_yamux::{config::Config, stream::StreamHandle};

use crate::common::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum EndKind {
    Fin,
    Drop,
}

#[derive(Clone, Debug)]
pub struct Spec {
    /// opened by the client?
    pub by_client: bool,
    /// sizes written by the opener and by the acceptor
    pub w: [Vec<usize>; 2],
    /// read buffer size of the opener and of the acceptor
    pub rb: [usize; 2],
    /// the acceptor starts reading only when released
    pub hold: bool,
    /// 0: the opener ends the stream, 1: the acceptor
    pub ender: usize,
    pub end: EndKind,
}

impl Default for Spec {
    fn default() -> Self {
        Spec {
            by_client: true,
            w: [vec![], vec![]],
            rb: [64, 64],
            hold: false,
            ender: 0,
            end: EndKind::Fin,
        }
    }
}

pub struct World {
    pub cfg: Config,
    pub pipe: PipeCfg,
    pub specs: Vec<Spec>,
    /// check credits on the wire
    pub credit: bool,
    /// release held readers only after everything else came to rest
    pub stall_phase: bool,
    /// when to release held readers otherwise: after the opener wrote everything
    pub sched: bool,
}

thread_local! {
    // bytes consumed by the application: (reader is client, stream id) -> n
    static CONSUMED: RefCell<HashMap<(bool, u32), u64>> = RefCell::new(HashMap::new());
}

thread_local! {
    /// turns a reader gives away after each read
    static PACE: Cell<usize> = Cell::new(0);
}

/// Read and count what was read; a read that is under way counts in full.
async fn consume(h: &Sh, key: (bool, u32), buf: &mut [u8]) -> std::io::Result<usize> {
    let add = |n: i64| {
        CONSUMED.with(|c| {
            let mut c = c.borrow_mut();
            let e = c.entry(key).or_default();
            *e = (*e as i64 + n) as u64
        })
    };
    poll_fn(|cx| {
        let full = buf.len() as i64;
        add(full);
        let r = h.poll_read(cx, buf);
        match &r {
            std::task::Poll::Ready(Ok(n)) => add(*n as i64 - full),
            _ => add(-full),
        }
        r
    })
    .await
}

fn pattern(idx: usize, side: usize, len: usize) -> Vec<u8> {
    (0..len)
        .map(|i| ((idx * 83 + side * 41 + i * 7 + i / 36) % 251) as u8)
        .collect()
}

struct Shared {
    specs: Vec<Spec>,
    /// sides still running
    left: Cell<usize>,
    all_done: Event,
    seen: RefCell<Vec<[bool; 2]>>,
    release: Vec<Event>,
    auto_release: bool,
    done_side: RefCell<Vec<[bool; 2]>>,
}

fn spawn_side(sh: &Rc<Shared>, idx: usize, side: usize, h: StreamHandle) {
    let spec = sh.specs[idx].clone();
    let id = h.id();
    let is_client = spec.by_client == (side == 0);
    {
        let mut seen = sh.seen.borrow_mut();
        if seen[idx][side] {
            fail("stream-twice", format!("stream {} surfaced twice", id));
        }
        seen[idx][side] = true;
    }
    let h = Sh::new(h);
    let got_all = Event::new();
    let ended = Event::new();
    let ending = Rc::new(Cell::new(false));
    let expect = pattern(idx, 1 - side, spec.w[1 - side].iter().sum());
    if expect.is_empty() {
        got_all.set();
    }
    let name = |w: &str| {
        format!(
            "{}-{}{}",
            w,
            if side == 0 { "open" } else { "accept" },
            id
        )
    };
    // writer
    {
        let ending = ending.clone();
        let (h, got_all, ended, sh, spec) =
            (h.clone(), got_all.clone(), ended.clone(), sh.clone(), spec.clone());
        exec::spawn(name("writer"), async move {
            let data = pattern(idx, side, spec.w[side].iter().sum());
            let mut off = 0;
            for n in &spec.w[side] {
                if h.write_all(&data[off..off + n]).await.is_err() {
                    fail(
                        "write-failed",
                        format!("stream {}: write failed though nobody closed it", id),
                    );
                    return;
                }
                off += n;
            }
            if sh.auto_release && side == 0 && spec.ender == 1 {
                sh.release[idx].set();
            }
            if spec.ender == side {
                got_all.wait().await;
                ending.set(true);
                match spec.end {
                    EndKind::Fin => {
                        let _ = h.shutdown().await;
                    }
                    EndKind::Drop => h.close(),
                }
                ended.set();
                if side == 0 && sh.auto_release {
                    sh.release[idx].set();
                }
            }
        });
    }
    // reader
    {
        let (h, sh) = (h.clone(), sh.clone());
        exec::spawn(name("reader"), async move {
            if spec.hold && side == 1 {
                sh.release[idx].wait().await;
            }
            let mut got = 0usize;
            let mut buf = vec![0u8; spec.rb[side]];
            loop {
                let r = if spec.ender == side {
                    match or_event(&ended, consume(&h, (is_client, id), &mut buf)).await {
                        Some(r) => r,
                        None => break,
                    }
                } else {
                    consume(&h, (is_client, id), &mut buf).await
                };
                match r {
                    Ok(0) | Err(_) => {
                        if got != expect.len() {
                            fail(
                                "truncated",
                                format!(
                                    "stream {} ended after {} of {} bytes ({:?})",
                                    id,
                                    got,
                                    expect.len(),
                                    r
                                ),
                            );
                        } else if spec.ender == side && !ending.get() {
                            fail(
                                "early-end",
                                format!("stream {} ended though the peer did not end it", id),
                            );
                        }
                        break;
                    }
                    Ok(n) => {
                        if got + n > expect.len() || buf[..n] != expect[got..got + n] {
                            fail(
                                "wrong-bytes",
                                format!(
                                    "stream {} at offset {}: read {:?}, sent {:?}",
                                    id,
                                    got,
                                    &buf[..n],
                                    &expect[got.min(expect.len())..(got + n).min(expect.len())]
                                ),
                            );
                            break;
                        }
                        got += n;
                        outcome(&[idx as u8, side as u8, n as u8]);
                        if got == expect.len() {
                            got_all.set();
                        }
                        for _ in 0..PACE.with(|p| p.get()) {
                            exec::yield_now().await;
                        }
                    }
                }
            }
            h.close();
            sh.done_side.borrow_mut()[idx][side] = true;
            sh.left.set(sh.left.get() - 1);
            if sh.left.get() == 0 {
                sh.all_done.set();
            }
        });
    }
}

/// Readers that let everybody else go on after each read.
fn paced() {
    let n = choose_in(&[0usize, 4], "pause after a read");
    PACE.with(|p| p.set(n));
}

pub fn run_world(w: World) -> R<()> {
    setup();
    CONSUMED.with(|c| c.borrow_mut().clear());
    let p = pair(w.cfg, w.pipe);
    let window = u64::from(w.cfg.max_stream_window_size);
    let credit = w.credit;
    let mut sent: HashMap<(bool, u32), u64> = HashMap::new();
    let mut granted: HashMap<(bool, u32), u64> = HashMap::new();
    let wire = tap(&p, move |fc, f| {
        if !credit {
            return;
        }
        match f.ty {
            0 => {
                let s = sent.entry((fc, f.id)).or_default();
                *s += u64::from(f.len);
                let g = granted.get(&(!fc, f.id)).copied().unwrap_or(0);
                if *s > window + g {
                    fail(
                        "window-overrun",
                        format!(
                            "stream {}: {} bytes sent, window {} + granted {}",
                            f.id, s, window, g
                        ),
                    );
                }
            }
            1 => {
                let g = granted.entry((fc, f.id)).or_default();
                *g += u64::from(f.len);
                let c = CONSUMED.with(|c| c.borrow().get(&(fc, f.id)).copied().unwrap_or(0));
                if *g > c {
                    fail(
                        "over-grant",
                        format!("stream {}: granted {} but only {} consumed", f.id, g, c),
                    );
                }
            }
            _ => {}
        }
    });
    let n = w.specs.len();
    let sh = Rc::new(Shared {
        left: Cell::new(n * 2),
        all_done: Event::new(),
        seen: RefCell::new(vec![[false; 2]; n]),
        release: (0..n).map(|_| Event::new()).collect(),
        done_side: RefCell::new(vec![[false; 2]; n]),
        auto_release: !w.stall_phase,
        specs: w.specs,
    });
    // spec index of the k-th stream opened by each side
    let order = |by_client: bool| -> Vec<usize> {
        (0..n).filter(|i| sh.specs[*i].by_client == by_client).collect()
    };
    let (oc, os) = (order(true), order(false));
    let (cc, cs) = (p.client.control(), p.server.control());
    let mut close_ctl = p.client.control();
    // acceptors: the client accepts what the server opened and vice versa
    let mk = |list: Vec<usize>, first: u32| {
        let sh = sh.clone();
        move |h: StreamHandle| {
            let id = h.id();
            let k = id.wrapping_sub(first);
            if k % 2 != 0 || (k / 2) as usize >= list.len() {
                fail("unknown-stream", format!("stream {} surfaced, nobody opened it", id));
                return;
            }
            spawn_side(&sh, list[(k / 2) as usize], 1, h);
        }
    };
    let ce = drive("client", p.client, mk(os.clone(), 2));
    let se = drive("server", p.server, mk(oc.clone(), 1));
    for (mut ctl, list, name) in vec![(cc, oc, "open-c"), (cs, os, "open-s")] {
        if list.is_empty() {
            continue;
        }
        let sh = sh.clone();
        exec::spawn(name, async move {
            for idx in list {
                match ctl.open_stream().await {
                    Ok(h) => spawn_side(&sh, idx, 0, h),
                    Err(e) => {
                        fail("open-failed", format!("open_stream: {:?}", e));
                        return;
                    }
                }
            }
        });
    }
    {
        let done = sh.all_done.clone();
        exec::spawn("closer", async move {
            done.wait().await;
            close_ctl.close().await;
        });
    }
    let mut opts = horizon(60);
    opts.sched = w.sched;
    opts.max_steps = 200_000;
    if w.stall_phase {
        let mut o1 = opts;
        o1.horizon = 12 * exec::SEC;
        // held readers are released by nobody in this phase
        let e = exec::run(o1);
        if let Some(v) = mc_engine::take_failure() {
            return Err(v);
        }
        if e == exec::End::Steps {
            return bad("livelock", "no rest while a stream is stalled");
        }
        for i in 0..n {
            if !sh.specs[i].hold && sh.done_side.borrow()[i] != [true; 2] {
                return bad(
                    "blocked-by-stalled-stream",
                    format!("stream #{} did not complete while another stream is not read: {:?}", i, exec::unfinished()),
                );
            }
        }
        // keepalive pings of either side were answered meanwhile
        let ws = wire.lock().unwrap();
        let mut pings = 0;
        for (fc, f) in ws.iter() {
            if f.ty == 2 && f.has(SYN) {
                pings += 1;
                if !ws.iter().any(|(c, g)| *c != *fc && g.ty == 2 && g.has(ACK) && g.len == f.len) {
                    return bad("ping-unanswered", "a ping was not answered while a stream is stalled");
                }
            }
        }
        outcome(&[pings]);
        drop(ws);
        for r in &sh.release {
            r.set();
        }
        opts.horizon = 100 * exec::SEC;
    }
    let e = exec::run(opts);
    if let Some(v) = mc_engine::take_failure() {
        return Err(v);
    }
    if e == exec::End::Steps {
        return bad("livelock", "the system does not come to rest");
    }
    let un = exec::unfinished();
    if !un.is_empty() {
        return bad("stall", format!("tasks never finish: {:?}", un));
    }
    for s in &[ce, se] {
        if let SessEnd::Failed(k, _) = *s.borrow() {
            // a transport closed by the peer after the close exchange is fine
            outcome(format!("{:?}", k).as_bytes());
        }
    }
    let _ = Duration::from_secs(0);
    Ok(())
}

fn lists(sizes: &[usize], max: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let end = out.len();
        for i in from..end {
            for s in sizes {
                let mut v = out[i].clone();
                v.push(*s);
                out.push(v);
            }
        }
        from = end;
    }
    out.remove(0);
    out
}

fn chunk_world(credit: bool, sizes: &[usize], max: usize, wins: &[u32], rbs: &[usize], caps: &[usize], sched: bool, frag: bool) -> R<()> {
    let w = choose_in(&lists(sizes, max), "writes");
    let window = choose_in(wins, "window");
    let rb = choose_in(rbs, "read buffer");
    let cap = choose_in(caps, "transport capacity");
    let spec = Spec {
        by_client: choose_in(&[true, false], "opener"),
        w: if choose_in(&[true, false], "writer is opener") {
            [w, vec![]]
        } else {
            [vec![], w]
        },
        rb: [rb, rb],
        hold: false,
        ender: 0,
        end: choose_in(&[EndKind::Fin, EndKind::Drop], "end"),
    };
    let mut spec = spec;
    // the writer ends the stream right after its last write
    spec.ender = if spec.w[0].is_empty() { 1 } else { 0 };
    run_world(World {
        cfg: config(window),
        pipe: PipeCfg {
            cap,
            frag,
            ..Default::default()
        },
        specs: vec![spec],
        credit,
        stall_phase: false,
        sched,
    })
}

fn duplex_world(credit: bool, window: u32, caps: &[usize]) -> R<()> {
    let cap = choose_in(caps, "transport capacity");
    let end = choose_in(&[EndKind::Fin, EndKind::Drop], "end");
    let ender = choose_in(&[0usize, 1], "ender");
    run_world(World {
        cfg: config(window),
        pipe: PipeCfg {
            cap,
            frag: true,
            ..Default::default()
        },
        specs: vec![
            Spec {
                by_client: true,
                w: [vec![3, 4], vec![2]],
                rb: [2, 3],
                ender,
                end,
                ..Default::default()
            },
            Spec {
                by_client: false,
                w: [vec![2], vec![5, 1]],
                rb: [4, 1],
                ender: 1 - ender,
                end,
                ..Default::default()
            },
        ],
        credit,
        stall_phase: false,
        sched: true,
    })
}

/// The acceptor reads nothing until all frames are written.
fn backlog_world(counts: &[usize], window: u32, sched: bool) -> R<()> {
    let n = choose_in(counts, "frames");
    let end = choose_in(&[EndKind::Fin, EndKind::Drop], "end");
    let cap = choose_in(&[1usize << 20, 30], "transport capacity");
    run_world(World {
        cfg: config(window),
        pipe: PipeCfg {
            cap,
            ..Default::default()
        },
        specs: vec![
            Spec {
                w: [vec![1; n], vec![]],
                hold: true,
                rb: [8, 3],
                end,
                ..Default::default()
            },
            Spec {
                by_client: false,
                w: [vec![4, 4], vec![3]],
                ..Default::default()
            },
        ],
        credit: false,
        stall_phase: false,
        sched,
    })
}

pub fn y01(thorough: bool) -> Vec<Scenario> {
    let d = thorough as usize;
    vec![
        Scenario::new("chunks", 0, 120,
            "one stream, all write lists of <=3 writes of {1,3,6} bytes, windows {2,4,5,64}, read buffers {1,4,64}, transport capacities {1,13,1M}, both openers, both directions, FIN or drop, FIFO schedule",
            || chunk_world(false, &[1, 3, 6], 3, &[2, 4, 5, 64], &[1, 4, 64], &[1, 13, 1 << 20], false, false)),
        Scenario::new("chunks-sched", 2 + d, 600,
            "one stream, all write lists of <=2 writes of {3,6} bytes, window 4, read buffer {4}, capacity {13, 1M}, all schedules and short reads/writes within the deviation bound",
            || chunk_world(false, &[3, 6], 2, &[4], &[4], &[13, 1 << 20], true, true)),
        Scenario::new("two-streams", 2 + d, 900,
            "one stream opened by each side, both carrying data both ways, window 4, capacities {14, 1M}, FIN or drop by either end, all schedules and short reads/writes within the deviation bound",
            || duplex_world(false, 4, &[1 << 20, 14])),
        Scenario::new("backlog", 2 + d, 600,
            "unread stream with {8..11,18} queued frames then FIN/drop, plus a second stream; schedules within the deviation bound",
            || backlog_world(&[8, 9, 10, 11, 18], 64, true)),
        Scenario::new("chunks-inside", 1 + d, 600,
            "as chunks-sched, tasks interrupted at every channel operation",
            || { exec::interrupt(true); chunk_world(false, &[3, 6], 2, &[4], &[4], &[13, 1 << 20], false, false) }),
        Scenario::new("backlog-inside", 1 + d, 600,
            "as backlog, tasks interrupted at every channel operation",
            || { exec::interrupt(true); backlog_world(&[8, 9, 10, 11, 18], 64, false) }),
        Scenario::new("moved", 1 + d, 600,
            "as chunks-sched; whenever a stream makes its user wait it moves to another task, which waits instead",
            || { moved(); chunk_world(false, &[3, 6], 2, &[4], &[4], &[13, 1 << 20], true, true) }),
        Scenario::new("deep-backlog", 0, 60,
            "unread stream with {254,256,300,600} queued frames", || backlog_world(&[254, 256, 300, 600], 1024, false)),
        Scenario::new("many-streams", 0, 60, "300 streams on one session, each with data both ways", || {
            let end = choose_in(&[EndKind::Fin, EndKind::Drop], "end");
            run_world(World {
                cfg: config(16),
                pipe: PipeCfg::default(),
                specs: (0..300).map(|i| Spec {
                    by_client: i % 3 != 0,
                    w: [vec![2, 1], vec![3]],
                    ender: i % 2,
                    end,
                    ..Default::default()
                }).collect(),
                credit: false,
                stall_phase: false,
                sched: false,
            })
        }),
    ]
}

pub fn y02(thorough: bool) -> Vec<Scenario> {
    let d = thorough as usize;
    vec![
        Scenario::new("windows", 0, 120,
            "window sizes 1..=9,16,64; write lists of <=2 writes of {1,2,7,20}; read buffers {1,3,64}; capacities {1M,13}; both directions; readers that go on at once or pause after each read",
            || {
                paced();
                chunk_world(true, &[1, 2, 7, 20], 2, &[1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 64], &[1, 3, 64], &[1 << 20, 13], false, false)
            }),
        Scenario::new("windows-sched", 2 + d, 600,
            "windows {1,2,5}; one write of {5,11}; all schedules and short reads/writes within the deviation bound",
            || chunk_world(true, &[5, 11], 1, &[1, 2, 5], &[3], &[1 << 20], true, true)),
        Scenario::new("two-streams", 2 + d, 900,
            "data both ways on two streams, window 3, schedules and fragmentation within the deviation bound",
            || duplex_world(true, 3, &[1 << 20])),
        Scenario::new("windows-inside", 1 + d, 600,
            "as windows-sched, tasks interrupted at every channel operation",
            || { exec::interrupt(true); chunk_world(true, &[5, 11], 1, &[1, 2, 5], &[3], &[1 << 20], false, false) }),
        Scenario::new("default-window", 0, 60,
            "default 256 KiB window, writes around and above the window, read buffers {1000, 65536}", || {
            let n = choose_in(&[262_143usize, 262_144, 262_145, 700_000], "bytes");
            let rb = choose_in(&[1000usize, 65_536], "read buffer");
            paced();
            let mut cfg = config(0);
            cfg.max_stream_window_size = Config::default().max_stream_window_size;
            run_world(World {
                cfg,
                pipe: PipeCfg { cap: 100_000, ..Default::default() },
                specs: vec![Spec { w: [vec![n], vec![n / 2]], rb: [rb, rb], ..Default::default() }],
                credit: true,
                stall_phase: false,
                sched: false,
            })
        }),
    ]
}

fn stall_world(frames: &[usize], sched: bool) -> R<()> {
    let n = choose_in(frames, "frames");
    let by_client = choose_in(&[true, false], "stalled stream opener");
    let end = choose_in(&[EndKind::Fin, EndKind::Drop], "end");
    let mut cfg = config(1024);
    cfg.enable_keepalive = true;
    cfg.keepalive_interval = Duration::from_secs(5);
    run_world(World {
        cfg,
        pipe: PipeCfg::default(),
        specs: vec![
            Spec {
                by_client,
                w: [vec![1; n], vec![2]],
                hold: true,
                // acceptor ends: nothing releases the reader but the harness
                ender: 0,
                end,
                rb: [8, 5],
            },
            Spec {
                by_client: true,
                w: [vec![4, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1], vec![3]],
                ..Default::default()
            },
            Spec {
                by_client: false,
                w: [vec![2], vec![6]],
                ..Default::default()
            },
        ],
        credit: false,
        stall_phase: true,
        sched,
    })
}

pub fn y03(thorough: bool) -> Vec<Scenario> {
    let d = thorough as usize;
    vec![
        Scenario::new("stalled", 2 + d, 600,
            "stalled stream with {3,8..11,14} frames, two other streams with data both ways, keepalive pings; schedules within the deviation bound",
            || stall_world(&[3, 8, 9, 10, 11, 14], true)),
        Scenario::new("stalled-inside", 1 + d, 600,
            "as stalled, tasks interrupted at every channel operation",
            || { exec::interrupt(true); stall_world(&[3, 8, 9, 10, 11, 14], false) }),
        Scenario::new("stalled-deep", 0, 60, "stalled stream with {200,256,257,300,900} frames", || {
            stall_world(&[200, 256, 257, 300, 900], false)
        }),
    ]
}
