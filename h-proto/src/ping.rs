//! The ping handler against a reference on the virtual clock.
use std::time::Duration;

use bytes::Bytes;
use mc_engine::exec::Opts;
use mc_engine::{bad, choose, Scenario, R};
use tentacle::context::{ProtocolContext, ProtocolContextMutRef};
use tentacle::SessionId;
use tentacle_ping::{Callback, PingHandler};

use crate::wire::*;
use crate::world::*;
use crate::*;

const EVERY: u64 = 2;
const LIMIT: u64 = 5;

#[cfg(feature = "molc")]
fn message(item: usize, nonce: u32) -> Bytes {
    table(&[union(item, table(&[nonce.to_le_bytes().to_vec()]))]).into()
}

#[cfg(feature = "molc")]
fn read(b: &[u8]) -> Option<(usize, u32)> {
    let t = un_table(b)?;
    let (item, of) = un_union(t.first()?)?;
    Some((item, un_u32(un_table(of)?.first()?)?))
}

#[cfg(feature = "flatc")]
fn message(item: usize, nonce: u32) -> Bytes {
    use flat::F;
    flat::write(&[F::U8(item as u8 + 1), F::T(vec![F::U32(nonce)])]).into()
}

#[cfg(feature = "flatc")]
fn read(b: &[u8]) -> Option<(usize, u32)> {
    let t = flat::root(b)?;
    let of = flat::table_at(&t, 1)?;
    Some((
        (flat::u8_at(&t, 0) as usize).checked_sub(1)?,
        flat::u32_at(&of, 0),
    ))
}

#[cfg(feature = "flatc")]
fn garbage(n: u8) -> Bytes {
    use flat::F;
    match n {
        0 => b"not a ping".to_vec(),
        // a ping without anything
        1 => flat::write(&[F::U8(1)]),
        // nothing at all
        _ => flat::write(&[]),
    }
    .into()
}

/// Disconnects peers that time out, if `0`.
struct Cb(bool);

impl Callback for Cb {
    fn received_ping(&mut self, c: ProtocolContextMutRef) {
        note(A, format!("ping {}", c.session.id.value()))
    }
    fn received_pong(&mut self, c: ProtocolContextMutRef, time: Duration) {
        note(
            A,
            format!("pong {} {}", c.session.id.value(), time.as_secs()),
        )
    }
    fn timeout(&mut self, c: &mut ProtocolContext, id: SessionId) {
        note(A, format!("timeout {}", id.value()));
        if self.0 {
            drop(c.disconnect(id))
        }
    }
    fn unexpected_error(&mut self, c: ProtocolContextMutRef) {
        note(A, format!("error {}", c.session.id.value()))
    }
}

fn handler(end: bool) -> Made {
    Box::new(PingHandler::new(
        Duration::from_secs(EVERY),
        Duration::from_secs(LIMIT),
        Cb(end),
    ))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Wait(u64),
    /// answers the last ping
    Pong,
    /// answers with another nonce
    Wrong,
    /// pings
    Ping(u32),
    /// sends something else
    Garbage(u8),
    /// ends the session
    Leave,
}

const ACTS: &[Act] = &[
    Act::Wait(1),
    Act::Wait(2),
    Act::Wait(5),
    Act::Pong,
    Act::Wrong,
    Act::Ping(0),
    Act::Ping(0x8123_4567),
    Act::Garbage(0),
    Act::Garbage(1),
    Act::Garbage(2),
    Act::Leave,
];

const FEW: &[Act] = &[
    Act::Wait(2),
    Act::Wait(5),
    Act::Pong,
    Act::Wrong,
    Act::Leave,
];

#[cfg(feature = "molc")]
fn garbage(n: u8) -> Bytes {
    match n {
        0 => b"not a ping".to_vec(),
        // no third kind of message
        1 => table(&[union(2, table(&[vec![1, 2, 3, 4]]))]),
        // a ping cut short
        _ => table(&[union(0, table(&[vec![1, 2]]))]),
    }
    .into()
}

/// What the reference knows of a peer.
#[derive(Clone, Debug, Default)]
struct Peer {
    open: bool,
    /// when the ping that is not answered yet was sent
    waiting: Option<u64>,
    last: Option<u32>,
    /// what the handler's callbacks have to be told of it; a timeout may be told again
    told: Vec<(u64, String)>,
    /// what it has to receive: the second and, of an answer, the nonce
    pings: Vec<u64>,
    pongs: Vec<(u64, u32)>,
}

fn judge(id: usize, p: &mut Peer, svc: usize, now: u64) -> R<()> {
    let (mut pings, mut pongs) = (Vec::new(), Vec::new());
    for (at, d) in received(svc) {
        match read(&d) {
            Some((0, n)) => {
                p.last = Some(n);
                pings.push(at)
            }
            Some((1, n)) => pongs.push((at, n)),
            _ => {
                return bad(
                    "unreadable",
                    format!("peer {} was sent {:?}, which is no message", id, d),
                )
            }
        }
    }
    if pings != p.pings {
        return bad(
            "pings",
            format!(
                "second {}: peer {} was pinged at {:?} instead of {:?}",
                now, id, pings, p.pings
            ),
        );
    }
    if pongs != p.pongs {
        return bad(
            "pongs",
            format!(
                "second {}: peer {} was answered {:?} instead of {:?}",
                now, id, pongs, p.pongs
            ),
        );
    }
    let mine = |s: &str| s.split(' ').nth(1) == Some(&id.to_string());
    let mut got: Vec<(u64, String)> = Vec::new();
    for t in told().into_iter().filter(|t| mine(&t.1)) {
        if t.1.starts_with("timeout") && got.last().map_or(false, |l| l.1 == t.1) {
            continue;
        }
        got.push(t)
    }
    if got != p.told {
        return bad(
            "told",
            format!(
                "second {}: of peer {} the node was told {:?} instead of {:?}",
                now, id, got, p.told
            ),
        );
    }
    if is_open(id) != p.open {
        return bad(
            if p.open { "dropped" } else { "kept" },
            format!(
                "second {}: peer {} {}",
                now,
                id,
                if p.open {
                    "was disconnected for nothing"
                } else {
                    "is still connected"
                }
            ),
        );
    }
    Ok(())
}

/// One or more peers, each doing any of the acts.
fn history(n: usize, acts: &'static [Act], depth: usize, opts: Opts) -> R<()> {
    begin(n + 1);
    let end = choose(2, "timed out peers are disconnected") == 0;
    let mut p = proto(1, Kind::Service);
    p.made = Some(if end {
        || handler(true)
    } else {
        || handler(false)
    });
    let a = service(cfg(vec![p]).key(0).listen(1));
    settle();
    let mut peers = Vec::new();
    let mut svcs = Vec::new();
    for i in 0..n {
        let s = service(cfg(vec![proto(1, Kind::Service)]).key(i + 1));
        drop(s.dial(addr(1), all()));
        settle();
        svcs.push(s);
        peers.push(Peer {
            open: true,
            ..Peer::default()
        });
    }
    let mut now = 0;
    for (i, p) in peers.iter_mut().enumerate() {
        judge(i + 1, p, i + 1, now)?
    }
    for step in 0..=depth {
        let (i, act) = if step == depth {
            // whatever happened, the others are still served
            (0, Act::Wait(2 * LIMIT + 1))
        } else {
            let k = choose(n * acts.len(), "act");
            (k / acts.len(), acts[k % acts.len()])
        };
        mc_engine::log(|| format!("=> peer {} {:?}", i + 1, act));
        let id = i + 1;
        let say = |d: Bytes| {
            drop(svcs[i].send_message_to(sid(1), pid(1), d));
        };
        let p = &mut peers[i];
        let live = p.open;
        let mut wait = 0;
        match act {
            Act::Wait(s) => wait = s,
            _ if !live => {
                stop();
                return Ok(());
            }
            Act::Pong => match p.waiting.take() {
                Some(at) => {
                    say(message(1, p.last.unwrap()));
                    p.told.push((now, format!("pong {} {}", id, now - at)));
                }
                None => {
                    // nothing to answer: as bad as a wrong answer
                    say(message(1, p.last.unwrap_or(0)));
                    p.open = false;
                }
            },
            Act::Wrong => {
                say(message(1, p.last.map_or(7, |l| l ^ 1)));
                p.open = false;
            }
            Act::Ping(nonce) => {
                say(message(0, nonce));
                p.pongs.push((now, nonce));
                p.told.push((now, format!("ping {}", id)));
            }
            Act::Garbage(g) => {
                say(garbage(g));
                p.told.push((now, format!("error {}", id)));
            }
            Act::Leave => {
                drop(svcs[i].disconnect(sid(1)));
                p.open = false;
            }
        }
        run_for(0, opts)?;
        for (i, p) in peers.iter_mut().enumerate() {
            judge(i + 1, p, i + 1, now)?
        }
        for _ in 0..wait {
            run_for(1, opts)?;
            now += 1;
            for (i, p) in peers.iter_mut().enumerate() {
                if p.open && now % EVERY == 0 && p.waiting.is_none() {
                    p.waiting = Some(now);
                    p.pings.push(now);
                }
                let late = p.waiting.map_or(0, |at| now - at);
                if p.open && now % LIMIT == 0 && late >= LIMIT {
                    let t = format!("timeout {}", i + 1);
                    // at the limit to the second both are right
                    let sure = late > LIMIT || told().contains(&(now, t.clone()));
                    if sure {
                        if p.told.last().map_or(true, |l| l.1 != t) {
                            p.told.push((now, t));
                        }
                        if end {
                            p.open = false;
                        }
                    }
                }
                judge(i + 1, p, i + 1, now)?;
            }
        }
    }
    mc_engine::outcome(format!("{:?}", told()).as_bytes());
    drop(a);
    stop();
    Ok(())
}

/// Peers without an identity are not pinged but disconnected.
fn no_identity(opts: Opts) -> R<()> {
    begin(0);
    let mut p = proto(1, Kind::Service);
    p.made = Some(|| handler(true));
    let _a = service(cfg(vec![p]).listen(1));
    let b = service(cfg(vec![proto(1, Kind::Service)]));
    drop(b.dial(addr(1), all()));
    run_for(0, opts)?;
    if is_open(1) {
        return bad("kept", "a peer without an identity is still connected");
    }
    run_for(6, opts)?;
    if !received(1).is_empty() || !told().is_empty() {
        return bad("pings", "a peer without an identity was pinged or reported");
    }
    stop();
    Ok(())
}

pub fn p01(t: bool) -> Vec<Scenario> {
    let b = "peers answering, answering wrongly, pinging, sending something else, leaving or silent, in every order, against a reference on the virtual clock";
    let d = if t { 1 } else { 0 };
    vec![
        Scenario::new("one", 0, 300, b, move || history(1, ACTS, 4 + d, fifo())),
        Scenario::new("two", 0, 300, b, move || history(2, FEW, 3 + d, fifo())),
        Scenario::new("orders", 1 + d, 300, b, move || {
            history(1, FEW, 2, orders())
        }),
        Scenario::new("mangled", 0, 100, b, move || {
            #[allow(unused_mut)]
            let mut good = vec![message(0, 0x8123_4567), message(1, 1)];
            #[cfg(feature = "flatc")]
            good.push(flat::write(&[flat::F::U8(2)]).into());
            mangled(|| handler(true), &good, message(0, 5))
        }),
        Scenario::new("no-identity", 1 + d, 100, b, move || no_identity(orders())),
    ]
}
