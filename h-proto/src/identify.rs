//! The identify handler against a reference on the virtual clock.
use std::cell::Cell;

use bytes::Bytes;
use mc_engine::exec::Opts;
use mc_engine::{bad, choose, Scenario, R};
use tentacle::context::ProtocolContextMutRef;
use tentacle::multiaddr::Multiaddr;
use tentacle::secio::PeerId;
use tentacle::service::SessionType;
use tentacle_identify::{Callback, IdentifyProtocol, MisbehaveResult, Misbehavior};

use crate::wire::*;
use crate::world::*;
use crate::*;

const LIMIT: u64 = 8;
const MOST: usize = 10;

/// What the user of the handler decides and offers.
#[derive(Clone, Copy, Default)]
struct User {
    refuses: bool,
    refuses_observed: bool,
    punishes: bool,
    global: bool,
    listens: usize,
}

thread_local! {
    static USER: Cell<User> = Cell::new(User::default());
}

fn user() -> User {
    USER.with(|u| u.get())
}

fn peer(id: &PeerId) -> usize {
    (0..8)
        .find(|k| key(*k).public_key().peer_id() == *id)
        .unwrap_or(99)
}

fn list(v: &[Multiaddr]) -> String {
    v.iter()
        .map(|a| a.to_string())
        .collect::<Vec<_>>()
        .join(",")
}

#[derive(Clone)]
struct Cb;

fn verdict(end: bool) -> MisbehaveResult {
    if end {
        MisbehaveResult::Disconnect
    } else {
        MisbehaveResult::Continue
    }
}

const ME: &[u8] = b"myself";

impl Callback for Cb {
    fn received_identify(&mut self, c: &mut ProtocolContextMutRef, d: &[u8]) -> MisbehaveResult {
        let k = c.session.remote_pubkey.as_ref().unwrap().peer_id();
        note(A, format!("identify {} {:?}", peer(&k), d));
        verdict(user().refuses)
    }
    fn identify(&mut self) -> &[u8] {
        ME
    }
    fn local_listen_addrs(&mut self) -> Vec<Multiaddr> {
        listens(user().listens)
    }
    fn add_remote_listen_addrs(&mut self, p: &PeerId, addrs: Vec<Multiaddr>) {
        note(A, format!("listens {} {}", peer(p), list(&addrs)))
    }
    fn add_observed_addr(&mut self, p: &PeerId, a: Multiaddr, ty: SessionType) -> MisbehaveResult {
        note(A, format!("observed {} {} {:?}", peer(p), a, ty));
        verdict(user().refuses_observed)
    }
    fn misbehave(&mut self, p: &PeerId, kind: Misbehavior) -> MisbehaveResult {
        let k = match kind {
            Misbehavior::DuplicateReceived => "again".to_string(),
            Misbehavior::Timeout => "timeout".to_string(),
            Misbehavior::InvalidData => "invalid".to_string(),
            Misbehavior::TooManyAddresses(n) => format!("many({})", n),
        };
        note(A, format!("{} {}", k, peer(p)));
        verdict(user().punishes)
    }
}

fn ma(s: &str) -> Multiaddr {
    s.parse().unwrap()
}

fn good(i: usize) -> Multiaddr {
    ma(&format!("/ip4/8.8.8.{}/tcp/{}", i, 1000 + i))
}

/// Lists of addresses: none, some of each sort, as many as are allowed, one more.
fn listens(kind: usize) -> Vec<Multiaddr> {
    match kind {
        0 => vec![],
        1 => vec![
            ma("/ip4/192.168.1.1/tcp/1"),
            good(1),
            ma("/ip4/127.0.0.1/tcp/2"),
            ma("/ip6/2400:3200::1/tcp/3"),
            ma("/dns4/localhost"),
            ma("/ip6/fe80::1/tcp/4"),
        ],
        2 => (0..MOST).map(good).collect(),
        3 => (0..MOST + 1).map(good).collect(),
        _ => {
            let mut v: Vec<Multiaddr> = vec![ma("/ip4/10.0.0.1/tcp/9"); 3];
            v.extend((0..MOST + 2).map(good));
            v
        }
    }
}

/// The addresses of a list that are passed on.
fn passed(v: &[Multiaddr], global: bool) -> Vec<Multiaddr> {
    v.iter()
        .filter(|a| {
            let s = a.to_string();
            if s.starts_with("/dns") {
                return false;
            }
            !global
                || !["/ip4/192.168.", "/ip4/127.", "/ip4/10.", "/ip6/fe80"]
                    .iter()
                    .any(|p| s.starts_with(p))
        })
        .cloned()
        .collect()
}

#[cfg(feature = "molc")]
fn address(a: &[u8]) -> Vec<u8> {
    table(&[bytes(a)])
}

#[cfg(feature = "molc")]
fn message(listens: &[Multiaddr], observed: &Multiaddr, text: &[u8]) -> Bytes {
    let l: Vec<Vec<u8>> = listens.iter().map(|a| address(a.as_ref())).collect();
    table(&[table(&l), address(observed.as_ref()), bytes(text)]).into()
}

#[cfg(feature = "molc")]
fn read(b: &[u8]) -> Option<(Vec<Multiaddr>, Multiaddr, Vec<u8>)> {
    use std::convert::TryFrom;
    let t = un_table(b)?;
    if t.len() != 3 {
        return None;
    }
    let a = |b: &[u8]| -> Option<Multiaddr> {
        Multiaddr::try_from(un_bytes(un_table(b)?.first()?)?.to_vec()).ok()
    };
    let mut l = Vec::new();
    for x in un_table(t[0])? {
        l.push(a(x)?)
    }
    Some((l, a(t[1])?, un_bytes(t[2])?.to_vec()))
}

#[cfg(feature = "flatc")]
fn address(a: &[u8]) -> Vec<flat::F> {
    vec![flat::F::Bytes(a.to_vec())]
}

#[cfg(feature = "flatc")]
fn message(listens: &[Multiaddr], observed: &Multiaddr, text: &[u8]) -> Bytes {
    use flat::F;
    flat::write(&[
        F::V(listens.iter().map(|a| address(a.as_ref())).collect()),
        F::T(address(observed.as_ref())),
        F::Bytes(text.to_vec()),
    ])
    .into()
}

#[cfg(feature = "flatc")]
fn read(b: &[u8]) -> Option<(Vec<Multiaddr>, Multiaddr, Vec<u8>)> {
    use std::convert::TryFrom;
    let t = flat::root(b)?;
    let a = |t: &flat::Table| Multiaddr::try_from(flat::bytes_at(t, 0)?).ok();
    let l = flat::tables_at(&t, 0)?;
    Some((
        l.iter().map(a).collect::<Option<Vec<_>>>()?,
        a(&flat::table_at(&t, 1)?)?,
        flat::bytes_at(&t, 2)?,
    ))
}

#[cfg(feature = "flatc")]
fn garbage(n: u8) -> Bytes {
    use flat::F;
    match n {
        0 => b"not me".to_vec(),
        // an address that is none
        1 => flat::write(&[
            F::V(vec![address(good(1).as_ref()), address(b"\xff\xff\xff")]),
            F::T(address(good(2).as_ref())),
            F::Bytes(b"x".to_vec()),
        ]),
        // nothing about itself
        _ => flat::write(&[F::V(vec![]), F::T(address(good(2).as_ref()))]),
    }
    .into()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    /// identifies itself: with this list of addresses, having observed a reachable one
    Say(usize, bool),
    Garbage(u8),
    Wait(u64),
    Leave,
}

const ACTS: &[Act] = &[
    Act::Say(0, true),
    Act::Say(1, true),
    Act::Say(1, false),
    Act::Say(2, true),
    Act::Say(3, true),
    Act::Garbage(0),
    Act::Garbage(1),
    Act::Garbage(2),
    Act::Wait(1),
    Act::Wait(8),
    Act::Leave,
];

const FEW: &[Act] = &[
    Act::Say(1, true),
    Act::Say(3, false),
    Act::Garbage(1),
    Act::Wait(9),
    Act::Leave,
];

#[cfg(feature = "molc")]
fn garbage(n: u8) -> Bytes {
    match n {
        0 => b"not me".to_vec(),
        // an address that is none
        1 => table(&[
            table(&[address(good(1).as_ref()), address(b"\xff\xff\xff")]),
            address(good(2).as_ref()),
            bytes(b"x"),
        ]),
        // nothing about itself
        _ => table(&[table(&[]), address(good(2).as_ref())]),
    }
    .into()
}

#[derive(Clone, Debug, Default)]
struct Peer {
    since: u64,
    open: bool,
    said: bool,
    told: Vec<(u64, String)>,
}

fn judge(id: usize, p: &Peer, now: u64) -> R<()> {
    let mine = |s: &str| s.split(' ').nth(1) == Some(&id.to_string());
    let mut got: Vec<(u64, String)> = Vec::new();
    for t in told().into_iter().filter(|t| mine(&t.1)) {
        if t.1.starts_with("timeout") && got.iter().any(|l| l.1 == t.1) {
            continue;
        }
        got.push(t)
    }
    if got != p.told {
        return bad(
            "told",
            format!(
                "second {}: of peer {} the node was told {:?} instead of {:?}",
                now, id, got, p.told
            ),
        );
    }
    if is_open(id) != p.open {
        return bad(
            if p.open { "dropped" } else { "kept" },
            format!(
                "second {}: peer {} {}",
                now,
                id,
                if p.open {
                    "was disconnected for nothing"
                } else {
                    "is still connected"
                }
            ),
        );
    }
    // what it is sent: one message, when the protocol opens
    let all = received(id);
    let from = log()
        .iter()
        .find_map(|e| match &e.ev {
            Ev::Open { id: i, addr, .. } if e.svc == A && *i == id => Some(addr.clone()),
            _ => None,
        })
        .unwrap_or_default();
    let from = from.split("/p2p/").next().unwrap_or("").to_string();
    let u = user();
    let mut l = passed(&listens(u.listens), u.global);
    l.truncate(MOST);
    match &all[..] {
        [(at, d)] if *at == p.since => match read(d) {
            Some((gl, o, t)) => {
                if gl != l || o.to_string() != from || t != ME {
                    return bad(
                        "sent",
                        format!(
                            "peer {} at {} was sent {} {} {:?} instead of {} {:?}",
                            id,
                            from,
                            list(&gl),
                            o,
                            t,
                            list(&l),
                            ME
                        ),
                    );
                }
            }
            None => {
                return bad(
                    "unreadable",
                    format!("peer {} was sent {:?}, which is no message", id, d),
                )
            }
        },
        x => {
            return bad(
                "sent",
                format!("peer {} was sent {} messages, not one", id, x.len()),
            )
        }
    }
    Ok(())
}

fn history(n: usize, acts: &'static [Act], depth: usize, late: bool, opts: Opts) -> R<()> {
    begin(n + 1);
    let k = choose(8, "user");
    let u = User {
        refuses: k & 1 != 0,
        refuses_observed: k & 2 != 0,
        punishes: k & 4 != 0,
        global: if late { choose(2, "any") == 0 } else { true },
        listens: if late { choose(5, "listens") } else { 1 },
    };
    USER.with(|x| x.set(u));
    let mut p = proto(1, Kind::Service);
    p.made = Some(|| Box::new(IdentifyProtocol::new(Cb).global_ip_only(user().global)));
    let _a = service(cfg(vec![p]).key(0).listen(1));
    settle();
    let mut now = 0;
    if late && choose(2, "late") == 1 {
        run_for(3, fifo())?;
        now = 3;
    }
    let mut peers = Vec::new();
    let mut svcs = Vec::new();
    for i in 0..n {
        let s = service(cfg(vec![proto(1, Kind::Service)]).key(i + 1));
        drop(s.dial(addr(1), all()));
        run_for(0, opts)?;
        svcs.push(s);
        peers.push(Peer {
            since: now,
            open: true,
            ..Peer::default()
        });
    }
    for (i, p) in peers.iter().enumerate() {
        judge(i + 1, p, now)?
    }
    for step in 0..=depth {
        let (i, act) = if step == depth {
            (0, Act::Wait(LIMIT + 2))
        } else {
            let k = choose(n * acts.len(), "act");
            (k / acts.len(), acts[k % acts.len()])
        };
        mc_engine::log(|| format!("=> peer {} {:?}", i + 1, act));
        let id = i + 1;
        let say = |d: Bytes| {
            drop(svcs[i].send_message_to(sid(1), pid(1), d));
        };
        let p = &mut peers[i];
        let mut wait = 0;
        match act {
            Act::Wait(s) => wait = s,
            _ if !p.open => {
                stop();
                return Ok(());
            }
            Act::Say(kind, reach) => {
                let l = listens(kind);
                let o = if reach {
                    good(7)
                } else {
                    ma("/ip4/10.1.2.3/tcp/4")
                };
                let text = [step as u8, 1];
                say(message(&l, &o, &text));
                // in this order, up to the first that ends it
                let mut go = true;
                if p.said {
                    p.told.push((now, format!("again {}", id)));
                    go = !u.punishes;
                }
                p.said = true;
                if go {
                    p.told.push((now, format!("identify {} {:?}", id, text)));
                    go = !u.refuses;
                }
                if go && l.len() > MOST {
                    p.told.push((now, format!("many({}) {}", l.len(), id)));
                    go = !u.punishes;
                } else if go {
                    let l = passed(&l, u.global);
                    p.told.push((now, format!("listens {} {}", id, list(&l))));
                }
                if go && (reach || !u.global) {
                    let t = format!("observed {} {} {:?}", id, o, SessionType::Inbound);
                    p.told.push((now, t));
                    go = !u.refuses_observed;
                }
                p.open = go;
            }
            Act::Garbage(g) => {
                say(garbage(g));
                p.told.push((now, format!("invalid {}", id)));
                p.open = !u.punishes;
            }
            Act::Leave => {
                drop(svcs[i].disconnect(sid(1)));
                p.open = false;
            }
        }
        run_for(0, opts)?;
        for (i, p) in peers.iter().enumerate() {
            judge(i + 1, p, now)?
        }
        for _ in 0..wait {
            run_for(1, opts)?;
            now += 1;
            for (i, p) in peers.iter_mut().enumerate() {
                let t = format!("timeout {}", i + 1);
                let old = now - p.since;
                if p.open && !p.said && old >= LIMIT && !p.told.iter().any(|l| l.1 == t) {
                    // at the limit to the second both are right
                    if old > LIMIT || told().contains(&(now, t.clone())) {
                        p.told.push((now, t));
                        p.open = !u.punishes;
                    }
                }
                judge(i + 1, p, now)?;
            }
        }
    }
    mc_engine::outcome(format!("{:?}", told()).as_bytes());
    stop();
    Ok(())
}

/// Peers without an identity are disconnected.
fn no_identity(opts: Opts) -> R<()> {
    begin(0);
    USER.with(|x| x.set(User::default()));
    let mut p = proto(1, Kind::Service);
    p.made = Some(|| Box::new(IdentifyProtocol::new(Cb)));
    let _a = service(cfg(vec![p]).listen(1));
    let b = service(cfg(vec![proto(1, Kind::Service)]));
    drop(b.dial(addr(1), all()));
    run_for(0, opts)?;
    if is_open(1) {
        return bad("kept", "a peer without an identity is still connected");
    }
    run_for(10, opts)?;
    if !received(1).is_empty() || !told().is_empty() {
        return bad(
            "sent",
            "a peer without an identity was sent something or reported",
        );
    }
    stop();
    Ok(())
}

pub fn p02(t: bool) -> Vec<Scenario> {
    let b = "every decision of the user, peers identifying themselves well, badly, repeatedly, too late or never, in every order, against a reference on the virtual clock";
    let d = if t { 1 } else { 0 };
    vec![
        Scenario::new("one", 0, 300, b, move || {
            history(1, ACTS, 3 + d, false, fifo())
        }),
        Scenario::new("lists", 0, 300, b, move || {
            history(1, ACTS, 1 + d, true, fifo())
        }),
        Scenario::new("two", 0, 300, b, move || {
            history(2, FEW, 2 + d, false, fifo())
        }),
        Scenario::new("orders", 1 + d, 300, b, move || {
            history(1, FEW, 1, false, orders())
        }),
        Scenario::new("mangled", 0, 100, b, move || {
            USER.with(|x| x.set(User::default()));
            #[allow(unused_mut)]
            let mut some = vec![message(&listens(1)[..2], &good(7), b"me")];
            #[cfg(feature = "flatc")]
            {
                use flat::F;
                let a = || address(good(2).as_ref());
                let me = || F::Bytes(b"x".to_vec());
                some.push(flat::write(&[F::None, F::T(a()), me()]).into());
                some.push(flat::write(&[F::V(vec![]), F::None, me()]).into());
                some.push(flat::write(&[F::V(vec![vec![]]), F::T(a()), me()]).into());
                some.push(flat::write(&[F::V(vec![a()]), F::T(vec![]), me()]).into());
            }
            mangled(
                || Box::new(IdentifyProtocol::new(Cb)),
                &some,
                message(&[], &good(7), b"you"),
            )
        }),
        Scenario::new("no-identity", 1 + d, 100, b, move || no_identity(orders())),
    ]
}
