//! The discovery handler against a reference on the virtual clock.
use std::cell::Cell;
use std::collections::BTreeSet;
use std::convert::TryFrom;
use std::time::Duration;

use bytes::Bytes;
use mc_engine::exec::Opts;
use mc_engine::{bad, choose, Scenario, R};
use tentacle::multiaddr::Multiaddr;
use tentacle::SessionId;
use tentacle_discovery::{AddressManager, DiscoveryProtocol, MisbehaveResult, Misbehavior};

use crate::wire::*;
use crate::world::*;
use crate::*;

/// seconds between two looks at the state of all peers, and between two announcements of one
const CHECK: u64 = 3;
const CYCLE: u64 = 10;
/// most addresses of an answer, most of an announcement, most of one node
const ANSWER: usize = 1000;
const ANNOUNCE: usize = 10;
const EACH: usize = 3;

#[derive(Clone, Copy, Default)]
struct User {
    punishes: bool,
    have: usize,
    /// no peer's address is worth announcing
    picky: bool,
}

thread_local! {
    static USER: Cell<User> = Cell::new(User::default());
}

fn user() -> User {
    USER.with(|u| u.get())
}

fn nth(i: usize) -> Multiaddr {
    format!("/ip4/8.8.{}.{}/tcp/9", i / 250, i % 250)
        .parse()
        .unwrap()
}

struct Mgr(usize);

impl AddressManager for Mgr {
    fn is_valid_addr(&self, _: &Multiaddr) -> bool {
        !user().picky
    }
    fn add_new_addr(&mut self, id: SessionId, a: Multiaddr) {
        note(self.0, format!("new {} {}", id.value(), a))
    }
    fn add_new_addrs(&mut self, id: SessionId, a: Vec<Multiaddr>) {
        note(self.0, format!("addrs {} {}", id.value(), brief(&a)))
    }
    fn misbehave(&mut self, id: SessionId, kind: Misbehavior) -> MisbehaveResult {
        let k = match kind {
            Misbehavior::DuplicateGetNodes => "again".to_string(),
            Misbehavior::DuplicateFirstNodes => "first-again".to_string(),
            Misbehavior::TooManyItems { announce, length } => {
                format!("items({},{})", announce, length)
            }
            Misbehavior::TooManyAddresses(n) => format!("addresses({})", n),
            Misbehavior::InvalidData => "invalid".to_string(),
        };
        note(self.0, format!("{} {}", k, id.value()));
        if user().punishes {
            MisbehaveResult::Disconnect
        } else {
            MisbehaveResult::Continue
        }
    }
    fn get_random(&mut self, n: usize) -> Vec<Multiaddr> {
        (0..user().have.min(n)).map(nth).collect()
    }
}

fn brief(a: &[Multiaddr]) -> String {
    let v: Vec<String> = a.iter().map(|a| a.to_string()).collect();
    format!("{} {:x}", v.len(), mc_engine::fnv(v.join(",").as_bytes()))
}

fn handler(svc: usize) -> Made {
    Box::new(DiscoveryProtocol::new(
        Mgr(svc),
        Some(Duration::from_secs(CYCLE)),
        Some(Duration::from_secs(CHECK)),
    ))
}

fn framed(m: Vec<u8>) -> Bytes {
    let mut v = (m.len() as u32).to_be_bytes().to_vec();
    v.extend(m);
    v.into()
}

#[cfg(feature = "molc")]
fn payload(item: usize, of: Vec<u8>) -> Bytes {
    framed(table(&[union(item, of)]))
}

#[cfg(feature = "molc")]
fn get(count: u32, port: Option<u16>) -> Bytes {
    let p = port.map_or(Vec::new(), |p| p.to_le_bytes().to_vec());
    payload(0, table(&[u32s(0), count.to_le_bytes().to_vec(), p]))
}

#[cfg(feature = "molc")]
fn nodes(announce: u8, items: &[Vec<Multiaddr>]) -> Bytes {
    let n: Vec<Vec<u8>> = items
        .iter()
        .map(|i| {
            let a: Vec<Vec<u8>> = i.iter().map(|a| bytes(a.as_ref())).collect();
            table(&[table(&a)])
        })
        .collect();
    payload(1, table(&[vec![announce], table(&n)]))
}

#[derive(Debug)]
enum Msg {
    Get(u32, Option<u16>),
    Nodes(bool, Vec<Vec<Multiaddr>>),
}

fn read(b: &[u8]) -> Option<Msg> {
    let mut n = [0; 4];
    n.copy_from_slice(b.get(..4)?);
    if u32::from_be_bytes(n) as usize != b.len() - 4 {
        return None;
    }
    unframed(&b[4..])
}

#[cfg(feature = "molc")]
fn unframed(b: &[u8]) -> Option<Msg> {
    let t = un_table(b)?;
    let (item, of) = un_union(t.first()?)?;
    let f = un_table(of)?;
    match (item, &f[..]) {
        (0, [_, count, port]) => Some(Msg::Get(
            un_u32(count)?,
            match port.len() {
                0 => None,
                2 => Some(u16::from_le_bytes([port[0], port[1]])),
                _ => return None,
            },
        )),
        (1, [announce, items]) => {
            let mut v = Vec::new();
            for i in un_table(items)? {
                let mut w = Vec::new();
                for a in un_table(un_table(i)?.first()?)? {
                    w.push(Multiaddr::try_from(un_bytes(a)?.to_vec()).ok()?)
                }
                v.push(w)
            }
            Some(Msg::Nodes(*announce.first()? != 0, v))
        }
        _ => None,
    }
}

#[cfg(feature = "flatc")]
fn unframed(b: &[u8]) -> Option<Msg> {
    let t = flat::root(b)?;
    let of = flat::table_at(&t, 1)?;
    match flat::u8_at(&t, 0) {
        1 => Some(Msg::Get(
            flat::u32_at(&of, 1),
            Some(flat::u16_at(&of, 2)).filter(|p| *p != 0),
        )),
        2 => {
            let mut v = Vec::new();
            for n in flat::tables_at(&of, 1)? {
                let mut w = Vec::new();
                for a in flat::tables_at(&n, 0)? {
                    w.push(Multiaddr::try_from(flat::bytes_at(&a, 0)?).ok()?)
                }
                v.push(w)
            }
            Some(Msg::Nodes(flat::u8_at(&of, 0) != 0, v))
        }
        _ => None,
    }
}

#[cfg(feature = "flatc")]
fn payload(item: u8, of: Vec<flat::F>) -> Bytes {
    framed(flat::write(&[flat::F::U8(item), flat::F::T(of)]))
}

#[cfg(feature = "flatc")]
fn get(count: u32, port: Option<u16>) -> Bytes {
    use flat::F;
    payload(
        1,
        vec![F::U32(0), F::U32(count), port.map_or(F::None, F::U16)],
    )
}

#[cfg(feature = "flatc")]
fn node(a: &[&[u8]]) -> Vec<flat::F> {
    use flat::F;
    vec![F::V(a.iter().map(|a| vec![F::Bytes(a.to_vec())]).collect())]
}

#[cfg(feature = "flatc")]
fn nodes(announce: u8, items: &[Vec<Multiaddr>]) -> Bytes {
    use flat::F;
    let v = items
        .iter()
        .map(|i| node(&i.iter().map(|a| a.as_ref()).collect::<Vec<_>>()))
        .collect();
    payload(2, vec![F::U8(announce), F::V(v)])
}

#[cfg(feature = "flatc")]
fn garbage(n: u8) -> Bytes {
    use flat::F;
    match n {
        0 => b"not a message".to_vec().into(),
        // an address that is none
        1 => {
            let a = nth(1);
            payload(2, vec![F::U8(0), F::V(vec![node(&[a.as_ref(), b"\xff"])])])
        }
        // neither a request nor an answer
        2 => framed(flat::write(&[F::U8(1)])),
        // less than its length says
        _ => {
            let g = get(7, None);
            g.slice(..g.len() - 1)
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Get(u32, Option<u16>),
    /// so many nodes with so many addresses each
    Nodes(bool, usize, usize),
    Garbage(u8),
    Wait(u64),
    Leave,
}

const ACTS: &[Act] = &[
    Act::Get(1000, Some(4000)),
    Act::Get(2, None),
    Act::Nodes(false, 2, 1),
    Act::Nodes(true, 2, 1),
    Act::Nodes(true, 11, 1),
    Act::Nodes(false, 1, 4),
    Act::Garbage(0),
    Act::Garbage(1),
    Act::Wait(3),
    Act::Wait(12),
    Act::Leave,
];

/// one of each limit, reached and passed
const LIMITS: &[Act] = &[
    Act::Get(0, None),
    Act::Get(1, Some(4000)),
    Act::Get(999, None),
    Act::Get(1000, None),
    Act::Get(1001, None),
    Act::Get(u32::max_value(), None),
    Act::Get(5, Some(0x1234)),
    Act::Nodes(false, 0, 0),
    Act::Nodes(false, 1, 0),
    Act::Nodes(false, 1000, 1),
    Act::Nodes(false, 1001, 1),
    Act::Nodes(true, 10, 3),
    Act::Nodes(true, 10, 4),
    Act::Nodes(true, 11, 3),
    Act::Nodes(false, 3, 3),
    Act::Nodes(false, 11, 1),
    Act::Garbage(0),
    Act::Garbage(1),
    Act::Garbage(2),
    Act::Garbage(3),
];

const FEW: &[Act] = &[
    Act::Get(10, Some(4000)),
    Act::Nodes(false, 2, 1),
    Act::Wait(3),
    Act::Wait(12),
    Act::Leave,
];

#[cfg(feature = "molc")]
fn garbage(n: u8) -> Bytes {
    match n {
        0 => b"not a message".to_vec().into(),
        // an address that is none
        1 => payload(
            1,
            table(&[
                vec![0],
                table(&[table(&[table(&[bytes(nth(1).as_ref()), bytes(b"\xff")])])]),
            ]),
        ),
        // neither announced nor not
        2 => nodes(2, &[vec![nth(1)]]),
        // less than its length says
        _ => {
            let g = get(7, None);
            g.slice(..g.len() - 1)
        }
    }
}

#[derive(Clone, Debug)]
struct Peer {
    open: bool,
    /// the address the session is with
    at: String,
    /// where it listens, if that is known
    listen: Option<String>,
    asked: bool,
    answered: bool,
    told: Vec<(u64, String)>,
    /// the sizes of the answers it gets
    answers: Vec<usize>,
    /// the addresses announced to it
    announced: BTreeSet<String>,
}

fn judge(peers: &mut [Peer], asks: bool, now: u64) -> R<()> {
    let listens: Vec<Option<String>> = peers.iter().map(|p| p.listen.clone()).collect();
    for (i, p) in peers.iter_mut().enumerate() {
        let id = i + 1;
        let mine = |s: &str| s.split(' ').nth(1) == Some(&id.to_string());
        let got: Vec<(u64, String)> = told().into_iter().filter(|t| mine(&t.1)).collect();
        if got != p.told {
            return bad(
                "told",
                format!(
                    "second {}: of peer {} the node was told {:?} instead of {:?}",
                    now, id, got, p.told
                ),
            );
        }
        if is_open(id) != p.open {
            return bad(
                if p.open { "dropped" } else { "kept" },
                format!(
                    "second {}: peer {} {}",
                    now,
                    id,
                    if p.open {
                        "was disconnected for nothing"
                    } else {
                        "is still connected"
                    }
                ),
            );
        }
        let mut answers = Vec::new();
        let mut gets = 0;
        p.announced.clear();
        for (_, d) in received(id) {
            match read(&d) {
                None => {
                    return bad(
                        "unreadable",
                        format!("peer {} was sent {:?}, which is no message", id, d),
                    )
                }
                Some(Msg::Get(count, port)) => {
                    gets += 1;
                    if count as usize > ANSWER || port != Some(1001) {
                        return bad(
                            "asked",
                            format!("peer {} was asked for {} by port {:?}", id, count, port),
                        );
                    }
                }
                Some(Msg::Nodes(false, v)) => {
                    let s: BTreeSet<String> = v.iter().flatten().map(|a| a.to_string()).collect();
                    let have: BTreeSet<String> = (0..user().have.min(2500))
                        .map(|i| nth(i).to_string())
                        .collect();
                    if s.len() != v.len() || v.iter().any(|n| n.len() != 1) || !s.is_subset(&have) {
                        return bad(
                            "answer",
                            format!(
                                "peer {} was sent {} nodes with {} addresses, not all of them the node's",
                                id,
                                v.len(),
                                s.len()
                            ),
                        );
                    }
                    answers.push(v.len())
                }
                Some(Msg::Nodes(true, v)) => {
                    if v.len() > ANNOUNCE || v.iter().any(|n| n.len() > EACH) {
                        return bad(
                            "announced",
                            format!("peer {} was sent too much: {:?}", id, v),
                        );
                    }
                    for a in v.iter().flatten() {
                        let a = a.to_string();
                        let whose = listens.iter().position(|l| l.as_ref() == Some(&a));
                        if whose.is_none() || whose == Some(i) || user().picky {
                            return bad(
                                "announced",
                                format!(
                                    "peer {} was told of {}, which {}",
                                    id,
                                    a,
                                    match whose {
                                        None => "is no peer's",
                                        Some(w) if w == i => "is its own",
                                        _ => "is not to be announced",
                                    }
                                ),
                            );
                        }
                        if !p.announced.insert(a.clone()) {
                            return bad(
                                "announced",
                                format!("peer {} was told of {} twice", id, a),
                            );
                        }
                    }
                }
            }
        }
        if gets != asks as usize {
            return bad("asked", format!("peer {} was asked {} times", id, gets));
        }
        if answers != p.answers {
            return bad(
                "answer",
                format!(
                    "second {}: peer {} was sent {:?} addresses instead of {:?}",
                    now, id, answers, p.answers
                ),
            );
        }
    }
    Ok(())
}

fn with_port(at: &str, port: u16) -> String {
    let mut v: Vec<String> = at.split('/').map(|s| s.to_string()).collect();
    let i = v.iter().position(|s| s == "tcp").unwrap();
    v[i + 1] = port.to_string();
    v.join("/")
}

fn history(n: usize, acts: &'static [Act], depth: usize, have: &[usize], opts: Opts) -> R<()> {
    begin(n + 1);
    let u = User {
        punishes: choose(2, "user") == 1,
        have: have[choose(have.len(), "have")],
        picky: n > 1 && choose(2, "picky") == 1,
    };
    USER.with(|x| x.set(u));
    // the node is dialled by the peers, or dials them
    let out = choose(2, "out") == 1;
    let mut p = proto(1, Kind::Service);
    p.made = Some(|| handler(A));
    let a = service(cfg(vec![p]).key(0).listen(1));
    settle();
    let mut peers = Vec::new();
    let mut svcs = Vec::new();
    for i in 0..n {
        let port = 2 + i as u16;
        let mut c = cfg(vec![proto(1, Kind::Service)]).key(i + 1);
        if out {
            c = c.listen(port);
        }
        let s = service(c);
        settle();
        if out {
            drop(a.dial(addr(port), all()));
        } else {
            drop(s.dial(addr(1), all()));
        }
        run_for(0, opts)?;
        svcs.push(s);
        let at = log()
            .iter()
            .find_map(|e| match &e.ev {
                Ev::Open { id, addr, .. } if e.svc == A && *id == i + 1 => Some(addr.clone()),
                _ => None,
            })
            .unwrap_or_default();
        peers.push(Peer {
            open: true,
            listen: if out { Some(at.clone()) } else { None },
            at,
            asked: false,
            answered: false,
            told: Vec::new(),
            answers: Vec::new(),
            announced: BTreeSet::new(),
        });
    }
    let mut now = 0;
    judge(&mut peers, out, now)?;
    for step in 0..=depth {
        let (i, act) = if step == depth {
            // time for every address to get around
            (0, Act::Wait(if n > 1 { CYCLE + 3 * CHECK } else { 1 }))
        } else {
            let k = choose(n * acts.len(), "act");
            (k / acts.len(), acts[k % acts.len()])
        };
        mc_engine::log(|| format!("=> peer {} {:?}", i + 1, act));
        let id = i + 1;
        let say = |d: Bytes| {
            drop(svcs[i].send_message_to(sid(1), pid(1), d));
        };
        let p = &mut peers[i];
        let mut wait = 0;
        match act {
            Act::Wait(s) => wait = s,
            _ if !p.open => {
                stop();
                return Ok(());
            }
            Act::Get(count, port) => {
                say(get(count, port.map(|p| p + i as u16)));
                let mut go = true;
                if p.asked {
                    p.told.push((now, format!("again {}", id)));
                    go = !u.punishes;
                }
                p.asked = true;
                if go {
                    if let Some(x) = port {
                        if p.listen.is_none() {
                            p.listen = Some(with_port(&p.at, x + i as u16));
                        }
                        let l = p.listen.clone().unwrap();
                        p.told.push((now, format!("new {} {}", id, l)));
                    }
                    p.answers
                        .push(u.have.min(2500).min(ANSWER).min(count as usize));
                }
                p.open = go;
            }
            Act::Nodes(announce, items, each) => {
                let v: Vec<Vec<Multiaddr>> = (0..items)
                    .map(|k| (0..each).map(|m| nth(3000 + 10 * k + m)).collect())
                    .collect();
                say(nodes(announce as u8, &v));
                let mut go = true;
                if items > if announce { ANNOUNCE } else { ANSWER } {
                    p.told
                        .push((now, format!("items({},{}) {}", announce, items, id)));
                    go = !u.punishes;
                } else if items > 0 && each > EACH {
                    p.told.push((now, format!("addresses({}) {}", each, id)));
                    go = !u.punishes;
                }
                if go && !announce && p.answered {
                    p.told.push((now, format!("first-again {}", id)));
                    go = !u.punishes;
                } else if go {
                    p.answered |= !announce;
                    let all: Vec<Multiaddr> = v.into_iter().flatten().collect();
                    p.told.push((now, format!("addrs {} {}", id, brief(&all))));
                }
                p.open = go;
            }
            Act::Garbage(g) => {
                say(garbage(g));
                p.told.push((now, format!("invalid {}", id)));
                p.open = !u.punishes;
            }
            Act::Leave => {
                drop(svcs[i].disconnect(sid(1)));
                p.open = false;
            }
        }
        run_for(0, opts)?;
        judge(&mut peers, out, now)?;
        for _ in 0..wait {
            run_for(1, opts)?;
            now += 1;
        }
        judge(&mut peers, out, now)?;
    }
    if n > 1 && !u.picky {
        for (i, p) in peers.iter().enumerate().filter(|p| p.1.open) {
            for (k, q) in peers.iter().enumerate().filter(|q| q.1.open && q.0 != i) {
                if let Some(l) = &q.listen {
                    if !p.announced.contains(l) {
                        return bad(
                            "unannounced",
                            format!(
                                "peer {} was not told that peer {} listens on {}",
                                i + 1,
                                k + 1,
                                l
                            ),
                        );
                    }
                }
            }
        }
    }
    mc_engine::outcome(format!("{:?}", told()).as_bytes());
    stop();
    Ok(())
}

/// Peers that left take no part any more: those that come later hear of each other, as if the
/// others had never been there, and nothing of them.
fn gone(opts: Opts) -> R<()> {
    let left = 1 + choose(4, "left");
    let stay = [0, 3, 12][choose(3, "stay")];
    let gap = [0, 1, 12][choose(3, "gap")];
    let out = choose(2, "out") == 1;
    let n = left + 2;
    begin(n + 1);
    USER.with(|x| {
        x.set(User {
            punishes: true,
            have: 3,
            picky: false,
        })
    });
    let mut p = proto(1, Kind::Service);
    p.made = Some(|| handler(A));
    let a = service(cfg(vec![p]).key(0).listen(1));
    settle();
    for i in 0..n {
        let port = 2 + i as u16;
        let mut c = cfg(vec![proto(1, Kind::Service)]).key(i + 1);
        if out {
            c = c.listen(port);
        }
        let s = service(c);
        settle();
        if out {
            drop(a.dial(addr(port), all()));
            run_for(0, opts)?;
        } else {
            drop(s.dial(addr(1), all()));
            run_for(0, opts)?;
            drop(s.send_message_to(sid(1), pid(1), get(3, Some(1000 + port))));
            run_for(0, opts)?;
        }
        if i < left {
            run_for(stay, opts)?;
            drop(s.disconnect(sid(1)));
            run_for(gap, opts)?;
        }
    }
    run_for(CYCLE + 3 * CHECK, opts)?;
    for (i, other) in &[(left, left + 1), (left + 1, left)] {
        let mut heard = BTreeSet::new();
        for (_, d) in received(i + 1) {
            if let Some(Msg::Nodes(true, v)) = read(&d) {
                for a in v.iter().flatten() {
                    heard.insert(
                        a.iter()
                            .find_map(|p| match p {
                                tentacle::multiaddr::Protocol::TCP(p) => Some(p),
                                _ => None,
                            })
                            .unwrap_or(0),
                    );
                }
            }
        }
        let port = |i: &usize| 1000 + 2 + *i as u16;
        for h in &heard {
            if *h != port(other) {
                return bad(
                    "gone",
                    format!(
                        "peer {}, connected after the first {} had left, was told of port {}",
                        i + 1,
                        left,
                        h
                    ),
                );
            }
        }
        if heard.is_empty() {
            return bad(
                "unannounced",
                format!(
                    "peer {}, connected after the first {} had left, was not told of peer {}",
                    i + 1,
                    left,
                    other + 1
                ),
            );
        }
    }
    mc_engine::outcome(format!("{:?}", told()).as_bytes());
    stop();
    Ok(())
}

/// Nodes that all have the handler never find fault with each other.
fn honest(opts: Opts) -> R<()> {
    begin(3);
    USER.with(|x| {
        x.set(User {
            punishes: true,
            have: [0, 3, 1000, 4000][choose(4, "have")],
            picky: false,
        })
    });
    let made: [fn() -> Made; 3] = [|| handler(0), || handler(1), || handler(2)];
    let mut s = Vec::new();
    for (i, m) in made.iter().enumerate() {
        let mut p = proto(1, Kind::Service);
        p.made = Some(*m);
        s.push(service(cfg(vec![p]).key(i).listen(i as u16 + 1)));
    }
    settle();
    let ways = [[(0, 1), (1, 2)], [(0, 1), (0, 2)], [(1, 0), (2, 0)]];
    for (x, y) in &ways[choose(3, "shape")] {
        drop(s[*x as usize].dial(addr(*y as u16 + 1), all()));
        run_for(0, opts)?;
    }
    run_for(2 * CYCLE + 2, opts)?;
    for e in log() {
        match &e.ev {
            Ev::Note(t) if !t.starts_with("new ") && !t.starts_with("addrs ") => {
                return bad("fault", format!("node {} reports \"{}\"", e.svc, t))
            }
            Ev::Close { .. } => return bad("dropped", format!("node {} lost a peer", e.svc)),
            _ => (),
        }
    }
    for n in 0..3 {
        let t = log()
            .iter()
            .any(|e| e.svc == n && matches!(&e.ev, Ev::Note(_)));
        if !t {
            return bad("nothing", format!("node {} learned of no address", n));
        }
    }
    mc_engine::outcome(format!("{:?}", told()).as_bytes());
    stop();
    Ok(())
}

pub fn p03(t: bool) -> Vec<Scenario> {
    let b = "peers that dialled or were dialled, asking, answering, announcing, at and above every limit, sending something else, leaving or silent, in every order, against a reference on the virtual clock";
    let d = if t { 1 } else { 0 };
    vec![
        Scenario::new("one", 0, 300, b, move || {
            history(1, ACTS, 3 + d, &[3], fifo())
        }),
        Scenario::new("limits", 0, 300, b, move || {
            history(1, LIMITS, 1 + d, &[0, 3, 1000, 1001, 4000], fifo())
        }),
        Scenario::new("two", 0, 300, b, move || {
            history(2, FEW, 3 + d, &[3], fifo())
        }),
        Scenario::new("three", 0, 300, b, move || {
            history(3, FEW, 2 + d, &[0], fifo())
        }),
        Scenario::new("orders", 1 + d, 300, b, move || {
            history(1 + d, FEW, 1, &[3], orders())
        }),
        Scenario::new("mangled", 0, 100, b, move || {
            USER.with(|x| {
                x.set(User {
                    punishes: false,
                    have: 3,
                    picky: false,
                })
            });
            #[allow(unused_mut)]
            let mut some = vec![
                get(3, Some(4000)),
                nodes(1, &[vec![nth(1), nth(2)], vec![nth(3)]]),
            ];
            #[cfg(feature = "flatc")]
            {
                use flat::F;
                some.push(framed(flat::write(&[F::U8(2)])));
                some.push(payload(1, vec![]));
                some.push(payload(2, vec![]));
                some.push(payload(2, vec![F::U8(1), F::V(vec![vec![]])]));
                let a = vec![F::V(vec![vec![]])];
                some.push(payload(2, vec![F::U8(1), F::V(vec![a])]));
            }
            mangled(|| handler(A), &some, get(3, Some(4001)))
        }),
        Scenario::new("gone", 1, 300, b, move || {
            gone(if t { orders() } else { fifo() })
        }),
        Scenario::new("honest", 1, 300, b, move || {
            honest(if t { orders() } else { fifo() })
        }),
    ]
}
