//! Negotiation of protocols and versions.
use std::rc::Rc;

use bytes::Bytes;
use mc_engine::exec::{self, Opts, SEC};
use tentacle::service::TargetProtocol;

use mc_engine::{bad, choose, Scenario, R};

use crate::duo::history_seen;
use crate::hostile::{Role, Siege, B as BIG};
use crate::judge;
use crate::raw::*;
use crate::world::*;

const B: usize = 0;
const A: usize = 1;

const VERSIONS: [&str; 3] = ["0.0.1", "0.0.10", "0.0.2"];

fn list(bits: usize, n: usize) -> Vec<&'static str> {
    (0..n)
        .filter(|i| bits >> i & 1 == 1)
        .map(|i| VERSIONS[i])
        .collect()
}

fn seen(svc: usize, p: usize) -> Vec<String> {
    log()
        .iter()
        .filter_map(|e| match &e.ev {
            Ev::Conn {
                proto,
                ver,
                lv: Lv::Service,
                ..
            } if e.svc == svc && *proto == p => Some(ver.clone()),
            _ => None,
        })
        .collect()
}

fn rest(opts: Opts, secs: u64) -> R<()> {
    let end = exec::run(Opts {
        horizon: exec::now() + secs * SEC,
        ..opts
    });
    if end == exec::End::Steps {
        return bad("no-rest", "the services do not come to rest");
    }
    judge::no_panic()
}

fn select_errors(svc: usize) -> Vec<String> {
    log()
        .iter()
        .filter_map(|e| match &e.ev {
            Ev::Err {
                kind: "select",
                detail,
                ..
            } if e.svc == svc => Some(detail.clone()),
            _ => None,
        })
        .collect()
}

/// All pairs of version lists; protocol 2 is common to both and has to work whatever happens to
/// protocol 1. `who` opens: 0 the dialler as part of the dial, 1 the dialler later, 2 the listener.
fn versions(n: usize, opts: Opts) -> R<()> {
    start(Default::default(), 0);
    let who = choose(3, "who");
    let (la, lb) = (choose(1 << n, "dialler's"), choose(1 << n, "listener's"));
    // 0: same name, 1: the names differ, 2: unknown to the listener
    let names = choose(3, "name");
    // the side that is asked has a rule of its own
    let lowest = choose(2, "rule") == 1;
    let (va, vb) = (list(la, n), list(lb, n));
    let mut pa = proto(1, Kind::Both).versions(&va);
    let mut pb = proto(1, Kind::Both).versions(&vb);
    if lowest {
        if who == 2 {
            pa.lowest = true
        } else {
            pb.lowest = true
        }
    }
    let ma = vec![pa, proto(2, Kind::Both)];
    let mut mb = vec![proto(2, Kind::Both)];
    match names {
        0 => mb.push(pb),
        1 => mb.push(pb.name("/p/other")),
        _ => (),
    }
    let b = service(cfg(mb).listen(1));
    let a = service(cfg(ma));
    settle();
    match who {
        0 => drop(a.dial(addr(1), all())),
        _ => {
            drop(a.dial(addr(1), TargetProtocol::Single(pid(2))));
            settle();
            let (s, t) = if who == 1 { (&a, pid(1)) } else { (&b, pid(1)) };
            drop(s.open_protocol(sid(1), t));
        }
    }
    rest(opts, 5)?;
    history_seen();
    let mut common = (0..n).filter(|i| (la & lb) >> i & 1 == 1);
    let common = if lowest { common.next() } else { common.last() };
    let asks = who != 2 || names != 2;
    let want: Vec<String> = match (names, common) {
        (0, Some(i)) => vec![VERSIONS[i].to_string()],
        _ => Vec::new(),
    };
    for s in &[A, B] {
        let got = seen(*s, 1);
        if got != want {
            return bad(
                "version",
                format!(
                    "dialler {:?}, listener {:?} (names {}): service {} opened {:?} instead of {:?}",
                    va, vb, names, s, got, want
                ),
            );
        }
        if seen(*s, 2) != vec!["1".to_string()] || !judge::connected(&log(), *s, Lv::Service, 1, 2)
        {
            return bad("disturbed", "another protocol of the session was disturbed");
        }
    }
    let opener = if who == 2 { B } else { A };
    let errors = select_errors(opener).len();
    if errors != (want.is_empty() && asks) as usize {
        return bad(
            "select-error",
            format!(
                "the side that asked opened {:?} and reported {} selection errors",
                want, errors
            ),
        );
    }
    works(&a, &b, 2)?;
    if !want.is_empty() {
        works(&a, &b, 1)?;
    }
    stop();
    Ok(())
}

fn targets(known: usize) -> (TargetProtocol, Vec<usize>) {
    let sets: &[&[usize]] = &[&[], &[1], &[3], &[1, 2], &[3, 1], &[2, 9], &[3, 2, 1]];
    match choose(sets.len() + 5, "target") {
        0 => (TargetProtocol::All, (1..=known).collect()),
        k @ 1..=4 => {
            let p = [1, 2, 3, 9][k - 1];
            (TargetProtocol::Single(pid(p)), vec![p])
        }
        k => (
            TargetProtocol::Multi(sets[k - 5].iter().map(|p| pid(*p)).collect()),
            sets[k - 5].to_vec(),
        ),
    }
}

/// A dial and a later request of either side open the protocols they name and no others.
fn named(opts: Opts) -> R<()> {
    start(Default::default(), 0);
    let protos = || (1..=3).map(|p| proto(p, Kind::Both)).collect::<Vec<_>>();
    let b = service(cfg(protos()).listen(1));
    let a = service(cfg(protos()));
    settle();
    let (t, mut want) = targets(3);
    let early = choose(3, "when");
    drop(a.dial(addr(1), t));
    if early > 0 {
        settle();
        let (t, more) = targets(3);
        let s = if early == 1 { &a } else { &b };
        drop(s.open_protocols(sid(1), t));
        want.extend(more);
    }
    rest(opts, 5)?;
    history_seen();
    for s in &[A, B] {
        for p in 1..=3 {
            let got = seen(*s, p).len();
            if got != want.contains(&p) as usize {
                return bad(
                    "named",
                    format!(
                        "service {}: asked for {:?}, protocol {} opened {} times",
                        s, want, p, got
                    ),
                );
            }
        }
        if !select_errors(*s).is_empty() {
            return bad("select-error", "a selection error where nothing failed");
        }
    }
    stop();
    Ok(())
}

fn works(a: &Svc, b: &Svc, p: usize) -> R<()> {
    for (from, to) in &[(a, b), (b, a)] {
        let got = || {
            count(|e| {
                e.svc == to.n
                    && matches!(&e.ev, Ev::Recv { id: 1, proto, lv: Lv::Service, .. } if *proto == p)
            })
        };
        let before = got();
        drop(from.send_message_to(sid(1), pid(p), Bytes::from_static(b"x")));
        settle();
        if got() != before + 1 {
            return bad(
                "dead-protocol",
                format!("protocol {} is open but does not carry messages", p),
            );
        }
    }
    Ok(())
}

/// Opens of one protocol from both sides, in every order and overlap.
fn opens(n: usize, gaps: usize, opts: Opts) -> R<()> {
    start(Default::default(), 0);
    let v = &["1", "2"];
    let m = |k| vec![proto(1, k).versions(v), proto(2, k)];
    let b = Rc::new(service(cfg(m(Kind::Both)).listen(1)));
    let a = Rc::new(service(cfg(m(Kind::Both))));
    settle();
    drop(a.dial(addr(1), TargetProtocol::Single(pid(2))));
    settle();
    let mut at = exec::steps();
    for i in 0..n {
        let from = if choose(2, "from") == 0 {
            a.clone()
        } else {
            b.clone()
        };
        if i > 0 {
            at += choose(gaps, "gap") as u64;
        }
        let go = move || {
            mc_engine::log(|| format!("=> open by {}", from.n));
            drop(from.open_protocol(sid(1), pid(1)))
        };
        if at <= exec::steps() {
            go()
        } else {
            exec::at_step(at, go)
        }
    }
    rest(opts, 5)?;
    history_seen();
    let l = log();
    judge::nesting(&l)?;
    judge::sessions(&l)?;
    let on: Vec<bool> = [A, B]
        .iter()
        .flat_map(|s| {
            Kind::Both
                .levels()
                .iter()
                .map(|lv| judge::connected(&l, *s, *lv, 1, 1))
                .collect::<Vec<_>>()
        })
        .collect();
    if on.iter().any(|x| *x != on[0]) {
        return bad(
            "half-open",
            format!("the ends disagree whether the protocol is open: {:?}", on),
        );
    }
    for s in &[A, B] {
        if let Some(v) = seen(*s, 1).iter().find(|v| *v != "2") {
            return bad("version", format!("opened version {}", v));
        }
        if !select_errors(*s).is_empty() {
            return bad("select-error", "selection error for a shared protocol");
        }
    }
    works(&a, &b, 2)?;
    if on[0] {
        works(&a, &b, 1)?;
    }
    stop();
    Ok(())
}

/// A negotiation message cut at every byte or with one byte changed, from a remote that has
/// another protocol open.
fn malformed(role: Role, changes: &[u8], opts: Opts) -> R<()> {
    let s = Siege::new(Kind::Both, false, role);
    let raw = s.raw();
    let (ok, bad_id) = match role {
        Role::Client => {
            raw.send(&data(SYN, 1, &select("/p/2", &["1"])));
            (1, 3)
        }
        Role::Server => {
            // the service opened both; answer the one for protocol 2 properly
            let two = (1..=3)
                .step_by(2)
                .find(|i| raw.stream(*i) == select("/p/2", &["1"]));
            let two = match two {
                Some(i) => i,
                None => return bad("request", "the service did not ask for protocol 2"),
            };
            raw.send(&data(0, two, &select("/p/2", &["1"])));
            (two, 4 - two)
        }
    };
    settle();
    if !judge::connected(&log(), BIG, Lv::Service, 2, 2) {
        return bad("set-up", "protocol 2 did not open");
    }
    let good = select("/p/1", &["1"]);
    let k = choose(changes.len() + 1, "kind");
    let at = choose(good.len() + (k == 0) as usize, "position");
    let mut m = good.clone();
    if k == 0 {
        m.truncate(at)
    } else {
        m[at] ^= changes[k - 1]
    }
    let flags = if role == Role::Client { SYN } else { 0 };
    raw.send(&data(flags, bad_id, &m));
    let end = choose(3, "then");
    match end {
        0 => (),
        1 => raw.send(&frame(WINDOW, FIN, bad_id, 0, &[])),
        _ => raw.send(&frame(WINDOW, RST, bad_id, 0, &[])),
    }
    let t0 = exec::now();
    let bound = Opts {
        horizon: t0 + 15 * SEC,
        ..opts
    };
    if exec::run(bound) == exec::End::Steps {
        return bad("no-rest", "the service does not come to rest");
    }
    history_seen();
    judge::no_panic()?;
    judge::nesting(&log())?;
    let l = log();
    let opened = count(|e| {
        e.svc == BIG
            && matches!(
                &e.ev,
                Ev::Conn {
                    id: 2,
                    proto: 1,
                    lv: Lv::Service,
                    ..
                }
            )
    });
    // what the message says, by the decoder alone
    let says = if m.len() >= 4 {
        let n = u32::from_be_bytes([m[0], m[1], m[2], m[3]]) as usize;
        if m.len() >= 4 + n {
            tentacle::protocol_select::ProtocolInfo::decode(&m[4..4 + n])
        } else {
            None
        }
    } else {
        None
    };
    let should = match (&says, role) {
        (Some(i), Role::Client) => i.name == "/p/1" && i.support_versions.iter().any(|v| v == "1"),
        (Some(i), Role::Server) => i.name == "/p/1" && !i.support_versions.is_empty(),
        (None, _) => false,
    };
    if opened > should as usize || (should && end == 0 && opened == 0) {
        return bad(
            "opened",
            format!("{:?} opened the protocol {} times", says, opened),
        );
    }
    if role == Role::Server && !should && end == 0 && select_errors(BIG).is_empty() {
        return bad(
            "select-error",
            format!("no selection error after the answer {:?}", says),
        );
    }
    // a server that answers with a name nobody asked for forfeits its session
    let forfeit = match (&says, role) {
        (Some(i), Role::Server) => {
            i.name != "/p/1" && i.name != "/p/2" && !i.support_versions.is_empty()
        }
        _ => false,
    };
    if !forfeit {
        if !judge::connected(&l, BIG, Lv::Service, 2, 2) {
            return bad("disturbed", "another protocol of the session was closed");
        }
        let before = raw.stream(ok).len();
        drop(s.b.send_message_to(sid(2), pid(2), Bytes::from_static(b"ping")));
        raw.send(&data(0, ok, &msg(b"pong")));
        settle();
        let got = count(|e| {
            e.svc == BIG
                && matches!(&e.ev, Ev::Recv { id: 2, proto: 2, lv: Lv::Service, data } if &data[..] == b"pong")
        });
        if raw.stream(ok).len() != before + 8 || got != 1 {
            return bad(
                "disturbed",
                "another protocol of the session no longer carries messages",
            );
        }
    }
    stop();
    Ok(())
}

/// A remote that never answers: the others go on, and the service reports an error in the end.
fn stalled(opts: Opts) -> R<()> {
    let s = Siege::new(Kind::Both, false, Role::Server);
    let raw = s.raw();
    let answer = choose(2, "answer");
    let id = 1 + 2 * answer as u32;
    let asked = raw.stream(id);
    let name = if asked == select("/p/1", &["1"]) {
        1
    } else {
        2
    };
    raw.send(&data(0, id, &select(&format!("/p/{}", name), &["1"])));
    raw.send(&data(0, id, &msg(b"one")));
    let t0 = exec::now();
    if exec::run(Opts {
        horizon: t0 + 25 * SEC,
        ..opts
    }) == exec::End::Steps
    {
        return bad("no-rest", "the service does not come to rest");
    }
    history_seen();
    judge::no_panic()?;
    let l = log();
    let e: Vec<&Entry> = l
        .iter()
        .filter(|e| e.svc == BIG && matches!(&e.ev, Ev::Err { kind: "select", .. }))
        .collect();
    if e.len() != 1 {
        return bad(
            "stall-error",
            format!("{} selection errors for one stalled negotiation", e.len()),
        );
    }
    if e[0].at < t0 + 10 * SEC {
        return bad("stall-early", "the negotiation was given up too early");
    }
    if !judge::connected(&l, BIG, Lv::Service, 2, name) {
        return bad("disturbed", "another protocol of the session was closed");
    }
    raw.send(&data(0, id, &msg(b"two")));
    settle();
    let got = count(|e| {
        e.svc == BIG
            && matches!(
                &e.ev,
                Ev::Recv {
                    id: 2,
                    lv: Lv::Service,
                    ..
                }
            )
    });
    if got != 2 {
        return bad(
            "disturbed",
            "another protocol of the session no longer carries messages",
        );
    }
    stop();
    Ok(())
}

pub fn t06(t: bool) -> Vec<Scenario> {
    let o = Opts {
        starve: true,
        ..Opts::default()
    };
    let fifo = Opts {
        sched: false,
        ..Opts::default()
    };
    let d = t as usize;
    let c: &[u8] = if t {
        &[1, 2, 4, 8, 16, 32, 64, 128, 255]
    } else {
        &[1, 0x80]
    };
    vec![
        Scenario::new(
            "versions",
            0,
            120,
            "all pairs of lists of up to three versions, equal, different and unknown names, either side opening",
            move || versions(3, fifo),
        ),
        Scenario::new(
            "versions-dev",
            1 + d,
            300,
            "all pairs of lists of up to two versions, all schedules up to the bound",
            move || versions(2, o),
        ),
        Scenario::new(
            "named",
            0,
            120,
            "every target of a dial, every target of a later request of either side",
            move || named(fifo),
        ),
        Scenario::new(
            "named-dev",
            1,
            120,
            "every target of a dial, all schedules up to the bound",
            move || named(o),
        ),
        Scenario::new(
            "opens",
            1 + d,
            300,
            "two opens of one protocol from either side at every distance",
            move || opens(2, if t { 60 } else { 30 }, o),
        ),
        Scenario::new(
            "opens-dev",
            1 + d,
            600,
            "three opens of one protocol from either side, all schedules up to the bound",
            move || opens(3, 3, o),
        ),
        Scenario::new("named-inside", 1 + d, 300, INSIDE, move || named(inside())),
        Scenario::new("opens-inside", 1 + d, 300, INSIDE, move || {
            opens(2, 5, inside())
        }),
        Scenario::new("stalled-inside", 1 + d, 300, INSIDE, move || {
            stalled(inside())
        }),
        Scenario::new(
            "malformed-request",
            0,
            120,
            "request cut at every byte or with one byte changed, then silence, end or reset of the stream",
            move || malformed(Role::Client, c, fifo),
        ),
        Scenario::new(
            "malformed-answer",
            0,
            120,
            "answer cut at every byte or with one byte changed, then silence, end or reset of the stream",
            move || malformed(Role::Server, c, fifo),
        ),
        Scenario::new(
            "stalled",
            1 + d,
            120,
            "one negotiation is never answered",
            move || stalled(o),
        ),
    ]
}
