//! Histories of dial and listen requests of one service against peers of every sort.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

use mc_engine::exec::{self, Opts, SEC};
use mc_engine::{bad, choose, Scenario, R};
use tentacle::multiaddr::Multiaddr;

use crate::duo::history_seen;
use crate::judge;
use crate::world::*;

/// The service under test is started last.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Req {
    Dial(usize),
    Listen(usize),
    /// drop every open session
    Disc,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Setting {
    Plain,
    Secure,
    /// plain, the connection limit is reached
    Full,
}

struct World {
    me: Svc,
    dials: Vec<Multiaddr>,
    listens: Vec<Multiaddr>,
    /// per address: requests, fewest and most answers
    want: RefCell<BTreeMap<String, (bool, usize, usize)>>,
}

fn p(s: &str) -> Multiaddr {
    s.parse().unwrap()
}

/// A listener without a service: it takes connections and does this with each.
fn raw_listener(n: u16, keep: bool, say: &'static [u8]) {
    let mut l = net_listen(sock(n));
    exec::spawn_daemon(format!("raw{}", n), async move {
        let mut kept = Vec::new();
        loop {
            let mut c = l.accept().await;
            if !say.is_empty() {
                use tokio::io::AsyncWriteExt;
                let _ = c.write_all(say).await;
            }
            if keep {
                kept.push(c);
            }
        }
    });
}

fn world(set: Setting) -> Rc<World> {
    start(Default::default(), 4);
    let protos = vec![proto(1, Kind::Both)];
    let secure = set == Setting::Secure;
    let c = |k: usize| {
        let c = cfg(protos.clone());
        if secure {
            c.key(k)
        } else {
            c
        }
    };
    let mut peer = c(1).listen(1);
    peer.listen_also = Some(2);
    service(peer);
    silent(sock(4));
    raw_listener(5, false, b"");
    raw_listener(6, true, b"");
    raw_listener(7, true, b"GET / HTTP/1.1\r\n\r\n");
    let mut mine = c(0).listen(9);
    if set == Setting::Full {
        mine.max_conn = Some(1);
    }
    let me = service(mine);
    let mut dials = vec![
        addr(1),
        addr(2),
        addr(3),
        addr(4),
        addr(5),
        addr(6),
        p("/ip4/127.0.0.1/tcp/1020/wss"),
        p("/ip4/127.0.0.21"),
        p("/dns4/127.0.0.1/tcp/1022"),
        addr(9),
    ];
    let mut dns = c(2).listen(22);
    dns.forever = true;
    service(dns);
    if secure {
        dials[1] = addr_with_peer(2, 1);
        dials.push(addr(7));
        let mut other = c(3).listen(8);
        other.forever = true;
        service(other);
        // the peer listening there is number 3
        dials.push(addr_with_peer(8, 2));
    }
    let listens = vec![
        addr(10),
        addr(5),
        p("/ip4/127.0.0.1/tcp/1023/tls/a"),
        p("/ip4/127.0.0.24"),
        p("/ip4/127.0.0.1/tcp/0"),
        p("/dns4/127.0.0.1/tcp/1025"),
    ];
    settle();
    Rc::new(World {
        me,
        dials,
        listens,
        want: RefCell::new(BTreeMap::new()),
    })
}

impl World {
    fn name(&self, a: &Multiaddr) -> String {
        a.to_string()
    }

    fn answers(&self, a: &Multiaddr, dial: bool) -> usize {
        let name = self.name(a);
        let me = self.me.n;
        // a listener reports where it listens, not what it was asked for
        let real = name.replace("/tcp/0", "/tcp/50").replace("/dns4/", "/ip4/");
        count(|e| {
            e.svc == me
                && match &e.ev {
                    Ev::Open {
                        out: true, addr, ..
                    } => dial && addr.starts_with(&name),
                    Ev::Err {
                        kind: "dial", addr, ..
                    } => dial && *addr == name,
                    Ev::ListenStarted(addr) => !dial && (*addr == name || addr.starts_with(&real)),
                    Ev::Err {
                        kind: "listen",
                        addr,
                        detail,
                        ..
                    } => !dial && *addr == name && !detail.contains("RepeatedConnection"),
                    _ => false,
                }
        })
    }

    fn request(&self, r: Req) {
        mc_engine::log(|| format!("=> {:?}", r));
        let (a, dial) = match r {
            Req::Dial(i) => (&self.dials[i], true),
            Req::Listen(i) => (&self.listens[i], false),
            Req::Disc => {
                for s in judge::live(&log(), self.me.n).keys() {
                    drop(self.me.disconnect(sid(*s)));
                }
                return;
            }
        };
        let have = self.answers(a, dial);
        let key = format!("{}{}", if dial { "dial " } else { "listen " }, a);
        let mut w = self.want.borrow_mut();
        let x = w.entry(key).or_insert((dial, 0, 0));
        let listening =
            !dial && count(|e| e.svc == self.me.n && e.ev == Ev::ListenStarted(self.name(a))) > 0;
        // merged with a request that has no answer yet, or with the listener that is there
        if have >= x.2 && !listening {
            x.1 += 1;
        } else if have >= x.1 && !listening {
            // answered or merged, either is fine
            x.1 = x.1.max(have);
        }
        x.2 += 1;
        let res = if dial {
            self.me.dial(a.clone(), all())
        } else {
            self.me.listen(a.clone())
        };
        if res.is_err() {
            mc_engine::fail("refused", "the service does not take requests");
        }
    }

    fn check(&self, when: &str) -> R<()> {
        for (k, (dial, lo, hi)) in self.want.borrow().iter() {
            let a = p(k.split(' ').nth(1).unwrap());
            let n = self.answers(&a, *dial);
            if n < *lo {
                return bad(
                    "no-answer",
                    format!("{}: {} answers to {} requests to {}", when, n, hi, k),
                );
            }
            if n > *hi {
                return bad(
                    "answers",
                    format!("{}: {} answers to {} requests to {}", when, n, hi, k),
                );
            }
        }
        Ok(())
    }

    fn rest(&self, opts: Opts) -> R<()> {
        let end = exec::run(Opts {
            horizon: exec::now() + 40 * SEC,
            ..opts
        });
        if end == exec::End::Steps {
            return bad("no-rest", "the services do not come to rest");
        }
        judge::no_panic()
    }

    /// What is reported to listen accepts, what is reported closed does not.
    fn listeners(&self) -> R<()> {
        let mut l: BTreeMap<String, bool> = BTreeMap::new();
        for e in log().iter().filter(|e| e.svc == self.me.n) {
            match &e.ev {
                Ev::ListenStarted(a) => {
                    if l.insert(a.clone(), true) == Some(true) {
                        return bad("listen-twice", format!("{} started twice", a));
                    }
                }
                Ev::ListenClose(a) => {
                    if l.insert(a.clone(), false) != Some(true) {
                        return bad("listen-close", format!("{} closed but not listening", a));
                    }
                }
                _ => (),
            }
        }
        for (a, on) in l {
            let port: u16 = a.rsplit('/').next().unwrap().parse().unwrap();
            let c = net_connect(([127, 0, 0, 1], port).into());
            if c.is_ok() != on {
                return bad(
                    "listener-state",
                    format!(
                        "{} is reported {}, but connecting to it {}",
                        a,
                        if on { "listening" } else { "closed" },
                        if c.is_ok() { "works" } else { "fails" }
                    ),
                );
            }
        }
        Ok(())
    }
}

fn run(set: Setting, menu: fn(&World) -> Vec<Req>, n: usize, gaps: usize, opts: Opts) -> R<()> {
    let w = world(set);
    let menu = menu(&w);
    let mut at = exec::steps();
    for i in 0..n {
        let r = menu[choose(menu.len(), "request")];
        if i == 0 {
            w.request(r);
            continue;
        }
        match choose(gaps + 1, "gap") {
            0 => {
                w.rest(opts)?;
                w.check("at rest")?;
                at = exec::steps();
                w.request(r);
            }
            g => {
                at += g as u64 - 1;
                if at <= exec::steps() {
                    w.request(r);
                } else {
                    let w2 = w.clone();
                    exec::at_step(at, move || w2.request(r));
                }
            }
        }
    }
    w.rest(opts)?;
    history_seen();
    w.check("at rest")?;
    judge::sessions(&log())?;
    w.listeners()?;
    // everything can be asked for again, with an answer of its own
    let again: Vec<(String, bool)> = w
        .want
        .borrow()
        .iter()
        .map(|(k, v)| (k.clone(), v.0))
        .collect();
    for (k, dial) in again {
        if !dial {
            continue;
        }
        let a = p(k.split(' ').nth(1).unwrap());
        let before = w.answers(&a, true);
        drop(w.me.dial(a.clone(), all()));
        exec::run(Opts {
            sched: false,
            horizon: exec::now() + 40 * SEC,
            ..Opts::default()
        });
        judge::no_panic()?;
        let got = w.answers(&a, true) - before;
        if got != 1 {
            return bad(
                "redial",
                format!("dialling {} again is answered {} times", a, got),
            );
        }
    }
    stop();
    Ok(())
}

fn dials(w: &World) -> Vec<Req> {
    (0..w.dials.len())
        .map(Req::Dial)
        .chain(Some(Req::Disc))
        .collect()
}

fn listens(w: &World) -> Vec<Req> {
    (0..w.listens.len())
        .map(Req::Listen)
        .chain(Some(Req::Dial(0)))
        .collect()
}

fn mixed(_w: &World) -> Vec<Req> {
    vec![
        Req::Dial(0),
        Req::Dial(2),
        Req::Dial(3),
        Req::Dial(6),
        Req::Listen(0),
        Req::Listen(1),
        Req::Disc,
    ]
}

pub fn t04(t: bool) -> Vec<Scenario> {
    let o = Opts {
        starve: true,
        ..Opts::default()
    };
    let mut v = Vec::new();
    let mut add = |name: &str, set, menu, n, gaps, dev, wall| {
        let name_inside = name.ends_with("inside");
        v.push(Scenario::new(
            name,
            dev,
            wall,
            "one service, every sequence of requests over the address alphabet, back to back, at every gap and at rest",
            move || run(set, menu, n, gaps, if name_inside { inside() } else { o }),
        ))
    };
    let d = t as usize;
    add("dial-inside", Setting::Plain, dials, 1 + d, 1, 1, 600);
    add("listen-inside", Setting::Plain, listens, 2, 1, 1, 600);
    add("dial-plain", Setting::Plain, dials, 2, 30, d, 400);
    add("dial-full", Setting::Full, dials, 2, 1, d, 300);
    add("dial-plain-dev", Setting::Plain, dials, 2, 1, 1 + d, 600);
    add(
        "dial-secure",
        Setting::Secure,
        dials,
        2,
        if t { 30 } else { 2 },
        d,
        600,
    );
    add("listen", Setting::Plain, listens, 2, 30, d, 300);
    add("listen-dev", Setting::Plain, listens, 2, 1, 1 + d, 300);
    add(
        "mixed",
        Setting::Plain,
        mixed,
        3,
        if t { 4 } else { 1 },
        d,
        600,
    );
    v
}
