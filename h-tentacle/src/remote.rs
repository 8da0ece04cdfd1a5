//! A service with one session to a remote that speaks the protocol by hand: streams end in ways
//! two services never use with each other.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

use bytes::Bytes;
use mc_engine::exec::{self, Opts, SEC};
use mc_engine::{bad, choose, Scenario, R};

use crate::duo::history_seen;
use crate::hostile::Role;
use crate::judge;
use crate::raw::*;
use crate::world::*;

const B: usize = 0;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Message(usize),
    Rst(usize),
    Fin(usize),
    DataFin(usize),
    Oversized(usize),
    Refused(usize),
    HalfFin(usize),
    HalfRst(usize),
    Open(usize),
    OpenEarly(usize),
    GoAway,
    Broken,
    Eof,
    Reset,
    LocalSend(usize),
    LocalBig(usize),
    LocalClose(usize),
    LocalOpen(usize),
    LocalDisc,
}
use Act::*;

pub const ACTS: &[Act] = &[
    Message(1),
    Rst(1),
    Fin(1),
    DataFin(1),
    Oversized(1),
    Refused(1),
    HalfFin(1),
    HalfRst(1),
    Open(1),
    OpenEarly(1),
    Rst(2),
    GoAway,
    Broken,
    Eof,
    Reset,
    LocalSend(1),
    LocalBig(1),
    LocalClose(1),
    LocalOpen(1),
    LocalDisc,
];

pub struct Far {
    pub b: Svc,
    pub kind: Kind,
    pub raw: Rc<Raw>,
    role: Role,
    /// protocol to the stream it was last opened on
    at: RefCell<BTreeMap<usize, u32>>,
    next: RefCell<u32>,
    done: RefCell<Vec<Act>>,
    sent: RefCell<usize>,
}

fn open(p: usize) -> Vec<u8> {
    select(&format!("/p/{}", p), &["1"])
}

impl Far {
    /// Both protocols open; the remote answers what the service asks for.
    pub fn new(kind: Kind, role: Role, tweak: impl Fn(SvcCfg) -> SvcCfg) -> Rc<Far> {
        start(Default::default(), 2);
        let protos = (1..=2).map(|p| Proto {
            refuse: true,
            ..proto(p, kind)
        });
        let protos = protos.collect();
        let b = service(tweak(cfg(protos).listen(1)));
        settle();
        let raw = match role {
            Role::Client => Raw::connect(1),
            Role::Server => {
                let slot: Rc<RefCell<Option<Rc<Raw>>>> = Rc::default();
                let s = slot.clone();
                accept_on(7, move |r| *s.borrow_mut() = Some(r));
                drop(b.dial(addr(7), all()));
                settle();
                let r = slot.borrow().clone();
                r.expect("no connection")
            }
        };
        let far = Rc::new(Far {
            b,
            kind,
            raw,
            role,
            at: Default::default(),
            next: RefCell::new(if role == Role::Client { 1 } else { 2 }),
            done: Default::default(),
            sent: Default::default(),
        });
        // answer every request of the service
        let f = Rc::downgrade(&far);
        far.raw.on_frame(move |x| {
            if let Some(f) = f.upgrade() {
                f.answer();
                // whoever reads a stream himself sees its end when the remote agrees
                if f.kind == Kind::Spawn && x.flags & FIN != 0 {
                    f.raw.send(&frame(WINDOW, FIN, x.id, 0, &[]));
                }
            }
        });
        far.answer();
        if role == Role::Client {
            far.act(Open(1));
            far.act(Open(2));
        }
        settle();
        far.done.borrow_mut().clear();
        far
    }

    fn answer(&self) {
        for p in 1..=2 {
            let asked: Vec<u32> = (0..40)
                .map(|i| 2 * i + if self.role == Role::Client { 2 } else { 1 })
                .filter(|id| self.raw.stream(*id).starts_with(&open(p)))
                .collect();
            for id in asked {
                if self.raw.mark(id) {
                    self.raw.send(&data(0, id, &open(p)));
                    self.at.borrow_mut().insert(p, id);
                }
            }
        }
    }

    fn stream(&self, p: usize) -> u32 {
        self.at.borrow().get(&p).copied().unwrap_or(9999)
    }

    pub fn act(&self, a: Act) {
        mc_engine::log(|| format!("=> {:?}", a));
        self.done.borrow_mut().push(a);
        let raw = &self.raw;
        let open_with = |p: usize, more: &[u8]| {
            let id = *self.next.borrow();
            *self.next.borrow_mut() += 2;
            let mut b = open(p);
            b.extend_from_slice(more);
            raw.send(&data(SYN, id, &b));
            self.at.borrow_mut().insert(p, id);
        };
        match a {
            Message(p) => raw.send(&data(0, self.stream(p), &msg(b"hello"))),
            Rst(p) => raw.send(&frame(WINDOW, RST, self.stream(p), 0, &[])),
            Fin(p) => raw.send(&frame(WINDOW, FIN, self.stream(p), 0, &[])),
            DataFin(p) => raw.send(&data(FIN, self.stream(p), &msg(b"last"))),
            Oversized(p) => raw.send(&data(0, self.stream(p), &[0xff; 8])),
            Refused(p) => raw.send(&data(0, self.stream(p), &msg(REFUSED))),
            HalfFin(p) => raw.send(&data(FIN, self.stream(p), &msg(b"cut")[..5])),
            HalfRst(p) => {
                raw.send(&data(0, self.stream(p), &msg(b"cut")[..5]));
                raw.send(&frame(WINDOW, RST, self.stream(p), 0, &[]))
            }
            Open(p) => open_with(p, &[]),
            OpenEarly(p) => open_with(p, &msg(b"early")),
            GoAway => raw.send(&frame(GO_AWAY, 0, 0, 0, &[])),
            Broken => raw.send(&[7; 12]),
            Eof => raw.eof(),
            Reset => raw.reset(),
            LocalSend(p) => self.send(p, 10),
            LocalBig(p) => self.send(p, 300 * 1024),
            LocalClose(p) => drop(self.b.close_protocol(sid(1), pid(p))),
            LocalOpen(p) => drop(self.b.open_protocol(sid(1), pid(p))),
            LocalDisc => drop(self.b.disconnect(sid(1))),
        }
    }

    fn send(&self, p: usize, n: usize) {
        *self.sent.borrow_mut() += 1;
        drop(
            self.b
                .send_message_to(sid(1), pid(p), Bytes::from(vec![b'x'; n])),
        )
    }

    fn did(&self, f: impl Fn(&Act) -> bool) -> bool {
        self.done.borrow().iter().any(f)
    }

    fn on(&self, p: usize) -> Vec<bool> {
        let l = log();
        self.kind
            .levels()
            .iter()
            .map(|lv| judge::connected(&l, B, *lv, 1, p))
            .collect()
    }

    pub fn judge(&self) -> R<()> {
        judge::no_panic()?;
        let l = log();
        judge::nesting(&l)?;
        judge::sessions(&l)?;
        let live = judge::live(&l, B).contains_key(&1);
        let ending = self.did(|a| matches!(a, GoAway | Broken | Eof | Reset | LocalDisc));
        if live == ending {
            return bad(
                "session",
                if live {
                    "the session is still open although it was ended"
                } else {
                    "the session closed for no reason"
                },
            );
        }
        if live && self.raw.is_closed() {
            return bad(
                "connection-gone",
                "the connection is closed, but its session is still reported open",
            );
        }
        for p in &[1, 2] {
            for (lv, on) in self.kind.levels().iter().zip(self.on(*p)) {
                if !live && on && *lv != Lv::Session {
                    return bad(
                        "disconnected-missing",
                        format!(
                            "the session has ended, but the {:?} handler of protocol {} was not told disconnected",
                            lv, p
                        ),
                    );
                }
            }
        }
        if let ([Oversized(p)], false) | ([Refused(p)], false) =
            (&self.done.borrow()[..], self.kind == Kind::Spawn)
        {
            let told = count(
                |e| matches!(&e.ev, Ev::Err { kind: "protocol", id: Some(1), proto: Some(q), .. } if q == p),
            );
            if told != 1 {
                return bad(
                    "protocol-error",
                    format!(
                        "{} protocol errors for a message that cannot be decoded",
                        told
                    ),
                );
            }
        }
        if count(|e| matches!(&e.ev, Ev::Recv { data, .. } if &data[..] == REFUSED)) > 0 {
            return bad(
                "refused",
                "a message was delivered that the protocol refused",
            );
        }
        if !live {
            return Ok(());
        }
        for p in &[1, 2] {
            let on = self.on(*p);
            if on.iter().any(|x| *x != on[0]) {
                return bad(
                    "levels",
                    format!("the handlers of protocol {} disagree: {:?}", p, on),
                );
            }
            // let go what is waiting for window, then ask for the protocol if it is closed
            self.credit(*p);
            let mut on = self.on(*p)[0];
            if !on {
                self.act(LocalOpen(*p));
                settle();
                on = self.on(*p).iter().all(|x| *x);
                if !on {
                    return bad(
                        "no-reopen",
                        format!(
                            "protocol {} ended and cannot be opened again on the session",
                            p
                        ),
                    );
                }
            }
            self.credit(*p);
            if !self.on(*p)[0] {
                continue;
            }
            // what is open carries messages
            let probe = format!("probe {}", p).into_bytes();
            drop(
                self.b
                    .send_message_to(sid(1), pid(*p), Bytes::from(probe.clone())),
            );
            settle();
            let here = self
                .raw
                .frames
                .borrow()
                .iter()
                .any(|f| f.body.windows(probe.len()).any(|w| w == &probe[..]));
            if !here && self.on(*p)[0] {
                return bad(
                    "zombie",
                    format!(
                        "protocol {} is reported open, but its stream has ended: a message to the remote goes nowhere",
                        p
                    ),
                );
            }
        }
        judge::nesting(&log())?;
        judge::no_panic()
    }

    /// Window for a megabyte on the stream of a protocol.
    fn credit(&self, p: usize) {
        let raw = &self.raw;
        if self.did(|a| *a == LocalBig(p)) {
            let full: Vec<u32> = (1..60)
                .filter(|id| raw.stream(*id).len() > 200_000)
                .collect();
            for id in full {
                raw.send(&frame(WINDOW, 0, id, 400 * 1024, &[]));
            }
        }
        settle();
    }
}

/// All sequences of `n` acts, the distance between them enumerated below `gaps` steps.
fn ends(kind: Kind, role: Role, acts: &'static [Act], n: usize, gaps: usize, opts: Opts) -> R<()> {
    let far = Far::new(kind, role, |c| c);
    if !(1..=2).all(|p| far.on(p).iter().all(|x| *x)) {
        return bad("set-up", "the protocols did not open");
    }
    let mut at = exec::steps();
    for i in 0..n {
        let a = acts[choose(acts.len(), "act")];
        if i > 0 {
            at += choose(gaps, "gap") as u64;
        }
        let f = far.clone();
        if at <= exec::steps() {
            f.act(a)
        } else {
            exec::at_step(at, move || f.act(a))
        }
    }
    let end = exec::run(Opts {
        horizon: exec::now() + 5 * SEC,
        ..opts
    });
    if end == exec::End::Steps {
        return bad("no-rest", "the service does not come to rest");
    }
    history_seen();
    far.judge()?;
    stop();
    Ok(())
}

pub fn t02(t: bool, kinds: &[Kind]) -> Vec<Scenario> {
    let o = Opts {
        starve: true,
        ..Opts::default()
    };
    let b = "a session with a hand-written remote: streams reset, ended, cut in a message, oversized, refused, reopened, with local requests in between";
    let mut v = Vec::new();
    for k in kinds {
        let k = *k;
        for (name, role) in &[("client", Role::Client), ("server", Role::Server)] {
            let role = *role;
            let n = |s: &str| format!("remote-{}-{}-{:?}", s, name, k);
            v.push(Scenario::new(
                &n("one"),
                1 + t as usize,
                300,
                b,
                move || ends(k, role, ACTS, 1, 1, o),
            ));
            v.push(Scenario::new(&n("inside"), 1, 300, INSIDE, move || {
                ends(k, role, ACTS, 1, 1, inside())
            }));
            if k == Kind::Spawn {
                // reading ends in the user's own time, so two streams may overlap there
                continue;
            }
            if t || role == Role::Client && matches!(k, Kind::Two | Kind::Event) {
                v.push(Scenario::new(
                    &n("two"),
                    1 + t as usize,
                    600,
                    b,
                    move || ends(k, role, ACTS, 2, 1, o),
                ));
            }
            let g = if t { 40 } else { 20 };
            v.push(Scenario::new(&n("gap"), t as usize, 600, b, move || {
                ends(k, role, ACTS, 2, g, o)
            }));
        }
    }
    v
}
