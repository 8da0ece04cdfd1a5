//! Services on the loopback network whose callbacks go to a log.
#![allow(dead_code)]
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use futures::StreamExt;
use tentacle::builder::{MetaBuilder, ServiceBuilder};
use tentacle::context::{ProtocolContext, ProtocolContextMutRef, ServiceContext};
pub use tentacle::multiaddr::Multiaddr;
pub use tentacle::service::{ProtocolHandle, ServiceControl, TargetProtocol, TargetSession};
use tentacle::service::{ProtocolMeta, ServiceError, ServiceEvent};
use tentacle::traits::{ServiceHandle, ServiceProtocol, SessionProtocol};

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Open(usize),
    Close(usize),
    Listen(Multiaddr),
    Err(String),
    Conn(usize, usize),
    Disc(usize, usize),
    Recv(usize, usize, Vec<u8>),
    /// session (0: service), protocol, token
    Notify(usize, usize, u64),
    End,
}

pub type Log = Arc<Mutex<Vec<E>>>;
pub type Act = Arc<dyn Fn(&E, &ServiceContext) + Send + Sync>;

#[derive(Clone)]
struct H {
    log: Log,
    act: Act,
}

impl H {
    fn put(&self, e: E, c: &ServiceContext) {
        self.log.lock().unwrap().push(e.clone());
        (self.act)(&e, c)
    }
}

impl ServiceHandle for H {
    fn handle_error(&mut self, c: &mut ServiceContext, e: ServiceError) {
        self.put(E::Err(format!("{:?}", e)), c)
    }
    fn handle_event(&mut self, c: &mut ServiceContext, e: ServiceEvent) {
        let e = match e {
            ServiceEvent::SessionOpen { session_context } => E::Open(session_context.id.value()),
            ServiceEvent::SessionClose { session_context } => E::Close(session_context.id.value()),
            ServiceEvent::ListenStarted { address } => E::Listen(address),
            _ => return,
        };
        self.put(e, c)
    }
}

fn ids(c: &ProtocolContextMutRef) -> (usize, usize) {
    (c.session.id.value(), c.proto_id().value())
}

impl ServiceProtocol for H {
    fn init(&mut self, _: &mut ProtocolContext) {}
    fn connected(&mut self, c: ProtocolContextMutRef, _: &str) {
        let (s, p) = ids(&c);
        self.put(E::Conn(s, p), &c)
    }
    fn disconnected(&mut self, c: ProtocolContextMutRef) {
        let (s, p) = ids(&c);
        self.put(E::Disc(s, p), &c)
    }
    fn received(&mut self, c: ProtocolContextMutRef, d: bytes::Bytes) {
        let (s, p) = ids(&c);
        self.put(E::Recv(s, p, d.to_vec()), &c)
    }
    fn notify(&mut self, c: &mut ProtocolContext, token: u64) {
        let p = c.proto_id.value();
        self.put(E::Notify(0, p, token), c)
    }
}

impl SessionProtocol for H {
    fn connected(&mut self, c: ProtocolContextMutRef, _: &str) {
        let (s, p) = ids(&c);
        self.put(E::Conn(s, p), &c)
    }
    fn disconnected(&mut self, c: ProtocolContextMutRef) {
        let (s, p) = ids(&c);
        self.put(E::Disc(s, p), &c)
    }
    fn received(&mut self, c: ProtocolContextMutRef, d: bytes::Bytes) {
        let (s, p) = ids(&c);
        self.put(E::Recv(s, p, d.to_vec()), &c)
    }
    fn notify(&mut self, c: ProtocolContextMutRef, token: u64) {
        let (s, p) = ids(&c);
        self.put(E::Notify(s, p, token), &c)
    }
}

pub struct Node {
    pub ctl: ServiceControl,
    pub addr: Multiaddr,
    pub log: Log,
}

pub struct Plan {
    /// protocols 1 to n
    pub protocols: usize,
    /// handlers per session instead of one per service
    pub session: bool,
    pub ws: bool,
    pub act: Act,
    pub tweak: fn(ServiceBuilder) -> ServiceBuilder,
    pub meta: fn(MetaBuilder) -> MetaBuilder,
}

impl Default for Plan {
    fn default() -> Self {
        Plan {
            protocols: 1,
            session: false,
            ws: false,
            act: Arc::new(|_, _| ()),
            tweak: |b| b,
            meta: |m| m,
        }
    }
}

fn meta(h: &H, id: usize, p: &Plan) -> ProtocolMeta {
    let (a, b) = (h.clone(), h.clone());
    let m = (p.meta)(MetaBuilder::new().id(id.into()));
    if p.session {
        m.session_handle(move || ProtocolHandle::Callback(Box::new(a.clone())))
            .build()
    } else {
        m.service_handle(move || ProtocolHandle::Callback(Box::new(b)))
            .build()
    }
}

/// Start a service that listens on the loopback network.
pub fn node(p: Plan) -> Node {
    let log: Log = Arc::default();
    let h = H {
        log: log.clone(),
        act: p.act.clone(),
    };
    let mut b = ServiceBuilder::default().forever(true);
    for id in 1..=p.protocols {
        b = b.insert_protocol(meta(&h, id, &p));
    }
    let mut service = (p.tweak)(b).build(h);
    let ctl: ServiceControl = service.control().clone().into();
    let (tx, rx) = std::sync::mpsc::channel();
    let l2 = log.clone();
    let ws = p.ws;
    std::thread::spawn(move || {
        let mut rt = tokio::runtime::Builder::new()
            .threaded_scheduler()
            .core_threads(2)
            .enable_all()
            .build()
            .unwrap();
        rt.block_on(async move {
            let at = if ws {
                "/ip4/127.0.0.1/tcp/0/ws"
            } else {
                "/ip4/127.0.0.1/tcp/0"
            };
            let addr = service.listen(at.parse().unwrap()).await.unwrap();
            tx.send(addr).unwrap();
            while Pin::new(&mut service).next().await.is_some() {}
            drop(service);
            l2.lock().unwrap().push(E::End);
        })
    });
    let addr = rx.recv().unwrap();
    Node { ctl, addr, log }
}

impl Node {
    pub fn seen(&self) -> Vec<E> {
        self.log.lock().unwrap().clone()
    }
    pub fn has(&self, e: &E) -> bool {
        self.seen().contains(e)
    }
    pub fn count(&self, f: impl Fn(&E) -> bool) -> usize {
        self.seen().iter().filter(|e| f(e)).count()
    }
    /// Wait until the log satisfies a condition.
    pub fn wait(&self, f: impl Fn(&[E]) -> bool) -> bool {
        self.wait_for(10, f)
    }
    pub fn wait_for(&self, secs: u64, f: impl Fn(&[E]) -> bool) -> bool {
        let t0 = Instant::now();
        while t0.elapsed() < Duration::from_secs(secs) {
            if f(&self.seen()) {
                return true;
            }
            std::thread::sleep(Duration::from_millis(10))
        }
        false
    }
    pub fn wait_e(&self, e: E) -> bool {
        self.wait(|l| l.contains(&e))
    }
}

pub fn pause(ms: u64) {
    std::thread::sleep(Duration::from_millis(ms))
}

/// The verdict.
pub fn right(ok: bool, what: &str) {
    if !ok {
        println!("WRONG: {}", what);
        std::process::exit(1)
    }
}
