//! Services under test in one controlled world: every task is scheduled by the explorer,
//! the network is in memory, time is virtual, and every callback goes to one log.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use bytes::Bytes;
use futures::StreamExt;
use mc_engine::exec::{self, Opts};
use mc_engine::pipe::{self, DirRef, PipeCfg};
use tentacle::builder::{MetaBuilder, ServiceBuilder};
use tentacle::context::{ProtocolContext, ProtocolContextMutRef, ServiceContext, SessionContext};
use tentacle::multiaddr::Multiaddr;
use tentacle::runtime::{self, Accept, Connecting, Env, TcpStream};
use tentacle::secio::{PeerId, SecioKeyPair};
use tentacle::service::{
    ProtocolEvent, ProtocolHandle, ProtocolMeta, ServiceControl, ServiceError, ServiceEvent,
    TargetProtocol,
};
use tentacle::traits::{ProtocolSpawn, ServiceHandle, ServiceProtocol, SessionProtocol};
use tentacle::{ProtocolId, SessionId, SubstreamReadPart};
use tokio_yamux::Config;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Lv {
    Service,
    Session,
    Event,
    Spawn,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Open {
        id: usize,
        out: bool,
        addr: String,
        key: Option<usize>,
    },
    Close {
        id: usize,
    },
    ListenStarted(String),
    ListenClose(String),
    Err {
        kind: &'static str,
        addr: String,
        id: Option<usize>,
        proto: Option<usize>,
        detail: String,
    },
    Init {
        proto: usize,
    },
    Conn {
        lv: Lv,
        id: usize,
        proto: usize,
        ver: String,
    },
    Recv {
        lv: Lv,
        id: usize,
        proto: usize,
        data: Bytes,
    },
    Disc {
        lv: Lv,
        id: usize,
        proto: usize,
    },
    Notify {
        lv: Lv,
        id: Option<usize>,
        proto: usize,
        token: u64,
    },
    /// a task given to `future_task` ran
    Task(u64),
    /// the service's stream ended
    End,
    /// written by the driver
    Note(String),
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub svc: usize,
    pub at: u64,
    pub ev: Ev,
}

pub struct NetConn {
    /// dialer to listener
    pub ab: DirRef,
    pub ba: DirRef,
}

#[derive(Default)]
struct Listening {
    queue: VecDeque<(pipe::End, Option<SocketAddr>)>,
    waker: Option<Waker>,
    /// accepting fails
    broken: bool,
}

#[derive(Default)]
struct W {
    log: Vec<Entry>,
    wakers: Vec<Waker>,
    hooks: Vec<Rc<dyn Fn(&Entry)>>,
    givens: Vec<Rc<dyn Fn(&Entry, &ServiceContext)>>,
    listeners: BTreeMap<SocketAddr, Listening>,
    silent: Vec<SocketAddr>,
    conns: Vec<NetConn>,
    port: u16,
    pipe: PipeCfg,
    nsvc: usize,
    peers: Vec<PeerId>,
    panics: Vec<String>,
    controls: Vec<ServiceControl>,
    contexts: Vec<(usize, Arc<SessionContext>)>,
    acts: Vec<Rc<dyn Fn(&Entry, &ProtocolContextMutRef)>>,
    poller: Option<Rc<Poller>>,
    /// listen addresses a handler was shown last: service, level, session, protocol
    shown: BTreeMap<(usize, Lv, usize, usize), Vec<String>>,
}

/// A handler: service, level, session, protocol.
pub type Who = (usize, Lv, Option<usize>, usize);

type Poller = dyn Fn(Who, &mut Context) -> Poll<Option<()>>;

thread_local! {
    static WORLD: RefCell<W> = RefCell::new(W::default());
    static OWNER: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn w<T>(f: impl FnOnce(&mut W) -> T) -> T {
    WORLD.with(|x| f(&mut x.borrow_mut()))
}

struct Sim;

struct Owned {
    owner: usize,
    fut: Pin<Box<dyn Future<Output = ()>>>,
}

impl Future for Owned {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        let old = OWNER.with(|o| o.replace(self.owner));
        let r = self.fut.as_mut().poll(cx);
        if r.is_ready() {
            // what the task owned goes away as part of it
            self.fut = Box::pin(async {});
        }
        OWNER.with(|o| o.set(old));
        r
    }
}

fn short(name: &str) -> String {
    let n = name.split('<').next().unwrap_or(name);
    let v: Vec<&str> = name
        .split(|c: char| !(c.is_alphanumeric() || c == '_'))
        .filter(|s| {
            [
                "SessionProtocolStream",
                "ServiceProtocolStream",
                "Substream",
                "Session",
                "Listener",
                "MultiIncoming",
                "DNSResolver",
                "PatchedReadPart",
                "SubstreamWritePart",
                "listen_handshake",
                "client_handshake",
                "server_handshake",
                "handshake",
                "select",
                "future_task_manager",
                "FutureTaskManager",
            ]
            .contains(s)
        })
        .collect();
    match v.first() {
        Some(s) => s.to_string(),
        None => n.rsplit("::").take(2).collect::<Vec<_>>().join("/"),
    }
}

impl Env for Sim {
    fn spawn(&self, name: &'static str, task: Pin<Box<dyn Future<Output = ()> + Send>>) {
        let owner = OWNER.with(|o| o.get());
        exec::spawn_daemon(
            format!("svc{}:{}", owner, short(name)),
            Owned { owner, fut: task },
        );
    }
    fn panicked(&self, name: &'static str) {
        w(|w| w.panics.push(short(name)));
    }
    fn bind(&self, addr: SocketAddr) -> io::Result<(SocketAddr, Box<dyn Accept>)> {
        let mut addr = addr;
        w(|w| {
            if addr.port() == 0 {
                w.port += 1;
                addr.set_port(50_000 + w.port);
            }
            if w.listeners.contains_key(&addr) {
                return Err(io::ErrorKind::AddrInUse.into());
            }
            w.listeners.insert(addr, Listening::default());
            Ok((addr, Box::new(Acceptor(addr)) as Box<dyn Accept>))
        })
    }
    fn connect(&self, addr: SocketAddr) -> Connecting {
        Box::pin(async move {
            exec::yield_now().await;
            if w(|w| w.silent.contains(&addr)) {
                futures::future::pending::<()>().await;
            }
            let (end, _) = net_connect(addr)?;
            Ok(TcpStream::new(Box::new(end), Some(addr)))
        })
    }
}

pub struct Acceptor(SocketAddr);

impl Accept for Acceptor {
    fn poll_accept(&mut self, cx: &mut Context) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        if w(|w| w.listeners[&self.0].broken) {
            return Poll::Ready(Err(io::Error::from_raw_os_error(24)));
        }
        match self.poll_end(cx) {
            Poll::Ready((end, peer)) => {
                let addr = peer.unwrap_or_else(|| "127.0.0.1:9".parse().unwrap());
                Poll::Ready(Ok((TcpStream::new(Box::new(end), peer), addr)))
            }
            Poll::Pending => Poll::Pending,
        }
    }
}

impl Acceptor {
    fn poll_end(&mut self, cx: &mut Context) -> Poll<(pipe::End, Option<SocketAddr>)> {
        w(|w| {
            let l = w.listeners.get_mut(&self.0).unwrap();
            match l.queue.pop_front() {
                Some(x) => Poll::Ready(x),
                None => {
                    l.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
    }
    /// Next connection, for a raw listener.
    pub async fn accept(&mut self) -> pipe::End {
        futures::future::poll_fn(|cx| self.poll_end(cx)).await.0
    }
}

impl Drop for Acceptor {
    fn drop(&mut self) {
        let l = WORLD.try_with(|x| {
            x.try_borrow_mut()
                .ok()
                .and_then(|mut w| w.listeners.remove(&self.0))
        });
        drop(l);
    }
}

/// The listener at this address can accept no more.
pub fn break_listener(addr: SocketAddr) {
    let wk = w(|w| {
        w.listeners.get_mut(&addr).and_then(|l| {
            l.broken = true;
            l.waker.take()
        })
    });
    if let Some(wk) = wk {
        wk.wake()
    }
}

/// There is a working listener at this address.
pub fn can_accept(addr: SocketAddr) -> bool {
    w(|w| w.listeners.get(&addr).map_or(false, |l| !l.broken))
}

/// Listen without a service.
pub fn net_listen(addr: SocketAddr) -> Acceptor {
    w(|w| w.listeners.insert(addr, Listening::default()));
    Acceptor(addr)
}

/// Connect without a service; the second value indexes `conn`.
pub fn net_connect(addr: SocketAddr) -> io::Result<(pipe::End, usize)> {
    net_connect_as(addr, true)
}

/// `named`: whether the accepting side can still learn the peer's address.
pub fn net_connect_as(addr: SocketAddr, named: bool) -> io::Result<(pipe::End, usize)> {
    let (end, i, wk) = w(|w| {
        if !w.listeners.contains_key(&addr) {
            return Err(io::Error::from(io::ErrorKind::ConnectionRefused));
        }
        w.port += 1;
        let me: SocketAddr = ([127, 0, 0, 1], 40_000 + w.port).into();
        let (a, b, ab, ba) = pipe::duplex(w.pipe);
        w.conns.push(NetConn { ab, ba });
        let i = w.conns.len() - 1;
        let l = w.listeners.get_mut(&addr).unwrap();
        l.queue.push_back((b, if named { Some(me) } else { None }));
        Ok((a, i, l.waker.take()))
    })?;
    if let Some(wk) = wk {
        wk.wake()
    }
    Ok((end, i))
}

pub fn conn(i: usize) -> Option<(DirRef, DirRef)> {
    w(|w| w.conns.get(i).map(|c| (c.ab.clone(), c.ba.clone())))
}

pub fn conns() -> usize {
    w(|w| w.conns.len())
}

/// The connection dies with an error on both sides.
pub fn reset_conn(i: usize, kind: io::ErrorKind) {
    if let Some((ab, ba)) = conn(i) {
        pipe::break_dir(&ab, kind);
        pipe::break_dir(&ba, kind);
    }
}

pub fn freeze_conn(i: usize) {
    if let Some((ab, ba)) = conn(i) {
        pipe::freeze_dir(&ab);
        pipe::freeze_dir(&ba);
    }
}

pub fn unfreeze_conn(i: usize) {
    if let Some((ab, ba)) = conn(i) {
        for d in &[ab, ba] {
            let mut d = d.lock().unwrap();
            d.frozen = false;
            d.wake_all();
        }
    }
}

/// Dials to this address never complete.
pub fn silent(addr: SocketAddr) {
    w(|w| w.silent.push(addr))
}

pub fn sock(n: u16) -> SocketAddr {
    ([127, 0, 0, 1], 1000 + n).into()
}

pub fn addr(n: u16) -> Multiaddr {
    format!("/ip4/127.0.0.1/tcp/{}", 1000 + n).parse().unwrap()
}

pub fn addr_ws(n: u16) -> Multiaddr {
    format!("/ip4/127.0.0.1/tcp/{}/ws", 1000 + n)
        .parse()
        .unwrap()
}

pub fn addr_with_peer(n: u16, key: usize) -> Multiaddr {
    let p = w(|w| w.peers[key].to_base58());
    format!("/ip4/127.0.0.1/tcp/{}/p2p/{}", 1000 + n, p)
        .parse()
        .unwrap()
}

pub fn key(n: usize) -> SecioKeyPair {
    SecioKeyPair::secp256k1_raw_key([n as u8 + 1; 32]).unwrap()
}

/// Start a fresh world.
pub fn start(pipe: PipeCfg, keys: usize) {
    tokio_yamux::verif::reset();
    exec::reset(Some(exec::Clock {
        now: tokio_yamux::verif::now,
        next: tokio_yamux::verif::next_deadline,
        advance_to: tokio_yamux::verif::advance_to,
    }));
    let old = w(|w| {
        std::mem::replace(
            w,
            W {
                pipe,
                peers: (0..keys).map(|i| key(i).public_key().peer_id()).collect(),
                ..W::default()
            },
        )
    });
    drop(old);
    OWNER.with(|o| o.set(usize::MAX));
    runtime::install(Some(Rc::new(Sim)));
}

/// Take the world down.
pub fn stop() {
    exec::teardown();
    runtime::install(None);
    let old = w(std::mem::take);
    drop(old);
}

pub fn log() -> Vec<Entry> {
    w(|w| w.log.clone())
}

/// Bytes the sessions of a service count as not yet sent, with the session's id.
pub fn pending(svc: usize) -> Vec<(usize, usize)> {
    w(|w| {
        w.contexts
            .iter()
            .filter(|(s, c)| *s == svc && !c.closed())
            .map(|(_, c)| (c.id.value(), c.pending_data_size()))
            .collect()
    })
}

pub fn panics() -> Vec<String> {
    w(|w| w.panics.clone())
}

pub fn count(f: impl Fn(&Entry) -> bool) -> usize {
    w(|w| w.log.iter().filter(|e| f(e)).count())
}

pub fn hook(f: impl Fn(&Entry) + 'static) {
    w(|w| w.hooks.push(Rc::new(f)))
}

/// Like `hook`, for callbacks that have a session; may use what the callback is given.
pub fn act(f: impl Fn(&Entry, &ProtocolContextMutRef) + 'static) {
    w(|w| w.acts.push(Rc::new(f)))
}

/// Like `hook`, for every callback that is given a context; may use that.
pub fn given(f: impl Fn(&Entry, &ServiceContext) + 'static) {
    w(|w| w.givens.push(Rc::new(f)))
}

fn give(c: &ServiceContext) {
    let (e, all) = w(|w| (w.log.last().cloned(), w.givens.clone()));
    for g in all {
        g(e.as_ref().unwrap(), c)
    }
}

/// What the handlers' own `poll` does; without it they have none.
pub fn poll_with(f: impl Fn(Who, &mut Context) -> Poll<Option<()>> + 'static) {
    w(|w| w.poller = Some(Rc::new(f)))
}

fn poll_handler(who: Who, cx: &mut Context) -> Poll<Option<()>> {
    match w(|w| w.poller.clone()) {
        Some(f) => f(who, cx),
        None => Poll::Ready(None),
    }
}

pub fn shown() -> BTreeMap<(usize, Lv, usize, usize), Vec<String>> {
    w(|w| w.shown.clone())
}

fn emit_in(svc: usize, lv: Lv, c: &ProtocolContextMutRef, ev: Ev) {
    let mut l: Vec<String> = c.listens().iter().map(|a| a.to_string()).collect();
    l.sort();
    let acts = w(|w| {
        let k = (svc, lv, c.session.id.value(), c.proto_id().value());
        w.shown.insert(k, l);
        w.acts.clone()
    });
    emit(svc, ev);
    if !acts.is_empty() {
        let e = w(|w| w.log.last().unwrap().clone());
        for a in acts {
            a(&e, c)
        }
    }
    give(c)
}

pub fn emit(svc: usize, ev: Ev) {
    let e = Entry {
        svc,
        at: exec::now(),
        ev,
    };
    mc_engine::log(|| format!("     svc{} {:?}", e.svc, e.ev));
    let (wakers, hooks) = w(|w| {
        w.log.push(e.clone());
        (std::mem::take(&mut w.wakers), w.hooks.clone())
    });
    for wk in wakers {
        wk.wake()
    }
    for h in hooks {
        h(&e)
    }
}

pub fn note(svc: usize, s: impl Into<String>) {
    emit(svc, Ev::Note(s.into()))
}

/// Wait until the log satisfies a condition.
pub async fn until(f: impl Fn(&[Entry]) -> bool) {
    futures::future::poll_fn(|cx| {
        w(|w| {
            if f(&w.log) {
                Poll::Ready(())
            } else {
                w.wakers.push(cx.waker().clone());
                Poll::Pending
            }
        })
    })
    .await
}

fn key_index(c: &SessionContext) -> Option<usize> {
    let p = c.remote_pubkey.as_ref()?.peer_id();
    Some(w(|w| {
        w.peers.iter().position(|x| *x == p).unwrap_or(usize::MAX)
    }))
}

struct H {
    svc: usize,
}

impl H {
    fn err(&self, kind: &'static str, addr: &Multiaddr, detail: String) {
        emit(
            self.svc,
            Ev::Err {
                kind,
                addr: addr.to_string(),
                id: None,
                proto: None,
                detail,
            },
        )
    }
    fn serr(&self, kind: &'static str, c: &SessionContext, detail: String) {
        emit(
            self.svc,
            Ev::Err {
                kind,
                addr: c.address.to_string(),
                id: Some(c.id.value()),
                proto: None,
                detail,
            },
        )
    }
}

#[allow(deprecated)]
impl ServiceHandle for H {
    fn handle_error(&mut self, c: &mut ServiceContext, error: ServiceError) {
        match error {
            ServiceError::DialerError { address, error } => {
                self.err("dial", &address, format!("{:?}", error))
            }
            ServiceError::ListenError { address, error } => {
                self.err("listen", &address, format!("{:?}", error))
            }
            ServiceError::ProtocolSelectError {
                proto_name,
                session_context,
            } => {
                if let Some(n) = &proto_name {
                    if std::str::from_utf8(n.as_bytes()).is_err() {
                        mc_engine::fail("text", "the name in a selection error is not text");
                    }
                }
                let bytes = proto_name.map(String::into_bytes);
                let name = bytes.map(|n| String::from_utf8_lossy(&n).into_owned());
                self.serr("select", &session_context, format!("{:?}", name))
            }
            ServiceError::ProtocolError {
                id,
                proto_id,
                error,
            } => emit(
                self.svc,
                Ev::Err {
                    kind: "protocol",
                    addr: String::new(),
                    id: Some(id.value()),
                    proto: Some(proto_id.value()),
                    detail: format!("{:?}", error),
                },
            ),
            ServiceError::SessionTimeout { session_context } => {
                self.serr("timeout", &session_context, String::new())
            }
            ServiceError::MuxerError {
                session_context,
                error,
            } => self.serr("muxer", &session_context, format!("{:?}", error)),
            ServiceError::ProtocolHandleError { proto_id, error } => emit(
                self.svc,
                Ev::Err {
                    kind: "handle",
                    addr: String::new(),
                    id: None,
                    proto: Some(proto_id.value()),
                    detail: format!("{:?}", error),
                },
            ),
            ServiceError::SessionBlocked { session_context } => {
                self.serr("blocked", &session_context, String::new())
            }
        }
        give(c)
    }
    fn handle_event(&mut self, c: &mut ServiceContext, event: ServiceEvent) {
        let ev = match event {
            ServiceEvent::SessionClose { session_context } => Ev::Close {
                id: session_context.id.value(),
            },
            ServiceEvent::SessionOpen { session_context } => {
                w(|w| w.contexts.push((self.svc, session_context.clone())));
                Ev::Open {
                    id: session_context.id.value(),
                    out: session_context.ty.is_outbound(),
                    addr: session_context.address.to_string(),
                    key: key_index(&session_context),
                }
            }
            ServiceEvent::ListenClose { address } => Ev::ListenClose(address.to_string()),
            ServiceEvent::ListenStarted { address } => Ev::ListenStarted(address.to_string()),
        };
        emit(self.svc, ev);
        give(c)
    }
    fn handle_proto(&mut self, c: &mut ServiceContext, event: ProtocolEvent) {
        let lv = Lv::Event;
        let ev = match event {
            ProtocolEvent::Connected {
                session_context,
                proto_id,
                version,
            } => Ev::Conn {
                lv,
                id: session_context.id.value(),
                proto: proto_id.value(),
                ver: version,
            },
            ProtocolEvent::Received {
                session_context,
                proto_id,
                data,
            } => Ev::Recv {
                lv,
                id: session_context.id.value(),
                proto: proto_id.value(),
                data,
            },
            ProtocolEvent::Disconnected {
                proto_id,
                session_context,
            } => Ev::Disc {
                lv,
                id: session_context.id.value(),
                proto: proto_id.value(),
            },
        };
        emit(self.svc, ev);
        give(c)
    }
}

struct P {
    svc: usize,
    lv: Lv,
}

impl P {
    fn conn(&self, c: &ProtocolContextMutRef, version: &str) {
        emit_in(
            self.svc,
            self.lv,
            c,
            Ev::Conn {
                lv: self.lv,
                id: c.session.id.value(),
                proto: c.proto_id().value(),
                ver: version.to_string(),
            },
        )
    }
    fn disc(&self, c: &ProtocolContextMutRef) {
        emit_in(
            self.svc,
            self.lv,
            c,
            Ev::Disc {
                lv: self.lv,
                id: c.session.id.value(),
                proto: c.proto_id().value(),
            },
        )
    }
    fn recv(&self, c: &ProtocolContextMutRef, data: Bytes) {
        emit_in(
            self.svc,
            self.lv,
            c,
            Ev::Recv {
                lv: self.lv,
                id: c.session.id.value(),
                proto: c.proto_id().value(),
                data,
            },
        )
    }
}

impl ServiceProtocol for P {
    fn init(&mut self, c: &mut ProtocolContext) {
        emit(
            self.svc,
            Ev::Init {
                proto: c.proto_id.value(),
            },
        );
        give(c)
    }
    fn connected(&mut self, c: ProtocolContextMutRef, version: &str) {
        self.conn(&c, version)
    }
    fn disconnected(&mut self, c: ProtocolContextMutRef) {
        self.disc(&c)
    }
    fn received(&mut self, c: ProtocolContextMutRef, data: Bytes) {
        self.recv(&c, data)
    }
    fn notify(&mut self, c: &mut ProtocolContext, token: u64) {
        emit(
            self.svc,
            Ev::Notify {
                lv: self.lv,
                id: None,
                proto: c.proto_id.value(),
                token,
            },
        );
        give(&c)
    }
    fn poll(self: Pin<&mut Self>, cx: &mut Context, c: &mut ProtocolContext) -> Poll<Option<()>> {
        poll_handler((self.svc, self.lv, None, c.proto_id.value()), cx)
    }
}

impl SessionProtocol for P {
    fn connected(&mut self, c: ProtocolContextMutRef, version: &str) {
        self.conn(&c, version)
    }
    fn disconnected(&mut self, c: ProtocolContextMutRef) {
        self.disc(&c)
    }
    fn received(&mut self, c: ProtocolContextMutRef, data: Bytes) {
        self.recv(&c, data)
    }
    fn notify(&mut self, c: ProtocolContextMutRef, token: u64) {
        emit(
            self.svc,
            Ev::Notify {
                lv: self.lv,
                id: Some(c.session.id.value()),
                proto: c.proto_id().value(),
                token,
            },
        );
        give(&c)
    }
    fn poll(self: Pin<&mut Self>, cx: &mut Context, c: ProtocolContextMutRef) -> Poll<Option<()>> {
        let who = (
            self.svc,
            self.lv,
            Some(c.session.id.value()),
            c.proto_id().value(),
        );
        poll_handler(who, cx)
    }
}

struct Sp {
    svc: usize,
    proto: usize,
}

impl ProtocolSpawn for Sp {
    fn spawn(
        &self,
        context: Arc<SessionContext>,
        _control: &ServiceControl,
        mut read_part: SubstreamReadPart,
    ) {
        let (svc, proto, id) = (self.svc, self.proto, context.id.value());
        let lv = Lv::Spawn;
        emit(
            svc,
            Ev::Conn {
                lv,
                id,
                proto,
                ver: read_part.version().to_string(),
            },
        );
        runtime::spawn(async move {
            while let Some(Ok(data)) = read_part.next().await {
                emit(
                    svc,
                    Ev::Recv {
                        lv,
                        id,
                        proto,
                        data,
                    },
                );
            }
            emit(svc, Ev::Disc { lv, id, proto });
        });
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Service,
    Session,
    Event,
    /// service callback and events
    Both,
    /// service callback and session callback
    Two,
    /// session callback and events
    SessionBoth,
    Spawn,
    Neither,
}

impl Kind {
    pub fn levels(self) -> &'static [Lv] {
        match self {
            Kind::Service => &[Lv::Service],
            Kind::Session => &[Lv::Session],
            Kind::Event => &[Lv::Event],
            Kind::Both => &[Lv::Service, Lv::Event],
            Kind::Two => &[Lv::Service, Lv::Session],
            Kind::SessionBoth => &[Lv::Session, Lv::Event],
            Kind::Spawn => &[Lv::Spawn],
            Kind::Neither => &[],
        }
    }
}

#[derive(Clone, Debug)]
pub struct Proto {
    pub id: usize,
    pub name: String,
    pub versions: Vec<String>,
    pub kind: Kind,
    /// messages are changed on their way out and back on their way in
    pub hooks: bool,
    /// refuses a certain message before it is received
    pub refuse: bool,
    /// selects the lowest common version
    pub lowest: bool,
    /// handled by this instead, for the whole service
    pub made: Option<fn() -> Made>,
}

pub type Made = Box<dyn ServiceProtocol + Send + 'static + Unpin>;

/// What a protocol with `refuse` does not take
pub const REFUSED: &[u8] = b"not this";

pub fn proto(id: usize, kind: Kind) -> Proto {
    Proto {
        id,
        name: format!("/p/{}", id),
        versions: vec!["1".into()],
        kind,
        hooks: false,
        refuse: false,
        lowest: false,
        made: None,
    }
}

impl Proto {
    pub fn versions(mut self, v: &[&str]) -> Proto {
        self.versions = v.iter().map(|s| s.to_string()).collect();
        self
    }
    pub fn name(mut self, n: &str) -> Proto {
        self.name = n.to_string();
        self
    }
    fn meta(&self, svc: usize) -> ProtocolMeta {
        let name = self.name.clone();
        let b = MetaBuilder::new()
            .id(ProtocolId::new(self.id))
            .name(move |_| name.clone())
            .support_versions(self.versions.clone());
        let b = if self.hooks {
            let id = self.id as u8;
            b.before_send(move |d| {
                let mut v = vec![b'#', id];
                v.extend_from_slice(&d);
                v.into()
            })
            .before_receive(move || {
                Some(Box::new(move |d: bytes::BytesMut| {
                    if d.len() < 2 || d[0] != b'#' || d[1] != id {
                        return Err(io::ErrorKind::InvalidData.into());
                    }
                    Ok(d.freeze().slice(2..))
                }))
            })
        } else if self.refuse {
            b.before_receive(|| {
                Some(Box::new(|d: bytes::BytesMut| {
                    if &d[..] == REFUSED {
                        return Err(io::ErrorKind::InvalidData.into());
                    }
                    Ok(d.freeze())
                }))
            })
        } else {
            b
        };
        let b = if self.lowest {
            b.select_version(|| {
                Some(Box::new(|own: &[String], other: &[String]| {
                    own.iter().find(|v| other.contains(v)).cloned()
                }))
            })
        } else {
            b
        };
        if let Some(f) = self.made {
            return b
                .service_handle(move || ProtocolHandle::Callback(f()))
                .build();
        }
        let service = move || {
            Box::new(P {
                svc,
                lv: Lv::Service,
            }) as Box<dyn ServiceProtocol + Send + 'static + Unpin>
        };
        let session = move || {
            Box::new(P {
                svc,
                lv: Lv::Session,
            }) as Box<dyn SessionProtocol + Send + 'static + Unpin>
        };
        match self.kind {
            Kind::Service => b.service_handle(|| ProtocolHandle::Callback(service())),
            Kind::Session => b.session_handle(move || ProtocolHandle::Callback(session())),
            Kind::SessionBoth => b.session_handle(move || ProtocolHandle::Both(session())),
            Kind::Event => b.service_handle(|| ProtocolHandle::Event),
            Kind::Both => b.service_handle(|| ProtocolHandle::Both(service())),
            Kind::Two => b
                .service_handle(|| ProtocolHandle::Callback(service()))
                .session_handle(move || ProtocolHandle::Callback(session())),
            Kind::Spawn => b.protocol_spawn(Sp {
                svc,
                proto: self.id,
            }),
            Kind::Neither => b,
        }
        .build()
    }
}

#[derive(Clone)]
pub struct SvcCfg {
    pub protos: Vec<Proto>,
    pub key: Option<usize>,
    pub forever: bool,
    pub timeout: Duration,
    pub yamux: Config,
    pub send_buf: Option<usize>,
    pub recv_buf: Option<usize>,
    pub keep_buffer: bool,
    pub max_conn: Option<usize>,
    pub max_frame: Option<usize>,
    pub listen: Option<u16>,
    pub listen_also: Option<u16>,
    /// dialled before the service runs
    pub dial_first: Vec<Multiaddr>,
    /// listen for websocket connections
    pub ws: bool,
}

pub fn cfg(protos: Vec<Proto>) -> SvcCfg {
    let mut yamux = Config::default();
    yamux.enable_keepalive = false;
    SvcCfg {
        protos,
        key: None,
        forever: true,
        timeout: Duration::from_secs(10),
        yamux,
        send_buf: None,
        recv_buf: None,
        keep_buffer: false,
        max_conn: None,
        max_frame: None,
        listen: None,
        listen_also: None,
        dial_first: Vec::new(),
        ws: false,
    }
}

impl SvcCfg {
    pub fn listen(mut self, n: u16) -> Self {
        self.listen = Some(n);
        self
    }
    pub fn key(mut self, k: usize) -> Self {
        self.key = Some(k);
        self
    }
}

#[derive(Clone)]
pub struct Svc {
    pub n: usize,
    pub ctl: ServiceControl,
}

impl std::ops::Deref for Svc {
    type Target = ServiceControl;
    fn deref(&self) -> &ServiceControl {
        &self.ctl
    }
}

pub fn all() -> TargetProtocol {
    TargetProtocol::All
}

pub fn pid(n: usize) -> ProtocolId {
    ProtocolId::new(n)
}

pub fn sid(n: usize) -> SessionId {
    SessionId::new(n)
}

/// Start a service; it is polled by a task of its own from now on.
pub fn service(c: SvcCfg) -> Svc {
    let n = w(|w| {
        w.nsvc += 1;
        w.nsvc - 1
    });
    let old = OWNER.with(|o| o.replace(n));
    let mut b = ServiceBuilder::default()
        .forever(c.forever)
        .timeout(c.timeout)
        .yamux_config(c.yamux.clone())
        .keep_buffer(c.keep_buffer);
    for p in &c.protos {
        b = b.insert_protocol(p.meta(n));
    }
    if let Some(k) = c.key {
        b = b.key_pair(key(k));
    }
    if let Some(x) = c.send_buf {
        b = b.set_send_buffer_size(x);
    }
    if let Some(x) = c.recv_buf {
        b = b.set_recv_buffer_size(x);
    }
    if let Some(x) = c.max_conn {
        b = b.max_connection_number(x);
    }
    if let Some(x) = c.max_frame {
        b = b.max_frame_length(x);
    }
    let mut service = b.build(H { svc: n });
    let ctl = service.control().clone();
    OWNER.with(|o| o.set(old));
    w(|w| w.controls.push(ctl.clone()));
    let listen: Vec<u16> = c.listen.into_iter().chain(c.listen_also).collect();
    let ws = c.ws;
    let dial_first = c.dial_first.clone();
    exec::spawn_daemon(
        format!("svc{}", n),
        Owned {
            owner: n,
            fut: Box::pin(async move {
                for l in listen {
                    let at = if ws { addr_ws(l) } else { addr(l) };
                    if let Err(e) = service.listen(at).await {
                        note(n, format!("listen failed {:?}", e));
                    }
                }
                for a in dial_first {
                    if let Err(e) = service.dial(a, TargetProtocol::All).await {
                        note(n, format!("dial failed {:?}", e));
                    }
                }
                while service.next().await.is_some() {}
                drop(service);
                emit(n, Ev::End);
            }),
        },
    );
    Svc { n, ctl }
}

/// Run in the default order, without choices, until nothing moves (no time passes).
pub fn settle() {
    exec::run(Opts {
        sched: false,
        horizon: exec::now(),
        max_steps: 200_000,
        ..Opts::default()
    });
}

/// Live tasks of a service.
pub fn live_tasks(svc: usize) -> Vec<String> {
    let p = format!("svc{}:", svc);
    let me = format!("svc{}", svc);
    exec::live()
        .into_iter()
        .filter(|n| n.starts_with(&p) || *n == me)
        .collect()
}

/// One order of tasks, each interrupted at every operation on a channel.
pub fn inside() -> Opts {
    Opts {
        sched: false,
        preempt: true,
        max_steps: 100_000,
        ..Opts::default()
    }
}

pub const INSIDE: &str =
    "the short histories of the other scenarios, tasks interrupted in their polls at every operation on a channel, up to the bound";
