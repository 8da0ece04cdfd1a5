use std::cell::{Cell, RefCell};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use futures::{future::poll_fn, StreamExt};
use mc_engine::exec::{self, Clock, Event, SEC};
use mc_engine::pipe::{duplex, DirRef, End, PipeCfg};
use mc_engine::{fail, log};
use tokio::io::{AsyncRead, AsyncWrite};
use tokio_yamux::{config::Config, session::Session, stream::StreamHandle, verif};

pub const CLOCK: Clock = Clock {
    now: verif::now,
    next: verif::next_deadline,
    advance_to: verif::advance_to,
};

pub fn setup() {
    verif::reset();
    exec::reset(Some(CLOCK));
}

pub fn config(window: u32) -> Config {
    let mut c = Config::default();
    c.enable_keepalive = false;
    c.max_stream_window_size = window;
    c.connection_write_timeout = Duration::from_secs(10);
    c
}

pub struct Pair {
    pub client: Session<End>,
    pub server: Session<End>,
    pub ab: DirRef,
    pub ba: DirRef,
}

pub fn pair(cfg: Config, p: PipeCfg) -> Pair {
    let (a, b, ab, ba) = duplex(p);
    Pair {
        client: Session::new_client(a, cfg),
        server: Session::new_server(b, cfg),
        ab,
        ba,
    }
}

/// How a session task ended.
#[derive(Debug, Clone, PartialEq)]
pub enum SessEnd {
    Running,
    Finished(u64),
    Failed(io::ErrorKind, u64),
}

impl SessEnd {
    pub fn at(&self) -> Option<u64> {
        match self {
            SessEnd::Running => None,
            SessEnd::Finished(t) | SessEnd::Failed(_, t) => Some(*t),
        }
    }
}

pub type EndCell = Rc<RefCell<SessEnd>>;

/// Poll a session until it ends; hand every inbound stream to `on_stream`.
pub fn drive(
    name: &str,
    mut session: Session<End>,
    mut on_stream: impl FnMut(StreamHandle) + 'static,
) -> EndCell {
    let cell = Rc::new(RefCell::new(SessEnd::Running));
    let c2 = cell.clone();
    exec::spawn(name.to_string(), async move {
        loop {
            match session.next().await {
                Some(Ok(s)) => {
                    log(|| format!("   inbound stream {}", s.id()));
                    on_stream(s)
                }
                Some(Err(e)) => {
                    log(|| format!("   session error {:?}", e));
                    *c2.borrow_mut() = SessEnd::Failed(e.kind(), exec::now());
                    break;
                }
                None => {
                    log(|| "   session finished".to_string());
                    *c2.borrow_mut() = SessEnd::Finished(exec::now());
                    break;
                }
            }
        }
        drop(session);
    });
    cell
}

thread_local! {
    /// a stream that makes its user wait is handed to another task, which waits instead
    static MOVED: Cell<bool> = Cell::new(false);
}

pub fn moved() {
    MOVED.with(|m| m.set(true));
}

/// The waker of a task that no longer has the stream
fn stale() -> Waker {
    futures::task::noop_waker()
}

/// A stream handle shared by a reading and a writing task, like one that was split.
#[derive(Clone)]
pub struct Sh(Rc<Shared>);

struct Shared {
    handle: RefCell<Option<StreamHandle>>,
    /// tasks that found it in use
    waiting: RefCell<Vec<Waker>>,
    /// to be dropped when it is no longer in use
    close: Cell<bool>,
}

impl Sh {
    pub fn new(s: StreamHandle) -> Self {
        Sh(Rc::new(Shared {
            handle: RefCell::new(Some(s)),
            waiting: RefCell::new(Vec::new()),
            close: Cell::new(false),
        }))
    }
    fn with<T>(&self, cx: &mut Context, mut f: impl FnMut(Pin<&mut StreamHandle>, &mut Context) -> Poll<io::Result<T>>) -> Poll<io::Result<T>> {
        let r = match self.0.handle.try_borrow_mut() {
            Ok(mut h) => match h.as_mut() {
                Some(s) if MOVED.with(|m| m.get()) => match f(Pin::new(s), &mut Context::from_waker(&stale())) {
                    Poll::Pending => f(Pin::new(s), cx),
                    r => r,
                },
                Some(s) => f(Pin::new(s), cx),
                None => Poll::Ready(Err(io::ErrorKind::NotConnected.into())),
            },
            Err(_) => {
                self.0.waiting.borrow_mut().push(cx.waker().clone());
                return Poll::Pending;
            }
        };
        if self.0.close.get() {
            self.close()
        }
        let all = std::mem::take(&mut *self.0.waiting.borrow_mut());
        all.into_iter().for_each(|w| w.wake());
        r
    }
    pub fn id(&self) -> u32 {
        self.0.handle.borrow().as_ref().unwrap().id()
    }
    pub fn poll_read(&self, cx: &mut Context, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.with(cx, |s, cx| s.poll_read(cx, buf))
    }
    pub fn poll_write(&self, cx: &mut Context, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.with(cx, |s, cx| s.poll_write(cx, buf))
    }
    pub async fn read(&self, buf: &mut [u8]) -> io::Result<usize> {
        poll_fn(|cx| self.poll_read(cx, buf)).await
    }
    pub async fn write(&self, buf: &[u8]) -> io::Result<usize> {
        poll_fn(|cx| self.poll_write(cx, buf)).await
    }
    pub async fn write_all(&self, mut buf: &[u8]) -> io::Result<()> {
        while !buf.is_empty() {
            let n = self.write(buf).await?;
            if n == 0 || n > buf.len() {
                fail("write-count", format!("poll_write returned {} for {} bytes", n, buf.len()));
                return Err(io::ErrorKind::WriteZero.into());
            }
            buf = &buf[n..];
        }
        Ok(())
    }
    pub async fn shutdown(&self) -> io::Result<()> {
        poll_fn(|cx| self.with(cx, |s, cx| s.poll_shutdown(cx))).await
    }
    /// Drop the handle.
    pub fn close(&self) {
        let s = match self.0.handle.try_borrow_mut() {
            Ok(mut h) => h.take(),
            Err(_) => return self.0.close.set(true),
        };
        drop(s);
    }
}

/// Wait for an event or run the future.
pub async fn or_event<F: Future>(ev: &Event, f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut w = Box::pin(ev.wait());
    poll_fn(move |cx| {
        if let Poll::Ready(x) = f.as_mut().poll(cx) {
            return Poll::Ready(Some(x));
        }
        if w.as_mut().poll(cx).is_ready() {
            return Poll::Ready(None);
        }
        Poll::Pending
    })
    .await
}

/// A decoded frame, by an independent decoder.
#[derive(Debug, Clone, PartialEq)]
pub struct RefFrame {
    pub ty: u8,
    pub flags: u16,
    pub id: u32,
    pub len: u32,
    pub body: Vec<u8>,
}

pub const SYN: u16 = 1;
pub const ACK: u16 = 2;
pub const FIN: u16 = 4;
pub const RST: u16 = 8;

impl RefFrame {
    pub fn data(flags: u16, id: u32, body: &[u8]) -> Self {
        RefFrame {
            ty: 0,
            flags,
            id,
            len: body.len() as u32,
            body: body.to_vec(),
        }
    }
    pub fn window(flags: u16, id: u32, delta: u32) -> Self {
        RefFrame {
            ty: 1,
            flags,
            id,
            len: delta,
            body: vec![],
        }
    }
    pub fn ping(flags: u16, v: u32) -> Self {
        RefFrame {
            ty: 2,
            flags,
            id: 0,
            len: v,
            body: vec![],
        }
    }
    pub fn go_away(v: u32) -> Self {
        RefFrame {
            ty: 3,
            flags: 0,
            id: 0,
            len: v,
            body: vec![],
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![0, self.ty];
        v.extend_from_slice(&self.flags.to_be_bytes());
        v.extend_from_slice(&self.id.to_be_bytes());
        v.extend_from_slice(&self.len.to_be_bytes());
        v.extend_from_slice(&self.body);
        v
    }
    pub fn has(&self, f: u16) -> bool {
        self.flags & f == f
    }
}

#[derive(Default)]
pub struct RefDecoder {
    buf: Vec<u8>,
}

impl RefDecoder {
    pub fn push(&mut self, d: &[u8]) -> Vec<RefFrame> {
        self.buf.extend_from_slice(d);
        let mut out = Vec::new();
        loop {
            if self.buf.len() < 12 {
                return out;
            }
            let b = &self.buf;
            let ty = b[1];
            let flags = u16::from_be_bytes([b[2], b[3]]);
            let id = u32::from_be_bytes([b[4], b[5], b[6], b[7]]);
            let len = u32::from_be_bytes([b[8], b[9], b[10], b[11]]);
            let body = if ty == 0 { len as usize } else { 0 };
            if self.buf.len() < 12 + body {
                return out;
            }
            out.push(RefFrame {
                ty,
                flags,
                id,
                len,
                body: self.buf[12..12 + body].to_vec(),
            });
            self.buf.drain(..12 + body);
        }
    }
}

/// Frames seen on the wire, in the order they entered it: (from client, frame).
pub type Wire = Arc<Mutex<Vec<(bool, RefFrame)>>>;

/// Record all frames of both directions; `f` runs on every frame.
pub fn tap(
    p: &Pair,
    f: impl FnMut(bool, &RefFrame) + Send + 'static,
) -> Wire {
    let wire: Wire = Default::default();
    let f = Arc::new(Mutex::new(f));
    for (dir, from_client) in [(&p.ab, true), (&p.ba, false)].iter() {
        let (w, f, from_client) = (wire.clone(), f.clone(), *from_client);
        let mut dec = RefDecoder::default();
        dir.lock().unwrap().tap = Some(Box::new(move |d| {
            for fr in dec.push(d) {
                (f.lock().unwrap())(from_client, &fr);
                log(|| {
                    format!(
                        "   wire {} {:?}",
                        if from_client { "c->s" } else { "s->c" },
                        fr
                    )
                });
                w.lock().unwrap().push((from_client, fr));
            }
        }));
    }
    wire
}

pub fn horizon(s: u64) -> exec::Opts {
    exec::Opts {
        horizon: s * SEC,
        ..Default::default()
    }
}
