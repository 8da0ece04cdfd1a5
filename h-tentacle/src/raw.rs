//! A remote that is not a service: it speaks yamux and the negotiation by hand.
use std::cell::RefCell;
use std::rc::Rc;

use mc_engine::exec;
use mc_engine::pipe;
use tentacle::protocol_select::ProtocolInfo;
use tokio::io::{AsyncReadExt, AsyncWriteExt, ReadHalf, WriteHalf};

use crate::world::*;

pub const DATA: u8 = 0;
pub const WINDOW: u8 = 1;
pub const PING: u8 = 2;
pub const GO_AWAY: u8 = 3;
pub const SYN: u16 = 1;
pub const FIN: u16 = 4;
pub const RST: u16 = 8;

#[derive(Clone, Debug, PartialEq)]
pub struct Frame {
    pub ty: u8,
    pub flags: u16,
    pub id: u32,
    pub len: u32,
    pub body: Vec<u8>,
}

pub fn frame(ty: u8, flags: u16, id: u32, len: u32, body: &[u8]) -> Vec<u8> {
    let mut v = vec![0, ty];
    v.extend_from_slice(&flags.to_be_bytes());
    v.extend_from_slice(&id.to_be_bytes());
    v.extend_from_slice(&len.to_be_bytes());
    v.extend_from_slice(body);
    v
}

pub fn data(flags: u16, id: u32, body: &[u8]) -> Vec<u8> {
    frame(DATA, flags, id, body.len() as u32, body)
}

/// Length-prefixed message.
pub fn msg(body: &[u8]) -> Vec<u8> {
    let mut v = (body.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(body);
    v
}

pub fn info(name: &str, versions: &[&str]) -> Vec<u8> {
    ProtocolInfo::new(name, versions.iter().map(|s| s.to_string()).collect())
        .encode()
        .to_vec()
}

/// Negotiation message as it lies in the stream.
pub fn select(name: &str, versions: &[&str]) -> Vec<u8> {
    msg(&info(name, versions))
}

pub struct Raw {
    /// index of the connection
    pub conn: usize,
    out: RefCell<Option<WriteHalf<pipe::End>>>,
    pub frames: RefCell<Vec<Frame>>,
    /// bytes received
    pub bytes: RefCell<Vec<u8>>,
    pub closed: RefCell<bool>,
    marked: RefCell<Vec<u32>>,
    on_frame: RefCell<Option<OnFrame>>,
}

type OnFrame = Rc<dyn Fn(&Frame)>;

async fn reader(mut r: ReadHalf<pipe::End>, raw: Rc<Raw>) {
    let mut buf = [0u8; 4096];
    let mut pending: Vec<u8> = Vec::new();
    loop {
        match r.read(&mut buf).await {
            Ok(n) if n > 0 => {
                raw.bytes.borrow_mut().extend_from_slice(&buf[..n]);
                pending.extend_from_slice(&buf[..n]);
            }
            _ => break,
        }
        while pending.len() >= 12 {
            let u32_at = |i: usize| {
                u32::from_be_bytes([pending[i], pending[i + 1], pending[i + 2], pending[i + 3]])
            };
            let (ty, len) = (pending[1], u32_at(8));
            let body = if ty == DATA { len as usize } else { 0 };
            if pending.len() < 12 + body {
                break;
            }
            let f = Frame {
                ty,
                flags: u16::from_be_bytes([pending[2], pending[3]]),
                id: u32_at(4),
                len,
                body: pending[12..12 + body].to_vec(),
            };
            pending.drain(..12 + body);
            mc_engine::log(|| match f.body.len() {
                0..=64 => format!("     raw got {:?}", f),
                n => format!("     raw got {} bytes on {}", n, f.id),
            });
            raw.frames.borrow_mut().push(f.clone());
            let h = raw.on_frame.borrow().clone();
            if let Some(h) = h {
                h(&f)
            }
        }
    }
    *raw.closed.borrow_mut() = true;
}

impl Raw {
    /// Wrap an end; a task of its own takes in whatever arrives.
    pub fn new(end: pipe::End, conn: usize) -> Rc<Raw> {
        let (r, w) = tokio::io::split(end);
        let raw = Rc::new(Raw {
            conn,
            out: RefCell::new(Some(w)),
            frames: RefCell::new(Vec::new()),
            bytes: RefCell::new(Vec::new()),
            closed: RefCell::new(false),
            marked: Default::default(),
            on_frame: Default::default(),
        });
        exec::spawn_daemon("raw-reader", reader(r, raw.clone()));
        raw
    }

    pub fn connect(n: u16) -> Rc<Raw> {
        let (end, i) = net_connect(sock(n)).expect("nobody listens");
        Raw::new(end, i)
    }

    /// Called for every frame from now on.
    pub fn on_frame(&self, f: impl Fn(&Frame) + 'static) {
        *self.on_frame.borrow_mut() = Some(Rc::new(f));
    }

    /// Whether this is the first time for the stream.
    pub fn mark(&self, id: u32) -> bool {
        let mut m = self.marked.borrow_mut();
        let new = !m.contains(&id);
        if new {
            m.push(id)
        }
        new
    }

    /// Put bytes on the wire, in the order of the calls. Only for pipes without a limit.
    pub fn send(&self, bytes: &[u8]) {
        let mut out = self.out.borrow_mut();
        if let Some(w) = out.as_mut() {
            let mut f = Box::pin(w.write_all(bytes));
            let _ = exec::poll_once(f.as_mut());
        }
    }

    /// The remote's socket is closed.
    pub fn eof(&self) {
        if let Some((ab, ba)) = conn(self.conn) {
            pipe::eof_dir(&ab);
            pipe::eof_dir(&ba);
        }
    }

    pub fn reset(&self) {
        reset_conn(self.conn, std::io::ErrorKind::ConnectionReset)
    }

    /// Bytes of one stream received so far.
    pub fn stream(&self, id: u32) -> Vec<u8> {
        self.frames
            .borrow()
            .iter()
            .filter(|f| f.id == id && f.ty == DATA)
            .flat_map(|f| f.body.clone())
            .collect()
    }

    pub fn is_closed(&self) -> bool {
        *self.closed.borrow()
    }
}

/// Accept one connection on a listening address of its own, then hand it over.
pub fn accept_on(n: u16, then: impl Fn(Rc<Raw>) + 'static) {
    let mut l = net_listen(sock(n));
    exec::spawn_daemon(format!("raw{}", n), async move {
        loop {
            let end = l.accept().await;
            then(Raw::new(end, conns() - 1));
        }
    });
}
