//! In-memory full-duplex byte transport whose short reads, short writes, faults
//! and end of stream are under the explorer's control.
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use tokio::io::{AsyncRead, AsyncWrite};

use crate::deviate;

#[derive(Clone, Copy, Debug)]
pub struct PipeCfg {
    /// bytes in flight per direction
    pub cap: usize,
    /// offer short reads and writes as deviations
    pub frag: bool,
    /// upper bound on the bytes moved per read
    pub max_read: usize,
    /// upper bound on the bytes accepted per write
    pub max_write: usize,
}

impl Default for PipeCfg {
    fn default() -> Self {
        PipeCfg {
            cap: 1 << 20,
            frag: false,
            max_read: usize::MAX,
            max_write: usize::MAX,
        }
    }
}

/// Called with every accepted write.
pub type Tap = Box<dyn FnMut(&[u8]) + Send>;

#[derive(Default)]
pub struct Dir {
    pub buf: std::collections::VecDeque<u8>,
    cap: usize,
    /// no more bytes will be written
    pub eof: bool,
    /// reader is gone: writes fail
    pub broken: bool,
    /// nothing moves any more and nobody is told
    pub frozen: bool,
    pub read_err: Option<io::ErrorKind>,
    pub write_err: Option<io::ErrorKind>,
    read_waker: Option<Waker>,
    write_waker: Option<Waker>,
    pub written: u64,
    pub read: u64,
    pub tap: Option<Tap>,
    /// close the direction (eof/error) once this many bytes were read
    pub cut_after: Option<(u64, Option<io::ErrorKind>)>,
    pub flushes: u64,
}

impl Dir {
    fn wake_r(&mut self) {
        if let Some(w) = self.read_waker.take() {
            w.wake()
        }
    }
    fn wake_w(&mut self) {
        if let Some(w) = self.write_waker.take() {
            w.wake()
        }
    }
    pub fn wake_all(&mut self) {
        self.wake_r();
        self.wake_w();
    }
    pub fn inject(&mut self, data: &[u8]) {
        self.buf.extend(data);
        self.wake_r();
    }
}

pub type DirRef = Arc<Mutex<Dir>>;

pub struct End {
    rx: DirRef,
    tx: DirRef,
    cfg: PipeCfg,
    shut: bool,
}

/// Two connected ends and the two directions (a→b, b→a).
pub fn duplex(cfg: PipeCfg) -> (End, End, DirRef, DirRef) {
    let mk = || {
        Arc::new(Mutex::new(Dir {
            cap: cfg.cap,
            ..Default::default()
        }))
    };
    let (ab, ba) = (mk(), mk());
    (
        End {
            rx: ba.clone(),
            tx: ab.clone(),
            cfg,
            shut: false,
        },
        End {
            rx: ab.clone(),
            tx: ba.clone(),
            cfg,
            shut: false,
        },
        ab,
        ba,
    )
}

pub fn set_cap(d: &DirRef, cap: usize) {
    let mut d = d.lock().unwrap();
    d.cap = cap;
    d.wake_w();
}

/// Break a direction: pending data is discarded and both sides see `kind`.
pub fn break_dir(d: &DirRef, kind: io::ErrorKind) {
    let mut d = d.lock().unwrap();
    d.buf.clear();
    d.read_err = Some(kind);
    d.write_err = Some(kind);
    d.wake_all();
}

/// The writer goes away: the reader drains what is in flight, then sees end of
/// stream; further writes fail.
pub fn eof_dir(d: &DirRef) {
    let mut d = d.lock().unwrap();
    d.eof = true;
    d.broken = true;
    d.wake_all();
}

/// Silently stop moving bytes in this direction.
pub fn freeze_dir(d: &DirRef) {
    d.lock().unwrap().frozen = true;
}

impl AsyncRead for End {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context,
        buf: &mut [u8],
    ) -> Poll<io::Result<usize>> {
        let mut d = self.rx.lock().unwrap();
        if d.frozen {
            d.read_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if let Some((at, kind)) = d.cut_after {
            if d.read >= at {
                return match kind {
                    Some(k) => Poll::Ready(Err(k.into())),
                    None => Poll::Ready(Ok(0)),
                };
            }
        }
        if let Some(k) = d.read_err {
            return Poll::Ready(Err(k.into()));
        }
        if d.buf.is_empty() {
            if d.eof {
                return Poll::Ready(Ok(0));
            }
            d.read_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = buf.len().min(d.buf.len()).min(self.cfg.max_read);
        if let Some((at, _)) = d.cut_after {
            n = n.min((at - d.read) as usize);
        }
        if self.cfg.frag && n > 1 {
            n = match deviate(if n > 2 { 3 } else { 2 }, "short read") {
                0 => n,
                1 => 1,
                _ => n - 1,
            };
        }
        for b in buf.iter_mut().take(n) {
            *b = d.buf.pop_front().unwrap();
        }
        d.read += n as u64;
        d.wake_w();
        Poll::Ready(Ok(n))
    }
}

impl AsyncWrite for End {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context, buf: &[u8]) -> Poll<io::Result<usize>> {
        if self.shut {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let mut d = self.tx.lock().unwrap();
        if let Some(k) = d.write_err {
            return Poll::Ready(Err(k.into()));
        }
        if d.broken {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let room = d.cap.saturating_sub(d.buf.len());
        if room == 0 || d.frozen {
            d.write_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = buf.len().min(room).min(self.cfg.max_write);
        if self.cfg.frag && n > 1 {
            n = match deviate(if n > 2 { 3 } else { 2 }, "short write") {
                0 => n,
                1 => 1,
                _ => n - 1,
            };
        }
        d.buf.extend(&buf[..n]);
        d.written += n as u64;
        if let Some(mut t) = d.tap.take() {
            t(&buf[..n]);
            d.tap = Some(t);
        }
        d.wake_r();
        Poll::Ready(Ok(n))
    }

    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context) -> Poll<io::Result<()>> {
        let mut d = self.tx.lock().unwrap();
        d.flushes += 1;
        if let Some(k) = d.write_err {
            return Poll::Ready(Err(k.into()));
        }
        Poll::Ready(Ok(()))
    }

    fn poll_shutdown(mut self: Pin<&mut Self>, _cx: &mut Context) -> Poll<io::Result<()>> {
        self.shut = true;
        let mut d = self.tx.lock().unwrap();
        d.eof = true;
        d.wake_r();
        Poll::Ready(Ok(()))
    }
}

impl Drop for End {
    fn drop(&mut self) {
        if let Ok(mut d) = self.tx.lock() {
            d.eof = true;
            d.wake_r();
        }
        if let Ok(mut d) = self.rx.lock() {
            d.broken = true;
            d.wake_w();
        }
    }
}
