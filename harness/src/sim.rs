//! Simulated transports: seeded segmentation, pending points, short writes, buffering until
//! flush, cuts and failures; and two ways to run futures deterministically.

use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

use crate::core::Rng;

struct Flag(AtomicBool);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}

/// Polls a future that depends on nothing but self-waking transports. `Err` if it waits for
/// something nobody will ever provide.
pub fn drive<F: Future>(f: F) -> Result<F::Output, String> {
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    let mut f = std::pin::pin!(f);
    let mut polls = 0u64;
    loop {
        flag.0.store(false, SeqCst);
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return Ok(x);
        }
        polls += 1;
        if !flag.0.load(SeqCst) {
            return Err(format!("hangs: pending after {polls} polls without a wake-up"));
        }
        if polls > 20_000_000 {
            return Err("does not finish within 20 million polls".into());
        }
    }
}

/// A paused-clock, single-threaded runtime: time passes only when nothing else can happen.
pub fn virtual_rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .expect("vp-harness: runtime")
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    /// Nothing more arrives, but the stream stays open.
    Open,
    Eof,
    Reset,
}

pub struct Wire {
    // incoming, as seen by the code under test
    pub input: Vec<u8>,
    pub pos: usize,
    pub end: End,
    pub read_waker: Option<Waker>,
    // outgoing
    pub out: Vec<u8>,
    pub unflushed: usize,
    pub out_marks: Vec<(usize, tokio::time::Instant)>,
    pub fail_write_at: Option<usize>,
    pub fail_flush: bool,
    /// flushing fails once this many bytes were accepted
    pub fail_flush_from: Option<usize>,
    pub write_calls: u64,
    pub flush_calls: u64,
    pub read_calls: u64,
    pub shutdown: bool,
    pub dropped: bool,
    pub out_waker: Option<Waker>,
    /// the writer, while the peer does not read
    pub write_waker: Option<Waker>,
    // behaviour
    pub rng: Rng,
    /// chance of a spurious Pending (with an immediate wake-up)
    pub pending_pct: u64,
    pub max_read: usize,
    pub max_write: usize,
    /// only flushed bytes count as sent
    pub buffered: bool,
    /// peer stops taking bytes after this many
    pub stall_write_at: Option<usize>,
    pub stamp: bool,
    /// the transport takes several slices at once
    pub vectored: bool,
}

impl Wire {
    /// A fresh transport that behaves the same.
    pub fn like(w: &Wire) -> Wire {
        Wire {
            input: vec![],
            pos: 0,
            end: End::Open,
            read_waker: None,
            out: vec![],
            unflushed: 0,
            out_marks: vec![],
            out_waker: None,
            write_waker: None,
            rng: w.rng.clone(),
            ..*w
        }
    }
}

#[derive(Clone)]
pub struct Stream(pub Arc<Mutex<Wire>>);

impl Stream {
    pub fn new(input: Vec<u8>, end: End, rng: Rng) -> Stream {
        Stream(Arc::new(Mutex::new(Wire {
            input,
            pos: 0,
            end,
            read_waker: None,
            out: vec![],
            unflushed: 0,
            out_marks: vec![],
            fail_write_at: None,
            fail_flush: false,
            fail_flush_from: None,
            write_calls: 0,
            flush_calls: 0,
            read_calls: 0,
            shutdown: false,
            dropped: false,
            out_waker: None,
            write_waker: None,
            rng,
            pending_pct: 0,
            max_read: usize::MAX,
            max_write: usize::MAX,
            buffered: false,
            stall_write_at: None,
            stamp: false,
            vectored: false,
        })))
    }

    /// Random segmentation and pending points.
    pub fn rough(self) -> Stream {
        {
            let mut w = self.0.lock().unwrap();
            w.pending_pct = *w.rng.pick(&[0, 0, 10, 50]);
            w.max_read = *Rng::pick(&mut w.rng, &[1, 2, 3, 7, 64, 1000, usize::MAX]);
            w.max_write = *Rng::pick(&mut w.rng, &[1, 2, 3, 7, 64, 1000, usize::MAX]);
            w.vectored = w.rng.chance(50);
        }
        self
    }

    pub fn with(self, f: impl FnOnce(&mut Wire)) -> Stream {
        f(&mut self.0.lock().unwrap());
        self
    }

    pub fn consumed(&self) -> usize {
        self.0.lock().unwrap().pos
    }

    /// Bytes the peer can see.
    pub fn sent(&self) -> Vec<u8> {
        let w = self.0.lock().unwrap();
        w.out[..w.out.len() - w.unflushed].to_vec()
    }

    /// Bytes accepted, flushed or not.
    pub fn accepted(&self) -> Vec<u8> {
        self.0.lock().unwrap().out.clone()
    }

    pub fn feed(&self, b: &[u8]) {
        let mut w = self.0.lock().unwrap();
        w.input.extend_from_slice(b);
        if let Some(k) = w.read_waker.take() {
            k.wake();
        }
    }

    pub fn end(&self, e: End) {
        let mut w = self.0.lock().unwrap();
        w.end = e;
        if let Some(k) = w.read_waker.take() {
            k.wake();
        }
    }

    /// The peer reads again.
    pub fn unstall(&self) {
        let mut w = self.0.lock().unwrap();
        w.stall_write_at = None;
        if let Some(k) = w.write_waker.take() {
            k.wake();
        }
    }

    pub fn is_dropped(&self) -> bool {
        self.0.lock().unwrap().dropped
    }

    /// Waits until the peer has at least `n` bytes, or the stream was dropped.
    pub async fn wait_sent(&self, n: usize) {
        std::future::poll_fn(|cx| {
            let mut w = self.0.lock().unwrap();
            if w.out.len() - w.unflushed >= n || w.dropped {
                Poll::Ready(())
            } else {
                w.out_waker = Some(cx.waker().clone());
                Poll::Pending
            }
        })
        .await
    }

    /// Waits for `n` whole frames (or the end).
    pub async fn wait_frames(&self, n: usize) {
        std::future::poll_fn(|cx| {
            let mut w = self.0.lock().unwrap();
            let vis = w.out.len() - w.unflushed;
            if w.dropped || crate::wire::split(&w.out[..vis]).0.len() >= n {
                Poll::Ready(())
            } else {
                w.out_waker = Some(cx.waker().clone());
                Poll::Pending
            }
        })
        .await
    }
}

/// The end given to the code under test.
pub struct Io(pub Stream);

impl Drop for Io {
    fn drop(&mut self) {
        if let Ok(mut w) = self.0 .0.lock() {
            w.dropped = true;
            if let Some(k) = w.out_waker.take() {
                k.wake();
            }
        }
    }
}

impl AsyncRead for Io {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut w = self.0 .0.lock().unwrap();
        w.read_calls += 1;
        let pct = w.pending_pct;
        if pct > 0 && w.rng.chance(pct) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let left = w.input.len() - w.pos;
        if left == 0 {
            return match w.end {
                End::Open => {
                    w.read_waker = Some(cx.waker().clone());
                    Poll::Pending
                }
                End::Eof => Poll::Ready(Ok(())),
                End::Reset => Poll::Ready(Err(io::ErrorKind::ConnectionReset.into())),
            };
        }
        let mut n = left.min(buf.remaining());
        if w.max_read != usize::MAX {
            let m = w.max_read as u64;
            n = n.min(w.rng.range(1, m) as usize);
        }
        let p = w.pos;
        buf.put_slice(&w.input[p..p + n]);
        w.pos += n;
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for Io {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut w = self.0 .0.lock().unwrap();
        w.write_calls += 1;
        let pct = w.pending_pct;
        if pct > 0 && w.rng.chance(pct) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let mut n = buf.len();
        if w.max_write != usize::MAX {
            let m = w.max_write as u64;
            n = n.min(w.rng.range(1, m) as usize);
        }
        if let Some(k) = w.fail_write_at {
            if w.out.len() >= k && !buf.is_empty() {
                return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
            }
            n = n.min(k - w.out.len());
        }
        if let Some(k) = w.stall_write_at {
            if w.out.len() >= k && !buf.is_empty() {
                w.write_waker = Some(cx.waker().clone());
                return Poll::Pending; // the peer does not read
            }
            n = n.min(k - w.out.len());
        }
        w.out.extend_from_slice(&buf[..n]);
        if w.stamp {
            let l = w.out.len();
            w.out_marks.push((l, tokio::time::Instant::now()));
        }
        if w.buffered {
            w.unflushed += n;
        } else if let Some(k) = w.out_waker.take() {
            k.wake();
        }
        Poll::Ready(Ok(n))
    }

    /// Some transports take several slices at once, of which it may take any part.
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> {
        let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
        self.poll_write(cx, &all)
    }

    fn is_write_vectored(&self) -> bool {
        self.0 .0.lock().unwrap().vectored
    }

    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut w = self.0 .0.lock().unwrap();
        w.flush_calls += 1;
        let pct = w.pending_pct;
        if pct > 0 && w.rng.chance(pct) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if w.fail_flush || w.fail_flush_from.is_some_and(|k| w.out.len() >= k) {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        w.unflushed = 0;
        if let Some(k) = w.out_waker.take() {
            k.wake();
        }
        Poll::Ready(Ok(()))
    }

    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut w = self.0 .0.lock().unwrap();
        w.shutdown = true;
        w.unflushed = 0;
        if let Some(k) = w.out_waker.take() {
            k.wake();
        }
        Poll::Ready(Ok(()))
    }
}
