//! In-memory byte pipe with adjustable chunking, and a small executor.
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite};

#[derive(Default)]
pub struct Half {
    pub buf: VecDeque<u8>,
    pub closed: bool,
    pub waker: Option<Waker>,
    /// total bytes that went through
    pub total: usize,
    /// bits to flip: (byte offset, mask)
    pub flip: Option<(usize, u8)>,
    /// cut the stream after this many bytes
    pub cut: Option<usize>,
}
impl Half {
    pub fn push(&mut self, d: &[u8]) {
        for b in d {
            let mut b = *b;
            if let Some((o, m)) = self.flip {
                if o == self.total {
                    b ^= m;
                }
            }
            self.total += 1;
            if let Some(c) = self.cut {
                if self.total > c {
                    self.closed = true;
                    continue;
                }
            }
            self.buf.push_back(b);
        }
        if let Some(w) = self.waker.take() {
            w.wake();
        }
    }
    pub fn close(&mut self) {
        self.closed = true;
        if let Some(w) = self.waker.take() {
            w.wake();
        }
    }
}
pub type Chan = Arc<Mutex<Half>>;
pub struct End {
    pub rx: Chan,
    pub tx: Chan,
    pub chunk: usize,
    pub seed: u64,
    pub stall: bool,
}
impl End {
    fn step(&mut self) -> u64 {
        self.seed = self.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.seed >> 33
    }
}
impl Drop for End {
    fn drop(&mut self) {
        self.tx.lock().unwrap().close();
    }
}
pub fn pair(chunk: usize, stall: bool, seed: u64) -> (End, End) {
    let a: Chan = Default::default();
    let b: Chan = Default::default();
    (End { rx: a.clone(), tx: b.clone(), chunk, seed, stall }, End { rx: b, tx: a, chunk, seed: seed ^ 99, stall })
}
impl AsyncRead for End {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        if self.stall && self.step() % 3 == 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let lim = if self.chunk == 0 { usize::max_value() } else { 1 + self.step() as usize % self.chunk };
        let mut h = self.rx.lock().unwrap();
        if h.buf.is_empty() {
            if h.closed {
                return Poll::Ready(Ok(0));
            }
            h.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = buf.len().min(lim).min(h.buf.len());
        for x in buf[..n].iter_mut() {
            *x = h.buf.pop_front().unwrap();
        }
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for End {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if self.stall && self.step() % 4 == 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let lim = if self.chunk == 0 { usize::max_value() } else { 1 + self.step() as usize % self.chunk };
        let n = buf.len().min(lim);
        self.tx.lock().unwrap().push(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.tx.lock().unwrap().close();
        Poll::Ready(Ok(()))
    }
}
pub struct Count(pub std::sync::atomic::AtomicUsize);
impl std::task::Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    }
}
/// Polls until nothing moves any more; None when the future is stuck
pub fn settle<F: std::future::Future + ?Sized>(mut f: Pin<&mut F>) -> Option<F::Output> {
    let w = Arc::new(Count(Default::default()));
    let waker = Waker::from(w.clone());
    let mut cx = Context::from_waker(&waker);
    loop {
        let before = w.0.load(std::sync::atomic::Ordering::SeqCst);
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return Some(x);
        }
        if w.0.load(std::sync::atomic::Ordering::SeqCst) == before {
            return None;
        }
    }
}
pub fn drive<F: std::future::Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    settle(f.as_mut())
}
