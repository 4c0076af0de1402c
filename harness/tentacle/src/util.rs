#![allow(dead_code)]
use hx::Rng;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use tokio::io::{AsyncRead, AsyncWrite};

pub struct Count(pub AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
impl Count {
    pub fn new() -> Arc<Count> {
        Arc::new(Count(AtomicUsize::new(0)))
    }
    pub fn get(&self) -> usize {
        self.0.load(Ordering::SeqCst)
    }
}
pub fn waker(c: &Arc<Count>) -> Waker {
    Waker::from(c.clone())
}
pub fn noop() -> Waker {
    waker(&Count::new())
}

/// One direction of an in-memory transport
pub struct Wire {
    pub data: VecDeque<u8>,
    pub closed: bool,
    pub room: usize,
    rw: Option<Waker>,
    ww: Option<Waker>,
}
pub type SWire = Arc<Mutex<Wire>>;
pub fn wire(room: usize) -> SWire {
    Arc::new(Mutex::new(Wire { data: VecDeque::new(), closed: false, room, rw: None, ww: None }))
}
impl Wire {
    pub fn put(&mut self, b: &[u8]) {
        self.data.extend(b.iter());
        self.wake_r();
    }
    pub fn take(&mut self, n: usize) -> Vec<u8> {
        let n = n.min(self.data.len());
        let v = self.data.drain(..n).collect();
        if let Some(w) = self.ww.take() {
            w.wake();
        }
        v
    }
    pub fn close(&mut self) {
        self.closed = true;
        self.wake_r();
    }
    fn wake_r(&mut self) {
        if let Some(w) = self.rw.take() {
            w.wake();
        }
    }
}
/// An end of the transport: chunk sizes and stalls come from a seeded generator
pub struct End {
    pub rd: SWire,
    pub wr: SWire,
    pub rng: Rng,
    /// stall one time in `stall` (0 never)
    pub stall: u64,
    pub chunk: usize,
}
impl AsyncRead for End {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let me = self.get_mut();
        if me.stall > 0 && me.rng.chance(1, me.stall) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let mut w = me.rd.lock().unwrap();
        if w.data.is_empty() {
            if w.closed {
                return Poll::Ready(Ok(0));
            }
            w.rw = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = buf.len().min(w.data.len()).min(1 + me.rng.below(me.chunk as u64) as usize);
        for b in buf[..n].iter_mut() {
            *b = w.data.pop_front().unwrap();
        }
        if let Some(x) = w.ww.take() {
            x.wake();
        }
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for End {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let me = self.get_mut();
        if me.stall > 0 && me.rng.chance(1, me.stall) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let mut w = me.wr.lock().unwrap();
        if w.closed {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let room = w.room.saturating_sub(w.data.len());
        if room == 0 {
            w.ww = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = buf.len().min(room).min(1 + me.rng.below(me.chunk as u64) as usize);
        w.put(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.wr.lock().unwrap().close();
        Poll::Ready(Ok(()))
    }
}
impl Drop for End {
    fn drop(&mut self) {
        if let Ok(mut w) = self.wr.lock() {
            w.close();
        }
    }
}
pub fn pair(rng: &mut Rng, room: usize, chunk: usize, stall: u64) -> (End, End) {
    let (a, b) = (wire(room), wire(room));
    (
        End { rd: a.clone(), wr: b.clone(), rng: Rng(rng.next()), stall, chunk },
        End { rd: b, wr: a, rng: Rng(rng.next()), stall, chunk },
    )
}
