//! C20, C21: message buffers and the priority channel
use crate::util::*;
use futures::channel::mpsc as fut;
use futures::{Sink, Stream};
use hx::{ensure, Case, Res};
use std::collections::{BTreeSet, VecDeque};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
#[cfg(not(feature = "hv"))]
use crate::buffer::{Buffer, PriorityBuffer, SendResult};
#[cfg(not(feature = "hv"))]
use crate::channel::{mpsc as chan, mpsc::Priority, QuickSinkExt};
#[cfg(feature = "hv")]
use tentacle::verif_hooks::chan::{self, Priority, QuickSinkExt};
#[cfg(feature = "hv")]
use tentacle::verif_hooks::{Buffer, PriorityBuffer, SendResult};

/// a message that tells how often it exists
struct Msg(u64, Arc<()>);
enum Tx {
    B(chan::Sender<Msg>),
    U(chan::UnboundedSender<Msg>),
}
enum Rx {
    B(chan::Receiver<Msg>),
    U(chan::UnboundedReceiver<Msg>),
}
enum Sent {
    Ok,
    Full(u64),
    Gone(u64),
}
impl Tx {
    fn send(&self, high: bool, m: Msg) -> Sent {
        let r = match self {
            Tx::B(t) if high => t.try_quick_send(m),
            Tx::B(t) => t.try_send(m),
            Tx::U(t) if high => t.unbounded_quick_send(m),
            Tx::U(t) => t.unbounded_send(m),
        };
        match r {
            Ok(()) => Sent::Ok,
            Err(e) => {
                if e.is_full() {
                    Sent::Full(e.into_inner().0)
                } else {
                    Sent::Gone(e.into_inner().0)
                }
            }
        }
    }
    fn dup(&self) -> Tx {
        match self {
            Tx::B(t) => Tx::B(t.clone()),
            Tx::U(t) => Tx::U(t.clone()),
        }
    }
}
impl Rx {
    fn poll(&mut self, cx: &mut Context) -> Poll<Option<(Priority, Msg)>> {
        match self {
            Rx::B(r) => Pin::new(r).poll_next(cx),
            Rx::U(r) => Pin::new(r).poll_next(cx),
        }
    }
    fn take(&mut self) -> Poll<Option<(Priority, Msg)>> {
        let r = match self {
            Rx::B(r) => r.try_next(),
            Rx::U(r) => r.try_next(),
        };
        match r {
            Ok(m) => Poll::Ready(m),
            Err(_) => Poll::Pending,
        }
    }
    fn close(&mut self) {
        match self {
            Rx::B(r) => r.close(),
            Rx::U(r) => r.close(),
        }
    }
}
struct S {
    tx: Tx,
    id: usize,
    /// has used its own slot at some time
    used: bool,
    /// woken count at the time the sender was told to wait
    waits: Option<(Arc<Count>, usize)>,
}
pub fn channel(c: &mut Case) -> Res {
    let bounded = c.rng.chance(3, 4);
    let cap = *c.rng.pick(&[0usize, 0, 1, 1, 2, 3, 8]);
    let (tx, rx) = if bounded {
        let (t, r) = chan::channel(cap);
        (Tx::B(t), Rx::B(r))
    } else {
        let (t, r) = chan::unbounded();
        (Tx::U(t), Rx::U(r))
    };
    c.note(format!("bounded {} capacity {}", bounded, cap));
    let mut ss = vec![S { tx, id: 0, used: false, waits: None }];
    let (mut rx, mut next_s, mut next_m, mut open, mut ended) = (Some(rx), 1usize, 0u64, true, false);
    let (mut hi, mut lo): (VecDeque<u64>, VecDeque<u64>) = Default::default();
    // senders that sent since the channel was last empty
    let mut active: BTreeSet<usize> = BTreeSet::new();
    let token = Arc::new(());
    let mut rwait: Option<(Arc<Count>, usize)> = None;
    for _ in 0..c.rng.range(10, 80) {
        let op = c.rng.below(24);
        match op {
            0..=10 if !ss.is_empty() => {
                let i = c.rng.below(ss.len() as u64) as usize;
                let high = c.rng.chance(2, 5);
                let id = next_m;
                next_m += 1;
                let way = if bounded { c.rng.below(4) } else { c.rng.below(2) };
                let queued = hi.len() + lo.len();
                let m = Msg(id, token.clone());
                let sid = ss[i].id;
                // through the sink interface: ready, then start
                let r = if way == 3 {
                    let w = Count::new();
                    let wk = waker(&w);
                    let mut cx = Context::from_waker(&wk);
                    let p = match &mut ss[i].tx {
                        Tx::B(t) => Sink::<Msg>::poll_ready(Pin::new(&mut *t), &mut cx),
                        Tx::U(t) => Sink::<Msg>::poll_ready(Pin::new(&mut *t), &mut cx),
                    };
                    match p {
                        Poll::Ready(Ok(())) => {
                            let r = match (&mut ss[i].tx, high) {
                                (Tx::B(t), true) => QuickSinkExt::start_quick_send(t, m),
                                (Tx::B(t), false) => Sink::start_send(Pin::new(t), m),
                                (Tx::U(t), true) => QuickSinkExt::start_quick_send(t, m),
                                (Tx::U(t), false) => Sink::start_send(Pin::new(t), m),
                            };
                            ensure!(r.is_ok(), "sender {} was told to go ahead and refused", sid);
                            Sent::Ok
                        }
                        Poll::Ready(Err(_)) => Sent::Gone(id),
                        Poll::Pending => {
                            ss[i].waits = Some((w.clone(), w.get()));
                            Sent::Full(id)
                        }
                    }
                } else {
                    ss[i].waits = None;
                    ss[i].tx.send(high, m)
                };
                match r {
                    Sent::Ok => {
                        c.note(format!("sender {} sends {} high {}: accepted", sid, id, high));
                        ensure!(open, "message {} was accepted on a closed channel", id);
                        active.insert(sid);
                        ss[i].used = true;
                        if high {
                            hi.push_back(id)
                        } else {
                            lo.push_back(id)
                        }
                        ensure!(!bounded || queued + 1 <= cap + active.len(), "{} messages queued by {} senders on a channel of capacity {}", queued + 1, active.len(), cap);
                        if let Some((w, n)) = rwait.take() {
                            ensure!(w.get() > n, "the receiver waits for a message and is not woken by {}", id);
                        }
                    }
                    Sent::Full(x) => {
                        c.note(format!("sender {} sends {} high {}: full", sid, id, high));
                        ensure!(x == id, "refusing {} returned {}", id, x);
                        ensure!(bounded, "an unbounded channel refused {}", id);
                        ensure!(queued > cap, "message {} refused with {} of {} queued", id, queued, cap);
                        ensure!(ss[i].used, "sender {} refused although it never used its own slot", sid);
                    }
                    Sent::Gone(x) => {
                        c.note(format!("sender {} sends {} high {}: closed", sid, id, high));
                        ensure!(x == id, "refusing {} returned {}", id, x);
                        ensure!(!open, "message {} refused as closed on an open channel", id);
                    }
                }
            }
            11..=17 => {
                if let Some(r) = rx.as_mut() {
                    if ended {
                        continue;
                    }
                    let w = Count::new();
                    let wk = waker(&w);
                    let mut cx = Context::from_waker(&wk);
                    let polled = c.rng.chance(1, 2);
                    let got = if polled { r.poll(&mut cx) } else { r.take() };
                    let (hn, ln) = (hi.len(), lo.len());
                    match got {
                        Poll::Ready(Some((p, m))) => {
                            c.note(format!("received {} high {}", m.0, p.is_high()));
                            let want = hi.pop_front().map(|x| (true, x)).or_else(|| lo.pop_front().map(|x| (false, x)));
                            ensure!(want == Some((p.is_high(), m.0)), "received {} (high {}), expected {:?}", m.0, p.is_high(), want);
                        }
                        Poll::Ready(None) => {
                            c.note("end");
                            ensure!(hn + ln == 0, "end reported with {} messages queued", hn + ln);
                            ensure!(!open, "end reported on an open channel");
                            ended = true;
                        }
                        Poll::Pending => {
                            c.note("nothing");
                            ensure!(hn + ln == 0, "nothing received with {} messages queued", hn + ln);
                            ensure!(open, "no end reported on a closed channel");
                            if polled {
                                rwait = Some((w.clone(), w.get()));
                            }
                        }
                    }
                    if hi.is_empty() && lo.is_empty() {
                        active.clear();
                    }
                    if hi.len() + lo.len() <= cap {
                        for s in ss.iter_mut() {
                            if let Some((w, n)) = s.waits.take() {
                                ensure!(w.get() > n, "sender {} waits for room and is not woken with {} of {} queued", s.id, hi.len() + lo.len(), cap);
                            }
                        }
                    }
                }
            }
            18 | 19 if !ss.is_empty() && ss.len() < 5 => {
                let i = c.rng.below(ss.len() as u64) as usize;
                let t = ss[i].tx.dup();
                c.note(format!("sender {} cloned to {}", ss[i].id, next_s));
                ss.push(S { tx: t, id: next_s, used: false, waits: None });
                next_s += 1;
            }
            20 if !ss.is_empty() && (ss.len() > 1 || c.rng.chance(1, 4)) => {
                let i = c.rng.below(ss.len() as u64) as usize;
                let s = ss.remove(i);
                c.note(format!("sender {} dropped", s.id));
                drop(s);
                if ss.is_empty() {
                    open = false;
                    if let Some((w, n)) = rwait.take() {
                        ensure!(w.get() > n, "the receiver waits and is not woken by the last sender leaving");
                    }
                }
            }
            21 if c.rng.chance(1, 3) => {
                if let Some(r) = rx.as_mut() {
                    c.note("receiver closes");
                    r.close();
                    open = false;
                    for s in ss.iter_mut() {
                        if let Some((w, n)) = s.waits.take() {
                            ensure!(w.get() > n, "sender {} waits for room and is not woken by closing", s.id);
                        }
                    }
                }
            }
            22 if c.rng.chance(1, 6) => {
                if let Some(r) = rx.take() {
                    c.note("receiver dropped");
                    drop(r);
                    open = false;
                    hi.clear();
                    lo.clear();
                    ensure!(Arc::strong_count(&token) == 1, "{} messages outlive the receiver", Arc::strong_count(&token) - 1);
                }
            }
            23 if !ss.is_empty() && c.rng.chance(1, 3) => {
                let i = c.rng.below(ss.len() as u64) as usize;
                let last = ss.len() == 1;
                let whole = c.rng.chance(1, 2);
                c.note(format!("sender {} {}", ss[i].id, if whole { "closes the channel" } else { "disconnects" }));
                match &mut ss[i].tx {
                    Tx::B(t) => {
                        if whole {
                            t.close_channel()
                        } else {
                            t.disconnect()
                        }
                    }
                    Tx::U(t) => {
                        if whole {
                            t.close_channel()
                        } else {
                            t.disconnect()
                        }
                    }
                }
                if whole || last {
                    open = false;
                    if let Some((w, n)) = rwait.take() {
                        ensure!(w.get() > n, "the receiver waits and is not woken by closing");
                    }
                }
                if !whole {
                    let s = ss.remove(i);
                    match s.tx.send(false, Msg(u64::max_value(), token.clone())) {
                        Sent::Gone(x) if x == u64::max_value() => {}
                        _ => return Err("a disconnected sender sends".into()),
                    }
                }
            }
            _ => {}
        }
        ensure!(rx.is_none() || Arc::strong_count(&token) - 1 == hi.len() + lo.len(), "{} messages exist, {} are queued", Arc::strong_count(&token) - 1, hi.len() + lo.len());
        for s in ss.iter() {
            let cl = match &s.tx {
                Tx::B(t) => t.is_closed(),
                Tx::U(t) => t.is_closed(),
            };
            ensure!(cl != open, "is_closed is {} on a channel that is {}", cl, if open { "open" } else { "closed" });
        }
    }
    c.nontrivial = next_m > 3;
    // the rest
    drop(ss);
    if let (Some(mut r), false) = (rx, ended) {
        while let Some(x) = hi.pop_front().map(|x| (true, x)).or_else(|| lo.pop_front().map(|x| (false, x))) {
            match r.take() {
                Poll::Ready(Some((p, m))) => ensure!((p.is_high(), m.0) == x, "received {} (high {}), expected {:?}", m.0, p.is_high(), x),
                _ => return Err(format!("message {:?} was accepted and never received", x)),
            }
        }
        ensure!(matches!(r.take(), Poll::Ready(None)), "the end is not reported after everything was received");
    }
    ensure!(Arc::strong_count(&token) == 1, "{} messages are left over", Arc::strong_count(&token) - 1);
    Ok(())
}

/// buffers in front of a queue
pub fn buffers(c: &mut Case) -> Res {
    if c.rng.chance(1, 3) {
        return plain(c);
    }
    let cap = *c.rng.pick(&[0usize, 1, 2, 3, 7]);
    let (tx, mut rx) = chan::channel::<u64>(cap);
    let other = if c.rng.chance(1, 3) { Some(tx.clone()) } else { None };
    let mut b = PriorityBuffer::new(tx);
    c.note(format!("priority buffer, capacity {}", cap));
    let (mut hi, mut lo, mut qh, mut ql): (VecDeque<u64>, VecDeque<u64>, VecDeque<u64>, VecDeque<u64>) = Default::default();
    let mut n = 0u64;
    let mut waits: Option<(Arc<Count>, usize)> = None;
    for step in 0..c.rng.range(10, 120) {
        match c.rng.below(10) {
            0..=3 => {
                let burst = if c.rng.chance(1, 20) { 300 } else { c.rng.range(1, 4) };
                for _ in 0..burst {
                    if c.rng.chance(1, 2) {
                        b.push_high(n);
                        hi.push_back(n);
                    } else {
                        b.push_normal(n);
                        lo.push_back(n);
                    }
                    n += 1;
                }
                c.note(format!("pushed {}", burst));
                ensure!(b.len() == hi.len() + lo.len(), "{} messages wait, the buffer says {}", hi.len() + lo.len(), b.len());
            }
            4..=6 => {
                let w = Count::new();
                let wk = waker(&w);
                let before = b.len();
                let r = b.try_send(&mut Context::from_waker(&wk));
                let k = before.checked_sub(b.len()).ok_or("try_send added messages")?;
                c.note(format!("passed on {}", k));
                for _ in 0..k {
                    match hi.pop_front() {
                        Some(x) => qh.push_back(x),
                        None => ql.push_back(lo.pop_front().unwrap()),
                    }
                }
                match r {
                    SendResult::Ok => {
                        ensure!(b.is_empty() && b.len() == 0, "try_send reports success with {} waiting", b.len());
                        waits = None;
                    }
                    SendResult::Pending => {
                        ensure!(!b.is_empty(), "try_send reports a full queue with nothing waiting");
                        ensure!(qh.len() + ql.len() > cap, "try_send reports a full queue with {} of {}", qh.len() + ql.len(), cap);
                        waits = Some((w.clone(), w.get()));
                    }
                    SendResult::Disconnect => return Err("try_send reports a closed queue".into()),
                }
            }
            7 if step % 2 == 0 => {
                if let Some(t) = &other {
                    if t.try_send(1 << 40 | n).is_ok() {
                        ql.push_back(1 << 40 | n);
                        n += 1;
                    }
                }
            }
            _ => {
                let k = c.rng.range(1, 6);
                for _ in 0..k {
                    let got = match rx.try_next() {
                        Ok(Some((p, x))) => Some((p.is_high(), x)),
                        _ => None,
                    };
                    let want = qh.pop_front().map(|x| (true, x)).or_else(|| ql.pop_front().map(|x| (false, x)));
                    ensure!(got == want, "the receiver got {:?}, expected {:?}", got, want);
                    if got.is_none() {
                        break;
                    }
                    c.note(format!("received {:?}", got));
                }
                if qh.len() + ql.len() <= cap {
                    if let Some((w, k)) = waits.take() {
                        ensure!(w.get() > k, "messages wait and room does not wake the sender");
                    }
                }
            }
        }
    }
    c.nontrivial = n > cap as u64;
    let wk = noop();
    let mut rounds = 0;
    while !(hi.is_empty() && lo.is_empty() && qh.is_empty() && ql.is_empty()) {
        rounds += 1;
        ensure!(rounds < 5000, "{} messages are never passed on", hi.len() + lo.len());
        let before = b.len();
        b.try_send(&mut Context::from_waker(&wk));
        let k = before.checked_sub(b.len()).ok_or("try_send added messages")?;
        for _ in 0..k {
            match hi.pop_front() {
                Some(x) => qh.push_back(x),
                None => ql.push_back(lo.pop_front().unwrap()),
            }
        }
        while let Ok(Some((p, x))) = rx.try_next() {
            let want = qh.pop_front().map(|x| (true, x)).or_else(|| ql.pop_front().map(|x| (false, x)));
            ensure!(Some((p.is_high(), x)) == want, "the receiver got {}, expected {:?}", x, want);
        }
        ensure!(qh.is_empty() && ql.is_empty(), "messages passed on are not received");
    }
    ensure!(rx.try_next().is_err(), "an extra message is received");
    drop(rx);
    b.push_high(1);
    ensure!(matches!(b.try_send(&mut Context::from_waker(&wk)), SendResult::Disconnect), "a closed queue is not noticed");
    Ok(())
}
fn plain(c: &mut Case) -> Res {
    let cap = *c.rng.pick(&[0usize, 1, 2, 3, 7]);
    let (tx, mut rx) = fut::channel::<u64>(cap);
    let mut b = Buffer::new(tx);
    c.note(format!("plain buffer, capacity {}", cap));
    let (mut w8, mut q): (VecDeque<u64>, VecDeque<u64>) = Default::default();
    let mut n = 0u64;
    let mut waits: Option<(Arc<Count>, usize)> = None;
    for _ in 0..c.rng.range(10, 120) {
        match c.rng.below(12) {
            0..=3 => {
                let burst = if c.rng.chance(1, 20) { 300 } else { c.rng.range(1, 4) };
                for _ in 0..burst {
                    b.push(n);
                    w8.push_back(n);
                    n += 1;
                }
                c.note(format!("pushed {}", burst));
                ensure!(b.len() == w8.len(), "{} messages wait, the buffer says {}", w8.len(), b.len());
            }
            4..=6 => {
                let w = Count::new();
                let wk = waker(&w);
                let before = b.len();
                let r = b.try_send(&mut Context::from_waker(&wk));
                let k = before.checked_sub(b.len()).ok_or("try_send added messages")?;
                c.note(format!("passed on {}", k));
                for _ in 0..k {
                    q.push_back(w8.pop_front().unwrap());
                }
                match r {
                    SendResult::Ok => {
                        ensure!(b.is_empty(), "try_send reports success with {} waiting", b.len());
                        waits = None;
                    }
                    SendResult::Pending => {
                        ensure!(!b.is_empty(), "try_send reports a full queue with nothing waiting");
                        ensure!(q.len() > cap, "try_send reports a full queue with {} of {}", q.len(), cap);
                        waits = Some((w.clone(), w.get()));
                    }
                    SendResult::Disconnect => return Err("try_send reports a closed queue".into()),
                }
            }
            7 => {
                // hand the waiting messages to a new buffer
                let (t, v) = b.take();
                ensure!(v.iter().eq(w8.iter()), "the waiting messages are {:?}, taken {:?}", w8, v);
                ensure!(b.is_empty(), "messages both taken and waiting");
                let mut nb = Buffer::new(t);
                for x in v {
                    nb.push(x);
                }
                // the slot of the first sender stays used until it is dropped
                b = nb;
                waits = None;
                c.note("taken");
                let wk = noop();
                // a new sender has its own slot
                let before = b.len();
                b.try_send(&mut Context::from_waker(&wk));
                for _ in 0..before.saturating_sub(b.len()) {
                    q.push_back(w8.pop_front().unwrap());
                }
            }
            _ => {
                let k = c.rng.range(1, 6);
                for _ in 0..k {
                    let got = rx.try_next().ok().and_then(|x| x);
                    let want = q.pop_front();
                    ensure!(got == want, "the receiver got {:?}, expected {:?}", got, want);
                    if got.is_none() {
                        break;
                    }
                    c.note(format!("received {:?}", got));
                }
                if q.len() <= cap {
                    if let Some((w, k)) = waits.take() {
                        ensure!(w.get() > k, "messages wait and room does not wake the sender");
                    }
                }
            }
        }
    }
    c.nontrivial = n > cap as u64;
    let wk = noop();
    let mut rounds = 0;
    while !(w8.is_empty() && q.is_empty()) {
        rounds += 1;
        ensure!(rounds < 5000, "{} messages are never passed on", w8.len());
        let before = b.len();
        b.try_send(&mut Context::from_waker(&wk));
        let k = before.checked_sub(b.len()).ok_or("try_send added messages")?;
        for _ in 0..k {
            q.push_back(w8.pop_front().unwrap());
        }
        while let Ok(Some(x)) = rx.try_next() {
            let want = q.pop_front();
            ensure!(Some(x) == want, "the receiver got {}, expected {:?}", x, want);
        }
        ensure!(q.is_empty(), "messages passed on are not received");
    }
    drop(rx);
    b.push(1);
    ensure!(matches!(b.try_send(&mut Context::from_waker(&wk)), SendResult::Disconnect), "a closed queue is not noticed");
    Ok(())
}
