//! C22, C23: protocol streams
use crate::base::rt;
use crate::net::{self, check_frames};
use crate::util::*;
use bytes::{Bytes, BytesMut};
use futures::{Stream, StreamExt};
use hx::{ensure, Case, Res};
use std::collections::{BTreeMap, VecDeque};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use tentacle::builder::{MetaBuilder, ServiceBuilder};
use tentacle::context::{ProtocolContext, ProtocolContextMutRef, ServiceContext, SessionContext};
use tentacle::service::verif_hooks as sv;
use tentacle::service::{BlockingFlag, ProtocolEvent, ProtocolHandle, ProtocolMeta, Service, ServiceControl, SessionType, TargetSession};
use tentacle::traits::{ProtocolSpawn, ServiceHandle, ServiceProtocol, SessionProtocol};
use tentacle::verif_hooks as vh;
use tentacle::yamux::{Config, Session, StreamHandle};
use tentacle::SubstreamReadPart;
use tokio::io::{AsyncRead, AsyncWrite};

fn yamux_pair(c: &mut Case, window: u32, room: usize) -> Result<(Session<End>, Session<End>, StreamHandle, StreamHandle), String> {
    let cfg = Config { enable_keepalive: false, max_stream_window_size: window, ..Config::default() };
    let chunk = *c.rng.pick(&[7usize, 500, 100_000]);
    let (a, b) = pair(&mut c.rng, room, chunk, 0);
    let mut ca = Session::new_client(a, cfg);
    let mut sb = Session::new_server(b, cfg);
    let wk = noop();
    let mut cx = Context::from_waker(&wk);
    let h = ca.open_stream().map_err(|e| format!("{:?}", e))?;
    for _ in 0..1000 {
        let _ = Pin::new(&mut ca).poll_next(&mut cx);
        if let Poll::Ready(Some(Ok(x))) = Pin::new(&mut sb).poll_next(&mut cx) {
            return Ok((ca, sb, h, x));
        }
    }
    Err("the stream pair does not open".into())
}
fn pump(s: &mut Session<End>, cx: &mut Context) {
    for _ in 0..50 {
        if let Poll::Pending = Pin::new(&mut *s).poll_next(cx) {
            break;
        }
    }
}

/// the sending side of one protocol stream over a transport that stalls
pub fn sending(c: &mut Case) -> Res {
    match c.rng.below(40) {
        #[cfg(feature = "hs")]
        1..=8 => return crate::svc::messages(c),
        _ => {}
    }
    let mut rt = rt();
    let r = rt.enter(|| sending_in(c));
    drop(rt);
    r
}
fn sending_in(c: &mut Case) -> Res {
    let window = *c.rng.pick(&[2048u32, 9000, 262_144]);
    let room = *c.rng.pick(&[100usize, 3000, 100_000]);
    let split = c.rng.chance(1, 2);
    let (mut ca, mut sb, h, mut peer) = yamux_pair(c, window, room)?;
    let mut sub = vh::Sub::new(h, split, 100_000, 1 << 30, 1 << 30);
    c.note(format!("window {} room {} split {}", window, room, split));
    let wk = noop();
    let mut cx = Context::from_waker(&wk);
    // (high, data) in sending order
    let mut sent: Vec<(bool, Vec<u8>)> = vec![];
    let mut total = 0usize;
    // moments at which everything queued is in the stream's hands: (messages queued, pending bytes)
    let mut marks: Vec<(usize, usize)> = vec![];
    let mut got: Vec<u8> = vec![];
    let big = c.rng.chance(1, 2);
    let steps = c.rng.range(5, 60);
    let mut step = 0;
    let mut tail = 0;
    loop {
        let last = step >= steps;
        step += 1;
        if !last {
            for _ in 0..c.rng.below(5) {
                let high = c.rng.chance(2, 5);
                let n = if big { c.rng.range(500, 6000) } else { c.rng.range(4, 200) } as usize;
                let mut d = c.rng.bytes(n);
                d[..4].copy_from_slice(&(sent.len() as u32).to_be_bytes());
                if sub.queue(high, Bytes::from(d.clone())) {
                    total += n;
                    c.note(format!("queued {} high {} size {}", sent.len(), high, n));
                    sent.push((high, d));
                }
            }
        }
        if last || c.rng.chance(2, 3) {
            let mut settled = false;
            for _ in 0..20_000 {
                match sub.poll(&mut cx) {
                    Poll::Pending => {
                        settled = true;
                        break;
                    }
                    Poll::Ready(None) => return Err("the stream ended while it should send".into()),
                    Poll::Ready(Some(())) => {}
                }
            }
            ensure!(settled, "the stream never becomes idle");
            let p = sub.ctx.pending_data_size();
            ensure!(p <= total, "{} bytes were queued, {} are pending", total, p);
            marks.push((sent.len(), p));
            c.note(format!("polled: {} of {} bytes pending", p, total));
        }
        if last || c.rng.chance(1, 2) {
            pump(&mut ca, &mut cx);
        }
        if last || c.rng.chance(1, 2) {
            pump(&mut sb, &mut cx);
        }
        if last || c.rng.chance(1, 2) {
            let mut b = vec![0u8; *c.rng.pick(&[1usize, 100, 5000])];
            for _ in 0..if last { 200 } else { 3 } {
                match Pin::new(&mut peer).poll_read(&mut cx, &mut b) {
                    Poll::Ready(Ok(n)) => {
                        ensure!(n > 0, "the peer reads the end of the stream");
                        got.extend_from_slice(&b[..n]);
                        tail = 0;
                    }
                    Poll::Ready(Err(e)) => return Err(format!("the peer reads {:?}", e)),
                    Poll::Pending => break,
                }
            }
        }
        if last {
            tail += 1;
            if got.len() >= total + 4 * sent.len() && tail > 20 {
                break;
            }
            ensure!(tail < 3000, "{} of {} bytes reached the wire", got.len(), total + 4 * sent.len());
        }
    }
    c.nontrivial = sent.len() > 3;
    let order = check_frames(&got, &sent)?;
    ensure!(sub.ctx.pending_data_size() == 0, "everything was sent and {} bytes are pending", sub.ctx.pending_data_size());
    // what was handed over at each mark
    for (queued, pend) in marks {
        let q: usize = sent[..queued].iter().map(|x| x.1.len()).sum();
        let handed = q.checked_sub(pend).ok_or_else(|| format!("{} bytes queued, {} pending", q, pend))?;
        let mut k = 0;
        let mut n = 0;
        while n < handed && k < order.len() {
            n += sent[order[k]].1.len();
            k += 1;
        }
        ensure!(n == handed, "{} bytes left the pending count, which is no whole number of messages", handed);
        let wait: Vec<usize> = order[k..].iter().cloned().filter(|i| *i < queued).collect();
        let normal = wait.iter().position(|i| !sent[*i].0).unwrap_or_else(|| wait.len());
        ensure!(wait[normal..].iter().all(|i| !sent[*i].0), "a waiting high-priority message was sent after a waiting normal one");
    }
    Ok(())
}
/// bytes read ahead during negotiation
pub fn leftover(c: &mut Case) -> Res {
    if c.rng.0 < 24 || c.rng.chance(1, 20) {
        return net::leftover(c);
    }
    let mut rt = rt();
    let r = rt.enter(|| leftover_in(c));
    drop(rt);
    r
}
fn leftover_in(c: &mut Case) -> Res {
    let (mut ca, mut sb, mut h, peer) = yamux_pair(c, 262_144, 100_000)?;
    let n = *c.rng.pick(&[0usize, 1, 2, 15, 16, 17, 100, 5000]);
    let left = c.rng.bytes(n);
    let m = c.rng.below(300) as usize;
    let later = c.rng.bytes(m);
    let mut buf = BytesMut::with_capacity(n + *c.rng.pick(&[0usize, 10, 1000]));
    buf.extend_from_slice(&left);
    let (mut r, _w) = vh::patched(peer, buf);
    c.note(format!("{} bytes read ahead, {} later", n, m));
    c.nontrivial = n > 0;
    let wk = noop();
    let mut cx = Context::from_waker(&wk);
    let mut want = left;
    let mut got: Vec<u8> = vec![];
    let mut sent = 0;
    let mut idle = 0;
    want.extend_from_slice(&later);
    while got.len() < want.len() {
        if sent < later.len() && c.rng.chance(1, 2) {
            let k = (sent + c.rng.range(1, 50) as usize).min(later.len());
            match Pin::new(&mut h).poll_write(&mut cx, &later[sent..k]) {
                Poll::Ready(Ok(x)) => sent += x,
                Poll::Ready(Err(e)) => return Err(format!("{:?}", e)),
                Poll::Pending => {}
            }
        }
        pump(&mut ca, &mut cx);
        pump(&mut sb, &mut cx);
        let size = match c.rng.below(8) {
            0 => 0,
            1 => 1,
            2 => want.len(),
            3 => 10_000,
            _ => c.rng.range(1, 40) as usize,
        };
        let mut b = vec![0xaau8; size + 8];
        match Pin::new(&mut r).poll_read(&mut cx, &mut b[..size]) {
            Poll::Ready(Ok(k)) => {
                ensure!(k <= size, "a read of {} bytes returned {}", size, k);
                ensure!(k > 0 || size == 0, "end of stream before all bytes are read");
                c.note(format!("read {} of {}", k, size));
                got.extend_from_slice(&b[..k]);
                ensure!(want.starts_with(&got), "read {:?}, expected {:?}", got, want);
                idle = 0;
            }
            Poll::Ready(Err(e)) => return Err(format!("reading fails: {:?}", e)),
            Poll::Pending => {
                idle += 1;
                ensure!(idle < 2000, "{} of {} bytes are read", got.len(), want.len());
            }
        }
    }
    ensure!(got == want, "bytes differ");
    Ok(())
}

