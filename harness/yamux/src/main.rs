//! Executes the real tokio-yamux crate against an independent wire codec and reference model.
use bytes::{Bytes, BytesMut};
use futures::Stream;
use hx::{ensure, Case, Res};
use std::collections::{BTreeMap, VecDeque};
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use tokio::io::{AsyncRead, AsyncWrite};
use tokio_util::codec::{Decoder, Encoder};
use tokio_yamux::frame::{Flag, Flags, Frame, FrameCodec, GoAwayCode, Type};
use tokio_yamux::stream::StreamState;
use tokio_yamux::{session::SessionType, Config, Session, StreamHandle};

const SYN: u16 = 1;
const ACK: u16 = 2;
const FIN: u16 = 4;
const RST: u16 = 8;
const DATA: u8 = 0;
const WU: u8 = 1;
const PING: u8 = 2;
const GOAWAY: u8 = 3;

#[derive(Clone, Debug, PartialEq)]
struct WF {
    ver: u8,
    ty: u8,
    flags: u16,
    sid: u32,
    len: u32,
    body: Vec<u8>,
}
impl WF {
    fn data(flags: u16, sid: u32, body: Vec<u8>) -> WF {
        WF { ver: 0, ty: DATA, flags, sid, len: body.len() as u32, body }
    }
    fn ctl(ty: u8, flags: u16, sid: u32, len: u32) -> WF {
        WF { ver: 0, ty, flags, sid, len, body: vec![] }
    }
    fn enc(&self) -> Vec<u8> {
        let mut v = vec![self.ver, self.ty, (self.flags >> 8) as u8, self.flags as u8];
        for x in &[self.sid, self.len] {
            v.extend_from_slice(&[(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, *x as u8]);
        }
        v.extend_from_slice(&self.body);
        v
    }
    fn brief(&self) -> String {
        format!("ty{} fl{:x} sid{} len{}", self.ty, self.flags, self.sid, self.len)
    }
}
fn be(b: &[u8]) -> u32 {
    b.iter().fold(0u32, |a, x| (a << 8) | *x as u32)
}
fn parse(buf: &[u8]) -> Option<(WF, usize)> {
    if buf.len() < 12 {
        return None;
    }
    let mut w = WF { ver: buf[0], ty: buf[1], flags: be(&buf[2..4]) as u16, sid: be(&buf[4..8]), len: be(&buf[8..12]), body: vec![] };
    let mut n = 12;
    if w.ty == DATA {
        if buf.len() < 12 + w.len as usize {
            return None;
        }
        w.body = buf[12..12 + w.len as usize].to_vec();
        n += w.len as usize;
    }
    Some((w, n))
}

// ---------------------------------------------------------------- C01 / C02: the codec alone
fn ty_code(t: Type) -> u8 {
    match t {
        Type::Data => 0,
        Type::WindowUpdate => 1,
        Type::Ping => 2,
        Type::GoAway => 3,
    }
}
fn mk_flags(v: u16) -> Flags {
    let mut f = Flags::default();
    for (b, x) in &[(1, Flag::Syn), (2, Flag::Ack), (4, Flag::Fin), (8, Flag::Rst)] {
        if v & b != 0 {
            f.add(*x);
        }
    }
    f
}
fn rand_frame(c: &mut Case, max: u32) -> WF {
    let r = &mut c.rng;
    let fl = r.below(16) as u16;
    let sid = match r.below(4) {
        0 => 0,
        1 => u32::max_value(),
        _ => r.next() as u32,
    };
    match r.below(4) {
        0 | 1 => {
            let n = match r.below(5) {
                0 => 0,
                1 => 1,
                2 => max.min(300) as u64,
                _ => r.below(64.min(max as u64 + 1)),
            };
            let b = r.bytes(n as usize);
            WF::data(fl, sid, b)
        }
        2 => {
            let v = r.edge(u32::max_value() as u64) as u32;
            if r.chance(1, 2) { WF::ctl(WU, fl, sid, v) } else { WF::ctl(PING, fl, 0, v) }
        }
        _ => WF::ctl(GOAWAY, 0, 0, r.below(3) as u32),
    }
}
fn check_frame(f: Frame, w: &WF) -> Res {
    ensure!(ty_code(f.ty()) == w.ty, "type {:?} instead of {}", f.ty(), w.brief());
    ensure!(f.flags().value() == w.flags, "flags {:x} instead of {}", f.flags().value(), w.brief());
    for (b, x) in &[(1, Flag::Syn), (2, Flag::Ack), (4, Flag::Fin), (8, Flag::Rst)] {
        ensure!(f.flags().contains(*x) == (w.flags & b != 0), "flag test {:?} wrong on {:x}", x, w.flags);
    }
    ensure!(f.stream_id() == w.sid, "stream id {} instead of {}", f.stream_id(), w.brief());
    ensure!(f.length() == w.len, "length {} instead of {}", f.length(), w.brief());
    ensure!(f.size() == w.enc().len(), "size {} instead of {}", f.size(), w.enc().len());
    let (_, b) = f.into_parts();
    match b {
        Some(b) => ensure!(w.ty == DATA && b[..] == w.body[..], "body differs for {}", w.brief()),
        None => ensure!(w.ty != DATA, "no body for {}", w.brief()),
    }
    Ok(())
}
fn c01(c: &mut Case) -> Res {
    let max = *c.rng.pick(&[0u32, 1, 16, 300, 262144]);
    let n = c.rng.range(1, 6);
    let mut ws = vec![];
    let mut out = BytesMut::new();
    let mut enc = FrameCodec::default().max_frame_size(max);
    let mut want = vec![];
    for _ in 0..n {
        let w = rand_frame(c, max);
        if w.body.len() as u32 > max {
            continue;
        }
        c.note(w.brief());
        let f = match w.ty {
            DATA => Frame::new_data(mk_flags(w.flags), w.sid, Bytes::from(w.body.clone())),
            WU => Frame::new_window_update(mk_flags(w.flags), w.sid, w.len),
            PING => Frame::new_ping(mk_flags(w.flags), w.len),
            _ => Frame::new_go_away(match w.len { 0 => GoAwayCode::Normal, 1 => GoAwayCode::ProtocolError, _ => GoAwayCode::InternalError }),
        };
        enc.encode(f, &mut out).map_err(|e| format!("encode failed {}", e))?;
        want.extend_from_slice(&w.enc());
        ensure!(out[..] == want[..], "wire image differs after {}", w.brief());
        ws.push(w);
    }
    // decode under random chunking, plus frames with arbitrary flag bits
    let mut bytes = out.to_vec();
    for _ in 0..c.rng.below(3) {
        let mut w = rand_frame(c, max);
        if w.body.len() as u32 > max {
            continue;
        }
        w.flags = c.rng.next() as u16;
        if w.ty >= PING { w.sid = c.rng.next() as u32; w.len = c.rng.next() as u32; }
        bytes.extend_from_slice(&w.enc());
        ws.push(w);
    }
    let mut dec = FrameCodec::default().max_frame_size(max);
    let mut src = BytesMut::new();
    let mut got = 0;
    let (mut pos, mut fed) = (0usize, 0usize);
    let ends: Vec<usize> = ws.iter().scan(0, |a, w| { *a += w.enc().len(); Some(*a) }).collect();
    let style = c.rng.below(3);
    while pos < bytes.len() {
        let k = match style { 0 => 1, 1 => c.rng.range(1, 13) as usize, _ => c.rng.range(1, 400) as usize }.min(bytes.len() - pos);
        src.extend_from_slice(&bytes[pos..pos + k]);
        pos += k;
        fed += k;
        loop {
            match dec.decode(&mut src).map_err(|e| format!("frame {} refused: {}", got, e))? {
                Some(f) => {
                    ensure!(got < ws.len(), "more frames than were sent");
                    ensure!(ends[got] <= fed, "frame {} produced before its last byte", got);
                    check_frame(f, &ws[got])?;
                    got += 1;
                }
                None => break,
            }
        }
        let complete = ends.iter().filter(|e| **e <= fed).count();
        ensure!(got == complete, "{} frames complete, {} decoded", complete, got);
    }
    ensure!(src.is_empty(), "bytes left over");
    c.nontrivial = ws.len() > 1;
    c.note(format!("max {} style {}", max, style));
    Ok(())
}
fn c02(c: &mut Case) -> Res {
    let max = *c.rng.pick(&[0u32, 1, 16, 300, 262144, u32::max_value()]);
    let mut codec = FrameCodec::default().max_frame_size(max);
    let mut h = c.rng.bytes(12);
    if c.rng.chance(3, 4) { h[0] = 0; }
    if c.rng.chance(3, 4) { h[1] = c.rng.below(5) as u8; }
    match c.rng.below(5) {
        0 => { for i in 8..12 { h[i] = 0; } h[11] = c.rng.below(40) as u8; }
        1 => h[8..12].copy_from_slice(&max.to_be_bytes()),
        2 => h[8..12].copy_from_slice(&max.wrapping_add(1).to_be_bytes()),
        3 => h[8..12].copy_from_slice(&u32::max_value().to_be_bytes()),
        _ => {}
    }
    let len = be(&h[8..12]);
    let bad = h[0] != 0 || h[1] > 3 || (h[1] == 0 && len > max);
    let extra = c.rng.below(60) as usize;
    let tail = c.rng.bytes(extra);
    c.note(format!("max {} header {:x?} tail {}", max, h, extra));
    c.nontrivial = true;
    let mut src = BytesMut::new();
    let cut = c.rng.below(13) as usize;
    src.extend_from_slice(&h[..cut]);
    if cut < 12 {
        let r = codec.decode(&mut src);
        ensure!(matches!(r, Ok(None)), "incomplete header gave {:?}", r);
    }
    src.extend_from_slice(&h[cut..]);
    if c.rng.chance(1, 2) || !bad {
        src.extend_from_slice(&tail);
    }
    let r = codec.decode(&mut src);
    if bad {
        ensure!(r.is_err(), "bad header accepted: {:?}", r);
        return Ok(());
    }
    match r {
        Err(e) => Err(format!("good header refused: {}", e)),
        Ok(Some(f)) => {
            let w = parse(&[&h[..], &tail[..]].concat());
            ensure!(w.is_some(), "frame delivered before its body arrived");
            check_frame(f, &w.unwrap().0)
        }
        Ok(None) => {
            ensure!(h[1] == 0 && (len as usize) > tail.len(), "complete frame not delivered");
            // feed the rest if that is affordable
            if len < 4096 {
                src.extend_from_slice(&vec![7u8; len as usize - tail.len()]);
                let mut full = tail.clone();
                full.resize(len as usize, 7);
                match codec.decode(&mut src) {
                    Ok(Some(f)) => check_frame(f, &WF { ver: 0, ty: 0, flags: be(&h[2..4]) as u16, sid: be(&h[4..8]), len, body: full })?,
                    r => return Err(format!("completed frame gave {:?}", r)),
                }
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- session simulator
struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
fn counter() -> (Arc<Count>, Waker) {
    let c = Arc::new(Count(AtomicUsize::new(0)));
    (c.clone(), Waker::from(c))
}
#[derive(Default)]
struct Io {
    inb: VecDeque<u8>,
    eof: bool,
    out: Vec<u8>,
    budget: Option<usize>,
    chunk: usize,
    rw: Option<Waker>,
    ww: Option<Waker>,
}
#[derive(Clone)]
struct Mock(Arc<Mutex<Io>>);
impl AsyncRead for Mock {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut g = self.0.lock().unwrap();
        if g.inb.is_empty() {
            if g.eof {
                return Poll::Ready(Ok(0));
            }
            g.rw = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = g.chunk.max(1).min(buf.len()).min(g.inb.len());
        for b in buf[..n].iter_mut() {
            *b = g.inb.pop_front().unwrap();
        }
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Mock {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut g = self.0.lock().unwrap();
        let n = match g.budget {
            None => buf.len(),
            Some(b) => b.min(buf.len()),
        };
        if n == 0 && !buf.is_empty() {
            g.ww = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if let Some(b) = g.budget.as_mut() {
            *b -= n;
        }
        g.out.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

struct St {
    h: Option<StreamHandle>,
    local: bool,
    handed: bool, // the application has (had) the handle
    // peer -> us
    sent: Vec<u8>,     // data bodies the peer sent
    consumed: usize,   // bytes the application read
    credit_in: u64,    // credit carried by window updates the peer sent
    peer_fin: bool,
    peer_rst: bool,
    peer_acked: bool,
    // us -> peer
    written: Vec<u8>,
    wire: Vec<u8>,
    announced: u64,
    first: bool,
    acks: usize,
    fin_out: usize,
    rst_out: usize,
    // application side
    shut: bool,
    dropped: bool,
    broken: bool, // hostile input was sent for this stream: reads may fail from now on
    eof_seen: bool,
    wwake: Option<(Arc<Count>, usize)>,
    unsynced: usize,
    synced: bool, // every peer frame has been seen by the handle
}
impl St {
    fn new(local: bool) -> St {
        St {
            h: None, local, handed: false, sent: vec![], consumed: 0, credit_in: 0, peer_fin: false, peer_rst: false, peer_acked: false, written: vec![],
            wire: vec![], announced: 0, first: true, acks: 0, fin_out: 0, rst_out: 0, shut: false, dropped: false, broken: false, eof_seen: false,
            wwake: None, synced: true, unsynced: 0,
        }
    }
}
struct Sim<'a> {
    p: &'a str,
    c: &'a mut Case,
    s: Session<Mock>,
    io: Arc<Mutex<Io>>,
    w0: u32,
    client: bool,
    st: BTreeMap<u32, St>,
    obuf: Vec<u8>,
    next_peer: u32,
    last_local: u32,
    over: bool, // session stream ended
    err: Option<String>,
    goaways: usize,
    pongs: VecDeque<u32>,
    refused: Vec<u32>,     // resets seen for ids we do not know as live
    local_away: bool,
    hostile_session: bool, // a protocol violation was sent: go-away and the end of the session are fine
    cnt: Arc<Count>,
    wk: Waker,
}
impl<'a> Sim<'a> {
    fn new(p: &'a str, c: &'a mut Case, max_streams: usize, backlog: usize) -> Sim<'a> {
        let w0 = *c.rng.pick(&[1u32, 2, 16, 64, 1000, 4096, 262144]);
        let client = c.rng.chance(1, 2);
        let io = Arc::new(Mutex::new(Io::default()));
        io.lock().unwrap().chunk = *c.rng.pick(&[1usize, 5, 12, 100, 100000]);
        let cfg = Config { accept_backlog: backlog, enable_keepalive: false, max_stream_count: max_streams, max_stream_window_size: w0, ..Config::default() };
        let s = if client { Session::new_client(Mock(io.clone()), cfg) } else { Session::new_server(Mock(io.clone()), cfg) };
        let (cnt, wk) = counter();
        c.note(format!("session client={} window={}", client, w0));
        Sim {
            p, c, s, io, w0, client, st: BTreeMap::new(), obuf: vec![], next_peer: if client { 2 } else { 1 }, last_local: 0, over: false, err: None, goaways: 0,
            pongs: VecDeque::new(), refused: vec![], local_away: false, hostile_session: false, cnt, wk,
        }
    }
    fn is(&self, ids: &[&str]) -> bool {
        ids.contains(&self.p)
    }
    fn feed(&mut self, w: &WF) {
        self.c.note(format!("peer> {}", w.brief()));
        let mut g = self.io.lock().unwrap();
        g.inb.extend(w.enc());
        if let Some(w) = g.rw.take() {
            w.wake();
        }
    }
    fn send_stream(&mut self, w: WF) {
        if let Some(t) = self.st.get_mut(&w.sid) {
            t.synced = false;
            t.unsynced += 1;
            if w.ty == DATA {
                t.sent.extend_from_slice(&w.body);
            } else {
                t.credit_in += w.len as u64;
            }
            if w.flags & FIN != 0 { t.peer_fin = true; }
            if w.flags & RST != 0 { t.peer_rst = true; }
        }
        self.feed(&w);
    }
    /// poll the session until it has nothing more to do
    fn pump(&mut self) -> Res {
        let mut idle = 0;
        let mut guard = 0;
        while idle < 2 {
            guard += 1;
            ensure!(guard < 20000, "session never becomes idle");
            if self.over {
                break;
            }
            let before = self.cnt.0.load(Ordering::SeqCst);
            let inlen = self.io.lock().unwrap().inb.len();
            let wk = self.wk.clone();
            let mut cx = Context::from_waker(&wk);
            match Pin::new(&mut self.s).poll_next(&mut cx) {
                Poll::Pending => {
                    let after = self.cnt.0.load(Ordering::SeqCst);
                    let out = self.collect()?;
                    if after == before && !out && inlen == self.io.lock().unwrap().inb.len() { idle += 1 } else { idle = 0 }
                }
                Poll::Ready(None) => {
                    self.over = true;
                    self.c.note("session ended");
                }
                Poll::Ready(Some(Err(e))) => {
                    self.err = Some(e.to_string());
                    self.over = true;
                    self.c.note(format!("session error {}", e));
                }
                Poll::Ready(Some(Ok(h))) => {
                    idle = 0;
                    let id = h.id();
                    self.c.note(format!("accepted {}", id));
                    match self.st.get_mut(&id) {
                        Some(t) => {
                            if self.p == "C08" || self.p == "C09" || self.p == "C07" {
                                ensure!(!t.local && !t.handed, "stream {} handed out twice", id);
                            }
                            t.handed = true;
                            t.h = Some(h);
                        }
                        None => ensure!(!self.p.starts_with('C') || false, "a stream {} nobody opened was accepted", id),
                    }
                }
            }
        }
        self.collect()?;
        Ok(())
    }
    fn collect(&mut self) -> Result<bool, String> {
        let o = std::mem::replace(&mut self.io.lock().unwrap().out, vec![]);
        let any = !o.is_empty();
        self.obuf.extend_from_slice(&o);
        while let Some((w, n)) = parse(&self.obuf) {
            self.obuf.drain(..n);
            self.on_wire(w)?;
        }
        Ok(any)
    }
    fn on_wire(&mut self, w: WF) -> Res {
        self.c.note(format!("wire< {}", w.brief()));
        let p = self.p.to_string();
        let is = |ids: &[&str]| ids.contains(&&p[..]);
        ensure!(w.ver == 0 && w.ty <= 3, "malformed frame on the wire: {}", w.brief());
        match w.ty {
            PING => {
                if is(&["C10"]) {
                    ensure!(w.flags == ACK, "unexpected ping frame {}", w.brief());
                    let v = self.pongs.pop_front();
                    ensure!(v == Some(w.len), "ping reply {} but the oldest open request is {:?}", w.len, v);
                }
                return Ok(());
            }
            GOAWAY => {
                self.goaways += 1;
                self.local_away = true;
                if !self.hostile_session {
                    return Err(format!("unexpected go-away {}", w.brief()));
                }
                return Ok(());
            }
            _ => {}
        }
        let w0 = self.w0 as u64;
        let client = self.client;
        let t = match self.st.get_mut(&w.sid) {
            Some(t) => t,
            None => {
                self.refused.push(w.sid);
                if is(&["C08", "C09"]) {
                    ensure!(w.flags & RST != 0 && w.ty == WU && w.len == 0, "frame {} for a stream that does not exist", w.brief());
                }
                return Ok(());
            }
        };
        let _ = client;
        if is(&["C06"]) {
            ensure!((w.flags & SYN != 0) == (t.first && t.local), "open flag wrong on {} (first={} local={})", w.brief(), t.first, t.local);
            if !t.local {
                ensure!((w.flags & ACK != 0) == t.first, "acknowledge flag wrong on {} (first={})", w.brief(), t.first);
            } else {
                if w.flags & ACK != 0 { t.acks += 1; }
                ensure!(t.acks <= 1, "opener acknowledged twice");
            }
            if w.ty == DATA {
                ensure!(t.fin_out == 0 && t.rst_out == 0, "data frame {} after finish/reset", w.brief());
            }
            ensure!(w.flags & !(SYN | ACK | FIN | RST) == 0, "undefined flag bits {}", w.brief());
            if w.flags & FIN != 0 { ensure!(t.shut || t.peer_fin || t.peer_rst || t.dropped, "finish sent without shutdown: {}", w.brief()); }
            if w.flags & RST != 0 { ensure!(t.dropped || self.local_away, "reset sent without drop: {}", w.brief()); }
        }
        t.first = false;
        if w.flags & FIN != 0 { t.fin_out += 1; }
        if w.flags & RST != 0 { t.rst_out += 1; }
        if w.ty == DATA {
            t.wire.extend_from_slice(&w.body);
            if is(&["C03"]) {
                ensure!(t.wire.len() as u64 <= w0 + t.credit_in, "stream {} put {} bytes on the wire, granted {}", w.sid, t.wire.len(), w0 + t.credit_in);
            }
            if is(&["C03", "C05", "C08"]) {
                ensure!(t.written.starts_with(&t.wire), "stream {}: bytes on the wire are not the bytes written", w.sid);
            }
        } else {
            t.announced += w.len as u64;
            if is(&["C04"]) {
                ensure!(t.announced <= t.consumed as u64, "stream {} announced {} but consumed {}", w.sid, t.announced, t.consumed);
            }
        }
        Ok(())
    }
    fn budget_free(&self) -> bool {
        self.io.lock().unwrap().budget.is_none()
    }
    fn read(&mut self, id: u32, n: usize) -> Result<Option<usize>, String> {
        let p = self.p.to_string();
        let is = |ids: &[&str]| ids.contains(&&p[..]);
        let wk = self.wk.clone();
        let mut cx = Context::from_waker(&wk);
        let over = self.over;
        let hostile = self.hostile_session;
        let t = self.st.get_mut(&id).unwrap();
        let h = match t.h.as_mut() {
            Some(h) => h,
            None => return Ok(None),
        };
        let mut buf = vec![0xAAu8; n];
        let r = Pin::new(h).poll_read(&mut cx, &mut buf);
        let chk = !t.shut && !t.broken;
        match r {
            Poll::Ready(Ok(k)) => {
                self.c.note(format!("read {} buf {} -> {}", id, n, k));
                if is(&["C05", "C08", "C04"]) && !t.shut {
                    ensure!(k <= n && k > 0, "read of {} returned {}", n, k);
                    ensure!(t.consumed + k <= t.sent.len(), "read more than was sent");
                    ensure!(buf[..k] == t.sent[t.consumed..t.consumed + k], "stream {}: read bytes differ from sent bytes at {}", id, t.consumed);
                    ensure!(buf[k..].iter().all(|b| *b == 0xAA), "read touched the buffer beyond its result");
                }
                t.consumed += k;
                Ok(Some(k))
            }
            Poll::Pending => {
                Ok(None)
            }
            Poll::Ready(Err(e)) => {
                self.c.note(format!("read {} -> {:?}", id, e.kind()));
                if chk && is(&["C05"]) {
                    ensure!(t.peer_fin || t.peer_rst || over || hostile, "stream {} read failed with {:?} though nothing ended it", id, e.kind());
                    if e.kind() != io::ErrorKind::InvalidData && !t.eof_seen {
                        ensure!(t.consumed == t.sent.len() || over || hostile, "end of file on stream {} with {} of {} bytes read", id, t.consumed, t.sent.len());
                    }
                }
                t.eof_seen = true;
                Ok(None)
            }
        }
    }
    /// read everything there is on a stream, pumping in between; afterwards the handle has seen every frame
    fn drain(&mut self, id: u32) -> Res {
        if self.st[&id].h.is_none() {
            return self.pump();
        }
        let bs = *self.c.rng.pick(&[1usize, 7, 100, 5000, 300000]);
        let mut quiet = 0;
        let mut guard = 0;
        let rounds = 3 + self.st[&id].unsynced / 4;
        while quiet < rounds {
            guard += 1;
            ensure!(guard < 300000, "drain does not end");
            match self.read(id, bs)? {
                Some(_) => quiet = 0,
                None => {
                    self.pump()?;
                    quiet += 1;
                }
            }
        }
        let over = self.over;
        let free = self.budget_free();
        let p = self.p.to_string();
        let is = |ids: &[&str]| ids.contains(&&p[..]);
        let t = self.st.get_mut(&id).unwrap();
        if !t.shut && !t.broken && !over && is(&["C05", "C08"]) {
            ensure!(t.consumed == t.sent.len(), "stream {}: only {} of {} bytes sent by the peer can be read", id, t.consumed, t.sent.len());
            if t.peer_fin && is(&["C05"]) {
                ensure!(t.eof_seen, "stream {}: peer finished but no end of file is reported", id);
            }
        }
        if is(&["C04"]) && !t.shut && !t.broken && !t.peer_fin && !t.peer_rst && !over && free && !self.local_away {
            let lag = t.consumed as u64 - t.announced;
            ensure!(lag < (self.w0 as u64 / 2).max(1), "stream {}: {} consumed bytes not announced (window {})", id, lag, self.w0);
        }
        t.synced = true;
        t.unsynced = 0;
        if is(&["C03"]) && !t.broken && !over && t.h.is_some() {
            let credit = self.w0 as u64 + t.credit_in - t.written.len() as u64;
            if credit > 0 {
                if let Some((w, at)) = t.wwake.take() {
                    ensure!(w.0.load(Ordering::SeqCst) > at || t.shut || t.peer_fin || t.peer_rst, "stream {}: credit arrived but the blocked writer was not woken", id);
                }
            }
        }
        Ok(())
    }
    fn write(&mut self, id: u32, n: usize) -> Res {
        let data = self.c.rng.bytes(n);
        let (cnt, wk) = counter();
        let mut cx = Context::from_waker(&wk);
        let p = self.p.to_string();
        let is = |ids: &[&str]| ids.contains(&&p[..]);
        let over = self.over;
        let hostile = self.hostile_session;
        let w0 = self.w0 as u64;
        let t = self.st.get_mut(&id).unwrap();
        let h = match t.h.as_mut() {
            Some(h) => h,
            None => return Ok(()),
        };
        let credit = w0 + t.credit_in - t.written.len() as u64;
        let r = Pin::new(h).poll_write(&mut cx, &data);
        let ended = t.shut || (t.peer_fin && t.eof_seen) || (t.peer_rst && t.eof_seen);
        match r {
            Poll::Ready(Ok(k)) => {
                self.c.note(format!("write {} of {} -> {}", id, n, k));
                if is(&["C06"]) {
                    ensure!(!ended, "stream {}: write accepted after shutdown/finish/reset", id);
                }
                if is(&["C03"]) {
                    ensure!(k <= n && k as u64 <= credit, "stream {}: write of {} accepted {} with credit {}", id, n, k, credit);
                    if t.synced && !t.broken {
                        ensure!(k as u64 == credit.min(n as u64), "stream {}: write of {} accepted {} with credit {}", id, n, k, credit);
                        ensure!(credit > 0, "stream {}: write without credit did not wait", id);
                    }
                }
                t.written.extend_from_slice(&data[..k.min(n)]);
            }
            Poll::Pending => {
                self.c.note(format!("write {} of {} -> pending", id, n));
                if is(&["C06"]) {
                    ensure!(!ended, "stream {}: write neither fails nor succeeds after shutdown/finish/reset", id);
                }
                if is(&["C03"]) && t.synced && !t.broken {
                    ensure!(credit == 0, "stream {}: write waits although credit is {}", id, credit);
                }
                let at = cnt.0.load(Ordering::SeqCst);
                t.wwake = Some((cnt, at));
            }
            Poll::Ready(Err(e)) => {
                self.c.note(format!("write {} of {} -> {:?}", id, n, e.kind()));
                if is(&["C03", "C06"]) {
                    ensure!(ended || t.peer_fin || t.peer_rst || t.broken || over || hostile, "stream {}: write failed with {:?} on a live stream", id, e.kind());
                }
            }
        }
        Ok(())
    }
    fn open(&mut self) -> Result<Option<u32>, String> {
        match self.s.open_stream() {
            Ok(h) => {
                let id = h.id();
                self.c.note(format!("open -> {}", id));
                if self.is(&["C07"]) {
                    ensure!(id % 2 == if self.client { 1 } else { 0 }, "stream id {} has the wrong parity", id);
                    ensure!(id > self.last_local, "stream id {} after {}", id, self.last_local);
                    ensure!(id != 0, "stream id 0");
                }
                if self.is(&["C06"]) { ensure!(h.state() == StreamState::SynSent, "new stream in state {:?}", h.state()); }
                self.last_local = id;
                let mut t = St::new(true);
                t.handed = true;
                t.h = Some(h);
                self.st.insert(id, t);
                Ok(Some(id))
            }
            Err(e) => {
                self.c.note(format!("open -> error {:?}", e));
                Ok(None)
            }
        }
    }
    fn drop_stream(&mut self, id: u32) -> Res {
        let over = self.over;
        let t = self.st.get_mut(&id).unwrap();
        if t.h.is_none() {
            return Ok(());
        }
        let state = t.h.as_ref().unwrap().state();
        self.c.note(format!("drop {} in {:?}", id, state));
        t.dropped = true;
        t.synced = true;
        let (rst0, shut) = (t.rst_out, t.shut);
        let clean = state == StreamState::LocalClosing || state == StreamState::Closed;
        t.h = None;
        if over || self.local_away || !self.budget_free() {
            return Ok(());
        }
        self.pump()?;
        let t = self.st.get_mut(&id).unwrap();
        if self.p == "C06" && !self.local_away && !t.broken {
            let want = if clean { 0 } else { 1 };
            ensure!(t.rst_out - rst0 == want, "dropping stream {} in {:?} sent {} resets", id, state, t.rst_out - rst0);
            if !shut && !t.peer_fin && !t.peer_rst {
                ensure!(t.rst_out == 1, "dropping the unfinished stream {} sent {} resets", id, t.rst_out);
            }
            if shut { ensure!(t.rst_out == 0, "dropping the locally finished stream {} sent a reset", id); }
        }
        // nothing more may be expected on this stream
        Ok(())
    }
    fn live(&self) -> Vec<u32> {
        self.st.iter().filter(|(_, t)| t.h.is_some()).map(|(i, _)| *i).collect()
    }
    /// flags for the next peer frame on a locally opened stream (the first one carries ACK)
    fn pflags(&mut self, id: u32) -> u16 {
        let t = self.st.get_mut(&id).unwrap();
        if t.local && !t.peer_acked {
            t.peer_acked = true;
            ACK
        } else {
            0
        }
    }
    fn grant_left(&self, id: u32) -> u64 {
        let t = &self.st[&id];
        self.w0 as u64 + t.announced - t.sent.len() as u64
    }
    fn peer_open(&mut self) -> u32 {
        let id = self.next_peer;
        self.next_peer += 2;
        self.st.insert(id, St::new(false));
        if self.c.rng.chance(1, 3) {
            let n = self.c.rng.below(self.w0 as u64 + 1).min(200) as usize;
            let b = self.c.rng.bytes(n);
            self.send_stream(WF::data(SYN, id, b));
        } else {
            let v = if self.c.rng.chance(1, 2) { 0 } else { self.c.rng.below(100) as u32 };
            self.send_stream(WF::ctl(WU, SYN, id, v));
        }
        id
    }
}

fn general(p: &str, c: &mut Case) -> Res {
    let steps = c.rng.range(10, 120);
    let mut s = Sim::new(p, c, 1000, 256);
    // weights per property
    let slow = s.is(&["C08"]);
    for _ in 0..steps {
        let live = s.live();
        let mut op = s.c.rng.below(100);
        if live.is_empty() && op >= 12 {
            op = s.c.rng.below(12);
        }
        let id = if live.is_empty() { 0 } else { *s.c.rng.pick(&live) };
        match op {
            0..=5 => {
                if s.st.len() < 12 {
                    let r = s.open()?;
                    ensure!(r.is_some() || s.over, "opening a stream failed on a healthy session");
                }
            }
            6..=11 => {
                if s.st.len() < 12 {
                    s.peer_open();
                    if s.c.rng.chance(2, 3) { s.pump()?; }
                }
            }
            12..=31 => {
                // peer data within the grant
                if s.st[&id].peer_fin || s.st[&id].peer_rst { continue; }
                let left = s.grant_left(id);
                let mut n = s.c.rng.edge(left.min(400)) as usize;
                if s.c.rng.chance(1, 10) { n = left.min(300000) as usize; }
                if n == 0 && s.c.rng.chance(3, 4) { continue; }
                let fl = s.pflags(id);
                let b = s.c.rng.bytes(n);
                s.send_stream(WF::data(fl, id, b));
            }
            32..=41 => {
                if s.st[&id].peer_fin || s.st[&id].peer_rst { continue; }
                let t = &s.st[&id];
                // the peer grants at most what keeps our send window representable
                let room = (u32::max_value() as u64).saturating_sub(s.w0 as u64 + t.credit_in);
                let v = if s.c.rng.chance(1, 30) { room } else { s.c.rng.below(500).min(room) };
                let fl = s.pflags(id);
                s.send_stream(WF::ctl(WU, fl, id, v as u32));
            }
            42..=56 => {
                if slow && s.c.rng.chance(2, 3) { continue; }
                let n = *s.c.rng.pick(&[0usize, 1, 3, 50, 4096]);
                s.read(id, n)?;
            }
            57..=70 => {
                let n = match s.c.rng.below(6) { 0 => 0, 1 => 1, 2 => s.w0.min(100000) as usize, 3 => s.w0.min(100000) as usize + 1, _ => s.c.rng.below(300) as usize };
                s.write(id, n)?;
                if s.c.rng.chance(1, 3) { s.pump()?; }
            }
            71..=73 => {
                if s.is(&["C05", "C08", "C10"]) && s.c.rng.chance(1, 2) { continue; }
                let wk = s.wk.clone();
                let mut cx = Context::from_waker(&wk);
                let t = s.st.get_mut(&id).unwrap();
                let before = t.h.as_ref().unwrap().state();
                let r = Pin::new(t.h.as_mut().unwrap()).poll_shutdown(&mut cx);
                s.c.note(format!("shutdown {} in {:?} -> {:?}", id, before, r));
                s.st.get_mut(&id).unwrap().shut = true;
                if s.is(&["C06"]) && s.budget_free() && !s.over && !s.local_away {
                    let f0 = s.st[&id].fin_out;
                    s.pump()?;
                    let t = &s.st[&id];
                    match before {
                        StreamState::SynSent | StreamState::SynReceived | StreamState::Established => ensure!(t.fin_out >= 1 && t.fin_out - f0 <= 1, "shutdown of {} in {:?} sent no finish", id, before),
                        _ => {}
                    }
                }
            }
            74..=75 => s.drop_stream(id)?,
            76..=79 => {
                if s.st[&id].peer_fin || s.st[&id].peer_rst { continue; }
                let fl = s.pflags(id);
                if s.c.rng.chance(1, 2) {
                    let left = s.grant_left(id).min(100);
                    let n = s.c.rng.below(left + 1) as usize;
                    let b = s.c.rng.bytes(n);
                    s.send_stream(WF::data(fl | FIN, id, b));
                } else {
                    s.send_stream(WF::ctl(WU, fl | FIN, id, 0));
                }
            }
            80 => {
                if s.st[&id].peer_fin || s.st[&id].peer_rst { continue; }
                if s.c.rng.chance(1, 2) {
                    let left = s.grant_left(id).min(100);
                    let n = s.c.rng.below(left + 1) as usize;
                    let b = s.c.rng.bytes(n);
                    s.send_stream(WF::data(RST, id, b));
                } else {
                    s.send_stream(WF::ctl(WU, RST, id, 0));
                }
            }
            81..=83 => {
                // unknown stream
                let sid = s.next_peer + 1000 + s.c.rng.below(10) as u32;
                let w = if s.c.rng.chance(1, 2) { let n = (s.w0 as usize).min(5); let b = s.c.rng.bytes(n); WF::data(0, sid, b) } else { WF::ctl(WU, *s.c.rng.pick(&[0, ACK, FIN, RST]), sid, 9) };
                s.feed(&w);
            }
            84..=86 => {
                let v = s.c.rng.edge(u32::max_value() as u64) as u32;
                if s.c.rng.chance(3, 4) {
                    s.pongs.push_back(v);
                    s.feed(&WF::ctl(PING, SYN, 0, v));
                } else {
                    s.feed(&WF::ctl(PING, ACK, 0, v));
                }
            }
            87..=90 => {
                let mut g = s.io.lock().unwrap();
                g.budget = if g.budget.is_some() { None } else { Some(s.c.rng.below(40) as usize) };
                if let Some(w) = g.ww.take() { w.wake(); }
            }
            91..=93 => s.drain(id)?,
            _ => s.pump()?,
        }
        ensure!(s.err.is_none(), "session failed: {:?}", s.err);
        ensure!(!s.over, "session ended although nobody ended it");
    }
    {
        let mut g = s.io.lock().unwrap();
        g.budget = None;
        if let Some(w) = g.ww.take() { w.wake(); }
    }
    s.pump()?;
    for id in s.live() {
        s.drain(id)?;
    }
    for id in s.live() {
        s.drain(id)?;
        if s.is(&["C03"]) { s.write(id, 10)?; s.pump()?; }
    }
    s.pump()?;
    let p = p.to_string();
    let is = |ids: &[&str]| ids.contains(&&p[..]);
    for (id, t) in s.st.iter() {
        if is(&["C03", "C05", "C08"]) && !t.dropped && !t.broken {
            ensure!(t.wire == t.written, "stream {}: {} bytes written, {} reached the wire", id, t.written.len(), t.wire.len());
        }
        if is(&["C08"]) && !t.local {
            ensure!(t.handed, "stream {} opened by the peer was never accepted", id);
        }
        if is(&["C09"]) { ensure!(t.handed, "stream {} refused below the limit", id); }
    }
    if is(&["C10"]) {
        ensure!(s.pongs.is_empty(), "ping requests never answered: {:?}", s.pongs);
    }
    ensure!(s.err.is_none() && !s.over, "session ended: {:?}", s.err);
    s.c.nontrivial = s.st.len() > 0;
    Ok(())
}

/// a peer that overruns the receive window, or overflows the send window
fn hostile(p: &str, c: &mut Case) -> Res {
    let mut s = Sim::new(p, c, 1000, 256);
    s.hostile_session = true;
    let a = s.peer_open();
    s.pump()?;
    let b = s.open()?.unwrap();
    s.pump()?;
    ensure!(s.st[&a].h.is_some(), "stream not accepted");
    let other = b;
    let over_credit = p == "C03" || s.c.rng.chance(1, 8);
    // fill part of the grant legally
    for _ in 0..s.c.rng.below(4) {
        let left = s.grant_left(a);
        let n = s.c.rng.edge(left.min(5000)) as usize;
        let d = s.c.rng.bytes(n);
        s.send_stream(WF::data(0, a, d));
        if s.c.rng.chance(1, 2) { s.drain(a)?; }
    }
    let honest = s.st[&a].sent.len();
    s.c.nontrivial = true;
    if over_credit {
        let t = &s.st[&a];
        let room = u32::max_value() as u64 - (s.w0 as u64 + t.credit_in - t.written.len() as u64);
        let v = (room + 1 + s.c.rng.below(100)).min(u32::max_value() as u64) as u32;
        if (v as u64) <= room { return Ok(()); }
        s.feed(&WF::ctl(WU, 0, a, v));
        s.c.note("overflowing credit");
    } else {
        // one frame above the outstanding credit, sent when every earlier byte has been processed
        s.drain(a)?;
        let left = s.grant_left(a);
        if left >= s.w0 as u64 { return Ok(()); }
        let n = s.c.rng.range(left + 1, s.w0 as u64).min(left + 70000);
        let d = s.c.rng.bytes(n as usize);
        s.feed(&WF::data(0, a, d));
    }
    let honest = honest.max(s.st[&a].sent.len());
    s.st.get_mut(&a).unwrap().broken = true;
    // the application must get the honest bytes at most, then an error
    let mut got_err = false;
    let mut guard = 0;
    while !got_err && guard < 40000 {
        guard += 1;
        s.pump()?;
        let wk = s.wk.clone();
        let mut cx = Context::from_waker(&wk);
        let mut buf = vec![0u8; 777];
        let t = s.st.get_mut(&a).unwrap();
        match Pin::new(t.h.as_mut().unwrap()).poll_read(&mut cx, &mut buf) {
            Poll::Ready(Ok(k)) => {
                ensure!(t.consumed + k <= honest, "overrun data was delivered to the application");
                ensure!(buf[..k] == t.sent[t.consumed..t.consumed + k], "wrong bytes delivered");
                t.consumed += k;
            }
            Poll::Ready(Err(e)) => {
                s.c.note(format!("reader got {:?}", e.kind()));
                got_err = true;
            }
            Poll::Pending => {
                if s.over { break; }
                if guard > 200 { break; }
            }
        }
        if !over_credit && !got_err {
            // reading frees the window, so a late overrun may become legal only if it was announced before it was sent: it was not
        }
    }
    if p == "C04" && !over_credit || p == "C03" && over_credit {
        ensure!(got_err, "peer overran its credit and the application saw no error");
    }
    let _ = other;
    if over_credit {
        let t = &s.st[&a];
        ensure!(t.h.as_ref().unwrap().send_window() as u64 <= s.w0 as u64 + t.credit_in, "send window grew beyond the credit after an overflow");
    }
    Ok(())
}

fn c07(c: &mut Case) -> Res {
    let mut s = Sim::new("C07", c, 100000, 256);
    if s.c.rng.chance(1, 2) {
        // close to the end of the id space
        #[cfg(verif)]
        {
            let back = s.c.rng.below(6) as u32;
            let base = if s.client { u32::max_value() } else { u32::max_value() - 1 };
            s.s.verif_set_next_stream_id(base - 2 * back);
            s.c.note(format!("next id {}", base - 2 * back));
            let mut ok = 0;
            let mut failed = false;
            for _ in 0..10 {
                match s.open()? {
                    Some(_) => { ensure!(!failed, "opening works again after the ids were exhausted"); ok += 1 }
                    None => failed = true,
                }
                if s.c.rng.chance(1, 2) { s.pump()?; }
            }
            ensure!(failed, "ids exhausted but opening never fails");
            ensure!(ok <= back + 1, "more streams than ids");
            ensure!(ok >= back, "opening fails {} ids early", back - ok);
            s.c.nontrivial = true;
            return Ok(());
        }
    }
    for _ in 0..s.c.rng.range(2, 60) {
        match s.c.rng.below(6) {
            0 => { s.peer_open(); }
            1 => s.pump()?,
            2 => { let l = s.live(); if !l.is_empty() { let id = *s.c.rng.pick(&l); s.drop_stream(id)?; } }
            _ => { ensure!(s.open()?.is_some(), "open failed"); }
        }
    }
    s.c.nontrivial = s.last_local > 0;
    Ok(())
}

fn c09(c: &mut Case) -> Res {
    let max = c.rng.below(7) as usize;
    let backlog = if c.rng.chance(1, 6) { 0 } else { c.rng.range(1, 5) as usize };
    c.note(format!("max_stream_count {} backlog {}", max, backlog));
    let away_at = if c.rng.chance(1, 2) { c.rng.range(3, 25) } else { 999 };
    let mut s = Sim::new("C09", c, max, backlog);
    let mut rejected = 0;
    for step in 0..s.c.rng.range(5, 40) {
        if step == away_at {
            let wk = s.wk.clone();
            let mut cx = Context::from_waker(&wk);
            s.hostile_session = true;
            s.s.shutdown(&mut cx).map_err(|e| format!("shutdown failed {}", e))?;
            s.c.note("local go-away");
            s.pump()?;
            ensure!(s.goaways == 1, "go-away sent {} times", s.goaways);
            ensure!(!s.over, "session ended by its own go-away");
        }
        match s.c.rng.below(7) {
            0 | 1 | 2 => {
                let live = s.st.values().filter(|t| t.h.is_some()).count();
                let id = s.next_peer;
                s.next_peer += 2;
                let accept = live < max && backlog > 0 && !s.local_away;
                if accept {
                    s.st.insert(id, St::new(false));
                }
                s.refused.clear();
                let n = s.c.rng.below(2) * s.c.rng.below(s.w0.min(60) as u64 + 1);
                if n > 0 { let b = s.c.rng.bytes(n as usize); s.send_stream(WF::data(SYN, id, b)); } else { s.send_stream(WF::ctl(WU, SYN, id, 0)); }
                s.pump()?;
                if accept {
                    ensure!(s.st[&id].handed, "stream {} refused with {} of {} live", id, live, max);
                } else {
                    rejected += 1;
                    ensure!(s.refused == vec![id], "refused stream {} was answered by resets for {:?}", id, s.refused);
                }
            }
            3 => { if s.st.len() < 30 { let r = s.open()?; ensure!(r.is_some(), "local open failed"); s.pump()?; } }
            4 => { let l = s.live(); if !l.is_empty() { let id = *s.c.rng.pick(&l); s.drop_stream(id)?; s.pump()?; } }
            _ => {
                // traffic on an existing stream keeps working
                let l = s.live();
                if l.is_empty() { continue; }
                let id = *s.c.rng.pick(&l);
                let left = s.grant_left(id).min(50);
                let n = s.c.rng.below(left + 1) as usize;
                let fl = s.pflags(id);
                let b = s.c.rng.bytes(n);
                s.send_stream(WF::data(fl, id, b));
                s.drain(id)?;
                let t = &s.st[&id];
                ensure!(t.consumed == t.sent.len(), "stream {} lost data: {} of {}", id, t.consumed, t.sent.len());
                let w = t.written.len();
                s.write(id, 3)?;
                s.pump()?;
                let t = &s.st[&id];
                ensure!(t.wire.len() == t.written.len() && t.written.len() >= w, "stream {} cannot send any more", id);
            }
        }
        ensure!(s.err.is_none() && !s.over, "session ended: {:?}", s.err);
    }
    if s.c.rng.chance(1, 2) {
        s.hostile_session = true;
        let code = *s.c.rng.pick(&[0u32, 1, 2, 77]);
        s.feed(&WF::ctl(GOAWAY, 0, 0, code));
        let r0 = s.pump();
        r0?;
        ensure!(s.over && s.err.is_none(), "session goes on after the peer's go-away (error {:?})", s.err);
        ensure!(s.s.open_stream().is_err(), "a stream was opened after the peer's go-away");
        ensure!(s.goaways == 1, "{} go-away frames sent", s.goaways);
    }
    s.c.nontrivial = rejected > 0 || s.st.len() > 1;
    Ok(())
}

/// a duplicate open on a blocked stream must not swallow frames of other streams
fn c08_dup(c: &mut Case) -> Res {
    let mut s = Sim::new("C08", c, 100, 50);
    s.w0 = s.w0; // window as drawn
    let a = s.peer_open();
    let b = s.peer_open();
    s.pump()?;
    s.hostile_session = true;
    let w0 = s.w0 as usize;
    let na = s.c.rng.range(9, 30);
    // blocks stream a: the handle reads nothing, its queue is short
    for _ in 0..na {
        s.send_stream(WF::ctl(WU, 0, a, 1));
    }
    s.pump()?;
    if s.c.rng.chance(2, 3) {
        s.st.get_mut(&a).unwrap().broken = true;
        s.c.note("duplicate open");
        s.feed(&WF::ctl(WU, SYN, a, 0));
    }
    let nb = s.c.rng.range(9, 30);
    for i in 0..nb {
        if s.grant_left(b) > 0 && i % 2 == 0 {
            let n = s.c.rng.range(1, s.grant_left(b).min(3)) as usize;
            let d = s.c.rng.bytes(n.min(w0));
            s.send_stream(WF::data(0, b, d));
        } else {
            s.send_stream(WF::ctl(WU, 0, b, 1));
        }
    }
    s.pump()?;
    let wk = s.wk.clone();
    // unblock a
    for _ in 0..3 {
        let mut cx = Context::from_waker(&wk);
        let mut buf = [0u8; 64];
        if let Some(h) = s.st.get_mut(&a).unwrap().h.as_mut() {
            let _ = Pin::new(h).poll_read(&mut cx, &mut buf);
        }
        s.pump()?;
    }
    if s.over { return Err("session ended although the peer did not end it".into()); }
    s.drain(b)?;
    s.c.nontrivial = true;
    let t = &s.st[&b];
    ensure!(t.consumed == t.sent.len(), "stream {}: only {} of {} bytes can be read", b, t.consumed, t.sent.len());
    let want = w0 as u64 + t.credit_in;
    ensure!(t.h.as_ref().unwrap().send_window() as u64 == want, "stream {}: window updates lost ({} of {})", b, t.h.as_ref().unwrap().send_window(), want);
    Ok(())
}

/// streams that are dropped while frames wait for them must not take the frames of other streams along
fn c08_gone(c: &mut Case) -> Res {
    let mut s = Sim::new("C08", c, 100, 50);
    let n = s.c.rng.range(2, 6);
    for _ in 0..n {
        s.peer_open();
    }
    s.pump()?;
    s.hostile_session = true;
    let mut ids = s.live();
    let w0 = s.w0 as u64;
    let mut gone = vec![];
    for _ in 0..s.c.rng.range(1, 3) {
        // the handles read nothing and their queues are short
        for _ in 0..s.c.rng.range(9, 90) {
            let id = *s.c.rng.pick(&ids);
            if s.grant_left(id) > 0 && s.c.rng.chance(1, 2) {
                let k = s.c.rng.range(1, s.grant_left(id).min(3)) as usize;
                let d = s.c.rng.bytes(k);
                s.send_stream(WF::data(0, id, d));
            } else {
                s.send_stream(WF::ctl(WU, 0, id, 1));
            }
        }
        s.pump()?;
        for _ in 0..s.c.rng.range(1, 2) {
            if ids.len() > 1 {
                let k = s.c.rng.below(ids.len() as u64) as usize;
                let id = ids.remove(k);
                gone.push(id);
                if s.c.rng.chance(1, 2) {
                    s.feed(&WF::ctl(WU, 0, id, 1));
                }
                s.drop_stream(id)?;
            }
        }
        // the peer has not seen the reset yet
        if !gone.is_empty() && s.c.rng.chance(1, 2) {
            let id = *s.c.rng.pick(&gone);
            s.feed(&WF::ctl(WU, 0, id, 1));
        }
        s.pump()?;
    }
    s.c.nontrivial = !gone.is_empty();
    for id in ids.iter() {
        s.drain(*id)?;
        s.drain(*id)?;
    }
    ensure!(s.err.is_none() && !s.over, "session ended: {:?}", s.err);
    for id in ids {
        let t = &s.st[&id];
        ensure!(t.consumed == t.sent.len(), "stream {}: only {} of {} bytes can be read", id, t.consumed, t.sent.len());
        let (h, want) = (t.h.as_ref().unwrap().send_window() as u64, w0 + t.credit_in);
        ensure!(h == want, "stream {}: window updates lost ({} of {})", id, h, want);
    }
    Ok(())
}

fn run(p: &str, c: &mut Case) -> Res {
    let mut rt = tokio::runtime::Builder::new().basic_scheduler().enable_time().build().unwrap();
    let _ = &mut rt;
    rt.enter(|| match p {
        "C01" => c01(c),
        "C02" => c02(c),
        "C07" => c07(c),
        "C09" => if c.rng.chance(1, 4) { general(p, c) } else { c09(c) },
        "C08" => match c.rng.below(10) { 0 | 1 => c08_dup(c), 2 | 3 => c08_gone(c), _ => general(p, c) },
        "C03" | "C04" => if c.rng.chance(1, 4) { hostile(p, c) } else { general(p, c) },
        _ => general(p, c),
    })
}
fn main() {
    hx::main(run, |_| 0)
}
