//! Whole services against peers that speak the wire format, through the public interface
use crate::base::*;
use crate::util::*;
use crate::wire;
use bytes::Bytes;
use futures::{Stream, StreamExt};
use hx::{ensure, Case, Res};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use std::time::{Duration, Instant};
use tentacle::builder::{MetaBuilder, ServiceBuilder};
use tentacle::context::{ProtocolContext, ProtocolContextMutRef, ServiceContext, SessionContext};
use tentacle::multiaddr::{Multiaddr, Protocol};
use tentacle::secio::SecioKeyPair;
use tentacle::service::{BlockingFlag, ProtocolEvent, ProtocolHandle, ProtocolMeta, Service, ServiceControl, TargetProtocol, TargetSession};
use tentacle::traits::{ProtocolSpawn, ServiceHandle, ServiceProtocol, SessionProtocol};
use tentacle::utils::{multiaddr_to_socketaddr, socketaddr_to_multiaddr};
use tentacle::SubstreamReadPart;

/// splits the wire bytes into messages and compares them; the order as indices into `sent`
pub fn check_frames(got: &[u8], sent: &[(bool, Vec<u8>)]) -> Result<Vec<usize>, String> {
    let (mut hi, mut lo): (VecDeque<usize>, VecDeque<usize>) = Default::default();
    for (i, m) in sent.iter().enumerate() {
        if m.0 {
            hi.push_back(i)
        } else {
            lo.push_back(i)
        }
    }
    let mut at = 0;
    let mut order = vec![];
    while at < got.len() {
        ensure!(got.len() >= at + 4, "half a length on the wire");
        let n = u32::from_be_bytes([got[at], got[at + 1], got[at + 2], got[at + 3]]) as usize;
        ensure!(got.len() >= at + 4 + n, "half a message on the wire");
        let d = &got[at + 4..at + 4 + n];
        at += 4 + n;
        if hi.front().map_or(false, |i| sent[*i].1 == d) {
            order.push(hi.pop_front().unwrap());
        } else if lo.front().map_or(false, |i| sent[*i].1 == d) {
            order.push(lo.pop_front().unwrap());
        } else {
            let known = sent.iter().position(|m| m.1 == d);
            return Err(format!("the wire carries message {:?} (size {}), next in order are high {:?} and normal {:?}", known, n, hi.front(), lo.front()));
        }
    }
    ensure!(hi.is_empty() && lo.is_empty(), "messages {:?} and {:?} never reach the wire", hi, lo);
    Ok(order)
}

const DATA: u8 = 0;
const WU: u8 = 1;
fn yframe(ty: u8, flags: u16, sid: u32, len: u32, body: &[u8]) -> Vec<u8> {
    let mut v = vec![0, ty];
    v.extend_from_slice(&flags.to_be_bytes());
    v.extend_from_slice(&sid.to_be_bytes());
    v.extend_from_slice(&len.to_be_bytes());
    v.extend_from_slice(body);
    v
}
fn data(flags: u16, sid: u32, body: &[u8]) -> Vec<u8> {
    yframe(DATA, flags, sid, body.len() as u32, body)
}
enum Io {
    #[cfg_attr(not(feature = "hs"), allow(dead_code))]
    Mem(SWire, SWire),
    Tcp(TcpStream),
    /// a websocket client: what it has received and not yet understood
    Ws(TcpStream, hx::Rng, Vec<u8>),
}
/// a websocket frame of a client
fn wframe(r: &mut hx::Rng, first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![first];
    match body.len() {
        n if n < 126 => v.push(128 | n as u8),
        n if n < 65536 => {
            v.push(128 | 126);
            v.extend_from_slice(&(n as u16).to_be_bytes());
        }
        n => {
            v.push(128 | 127);
            v.extend_from_slice(&(n as u64).to_be_bytes());
        }
    }
    let k = (r.next() as u32).to_be_bytes();
    v.extend_from_slice(&k);
    v.extend(body.iter().enumerate().map(|(i, b)| b ^ k[i % 4]));
    v
}
/// bytes as binary messages, with other messages in between
fn wmessages(r: &mut hx::Rng, mut b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let most = *r.pick(&[1u64, 12, 30, 400, 20_000, 600_000]);
    while !b.is_empty() {
        if r.chance(1, 8) {
            let n = r.below(30) as usize;
            let x = r.bytes(n);
            v.extend(match r.below(5) {
                0 | 1 => wframe(r, 0x89, &x),
                2 => wframe(r, 0x8a, &x),
                3 => wframe(r, 0x81, b"text is not data"),
                _ => wframe(r, 0x82, &[]),
            });
        }
        let n = (r.range(1, most + 1) as usize).min(b.len());
        let (x, y) = b.split_at(n);
        if n > 1 && r.chance(1, 10) {
            let k = r.range(1, n as u64) as usize;
            v.extend(wframe(r, 0x02, &x[..k]));
            v.extend(wframe(r, 0x80, &x[k..]));
        } else {
            v.extend(wframe(r, 0x82, x));
        }
        b = y;
    }
    v
}
struct Peer {
    io: Io,
    buf: Vec<u8>,
    /// bytes received per stream
    streams: BTreeMap<u32, Vec<u8>>,
    /// not yet granted again
    owed: BTreeMap<u32, u32>,
    /// streams the service ended, 0 for the session
    over: BTreeSet<u32>,
}
impl Peer {
    fn new(io: Io) -> Peer {
        if let Io::Tcp(t) | Io::Ws(t, _, _) = &io {
            let _ = t.set_nonblocking(true);
            let _ = t.set_nodelay(true);
        }
        Peer { io, buf: vec![], streams: BTreeMap::new(), owed: BTreeMap::new(), over: BTreeSet::new() }
    }
    fn put(&mut self, b: &[u8]) {
        let b = match &mut self.io {
            Io::Ws(_, r, _) => wmessages(r, b),
            _ => b.to_vec(),
        };
        let mut b = &b[..];
        match &mut self.io {
            Io::Mem(_, w) => w.lock().unwrap().put(b),
            Io::Tcp(t) | Io::Ws(t, _, _) => {
                let t0 = Instant::now();
                while !b.is_empty() && t0.elapsed() < Duration::from_secs(5) {
                    match t.write(b) {
                        Ok(n) => b = &b[n..],
                        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                        Err(_) => return,
                    }
                }
            }
        }
    }
    fn take(&mut self, n: usize) {
        match &mut self.io {
            Io::Mem(r, _) => {
                let b = r.lock().unwrap().take(n);
                self.buf.extend_from_slice(&b);
            }
            Io::Tcp(_) | Io::Ws(_, _, _) => {
                let mut left = n;
                let mut b = [0u8; 8192];
                while left > 0 {
                    let k = left.min(b.len());
                    let (t, to) = match &mut self.io {
                        Io::Tcp(t) => (t, &mut self.buf),
                        Io::Ws(t, _, raw) => (t, raw),
                        Io::Mem(_, _) => return,
                    };
                    match t.read(&mut b[..k]) {
                        Ok(0) => {
                            self.over.insert(0);
                            break;
                        }
                        Ok(k) => {
                            to.extend_from_slice(&b[..k]);
                            left -= k;
                        }
                        Err(_) => break,
                    }
                }
            }
        }
        if let Io::Ws(_, _, raw) = &mut self.io {
            loop {
                let head = match raw.get(1) {
                    Some(127) => 10,
                    Some(126) => 4,
                    _ => 2,
                };
                if raw.len() < head {
                    break;
                }
                let n = raw[if head == 2 { 1 } else { 2 }..head].iter().fold(0usize, |a, b| a << 8 | *b as usize);
                if raw.len() < head + n {
                    break;
                }
                match raw[0] & 15 {
                    0 | 2 => self.buf.extend_from_slice(&raw[head..head + n]),
                    8 => {
                        self.over.insert(0);
                    }
                    _ => {}
                }
                raw.drain(..head + n);
            }
        }
        loop {
            if self.buf.len() < 12 {
                return;
            }
            let b = &self.buf;
            let (ty, sid, len) = (b[1], u32::from_be_bytes([b[4], b[5], b[6], b[7]]), u32::from_be_bytes([b[8], b[9], b[10], b[11]]));
            let body = if ty == DATA { len as usize } else { 0 };
            if b.len() < 12 + body {
                return;
            }
            if ty == DATA {
                self.streams.entry(sid).or_default().extend_from_slice(&b[12..12 + body]);
                *self.owed.entry(sid).or_default() += len;
            }
            if ty == 3 {
                self.over.insert(0);
            } else if b[3] & 12 != 0 {
                self.over.insert(sid);
            }
            let ping = if ty == 2 && b[3] & 1 != 0 { Some(yframe(2, 2, 0, len, &[])) } else { None };
            self.buf.drain(..12 + body);
            if let Some(p) = ping {
                self.put(&p);
            }
        }
    }
    fn grant(&mut self) {
        for (sid, n) in std::mem::take(&mut self.owed) {
            if n > 0 && sid > 0 && !self.over.contains(&sid) {
                let f = yframe(WU, 0, sid, n, &[]);
                self.put(&f);
            }
        }
    }
    /// the first length frame of a stream and its size on the wire
    fn first(&self, sid: u32) -> Option<(Vec<u8>, usize)> {
        let v = self.streams.get(&sid)?;
        if v.len() < 4 {
            return None;
        }
        let n = 4 + u32::from_be_bytes([v[0], v[1], v[2], v[3]]) as usize;
        if v.len() < n {
            return None;
        }
        Some((v[4..n].to_vec(), n))
    }
}
#[derive(Default)]
pub struct Seen {
    /// protocol, data
    got: Vec<(usize, Vec<u8>)>,
    /// protocol, version
    open: Vec<(usize, String)>,
}
type Got = Arc<Mutex<Seen>>;
/// the log and what is added to the protocol's number there
struct P(Got, usize);
impl P {
    fn open(&self, p: usize, v: &str) {
        self.0.lock().unwrap().open.push((p + self.1, v.to_owned()));
    }
    fn got(&self, p: usize, d: Bytes) {
        self.0.lock().unwrap().got.push((p + self.1, d.to_vec()));
    }
}
impl ServiceProtocol for P {
    fn init(&mut self, _: &mut ProtocolContext) {}
    fn connected(&mut self, c: ProtocolContextMutRef, v: &str) {
        self.open(c.proto_id().value(), v);
    }
    fn received(&mut self, c: ProtocolContextMutRef, d: Bytes) {
        self.got(c.proto_id().value(), d);
    }
}
impl SessionProtocol for P {
    fn connected(&mut self, c: ProtocolContextMutRef, v: &str) {
        self.open(c.proto_id().value(), v);
    }
    fn received(&mut self, c: ProtocolContextMutRef, d: Bytes) {
        self.got(c.proto_id().value(), d);
    }
}
impl ProtocolSpawn for P {
    fn spawn(&self, _: Arc<SessionContext>, _: &ServiceControl, mut r: SubstreamReadPart) {
        let p = r.protocol_id().value();
        self.open(p, r.version());
        let g = P(self.0.clone(), self.1);
        tokio::spawn(async move {
            while let Some(Ok(d)) = r.next().await {
                g.got(p, d);
            }
        });
    }
}
struct EH(Got, H);
impl ServiceHandle for EH {
    fn handle_error(&mut self, c: &mut ServiceContext, e: tentacle::service::ServiceError) {
        self.1.handle_error(c, e)
    }
    fn handle_event(&mut self, c: &mut ServiceContext, e: tentacle::service::ServiceEvent) {
        self.1.handle_event(c, e)
    }
    #[allow(deprecated)]
    fn handle_proto(&mut self, _: &mut ServiceContext, e: ProtocolEvent) {
        match e {
            ProtocolEvent::Received { proto_id, data, .. } => P(self.0.clone(), 0).got(proto_id.value(), data),
            ProtocolEvent::Connected { proto_id, version, .. } => P(self.0.clone(), 0).open(proto_id.value(), &version),
            _ => {}
        }
    }
}
/// kind: 0 service callback, 1 session callback, 2 spawned reader, 3 events, 4 both callbacks
fn proto(id: usize, kind: u64, versions: &[String], g: &Got) -> ProtocolMeta {
    let mut f = BlockingFlag::default();
    f.disable_all();
    let mut b = MetaBuilder::default().id(id.into()).flag(f);
    if !versions.is_empty() {
        b = b.support_versions(versions.to_vec());
    }
    let g2 = g.clone();
    match kind {
        0 => b.service_handle(move || ProtocolHandle::Callback(Box::new(P(g2, 0)))).build(),
        1 => b.session_handle(move || ProtocolHandle::Callback(Box::new(P(g2.clone(), 0)))).build(),
        2 => b.protocol_spawn(P(g2, 0)).build(),
        3 => b.service_handle(|| ProtocolHandle::Event).build(),
        _ => {
            let g3 = g.clone();
            b.service_handle(move || ProtocolHandle::Callback(Box::new(P(g2, 0)))).session_handle(move || ProtocolHandle::Callback(Box::new(P(g3.clone(), 100)))).build()
        }
    }
}
struct World {
    rt: tokio::runtime::Runtime,
    nodes: Vec<(Service<EH>, H, Got, Option<Multiaddr>)>,
}
impl World {
    fn new() -> World {
        World { rt: rt(), nodes: vec![] }
    }
    fn add(&mut self, b: ServiceBuilder, g: Got) -> usize {
        let h = H::default();
        self.nodes.push((b.build(EH(g.clone(), h.clone())), h, g, None));
        self.nodes.len() - 1
    }
    fn listen(&mut self, n: usize) -> Result<Multiaddr, String> {
        self.listen_at(n, "/ip4/127.0.0.1/tcp/0")
    }
    fn listen_at(&mut self, n: usize, at: &str) -> Result<Multiaddr, String> {
        if let Some(a) = &self.nodes[n].3 {
            return Ok(a.clone());
        }
        let s = &mut self.nodes[n].0;
        let a = self.rt.block_on(s.listen(at.parse().unwrap())).map_err(|e| format!("listen: {:?}", e))?;
        self.nodes[n].3 = Some(a.clone());
        Ok(a)
    }
    /// true when a service has ended
    fn turn(&mut self, k: usize) -> bool {
        let nodes = &mut self.nodes;
        self.rt.block_on(async {
            let mut end = false;
            for _ in 0..k {
                for n in nodes.iter_mut() {
                    let s = &mut n.0;
                    futures::future::poll_fn(|cx| {
                        for _ in 0..4 {
                            match Pin::new(&mut *s).poll_next(cx) {
                                Poll::Ready(None) => {
                                    end = true;
                                    break;
                                }
                                Poll::Ready(_) => {}
                                Poll::Pending => break,
                            }
                        }
                        Poll::Ready(())
                    })
                    .await;
                }
                for _ in 0..3 {
                    tokio::task::yield_now().await;
                }
            }
            end
        })
    }
    /// the tasks run, the services do not
    fn tasks(&mut self, k: usize) {
        self.rt.block_on(async {
            for _ in 0..k {
                tokio::task::yield_now().await;
            }
        })
    }
    /// turns until `f` holds
    fn until(&mut self, what: &str, mut f: impl FnMut(&mut World) -> Result<bool, String>) -> Res {
        let t0 = Instant::now();
        let mut n = 0;
        loop {
            if self.turn(2) {
                return Err(format!("the service ends while waiting for {}", what));
            }
            if f(self)? {
                return Ok(());
            }
            n += 1;
            if n > 100 {
                std::thread::sleep(Duration::from_micros(if n > 1000 { 2000 } else { 200 }));
            }
            ensure!(n < 200 || t0.elapsed() < Duration::from_secs(20), "{} does not happen", what);
        }
    }
    fn opened(&self, n: usize) -> Vec<Arc<SessionContext>> {
        self.nodes[n].1 .0.lock().unwrap().opened.clone()
    }
    fn open_now(&self, n: usize) -> Vec<Arc<SessionContext>> {
        let l = self.nodes[n].1 .0.lock().unwrap();
        l.opened.iter().filter(|c| !l.closed.iter().any(|x| Arc::ptr_eq(x, c))).cloned().collect()
    }
    /// a websocket peer with a plain session to node n; the session is open afterwards
    fn websocket(&mut self, c: &mut Case, n: usize) -> Result<Peer, String> {
        let a = self.listen_at(n, "/ip4/127.0.0.1/tcp/0/ws")?;
        self.upgrade(c, n, &a)
    }
    fn upgrade(&mut self, c: &mut Case, n: usize, a: &Multiaddr) -> Result<Peer, String> {
        let mut t = TcpStream::connect(multiaddr_to_socketaddr(a).unwrap()).map_err(|e| e.to_string())?;
        t.write_all(b"GET / HTTP/1.1\r\nHost: a\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n").map_err(|e| e.to_string())?;
        let mut p = Peer::new(Io::Tcp(t));
        let before = self.opened(n).len();
        let mut head = vec![];
        self.until("the answer to the upgrade", |_| {
            if let Io::Tcp(t) = &mut p.io {
                let mut b = [0u8; 1];
                while let Ok(1) = t.read(&mut b) {
                    head.push(b[0]);
                    if head.ends_with(b"\r\n\r\n") {
                        return Ok(true);
                    }
                }
            }
            Ok(false)
        })?;
        ensure!(head.starts_with(b"HTTP/1.1 101"), "the upgrade is answered with {:?}", String::from_utf8_lossy(&head));
        let r = hx::Rng(c.rng.next());
        let mut p = match p.io {
            Io::Tcp(t) => Peer::new(Io::Ws(t, r, vec![])),
            _ => unreachable!(),
        };
        self.until("the session", |w| {
            p.take(1 << 20);
            Ok(w.opened(n).len() > before)
        })?;
        Ok(p)
    }
    /// a peer with a plain session to node n; the session is open afterwards
    fn peer(&mut self, c: &mut Case, n: usize, out: bool, room: usize, chunk: usize) -> Result<Peer, String> {
        let before = self.opened(n).len();
        let p = self.connect(c, n, out, room, chunk)?;
        self.until("the session", |w| Ok(w.opened(n).len() > before))?;
        Ok(p)
    }
    #[allow(unused_variables)]
    fn connect(&mut self, c: &mut Case, n: usize, out: bool, room: usize, chunk: usize) -> Result<Peer, String> {
        #[cfg(feature = "hs")]
        {
            use tentacle::service::verif_hooks as sv;
            use tentacle::service::SessionType;
            if c.rng.chance(19, 20) {
                // the service starts its handles when it is first polled
                self.turn(2);
                let (mine, theirs) = pair(&mut c.rng, room, chunk, 0);
                let p = Peer::new(Io::Mem(theirs.rd.clone(), theirs.wr.clone()));
                std::mem::forget(theirs);
                let wk = noop();
                let (ty, listen) = if out { (SessionType::Outbound, None) } else { (SessionType::Inbound, Some("/ip4/127.0.0.1/tcp/1".parse().unwrap())) };
                let s = &mut self.nodes[n].0;
                self.rt.enter(|| sv::event(s, &mut std::task::Context::from_waker(&wk), sv::Ev::Opened { io: Box::new(mine), key: None, address: "/ip4/127.0.0.1/tcp/2".parse().unwrap(), ty, listen }));
                return Ok(p);
            }
        }
        if out {
            let l = TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
            let a = socketaddr_to_multiaddr(l.local_addr().unwrap());
            let s = &mut self.nodes[n].0;
            self.rt.block_on(s.dial(a, TargetProtocol::All)).map(|_| ()).map_err(|e| format!("dial: {:?}", e))?;
            let (t, _) = l.accept().map_err(|e| e.to_string())?;
            Ok(Peer::new(Io::Tcp(t)))
        } else {
            let a = self.listen(n)?;
            let t = TcpStream::connect(multiaddr_to_socketaddr(&a).unwrap()).map_err(|e| e.to_string())?;
            Ok(Peer::new(Io::Tcp(t)))
        }
    }
}
impl Drop for World {
    fn drop(&mut self) {
        let nodes = std::mem::take(&mut self.nodes);
        self.rt.enter(|| drop(nodes));
    }
}
fn app(c: &mut Case, n: u64) -> Vec<Vec<u8>> {
    (0..n)
        .map(|i| {
            let k = *c.rng.pick(&[1usize, 2, 30, 700]);
            let mut d = c.rng.bytes(k);
            d[0] = i as u8;
            d
        })
        .collect()
}
fn hello(p: usize, versions: &[String]) -> Vec<u8> {
    wire::frame(&wire::info(format!("/p2p/{}", p).as_bytes(), &versions.iter().map(|v| v.as_bytes().to_vec()).collect::<Vec<_>>()))
}
fn one() -> Vec<String> {
    vec!["0.0.1".to_string()]
}

/// C23: application bytes together with the negotiation
pub fn leftover(c: &mut Case) -> Res {
    let fixed = c.rng.0;
    let kind = if fixed < 24 { fixed % 4 } else { c.rng.below(4) };
    let out = if fixed < 24 { (fixed / 4) % 2 == 0 } else { c.rng.chance(1, 2) };
    let g: Got = Default::default();
    let mut w = World::new();
    let chunk = if fixed < 16 { 1_000_000 } else { *c.rng.pick(&[1_000_000usize, 60, 200]) };
    w.add(ServiceBuilder::default().forever(true).insert_protocol(proto(1, kind, &[], &g)), g.clone());
    let mut p = w.peer(c, 0, out, 1 << 20, chunk)?;
    let n = c.rng.range(1, 6);
    let msgs = app(c, n);
    // the first part comes together with the negotiation, cut anywhere
    let body: Vec<u8> = msgs.iter().flat_map(|m| wire::frame(m)).collect();
    let cut = if fixed < 16 { body.len() } else { c.rng.below(body.len() as u64 + 1) as usize };
    c.note(format!("receiver kind {} outbound {} {} messages, {} of {} bytes with the negotiation", kind, out, n, cut, body.len()));
    c.nontrivial = cut > 0;
    let mut first = hello(1, &one());
    first.extend_from_slice(&body[..cut]);
    let sid = 1;
    if out {
        let mut asked = None;
        w.until("the service asking to open its protocol", |_| {
            p.take(1 << 20);
            asked = p.first(sid);
            Ok(asked.is_some())
        })?;
        ensure!(wire::parse(&asked.as_ref().unwrap().0) == Some(("/p2p/1".into(), one())), "the service asks {:?}", asked);
        p.put(&data(2, sid, &first));
    } else {
        p.put(&data(1, sid, &first));
    }
    let mut at = cut;
    let mut rest = vec![];
    while at < body.len() {
        let k = (at + c.rng.range(1, 300) as usize).min(body.len());
        rest.push(data(0, sid, &body[at..k]));
        at = k;
    }
    let mut rest = rest.into_iter();
    w.until("delivery of all messages", |_| {
        p.take(1 << 20);
        if let Some(f) = rest.next() {
            p.put(&f);
        }
        let have: Vec<Vec<u8>> = g.lock().unwrap().got.iter().map(|x| x.1.clone()).collect();
        ensure!(msgs.starts_with(&have), "delivered {:?}, sent {:?}", have, msgs);
        Ok(have.len() == msgs.len())
    })?;
    w.turn(6);
    ensure!(g.lock().unwrap().got.len() == msgs.len(), "more is delivered than was sent");
    Ok(())
}

/// C22: messages of a whole service to a peer that reads slowly
pub fn messages(c: &mut Case) -> Res {
    let g: Got = Default::default();
    let mut w = World::new();
    let kinds = [c.rng.below(3), c.rng.below(3)];
    let room = *c.rng.pick(&[500usize, 5000, 1 << 20]);
    w.add(ServiceBuilder::default().forever(true).insert_protocol(proto(1, kinds[0], &[], &g)).insert_protocol(proto(2, kinds[1], &[], &g)), g.clone());
    let mut p = w.peer(c, 0, false, room, 1_000_000)?;
    c.note(format!("receiver kinds {:?} room {}", kinds, room));
    c.nontrivial = true;
    // the peer opens both protocols
    for i in 0..2usize {
        p.put(&data(1, 2 * i as u32 + 1, &hello(i + 1, &one())));
    }
    w.until("the answer to the negotiation", |_| {
        p.take(1 << 20);
        Ok(p.first(1).is_some() && p.first(3).is_some() && g.lock().unwrap().open.len() == 2)
    })?;
    let neg = [p.first(1).unwrap().1, p.first(3).unwrap().1];
    w.turn(5);
    let ctx = w.opened(0)[0].clone();
    let mut sent: [Vec<(bool, Vec<u8>)>; 2] = Default::default();
    let ctl = w.nodes[0].0.control().clone();
    let mut all = 0;
    for _ in 0..c.rng.range(3, 30) {
        for _ in 0..c.rng.below(6) {
            let i = c.rng.below(2) as usize;
            let high = c.rng.chance(1, 2);
            let k = *c.rng.pick(&[4usize, 60, 3000, 20_000]);
            let mut d = c.rng.bytes(k);
            d[..4].copy_from_slice(&(sent[i].len() as u32).to_be_bytes());
            let b = Bytes::from(d.clone());
            let pid = (i + 1).into();
            let r = match (high, c.rng.below(2)) {
                (true, 0) => ctl.quick_send_message_to(ctx.id, pid, b),
                (false, 0) => ctl.send_message_to(ctx.id, pid, b),
                (true, _) => ctl.quick_filter_broadcast(TargetSession::All, pid, b),
                _ => ctl.filter_broadcast(TargetSession::All, pid, b),
            };
            ensure!(r.is_ok(), "sending is refused: {:?}", r);
            c.note(format!("send {} on {} high {} size {}", sent[i].len(), i + 1, high, k));
            all += k;
            sent[i].push((high, d));
        }
        let t = c.rng.below(4) as usize;
        w.turn(t);
        ensure!(ctx.pending_data_size() <= all, "{} bytes were sent, {} are pending", all, ctx.pending_data_size());
        let k = c.rng.below(3000) as usize;
        p.take(k);
        if c.rng.chance(1, 2) {
            p.grant();
        }
    }
    let want: Vec<usize> = (0..2).map(|i| neg[i] + sent[i].iter().map(|m| m.1.len() + 4).sum::<usize>()).collect();
    w.until("all messages on the wire", |_| {
        p.take(1 << 20);
        p.grant();
        ensure!(p.over.is_empty(), "the service ends the stream or the session");
        Ok((0..2).all(|i| p.streams[&(2 * i as u32 + 1)].len() >= want[i]))
    })?;
    w.turn(10);
    p.take(1 << 20);
    for i in 0..2 {
        check_frames(&p.streams[&(2 * i as u32 + 1)][neg[i]..], &sent[i]).map_err(|e| format!("protocol {}: {}", i + 1, e))?;
    }
    ensure!(ctx.pending_data_size() == 0, "everything was sent and {} bytes are pending", ctx.pending_data_size());
    Ok(())
}

/// C22: an urgent message of a whole service to a peer that has stopped reading
pub fn urgent(c: &mut Case) -> Res {
    let g: Got = Default::default();
    let mut w = World::new();
    let kind = c.rng.below(3);
    w.add(ServiceBuilder::default().forever(true).insert_protocol(proto(1, kind, &[], &g)), g.clone());
    let mut p = w.peer(c, 0, false, 2000, 1_000_000)?;
    p.put(&data(1, 1, &hello(1, &one())));
    w.until("the answer to the negotiation", |_| {
        p.take(1 << 20);
        Ok(p.first(1).is_some() && g.lock().unwrap().open.len() == 1)
    })?;
    let neg = p.first(1).unwrap().1;
    w.turn(5);
    let ctx = w.opened(0)[0].clone();
    let ctl = w.nodes[0].0.control().clone();
    let mut sent = vec![];
    let n = c.rng.range(1200, 4000);
    let size = c.rng.range(800, 1200) as usize;
    for i in 0..n + 1 {
        let high = i == n;
        let mut d = vec![high as u8; size];
        d[..4].copy_from_slice(&(i as u32).to_be_bytes());
        let b = Bytes::from(d.clone());
        let mut tries = 0;
        while (if high { ctl.quick_send_message_to(ctx.id, 1.into(), b.clone()) } else { ctl.send_message_to(ctx.id, 1.into(), b.clone()) }).is_err() {
            ensure!(tries < 1000, "sending is refused");
            tries += 1;
            w.turn(1);
        }
        sent.push((high, d));
        if i % 100 == 99 || i + 1 >= n {
            w.turn(if i + 1 == n { 300 } else { 10 });
        }
    }
    let waiting = ctx.pending_data_size();
    c.note(format!("receiver kind {}, {} messages of {} bytes, then one urgent; {} bytes pending", kind, n, size, waiting));
    c.nontrivial = waiting > 600_000;
    let want = neg + sent.len() * (size + 4);
    w.until("all messages on the wire", |_| {
        p.take(1 << 20);
        p.grant();
        ensure!(p.over.is_empty(), "the service ends the stream or the session");
        Ok(p.streams[&1].len() >= want)
    })?;
    w.turn(10);
    p.take(1 << 20);
    let order = check_frames(&p.streams[&1][neg..], &sent)?;
    let at = order.iter().position(|i| *i == n as usize).unwrap();
    c.note(format!("the urgent message comes at place {}", at));
    ensure!(waiting <= 600_000 || at < n as usize, "{} bytes wait and the urgent message comes after all {} normal ones", waiting, n);
    ensure!(ctx.pending_data_size() == 0, "everything was sent and {} bytes are pending", ctx.pending_data_size());
    Ok(())
}

/// what arrived: receiver, instance of the receiver, session it is told, data
type At = Arc<Mutex<Vec<(usize, usize, usize, Vec<u8>)>>>;
struct Q(At, usize, usize);
impl Q {
    fn got(&self, p: usize, s: usize, d: Bytes) {
        self.0.lock().unwrap().push((p + self.1, self.2, s, d.to_vec()));
    }
}
impl ServiceProtocol for Q {
    fn init(&mut self, _: &mut ProtocolContext) {}
    fn received(&mut self, c: ProtocolContextMutRef, d: Bytes) {
        self.got(c.proto_id().value(), c.session.id.value(), d);
    }
}
impl SessionProtocol for Q {
    fn received(&mut self, c: ProtocolContextMutRef, d: Bytes) {
        self.got(c.proto_id().value(), c.session.id.value(), d);
    }
}
impl ProtocolSpawn for Q {
    fn spawn(&self, c: Arc<SessionContext>, _: &ServiceControl, mut r: SubstreamReadPart) {
        let p = r.protocol_id().value();
        let g = Q(self.0.clone(), self.1, self.2);
        tokio::spawn(async move {
            while let Some(Ok(d)) = r.next().await {
                g.got(p, c.id.value(), d);
            }
        });
    }
}
/// kind: 0 service callback, 1 session callback, 2 spawned reader, 3 both callbacks
fn proto_at(id: usize, kind: u64, g: &At) -> ProtocolMeta {
    let mut f = BlockingFlag::default();
    f.disable_all();
    let b = MetaBuilder::default().id(id.into()).flag(f);
    let (g1, g2) = (g.clone(), g.clone());
    let n = Mutex::new(0);
    let each = move || {
        let mut n = n.lock().unwrap();
        *n += 1;
        ProtocolHandle::Callback(Box::new(Q(g2.clone(), 100, *n)) as Box<dyn SessionProtocol + Send + 'static + Unpin>)
    };
    match kind {
        0 => b.service_handle(move || ProtocolHandle::Callback(Box::new(Q(g1, 0, 0)))).build(),
        1 => b.session_handle(each).build(),
        2 => b.protocol_spawn(Q(g1, 0, 0)).build(),
        _ => b.service_handle(move || ProtocolHandle::Callback(Box::new(Q(g1, 0, 0)))).session_handle(each).build(),
    }
}
/// C20: several sessions, each with handles of its own
pub fn handles(c: &mut Case) -> Res {
    let g: At = Default::default();
    let mut w = World::new();
    let kinds = [c.rng.below(4), c.rng.below(4)];
    w.add(ServiceBuilder::default().forever(true).insert_protocol(proto_at(1, kinds[0], &g)).insert_protocol(proto_at(2, kinds[1], &g)), Default::default());
    let n = c.rng.range(2, 9);
    // notifications come about as often as messages
    let busy = c.rng.chance(1, 3);
    c.note(format!("receiver kinds {:?}, {} sessions, busy {}", kinds, n, busy));
    // the peer, its session, its messages
    let mut all: Vec<(Peer, usize)> = vec![];
    let mut gone: BTreeSet<usize> = Default::default();
    // receiver, session, data
    let mut want: Vec<(usize, usize, Vec<u8>)> = vec![];
    let mut last = 0u32;
    for k in 0..n {
        let before: Vec<usize> = w.opened(0).iter().map(|c| c.id.value()).collect();
        let mut p = w.peer(c, 0, false, 1 << 20, 1_000_000)?;
        let id = w.opened(0).last().unwrap().id.value();
        ensure!(!before.contains(&id), "session {} is opened a second time", id);
        for i in 0..2usize {
            p.put(&data(1, 2 * i as u32 + 1, &hello(i + 1, &one())));
        }
        w.until("the answer to the negotiation", |_| {
            p.take(1 << 20);
            Ok(p.first(1).is_some() && p.first(3).is_some())
        })?;
        all.push((p, id));
        if c.rng.chance(1, 4) {
            let (i, k) = (c.rng.below(2) as usize + 1, c.rng.below(all.len() as u64) as usize);
            let (ctl, every) = (w.nodes[0].0.control().clone(), Duration::from_millis(c.rng.below(3)));
            c.note(format!("protocol {} is notified", i));
            let _ = ctl.set_service_notify(i.into(), every, k as u64);
            let _ = ctl.set_session_notify(all[k].1.into(), i.into(), every, k as u64);
        }
        if busy {
            let ctl = w.nodes[0].0.control().clone();
            for t in 0..6 {
                let every = Duration::from_micros(c.rng.range(20, 300));
                for i in 1..3usize {
                    let _ = ctl.set_service_notify(i.into(), every, 100 + t);
                    let _ = ctl.set_session_notify(all.last().unwrap().1.into(), i.into(), every, 100 + t);
                }
            }
        }
        for _ in 0..c.rng.below(if busy { 60 } else { 12 }) {
            if busy && c.rng.chance(1, 4) {
                w.turn(1);
            }
            let j = c.rng.below(all.len() as u64) as usize;
            let i = c.rng.below(2) as usize;
            let mut d = last.to_be_bytes().to_vec();
            last += 1;
            let len = c.rng.below(20) as usize;
            d.extend(c.rng.bytes(len));
            let (p, id) = &mut all[j];
            p.put(&data(0, 2 * i as u32 + 1, &wire::frame(&d)));
            if kinds[i] != 1 {
                want.push((i + 1, *id, d.clone()));
            }
            if kinds[i] == 1 || kinds[i] == 3 {
                want.push((i + 101, *id, d));
            }
        }
        c.note(format!("{} sessions are open, {} messages have been sent", k + 1, last));
        if c.rng.chance(1, 3) {
            w.turn(2);
        }
        if all.len() > 1 && c.rng.chance(1, 4) {
            let (_, id) = all.swap_remove(c.rng.below(all.len() as u64) as usize);
            c.note(format!("the peer of session {} leaves", id));
            gone.insert(id);
            if c.rng.chance(1, 2) {
                w.turn(3);
            }
        }
    }
    c.nontrivial = last > 1;
    let due = want.iter().filter(|x| !gone.contains(&x.1)).count();
    w.until("delivery of all messages", |_| Ok(g.lock().unwrap().iter().filter(|x| !gone.contains(&x.2)).count() >= due))?;
    w.turn(6);
    let got = g.lock().unwrap().clone();
    for (i, id) in want.iter().map(|x| (x.0, x.1)).collect::<BTreeSet<_>>() {
        let a: Vec<_> = want.iter().filter(|x| (x.0, x.1) == (i, id)).map(|x| &x.2).collect();
        let b: Vec<_> = got.iter().filter(|x| (x.0, x.2) == (i, id)).map(|x| &x.3).collect();
        ensure!(if gone.contains(&id) { a.starts_with(&b) } else { a == b }, "receiver {} gets {:?} from session {}, sent was {:?}", i, b, id, a);
    }
    let n = got.iter().filter(|x| !gone.contains(&x.2)).count();
    ensure!(n == due, "{} messages are delivered, {} are due", n, due);
    // a session handle belongs to one session
    let mut whose: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for (i, k, id, _) in got.iter().filter(|x| x.0 > 100) {
        let s = *whose.entry((*i, *k)).or_insert(*id);
        ensure!(s == *id, "the handle of session {} gets a message of session {}", s, id);
    }
    let a = whose.values().filter(|x| !gone.contains(x)).count();
    let b = want.iter().filter(|x| x.0 > 100 && !gone.contains(&x.1)).map(|x| (x.0, x.1)).collect::<BTreeSet<_>>().len();
    ensure!(a == b, "{} session handles get messages, from {} sessions", a, b);
    Ok(())
}

/// C20: more messages than the queues on the way have room for, in both directions
pub fn flood(c: &mut Case) -> Res {
    messages_over(c, false)
}
/// C33: the same over a websocket, with messages of all sizes and kinds
pub fn websocket(c: &mut Case) -> Res {
    messages_over(c, true)
}
extern "C" {
    fn setsockopt(s: i32, level: i32, name: i32, value: *const i32, len: u32) -> i32;
}
/// C34: clients that go no further, go away or send nonsense, and then one that behaves
pub fn accepting(c: &mut Case) -> Res {
    use std::os::unix::io::AsRawFd;
    let g: Got = Default::default();
    let mut w = World::new();
    w.add(ServiceBuilder::default().forever(true).insert_protocol(proto(1, 0, &[], &g)), g.clone());
    let ws = c.rng.chance(1, 2);
    let a = match w.listen_at(0, if ws { "/ip4/127.0.0.1/tcp/0/ws" } else { "/ip4/127.0.0.1/tcp/0" }) {
        Ok(a) => a,
        // no port is left on this machine
        Err(_) => return Ok(()),
    };
    let at = multiaddr_to_socketaddr(&a).unwrap();
    let mut kept = vec![];
    for _ in 0..c.rng.range(1, 4) {
        for _ in 0..c.rng.below(4) {
            let mut t = match TcpStream::connect(at) {
                Err(e) if e.kind() == std::io::ErrorKind::AddrNotAvailable => return Ok(()),
                t => t.map_err(|e| e.to_string())?,
            };
            let n = c.rng.below(6);
            c.note(format!("client {}", n));
            match n {
                // reset before it is accepted, or after
                0 | 1 => {
                    if n == 1 {
                        w.turn(3);
                    }
                    let linger = [1i32, 0];
                    // SAFETY: SO_LINGER of a socket of ours, two ints long
                    unsafe { setsockopt(t.as_raw_fd(), 1, 13, linger.as_ptr(), 8) };
                }
                2 => drop(t),
                3 => kept.push(t),
                4 => {
                    let n = c.rng.range(1, 60) as usize;
                    let _ = t.write_all(&c.rng.bytes(n));
                    kept.push(t);
                }
                _ => {
                    let _ = t.write_all(b"GET / HTTP/1.1\r\nHost: a\r\nConnection: Upg");
                    kept.push(t);
                }
            }
            if c.rng.chance(1, 2) {
                w.turn(4);
            }
        }
        c.nontrivial = true;
        w.turn(4);
        if ws {
            let p = w.upgrade(c, 0, &a)?;
            if c.rng.chance(1, 2) {
                drop(p);
            } else if let Io::Ws(t, _, _) = p.io {
                kept.push(t);
            }
        } else {
            let t = match TcpStream::connect(at) {
                Err(e) if e.kind() == std::io::ErrorKind::AddrNotAvailable => return Ok(()),
                t => t.map_err(|e| e.to_string())?,
            };
            let us = t.local_addr().map_err(|e| e.to_string())?;
            w.until("a session of the client that behaves", |w| Ok(w.opened(0).iter().any(|s| multiaddr_to_socketaddr(&s.address) == Some(us))))?;
            kept.push(t);
        }
    }
    Ok(())
}
fn messages_over(c: &mut Case, ws: bool) -> Res {
    let g: Got = Default::default();
    let mut w = World::new();
    let kinds = [c.rng.below(5), c.rng.below(5)];
    let keep = c.rng.chance(1, 2);
    let room = *c.rng.pick(&[2000usize, 1 << 20]);
    w.add(ServiceBuilder::default().forever(true).keep_buffer(keep).insert_protocol(proto(1, kinds[0], &[], &g)).insert_protocol(proto(2, kinds[1], &[], &g)), g.clone());
    let mut p = if ws { w.websocket(c, 0)? } else { w.peer(c, 0, false, 1 << 20, 1_000_000)? };
    let logs: usize = kinds.iter().map(|k| if *k == 4 { 2 } else { 1 }).sum();
    for i in 0..2usize {
        p.put(&data(1, 2 * i as u32 + 1, &hello(i + 1, &one())));
    }
    w.until("the answer to the negotiation", |_| {
        p.take(1 << 20);
        Ok(p.first(1).is_some() && p.first(3).is_some() && g.lock().unwrap().open.len() == logs)
    })?;
    let neg = [p.first(1).unwrap().1, p.first(3).unwrap().1];
    w.turn(5);
    let ctx = w.opened(0)[0].clone();
    let ctl = w.nodes[0].0.control().clone();
    let (come, go) = (c.rng.chance(2, 3), c.rng.chance(1, 2));
    c.note(format!("receiver kinds {:?} keep_buffer {} room {} in {} out {}", kinds, keep, room, come, go));
    c.nontrivial = come || go;
    let mut sent: [Vec<(bool, Vec<u8>)>; 2] = Default::default();
    let mut came: [Vec<Vec<u8>>; 2] = Default::default();
    for round in 0..c.rng.range(1, 8) {
        let only = c.rng.below(3) as usize;
        if come {
            let n = *c.rng.pick(&[3u64, 100, 700, 1400]);
            let mut b: [Vec<u8>; 2] = Default::default();
            // a message almost as large as the window, on each stream
            let large = ws && round == 0 && c.rng.chance(1, 3);
            for j in 0..if large { 2 } else { c.rng.range(1, n) } {
                let i = if large { j as usize } else if only < 2 { only } else { c.rng.below(2) as usize };
                let k = if large { c.rng.range(150_000, 250_000) } else { c.rng.range(4, 12) } as usize;
                let mut d = c.rng.bytes(k);
                d[..4].copy_from_slice(&(came[i].len() as u32).to_be_bytes());
                b[i].extend_from_slice(&wire::frame(&d));
                came[i].push(d);
            }
            let mut once = vec![];
            for i in 0..2 {
                for x in b[i].chunks(if large { 1 << 18 } else { *c.rng.pick(&[13usize, 1000, 60_000]) }) {
                    if large {
                        once.extend(data(0, 2 * i as u32 + 1, x));
                    } else {
                        p.put(&data(0, 2 * i as u32 + 1, x));
                    }
                }
            }
            p.put(&once);
            c.note(format!("round {}: {} and {} messages have been sent to the service", round, came[0].len(), came[1].len()));
        }
        if go {
            for _ in 0..*c.rng.pick(&[3u64, 50, 400]) {
                let i = if only < 2 { only } else { c.rng.below(2) as usize };
                let high = c.rng.chance(1, 3);
                let k = if ws && sent[i].len() < 2 && c.rng.chance(1, 3) { c.rng.range(4, 700_000) } else { c.rng.range(4, 12) } as usize;
                let mut d = c.rng.bytes(k);
                d[..4].copy_from_slice(&(sent[i].len() as u32).to_be_bytes());
                let b = Bytes::from(d.clone());
                let pid = (i + 1).into();
                let mut tries = 0;
                loop {
                    let r = if high { ctl.quick_send_message_to(ctx.id, pid, b.clone()) } else { ctl.send_message_to(ctx.id, pid, b.clone()) };
                    if r.is_ok() {
                        break;
                    }
                    // the service has not kept up
                    ensure!(tries < 1000, "sending is refused: {:?}", r);
                    tries += 1;
                    w.turn(1);
                }
                sent[i].push((high, d));
            }
            c.note(format!("round {}: {} and {} messages have been given to the service", round, sent[0].len(), sent[1].len()));
        }
        // the service, or everything else, lags behind
        match c.rng.below(4) {
            0 => w.tasks(c.rng.below(60) as usize),
            1 => {}
            _ => {
                let t = c.rng.below(6) as usize;
                w.turn(t);
            }
        }
        // what the peer sent has to fit the window
        if come {
            let fits = came.iter().all(|v| v.iter().map(|d| d.len() + 4).sum::<usize>() < 200_000);
            if !fits {
                break;
            }
        }
        if c.rng.chance(1, 2) {
            p.take(room);
            p.grant();
        }
    }
    let want: Vec<usize> = (0..2).map(|i| neg[i] + sent[i].iter().map(|m| m.1.len() + 4).sum::<usize>()).collect();
    w.until("all messages on the wire", |_| {
        p.take(room);
        p.grant();
        ensure!(p.over.is_empty(), "the service ends the stream or the session");
        Ok((0..2).all(|i| p.streams[&(2 * i as u32 + 1)].len() >= want[i]))
    })?;
    for i in 0..2 {
        check_frames(&p.streams[&(2 * i as u32 + 1)][neg[i]..], &sent[i]).map_err(|e| format!("protocol {}: {}", i + 1, e))?;
    }
    // the peer may end its streams at once, what it sent before still counts
    if keep && c.rng.chance(1, 2) {
        c.note("the peer ends the streams");
        for i in 0..2u32 {
            p.put(&data(4, 2 * i + 1, &[]));
        }
    }
    let mut at: BTreeMap<usize, Vec<Vec<u8>>> = BTreeMap::new();
    for i in 0..2usize {
        at.insert(i + 1, came[i].clone());
        if kinds[i] == 4 {
            at.insert(i + 101, came[i].clone());
        }
    }
    w.until("delivery of all messages", |_| {
        p.take(1 << 20);
        let mut done = true;
        for (i, want) in at.iter() {
            let l = g.lock().unwrap();
            let have: Vec<&Vec<u8>> = l.got.iter().filter(|x| x.0 == *i).map(|x| &x.1).collect();
            if let Some(k) = (0..have.len()).find(|k| want.get(*k) != Some(have[*k])) {
                return Err(format!("receiver {} gets {:?} as message {}, sent was {:?}", i, have[k], k, want.get(k)));
            }
            done &= have.len() == want.len();
        }
        Ok(done)
    })?;
    w.turn(6);
    ensure!(g.lock().unwrap().got.len() == at.values().map(|v| v.len()).sum::<usize>(), "more is delivered than was sent");
    Ok(())
}

/// C19: a whole service negotiating with an independent peer
pub fn select(c: &mut Case) -> Res {
    let g: Got = Default::default();
    let mut w = World::new();
    let mine = {
        let mut l = wire::list(&mut c.rng, true);
        if l.is_empty() {
            l = one();
        }
        l
    };
    let mut theirs = wire::list(&mut c.rng, true);
    for v in mine.iter() {
        if c.rng.chance(1, 4) {
            let at = c.rng.below(theirs.len() as u64 + 1) as usize;
            theirs.insert(at, v.clone());
        }
    }
    let kind = c.rng.below(4);
    let out = c.rng.chance(1, 3);
    w.add(ServiceBuilder::default().forever(true).insert_protocol(proto(1, kind, &mine, &g)), g.clone());
    let mut p = w.peer(c, 0, out, 1 << 20, 1_000_000)?;
    let bad = c.rng.chance(1, 6);
    let mut want = wire::best(&mine, &theirs);
    c.note(format!("service {:?} peer {:?} outbound {} malformed {} common {:?}", mine, theirs, out, bad, want));
    c.nontrivial = want.is_some();
    if out {
        w.until("the service asking to open its protocol", |_| {
            p.take(1 << 20);
            Ok(p.first(1).is_some())
        })?;
        let asked = wire::parse(&p.first(1).unwrap().0);
        ensure!(asked == Some(("/p2p/1".into(), mine.clone())), "the service with {:?} asks {:?}", mine, asked);
        want = if c.rng.chance(3, 4) { Some(c.rng.pick(&mine).clone()) } else { None };
        let reply: Vec<String> = want.iter().cloned().collect();
        if bad {
            want = None;
            p.put(&data(2, 1, &wire::frame(b"\x09\0\0\0\xff")));
        } else {
            p.put(&data(2, 1, &hello(1, &reply)));
        }
    } else if bad {
        want = None;
        let mut raw = theirs.iter().map(|v| v.as_bytes().to_vec()).collect::<Vec<_>>();
        raw.push(b"\xff\xc0".to_vec());
        p.put(&data(1, 1, &wire::frame(&wire::info(b"/p2p/1", &raw))));
    } else {
        p.put(&data(1, 1, &hello(1, &theirs)));
    }
    if !out && !bad {
        w.until("the answer to the negotiation", |_| {
            p.take(1 << 20);
            Ok(p.first(1).is_some() || !p.over.is_empty())
        })?;
        let said = p.first(1).and_then(|x| wire::parse(&x.0));
        match (&want, &said) {
            (Some(v), Some((n, l))) => ensure!(n == "/p2p/1" && *l == [v.clone()], "the greatest common version is {:?}, the service answers {:?}", want, said),
            (Some(_), None) => return Err(format!("{:?} is common, the service answers nothing", want)),
            (None, Some((_, l))) => ensure!(l.is_empty(), "nothing is common, the service answers {:?}", l),
            (None, None) => {}
        }
    }
    if let Some(v) = &want {
        w.until("opening the protocol", |_| Ok(!g.lock().unwrap().open.is_empty()))?;
        ensure!(g.lock().unwrap().open == [(1, v.clone())], "agreed on {:?}, the service opens {:?}", v, g.lock().unwrap().open);
    } else {
        for _ in 0..10 {
            ensure!(!w.turn(2), "the service ends");
        }
        ensure!(g.lock().unwrap().open.is_empty(), "nothing was agreed and the service opens {:?}", g.lock().unwrap().open);
    }
    Ok(())
}

/// C25: several peers, messages to some of them
pub fn targets(c: &mut Case) -> Res {
    let g: Got = Default::default();
    let mut w = World::new();
    w.add(ServiceBuilder::default().forever(true).insert_protocol(proto(1, c.rng.below(3), &[], &g)).insert_protocol(proto(2, c.rng.below(3), &[], &g)), g.clone());
    let n = c.rng.range(1, 4) as usize;
    let mut peers = vec![];
    for i in 0..n {
        let mut p = w.peer(c, 0, false, 1 << 20, 1_000_000)?;
        for k in 0..2usize {
            p.put(&data(1, 2 * k as u32 + 1, &hello(k + 1, &one())));
        }
        w.until("the protocols", |_| {
            p.take(1 << 20);
            Ok(p.first(1).is_some() && p.first(3).is_some() && g.lock().unwrap().open.len() == 2 * (i + 1))
        })?;
        let ctx = w.opened(0)[i].clone();
        let neg = [p.first(1).unwrap().1, p.first(3).unwrap().1];
        let none: [Vec<(bool, Vec<u8>)>; 2] = Default::default();
        peers.push((p, ctx, neg, none));
    }
    w.turn(5);
    let ids: Vec<usize> = peers.iter().map(|p| p.1.id.value()).collect();
    c.note(format!("sessions {:?}", ids));
    c.nontrivial = n > 1;
    let ctl = w.nodes[0].0.control().clone();
    for m in 0..c.rng.range(1, 25) as u32 {
        let k = c.rng.below(2) as usize;
        let high = c.rng.chance(1, 2);
        let size = *c.rng.pick(&[4usize, 20, 2000]);
        let mut d = c.rng.bytes(size);
        d[..4].copy_from_slice(&m.to_be_bytes());
        let (target, named): (TargetSession, Vec<usize>) = match c.rng.below(3) {
            0 => (TargetSession::All, ids.clone()),
            1 => {
                let i = if c.rng.chance(1, 5) { 999 } else { *c.rng.pick(&ids) };
                (TargetSession::Single(i.into()), vec![i])
            }
            _ => {
                let v: Vec<usize> = (0..c.rng.below(5)).map(|_| if c.rng.chance(1, 4) { 900 + c.rng.below(9) as usize } else { *c.rng.pick(&ids) }).collect();
                (TargetSession::Multi(v.iter().map(|i| (*i).into()).collect()), v)
            }
        };
        c.note(format!("message {} protocol {} high {} size {} to {:?}", m, k + 1, high, size, target));
        let b = Bytes::from(d.clone());
        let r = if high { ctl.quick_filter_broadcast(target, (k + 1).into(), b) } else { ctl.filter_broadcast(target, (k + 1).into(), b) };
        ensure!(r.is_ok(), "sending is refused: {:?}", r);
        for i in named {
            if let Some(p) = peers.iter_mut().find(|p| p.1.id.value() == i) {
                p.3[k].push((high, d.clone()));
            }
        }
        if c.rng.chance(1, 2) {
            w.turn(2);
        }
    }
    w.until("all messages on the wire", |_| {
        let mut done = true;
        for p in peers.iter_mut() {
            p.0.take(1 << 20);
            p.0.grant();
            ensure!(p.0.over.is_empty(), "the service ends the stream or the session");
            done &= (0..2).all(|i| p.0.streams[&(2 * i as u32 + 1)].len() >= p.2[i] + p.3[i].iter().map(|m| m.1.len() + 4).sum::<usize>());
        }
        Ok(done)
    })?;
    w.turn(8);
    for p in peers.iter_mut() {
        p.0.take(1 << 20);
        for i in 0..2 {
            check_frames(&p.0.streams[&(2 * i as u32 + 1)][p.2[i]..], &p.3[i]).map_err(|e| format!("session {} protocol {}: {}", p.1.id, i + 1, e))?;
        }
    }
    Ok(())
}

/// C24: connections of real peers, with and without keys
pub fn sessions(c: &mut Case) -> Res {
    let secure = c.rng.chance(1, 2);
    let max = *c.rng.pick(&[0usize, 1, 2, 3, 5]);
    let mut w = World::new();
    let g: Got = Default::default();
    let b = |k: Option<SecioKeyPair>, max: usize, g: &Got| {
        let mut b = ServiceBuilder::default().forever(true).max_connection_number(max).insert_protocol(proto(1, 0, &[], g)).timeout(Duration::from_secs(5));
        if let Some(k) = k {
            b = b.key_pair(k);
        }
        b
    };
    c.note(format!("maximum {} secure {}", max, secure));
    let distinct = |w: &World| -> Res {
        let o = w.open_now(0);
        let ids: BTreeSet<usize> = o.iter().map(|x| x.id.value()).collect();
        ensure!(ids.len() == o.len(), "open sessions share an id: {:?}", o);
        ensure!(o.len() <= max, "{} sessions are open, the maximum is {}", o.len(), max);
        for (i, x) in o.iter().enumerate() {
            for y in &o[..i] {
                ensure!(x.remote_pubkey.is_none() || x.remote_pubkey != y.remote_pubkey, "two open sessions have the same key");
            }
        }
        Ok(())
    };
    if !secure {
        w.add(b(None, max, &g), g.clone());
        let mut peers: Vec<Peer> = vec![];
        for _ in 0..c.rng.range(2, 8) {
            if c.rng.chance(1, 4) && !peers.is_empty() {
                let i = c.rng.below(peers.len() as u64) as usize;
                let p = peers.remove(i);
                if let Io::Mem(r, x) = &p.io {
                    x.lock().unwrap().close();
                    r.lock().unwrap().close();
                }
                c.note("a peer goes away");
            } else {
                let out = c.rng.chance(1, 3);
                peers.push(w.connect(c, 0, out, 1 << 20, 1_000_000)?);
                c.note("a peer connects");
            }
            for _ in 0..8 {
                w.turn(2);
                distinct(&w)?;
                std::thread::sleep(Duration::from_micros(200));
            }
            c.note(format!("{} sessions open", w.open_now(0).len()));
        }
        c.nontrivial = !w.opened(0).is_empty();
        return Ok(());
    }
    let keys: Vec<SecioKeyPair> = (0..2).map(|_| SecioKeyPair::secp256k1_generated()).collect();
    w.add(b(Some(own()), max, &g), g.clone());
    for k in &keys {
        w.add(b(Some(k.clone()), 100, &Default::default()), Default::default());
    }
    // another node with a key that is taken
    w.add(b(Some(keys[0].clone()), 100, &Default::default()), Default::default());
    let addrs: Vec<Multiaddr> = (0..4).map(|i| w.listen(i)).collect::<Result<_, _>>()?;
    for _ in 0..c.rng.range(2, 6) {
        let n = c.rng.range(1, 3) as usize;
        let truth = if n == 3 { 0 } else { n - 1 };
        if c.rng.chance(1, 2) {
            // the node is dialled, perhaps under a wrong name
            let mut a: Multiaddr = addrs[n].iter().filter(|p| !matches!(p, Protocol::P2P(_))).map(|p| p.acquire()).collect();
            let named = if c.rng.chance(2, 3) { Some(c.rng.below(2) as usize) } else { None };
            if let Some(k) = named {
                a.push(Protocol::P2P(std::borrow::Cow::Owned(keys[k].public_key().peer_id().into_bytes())));
            }
            let before = w.opened(0).len();
            let wrong = named.map_or(false, |k| k != truth);
            c.note(format!("dial node {} as {:?}", n, named));
            let _ = w.nodes[0].0.control().dial(a.clone(), TargetProtocol::All);
            let t0 = Instant::now();
            while t0.elapsed() < Duration::from_millis(40) {
                w.turn(2);
                distinct(&w)?;
                if w.opened(0).len() > before {
                    break;
                }
            }
            if wrong {
                let o = w.opened(0);
                ensure!(o[before..].iter().all(|x| x.ty.is_inbound() || x.remote_pubkey == named.map(|k| keys[k].public_key())), "a dial to {} became a session with another key", a);
            }
        } else {
            c.note(format!("node {} dials", n));
            let a = addrs[0].clone();
            let _ = w.nodes[n].0.control().dial(a, TargetProtocol::All);
            let t0 = Instant::now();
            while t0.elapsed() < Duration::from_millis(25) {
                w.turn(2);
                distinct(&w)?;
            }
        }
    }
    c.nontrivial = !w.opened(0).is_empty();
    Ok(())
}

/// C27: attempts that fail; the service ends when the last one has, and not before
pub fn attempts(c: &mut Case) -> Res {
    let mut w = World::new();
    let g: Got = Default::default();
    w.add(ServiceBuilder::default().forever(false).key_pair(own()).timeout(Duration::from_millis(120)).insert_protocol(proto(1, 0, &[], &g)), g.clone());
    let silent = TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
    let quiet = socketaddr_to_multiaddr(silent.local_addr().unwrap());
    let closed = {
        let l = TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
        socketaddr_to_multiaddr(l.local_addr().unwrap())
    };
    let hangs = c.rng.range(1, 3) as usize;
    for _ in 0..hangs {
        let s = &mut w.nodes[0].0;
        let a = quiet.clone();
        w.rt.block_on(s.dial(a, TargetProtocol::All)).map(|_| ()).map_err(|e| format!("{:?}", e))?;
    }
    let refused = c.rng.below(2) as usize;
    let ctl = w.nodes[0].0.control().clone();
    for _ in 0..refused {
        let _ = ctl.dial(closed.clone(), TargetProtocol::All);
    }
    let taken = c.rng.below(2) as usize;
    for _ in 0..taken {
        let _ = ctl.listen(quiet.clone());
    }
    c.note(format!("{} dials that hang, {} refused, {} listens on a taken address", hangs, refused, taken));
    c.nontrivial = true;
    let t0 = Instant::now();
    loop {
        let end = w.turn(2);
        let l = w.nodes[0].1 .0.lock().unwrap();
        let done = l.dial_errors.len() == hangs + refused && l.listen_errors.len() == taken;
        drop(l);
        if end {
            ensure!(done, "the service ends before its attempts have: {:?} {:?}", w.nodes[0].1 .0.lock().unwrap().dial_errors, w.nodes[0].1 .0.lock().unwrap().listen_errors);
            return Ok(());
        }
        std::thread::sleep(Duration::from_millis(2));
        ensure!(t0.elapsed() < Duration::from_secs(15), "all attempts have ended: {}, and the service does not end", done);
    }
}

/// the clock of the runtime stands still and is moved by hand
impl World {
    fn hold(&mut self) {
        self.rt.block_on(async { tokio::time::pause() });
        // a runtime with nothing to do would move the clock itself
        self.rt.spawn(async {
            loop {
                tokio::task::yield_now().await
            }
        });
    }
    fn advance(&mut self, c: &mut Case, ms: u64) {
        let mut left = ms;
        while left > 0 {
            let k = if c.rng.chance(1, 2) { left } else { c.rng.range(1, left) };
            self.rt.block_on(async { tokio::time::advance(Duration::from_millis(k)).await });
            self.turn(3);
            left -= k;
        }
        self.settle();
    }
    /// everything that can happen without the clock moving happens
    fn settle(&mut self) {
        for _ in 0..4 {
            self.turn(4);
            std::thread::sleep(Duration::from_micros(500));
        }
        self.turn(4);
    }
    fn errors(&self, n: usize) -> String {
        let l = self.nodes[n].1 .0.lock().unwrap();
        let ids: Vec<_> = l.timeouts.iter().map(|x| x.id).collect();
        let sel: Vec<_> = l.select_errors.iter().map(|x| (x.0.clone(), x.1.id)).collect();
        if l.dial_errors.is_empty() && ids.is_empty() && sel.is_empty() {
            return String::new();
        }
        format!("dial errors {:?}, timed out {:?}, not opened {:?}", l.dial_errors, ids, sel)
    }
}
/// reads what is there; true at the end of the stream
fn drained(t: &mut TcpStream, n: &mut usize) -> bool {
    let mut b = [0u8; 4096];
    loop {
        match t.read(&mut b) {
            Ok(0) => return true,
            Ok(k) => *n += k,
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => return false,
            Err(_) => return true,
        }
    }
}

/// C31: what makes no progress ends at the configured time and not before; what does make progress stays
pub fn deadlines(c: &mut Case) -> Res {
    let fixed = c.rng.0;
    let pick = if fixed < 16 { fixed } else { c.rng.below(16) };
    let out = pick % 2 == 0;
    match pick / 2 {
        0 | 1 => stalled_handshake(c, out),
        2 | 3 => idle_session(c, out),
        4 | 5 => busy_session(c, out, false),
        _ => busy_session(c, out, true),
    }
}
fn stalled_handshake(c: &mut Case, out: bool) -> Res {
    let t = c.rng.range(40, 4000);
    let mut w = World::new();
    w.hold();
    let g: Got = Default::default();
    w.add(ServiceBuilder::default().forever(true).key_pair(own()).timeout(Duration::from_millis(t)).insert_protocol(proto(1, 0, &[], &g)), g.clone());
    c.note(format!("a peer that stops in the handshake, outbound {} after {} ms", out, t));
    c.nontrivial = true;
    let (mut p, addr) = if out {
        let l = TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
        let a = socketaddr_to_multiaddr(l.local_addr().unwrap());
        if c.rng.chance(1, 2) {
            let s = &mut w.nodes[0].0;
            w.rt.block_on(s.dial(a.clone(), TargetProtocol::All)).map(|_| ()).map_err(|e| format!("dial: {:?}", e))?;
        } else {
            w.turn(2);
            w.nodes[0].0.control().dial(a.clone(), TargetProtocol::All).map_err(|e| format!("dial: {:?}", e))?;
        }
        l.set_nonblocking(true).map_err(|e| e.to_string())?;
        let mut got = None;
        w.until("the connection", |_| {
            got = l.accept().ok();
            Ok(got.is_some())
        })?;
        (got.unwrap().0, Some(a))
    } else {
        let a = w.listen(0)?;
        (TcpStream::connect(multiaddr_to_socketaddr(&a).unwrap()).map_err(|e| e.to_string())?, None)
    };
    p.set_nonblocking(true).map_err(|e| e.to_string())?;
    let mut n = 0;
    // the service says its part, the peer at most announces a frame
    let say = c.rng.below(5) as usize;
    let _ = p.write(&[0, 0, 1, 44][..say.min(4)]);
    w.until("the first message of the handshake", |w| {
        let over = drained(&mut p, &mut n);
        ensure!(!over, "the connection is closed before its time: {}", w.errors(0));
        Ok(n > 0)
    })?;
    w.settle();
    w.advance(c, t - 10);
    let over = drained(&mut p, &mut n);
    ensure!(w.errors(0).is_empty() && !over, "10 ms before the time is up: {} closed {}", w.errors(0), over);
    w.advance(c, 30);
    w.until("the end of the connection", |_| Ok(drained(&mut p, &mut n)))?;
    if let Some(a) = addr {
        w.until("the report of the failed dial", |w| Ok(!w.errors(0).is_empty()))?;
        let l = w.nodes[0].1 .0.lock().unwrap();
        let e = &l.dial_errors;
        ensure!(e.len() == 1 && e[0].contains("Timeout") && e[0].contains(&a.to_string()), "a handshake that timed out is reported as {:?}", e);
    }
    w.settle();
    ensure!(w.opened(0).is_empty(), "a session opens after a handshake that timed out");
    Ok(())
}
fn idle_session(c: &mut Case, out: bool) -> Res {
    let t = c.rng.range(40, 4000);
    let mut w = World::new();
    w.hold();
    let g: Got = Default::default();
    let kind = c.rng.below(4);
    w.add(ServiceBuilder::default().forever(true).timeout(Duration::from_millis(t)).insert_protocol(proto(1, kind, &[], &g)), g.clone());
    c.note(format!("a session on which nothing is opened, outbound {} after {} ms", out, t));
    c.nontrivial = true;
    let mut p = w.peer(c, 0, out, 1 << 20, 1_000_000)?;
    // a stream whose negotiation does not go on is no open protocol
    if !out && c.rng.chance(1, 2) {
        p.put(&data(1, 1, &hello(1, &one())[..c.rng.below(6) as usize]));
    }
    w.settle();
    let id = w.opened(0)[0].id;
    w.advance(c, t - 10);
    p.take(1 << 20);
    ensure!(w.errors(0).is_empty() && w.open_now(0).len() == 1, "10 ms before the time is up: {} sessions, {}", w.open_now(0).len(), w.errors(0));
    w.advance(c, 30);
    w.until("the report of the timeout", |w| Ok(!w.nodes[0].1 .0.lock().unwrap().timeouts.is_empty()))?;
    w.until("the end of the session", |w| Ok(w.open_now(0).is_empty()))?;
    let l = w.nodes[0].1 .0.lock().unwrap();
    ensure!(l.timeouts.len() == 1 && l.timeouts[0].id == id, "sessions {:?} are reported to have timed out", l.timeouts.iter().map(|x| x.id).collect::<Vec<_>>());
    Ok(())
}
/// a session with an open protocol; with `more` the negotiation of a second one stops
fn busy_session(c: &mut Case, out: bool, more: bool) -> Res {
    let t = c.rng.range(40, 3000);
    let mut w = World::new();
    w.hold();
    let g: Got = Default::default();
    let kind = c.rng.below(4);
    w.add(ServiceBuilder::default().forever(true).timeout(Duration::from_millis(t)).insert_protocol(proto(1, kind, &[], &g)).insert_protocol(proto(2, kind, &[], &g)), g.clone());
    let mut p = w.peer(c, 0, out, 1 << 20, 1_000_000)?;
    w.settle();
    let wait = if t > 60 && c.rng.chance(1, 2) { c.rng.range(1, t - 20) } else { 0 };
    let late = c.rng.chance(1, 2);
    c.note(format!("a session on which a protocol is opened after {} of {} ms, outbound {}, another one is begun {}{}", wait, t, out, more, if more && late { " and ends late" } else { "" }));
    c.nontrivial = true;
    w.advance(c, wait);
    // the protocols come in any order when the service asks for them
    let ask = |p: &Peer, s: u32| p.first(s).and_then(|f| wire::parse(&f.0)).and_then(|x| x.0.trim_start_matches("/p2p/").parse::<usize>().ok());
    let mut first = 1;
    if out {
        w.until("the service asking to open its protocols", |_| {
            p.take(1 << 20);
            Ok(ask(&p, 1).is_some() && ask(&p, 3).is_some())
        })?;
        first = ask(&p, 1).unwrap();
        p.put(&data(2, 1, &hello(first, &one())));
        if !more {
            let q = ask(&p, 3).unwrap();
            p.put(&data(2, 3, &hello(q, &one())));
        }
    } else {
        p.put(&data(1, 1, &hello(1, &one())));
    }
    let other = 3 - first;
    let begun = if out { wait } else { 0 };
    w.until("opening the protocol", |_| {
        p.take(1 << 20);
        Ok(g.lock().unwrap().open.iter().any(|x| x.0 == first))
    })?;
    if more && !out {
        p.put(&data(1, 3, &hello(2, &one())[..c.rng.below(6) as usize]));
    }
    w.settle();
    if more {
        if late {
            w.advance(c, t - 10 - begun);
            ensure!(w.errors(0).is_empty(), "10 ms before the time is up: {}", w.errors(0));
            let h = hello(other, &one());
            let had = 0;
            if out {
                p.put(&data(2, 3, &h[had..]));
            } else {
                // a second stream, so that the first one stays where it was
                p.put(&data(1, 5, &h));
            }
            w.until("opening the other protocol", |_| {
                p.take(1 << 20);
                Ok(g.lock().unwrap().open.iter().any(|x| x.0 == other))
            })?;
            if out {
                w.advance(c, 2 * t + 50);
                ensure!(w.errors(0).is_empty(), "all was opened in time: {}", w.errors(0));
            }
        } else {
            w.advance(c, t - 10 - begun);
            ensure!(w.errors(0).is_empty(), "10 ms before the time is up: {}", w.errors(0));
        }
        if !(late && out) {
            w.advance(c, 30);
            w.until("the report of the protocol that was not opened", |w| Ok(!w.nodes[0].1 .0.lock().unwrap().select_errors.is_empty()))?;
            let l = w.nodes[0].1 .0.lock().unwrap();
            ensure!(l.select_errors.len() == 1 && l.timeouts.is_empty(), "{} protocols are reported not to open, {} sessions to have timed out", l.select_errors.len(), l.timeouts.len());
        }
    } else {
        w.advance(c, 2 * t + 50);
        ensure!(w.errors(0).is_empty(), "all was opened in time: {}", w.errors(0));
    }
    ensure!(w.open_now(0).len() == 1, "the session with an open protocol is closed");
    p.put(&data(0, 1, &wire::frame(b"still here")));
    w.until("a message on the open protocol", |_| {
        p.take(1 << 20);
        Ok(g.lock().unwrap().got.iter().any(|x| x.0 == first && x.1 == b"still here"))
    })
}
