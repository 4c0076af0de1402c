//! C24, C25, C27: the service, driven step by step or over loopback
use crate::base::*;
use crate::util::*;
use bytes::Bytes;
use hx::{ensure, Case, Res};
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Mutex};
use std::task::Context;
use std::time::{Duration, Instant};
use tentacle::builder::{MetaBuilder, ServiceBuilder};
use tentacle::context::{ServiceContext, SessionContext};
use tentacle::multiaddr::{Multiaddr, Protocol};
use tentacle::secio::{PublicKey, SecioKeyPair};
use tentacle::service::verif_hooks as sv;
use tentacle::service::{ProtocolMeta, Service, ServiceError, ServiceEvent, SessionType, TargetProtocol, TargetSession};
use tentacle::traits::ServiceHandle;
use tentacle::{ProtocolId, SessionId};

fn snap<T>(s: &Service<T>) -> BTreeMap<usize, Arc<SessionContext>> {
    sv::sessions(s).into_iter().map(|(i, c)| (i.value(), c)).collect()
}

pub fn sessions(c: &mut Case) -> Res {
    let mut rt = rt();
    let r = rt.enter(|| sessions_in(c));
    drop(rt);
    r
}
fn sessions_in(c: &mut Case) -> Res {
    let max = *c.rng.pick(&[0usize, 1, 2, 3, 4, 6, 65535]);
    let secure = c.rng.chance(4, 5);
    let forever = c.rng.chance(1, 2);
    let h = H::default();
    let mut b = ServiceBuilder::default().insert_protocol(meta(1)).max_connection_number(max).forever(forever);
    if secure {
        b = b.key_pair(own());
    }
    let mut s = b.build(h.clone());
    let start = match c.rng.below(3) {
        0 => 0,
        1 => usize::max_value() - c.rng.below(6) as usize,
        _ => c.rng.next() as usize,
    };
    sv::set_next_session(&mut s, start);
    c.note(format!("maximum {} secure {} first id {} forever {}", max, secure, start, forever));
    let wk = noop();
    let mut cx = Context::from_waker(&wk);
    let mut boxes: Vec<(usize, sv::Inbox)> = vec![];
    // some sessions that are observed from inside; ids just where the next ones would go
    for k in 0..c.rng.below(4) as usize {
        if snap(&s).len() >= max {
            break;
        }
        let id = if c.rng.chance(2, 3) { start.wrapping_add(1 + k) } else { c.rng.next() as usize };
        let ky = if secure && k == 0 { Some(key(4)) } else { None };
        let ty = if c.rng.chance(1, 2) { SessionType::Inbound } else { SessionType::Outbound };
        let i = sv::install(&mut s, id.into(), ky, ty, 16);
        c.note(format!("open session {}", id));
        boxes.push((id, i));
    }
    let mut dialled = 0usize;
    for _ in 0..c.rng.range(4, 30) {
        let before = snap(&s);
        let nopen = h.0.lock().unwrap().opened.len();
        if c.rng.chance(3, 4) {
            let k = c.rng.below(5) as usize;
            let out = c.rng.chance(1, 2);
            let mut addr: Multiaddr = format!("/ip4/127.0.0.1/tcp/{}", 1 + c.rng.below(9)).parse().unwrap();
            let named = if out && c.rng.chance(1, 2) { Some(c.rng.below(5) as usize) } else { None };
            if let Some(n) = named {
                addr.push(Protocol::P2P(std::borrow::Cow::Owned(key(n).peer_id().into_bytes())));
            }
            let pk = if secure { Some(key(k)) } else { None };
            let (mine, _theirs) = pair(&mut c.rng, 1 << 16, 1000, 0);
            let (ty, listen) = if out {
                sv::start_count(&mut s);
                dialled += 1;
                (SessionType::Outbound, None)
            } else {
                (SessionType::Inbound, Some("/ip4/127.0.0.1/tcp/1".parse().unwrap()))
            };
            // attempts that are still going on
            if c.rng.chance(1, 6) && max > 100 {
                sv::start_count(&mut s);
                dialled += 1;
            }
            sv::event(&mut s, &mut cx, sv::Ev::Opened { io: Box::new(mine), key: pk.clone(), address: addr.clone(), ty, listen });
            let after = snap(&s);
            let new: Vec<usize> = after.keys().filter(|i| !before.contains_key(i)).cloned().collect();
            c.note(format!("connection key {} {:?} to {}: sessions {:?}", k, ty, addr, after.keys()));
            let dup = pk.is_some() && before.values().any(|x| x.remote_pubkey == pk);
            let mismatch = secure && named.map_or(false, |n| n != k);
            let full = before.len() >= max;
            ensure!(new.len() <= 1, "one connection became {} sessions", new.len());
            if !new.is_empty() {
                c.nontrivial = true;
                ensure!(!dup, "a second connection to a connected key became session {}", new[0]);
                ensure!(!mismatch, "a connection with another key than the dialled peer id became session {}", new[0]);
                ensure!(!full, "session {} is opened with {} open of at most {}", new[0], before.len(), max);
                let x = &after[&new[0]];
                ensure!(x.id.value() == new[0], "session {} says its id is {}", new[0], x.id);
                ensure!(x.remote_pubkey == pk && x.ty == ty, "session {} has the key or kind of another connection", new[0]);
                ensure!(!x.closed(), "a new session is closed");
                ensure!(h.0.lock().unwrap().opened.last().map(|o| o.id.value()) == Some(new[0]), "session {} is not announced", new[0]);
            }
            let announced = h.0.lock().unwrap().opened.len() - nopen;
            ensure!(announced == new.len(), "{} sessions announced, {} opened", announced, new.len());
            for (i, x) in &before {
                ensure!(after.get(i).map_or(false, |y| Arc::ptr_eq(x, y)), "session {} is replaced or gone after a connection", i);
                ensure!(!x.closed(), "session {} is closed by another connection", i);
            }
            for (i, bx) in boxes.iter_mut() {
                if before.contains_key(i) {
                    ensure!(bx.next(&mut cx).is_none(), "session {} is told something because of another connection", i);
                }
            }
        } else {
            let id = if c.rng.chance(3, 4) && !before.is_empty() { *c.rng.pick(&before.keys().cloned().collect::<Vec<_>>()) } else { c.rng.next() as usize };
            sv::event(&mut s, &mut cx, sv::Ev::Closed(id.into()));
            boxes.retain(|b| b.0 != id);
            let after = snap(&s);
            c.note(format!("session {} closes: {:?}", id, after.keys()));
            for (i, x) in &before {
                if *i != id {
                    ensure!(after.get(i).map_or(false, |y| Arc::ptr_eq(x, y)) && !x.closed(), "session {} is affected by the end of {}", i, id);
                }
            }
        }
        let all = snap(&s);
        for (i, x) in &all {
            ensure!(x.id.value() == *i, "session {} says its id is {}", i, x.id);
        }
        if secure {
            let ks: Vec<&PublicKey> = all.values().filter_map(|x| x.remote_pubkey.as_ref()).collect();
            for (i, k) in ks.iter().enumerate() {
                ensure!(!ks[..i].contains(k), "two open sessions have the same remote key");
            }
        }
        ensure!(all.len() <= max, "{} sessions, the maximum is {}", all.len(), max);
    }
    let _ = dialled;
    Ok(())
}

type Queued = (bool, usize, Vec<u8>);
pub fn messages(c: &mut Case) -> Res {
    let mut rt = rt();
    let r = rt.enter(|| messages_in(c));
    drop(rt);
    r
}
fn messages_in(c: &mut Case) -> Res {
    let mut s = ServiceBuilder::default().insert_protocol(meta(1)).insert_protocol(meta(2)).insert_protocol(meta(3)).forever(true).build(H::default());
    // protocol 2 transforms what it sends
    sv::set_before_send(&mut s, 2.into(), Box::new(|d| d.iter().rev().map(|b| b ^ 0x55).collect::<Vec<u8>>().into()));
    let ids: Vec<usize> = {
        let mut v: Vec<usize> = (0..c.rng.range(1, 7)).map(|_| if c.rng.chance(1, 2) { 1 + c.rng.below(9) as usize } else { c.rng.next() as usize }).collect();
        v.sort();
        v.dedup();
        v
    };
    let mut boxes: BTreeMap<usize, (sv::Inbox, VecDeque<Queued>, VecDeque<Queued>, usize)> = BTreeMap::new();
    for i in &ids {
        let cap = *c.rng.pick(&[0usize, 1, 3, 100]);
        let ty = if c.rng.chance(1, 2) { SessionType::Inbound } else { SessionType::Outbound };
        boxes.insert(*i, (sv::install(&mut s, (*i).into(), None, ty, cap), Default::default(), Default::default(), 0));
    }
    c.note(format!("open sessions {:?}", ids));
    let wk = noop();
    let mut cx = Context::from_waker(&wk);
    for step in 0..c.rng.range(2, 25) {
        let p = c.rng.range(1, 3) as usize;
        let mut high = c.rng.chance(1, 2);
        let n = *c.rng.pick(&[0usize, 1, 5, 100]);
        let mut data = c.rng.bytes(n);
        if data.len() > 2 {
            data[0] = step as u8;
        }
        let sent: Vec<u8> = if p == 2 { data.iter().rev().map(|b| b ^ 0x55).collect() } else { data.clone() };
        let target = match c.rng.below(4) {
            0 => TargetSession::All,
            1 => {
                let i = if c.rng.chance(3, 4) { *c.rng.pick(&ids) } else { c.rng.next() as usize };
                TargetSession::Single(i.into())
            }
            _ => {
                let mut v: Vec<SessionId> = vec![];
                for i in &ids {
                    if c.rng.chance(1, 2) {
                        v.push((*i).into());
                    }
                    if c.rng.chance(1, 5) {
                        v.push((c.rng.next() as usize).into());
                    }
                }
                if c.rng.chance(1, 2) {
                    v.reverse();
                }
                TargetSession::Multi(v)
            }
        };
        let named: Vec<usize> = match &target {
            TargetSession::All => boxes.keys().cloned().collect(),
            TargetSession::Single(i) => vec![i.value()],
            TargetSession::Multi(v) => v.iter().map(|i| i.value()).collect(),
        };
        let d = Bytes::from(data.clone());
        let way = c.rng.below(4);
        let pid: ProtocolId = p.into();
        match way {
            0 => sv::message(&mut s, &mut cx, target.clone(), pid, high, d),
            1 => {
                let k = s.control().clone();
                let r = match (&target, high) {
                    (TargetSession::Single(i), true) => k.quick_send_message_to(*i, pid, d),
                    (TargetSession::Single(i), false) => k.send_message_to(*i, pid, d),
                    (t, true) => k.quick_filter_broadcast(t.clone(), pid, d),
                    (t, false) => k.filter_broadcast(t.clone(), pid, d),
                };
                ensure!(r.is_ok(), "sending is refused: {:?}", r);
                ensure!(sv::user_task(&mut s, &mut cx), "the message never reaches the service");
            }
            2 => {
                {
                    let k = sv::service_context(&mut s);
                    let r = match (&target, high) {
                        (TargetSession::Single(i), true) => k.quick_send_message_to(*i, pid, d),
                        (TargetSession::Single(i), false) => k.send_message_to(*i, pid, d),
                        (t, true) => k.quick_filter_broadcast(t.clone(), pid, d),
                        (t, false) => k.filter_broadcast(t.clone(), pid, d),
                    };
                    ensure!(r.is_ok(), "sending is refused: {:?}", r);
                }
                ensure!(sv::user_task(&mut s, &mut cx), "the message never reaches the service");
            }
            _ => {
                // a protocol handler answering on its own stream
                let i = *c.rng.pick(&ids);
                if !boxes.contains_key(&i) {
                    continue;
                }
                let sc = boxes[&i].0.ctx.clone();
                let mut pc = sv::proto_ctx(sv::service_context(&mut s), pid);
                {
                    let m = sv::proto_ctx_ref(&mut pc, &sc);
                    let r = if high { m.quick_send_message(d) } else { m.send_message(d) };
                    ensure!(r.is_ok(), "sending is refused: {:?}", r);
                }
                ensure!(sv::user_task(&mut s, &mut cx), "the message never reaches the service");
                c.note(format!("handler of {} on protocol {} sends {:?} high {}", i, p, data, high));
                let b = boxes.get_mut(&i).unwrap();
                if high {
                    b.1.push_back((true, p, sent.clone()))
                } else {
                    b.2.push_back((false, p, sent.clone()))
                }
                b.3 += sent.len();
                high = true;
            }
        }
        if way != 3 {
            c.note(format!("way {} target {:?} protocol {} high {} data {:?}", way, target, p, high, data));
            for i in &named {
                if let Some(b) = boxes.get_mut(i) {
                    if high {
                        b.1.push_back((true, p, sent.clone()))
                    } else {
                        b.2.push_back((false, p, sent.clone()))
                    }
                    b.3 += sent.len();
                }
            }
        }
        c.nontrivial |= boxes.len() > 1;
        for (i, b) in boxes.iter() {
            ensure!(b.0.ctx.pending_data_size() == b.3, "session {} has {} bytes queued and counts {}", i, b.3, b.0.ctx.pending_data_size());
        }
        if c.rng.chance(1, 3) {
            drain(c, &mut s, &mut cx, &mut boxes)?;
        }
        if c.rng.chance(1, 10) && boxes.len() > 1 {
            drain(c, &mut s, &mut cx, &mut boxes)?;
            let i = *c.rng.pick(&boxes.keys().cloned().collect::<Vec<_>>());
            sv::event(&mut s, &mut cx, sv::Ev::Closed(i.into()));
            boxes.remove(&i);
            c.note(format!("session {} closes", i));
        }
    }
    drain(c, &mut s, &mut cx, &mut boxes)
}
fn drain(c: &mut Case, s: &mut Service<H>, cx: &mut Context, boxes: &mut BTreeMap<usize, (sv::Inbox, VecDeque<Queued>, VecDeque<Queued>, usize)>) -> Res {
    let mut idle = 0;
    while idle < 2 {
        idle += 1;
        sv::flush(s, cx);
        for (i, b) in boxes.iter_mut() {
            while let Some((high, m)) = b.0.next(cx) {
                idle = 0;
                let (id, p, d) = m.ok_or_else(|| format!("session {} is told something else than a message", i))?;
                ensure!(id.value() == *i, "session {} is given a message for {}", i, id);
                let got = (high, p.value(), d.to_vec());
                let want = if high { b.1.pop_front() } else { b.2.pop_front() };
                ensure!(want.as_ref() == Some(&got), "session {} is given {:?}, expected {:?}", i, got, want);
            }
        }
    }
    for (i, b) in boxes.iter() {
        ensure!(b.1.is_empty() && b.2.is_empty(), "session {} is never given {:?} {:?}", i, b.1, b.2);
    }
    c.note("queues compared");
    Ok(())
}

pub fn attempts(c: &mut Case) -> Res {
    if c.rng.0 < 8 || c.rng.chance(1, 60) {
        return attempts_net(c);
    }
    let mut rt = rt();
    let r = rt.enter(|| attempts_in(c));
    drop(rt);
    r
}
#[derive(Clone, Debug)]
enum A {
    Dial(Multiaddr),
    Listen(Multiaddr),
}
fn attempts_in(c: &mut Case) -> Res {
    let forever = c.rng.chance(1, 4);
    let h = H::default();
    let mut b = ServiceBuilder::default().insert_protocol(meta(1)).forever(forever).max_connection_number(*c.rng.pick(&[1usize, 2, 65535]));
    let secure = c.rng.chance(1, 2);
    if secure {
        b = b.key_pair(own());
    }
    let mut s = b.build(h.clone());
    let wk = noop();
    let mut cx = Context::from_waker(&wk);
    let mut going: Vec<A> = vec![];
    let mut closing = false;
    c.note(format!("forever {}", forever));
    let addr = |c: &mut Case| -> Multiaddr { format!("/ip4/127.0.0.1/tcp/{}", 1 + c.rng.below(6)).parse().unwrap() };
    for _ in 0..c.rng.range(3, 40) {
        let before = sv::pending(&s);
        match c.rng.below(10) {
            0..=2 => {
                // through the public interface; what cannot start counts nothing
                let bad = c.rng.chance(1, 4);
                let a: Multiaddr = if bad { "/p2p/QmcgpsyWgH8Y8ajJz1Cu72KnS5uo2Aa2LpzU7kinSupNKC".parse().unwrap() } else { addr(c) };
                let dial = c.rng.chance(1, 2);
                let nerr = {
                    let l = h.0.lock().unwrap();
                    l.dial_errors.len() + l.listen_errors.len()
                };
                let r = if dial { s.control().dial(a.clone(), TargetProtocol::All) } else { s.control().listen(a.clone()) };
                if r.is_err() {
                    continue;
                }
                if !sv::user_task(&mut s, &mut cx) {
                    continue;
                }
                let failed = {
                    let l = h.0.lock().unwrap();
                    l.dial_errors.len() + l.listen_errors.len()
                } > nerr;
                let after = sv::pending(&s);
                c.note(format!("{} {}: {:?} -> {:?}{}", if dial { "dial" } else { "listen" }, a, before, after, if failed { " failed" } else { "" }));
                if let (Some(x), Some(y)) = (before, after) {
                    ensure!(y == x || y == x + 1, "starting one attempt changed the count from {} to {}", x, y);
                    ensure!(!failed || y == x, "an attempt that failed to start is counted");
                    if y > x {
                        going.push(if dial { A::Dial(a) } else { A::Listen(a) });
                    } else {
                        let dup = going.iter().any(|g| match g {
                            A::Dial(b) => dial && *b == a,
                            _ => false,
                        }) || (!dial && sv::listens(&s).contains(&a)) || (dial && sv::dialing(&s) > 0);
                        ensure!(failed || dup, "an attempt was started and not counted");
                    }
                }
            }
            3..=6 if !going.is_empty() && !forever && !closing => {
                let i = c.rng.below(going.len() as u64) as usize;
                let g = going.remove(i);
                let ev = match (&g, c.rng.below(3)) {
                    (A::Dial(a), 0) => sv::Ev::DialError(a.clone()),
                    (A::Dial(a), 1) => sv::Ev::HandshakeError(a.clone(), SessionType::Outbound),
                    (A::Dial(a), _) => {
                        let (io, _) = pair(&mut c.rng, 1 << 16, 1000, 0);
                        let mut a = a.clone();
                        let mut k = None;
                        if secure {
                            k = Some(key(c.rng.below(3) as usize));
                            if c.rng.chance(1, 3) {
                                a.push(Protocol::P2P(std::borrow::Cow::Owned(key(0).peer_id().into_bytes())));
                            }
                        }
                        sv::Ev::Opened { io: Box::new(io), key: k, address: a, ty: SessionType::Outbound, listen: None }
                    }
                    (A::Listen(a), 0) => sv::Ev::Listening(a.clone()),
                    (A::Listen(a), _) => sv::Ev::ListenStartError(a.clone()),
                };
                sv::event(&mut s, &mut cx, ev);
                c.note(format!("end of {:?}: {:?} -> {:?}", g, before, sv::pending(&s)));
            }
            7 => {
                // things that are no end of an attempt
                let a = addr(c);
                let what = c.rng.below(4);
                let ev = match what {
                    0 => sv::Ev::HandshakeError(a, SessionType::Inbound),
                    1 => {
                        let (io, _) = pair(&mut c.rng, 1 << 16, 1000, 0);
                        let k = if secure { Some(key(c.rng.below(5) as usize)) } else { None };
                        sv::Ev::Opened { io: Box::new(io), key: k, address: a.clone(), ty: SessionType::Inbound, listen: Some(a) }
                    }
                    2 => {
                        if !sv::listens(&s).contains(&a) {
                            sv::add_listen(&mut s, a.clone());
                        }
                        sv::Ev::ListenError(a)
                    }
                    _ => sv::Ev::Closed((c.rng.below(5) as usize).into()),
                };
                sv::event(&mut s, &mut cx, ev);
                c.note(format!("other event {}: {:?} -> {:?}", what, before, sv::pending(&s)));
            }
            8 if c.rng.chance(1, 12) && !closing => {
                let r = if c.rng.chance(1, 2) { s.control().close() } else { s.control().shutdown() };
                if r.is_ok() {
                    while sv::user_task(&mut s, &mut cx) {
                        if sv::is_shutdown(&s) && sv::pending(&s).is_none() {
                            break;
                        }
                    }
                    closing = true;
                    c.note("closing");
                }
            }
            _ => {}
        }
        c.nontrivial |= going.len() > 1;
        if closing {
            ensure!(sv::is_shutdown(&s), "a closing service stopped closing");
            ensure!(sv::pending(&s).is_none(), "a closing service counts attempts again");
        } else if forever {
            ensure!(!sv::is_shutdown(&s), "a service kept alive forever considers itself idle");
        } else {
            ensure!(sv::pending(&s) == Some(going.len()), "{} attempts are in progress, the service counts {:?}", going.len(), sv::pending(&s));
            ensure!(sv::is_shutdown(&s) == going.is_empty(), "idle is {} with {} attempts in progress", sv::is_shutdown(&s), going.len());
        }
    }
    Ok(())
}
/// real attempts over loopback: when all have ended the count is zero, and not before
fn attempts_net(c: &mut Case) -> Res {
    let mut rt = rt();
    let h = H::default();
    let secure = c.rng.chance(1, 2);
    let mut b = ServiceBuilder::default().insert_protocol(meta(1)).forever(false).timeout(Duration::from_millis(150));
    if secure {
        b = b.key_pair(own());
    }
    let mut s = b.build(h.clone());
    let n = c.rng.range(1, 5);
    // never accepts: a dial to it connects and then hangs in the secure handshake
    let silent = std::net::TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
    let closed = {
        let l = std::net::TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
        l.local_addr().unwrap().port()
    };
    let ctl = s.control().clone();
    let (mut dials, mut listens) = (0usize, 0usize);
    let mut seen = vec![];
    // a live listener keeps the service from ending before it has looked at its tasks
    let live = rt.block_on(s.listen("/ip4/127.0.0.1/tcp/0".parse().unwrap())).map_err(|e| format!("{:?}", e))?;
    for i in 0..n {
        match c.rng.below(6) {
            0 => {
                let _ = ctl.listen(format!("/ip4/127.0.0.1/tcp/{}", 0).parse().unwrap());
                if !seen.contains(&0) {
                    seen.push(0);
                }
                listens += 1;
                c.note("listen on a free port");
            }
            1 => {
                let a: Multiaddr = format!("/ip4/127.0.0.1/tcp/{}", silent.local_addr().unwrap().port()).parse().unwrap();
                let _ = ctl.listen(a);
                listens += 1;
                c.note("listen on a port in use");
            }
            2 => {
                let a: Multiaddr = format!("/ip4/127.0.0.1/tcp/{}/p2p/QmcgpsyWgH8Y8ajJz1Cu72KnS5uo2Aa2LpzU7kinSupNKC", closed).parse().unwrap();
                let _ = ctl.dial(a, TargetProtocol::All);
                dials += 1;
                c.note("dial a closed port");
            }
            3 => {
                let a: Multiaddr = format!("/ip4/127.0.0.1/tcp/{}", silent.local_addr().unwrap().port()).parse().unwrap();
                let _ = ctl.dial(a, TargetProtocol::All);
                dials += 1;
                c.note("dial a silent peer");
            }
            4 => {
                let _ = ctl.dial("/p2p/QmcgpsyWgH8Y8ajJz1Cu72KnS5uo2Aa2LpzU7kinSupNKC".parse().unwrap(), TargetProtocol::All);
                dials += 1;
                c.note("dial an address without a host");
            }
            _ => {
                // an address that is listened on already, but not under this name
                let port = live.iter().find_map(|p| if let Protocol::TCP(t) = p { Some(t) } else { None }).unwrap();
                let _ = ctl.listen(format!("/ip4/127.0.0.1/tcp/{}/p2p/QmcgpsyWgH8Y8ajJz1Cu72KnS5uo2Aa2LpzU7kinSupNKC", port).parse().unwrap());
                listens += 1;
                c.note("listen on a live address again");
            }
        }
        let _ = i;
    }
    c.nontrivial = true;
    let n_started = (dials + listens) as u64;
    let end = Instant::now() + Duration::from_secs(30);
    let mut top = 0;
    let mut quiet = 0;
    let r: Res = rt.block_on(futures::future::poll_fn(|cx| {
        use futures::Stream;
        let p = std::pin::Pin::new(&mut s).poll_next(cx);
        let n = sv::pending(&s);
        top = top.max(n.unwrap_or(0));
        let ended = matches!(p, std::task::Poll::Ready(None));
        if ended {
            return std::task::Poll::Ready(Err("the service ends although it still listens".into()));
        }
        if n == Some(0) {
            quiet += 1;
        } else {
            quiet = 0;
        }
        if quiet > 40 {
            return std::task::Poll::Ready(Ok(()));
        }
        if let Some(x) = n {
            if x as u64 > n_started {
                return std::task::Poll::Ready(Err(format!("at most {} attempts were started, the service counts {}", n_started, x)));
            }
        }
        if Instant::now() > end {
            return std::task::Poll::Ready(Err(format!("all attempts have ended, the service still counts {:?}", n)));
        }
        let w = cx.waker().clone();
        tokio::spawn(async move {
            tokio::time::delay_for(Duration::from_millis(3)).await;
            w.wake();
        });
        std::task::Poll::Pending
    }));
    let l = h.0.lock().unwrap();
    c.note(format!("most attempts at once {}, dial errors {:?}, listen errors {:?}, started {}", top, l.dial_errors, l.listen_errors, l.started));
    r
}
