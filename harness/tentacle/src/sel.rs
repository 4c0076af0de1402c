//! C19: the negotiation between real and independent ends
use crate::util::*;
use crate::wire::*;
use futures::FutureExt;
use hx::{ensure, Case, Res};
use std::future::Future;
use std::task::{Context, Poll};
use tentacle::verif_hooks as vh;

type Out = Result<(String, Option<String>), String>;
fn drive(mut a: Option<&mut (dyn Future<Output = Out> + Unpin)>, mut b: Option<&mut (dyn Future<Output = Out> + Unpin)>, mut hook: impl FnMut() -> bool) -> (Option<Out>, Option<Out>) {
    let w = noop();
    let mut cx = Context::from_waker(&w);
    let (mut x, mut y) = (None, None);
    let mut idle = 0;
    while idle < 40000 {
        if let (Some(f), None) = (a.as_mut(), &x) {
            if let Poll::Ready(v) = f.poll_unpin(&mut cx) {
                x = Some(v);
            }
        }
        if let (Some(f), None) = (b.as_mut(), &y) {
            if let Poll::Ready(v) = f.poll_unpin(&mut cx) {
                y = Some(v);
            }
        }
        let moved = hook();
        if (a.is_none() || x.is_some()) && (b.is_none() || y.is_some()) {
            break;
        }
        idle = if moved { 0 } else { idle + 1 };
    }
    (x, y)
}
pub fn run(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let names = ["/p/1", "/p/2", "", "/protocol/with/a/longer/name"];
    let name = r.pick(&names).to_string();
    let cl = list(r, true);
    let protos: Vec<(String, Vec<String>)> = {
        let mut p: Vec<(String, Vec<String>)> = vec![];
        for n in names.iter() {
            if r.chance(3, 4) {
                let mut l = list(r, true);
                if r.chance(1, 2) {
                    for v in cl.iter() {
                        if r.chance(1, 3) {
                            let at = r.below(l.len() as u64 + 1) as usize;
                            l.insert(at, v.clone());
                        }
                    }
                }
                p.push((n.to_string(), l));
            }
        }
        p
    };
    let known = protos.iter().find(|p| p.0 == name).map(|p| p.1.clone());
    let want = known.as_ref().and_then(|l| best(&cl, l));
    let (chunk, stall) = (*r.pick(&[1usize, 3, 17, 100000]), *r.pick(&[0u64, 3, 10]));
    let (ea, eb) = pair(r, 1 << 20, chunk, stall);
    let kind = r.below(4);
    // a selector of the protocol's own is asked instead of the default
    let own = r.chance(1, 8);
    let asked = protos.clone();
    let server = |io: End, own: bool| {
        let p = asked
            .iter()
            .map(|(n, l)| {
                let f: Option<tentacle::protocol_select::SelectFn<String>> = if own { Some(Box::new(|a: &[String], b: &[String]| a.iter().find(|v| b.contains(v)).cloned())) } else { None };
                (n.clone(), l.clone(), f)
            })
            .collect();
        async move { vh::server(io, p).await.map(|(_, n, v)| (n, v)).map_err(|e| e.to_string()) }
    };
    let nm = name.clone();
    let client = |io: End, l: Vec<String>| async move { vh::client(io, &nm, l).await.map(|(_, n, v)| (n, v)).map_err(|e| e.to_string()) };
    c.note(format!("kind {} name {:?} client {:?} server {:?} own selector {}", kind, name, cl, protos, own));
    c.nontrivial = want.is_some();
    match kind {
        0 => {
            let mut f = Box::pin(client(ea, cl.clone()));
            let mut g = Box::pin(server(eb, own));
            let (x, y) = drive(Some(&mut f), Some(&mut g), || false);
            let x = x.ok_or("the client does not finish")?;
            let y = y.ok_or("the server does not finish")?;
            c.note(format!("client {:?} server {:?}", x, y));
            match (&x, &y) {
                (Ok(a), Ok(b)) => {
                    ensure!(a.1 == b.1, "the ends disagree on the version: client {:?}, server {:?}", a, b);
                    ensure!(a.1.is_none() || (a.0 == b.0 && a.0 == name), "the ends disagree on the protocol: client {:?}, server {:?}, asked {:?}", a, b, name);
                    ensure!(a.1.is_none() || known.is_some(), "agreed on {:?}, which the server does not support", a);
                    if !own {
                        ensure!(a.1 == want, "agreed on {:?}, the greatest common version is {:?}", a.1, want);
                    }
                }
                (a, b) => {
                    let none = |o: &Out| !matches!(o, Ok((_, Some(_))));
                    ensure!(none(a) && none(b), "one end fails, the other agrees: client {:?}, server {:?}", a, b);
                    ensure!(want.is_none(), "negotiation failed although {:?} is common: client {:?}, server {:?}", want, a, b);
                }
            }
        }
        1 => {
            // independent client
            let (mine, theirs) = (ea.wr.clone(), ea.rd.clone());
            let msg = info(name.as_bytes(), &cl.iter().map(|v| v.as_bytes().to_vec()).collect::<Vec<_>>());
            mine.lock().unwrap().put(&frame(&msg));
            let mut g = Box::pin(server(eb, false));
            let (_, y) = drive(None, Some(&mut g), || false);
            let y = y.ok_or("the server does not finish")?;
            let ans = theirs.lock().unwrap().take(1 << 20);
            c.note(format!("server {:?} answered {:?}", y, ans));
            match &y {
                Ok((n, v)) => {
                    ensure!(*v == want, "the server chose {:?}, the greatest common version is {:?}", v, want);
                    let said = if ans.len() >= 4 { parse(&ans[4..]) } else { None };
                    if v.is_some() {
                        ensure!(*n == name, "the server chose protocol {:?} for {:?}", n, name);
                        ensure!(said == Some((n.clone(), v.clone().into_iter().collect())), "the server decided {:?} but told the client {:?}", y, said);
                    } else {
                        ensure!(said.map_or(true, |s| s.1.is_empty()), "the server found nothing in common but offered the client a version");
                    }
                }
                Err(e) => ensure!(want.is_none(), "the server failed ({}) although {:?} is common", e, want),
            }
        }
        2 => {
            // independent server: one version or none
            let (mine, theirs) = (eb.wr.clone(), eb.rd.clone());
            let v = if c.rng.chance(1, 3) || cl.is_empty() { None } else { Some(c.rng.pick(&cl).clone()) };
            let reply = info(name.as_bytes(), &v.iter().map(|v| v.as_bytes().to_vec()).collect::<Vec<_>>());
            mine.lock().unwrap().put(&frame(&reply));
            let mut f = Box::pin(client(ea, cl.clone()));
            let (x, _) = drive(Some(&mut f), None, || false);
            let x = x.ok_or("the client does not finish")?;
            let sent = theirs.lock().unwrap().take(1 << 20);
            let asked = if sent.len() >= 4 { parse(&sent[4..]) } else { None };
            ensure!(asked == Some((name.clone(), cl.clone())) , "the client asked {:?} for {:?} {:?}", asked, name, cl);
            match x {
                Ok((n, got)) => ensure!(got == v && (v.is_none() || n == name), "the server said {:?} of {:?}, the client took {:?} of {:?}", v, name, got, n),
                Err(e) => ensure!(v.is_none(), "the client failed ({}) on a good answer", e),
            }
        }
        _ => {
            // malformed bytes to either end
            let mut msg = info(name.as_bytes(), &cl.iter().map(|v| v.as_bytes().to_vec()).collect::<Vec<_>>());
            match c.rng.below(5) {
                0 => {
                    let n = c.rng.below(200) as usize;
                    msg = c.rng.bytes(n)
                }
                1 => {
                    let n = c.rng.below(msg.len() as u64) as usize;
                    msg.truncate(n)
                }
                2 => {
                    for _ in 0..c.rng.range(1, 4) {
                        let i = c.rng.below(msg.len() as u64) as usize;
                        msg[i] = c.rng.next() as u8;
                    }
                }
                3 => {
                    let i = 4 * c.rng.below(msg.len() as u64 / 4) as usize;
                    let v = *c.rng.pick(&[0u32, 1, 4, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000]);
                    msg[i..i + 4].copy_from_slice(&v.to_le_bytes());
                }
                _ => msg = info(b"\xff\xfe", &[b"\xc0".to_vec()]),
            }
            let to_client = c.rng.chance(1, 2);
            let mut raw = frame(&msg);
            if c.rng.chance(1, 6) {
                let n = c.rng.below(raw.len() as u64 + 1) as usize;
                raw.truncate(n);
            }
            if c.rng.chance(1, 10) && !raw.is_empty() {
                raw[0] = 0x7f.min(raw[0].wrapping_sub(1));
            }
            c.note(format!("bytes {:?} to {}", raw, if to_client { "client" } else { "server" }));
            let good = if raw.len() >= 4 && raw[..4] == (raw.len() as u32 - 4).to_be_bytes() { parse(&raw[4..]) } else { None };
            let out = if to_client {
                eb.wr.lock().unwrap().put(&raw);
                eb.wr.lock().unwrap().close();
                let mut f = Box::pin(client(ea, cl.clone()));
                drive(Some(&mut f), None, || false).0
            } else {
                ea.wr.lock().unwrap().put(&raw);
                ea.wr.lock().unwrap().close();
                let mut g = Box::pin(server(eb, false));
                drive(None, Some(&mut g), || false).1
            };
            let out = out.ok_or("malformed negotiation bytes are never answered")?;
            c.note(format!("{:?} (independent reading: {:?})", out, good));
            if good.is_none() {
                ensure!(!matches!(out, Ok((_, Some(_)))), "malformed negotiation bytes gave {:?}", out);
            }
        }
    }
    Ok(())
}
