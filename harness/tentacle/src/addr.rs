//! C26: addresses
use hx::{ensure, Case, Res};
use std::borrow::Cow;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV6};
use tentacle::multiaddr::{Multiaddr, Protocol};
use tentacle::secio::PeerId;
use tentacle::utils::{extract_peer_id, is_reachable, multiaddr_to_socketaddr, socketaddr_to_multiaddr};

fn in4(ip: u32, net: u32, bits: u32) -> bool {
    bits == 0 || (ip ^ net) >> (32 - bits) == 0
}
/// ranges that are never publicly reachable, written out
const R4: [(u32, u32); 10] = [
    (0x0a000000, 8),
    (0xac100000, 12),
    (0xc0a80000, 16),
    (0x7f000000, 8),
    (0xa9fe0000, 16),
    (0xffffffff, 32),
    (0xc0000200, 24),
    (0xc6336400, 24),
    (0xcb007100, 24),
    (0, 32),
];
fn in6(ip: u128, net: u128, bits: u32) -> bool {
    (ip ^ net) >> (128 - bits) == 0
}
const R6: [(u128, u32); 6] = [(1, 128), (0, 128), (0xfe80 << 112, 10), (0xfec0 << 112, 10), (0xfc00 << 112, 7), (0x20010db8 << 96, 32)];
fn special(ip: IpAddr) -> bool {
    match ip {
        IpAddr::V4(v) => R4.iter().any(|(n, b)| in4(v.into(), *n, *b)),
        IpAddr::V6(v) => {
            let x: u128 = v.into();
            R6.iter().any(|(n, b)| in6(x, *n, *b)) || (x >> 120 == 0xff && (x >> 112) & 0xf != 0xe)
        }
    }
}
fn ip(c: &mut Case) -> IpAddr {
    let r = &mut c.rng;
    if r.chance(1, 2) {
        let mut x = r.next() as u32;
        if r.chance(2, 3) {
            let (n, b) = *r.pick(&R4);
            let host = if b == 32 { 0 } else { x & (u32::max_value() >> b) };
            x = n | match r.below(4) {
                0 => 0,
                1 if b < 32 => u32::max_value() >> b,
                _ => host,
            };
            if r.chance(1, 4) {
                x = x.wrapping_add(*r.pick(&[1, u32::max_value(), 1 << (32 - b).min(31), 0u32.wrapping_sub(1 << (32 - b).min(31))]));
            }
        }
        IpAddr::V4(Ipv4Addr::from(x))
    } else {
        let mut x = (r.next() as u128) << 64 | r.next() as u128;
        match r.below(5) {
            0 | 1 => {
                let (n, b) = *r.pick(&R6);
                x = if b == 128 { n } else { n | (x & (u128::max_value() >> b)) };
                if r.chance(1, 4) && b < 128 {
                    x ^= 1u128 << (128 - b + r.below(3) as u32).min(127);
                }
            }
            2 => x = 0xff << 120 | (x & (u128::max_value() >> 8)),
            3 => x = 0xffff_0000_0000 | (x & 0xffff_ffff),
            _ => {}
        }
        IpAddr::V6(Ipv6Addr::from(x))
    }
}
#[cfg(feature = "hooks")]
fn kind(a: &Multiaddr) -> Option<String> {
    Some(tentacle::verif_hooks::find_type(a))
}
#[cfg(not(feature = "hooks"))]
fn kind(_: &Multiaddr) -> Option<String> {
    None
}
pub fn run(c: &mut Case) -> Res {
    if c.rng.0 < 64 {
        // every range border
        let i = c.rng.0 as usize;
        let mut v: Vec<IpAddr> = vec![];
        if i < 10 {
            let (n, b) = R4[i];
            let top = n | if b == 32 { 0 } else { u32::max_value() >> b };
            for x in &[n, top, n.wrapping_sub(1), top.wrapping_add(1)] {
                v.push(Ipv4Addr::from(*x).into());
            }
        } else if i < 16 {
            let (n, b) = R6[i - 10];
            let top = n | if b == 128 { 0 } else { u128::max_value() >> b };
            for x in &[n, top, n.wrapping_sub(1), top.wrapping_add(1)] {
                v.push(Ipv6Addr::from(*x).into());
            }
        } else {
            for f in 0..16u128 {
                for s in 0..16u128 {
                    v.push(Ipv6Addr::from(0xff << 120 | f << 116 | s << 112 | i as u128).into());
                }
            }
        }
        for a in v {
            c.note(format!("{}", a));
            c.nontrivial = true;
            ensure!(!(special(a) && is_reachable(a)), "{} is reported as publicly reachable", a);
        }
        return Ok(());
    }
    let a = ip(c);
    let port = c.rng.edge(65535) as u16;
    let s = match a {
        IpAddr::V6(v) if c.rng.chance(1, 4) => SocketAddr::V6(SocketAddrV6::new(v, port, c.rng.next() as u32, c.rng.next() as u32)),
        _ => SocketAddr::new(a, port),
    };
    c.note(format!("socket address {}", s));
    ensure!(!(special(a) && is_reachable(a)), "{} is reported as publicly reachable", a);
    let m = socketaddr_to_multiaddr(s);
    let back = multiaddr_to_socketaddr(&m);
    ensure!(back.map(|b| (b.ip(), b.port())) == Some((s.ip(), s.port())), "{} becomes {} and then {:?}", s, m, back);
    let want = match a {
        IpAddr::V4(v) => vec![Protocol::IP4(v), Protocol::TCP(port)],
        IpAddr::V6(v) => vec![Protocol::IP6(v), Protocol::TCP(port)],
    };
    ensure!(m.iter().map(|p| p.acquire()).collect::<Vec<_>>() == want, "{} becomes {}", s, m);
    let m2: Result<Multiaddr, _> = m.to_string().parse();
    ensure!(m2.ok().as_ref() == Some(&m), "{} does not parse back", m);

    // arbitrary component sequences
    let n = c.rng.below(8);
    let ids: Vec<PeerId> = (0..2).map(|_| PeerId::random()).collect();
    let key = PeerId::random();
    let mut comps: Vec<Protocol<'static>> = vec![];
    for _ in 0..n {
        let p = match c.rng.below(11) {
            0 | 1 => match ip(c) {
                IpAddr::V4(v) => Protocol::IP4(v),
                IpAddr::V6(v) => Protocol::IP6(v),
            },
            2 | 3 | 4 => Protocol::TCP(c.rng.next() as u16),
            5 => Protocol::P2P(Cow::Owned(c.rng.pick(&ids).clone().into_bytes())),
            6 => Protocol::P2P(Cow::Owned(key.clone().into_bytes())),
            7 => Protocol::Ws,
            8 => Protocol::Wss,
            9 => Protocol::TLS(Cow::Borrowed("name")),
            _ => match c.rng.below(2) {
                0 => Protocol::DNS4(Cow::Borrowed("a.b")),
                _ => Protocol::DNS6(Cow::Borrowed("a.b")),
            },
        };
        comps.push(p);
    }
    let m: Multiaddr = comps.iter().cloned().collect();
    c.note(format!("multiaddr {}", m));
    c.nontrivial = n > 1;
    let mut want = None;
    for w in comps.windows(2) {
        let i: IpAddr = match w[0] {
            Protocol::IP4(v) => v.into(),
            Protocol::IP6(v) => v.into(),
            _ => continue,
        };
        if let Protocol::TCP(p) = w[1] {
            want = Some(SocketAddr::new(i, p));
            break;
        }
    }
    ensure!(multiaddr_to_socketaddr(&m) == want, "{}: socket address {:?}, the first host with a port is {:?}", m, multiaddr_to_socketaddr(&m), want);
    let wid: Vec<Vec<u8>> = comps.iter().filter_map(|p| if let Protocol::P2P(b) = p { Some(b.to_vec()) } else { None }).collect();
    let gid = extract_peer_id(&m).map(|p| p.into_bytes());
    ensure!(gid.as_ref() == wid.first(), "{}: peer id {:?}, the first one is {:?}", m, gid, wid.first());
    let mut wk: Vec<&str> = comps
        .iter()
        .filter_map(|p| match p {
            Protocol::Ws => Some("Ws"),
            Protocol::Wss => Some("Wss"),
            Protocol::TLS(_) => Some("TLS"),
            _ => None,
        })
        .collect();
    if wk.is_empty() {
        wk.push("Tcp");
    }
    if let Some(k) = kind(&m) {
        ensure!(wk[0] == k, "{}: transport {}, named {:?}", m, k, wk);
    }
    Ok(())
}
