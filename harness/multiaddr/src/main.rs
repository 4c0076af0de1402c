//! Executes the real multiaddr code against an independent encoder and a list model.
use bytes::{Bytes, BytesMut};
use hx::{ensure, Case, Res};
use std::borrow::Cow;
use std::convert::TryFrom;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use tentacle_multiaddr::{Multiaddr, Protocol};

#[derive(Clone, PartialEq, Debug)]
enum V {
    Dns4(String),
    Dns6(String),
    Ip4([u8; 4]),
    Ip6([u8; 16]),
    P2p(Vec<u8>),
    Tcp(u16),
    Tls(String),
    Ws,
    Wss,
}

fn varint(mut n: u64, o: &mut Vec<u8>) {
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
    }
}
fn unvarint(b: &[u8]) -> Option<(u64, &[u8])> {
    let mut n = 0u128;
    for (i, x) in b.iter().enumerate().take(10) {
        n |= ((x & 0x7f) as u128) << (7 * i);
        if x & 0x80 == 0 {
            if (*x == 0 && i > 0) || n > u64::max_value() as u128 {
                return None;
            }
            return Some((n as u64, &b[i + 1..]));
        }
    }
    None
}
fn put(code: u64, s: &[u8], o: &mut Vec<u8>) {
    varint(code, o);
    varint(s.len() as u64, o);
    o.extend_from_slice(s);
}
fn enc(v: &V, o: &mut Vec<u8>) {
    match v {
        V::Dns4(s) => put(54, s.as_bytes(), o),
        V::Dns6(s) => put(55, s.as_bytes(), o),
        V::Tls(s) => put(448, s.as_bytes(), o),
        V::P2p(b) => put(421, b, o),
        V::Ip4(a) => {
            o.push(4);
            o.extend_from_slice(a);
        }
        V::Ip6(a) => {
            o.push(41);
            o.extend_from_slice(a);
        }
        V::Tcp(p) => {
            o.push(6);
            o.push((p >> 8) as u8);
            o.push(*p as u8);
        }
        V::Ws => varint(477, o),
        V::Wss => varint(478, o),
    }
}
fn encs(s: &[V]) -> Vec<u8> {
    let mut o = vec![];
    for v in s {
        enc(v, &mut o);
    }
    o
}
fn is_peer(b: &[u8]) -> bool {
    b.len() == 34 && b[0] == 0x12 && b[1] == 32
}
/// strict decoder: exactly the images of encs
fn dec(mut b: &[u8]) -> Option<Vec<V>> {
    let mut r = vec![];
    while !b.is_empty() {
        let (code, t) = unvarint(b)?;
        b = t;
        let fixed = |n: usize, b: &[u8]| -> Option<Vec<u8>> { b.get(..n).map(|x| x.to_vec()) };
        match code {
            4 => {
                let d = fixed(4, b)?;
                r.push(V::Ip4([d[0], d[1], d[2], d[3]]));
                b = &b[4..];
            }
            41 => {
                let d = fixed(16, b)?;
                let mut a = [0; 16];
                a.copy_from_slice(&d);
                r.push(V::Ip6(a));
                b = &b[16..];
            }
            6 => {
                let d = fixed(2, b)?;
                r.push(V::Tcp(u16::from(d[0]) << 8 | u16::from(d[1])));
                b = &b[2..];
            }
            477 => r.push(V::Ws),
            478 => r.push(V::Wss),
            54 | 55 | 448 | 421 => {
                let (n, t) = unvarint(b)?;
                if n > t.len() as u64 {
                    return None;
                }
                let d = t[..n as usize].to_vec();
                b = &t[n as usize..];
                if code == 421 {
                    if !is_peer(&d) {
                        return None;
                    }
                    r.push(V::P2p(d));
                } else {
                    let s = String::from_utf8(d).ok()?;
                    r.push(match code {
                        54 => V::Dns4(s),
                        55 => V::Dns6(s),
                        _ => V::Tls(s),
                    });
                }
            }
            _ => return None,
        }
    }
    Some(r)
}
fn v6(a: &[u8; 16]) -> Ipv6Addr {
    Ipv6Addr::from(*a)
}
fn proto(v: &V) -> Protocol<'static> {
    match v {
        V::Dns4(s) => Protocol::DNS4(Cow::Owned(s.clone())),
        V::Dns6(s) => Protocol::DNS6(Cow::Owned(s.clone())),
        V::Tls(s) => Protocol::TLS(Cow::Owned(s.clone())),
        V::P2p(b) => Protocol::P2P(Cow::Owned(b.clone())),
        V::Ip4(a) => Protocol::IP4(Ipv4Addr::from(*a)),
        V::Ip6(a) => Protocol::IP6(v6(a)),
        V::Tcp(p) => Protocol::TCP(*p),
        V::Ws => Protocol::Ws,
        V::Wss => Protocol::Wss,
    }
}
/// compares field by field, without the PartialEq of the crate
fn same(p: &Protocol<'_>, v: &V) -> bool {
    match (p, v) {
        (Protocol::DNS4(a), V::Dns4(b)) => a.as_bytes() == b.as_bytes(),
        (Protocol::DNS6(a), V::Dns6(b)) => a.as_bytes() == b.as_bytes(),
        (Protocol::TLS(a), V::Tls(b)) => a.as_bytes() == b.as_bytes(),
        (Protocol::P2P(a), V::P2p(b)) => a[..] == b[..],
        (Protocol::IP4(a), V::Ip4(b)) => a.octets() == *b,
        (Protocol::IP6(a), V::Ip6(b)) => a.octets() == *b,
        (Protocol::TCP(a), V::Tcp(b)) => a == b,
        (Protocol::Ws, V::Ws) => true,
        (Protocol::Wss, V::Wss) => true,
        _ => false,
    }
}
fn holds(m: &Multiaddr, s: &[V]) -> bool {
    let c: Vec<_> = m.iter().collect();
    c.len() == s.len() && c.iter().zip(s).all(|(p, v)| same(p, v)) && m.as_ref() == &encs(s)[..]
}

fn name(c: &mut Case, slash: bool) -> String {
    let n = match c.rng.below(8) {
        0 => 0,
        1 => 1,
        2 => c.rng.range(120, 135),
        3 => c.rng.range(250, 260),
        4 => c.rng.range(16380, 16390),
        _ => c.rng.range(2, 30),
    };
    let mut s = String::new();
    while (s.len() as u64) < n {
        let x = match c.rng.below(12) {
            0 => 'é',
            1 => '漢',
            2 => '.',
            3 => ' ',
            4 if slash => '/',
            5 => '\u{0}',
            _ => (b'a' + c.rng.below(26) as u8) as char,
        };
        s.push(x);
    }
    s
}
fn comp(c: &mut Case, slash: bool) -> V {
    match c.rng.below(9) {
        0 => V::Dns4(name(c, slash)),
        1 => V::Dns6(name(c, slash)),
        2 => V::Ip4(addr4(c)),
        3 => V::Ip6(addr6(c)),
        4 => {
            let mut b = vec![0x12, 32];
            let d = match c.rng.below(4) {
                0 => vec![0; 32],
                1 => vec![0xff; 32],
                _ => c.rng.bytes(32),
            };
            b.extend(d);
            V::P2p(b)
        }
        5 => V::Tcp(c.rng.edge(65535) as u16),
        6 => V::Tls(name(c, slash)),
        7 => V::Ws,
        _ => V::Wss,
    }
}
fn addr4(c: &mut Case) -> [u8; 4] {
    let mut a = [0; 4];
    for x in a.iter_mut() {
        *x = c.rng.edge(255) as u8;
    }
    a
}
fn addr6(c: &mut Case) -> [u8; 16] {
    let mut a = [0; 16];
    match c.rng.below(5) {
        0 => (),
        1 => a[15] = 1,
        2 => {
            // mapped
            a[10] = 0xff;
            a[11] = 0xff;
            a[12..].copy_from_slice(&addr4(c));
        }
        _ => {
            for x in a.iter_mut() {
                *x = if c.rng.chance(1, 2) { 0 } else { c.rng.edge(255) as u8 };
            }
        }
    }
    a
}
fn seq(c: &mut Case, slash: bool) -> Vec<V> {
    let n = c.rng.below(7);
    (0..n).map(|_| comp(c, slash)).collect()
}
fn short(s: &[V]) -> String {
    let t = format!("{:?}", s);
    t.chars().take(300).collect()
}

// ---------------------------------------------------------------- C17
fn binary(c: &mut Case) -> Res {
    let s = seq(c, true);
    c.nontrivial = !s.is_empty();
    c.note(format!("components {}", short(&s)));
    let want = encs(&s);
    let m: Multiaddr = s.iter().map(proto).collect();
    ensure!(m.to_vec() == want, "from_iter encodes {:x?}, not {:x?}", m.to_vec(), want);
    ensure!(m.len() == want.len() && m.is_empty() == want.is_empty(), "len");
    ensure!(holds(&m, &s), "the built address does not iterate to its components");
    for k in 0..3 {
        let r = match k {
            0 => Multiaddr::try_from(want.clone()),
            1 => Multiaddr::try_from(Bytes::from(want.clone())),
            _ => Multiaddr::try_from(BytesMut::from(&want[..])),
        };
        let d = match r {
            Ok(d) => d,
            Err(e) => return Err(format!("valid address refused: {}", e)),
        };
        ensure!(holds(&d, &s), "decoded components differ");
        ensure!(d == m, "decoded address is not equal");
    }
    // one component in front of other bytes
    for v in s.iter() {
        let mut b = vec![];
        enc(v, &mut b);
        let k = b.len();
        let t = c.rng.below(5) as usize;
        b.extend(c.rng.bytes(t));
        match Protocol::from_bytes(&b) {
            Ok((p, rest)) => {
                ensure!(same(&p, v), "component decodes to {:?}, not {:?}", p, v);
                ensure!(rest == &b[k..], "wrong remainder");
                let mut w = b"x".to_vec();
                p.write_to_bytes(&mut w);
                ensure!(w[1..] == b[..k], "component re-encodes differently");
                let q = p.acquire();
                ensure!(same(&q, v), "acquire changed the component");
            }
            Err(e) => return Err(format!("valid component refused: {}", e)),
        }
    }
    if let [V::Ip4(a)] = s[..] {
        ensure!(holds(&Multiaddr::from(Ipv4Addr::from(a)), &s) && holds(&Multiaddr::from(IpAddr::V4(Ipv4Addr::from(a))), &s), "From ipv4");
    }
    if let [V::Ip6(a)] = s[..] {
        ensure!(holds(&Multiaddr::from(v6(&a)), &s) && holds(&Multiaddr::from(IpAddr::V6(v6(&a))), &s), "From ipv6");
    }
    if s.len() == 1 {
        ensure!(holds(&Multiaddr::from(proto(&s[0])), &s), "From protocol");
    }
    let cb = serde_cbor::to_vec(&m).map_err(|e| e.to_string())?;
    match serde_cbor::from_slice::<Multiaddr>(&cb) {
        Ok(d) => ensure!(holds(&d, &s), "serde binary round trip changed the address"),
        Err(e) => return Err(format!("serde binary form refused: {}", e)),
    }
    Ok(())
}
fn judge_bytes(b: &[u8]) -> Res {
    let want = dec(b);
    match Multiaddr::try_from(b.to_vec()) {
        Err(e) => ensure!(want.is_none(), "bytes of a valid address refused: {} {:x?}", e, b),
        Ok(m) => {
            ensure!(m.as_ref() == b, "stored bytes differ");
            let cs: Vec<_> = m.iter().collect();
            let mut w = BytesMut::new();
            for p in &cs {
                p.write_to_bytes(&mut w);
            }
            ensure!(w[..] == b[..], "accepted bytes {:x?} re-encode as {:x?}", b, &w[..]);
            let mut n = m.clone();
            for p in cs.iter().rev() {
                match n.pop() {
                    Some(q) => ensure!(q == *p, "pop returned {:?}, not {:?}", q, p),
                    None => return Err("pop ran out".into()),
                }
            }
            ensure!(n.is_empty() && n.pop().is_none(), "components left over");
            if let Some(s) = want {
                ensure!(holds(&m, &s), "accepted with other components");
            }
        }
    }
    Ok(())
}
fn hostile(c: &mut Case) -> Res {
    let s = seq(c, true);
    let mut b = encs(&s);
    let codes = [54u64, 55, 4, 41, 421, 6, 448, 477, 478];
    match c.rng.below(6) {
        0 => {
            let n = c.rng.below(40) as usize;
            b = c.rng.bytes(n);
        }
        1 => {
            let n = c.rng.range(1, 4);
            for _ in 0..n {
                if !b.is_empty() {
                    let k = c.rng.below(b.len() as u64) as usize;
                    b[k] = if c.rng.chance(1, 2) { b[k] ^ (1 << c.rng.below(8)) } else { c.rng.below(256) as u8 };
                }
            }
        }
        2 => {
            let k = c.rng.below(b.len() as u64 + 1) as usize;
            b.truncate(k);
        }
        3 => {
            // a stretched varint for the code or the length
            let code = *c.rng.pick(&codes);
            let mut o = vec![];
            varint(code, &mut o);
            if c.rng.chance(1, 2) {
                *o.last_mut().unwrap() |= 0x80;
                o.extend(std::iter::repeat(0x80).take(c.rng.below(4) as usize));
                o.push(0);
            }
            let n = c.rng.below(36);
            let mut l = vec![];
            varint(n, &mut l);
            if c.rng.chance(1, 2) {
                *l.last_mut().unwrap() |= 0x80;
                l.extend(std::iter::repeat(0x80).take(c.rng.below(9) as usize));
                l.push(0);
            }
            o.extend(l);
            o.extend(c.rng.bytes(n as usize));
            b.extend(o);
        }
        4 => {
            // huge lengths
            let code = *c.rng.pick(&codes);
            varint(code, &mut b);
            let n = match c.rng.below(5) {
                0 => u64::max_value(),
                1 => 1 << 63,
                2 => 1 << 32,
                3 => (1 << 31) - 1,
                _ => c.rng.below(300),
            };
            varint(n, &mut b);
            let k = c.rng.below(40) as usize;
            b.extend(c.rng.bytes(k));
        }
        _ => {
            // near peer ids
            let mut p = vec![0x12, 32];
            let n = c.rng.range(29, 35) as usize;
            p.extend(c.rng.bytes(n));
            match c.rng.below(5) {
                0 => p[0] = c.rng.below(256) as u8,
                1 => p[1] = c.rng.range(28, 36) as u8,
                2 => {
                    p[0] = 0x92;
                    p.insert(1, 0);
                }
                3 => {
                    p[0] = 0x92;
                    p.insert(1, 0x80);
                    p.insert(2, 0);
                }
                _ => (),
            }
            put(421, &p, &mut b);
        }
    }
    c.note(format!("bytes {:x?}", &b[..b.len().min(200)]));
    c.nontrivial = true;
    judge_bytes(&b)?;
    // the same bytes through serde
    let mut cb = vec![0x5a];
    cb.extend_from_slice(&(b.len() as u32).to_be_bytes());
    cb.extend_from_slice(&b);
    if let Ok(m) = serde_cbor::from_slice::<Multiaddr>(&cb) {
        ensure!(m.as_ref() == &b[..], "serde accepted bytes and changed them");
        let again: Multiaddr = m.iter().collect();
        ensure!(again == m, "serde accepted bytes that re-encode differently");
    } else {
        ensure!(dec(&b).is_none(), "serde refused the bytes of a valid address");
    }
    let _ = Protocol::from_bytes(&b).map(|(p, r)| {
        let mut w = vec![];
        p.write_to_bytes(&mut w);
        w.extend_from_slice(r);
        w == b
    });
    Ok(())
}
fn all_small(c: &mut Case, n: u64) -> Res {
    // every byte string of length 0..2, and every third byte for the first two of a table
    c.nontrivial = true;
    let a = n as u8;
    judge_bytes(&[])?;
    judge_bytes(&[a])?;
    for x in 0..=255u8 {
        judge_bytes(&[a, x])?;
        for y in [0u8, 1, 2, 3, 4, 6, 0x12, 0x20, 0x29, 0x36, 0x7f, 0x80, 0x81, 0xff].iter() {
            judge_bytes(&[a, x, *y])?;
            judge_bytes(&[a, x, *y, 0])?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C18
fn text(c: &mut Case) -> Res {
    let s = seq(c, false);
    c.nontrivial = !s.is_empty();
    c.note(format!("components {}", short(&s)));
    let m: Multiaddr = s.iter().map(proto).collect();
    let t = m.to_string();
    for k in 0..3 {
        let r = match k {
            0 => t.parse::<Multiaddr>(),
            1 => Multiaddr::try_from(t.clone()),
            _ => Multiaddr::try_from(&t[..]),
        };
        match r {
            Ok(d) => {
                ensure!(d == m, "the text {} parses to another address", t);
                ensure!(holds(&d, &s), "the text {} parses to other components", t);
            }
            Err(e) => return Err(format!("the text {} is refused: {}", t, e)),
        }
    }
    let js = serde_json::to_string(&m).map_err(|e| e.to_string())?;
    match serde_json::from_str::<Multiaddr>(&js) {
        Ok(d) => ensure!(d == m, "serde text round trip changed the address"),
        Err(e) => return Err(format!("serde text form refused: {}", e)),
    }
    Ok(())
}
fn judge_text(t: &str) -> Res {
    if let Ok(m) = t.parse::<Multiaddr>() {
        let s = m.to_string();
        match s.parse::<Multiaddr>() {
            Ok(d) => ensure!(d == m, "{:?} parses, prints as {:?} and parses to another address", t, s),
            Err(e) => return Err(format!("{:?} parses but prints as {:?} which is refused: {}", t, s, e)),
        }
        match Multiaddr::try_from(m.to_vec()) {
            Ok(d) => ensure!(d == m && d.iter().count() == m.iter().count(), "a parsed address does not survive its bytes"),
            Err(e) => return Err(format!("{:?} parses to bytes that are refused: {}", t, e)),
        }
    }
    Ok(())
}
fn texts(c: &mut Case) -> Res {
    let words = ["dns4", "dns6", "ip4", "ip6", "p2p", "tcp", "tls", "ws", "wss", "", "p2p-circuit", "IP4", "udp", "127.0.0.1", "0.0.0.0", "256.1.1.1", "::1", "::ffff:1.2.3.4", "::", "1::2::3", "0", "65535", "65536", "-1", "+5", "00080", " 80",
        "QmNQ4jky6uVqLDrPU7snqxARuNGWNLgSrTnssbRuy3ij2W", "QmNQ4jky6uVqLDrPU7snqxARuNGWNLgSrTnssbRuy3ij2", "0OIl", "localhost", "a.b", "漢", "\u{0}"];
    let n = c.rng.below(9);
    let mut t = String::new();
    for i in 0..n {
        if i > 0 || c.rng.chance(9, 10) {
            t.push('/');
        }
        if c.rng.chance(1, 12) {
            let k = c.rng.below(60) as usize;
            let b = c.rng.bytes(k);
            t.push_str(&bs58::encode(b).into_string());
        } else {
            t.push_str(c.rng.pick(&words));
        }
    }
    if c.rng.chance(1, 6) {
        // a component sequence with one character changed
        let s = seq(c, false);
        let m: Multiaddr = s.iter().map(proto).collect();
        let mut v: Vec<char> = m.to_string().chars().take(400).collect();
        if !v.is_empty() {
            let k = c.rng.below(v.len() as u64) as usize;
            match c.rng.below(3) {
                0 => v[k] = *c.rng.pick(&['/', '0', 'z', ':', '.', 'é']),
                1 => {
                    v.remove(k);
                }
                _ => v.insert(k, *c.rng.pick(&['/', '0', 'z', ':', '.', 'é'])),
            }
        }
        t = v.into_iter().collect();
    }
    c.note(format!("text {:?}", t));
    c.nontrivial = true;
    judge_text(&t)
}
fn history(c: &mut Case) -> Res {
    let mut s = seq(c, true);
    let mut m: Multiaddr = s.iter().map(proto).collect();
    let n = c.rng.range(3, 25);
    c.nontrivial = true;
    c.note(format!("start {}", short(&s)));
    for _ in 0..n {
        match c.rng.below(5) {
            0 | 1 => {
                let v = comp(c, true);
                c.note(format!("push {:.60}", format!("{:?}", v)));
                let before = m.clone();
                m.push(proto(&v));
                let mut x = m.clone();
                match x.pop() {
                    Some(p) => ensure!(same(&p, &v), "popped {:?} after pushing {:?}", p, v),
                    None => return Err("nothing to pop after push".into()),
                }
                ensure!(x == before && x.to_vec() == before.to_vec(), "push then pop does not restore the address");
                s.push(v);
            }
            2 => {
                let q = m.pop();
                c.note("pop");
                match (q, s.pop()) {
                    (None, None) => (),
                    (Some(p), Some(v)) => ensure!(same(&p, &v), "popped {:?}, not {:?}", p, v),
                    (p, v) => return Err(format!("popped {:?}, expected {:?}", p, v)),
                }
            }
            _ => {
                let at = c.rng.below(s.len() as u64 + 2) as usize;
                let v = comp(c, true);
                let give = c.rng.chance(4, 5);
                c.note(format!("replace {} {}", at, give));
                let mut seen: Vec<String> = vec![];
                let r = m.replace(at, |p| {
                    seen.push(format!("{}", at < s.len() && same(p, &s[at])));
                    if give {
                        Some(proto(&v))
                    } else {
                        None
                    }
                });
                if at < s.len() {
                    ensure!(seen == vec!["true".to_string()], "replace handed over another component");
                } else {
                    ensure!(seen.is_empty(), "replace called the function out of bounds");
                }
                match r {
                    Some(x) => {
                        ensure!(at < s.len() && give, "replace returned an address it should not");
                        s[at] = v;
                        m = x;
                    }
                    None => ensure!(at >= s.len() || !give, "replace gave no address"),
                }
            }
        }
        ensure!(holds(&m, &s), "address holds {:?}, expected {}", m.iter().collect::<Vec<_>>(), short(&s));
        ensure!((&m).into_iter().count() == s.len(), "into_iter");
    }
    Ok(())
}

fn run(prop: &str, c: &mut Case) -> Res {
    let seed = c.rng.0;
    match prop {
        "C17" => {
            if seed < 256 {
                return all_small(c, seed);
            }
            if c.rng.chance(1, 2) {
                binary(c)
            } else {
                hostile(c)
            }
        }
        "C18" => match c.rng.below(3) {
            0 => text(c),
            1 => texts(c),
            _ => history(c),
        },
        _ => Err("unknown property".into()),
    }
}
fn fixed(prop: &str) -> u64 {
    match prop {
        "C17" => 256,
        _ => 0,
    }
}
fn main() {
    hx::main(run, fixed);
}
