//! Executes the real secure channel against an independent peer and independent AEAD implementation.
#[cfg_attr(feature = "flat", path = "flat.rs")]
#[cfg_attr(not(feature = "flat"), path = "mol.rs")]
mod codec;
mod net;
mod peer;
use futures::future::{join, FutureExt};
use hx::{ensure, Case, Res};
use net::*;
use peer::{Alter, Ci};
use std::collections::VecDeque;
use std::pin::Pin;
use tentacle_secio::crypto::{cipher::CipherType, new_stream, BoxStreamCipher, CryptoMode};
use tentacle_secio::{handshake::Config, Digest, PeerId, PublicKey, SecioKeyPair};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};

// the two cipher back ends a native build leaves out are compiled here from the same source files
#[cfg(feature = "hooks")]
mod crypto {
    pub use tentacle_secio::crypto::verif_hooks::nonce_advance;
    pub use tentacle_secio::crypto::{cipher, CryptoMode, StreamCipher};
}
#[cfg(feature = "hooks")]
mod error {
    pub use tentacle_secio::error::*;
}
#[cfg(feature = "hooks")]
#[allow(dead_code)]
#[path = "/repo/secio/src/crypto/ring_impl.rs"]
mod ring_impl;
#[cfg(feature = "hooks")]
#[allow(dead_code)]
#[path = "/repo/secio/src/crypto/wasm_compat.rs"]
mod wasm_compat;

const ALL: [(Ci, CipherType); 3] = [(Ci::A128, CipherType::Aes128Gcm), (Ci::A256, CipherType::Aes256Gcm), (Ci::Cha, CipherType::ChaCha20Poly1305)];

/// back ends: 0 the running one, 1 ring, 2 wasm
fn backend(c: &mut Case) -> u64 {
    if cfg!(feature = "hooks") {
        c.rng.below(3)
    } else {
        0
    }
}
#[cfg(feature = "hooks")]
fn cipher(b: u64, t: CipherType, key: &[u8], m: CryptoMode) -> BoxStreamCipher {
    match b {
        1 => Box::new(ring_impl::RingAeadCipher::new(t, key, m)),
        2 => Box::new(wasm_compat::WasmCrypt::new(t, key)),
        _ => new_stream(t, key, m),
    }
}
#[cfg(not(feature = "hooks"))]
fn cipher(_: u64, t: CipherType, key: &[u8], m: CryptoMode) -> BoxStreamCipher {
    new_stream(t, key, m)
}

// ---------------------------------------------------------------- C11
#[cfg(feature = "hooks")]
fn counters(c: &mut Case) -> Res {
    // every carry position of a 12 byte counter, then random starts
    let len = 12usize;
    let mut v = match c.rng.below(3) {
        0 => {
            let k = c.rng.below(len as u64 + 1) as usize;
            let mut v = c.rng.bytes(len);
            for x in v[..k].iter_mut() {
                *x = 255;
            }
            v
        }
        1 => vec![255; len],
        _ => c.rng.bytes(len),
    };
    for _ in 0..3 {
        let mut want = v.clone();
        let mut carry = true;
        for x in want.iter_mut() {
            if carry {
                let (y, o) = x.overflowing_add(1);
                *x = y;
                carry = o;
            }
        }
        let before = v.clone();
        tentacle_secio::crypto::verif_hooks::nonce_advance(&mut v);
        ensure!(v == want, "nonce {:?} is followed by {:?} instead of {:?}", before, v, want);
    }
    Ok(())
}
#[cfg(not(feature = "hooks"))]
fn counters(_: &mut Case) -> Res {
    Ok(())
}
fn c11(c: &mut Case, fixed: u64) -> Res {
    c.nontrivial = true;
    for _ in 0..200 {
        counters(c)?;
    }
    let b = if fixed < 3 { 0 } else { backend(c) };
    let (ci, t) = if b == 2 { ALL[2] } else if fixed < 3 { ALL[fixed as usize] } else { *c.rng.pick(&ALL) };
    let key = c.rng.bytes(ci.keylen());
    // past the first and second carry now and then
    let n = if fixed < 3 { 66_000 } else { *c.rng.pick(&[3u64, 40, 300, 600, 1100]) };
    c.note(format!("back end {} {:?} key {:?} {} messages", b, ci, &key[..6], n));
    let (mut e, mut d) = (cipher(b, t, &key, CryptoMode::Encrypt), cipher(b, t, &key, CryptoMode::Decrypt));
    for i in 1..=n {
        let l = if i % 50 == 0 { c.rng.below(600) } else { c.rng.below(20) } as usize;
        let m = c.rng.bytes(l);
        let got = e.encrypt(&m).map_err(|e| format!("message {}: sealing failed: {:?}", i, e))?;
        if n <= 1100 || i % 64 == 0 || i % 256 < 3 || i < 1000 || i > n - 1000 {
            let want = peer::seal(ci, &key, i as u128, &m);
            ensure!(got == want, "message {} under {:?} is not sealed with counter value {}", i, ci, i);
        }
        // what an independent sealer produced must open at the same count
        let back = if d.is_in_place() {
            let mut x = bytes::BytesMut::from(&got[..]);
            d.decrypt_in_place(&mut x).map(|_| x.to_vec())
        } else {
            d.decrypt(&got)
        };
        match back {
            Ok(x) => ensure!(x == m, "message {} opened to other bytes", i),
            Err(er) => return Err(format!("message {} under {:?} does not open: {:?}", i, ci, er)),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C12
#[cfg(feature = "hooks")]
type Ss = tentacle_secio::codec::secure_stream::SecureStream<End>;
#[cfg(feature = "hooks")]
fn poll_once<T>(f: impl FnOnce(&mut std::task::Context<'_>) -> std::task::Poll<T>) -> (Option<T>, bool) {
    let w = std::sync::Arc::new(Count(Default::default()));
    let waker = std::task::Waker::from(w.clone());
    let mut cx = std::task::Context::from_waker(&waker);
    match f(&mut cx) {
        std::task::Poll::Ready(x) => (Some(x), true),
        std::task::Poll::Pending => (None, w.0.load(std::sync::atomic::Ordering::SeqCst) > 0),
    }
}
#[cfg(feature = "hooks")]
fn read(s: &mut Ss, buf: &mut [u8]) -> Option<std::io::Result<usize>> {
    loop {
        match poll_once(|cx| Pin::new(&mut *s).poll_read(cx, buf)) {
            (Some(x), _) => return Some(x),
            (None, false) => return None,
            _ => (),
        }
    }
}
#[cfg(feature = "hooks")]
fn write(s: &mut Ss, buf: &[u8]) -> Option<std::io::Result<usize>> {
    for _ in 0..100_000 {
        match poll_once(|cx| Pin::new(&mut *s).poll_write(cx, buf)) {
            (Some(x), _) => return Some(x),
            (None, false) => return None,
            _ => (),
        }
    }
    None
}
#[cfg(feature = "hooks")]
fn flush(s: &mut Ss) -> Res {
    loop {
        match poll_once(|cx| Pin::new(&mut *s).poll_flush(cx)) {
            (Some(x), _) => return x.map_err(|e| format!("flush failed: {}", e)),
            (None, false) => return Err("flush stuck".into()),
            _ => (),
        }
    }
}
/// every frame of one byte, and short frames of every length: none may open, whatever the key
fn short(c: &mut Case) -> Res {
    c.nontrivial = true;
    for b in 0..if cfg!(feature = "hooks") { 3 } else { 1 } {
        for (ci, t) in ALL.iter() {
            if b == 2 && *ci != Ci::Cha {
                continue;
            }
            let key = c.rng.bytes(ci.keylen());
            // the tag of the empty message and its prefixes are the likeliest to be taken
            let tag = peer::seal(*ci, &key, 1, &[]);
            for l in 0..16usize {
                for x in 0..=255u8 {
                    let mut f = tag[..l].to_vec();
                    if l > 0 {
                        f[l - 1] ^= x;
                    }
                    let mut d = cipher(b, *t, &key, CryptoMode::Decrypt);
                    let opened = if d.is_in_place() {
                        let mut y = bytes::BytesMut::from(&f[..]);
                        d.decrypt_in_place(&mut y).is_ok()
                    } else {
                        d.decrypt(&f).is_ok()
                    };
                    ensure!(!opened, "back end {} {:?}: the {} byte frame {:?}, shorter than a tag, opens", b, ci, l, f);
                }
            }
        }
    }
    Ok(())
}
#[cfg(feature = "hooks")]
fn c12(c: &mut Case) -> Res {
    use tokio_util::codec::{Framed, LengthDelimitedCodec};
    c.nontrivial = true;
    let b = backend(c);
    let (ci, t) = if b == 2 { ALL[2] } else { *c.rng.pick(&ALL) };
    let (ka, kb) = (c.rng.bytes(ci.keylen()), c.rng.bytes(ci.keylen()));
    let chunk = *c.rng.pick(&[0usize, 0, 1, 3, 17, 5000]);
    let stall = c.rng.chance(1, 3);
    let (ea, eb) = pair(chunk, stall, c.rng.next());
    let (wab, wba) = (ea.tx.clone(), eb.tx.clone());
    c.note(format!("back end {} {:?} chunk {} stall {}", b, ci, chunk, stall));
    let fr = |e: End| Framed::new(e, LengthDelimitedCodec::new());
    let mut a = tentacle_secio::verif_hooks::secure_stream(fr(ea), cipher(b, t, &kb, CryptoMode::Decrypt), cipher(b, t, &ka, CryptoMode::Encrypt));
    let mut bb = tentacle_secio::verif_hooks::secure_stream(fr(eb), cipher(b, t, &ka, CryptoMode::Decrypt), cipher(b, t, &kb, CryptoMode::Encrypt));
    // bytes accepted but not read yet, per direction; messages sealed per direction
    let mut q: [VecDeque<u8>; 2] = Default::default();
    let mut tampered = [false; 2];
    let steps = c.rng.range(5, 60);
    for _ in 0..steps {
        let dir = c.rng.below(2) as usize;
        match c.rng.below(9) {
            0..=3 => {
                let n = *c.rng.pick(&[0usize, 1, 2, 15, 16, 17, 100, 1000, 9000, 70_000]);
                let n = if n > 5000 && c.rng.chance(3, 4) { 40 } else { n };
                let m = c.rng.bytes(n);
                let s = if dir == 0 { &mut a } else { &mut bb };
                match write(s, &m) {
                    Some(Ok(k)) => {
                        c.note(format!("write {} of {} on {}", k, n, dir));
                        ensure!(k <= n && (n == 0 || k > 0), "write of {} bytes reported {}", n, k);
                        q[dir].extend(&m[..k]);
                    }
                    Some(Err(e)) => return Err(format!("write of {} bytes failed on a healthy transport: {}", n, e)),
                    None => (),
                }
            }
            4 => {
                let s = if dir == 0 { &mut a } else { &mut bb };
                flush(s)?;
            }
            5 if c.rng.chance(1, 3) => {
                // tamper with the complete frames waiting in this direction
                flush(if dir == 0 { &mut a } else { &mut bb })?;
                let w = if dir == 0 { &wab } else { &wba };
                let mut h = w.lock().unwrap();
                let raw: Vec<u8> = h.buf.iter().cloned().collect();
                let mut frames = vec![];
                let mut i = 0;
                while i + 4 <= raw.len() {
                    let l = u32::from_be_bytes([raw[i], raw[i + 1], raw[i + 2], raw[i + 3]]) as usize;
                    if i + 4 + l > raw.len() {
                        break;
                    }
                    frames.push(raw[i + 4..i + 4 + l].to_vec());
                    i += 4 + l;
                }
                if frames.is_empty() || i != raw.len() || chunk != 0 || tampered[dir] {
                    continue;
                }
                // with chunk 0 the reader consumes whole buffers, so frames start on a boundary here
                let k = c.rng.below(frames.len() as u64) as usize;
                let what = c.rng.below(7);
                let changed = match what {
                    0 => {
                        let n = frames[k].len();
                        let p = c.rng.below(n as u64) as usize;
                        frames[k][p] ^= 1 << c.rng.below(8);
                        true
                    }
                    1 => {
                        let n = frames[k].len();
                        let cut = c.rng.range(1, n as u64) as usize;
                        frames[k].truncate(n - cut);
                        true
                    }
                    2 => {
                        let f = frames[k].clone();
                        frames.insert(k, f);
                        true
                    }
                    3 if frames.len() > 1 => {
                        let j = (k + 1) % frames.len();
                        frames.swap(k, j);
                        true
                    }
                    4 => {
                        let n = c.rng.below(20) as usize;
                        let g = c.rng.bytes(n);
                        frames.insert(k, g);
                        true
                    }
                    5 => {
                        let n = c.rng.range(1, 20) as usize;
                        let g = c.rng.bytes(n);
                        frames[k].extend_from_slice(&g);
                        true
                    }
                    6 if frames.len() > 1 && k + 1 < frames.len() => {
                        frames.remove(k);
                        true
                    }
                    _ => false,
                };
                if !changed {
                    continue;
                }
                c.note(format!("tamper {} frame {} of direction {}", what, k, dir));
                tampered[dir] = true;
                h.buf.clear();
                for f in &frames {
                    h.buf.extend(&(f.len() as u32).to_be_bytes());
                    h.buf.extend(f);
                }
                drop(h);
                // everything up to the change arrives, then reading fails before any other byte
                let s = if dir == 0 { &mut bb } else { &mut a };
                loop {
                    let mut buf = vec![0; *c.rng.pick(&[1usize, 7, 100, 100_000])];
                    match read(s, &mut buf) {
                        Some(Ok(n)) => {
                            ensure!(n > 0, "a read of {} bytes returned 0 on a tampered stream", buf.len());
                            for x in &buf[..n] {
                                ensure!(q[dir].pop_front() == Some(*x), "wrong byte delivered after tampering {}", what);
                            }
                        }
                        Some(Err(_)) => break,
                        None => return Err(format!("tampering {} went unnoticed: every frame was read", what)),
                    }
                }
                return Ok(());
            }
            _ => {
                flush(if dir == 0 { &mut a } else { &mut bb })?;
                let n = *c.rng.pick(&[0usize, 1, 2, 16, 99, 4096, 100_000]);
                let mut buf = vec![0xEE; n];
                let s = if dir == 0 { &mut bb } else { &mut a };
                match read(s, &mut buf) {
                    Some(Ok(k)) => {
                        c.note(format!("read {} into {} on {}", k, n, dir));
                        ensure!(k <= n, "read reported {} for a buffer of {}", k, n);
                        ensure!(k > 0 || n == 0, "a read returned 0 bytes, which means end of stream, while the stream is open");
                        for x in &buf[..k] {
                            ensure!(q[dir].pop_front() == Some(*x), "a byte was lost, doubled or changed in direction {}", dir);
                        }
                        ensure!(buf[k..].iter().all(|x| *x == 0xEE), "a read wrote behind the {} bytes it reported", k);
                    }
                    Some(Err(e)) => return Err(format!("read failed on a healthy transport: {}", e)),
                    None => ensure!(q[dir].is_empty() || n == 0, "{} bytes were written and flushed but a read finds nothing", q[dir].len()),
                }
            }
        }
    }
    for dir in 0..2 {
        flush(if dir == 0 { &mut a } else { &mut bb })?;
        while !q[dir].is_empty() {
            let mut buf = vec![0; 1 + c.rng.below(9000) as usize];
            match read(if dir == 0 { &mut bb } else { &mut a }, &mut buf) {
                Some(Ok(k)) => {
                    ensure!(k > 0, "end of stream with {} bytes outstanding", q[dir].len());
                    for x in &buf[..k] {
                        ensure!(q[dir].pop_front() == Some(*x), "a byte was lost, doubled or changed in direction {}", dir);
                    }
                }
                Some(Err(e)) => return Err(format!("read failed on a healthy transport: {}", e)),
                None => return Err(format!("{} written bytes never arrive", q[dir].len())),
            }
        }
    }
    Ok(())
}
#[cfg(not(feature = "hooks"))]
fn c12(c: &mut Case) -> Res {
    // without access to the constructor: over a session the scripted peer set up
    session(c, Alter::Honest, 12)
}

// ---------------------------------------------------------------- handshakes
fn subset(c: &mut Case, all: &[&str], strange: bool) -> String {
    let mut v: Vec<String> = vec![];
    for _ in 0..c.rng.range(1, all.len() as u64 + 1) {
        if strange && c.rng.chance(1, 6) {
            // a known name written a little differently is another name
            let x = *c.rng.pick(all);
            v.push(match c.rng.below(6) {
                0 => x.to_lowercase(),
                1 => format!(" {}", x),
                2 => format!("{} ", x),
                3 => x[..x.len() - 1].to_string(),
                4 => x.replace(|c: char| c == '-' || c == '_', ""),
                _ => format!("{}{}", x[..1].to_lowercase(), &x[1..]),
            });
        } else if strange && c.rng.chance(1, 5) {
            v.push(c.rng.pick(&["", "P-521", "aes-128-gcm", "AES-128-GCM ", "SHA1", "X25519x", "SHA25", "NONE"]).to_string());
        } else {
            v.push(c.rng.pick(all).to_string());
        }
    }
    v.join(",")
}
#[cfg(feature = "hooks")]
fn configure(c: &mut Case, cfg: Config) -> (Config, [String; 3]) {
    if c.rng.chance(1, 4) {
        return (cfg, defaults());
    }
    let (mut a, mut k, mut d) = (vec![], vec![], vec![]);
    for _ in 0..c.rng.range(1, 3) {
        a.push(c.rng.below(3) as u8);
        k.push(c.rng.below(3) as usize);
        d.push(c.rng.below(2) as usize);
    }
    let ks: Vec<CipherType> = k.iter().map(|i| ALL[*i].1).collect();
    let ds: Vec<Digest> = d.iter().map(|i| if *i == 0 { Digest::Sha256 } else { Digest::Sha512 }).collect();
    let cfg = tentacle_secio::verif_hooks::offers(cfg, &a, &ks, &ds);
    let j = |v: Vec<&str>| v.join(",");
    (
        cfg,
        [
            j(a.iter().map(|i| peer::AGREE[*i as usize]).collect()),
            j(k.iter().map(|i| peer::CIPHER[*i]).collect()),
            j(d.iter().map(|i| peer::DIGEST[*i]).collect()),
        ],
    )
}
#[cfg(not(feature = "hooks"))]
fn configure(c: &mut Case, cfg: Config) -> (Config, [String; 3]) {
    if c.rng.chance(1, 3) {
        return (cfg, defaults());
    }
    let k = c.rng.below(3) as usize;
    let d = c.rng.below(2) as usize;
    (
        cfg.ciphers([ALL[k].1].iter()).digests([if d == 0 { Digest::Sha256 } else { Digest::Sha512 }].iter()),
        [defaults()[0].clone(), peer::CIPHER[k].into(), peer::DIGEST[d].into()],
    )
}
fn defaults() -> [String; 3] {
    [peer::AGREE.join(","), peer::CIPHER.join(","), peer::DIGEST.join(",")]
}
fn secret(c: &mut Case) -> secp256k1::SecretKey {
    loop {
        if let Ok(k) = secp256k1::SecretKey::from_slice(&c.rng.bytes(32)) {
            return k;
        }
    }
}
/// One real end against the scripted peer
fn session(c: &mut Case, alter: Alter, prop: u32) -> Res {
    c.nontrivial = true;
    let sk = secret(c);
    let key = SecioKeyPair::secp256k1_raw_key(&sk[..]).map_err(|e| format!("raw key refused: {:?}", e))?;
    ensure!(key.public_key().inner_ref()[..] == peer::pk_of(&sk)[..], "public key does not belong to the private key");
    let (cfg, theirs) = configure(c, Config::new(key));
    let offers = if alter == Alter::Honest && c.rng.chance(2, 3) {
        [subset(c, &peer::AGREE, true), subset(c, &peer::CIPHER, true), subset(c, &peer::DIGEST, true)]
    } else {
        defaults()
    };
    let n = if c.rng.chance(3, 4) { 16 } else { *c.rng.pick(&[0usize, 1, 15, 17, 64]) };
    let mut pk = secret(c);
    if alter == Alter::SelfKey {
        pk = sk;
    }
    let mut script = peer::Script { key: pk, other: secret(c), nonce: c.rng.bytes(n), offers, theirs, alter: Alter::Honest, replay: None, seen: None, rnd: c.rng.next() };
    let chunk = *c.rng.pick(&[0usize, 0, 3, 200]);
    let stall = c.rng.chance(1, 4);
    if alter == Alter::Replay {
        let (ea, mut eb) = pair(0, false, c.rng.next());
        let real = cfg.clone().handshake(ea);
        let other = peer::run(&mut eb, &script);
        let r = drive(join(real, other));
        match r {
            Some((_, Ok(s))) => {
                script.replay = Some(s.exchange);
                script.seen = Some(s.fresh);
            }
            x => return Err(format!("honest handshake failed: {:?}", x.map(|(r, p)| (r.err(), p)))),
        }
    }
    script.alter = alter.clone();
    c.note(format!("{:?} ours {:?} real {:?} nonce {} chunk {}", alter, script.offers, script.theirs, n, chunk));
    let honest = match alter {
        Alter::Honest | Alter::EchoSplit(_) => true,
        _ => false,
    };
    let (ea, mut eb) = pair(chunk, stall, c.rng.next());
    let real = cfg.handshake(ea);
    let script_ref = &script;
    let other = async {
        let r = peer::run(&mut eb, script_ref).await;
        if r.is_err() || !honest {
            eb.tx.lock().unwrap().close();
        }
        (r, eb)
    };
    let (real, (sess, mut io)) = match drive(join(real, other)) {
        Some(x) => x,
        None => return Err("the handshake is stuck although the peer is finished".into()),
    };
    if let (true, Err(e)) = (honest || alter == Alter::Replay, &sess) {
        ensure!(!e.starts_with("SPEC:"), "{}", e);
    }
    let common = |i: usize, known: &[&str]| script.offers[i].split(',').any(|x| known.contains(&x) && script.theirs[i].split(',').any(|y| x == y));
    let possible = common(0, &peer::AGREE) && common(1, &peer::CIPHER) && common(2, &peer::DIGEST);
    match real {
        Ok((mut ss, rpk, _ep)) => {
            ensure!(honest, "the handshake succeeded with a peer that did {:?}", alter);
            ensure!(possible, "the handshake succeeded although nothing supported is common: {:?} and {:?}", script.offers, script.theirs);
            ensure!(rpk.inner_ref()[..] == peer::pk_of(&script.key)[..], "the handshake names another public key than the peer's");
            let mut s = sess.map_err(|e| format!("the real end finished, the honest peer did not: {}", e))?;
            c.note(format!("session {:?} {:?}", s.picked, s.order));
            ensure!(s.seal_key != s.open_key, "both directions use the same key");
            // both directions, a few messages
            for _ in 0..c.rng.range(1, 4) {
                let m = { let n = c.rng.range(1, 300) as usize; c.rng.bytes(n) };
                let f = async {
                    ss.write_all(&m).await.map_err(|e| e.to_string())?;
                    ss.flush().await.map_err(|e| e.to_string())
                };
                drive(f).ok_or("write stuck")??;
                let mut got = vec![];
                while got.len() < m.len() {
                    let r = drive(peer::recv(&mut io)).ok_or("nothing arrives at the peer")?;
                    s.got += 1;
                    let x = peer::open(s.ci, &s.open_key, s.got, &r?).ok_or_else(|| format!("message {} of the real end does not open with the mirrored key", s.got))?;
                    got.extend(x);
                }
                ensure!(got == m, "the peer opened other bytes");
                s.sent += 1;
                let w = peer::seal(s.ci, &s.seal_key, s.sent, &m);
                drive(peer::send(&mut io, &w)).ok_or("stuck")??;
                let mut buf = vec![0; m.len()];
                match drive(ss.read_exact(&mut buf)) {
                    Some(Ok(_)) => ensure!(buf == m, "the real end opened other bytes"),
                    Some(Err(e)) => return Err(format!("the real end does not open message {} sealed with the mirrored key: {}", s.sent, e)),
                    None => return Err("the real end does not deliver a message".into()),
                }
            }
            let _ = prop;
        }
        Err(e) => {
            ensure!(!(honest && possible), "a handshake with an honest peer failed: {:?} (peer: {:?})", e, sess.err());
            if alter == Alter::SelfKey {
                ensure!(format!("{:?}", e) == "ConnectSelf", "a connection to oneself ended with {:?}", e);
            }
        }
    }
    Ok(())
}
/// Two real ends, one bit changed or the stream cut in one direction
fn between(c: &mut Case, tamper: u64) -> Res {
    c.nontrivial = true;
    let (ka, kb) = (SecioKeyPair::secp256k1_raw_key(&secret(c)[..]).unwrap(), SecioKeyPair::secp256k1_raw_key(&secret(c)[..]).unwrap());
    let (pa, pb) = (ka.public_key(), kb.public_key());
    let (ca, oa) = configure(c, Config::new(ka));
    let (cb, ob) = configure(c, Config::new(kb));
    let (ea, eb) = pair(*c.rng.pick(&[0usize, 5]), c.rng.chance(1, 4), c.rng.next());
    let to_b = eb.rx.clone();
    let to_a = ea.rx.clone();
    // in flatbuffers form the padding of the exchange message means nothing
    let at = c.rng.below(if cfg!(feature = "flat") && tamper == 1 { 150 } else { 420 }) as usize;
    let m = 1u8 << c.rng.below(8);
    match tamper {
        1 => to_b.lock().unwrap().flip = Some((at, m)),
        2 => to_b.lock().unwrap().cut = Some(at),
        _ => (),
    }
    c.note(format!("two ends, tamper {} at {} mask {}, {:?} {:?}", tamper, at, m, oa, ob));
    let ra = async {
        let r = ca.handshake(ea).await;
        if r.is_err() {
            to_b.lock().unwrap().close();
        }
        r
    };
    let rb = async {
        let r = cb.handshake(eb).await;
        if r.is_err() {
            to_a.lock().unwrap().close();
        }
        r
    };
    let mut both = Box::pin(join(ra, rb));
    let mut out = settle(both.as_mut());
    if out.is_none() && tamper != 0 {
        // a changed length prefix leaves the receiver waiting; the transport ends
        to_b.lock().unwrap().close();
        out = settle(both.as_mut());
        if out.is_none() {
            to_a.lock().unwrap().close();
            out = settle(both.as_mut());
        }
    }
    drop(both);
    let (ra, rb) = out.ok_or("the handshake is stuck")?;
    let total = {
        let mut h = to_b.lock().unwrap();
        h.flip = None;
        h.cut = None;
        h.total
    };
    if tamper == 0 || at >= total {
        let common = |i: usize| oa[i].split(',').any(|x| ob[i].split(',').any(|y| x == y));
        let possible = common(0) && common(1) && common(2);
        match (ra, rb) {
            (Ok((mut sa, pka, ea)), Ok((mut sb, pkb, eb))) => {
                ensure!(possible, "success without a common algorithm");
                ensure!(pka == pb && pkb == pa, "an end names the wrong remote key");
                ensure!(ea != eb, "both ends report the same ephemeral key");
                let m = { let n = c.rng.range(1, 5000) as usize; c.rng.bytes(n) };
                let f = async {
                    sa.write_all(&m).await?;
                    sa.flush().await?;
                    sb.write_all(&m).await?;
                    sb.flush().await?;
                    let mut x = vec![0; m.len()];
                    sb.read_exact(&mut x).await?;
                    let mut y = vec![0; m.len()];
                    sa.read_exact(&mut y).await?;
                    Ok::<bool, std::io::Error>(x == m && y == m)
                };
                match drive(f) {
                    Some(Ok(true)) => (),
                    x => return Err(format!("data does not pass between the two ends: {:?}", x)),
                }
            }
            (Err(a), Err(b)) => ensure!(!possible, "two honest ends fail: {:?} / {:?}", a, b),
            (a, b) => {
                // one end may only see the other one going away
                ensure!(!possible, "one end succeeds, the other fails: {:?} / {:?}", a.err(), b.err());
                return Err("one end succeeded without a common algorithm".into());
            }
        }
    } else {
        ensure!(rb.is_err(), "the handshake succeeded on the end that received a changed or cut message (tamper {} at byte {} of {})", tamper, at, total);
    }
    Ok(())
}
fn c13(c: &mut Case) -> Res {
    #[cfg(feature = "hooks")]
    {
        use std::cmp::Ordering::*;
        for _ in 0..400 {
            let k = c.rng.below(3);
            let all: &[&str] = match k {
                0 => &peer::AGREE,
                1 => &peer::CIPHER,
                _ => &peer::DIGEST,
            };
            let (mut a, mut b) = (subset(c, all, true), subset(c, all, true));
            if c.rng.chance(1, 12) {
                a = String::new();
            }
            if c.rng.chance(1, 12) {
                b = all.join(",");
            }
            let f = match k {
                0 => tentacle_secio::verif_hooks::agreement,
                1 => tentacle_secio::verif_hooks::cipher,
                _ => tentacle_secio::verif_hooks::digest,
            };
            let name = |s: Option<&str>| {
                s.map(|s| match s {
                    "P-256" => "EcdhP256",
                    "P-384" => "EcdhP384",
                    "X25519" => "X25519",
                    "AES-128-GCM" => "Aes128Gcm",
                    "AES-256-GCM" => "Aes256Gcm",
                    "CHACHA20_POLY1305" => "ChaCha20Poly1305",
                    "SHA256" => "Sha256",
                    _ => "Sha512",
                }
                .to_string())
            };
            for (o, r) in &[(Less, Greater), (Greater, Less)] {
                let (x, y) = (f(*o, &a, &b), f(*r, &b, &a));
                ensure!(x == y, "offers {:?} and {:?}: one end picks {:?}, the other {:?}", a, b, x, y);
                let want = name(peer::choose(*o, &a, &b, all));
                ensure!(x == want, "offers {:?} and {:?} with ordering {:?}: picked {:?} instead of {:?}", a, b, o, x, want);
            }
        }
    }
    if c.rng.chance(1, 2) { session(c, Alter::Honest, 13) } else { between(c, 0) }
}
fn c14(c: &mut Case) -> Res {
    for _ in 0..3 {
        session(c, Alter::Honest, 14)?;
    }
    between(c, 0)
}
fn alteration(c: &mut Case, k: u64) -> Alter {
    use Alter::*;
    let r = c.rng.next() as usize >> 1;
    let m = c.rng.below(8) as u8;
    match k {
        0 => Honest,
        1 => SigFlip(r),
        2 => OtherSigner,
        3 => PropsSwapped,
        4 => EphemeralSwapped,
        5 => SignedPropChanged(true, r),
        6 => SignedPropChanged(false, r),
        7 => NoEphemeralSigned,
        8 => Replay,
        9 => EchoFlip(r),
        10 => EchoShort(r),
        11 => EchoEmpty,
        12 => EchoSplit(r),
        13 => EchoOwn,
        14 => EchoPlain,
        15 => EchoCounter(m),
        16 => EchoWrongDirection,
        17 => NoEcho,
        18 => CloseBefore(m % 4),
        19 => ProposeCut(r),
        20 => ExchangeCut(r),
        21 => ProposeFlip(r, m),
        22 => ExchangeFlip(r, m),
        23 => PkGarbage(r % 80),
        // a single kind of key: the flatbuffers form does not look at it
        24 if !cfg!(feature = "flat") => PkUnionId,
        25 => Garbage(m % 2, r % 90),
        _ => SelfKey,
    }
}
const ALTERS: u64 = 27;
fn c15(c: &mut Case, fixed: u64) -> Res {
    if fixed < ALTERS {
        let a = alteration(c, fixed);
        return session(c, a, 15);
    }
    if c.rng.chance(1, 3) {
        let t = c.rng.range(1, 2);
        return between(c, t);
    }
    let k = c.rng.below(ALTERS);
    let a = alteration(c, k);
    session(c, a, 15)
}

// ---------------------------------------------------------------- C16
fn form(b: &[u8]) -> bool {
    b.len() == 34 && b[0] == 0x12 && b[1] == 32
}
fn check_bytes(b: &[u8]) -> Res {
    let r = PeerId::from_bytes(b.to_vec());
    ensure!(r.is_ok() == form(b), "{:?} was {}", b, if r.is_ok() { "accepted as a peer id" } else { "refused" });
    if let Ok(p) = r {
        ensure!(p.as_bytes() == b && p.clone().into_bytes() == b, "an id gives other bytes than it was made from");
        ensure!(p.digest() == &b[2..], "digest of {:?} is {:?}", b, p.digest());
        let s = p.to_base58();
        ensure!(s == bs58::encode(b).into_string(), "text form differs");
        ensure!(s.parse::<PeerId>().ok().as_ref() == Some(&p), "text form {} is not read back", s);
    }
    let s = bs58::encode(b).into_string();
    ensure!(s.parse::<PeerId>().is_ok() == form(b), "text {} of {:?} was judged differently from its bytes", s, b);
    Ok(())
}
fn c16(c: &mut Case, fixed: u64) -> Res {
    c.nontrivial = true;
    if fixed == 0 {
        // every length with a right and a wrong header, every first and second byte, every 3-byte code
        for l in 0..=64usize {
            for h in &[[0x12u8, 32], [0x12, 31], [0x92, 32], [0x11, 32], [0x12, 0], [0x92, 0]] {
                let mut b = vec![9; l];
                for i in 0..l.min(2) {
                    b[i] = h[i];
                }
                check_bytes(&b)?;
            }
        }
        for x in 0..=255u8 {
            for y in 0..=255u8 {
                let mut b = vec![7; 34];
                b[0] = x;
                b[1] = y;
                check_bytes(&b)?;
            }
        }
        return Ok(());
    }
    if fixed == 1 {
        for x in 0..=255u8 {
            for y in 0..=255u8 {
                for tail in &[vec![32u8], vec![0, 32], vec![4, 32], vec![0x80, 32], vec![0x80, 0, 32]] {
                    let mut b = vec![x, y];
                    b.extend(tail);
                    b.extend(vec![5; 32]);
                    check_bytes(&b)?;
                }
            }
        }
        return Ok(());
    }
    for _ in 0..20 {
        let n = *c.rng.pick(&[33usize, 34, 34, 34, 35, 36, 37, 0, 1, 2]);
        let mut b = c.rng.bytes(n);
        if n > 1 && c.rng.chance(3, 4) {
            b[0] = *c.rng.pick(&[0x12, 0x12, 0x92, 0x13]);
            b[1] = *c.rng.pick(&[32, 32, 0, 0x80, 33]);
        }
        check_bytes(&b)?;
        // text near-misses
        let mut s = bs58::encode(&b).into_string().into_bytes();
        if !s.is_empty() && c.rng.chance(1, 2) {
            let i = c.rng.below(s.len() as u64) as usize;
            if c.rng.chance(1, 2) {
                s[i] = *c.rng.pick(b"0OIl1zZ9 a");
            } else {
                // something put in at the start, at the end or between
                let i = *c.rng.pick(&[0, s.len(), i]);
                s.insert(i, *c.rng.pick(b" \t\n\r\0z1+/=.,-0"));
            }
            let t = String::from_utf8(s).unwrap();
            let want = bs58::decode(&t).into_vec().map(|b| form(&b)).unwrap_or(false);
            ensure!(t.parse::<PeerId>().is_ok() == want, "text {:?} was judged wrongly", t);
            if let Ok(p) = t.parse::<PeerId>() {
                ensure!(p.to_base58() == t, "text {:?} reads as an id with another text {:?}", t, p.to_base58());
            }
        }
    }
    let sk = secret(c);
    let pair = SecioKeyPair::secp256k1_raw_key(&sk[..]).unwrap();
    let raw = peer::pk_of(&sk);
    let pk = PublicKey::secp256k1_raw_key(&raw).map_err(|e| format!("{:?}", e))?;
    let mut want = vec![0x12, 32];
    want.extend(peer::sha(&[&raw]));
    for p in &[pair.peer_id(), PeerId::from_public_key(&pk), PeerId::from(pk.clone()), pk.peer_id()] {
        ensure!(p.as_bytes() == &want[..], "derived id is not the multihash of the key");
        ensure!(p.is_public_key(&pk), "id does not match its own key");
    }
    let pk2 = SecioKeyPair::secp256k1_raw_key(&secret(c)[..]).unwrap().public_key();
    ensure!(!pair.peer_id().is_public_key(&pk2), "id matches another key");
    check_bytes(&want)?;
    let r = PeerId::random();
    c.note(format!("key {:?}", &raw[..8]));
    check_bytes(r.as_bytes())?;
    ensure!(form(r.as_bytes()), "random id {:?}", r.as_bytes());
    Ok(())
}

fn run(p: &str, c: &mut Case) -> Res {
    let fixed = c.rng.0;
    match p {
        "C11" => c11(c, fixed),
        "C12" if fixed == 0 => short(c),
        "C12" => c12(c),
        "C13" => c13(c),
        "C14" => c14(c),
        "C15" => c15(c, fixed),
        "C16" => c16(c, fixed),
        _ => Err(format!("unknown property {}", p)),
    }
}
fn main() {
    hx::main(run, |p| match p {
        "C11" => 3,
        "C12" => 1,
        "C15" => ALTERS,
        "C16" => 2,
        _ => 0,
    })
}
