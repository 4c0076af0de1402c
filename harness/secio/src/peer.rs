//! Independent implementation of the handshake and of the record layer (ring and secp256k1 only).
use crate::codec::*;
use crate::net::End;
use ring::{aead, agreement, digest, hmac};
use std::cmp::Ordering;
use tokio::io::{AsyncReadExt, AsyncWriteExt};

pub fn sha(parts: &[&[u8]]) -> Vec<u8> {
    let mut c = digest::Context::new(&digest::SHA256);
    for p in parts {
        c.update(p);
    }
    c.finish().as_ref().to_vec()
}
pub fn stretch(sha512: bool, secret: &[u8], n: usize) -> Vec<u8> {
    let k = hmac::Key::new(if sha512 { hmac::HMAC_SHA512 } else { hmac::HMAC_SHA256 }, secret);
    let seed = b"key expansion";
    let mut a = hmac::sign(&k, seed).as_ref().to_vec();
    let mut out = vec![];
    while out.len() < n {
        let mut x = a.clone();
        x.extend_from_slice(seed);
        out.extend_from_slice(hmac::sign(&k, &x).as_ref());
        a = hmac::sign(&k, &a).as_ref().to_vec();
    }
    out.truncate(n);
    out
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ci {
    A128,
    A256,
    Cha,
}
impl Ci {
    pub fn alg(self) -> &'static aead::Algorithm {
        match self {
            Ci::A128 => &aead::AES_128_GCM,
            Ci::A256 => &aead::AES_256_GCM,
            Ci::Cha => &aead::CHACHA20_POLY1305,
        }
    }
    pub fn keylen(self) -> usize {
        if self == Ci::A128 { 16 } else { 32 }
    }
}
pub fn ctr(n: u128) -> [u8; 12] {
    let b = n.to_le_bytes();
    let mut o = [0; 12];
    o.copy_from_slice(&b[..12]);
    o
}
pub fn seal(ci: Ci, key: &[u8], n: u128, m: &[u8]) -> Vec<u8> {
    let k = aead::LessSafeKey::new(aead::UnboundKey::new(ci.alg(), key).unwrap());
    let mut v = m.to_vec();
    k.seal_in_place_append_tag(aead::Nonce::assume_unique_for_key(ctr(n)), aead::Aad::empty(), &mut v).unwrap();
    v
}
pub fn open(ci: Ci, key: &[u8], n: u128, c: &[u8]) -> Option<Vec<u8>> {
    let k = aead::LessSafeKey::new(aead::UnboundKey::new(ci.alg(), key).unwrap());
    let mut v = c.to_vec();
    let l = k.open_in_place(aead::Nonce::assume_unique_for_key(ctr(n)), aead::Aad::empty(), &mut v).ok()?.len();
    v.truncate(l);
    Some(v)
}
pub async fn send(io: &mut End, m: &[u8]) -> Result<(), String> {
    let mut v = (m.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(m);
    io.write_all(&v).await.map_err(|e| e.to_string())
}
pub async fn recv(io: &mut End) -> Result<Vec<u8>, String> {
    let mut l = [0; 4];
    io.read_exact(&mut l).await.map_err(|e| e.to_string())?;
    let n = u32::from_be_bytes(l) as usize;
    if n > 1 << 24 {
        return Err("huge frame".into());
    }
    let mut v = vec![0; n];
    io.read_exact(&mut v).await.map_err(|e| e.to_string())?;
    Ok(v)
}
/// which first common entry the preferred side names
pub fn choose<'a>(o: Ordering, ours: &'a str, theirs: &'a str, known: &[&str]) -> Option<&'a str> {
    let (a, b) = if o == Ordering::Greater { (ours, theirs) } else { (theirs, ours) };
    for x in a.split(',') {
        if known.contains(&x) && b.split(',').any(|y| y == x) {
            return Some(x);
        }
    }
    None
}
pub const AGREE: [&str; 3] = ["P-256", "P-384", "X25519"];
pub const CIPHER: [&str; 3] = ["AES-128-GCM", "AES-256-GCM", "CHACHA20_POLY1305"];
pub const DIGEST: [&str; 2] = ["SHA256", "SHA512"];

/// What the scripted peer does differently from an honest one
#[derive(Clone, Debug, PartialEq)]
pub enum Alter {
    Honest,
    SigFlip(usize),
    OtherSigner,
    PropsSwapped,
    EphemeralSwapped,
    SignedPropChanged(bool, usize),
    NoEphemeralSigned,
    Replay,
    EchoFlip(usize),
    EchoShort(usize),
    EchoEmpty,
    EchoSplit(usize),
    EchoOwn,
    EchoPlain,
    EchoCounter(u8),
    EchoWrongDirection,
    NoEcho,
    CloseBefore(u8),
    ProposeCut(usize),
    ExchangeCut(usize),
    ProposeFlip(usize, u8),
    ExchangeFlip(usize, u8),
    PkGarbage(usize),
    PkUnionId,
    Garbage(u8, usize),
    SelfKey,
}
pub struct Script {
    pub key: secp256k1::SecretKey,
    pub other: secp256k1::SecretKey,
    pub nonce: Vec<u8>,
    pub offers: [String; 3],
    /// the real side's offers
    pub theirs: [String; 3],
    pub alter: Alter,
    pub replay: Option<Vec<u8>>,
    /// nonce and ephemeral key of the real side in the handshake before
    pub seen: Option<(Vec<u8>, Vec<u8>)>,
    pub rnd: u64,
}
#[derive(Debug)]
pub struct Session {
    pub ci: Ci,
    pub seal_key: Vec<u8>,
    pub open_key: Vec<u8>,
    pub sent: u128,
    pub got: u128,
    pub remote_pk: Vec<u8>,
    pub exchange: Vec<u8>,
    pub fresh: (Vec<u8>, Vec<u8>),
    pub order: Ordering,
    pub picked: (String, String, String),
}
fn sign(m: &[u8], k: &secp256k1::SecretKey) -> Vec<u8> {
    let msg = secp256k1::Message::from_slice(&sha(&[m])).unwrap();
    secp256k1::Secp256k1::signing_only().sign(&msg, k).serialize_der().to_vec()
}
pub fn pk_of(k: &secp256k1::SecretKey) -> Vec<u8> {
    secp256k1::PublicKey::from_secret_key(&secp256k1::Secp256k1::signing_only(), k).serialize().to_vec()
}
/// Runs the peer's side; Err says why the peer gave up (the remote closing is one reason)
pub async fn run(io: &mut End, s: &Script) -> Result<Session, String> {
    use Alter::*;
    if s.alter == CloseBefore(0) {
        return Err("closed".into());
    }
    let mypk = pk_of(&s.key);
    let mut pkenc = enc_pk(&mypk);
    match s.alter {
        PkGarbage(n) => pkenc = enc_pk(&vec![7; n]),
        PkUnionId => pkenc[0] = 1,
        _ => (),
    }
    let prop = enc_propose([&s.nonce, &pkenc, s.offers[0].as_bytes(), s.offers[1].as_bytes(), s.offers[2].as_bytes()]);
    let mut wire = prop.clone();
    match s.alter {
        ProposeCut(k) => wire.truncate(wire.len() - 1 - k % wire.len()),
        ProposeFlip(i, m) => {
            let l = wire.len();
            wire[i % l] ^= 1 << (m % 8);
        }
        Garbage(0, n) => wire = vec![0xa5; n],
        _ => (),
    }
    send(io, &wire).await?;
    let rprop = recv(io).await?;
    if s.alter == CloseBefore(1) {
        return Err("closed".into());
    }
    let f = dec_propose(&rprop).ok_or("the remote's proposition does not parse")?;
    let rpk = dec_pk(&f[1]).ok_or("the remote's public key does not parse")?;
    let rnonce = f[0].clone();
    if rnonce.len() != 16 {
        return Err(format!("SPEC: nonce of {} bytes", rnonce.len()));
    }
    for i in 0..3 {
        if f[2 + i] != s.theirs[i].as_bytes() {
            return Err(format!("SPEC: offer {:?} instead of {:?}", String::from_utf8_lossy(&f[2 + i]), s.theirs[i]));
        }
    }
    if s.seen.as_ref().map_or(false, |x| x.0 == rnonce) {
        return Err("SPEC: the nonce is the one of the handshake before".into());
    }
    let order = sha(&[&rpk, &s.nonce]).cmp(&sha(&[&mypk, &rnonce]));
    let ag = choose(order, &s.offers[0], &s.theirs[0], &AGREE).ok_or("no common agreement")?;
    let ciname = choose(order, &s.offers[1], &s.theirs[1], &CIPHER).ok_or("no common cipher")?;
    let dg = choose(order, &s.offers[2], &s.theirs[2], &DIGEST).ok_or("no common digest")?;
    let alg: &'static agreement::Algorithm = match ag {
        "P-256" => &agreement::ECDH_P256,
        "P-384" => &agreement::ECDH_P384,
        _ => &agreement::X25519,
    };
    let rng = ring::rand::SystemRandom::new();
    let sk = agreement::EphemeralPrivateKey::generate(alg, &rng).map_err(|_| "keygen")?;
    let mut ep = sk.compute_public_key().map_err(|_| "keygen")?.as_ref().to_vec();
    let mut tosign = prop.clone();
    tosign.extend_from_slice(&rprop);
    tosign.extend_from_slice(&ep);
    let mut signer = s.key;
    match s.alter {
        OtherSigner => signer = s.other,
        PropsSwapped => {
            tosign = rprop.clone();
            tosign.extend_from_slice(&prop);
            tosign.extend_from_slice(&ep);
        }
        EphemeralSwapped => ep = agreement::EphemeralPrivateKey::generate(alg, &rng).unwrap().compute_public_key().unwrap().as_ref().to_vec(),
        SignedPropChanged(mine, i) => {
            let (o, l) = if mine { (0, prop.len()) } else { (prop.len(), rprop.len()) };
            tosign[o + i % l] ^= 4;
        }
        NoEphemeralSigned => tosign.truncate(prop.len() + rprop.len()),
        _ => (),
    }
    let mut sig = sign(&tosign, &signer);
    if let SigFlip(i) = s.alter {
        let l = sig.len();
        sig[i % l] ^= 1 << (i / l % 8);
    }
    let mut ex = enc_exchange(&ep, &sig);
    let honest_ex = ex.clone();
    match s.alter {
        Replay => ex = s.replay.clone().unwrap_or_else(|| enc_exchange(&ep, &[])),
        ExchangeCut(k) => ex.truncate(ex.len() - 1 - k % ex.len()),
        ExchangeFlip(i, m) => {
            let l = ex.len();
            ex[i % l] ^= 1 << (m % 8);
            if dec_exchange(&ex) == dec_exchange(&honest_ex) {
                // not every bit of this form means something
                ex[l - 1] ^= 1;
            }
        }
        Garbage(1, n) => ex = vec![0x5a; n],
        _ => (),
    }
    if s.alter == CloseBefore(2) {
        return Err("closed".into());
    }
    send(io, &ex).await?;
    let rex = recv(io).await?;
    let g = dec_exchange(&rex).ok_or("the remote's exchange does not parse")?;
    if s.seen.as_ref().map_or(false, |x| x.1 == g[0]) {
        return Err("SPEC: the ephemeral key is the one of the handshake before".into());
    }
    let mut toverify = rprop.clone();
    toverify.extend_from_slice(&prop);
    toverify.extend_from_slice(&g[0]);
    let v = secp256k1::Secp256k1::verification_only();
    let ok = secp256k1::Signature::from_der(&g[1])
        .and_then(|sg| v.verify(&secp256k1::Message::from_slice(&sha(&[&toverify])).unwrap(), &sg, &secp256k1::PublicKey::from_slice(&rpk)?))
        .is_ok();
    if !ok && wire == prop {
        return Err("SPEC: the remote's signature does not verify".into());
    }
    let secret = agreement::agree_ephemeral(sk, &agreement::UnparsedPublicKey::new(alg, &g[0]), (), |k| Ok(k.to_vec())).map_err(|_| "SPEC: the remote's ephemeral key is not of the negotiated kind")?;
    let ci = match ciname {
        "AES-128-GCM" => Ci::A128,
        "AES-256-GCM" => Ci::A256,
        _ => Ci::Cha,
    };
    let half = 12 + ci.keylen() + 20;
    let long = stretch(dg == "SHA512", &secret, 2 * half);
    let (a, b) = (long[12..12 + ci.keylen()].to_vec(), long[half + 12..half + 12 + ci.keylen()].to_vec());
    let (seal_key, open_key) = if order == Ordering::Less { (b, a) } else { (a, b) };
    let mut ses = Session { ci, seal_key, open_key, sent: 0, got: 0, remote_pk: rpk, exchange: honest_ex, fresh: (rnonce.clone(), g[0].clone()), order, picked: (ag.into(), ciname.into(), dg.into()) };
    // echo
    let mut echo = rnonce.clone();
    let mut frames: Vec<Vec<u8>> = vec![];
    let mut quit = false;
    match s.alter {
        EchoFlip(i) => echo[i % 16] ^= 1 << (i / 16 % 8),
        EchoShort(k) => {
            echo.truncate(k % 16);
            quit = true;
        }
        EchoOwn => echo = s.nonce.clone(),
        NoEcho | CloseBefore(3) => return Err("closed".into()),
        _ => (),
    }
    match s.alter {
        EchoSplit(k) => {
            let k = 1 + k % 15;
            frames.push(seal(ci, &ses.seal_key, 1, &echo[..k]));
            frames.push(seal(ci, &ses.seal_key, 2, &echo[k..]));
            ses.sent = 2;
        }
        EchoEmpty => {
            frames.push(seal(ci, &ses.seal_key, 1, &[]));
            quit = true;
        }
        EchoPlain => frames.push(echo.clone()),
        EchoCounter(n) => frames.push(seal(ci, &ses.seal_key, if n == 1 { 3 } else { n as u128 }, &echo)),
        EchoWrongDirection => frames.push(seal(ci, &ses.open_key, 1, &echo)),
        _ => {
            frames.push(seal(ci, &ses.seal_key, 1, &echo));
            ses.sent = 1;
        }
    }
    for f in frames {
        send(io, &f).await?;
    }
    // the remote's echo of our nonce
    let mut got = vec![];
    while got.len() < s.nonce.len() {
        let f = recv(io).await?;
        ses.got += 1;
        got.extend(open(ci, &ses.open_key, ses.got, &f).ok_or("SPEC: the remote's first message does not open with the expected key and counter")?);
    }
    if got != s.nonce {
        return Err("SPEC: the remote echoed something else".into());
    }
    if quit {
        return Err("closed".into());
    }
    Ok(ses)
}
