use crate::codec::secure_stream::SecureStream;
use crate::crypto::BoxStreamCipher;
use tokio::prelude::{AsyncRead, AsyncWrite};
use tokio_util::codec::{length_delimited::LengthDelimitedCodec, Framed};

pub fn secure_stream<T: AsyncRead + AsyncWrite + Unpin>(
    io: Framed<T, LengthDelimitedCodec>,
    decode: BoxStreamCipher,
    encode: BoxStreamCipher,
) -> SecureStream<T> {
    SecureStream::new(io, decode, encode, Vec::new())
}
pub fn agreement(r: std::cmp::Ordering, ours: &str, theirs: &str) -> Option<String> {
    crate::support::select_agreement(r, ours, theirs).ok().map(|x| format!("{:?}", x))
}
pub fn cipher(r: std::cmp::Ordering, ours: &str, theirs: &str) -> Option<String> {
    crate::support::select_cipher(r, ours, theirs).ok().map(|x| format!("{:?}", x))
}
pub fn digest(r: std::cmp::Ordering, ours: &str, theirs: &str) -> Option<String> {
    crate::support::select_digest(r, ours, theirs).ok().map(|x| format!("{:?}", x))
}
/// (agreements, ciphers, digests) as text for the chosen members of each list
pub fn offers(c: crate::handshake::Config, a: &[u8], k: &[crate::crypto::cipher::CipherType], d: &[crate::Digest]) -> crate::handshake::Config {
    use crate::dh_compat::KeyAgreement::*;
    let all = [EcdhP256, EcdhP384, X25519];
    let v: Vec<_> = a.iter().map(|i| all[*i as usize]).collect();
    c.key_agreements(v.iter()).ciphers(k.iter()).digests(d.iter())
}
