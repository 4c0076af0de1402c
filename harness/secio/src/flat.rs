//! The handshake messages in flatbuffers form
use hx::flat::{bytes, table, F};

pub fn enc_pk(k: &[u8]) -> Vec<u8> {
    table(&[F::Byte(0), F::Bytes(k.to_vec())])
}
pub fn dec_pk(b: &[u8]) -> Option<Vec<u8>> {
    bytes(b, 1)
}
pub fn enc_propose(f: [&[u8]; 5]) -> Vec<u8> {
    table(&[F::Bytes(f[0].to_vec()), F::Bytes(f[1].to_vec()), F::Text(f[2].to_vec()), F::Text(f[3].to_vec()), F::Text(f[4].to_vec())])
}
pub fn dec_propose(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    (0..5).map(|i| bytes(b, i)).collect()
}
pub fn enc_exchange(ep: &[u8], sig: &[u8]) -> Vec<u8> {
    table(&[F::Bytes(ep.to_vec()), F::Bytes(sig.to_vec())])
}
pub fn dec_exchange(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    (0..2).map(|i| bytes(b, i)).collect()
}
