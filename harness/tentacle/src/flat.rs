//! The negotiation message in flatbuffers form, written independently of the library
use hx::flat::{bytes, table, texts, F};

pub fn info(name: &[u8], versions: &[Vec<u8>]) -> Vec<u8> {
    table(&[F::Text(name.to_vec()), F::Texts(versions.to_vec())])
}
pub fn parse(b: &[u8]) -> Option<(String, Vec<String>)> {
    let text = |b: Vec<u8>| String::from_utf8(b).ok();
    let versions: Option<Vec<String>> = texts(b, 1)?.into_iter().map(text).collect();
    Some((text(bytes(b, 0)?)?, versions?))
}
