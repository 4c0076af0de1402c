//! The negotiation message, length frames and version lists
#[cfg(feature = "flat")]
pub use crate::flat::*;
#[cfg(not(feature = "flat"))]
pub use crate::mol::*;
use hx::Rng;

pub fn frame(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(b);
    v
}
pub fn version(r: &mut Rng, wild: bool) -> String {
    if wild && r.chance(1, 4) {
        let n = r.below(6) as usize;
        return (0..n).map(|_| *r.pick(&['a', '0', '.', '-', 'Z', 'é', '\u{10ffff}'])).collect();
    }
    format!("{}.{}.{}", r.below(3), r.below(12), r.below(3))
}
pub fn list(r: &mut Rng, wild: bool) -> Vec<String> {
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => r.range(20, 60),
        _ => r.range(2, 8),
    };
    let mut v: Vec<String> = (0..n).map(|_| version(r, wild)).collect();
    match r.below(3) {
        0 => v.sort(),
        1 => {
            v.sort();
            v.reverse()
        }
        _ => {}
    }
    v
}
pub fn best(a: &[String], b: &[String]) -> Option<String> {
    a.iter().filter(|v| b.contains(v)).max().cloned()
}

