//! The negotiation message in molecule form, written independently of the library
fn u32le(n: usize) -> [u8; 4] {
    (n as u32).to_le_bytes()
}
fn string(s: &[u8]) -> Vec<u8> {
    let mut v = u32le(s.len()).to_vec();
    v.extend_from_slice(s);
    v
}
fn dynvec(items: &[Vec<u8>]) -> Vec<u8> {
    let head = 4 + 4 * items.len();
    let total = head + items.iter().map(|i| i.len()).sum::<usize>();
    let mut v = u32le(total).to_vec();
    let mut off = head;
    for i in items {
        v.extend_from_slice(&u32le(off));
        off += i.len();
    }
    for i in items {
        v.extend_from_slice(i);
    }
    v
}
/// the negotiation message, written independently of the library
pub fn info(name: &[u8], versions: &[Vec<u8>]) -> Vec<u8> {
    let vs: Vec<Vec<u8>> = versions.iter().map(|v| string(v)).collect();
    dynvec(&[string(name), dynvec(&vs)])
}
fn rd(b: &[u8], i: usize) -> Option<usize> {
    let x = b.get(i..i + 4)?;
    Some(u32::from_le_bytes([x[0], x[1], x[2], x[3]]) as usize)
}
fn items(b: &[u8]) -> Option<Vec<&[u8]>> {
    if rd(b, 0)? != b.len() {
        return None;
    }
    if b.len() == 4 {
        return Some(vec![]);
    }
    let first = rd(b, 4)?;
    if first % 4 != 0 || first < 8 || first > b.len() {
        return None;
    }
    let n = first / 4 - 1;
    let mut offs = vec![];
    for i in 0..n {
        offs.push(rd(b, 4 + 4 * i)?);
    }
    offs.push(b.len());
    let mut v = vec![];
    for w in offs.windows(2) {
        v.push(b.get(w[0]..w[1])?);
    }
    Some(v)
}
fn text(b: &[u8]) -> Option<String> {
    if rd(b, 0)? + 4 != b.len() {
        return None;
    }
    String::from_utf8(b[4..].to_vec()).ok()
}
/// independent reading; further table fields are allowed
pub fn parse(b: &[u8]) -> Option<(String, Vec<String>)> {
    let f = items(b)?;
    if f.len() < 2 {
        return None;
    }
    let mut v = vec![];
    for i in items(f[1])? {
        v.push(text(i)?);
    }
    Some((text(f[0])?, v))
}
