//! Flatbuffers tables, written and read independently of the library. Reading is as lenient
//! as it can be without leaving the buffer.
pub enum F {
    Bytes(Vec<u8>),
    Text(Vec<u8>),
    Texts(Vec<Vec<u8>>),
    Byte(u8),
    None,
}
fn pad(v: &mut Vec<u8>) {
    while v.len() % 4 != 0 {
        v.push(0);
    }
}
fn link(v: &mut Vec<u8>, at: usize) {
    let n = (v.len() - at) as u32;
    v[at..at + 4].copy_from_slice(&n.to_le_bytes());
}
fn vector(v: &mut Vec<u8>, b: &[u8], text: bool) {
    v.extend_from_slice(&(b.len() as u32).to_le_bytes());
    v.extend_from_slice(b);
    if text {
        v.push(0);
    }
}
pub fn table(fields: &[F]) -> Vec<u8> {
    let mut v = vec![0; 4];
    v.extend_from_slice(&(4 + 2 * fields.len() as u16).to_le_bytes());
    v.extend_from_slice(&(4 + 4 * fields.len() as u16).to_le_bytes());
    for (i, f) in fields.iter().enumerate() {
        let at = if let F::None = f { 0 } else { 4 + 4 * i as u16 };
        v.extend_from_slice(&at.to_le_bytes());
    }
    pad(&mut v);
    link(&mut v, 0);
    let t = v.len();
    v.extend_from_slice(&(t as u32 - 4).to_le_bytes());
    v.resize(t + 4 + 4 * fields.len(), 0);
    for (i, f) in fields.iter().enumerate() {
        let at = t + 4 + 4 * i;
        if let F::Byte(x) = f {
            v[at] = *x;
            continue;
        }
        if let F::None = f {
            continue;
        }
        pad(&mut v);
        link(&mut v, at);
        match f {
            F::Bytes(b) => vector(&mut v, b, false),
            F::Text(b) => vector(&mut v, b, true),
            F::Texts(l) => {
                v.extend_from_slice(&(l.len() as u32).to_le_bytes());
                let first = v.len();
                v.resize(first + 4 * l.len(), 0);
                for (k, b) in l.iter().enumerate() {
                    pad(&mut v);
                    link(&mut v, first + 4 * k);
                    vector(&mut v, b, true);
                }
            }
            _ => (),
        }
    }
    v
}
fn u16at(b: &[u8], i: usize) -> Option<usize> {
    let x = b.get(i..i.checked_add(2)?)?;
    Some(u16::from_le_bytes([x[0], x[1]]) as usize)
}
fn u32at(b: &[u8], i: usize) -> Option<usize> {
    let x = b.get(i..i.checked_add(4)?)?;
    Some(u32::from_le_bytes([x[0], x[1], x[2], x[3]]) as usize)
}
fn slot(b: &[u8], i: usize) -> Option<usize> {
    let t = u32at(b, 0)?;
    let vt = t as i64 - u32at(b, t)? as u32 as i32 as i64;
    if vt < 0 {
        return None;
    }
    let vt = vt as usize;
    if 4 + 2 * i >= u16at(b, vt)? {
        return None;
    }
    match u16at(b, vt + 4 + 2 * i)? {
        0 => None,
        o => Some(t + o),
    }
}
fn follow(b: &[u8], at: usize) -> Option<usize> {
    at.checked_add(u32at(b, at)?)
}
fn content(b: &[u8], at: usize) -> Option<Vec<u8>> {
    let n = u32at(b, at)?;
    Some(b.get(at + 4..(at + 4).checked_add(n)?)?.to_vec())
}
/// a vector of bytes or a string
pub fn bytes(b: &[u8], i: usize) -> Option<Vec<u8>> {
    content(b, follow(b, slot(b, i)?)?)
}
pub fn texts(b: &[u8], i: usize) -> Option<Vec<Vec<u8>>> {
    let v = follow(b, slot(b, i)?)?;
    let n = u32at(b, v)?;
    if n > b.len() {
        return None;
    }
    (0..n).map(|k| content(b, follow(b, v + 4 + 4 * k)?)).collect()
}
