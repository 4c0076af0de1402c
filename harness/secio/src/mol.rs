//! The handshake messages in molecule form
fn fixvec(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u32).to_le_bytes().to_vec();
    v.extend_from_slice(b);
    v
}
fn table(fields: &[Vec<u8>]) -> Vec<u8> {
    let mut off = 4 + 4 * fields.len();
    let total = off + fields.iter().map(|f| f.len()).sum::<usize>();
    let mut v = (total as u32).to_le_bytes().to_vec();
    for f in fields {
        v.extend_from_slice(&(off as u32).to_le_bytes());
        off += f.len();
    }
    for f in fields {
        v.extend_from_slice(f);
    }
    v
}
fn u32at(b: &[u8], i: usize) -> Option<usize> {
    if i + 4 > b.len() {
        return None;
    }
    Some(u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as usize)
}
fn untable(b: &[u8], n: usize) -> Option<Vec<Vec<u8>>> {
    let total = u32at(b, 0)?;
    if total != b.len() {
        return None;
    }
    let mut offs = vec![];
    for i in 0..n {
        offs.push(u32at(b, 4 + 4 * i)?);
    }
    offs.push(total);
    let mut out = vec![];
    for i in 0..n {
        if offs[i] > offs[i + 1] {
            return None;
        }
        let f = b.get(offs[i]..offs[i + 1])?;
        let l = u32at(f, 0)?;
        if l + 4 != f.len() {
            return None;
        }
        out.push(f[4..].to_vec());
    }
    Some(out)
}
pub fn enc_pk(k: &[u8]) -> Vec<u8> {
    let mut v = 0u32.to_le_bytes().to_vec();
    v.extend_from_slice(&fixvec(k));
    v
}
pub fn dec_pk(b: &[u8]) -> Option<Vec<u8>> {
    if u32at(b, 0)? != 0 {
        return None;
    }
    let l = u32at(b, 4)?;
    if l + 8 != b.len() {
        return None;
    }
    Some(b[8..].to_vec())
}
pub fn enc_propose(f: [&[u8]; 5]) -> Vec<u8> {
    table(&f.iter().map(|x| fixvec(x)).collect::<Vec<_>>())
}
pub fn dec_propose(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    untable(b, 5)
}
pub fn enc_exchange(ep: &[u8], sig: &[u8]) -> Vec<u8> {
    table(&[fixvec(ep), fixvec(sig)])
}
pub fn dec_exchange(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    untable(b, 2)
}
