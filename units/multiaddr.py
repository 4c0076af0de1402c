"""Contracts for tentacle-multiaddr and the address helpers of tentacle (C17, C18, C26)."""
from vx import Unit, Fn, Loop, ShapeError, Tok, match_close, lex
from common import HEAD, BYTES, FOOT

PR, LB, ER = 'multiaddr/src/protocol.rs', 'multiaddr/src/lib.rs', 'multiaddr/src/error.rs'
UT, TR = 'tentacle/src/utils.rs', 'tentacle/src/transports/mod.rs'

def desugar_write(body):
    """`write!(f, "a{}b", x)` becomes `{ f.write_str("a")?; (x).show(f)?; f.write_str("b")?; Ok(()) }`; only plain `{}` places are understood"""
    out, i = [], 0
    while i < len(body):
        if body[i].t == 'write' and i + 2 < len(body) and body[i + 1].t == '!' and body[i + 2].t == '(':
            e = match_close(body, i + 2)
            args, cur, j = [], [], i + 3
            while j < e:
                if body[j].t in '([{' and body[j].k == 'op':
                    k = match_close(body, j); cur += body[j:k + 1]; j = k + 1; continue
                if body[j].t == ',':
                    args.append(cur); cur = []; j += 1; continue
                cur.append(body[j]); j += 1
            if cur: args.append(cur)
            if len(args) < 2 or len(args[1]) != 1 or args[1][0].k != 'str':
                raise ShapeError('write! without a literal format')
            f, fmt, rest = args[0], args[1][0].t[1:-1], args[2:]
            pieces = fmt.split('{}')
            if any(c in p for p in pieces for c in '{}\\') or len(pieces) != len(rest) + 1:
                raise ShapeError('format string %s' % fmt)
            fn = ' '.join(t.t for t in f)
            s = '{ '
            for n, p in enumerate(pieces):
                if p: s += '%s . write_str ( "%s" ) ? ; ' % (fn, p)
                if n < len(rest): s += '( %s ) . show ( %s ) ? ; ' % (' '.join(t.t for t in rest[n]), fn)
            s += 'Ok ( ( ) ) }'
            out += [Tok(t.k, t.t, body[i].ln, t.sp or ' ') for t in lex(s)]
            i = e + 1
            continue
        out.append(body[i]); i += 1
    return out

SPEC = r'''
pub struct Utf8Error {} pub struct FromUtf8Error {} pub struct AddrParseError {} pub struct ParseIntError {}
#[verifier::external_body]
pub struct BoxErr { x: u8 }
pub mod decode { pub struct Error {} }
pub mod bs58 { use super::*; pub struct Error {}
  #[verifier::external_body]
  pub fn decode(s: &str) -> (r: Result<Vec<u8>, Error>) ensures r is Ok ==> b58_of(s@) == Some(r->Ok_0@), r is Err ==> b58_of(s@) is None { unimplemented!() }
  #[verifier::external_body]
  pub fn encode(c: &CowBytes) -> (r: String) ensures r@ == b58_txt(c@) { unimplemented!() }
}
impl BoxErr { #[verifier::external_body] pub fn of<E>(e: E) -> BoxErr { unimplemented!() } }

// ---- varints
#[verifier::opaque]
pub open spec fn vi(n: nat) -> Seq<u8> decreases n { if n < 128 { seq![n as u8] } else { seq![(n % 128 + 128) as u8] + vi(n / 128) } }
pub proof fn lemma_vi_len(n: nat) ensures vi(n).len() >= 1 decreases n { reveal(vi); if n >= 128 { lemma_vi_len(n / 128); } }
pub proof fn lemma_vi(a: nat, b: nat, x: Seq<u8>, y: Seq<u8>) requires vi(a) + x == vi(b) + y ensures a == b, x == y decreases a {
  reveal(vi); lemma_vi_len(a); lemma_vi_len(b);
  assert((vi(a) + x)[0] == vi(a)[0]); assert((vi(b) + y)[0] == vi(b)[0]);
  if a < 128 && b < 128 { assert(x =~= (vi(a) + x).subrange(1, 1 + x.len() as int)); assert(y =~= (vi(b) + y).subrange(1, 1 + y.len() as int)); assert((vi(a) + x).len() == (vi(b) + y).len()); }
  else if a >= 128 && b >= 128 {
    let s = vi(a) + x;
    assert(s.subrange(1, s.len() as int) =~= vi(a / 128) + x); assert(s.subrange(1, s.len() as int) =~= vi(b / 128) + y);
    lemma_vi(a / 128, b / 128, x, y);
    assert(a == (a / 128) * 128 + a % 128); assert(b == (b / 128) * 128 + b % 128);
  }
}
pub broadcast proof fn vi_parse(a: nat, b: nat, x: Seq<u8>, y: Seq<u8>) ensures #![trigger vi(a) + x, vi(b) + y] vi(a) + x == vi(b) + y ==> a == b && x == y { if vi(a) + x == vi(b) + y { lemma_vi(a, b, x, y); } }
pub broadcast proof fn vi_nonempty(n: nat) ensures (#[trigger] vi(n)).len() >= 1 { lemma_vi_len(n); }
pub broadcast proof fn cat3(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }

pub broadcast proof fn split_cat(s: Seq<u8>, n: int) requires 0 <= n <= s.len() ensures #[trigger] (s.subrange(0, n) + s.subrange(n, s.len() as int)) == s { assert(s.subrange(0, n) + s.subrange(n, s.len() as int) =~= s); }
pub broadcast proof fn cat_split(u: Seq<u8>, t: Seq<u8>) ensures #![trigger u + t] (u + t).subrange(0, u.len() as int) == u, (u + t).subrange(u.len() as int, (u + t).len() as int) == t { assert((u + t).subrange(0, u.len() as int) =~= u); assert((u + t).subrange(u.len() as int, (u + t).len() as int) =~= t); }
pub open spec fn quad(a: u8, b: u8, c: u8, d: u8) -> Seq<u8> { seq![a, b, c, d] }
pub broadcast proof fn seq4(s: Seq<u8>) ensures #![trigger quad(s[0], s[1], s[2], s[3])] s.len() == 4 ==> quad(s[0], s[1], s[2], s[3]) == s { if s.len() == 4 { assert(seq![s[0], s[1], s[2], s[3]] =~= s); } }
pub broadcast proof fn empty_is(t: Seq<u8>) ensures #![trigger t.len()] t.len() == 0 ==> t == Seq::<u8>::empty() { if t.len() == 0 { assert(t =~= Seq::<u8>::empty()); } }
pub broadcast proof fn cat_empty(t: Seq<u8>) ensures #[trigger] (Seq::<u8>::empty() + t) == t { assert(Seq::<u8>::empty() + t =~= t); }
pub broadcast proof fn sub_all(s: Seq<u8>) ensures #![trigger s.subrange(0, 2)] s.len() == 2 ==> s.subrange(0, 2) == s { if s.len() == 2 { assert(s.subrange(0, 2) =~= s); } }
pub broadcast proof fn be16_parse(s: Seq<u8>, v: u16) ensures #![trigger be16(s), to_be16(v)] s.len() == 2 ==> ((v as int == be16(s)) == (to_be16(v) == s)) { if s.len() == 2 { lemma_be16(v); if v as int == be16(s) { lemma_eb16(s, v); } } }
pub mod unsigned_varint { use super::*;
  pub mod decode { use super::super::*;
    // complete on every shortest encoding, nothing assumed about other inputs but the error
    #[verifier::external_body]
    pub fn u32(input: &[u8]) -> (r: Result<(u32, &[u8]), super::super::decode::Error>)
      ensures forall|m: nat, t: Seq<u8>| input@ == #[trigger] (vi(m) + t) && m <= u32::MAX ==> r is Ok && r->Ok_0.0 == m && r->Ok_0.1@ == t { unimplemented!() }
    #[verifier::external_body]
    pub fn usize(input: &[u8]) -> (r: Result<(usize, &[u8]), super::super::decode::Error>)
      ensures forall|m: nat, t: Seq<u8>| input@ == #[trigger] (vi(m) + t) && m <= usize::MAX ==> r is Ok && r->Ok_0.0 == m && r->Ok_0.1@ == t { unimplemented!() }
    // a value below 128 in one byte, or up to three bytes of which all but the last have the top bit
    #[verifier::external_body]
    pub fn u16(input: &[u8]) -> (r: Result<(u16, &[u8]), super::super::decode::Error>)
      ensures forall|m: nat, t: Seq<u8>| input@ == #[trigger] (vi(m) + t) && m <= u16::MAX ==> r is Ok && r->Ok_0.0 == m && r->Ok_0.1@ == t,
        r is Ok ==> input@.len() > r->Ok_0.1@.len() && (input@.len() - r->Ok_0.1@.len() == 1 ==> r->Ok_0.0 == input@[0] && input@[0] < 128) && r->Ok_0.1@ == input@.subrange(input@.len() - r->Ok_0.1@.len(), input@.len() as int) { unimplemented!() }
  }
  pub mod encode { use super::super::*;
    #[verifier::external_body]
    pub fn u32_buffer() -> [u8; 5] { unimplemented!() }
    #[verifier::external_body]
    pub fn usize_buffer() -> [u8; 10] { unimplemented!() }
    #[verifier::external_body]
    pub fn u32(n: u32, b: &mut [u8; 5]) -> (r: &[u8]) ensures r@ == vi(n as nat) { unimplemented!() }
    #[verifier::external_body]
    pub fn usize(n: usize, b: &mut [u8; 10]) -> (r: &[u8]) ensures r@ == vi(n as nat) { unimplemented!() }
  }
}
#[verifier::external_body]
pub fn slice_starts_with(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (b@.len() <= a@.len() && a@.subrange(0, b@.len() as int) == b@) { unimplemented!() }
#[verifier::external_body]
pub fn slice_split_at(a: &[u8], n: usize) -> (r: (&[u8], &[u8])) requires n <= a@.len() ensures r.0@ == a@.subrange(0, n as int), r.1@ == a@.subrange(n as int, a@.len() as int) { unimplemented!() }

// ---- strings
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub broadcast proof fn axiom_utf8(a: Seq<char>, b: Seq<char>) ensures #![trigger utf8(a), utf8(b)] utf8(a) == utf8(b) ==> a == b {}
pub mod str { use super::*;
  #[verifier::external_body]
  pub fn from_utf8(b: &[u8]) -> (r: Result<&str, Utf8Error>) ensures r is Ok ==> utf8(r->Ok_0@) == b@, r is Err ==> forall|s: Seq<char>| #[trigger] utf8(s) != b@ { unimplemented!() }
}
#[verifier::external_body]
pub broadcast proof fn axiom_str_ext(a: &str, b: &str) ensures #![trigger a@, b@] a@ == b@ ==> a == b { }
#[verifier::external_body]
pub struct CowStr<'a> { x: &'a u8 }
#[verifier::external_body]
pub struct CowBytes<'a> { x: &'a u8 }
impl<'a> CowStr<'a> {
  pub uninterp spec fn view(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == utf8(self@) { unimplemented!() }
  #[verifier::external_body]
  pub fn into_owned(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub broadcast proof fn axiom_cow(c: CowStr) ensures utf8(#[trigger] c@).len() <= usize::MAX {}
impl<'a> CowBytes<'a> {
  pub uninterp spec fn view(&self) -> Seq<u8>;
  #[verifier::external_body]
  pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body]
  pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn into_owned(self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
// Cow::Borrowed / Cow::Owned, chosen by the argument type
pub trait IntoCow<C>: Sized { spec fn same(self, c: C) -> bool; fn into_cow(self) -> (r: C) ensures self.same(r); }
impl<'a> IntoCow<CowStr<'a>> for &'a str { open spec fn same(self, c: CowStr<'a>) -> bool { c@ == self@ } #[verifier::external_body] fn into_cow(self) -> (r: CowStr<'a>) { unimplemented!() } }
impl<'a> IntoCow<CowStr<'a>> for String { open spec fn same(self, c: CowStr<'a>) -> bool { c@ == self@ } #[verifier::external_body] fn into_cow(self) -> (r: CowStr<'a>) { unimplemented!() } }
impl<'a> IntoCow<CowBytes<'a>> for &'a [u8] { open spec fn same(self, c: CowBytes<'a>) -> bool { c@ == self@ } #[verifier::external_body] fn into_cow(self) -> (r: CowBytes<'a>) { unimplemented!() } }
impl<'a> IntoCow<CowBytes<'a>> for Vec<u8> { open spec fn same(self, c: CowBytes<'a>) -> bool { c@ == self@ } #[verifier::external_body] fn into_cow(self) -> (r: CowBytes<'a>) { unimplemented!() } }

// ---- ip addresses: the octets / segments are the value
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Ipv4Addr { x: [u8; 4] }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Ipv6Addr { x: [u8; 16] }
impl Ipv4Addr {
  pub uninterp spec fn view(&self) -> Seq<u8>;
  #[verifier::external_body]
  pub fn new(a: u8, b: u8, c: u8, d: u8) -> (r: Ipv4Addr) ensures r@ == quad(a, b, c, d) { unimplemented!() }
  #[verifier::external_body]
  pub fn octets(&self) -> (r: [u8; 4]) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn from_str(s: &str) -> (r: Result<Ipv4Addr, AddrParseError>) ensures r is Ok ==> ip4_of(s@) == Some(r->Ok_0@), r is Err ==> ip4_of(s@) is None { unimplemented!() }
  #[verifier::external_body]
  pub fn is_private(&self) -> (r: bool) ensures r == (self@[0] == 10 || self@[0] == 172 && 16 <= self@[1] <= 31 || self@[0] == 192 && self@[1] == 168) { unimplemented!() }
  #[verifier::external_body]
  pub fn is_loopback(&self) -> (r: bool) ensures r == (self@[0] == 127) { unimplemented!() }
  #[verifier::external_body]
  pub fn is_link_local(&self) -> (r: bool) ensures r == (self@[0] == 169 && self@[1] == 254) { unimplemented!() }
  #[verifier::external_body]
  pub fn is_broadcast(&self) -> (r: bool) ensures r == (self@ == seq![255u8, 255u8, 255u8, 255u8]) { unimplemented!() }
  #[verifier::external_body]
  pub fn is_documentation(&self) -> (r: bool) ensures r == (self@[0] == 192 && self@[1] == 0 && self@[2] == 2 || self@[0] == 198 && self@[1] == 51 && self@[2] == 100 || self@[0] == 203 && self@[1] == 0 && self@[2] == 113) { unimplemented!() }
  #[verifier::external_body]
  pub fn is_unspecified(&self) -> (r: bool) ensures r == (self@ == seq![0u8, 0u8, 0u8, 0u8]) { unimplemented!() }
  #[verifier::external_body]
  pub fn is_multicast(&self) -> (r: bool) ensures r == (224 <= self@[0] <= 239) { unimplemented!() }
}
impl Ipv6Addr {
  pub uninterp spec fn view(&self) -> Seq<u16>;
  #[verifier::external_body]
  pub fn new(a: u16, b: u16, c: u16, d: u16, e: u16, f: u16, g: u16, h: u16) -> (r: Ipv6Addr) ensures r@ == seq![a, b, c, d, e, f, g, h] { unimplemented!() }
  #[verifier::external_body]
  pub fn segments(&self) -> (r: [u16; 8]) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn from_str(s: &str) -> (r: Result<Ipv6Addr, AddrParseError>) ensures r is Ok ==> ip6_of(s@) == Some(r->Ok_0@), r is Err ==> ip6_of(s@) is None { unimplemented!() }
  #[verifier::external_body]
  pub fn is_multicast(&self) -> (r: bool) ensures r == (self@[0] >= 0xff00) { unimplemented!() }
  #[verifier::external_body]
  pub fn is_loopback(&self) -> (r: bool) ensures r == (self@ == seq![0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 1u16]) { unimplemented!() }
  #[verifier::external_body]
  pub fn is_unspecified(&self) -> (r: bool) ensures r == (self@ == seq![0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16]) { unimplemented!() }
}
#[verifier::external_body]
pub broadcast proof fn axiom_ip4(a: Ipv4Addr, b: Ipv4Addr) ensures #![trigger a@, b@] a@.len() == 4, a@ == b@ ==> a == b {}
#[verifier::external_body]
pub broadcast proof fn axiom_ip6(a: Ipv6Addr, b: Ipv6Addr) ensures #![trigger a@, b@] a@.len() == 8, a@ == b@ ==> a == b {}
#[derive(Clone, Copy)]
pub enum IpAddr { V4(Ipv4Addr), V6(Ipv6Addr) }

// ---- byte sinks and sources
#[verifier::external_body]
pub struct Cursor<'a> { x: &'a [u8] }
impl<'a> Cursor<'a> {
  pub uninterp spec fn rest(&self) -> Seq<u8>;
  #[verifier::external_body]
  pub fn new(d: &'a [u8]) -> (r: Cursor<'a>) ensures r.rest() == d@ { unimplemented!() }
  #[verifier::external_body]
  pub fn get_u16(&mut self) -> (r: u16) requires old(self).rest().len() >= 2 ensures r as int == be16(old(self).rest().subrange(0, 2)), final(self).rest() == old(self).rest().subrange(2, old(self).rest().len() as int) { unimplemented!() }
}
pub trait BufMut {
  spec fn out(&self) -> Seq<u8>;
  fn put(&mut self, b: &[u8]) ensures final(self).out() == old(self).out() + b@;
  fn put_u16(&mut self, v: u16) ensures final(self).out() == old(self).out() + to_be16(v);
  fn put_u8(&mut self, v: u8) ensures final(self).out() == old(self).out() + seq![v];
}
impl BufMut for Vec<u8> {
  open spec fn out(&self) -> Seq<u8> { self@ }
  #[verifier::external_body] fn put(&mut self, b: &[u8]) { unimplemented!() }
  #[verifier::external_body] fn put_u16(&mut self, v: u16) { unimplemented!() }
  #[verifier::external_body] fn put_u8(&mut self, v: u8) { unimplemented!() }
}
impl BufMut for BytesMut {
  open spec fn out(&self) -> Seq<u8> { self@ }
  #[verifier::external_body] fn put(&mut self, b: &[u8]) { unimplemented!() }
  #[verifier::external_body] fn put_u16(&mut self, v: u16) { unimplemented!() }
  #[verifier::external_body] fn put_u8(&mut self, v: u8) { unimplemented!() }
}
impl BytesMut {
  #[verifier::external_body]
  pub fn new() -> (r: BytesMut) ensures r@.len() == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r@.len() == 0 { unimplemented!() }
}
impl Bytes {
  #[verifier::external_body]
  pub fn truncate(&mut self, n: usize) ensures final(self)@ == if n <= old(self)@.len() { old(self)@.subrange(0, n as int) } else { old(self)@ } { unimplemented!() }
}
#[verifier::external_body]
pub fn vec_set_len(v: &mut Vec<u8>, n: usize) ensures final(v)@.len() == n { unimplemented!() }
#[verifier::external_body]
pub fn vec_copy_from_slice(v: &mut Vec<u8>, s: &[u8]) requires old(v)@.len() == s@.len() ensures final(v)@ == s@ { unimplemented!() }

// ---- values
pub enum PV { Dns4(Seq<char>), Dns6(Seq<char>), Ip4(Seq<u8>), Ip6(Seq<u16>), P2p(Seq<u8>), Tcp(u16), Tls(Seq<char>), Ws, Wss }
pub open spec fn be6(s: Seq<u16>) -> Seq<u8> decreases s.len() { if s.len() == 0 { seq![] } else { be6(s.drop_last()) + to_be16(s.last()) } }
pub open spec fn named(code: nat, b: Seq<u8>) -> Seq<u8> { vi(code) + (vi(b.len()) + b) }
pub open spec fn code(p: PV) -> nat { match p { PV::Dns4(s) => 0x36, PV::Dns6(s) => 0x37, PV::Ip4(o) => 4, PV::Ip6(g) => 0x29, PV::P2p(b) => 0x01a5, PV::Tcp(n) => 6, PV::Tls(s) => 0x01c0, PV::Ws => 0x01dd, PV::Wss => 0x01de } }
pub open spec fn body(p: PV) -> Seq<u8> { match p {
  PV::Dns4(s) => vi(utf8(s).len()) + utf8(s), PV::Dns6(s) => vi(utf8(s).len()) + utf8(s), PV::Tls(s) => vi(utf8(s).len()) + utf8(s),
  PV::P2p(b) => vi(b.len()) + b, PV::Ip4(o) => o, PV::Ip6(g) => be6(g), PV::Tcp(n) => to_be16(n), PV::Ws => seq![], PV::Wss => seq![] } }
pub open spec fn enc(p: PV) -> Seq<u8> { vi(code(p)) + body(p) }
pub broadcast proof fn enc_cat(p: PV, t: Seq<u8>) ensures #[trigger] (enc(p) + t) == vi(code(p)) + (body(p) + t) { assert(enc(p) + t =~= vi(code(p)) + (body(p) + t)); }
pub broadcast proof fn named_cat(u: Seq<u8>, t: Seq<u8>) ensures #[trigger] ((vi(u.len()) + u) + t) == vi(u.len()) + (u + t) { assert((vi(u.len()) + u) + t =~= vi(u.len()) + (u + t)); }
pub open spec fn peer(b: Seq<u8>) -> bool { b.len() == 34 && b[0] == 0x12 && b[1] == 32 }
pub open spec fn wf(p: PV) -> bool { match p { PV::Ip4(o) => o.len() == 4, PV::Ip6(g) => g.len() == 8, PV::P2p(b) => peer(b), PV::Dns4(s) => utf8(s).len() <= usize::MAX, PV::Dns6(s) => utf8(s).len() <= usize::MAX, PV::Tls(s) => utf8(s).len() <= usize::MAX, _ => true } }
pub open spec fn wfs(s: Seq<PV>) -> bool { forall|i: int| 0 <= i < s.len() ==> wf(#[trigger] s[i]) }
pub open spec fn encs(s: Seq<PV>) -> Seq<u8> decreases s.len() { if s.len() == 0 { seq![] } else { enc(s[0]) + encs(s.drop_first()) } }

pub proof fn lemma_be6(a: Seq<u16>, b: Seq<u16>) requires a.len() == b.len() ensures be6(a).len() == 2 * a.len(), be6(a) == be6(b) ==> a == b decreases a.len() {
  if a.len() > 0 {
    lemma_be6(a.drop_last(), b.drop_last()); lemma_be6(b.drop_last(), a.drop_last()); lemma_be16(a.last()); lemma_be16(b.last());
    if be6(a) == be6(b) {
      let k = be6(a.drop_last()).len() as int;
      assert(be6(a).subrange(0, k) =~= be6(a.drop_last())); assert(be6(b).subrange(0, k) =~= be6(b.drop_last()));
      assert(be6(a).subrange(k, k + 2) =~= to_be16(a.last())); assert(be6(b).subrange(k, k + 2) =~= to_be16(b.last()));
      assert(a =~= a.drop_last().push(a.last())); assert(b =~= b.drop_last().push(b.last()));
    }
  } else { assert(a =~= b); }
}
pub proof fn split_eq(a: Seq<u8>, b: Seq<u8>, x: Seq<u8>, y: Seq<u8>) requires a + x == b + y, a.len() == b.len() ensures a == b, x == y {
  let s = a + x; assert(a =~= s.subrange(0, a.len() as int)); assert(b =~= s.subrange(0, a.len() as int));
  assert((a + x).len() == (b + y).len());
  assert(x =~= s.subrange(a.len() as int, s.len() as int)); assert(y =~= s.subrange(a.len() as int, s.len() as int));
}
// the encoding of a component is self-delimiting: no other component starts the same bytes
pub proof fn enc_unique(p: PV, q: PV, x: Seq<u8>, y: Seq<u8>) requires wf(p), wf(q), enc(p) + x == enc(q) + y ensures p == q, x == y {
  broadcast use cat3; broadcast use axiom_utf8;
  lemma_vi(code(p), code(q), body(p) + x, body(q) + y);
  match p {
    PV::Dns4(s) => { let t = q->Dns4_0; lemma_vi(utf8(s).len(), utf8(t).len(), utf8(s) + x, utf8(t) + y); split_eq(utf8(s), utf8(t), x, y); }
    PV::Dns6(s) => { let t = q->Dns6_0; lemma_vi(utf8(s).len(), utf8(t).len(), utf8(s) + x, utf8(t) + y); split_eq(utf8(s), utf8(t), x, y); }
    PV::Tls(s) => { let t = q->Tls_0; lemma_vi(utf8(s).len(), utf8(t).len(), utf8(s) + x, utf8(t) + y); split_eq(utf8(s), utf8(t), x, y); }
    PV::P2p(s) => { let t = q->P2p_0; lemma_vi(s.len(), t.len(), s + x, t + y); split_eq(s, t, x, y); }
    PV::Ip4(o) => { split_eq(o, q->Ip4_0, x, y); }
    PV::Ip6(g) => { lemma_be6(g, q->Ip6_0); lemma_be6(q->Ip6_0, g); split_eq(be6(g), be6(q->Ip6_0), x, y); }
    PV::Tcp(n) => { lemma_be16(n); lemma_be16(q->Tcp_0); split_eq(to_be16(n), to_be16(q->Tcp_0), x, y); }
    PV::Ws => { assert(seq![] + x =~= x); assert(seq![] + y =~= y); }
    PV::Wss => { assert(seq![] + x =~= x); assert(seq![] + y =~= y); }
  }
}
pub proof fn enc_pos(p: PV) ensures enc(p).len() >= 1 { lemma_vi_len(code(p)); assert(enc(p).len() == vi(code(p)).len() + body(p).len()); }
pub proof fn encs_pos(s: Seq<PV>) ensures s.len() > 0 ==> encs(s).len() >= 1, s.len() == 0 ==> encs(s).len() == 0 { if s.len() > 0 { enc_pos(s[0]); assert(encs(s).len() == enc(s[0]).len() + encs(s.drop_first()).len()); } }
// an address has one decomposition
pub proof fn encs_unique(a: Seq<PV>, b: Seq<PV>) requires wfs(a), wfs(b), encs(a) == encs(b) ensures a == b decreases a.len() {
  encs_pos(a); encs_pos(b); assert(encs(a).len() == encs(b).len());
  if a.len() == 0 { assert(a =~= b); }
  else {
    enc_unique(a[0], b[0], encs(a.drop_first()), encs(b.drop_first()));
    assert(wfs(a.drop_first())); assert(wfs(b.drop_first()));
    encs_unique(a.drop_first(), b.drop_first());
    assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
}
pub proof fn encs_cat(a: Seq<PV>, b: Seq<PV>) ensures encs(a + b) == encs(a) + encs(b) decreases a.len() {
  if a.len() == 0 { assert(a + b =~= b); assert(encs(a) + encs(b) =~= encs(b)); }
  else { assert((a + b).drop_first() =~= a.drop_first() + b); encs_cat(a.drop_first(), b); assert((enc(a[0]) + encs(a.drop_first())) + encs(b) =~= enc(a[0]) + (encs(a.drop_first()) + encs(b))); }
}
pub proof fn encs_one(p: PV) ensures encs(seq![p]) == enc(p) { assert(seq![p].drop_first() =~= seq![]); assert(encs(seq![p].drop_first()) =~= seq![]); assert(enc(p) + seq![] =~= enc(p)); }
pub open spec fn is_addr(b: Seq<u8>) -> bool { exists|s: Seq<PV>| wfs(s) && #[trigger] encs(s) == b }
pub open spec fn comps(b: Seq<u8>) -> Seq<PV> { choose|s: Seq<PV>| wfs(s) && #[trigger] encs(s) == b }
pub proof fn comps_of(s: Seq<PV>) requires wfs(s) ensures is_addr(encs(s)), comps(encs(s)) == s { let c = comps(encs(s)); encs_unique(c, s); }
pub proof fn comps_push(b: Seq<u8>, p: PV) requires is_addr(b), wf(p) ensures is_addr(b + enc(p)), comps(b + enc(p)) == comps(b).push(p) {
  let c = comps(b); encs_cat(c, seq![p]); encs_one(p); assert(c + seq![p] =~= c.push(p)); assert(wfs(c.push(p))); comps_of(c.push(p));
}
pub proof fn comps_step(b: Seq<u8>, p: PV, t: Seq<u8>) requires is_addr(b), wf(p), b == enc(p) + t ensures is_addr(t), comps(b) == seq![p] + comps(t) {
  let c = comps(b); enc_pos(p); encs_pos(c); assert((enc(p) + t).len() == enc(p).len() + t.len());
  enc_unique(c[0], p, encs(c.drop_first()), t); assert(wfs(c.drop_first())); comps_of(c.drop_first()); assert(c =~= seq![c[0]] + c.drop_first());
}
pub proof fn comps_empty() ensures is_addr(seq![]), comps(seq![]).len() == 0 { assert(encs(Seq::<PV>::empty()) =~= seq![]); comps_of(Seq::empty()); }
pub proof fn comps_len(b: Seq<u8>) requires is_addr(b) ensures (comps(b).len() == 0) == (b.len() == 0), wfs(comps(b)), encs(comps(b)) == b { let c = comps(b); if c.len() > 0 { enc_pos(c[0]); } }
pub proof fn comps_head(b: Seq<u8>) requires is_addr(b), b.len() > 0 ensures b == enc(comps(b)[0]) + encs(comps(b).drop_first()), wf(comps(b)[0]), comps(b).len() > 0 { comps_len(b); }
// bytes that start with a well-formed component are an address exactly if the remainder is one
pub proof fn comps_cons(p: PV, t: Seq<u8>) requires wf(p), is_addr(t) ensures is_addr(enc(p) + t), comps(enc(p) + t) == seq![p] + comps(t) {
  let s = seq![p] + comps(t); assert(s.drop_first() =~= comps(t)); assert(wfs(s)) by { assert forall|i: int| 0 <= i < s.len() implies wf(#[trigger] s[i]) by { if i > 0 { assert(s[i] == comps(t)[i - 1]); } } }; assert(encs(s) == enc(p) + t); comps_of(s);
}
pub proof fn comps_cat(a: Seq<u8>, b: Seq<u8>) requires is_addr(a), is_addr(b) ensures is_addr(a + b), comps(a + b) == comps(a) + comps(b) {
  let s = comps(a) + comps(b); encs_cat(comps(a), comps(b)); assert(wfs(s)) by { assert forall|i: int| 0 <= i < s.len() implies wf(#[trigger] s[i]) by { if i >= comps(a).len() { assert(s[i] == comps(b)[i - comps(a).len()]); } else { assert(s[i] == comps(a)[i]); } } }; comps_of(s);
}
'''

TEXT = r'''
// ---- text form
pub uninterp spec fn ip4_of(s: Seq<char>) -> Option<Seq<u8>>;
pub uninterp spec fn ip4_txt(o: Seq<u8>) -> Seq<char>;
pub uninterp spec fn ip6_of(s: Seq<char>) -> Option<Seq<u16>>;
pub uninterp spec fn ip6_txt(o: Seq<u16>) -> Seq<char>;
pub uninterp spec fn u16_of(s: Seq<char>) -> Option<u16>;
pub uninterp spec fn u16_txt(n: u16) -> Seq<char>;
pub uninterp spec fn b58_of(s: Seq<char>) -> Option<Seq<u8>>;
pub uninterp spec fn b58_txt(b: Seq<u8>) -> Seq<char>;
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '/' }
#[verifier::external_body]
pub broadcast proof fn axiom_ip4_txt(o: Seq<u8>) ensures o.len() == 4 ==> ip4_of(#[trigger] ip4_txt(o)) == Some(o) && plain(ip4_txt(o)) {}
#[verifier::external_body]
pub broadcast proof fn axiom_ip6_txt(o: Seq<u16>) ensures o.len() == 8 ==> ip6_of(#[trigger] ip6_txt(o)) == Some(o) && plain(ip6_txt(o)) {}
#[verifier::external_body]
pub broadcast proof fn axiom_u16_txt(n: u16) ensures u16_of(#[trigger] u16_txt(n)) == Some(n), plain(u16_txt(n)) {}
#[verifier::external_body]
pub broadcast proof fn axiom_b58_txt(b: Seq<u8>) ensures b58_of(#[trigger] b58_txt(b)) == Some(b), plain(b58_txt(b)) {}
#[verifier::external_body]
pub fn parse_u16(s: &str) -> (r: Result<u16, ParseIntError>) ensures r is Ok ==> u16_of(s@) == Some(r->Ok_0), r is Err ==> u16_of(s@) is None { unimplemented!() }

pub mod fmt { pub struct Error {} pub type Result = core::result::Result<(), Error>;
  #[verifier::external_body]
  pub struct Formatter { x: u8 } }
impl fmt::Formatter {
  pub uninterp spec fn log(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn write_str(&mut self, s: &str) -> (r: fmt::Result) ensures r is Ok ==> final(self).log() == old(self).log() + s@ { unimplemented!() }
}
// what `{}` prints for an argument
pub trait Show { spec fn shown(&self) -> Seq<char>; fn show(&self, f: &mut fmt::Formatter) -> (r: fmt::Result) ensures r is Ok ==> final(f).log() == old(f).log() + self.shown(); }
impl<'a> Show for CowStr<'a> { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn show(&self, f: &mut fmt::Formatter) -> (r: fmt::Result) { unimplemented!() } }
impl Show for Ipv4Addr { open spec fn shown(&self) -> Seq<char> { ip4_txt(self@) } #[verifier::external_body] fn show(&self, f: &mut fmt::Formatter) -> (r: fmt::Result) { unimplemented!() } }
impl Show for Ipv6Addr { open spec fn shown(&self) -> Seq<char> { ip6_txt(self@) } #[verifier::external_body] fn show(&self, f: &mut fmt::Formatter) -> (r: fmt::Result) { unimplemented!() } }
impl Show for u16 { open spec fn shown(&self) -> Seq<char> { u16_txt(*self) } #[verifier::external_body] fn show(&self, f: &mut fmt::Formatter) -> (r: fmt::Result) { unimplemented!() } }
impl Show for String { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn show(&self, f: &mut fmt::Formatter) -> (r: fmt::Result) { unimplemented!() } }

// the parts between slashes
pub open spec fn parts_of(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
  if s.len() == 0 { seq![Seq::<char>::empty()] }
  else { let r = parts_of(s.drop_last()); if s.last() == '/' { r.push(Seq::<char>::empty()) } else { r.drop_last().push(r.last().push(s.last())) } }
}
#[verifier::external_body]
pub struct Parts<'a> { x: &'a str }
impl<'a> Parts<'a> {
  pub uninterp spec fn rest(&self) -> Seq<Seq<char>>;
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<&'a str>) ensures
    old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
    old(self).rest().len() > 0 ==> r is Some && r->Some_0@ == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first() { unimplemented!() }
  #[verifier::external_body]
  pub fn has_next(&mut self) -> (r: bool) ensures r == (old(self).rest().len() > 0), final(self).rest() == old(self).rest() { unimplemented!() }
}
#[verifier::external_body]
pub fn split_slash<'a>(s: &'a str) -> (r: Parts<'a>) ensures r.rest() == parts_of(s@), forall|i: int| 0 <= i < r.rest().len() ==> utf8(#[trigger] r.rest()[i]).len() <= usize::MAX { unimplemented!() }
pub fn opt_is(o: Option<&str>, s: &str) -> (r: bool) ensures r == (o is Some && o->Some_0@ == s@) { match o { Some(x) => str_eq(x, s), None => false } }
#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

pub open spec fn kw(p: PV) -> Seq<char> { match p { PV::Dns4(s) => seq!['d', 'n', 's', '4'], PV::Dns6(s) => seq!['d', 'n', 's', '6'], PV::Ip4(o) => seq!['i', 'p', '4'], PV::Ip6(g) => seq!['i', 'p', '6'], PV::P2p(b) => seq!['p', '2', 'p'], PV::Tcp(n) => seq!['t', 'c', 'p'], PV::Tls(s) => seq!['t', 'l', 's'], PV::Ws => seq!['w', 's'], PV::Wss => seq!['w', 's', 's'] } }
pub open spec fn arg(p: PV) -> Option<Seq<char>> { match p { PV::Dns4(s) => Some(s), PV::Dns6(s) => Some(s), PV::Ip4(o) => Some(ip4_txt(o)), PV::Ip6(g) => Some(ip6_txt(g)), PV::P2p(b) => Some(b58_txt(b)), PV::Tcp(n) => Some(u16_txt(n)), PV::Tls(s) => Some(s), PV::Ws => None, PV::Wss => None } }
pub open spec fn toks(p: PV) -> Seq<Seq<char>> { match arg(p) { Some(a) => seq![kw(p), a], None => seq![kw(p)] } }
pub open spec fn txt(p: PV) -> Seq<char> { match arg(p) { Some(a) => seq!['/'] + kw(p) + seq!['/'] + a, None => seq!['/'] + kw(p) } }
// a name that contains a slash has no text form (known finding)
pub open spec fn twf(p: PV) -> bool { wf(p) && match p { PV::Dns4(s) => plain(s), PV::Dns6(s) => plain(s), PV::Tls(s) => plain(s), _ => true } }
pub open spec fn twfs(s: Seq<PV>) -> bool { forall|i: int| 0 <= i < s.len() ==> twf(#[trigger] s[i]) }
pub open spec fn tokss(s: Seq<PV>) -> Seq<Seq<char>> decreases s.len() { if s.len() == 0 { seq![] } else { toks(s[0]) + tokss(s.drop_first()) } }
pub open spec fn txts(s: Seq<PV>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { txt(s[0]) + txts(s.drop_first()) } }

pub proof fn parts_nonempty(s: Seq<char>) ensures parts_of(s).len() > 0 decreases s.len() { if s.len() > 0 { parts_nonempty(s.drop_last()); } }
// s + "/" + a  splits into the parts of s followed by a when a has no slash
pub proof fn parts_append(s: Seq<char>, a: Seq<char>) requires plain(a) ensures parts_of(s + (seq!['/'] + a)) == parts_of(s).push(a) decreases a.len() {
  let t = s + (seq!['/'] + a);
  if a.len() == 0 { assert(t.drop_last() =~= s); assert(a =~= Seq::<char>::empty()); }
  else {
    assert(t.drop_last() =~= s + (seq!['/'] + a.drop_last())); parts_append(s, a.drop_last()); assert(t.last() == a.last()); assert(a[a.len() - 1] != '/');
    let r = parts_of(t.drop_last()); assert(r == parts_of(s).push(a.drop_last())); assert(r.drop_last() =~= parts_of(s)); assert(a.drop_last().push(a.last()) =~= a);
    assert(parts_of(t) == r.drop_last().push(r.last().push(t.last())));
  }
}
pub proof fn parts_comp(s: Seq<char>, p: PV) requires twf(p) ensures parts_of(s + txt(p)) == parts_of(s) + toks(p) {
  broadcast use {axiom_ip4_txt, axiom_ip6_txt, axiom_u16_txt, axiom_b58_txt};
  let k = kw(p); assert(plain(k));
  parts_append(s, k);
  match arg(p) {
    Some(a) => { let t = s + (seq!['/'] + k); parts_append(t, a); assert(s + txt(p) =~= t + (seq!['/'] + a)); assert(parts_of(s) + toks(p) =~= parts_of(s).push(k).push(a)); }
    None => { assert(s + txt(p) =~= s + (seq!['/'] + k)); assert(parts_of(s) + toks(p) =~= parts_of(s).push(k)); }
  }
}
pub proof fn parts_txts(s: Seq<char>, c: Seq<PV>) requires twfs(c) ensures parts_of(s + txts(c)) == parts_of(s) + tokss(c) decreases c.len() {
  if c.len() == 0 { assert(s + txts(c) =~= s); assert(parts_of(s) + tokss(c) =~= parts_of(s)); }
  else { assert(twf(c[0])); parts_comp(s, c[0]); assert(twfs(c.drop_first())) by { assert forall|i: int| 0 <= i < c.drop_first().len() implies twf(#[trigger] c.drop_first()[i]) by { assert(c.drop_first()[i] == c[i + 1]); } };
    parts_txts(s + txt(c[0]), c.drop_first()); assert(s + txts(c) =~= (s + txt(c[0])) + txts(c.drop_first())); assert(parts_of(s) + tokss(c) =~= (parts_of(s) + toks(c[0])) + tokss(c.drop_first())); }
}
// the printed text of an address splits into an empty part and the tokens of its components
pub proof fn printed_parts(c: Seq<PV>) requires twfs(c) ensures parts_of(txts(c)) == seq![Seq::<char>::empty()] + tokss(c) {
  parts_txts(Seq::empty(), c); assert(Seq::<char>::empty() + txts(c) =~= txts(c));
}
pub broadcast proof fn seq_cat4(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub proof fn toks_unique(p: PV, q: PV, x: Seq<Seq<char>>, y: Seq<Seq<char>>) requires twf(p), twf(q), toks(p) + x == toks(q) + y ensures p == q, x == y {
  broadcast use {axiom_ip4_txt, axiom_ip6_txt, axiom_u16_txt, axiom_b58_txt};
  let s = toks(p) + x; assert(s[0] == kw(p)); assert((toks(q) + y)[0] == kw(q));
  assert(kw(p) == kw(q)); kw_unique(p, q);
  if arg(p) is Some { assert(s[1] == arg(p)->Some_0); assert((toks(q) + y)[1] == arg(q)->Some_0); assert(s.subrange(2, s.len() as int) =~= x); assert(s.subrange(2, s.len() as int) =~= y); }
  else { assert(s.subrange(1, s.len() as int) =~= x); assert(s.subrange(1, s.len() as int) =~= y); }
}
pub open spec fn tag(p: PV) -> int { match p { PV::Dns4(s) => 0, PV::Dns6(s) => 1, PV::Ip4(o) => 2, PV::Ip6(g) => 3, PV::P2p(b) => 4, PV::Tcp(n) => 5, PV::Tls(s) => 6, PV::Ws => 7, PV::Wss => 8 } }
pub proof fn kw_unique(p: PV, q: PV) requires kw(p) == kw(q) ensures tag(p) == tag(q) {
  let a = kw(p); let b = kw(q); assert(a.len() == b.len()); assert(a[0] == b[0]); assert(a[1] == b[1]); if a.len() > 2 { assert(a[2] == b[2]); } if a.len() > 3 { assert(a[3] == b[3]); }
}
pub proof fn tokss_unique(a: Seq<PV>, b: Seq<PV>) requires twfs(a), twfs(b), tokss(a) == tokss(b) ensures a == b decreases a.len() {
  if a.len() > 0 { assert(toks(a[0]).len() > 0); } if b.len() > 0 { assert(toks(b[0]).len() > 0); }
  if a.len() == 0 || b.len() == 0 { assert(tokss(a).len() == tokss(b).len()); if a.len() > 0 { assert(tokss(a).len() == toks(a[0]).len() + tokss(a.drop_first()).len()); } if b.len() > 0 { assert(tokss(b).len() == toks(b[0]).len() + tokss(b.drop_first()).len()); } assert(a =~= b); }
  else { assert(twf(a[0])); assert(twf(b[0])); toks_unique(a[0], b[0], tokss(a.drop_first()), tokss(b.drop_first()));
    assert(twfs(a.drop_first())) by { assert forall|i: int| 0 <= i < a.drop_first().len() implies twf(#[trigger] a.drop_first()[i]) by { assert(a.drop_first()[i] == a[i + 1]); } };
    assert(twfs(b.drop_first())) by { assert forall|i: int| 0 <= i < b.drop_first().len() implies twf(#[trigger] b.drop_first()[i]) by { assert(b.drop_first()[i] == b[i + 1]); } };
    tokss_unique(a.drop_first(), b.drop_first()); assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
}
// two addresses that print the same are the same
pub proof fn txts_unique_all(t: Seq<char>) ensures forall|a: Seq<PV>, b: Seq<PV>| twfs(a) && twfs(b) && t == #[trigger] txts(a) && t == #[trigger] txts(b) ==> a == b {
  assert forall|a: Seq<PV>, b: Seq<PV>| twfs(a) && twfs(b) && t == #[trigger] txts(a) && t == #[trigger] txts(b) implies a == b by {
    printed_parts(a); printed_parts(b); assert((seq![Seq::<char>::empty()] + tokss(a)).drop_first() =~= tokss(a)); assert((seq![Seq::<char>::empty()] + tokss(b)).drop_first() =~= tokss(b)); tokss_unique(a, b);
  }
}
pub proof fn kw_split() ensures forall|p: PV| #[trigger] kw(p) == kw(p) && (seq!['/'] + kw(p)) == seq!['/'] + kw(p),
    seq!['/', 'd', 'n', 's', '4', '/'] == seq!['/'] + (seq!['d', 'n', 's', '4'] + seq!['/']), seq!['/', 'd', 'n', 's', '6', '/'] == seq!['/'] + (seq!['d', 'n', 's', '6'] + seq!['/']),
    seq!['/', 'i', 'p', '4', '/'] == seq!['/'] + (seq!['i', 'p', '4'] + seq!['/']), seq!['/', 'i', 'p', '6', '/'] == seq!['/'] + (seq!['i', 'p', '6'] + seq!['/']), seq!['/', 'p', '2', 'p', '/'] == seq!['/'] + (seq!['p', '2', 'p'] + seq!['/']),
    seq!['/', 't', 'c', 'p', '/'] == seq!['/'] + (seq!['t', 'c', 'p'] + seq!['/']), seq!['/', 't', 'l', 's', '/'] == seq!['/'] + (seq!['t', 'l', 's'] + seq!['/']), seq!['/', 'w', 's'] == seq!['/'] + seq!['w', 's'], seq!['/', 'w', 's', 's'] == seq!['/'] + seq!['w', 's', 's'] {
  assert(seq!['/', 'd', 'n', 's', '4', '/'] =~= seq!['/'] + (seq!['d', 'n', 's', '4'] + seq!['/'])); assert(seq!['/', 'd', 'n', 's', '6', '/'] =~= seq!['/'] + (seq!['d', 'n', 's', '6'] + seq!['/']));
  assert(seq!['/', 'i', 'p', '4', '/'] =~= seq!['/'] + (seq!['i', 'p', '4'] + seq!['/'])); assert(seq!['/', 'i', 'p', '6', '/'] =~= seq!['/'] + (seq!['i', 'p', '6'] + seq!['/'])); assert(seq!['/', 'p', '2', 'p', '/'] =~= seq!['/'] + (seq!['p', '2', 'p'] + seq!['/']));
  assert(seq!['/', 't', 'c', 'p', '/'] =~= seq!['/'] + (seq!['t', 'c', 'p'] + seq!['/'])); assert(seq!['/', 't', 'l', 's', '/'] =~= seq!['/'] + (seq!['t', 'l', 's'] + seq!['/'])); assert(seq!['/', 'w', 's'] =~= seq!['/'] + seq!['w', 's']); assert(seq!['/', 'w', 's', 's'] =~= seq!['/'] + seq!['w', 's', 's']);
}
pub trait OkOrErr<T>: Sized { spec fn val(self) -> Option<T>; fn ok_or_err(self, e: Error) -> (r: Result<T, Error>) ensures self.val() is Some ==> r == Ok::<T, Error>(self.val()->Some_0), self.val() is None ==> r is Err; }
impl<T> OkOrErr<T> for Option<T> { open spec fn val(self) -> Option<T> { self } fn ok_or_err(self, e: Error) -> (r: Result<T, Error>) { match self { Some(x) => Ok(x), None => Err(e) } } }
// expect on a Result: the obligation is that it is Ok
pub trait UnwrapOk<T>: Sized { spec fn res(self) -> Result<T, Error>; fn unwrap_ok(self) -> (r: T) requires self.res() is Ok ensures r == self.res()->Ok_0; }
impl<T> UnwrapOk<T> for Result<T, Error> { open spec fn res(self) -> Result<T, Error> { self } fn unwrap_ok(self) -> (r: T) { match self { Ok(x) => x, Err(e) => { assert(false); vstd::pervasive::unreached() } } } }
#[verifier::external_body]
pub fn vec_with_capacity(n: usize) -> (r: Vec<u8>) ensures r@.len() == 0 { unimplemented!() }
pub proof fn kw_lits() ensures "dns4"@ == seq!['d', 'n', 's', '4'], "dns6"@ == seq!['d', 'n', 's', '6'], "ip4"@ == seq!['i', 'p', '4'], "ip6"@ == seq!['i', 'p', '6'], "p2p"@ == seq!['p', '2', 'p'], "tcp"@ == seq!['t', 'c', 'p'], "tls"@ == seq!['t', 'l', 's'], "ws"@ == seq!['w', 's'], "wss"@ == seq!['w', 's', 's'], ""@ == Seq::<char>::empty(), "/"@ == seq!['/'],
  "/dns4/"@ == seq!['/', 'd', 'n', 's', '4', '/'], "/dns6/"@ == seq!['/', 'd', 'n', 's', '6', '/'], "/ip4/"@ == seq!['/', 'i', 'p', '4', '/'], "/ip6/"@ == seq!['/', 'i', 'p', '6', '/'], "/p2p/"@ == seq!['/', 'p', '2', 'p', '/'], "/tcp/"@ == seq!['/', 't', 'c', 'p', '/'], "/tls/"@ == seq!['/', 't', 'l', 's', '/'], "/ws"@ == seq!['/', 'w', 's'], "/wss"@ == seq!['/', 'w', 's', 's'] {
  reveal_strlit("dns4"); reveal_strlit("dns6"); reveal_strlit("ip4"); reveal_strlit("ip6"); reveal_strlit("p2p"); reveal_strlit("tcp"); reveal_strlit("tls"); reveal_strlit("ws"); reveal_strlit("wss"); reveal_strlit(""); reveal_strlit("/");
  reveal_strlit("/dns4/"); reveal_strlit("/dns6/"); reveal_strlit("/ip4/"); reveal_strlit("/ip6/"); reveal_strlit("/p2p/"); reveal_strlit("/tcp/"); reveal_strlit("/tls/"); reveal_strlit("/ws"); reveal_strlit("/wss");
  assert("dns4"@ =~= seq!['d', 'n', 's', '4']); assert("dns6"@ =~= seq!['d', 'n', 's', '6']); assert("ip4"@ =~= seq!['i', 'p', '4']); assert("ip6"@ =~= seq!['i', 'p', '6']); assert("p2p"@ =~= seq!['p', '2', 'p']); assert("tcp"@ =~= seq!['t', 'c', 'p']); assert("tls"@ =~= seq!['t', 'l', 's']); assert("ws"@ =~= seq!['w', 's']); assert("wss"@ =~= seq!['w', 's', 's']); assert(""@ =~= Seq::<char>::empty()); assert("/"@ =~= seq!['/']);
  assert("/dns4/"@ =~= seq!['/', 'd', 'n', 's', '4', '/']); assert("/dns6/"@ =~= seq!['/', 'd', 'n', 's', '6', '/']); assert("/ip4/"@ =~= seq!['/', 'i', 'p', '4', '/']); assert("/ip6/"@ =~= seq!['/', 'i', 'p', '6', '/']); assert("/p2p/"@ =~= seq!['/', 'p', '2', 'p', '/']); assert("/tcp/"@ =~= seq!['/', 't', 'c', 'p', '/']); assert("/tls/"@ =~= seq!['/', 't', 'l', 's', '/']); assert("/ws"@ =~= seq!['/', 'w', 's']); assert("/wss"@ =~= seq!['/', 'w', 's', 's']);
}
'''

VALS = r'''
impl<'a> Protocol<'a> {
  pub open spec fn view(&self) -> PV { match *self { Protocol::DNS4(s) => PV::Dns4(s@), Protocol::DNS6(s) => PV::Dns6(s@), Protocol::IP4(a) => PV::Ip4(a@), Protocol::IP6(a) => PV::Ip6(a@), Protocol::P2P(b) => PV::P2p(b@), Protocol::TCP(n) => PV::Tcp(n), Protocol::TLS(s) => PV::Tls(s@), Protocol::Ws => PV::Ws, Protocol::Wss => PV::Wss } }
  // ToString is the Display output
  #[verifier::external_body]
  pub fn to_string(&self) -> (r: String) ensures r@ == txt(self@) { unimplemented!() }
}
impl Multiaddr {
  pub open spec fn ok(&self) -> bool { is_addr(self.bytes@) }
  pub open spec fn cs(&self) -> Seq<PV> { comps(self.bytes@) }
}
impl<'a> Iter<'a> {
  pub open spec fn ok(&self) -> bool { is_addr(self.0@) }
  pub open spec fn rest(&self) -> Seq<PV> { comps(self.0@) }
}
// any source of components
pub trait PIter<'a>: Sized { spec fn todo(&self) -> Seq<PV>;
  fn next(&mut self) -> (r: Option<Protocol<'a>>) ensures
    old(self).todo().len() == 0 ==> r is None && final(self).todo() == old(self).todo(),
    old(self).todo().len() > 0 ==> r is Some && r->Some_0@ == old(self).todo()[0] && final(self).todo() == old(self).todo().drop_first(); }
pub open spec fn replaced_by<'a, F: FnOnce(&Protocol<'_>) -> Option<Protocol<'a>>>(c: Seq<PV>, at: int, by: F, d: Seq<PV>) -> bool {
  0 <= at < c.len() && exists|p: &Protocol<'_>, q: Protocol<'a>| p@ == c[at] && #[trigger] call_ensures(by, (p,), Some(q)) && d == c.update(at, q@)
}
pub proof fn replaced_push<'a, F: FnOnce(&Protocol<'_>) -> Option<Protocol<'a>>>(c: Seq<PV>, at: int, by: F, d: Seq<PV>, x: PV) requires replaced_by(c, at, by, d) ensures replaced_by(c.push(x), at, by, d.push(x)) {
  let (p, q) = choose|p: &Protocol<'_>, q: Protocol<'a>| p@ == c[at] && #[trigger] call_ensures(by, (p,), Some(q)) && d == c.update(at, q@);
  assert(p@ == c.push(x)[at] && call_ensures(by, (p,), Some(q)) && d.push(x) =~= c.push(x).update(at, q@));
}
pub proof fn encs_len(s: Seq<PV>) ensures s.len() <= encs(s).len() decreases s.len() { encs_pos(s); if s.len() > 0 { enc_pos(s[0]); encs_len(s.drop_first()); assert(encs(s).len() == enc(s[0]).len() + encs(s.drop_first()).len()); } }
// iter::once(a).chain(iter::once(b))
#[verifier::external_body]
pub struct Two<'a> { x: &'a u8 }
impl<'a> Two<'a> { pub uninterp spec fn t(&self) -> Seq<PV>;
  #[verifier::external_body]
  pub fn of(a: Protocol<'a>, b: Protocol<'a>) -> (r: Two<'a>) ensures r.t() == seq![a@, b@] { unimplemented!() } }
impl<'a> PIter<'a> for Two<'a> { open spec fn todo(&self) -> Seq<PV> { self.t() } #[verifier::external_body] fn next(&mut self) -> (r: Option<Protocol<'a>>) { unimplemented!() } }
// Peekable over Iter
#[verifier::external_body]
pub struct Peek<'a> { x: &'a u8 }
impl<'a> Peek<'a> {
  pub uninterp spec fn rest(&self) -> Seq<PV>;
  #[verifier::external_body]
  pub fn of(i: Iter<'a>) -> (r: Peek<'a>) requires i.ok() ensures r.rest() == i.rest() { unimplemented!() }
  #[verifier::external_body]
  pub fn peek(&mut self) -> (r: Option<&Protocol<'a>>) ensures final(self).rest() == old(self).rest(), old(self).rest().len() == 0 ==> r is None, old(self).rest().len() > 0 ==> r is Some && r->Some_0@ == old(self).rest()[0] { unimplemented!() }
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<Protocol<'a>>) ensures
    old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
    old(self).rest().len() > 0 ==> r is Some && r->Some_0@ == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first() { unimplemented!() }
}
'''

NET = r'''
pub struct SocketAddr { pub a: IpAddr, pub p: u16 }
impl SocketAddr {
  pub fn new(a: IpAddr, p: u16) -> (r: SocketAddr) ensures r.a == a, r.p == p { SocketAddr { a, p } }
  pub fn ip(&self) -> (r: IpAddr) ensures r == self.a { self.a }
  pub fn port(&self) -> (r: u16) ensures r == self.p { self.p }
}
pub fn ip_from<T: ToIp>(t: T) -> (r: IpAddr) ensures r == t.ip() { t.into_ip() }
pub trait ToIp: Sized { spec fn ip(&self) -> IpAddr; fn into_ip(self) -> (r: IpAddr) ensures r == self.ip(); }
impl ToIp for Ipv4Addr { open spec fn ip(&self) -> IpAddr { IpAddr::V4(*self) } fn into_ip(self) -> (r: IpAddr) { IpAddr::V4(self) } }
impl ToIp for Ipv6Addr { open spec fn ip(&self) -> IpAddr { IpAddr::V6(*self) } fn into_ip(self) -> (r: IpAddr) { IpAddr::V6(self) } }
pub struct PeerId { pub inner: Vec<u8> }
pub struct PidErr {}
impl PeerId {
  // proved in unit secio (C16)
  #[verifier::external_body]
  pub fn from_bytes(b: Vec<u8>) -> (r: Result<PeerId, PidErr>) ensures r is Ok ==> peer(b@) && r->Ok_0.inner@ == b@, peer(b@) ==> r is Ok { unimplemented!() }
}
pub trait OkOpt<T>: Sized { spec fn val(self) -> Option<T>; fn ok_opt(self) -> (r: Option<T>) ensures r == self.val(); }
impl<T, E> OkOpt<T> for Result<T, E> { open spec fn val(self) -> Option<T> { match self { Ok(x) => Some(x), Err(e) => None } } fn ok_opt(self) -> (r: Option<T>) { match self { Ok(x) => Some(x), Err(e) => None } } }
pub open spec fn host(p: PV) -> bool { p is Ip4 || p is Ip6 }
pub open spec fn pair_at(c: Seq<PV>, i: int) -> bool { 0 <= i && i + 1 < c.len() && host(c[i]) && c[i + 1] is Tcp }
/// the first host with a port behind it
pub open spec fn first_pair(c: Seq<PV>) -> Option<(PV, PV)> decreases c.len() { if c.len() < 2 { None } else if pair_at(c, 0) { Some((c[0], c[1])) } else { first_pair(c.drop_first()) } }
pub proof fn first_pair_is(c: Seq<PV>)
  ensures first_pair(c) is Some ==> exists|i: int| #[trigger] pair_at(c, i) && (forall|j: int| j < i ==> !#[trigger] pair_at(c, j)) && first_pair(c) == Some((c[i], c[i + 1])), first_pair(c) is None ==> forall|i: int| !#[trigger] pair_at(c, i)
  decreases c.len()
{
  if c.len() >= 2 {
    let d = c.drop_first();
    first_pair_is(d);
    assert forall|i: int| i > 0 implies #[trigger] pair_at(c, i) == pair_at(d, i - 1) by {}
    if !pair_at(c, 0) && first_pair(c) is Some {
      let i = choose|i: int| #[trigger] pair_at(d, i) && (forall|j: int| j < i ==> !#[trigger] pair_at(d, j)) && first_pair(d) == Some((d[i], d[i + 1]));
      assert(pair_at(c, i + 1));
      assert forall|j: int| j < i + 1 implies !#[trigger] pair_at(c, j) by { if j > 0 { assert(!pair_at(d, j - 1)); } }
    } else if pair_at(c, 0) {
      assert forall|j: int| j < 0 implies !#[trigger] pair_at(c, j) by {}
    } else {
      assert forall|i: int| !#[trigger] pair_at(c, i) by { if i > 0 { assert(!pair_at(d, i - 1)); } }
    }
  }
}
pub open spec fn sock_is(s: SocketAddr, h: PV, t: PV) -> bool { s.p == t->Tcp_0 && match s.a { IpAddr::V4(a) => h == PV::Ip4(a@), IpAddr::V6(a) => h == PV::Ip6(a@) } }
pub open spec fn v4_special(o: Seq<u8>) -> bool {
  o[0] == 10 || (o[0] == 172 && 16 <= o[1] && o[1] <= 31) || (o[0] == 192 && o[1] == 168) || o[0] == 127 || (o[0] == 169 && o[1] == 254) || o == seq![255u8, 255u8, 255u8, 255u8]
  || (o[0] == 192 && o[1] == 0 && o[2] == 2) || (o[0] == 198 && o[1] == 51 && o[2] == 100) || (o[0] == 203 && o[1] == 0 && o[2] == 113) || o == seq![0u8, 0u8, 0u8, 0u8]
}
pub open spec fn v6_special(g: Seq<u16>) -> bool {
  g == seq![0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 1u16] || g == seq![0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16, 0u16] || (0xfe80 <= g[0] && g[0] <= 0xfebf) || (0xfec0 <= g[0] && g[0] <= 0xfeff) || (0xfc00 <= g[0] && g[0] <= 0xfdff)
  || (g[0] == 0x2001 && g[1] == 0xdb8) || (g[0] >= 0xff00 && g[0] % 16 != 14)
}
pub open spec fn special(a: IpAddr) -> bool { match a { IpAddr::V4(x) => v4_special(x@), IpAddr::V6(x) => v6_special(x@) } }
pub open spec fn kind(p: PV) -> Option<TransportType> { match p { PV::Ws => Some(TransportType::Ws), PV::Wss => Some(TransportType::Wss), PV::Tls(s) => Some(TransportType::TLS), _ => None } }
// a socket address survives the way to a multiaddr and back
pub proof fn socket_round_trip(s: SocketAddr, c: Seq<PV>, r: SocketAddr) requires c.len() == 2, sock_is(s, c[0], c[1]), sock_is(r, c[0], c[1]) ensures r == s {
  broadcast use {axiom_ip4, axiom_ip6};
}
'''

def build(root='/repo'):
    u = Unit('multiaddr', root)
    u.rule('std :: result :: Result', 'Result', '')
    u.text(HEAD + BYTES + SPEC + TEXT)
    C = ['C17', 'C18']
    # ---- errors
    u.item(ER, 'enum', 'Error', rules=[('Box < dyn error :: Error + Send + Sync >', 'BoxErr')])
    for ty, short in (('bs58 :: decode :: Error', 'bs58 :: Error'), (':: std :: net :: AddrParseError', 'AddrParseError'), (':: std :: num :: ParseIntError', 'ParseIntError'), (':: std :: str :: Utf8Error', 'Utf8Error'), ('unsigned_varint :: decode :: Error', 'decode :: Error')):
        u.impl('impl From<%s> for Error' % short.replace(' ', ''), ER, [Fn('impl From < %s > for Error' % ty, 'from', props=C, as_trait=True, rules=[(ty, short), ('err . into ( )', 'BoxErr :: of ( err )')])])
    for short in ('bs58::Error', 'AddrParseError', 'ParseIntError', 'Utf8Error', 'decode::Error'):
        u.text('impl vstd::std_specs::convert::FromSpecImpl<%s> for Error { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: %s) -> Self { arbitrary() } }' % (short, short))
    for c in 'DNS4 DNS6 IP4 IP6 P2P TCP TLS WS WSS SHA256_CODE SHA256_SIZE'.split():
        u.item(PR, 'const', c)
    CW = [("Cow < 'a , str >", "CowStr < 'a >"), ("Cow < 'a , [ u8 ] >", "CowBytes < 'a >"), ('Cow :: Borrowed ( $x )', '( $x ) . into_cow ( )'), ('Cow :: Owned ( $x )', '( $x ) . into_cow ( )')]
    u.item(PR, 'enum', 'Protocol', rules=CW)
    u.item(LB, 'struct', 'Multiaddr')
    u.item(LB, 'struct', 'Iter')
    u.text(VALS)
    SW = ('$idx . starts_with ( $y )', 'slice_starts_with ( $idx , $y )')
    dec = lambda t: dict(ensures=[(['C17', 'C18'], 'ret is Ok ==> input@ == vi(ret->Ok_0.0 as nat) + ret->Ok_0.1@'), (['C17', 'C18'], 'ret is Err ==> forall|m: nat, t: Seq<u8>| m <= %s::MAX ==> input@ != #[trigger] (vi(m) + t)' % t)], rules=[SW],
        proof='assert(forall|n: nat| vi(n).len() <= input@.len() && input@.subrange(0, vi(n).len() as int) == vi(n) ==> input@ == #[trigger] vi(n) + input@.subrange(vi(n).len() as int, input@.len() as int)) by { assert forall|n: nat| vi(n).len() <= input@.len() && input@.subrange(0, vi(n).len() as int) == vi(n) implies input@ == #[trigger] vi(n) + input@.subrange(vi(n).len() as int, input@.len() as int) by { assert(input@ =~= input@.subrange(0, vi(n).len() as int) + input@.subrange(vi(n).len() as int, input@.len() as int)); } } assert(forall|m: nat, t: Seq<u8>| input@ == #[trigger] (vi(m) + t) ==> vi(m).len() <= input@.len() && input@.subrange(0, vi(m).len() as int) == vi(m)) by { assert forall|m: nat, t: Seq<u8>| input@ == #[trigger] (vi(m) + t) implies vi(m).len() <= input@.len() && input@.subrange(0, vi(m).len() as int) == vi(m) by { assert((vi(m) + t).subrange(0, vi(m).len() as int) =~= vi(m)); } }')
    u.fn(PR, Fn(None, 'decode_u32', props=C, **dec('u32')))
    u.fn(PR, Fn(None, 'decode_usize', props=C, **dec('usize')))
    u.fn(PR, Fn(None, 'check_p2p', props=C, ensures=['(ret is Ok) == peer(data@)'], rules=[('( & data )', '( data )')],
        proof='assert(peer(data@) ==> data@ == vi(0x12) + data@.subrange(1, data@.len() as int)) by { if peer(data@) { reveal(vi); assert(vi(0x12) =~= seq![0x12u8]); assert(data@ =~= vi(0x12) + data@.subrange(1, data@.len() as int)); } }'))
    SPL = ('$idx . split_at ( $y )', 'slice_split_at ( $idx , $y )')
    u.fn(PR, Fn(None, 'split_header', props=C, ensures=['(ret is Ok) == (n <= input@.len())', 'ret is Ok ==> ret->Ok_0.0@ == input@.subrange(0, n as int) && ret->Ok_0.1@ == input@.subrange(n as int, input@.len() as int)'], rules=[SPL], sig='pub fn split_header<\'a>(n: usize, input: &\'a [u8]) -> (ret: Result<(&\'a [u8], &\'a [u8]), Error>)'))
    IPW = ('for $idx in seg . iter_mut ( ) { * $idx = $e ; }', 'let mut k_ : usize = 0 ; while k_ < 8 { let v_ = $e ; seg [ k_ ] = v_ ; k_ += 1 ; }')
    fb_proof = '''broadcast use {vi_parse, enc_cat, named_cat, seq4, cat_empty, be16_parse, sub_all, split_cat, cat_split, axiom_utf8, axiom_ip4, axiom_ip6};
      let ghost inp = input@;
      proof {
        assert(forall|q: PV| wf(q) && q is Ip4 ==> #[trigger] body(q).len() == 4);
        assert forall|q: PV| wf(q) && q is Ip6 implies #[trigger] body(q).len() == 16 by { lemma_be6(q->Ip6_0, q->Ip6_0); }
        assert forall|q: PV| wf(q) && q is Tcp implies #[trigger] body(q).len() == 2 by { lemma_be16(q->Tcp_0); }
      }'''
    u.impl("impl<'a> Protocol<'a>", PR, [
        Fn("impl < 'a > Protocol < 'a >", 'from_bytes', props=C,
           ensures=[(['C17'], 'ret is Ok ==> wf(ret->Ok_0.0@) && input@ == enc(ret->Ok_0.0@) + ret->Ok_0.1@'), (C, 'ret is Err ==> forall|q: PV, t: Seq<u8>| wf(q) ==> input@ != #[trigger] (enc(q) + t)')],
           rules=CW + [IPW, ('Cursor :: new ( data )', 'Cursor :: new ( data )'), ('input . split_at ( n )', 'slice_split_at ( input , n )'),
                       ("fn split_header ( $a ) -> $r { $blkb }", '')],
           proof=fb_proof, opts='#[verifier::loop_isolation(false)]', loops=[Loop(invariant=['k_ <= 8', 'rdr.rest() == data@.subrange(2 * k_, 16)', 'be6(seg@.subrange(0, k_ as int)) == data@.subrange(0, 2 * k_)'], decreases='8 - k_',
              before='assert(seg@.subrange(0, 0) =~= Seq::<u16>::empty()); assert(data@.subrange(0, 0) =~= Seq::<u8>::empty()); assert(data@.subrange(0, 16) =~= data@);', start='let ghost s0 = seg@; let ghost r0 = rdr.rest();',
              end='proof { let v = seg@[k_ - 1]; lemma_eb16(r0.subrange(0, 2), v); assert(seg@.subrange(0, k_ as int).drop_last() =~= s0.subrange(0, k_ - 1)); assert(r0.subrange(0, 2) =~= data@.subrange(2 * k_ - 2, 2 * k_)); assert(data@.subrange(0, 2 * k_) =~= data@.subrange(0, 2 * k_ - 2) + r0.subrange(0, 2)); assert(rdr.rest() =~= data@.subrange(2 * k_, 16)); }',
              after='assert(seg@.subrange(0, 8) =~= seg@); assert(data@.subrange(0, 16) =~= data@); assert(seq![seg@[0], seg@[1], seg@[2], seg@[3], seg@[4], seg@[5], seg@[6], seg@[7]] =~= seg@);')]),
        Fn("impl < 'a > Protocol < 'a >", 'write_to_bytes', props=C, requires=['wf(self@)'], ensures=['final(w).out() == old(w).out() + enc(self@)'],
           rules=[('use unsigned_varint :: encode ;', ''), ('encode ::', 'unsigned_varint :: encode ::'), ('& b [ .. ]', 'b . as_slice ( )'), ('& addr . octets ( ) [ .. ]', 'addr . octets ( ) . as_slice ( )'),
                  ('for & $ids in & addr . segments ( ) { $blkb }', 'let sg_ = addr . segments ( ) ; let mut k_ : usize = 0 ; while k_ < sg_ . len ( ) { let $ids = sg_ [ k_ ] ; k_ += 1 ; { $blkb } }')],
           proof='broadcast use {cat3, axiom_utf8, axiom_ip4, axiom_ip6}; let ghost w0 = w.out();', opts='#[verifier::loop_isolation(false)]', loops=[Loop(invariant=['k_ <= 8', 'sg_@.len() == 8', 'w.out() == w0 + (vi(0x29) + be6(sg_@.subrange(0, k_ as int)))'], decreases='8 - k_',
              before='assert(be6(sg_@.subrange(0, 0)) =~= Seq::<u8>::empty()); assert(vi(0x29) + Seq::<u8>::empty() =~= vi(0x29));',
              end='assert(sg_@.subrange(0, k_ as int).drop_last() =~= sg_@.subrange(0, k_ - 1));', after='assert(sg_@.subrange(0, 8) =~= sg_@);')]),
        Fn("impl < 'a > Protocol < 'a >", 'acquire', props=C, ensures=['ret@ == self@'], rules=CW),
    ])

    # ---- text
    u.impl("impl<'a> Protocol<'a>", PR, [
        Fn("impl < 'a > Protocol < 'a >", 'from_str_peek', props=['C18'], sig="pub fn from_str_peek(iter: &mut Parts<'a>) -> (ret: Result<Protocol<'a>, Error>)",
           requires=['forall|i: int| 0 <= i < old(iter).rest().len() ==> utf8(#[trigger] old(iter).rest()[i]).len() <= usize::MAX'],
           ensures=[(['C18'], 'forall|p: PV, t: Seq<Seq<char>>| twf(p) && old(iter).rest() == #[trigger] (toks(p) + t) ==> ret is Ok && ret->Ok_0@ == p && final(iter).rest() == t'), 'ret is Ok ==> wf(ret->Ok_0@)',
                    'final(iter).rest().len() < old(iter).rest().len() || (ret is Err && old(iter).rest().len() == 0)', 'exists|k: int| 0 <= k <= old(iter).rest().len() && final(iter).rest() == #[trigger] old(iter).rest().subrange(k, old(iter).rest().len() as int)'],
           rules=CW + [('bs58 :: decode ( $s ) . into_vec ( )', 'bs58 :: decode ( $s )'), ('s . parse ( )', 'parse_u16 ( s )'), ('ok_or ( $e ) ?', 'ok_or_err ( $e ) ?')],
           proof="""broadcast use {axiom_str_ext, axiom_ip4, axiom_ip6, axiom_ip4_txt, axiom_ip6_txt, axiom_u16_txt, axiom_b58_txt};
             proof { kw_lits(); let r = iter.rest(); let n = r.len() as int; assert(r.subrange(0, n) =~= r); if n >= 1 { assert(r.drop_first() =~= r.subrange(1, n)); if n >= 2 { assert(r.drop_first().drop_first() =~= r.subrange(2, n)); } }
               assert forall|p: PV, t: Seq<Seq<char>>| twf(p) && r == #[trigger] (toks(p) + t) implies r[0] == kw(p) && (arg(p) is Some ==> r.len() >= 2 && r[1] == arg(p)->Some_0 && r.drop_first()[0] == arg(p)->Some_0 && r.drop_first().drop_first() == t) && (arg(p) is None ==> r.drop_first() == t) && n >= 1 by { if arg(p) is Some { assert(r.drop_first().drop_first() =~= t); } else { assert(r.drop_first() =~= t); } }
             }"""),
        Fn("impl < 'a > fmt :: Display for Protocol < 'a >", 'fmt', props=['C18'], ensures=['ret is Ok ==> final(f).log() == old(f).log() + txt(self@)'], pre=[desugar_write], sig='pub fn fmt(&self, f: &mut fmt::Formatter) -> (ret: fmt::Result)',
           rules=[('use self :: Protocol :: * ;', 'use Protocol :: * ;'), ('bs58 :: encode ( $c ) . into_string ( )', 'bs58 :: encode ( $c )')],
           proof='broadcast use seq_cat4; let ghost l0 = f.log(); proof { kw_lits(); kw_split(); }'),
    ])
    # ---- Multiaddr
    SL = [('& self . bytes [ .. ]', 'self . bytes . as_slice ( )'), ('& v [ .. ]', 'v . as_slice ( )'), ('( & self . bytes )', '( self . bytes . as_slice ( ) )'), ('self . bytes . as_ref ( )', 'self . bytes . as_slice ( )')]
    u.impl("impl<'a> Iter<'a>", LB, [
        Fn("impl < 'a > Iterator for Iter < 'a >", 'next', props=C, requires=['old(self).ok()'], sig="pub fn next(&mut self) -> (ret: Option<Protocol<'a>>)",
           ensures=['final(self).ok()', (C, 'old(self).rest().len() == 0 ==> ret is None && final(self).rest() == old(self).rest()'), (C, 'old(self).rest().len() > 0 ==> ret is Some && wf(ret->Some_0@) && ret->Some_0@ == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first()'),
                    'ret is Some ==> old(self).0@ == enc(ret->Some_0@) + final(self).0@'],
           rules=SL + [('. expect ( $x )', '. unwrap_ok ( )')],
           proof='proof { comps_len(self.0@); if self.0@.len() > 0 { comps_head(self.0@); assert forall|p: PV, t: Seq<u8>| wf(p) && self.0@ == #[trigger] (enc(p) + t) implies is_addr(t) && comps(self.0@) == seq![p] + comps(t) && comps(self.0@)[0] == p && comps(self.0@).drop_first() == comps(t) by { comps_step(self.0@, p, t); assert(comps(self.0@).drop_first() =~= comps(t)); } } }'),
    ])
    u.impl('impl Multiaddr', LB, [
        Fn('impl Multiaddr', 'is_empty', props=['C18'], requires=['self.ok()'], ensures=['ret == (self.cs().len() == 0)'], proof='proof { comps_len(self.bytes@); }'),
        Fn('impl Multiaddr', 'len', props=['C17'], ensures=['ret == self.bytes@.len()']),
        Fn('impl Multiaddr', 'to_vec', props=['C17'], ensures=[(['C17'], 'ret@ == self.bytes@')], rules=[('Vec :: from ( $x )', 'to_vec_u8 ( $x )')] + SL),
        Fn(r'impl AsRef < \[ u8 \] > for Multiaddr', 'as_ref', props=['C17'], ensures=[(['C17'], 'ret@ == self.bytes@')], rules=SL),
        Fn('impl Multiaddr', 'push', props=['C18'], requires=['old(self).ok()', 'wf(p@)'], ensures=['final(self).ok()', (['C18'], 'final(self).cs() == old(self).cs().push(p@)')],
           rules=SL + [('Vec :: with_capacity ( $n )', 'vec_with_capacity ( $n )'), ('unsafe { $idv . set_len ( $n ) }', 'vec_set_len ( & mut $idv , $n ) ;'), ('$idw . copy_from_slice ( $x )', 'vec_copy_from_slice ( & mut $idw , $x )')],
           proof='proof { comps_push(self.bytes@, p@); }'),
        Fn('impl Multiaddr', 'pop', props=['C18'], requires=['old(self).ok()'], ensures=['final(self).ok()', (['C18'], 'old(self).cs().len() == 0 ==> ret is None && final(self).bytes@ == old(self).bytes@'), (['C18'], 'old(self).cs().len() > 0 ==> ret is Some && ret->Some_0@ == old(self).cs().last() && final(self).cs() == old(self).cs().drop_last()')],
           rules=SL + [('let $idp = loop { $blkb } ;', "let mut brk_ : Option < Protocol < 'a > > = None ; loop { $blkb } let $idp = brk_ . unwrap ( ) ;"), ('break $v ;', '{ brk_ = Some ( $v ) ; break ; }'), ('. expect ( $x )', '. unwrap_ok ( )')],
           proof='let ghost all = self.bytes@; let ghost cs = comps(all); proof { comps_len(all); }',
           loops=[Loop(invariant=['is_addr(slice@)', 'slice@.len() > 0', 'self.bytes@ == all', 'is_addr(all.subrange(0, all.len() - slice@.len()))', 'slice@.len() <= all.len()', 'all == all.subrange(0, all.len() - slice@.len()) + slice@', 'cs == comps(all.subrange(0, all.len() - slice@.len())) + comps(slice@)'],
                ensures=['brk_ is Some', 'cs.len() > 0 && brk_->Some_0@ == cs.last()', 'comps(all.subrange(0, all.len() - slice@.len())) == cs.drop_last()', 'slice@.len() <= all.len()', 'is_addr(all.subrange(0, all.len() - slice@.len()))'], decreases='slice@.len()',
                before='proof { assert(all.subrange(0, 0) =~= Seq::<u8>::empty()); comps_empty(); assert(Seq::<u8>::empty() + all =~= all); assert(comps(Seq::<u8>::empty()) + cs =~= cs); }',
                start="""let ghost sl = slice@; let ghost done = all.subrange(0, all.len() - sl.len());
                  proof { comps_head(sl);
                    assert forall|p: PV, t: Seq<u8>| wf(p) && sl == #[trigger] (enc(p) + t) implies is_addr(t) && comps(sl) == seq![p] + comps(t) && sl.len() > t.len() && is_addr(done + enc(p)) && comps(done + enc(p)) == comps(done).push(p) && all.subrange(0, all.len() - t.len()) == done + enc(p)
                        && all == (done + enc(p)) + t && cs == comps(done).push(p) + comps(t) && (t.len() == 0 ==> cs == comps(done).push(p)) by {
                      comps_step(sl, p, t); comps_push(done, p); enc_pos(p); assert(sl.len() == enc(p).len() + t.len()); assert(all =~= (done + enc(p)) + t); assert(all.subrange(0, all.len() - t.len()) =~= done + enc(p));
                      assert(comps(done) + (seq![p] + comps(t)) =~= comps(done).push(p) + comps(t)); comps_len(t); if t.len() == 0 { assert(comps(done).push(p) + comps(t) =~= comps(done).push(p)); }
                    }
                    assert(forall|p: PV| #[trigger] comps(done).push(p).drop_last() =~= comps(done)); }""")]),
        Fn('impl Multiaddr', 'iter', props=C, requires=['self.ok()'], ensures=['ret.ok()', 'ret.rest() == self.cs()', 'ret.0@ == self.bytes@'], rules=SL),
        Fn("impl < 'a > IntoIterator for & 'a Multiaddr", 'into_iter', props=C, sig="pub fn into_iter<'a>(&'a self) -> (ret: Iter<'a>)", requires=['self.ok()'], ensures=['ret.ok()', 'ret.rest() == self.cs()', 'ret.0@ == self.bytes@'], rules=SL),
        Fn('impl Multiaddr', 'replace', props=['C18'], requires=['self.ok()', 'forall|p: &Protocol<\'_>| wf(p@) ==> call_requires(by, (p,))', 'forall|p: &Protocol<\'_>, q: Protocol<\'a>| #[trigger] call_ensures(by, (p,), Some(q)) ==> wf(q@)'],
           sig="pub fn replace<'a, F>(&self, at: usize, by: F) -> (ret: Option<Multiaddr>) where F: FnOnce(&Protocol<'_>) -> Option<Protocol<'a>>",
           ensures=[(['C18'], 'at >= self.cs().len() ==> ret is None'), 'ret is Some ==> ret->Some_0.ok()',
                    (['C18'], 'ret is None && at < self.cs().len() ==> exists|p: &Protocol<\'_>| p@ == self.cs()[at as int] && #[trigger] call_ensures(by, (p,), None::<Protocol<\'a>>)'),
                    (['C18'], 'ret is Some ==> replaced_by(self.cs(), at as int, by, ret->Some_0.cs())')],
           rules=SL + [('for ( $idi , $idp ) in self . iter ( ) . enumerate ( ) { $blkb }', 'let mut it_ = self . iter ( ) ; let mut n_ : usize = 0 ; loop { match it_ . next ( ) { None => { break ; } Some ( $idp ) => { let $idi = n_ ; n_ += 1 ; $blkb } } }'), ('$idf . take ( ) . expect ( $x )', '$idf . take ( ) . unwrap ( )')],
           proof='let ghost cs = self.cs(); let ghost mut q_: PV = arbitrary();',
           tail='',
           loops=[Loop(invariant=['it_.ok()', 'self.ok()', 'cs == self.cs()', 'n_ <= cs.len()', 'it_.rest() == cs.subrange(n_ as int, cs.len() as int)', 'cs.len() <= usize::MAX', 'is_addr(address@)', 'wfs(cs)',
                   'n_ <= at ==> fun == Some(by) && !replaced && comps(address@) == cs.subrange(0, n_ as int)',
                   'n_ > at ==> replaced && replaced_by(cs.subrange(0, n_ as int), at as int, by, comps(address@))',
                   "forall|p: &Protocol<'_>| wf(p@) ==> call_requires(by, (p,))", "forall|p: &Protocol<'_>, q: Protocol<'a>| #[trigger] call_ensures(by, (p,), Some(q)) ==> wf(q@)"], ensures=['n_ == cs.len()'], decreases='cs.len() - n_',
                before='proof { comps_len(self.bytes@); encs_len(cs); assert(address@ =~= Seq::<u8>::empty()); comps_empty(); assert(cs.subrange(0, 0) =~= comps(Seq::<u8>::empty())); assert(cs.subrange(0, cs.len() as int) =~= cs); }',
                start="""let ghost a0 = address@; let ghost n0 = n_ as int; proof { if n0 < cs.len() { assert(cs.subrange(n0, cs.len() as int).drop_first() =~= cs.subrange(n0 + 1, cs.len() as int)); assert(cs.subrange(0, n0 + 1) =~= cs.subrange(0, n0).push(cs[n0]));
                   assert forall|p: PV| wf(p) implies is_addr(#[trigger] (a0 + enc(p))) && comps(a0 + enc(p)) == comps(a0).push(p) by { comps_push(a0, p); }
                   if n0 == at { assert forall|f: F, p: &Protocol<'_>, q: Protocol<'a>| p@ == cs[n0] && #[trigger] call_ensures(f, (p,), Some(q)) implies replaced_by(cs.subrange(0, n0 + 1), n0, f, cs.subrange(0, n0).push(q@)) by { assert(cs.subrange(0, n0 + 1).update(n0, q@) =~= cs.subrange(0, n0).push(q@)); } }
                   if n0 > at { replaced_push(cs.subrange(0, n0), at as int, by, comps(a0), cs[n0]); } } }""", after='assert(cs.subrange(0, cs.len() as int) =~= cs);')]),
        Fn('impl fmt :: Display for Multiaddr', 'fmt', props=['C18'], sig='pub fn fmt(&self, f: &mut fmt::Formatter) -> (ret: fmt::Result)', requires=['self.ok()'], ensures=[(['C18'], 'ret is Ok ==> final(f).log() == old(f).log() + txts(self.cs())')],
           rules=[('for $ids in self . iter ( ) { $blkb }', 'let mut it_ = self . iter ( ) ; loop { match it_ . next ( ) { None => { break ; } Some ( $ids ) => { $blkb } } }'), ('. to_string ( ) . fmt ( f )', '. to_string ( ) . show ( f )')],
           proof='let ghost l0 = f.log(); let ghost cs = self.cs(); let ghost mut k: int = 0;',
           loops=[Loop(invariant=['it_.ok()', '0 <= k <= cs.len()', 'it_.rest() == cs.subrange(k, cs.len() as int)', 'f.log() + txts(it_.rest()) == l0 + txts(cs)'], ensures=['it_.rest().len() == 0'], decreases='it_.rest().len()',
                before='assert(cs.subrange(0, cs.len() as int) =~= cs);',
                start='let ghost r0 = it_.rest(); let ghost f0 = f.log(); proof { if r0.len() > 0 { assert(r0.drop_first() =~= cs.subrange(k + 1, cs.len() as int)); k = k + 1; assert(f0 + (txt(r0[0]) + txts(r0.drop_first())) =~= (f0 + txt(r0[0])) + txts(r0.drop_first())); } }',
                after='assert(f.log() + txts(it_.rest()) =~= f.log());')]),
        Fn("impl < 'a > FromIterator < Protocol < 'a > > for Multiaddr", 'from_iter', props=['C17', 'C26'], sig="pub fn from_iter<'a, T: PIter<'a>>(iter: T) -> (ret: Multiaddr)", requires=['wfs(iter.todo())'], ensures=['ret.ok()', (['C17', 'C26'], 'ret.cs() == iter.todo()')],
           rules=[('for $idc in iter { $blkb }', 'let mut it_ = iter ; loop { match it_ . next ( ) { None => { break ; } Some ( $idc ) => { $blkb } } }')],
           proof='let ghost cs = iter.todo(); let ghost mut k: int = 0;',
           loops=[Loop(invariant=['0 <= k <= cs.len()', 'it_.todo() == cs.subrange(k, cs.len() as int)', 'is_addr(writer@)', 'comps(writer@) == cs.subrange(0, k)', 'wfs(cs)'], ensures=['it_.todo().len() == 0'], decreases='it_.todo().len()',
                before='proof { assert(cs.subrange(0, cs.len() as int) =~= cs); comps_empty(); assert(writer@ =~= Seq::<u8>::empty()); assert(cs.subrange(0, 0) =~= comps(Seq::<u8>::empty())); }',
                start='let ghost w0 = writer@; proof { if k < cs.len() { assert(it_.todo().drop_first() =~= cs.subrange(k + 1, cs.len() as int)); comps_push(w0, cs[k]); assert(cs.subrange(0, k + 1) =~= cs.subrange(0, k).push(cs[k])); k = k + 1; } }',
                after='assert(cs.subrange(0, cs.len() as int) =~= cs);')]),
        Fn('impl FromStr for Multiaddr', 'from_str', props=['C18'], sig='pub fn from_str(input: &str) -> (ret: Result<Multiaddr, Error>)', ensures=['ret is Ok ==> ret->Ok_0.ok()', (['C18'], 'forall|c: Seq<PV>| twfs(c) && input@ == #[trigger] txts(c) ==> ret is Ok && ret->Ok_0.cs() == c')],
           rules=[("input . split ( '/' ) . peekable ( )", 'split_slash ( input )'), ('Some ( $l ) != parts . next ( )', '! opt_is ( parts . next ( ) , $l )'), ('parts . next ( ) != Some ( $l )', '! opt_is ( parts . next ( ) , $l )'), ('parts . peek ( ) . is_some ( )', 'parts . has_next ( )'), ('from_str_peek ( & mut parts )', 'from_str_peek ( & mut parts )')],
           proof="""let ghost cc = choose|c: Seq<PV>| twfs(c) && input@ == #[trigger] txts(c); let ghost has = exists|c: Seq<PV>| twfs(c) && input@ == #[trigger] txts(c); let ghost mut k: int = 0;
             proof { kw_lits(); if has { printed_parts(cc); assert((seq![Seq::<char>::empty()] + tokss(cc)).drop_first() =~= tokss(cc)); } txts_unique_all(input@); comps_empty(); parts_nonempty(input@); }""",
           loops=[Loop(invariant=['is_addr(writer@)', 'forall|c: Seq<PV>| twfs(c) && input@ == #[trigger] txts(c) ==> has && c == cc', 'has ==> twfs(cc) && 0 <= k <= cc.len() && parts.rest() == tokss(cc.subrange(k, cc.len() as int)) && comps(writer@) == cc.subrange(0, k)', 'forall|i: int| 0 <= i < parts.rest().len() ==> utf8(#[trigger] parts.rest()[i]).len() <= usize::MAX'], ensures=['has ==> k == cc.len()'], decreases='parts.rest().len()',
                before='proof { assert(writer@ =~= Seq::<u8>::empty()); if has { assert(cc.subrange(0, 0) =~= comps(Seq::<u8>::empty())); assert(cc.subrange(0, cc.len() as int) =~= cc); } }',
                start="""let ghost w0 = writer@; let ghost r0 = parts.rest();
                  proof { if has { let t = cc.subrange(k, cc.len() as int); if t.len() == 0 { assert(false); } assert(t.drop_first() =~= cc.subrange(k + 1, cc.len() as int)); assert(twf(cc[k])); assert(cc.subrange(0, k + 1) =~= cc.subrange(0, k).push(cc[k])); k = k + 1; }
                    assert forall|p: PV| wf(p) implies is_addr(#[trigger] (w0 + enc(p))) && comps(w0 + enc(p)) == comps(w0).push(p) by { comps_push(w0, p); } }""", after='proof { if has { assert(cc.subrange(0, cc.len() as int) =~= cc); } }')]),
        Fn("impl < 'a > From < Protocol < 'a > > for Multiaddr", 'from', props=['C17'], sig="pub fn from_protocol<'a>(p: Protocol<'a>) -> (ret: Multiaddr)", requires=['wf(p@)'], ensures=['ret.ok()', (['C17'], 'ret.cs() == seq![p@]')],
           proof='proof { comps_empty(); comps_push(Seq::empty(), p@); assert(Seq::<u8>::empty() + enc(p@) =~= enc(p@)); assert(comps(Seq::<u8>::empty()).push(p@) =~= seq![p@]); } broadcast use empty_is;'),
        Fn("impl From < Ipv4Addr > for Multiaddr", 'from', props=['C17'], rename='from_v4', sig='pub fn from_v4(v: Ipv4Addr) -> (ret: Multiaddr)', ensures=['ret.ok()', (['C17'], 'ret.cs() == seq![PV::Ip4(v@)]')], rules=[('Protocol :: $idk ( $x ) . into ( )', 'Multiaddr :: from_protocol ( Protocol :: $idk ( $x ) )')], proof='broadcast use axiom_ip4;'),
        Fn("impl From < Ipv6Addr > for Multiaddr", 'from', props=['C17'], rename='from_v6', sig='pub fn from_v6(v: Ipv6Addr) -> (ret: Multiaddr)', ensures=['ret.ok()', (['C17'], 'ret.cs() == seq![PV::Ip6(v@)]')], rules=[('Protocol :: $idk ( $x ) . into ( )', 'Multiaddr :: from_protocol ( Protocol :: $idk ( $x ) )')], proof='broadcast use axiom_ip6;'),
        Fn("impl TryFrom < Bytes > for Multiaddr", 'try_from', props=['C17'], sig='pub fn try_from(v: Bytes) -> (ret: Result<Multiaddr, Error>)', ensures=['ret is Ok ==> ret->Ok_0.ok()', (['C17'], 'ret is Ok ==> ret->Ok_0.bytes@ == v@'), (['C17'], 'is_addr(v@) ==> ret is Ok')],
           rules=SL, proof='let ghost all = v@;',
           loops=[Loop(invariant=['v@ == all', 'is_addr(all) ==> is_addr(slice@)', 'is_addr(slice@) ==> is_addr(all)'], decreases='slice@.len()', ensures=['slice@.len() == 0'],
              start='let ghost s0 = slice@; proof { if is_addr(s0) { comps_head(s0); } assert forall|p: PV, t: Seq<u8>| wf(p) && s0 == #[trigger] (enc(p) + t) implies t.len() < s0.len() && (is_addr(s0) == is_addr(t)) by { enc_pos(p); if is_addr(s0) { comps_step(s0, p, t); } if is_addr(t) { comps_cons(p, t); } } }', after='proof { comps_empty(); assert(slice@ =~= Seq::<u8>::empty()); }')]),
        Fn("impl TryFrom < BytesMut > for Multiaddr", 'try_from', props=['C17'], sig='pub fn try_from_mut(v: BytesMut) -> (ret: Result<Multiaddr, Error>)', ensures=['ret is Ok ==> ret->Ok_0.ok()', (['C17'], 'ret is Ok ==> ret->Ok_0.bytes@ == v@'), (['C17'], 'is_addr(v@) ==> ret is Ok')]),
        Fn("impl TryFrom < Vec < u8 > > for Multiaddr", 'try_from', props=['C17'], sig='pub fn try_from_vec(v: Vec<u8>) -> (ret: Result<Multiaddr, Error>)', ensures=['ret is Ok ==> ret->Ok_0.ok()', (['C17'], 'ret is Ok ==> ret->Ok_0.bytes@ == v@'), (['C17'], 'is_addr(v@) ==> ret is Ok')]),
        Fn("impl < 'a > TryFrom < & 'a str > for Multiaddr", 'try_from', props=['C18'], sig='pub fn try_from_str(s: &str) -> (ret: Result<Multiaddr, Error>)', ensures=['ret is Ok ==> ret->Ok_0.ok()', (['C18'], 'forall|c: Seq<PV>| twfs(c) && s@ == #[trigger] txts(c) ==> ret is Ok && ret->Ok_0.cs() == c')], rules=[('s . parse ( )', 'Multiaddr :: from_str ( s )')]),
        Fn("impl TryFrom < String > for Multiaddr", 'try_from', props=['C18'], sig='pub fn try_from_string(s: String) -> (ret: Result<Multiaddr, Error>)', ensures=['ret is Ok ==> ret->Ok_0.ok()', (['C18'], 'forall|c: Seq<PV>| twfs(c) && s@ == #[trigger] txts(c) ==> ret is Ok && ret->Ok_0.cs() == c')], rules=[('s . parse ( )', 'Multiaddr :: from_str ( s . as_str ( ) )')]),
        Fn("impl From < IpAddr > for Multiaddr", 'from', props=['C17'], sig='pub fn from_ip(v: IpAddr) -> (ret: Multiaddr)', ensures=['ret.ok()', (['C17'], 'ret.cs() == (match v { IpAddr::V4(a) => seq![PV::Ip4(a@)], IpAddr::V6(a) => seq![PV::Ip6(a@)] })')], rules=[('IpAddr :: V4 ( $x ) => $y . into ( )', 'IpAddr :: V4 ( $x ) => Multiaddr :: from_v4 ( $y )'), ('IpAddr :: V6 ( $x ) => $y . into ( )', 'IpAddr :: V6 ( $x ) => Multiaddr :: from_v6 ( $y )')]),
    ])
    u.impl("impl<'a> Protocol<'a>", PR, [
        Fn("impl < 'a > From < IpAddr > for Protocol < 'a >", 'from', props=['C17'], sig="pub fn from_ip(addr: IpAddr) -> (ret: Protocol<'a>)", ensures=['ret@ == (match addr { IpAddr::V4(a) => PV::Ip4(a@), IpAddr::V6(a) => PV::Ip6(a@) })']),
        Fn("impl < 'a > From < Ipv4Addr > for Protocol < 'a >", 'from', props=['C17'], sig="pub fn from_v4(addr: Ipv4Addr) -> (ret: Protocol<'a>)", ensures=['ret@ == PV::Ip4(addr@)']),
        Fn("impl < 'a > From < Ipv6Addr > for Protocol < 'a >", 'from', props=['C17'], sig="pub fn from_v6(addr: Ipv6Addr) -> (ret: Protocol<'a>)", ensures=['ret@ == PV::Ip6(addr@)']),
    ])
    # ---- tentacle helpers
    u.item(TR, 'enum', 'TransportType', '#[derive(Clone, Copy, PartialEq, Eq)]')
    u.text(NET)
    T = ['C26']
    u.fn(UT, Fn(None, 'is_reachable', props=T, ensures=['special(ip) ==> !ret'],
        proof="""broadcast use {axiom_ip4, axiom_ip6}; assert(forall|x: u16| 0xff00 <= x ==> (#[trigger] (x & 0x000f)) == x % 16) by (bit_vector); assert(forall|x: u16| (#[trigger] (x & 0xffc0) == 0xfe80) == (0xfe80 <= x && x <= 0xfebf)) by (bit_vector);
          assert(forall|x: u16| (#[trigger] (x & 0xffc0) == 0xfec0) == (0xfec0 <= x && x <= 0xfeff)) by (bit_vector); assert(forall|x: u16| (#[trigger] (x & 0xfe00) == 0xfc00) == (0xfc00 <= x && x <= 0xfdff)) by (bit_vector);"""))
    u.fn(UT, Fn(None, 'multiaddr_to_socketaddr', props=T, requires=['addr.ok()'], ensures=['match ret { Some(s) => first_pair(addr.cs()) is Some && sock_is(s, first_pair(addr.cs())->Some_0.0, first_pair(addr.cs())->Some_0.1), None => first_pair(addr.cs()) is None }'],
        rules=[('addr . iter ( ) . peekable ( )', 'Peek :: of ( addr . iter ( ) )'), ('ip . into ( )', 'ip_from ( ip )')],
        proof='let ghost cs = addr.cs(); proof { reveal_with_fuel(first_pair, 4); }',
        loops=[Loop(invariant=['cs == addr.cs()', 'first_pair(iter.rest()) == first_pair(cs)'], ensures=['iter.rest().len() == 0'], decreases='iter.rest().len()',
            start='proof { reveal_with_fuel(first_pair, 4); }')]))
    u.fn(UT, Fn(None, 'socketaddr_to_multiaddr', props=T, ensures=['ret.ok()', 'ret.cs().len() == 2 && sock_is(address, ret.cs()[0], ret.cs()[1]) && host(ret.cs()[0]) && ret.cs()[1] is Tcp'], rules=[('iter :: once ( $a ) . chain ( iter :: once ( $b ) )', 'Two :: of ( $a , $b )')], proof='broadcast use {axiom_ip4, axiom_ip6};'))
    FM = ('$idi . find_map ( | $idp | { $blkb } )', 'let mut r_ : Option < PeerId > = None ; loop { match $idi . next ( ) { None => { break ; } Some ( $idp ) => { let x_ = { $blkb } ; if x_ . is_some ( ) { r_ = x_ ; break ; } } } } r_')
    FM2 = ('$idi . find_map ( | $idp | { $blkb } ) . unwrap_or ( $y )', 'let mut r_ : Option < TransportType > = None ; loop { match $idi . next ( ) { None => { break ; } Some ( $idp ) => { let x_ = { $blkb } ; if x_ . is_some ( ) { r_ = x_ ; break ; } } } } r_ . unwrap_or ( $y )')
    lp = lambda inv, ens: [Loop(invariant=['cs == addr.cs()', '0 <= k <= cs.len()', 'iter.ok()', 'wfs(cs)'], except_break=['iter.rest() == cs.subrange(k, cs.len() as int)', 'r_ is None'] + inv, ensures=ens, decreases='cs.len() - k', before='proof { comps_len(addr.bytes@); assert(cs.subrange(0, cs.len() as int) =~= cs); }',
            start='proof { if k < cs.len() { assert(cs.subrange(k, cs.len() as int).drop_first() =~= cs.subrange(k + 1, cs.len() as int)); assert(wf(cs[k])); k = k + 1; } }')]
    u.fn(UT, Fn(None, 'extract_peer_id', props=T, requires=['addr.ok()'], ensures=['ret is Some ==> exists|i: int| 0 <= i < addr.cs().len() && #[trigger] addr.cs()[i] == PV::P2p(ret->Some_0.inner@) && (forall|j: int| 0 <= j < i ==> !(#[trigger] addr.cs()[j] is P2p))', 'ret is None ==> forall|i: int| 0 <= i < addr.cs().len() ==> !(#[trigger] addr.cs()[i] is P2p)'],
        rules=[FM, ('. ok ( )', '. ok_opt ( )')], proof='let ghost cs = addr.cs(); let ghost mut k: int = 0;',
        loops=lp(['forall|j: int| 0 <= j < k ==> !(#[trigger] cs[j] is P2p)'], ['r_ is Some ==> forall|j: int| 0 <= j < k - 1 ==> !(#[trigger] cs[j] is P2p)', 'r_ is None ==> forall|j: int| 0 <= j < cs.len() ==> !(#[trigger] cs[j] is P2p)', 'r_ is Some ==> k > 0 && cs[k - 1] == PV::P2p(r_->Some_0.inner@)'])))
    u.fn(TR, Fn(None, 'find_type', props=T, requires=['addr.ok()'], ensures=['(exists|i: int| 0 <= i < addr.cs().len() && kind(#[trigger] addr.cs()[i]) == Some(ret) && (forall|j: int| 0 <= j < i ==> kind(#[trigger] addr.cs()[j]) is None)) || (ret == TransportType::Tcp && forall|i: int| 0 <= i < addr.cs().len() ==> kind(#[trigger] addr.cs()[i]) is None)'],
        rules=[FM2], proof='let ghost cs = addr.cs(); let ghost mut k: int = 0;',
        loops=lp(['forall|j: int| 0 <= j < k ==> kind(#[trigger] cs[j]) is None'], ['r_ is Some ==> forall|j: int| 0 <= j < k - 1 ==> kind(#[trigger] cs[j]) is None', 'r_ is None ==> forall|j: int| 0 <= j < cs.len() ==> kind(#[trigger] cs[j]) is None', 'r_ is Some ==> k > 0 && kind(cs[k - 1]) == r_'])))
    u.text(FOOT)
    return u
