from vx import Unit, Fn, Loop
from common import HEAD, BYTES, FOOT
from msgs import WIRE, stub
S = 'secio/src/'
CM, CC, OS, RI, WA = S + 'crypto/mod.rs', S + 'crypto/cipher.rs', S + 'crypto/openssl_impl.rs', S + 'crypto/ring_impl.rs', S + 'crypto/wasm_compat.rs'
SS, ER, SU, LB, PI = S + 'codec/secure_stream.rs', S + 'error.rs', S + 'support.rs', S + 'lib.rs', S + 'peer_id.rs'
HC, HP, HM, HS, DH = S + 'handshake/handshake_context.rs', S + 'handshake/procedure.rs', S + 'handshake/mod.rs', S + 'handshake/handshake_struct.rs', S + 'dh_compat/mod.rs'
D = '#[derive(Copy, Clone, PartialEq, Eq, Structural)]'

NONCE = r'''
// ---------------- little endian counters
pub open spec fn le(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { s[0] as nat + 256 * le(s.drop_first()) } }
pub open spec fn p256(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * p256((n - 1) as nat) } }
pub open spec fn lebytes(v: nat, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::<u8>::empty() } else { seq![(v % 256) as u8] + lebytes(v / 256, (n - 1) as nat) } }
pub proof fn lemma_le_bound(s: Seq<u8>) ensures le(s) < p256(s.len()) decreases s.len() { if s.len() > 0 { lemma_le_bound(s.drop_first()); } }
pub proof fn lemma_le_max(s: Seq<u8>) requires forall|i: int| 0 <= i < s.len() ==> s[i] == 255 ensures le(s) + 1 == p256(s.len()) decreases s.len() { if s.len() > 0 { lemma_le_max(s.drop_first()); } }
pub proof fn lemma_le_zero(s: Seq<u8>) requires forall|i: int| 0 <= i < s.len() ==> s[i] == 0 ensures le(s) == 0 decreases s.len() { if s.len() > 0 { lemma_le_zero(s.drop_first()); } }
pub proof fn lemma_le_step(a: Seq<u8>, b: Seq<u8>, k: int)
  requires 0 <= k < a.len(), a.len() == b.len(), forall|i: int| 0 <= i < k ==> a[i] == 255, forall|i: int| 0 <= i < k ==> b[i] == 0, b[k] == a[k] + 1, forall|i: int| #![trigger a[i]] #![trigger b[i]] k < i < a.len() ==> a[i] == b[i]
  ensures le(b) == le(a) + 1
  decreases k
{ if k == 0 { assert(a.drop_first() =~= b.drop_first()); } else { lemma_le_step(a.drop_first(), b.drop_first(), k - 1); } }
pub proof fn lemma_lebytes(s: Seq<u8>) ensures lebytes(le(s), s.len()) =~= s decreases s.len() {
  if s.len() > 0 {
    let t = s.drop_first(); lemma_lebytes(t);
    assert(le(s) % 256 == s[0] as nat && le(s) / 256 == le(t)) by (nonlinear_arith) requires le(s) == s[0] as nat + 256 * le(t), s[0] < 256;
    assert(s =~= seq![s[0]] + t);
  }
}
// no nonce repeats: counters below the full width give different nonces
pub proof fn nonces_distinct(a: Seq<u8>, b: Seq<u8>) requires a.len() == b.len(), le(a) != le(b) ensures a != b { }
pub proof fn nonce_of_counter(a: Seq<u8>, b: Seq<u8>) requires a.len() == b.len(), le(a) == le(b) ensures a =~= b { lemma_lebytes(a); lemma_lebytes(b); }
'''

BM2 = r'''
impl Bytes {
  #[verifier::external_body]
  pub fn bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl BytesMut {
  #[verifier::external_body]
  pub fn new() -> (r: BytesMut) ensures r@.len() == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r@.len() == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn from(s: &[u8]) -> (r: BytesMut) ensures r@ == s@ { unimplemented!() }
  #[verifier::external_body]
  pub fn clone(&self) -> (r: BytesMut) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn as_mut(&mut self) -> (r: &mut [u8]) ensures r@ == old(self)@, final(self)@ == final(r)@ { unimplemented!() }
  #[verifier::external_body]
  pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.subrange(0, n as int) } else { old(self)@ }) { unimplemented!() }
}
'''

AEAD = r'''
// ---------------- AEAD: one opaque sealing function for every back end
pub uninterp spec fn seal(t: CipherType, key: Seq<u8>, nonce: Seq<u8>, m: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub broadcast proof fn axiom_seal_len(t: CipherType, key: Seq<u8>, nonce: Seq<u8>, m: Seq<u8>) ensures (#[trigger] seal(t, key, nonce, m)).len() == m.len() + 16 { }
#[verifier::external_body]
pub proof fn axiom_seal_inj(t: CipherType, key: Seq<u8>, nonce: Seq<u8>, m: Seq<u8>, m2: Seq<u8>) requires seal(t, key, nonce, m) == seal(t, key, nonce, m2) ensures m == m2 { }
pub open spec fn is_seal(t: CipherType, key: Seq<u8>, nonce: Seq<u8>, c: Seq<u8>) -> bool { exists|m: Seq<u8>| c == #[trigger] seal(t, key, nonce, m) }
#[verifier::external_body]
pub struct ErrorStack { x: usize }
pub mod symm {
  use super::*;
  #[verifier::external_body]
  #[derive(Clone, Copy)]
  pub struct Cipher { x: usize }
  impl Cipher {
    pub uninterp spec fn t(&self) -> CipherType;
    #[verifier::external_body]
    pub fn aes_128_gcm() -> (r: Cipher) ensures r.t() == CipherType::Aes128Gcm { unimplemented!() }
    #[verifier::external_body]
    pub fn aes_256_gcm() -> (r: Cipher) ensures r.t() == CipherType::Aes256Gcm { unimplemented!() }
    #[verifier::external_body]
    pub fn chacha20_poly1305() -> (r: Cipher) ensures r.t() == CipherType::ChaCha20Poly1305 { unimplemented!() }
  }
  #[verifier::external_body]
  pub fn encrypt_aead(c: Cipher, key: &[u8], iv: Option<&[u8]>, aad: &[u8; 0], input: &[u8], tag: &mut Vec<u8>) -> (r: Result<Vec<u8>, ErrorStack>)
    requires iv is Some, iv->Some_0@.len() == 12, old(tag)@.len() == 16
    ensures r is Ok ==> r->Ok_0@ + final(tag)@ == seal(c.t(), key@, iv->Some_0@, input@) { unimplemented!() }
  #[verifier::external_body]
  pub fn decrypt_aead(c: Cipher, key: &[u8], iv: Option<&[u8]>, aad: &[u8; 0], input: &[u8], tag: &[u8]) -> (r: Result<Vec<u8>, ErrorStack>)
    requires iv is Some, iv->Some_0@.len() == 12, tag@.len() == 16
    ensures r is Ok ==> input@ + tag@ == seal(c.t(), key@, iv->Some_0@, r->Ok_0@), r is Err ==> !is_seal(c.t(), key@, iv->Some_0@, input@ + tag@) { unimplemented!() }
}
#[verifier::external_body]
pub fn bm_filled(b: &mut BytesMut, v: u8, n: usize) ensures final(b)@ == Seq::new(n as nat, |i: int| v) { unimplemented!() }
#[verifier::external_body]
pub fn vec_set_len(b: &mut Vec<u8>, n: usize) requires n <= old(b).capacity_() ensures final(b)@.len() == n { unimplemented!() }
#[verifier::external_body]
pub fn vec_with_capacity(n: usize) -> (r: Vec<u8>) ensures r.capacity_() == n, r@.len() == 0 { unimplemented!() }
pub trait Cap { spec fn capacity_(&self) -> nat; }
pub uninterp spec fn vcap(v: Vec<u8>) -> nat;
impl Cap for Vec<u8> { open spec fn capacity_(&self) -> nat { vcap(*self) } }
pub trait StreamCipher: Sized {
  spec fn t(&self) -> CipherType;
  spec fn k(&self) -> Seq<u8>;
  spec fn iv(&self) -> Seq<u8>;
  spec fn inv(&self) -> bool;
  spec fn in_place(&self) -> bool;
  spec fn sealing(&self) -> bool;
  spec fn opening(&self) -> bool;
  fn encrypt(&mut self, input: &[u8]) -> (r: Result<Vec<u8>, SecioError>)
    requires old(self).inv(), old(self).sealing(), input@.len() < 0x7fff_ffff_ffff_ffff
    ensures final(self).inv(), final(self).t() == old(self).t(), final(self).k() == old(self).k(), final(self).in_place() == old(self).in_place(), final(self).sealing(), final(self).opening() == old(self).opening(),
      le(final(self).iv()) == (le(old(self).iv()) + 1) % p256(12),
      r is Ok ==> r->Ok_0@ == seal(old(self).t(), old(self).k(), final(self).iv(), input@);
  fn decrypt(&mut self, input: &[u8]) -> (r: Result<Vec<u8>, SecioError>)
    requires old(self).inv(), old(self).opening(), input@.len() < 0x7fff_ffff_ffff_ffff
    ensures final(self).inv(), final(self).t() == old(self).t(), final(self).k() == old(self).k(), final(self).in_place() == old(self).in_place(), final(self).opening(), final(self).sealing() == old(self).sealing(),
      le(final(self).iv()) == (le(old(self).iv()) + 1) % p256(12) || (r is Err && final(self).iv() == old(self).iv()),
      r is Ok ==> input@ == seal(old(self).t(), old(self).k(), final(self).iv(), r->Ok_0@),
      r is Err ==> forall|n: Seq<u8>| n.len() == 12 && le(n) == (le(old(self).iv()) + 1) % p256(12) ==> !is_seal(old(self).t(), old(self).k(), n, input@);
  fn is_in_place(&self) -> (r: bool) ensures r == self.in_place();
  fn decrypt_in_place(&mut self, input: &mut BytesMut) -> (r: Result<(), SecioError>)
    requires old(self).inv(), old(self).opening(), old(self).in_place(), old(input)@.len() < 0x7fff_ffff_ffff_ffff
    ensures final(self).inv(), final(self).t() == old(self).t(), final(self).k() == old(self).k(), final(self).in_place() == old(self).in_place(), final(self).opening(), final(self).sealing() == old(self).sealing(),
      le(final(self).iv()) == (le(old(self).iv()) + 1) % p256(12) || (r is Err && final(self).iv() == old(self).iv()),
      r is Ok ==> old(input)@ == seal(old(self).t(), old(self).k(), final(self).iv(), final(input)@),
      r is Err ==> forall|n: Seq<u8>| n.len() == 12 && le(n) == (le(old(self).iv()) + 1) % p256(12) ==> !is_seal(old(self).t(), old(self).k(), n, old(input)@);
}
// Box<dyn StreamCipher + Send>: dynamic dispatch keeps the trait contract
#[verifier::external_body]
pub struct BoxStreamCipher { x: usize }
impl StreamCipher for BoxStreamCipher {
  uninterp spec fn t(&self) -> CipherType;
  uninterp spec fn k(&self) -> Seq<u8>;
  uninterp spec fn iv(&self) -> Seq<u8>;
  uninterp spec fn inv(&self) -> bool;
  uninterp spec fn in_place(&self) -> bool;
  uninterp spec fn sealing(&self) -> bool;
  uninterp spec fn opening(&self) -> bool;
  #[verifier::external_body]
  fn encrypt(&mut self, input: &[u8]) -> Result<Vec<u8>, SecioError> { unimplemented!() }
  #[verifier::external_body]
  fn decrypt(&mut self, input: &[u8]) -> Result<Vec<u8>, SecioError> { unimplemented!() }
  #[verifier::external_body]
  fn is_in_place(&self) -> bool { unimplemented!() }
  #[verifier::external_body]
  fn decrypt_in_place(&mut self, input: &mut BytesMut) -> Result<(), SecioError> { unimplemented!() }
}
#[verifier::external_body]
pub fn box_cipher<C: StreamCipher>(c: C) -> (r: BoxStreamCipher)
  ensures r.t() == c.t(), r.k() == c.k(), r.iv() == c.iv(), r.inv() == c.inv(), r.in_place() == c.in_place(), r.sealing() == c.sealing(), r.opening() == c.opening() { unimplemented!() }
#[verifier::external_body]
pub broadcast proof fn axiom_box_inv(b: BoxStreamCipher) ensures #[trigger] b.inv() ==> b.iv().len() == 12 { }
impl vstd::std_specs::convert::FromSpecImpl<ErrorStack> for SecioError {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(v: ErrorStack) -> Self { SecioError::Openssl(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for SecioError {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(v: io::Error) -> Self { SecioError::IoError(v) }
}
'''

RING = r'''
// ---------------- ring back end
pub struct Unspecified {}
#[verifier::external_body]
pub struct Nonce { x: usize }
impl Nonce {
  pub uninterp spec fn view(&self) -> Seq<u8>;
  #[verifier::external_body]
  pub fn try_assume_unique_for_key(b: &[u8]) -> (r: Result<Nonce, Unspecified>) ensures b@.len() == 12 ==> r is Ok && r->Ok_0@ == b@ { unimplemented!() }
}
pub struct Aad {}
impl Aad { pub fn empty() -> Aad { Aad {} } }
impl From<Unspecified> for SecioError { fn from(e: Unspecified) -> SecioError { SecioError::RingCryptoError } }
impl vstd::std_specs::convert::FromSpecImpl<Unspecified> for SecioError {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(v: Unspecified) -> Self { SecioError::RingCryptoError }
}
#[verifier::external_body]
pub struct Algorithm { x: usize }
impl Algorithm { pub uninterp spec fn t(&self) -> CipherType; }
#[verifier::external_body]
pub fn alg(c: CipherType) -> (r: &'static Algorithm) ensures r.t() == c { unimplemented!() }
#[verifier::external_body]
pub struct UnboundKey { x: usize }
impl UnboundKey {
  pub uninterp spec fn t(&self) -> CipherType;
  pub uninterp spec fn k(&self) -> Seq<u8>;
  // UnboundKey::new(..).unwrap(): fails only for a wrong key length
  #[verifier::external_body]
  pub fn new_unwrap(a: &Algorithm, key: &[u8]) -> (r: UnboundKey) requires key@.len() == keylen(a.t()) ensures r.t() == a.t(), r.k() == key@ { unimplemented!() }
}
// SealingKey / OpeningKey take one nonce from the sequence per call (RingNonce::advance below) and use it
#[verifier::external_body]
pub struct SealingKey { x: usize }
#[verifier::external_body]
pub struct OpeningKey { x: usize }
impl SealingKey {
  pub uninterp spec fn t(&self) -> CipherType;
  pub uninterp spec fn k(&self) -> Seq<u8>;
  pub uninterp spec fn iv(&self) -> Seq<u8>;
  #[verifier::external_body]
  pub fn new(key: UnboundKey, n: RingNonce) -> (r: SealingKey) ensures r.t() == key.t(), r.k() == key.k(), r.iv() == n.0@ { unimplemented!() }
  #[verifier::external_body]
  pub fn seal_in_place_append_tag(&mut self, a: Aad, out: &mut Vec<u8>) -> (r: Result<(), Unspecified>)
    requires old(self).iv().len() == 12
    ensures final(self).t() == old(self).t(), final(self).k() == old(self).k(), final(self).iv().len() == 12, le(final(self).iv()) == (le(old(self).iv()) + 1) % p256(12),
      r is Ok ==> final(out)@ == seal(old(self).t(), old(self).k(), final(self).iv(), old(out)@) { unimplemented!() }
}
pub trait OpenBuf { spec fn content(&self) -> Seq<u8>; }
impl OpenBuf for Vec<u8> { open spec fn content(&self) -> Seq<u8> { self@ } }
impl OpenBuf for BytesMut { open spec fn content(&self) -> Seq<u8> { self@ } }
impl OpeningKey {
  pub uninterp spec fn t(&self) -> CipherType;
  pub uninterp spec fn k(&self) -> Seq<u8>;
  pub uninterp spec fn iv(&self) -> Seq<u8>;
  #[verifier::external_body]
  pub fn new(key: UnboundKey, n: RingNonce) -> (r: OpeningKey) ensures r.t() == key.t(), r.k() == key.k(), r.iv() == n.0@ { unimplemented!() }
  #[verifier::external_body]
  pub fn open_in_place<B: OpenBuf>(&mut self, a: Aad, b: &mut B) -> (r: Result<(), Unspecified>)
    requires old(self).iv().len() == 12
    ensures final(self).t() == old(self).t(), final(self).k() == old(self).k(), final(self).iv().len() == 12, le(final(self).iv()) == (le(old(self).iv()) + 1) % p256(12),
      final(b).content().len() == old(b).content().len(),
      r is Ok ==> old(b).content().len() >= 16 && old(b).content() == seal(old(self).t(), old(self).k(), final(self).iv(), final(b).content().subrange(0, old(b).content().len() - 16)),
      r is Err ==> !is_seal(old(self).t(), old(self).k(), final(self).iv(), old(b).content()) { unimplemented!() }
}
'''
WASM = r'''
// ---------------- chacha20poly1305 crate (wasm build)
#[verifier::external_body]
pub struct ChaCha20Poly1305 { x: usize }
pub struct AeadError {}
impl ChaCha20Poly1305 {
  pub uninterp spec fn k(&self) -> Seq<u8>;
  // ChaCha20Poly1305::new(Key::from_slice(key)): panics for a wrong key length
  #[verifier::external_body]
  pub fn new_from_slice(key: &[u8]) -> (r: ChaCha20Poly1305) requires key@.len() == 32 ensures r.k() == key@ { unimplemented!() }
  #[verifier::external_body]
  pub fn encrypt(&self, n: &[u8], m: &[u8]) -> (r: Result<Vec<u8>, AeadError>) requires n@.len() == 12 ensures r is Ok ==> r->Ok_0@ == seal(CipherType::ChaCha20Poly1305, self.k(), n@, m@) { unimplemented!() }
  #[verifier::external_body]
  pub fn decrypt(&self, n: &[u8], m: &[u8]) -> (r: Result<Vec<u8>, AeadError>) requires n@.len() == 12
    ensures r is Ok ==> m@ == seal(CipherType::ChaCha20Poly1305, self.k(), n@, r->Ok_0@), r is Err ==> !is_seal(CipherType::ChaCha20Poly1305, self.k(), n@, m@) { unimplemented!() }
}
'''

STREAM = r'''
// ---------------- secure stream
#[verifier::external_body]
pub struct Framed { x: usize }
impl Framed {
  // frames taken from / handed to the transport so far
  pub uninterp spec fn rd(&self) -> Seq<Seq<u8>>;
  pub uninterp spec fn wr(&self) -> Seq<Seq<u8>>;
  #[verifier::external_body]
  pub fn poll_next_unpin(&mut self, cx: &mut Context) -> (r: Poll<Option<Result<BytesMut, io::Error>>>)
    ensures final(self).wr() == old(self).wr(),
      match r { Poll::Ready(Some(Ok(f))) => final(self).rd() == old(self).rd().push(f@) && f@.len() < 0x7fff_ffff_ffff_ffff, _ => final(self).rd() == old(self).rd() } { unimplemented!() }
  #[verifier::external_body]
  pub fn poll_ready_unpin(&mut self, cx: &mut Context) -> (r: Poll<Result<(), io::Error>>) ensures final(self).rd() == old(self).rd(), final(self).wr() == old(self).wr() { unimplemented!() }
  #[verifier::external_body]
  pub fn start_send_unpin(&mut self, f: Bytes) -> (r: Result<(), io::Error>) ensures final(self).rd() == old(self).rd(), r is Ok ==> final(self).wr() == old(self).wr().push(f@), r is Err ==> final(self).wr() == old(self).wr() { unimplemented!() }
  #[verifier::external_body]
  pub fn poll_flush_unpin(&mut self, cx: &mut Context) -> (r: Poll<Result<(), io::Error>>) ensures final(self).rd() == old(self).rd(), final(self).wr() == old(self).wr() { unimplemented!() }
  #[verifier::external_body]
  pub fn poll_close_unpin(&mut self, cx: &mut Context) -> (r: Poll<Result<(), io::Error>>) ensures final(self).rd() == old(self).rd(), final(self).wr() == old(self).wr() { unimplemented!() }
  #[verifier::external_body]
  pub fn send(&mut self, f: Bytes) -> (r: Result<(), io::Error>) ensures final(self).rd() == old(self).rd(), r is Ok ==> final(self).wr() == old(self).wr().push(f@) { unimplemented!() }
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<Result<BytesMut, io::Error>>)
    ensures final(self).wr() == old(self).wr(), match r { Some(Ok(f)) => final(self).rd() == old(self).rd().push(f@), _ => true } { unimplemented!() }
}
#[verifier::external_body]
pub fn vec_drain_front(v: &mut Vec<u8>, n: usize) -> (r: Vec<u8>) requires n <= old(v)@.len() ensures r@ == old(v)@.subrange(0, n as int), final(v)@ == old(v)@.subrange(n as int, old(v)@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn unwrap_sealed(x: Result<Vec<u8>, SecioError>) -> (r: Vec<u8>) ensures x == Ok::<Vec<u8>, SecioError>(r) { unimplemented!() }
#[verifier::external_body]
pub fn slice_to(v: &Vec<u8>, n: usize) -> (r: &[u8]) requires n <= v@.len() ensures r@ == v@.subrange(0, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn io_of(e: SecioError) -> (r: io::Error) { unimplemented!() }
impl RecvBuf {
  pub open spec fn view(&self) -> Seq<u8> { match self { RecvBuf::Vec(v) => v@, RecvBuf::Byte(b) => b@ } }
}
// frames open, in this order and with consecutive nonces after counter c, to the bytes out
pub open spec fn opens(t: CipherType, k: Seq<u8>, c: nat, frames: Seq<Seq<u8>>, out: Seq<u8>) -> bool decreases frames.len() {
  if frames.len() == 0 { out.len() == 0 } else {
    exists|n: Seq<u8>, m: Seq<u8>, o: Seq<u8>| #![trigger seal(t, k, n, m), o + m] n.len() == 12 && le(n) == (c + frames.len()) % p256(12) && frames.last() == seal(t, k, n, m) && out == o + m && opens(t, k, c, frames.drop_last(), o)
  }
}
impl SecureStream {
  pub open spec fn inv(&self) -> bool { self.decode_cipher.inv() && self.encode_cipher.inv() && self.decode_cipher.opening() && self.encode_cipher.sealing() }
  pub open spec fn dk(&self) -> (CipherType, Seq<u8>) { (self.decode_cipher.t(), self.decode_cipher.k()) }
  pub open spec fn ek(&self) -> (CipherType, Seq<u8>) { (self.encode_cipher.t(), self.encode_cipher.k()) }
  // reading from old to self handed out exactly the bytes out
  pub open spec fn moved(&self, old: SecureStream, out: Seq<u8>) -> bool {
    &&& old.socket.rd().len() <= self.socket.rd().len() && self.socket.rd().subrange(0, old.socket.rd().len() as int) == old.socket.rd()
    &&& exists|x: Seq<u8>| #![trigger opens(old.dk().0, old.dk().1, le(old.decode_cipher.iv()), self.socket.rd().subrange(old.socket.rd().len() as int, self.socket.rd().len() as int), x)]
          opens(old.dk().0, old.dk().1, le(old.decode_cipher.iv()), self.socket.rd().subrange(old.socket.rd().len() as int, self.socket.rd().len() as int), x) && old.recv_buf@ + x == out + self.recv_buf@
  }
  pub open spec fn same_keys(&self, old: SecureStream) -> bool { self.dk() == old.dk() && self.ek() == old.ek() }
}
pub proof fn lemma_opens_none(t: CipherType, k: Seq<u8>, c: nat, f: Seq<Seq<u8>>) requires f.len() == 0 ensures opens(t, k, c, f, Seq::<u8>::empty()) { }
pub proof fn lemma_opens_one(t: CipherType, k: Seq<u8>, c: nat, f: Seq<u8>, n: Seq<u8>, m: Seq<u8>) requires n.len() == 12, le(n) == (c + 1) % p256(12), f == seal(t, k, n, m) ensures opens(t, k, c, seq![f], m) {
  let e = Seq::<u8>::empty();
  assert(seq![f].drop_last() =~= Seq::<Seq<u8>>::empty());
  lemma_opens_none(t, k, c, seq![f].drop_last());
  assert(e + m =~= m);
  assert(seq![f].last() == f);
  assert(opens(t, k, c, seq![f].drop_last(), e));
}
// what the reader gets is determined by the frames: two openings of the same frames are equal
pub proof fn opens_unique(t: CipherType, k: Seq<u8>, c: nat, frames: Seq<Seq<u8>>, a: Seq<u8>, b: Seq<u8>)
  requires opens(t, k, c, frames, a), opens(t, k, c, frames, b) ensures a == b decreases frames.len()
{
  if frames.len() > 0 {
    let (n1, m1, o1) = choose|n: Seq<u8>, m: Seq<u8>, o: Seq<u8>| #![trigger seal(t, k, n, m), o + m] n.len() == 12 && le(n) == (c + frames.len()) % p256(12) && frames.last() == seal(t, k, n, m) && a == o + m && opens(t, k, c, frames.drop_last(), o);
    let (n2, m2, o2) = choose|n: Seq<u8>, m: Seq<u8>, o: Seq<u8>| #![trigger seal(t, k, n, m), o + m] n.len() == 12 && le(n) == (c + frames.len()) % p256(12) && frames.last() == seal(t, k, n, m) && b == o + m && opens(t, k, c, frames.drop_last(), o);
    nonce_of_counter(n1, n2); axiom_seal_inj(t, k, n1, m1, m2); opens_unique(t, k, c, frames.drop_last(), o1, o2);
  } else { assert(a =~= b); }
}
'''

NEG = r'''
// ---------------- negotiation
// str::split(','): the pieces between commas
pub open spec fn commas(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
  if s.contains(',') { let i = s.index_of_first(',')->Some_0; if 0 <= i < s.len() { seq![s.subrange(0, i)] + commas(s.subrange(i + 1, s.len() as int)) } else { seq![s] } } else { seq![s] }
}
pub proof fn commas_join(a: Seq<char>, b: Seq<char>) ensures commas(a + seq![','] + b) == commas(a) + commas(b) decreases a.len() {
  broadcast use vstd::seq_lib::group_seq_properties;
  let t = a + seq![','] + b;
  assert(t[a.len() as int] == ',');
  t.index_of_first_ensures(',');
  let i = t.index_of_first(',')->Some_0;
  if a.contains(',') {
    a.index_of_first_ensures(',');
    let j = a.index_of_first(',')->Some_0;
    assert(a[j] == ',' && t[j] == ',');
    assert(i == j) by { if i < j { assert(a[i] == t[i]); } }
    assert(t.subrange(0, i) =~= a.subrange(0, i));
    let r = a.subrange(i + 1, a.len() as int);
    assert(t.subrange(i + 1, t.len() as int) =~= r + seq![','] + b);
    commas_join(r, b);
    assert(commas(t) =~= seq![a.subrange(0, i)] + (commas(r) + commas(b)));
    assert(commas(a) == seq![a.subrange(0, i)] + commas(r));
    assert(commas(t) =~= commas(a) + commas(b));
  } else {
    assert(i == a.len()) by { if i < a.len() { assert(a[i] == t[i]); assert(a.contains(',')); } }
    assert(t.subrange(0, i) =~= a); assert(t.subrange(i + 1, t.len() as int) =~= b);
    assert(commas(t) =~= commas(a) + commas(b));
  }
}
// names written one after the other, each followed by a comma
pub open spec fn listed(n: Seq<Seq<char>>) -> Seq<char> decreases n.len() { if n.len() == 0 { seq![] } else { listed(n.drop_last()) + n.last() + seq![','] } }
pub proof fn listed_back(n: Seq<Seq<char>>) requires n.len() > 0, forall|i: int| 0 <= i < n.len() ==> !(#[trigger] n[i]).contains(',') ensures commas(listed(n).drop_last()) == n decreases n.len() {
  let d = n.drop_last(); let l = n.last();
  assert(commas(l) =~= seq![l]);
  assert(listed(n).drop_last() =~= listed(d) + l);
  if d.len() == 0 { assert(listed(d) + l =~= l); assert(n =~= seq![l]); }
  else {
    assert(forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]) == n[i]);
    listed_back(d);
    let e = listed(d).drop_last();
    assert(listed(d) + l =~= e + seq![','] + l);
    commas_join(e, l);
    assert(d + seq![l] =~= n);
  }
}
#[verifier::external_body]
pub fn string_new() -> (r: String) ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn push_text(s: &mut String, x: &str) ensures final(s)@ == old(s)@ + x@ { unimplemented!() }
#[verifier::external_body]
pub fn push_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body]
pub fn pop_char(s: &mut String) ensures final(s)@ == (if old(s)@.len() == 0 { old(s)@ } else { old(s)@.drop_last() }) { unimplemented!() }
#[verifier::external_body]
pub fn split_commas<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures r@.len() == commas(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == commas(s@)[i] { unimplemented!() }
#[verifier::external_body]
pub fn any_entry(s: &str, x: &str) -> (r: bool) ensures r == commas(s@).contains(x@) { unimplemented!() }
// string slices are equal exactly when their characters are
#[verifier::external_body]
pub broadcast proof fn axiom_str_ext(a: &str, b: &str) ensures #![trigger a@, b@] a@ == b@ ==> a == b { }
// first entry of a that is known and also in b
pub open spec fn pick<K>(a: Seq<Seq<char>>, b: Seq<Seq<char>>, known: spec_fn(Seq<char>) -> Option<K>) -> Option<K> decreases a.len() {
  if a.len() == 0 { None } else if b.contains(a[0]) && known(a[0]) is Some { known(a[0]) } else { pick(a.drop_first(), b, known) }
}
pub open spec fn chosen<K>(r: Ordering, ours: Seq<char>, theirs: Seq<char>, known: spec_fn(Seq<char>) -> Option<K>) -> Option<K> {
  if r == Ordering::Greater { pick(commas(ours), commas(theirs), known) } else { pick(commas(theirs), commas(ours), known) }
}
pub open spec fn known_agreement() -> spec_fn(Seq<char>) -> Option<KeyAgreement> { |s: Seq<char>| if s == ECDH_P256@ { Some(KeyAgreement::EcdhP256) } else if s == ECDH_P384@ { Some(KeyAgreement::EcdhP384) } else if s == X25519@ { Some(KeyAgreement::X25519) } else { None } }
pub open spec fn known_cipher() -> spec_fn(Seq<char>) -> Option<CipherType> { |s: Seq<char>| if s == AES_128_GCM@ { Some(CipherType::Aes128Gcm) } else if s == AES_256_GCM@ { Some(CipherType::Aes256Gcm) } else if s == CHACHA20_POLY1305@ { Some(CipherType::ChaCha20Poly1305) } else { None } }
pub open spec fn known_digest() -> spec_fn(Seq<char>) -> Option<Digest> { |s: Seq<char>| if s == SHA_256@ { Some(Digest::Sha256) } else if s == SHA_512@ { Some(Digest::Sha512) } else { None } }
// C13: whatever one end picks, the other end picks too, and both offered it
pub proof fn both_ends_pick_the_same<K>(a: Seq<char>, b: Seq<char>, known: spec_fn(Seq<char>) -> Option<K>)
  ensures chosen(Ordering::Greater, a, b, known) == chosen(Ordering::Less, b, a, known)
{ }
pub proof fn picked_is_common<K>(a: Seq<Seq<char>>, b: Seq<Seq<char>>, known: spec_fn(Seq<char>) -> Option<K>) -> (i: int)
  requires pick(a, b, known) is Some
  ensures 0 <= i < a.len(), b.contains(a[i]), known(a[i]) == pick(a, b, known), forall|j: int| 0 <= j < i ==> !(b.contains(#[trigger] a[j]) && known(a[j]) is Some)
  decreases a.len()
{
  if b.contains(a[0]) && known(a[0]) is Some { 0 } else {
    let i = picked_is_common(a.drop_first(), b, known);
    assert forall|j: int| 0 <= j < i + 1 implies !(b.contains(#[trigger] a[j]) && known(a[j]) is Some) by { if j > 0 { assert(a[j] == a.drop_first()[j - 1]); } }
    i + 1
  }
}
pub proof fn nothing_common<K>(a: Seq<Seq<char>>, b: Seq<Seq<char>>, known: spec_fn(Seq<char>) -> Option<K>, i: int)
  requires pick(a, b, known) is None, 0 <= i < a.len() ensures !(b.contains(a[i]) && known(a[i]) is Some) decreases a.len()
{ if i > 0 { nothing_common(a.drop_first(), b, known, i - 1); } }
'''

HASH = r'''
// ---------------- hashes and signatures: opaque functions
pub uninterp spec fn hash(alg: int, m: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn hmac(alg: int, k: Seq<u8>, m: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub broadcast proof fn axiom_hash_len(m: Seq<u8>) ensures #[trigger] hash(256, m).len() == 32 { }
pub open spec fn sha256(m: Seq<u8>) -> Seq<u8> { hash(256, m) }
pub mod ring {
  pub mod digest {
    use super::super::*;
    pub struct Algorithm { pub id: u16 }
    pub const SHA256: Algorithm = Algorithm { id: 256 };
    pub const SHA512: Algorithm = Algorithm { id: 512 };
    #[verifier::external_body]
    pub struct Digest { x: usize }
    impl Digest {
      pub uninterp spec fn view(&self) -> Seq<u8>;
      #[verifier::external_body]
      pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Context { x: usize }
    impl Context {
      pub uninterp spec fn alg(&self) -> int;
      pub uninterp spec fn view(&self) -> Seq<u8>;
      #[verifier::external_body]
      pub fn new(a: &Algorithm) -> (r: Context) ensures r.alg() == a.id, r@.len() == 0 { unimplemented!() }
      #[verifier::external_body]
      pub fn update(&mut self, d: &[u8]) ensures final(self).alg() == old(self).alg(), final(self)@ == old(self)@ + d@ { unimplemented!() }
      #[verifier::external_body]
      pub fn finish(self) -> (r: Digest) ensures r@ == hash(self.alg(), self@) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn digest(a: &Algorithm, d: &[u8]) -> (r: Digest) ensures r@ == hash(a.id as int, d@) { unimplemented!() }
  }
  pub mod hmac {
    use super::super::*;
    #[derive(Clone, Copy)]
    pub struct Algorithm { pub id: u16 }
    pub const HMAC_SHA256: Algorithm = Algorithm { id: 256 };
    pub const HMAC_SHA512: Algorithm = Algorithm { id: 512 };
    #[verifier::external_body]
    pub struct Key { x: usize }
    impl Key {
      pub uninterp spec fn alg(&self) -> int;
      pub uninterp spec fn k(&self) -> Seq<u8>;
      #[verifier::external_body]
      pub fn new(a: Algorithm, k: &[u8]) -> (r: Key) ensures r.alg() == a.id, r.k() == k@ { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Tag { x: usize }
    impl Tag {
      pub uninterp spec fn view(&self) -> Seq<u8>;
      #[verifier::external_body]
      pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@, r@.len() > 0 { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Context { x: usize }
    impl Context {
      pub uninterp spec fn alg(&self) -> int;
      pub uninterp spec fn k(&self) -> Seq<u8>;
      pub uninterp spec fn view(&self) -> Seq<u8>;
      #[verifier::external_body]
      pub fn with_key(a: &Key) -> (r: Context) ensures r.alg() == a.alg(), r.k() == a.k(), r@.len() == 0 { unimplemented!() }
      #[verifier::external_body]
      pub fn update(&mut self, d: &[u8]) ensures final(self).alg() == old(self).alg(), final(self).k() == old(self).k(), final(self)@ == old(self)@ + d@ { unimplemented!() }
      #[verifier::external_body]
      pub fn sign(self) -> (r: Tag) ensures r@ == hmac(self.alg(), self.k(), self@), r@.len() > 0 { unimplemented!() }
    }
  }
}
pub mod secp256k1 {
  use super::*;
  pub struct Error {}
  // signature sig over the 32-byte message m checks out under the public key pk
  pub uninterp spec fn sig_ok(m: Seq<u8>, sig: Seq<u8>, pk: Seq<u8>) -> bool;
  pub uninterp spec fn pk_of(sk: SecretKey) -> Seq<u8>;
  // compressed points take 33 bytes, DER signatures at most 72
  #[verifier::external_body]
  pub broadcast proof fn axiom_pk_len(sk: SecretKey) ensures #[trigger] pk_of(sk).len() == 33 { }
  #[verifier::external_body]
  pub struct SecretKey { x: usize }
  #[verifier::external_body]
  pub struct Message { x: usize }
  #[verifier::external_body]
  pub struct Signature { x: usize }
  #[verifier::external_body]
  pub struct Serialized { x: usize }
  #[verifier::external_body]
  pub struct Secp256k1 { x: usize }
  impl Message { pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from_slice(k: &[u8]) -> (r: Result<Message, Error>) ensures r is Ok ==> r->Ok_0@ == k@ { unimplemented!() } }
  impl Serialized { pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() } }
  impl Signature { pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn serialize_der(&self) -> (r: Serialized) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_der(k: &[u8]) -> (r: Result<Signature, Error>) ensures r is Ok ==> r->Ok_0@ == k@ { unimplemented!() } }
  impl SecretKey {
    #[verifier::external_body]
    pub fn from_slice(k: &[u8]) -> (r: Result<SecretKey, Error>) { unimplemented!() } }
  impl Secp256k1 {
    #[verifier::external_body]
    pub fn signing_only() -> Secp256k1 { unimplemented!() }
    #[verifier::external_body]
    pub fn verification_only() -> Secp256k1 { unimplemented!() }
    #[verifier::external_body]
    pub fn sign(&self, m: &Message, secret: &SecretKey) -> (r: Signature) ensures sig_ok(m@, r@, pk_of(*secret)), r@.len() <= 72 { unimplemented!() }
    #[verifier::external_body]
    pub fn verify(&self, m: &Message, s: &Signature, k: &PublicKey) -> (r: Result<(), Error>) ensures r is Ok == sig_ok(m@, s@, k@) { unimplemented!() }
  }
  pub mod key {
    use super::*;
    #[verifier::external_body]
    pub struct PublicKey { x: usize }
    impl PublicKey { pub uninterp spec fn view(&self) -> Seq<u8>;
      #[verifier::external_body]
      pub fn from_secret_key(c: &Secp256k1, secret: &SecretKey) -> (r: PublicKey) ensures r@ == pk_of(*secret) { unimplemented!() }
      #[verifier::external_body]
      pub fn serialize(&self) -> (r: Serialized) ensures r@ == self@ { unimplemented!() }
      #[verifier::external_body]
      pub fn from_slice(k: &[u8]) -> (r: Result<PublicKey, Error>) ensures r is Ok ==> r->Ok_0@ == k@ { unimplemented!() }
    }
  }
  pub use key::PublicKey;
}
pub mod ring_agreement {
  use super::*;
  pub struct Unspecified {}
  pub struct Algorithm { pub id: KeyAgreement }
  pub const ECDH_P256: Algorithm = Algorithm { id: KeyAgreement::EcdhP256 };
  pub const ECDH_P384: Algorithm = Algorithm { id: KeyAgreement::EcdhP384 };
  pub const X25519: Algorithm = Algorithm { id: KeyAgreement::X25519 };
  pub uninterp spec fn dh(a: KeyAgreement, sk: EphemeralPrivateKey, pk: Seq<u8>) -> Seq<u8>;
  pub uninterp spec fn dh_pub(a: KeyAgreement, sk: EphemeralPrivateKey) -> Seq<u8>;
  // what makes it an agreement; public keys take at most 97 bytes
  #[verifier::external_body]
  pub proof fn axiom_dh(a: KeyAgreement, x: EphemeralPrivateKey, y: EphemeralPrivateKey) ensures dh(a, x, dh_pub(a, y)) == dh(a, y, dh_pub(a, x)) { }
  #[verifier::external_body]
  pub struct EphemeralPrivateKey { x: usize }
  #[verifier::external_body]
  pub struct SystemRandom { x: usize }
  impl SystemRandom {
    #[verifier::external_body]
    pub fn new() -> SystemRandom { unimplemented!() } }
  #[verifier::external_body]
  pub struct RingPublicKey { x: usize }
  impl RingPublicKey { pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() } }
  impl EphemeralPrivateKey {
    pub uninterp spec fn alg(&self) -> KeyAgreement;
    #[verifier::external_body]
    pub fn generate(a: &Algorithm, rng: &SystemRandom) -> (r: Result<EphemeralPrivateKey, Unspecified>) ensures r is Ok ==> r->Ok_0.alg() == a.id { unimplemented!() }
    #[verifier::external_body]
    pub fn compute_public_key(&self) -> (r: Result<RingPublicKey, Unspecified>) ensures r is Ok ==> r->Ok_0@ == dh_pub(self.alg(), *self) && r->Ok_0@.len() <= 97 { unimplemented!() }
  }
  pub struct UnparsedPublicKey<'a> { pub alg: &'a Algorithm, pub bytes: &'a [u8] }
  impl<'a> UnparsedPublicKey<'a> { pub fn new(alg: &'a Algorithm, bytes: &'a [u8]) -> (r: UnparsedPublicKey<'a>) ensures r.alg == alg, r.bytes == bytes { UnparsedPublicKey { alg, bytes } } }
  // fails when the two keys are of different algorithms, and hands the agreed secret to kdf otherwise
  #[verifier::external_body]
  pub fn agree_ephemeral<F: FnOnce(&[u8]) -> Result<Vec<u8>, SecioError>>(sk: EphemeralPrivateKey, peer: &UnparsedPublicKey, e: SecioError, kdf: F) -> (r: Result<Vec<u8>, SecioError>)
    requires forall|km: &[u8]| kdf.requires((km,)),
    ensures r is Ok ==> sk.alg() == peer.alg.id && exists|km: &[u8]| km@ == dh(sk.alg(), sk, peer.bytes@) && kdf.ensures((km,), r) { unimplemented!() }
}
'''

HAND = r'''
// ---------------- handshake messages, as wire lays them out
use wire::{utf8, enc_propose, dec_propose, enc_pk, dec_pk, enc_exchange, dec_exchange, propose_back, pk_back, pk_len, exchange_back};
impl Propose {
  #[verifier::external_body]
  pub fn new() -> Propose { unimplemented!() }
''' + stub('Propose::encode', 'encode(self) -> (ret: Bytes)') + stub('Propose::decode', 'decode(data: &[u8]) -> (ret: Option<Propose>)') + r'''}
impl Exchange {
  #[verifier::external_body]
  pub fn new() -> Exchange { unimplemented!() }
''' + stub('Exchange::encode', 'encode(self) -> (ret: Bytes)') + stub('Exchange::decode', 'decode(data: &[u8]) -> (ret: Option<Exchange>)') + r'''}
impl PublicKey {
  pub open spec fn view(&self) -> Seq<u8> { self->Secp256k1_0@ }
  #[verifier::external_body]
  pub fn clone(&self) -> (r: PublicKey) ensures r@ == self@ { unimplemented!() }
''' + stub('PublicKey::encode', 'encode(self) -> (ret: Bytes)') + stub('PublicKey::decode', 'decode(data: &[u8]) -> (ret: Option<PublicKey>)') + r'''}
// what this end offers, as it is written; the texts are short enough for the four byte lengths of the layout
pub open spec fn my_propose(nonce: Seq<u8>, c: Config) -> Seq<u8> { enc_propose(nonce, enc_pk(c.key.pk()), utf8(offer(c.agreements_proposal, DEFAULT_AGREEMENTS_PROPOSITION)), utf8(offer(c.ciphers_proposal, DEFAULT_CIPHERS_PROPOSITION)), utf8(offer(c.digests_proposal, DEFAULT_DIGESTS_PROPOSITION))) }
pub open spec fn short(c: Config) -> bool { utf8(offer(c.agreements_proposal, DEFAULT_AGREEMENTS_PROPOSITION)).len() + utf8(offer(c.ciphers_proposal, DEFAULT_CIPHERS_PROPOSITION)).len() + utf8(offer(c.digests_proposal, DEFAULT_DIGESTS_PROPOSITION)).len() < 0x4000_0000 }
#[verifier::external_body]
pub fn fill_random(b: &mut [u8; 16]) { unimplemented!() }
#[verifier::external_body]
pub fn arr_to_vec(b: &[u8; 16]) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body]
pub fn arr_slice(b: &[u8; 16]) -> (r: &[u8]) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body]
pub fn vec_eq(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn slice_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn vec_drop_front(v: &mut Vec<u8>, n: usize) requires n <= old(v)@.len() ensures final(v)@ == old(v)@.subrange(n as int, old(v)@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn clone_vec(v: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == v@ { unimplemented!() }
pub open spec fn offer(o: Option<String>, d: &str) -> Seq<char> { match o { Some(s) => s@, None => d@ } }
#[verifier::external_body]
pub fn offer_clone(o: &Option<String>, d: &'static str) -> (r: String) ensures r@ == offer(*o, d) { unimplemented!() }
#[verifier::external_body]
pub fn offer_ref<'a>(o: &'a Option<String>, d: &'a str) -> (r: &'a str) ensures r@ == offer(*o, d) { unimplemented!() }
#[verifier::external_body]
pub fn cmp_bytes(a: &[u8], b: &[u8]) -> (r: Ordering) ensures r == lex(a@, b@) { unimplemented!() }
pub open spec fn lex(a: Seq<u8>, b: Seq<u8>) -> Ordering decreases a.len() {
  if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } } else if b.len() == 0 { Ordering::Greater }
  else if a[0] < b[0] { Ordering::Less } else if a[0] > b[0] { Ordering::Greater } else { lex(a.drop_first(), b.drop_first()) }
}
pub open spec fn rev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub proof fn lex_antisymmetric(a: Seq<u8>, b: Seq<u8>) ensures lex(b, a) == rev(lex(a, b)) decreases a.len() { if a.len() > 0 && b.len() > 0 { lex_antisymmetric(a.drop_first(), b.drop_first()); } }
// which side comes first
pub open spec fn order(local_pk: Seq<u8>, local_nonce: Seq<u8>, remote_pk: Seq<u8>, remote_nonce: Seq<u8>) -> Ordering { lex(sha256(remote_pk + local_nonce), sha256(local_pk + remote_nonce)) }
// C13/C14: the two ends see opposite orderings
pub proof fn orders_are_opposite(pa: Seq<u8>, na: Seq<u8>, pb: Seq<u8>, nb: Seq<u8>) ensures order(pb, nb, pa, na) == rev(order(pa, na, pb, nb)) { lex_antisymmetric(sha256(pb + na), sha256(pa + nb)); }
impl SecioKeyPair {
  pub open spec fn pk(&self) -> Seq<u8> { crate::secp256k1_compat::pk_of(self.inner->private) }
}
impl HandshakeContext<Local> {
  pub open spec fn ok(&self) -> bool {
    &&& self.state.public_key@ == self.config.key.pk()
    &&& self.state.proposition_bytes@ == my_propose(self.state.nonce@, self.config)
  }
}
impl Remote {
  // everything the remote said in its proposition has been taken over, and the choices follow from it
  pub open spec fn ok(&self, cfg: Config) -> bool {
    let d = dec_propose(self.proposition_bytes@);
    &&& d is Some && self.nonce@ == d->Some_0.0 && dec_pk(d->Some_0.1) == Some(self.public_key@)
    &&& self.public_key@ != self.local.public_key@
    &&& self.hashes_ordering == order(self.local.public_key@, self.local.nonce@, self.public_key@, self.nonce@)
    &&& chosen(self.hashes_ordering, offer(cfg.agreements_proposal, DEFAULT_AGREEMENTS_PROPOSITION), d->Some_0.2, known_agreement()) == Some(self.chosen_exchange)
    &&& chosen(self.hashes_ordering, offer(cfg.ciphers_proposal, DEFAULT_CIPHERS_PROPOSITION), d->Some_0.3, known_cipher()) == Some(self.chosen_cipher)
    &&& chosen(self.hashes_ordering, offer(cfg.digests_proposal, DEFAULT_DIGESTS_PROPOSITION), d->Some_0.4, known_digest()) == Some(self.chosen_hash)
  }
}
// ---------------- key stretching
pub uninterp spec fn seed() -> Seq<u8>;
#[verifier::external_body]
pub fn seed_bytes() -> (r: &'static [u8]) ensures r@ == seed() { unimplemented!() }
pub open spec fn st_a(h: Hmac, i: nat) -> Seq<u8> decreases i { if i == 0 { hmac(h.0.alg(), h.0.k(), seed()) } else { hmac(h.0.alg(), h.0.k(), st_a(h, (i - 1) as nat)) } }
pub open spec fn st_b(h: Hmac, i: nat) -> Seq<u8> { hmac(h.0.alg(), h.0.k(), st_a(h, i) + seed()) }
pub open spec fn st_cat(h: Hmac, i: nat) -> Seq<u8> decreases i { if i == 0 { Seq::<u8>::empty() } else { st_cat(h, (i - 1) as nat) + st_b(h, (i - 1) as nat) } }
// r is the beginning of the stretched stream of h
pub open spec fn stretched(h: Hmac, r: Seq<u8>) -> bool { exists|i: nat| #![trigger st_cat(h, i)] r.len() <= st_cat(h, i).len() && r == st_cat(h, i).subrange(0, r.len() as int) }
pub proof fn lemma_cat_prefix(h: Hmac, i: nat, j: nat) requires i <= j ensures st_cat(h, i).len() <= st_cat(h, j).len(), st_cat(h, j).subrange(0, st_cat(h, i).len() as int) =~= st_cat(h, i) decreases j
{ if i < j { lemma_cat_prefix(h, i, (j - 1) as nat); let p = st_cat(h, (j - 1) as nat); let b = st_b(h, (j - 1) as nat); let n = st_cat(h, i).len() as int; assert((p + b).subrange(0, n) =~= p.subrange(0, n)); } else { assert(st_cat(h, i).subrange(0, st_cat(h, i).len() as int) =~= st_cat(h, i)); } }
// the stretched secret is a function of the mac key: two ends with equal secrets get equal bytes
pub proof fn stretch_unique(h: Hmac, g: Hmac, r: Seq<u8>, s: Seq<u8>) requires stretched(h, r), stretched(g, s), r.len() == s.len(), h.0.alg() == g.0.alg(), h.0.k() == g.0.k() ensures r =~= s
{
  let i = choose|i: nat| #![trigger st_cat(h, i)] r.len() <= st_cat(h, i).len() && r == st_cat(h, i).subrange(0, r.len() as int);
  let j = choose|i: nat| #![trigger st_cat(g, i)] s.len() <= st_cat(g, i).len() && s == st_cat(g, i).subrange(0, s.len() as int);
  lemma_same_stream(h, g, j);
  if i <= j { lemma_cat_prefix(h, i, j); assert(r =~= st_cat(h, j).subrange(0, r.len() as int)) by { let a = st_cat(h, j).subrange(0, st_cat(h, i).len() as int); assert(a.subrange(0, r.len() as int) =~= st_cat(h, j).subrange(0, r.len() as int)); } }
  else { lemma_cat_prefix(h, j, i); let a = st_cat(h, i).subrange(0, st_cat(h, j).len() as int); assert(a.subrange(0, r.len() as int) =~= st_cat(h, i).subrange(0, r.len() as int)); }
}
pub proof fn lemma_same_a(h: Hmac, g: Hmac, i: nat) requires h.0.alg() == g.0.alg(), h.0.k() == g.0.k() ensures st_a(h, i) == st_a(g, i) decreases i { if i > 0 { lemma_same_a(h, g, (i - 1) as nat); } }
pub proof fn lemma_same_stream(h: Hmac, g: Hmac, i: nat) requires h.0.alg() == g.0.alg(), h.0.k() == g.0.k() ensures st_cat(h, i) == st_cat(g, i) decreases i { if i > 0 { lemma_same_stream(h, g, (i - 1) as nat); lemma_same_a(h, g, (i - 1) as nat); } }
pub open spec fn halflen(t: CipherType) -> int { 12 + keylen(t) + 20 }
// key material of the two directions: (sealing, opening)
pub open spec fn dirs(o: Ordering, t: CipherType, long: Seq<u8>) -> (Seq<u8>, Seq<u8>) {
  let h = halflen(t); let a = long.subrange(0, h).subrange(12, 12 + keylen(t)); let b = long.subrange(h, 2 * h).subrange(12, 12 + keylen(t));
  if o == Ordering::Less { (b, a) } else { (a, b) }
}
// C14: with opposite orderings the sealing key of one end is the opening key of the other, taken from disjoint ranges
pub proof fn directions_mirror(o: Ordering, t: CipherType, long: Seq<u8>) requires o != Ordering::Equal, long.len() == 2 * halflen(t)
  ensures dirs(o, t, long).0 == dirs(rev(o), t, long).1, dirs(o, t, long).1 == dirs(rev(o), t, long).0, 12 + keylen(t) <= halflen(t),
    dirs(Ordering::Greater, t, long) == (long.subrange(12, 12 + keylen(t)), long.subrange(halflen(t) + 12, halflen(t) + 12 + keylen(t)))
{ let h = halflen(t); assert(long.subrange(0, h).subrange(12, 12 + keylen(t)) =~= long.subrange(12, 12 + keylen(t))); assert(long.subrange(h, 2 * h).subrange(12, 12 + keylen(t)) =~= long.subrange(h + 12, h + 12 + keylen(t))); }
// ---------------- the whole handshake
#[verifier::external_body]
pub struct Socket { x: usize }
#[verifier::external_body]
pub fn framed_new(s: Socket, max: usize) -> (r: Framed) ensures r.rd().len() == 0, r.wr().len() == 0 { unimplemented!() }
pub open spec fn authentic(cfg: Config, ss: SecureStream, pk: Seq<u8>) -> bool {
  exists|r: Remote, ep: Seq<u8>, sig: Seq<u8>| authentic_by(cfg, ss, pk, r, ep, sig)
}
pub open spec fn authentic_by(cfg: Config, ss: SecureStream, pk: Seq<u8>, r: Remote, ep: Seq<u8>, sig: Seq<u8>) -> bool {
  &&& r.ok(cfg) && r.public_key@ == pk && r.local.public_key@ == cfg.key.pk() && pk != cfg.key.pk()
  &&& ss.socket.wr().len() >= 2 && ss.socket.wr()[0] == r.local.proposition_bytes@
  &&& ss.socket.rd().len() >= 2 && ss.socket.rd()[0] == r.proposition_bytes@ && dec_exchange(ss.socket.rd()[1]) == Some((ep, sig))
  // the remote signed both propositions and its ephemeral key with the key it announced
  &&& crate::secp256k1_compat::sig_ok(sha256(r.proposition_bytes@ + r.local.proposition_bytes@ + ep), sig, pk)
  // our proposition carries this nonce and the remote sent all of it back under the session key
  &&& r.local.proposition_bytes@ == my_propose(r.local.nonce@, cfg)
  &&& r.local.nonce@.len() == 16
  &&& opens(ss.dk().0, ss.dk().1, 0, ss.socket.rd().subrange(2, ss.socket.rd().len() as int), r.local.nonce@ + ss.recv_buf@)
}
// the session keys are the two halves of the stretched agreed secret, assigned by the ordering of the hashes
pub open spec fn keyed(cfg: Config, ss: SecureStream) -> bool {
  exists|r: Remote, sk: crate::dh_compat::EphemeralPrivateKey, h: Hmac, long: Seq<u8>| keyed_by(cfg, ss, r, sk, h, long)
}
pub open spec fn keyed_by(cfg: Config, ss: SecureStream, r: Remote, sk: crate::dh_compat::EphemeralPrivateKey, h: Hmac, long: Seq<u8>) -> bool {
    &&& r.ok(cfg) && r.hashes_ordering != Ordering::Equal && h.0.alg() == dig_id(r.chosen_hash) && h.0.k() == crate::dh_compat::dh(r.chosen_exchange, sk, dec_exchange(ss.socket.rd()[1])->Some_0.0)
    &&& stretched(h, long) && long.len() == 2 * halflen(r.chosen_cipher)
    &&& ss.ek() == (r.chosen_cipher, dirs(r.hashes_ordering, r.chosen_cipher, long).0)
    &&& ss.dk() == (r.chosen_cipher, dirs(r.hashes_ordering, r.chosen_cipher, long).1)
}
// one run of the handshake: both of the above with the same proposition, and what this end sent for the agreement
pub open spec fn joined(cfg: Config, ss: SecureStream, pk: Seq<u8>) -> bool {
  exists|r: Remote, sk: crate::dh_compat::EphemeralPrivateKey, h: Hmac, long: Seq<u8>, ep: Seq<u8>, sig: Seq<u8>| joined_by(cfg, ss, pk, r, sk, h, long, ep, sig)
}
pub open spec fn joined_by(cfg: Config, ss: SecureStream, pk: Seq<u8>, r: Remote, sk: crate::dh_compat::EphemeralPrivateKey, h: Hmac, long: Seq<u8>, ep: Seq<u8>, sig: Seq<u8>) -> bool {
  &&& keyed_by(cfg, ss, r, sk, h, long) && authentic_by(cfg, ss, pk, r, ep, sig)
  // this end sent the public part of its key, and signed what the other end is going to check
  &&& dec_exchange(ss.socket.wr()[1]) is Some && dec_exchange(ss.socket.wr()[1])->Some_0.0 == crate::dh_compat::dh_pub(r.chosen_exchange, sk)
  &&& crate::secp256k1_compat::sig_ok(sha256(r.local.proposition_bytes@ + r.proposition_bytes@ + crate::dh_compat::dh_pub(r.chosen_exchange, sk)), dec_exchange(ss.socket.wr()[1])->Some_0.1, cfg.key.pk())
}
// C13, C14: two ends that finished the handshake with each other hold the same keys, crosswise, and each knows who the other is
pub proof fn two_ends_share_keys(ca: Config, a: SecureStream, pa: Seq<u8>, cb: Config, b: SecureStream, pb: Seq<u8>)
  requires joined(ca, a, pa), joined(cb, b, pb), short(ca), short(cb),
    a.socket.rd()[0] == b.socket.wr()[0], a.socket.rd()[1] == b.socket.wr()[1], b.socket.rd()[0] == a.socket.wr()[0], b.socket.rd()[1] == a.socket.wr()[1],
  ensures a.ek() == b.dk(), b.ek() == a.dk(), pa == cb.key.pk(), pb == ca.key.pk(),
{
  let (ra, ka, ha, la, ea, sa) = choose|r: Remote, sk: crate::dh_compat::EphemeralPrivateKey, h: Hmac, long: Seq<u8>, ep: Seq<u8>, sig: Seq<u8>| joined_by(ca, a, pa, r, sk, h, long, ep, sig);
  let (rb, kb, hb, lb, eb, sb) = choose|r: Remote, sk: crate::dh_compat::EphemeralPrivateKey, h: Hmac, long: Seq<u8>, ep: Seq<u8>, sig: Seq<u8>| joined_by(cb, b, pb, r, sk, h, long, ep, sig);
  broadcast use crate::secp256k1_compat::axiom_pk_len;
  assert(joined_by(ca, a, pa, ra, ka, ha, la, ea, sa)); assert(joined_by(cb, b, pb, rb, kb, hb, lb, eb, sb));
  pk_len(ca.key.pk()); pk_len(cb.key.pk()); pk_back(ca.key.pk()); pk_back(cb.key.pk());
  propose_back(ra.local.nonce@, enc_pk(ca.key.pk()), offer(ca.agreements_proposal, DEFAULT_AGREEMENTS_PROPOSITION), offer(ca.ciphers_proposal, DEFAULT_CIPHERS_PROPOSITION), offer(ca.digests_proposal, DEFAULT_DIGESTS_PROPOSITION));
  propose_back(rb.local.nonce@, enc_pk(cb.key.pk()), offer(cb.agreements_proposal, DEFAULT_AGREEMENTS_PROPOSITION), offer(cb.ciphers_proposal, DEFAULT_CIPHERS_PROPOSITION), offer(cb.digests_proposal, DEFAULT_DIGESTS_PROPOSITION));
  orders_are_opposite(ca.key.pk(), ra.local.nonce@, cb.key.pk(), rb.local.nonce@);
  assert(rb.hashes_ordering == rev(ra.hashes_ordering));
  assert(rb.chosen_exchange == ra.chosen_exchange && rb.chosen_cipher == ra.chosen_cipher && rb.chosen_hash == ra.chosen_hash);
  crate::dh_compat::axiom_dh(ra.chosen_exchange, ka, kb);
  stretch_unique(ha, hb, la, lb);
  directions_mirror(ra.hashes_ordering, ra.chosen_cipher, la);
}
#[verifier::external_body]
pub fn zeros(n: usize) -> (r: Vec<u8>) ensures r@.len() == n { unimplemented!() }
#[verifier::external_body]
pub fn vec_split_at(v: &Vec<u8>, n: usize) -> (r: (&[u8], &[u8])) requires n <= v@.len() ensures r.0@ == v@.subrange(0, n as int), r.1@ == v@.subrange(n as int, v@.len() as int) { unimplemented!() }
'''

PEER = r'''
// ---------------- peer ids
pub open spec fn multihash(b: Seq<u8>) -> bool { b.len() == 34 && b[0] == 0x12 && b[1] == 32 }
pub mod decode {
  use super::*;
  pub struct Error {}
  // unsigned_varint::decode::u16: up to three groups of seven bits, low group first, bits above 16 are dropped
  #[verifier::external_body]
  pub fn u16(d: &[u8]) -> (r: Result<(u16, &[u8]), Error>)
    ensures match r {
      Ok((v, rest)) => rest@.len() < d@.len() && rest@ == d@.subrange(d@.len() - rest@.len(), d@.len() as int) && d@[d@.len() - rest@.len() - 1] < 128
         && (forall|i: int| 0 <= i < d@.len() - rest@.len() - 1 ==> d@[i] >= 128) && (d@.len() - rest@.len() == 1 ==> v == d@[0]),
      Err(_) => d@.len() == 0 || d@[0] >= 128 } { unimplemented!() }
}
pub mod encode {
  use super::*;
  #[verifier::external_body]
  pub fn u16_buffer() -> [u8; 3] { unimplemented!() }
  #[verifier::external_body]
  pub fn u16<'a>(v: u16, b: &'a mut [u8; 3]) -> (r: &'a [u8]) ensures v < 128 ==> r@ == seq![v as u8], 1 <= r@.len() <= 3 { unimplemented!() }
}
#[verifier::external_body]
pub fn vec_resize0(v: &mut Vec<u8>, n: usize) ensures final(v)@.len() == n, forall|i: int| 0 <= i < n && i < old(v)@.len() ==> final(v)@[i] == old(v)@[i] { unimplemented!() }
#[verifier::external_body]
pub fn vec_copy(v: &mut Vec<u8>, a: usize, b: usize, s: &[u8]) requires a <= b <= old(v)@.len(), s@.len() == b - a
  ensures final(v)@ == old(v)@.subrange(0, a as int) + s@ + old(v)@.subrange(b as int, old(v)@.len() as int) { unimplemented!() }
impl PeerId { pub open spec fn ok(&self) -> bool { multihash(self.inner@) } }
// bs58: text and bytes determine each other
pub uninterp spec fn b58(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn b58_back(s: Seq<char>) -> Option<Seq<u8>>;
#[verifier::external_body]
pub broadcast proof fn axiom_b58(b: Seq<u8>) ensures b58_back(#[trigger] b58(b)) == Some(b) { }
#[verifier::external_body]
pub broadcast proof fn axiom_b58_back(s: Seq<char>) ensures (#[trigger] b58_back(s)) is Some ==> b58(b58_back(s)->Some_0) == s { }
pub mod bs58 {
  use super::*;
  pub struct Error {}
  #[verifier::external_body]
  pub struct Enc { x: usize }
  #[verifier::external_body]
  pub struct Dec { x: usize }
  impl Enc { pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn into_string(self) -> (r: String) ensures r@ == b58(self@) { unimplemented!() } }
  impl Dec { pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn into_vec(self) -> (r: Result<Vec<u8>, Error>) ensures match r { Ok(v) => b58_back(self@) == Some(v@), Err(_) => b58_back(self@) is None } { unimplemented!() } }
  #[verifier::external_body]
  pub fn encode(v: Vec<u8>) -> (r: Enc) ensures r@ == v@ { unimplemented!() }
  #[verifier::external_body]
  pub fn decode(s: &str) -> (r: Dec) ensures r@ == s@ { unimplemented!() }
}
#[verifier::external_body]
pub fn fill_any<const N: usize>(a: &mut [u8; N]) { unimplemented!() }
// a text taken for an id is the text of that id, and the text of an id is taken for it
pub proof fn text_round(p: PeerId, s: Seq<char>) requires p.ok()
  ensures b58_back(b58(p.inner@)) == Some(p.inner@), b58_back(s) == Some(p.inner@) ==> b58(p.inner@) == s
{ broadcast use axiom_b58, axiom_b58_back; }
pub open spec fn id_of(seed: Seq<u8>) -> Seq<u8> { seq![0x12u8, 32u8] + sha256(seed) }
'''

def build(root='/repo'):
    u = Unit('secio', root)
    u.rule('std :: u8 :: MAX', 'u8 :: MAX', '')
    u.rule(':: std :: cmp :: min', 'std :: cmp :: min', 'leading :: dropped')
    u.text(HEAD + BYTES + WIRE + BM2 + NONCE)
    u.item(CC, 'enum', 'CipherType', D); u.item(LB, 'enum', 'Digest', D); u.item(DH, 'enum', 'KeyAgreement', D); u.item(CM, 'enum', 'CryptoMode', D)
    u.item(ER, 'enum', 'SecioError', rules=[('openssl :: error :: ErrorStack', 'ErrorStack')])
    u.text(AEAD)
    u.impl('impl From<io::Error> for SecioError', ER, [Fn('impl From < io :: Error > for SecioError', 'from', props=['C15'], as_trait=True)])
    u.impl('impl From<ErrorStack> for SecioError', ER, [Fn('impl From < openssl :: error :: ErrorStack > for SecioError', 'from', props=['C12'], as_trait=True, rules=[('openssl :: error :: ErrorStack', 'ErrorStack')])])
    sz = lambda n, vals: Fn('impl CipherType', n, props=['C11', 'C12', 'C14'], ensures=['ret == %s' % vals])
    u.impl('impl CipherType', CC, [
        sz('key_size', 'keylen(self)'), sz('iv_size', '12'), sz('tag_size', '16')])
    u.text('pub open spec fn keylen(t: CipherType) -> usize { match t { CipherType::Aes128Gcm => 16, _ => 32 } }')
    C1 = ['C11', 'C12']
    u.fn(CM, Fn(None, 'nonce_advance', props=['C11'], ensures=['final(nonce)@.len() == old(nonce)@.len()', 'le(final(nonce)@) == (le(old(nonce)@) + 1) % p256(old(nonce)@.len())'],
        rules=[('for $idi in nonce { $blkb }', 'let mut k_ : usize = 0 ; while k_ < nonce . len ( ) { let c_ = k_ ; k_ += 1 ; let $idi = & mut nonce [ c_ ] ; $blkb }')],
        proof='let ghost n0 = nonce@;',
        loops=[Loop(invariant=['k_ <= nonce@.len()', 'nonce@.len() == n0.len()', 'n0 == old(nonce)@', 'forall|i: int| 0 <= i < k_ ==> n0[i] == 255', 'forall|i: int| 0 <= i < k_ ==> nonce@[i] == 0',
              'forall|i: int| #![trigger n0[i]] #![trigger nonce@[i]] k_ <= i < n0.len() ==> n0[i] == nonce@[i]'], decreases='nonce.len() - k_',
            start='proof { if nonce@[k_ as int] != 255 { let b = nonce@.update(k_ as int, (nonce@[k_ as int] + 1) as u8); lemma_le_step(n0, b, k_ as int); lemma_le_bound(b); vstd::arithmetic::div_mod::lemma_small_mod(le(b), p256(n0.len())); } }',
            after='proof { lemma_le_max(n0); lemma_le_zero(nonce@); }')]))
    FILL = ('unsafe { nonce . set_len ( $n ) ; $optp write_bytes ( nonce . as_mut_ptr ( ) , $v , $n ) ; }', 'bm_filled ( & mut nonce , $v , $n ) ;')
    zero = 'broadcast use axiom_seal_len; assert(forall|s: Seq<u8>| (forall|i: int| 0 <= i < s.len() ==> s[i] == 0) ==> le(s) == 0) by { assert forall|s: Seq<u8>| (forall|i: int| 0 <= i < s.len() ==> s[i] == 0) implies le(s) == 0 by { lemma_le_zero(s); } }'
    u.item(OS, 'struct', 'OpenSSLCrypt')
    fresh = lambda: ['ret.inv()', (['C11'], 'le(ret.iv()) == 0'), 'ret.k() == key@', 'ret.t() == cipher_type']
    encE = ['final(self).inv()', 'final(self).t() == old(self).t()', 'final(self).k() == old(self).k()', (['C11'], 'le(final(self).iv()) == (le(old(self).iv()) + 1) % p256(12)'),
            (['C11', 'C12'], 'ret is Ok ==> ret->Ok_0@ == seal(old(self).t(), old(self).k(), final(self).iv(), input@)')]
    decE = ['final(self).inv()', 'final(self).t() == old(self).t()', 'final(self).k() == old(self).k()', (['C11'], 'le(final(self).iv()) == (le(old(self).iv()) + 1) % p256(12) || (ret is Err && final(self).iv() == old(self).iv())'),
            (['C11', 'C12'], 'ret is Ok ==> input@ == seal(old(self).t(), old(self).k(), final(self).iv(), ret->Ok_0@)'),
            (['C12'], 'ret is Err ==> forall|n: Seq<u8>| n.len() == 12 && le(n) == (le(old(self).iv()) + 1) % p256(12) ==> !is_seal(old(self).t(), old(self).k(), n, input@)')]
    BIG = 'input@.len() < 0x7fff_ffff_ffff_ffff'
    inj = 'broadcast use axiom_seal_len; assert(forall|a: Seq<u8>, b: Seq<u8>| a.len() == b.len() && #[trigger] le(a) == #[trigger] le(b) ==> a == b) by { assert forall|a: Seq<u8>, b: Seq<u8>| a.len() == b.len() && #[trigger] le(a) == #[trigger] le(b) implies a == b by { nonce_of_counter(a, b); } }'
    osr = [('& self . key', 'self . key . as_slice ( )'), ('Some ( & self . iv )', 'Some ( self . iv . as_slice ( ) )'), ('openssl :: symm ::', 'symm ::'),
           ('Vec :: with_capacity ( $n )', 'vec_with_capacity ( $n )'), ('unsafe { $idv . set_len ( $n ) ; }', 'vec_set_len ( & mut $idv , $n ) ;'),
           ('. map_err ( Into :: into )', '. map_err ( | e | -> ( r : SecioError ) { SecioError :: from ( e ) } )')]
    u.impl('impl OpenSSLCrypt', OS, [
        Fn('impl OpenSSLCrypt', 'new', props=C1, requires=['key@.len() == keylen(cipher_type)'], ensures=fresh() + ['ret.sealing() && ret.opening() && !ret.in_place()'], rules=[FILL, ('Bytes :: from ( key . to_owned ( ) )', 'Bytes :: from ( to_vec_u8 ( key ) )'), ('_ => panic ! ( $x ) ,', '')], proof=zero),
        Fn('impl OpenSSLCrypt', 'encrypt', props=C1, requires=['old(self).inv()', BIG], ensures=encE, rules=osr, proof=inj),
        Fn('impl OpenSSLCrypt', 'decrypt', props=C1, requires=['old(self).inv()', BIG], ensures=decE, rules=osr, proof=inj + 'assert(input@.len() >= 16 ==> input@ =~= input@.subrange(0, input@.len() - 16) + input@.subrange(input@.len() - 16, input@.len() as int));'),
    ])
    u.text('''impl StreamCipher for OpenSSLCrypt {
  open spec fn t(&self) -> CipherType { self.cipher_type }
  open spec fn k(&self) -> Seq<u8> { self.key@ }
  open spec fn iv(&self) -> Seq<u8> { self.iv@ }
  open spec fn inv(&self) -> bool { self.iv@.len() == 12 && self.cipher.t() == self.cipher_type && self.key@.len() == keylen(self.cipher_type) }
  open spec fn in_place(&self) -> bool { false }
  open spec fn sealing(&self) -> bool { true }
  open spec fn opening(&self) -> bool { true }
  fn is_in_place(&self) -> bool { false }
  fn decrypt_in_place(&mut self, input: &mut BytesMut) -> Result<(), SecioError> { Err(SecioError::InvalidProposition("")) }''')
    for n in ('encrypt', 'decrypt'):
        u.fn(OS, Fn('impl StreamCipher for OpenSSLCrypt', n, props=C1, as_trait=True))
    u.text('}')
    # ---- ring
    u.text('pub struct RingNonce(pub BytesMut);' + RING)
    u.item(RI, 'enum', 'RingAeadCryptoVariant', rules=[('SealingKey < RingNonce >', 'SealingKey'), ('OpeningKey < RingNonce >', 'OpeningKey')])
    u.item(RI, 'struct', 'RingAeadCipher')
    u.impl('impl RingNonce', RI, [Fn('impl NonceSequence for RingNonce', 'advance', props=C1, requires=['old(self).0@.len() == 12'],
        ensures=['final(self).0@.len() == 12', (['C11'], 'le(final(self).0@) == (le(old(self).0@) + 1) % p256(12)'), (['C11'], 'ret is Ok && ret->Ok_0@ == final(self).0@')],
        rules=[('( & self . 0 )', '( self . 0 . as_slice ( ) )')])])
    rr = [FILL, ('& AES_128_GCM', 'alg ( CipherType :: Aes128Gcm )'), ('& AES_256_GCM', 'alg ( CipherType :: Aes256Gcm )'), ('& CHACHA20_POLY1305', 'alg ( CipherType :: ChaCha20Poly1305 )'),
          ('UnboundKey :: new ( $a ) . unwrap ( )', 'UnboundKey :: new_unwrap ( $a )'),
          ('Vec :: with_capacity ( $n )', 'vec_with_capacity ( $n )'), ('unsafe { $idv . set_len ( $n ) ; }', 'vec_set_len ( & mut $idv , $n ) ;'),
          ('. map_err :: < SecioError , _ > ( Into :: into )', '. map_err ( | e | -> ( r : SecioError ) { SecioError :: from ( e ) } )'),
          ('unreachable ! ( $x )', '{ assert ( false ) ; return Err ( SecioError :: RingCryptoError ) }')]
    u.impl('impl RingAeadCipher', RI, [
        Fn('impl RingAeadCipher', 'new', props=C1, requires=['key@.len() == keylen(cipher_type)'], ensures=fresh() + ['mode == CryptoMode::Encrypt ==> ret.sealing()', 'mode == CryptoMode::Decrypt ==> ret.opening()'], rules=rr, proof=zero),
        Fn('impl RingAeadCipher', 'encrypt', props=C1, requires=['old(self).inv()', 'old(self).sealing()', BIG], ensures=encE + ['final(self).sealing()'], rules=rr, proof=inj),
        Fn('impl RingAeadCipher', 'decrypt', props=C1, requires=['old(self).inv()', 'old(self).opening()', BIG], ensures=decE + ['final(self).opening()'], rules=rr, proof=inj),
        Fn('impl RingAeadCipher', 'decrypt_in_place', props=C1, requires=['old(self).inv()', 'old(self).opening()', 'old(input)@.len() < 0x7fff_ffff_ffff_ffff'], ensures=[e if isinstance(e, str) else (e[0], e[1].replace('input@ == seal(old(self).t(), old(self).k(), final(self).iv(), ret->Ok_0@)', 'old(input)@ == seal(old(self).t(), old(self).k(), final(self).iv(), final(input)@)').replace('n, input@)', 'n, old(input)@)')) for e in decE] + ['final(self).opening()'], rules=rr, proof=inj),
    ])
    u.text('''impl StreamCipher for RingAeadCipher {
  open spec fn t(&self) -> CipherType { self.cipher_type }
  open spec fn k(&self) -> Seq<u8> { match self.cipher { RingAeadCryptoVariant::Seal(c) => c.k(), RingAeadCryptoVariant::Open(c) => c.k() } }
  open spec fn iv(&self) -> Seq<u8> { match self.cipher { RingAeadCryptoVariant::Seal(c) => c.iv(), RingAeadCryptoVariant::Open(c) => c.iv() } }
  open spec fn inv(&self) -> bool { self.iv().len() == 12 && self.k().len() == keylen(self.cipher_type) && (match self.cipher { RingAeadCryptoVariant::Seal(c) => c.t(), RingAeadCryptoVariant::Open(c) => c.t() }) == self.cipher_type }
  open spec fn in_place(&self) -> bool { true }
  open spec fn sealing(&self) -> bool { self.cipher is Seal }
  open spec fn opening(&self) -> bool { self.cipher is Open }''')
    for n in ('encrypt', 'decrypt', 'is_in_place', 'decrypt_in_place'):
        u.fn(RI, Fn('impl StreamCipher for RingAeadCipher', n, props=C1, as_trait=True, rules=[('matches ! ( self . cipher , RingAeadCryptoVariant :: Open ( _ ) )', 'match self . cipher { RingAeadCryptoVariant :: Open ( _ ) => true , _ => false }')]))
    u.text('}')
    # ---- wasm
    u.text(WASM)
    u.item(WA, 'struct', 'WasmCrypt')
    wr = [FILL, ('ChaCha20Poly1305 :: new ( Key :: from_slice ( key ) )', 'ChaCha20Poly1305 :: new_from_slice ( key )'), ('Nonce :: from_slice ( self . iv . as_ref ( ) )', 'self . iv . as_slice ( )'),
          ('. map_err ( | _ | $e )', '. map_err ( | _e | -> ( r : SecioError ) ensures r == $e { $e } )'), ('_ => panic ! ( $x ) ,', '_ => { assert ( false ) ; vstd :: pervasive :: unreached ( ) }')]
    u.impl('impl WasmCrypt', WA, [
        Fn('impl WasmCrypt', 'new', props=C1, requires=['key@.len() == keylen(cipher_type)', 'cipher_type == CipherType::ChaCha20Poly1305'], ensures=fresh(), rules=wr, proof=zero),
        Fn('impl WasmCrypt', 'encrypt', props=C1, requires=['old(self).inv()', BIG], ensures=encE, rules=wr, proof=inj),
        Fn('impl WasmCrypt', 'decrypt', props=C1, requires=['old(self).inv()', BIG], ensures=decE, rules=wr, proof=inj),
    ])
    u.text('''impl StreamCipher for WasmCrypt {
  open spec fn t(&self) -> CipherType { self._cipher_type }
  open spec fn k(&self) -> Seq<u8> { self.cipher.k() }
  open spec fn iv(&self) -> Seq<u8> { self.iv@ }
  open spec fn inv(&self) -> bool { self.iv@.len() == 12 && self._cipher_type == CipherType::ChaCha20Poly1305 }
  open spec fn in_place(&self) -> bool { false }
  open spec fn sealing(&self) -> bool { true }
  open spec fn opening(&self) -> bool { true }
  fn is_in_place(&self) -> bool { false }
  fn decrypt_in_place(&mut self, input: &mut BytesMut) -> Result<(), SecioError> { Err(SecioError::InvalidProposition("")) }''')
    for n in ('encrypt', 'decrypt'):
        u.fn(WA, Fn('impl StreamCipher for WasmCrypt', n, props=C1, as_trait=True))
    u.text('}')
    # ---- secure stream
    u.item(SS, 'enum', 'RecvBuf')
    u.item(SS, 'struct', 'SecureStream', rules=[('SecureStream < T >', 'SecureStream'), ('Framed < T , LengthDelimitedCodec >', 'Framed')])
    u.text(STREAM)
    u.impl('impl RecvBuf', SS, [
        Fn('impl RecvBuf', 'drain_to', props=['C12'], requires=['size <= old(self)@.len()', 'size <= old(buf)@.len()'],
           ensures=['final(buf)@.len() == old(buf)@.len()', 'final(buf)@.subrange(0, size as int) == old(self)@.subrange(0, size as int)', 'final(self)@ == old(self)@.subrange(size as int, old(self)@.len() as int)'],
           rules=[('b . drain ( .. $n ) . as_slice ( )', 'vec_drain_front ( b , $n ) . as_slice ( )'), ('& b [ .. $n ]', '& b . as_slice ( ) [ .. $n ]')],
           tail='proof { assert(buf@.subrange(0, size as int) =~= old(self)@.subrange(0, size as int)); }'),
        Fn('impl RecvBuf', 'len', props=['C12'], ensures=['ret == self@.len()']),
        Fn('impl RecvBuf', 'is_empty', props=['C12'], ensures=['ret == (self@.len() == 0)']),
        Fn(r'impl AsRef < \[ u8 \] > for RecvBuf', 'as_ref', props=['C12'], ensures=['ret@ == self@'], rules=[('b . as_ref ( )', 'b . as_slice ( )')]),
    ])
    SI = r'impl < T > SecureStream < T > where T : AsyncRead \+ AsyncWrite \+ Unpin ,'
    AR = r'impl < T > AsyncRead for SecureStream < T > where T : AsyncRead \+ AsyncWrite \+ Unpin ,'
    AW = r'impl < T > AsyncWrite for SecureStream < T > where T : AsyncRead \+ AsyncWrite \+ Unpin ,'
    CX = ('Context < \'_ >', 'Context')
    enc1 = 'final(self).socket.wr() == old(self).socket.wr().push(final(self).socket.wr().last())'
    u.impl('impl SecureStream', SS, [
        Fn(SI, 'new', props=['C12', 'C15', 'C14'], rules=[('Framed < T , LengthDelimitedCodec >', 'Framed')], requires=['decode_cipher.inv()', 'encode_cipher.inv()', 'decode_cipher.opening()', 'encode_cipher.sealing()'],
           ensures=['ret.inv()', 'ret.socket == socket', 'ret.recv_buf@.len() == 0', 'ret.nonce == nonce', 'ret.decode_cipher == decode_cipher', 'ret.encode_cipher == encode_cipher'], 
           ),
        Fn(SI, 'decode_buffer', props=['C12'], requires=['old(self).inv()', 'frame@.len() < 0x7fff_ffff_ffff_ffff'],
           ensures=['final(self).inv()', '*final(self) == (SecureStream { decode_cipher: final(self).decode_cipher, ..*old(self) })', 'final(self).same_keys(*old(self))', (['C12'], 'final(self).decode_cipher.iv().len() == 12'),
             (['C12'], 'ret is Ok ==> frame@ == seal(old(self).dk().0, old(self).dk().1, final(self).decode_cipher.iv(), ret->Ok_0@) && le(final(self).decode_cipher.iv()) == (le(old(self).decode_cipher.iv()) + 1) % p256(12)'),
             (['C12'], 'ret is Err ==> forall|n: Seq<u8>| n.len() == 12 && le(n) == (le(old(self).decode_cipher.iv()) + 1) % p256(12) ==> !is_seal(old(self).dk().0, old(self).dk().1, n, frame@)')],
           sig='pub fn decode_buffer(&mut self, frame: BytesMut) -> (ret: Result<RecvBuf, SecioError>)', proof='let ghost fr0 = frame@; let mut frame = frame; broadcast use axiom_box_inv;', rules=[('decrypt ( & frame )', 'decrypt ( frame . as_slice ( ) )')]),
        Fn(SI, 'drain', props=['C12'],
           ensures=['*final(self) == (SecureStream { recv_buf: final(self).recv_buf, ..*old(self) })', 'final(buf)@.len() == old(buf)@.len()',
             (['C12'], 'ret == (if old(buf)@.len() <= old(self).recv_buf@.len() { old(buf)@.len() } else { old(self).recv_buf@.len() })'),
             (['C12'], 'old(self).recv_buf@ =~= final(buf)@.subrange(0, ret as int) + final(self).recv_buf@')]),
        Fn(SI, 'encode_buffer', props=['C12', 'C11'], requires=['old(self).inv()', 'buf@.len() < 0x7fff_ffff_ffff_ffff'],
           ensures=['final(self).inv()', '*final(self) == (SecureStream { encode_cipher: final(self).encode_cipher, ..*old(self) })', 'final(self).same_keys(*old(self))', 'le(final(self).encode_cipher.iv()) == (le(old(self).encode_cipher.iv()) + 1) % p256(12)',
             'ret@ == seal(old(self).ek().0, old(self).ek().1, final(self).encode_cipher.iv(), buf@)'],
           rules=[('self . encode_cipher . encrypt ( $b ) . unwrap ( )', 'unwrap_sealed ( self . encode_cipher . encrypt ( $b ) )')]),
        Fn(AR, 'poll_read', props=['C12', 'C15'], requires=['old(self).inv()'], rules=[CX,
             ('let decoded = self . decode_buffer ( t ) . map_err :: < io :: Error , _ > ( | err | err . into ( ) ) ? ;', 'let decoded = match self . decode_buffer ( t ) { Ok ( d ) => d , Err ( err ) => return Poll :: Ready ( Err ( io_of ( err ) ) ) } ;')],
           ensures=['final(self).inv()', '*final(self) == (SecureStream { socket: final(self).socket, decode_cipher: final(self).decode_cipher, recv_buf: final(self).recv_buf, ..*old(self) })', 'final(self).same_keys(*old(self))', 'final(self).socket.wr() == old(self).socket.wr()', 'final(buf)@.len() == old(buf)@.len()',
             (['C12', 'C15'], 'match ret { Poll::Ready(Ok(n)) => n <= old(buf)@.len() && final(self).moved(*old(self), final(buf)@.subrange(0, n as int)) && (final(self).socket.rd() != old(self).socket.rd() ==> le(final(self).decode_cipher.iv()) == (le(old(self).decode_cipher.iv()) + 1) % p256(12)), _ => true }'),
             (['C12'], 'match ret { Poll::Pending => final(self).moved(*old(self), Seq::<u8>::empty()), _ => true }'),
             (['C12'], 'old(self).recv_buf@.len() > 0 && old(buf)@.len() > 0 ==> (match ret { Poll::Ready(Ok(n)) => n > 0, _ => false })'),
           ],
           proof='''broadcast use axiom_box_inv;
             proof { let k = self.dk(); let c = le(self.decode_cipher.iv()); let r0 = self.socket.rd(); let b0 = self.recv_buf@;
               lemma_opens_none(k.0, k.1, c, Seq::<Seq<u8>>::empty());
               assert(r0.subrange(r0.len() as int, r0.len() as int) =~= Seq::<Seq<u8>>::empty()); assert(r0.subrange(0, r0.len() as int) =~= r0);
               assert(b0 + Seq::<u8>::empty() =~= b0); assert(Seq::<u8>::empty() + b0 =~= b0);
               assert forall|n: Seq<u8>, m: Seq<u8>| #![trigger seal(k.0, k.1, n, m)] n.len() == 12 && le(n) == (c + 1) % p256(12) implies opens(k.0, k.1, c, seq![seal(k.0, k.1, n, m)], m) by { lemma_opens_one(k.0, k.1, c, seal(k.0, k.1, n, m), n, m); }
               assert forall|f: Seq<u8>| #![trigger r0.push(f)] r0.push(f).subrange(r0.len() as int, r0.len() as int + 1) =~= seq![f] && r0.push(f).subrange(0, r0.len() as int) =~= r0 && r0.push(f) != r0 by { assert(r0.push(f).len() == r0.len() + 1); }
             }'''),
        Fn(AW, 'poll_write', props=['C12', 'C11'], requires=['old(self).inv()', 'buf@.len() < 0x7fff_ffff_ffff_ffff'], rules=[CX,
             ('self . socket . start_send_unpin ( frame ) ? ;', 'match self . socket . start_send_unpin ( frame ) { Ok ( _ ) => ( ) , Err ( e ) => return Poll :: Ready ( Err ( e ) ) }'),
             ('let _ignore = self . socket . poll_flush_unpin ( cx ) ? ;', 'match self . socket . poll_flush_unpin ( cx ) { Poll :: Ready ( Err ( e ) ) => return Poll :: Ready ( Err ( e ) ) , _ => ( ) }')],
           ensures=['final(self).inv()', '*final(self) == (SecureStream { socket: final(self).socket, encode_cipher: final(self).encode_cipher, ..*old(self) })', 'final(self).same_keys(*old(self))', 'final(self).socket.rd() == old(self).socket.rd()',
             (['C12'], 'match ret { Poll::Ready(Ok(n)) => n == buf@.len(), _ => true }'),
             (['C12'], 'match ret { Poll::Ready(Ok(n)) => n > 0 ==> %s && le(final(self).encode_cipher.iv()) == (le(old(self).encode_cipher.iv()) + 1) %% p256(12) && final(self).socket.wr().last() == seal(old(self).ek().0, old(self).ek().1, final(self).encode_cipher.iv(), buf@), _ => true }' % enc1),
             (['C12'], 'match ret { Poll::Ready(Ok(n)) => n == 0 ==> final(self).socket.wr() == old(self).socket.wr() && final(self).encode_cipher == old(self).encode_cipher, _ => true }'),
             (['C12'], 'match ret { Poll::Pending => final(self).socket.wr() == old(self).socket.wr() && final(self).encode_cipher == old(self).encode_cipher, _ => true }'),
           ], proof='broadcast use axiom_box_inv;'),
        Fn(AW, 'poll_flush', props=['C12'], ensures=['*final(self) == (SecureStream { socket: final(self).socket, ..*old(self) })', 'final(self).socket.rd() == old(self).socket.rd()', 'final(self).socket.wr() == old(self).socket.wr()'], rules=[CX]),
        Fn(AW, 'poll_shutdown', props=['C12'], ensures=['*final(self) == (SecureStream { socket: final(self).socket, ..*old(self) })', 'final(self).socket.rd() == old(self).socket.rd()', 'final(self).socket.wr() == old(self).socket.wr()'], rules=[CX]),
    ])
    # ---- negotiation
    SUP = ('select_agreement', 'known_agreement()', 'assert(ECDH_P256@[2] != ECDH_P384@[2]); assert(ECDH_P256@.len() != X25519@.len() && ECDH_P384@.len() != X25519@.len());', ['P-256', 'P-384', 'X25519']), \
          ('select_digest', 'known_digest()', 'assert(SHA_256@[3] != SHA_512@[3]);', ['SHA256', 'SHA512']), \
          ('select_cipher', 'known_cipher()', 'assert(AES_128_GCM@[4] != AES_256_GCM@[4]); assert(AES_128_GCM@.len() != CHACHA20_POLY1305@.len() && AES_256_GCM@.len() != CHACHA20_POLY1305@.len());', ['AES-128-GCM', 'AES-256-GCM', 'CHACHA20_POLY1305'])
    u.text('use core::cmp::Ordering; use std::cmp::min;')
    for c in ('ECDH_P256', 'ECDH_P384', 'X25519', 'AES_128_GCM', 'AES_256_GCM', 'CHACHA20_POLY1305', 'SHA_256', 'SHA_512', 'DEFAULT_AGREEMENTS_PROPOSITION', 'DEFAULT_CIPHERS_PROPOSITION', 'DEFAULT_DIGESTS_PROPOSITION'):
        u.item(SU, 'const', c, rules=[('& str', "& 'static str")])
    u.text(NEG)
    for n, known, dist, lits in SUP:
        u.fn(SU, Fn(None, n, props=['C13', 'C14'], ensures=[(['C13'], 'match ret { Ok(k) => chosen(r, ours@, theirs@, %s) == Some(k), Err(_) => chosen(r, ours@, theirs@, %s) is None }' % (known, known))],
            rules=[("for $idx in $ida . split ( ',' ) { $blkb }", "let s_ = split_commas ( $ida ) ; let mut k_ : usize = 0 ; while k_ < s_ . len ( ) { let $idx = s_ [ k_ ] ; k_ += 1 ; $blkb }"),
                   ("$idb . split ( ',' ) . any ( | $idy | $idx == $idy )", 'any_entry ( $idb , $idx )')],
            proof='proof { ' + ' '.join('reveal_strlit("%s");' % l for l in lits) + dist + ' }\nlet ghost pa = if r == Ordering::Greater { commas(ours@) } else { commas(theirs@) }; let ghost pb = if r == Ordering::Greater { commas(theirs@) } else { commas(ours@) };\nproof { assert(pa.subrange(0, pa.len() as int) =~= pa); }',
            loops=[Loop(invariant=['k_ <= s_@.len()', 's_@.len() == pa.len()', 'forall|i: int| 0 <= i < pa.len() ==> (#[trigger] s_@[i])@ == pa[i]', 'commas(b@) == pb',
                    (['C13'], 'pick(pa, pb, %s) == pick(pa.subrange(k_ as int, pa.len() as int), pb, %s)' % (known, known)),
                    'pick(pa, pb, %s) == chosen(r, ours@, theirs@, %s)' % (known, known)] + (
                    {'known_agreement()': ['ECDH_P256@ != ECDH_P384@', 'ECDH_P256@ != X25519@', 'ECDH_P384@ != X25519@'], 'known_digest()': ['SHA_256@ != SHA_512@'], 'known_cipher()': ['AES_128_GCM@ != AES_256_GCM@', 'AES_128_GCM@ != CHACHA20_POLY1305@', 'AES_256_GCM@ != CHACHA20_POLY1305@']}[known]),
                decreases='s_.len() - k_',
                start='broadcast use axiom_str_ext; proof { let t = pa.subrange(k_ as int, pa.len() as int); assert(t.drop_first() =~= pa.subrange(k_ + 1, pa.len() as int)); assert(t[0] == pa[k_ as int]); }')]))
    # the texts that Config::key_agreements, ciphers and digests put together from the values they are given
    for fn, ty, nm, lits in (('key_agreements_proposition', 'KeyAgreement', {'EcdhP256': 'ECDH_P256', 'EcdhP384': 'ECDH_P384', 'X25519': 'X25519'}, SUP[0][3]), ('digests_proposition', 'Digest', {'Sha256': 'SHA_256', 'Sha512': 'SHA_512'}, SUP[1][3]), ('ciphers_proposition', 'CipherType', {'Aes128Gcm': 'AES_128_GCM', 'Aes256Gcm': 'AES_256_GCM', 'ChaCha20Poly1305': 'CHACHA20_POLY1305'}, SUP[2][3])):
        u.text('pub open spec fn name_%s(k: %s) -> Seq<char> { match k { %s } }\npub open spec fn names_%s(s: Seq<%s>) -> Seq<Seq<char>> { s.map_values(|k: %s| name_%s(k)) }' % (ty, ty, ', '.join('%s::%s => %s@' % (ty, k, v) for k, v in nm.items()), ty, ty, ty, ty))
        u.fn(SU, Fn(None, fn, props=['C13'], sig='pub fn %s(xs: &[%s]) -> (ret: String)' % (fn, ty), ensures=[(['C13'], 'xs@.len() > 0 ==> commas(ret@) == names_%s(xs@)' % ty), (['C13'], 'xs@.len() == 0 ==> ret@.len() == 0')],
            rules=[('String :: new ( )', 'string_new ( )'), ('$ids . push_str ( $x )', 'push_text ( & mut $ids , $x )'), ('$ids . push ( $x )', 'push_char ( & mut $ids , $x )'), ('$ids . pop ( )', 'pop_char ( & mut $ids )'), ('for $idx in $ida { $blkb }', 'let mut k_ : usize = 0 ; while k_ < xs . len ( ) { let $idx = & xs [ k_ ] ; k_ += 1 ; $blkb }')],
            proof='proof { %s %s assert(forall|i: int| 0 <= i < xs@.len() ==> !(#[trigger] names_%s(xs@)[i]).contains(\',\')); assert(names_%s(xs@).subrange(0, xs@.len() as int) =~= names_%s(xs@)); assert(names_%s(xs@).subrange(0, 0).len() == 0); if xs@.len() > 0 { listed_back(names_%s(xs@)); } }' % ((' '.join('reveal_strlit("%s");' % l for l in lits), ' '.join("assert(!%s@.contains(','));" % v for v in nm.values())) + (ty,) * 5),
            loops=[Loop(invariant=['k_ <= xs@.len()', (['C13'], 's@ =~= listed(names_%s(xs@).subrange(0, k_ as int))' % ty)], decreases='xs@.len() - k_',
                start='proof { let n = names_%s(xs@).subrange(0, k_ + 1); assert(n.drop_last() =~= names_%s(xs@).subrange(0, k_ as int)); assert(n.last() == name_%s(xs@[k_ as int])); }' % (ty, ty, ty))]))
    # ---- hashes
    u.text(HASH + 'pub mod sha256_compat { use super::*; pub struct Context(pub ring::digest::Context);')
    SN = S + 'sha256_compat/native.rs'
    u.text('impl Context { pub open spec fn view(&self) -> Seq<u8> { self.0@ } pub open spec fn ok(&self) -> bool { self.0.alg() == 256 } }')
    HK = ['C13', 'C14', 'C15', 'C16']
    u.impl('impl Context', SN, [
        Fn('impl Context', 'new', props=HK, ensures=['ret.ok()', 'ret@ == Seq::<u8>::empty()'], proof='broadcast use axiom_hash_len;', rules=[('Context ( $x )', '{ let c_ = $x ; proof { assert(c_@ =~= Seq::<u8>::empty()); } Context ( c_ ) }')]),
        Fn('impl Context', 'update', props=HK, requires=['old(self).ok()'], ensures=['final(self).ok()', 'final(self)@ == old(self)@ + data@']),
        Fn('impl Context', 'finish', props=HK, requires=['self.ok()'], ensures=['ret@ == super::sha256(self@)'])])
    u.fn(SN, Fn(None, 'sha256', props=HK, ensures=['ret@ == super::sha256(data@)'], rules=[('& data', 'data')]))
    u.text('}')
    SC = S + 'secp256k1_compat/mod.rs'
    u.text('pub mod secp256k1_compat { use super::*; pub use super::secp256k1::{Message, PublicKey, SecretKey, Signature, sig_ok, pk_of, axiom_pk_len};')
    SK = ['C15', 'C13', 'C16']
    for f, ens in (('from_secret_key', 'ret@ == pk_of(*secret)'), ('serialize_pubkey', 'ret@ == pubkey@'), ('signature_to_vec', 'ret@ == signature@'), ('sign', 'sig_ok(message@, ret@, pk_of(*secret)) && ret@.len() <= 72'),
                   ('verify', 'ret == sig_ok(message@, signature@, pubkey@)'), ('pubkey_from_slice', 'ret is Ok ==> ret->Ok_0@ == key@'), ('message_from_slice', 'ret is Ok ==> ret->Ok_0@ == msg@'), ('signature_from_der', 'ret is Ok ==> ret->Ok_0@ == data@')):
        u.fn(SC, Fn(None, f, props=SK, ensures=[(SK, ens)]))
    u.text('}')
    DN = S + 'dh_compat/native.rs'
    u.text('pub mod dh_compat { use super::*; use super::ring_agreement as agreement; use super::ring_agreement as ring_rand; pub use super::ring_agreement::{EphemeralPrivateKey, dh, dh_pub, axiom_dh};')
    DK = ['C14', 'C15']
    u.impl('impl KeyAgreement', DN, [Fn(r"impl Into < & 'static agreement :: Algorithm > for KeyAgreement", 'into', props=DK, ensures=[(DK, 'ret.id == self')])])
    u.fn(DN, Fn(None, 'generate_agreement', props=DK, ensures=[(DK, 'ret is Ok ==> ret->Ok_0.0.alg() == algorithm && ret->Ok_0.1@ == dh_pub(algorithm, ret->Ok_0.0) && ret->Ok_0.1@.len() <= 97')],
        rules=[('. map_err ( | _ | $x ) ?', '. map_err ( | _e : agreement :: Unspecified | -> ( r : SecioError ) { $x } ) ?'), ('$ida . as_ref ( ) . to_vec ( )', 'to_vec_u8 ( $ida . as_ref ( ) )')]))
    u.fn(DN, Fn(None, 'agree', props=DK, ensures=[(DK, 'ret is Ok ==> ret->Ok_0@ == dh(algorithm, my_private_key, other_public_key@)')],
        rules=[('| $ida | Ok ( $ida . to_vec ( ) )', '| $ida : & [ u8 ] | -> ( r_ : Result < Vec < u8 > , SecioError > ) ensures r_ is Ok && r_->Ok_0@ == $ida @ { Ok ( to_vec_u8 ( $ida ) ) }')]))
    u.text('}')
    HN = S + 'codec/hmac_compat/native.rs'
    u.item(HN, 'struct', 'Hmac')
    u.text('pub open spec fn dig_id(d: Digest) -> int { match d { Digest::Sha256 => 256, Digest::Sha512 => 512 } }')
    u.impl('impl Hmac', HN, [
        Fn('impl Hmac', 'from_key', props=['C14'], ensures=['ret.0.alg() == dig_id(algorithm)', 'ret.0.k() == key@']),
        Fn('impl Hmac', 'context', props=['C14'], ensures=['ret.alg() == self.0.alg()', 'ret.k() == self.0.k()', 'ret@.len() == 0'])])
    # ---- handshake context
    u.item(LB, 'struct', 'SecioKeyPair'); u.item(LB, 'enum', 'KeyPairInner')
    u.item(HM, 'const', 'MAX_FRAME_SIZE'); u.item(HM, 'struct', 'Config')
    u.item(HS, 'struct', 'Propose'); u.item(HS, 'struct', 'Exchange'); u.item(HS, 'enum', 'PublicKey')
    for n in ('HandshakeContext', 'Local', 'Remote', 'Ephemeral', 'PubEphemeral'):
        u.item(HC, 'struct', n)
    u.text(HAND)
    u.impl('impl PublicKey', HS, [
        Fn('impl PublicKey', 'inner_ref', props=['C15', 'C13', 'C16'], ensures=['ret@ == self@']),
        Fn('impl PublicKey', 'inner', props=['C15', 'C13'], ensures=['ret@ == self@'])])
    u.impl('impl SecioKeyPair', LB, [Fn('impl SecioKeyPair', 'public_key', props=['C15', 'C13', 'C16'], ensures=['ret@ == self.pk()'])])
    CFG = ('key', 'agreements_proposal', 'ciphers_proposal', 'digests_proposal', 'max_frame_length')
    keepc = lambda *ch: ['ret.%s == self.%s' % (f, f) for f in CFG if f not in ch]
    prop = [('support :: $idf ( xs )', '$idf ( xs )')]
    one = lambda n, ty, f: Fn('impl Config', n, props=['C13'], sig='pub fn %s(mut self, xs: &[%s]) -> (ret: Self)' % (n, ty), rules=prop, ensures=[(['C13'], e) for e in keepc(f) + ['ret.%s is Some' % f, 'xs@.len() > 0 ==> commas(ret.%s->Some_0@) == names_%s(xs@)' % (f, ty)]])
    u.impl('impl Config', HM, [
        Fn('impl Config', 'new', props=['C13', 'C14', 'C15'], ensures=['ret.key == key_pair', 'ret.agreements_proposal is None && ret.ciphers_proposal is None && ret.digests_proposal is None']),
        one('key_agreements', 'KeyAgreement', 'agreements_proposal'), one('ciphers', 'CipherType', 'ciphers_proposal'), one('digests', 'Digest', 'digests_proposal'),
        Fn('impl Config', 'max_frame_length', props=['C13', 'C14', 'C15'], sig='pub fn max_frame_length(mut self, size: usize) -> (ret: Self)', ensures=keepc('max_frame_length') + ['ret.max_frame_length == size'])])
    HX = ['C13', 'C14', 'C15']
    sup = [('support :: DEFAULT_AGREEMENTS_PROPOSITION', 'DEFAULT_AGREEMENTS_PROPOSITION'), ('support :: DEFAULT_CIPHERS_PROPOSITION', 'DEFAULT_CIPHERS_PROPOSITION'), ('support :: DEFAULT_DIGESTS_PROPOSITION', 'DEFAULT_DIGESTS_PROPOSITION'),
           ('support :: select_agreement', 'select_agreement'), ('support :: select_cipher', 'select_cipher'), ('support :: select_digest', 'select_digest')]
    u.impl('impl HandshakeContext<()>', HC, [
        Fn(r'impl HandshakeContext < \( \) >', 'new', props=HX, ensures=['ret.config == config']),
        Fn(r'impl HandshakeContext < \( \) >', 'with_local', props=HX, requires=['short(self.config)'], proof='broadcast use crate::secp256k1_compat::axiom_pk_len; proof { pk_len(self.config.key.pk()); }', ensures=['ret.config == self.config', (['C15', 'C13'], 'ret.ok()')],
           rules=sup + [('rand :: thread_rng ( ) . fill_bytes ( & mut nonce )', 'fill_random ( & mut nonce )'), ('nonce . to_vec ( )', 'arr_to_vec ( & nonce )'), ('let mut nonce = [ 0 ; 16 ] ;', 'let mut nonce : [ u8 ; 16 ] = [ 0 ; 16 ] ;'),
                  ('self . config . $ida . clone ( ) . unwrap_or_else ( || $x . into ( ) )', 'offer_clone ( & self . config . $ida , $x )')])])
    u.impl('impl HandshakeContext<Local>', HC, [
        Fn('impl HandshakeContext < Local >', 'with_remote', props=HX, requires=['self.ok()'],
           ensures=['match ret { Ok(c) => c.config == self.config && c.state.local == self.state && c.state.proposition_bytes == remote_bytes, Err(_) => true }', (['C13', 'C15'], 'match ret { Ok(c) => c.state.ok(self.config), Err(_) => true }')],
           rules=sup + [('Propose :: decode ( & $x )', 'Propose :: decode ( $x . as_slice ( ) )'), ('PublicKey :: decode ( & $x )', 'PublicKey :: decode ( $x . as_slice ( ) )'),
                  ('public_key . inner_ref ( ) == & self . state . public_key', 'vec_eq ( public_key . inner_ref ( ) , & self . state . public_key )'),
                  ('ctx . update ( public_key . inner_ref ( ) )', 'ctx . update ( public_key . inner_ref ( ) . as_slice ( ) )'), ('ctx . update ( & self . state . nonce )', 'ctx . update ( arr_slice ( & self . state . nonce ) )'),
                  ('ctx . update ( & self . state . public_key )', 'ctx . update ( self . state . public_key . as_slice ( ) )'), ('ctx . update ( & nonce )', 'ctx . update ( nonce . as_slice ( ) )'),
                  ('AsRef :: < [ u8 ] > :: as_ref ( & $ida ) . cmp ( & AsRef :: < [ u8 ] > :: as_ref ( & $idb ) )', 'cmp_bytes ( $ida . as_ref ( ) , $idb . as_ref ( ) )'),
                  ('self . config . $ida . as_ref ( ) . map ( AsRef :: as_ref ) . unwrap_or ( $x )', 'offer_ref ( & self . config . $ida , $x )'),
                  ('let theirs = & propose . $ida ;', 'let theirs = propose . $ida . as_str ( ) ;')],
           proof='proof { assert(forall|a: Seq<u8>| #[trigger] (Seq::<u8>::empty() + a) =~= a); }')])
    u.impl('impl HandshakeContext<Remote>', HC, [Fn('impl HandshakeContext < Remote >', 'with_ephemeral', props=HX, ensures=['ret.config == self.config', 'ret.state.remote == self.state', 'ret.state.local_tmp_priv_key == sk', 'ret.state.local_tmp_pub_key == pk'])])
    u.impl('impl HandshakeContext<Ephemeral>', HC, [Fn('impl HandshakeContext < Ephemeral >', 'take_private_key', props=HX, ensures=['ret.0.config == self.config', 'ret.0.state.remote == self.state.remote', 'ret.1 == self.state.local_tmp_priv_key', 'ret.0.state.local_tmp_pub_key == self.state.local_tmp_pub_key'])])
    # ---- keys
    u.fn(CM, Fn(None, 'new_stream', props=['C14', 'C11'], requires=['key@.len() == keylen(t)'], ensures=['ret.inv()', 'ret.t() == t', 'ret.k() == key@', 'ret.sealing() && ret.opening()', (['C11'], 'le(ret.iv()) == 0')],
         rules=[('cipher :: CipherType', 'CipherType'), ('Box :: new ( openssl_impl :: OpenSSLCrypt :: new ( t , key ) )', 'box_cipher ( OpenSSLCrypt :: new ( t , key ) )'), ('Box :: new ( $x )', 'box_cipher ( $x )')]))
    u.fn(HP, Fn(None, 'generate_stream_cipher_and_hmac', props=['C14'], requires=['info@.len() == 12 + keylen(t) + 20', 'key_size == keylen(t)', 'iv_size == 12'],
         ensures=['ret.inv() && ret.sealing() && ret.opening()', (['C14'], 'ret.t() == t && ret.k() == info@.subrange(12, 12 + keylen(t))'), (['C11'], 'le(ret.iv()) == 0')],
         proof='proof { assert(info@.subrange(12, info@.len() as int).subrange(0, keylen(t) as int) =~= info@.subrange(12, 12 + keylen(t))); }'))
    u.fn(HP, Fn(None, 'stretch_key', props=['C14'], ensures=['final(result)@.len() == old(result)@.len()', (['C14'], 'stretched(hmac, final(result)@)')],
         rules=[('const SEED : & [ u8 ] = $x ;', ''), ('SEED', 'seed_bytes ( )'), ('AsRef :: < [ u8 ] > :: as_ref ( & $idb )', '$idb . as_ref ( )')],
         proof='proof { assert(forall|a: Seq<u8>| #[trigger] (Seq::<u8>::empty() + a) =~= a); assert(forall|a: Seq<u8>| a.len() == 0 ==> #[trigger] (a + seed()) =~= seed()); assert(forall|a: Seq<u8>, b: Seq<u8>| a.len() == 0 ==> #[trigger] (a + b) =~= b); assert(st_cat(hmac, 0).subrange(0, 0) =~= Seq::<u8>::empty()); assert(result@.subrange(0, 0) =~= Seq::<u8>::empty()); }\nlet ghost mut i_: nat = 0;',
         loops=[Loop(invariant=['j <= result@.len()', 'result@.len() == old(result)@.len()', 'a@ == st_a(hmac, i_)', 'forall|a: Seq<u8>, b: Seq<u8>| a.len() == 0 ==> #[trigger] (a + b) == b',
               'j <= st_cat(hmac, i_).len()', 'j < result@.len() ==> j == st_cat(hmac, i_).len()', 'result@.subrange(0, j as int) == st_cat(hmac, i_).subrange(0, j as int)'], decreases='result.len() - j',
               start='let ghost r0 = result@; let ghost j0 = j;',
               end='''proof { let c = st_cat(hmac, i_); let b_ = st_b(hmac, i_); assert(st_cat(hmac, i_ + 1) == c + b_); 
                  assert forall|q: int| 0 <= q < j implies result@[q] == (c + b_)[q] by { if q < j0 { assert(result@[q] == r0[q]); assert(r0[q] == r0.subrange(0, j0 as int)[q]); assert(c.subrange(0, j0 as int)[q] == c[q]); } else { } }
                  assert(result@.subrange(0, j as int) =~= (c + b_).subrange(0, j as int)); i_ = i_ + 1; }''',
               after='proof { assert(result@.subrange(0, result@.len() as int) =~= result@); }')]))
    # ---- nonce echo and the handshake itself
    u.text('''impl SecureStream {
  // tokio's read_exact / read / write_all / flush: repeated calls of poll_read / poll_write / poll_flush above
  #[verifier::external_body]
  pub fn read_exact(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, io::Error>) requires old(self).inv()
    ensures final(self).inv(), final(self).same_keys(*old(self)), final(self).socket.wr() == old(self).socket.wr(), final(self).nonce == old(self).nonce, final(buf)@.len() == old(buf)@.len(), r is Ok ==> final(self).moved(*old(self), final(buf)@) { unimplemented!() }
  #[verifier::external_body]
  pub fn read(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, io::Error>) requires old(self).inv()
    ensures final(self).inv(), final(self).same_keys(*old(self)), final(self).socket.wr() == old(self).socket.wr(), final(self).nonce == old(self).nonce, final(buf)@.len() == old(buf)@.len(),
      r is Ok ==> r->Ok_0 <= old(buf)@.len() && final(self).moved(*old(self), final(buf)@.subrange(0, r->Ok_0 as int)) && final(buf)@.subrange(r->Ok_0 as int, old(buf)@.len() as int) == old(buf)@.subrange(r->Ok_0 as int, old(buf)@.len() as int) { unimplemented!() }
  #[verifier::external_body]
  pub fn write_all(&mut self, buf: &Vec<u8>) -> (r: Result<(), io::Error>) requires old(self).inv()
    ensures final(self).inv(), final(self).same_keys(*old(self)), *final(self) == (SecureStream { socket: final(self).socket, encode_cipher: final(self).encode_cipher, ..*old(self) }), final(self).socket.rd() == old(self).socket.rd(),
      final(self).socket.wr().len() >= old(self).socket.wr().len(), final(self).socket.wr().subrange(0, old(self).socket.wr().len() as int) == old(self).socket.wr() { unimplemented!() }
  #[verifier::external_body]
  pub fn flush(&mut self) -> (r: Result<(), io::Error>)
    ensures *final(self) == (SecureStream { socket: final(self).socket, ..*old(self) }), final(self).socket.rd() == old(self).socket.rd(), final(self).socket.wr() == old(self).socket.wr() { unimplemented!() }
}''')
    u.impl('impl SecureStream', SS, [
        Fn(SI, 'verify_nonce', props=['C15'], sig='pub fn verify_nonce(&mut self) -> (ret: Result<(), SecioError>)', requires=['old(self).inv()'],
           ensures=['final(self).inv()', 'final(self).same_keys(*old(self))', 'final(self).socket.wr() == old(self).socket.wr()', (['C15'], 'ret is Ok ==> final(self).moved(*old(self), old(self).nonce@)')],
           rules=[('. await', ''), ('self . nonce . clone ( )', 'clone_vec ( & self . nonce )'), ('nonce [ .. n ] != self . nonce [ .. n ]', '! slice_eq ( slice_to ( & nonce , n ) , slice_to ( & self . nonce , n ) )'),
                  ('self . nonce . drain ( .. $n )', 'vec_drop_front ( & mut self . nonce , $n )'), ('self . nonce . shrink_to_fit ( ) ;', '')],
           proof='''proof { let r0 = self.socket.rd(); let k = self.dk(); lemma_opens_none(k.0, k.1, le(self.decode_cipher.iv()), Seq::<Seq<u8>>::empty()); assert(r0.subrange(r0.len() as int, r0.len() as int) =~= Seq::<Seq<u8>>::empty()); assert(r0.subrange(0, r0.len() as int) =~= r0);
              assert(self.recv_buf@ + Seq::<u8>::empty() =~= self.recv_buf@); assert(Seq::<u8>::empty() + self.recv_buf@ =~= self.recv_buf@); assert(self.nonce@.len() == 0 ==> self.nonce@ =~= Seq::<u8>::empty()); assert(forall|s: Seq<u8>| #[trigger] s.subrange(0, s.len() as int) =~= s); }''')])
    u.fn(HP, Fn(None, 'handshake', props=['C13', 'C14', 'C15'], sig='pub fn handshake(socket: Socket, config: Config) -> (ret: Result<(SecureStream, PublicKey, Vec<u8>), SecioError>)',
        rules=[('. await', ''), ('Builder :: new ( ) . $x . new_framed ( socket )', 'framed_new ( socket , config . max_frame_length )'),
          ('sha256_compat :: sha256 ( & $ida )', 'sha256_compat :: sha256 ( $ida . as_slice ( ) )'), ('. extend_from_slice ( & $x )', '. extend_from_slice ( $x . as_slice ( ) )'), ('Exchange :: decode ( & $x )', 'Exchange :: decode ( $x . as_slice ( ) )'),
          ('signature_from_der ( & $x )', 'signature_from_der ( $x . as_slice ( ) )'), ('Hmac :: from_key ( $a , & $b , )', 'Hmac :: from_key ( $a , $b . as_slice ( ) )'), ('& remote_exchanges . epubkey ,', 'remote_exchanges . epubkey . as_slice ( ) ,'),
          ('stretch_key ( key , & mut longer_key )', 'stretch_key ( key , & mut longer_key )'), ('vec ! [ 0u8 ; $n ]', 'zeros ( $n )'), ('longer_key . split_at ( $n )', 'vec_split_at ( & longer_key , $n )'),
          ('$idx . state . remote . local . nonce . to_vec ( )', 'arr_to_vec ( & $idx . state . remote . local . nonce )'), ('tmp_pub_key . clone ( )', 'clone_vec ( & tmp_pub_key )'),
          ('Ok ( ( secure_stream , pub_ephemeral_context . state . remote . public_key , pub_ephemeral_context . state . local_tmp_pub_key , ) )',
           '{ proof { let r = pub_ephemeral_context.state.remote; let rd_ = secure_stream.socket.rd().subrange(0, 2); assert(rd_[0] == secure_stream.socket.rd()[0]); assert(rd_[1] == secure_stream.socket.rd()[1]); let wr_ = secure_stream.socket.wr().subrange(0, 2); assert(wr_[0] == secure_stream.socket.wr()[0]); assert(wr_[1] == secure_stream.socket.wr()[1]); assert(keyed_by(config, secure_stream, r, local_priv_key, key, longer_key@)); assert(authentic_by(config, secure_stream, r.public_key@, r, remote_exchanges.epubkey@, remote_exchanges.signature@)); assert(joined_by(config, secure_stream, r.public_key@, r, local_priv_key, key, longer_key@, remote_exchanges.epubkey@, remote_exchanges.signature@)); } Ok ( ( secure_stream , pub_ephemeral_context . state . remote . public_key , pub_ephemeral_context . state . local_tmp_pub_key , ) ) }')],
        ensures=['match ret { Ok(r) => r.0.inv(), Err(_) => true }', (['C15'], 'match ret { Ok(r) => authentic(config, r.0, r.1@), Err(_) => true }'),
           (['C14', 'C13'], 'match ret { Ok(r) => keyed(config, r.0), Err(_) => true }'),
           (['C14', 'C13', 'C15'], 'match ret { Ok(r) => joined(config, r.0, r.1@), Err(_) => true }')],
        requires=['short(config)'],
        proof='broadcast use exchange_back; proof { assert(forall|a: Seq<u8>, b: Seq<u8>| a.len() == 0 ==> #[trigger] (a + b) =~= b); }'))
    u.impl('impl Config', HM, [Fn('impl Config', 'handshake', props=['C13', 'C14', 'C15'], sig='pub fn handshake(self, socket: Socket) -> (ret: Result<(SecureStream, PublicKey, Vec<u8>), SecioError>)', rules=[('. await', '')], requires=['short(self)'],
        ensures=['match ret { Ok(r) => r.0.inv(), Err(_) => true }', (['C15'], 'match ret { Ok(r) => authentic(self, r.0, r.1@), Err(_) => true }'), (['C14', 'C13'], 'match ret { Ok(r) => keyed(self, r.0), Err(_) => true }'), (['C14', 'C13', 'C15'], 'match ret { Ok(r) => joined(self, r.0, r.1@), Err(_) => true }')])])
    # ---- peer ids
    u.item(PI, 'const', 'SHA256_CODE'); u.item(PI, 'const', 'SHA256_SIZE'); u.item(PI, 'struct', 'PeerId')
    u.text(PEER)
    PP = ['C16']
    u.impl('impl PeerId', PI, [
        Fn('impl PeerId', 'from_bytes', props=PP, ensures=[(PP, 'match ret { Ok(p) => p.inner@ == data@ && multihash(data@), Err(_) => !multihash(data@) }')],
           rules=[('decode :: u16 ( & data ) . map_err ( | _ | ( ) ) ?', 'match decode :: u16 ( data . as_slice ( ) ) { Ok ( x_ ) => x_ , Err ( _ ) => return Err ( ( ) ) }')]),
        Fn('impl PeerId', 'from_seed', props=PP, ensures=[(PP, 'ret.inner@ == id_of(seed@)'), (PP, 'ret.ok()')],
           rules=[('inner . resize ( $n , 0 )', 'vec_resize0 ( & mut inner , $n )'), ('inner [ .. $n ] . copy_from_slice ( $x )', 'vec_copy ( & mut inner , 0 , $n , $x )'), ('inner [ $n .. ] . copy_from_slice ( $x )', 'let e_ = inner . len ( ) ; vec_copy ( & mut inner , $n , e_ , $x )'),
                  ('PeerId { inner }', '{ proof { assert(inner@ =~= id_of(seed@)); } PeerId { inner } }'), ('let mut inner = Vec :: new ( ) ;', 'let mut inner : Vec < u8 > = Vec :: new ( ) ;')],
           proof='broadcast use axiom_hash_len; proof { assert(forall|a: Seq<u8>| #[trigger] (Seq::<u8>::empty() + a) =~= a); }'),
        Fn('impl PeerId', 'from_public_key', props=PP, ensures=[(PP, 'ret.inner@ == id_of(public_key@)'), (PP, 'ret.ok()')], rules=[('from_seed ( & key_inner )', 'from_seed ( key_inner . as_slice ( ) )'), ('from_seed ( key_inner )', 'from_seed ( key_inner . as_slice ( ) )')]),
        Fn('impl PeerId', 'random', props=PP, ensures=[(PP, 'ret.ok()')], rules=[('let mut seed = [ 0u8 ; 20 ] ;', 'let mut seed : [ u8 ; 20 ] = [ 0u8 ; 20 ] ;'), ('thread_rng ( ) . fill ( & mut seed [ .. ] )', 'fill_any ( & mut seed )'), ('from_seed ( & seed )', 'from_seed ( seed . as_slice ( ) )')]),
        Fn('impl PeerId', 'to_base58', props=PP, ensures=[(PP, 'ret@ == b58(self.inner@)')], rules=[('self . inner . clone ( )', 'clone_vec ( & self . inner )')]),
        Fn(r'impl :: std :: str :: FromStr for PeerId', 'from_str', props=PP, ensures=[(PP, 'match ret { Ok(p) => p.ok() && b58(p.inner@) == s@, Err(_) => b58_back(s@) is Some ==> !multihash(b58_back(s@)->Some_0) }')],
           rules=[('Result < Self , Self :: Err >', 'Result < Self , ( ) >'), ('bs58 :: decode ( $x ) . into_vec ( ) . map_err ( | _ | ( ) ) ?', 'match bs58 :: decode ( $x ) . into_vec ( ) { Ok ( x_ ) => x_ , Err ( _ ) => return Err ( ( ) ) }')],
           proof='broadcast use axiom_b58, axiom_b58_back;'),
        Fn(r'impl From < PublicKey > for PeerId', 'from', props=PP, ensures=[(PP, 'ret.inner@ == id_of(key@)'), (PP, 'ret.ok()')]),
        Fn('impl PeerId', 'as_bytes', props=PP, ensures=['ret@ == self.inner@'], rules=[('& self . inner', 'self . inner . as_slice ( )')]),
        Fn('impl PeerId', 'into_bytes', props=PP, ensures=['ret@ == self.inner@']),
        Fn('impl PeerId', 'digest', props=PP, requires=['self.ok()'], ensures=['ret@ == self.inner@.subrange(2, 34)'],
           rules=[('decode :: u16 ( & self . inner ) . expect ( $x )', 'match decode :: u16 ( self . inner . as_slice ( ) ) { Ok ( x_ ) => x_ , Err ( _ ) => { assert(false); vstd::pervasive::unreached() } }')],
           proof='proof { assert(self.inner@.subrange(1, 34).subrange(1, 33) =~= self.inner@.subrange(2, 34)); }'),
        Fn('impl PeerId', 'is_public_key', props=PP, requires=['self.ok()'], ensures=[(PP, 'ret == (self.inner@ == id_of(public_key@))')], rules=[('& peer_id == self', 'vec_eq ( & peer_id . inner , & self . inner )')]),
    ])
    raw = [('. map ( | $idk | $e ) . map_err ( | _ | $f )', '. map ( | $idk : crate :: secp256k1_compat :: PublicKey | -> ( r_ : PublicKey ) ensures r_ @ == $idk @ { $e } ) . map_err ( | _e : crate :: secp256k1 :: Error | $f )'), ('key . as_ref ( )', 'key'), ('crate :: error :: SecioError', 'SecioError')]
    u.impl('impl PublicKey', HS, [Fn('impl PublicKey', 'secp256k1_raw_key', props=PP, sig='pub fn secp256k1_raw_key(key: &[u8]) -> (ret: Result<Self, SecioError>)', rules=raw, ensures=[(PP, 'ret is Ok ==> ret->Ok_0@ == key@')])])
    u.impl('impl PublicKey', HS, [Fn('impl PublicKey', 'peer_id', props=PP, ensures=[(PP, 'ret.inner@ == id_of(self@)'), (PP, 'ret.ok()')])])
    u.impl('impl SecioKeyPair', LB, [Fn('impl SecioKeyPair', 'peer_id', props=PP, ensures=[(PP, 'ret.inner@ == id_of(self.pk())'), (PP, 'ret.ok()')])])
    u.text(FOOT)
    return u
