"""Layout and meaning of the negotiation and handshake messages, and the contracts of the functions that write and read them."""
LAYOUT = r"""
// ---------------- the layout: little endian numbers, byte vectors, and tables of variable sized parts
#[verifier::opaque]
pub open spec fn le4(s: Seq<u8>) -> int { s[0] as int + s[1] as int * 256 + s[2] as int * 65536 + s[3] as int * 16777216 }
#[verifier::opaque]
pub open spec fn num(v: int) -> Seq<u8> { seq![(v % 256) as u8, ((v / 256) % 256) as u8, ((v / 65536) % 256) as u8, ((v / 16777216) % 256) as u8] }
pub proof fn lemma_num(v: int) requires 0 <= v < 0x1_0000_0000 ensures num(v).len() == 4, le4(num(v)) == v {
  reveal(le4); reveal(num); let a = v / 16777216; let p = v / 65536; let q = v / 256;
  assert(p / 256 == a); assert(q / 256 == p); assert(p == a * 256 + p % 256); assert(q == p * 256 + q % 256); assert(v == q * 256 + v % 256); assert(a % 256 == a);
}
pub broadcast proof fn lemma_num_len(v: int) ensures #[trigger] num(v).len() == 4 { reveal(num); }
pub broadcast proof fn lemma_le4(s: Seq<u8>) ensures 0 <= #[trigger] le4(s) <= 0xffff_ffff { reveal(le4); }
pub open spec fn le(s: Seq<u8>, i: int) -> int { le4(s.subrange(i, i + 4)) }
pub open spec fn fv(d: Seq<u8>) -> Seq<u8> { num(d.len() as int) + d }
pub open spec fn fv_ok(b: Seq<u8>) -> bool { b.len() >= 4 && b.len() == 4 + le(b, 0) }
pub open spec fn raw(b: Seq<u8>) -> Seq<u8> { b.subrange(4, b.len() as int) }
pub proof fn fv_round(d: Seq<u8>) requires d.len() < 0x1_0000_0000 ensures fv_ok(fv(d)), raw(fv(d)) == d, fv(d).len() == 4 + d.len()
{ lemma_num(d.len() as int); assert(fv(d).subrange(0, 4) =~= num(d.len() as int)); assert(raw(fv(d)) =~= d); }
pub open spec fn count(b: Seq<u8>) -> int { if b.len() == 4 { 0 } else { le(b, 4) / 4 - 1 } }
pub open spec fn off(b: Seq<u8>, i: int) -> int { if i < count(b) { le(b, 4 + 4 * i) } else { b.len() as int } }
pub open spec fn step(b: Seq<u8>, i: int) -> bool { off(b, i) <= off(b, i + 1) }
pub open spec fn rising(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < count(b) ==> #[trigger] step(b, i) }
pub open spec fn dyn_ok(b: Seq<u8>) -> bool { b.len() >= 4 && le(b, 0) == b.len() && (b.len() == 4 || (b.len() >= 8 && le(b, 4) % 4 == 0 && 8 <= le(b, 4) <= b.len() && rising(b))) }
pub open spec fn part(b: Seq<u8>, i: int) -> Seq<u8> { b.subrange(off(b, i), off(b, i + 1)) }
pub proof fn off_le(b: Seq<u8>, i: int) requires dyn_ok(b), b.len() > 4, 0 <= i <= count(b) ensures off(b, i) <= b.len(), i < count(b) ==> off(b, i) <= off(b, i + 1) <= b.len() && 0 <= off(b, i) && 4 + 4 * i + 4 <= b.len() decreases count(b) - i
{ broadcast use lemma_le4; if i < count(b) { off_le(b, i + 1); assert(step(b, i)); assert(le(b, 4) == 4 * (count(b) + 1)); } }
pub open spec fn cum(p: Seq<Seq<u8>>, n: int) -> int decreases n { if n <= 0 { 0 } else { cum(p, n - 1) + p[n - 1].len() } }
pub open spec fn heads(p: Seq<Seq<u8>>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::<u8>::empty() } else { heads(p, n - 1) + num(4 * (p.len() + 1) + cum(p, n - 1)) } }
pub open spec fn flat(p: Seq<Seq<u8>>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::<u8>::empty() } else { flat(p, n - 1) + p[n - 1] } }
pub open spec fn size(p: Seq<Seq<u8>>) -> int { 4 * (p.len() + 1) + cum(p, p.len() as int) }
pub open spec fn dynv(p: Seq<Seq<u8>>) -> Seq<u8> { if p.len() == 0 { num(4) } else { num(size(p)) + heads(p, p.len() as int) + flat(p, p.len() as int) } }
pub proof fn cum_up(p: Seq<Seq<u8>>, i: int, n: int) requires 0 <= i <= n <= p.len() ensures 0 <= cum(p, i) <= cum(p, n) decreases n { if i < n { cum_up(p, i, n - 1); } else if i > 0 { cum_up(p, i - 1, n - 1); } }
pub proof fn heads_at(p: Seq<Seq<u8>>, n: int, i: int) requires 0 <= i < n <= p.len() ensures heads(p, n).len() == 4 * n, heads(p, n).subrange(4 * i, 4 * i + 4) == num(4 * (p.len() + 1) + cum(p, i)) decreases n
{
  broadcast use lemma_num_len;
  heads_len(p, n - 1); heads_len(p, n);
  if i == n - 1 { assert(heads(p, n).subrange(4 * i, 4 * i + 4) =~= num(4 * (p.len() + 1) + cum(p, i))); }
  else { heads_at(p, n - 1, i); assert(heads(p, n).subrange(4 * i, 4 * i + 4) =~= heads(p, n - 1).subrange(4 * i, 4 * i + 4)); }
}
pub proof fn heads_len(p: Seq<Seq<u8>>, n: int) requires 0 <= n ensures heads(p, n).len() == 4 * n decreases n { broadcast use lemma_num_len; if n > 0 { heads_len(p, n - 1); } }
pub proof fn flat_len(p: Seq<Seq<u8>>, n: int) requires 0 <= n <= p.len() ensures flat(p, n).len() == cum(p, n) decreases n { if n > 0 { flat_len(p, n - 1); } }
pub proof fn flat_at(p: Seq<Seq<u8>>, n: int, i: int) requires 0 <= i < n <= p.len() ensures flat(p, n).len() == cum(p, n), 0 <= cum(p, i) <= cum(p, i + 1) <= cum(p, n), flat(p, n).subrange(cum(p, i), cum(p, i + 1)) == p[i] decreases n
{
  flat_len(p, n - 1); flat_len(p, n); cum_up(p, i, i + 1); cum_up(p, i + 1, n);
  if i == n - 1 { assert(flat(p, n).subrange(cum(p, i), cum(p, i + 1)) =~= p[i]); }
  else { flat_at(p, n - 1, i); assert(flat(p, n).subrange(cum(p, i), cum(p, i + 1)) =~= flat(p, n - 1).subrange(cum(p, i), cum(p, i + 1))); }
}
pub proof fn dyn_le(p: Seq<Seq<u8>>, i: int) requires size(p) < 0x1_0000_0000, 0 <= i < p.len() ensures le(dynv(p), 4 + 4 * i) == 4 * (p.len() + 1) + cum(p, i), 0 <= cum(p, i) <= cum(p, i + 1) <= cum(p, p.len() as int)
{
  let n = p.len() as int; let b = dynv(p); broadcast use lemma_num_len;
  heads_len(p, n); heads_at(p, n, i); cum_up(p, i, i + 1); cum_up(p, i + 1, n); lemma_num(4 * (n + 1) + cum(p, i));
  assert(b.subrange(4 + 4 * i, 4 + 4 * i + 4) =~= heads(p, n).subrange(4 * i, 4 * i + 4));
}
pub proof fn dyn_len(p: Seq<Seq<u8>>) requires size(p) < 0x1_0000_0000 ensures dynv(p).len() == size(p), le(dynv(p), 0) == size(p), 0 <= cum(p, p.len() as int), count(dynv(p)) == p.len()
{
  let n = p.len() as int; let b = dynv(p); broadcast use lemma_num_len;
  cum_up(p, 0, n); lemma_num(size(p)); heads_len(p, n); flat_len(p, n); assert(b.subrange(0, 4) =~= num(size(p)));
  if n > 0 { dyn_le(p, 0); }
}
pub proof fn dyn_off(p: Seq<Seq<u8>>, i: int) requires size(p) < 0x1_0000_0000, 0 <= i <= p.len() ensures off(dynv(p), i) == 4 * (p.len() + 1) + cum(p, i) { dyn_len(p); if i < p.len() { dyn_le(p, i); } }
pub proof fn dyn_part(p: Seq<Seq<u8>>, i: int) requires size(p) < 0x1_0000_0000, 0 <= i < p.len() ensures part(dynv(p), i) == p[i]
{
  let n = p.len() as int; broadcast use lemma_num_len;
  dyn_len(p); dyn_off(p, i); dyn_off(p, i + 1); flat_at(p, n, i); heads_len(p, n);
  assert(part(dynv(p), i) =~= flat(p, n).subrange(cum(p, i), cum(p, i + 1)));
}
// what is written is read back part by part
pub proof fn dyn_round(p: Seq<Seq<u8>>) requires size(p) < 0x1_0000_0000
  ensures dyn_ok(dynv(p)), count(dynv(p)) == p.len(), dynv(p).len() == size(p), p.len() > 0 ==> dynv(p).len() > 4, forall|i: int| #![trigger part(dynv(p), i)] 0 <= i < p.len() ==> part(dynv(p), i) == p[i]
{
  dyn_len(p);
  if p.len() > 0 {
    dyn_le(p, 0);
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] step(dynv(p), i) by { dyn_le(p, i); dyn_off(p, i); dyn_off(p, i + 1); }
    assert forall|i: int| #![trigger part(dynv(p), i)] 0 <= i < p.len() implies part(dynv(p), i) == p[i] by { dyn_part(p, i); }
  }
}
"""
TEXT = r"""pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub proof fn axiom_utf8(a: Seq<char>, b: Seq<char>) requires utf8(a) == utf8(b) ensures a == b { }
pub open spec fn is_text(b: Seq<u8>) -> bool { exists|s: Seq<char>| utf8(s) == b }
"""
MSG = r"""
pub open spec fn pk_ok(b: Seq<u8>) -> bool { b.len() >= 4 && le(b, 0) == 0 && fv_ok(b.subrange(4, b.len() as int)) }
pub open spec fn strs_ok(b: Seq<u8>) -> bool { dyn_ok(b) && forall|i: int| 0 <= i < count(b) ==> fv_ok(#[trigger] part(b, i)) }
// ---------------- the messages
pub open spec fn enc_pk(key: Seq<u8>) -> Seq<u8> { num(0) + fv(key) }
pub open spec fn propose_parts(rand: Seq<u8>, pubkey: Seq<u8>, ex: Seq<u8>, ci: Seq<u8>, ha: Seq<u8>) -> Seq<Seq<u8>> { seq![fv(rand), fv(pubkey), fv(ex), fv(ci), fv(ha)] }
pub open spec fn enc_propose(rand: Seq<u8>, pubkey: Seq<u8>, ex: Seq<u8>, ci: Seq<u8>, ha: Seq<u8>) -> Seq<u8> { dynv(propose_parts(rand, pubkey, ex, ci, ha)) }
pub open spec fn propose_ok(d: Seq<u8>) -> bool { dyn_ok(d) && d.len() > 4 && count(d) >= 5 && fv_ok(part(d, 0)) && fv_ok(part(d, 1)) && fv_ok(part(d, 2)) && fv_ok(part(d, 3)) && fv_ok(part(d, 4)) }
pub open spec fn field(d: Seq<u8>, i: int) -> Seq<u8> { raw(part(d, i)) }
pub open spec fn enc_exchange(epubkey: Seq<u8>, signature: Seq<u8>) -> Seq<u8> { dynv(seq![fv(epubkey), fv(signature)]) }
pub open spec fn exchange_ok(d: Seq<u8>) -> bool { dyn_ok(d) && d.len() > 4 && count(d) >= 2 && fv_ok(part(d, 0)) && fv_ok(part(d, 1)) }
pub open spec fn texts(v: Seq<Seq<u8>>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| fv(v[i])) }
pub open spec fn utf8s(v: Seq<Seq<char>>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| utf8(v[i])) }
pub open spec fn enc_info(name: Seq<u8>, versions: Seq<Seq<u8>>) -> Seq<u8> { dynv(seq![fv(name), dynv(texts(versions))]) }
pub open spec fn info_ok(d: Seq<u8>) -> bool { dyn_ok(d) && d.len() > 4 && count(d) >= 2 && fv_ok(part(d, 0)) && strs_ok(part(d, 1)) }
pub open spec fn version(d: Seq<u8>, i: int) -> Seq<u8> { raw(part(part(d, 1), i)) }
pub open spec fn texts_len(v: Seq<Seq<u8>>) -> int { size(texts(v)) }

// ---------------- a message is read back as it was written
pub proof fn pk_round(key: Seq<u8>) requires key.len() < 0x1_0000_0000 ensures pk_ok(enc_pk(key)), raw(enc_pk(key).subrange(4, enc_pk(key).len() as int)) == key
{ fv_round(key); lemma_num(0); let b = enc_pk(key); assert(b.subrange(0, 4) =~= num(0)); assert(b.subrange(4, b.len() as int) =~= fv(key)); }
pub proof fn propose_size(rand: Seq<u8>, pubkey: Seq<u8>, ex: Seq<u8>, ci: Seq<u8>, ha: Seq<u8>) ensures size(propose_parts(rand, pubkey, ex, ci, ha)) == 44 + rand.len() + pubkey.len() + ex.len() + ci.len() + ha.len() { broadcast use lemma_num_len; reveal_with_fuel(cum, 7); }
pub proof fn propose_round(rand: Seq<u8>, pubkey: Seq<u8>, ex: Seq<u8>, ci: Seq<u8>, ha: Seq<u8>) requires 44 + rand.len() + pubkey.len() + ex.len() + ci.len() + ha.len() < 0x1_0000_0000
  ensures ({ let d = enc_propose(rand, pubkey, ex, ci, ha); propose_ok(d) && field(d, 0) == rand && field(d, 1) == pubkey && field(d, 2) == ex && field(d, 3) == ci && field(d, 4) == ha })
{ propose_size(rand, pubkey, ex, ci, ha); let p = propose_parts(rand, pubkey, ex, ci, ha); dyn_round(p); fv_round(rand); fv_round(pubkey); fv_round(ex); fv_round(ci); fv_round(ha); assert(part(dynv(p), 0) == p[0]); assert(part(dynv(p), 1) == p[1]); assert(part(dynv(p), 2) == p[2]); assert(part(dynv(p), 3) == p[3]); assert(part(dynv(p), 4) == p[4]); }
pub proof fn exchange_size(a: Seq<u8>, b: Seq<u8>) ensures size(seq![fv(a), fv(b)]) == 20 + a.len() + b.len() { broadcast use lemma_num_len; reveal_with_fuel(cum, 4); }
pub proof fn exchange_round(a: Seq<u8>, b: Seq<u8>) requires 20 + a.len() + b.len() < 0x1_0000_0000 ensures ({ let d = enc_exchange(a, b); exchange_ok(d) && field(d, 0) == a && field(d, 1) == b })
{ exchange_size(a, b); let p = seq![fv(a), fv(b)]; dyn_round(p); fv_round(a); fv_round(b); assert(part(dynv(p), 0) == p[0]); assert(part(dynv(p), 1) == p[1]); }
pub proof fn cum_each(v: Seq<Seq<u8>>, n: int, i: int) requires 0 <= i < n <= v.len() ensures v[i].len() + 4 <= cum(texts(v), n) decreases n { broadcast use lemma_num_len; if i < n - 1 { cum_each(v, n - 1, i); } else { cum_up(texts(v), 0, n - 1); } }
pub proof fn info_size(name: Seq<u8>, v: Seq<Seq<u8>>) requires 16 + name.len() + texts_len(v) < 0x1_0000_0000 ensures size(seq![fv(name), dynv(texts(v))]) == 16 + name.len() + texts_len(v), 0 < texts_len(v) < 0x1_0000_0000, forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).len() < 0x1_0000_0000
{ broadcast use lemma_num_len; cum_up(texts(v), 0, v.len() as int); reveal_with_fuel(cum, 4); dyn_len(texts(v)); assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).len() < 0x1_0000_0000 by { cum_each(v, v.len() as int, i); } }
pub proof fn info_round(name: Seq<u8>, v: Seq<Seq<u8>>) requires 16 + name.len() + texts_len(v) < 0x1_0000_0000
  ensures ({ let d = enc_info(name, v); info_ok(d) && field(d, 0) == name && count(part(d, 1)) == v.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] version(d, i) == v[i] })
{
  info_size(name, v); let p = seq![fv(name), dynv(texts(v))]; let d = dynv(p); dyn_round(p); fv_round(name); dyn_round(texts(v)); assert(part(d, 0) == p[0]); assert(part(d, 1) == p[1]);
  let t = dynv(texts(v));
  assert forall|i: int| 0 <= i < v.len() implies fv_ok(#[trigger] part(t, i)) && raw(part(t, i)) == v[i] by { fv_round(v[i]); assert(part(t, i) == texts(v)[i]); }
  assert forall|i: int| 0 <= i < v.len() implies #[trigger] version(d, i) == v[i] by { assert(fv_ok(part(t, i))); }
}

// ---------------- what a message says
pub open spec fn said(b: Seq<u8>) -> Seq<char> { choose|s: Seq<char>| utf8(s) == b }
pub broadcast proof fn said_utf8(s: Seq<char>) ensures #[trigger] said(utf8(s)) == s, is_text(utf8(s)) { axiom_utf8(said(utf8(s)), s); }
pub open spec fn dec_pk(d: Seq<u8>) -> Option<Seq<u8>> { if pk_ok(d) { Some(raw(d.subrange(4, d.len() as int))) } else { None } }
pub open spec fn dec_propose(d: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>, Seq<char>, Seq<char>, Seq<char>)> {
  if propose_ok(d) && is_text(field(d, 2)) && is_text(field(d, 3)) && is_text(field(d, 4)) { Some((field(d, 0), field(d, 1), said(field(d, 2)), said(field(d, 3)), said(field(d, 4)))) } else { None }
}
pub open spec fn dec_exchange(d: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> { if exchange_ok(d) { Some((field(d, 0), field(d, 1))) } else { None } }
pub open spec fn versions_of(d: Seq<u8>) -> Seq<Seq<char>> { Seq::new(count(part(d, 1)) as nat, |i: int| said(version(d, i))) }
pub open spec fn dec_info(d: Seq<u8>) -> Option<(Seq<char>, Seq<Seq<char>>)> {
  if info_ok(d) && is_text(field(d, 0)) && (forall|i: int| 0 <= i < count(part(d, 1)) ==> is_text(#[trigger] version(d, i))) { Some((said(field(d, 0)), versions_of(d))) } else { None }
}
pub proof fn propose_back(rand: Seq<u8>, pubkey: Seq<u8>, ex: Seq<char>, ci: Seq<char>, ha: Seq<char>) requires 44 + rand.len() + pubkey.len() + utf8(ex).len() + utf8(ci).len() + utf8(ha).len() < 0x1_0000_0000
  ensures dec_propose(enc_propose(rand, pubkey, utf8(ex), utf8(ci), utf8(ha))) == Some((rand, pubkey, ex, ci, ha))
{ broadcast use said_utf8; propose_round(rand, pubkey, utf8(ex), utf8(ci), utf8(ha)); }
pub proof fn pk_back(key: Seq<u8>) requires key.len() < 0x1_0000_0000 ensures dec_pk(enc_pk(key)) == Some(key) { pk_round(key); }
pub proof fn pk_len(key: Seq<u8>) ensures enc_pk(key).len() == key.len() + 8 { broadcast use lemma_num_len; }
pub broadcast proof fn exchange_back(a: Seq<u8>, b: Seq<u8>) requires 20 + a.len() + b.len() < 0x1_0000_0000 ensures dec_exchange(#[trigger] enc_exchange(a, b)) == Some((a, b)) { exchange_round(a, b); }
pub proof fn info_back(name: Seq<char>, v: Seq<Seq<char>>) requires 16 + utf8(name).len() + texts_len(utf8s(v)) < 0x1_0000_0000 ensures dec_info(enc_info(utf8(name), utf8s(v))) == Some((name, v))
{
  broadcast use said_utf8; info_round(utf8(name), utf8s(v)); let d = enc_info(utf8(name), utf8s(v));
  assert forall|i: int| 0 <= i < count(part(d, 1)) implies is_text(#[trigger] version(d, i)) && said(version(d, i)) == v[i] by { assert(version(d, i) == utf8s(v)[i]); }
  assert(versions_of(d) =~= v);
}
// the name is part of the message, so it is shorter
pub proof fn name_len(d: Seq<u8>) requires dec_info(d) is Some ensures utf8(dec_info(d)->Some_0.0).len() + 4 <= d.len() { off_le(d, 0); }
"""
WIRE = "pub mod wire {\nuse super::*;\n" + LAYOUT + TEXT + MSG + "}\n"

# The contracts of the functions that write and read a message.  codec_mol proves them; secio and negotiate use them.
M = {
  'Propose::encode': (['44 + self.rand@.len() + self.pubkey@.len() + utf8(self.exchange@).len() + utf8(self.ciphers@).len() + utf8(self.hashes@).len() < 0x1_0000_0000'],
                      ['ret@ == enc_propose(self.rand@, self.pubkey@, utf8(self.exchange@), utf8(self.ciphers@), utf8(self.hashes@))']),
  'Propose::decode': ([], ['match ret { Some(p) => dec_propose(data@) == Some((p.rand@, p.pubkey@, p.exchange@, p.ciphers@, p.hashes@)), None => dec_propose(data@) is None }']),
  'Exchange::encode': (['20 + self.epubkey@.len() + self.signature@.len() < 0x1_0000_0000'], ['ret@ == enc_exchange(self.epubkey@, self.signature@)']),
  'Exchange::decode': ([], ['match ret { Some(p) => dec_exchange(data@) == Some((p.epubkey@, p.signature@)), None => dec_exchange(data@) is None }']),
  'PublicKey::encode': (['self->Secp256k1_0@.len() < 0x1_0000_0000'], ['ret@ == enc_pk(self->Secp256k1_0@)']),
  'PublicKey::decode': ([], ['match ret { Some(p) => dec_pk(data@) == Some(p->Secp256k1_0@), None => dec_pk(data@) is None }']),
  'ProtocolInfo::encode': (['16 + utf8(self.name@).len() + texts_len(utf8s(chars(self.support_versions@))) < 0x1_0000_0000'], ['ret@ == enc_info(utf8(self.name@), utf8s(chars(self.support_versions@)))']),
  'ProtocolInfo::decode': ([], ['match ret { Some(p) => dec_info(data@) == Some((p.name@, chars(p.support_versions@))), None => dec_info(data@) is None }']),
}
def stub(name, sig):
    """a function another unit proves: its contract, without its body"""
    req, ens = M[name]
    return '  #[verifier::external_body]\n  pub fn %s%s ensures %s { unimplemented!() }\n' % (sig, ' requires ' + ', '.join(req) if req else '', ', '.join(ens))
