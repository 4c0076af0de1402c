"""Negotiation and handshake messages in molecule form (C13, C14, C15, C19): the generated readers and builders, and the functions that use them."""
import os, re
from vx import Unit, Fn, Loop
from common import HEAD, BYTES, FOOT
from msgs import LAYOUT, TEXT, MSG, M

HM = 'secio/src/handshake/handshake_mol.rs'
HF = 'secio/src/handshake/handshake_struct.rs'
PM = 'tentacle/src/protocol_select/protocol_select_mol.rs'
PF = 'tentacle/src/protocol_select/mod.rs'
LAY = r"""
pub struct VErr {}
pub struct IoErr {}
pub const NUMBER_SIZE: usize = 4;
// molecule::unpack_number on the rest of a slice, and pack_number
#[verifier::external_body]
pub fn unpack_at(s: &[u8], i: usize) -> (r: u32) requires i + 4 <= s@.len() ensures r as int == le(s@, i as int) { unimplemented!() }
#[verifier::external_body]
pub fn pack_number<'a>(n: u32) -> (r: &'a [u8]) ensures r@ == num(n as int) { unimplemented!() }
// writing to a vector never fails
#[verifier::external_body]
pub fn push_all(w: &mut Vec<u8>, s: &[u8]) -> (r: Result<(), IoErr>) ensures r is Ok, final(w)@ == old(w)@ + s@ { unimplemented!() }
pub fn push_byte(w: &mut Vec<u8>, b: u8) -> (r: Result<(), IoErr>) ensures r is Ok, final(w)@ == old(w)@.push(b) { w.push(b); Ok(()) }
#[verifier::external_body]
pub fn slice_from<'a>(s: &'a [u8], a: usize) -> (r: &'a [u8]) requires a <= s@.len() ensures r@ == s@.subrange(a as int, s@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn slice_range<'a>(s: &'a [u8], a: usize, b: usize) -> (r: &'a [u8]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { unimplemented!() }
// slice[4..].chunks(4).take(n).map(unpack_number).collect()
pub fn offsets_of(s: &[u8], n: usize) -> (r: Vec<usize>) requires 4 + 4 * n <= s@.len() ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == le(s@, 4 + 4 * i)
{
  let mut r: Vec<usize> = Vec::new(); let mut k: usize = 0; let len = s.len();
  while k < n invariant k <= n, 4 + 4 * n <= s@.len(), s@.len() == len, r@.len() == k, forall|i: int| 0 <= i < k ==> #[trigger] r@[i] == le(s@, 4 + 4 * i) decreases n - k
  { r.push(unpack_at(s, 4 + 4 * k) as usize); k = k + 1; }
  r
}
// offsets.windows(2).any(|i| i[0] > i[1])
pub open spec fn down(o: Seq<usize>, i: int) -> bool { o[i] > o[i + 1] }
pub fn descends(o: &Vec<usize>) -> (r: bool) ensures r == exists|i: int| 0 <= i < o@.len() - 1 && #[trigger] down(o@, i)
{
  let mut k: usize = 1;
  while k < o.len() invariant 1 <= k, k <= o@.len() || o@.len() == 0, forall|i: int| 0 <= i < k - 1 ==> !#[trigger] down(o@, i) decreases o@.len() - k
  { if o[k - 1] > o[k] { assert(down(o@, k - 1)); return true; } k = k + 1; }
  false
}
#[verifier::external_body]
pub fn str_bytes(s: String) -> (r: Vec<u8>) ensures r@ == utf8(s@) { unimplemented!() }
#[verifier::external_body]
pub fn from_utf8(v: Vec<u8>) -> (r: Result<String, ()>) ensures match r { Ok(s) => utf8(s@) == v@, Err(_) => !is_text(v@) } { unimplemented!() }
#[verifier::external_body]
pub fn bytes_vec(b: &Bytes) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
"""
STR = r"""
pub trait Own { spec fn seen(&self) -> Seq<u8>; fn own(&self) -> (r: Vec<u8>) ensures r@ == self.seen(); }
impl Own for [u8] { open spec fn seen(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn own(&self) -> (r: Vec<u8>) { unimplemented!() } }
// std::vec::IntoIter
#[verifier::external_body]
pub struct Items { x: usize }
impl Items {
  pub uninterp spec fn todo(&self) -> Seq<String>;
  #[verifier::external_body]
  pub fn of(v: Vec<String>) -> (r: Items) ensures r.todo() == v@ { unimplemented!() }
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<String>) ensures match r { Some(x) => old(self).todo().len() > 0 && x == old(self).todo()[0] && final(self).todo() == old(self).todo().subrange(1, old(self).todo().len() as int), None => old(self).todo().len() == 0 && final(self).todo().len() == 0 } { unimplemented!() }
}
"""

def constant(root, rel, ty, name):
    """the value of an associated constant as it stands in the source"""
    s = open(os.path.join(root, rel)).read()
    m = re.search(r'impl(?:<[^>]*>)?\s+%s(?:<[^>]*>)?\s*\{\s*pub const %s: usize = (\d+);' % (ty, name), s)
    return m.group(1) if m else 'MISSING_%s' % name

VE = [('use molecule :: verification_error as ve ;', ''), ('ve ! ( $m )', 'Err ( VErr { } )'), ('ve ! ( $m , )', 'Err ( VErr { } )'), ('molecule :: error :: VerificationResult', 'VResult'),
      ('slice [ molecule :: NUMBER_SIZE .. ] . chunks ( molecule :: NUMBER_SIZE ) . take ( $n ) . map ( | x | molecule :: unpack_number ( x ) as usize ) . collect ( )', 'offsets_of ( slice , $n )'),
      ('offsets . windows ( 2 ) . any ( | i | i [ 0 ] > i [ 1 ] )', 'descends ( & offsets )'),
      ('molecule :: unpack_number ( & $x [ $n .. ] )', 'unpack_at ( $x , $n )'), ('molecule :: unpack_number ( $x )', 'unpack_at ( $x , 0 )'), ('& molecule :: pack_number ( $n )', 'pack_number ( $n )'),
      ('& slice [ $a .. $b ]', 'slice_range ( slice , $a , $b )'), ('& slice [ $a .. ]', 'slice_from ( slice , $a )'), ('& self . as_slice ( ) [ $a .. $b ]', 'slice_range ( self . as_slice ( ) , $a , $b )'), ('& self . as_slice ( ) [ $a .. ]', 'slice_from ( self . as_slice ( ) , $a )'),
      ('molecule :: NUMBER_SIZE', 'NUMBER_SIZE'), ('molecule :: Number', 'u32'), ('molecule :: bytes :: Bytes', 'MB')]
WR = [('writer . write_all ( $x )', 'push_all ( writer , $x )'), ('Vec < Byte >', 'Vec < u8 >')]
BUILD = [('Vec :: with_capacity ( self . expected_length ( ) )', 'Vec :: new ( )'), ('self . write ( & mut inner ) . unwrap_or_else ( $c ) ;', 'match self . write ( & mut inner ) { Ok ( _ ) => ( ) , Err ( _ ) => { assert(false); } }'), ('( inner . into ( ) )', '( MB :: from ( inner ) )')]

PUSHED = '''offsets . push ( total_size ) ; proof {
  let b = slice@ ; broadcast use lemma_le4 ;
  assert forall|i: int| 0 <= i <= count(b) implies #[trigger] offsets@[i] == off(b, i) by { } ;
  assert forall|i: int| 0 <= i < count(b) implies #[trigger] step(b, i) == !down(offsets@, i) by { assert(offsets@[i] == off(b, i)) ; assert(offsets@[i + 1] == off(b, i + 1)) ; } ;
  if rising(b) { %s assert(forall|i: int| 0 <= i < count(b) ==> !#[trigger] down(offsets@, i)) by { assert forall|i: int| 0 <= i < count(b) implies !#[trigger] down(offsets@, i) by { assert(step(b, i)) ; } } ; }
  else { let i = choose|i: int| 0 <= i < count(b) && !#[trigger] step(b, i) ; assert(down(offsets@, i)) ; }
}'''

def sq(l): return 'seq![%s]' % ', '.join(l)

def entity(u, rel, P, name, default):
    E = r'impl molecule :: prelude :: Entity for %s' % name
    u.item(rel, 'struct', name, rules=VE)
    u.impl('impl %s' % name, rel, [
        Fn(E, 'new_unchecked', props=P, rules=VE, ensures=['ret.0@ == data@']),
        Fn(E, 'as_slice', props=P, rules=VE + [('& self . 0 [ .. ]', 'self . 0 . as_slice ( )'), ('& self . 0', 'self . 0 . as_slice ( )')], ensures=['ret@ == self.0@']),
        Fn(E, 'as_bytes', props=P, rules=VE, ensures=['ret@ == self.0@']),
        Fn(r'impl :: core :: default :: Default for %s' % name, 'default', props=P, rules=[('( v . into ( ) )', '( MB :: from ( v ) )')], ensures=default) if default else None,
    ]) if default else u.impl('impl %s' % name, rel, [
        Fn(E, 'new_unchecked', props=P, rules=VE, ensures=['ret.0@ == data@']),
        Fn(E, 'as_slice', props=P, rules=VE + [('& self . 0 [ .. ]', 'self . 0 . as_slice ( )'), ('& self . 0', 'self . 0 . as_slice ( )')], ensures=['ret@ == self.0@']),
        Fn(E, 'as_bytes', props=P, rules=VE, ensures=['ret@ == self.0@'])])

def reader(u, rel, P, name, verify_rules, ok, loops=(), proof='', fns=(), consts=()):
    R = r"impl < 'r > molecule :: prelude :: Reader < 'r > for %sReader < 'r >" % name
    u.text("pub struct %sReader<'r>(pub &'r [u8]);" % name)
    u.impl("impl<'r> %sReader<'r>" % name, rel, [
        Fn(R, 'new_unchecked', props=P, ensures=['ret.0@ == slice@']),
        Fn(R, 'as_slice', props=P, ensures=['ret@ == self.0@']),
        Fn(R, 'verify', props=P, rules=verify_rules + VE, loops=list(loops), proof=proof, ensures=['ret is Ok <==> ' + ok], opts='#[verifier::loop_isolation(false)]'),
    ] + list(fns))
    # the provided method of molecule::prelude::Reader
    u.text("impl<'r> %sReader<'r> { pub fn from_compatible_slice(slice: &'r [u8]) -> (r: Result<%sReader<'r>, VErr>) ensures (r is Ok <==> (%s)), r is Ok ==> r->Ok_0.0@ == slice@ { match %sReader::verify(slice, true) { Ok(_) => Ok(%sReader::new_unchecked(slice)), Err(e) => Err(e) } } }" % (name, name, ok.replace('compatible', 'true'), name, name))

def bytevec(u, root, rel, P, name):
    size = constant(root, rel, name + 'Reader', 'ITEM_SIZE')
    it = [('Self :: ITEM_SIZE', constant(root, rel, name + 'Builder', 'ITEM_SIZE'))]
    entity(u, rel, P, name, ['ret.0@ == fv(Seq::<u8>::empty())'])
    u.parts[-2][2].proof = 'proof { reveal(num); assert(seq![0u8, 0, 0, 0] =~= fv(Seq::<u8>::empty())); }'
    RI = r"impl < 'r > %sReader < 'r >" % name
    reader(u, rel, P, name, [('Self :: ITEM_SIZE', size)], 'fv_ok(slice@)', proof='broadcast use lemma_le4;', fns=[
        Fn(RI, 'raw_data', props=P, rules=VE, requires=['self.0@.len() >= 4'], ensures=['ret@ == raw(self.0@)'])])
    B, T = r'impl %sBuilder' % name, r'impl molecule :: prelude :: Builder for %sBuilder' % name
    u.text('pub struct %sBuilder(pub Vec<u8>);\nimpl %s { pub fn new_builder() -> (r: %sBuilder) ensures r.0@.len() == 0 { %sBuilder(Vec::new()) } }' % (name, name, name, name))
    u.impl('impl %sBuilder' % name, rel, [
        Fn(B, 'set', props=P, rules=WR, ensures=['ret.0@ == v@']),
        Fn(T, 'write', props=P, sig='pub fn write(&self, writer: &mut Vec<u8>) -> (ret: Result<(), IoErr>)', rules=[('for inner in & self . 0 [ .. ] { $blkb }', '{ let mut k_ : usize = 0 ; while k_ < self . 0 . len ( ) { let inner = self . 0 [ k_ ] ; $blkb k_ = k_ + 1 ; } }'), ('writer . write_all ( inner . as_slice ( ) )', 'push_byte ( writer , inner )')] + VE + WR,
           requires=['self.0@.len() < 0x1_0000_0000'], ensures=['ret is Ok', 'final(writer)@ == old(writer)@ + fv(self.0@)'], opts='#[verifier::loop_isolation(false)]',
           proof='let ghost w0 = writer@; let ghost d = self.0@;',
           loops=[Loop(invariant=['k_ <= d.len()', 'self.0@ == d', 'writer@ =~= w0 + (num(d.len() as int) + d.subrange(0, k_ as int))'], decreases='d.len() - k_', after='proof { assert(d.subrange(0, d.len() as int) =~= d); }')]),
        Fn(T, 'build', props=P, sig='pub fn build(&self) -> (ret: %s)' % name, rules=BUILD, requires=['self.0@.len() < 0x1_0000_0000'], ensures=['ret.0@ == fv(self.0@)'], proof='', pre=[], ),
    ])

def table(u, root, rel, P, name, fields):
    """fields: (field, type, ok of the part)"""
    n = len(fields)
    entity(u, rel, P, name, None)
    fc = [('Self :: FIELD_COUNT', constant(root, rel, name + 'Reader', 'FIELD_COUNT'))]
    oks = ' && '.join('%s(part(slice@, %d))' % (k, i) for i, (f, t, k) in enumerate(fields))
    ok = '(dyn_ok(slice@) && slice@.len() > 4 && count(slice@) >= %d && (compatible || count(slice@) == %d) && %s)' % (n, n, oks)
    RI = r"impl < 'r > %sReader < 'r >" % name
    tok = 'dyn_ok(self.0@) && self.0@.len() > 4 && count(self.0@) >= %d' % n
    fns = [Fn(RI, 'total_size', props=P, rules=VE, requires=['self.0@.len() >= 4'], ensures=['ret == le(self.0@, 0)']),
           Fn(RI, 'field_count', props=P, rules=VE, requires=[tok], ensures=['ret == count(self.0@)'], proof='proof { broadcast use lemma_le4; }'),
           Fn(RI, 'has_extra_fields', props=P, rules=fc, requires=[tok], ensures=['ret == (count(self.0@) != %d)' % n])]
    for i, (f, t, k) in enumerate(fields):
        fns.append(Fn(RI, f, props=P, rules=VE, requires=[tok], ensures=['ret.0@ == part(self.0@, %d)' % i], proof='proof { %s }' % ' '.join('off_le(self.0@, %d);' % j for j in range(n + 1))))
    reader(u, rel, P, name, fc + [('offsets . push ( total_size ) ;', PUSHED % ' '.join('off_le(b, %d);' % j for j in range(n + 1)))],
           ok, proof='broadcast use lemma_le4;', fns=fns)
    B, T = r'impl %sBuilder' % name, r'impl molecule :: prelude :: Builder for %sBuilder' % name
    u.item(rel, 'struct', name + 'Builder')
    u.text('impl %s { pub fn new_builder() -> (r: %sBuilder) { %sBuilder { %s } } }' % (name, name, name, ', '.join('%s: %s::default()' % (f, t) for f, t, k in fields)))
    parts = sq(['self.%s.0@' % f for f, t, k in fields])
    others = lambda f: ['ret.%s == self.%s' % (g, g) for g, _, _ in fields if g != f]
    fin = 'proof { let p = %s ; reveal_with_fuel(flat, %d) ; assert(writer@ =~= w0 + dynv(p)) ; } Ok ( ( ) )' % (parts, n + 2)
    u.impl('impl %sBuilder' % name, rel, [Fn(B, f, props=P, ensures=['ret.%s == v' % f] + others(f)) for f, t, k in fields] + [
        Fn(T, 'write', props=P, sig='pub fn write(&self, writer: &mut Vec<u8>) -> (ret: Result<(), IoErr>)', opts='#[verifier::loop_isolation(false)]',
           rules=[('Self :: FIELD_COUNT', constant(root, rel, name + 'Builder', 'FIELD_COUNT')), ('for offset in offsets . into_iter ( ) { $blkb }', '{ let mut k_ : usize = 0 ; while k_ < offsets . len ( ) { let offset = offsets [ k_ ] ; $blkb k_ = k_ + 1 ; } }'), ('let mut offsets = Vec', 'let mut offsets : Vec < usize > = Vec'), ('Ok ( ( ) )', fin)] + VE + WR,
           requires=['size(%s) < 0x1_0000_0000' % parts], ensures=['ret is Ok', 'final(writer)@ == old(writer)@ + dynv(%s)' % parts],
           proof='let ghost w0 = writer@; let ghost p_ = %s; proof { reveal_with_fuel(cum, %d); }' % (parts, n + 2),
           loops=[Loop(invariant=['k_ <= %d' % n, 'offsets@.len() == %d' % n, 'forall|i: int| 0 <= i < %d ==> #[trigger] offsets@[i] == 4 * (p_.len() + 1) + cum(p_, i)' % n, 'forall|i: int| 0 <= i < %d ==> #[trigger] offsets@[i] < 0x1_0000_0000' % n, 'writer@ =~= w0 + num(size(p_)) + heads(p_, k_ as int)'], decreases='%d - k_' % n,
                       before='proof { reveal_with_fuel(heads, 1); reveal_with_fuel(cum, %d); %s }' % (n + 2, ''))]),
        Fn(T, 'build', props=P, sig='pub fn build(&self) -> (ret: %s)' % name, rules=BUILD, requires=['size(%s) < 0x1_0000_0000' % parts], ensures=['ret.0@ == dynv(%s)' % parts]),
    ])


def union(u, root, rel, P):
    """PublicKey: the kind of key, then the key"""
    entity(u, rel, P, 'PublicKey', None)
    n = constant(root, rel, 'PublicKeyReader', 'ITEMS_COUNT')
    u.text("pub enum PublicKeyUnion { Secp256k1(Secp256k1) }\npub enum PublicKeyUnionReader<'r> { Secp256k1(Secp256k1Reader<'r>) }\npub struct PublicKeyBuilder(pub PublicKeyUnion);")
    u.impl('impl PublicKeyUnion', rel, [
        Fn(r'impl :: core :: convert :: From < Secp256k1 > for PublicKeyUnion', 'from', props=P, ensures=['ret == PublicKeyUnion::Secp256k1(item)']),
        Fn(r'impl :: core :: default :: Default for PublicKeyUnion', 'default', props=P, rules=[(':: core :: default :: Default :: default ( )', 'Secp256k1 :: default ( )')], ensures=['ret is Secp256k1', 'ret->Secp256k1_0.0@ == fv(Seq::<u8>::empty())']),
        Fn(r'impl PublicKeyUnion', 'as_slice', props=P, ensures=['ret@ == self->Secp256k1_0.0@']),
        Fn(r'impl PublicKeyUnion', 'item_id', props=P, rules=VE, ensures=['ret == 0']),
    ])
    u.impl("impl<'r> PublicKeyUnionReader<'r>", rel, [
        Fn(r"impl < 'r > :: core :: convert :: From < Secp256k1Reader < 'r > > for PublicKeyUnionReader < 'r >", 'from', props=P, ensures=['ret == PublicKeyUnionReader::Secp256k1(item)'])])
    pan = [('panic ! ( $m )', '{ assert(false); vstd::pervasive::unreached ( ) }')]
    RI = r"impl < 'r > PublicKeyReader < 'r >"
    reader(u, rel, P, 'PublicKey', [('Self :: ITEMS_COUNT', n)], 'pk_ok(slice@)', fns=[
        Fn(RI, 'item_id', props=P, rules=VE, requires=['self.0@.len() >= 4'], ensures=['ret == le(self.0@, 0)']),
        Fn(RI, 'to_enum', props=P, rules=[('Secp256k1Reader :: new_unchecked ( inner ) . into ( )', 'PublicKeyUnionReader :: from ( Secp256k1Reader :: new_unchecked ( inner ) )')] + pan + VE, requires=['pk_ok(self.0@)'], ensures=['ret->Secp256k1_0.0@ == self.0@.subrange(4, self.0@.len() as int)'])])
    T = r'impl molecule :: prelude :: Builder for PublicKeyBuilder'
    u.text('impl PublicKey { pub fn new_builder() -> (r: PublicKeyBuilder) { PublicKeyBuilder(PublicKeyUnion::default()) } }')
    u.impl('impl PublicKeyBuilder', rel, [
        Fn(r'impl PublicKeyBuilder', 'set', props=P, sig='pub fn set(mut self, v: Secp256k1) -> (ret: Self)', rules=[('v . into ( )', 'PublicKeyUnion :: from ( v )')], ensures=['ret.0 == PublicKeyUnion::Secp256k1(v)']),
        Fn(T, 'write', props=P, sig='pub fn write(&self, writer: &mut Vec<u8>) -> (ret: Result<(), IoErr>)', rules=VE + WR, ensures=['ret is Ok', 'final(writer)@ == old(writer)@ + num(0) + self.0->Secp256k1_0.0@']),
        Fn(T, 'build', props=P, sig='pub fn build(&self) -> (ret: PublicKey)', rules=BUILD, ensures=['ret.0@ =~= num(0) + self.0->Secp256k1_0.0@']),
    ])

def strvec(u, root, rel, P):
    entity(u, rel, P, 'StringVec', ['ret.0@ == dynv(Seq::<Seq<u8>>::empty())'])
    u.parts[-2][2].proof = 'proof { reveal(num); assert(seq![4u8, 0, 0, 0] =~= num(4)); }'
    u.text("pub open spec fn images(s: Seq<String>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i].0@) }\npub struct StringVecBuilder(pub Vec<String>);\npub struct StringVecReaderIterator<'t, 'r>(pub &'t StringVecReader<'r>, pub usize, pub usize);\nimpl StringVec { pub fn new_builder() -> (r: StringVecBuilder) ensures r.0@.len() == 0 { StringVecBuilder(Vec::new()) } }")
    RI = r"impl < 'r > StringVecReader < 'r >"
    ok = 'dyn_ok(self.0@)'
    reader(u, rel, P, 'StringVec', [('for pair in offsets . windows ( 2 ) { $blkb }', '{ let mut k_ : usize = 0 ; while k_ + 1 < offsets . len ( ) { let pair = [ offsets [ k_ ] , offsets [ k_ + 1 ] ] ; proof { let b = slice@ ; assert(offsets@[k_ as int] == off(b, k_ as int)) ; assert(offsets@[k_ + 1] == off(b, k_ + 1)) ; off_le(b, k_ as int) ; assert(part(b, k_ as int) == slice@.subrange(offsets@[k_ as int] as int, offsets@[k_ + 1] as int)) ; } $blkb k_ = k_ + 1 ; } }'), ('offsets . push ( total_size ) ;', PUSHED % '')], 'strs_ok(slice@)', proof='broadcast use lemma_le4;',
        loops=[Loop(invariant=['k_ <= count(slice@)', 'offsets@.len() == count(slice@) + 1', 'dyn_ok(slice@)', 'slice@.len() > 4', 'forall|i: int| 0 <= i <= count(slice@) ==> #[trigger] offsets@[i] == off(slice@, i)', 'forall|i: int| 0 <= i < k_ ==> fv_ok(#[trigger] part(slice@, i))'], decreases='count(slice@) - k_')],
        fns=[
            Fn(RI, 'total_size', props=P, rules=VE, requires=['self.0@.len() >= 4'], ensures=['ret == le(self.0@, 0)']),
            Fn(RI, 'item_count', props=P, rules=VE, requires=[ok], ensures=['ret == count(self.0@)'], proof='proof { broadcast use lemma_le4; }'),
            Fn(RI, 'len', props=P, requires=[ok], ensures=['ret == count(self.0@)']),
            Fn(RI, 'is_empty', props=P, requires=[ok], ensures=['ret == (count(self.0@) == 0)']),
            Fn(RI, 'get', props=P, requires=[ok], ensures=['ret is Some <==> idx < count(self.0@)', 'ret is Some ==> ret->Some_0.0@ == part(self.0@, idx as int)']),
            Fn(RI, 'get_unchecked', props=P, rules=VE, requires=[ok, 'idx < count(self.0@)'], ensures=['ret.0@ == part(self.0@, idx as int)'], proof='let len_ = self.0.len(); proof { broadcast use lemma_le4; off_le(self.0@, idx as int); off_le(self.0@, idx + 1); }'),
            Fn(RI, 'iter', props=P, rules=[('( & self , 0 , self . len ( ) )', '( self , 0 , self . len ( ) )')], requires=[ok], ensures=['ret.0.0@ == self.0@', 'ret.1 == 0', 'ret.2 == count(self.0@)']),
        ])
    u.impl("impl<'t: 'r, 'r> StringVecReaderIterator<'t, 'r>", rel, [
        Fn(r"impl < 't : 'r , 'r > :: core :: iter :: Iterator for StringVecReaderIterator < 't , 'r >", 'next', props=P, sig="pub fn next(&mut self) -> (ret: Option<StringReader<'t>>)",
           requires=['dyn_ok(old(self).0.0@)', 'old(self).2 == count(old(self).0.0@)'],
           ensures=['final(self).0.0@ == old(self).0.0@', 'final(self).2 == old(self).2', 'match ret { Some(x) => old(self).1 < old(self).2 && final(self).1 == old(self).1 + 1 && x.0@ == part(old(self).0.0@, old(self).1 as int), None => old(self).1 >= old(self).2 && final(self).1 == old(self).1 }'])])
    T = r'impl molecule :: prelude :: Builder for StringVecBuilder'
    walk = lambda v, e, b: '{ let mut k_ : usize = 0 ; while k_ < %s . len ( ) { let %s ; %s k_ = k_ + 1 ; } }' % (v, e, b)
    u.impl('impl StringVecBuilder', rel, [
        Fn(r'impl StringVecBuilder', 'set', props=P, ensures=['ret.0@ == v@']),
        Fn(T, 'write', props=P, sig='pub fn write(&self, writer: &mut Vec<u8>) -> (ret: Result<(), IoErr>)', opts='#[verifier::loop_isolation(false)]',
           rules=[('let ( total_size , offsets ) = self . 0 . iter ( ) . fold ( $a , | ( start , mut offsets ) , inner | { $blkf } , ) ;', 'let mut acc_ : ( usize , Vec < usize > ) = $a ; ' + walk('self . 0', 'inner = & self . 0 [ k_ ]', 'proof { cum_up(p_, k_ as int, k_ + 1) ; cum_up(p_, k_ + 1, p_.len() as int) ; } let ( start , offsets_ ) = acc_ ; let mut offsets = offsets_ ; acc_ = { $blkf } ;') + ' let ( total_size , offsets ) = acc_ ;'),
                  ('for offset in offsets . into_iter ( ) { $blkb }', walk('offsets', 'offset = offsets [ k_ ]', 'proof { cum_up(p_, k_ as int, p_.len() as int) ; } $blkb')),
                  ('for inner in self . 0 . iter ( ) { $blkb }', walk('self . 0', 'inner = & self . 0 [ k_ ]', '$blkb'))] + VE + WR,
           requires=['size(images(self.0@)) < 0x1_0000_0000'], ensures=['ret is Ok', 'final(writer)@ == old(writer)@ + dynv(images(self.0@))'],
           proof='let ghost w0 = writer@; let ghost p_ = images(self.0@); proof { cum_up(p_, 0, p_.len() as int); }',
           loops=[Loop(invariant=['k_ <= p_.len()', 'acc_.0 == 4 * (p_.len() + 1) + cum(p_, k_ as int)', 'acc_.1@.len() == k_', 'forall|i: int| 0 <= i < k_ ==> #[trigger] acc_.1@[i] == 4 * (p_.len() + 1) + cum(p_, i)'], decreases='p_.len() - k_'),
                  Loop(invariant=['k_ <= p_.len()', 'writer@ =~= w0 + num(size(p_)) + heads(p_, k_ as int)'], decreases='p_.len() - k_'),
                  Loop(invariant=['k_ <= p_.len()', 'writer@ =~= w0 + num(size(p_)) + heads(p_, p_.len() as int) + flat(p_, k_ as int)'], decreases='p_.len() - k_', after='proof { assert(writer@ =~= w0 + dynv(p_)); }')]),
        Fn(T, 'build', props=P, sig='pub fn build(&self) -> (ret: StringVec)', rules=BUILD, requires=['size(images(self.0@)) < 0x1_0000_0000'], ensures=['ret.0@ == dynv(images(self.0@))']),
    ])

PROOF_DEC = 'proof { %s }'
HAND = [('. set ( $x . into_iter ( ) . map ( Into :: into ) . collect ( ) )', '. set ( $x )'), ('. set ( $x . into_iter ( ) . map ( Into :: into ) . collect ( ) , )', '. set ( $x )'),
        ('self . $idf . into_bytes ( )', 'str_bytes ( self . $idf )'), ('version . into_bytes ( )', 'str_bytes ( version )'), ('self . pubkey . to_vec ( )', 'bytes_vec ( & self . pubkey )'),
        ('. raw_data ( ) . to_owned ( )', '. raw_data ( ) . own ( )'), ('String :: from_utf8 ( $x ) . ok ( ) ?', 'match from_utf8 ( $x ) { Ok ( s_ ) => s_ , Err ( _ ) => return None }'),
        ('let reader = $x . ok ( ) ? ;', 'let reader = match $x { Ok ( r_ ) => r_ , Err ( _ ) => return None } ;'),
        ('let union = reader', 'let union_ = reader'), ('match union {', 'match union_ {')]

def build(root='/repo'):
    u = Unit('codec_mol', root)
    u.off = {'flatc'}
    u.text(HEAD + BYTES + LAYOUT + TEXT + LAY + MSG + STR)
    H, N = ['C13', 'C14', 'C15'], ['C19']
    u.text('pub mod handshake_mol {\nuse super::*;\npub type MB = super::Bytes;\npub type VResult<T> = Result<T, VErr>;')
    bytevec(u, root, HM, H, 'Secp256k1')
    bytevec(u, root, HM, H, 'Bytes')
    bytevec(u, root, HM, H, 'String')
    union(u, root, HM, H)
    table(u, root, HM, H, 'Propose', [('rand', 'Bytes', 'fv_ok'), ('pubkey', 'Bytes', 'fv_ok'), ('exchanges', 'String', 'fv_ok'), ('ciphers', 'String', 'fv_ok'), ('hashes', 'String', 'fv_ok')])
    table(u, root, HM, H, 'Exchange', [('epubkey', 'Bytes', 'fv_ok'), ('signature', 'Bytes', 'fv_ok')])
    u.text('}\npub mod protocol_select_mol {\nuse super::*;\npub type MB = super::Bytes;\npub type VResult<T> = Result<T, VErr>;')
    bytevec(u, root, PM, N, 'String')
    strvec(u, root, PM, N)
    table(u, root, PM, N, 'ProtocolInfo', [('name', 'String', 'fv_ok'), ('support_versions', 'StringVec', 'strs_ok')])
    u.text('}')
    u.item(HF, 'struct', 'Propose')
    c = lambda n: dict(requires=M[n][0], ensures=M[n][1])
    said = 'broadcast use said_utf8;'
    u.impl('impl Propose', HF, [
        Fn(r'impl Propose', 'encode', props=H, rules=HAND, proof='proof { propose_size(self.rand@, self.pubkey@, utf8(self.exchange@), utf8(self.ciphers@), utf8(self.hashes@)); }', **c('Propose::encode')),
        Fn(r'impl Propose', 'decode', props=H, rules=HAND, proof=said, **c('Propose::decode')),
    ])
    u.item(HF, 'struct', 'Exchange')
    u.impl('impl Exchange', HF, [
        Fn(r'impl Exchange', 'encode', props=H, rules=HAND, proof='proof { exchange_size(self.epubkey@, self.signature@); }', **c('Exchange::encode')),
        Fn(r'impl Exchange', 'decode', props=H, rules=HAND, **c('Exchange::decode')),
    ])
    u.item(HF, 'enum', 'PublicKey')
    u.impl('impl PublicKey', HF, [
        Fn(r'impl PublicKey', 'inner_ref', props=H, ensures=['ret@ == self->Secp256k1_0@']),
        Fn(r'impl PublicKey', 'inner', props=H, ensures=['ret@ == self->Secp256k1_0@']),
        Fn(r'impl PublicKey', 'encode', props=H, rules=HAND, **c('PublicKey::encode')),
        Fn(r'impl PublicKey', 'decode', props=H, rules=HAND, **c('PublicKey::decode')),
    ])
    u.item(PF, 'struct', 'ProtocolInfo')
    u.text('pub open spec fn chars(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }')
    u.impl('impl ProtocolInfo', PF, [
        Fn(r'impl ProtocolInfo', 'encode', props=N, opts='#[verifier::loop_isolation(false)]',
           rules=[('for version in self . support_versions { $blkb }', '{ let mut it_ = Items :: of ( self . support_versions ) ; loop { match it_ . next ( ) { Some ( version ) => { $blkb } None => { break ; } } } }'), ('let mut versions = Vec', 'let mut versions : Vec < protocol_select_mol :: String > = Vec')] + HAND,
           proof='let ghost v_ = self.support_versions@; let ghost b_ = utf8s(chars(v_)); proof { info_size(utf8(self.name@), b_); }',
           loops=[Loop(invariant=['versions@.len() + it_.todo().len() == v_.len()', 'forall|i: int| 0 <= i < it_.todo().len() ==> #[trigger] it_.todo()[i] == v_[i + versions@.len()]', 'forall|i: int| 0 <= i < versions@.len() ==> (#[trigger] versions@[i]).0@ == fv(b_[i])'], decreases='it_.todo().len()',
                       start='proof { if it_.todo().len() > 0 { assert(it_.todo()[0] == v_[versions@.len() as int]); assert(b_[versions@.len() as int].len() < 0x1_0000_0000); } }', after='proof { assert(protocol_select_mol::images(versions@) =~= texts(b_)); }')], **c('ProtocolInfo::encode')),
        Fn(r'impl ProtocolInfo', 'decode', props=N, opts='#[verifier::loop_isolation(false)]',
           rules=[('for version in $x . iter ( ) { $blkb }', '{ let from_ = $x ; let mut it_ = from_ . iter ( ) ; loop { match it_ . next ( ) { Some ( version ) => { $blkb } None => { break ; } } } }'), ('let mut supports = Vec', 'let mut supports : Vec < String > = Vec')] + HAND,
           proof=said,
           loops=[Loop(invariant=['info_ok(data@)', 'it_.0.0@ == part(data@, 1)', 'it_.2 == count(part(data@, 1))', 'it_.1 == supports@.len()', 'it_.1 <= it_.2', 'forall|i: int| 0 <= i < supports@.len() ==> utf8((#[trigger] supports@[i])@) == version(data@, i)'], decreases='it_.2 - it_.1',
                       start='proof { if it_.1 < it_.2 { assert(fv_ok(part(part(data@, 1), it_.1 as int))); assert(version(data@, it_.1 as int) == raw(part(part(data@, 1), it_.1 as int))); } }',
                       after='proof { assert forall|i: int| 0 <= i < count(part(data@, 1)) implies is_text(#[trigger] version(data@, i)) && said(version(data@, i)) == supports@[i]@ by { assert(utf8(supports@[i]@) == version(data@, i)); } assert(chars(supports@) =~= versions_of(data@)); }')], **c('ProtocolInfo::decode')),
    ])
    u.text(FOOT)
    return u
