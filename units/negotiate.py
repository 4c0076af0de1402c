"""Protocol negotiation (C19): version selection and both ends of the exchange."""
from vx import Unit, Fn, Loop
from common import HEAD, BYTES, FOOT
from msgs import WIRE, stub

F = 'tentacle/src/protocol_select/mod.rs'
PRE = r"""
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Ordering { Less, Equal, Greater }
// what std::cmp::Ord promises
pub trait VOrd: Sized {
  spec fn lt(&self, o: &Self) -> bool;
  proof fn laws(a: &Self, b: &Self, c: &Self) ensures !a.lt(a), a.lt(b) && b.lt(c) ==> a.lt(c), a.lt(b) || b.lt(a) || *a == *b;
  fn cmp(&self, o: &Self) -> (r: Ordering) ensures r == (if self.lt(o) { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater });
  fn clone(&self) -> (r: Self) ensures r == *self;
}
pub struct Rev<'a, T> { pub s: &'a [T], pub k: usize }
impl<'a, T> Rev<'a, T> {
  pub fn of(s: &'a [T]) -> (r: Rev<'a, T>) ensures r.s == s, r.k == s@.len() { Rev { s, k: s.len() } }
  pub fn next(&mut self) -> (r: Option<&'a T>) requires old(self).k <= old(self).s@.len()
    ensures final(self).s == old(self).s, match r { Some(x) => old(self).k > 0 && final(self).k == old(self).k - 1 && *x == old(self).s@[final(self).k as int], None => old(self).k == 0 && final(self).k == 0 }
  { if self.k == 0 { None } else { self.k = self.k - 1; Some(&self.s[self.k]) } }
}
pub open spec fn sorted<T: VOrd>(s: Seq<T>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> !s[j].lt(&s[i]) }
// the greatest element both lists contain, or none
pub open spec fn best<T: VOrd>(a: Seq<T>, b: Seq<T>, r: Option<T>) -> bool {
  match r {
    Some(v) => a.contains(v) && b.contains(v) && forall|x: T| a.contains(x) && b.contains(x) ==> !v.lt(&x),
    None => forall|x: T| !(a.contains(x) && b.contains(x)),
  }
}
pub proof fn best_unique<T: VOrd>(a: Seq<T>, b: Seq<T>, r: Option<T>, s: Option<T>) requires best(a, b, r), best(a, b, s) ensures r == s
{ if r is Some && s is Some { T::laws(&r->Some_0, &s->Some_0, &s->Some_0); } }
pub proof fn best_symmetric<T: VOrd>(a: Seq<T>, b: Seq<T>, r: Option<T>) requires best(a, b, r) ensures best(b, a, r) { }
// the tops of both lists beyond li / ri are not common
pub open spec fn none_above<T>(a: Seq<T>, b: Seq<T>, li: int, ri: int) -> bool { (forall|j: int| li < j < a.len() ==> !b.contains(#[trigger] a[j])) && (forall|j: int| ri < j < b.len() ==> !a.contains(#[trigger] b[j])) }
pub proof fn drop_right<T: VOrd>(a: Seq<T>, b: Seq<T>, li: int, ri: int)
  requires sorted(a), sorted(b), none_above(a, b, li, ri), 0 <= li < a.len(), 0 <= ri < b.len(), a[li].lt(&b[ri]) ensures none_above(a, b, li, ri - 1)
{
  assert(!a.contains(b[ri])) by { if a.contains(b[ri]) {
    let j = choose|j: int| 0 <= j < a.len() && a[j] == b[ri];
    if j > li { assert(!b.contains(a[j])); } else if j == li { T::laws(&a[li], &b[ri], &b[ri]); } else { assert(!a[li].lt(&a[j])); }
  } }
}
pub proof fn drop_left<T: VOrd>(a: Seq<T>, b: Seq<T>, li: int, ri: int)
  requires sorted(a), sorted(b), none_above(a, b, li, ri), 0 <= li < a.len(), 0 <= ri < b.len(), b[ri].lt(&a[li]) ensures none_above(a, b, li - 1, ri)
{
  assert(!b.contains(a[li])) by { if b.contains(a[li]) {
    let j = choose|j: int| 0 <= j < b.len() && b[j] == a[li];
    if j > ri { assert(!a.contains(b[j])); } else if j == ri { T::laws(&b[ri], &a[li], &a[li]); } else { assert(!b[ri].lt(&b[j])); }
  } }
}
pub proof fn hit<T: VOrd>(a: Seq<T>, b: Seq<T>, li: int, ri: int)
  requires sorted(a), sorted(b), none_above(a, b, li, ri), 0 <= li < a.len(), 0 <= ri < b.len(), a[li] == b[ri] ensures best(a, b, Some(a[li]))
{
  assert(b.contains(b[ri])); assert(a.contains(a[li]));
  assert forall|x: T| a.contains(x) && b.contains(x) implies !a[li].lt(&x) by {
    let j = choose|j: int| 0 <= j < a.len() && a[j] == x;
    if j > li { assert(!b.contains(a[j])); } else if j == li { T::laws(&x, &x, &x); } else { assert(!a[li].lt(&a[j])); }
  }
}
pub proof fn exhausted<T: VOrd>(a: Seq<T>, b: Seq<T>, li: int, ri: int) requires none_above(a, b, li, ri), li < 0 || ri < 0 ensures best(a, b, None::<T>)
{
  assert forall|x: T| !(a.contains(x) && b.contains(x)) by { if a.contains(x) && b.contains(x) {
    let i = choose|i: int| 0 <= i < a.len() && a[i] == x; let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
    if li < 0 { assert(!b.contains(a[i])); } else { assert(!a.contains(b[j])); }
  } }
}
"""
NEG = r"""
// ---------------- the exchange
#[verifier::external_body]
pub struct Str { x: String }
impl Str {
  pub uninterp spec fn view(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn clone(&self) -> (r: Str) ensures r == *self { unimplemented!() }
}
impl VOrd for Str {
  uninterp spec fn lt(&self, o: &Self) -> bool;
  #[verifier::external_body]
  proof fn laws(a: &Self, b: &Self, c: &Self) { }
  #[verifier::external_body]
  fn cmp(&self, o: &Self) -> Ordering { unimplemented!() }
  #[verifier::external_body]
  fn clone(&self) -> Self { unimplemented!() }
}
#[verifier::external_body]
pub fn clone_list(v: &Vec<Str>) -> (r: Vec<Str>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn sort_list(v: &mut Vec<Str>) ensures sorted(final(v)@), forall|x: Str| #![trigger final(v)@.contains(x)] #![trigger old(v)@.contains(x)] final(v)@.contains(x) <==> old(v)@.contains(x) { unimplemented!() }
pub fn one_or_none(o: Option<Str>) -> (r: Vec<Str>) ensures r@ == (match o { Some(v) => seq![v], None => Seq::<Str>::empty() }) { match o { Some(v) => { let mut r = Vec::new(); r.push(v); r } None => Vec::new() } }
pub fn clone_opt(o: &Option<Str>) -> (r: Option<Str>) ensures r == *o { match o { Some(v) => Some(v.clone()), None => None } }
#[verifier::external_body]
pub struct IoError { x: usize }
pub enum ErrorKind { InvalidData, UnexpectedEof }
impl IoError {
  #[verifier::external_body]
  pub fn from(k: ErrorKind) -> IoError { unimplemented!() }
  #[verifier::external_body]
  pub fn new(k: ErrorKind, m: &str) -> IoError { unimplemented!() }
}
#[verifier::external_body]
pub struct SelectFn { x: usize }
impl SelectFn {
  pub uninterp spec fn choice(&self, local: Seq<Str>, remote: Seq<Str>) -> Option<Str>;
  #[verifier::external_body]
  pub fn call(&self, local: &Vec<Str>, remote: &Vec<Str>) -> (r: Option<Str>) ensures r == self.choice(local@, remote@) { unimplemented!() }
}
#[verifier::external_body]
pub struct ProtoMap { x: usize }
impl ProtoMap {
  pub uninterp spec fn view(&self) -> Map<Str, (ProtocolInfo, Option<SelectFn>)>;
  #[verifier::external_body]
  pub fn remove(&mut self, k: &Str) -> (r: Option<(ProtocolInfo, Option<SelectFn>)>) ensures r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None }), final(self)@ == old(self)@.remove(*k) { unimplemented!() }
}
// the negotiation message, as wire lays it out
pub open spec fn chars(v: Seq<Str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
// a string is its characters
#[verifier::external_body]
pub proof fn axiom_str(a: Str, b: Str) requires a@ == b@ ensures a == b { }
pub open spec fn str_of(c: Seq<char>) -> Str { choose|s: Str| s@ == c }
pub open spec fn strs_of(c: Seq<Seq<char>>) -> Seq<Str> { Seq::new(c.len(), |i: int| str_of(c[i])) }
pub broadcast proof fn lemma_str_of(s: Str) ensures #[trigger] str_of(s@) == s { axiom_str(str_of(s@), s); }
pub broadcast proof fn lemma_strs_of(v: Seq<Str>) ensures #[trigger] strs_of(chars(v)) == v { broadcast use lemma_str_of; assert(strs_of(chars(v)) =~= v); }
pub open spec fn image(name: Str, versions: Seq<Str>) -> Seq<u8> { enc_info(utf8(name@), utf8s(chars(versions))) }
pub open spec fn meaning(b: Seq<u8>) -> Option<(Str, Seq<Str>)> { match dec_info(b) { Some(m) => Some((str_of(m.0), strs_of(m.1))), None => None } }
// the message can be written: its size fits the four byte lengths of the layout
pub open spec fn fits(name: Str, versions: Seq<Str>) -> bool { 16 + utf8(name@).len() + texts_len(utf8s(chars(versions))) < 0x1_0000_0000 }
pub proof fn image_read_back(name: Str, versions: Seq<Str>) requires fits(name, versions) ensures meaning(image(name, versions)) == Some((name, versions))
{ broadcast use lemma_str_of, lemma_strs_of; info_back(name@, chars(versions)); }
pub open spec fn small(v: Str) -> bool { utf8(v@).len() < 0x4000_0000 }
pub broadcast proof fn one_fits(v: Seq<Str>) requires v.len() <= 1, v.len() == 1 ==> small(v[0]) ensures #[trigger] texts_len(utf8s(chars(v))) <= 0x4000_0010
{ broadcast use wire::lemma_num_len; reveal_with_fuel(wire::cum, 3); if v.len() == 1 { assert(wire::texts(utf8s(chars(v)))[0] == wire::fv(utf8(v[0]@))); } }
pub broadcast proof fn name_fits(d: Seq<u8>) requires d.len() <= 0x80_0000 ensures (#[trigger] dec_info(d)) is Some ==> utf8(dec_info(d)->Some_0.0).len() <= 0x80_0000 { if dec_info(d) is Some { name_len(d); } }
impl ProtocolInfo {
""" + stub('ProtocolInfo::encode', 'encode(self) -> (ret: Bytes)') + stub('ProtocolInfo::decode', 'decode(data: &BytesMut) -> (ret: Option<ProtocolInfo>)') + r"""}
// length delimited transport: what was sent, what will be read next (LengthDelimitedCodec::new refuses frames above 8 MiB)
#[verifier::external_body]
pub struct Sock { x: usize }
impl Sock {
  pub uninterp spec fn sent(&self) -> Seq<Seq<u8>>;
  pub uninterp spec fn next(&self) -> Option<Result<Seq<u8>, IoError>>;
  #[verifier::external_body]
  pub fn send(&mut self, d: Bytes) -> (r: Result<(), IoError>) ensures final(self).next() == old(self).next(), r is Ok ==> final(self).sent() == old(self).sent().push(d@) { unimplemented!() }
  #[verifier::external_body]
  pub fn into_future(self) -> (r: (Option<Result<BytesMut, IoError>>, Sock))
    ensures r.1.sent() == self.sent(), match r.0 { Some(Ok(b)) => self.next() is Some && self.next()->Some_0 is Ok && b@ == self.next()->Some_0->Ok_0 && b@.len() <= 0x80_0000, Some(Err(e)) => self.next() is Some && self.next()->Some_0 is Err, None => self.next() is None } { unimplemented!() }
}
pub struct Handle { pub f: Sock }
pub fn framed(h: Handle) -> (r: Sock) ensures r == h.f { h.f }
pub fn transpose(o: Option<Result<BytesMut, IoError>>) -> (r: Result<Option<BytesMut>, IoError>)
  ensures r == (match o { Some(Ok(b)) => Ok::<Option<BytesMut>, IoError>(Some(b)), Some(Err(e)) => Err::<Option<BytesMut>, IoError>(e), None => Ok::<Option<BytesMut>, IoError>(None) })
{ match o { Some(Ok(b)) => Ok(Some(b)), Some(Err(e)) => Err(e), None => Ok(None) } }
pub open spec fn heard(h: Handle) -> Option<(Str, Seq<Str>)> { if h.f.next() is Some && h.f.next()->Some_0 is Ok { meaning(h.f.next()->Some_0->Ok_0) } else { None } }
// the version the server settles on
pub open spec fn settled(m: Map<Str, (ProtocolInfo, Option<SelectFn>)>, name: Str, theirs: Seq<Str>, v: Option<Str>) -> bool {
  if !m.dom().contains(name) { v is None } else {
    match m[name].1 { Some(f) => v == f.choice(m[name].0.support_versions@, theirs), None => best(m[name].0.support_versions@, theirs, v) }
  }
}
pub open spec fn listed(v: Option<Str>) -> Seq<Str> { match v { Some(x) => seq![x], None => Seq::<Str>::empty() } }
// both ends end with the same name and version: the client that hears what the server sent gets exactly the server's result
pub proof fn both_ends_agree(name: Str, v: Option<Str>, h: Handle)
  requires fits(name, listed(v)), h.f.next() is Some, h.f.next()->Some_0 is Ok, h.f.next()->Some_0->Ok_0 == image(name, listed(v))
  ensures heard(h) == Some((name, listed(v))), v == (if listed(v).len() > 0 { Some(listed(v).last()) } else { None::<Str> })
{ image_read_back(name, listed(v)); }
// what the server may answer with is small enough to be written
pub open spec fn short(m: Map<Str, (ProtocolInfo, Option<SelectFn>)>) -> bool {
  forall|n: Str| #[trigger] m.dom().contains(n) ==> (forall|x: Str| m[n].0.support_versions@.contains(x) ==> small(x))
    && (m[n].1 is Some ==> forall|a: Seq<Str>, b: Seq<Str>| #![trigger m[n].1->Some_0.choice(a, b)] m[n].1->Some_0.choice(a, b) is Some ==> small(m[n].1->Some_0.choice(a, b)->Some_0))
}
"""

def build(root='/repo'):
    u = Unit('negotiate', root)
    P = ['C19']
    u.text(HEAD + BYTES + WIRE + 'use wire::{utf8, utf8s, enc_info, dec_info, texts_len, info_back, name_len};' + PRE)
    u.fn(F, Fn(None, 'select_version', props=P, rules=[('T : Ord + Clone', 'T : VOrd'), ('$ids . iter ( ) . rev ( )', 'Rev :: of ( $ids )')], opts='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]',
        requires=['sorted(local@)', 'sorted(remote@)'], ensures=['best(local@, remote@, ret)'], proof='let ghost a_ = local@; let ghost b_ = remote@;',
        loops=[Loop('while let ( Some ( l ) , Some ( r ) ) = ( local , remote )',
            before='let ghost mut li: int = a_.len() - 1; let ghost mut ri: int = b_.len() - 1;',
            invariant=['local_iter.s@ == a_', 'remote_iter.s@ == b_', 'none_above(a_, b_, li, ri)', '-1 <= li < a_.len()', '-1 <= ri < b_.len()', 'local is Some == (li >= 0)', 'remote is Some == (ri >= 0)', 'local is Some ==> li == local_iter.k && *local->Some_0 == a_[li]', 'remote is Some ==> ri == remote_iter.k && *remote->Some_0 == b_[ri]', 'local is None ==> local_iter.k == 0', 'remote is None ==> remote_iter.k == 0', 'local_iter.k <= a_.len()', 'remote_iter.k <= b_.len()'],
            decreases='li + ri + 2', ensures=['local is None || remote is None'],
            start='proof { if a_[li] == b_[ri] { hit(a_, b_, li, ri); T::laws(&a_[li], &a_[li], &a_[li]); } else if a_[li].lt(&b_[ri]) { drop_right(a_, b_, li, ri); ri = ri - 1; } else { T::laws(&a_[li], &b_[ri], &b_[ri]); drop_left(a_, b_, li, ri); li = li - 1; } }',
            after='proof { exhausted(a_, b_, li, ri); }')]))
    u.item(F, 'struct', 'ProtocolInfo', rules=[('String', 'Str')])
    u.text(NEG)
    ar = [('. await', ''), ('async fn', 'fn'), ('Framed :: new ( $x , LengthDelimitedCodec :: new ( ) )', 'framed ( $x )'), ('raw_remote_info . transpose ( ) ?', 'transpose ( raw_remote_info ) ?'), ('$idp :: decode ( & $idi ) . ok_or_else ( || $e ) ?', 'match $idp :: decode ( & $idi ) { Some ( x_ ) => x_ , None => { return Err ( $e ) ; } }'),
          ('io :: ErrorKind', 'ErrorKind'), ('io :: Error :: from', 'IoError :: from'), ('io :: Error :: new', 'IoError :: new'), ('let version = proto_infos . remove ( $k ) . and_then ( | ( $ida , $idb ) | { $idc . map ( | $idf | $idf2 ( & $x , & $y ) ) . unwrap_or_else ( || $e ) } ) ;', 'let version = match proto_infos . remove ( $k ) { Some ( ( $ida , $idb ) ) => { match $idc { Some ( $idf ) => $idf2 . call ( & $x , & $y ) , None => $e } } , None => None } ;'),
          ('$idx . support_versions . clone ( )', 'clone_list ( & $idx . support_versions )'), ('$idl . sort ( )', 'sort_list ( & mut $idl )'), ('version . clone ( ) . into_iter ( ) . collect ( )', 'one_or_none ( clone_opt ( & version ) )')]
    RT = '-> (ret: Result<(Sock, Str, Option<Str>), IoError>)'
    base = ['handle.f.sent().len() == 0']
    u.fn(F, Fn(None, 'client_select', props=P, rules=ar, sig='pub fn client_select(handle: Handle, proto_info: ProtocolInfo) ' + RT, requires=base + ['fits(proto_info.name, proto_info.support_versions@)'], proof='broadcast use lemma_str_of, lemma_strs_of;',
        ensures=['ret is Ok ==> ret->Ok_0.0.sent() =~= seq![image(proto_info.name, proto_info.support_versions@)]', 'ret is Ok ==> heard(handle) is Some && ret->Ok_0.1 == heard(handle)->Some_0.0 && ret->Ok_0.2 == (if heard(handle)->Some_0.1.len() > 0 { Some(heard(handle)->Some_0.1.last()) } else { None })', 'heard(handle) is None ==> ret is Err']))
    u.fn(F, Fn(None, 'server_select', props=P, rules=ar, sig='pub fn server_select(handle: Handle, mut proto_infos: ProtoMap) ' + RT, requires=base + ['short(proto_infos@)'], proof='broadcast use lemma_str_of, lemma_strs_of, one_fits, name_fits;',
        ensures=['heard(handle) is None ==> ret is Err', 'ret is Ok ==> ret->Ok_0.1 == heard(handle)->Some_0.0 && settled(proto_infos@, ret->Ok_0.1, heard(handle)->Some_0.1, ret->Ok_0.2)', 'ret is Ok ==> ret->Ok_0.0.sent() =~= seq![image(ret->Ok_0.1, listed(ret->Ok_0.2))]'],
        tail='', ))
    u.text(FOOT)
    return u
