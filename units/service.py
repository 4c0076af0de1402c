"""The service: sessions (C24), addressing of messages (C25), pending attempts (C27), counting queued bytes (C22)."""
from vx import Unit, Fn, Loop
import buffer
from common import HEAD, BYTES, FOOT

S = 'tentacle/src/service.rs'
CX = 'tentacle/src/context.rs'
BU = 'tentacle/src/builder.rs'
CF = 'tentacle/src/service/config.rs'
EV = 'tentacle/src/service/event.rs'
CT = 'tentacle/src/service/control.rs'
HP = 'tentacle/src/service/helper.rs'
SE = 'tentacle/src/session.rs'
CH = 'tentacle/src/channel/mod.rs'
LB = 'tentacle/src/lib.rs'
ER = 'tentacle/src/error.rs'

PRE = r"""
pub type StreamId = usize;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct ProtocolId(pub usize);
#[derive(Clone, Copy)]
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
pub struct Opaque { pub x: usize }
impl Opaque {
  #[verifier::external_body]
  pub fn poll_shutdown(&mut self, cx: &mut Context) -> Poll<Result<(), usize>> { unimplemented!() }
}
#[verifier::external_body]
pub struct PeerId { x: usize }
impl PeerId {
  #[verifier::external_body]
  pub fn differs(&self, o: &PeerId) -> (r: bool) ensures r == (*self != *o) { unimplemented!() }
}
#[verifier::external_body]
pub struct PublicKey { x: usize }
impl PublicKey {
  pub uninterp spec fn pid(&self) -> PeerId;
  #[verifier::external_body]
  pub fn peer_id(&self) -> (r: PeerId) ensures r == self.pid() { unimplemented!() }
}
#[verifier::external_body]
pub fn holds_key(k: &Option<PublicKey>, key: &PublicKey) -> (r: bool) ensures r == (*k == Some(*key)) { unimplemented!() }
#[verifier::external_body]
pub struct Multiaddr { x: usize }
impl Multiaddr {
  // the peer id an address names, if any (proved in the unit `multiaddr`)
  pub uninterp spec fn names(&self) -> Option<PeerId>;
  #[verifier::external_body]
  pub fn clone(&self) -> (r: Multiaddr) ensures r == *self { unimplemented!() }
  #[verifier::external_body]
  pub fn push_peer(&mut self, key: &PublicKey) ensures final(self).names() == Some(key.pid()) { unimplemented!() }
}
#[verifier::external_body]
pub fn extract_peer_id(a: &Multiaddr) -> (r: Option<PeerId>) ensures r == a.names() { unimplemented!() }
#[verifier::external_body]
pub struct Counter { x: usize }
impl Counter {
  pub uninterp spec fn share(&self) -> nat;
  // which counter it is
  pub uninterp spec fn cell(&self) -> int;
  pub uninterp spec fn value(&self) -> nat;
  #[verifier::external_body]
  pub fn of(n: usize) -> (r: Counter) ensures r.share() == n, r.value() == n { unimplemented!() }
  #[verifier::external_body]
  pub fn fetch_add(&mut self, n: usize, o: Ordering) -> (r: usize) ensures final(self).share() == old(self).share() + n, final(self).value() == old(self).value() + n, final(self).cell() == old(self).cell() { unimplemented!() }
  #[verifier::external_body]
  pub fn load(&self, o: Ordering) -> (r: usize) ensures r == self.value() { unimplemented!() }
}
#[verifier::external_body]
pub struct Flag { x: usize }
impl Flag {
  #[verifier::external_body]
  pub fn clone(&self) -> (r: Flag) ensures r.cell() == self.cell() { unimplemented!() }
  pub uninterp spec fn on(&self) -> bool;
  pub uninterp spec fn cell(&self) -> int;
  #[verifier::external_body]
  pub fn store(&mut self, b: bool, o: Ordering) ensures final(self).on() == b { unimplemented!() }
  #[verifier::external_body]
  pub fn of(b: bool) -> (r: Flag) { unimplemented!() }
  #[verifier::external_body]
  pub fn load(&self, o: Ordering) -> (r: bool) { unimplemented!() }
}
// what a queued event says, as the receiving session reads it
pub enum Note { Msg(SessionId, ProtocolId, Seq<u8>), Other }
pub open spec fn note(e: SessionEvent) -> Note { match e { SessionEvent::ProtocolMessage { id, proto_id, data } => Note::Msg(id, proto_id, data@), _ => Note::Other } }
pub open spec fn weight(n: Note) -> nat { match n { Note::Msg(_, _, d) => d.len(), Note::Other => 0 } }
pub open spec fn bytes_of(s: Seq<(bool, Note)>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { bytes_of(s.drop_last()) + weight(s.last().1) } }
pub broadcast proof fn bytes_push(s: Seq<(bool, Note)>, n: (bool, Note)) ensures #[trigger] bytes_of(s.push(n)) == bytes_of(s) + weight(n.1) { assert(s.push(n).drop_last() =~= s); }
#[verifier::external_body]
pub struct SessionEnd { x: usize }
impl SessionEnd { pub uninterp spec fn chan(&self) -> int; }
#[verifier::external_body]
pub fn channel(n: usize) -> (r: (PrioritySender<SessionEvent>, SessionEnd)) ensures r.0.log() == Seq::<(bool, SessionEvent)>::empty(), r.0.chan() == r.1.chan() { unimplemented!() }
"""
QUEUE = r"""
// ---------------- the prioritised buffer of a session, and everything that was ever put into it
pub open spec fn only<X>(s: Seq<(bool, X)>, high: bool) -> Seq<(bool, X)> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.last().0 == high { only(s.drop_last(), high).push(s.last()) } else { only(s.drop_last(), high) } }
pub proof fn only_push<X>(s: Seq<(bool, X)>, x: (bool, X), high: bool) ensures only(s.push(x), high) == (if x.0 == high { only(s, high).push(x) } else { only(s, high) }) { assert(s.push(x).drop_last() =~= s); }
pub proof fn only_add<X>(a: Seq<(bool, X)>, b: Seq<(bool, X)>, high: bool) ensures only(a + b, high) =~= only(a, high) + only(b, high) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { only_add(a, b.drop_last(), high); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); } }
pub proof fn only_tag<X>(s: Seq<X>, h: bool, high: bool) ensures only(tag(s, h), high) =~= (if h == high { tag(s, h) } else { Seq::<(bool, X)>::empty() }) decreases s.len()
{ if s.len() > 0 { only_tag(s.drop_last(), h, high); assert(tag(s, h).drop_last() =~= tag(s.drop_last(), h)); assert(tag(s, h).last() == (h, s.last())); } }
pub open spec fn notes(s: Seq<(bool, SessionEvent)>) -> Seq<(bool, Note)> { Seq::new(s.len(), |i: int| (s[i].0, note(s[i].1))) }
pub proof fn notes_push(s: Seq<(bool, SessionEvent)>, x: (bool, SessionEvent)) ensures notes(s.push(x)) =~= notes(s).push((x.0, note(x.1))) { }
pub struct EvBuffer { pub inner: PriorityBuffer<SessionEvent>, pub put: Ghost<Seq<(bool, Note)>>, pub emptied: Ghost<nat> }
impl EvBuffer {
  pub open spec fn queued(&self) -> Seq<(bool, Note)> { self.put@ }
  // the bytes that were waiting when it was emptied
  pub open spec fn emptied(&self) -> nat { self.emptied@ }
  // what was put in has been passed on or is waiting, in the order of each priority, unless the buffer was emptied or nobody receives
  pub open spec fn whole(&self) -> bool { self.emptied@ > 0 || self.inner.sender.gone() || (notes(only(self.inner.all(), true)) == only(self.put@, true) && notes(only(self.inner.all(), false)) == only(self.put@, false)) }
  pub proof fn lemma_parts(&self) ensures only(self.inner.all(), true) == only(self.inner.sender.log(), true) + tag(self.inner.high_buffer@, true), only(self.inner.all(), false) == only(self.inner.sender.log(), false) + tag(self.inner.normal_buffer@, false)
  {
    let b = self.inner;
    only_add(b.sender.log(), b.waiting(), true); only_add(b.sender.log(), b.waiting(), false); only_add(tag(b.high_buffer@, true), tag(b.normal_buffer@, false), true); only_add(tag(b.high_buffer@, true), tag(b.normal_buffer@, false), false);
    only_tag(b.high_buffer@, true, true); only_tag(b.high_buffer@, true, false); only_tag(b.normal_buffer@, false, true); only_tag(b.normal_buffer@, false, false);
    assert(tag(b.high_buffer@, true) + Seq::<(bool, SessionEvent)>::empty() =~= tag(b.high_buffer@, true)); assert(Seq::<(bool, SessionEvent)>::empty() + tag(b.normal_buffer@, false) =~= tag(b.normal_buffer@, false));
  }
  pub fn new(s: PrioritySender<SessionEvent>) -> (r: EvBuffer) requires s.log() == Seq::<(bool, SessionEvent)>::empty() ensures r.queued() == Seq::<(bool, Note)>::empty(), r.whole(), r.emptied() == 0, r.inner.sender.chan() == s.chan()
  { let r = EvBuffer { inner: PriorityBuffer::new(s), put: Ghost(Seq::empty()), emptied: Ghost(0) }; proof { assert(r.inner.all() =~= Seq::<(bool, SessionEvent)>::empty()); assert(notes(only(r.inner.all(), true)) =~= Seq::<(bool, Note)>::empty()); assert(notes(only(r.inner.all(), false)) =~= Seq::<(bool, Note)>::empty()); } r }
  pub fn push_high(&mut self, e: SessionEvent) ensures final(self).queued() == old(self).queued().push((true, note(e))), old(self).whole() ==> final(self).whole(), final(self).emptied() == old(self).emptied()
  {
    proof { self.lemma_parts(); only_push(self.put@, (true, note(e)), true); only_push(self.put@, (true, note(e)), false); notes_push(only(self.inner.all(), true), (true, e)); }
    let ghost h0 = self.inner.high_buffer@; let ghost l0 = only(self.inner.sender.log(), true);
    self.inner.push_high(e); self.put = Ghost(self.put@.push((true, note(e))));
    proof { self.lemma_parts(); assert(tag(h0.push(e), true) =~= tag(h0, true).push((true, e))); assert(l0 + tag(h0, true).push((true, e)) =~= (l0 + tag(h0, true)).push((true, e))); }
  }
  pub fn push_normal(&mut self, e: SessionEvent) ensures final(self).queued() == old(self).queued().push((false, note(e))), old(self).whole() ==> final(self).whole(), final(self).emptied() == old(self).emptied()
  {
    proof { self.lemma_parts(); only_push(self.put@, (false, note(e)), true); only_push(self.put@, (false, note(e)), false); notes_push(only(self.inner.all(), false), (false, e)); }
    let ghost h0 = self.inner.normal_buffer@; let ghost l0 = only(self.inner.sender.log(), false);
    self.inner.push_normal(e); self.put = Ghost(self.put@.push((false, note(e))));
    proof { self.lemma_parts(); assert(tag(h0.push(e), false) =~= tag(h0, false).push((false, e))); assert(l0 + tag(h0, false).push((false, e)) =~= (l0 + tag(h0, false)).push((false, e))); }
  }
  pub fn try_send(&mut self, cx: &mut Context) -> (r: SendResult) ensures final(self).queued() == old(self).queued(), old(self).whole() ==> final(self).whole(), final(self).emptied() == old(self).emptied(), r is Ok ==> final(self).inner.waiting().len() == 0, r is Disconnect ==> final(self).inner.sender.gone() { self.inner.try_send(cx) }
  pub fn is_empty(&self) -> (r: bool) ensures r == (self.inner.waiting().len() == 0) { self.inner.is_empty() }
  pub fn clear(&mut self, n: Ghost<nat>) ensures final(self).queued() == old(self).queued(), final(self).emptied() == n@, n@ > 0 ==> final(self).whole() { self.inner.clear(); self.emptied = n; }
}
"""
MAPS = r"""
impl SessionContext {
  #[verifier::external_body]
  pub fn clone(&self) -> (r: SessionContext) ensures r.id == self.id, r.remote_pubkey == self.remote_pubkey, r.ty == self.ty, r.address == self.address, r.pending_data_size.cell() == self.pending_data_size.cell(), r.closed.cell() == self.closed.cell() { unimplemented!() }
}
#[verifier::external_body]
pub struct SessMap { x: usize }
impl SessMap {
  pub uninterp spec fn view(&self) -> Map<SessionId, SessionController>;
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0) { unimplemented!() }
  #[verifier::external_body]
  pub fn contains_key(&self, k: &SessionId) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
  #[verifier::external_body]
  pub fn get(&self, k: &SessionId) -> (r: Option<&SessionController>) ensures r is Some <==> self@.dom().contains(*k), r is Some ==> *r->Some_0 == self@[*k] { unimplemented!() }
  #[verifier::external_body]
  pub fn get_mut<'a>(&'a mut self, k: &SessionId) -> (r: Option<&'a mut SessionController>)
    ensures match r { Some(p) => old(self)@.dom().contains(*k) && *p == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(p)), None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@ } { unimplemented!() }
  #[verifier::external_body]
  pub fn at<'a>(&'a mut self, k: SessionId) -> (r: &'a mut SessionController) requires old(self)@.dom().contains(k)
    ensures *r == old(self)@[k], final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: SessionId, v: SessionController) -> (r: Option<SessionController>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &SessionId) -> (r: Option<SessionController>) ensures final(self)@ == old(self)@.remove(*k), (r is Some) == old(self)@.dom().contains(*k) { unimplemented!() }
  // the keys, each once, in the map's own order
  #[verifier::external_body]
  pub fn ids(&self) -> (r: Vec<SessionId>) ensures r@.no_duplicates(), forall|k: SessionId| #![trigger r@.contains(k)] #![trigger self@.dom().contains(k)] r@.contains(k) <==> self@.dom().contains(k) { unimplemented!() }
  // Iterator::find over the values
  #[verifier::external_body]
  pub fn find<F: Fn(&SessionController) -> bool>(&self, f: F) -> (r: Option<&SessionController>)
    requires forall|c: &SessionController| f.requires((c,))
    ensures match r { Some(c) => (exists|k: SessionId| self@.dom().contains(k) && self@[k] == *c) && f.ensures((c,), true), None => forall|k: SessionId| #[trigger] self@.dom().contains(k) ==> f.ensures((&self@[k],), false) } { unimplemented!() }
}
#[verifier::external_body]
pub struct DialMap { x: usize }
impl DialMap {
  #[verifier::external_body]
  pub fn contains_key(&self, a: &Multiaddr) -> bool { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, a: Multiaddr, t: TargetProtocol) { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, a: &Multiaddr) -> Option<TargetProtocol> { unimplemented!() }
}
#[verifier::external_body]
pub struct AddrSet { x: usize }
impl AddrSet {
  pub uninterp spec fn view(&self) -> Set<Multiaddr>;
  #[verifier::external_body]
  pub fn insert(&mut self, a: Multiaddr) -> bool ensures final(self)@ == old(self)@.insert(a) { unimplemented!() }
  #[verifier::external_body]
  pub fn contains(&self, a: &Multiaddr) -> (r: bool) ensures r == self@.contains(*a) { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, a: &Multiaddr) -> (r: bool) ensures r == old(self)@.contains(*a), final(self)@ == old(self)@.remove(*a) { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<Multiaddr>::empty()) { unimplemented!() }
  #[verifier::external_body]
  pub fn drain_all(&mut self) ensures final(self)@ == Set::<Multiaddr>::empty() { unimplemented!() }
}
#[verifier::external_body]
pub struct BeforeSend { x: usize }
impl BeforeSend {
  pub uninterp spec fn image(&self, d: Seq<u8>) -> Seq<u8>;
  #[verifier::external_body]
  pub fn call(&self, d: Bytes) -> (r: Bytes) ensures r@ == self.image(d@) { unimplemented!() }
}
#[verifier::external_body]
pub struct SendHooks { x: usize }
impl SendHooks {
  pub uninterp spec fn view(&self) -> Map<ProtocolId, BeforeSend>;
  #[verifier::external_body]
  pub fn insert(&mut self, k: ProtocolId, f: BeforeSend) ensures final(self)@ == old(self)@.insert(k, f) { unimplemented!() }
  #[verifier::external_body]
  pub fn get(&self, k: &ProtocolId) -> (r: Option<&BeforeSend>) ensures r is Some <==> self@.dom().contains(*k), r is Some ==> *r->Some_0 == self@[*k] { unimplemented!() }
}
// queues towards user protocol handles
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
pub struct BufMap<K> { x: Vec<K> }
#[verifier::external_body]
pub struct ProtoBuf { x: usize }
// the two ends of a queue towards a protocol handle
#[verifier::external_body]
pub struct ProtoTx { x: usize }
impl ProtoTx { pub uninterp spec fn chan(&self) -> int; }
#[verifier::external_body]
pub struct ProtoRx { x: usize }
impl ProtoRx { pub uninterp spec fn chan(&self) -> int; }
#[verifier::external_body]
pub fn proto_channel(n: usize) -> (r: (ProtoTx, ProtoRx)) ensures r.0.chan() == r.1.chan() { unimplemented!() }
impl ProtoBuf {
  // the queue it writes to
  pub uninterp spec fn chan(&self) -> int;
  #[verifier::external_body]
  pub fn on(t: ProtoTx) -> (r: ProtoBuf) ensures r.chan() == t.chan() { unimplemented!() }
  #[verifier::external_body]
  pub fn clone(&self) -> (r: ProtoBuf) ensures r.chan() == self.chan() { unimplemented!() }
  #[verifier::external_body]
  pub fn push(&mut self) { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> bool { unimplemented!() }
  #[verifier::external_body]
  pub fn try_send(&mut self, cx: &mut Context) -> SendResult { unimplemented!() }
}
impl<K> BufMap<K> {
  // the queue of every entry
  pub uninterp spec fn view(&self) -> Map<K, int>;
  #[verifier::external_body]
  pub fn none() -> (r: BufMap<K>) ensures r@ == Map::<K, int>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn clone(&self) -> (r: BufMap<K>) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn keys(&self) -> (r: Vec<K>) ensures forall|k: K| #![trigger r@.contains(k)] #![trigger self@.dom().contains(k)] r@.contains(k) <==> self@.dom().contains(k) { unimplemented!() }
  #[verifier::external_body]
  pub fn at(&self, k: &K) -> (r: &ProtoBuf) requires self@.dom().contains(*k) ensures r.chan() == self@[*k] { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K, b: ProtoBuf) -> (r: Option<ProtoBuf>) ensures final(self)@ == old(self)@.insert(k, b.chan()) { unimplemented!() }
  #[verifier::external_body]
  pub fn add(&mut self, e: (K, ProtoBuf)) ensures final(self)@ == old(self)@.insert(e.0, e.1.chan()) { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> usize { unimplemented!() }
  #[verifier::external_body]
  pub fn nth<'a>(&'a mut self, i: usize) -> &'a mut ProtoBuf { unimplemented!() }
  #[verifier::external_body]
  pub fn get_mut<'a>(&'a mut self, k: &K) -> Option<&'a mut ProtoBuf> { unimplemented!() }
  #[verifier::external_body]
  pub fn push_all(&mut self) { unimplemented!() }
  #[verifier::external_body]
  pub fn forget(&mut self, id: SessionId) { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &K) { unimplemented!() }
  #[verifier::external_body]
  pub fn clear(&mut self) { unimplemented!() }
}
#[verifier::external_body]
pub struct TaskBuffer { x: usize }
// the next connection that came in
#[verifier::external_body]
pub fn next_in(l: &mut Opaque, cx: &mut Context) -> Poll<Option<Result<(Multiaddr, Opaque), Opaque>>> { unimplemented!() }
#[verifier::external_body]
pub fn broken_pipe() -> Opaque { unimplemented!() }
#[verifier::external_body]
pub fn transport_io(e: Opaque) -> TransportErrorKind { unimplemented!() }
pub struct Task { pub x: usize }
impl TaskBuffer {
  pub uninterp spec fn holds(&self) -> bool;
  // the listeners handed over to be run
  pub uninterp spec fn listeners(&self) -> Seq<Listener>;
  #[verifier::external_body]
  pub fn attend(&mut self, l: Listener) -> (r: Result<(), Opaque>) ensures final(self).listeners() == old(self).listeners().push(l) { unimplemented!() }
  #[verifier::external_body]
  pub fn push(&mut self, t: Task) { unimplemented!() }
  #[verifier::external_body]
  pub fn try_send(&mut self, cx: &mut Context) -> SendResult { unimplemented!() }
  #[verifier::external_body]
  pub fn clear(&mut self) { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == !self.holds() { unimplemented!() }
}
#[verifier::external_body]
pub struct ProtoConfigs { x: usize }
impl ProtoConfigs {
  pub uninterp spec fn view(&self) -> Map<ProtocolId, ProtocolMeta>;
  #[verifier::external_body]
  pub fn ids(&self) -> (r: Vec<ProtocolId>) ensures forall|k: ProtocolId| #![trigger r@.contains(k)] #![trigger self@.dom().contains(k)] r@.contains(k) <==> self@.dom().contains(k) { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> usize { unimplemented!() }
  #[verifier::external_body]
  pub fn at(&self, k: &ProtocolId) -> (r: &ProtocolMeta) requires self@.dom().contains(*k) ensures *r == self@[*k] { unimplemented!() }
  #[verifier::external_body]
  pub fn get(&self, k: &ProtocolId) -> (r: Option<&ProtocolMeta>) ensures (r is Some) == self@.dom().contains(*k), r is Some ==> *r->Some_0 == self@[*k] { unimplemented!() }
}
#[verifier::external_body]
pub struct Meta { x: usize }
impl Meta {
  // the name closure of a protocol gives the same name whenever it is asked
  pub uninterp spec fn called(&self) -> Seq<char>;
  pub uninterp spec fn pid(&self) -> ProtocolId;
  #[verifier::external_body]
  pub fn clone(&self) -> (r: Meta) ensures r == *self { unimplemented!() }
}
pub struct ProtocolMeta { pub inner: Meta }
impl ProtocolMeta {
  #[verifier::external_body]
  pub fn id(&self) -> (r: ProtocolId) ensures r == self.inner.pid() { unimplemented!() }
  #[verifier::external_body]
  pub fn name(&self) -> (r: String) ensures r@ == self.inner.called() { unimplemented!() }
  #[verifier::external_body]
  pub fn session_handle(&self) -> ProtocolHandle { unimplemented!() }
  #[verifier::external_body]
  pub fn service_handle(&self) -> ProtocolHandle { unimplemented!() }
  #[verifier::external_body]
  pub fn blocking_flag(&self) -> Opaque { unimplemented!() }
  #[verifier::external_body]
  pub fn eventful(&self) -> bool { unimplemented!() }
  #[verifier::external_body]
  pub fn take_before_send(&self) -> (r: Option<BeforeSend>) ensures r == self.hook() { unimplemented!() }
  // the function that the protocol was configured with; it is taken once, when the service starts
  pub uninterp spec fn hook(&self) -> Option<BeforeSend>;
}
#[verifier::external_body]
pub struct UserHandle { x: usize }
pub enum ProtocolHandle { Neither, Event, Both(UserHandle), Callback(UserHandle) }
#[verifier::external_body]
pub struct NameMap { x: usize }
impl NameMap {
  pub uninterp spec fn view(&self) -> Map<Seq<char>, Meta>;
  #[verifier::external_body]
  pub fn none() -> (r: NameMap) ensures r@ == Map::<Seq<char>, Meta>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: String, m: Meta) ensures final(self)@ == old(self)@.insert(k@, m) { unimplemented!() }
}
#[verifier::external_body]
pub struct IdMap { x: usize }
impl IdMap {
  pub uninterp spec fn view(&self) -> Map<ProtocolId, Meta>;
  #[verifier::external_body]
  pub fn none() -> (r: IdMap) ensures r@ == Map::<ProtocolId, Meta>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: ProtocolId, m: Meta) ensures final(self)@ == old(self)@.insert(k, m) { unimplemented!() }
}
#[verifier::external_body]
pub fn copy_of<T>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }

#[verifier::external_body]
pub struct ProtoSet { x: usize }
impl ProtoSet {
  #[verifier::external_body]
  pub fn contains(&self, k: &ProtocolId) -> bool { unimplemented!() }
}
// the queue of tasks from the user to the service: log() is everything this handle had accepted
#[verifier::external_body]
pub struct TaskSender { x: usize }
pub struct TaskFault { pub full: bool }
impl TaskFault { pub fn is_full(&self) -> bool { self.full } }
impl TaskSender {
  pub uninterp spec fn log(&self) -> Seq<(bool, ServiceTask)>;
  #[verifier::external_body]
  pub fn try_send(&mut self, t: ServiceTask) -> (r: Result<(), TaskFault>) ensures final(self).log() == (if r is Ok { old(self).log().push((false, t)) } else { old(self).log() }) { unimplemented!() }
  #[verifier::external_body]
  pub fn try_quick_send(&mut self, t: ServiceTask) -> (r: Result<(), TaskFault>) ensures final(self).log() == (if r is Ok { old(self).log().push((true, t)) } else { old(self).log() }) { unimplemented!() }
  #[verifier::external_body]
  pub fn send(&mut self, t: ServiceTask) -> (r: Result<(), TaskFault>) ensures final(self).log() == (if r is Ok { old(self).log().push((false, t)) } else { old(self).log() }) { unimplemented!() }
  #[verifier::external_body]
  pub fn quick_send(&mut self, t: ServiceTask) -> (r: Result<(), TaskFault>) ensures final(self).log() == (if r is Ok { old(self).log().push((true, t)) } else { old(self).log() }) { unimplemented!() }
}
pub enum SendErrorKind { BrokenPipe, WouldBlock }
// events of attempts: sent() is everything sent towards the service by the tasks it starts
#[verifier::external_body]
pub struct EventSender { x: usize }
pub open spec fn ended(s: Seq<SessionEvent>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { ended(s.drop_last()) + (if ends(s.last()) { 1nat } else { 0nat }) } }
pub broadcast proof fn ended_push(s: Seq<SessionEvent>, e: SessionEvent) ensures #[trigger] ended(s.push(e)) == ended(s) + (if ends(e) { 1nat } else { 0nat }) { assert(s.push(e).drop_last() =~= s); }
impl EventSender {
  pub uninterp spec fn sent(&self) -> Seq<SessionEvent>;
  #[verifier::external_body]
  pub fn clone(&self) -> EventSender { unimplemented!() }
  #[verifier::external_body]
  pub fn send(&mut self, e: SessionEvent) -> (r: Result<(), Opaque>) requires sound(e) ensures final(self).sent() == old(self).sent().push(e) { unimplemented!() }
}
// the receiving end: an event that ends an attempt was sent before and not yet taken out
#[verifier::external_body]
pub struct EventReceiver { x: usize }
impl EventReceiver {
  pub uninterp spec fn taken(&self) -> nat;
  #[verifier::external_body]
  pub fn is_terminated(&self) -> bool { unimplemented!() }
  #[verifier::external_body]
  pub fn close(&mut self) ensures final(self).taken() == old(self).taken() { unimplemented!() }
  #[verifier::external_body]
  pub fn take(&mut self, cx: &mut Context, s: &EventSender) -> (r: Poll<Option<SessionEvent>>)
    ensures r matches Poll::Ready(Some(e)) ==> sound(e), match r { Poll::Ready(Some(e)) => if ends(e) { final(self).taken() == old(self).taken() + 1 && final(self).taken() <= ended(s.sent()) } else { final(self).taken() == old(self).taken() }, Poll::Ready(None) => false, _ => final(self).taken() == old(self).taken() } { unimplemented!() }
}
// tasks from the user, with the priority they were sent with
#[verifier::external_body]
pub struct TaskReceiver { x: usize }
impl TaskReceiver {
  pub uninterp spec fn got(&self) -> Seq<(Priority, ServiceTask)>;
  #[verifier::external_body]
  pub fn is_terminated(&self) -> bool { unimplemented!() }
  #[verifier::external_body]
  pub fn close(&mut self) ensures final(self).got() == old(self).got() { unimplemented!() }
  #[verifier::external_body]
  pub fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<(Priority, ServiceTask)>>)
    ensures match r { Poll::Ready(Some(x)) => final(self).got() == old(self).got().push(x), _ => final(self).got() == old(self).got() } { unimplemented!() }
}
#[verifier::external_body]
pub struct MultiTransport { x: usize }
impl MultiTransport {
  // the attempt itself and its outcome
  #[verifier::external_body]
  pub fn listen(&mut self, a: Multiaddr) -> Result<Result<(Multiaddr, Opaque), TransportErrorKind>, TransportErrorKind> { unimplemented!() }
  #[verifier::external_body]
  pub fn dial(&mut self, a: Multiaddr) -> Result<Result<(Multiaddr, Opaque), TransportErrorKind>, TransportErrorKind> { unimplemented!() }
}
#[verifier::external_body]
pub struct TransportErrorKind { x: usize }
#[verifier::external_body]
pub struct KeyPair { x: usize }
impl KeyPair {
  #[verifier::external_body]
  pub fn clone(&self) -> (r: KeyPair) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub fn cloned_key(k: &Option<KeyPair>) -> (r: Option<KeyPair>) ensures r == *k { unimplemented!() }
impl Elapsed { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
#[verifier::external_body]
pub struct Elapsed { x: usize }
#[verifier::external_body]
pub struct SecioError { x: usize }
#[verifier::external_body]
pub fn secure(t: usize, k: KeyPair, m: usize, s: Opaque) -> (r: Result<Result<(Opaque, PublicKey, Opaque), SecioError>, Elapsed>)
  ensures (r is Ok) == in_time(t, k, m, s), r matches Ok(y) ==> y == secured(k, m, s), r matches Ok(Ok(x)) ==> x.1 == proven(s) { unimplemented!() }
// how the handshake on a socket ends, and whether it does before the span of time has passed
pub uninterp spec fn secured(k: KeyPair, m: usize, s: Opaque) -> Result<(Opaque, PublicKey, Opaque), SecioError>;
pub uninterp spec fn in_time(t: usize, k: KeyPair, m: usize, s: Opaque) -> bool;
// what the user is told of
#[verifier::external_body]
pub struct Told { x: usize }
impl Told {
  pub uninterp spec fn all(&self) -> Seq<ServiceError>;
  #[verifier::external_body]
  pub fn block(&mut self) ensures final(self).all().len() == old(self).all().len() + 1, final(self).all().drop_last() == old(self).all(), final(self).all().last() is ProtocolHandleError { unimplemented!() }
  #[verifier::external_body]
  pub fn tell(&mut self, e: ServiceError) ensures final(self).all() == old(self).all().push(e) { unimplemented!() }
}
// the key the peer at the other end of a socket proved to hold (unit secio)
pub uninterp spec fn proven(s: Opaque) -> PublicKey;
#[verifier::external_body]
pub fn empty_string() -> String { unimplemented!() }
#[verifier::external_body]
pub fn unchanged() -> bool { unimplemented!() }
pub fn unreached() -> (r: Poll<Option<()>>) requires false { Poll::Pending }
pub assume_specification<T> [Poll::<T>::is_pending] (p: &Poll<T>) -> (r: bool) ensures r == (p is Pending);
pub struct ProtoInfos { pub x: usize }
pub struct WaitHandles { pub x: usize }
pub struct Stop { pub x: usize }
pub struct Join { pub x: usize }
impl WaitHandles {
  #[verifier::external_body]
  pub fn none() -> WaitHandles { unimplemented!() }
  #[verifier::external_body]
  pub fn push(&mut self, e: (Option<Stop>, Join)) ensures final(self).left() == old(self).left() + 1 { unimplemented!() }
  pub uninterp spec fn left(&self) -> nat;
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self.left() == 0) { unimplemented!() }
  // the list, which is left empty
  #[verifier::external_body]
  pub fn taken(&mut self) -> (r: WaitHandles) ensures final(self).left() == 0, r.left() == old(self).left() { unimplemented!() }
  #[verifier::external_body]
  pub fn first(&mut self) -> (r: (Option<Stop>, Join)) requires old(self).left() > 0 ensures final(self).left() == old(self).left() - 1 { unimplemented!() }
}
impl Stop {
  #[verifier::external_body]
  pub fn send(self, x: ()) -> Opaque { unimplemented!() }
}
impl Join {
  #[verifier::external_body]
  pub fn poll_unpin(&mut self, cx: &mut Context) -> Poll<Opaque> { unimplemented!() }
}
#[verifier::external_body]
pub fn event_channel() -> (r: (EventSender, EventReceiver)) ensures r.0.sent() == Seq::<SessionEvent>::empty(), r.1.taken() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn task_channel() -> (r: (TaskSender, TaskReceiver)) ensures r.0.log() == Seq::<(bool, ServiceTask)>::empty(), r.1.got() == Seq::<(Priority, ServiceTask)>::empty() { unimplemented!() }
impl TaskManager { pub fn of(f: Flag) -> TaskManager { TaskManager { x: 0 } } }
impl TaskBuffer {
  #[verifier::external_body]
  pub fn none() -> (r: TaskBuffer) ensures !r.holds() { unimplemented!() }
}
impl SendHooks {
  #[verifier::external_body]
  pub fn none() -> (r: SendHooks) ensures r@ == Map::<ProtocolId, BeforeSend>::empty() { unimplemented!() }
}
impl SessMap {
  #[verifier::external_body]
  pub fn none() -> (r: SessMap) ensures r@ == Map::<SessionId, SessionController>::empty(), r@.dom().len() == 0 { unimplemented!() }
}
impl AddrSet {
  #[verifier::external_body]
  pub fn none() -> (r: AddrSet) ensures r@ == Set::<Multiaddr>::empty() { unimplemented!() }
}
impl DialMap {
  #[verifier::external_body]
  pub fn none() -> DialMap { unimplemented!() }
}
impl MultiTransport {
  #[verifier::external_body]
  pub fn new(t: usize) -> MultiTransport { unimplemented!() }
  #[verifier::external_body]
  pub fn tcp_bind(self, a: Option<Opaque>) -> MultiTransport { unimplemented!() }
}
impl ProtoConfigs {
  #[verifier::external_body]
  pub fn none() -> (r: ProtoConfigs) ensures r@ == Map::<ProtocolId, ProtocolMeta>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: ProtocolId, v: ProtocolMeta) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
impl ProtoSet {
  pub uninterp spec fn view(&self) -> Set<ProtocolId>;
  #[verifier::external_body]
  pub fn insert(&mut self, k: ProtocolId) -> bool ensures final(self)@ == old(self)@.insert(k) { unimplemented!() }
}
#[verifier::external_body]
pub fn stop_channel() -> (Stop, Stop) { unimplemented!() }
#[verifier::external_body]
pub fn spawned() -> Join { unimplemented!() }
pub struct TaskManager { pub x: usize }
pub fn or_zero(o: Option<usize>) -> (r: usize) ensures r == (match o { Some(n) => n, None => 0 }) { match o { Some(n) => n, None => 0 } }
pub fn or_false(o: Option<bool>) -> (r: bool) ensures r == (match o { Some(n) => n, None => false }) { match o { Some(n) => n, None => false } }
"""
SPEC = r"""
// a connection that came in came in somewhere
pub open spec fn sound(e: SessionEvent) -> bool { e matches SessionEvent::HandshakeSuccess { ty, listen_address, .. } ==> (ty == SessionType::Inbound ==> listen_address is Some) }
// what is told of a handshake: its outcome if it ends in time, a timeout otherwise
pub open spec fn timed(e: SessionEvent, key: Option<KeyPair>, t: usize, m: usize, of: SessionType, from: Multiaddr, s: Opaque) -> bool {
  match key { None => e is HandshakeSuccess,
    Some(k) => if !in_time(t, k, m, s) { e matches SessionEvent::HandshakeError { ty, error: HandshakeErrorKind::Timeout(_), address } && ty == of && address == from }
      else { match secured(k, m, s) { Ok(_) => e is HandshakeSuccess, Err(x) => e == (SessionEvent::HandshakeError { ty: of, error: HandshakeErrorKind::SecioError(x), address: from }) } } }
}
// a handshake that succeeded says who was proven to be at the other end
pub open spec fn greeted(e: SessionEvent, key: Option<KeyPair>, of: SessionType, from: Multiaddr, s: Opaque) -> bool {
  e matches SessionEvent::HandshakeSuccess { public_key, address, ty, .. } ==> address == from && ty == of && public_key == (if key is Some { Some(proven(s)) } else { None::<PublicKey> })
}
// the events that end an attempt to dial or to listen
pub open spec fn ends(e: SessionEvent) -> bool {
  match e { SessionEvent::HandshakeSuccess { ty, .. } => ty == SessionType::Outbound, SessionEvent::HandshakeError { ty, .. } => ty == SessionType::Outbound, SessionEvent::DialError { .. } => true, SessionEvent::ListenStart { .. } => true, SessionEvent::ListenStartError { .. } => true, _ => false }
}
impl State {
  pub open spec fn up(self) -> State { match self { State::Running(n) => State::Running((n + 1) as usize), s => s } }
  pub open spec fn down(self) -> State { match self { State::Running(n) => State::Running((n - 1) as usize), s => s } }
  pub open spec fn pending(self) -> nat { match self { State::Running(n) => n as nat, _ => 0 } }
}
pub open spec fn repeat(x: (bool, Note), n: nat) -> Seq<(bool, Note)> { Seq::new(n, |i: int| x) }
pub open spec fn times(ids: Seq<SessionId>, k: SessionId) -> nat decreases ids.len() { if ids.len() == 0 { 0 } else { times(ids.drop_last(), k) + (if ids.last() == k { 1nat } else { 0nat }) } }
pub proof fn times_next(ids: Seq<SessionId>, n: int, k: SessionId) requires 0 <= n < ids.len() ensures times(ids.subrange(0, n + 1), k) == times(ids.subrange(0, n), k) + (if ids[n] == k { 1nat } else { 0nat })
{ assert(ids.subrange(0, n + 1).drop_last() =~= ids.subrange(0, n)); }
pub proof fn times_once(ids: Seq<SessionId>, k: SessionId) requires ids.no_duplicates() ensures times(ids, k) == (if ids.contains(k) { 1nat } else { 0nat }) decreases ids.len()
{
  if ids.len() > 0 {
    let p = ids.drop_last();
    times_once(p, k);
    assert(ids.contains(k) <==> p.contains(k) || ids.last() == k) by { if ids.contains(k) { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == k; if i < p.len() { assert(p[i] == k); } } if p.contains(k) { let i = choose|i: int| 0 <= i < p.len() && p[i] == k; assert(ids[i] == k); } assert(ids[ids.len() - 1] == ids.last()); }
    if ids.last() == k && p.contains(k) { let i = choose|i: int| 0 <= i < p.len() && p[i] == k; assert(ids[i] == ids[ids.len() - 1]); }
  }
}
// how often a message goes to session k
pub open spec fn mentions(t: TargetSession, k: SessionId) -> nat { match t { TargetSession::All => 1, TargetSession::Single(id) => if id == k { 1 } else { 0 }, TargetSession::Multi(ids) => times(ids@, k) } }
// the configured size above which a session that does not take its messages is closed
pub uninterp spec fn send_limit() -> nat;
impl SessionController {
  pub open spec fn who(&self) -> (SessionId, Multiaddr, SessionType, Option<PublicKey>) { (self.inner.id, self.inner.address, self.inner.ty, self.inner.remote_pubkey) }
  pub open spec fn share(&self) -> nat { self.inner.pending_data_size.share() }
  // every queued byte is counted
  pub open spec fn counted(&self) -> bool { self.share() >= bytes_of(self.buffer.queued()) && self.buffer.whole() }
  pub open spec fn calm(&self, o: SessionController) -> bool { self.who() == o.who() && msgs(self.buffer.queued()) == msgs(o.buffer.queued()) && (self.buffer.emptied() == o.buffer.emptied() || self.buffer.emptied() > send_limit()) }
  // n more copies of one message
  pub open spec fn got(&self, o: SessionController, x: (bool, Note), n: nat) -> bool { self.who() == o.who() && self.buffer.queued() =~= o.buffer.queued() + repeat(x, n) && self.share() == o.share() + n * weight(x.1) && self.buffer.emptied() == o.buffer.emptied() }
}
#[verifier::opaque]
pub open spec fn delivered(m: Map<SessionId, SessionController>, o: Map<SessionId, SessionController>, high: bool, p: ProtocolId, d: Seq<u8>, count: spec_fn(SessionId) -> nat) -> bool {
  m.dom() =~= o.dom() && forall|k: SessionId| #[trigger] o.dom().contains(k) ==> m[k].got(o[k], (high, Note::Msg(o[k].inner.id, p, d)), count(k))
}
pub proof fn deliver_one(m: Map<SessionId, SessionController>, o: Map<SessionId, SessionController>, m2: Map<SessionId, SessionController>, high: bool, p: ProtocolId, d: Seq<u8>, c: spec_fn(SessionId) -> nat, c2: spec_fn(SessionId) -> nat, id: SessionId)
  requires delivered(m, o, high, p, d, c), o.dom().contains(id), m2.dom() =~= m.dom(), m2 == m.insert(id, m2[id]), m2[id].got(m[id], (high, Note::Msg(m[id].inner.id, p, d)), 1), forall|k: SessionId| #[trigger] c2(k) == c(k) + (if k == id { 1nat } else { 0nat })
  ensures delivered(m2, o, high, p, d, c2)
{
  reveal(delivered);
  assert forall|k: SessionId| #[trigger] o.dom().contains(k) implies m2[k].got(o[k], (high, Note::Msg(o[k].inner.id, p, d)), c2(k)) by {
    assert(c2(k) == c(k) + (if k == id { 1nat } else { 0nat }));
    if k == id {
      let x = (high, Note::Msg(o[k].inner.id, p, d));
      assert(m[k].got(o[k], x, c(k)));
      assert(repeat(x, c(k)) + repeat(x, 1) =~= repeat(x, c2(k)));
      assert(c2(k) * weight(x.1) == c(k) * weight(x.1) + 1 * weight(x.1)) by (nonlinear_arith) requires c2(k) == c(k) + 1;
    }
  }
}
pub proof fn deliver_none(o: Map<SessionId, SessionController>, m: Map<SessionId, SessionController>, high: bool, p: ProtocolId, d: Seq<u8>, c: spec_fn(SessionId) -> nat)
  requires m == o, forall|k: SessionId| o.dom().contains(k) ==> #[trigger] c(k) == 0 ensures delivered(m, o, high, p, d, c)
{ reveal(delivered); assert forall|k: SessionId| #[trigger] o.dom().contains(k) implies m[k].got(o[k], (high, Note::Msg(o[k].inner.id, p, d)), c(k)) by { assert(c(k) == 0); assert(repeat((high, Note::Msg(o[k].inner.id, p, d)), 0) =~= Seq::<(bool, Note)>::empty()); } }
pub proof fn deliver_same(m: Map<SessionId, SessionController>, o: Map<SessionId, SessionController>, high: bool, p: ProtocolId, d: Seq<u8>, c: spec_fn(SessionId) -> nat, c2: spec_fn(SessionId) -> nat)
  requires delivered(m, o, high, p, d, c), forall|k: SessionId| o.dom().contains(k) ==> c(k) == #[trigger] c2(k) ensures delivered(m, o, high, p, d, c2)
{ reveal(delivered); assert forall|k: SessionId| #[trigger] o.dom().contains(k) implies m[k].got(o[k], (high, Note::Msg(o[k].inner.id, p, d)), c2(k)) by { assert(c(k) == c2(k)); } }
#[verifier::opaque]
pub open spec fn all_counted(m: Map<SessionId, SessionController>) -> bool { forall|k: SessionId| #[trigger] m.dom().contains(k) ==> m[k].counted() }
pub proof fn counted_at(m: Map<SessionId, SessionController>, k: SessionId) requires all_counted(m), m.dom().contains(k) ensures m[k].counted() { reveal(all_counted); }
pub proof fn counted_put(m: Map<SessionId, SessionController>, k: SessionId, c: SessionController) requires all_counted(m), c.counted() ensures all_counted(m.insert(k, c)) { reveal(all_counted); }
pub proof fn delivered_distinct(m: Map<SessionId, SessionController>, o: Map<SessionId, SessionController>, high: bool, p: ProtocolId, d: Seq<u8>, c: spec_fn(SessionId) -> nat) requires delivered(m, o, high, p, d, c), distinct(o) ensures distinct(m)
{ reveal(delivered); reveal(distinct);
  assert forall|k: SessionId| #[trigger] m.dom().contains(k) implies m[k].inner.id == k by { assert(o.dom().contains(k)); assert(m[k].who() == o[k].who()); }
  assert forall|j: SessionId, k: SessionId| #![trigger m.dom().contains(j), m.dom().contains(k)] m.dom().contains(j) && m.dom().contains(k) && j != k && m[j].inner.remote_pubkey is Some implies m[j].inner.remote_pubkey != m[k].inner.remote_pubkey by { assert(o.dom().contains(j)); assert(o.dom().contains(k)); assert(m[j].who() == o[j].who()); assert(m[k].who() == o[k].who()); } }
// one session per id and per key
#[verifier::opaque]
pub open spec fn distinct(m: Map<SessionId, SessionController>) -> bool {
  (forall|k: SessionId| #[trigger] m.dom().contains(k) ==> m[k].inner.id == k)
  && (forall|j: SessionId, k: SessionId| #![trigger m.dom().contains(j), m.dom().contains(k)] m.dom().contains(j) && m.dom().contains(k) && j != k && m[j].inner.remote_pubkey is Some ==> m[j].inner.remote_pubkey != m[k].inner.remote_pubkey)
}
pub proof fn distinct_put(m: Map<SessionId, SessionController>, k: SessionId, c: SessionController)
  requires distinct(m), !m.dom().contains(k), c.inner.id == k, c.inner.remote_pubkey is Some ==> (forall|j: SessionId| #[trigger] m.dom().contains(j) ==> m[j].inner.remote_pubkey != c.inner.remote_pubkey) ensures distinct(m.insert(k, c))
{ reveal(distinct); }
pub open spec fn msgs(s: Seq<(bool, Note)>) -> Seq<(bool, Note)> decreases s.len() { if s.len() == 0 { s } else if s.last().1 is Msg { msgs(s.drop_last()).push(s.last()) } else { msgs(s.drop_last()) } }
pub broadcast proof fn msgs_push(s: Seq<(bool, Note)>, n: (bool, Note)) ensures #[trigger] msgs(s.push(n)) == (if n.1 is Msg { msgs(s).push(n) } else { msgs(s) }) { assert(s.push(n).drop_last() =~= s); }
// the same sessions, or fewer, with no message added
#[verifier::opaque]
pub open spec fn fewer(m: Map<SessionId, SessionController>, o: Map<SessionId, SessionController>) -> bool { m.dom().subset_of(o.dom()) && forall|k: SessionId| #[trigger] m.dom().contains(k) ==> m[k].calm(o[k]) }
pub proof fn fewer_put(m: Map<SessionId, SessionController>, o: Map<SessionId, SessionController>, k: SessionId, c: SessionController) requires fewer(m, o), m.dom().contains(k), c.calm(m[k]) ensures fewer(m.insert(k, c), o) { reveal(fewer); }
pub proof fn fewer_cut(m: Map<SessionId, SessionController>, o: Map<SessionId, SessionController>, k: SessionId) requires fewer(m, o) ensures fewer(m.remove(k), o) { reveal(fewer); }
pub proof fn counted_cut(m: Map<SessionId, SessionController>, k: SessionId) requires all_counted(m) ensures all_counted(m.remove(k)) { reveal(all_counted); }
pub proof fn fewer_refl(m: Map<SessionId, SessionController>) ensures fewer(m, m) { reveal(fewer); }
pub proof fn fewer_trans(a: Map<SessionId, SessionController>, b: Map<SessionId, SessionController>, c: Map<SessionId, SessionController>) requires fewer(a, b), fewer(b, c) ensures fewer(a, c) { reveal(fewer); assert forall|k: SessionId| #[trigger] a.dom().contains(k) implies a[k].calm(c[k]) by { assert(b.dom().contains(k)); } }
pub proof fn fewer_distinct(m: Map<SessionId, SessionController>, o: Map<SessionId, SessionController>) requires fewer(m, o), distinct(o) ensures distinct(m)
{ reveal(fewer); reveal(distinct); assert forall|k: SessionId| #[trigger] m.dom().contains(k) implies m[k].inner.id == k by { assert(o.dom().contains(k)); assert(m[k].calm(o[k])); }
  assert forall|j: SessionId, k: SessionId| #![trigger m.dom().contains(j), m.dom().contains(k)] m.dom().contains(j) && m.dom().contains(k) && j != k && m[j].inner.remote_pubkey is Some implies m[j].inner.remote_pubkey != m[k].inner.remote_pubkey by { assert(m[j].calm(o[j])); assert(m[k].calm(o[k])); assert(o.dom().contains(j)); assert(o.dom().contains(k)); } }
"""

START = r"""
// ---------------- starting a session (SessionMeta, Session::new and open_proto_stream are proved in unit `session`)
pub struct SessionMeta { pub timeout: usize, pub context: SessionContext, pub control: Opaque, pub by_name: NameMap, pub by_id: IdMap, pub config: SessionConfig, pub keep_buffer: bool, pub service_senders: BufMap<ProtocolId>, pub session_senders: BufMap<ProtocolId>, pub event: ProtoSet, pub chan: Ghost<int> }
impl SessionMeta {
  #[verifier::external_body]
  pub fn new(timeout: usize, context: SessionContext, event_sender: PrioritySender<SessionEvent>, control: Opaque) -> (r: SessionMeta) ensures r.timeout == timeout, r.context == context, r.chan@ == event_sender.chan() { unimplemented!() }
  #[verifier::external_body]
  pub fn protocol_by_name(self, m: NameMap) -> (r: SessionMeta) ensures r == (SessionMeta { by_name: m, ..self }) { unimplemented!() }
  #[verifier::external_body]
  pub fn protocol_by_id(self, m: IdMap) -> (r: SessionMeta) ensures r == (SessionMeta { by_id: m, ..self }) { unimplemented!() }
  #[verifier::external_body]
  pub fn config(self, m: SessionConfig) -> (r: SessionMeta) ensures r == (SessionMeta { config: m, ..self }) { unimplemented!() }
  #[verifier::external_body]
  pub fn keep_buffer(self, m: bool) -> (r: SessionMeta) ensures r == (SessionMeta { keep_buffer: m, ..self }) { unimplemented!() }
  #[verifier::external_body]
  pub fn service_proto_senders(self, m: BufMap<ProtocolId>) -> (r: SessionMeta) ensures r == (SessionMeta { service_senders: m, ..self }) { unimplemented!() }
  #[verifier::external_body]
  pub fn session_senders(self, m: BufMap<ProtocolId>) -> (r: SessionMeta) ensures r == (SessionMeta { session_senders: m, ..self }) { unimplemented!() }
  #[verifier::external_body]
  pub fn session_proto_handles(self, m: WaitHandles) -> (r: SessionMeta) ensures r == self { unimplemented!() }
  #[verifier::external_body]
  pub fn event(self, m: ProtoSet) -> (r: SessionMeta) ensures r == (SessionMeta { event: m, ..self }) { unimplemented!() }
  pub open spec fn listed(&self) -> bool { forall|p: ProtocolId| #[trigger] self.by_id@.dom().contains(p) ==> self.by_name@.dom().contains(self.by_id@[p].called()) }
}
pub proof fn over<T>(s: Seq<T>, n: int) requires n == s.len() ensures s.subrange(0, n) == s { assert(s.subrange(0, n) =~= s); }
pub open spec fn hooked(m: Map<ProtocolId, ProtocolMeta>, p: ProtocolId) -> bool { m.dom().contains(p) && m[p].hook() is Some }
pub proof fn sub_next<T>(s: Seq<T>, n: int) requires 0 < n <= s.len() ensures forall|x: T| #[trigger] s.subrange(0, n).contains(x) <==> s.subrange(0, n - 1).contains(x) || x == s[n - 1]
{
  let a = s.subrange(0, n); let b = s.subrange(0, n - 1);
  assert(a[n - 1] == s[n - 1]);
  assert forall|x: T| #[trigger] a.contains(x) implies b.contains(x) || x == s[n - 1] by { let i = choose|i: int| 0 <= i < n && a[i] == x; if i < n - 1 { assert(b[i] == x); } }
  assert forall|x: T| b.contains(x) || x == s[n - 1] implies #[trigger] a.contains(x) by { if b.contains(x) { let i = choose|i: int| 0 <= i < n - 1 && b[i] == x; assert(a[i] == x); } else { assert(a[n - 1] == x); } }
}
pub struct Session { pub meta: SessionMeta, pub receiver: SessionEnd, pub asked: Ghost<Seq<Seq<char>>> }
impl Session {
  #[verifier::external_body]
  pub fn new(socket: Opaque, to_service: EventSender, receiver: SessionEnd, meta: SessionMeta, tasks: Opaque) -> (r: Session) requires meta.listed() ensures r.meta == meta, r.receiver == receiver, r.asked@ == Seq::<Seq<char>>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn open_proto_stream(&mut self, name: &String) requires old(self).meta.by_name@.dom().contains(name@) ensures *final(self) == (Session { asked: final(self).asked, ..*old(self) }), final(self).asked@ == old(self).asked@.push(name@) { unimplemented!() }
}
pub open spec fn known(c: Map<ProtocolId, ProtocolMeta>, n: Seq<char>) -> bool { exists|p: ProtocolId| #[trigger] c.dom().contains(p) && c[p].inner.called() == n }
impl SessionContext { pub open spec fn alike(&self, o: SessionContext) -> bool { self.id == o.id && self.address == o.address && self.ty == o.ty && self.remote_pubkey == o.remote_pubkey && self.closed.cell() == o.closed.cell() && self.pending_data_size.cell() == o.pending_data_size.cell() } }
// a started session reads the queue its controller in the service writes to, speaks for that session and counts on its counter
pub open spec fn own(svc: Service, s: Session) -> bool { let id = s.meta.context.id; svc.sessions@.dom().contains(id) && svc.sessions@[id].inner.alike(s.meta.context) && s.receiver.chan() == svc.sessions@[id].buffer.inner.sender.chan() && s.meta.chan@ == s.receiver.chan() }
// what it receives goes to the queues of the service's protocol handles and of its own
pub open spec fn handed(svc: Service, s: Session) -> bool {
  &&& s.meta.service_senders@ == svc.service_proto_handles@
  &&& forall|p: ProtocolId| #[trigger] s.meta.session_senders@.dom().contains(p) <==> svc.session_proto_handles@.dom().contains((s.meta.context.id, p))
  &&& forall|p: ProtocolId| #[trigger] s.meta.session_senders@.dom().contains(p) ==> s.meta.session_senders@[p] == svc.session_proto_handles@[(s.meta.context.id, p)]
}
impl ServiceContext {
  // the sessions that were started
  pub uninterp spec fn started(&self) -> Seq<Session>;
  #[verifier::external_body]
  pub fn start(&mut self, s: Session) ensures final(self).started() == old(self).started().push(s), final(self).runs() == old(self).runs(), final(self).serves() == old(self).serves() { unimplemented!() }
}
// the tasks that call the user's protocol handles (unit handle): whose messages they take and from which queue
pub enum ServiceProtocolEvent { Init }
pub struct SessionProtocolStream { pub context: SessionContext, pub proto_id: ProtocolId, pub chan: Ghost<int>, pub stop: Ghost<int> }
pub struct ServiceProtocolStream { pub proto_id: ProtocolId, pub chan: Ghost<int>, pub stop: Ghost<int> }
impl SessionProtocolStream {
  #[verifier::external_body]
  pub fn new(handle: UserHandle, c: Opaque, context: SessionContext, receiver: ProtoRx, p: (ProtocolId, Opaque), e: EventSender, s: (Flag, Opaque)) -> (r: SessionProtocolStream) ensures r.context == context, r.proto_id == p.0, r.chan@ == receiver.chan(), r.stop@ == s.0.cell() { unimplemented!() }
}
impl ServiceProtocolStream {
  #[verifier::external_body]
  pub fn new(handle: UserHandle, c: Opaque, receiver: ProtoRx, p: (ProtocolId, Opaque), e: EventSender, s: (Flag, Opaque)) -> (r: ServiceProtocolStream) ensures r.proto_id == p.0, r.chan@ == receiver.chan(), r.stop@ == s.0.cell() { unimplemented!() }
  #[verifier::external_body]
  pub fn handle_event(&mut self, e: ServiceProtocolEvent) ensures *final(self) == *old(self) { unimplemented!() }
}
impl ServiceContext {
  pub uninterp spec fn runs(&self) -> Seq<SessionProtocolStream>;
  pub uninterp spec fn serves(&self) -> Seq<ServiceProtocolStream>;
  #[verifier::external_body]
  pub fn run(&mut self, s: SessionProtocolStream) -> (r: Join) ensures final(self).runs() == old(self).runs().push(s), final(self).serves() == old(self).serves(), final(self).started() == old(self).started() { unimplemented!() }
  #[verifier::external_body]
  pub fn serve(&mut self, s: ServiceProtocolStream) -> (r: Join) ensures final(self).serves() == old(self).serves().push(s), final(self).runs() == old(self).runs(), final(self).started() == old(self).started() { unimplemented!() }
  #[verifier::external_body]
  pub fn clone_self(&self) -> Opaque { unimplemented!() }
}
// a task of its own takes what is put into the queue of a session and protocol, and speaks for that session and protocol
pub open spec fn attended(svc: Service, id: SessionId, p: ProtocolId, from: int) -> bool {
  exists|i: int| from <= i < svc.service_context.runs().len() && (#[trigger] svc.service_context.runs()[i]).proto_id == p && svc.service_context.runs()[i].stop@ == svc.shutdown.cell() && svc.service_context.runs()[i].chan@ == svc.session_proto_handles@[(id, p)] && svc.sessions@.dom().contains(id) && svc.service_context.runs()[i].context.alike(svc.sessions@[id].inner)
}
pub open spec fn heeded(svc: Service, o: Service, id: SessionId) -> bool {
  forall|p: ProtocolId| #[trigger] svc.session_proto_handles@.dom().contains((id, p)) ==> attended(svc, id, p, o.service_context.runs().len() as int) || (o.session_proto_handles@.dom().contains((id, p)) && svc.session_proto_handles@[(id, p)] == o.session_proto_handles@[(id, p)])
}
pub open spec fn served(svc: Service, p: ProtocolId, from: int) -> bool {
  exists|i: int| from <= i < svc.service_context.serves().len() && (#[trigger] svc.service_context.serves()[i]).proto_id == p && svc.service_context.serves()[i].stop@ == svc.shutdown.cell() && svc.service_context.serves()[i].chan@ == svc.service_proto_handles@[p]
}
impl TaskBuffer { #[verifier::external_body] pub fn clone_sender(&self) -> Opaque { unimplemented!() } }
impl ServiceContext { #[verifier::external_body] pub fn control_end(&self) -> Opaque { unimplemented!() } }
"""
SVC = r"""
pub open spec fn taken(m: Map<SessionId, SessionController>, k: Option<PublicKey>) -> bool { k is Some && exists|j: SessionId| #[trigger] m.dom().contains(j) && m[j].inner.remote_pubkey == k }
pub open spec fn mismatch(k: Option<PublicKey>, a: Multiaddr) -> bool { k is Some && a.names() is Some && a.names() != Some(k->Some_0.pid()) }
pub open spec fn grown(m: Map<SessionId, SessionController>, o: Map<SessionId, SessionController>, ty: SessionType, k: Option<PublicKey>) -> bool {
  exists|id: SessionId, c: SessionController| #![trigger o.insert(id, c)] !o.dom().contains(id) && m == o.insert(id, c) && c.inner.id == id && c.inner.ty == ty && c.inner.remote_pubkey == k && c.buffer.queued() == Seq::<(bool, Note)>::empty() && c.buffer.whole()
}
pub proof fn attend(s: Service, b: Service, id: SessionId, q: ProtocolId, from: int)
  requires s.sessions == b.sessions, s.shutdown == b.shutdown, 0 <= from <= b.service_context.runs().len(), s.service_context.runs().len() >= b.service_context.runs().len(), s.service_context.runs().subrange(0, b.service_context.runs().len() as int) =~= b.service_context.runs()
  ensures forall|p: ProtocolId| #[trigger] attended(b, id, p, from) && s.session_proto_handles@[(id, p)] == b.session_proto_handles@[(id, p)] ==> attended(s, id, p, from),
    ({ let x = s.service_context.runs().last(); s.service_context.runs().len() > from && x.proto_id == q && x.stop@ == s.shutdown.cell() && x.chan@ == s.session_proto_handles@[(id, q)] && s.sessions@.dom().contains(id) && x.context.alike(s.sessions@[id].inner) ==> attended(s, id, q, from) })
{
  let r = b.service_context.runs(); let n = s.service_context.runs();
  assert forall|p: ProtocolId| #[trigger] attended(b, id, p, from) && s.session_proto_handles@[(id, p)] == b.session_proto_handles@[(id, p)] implies attended(s, id, p, from) by {
    let i = choose|i: int| from <= i < r.len() && (#[trigger] r[i]).proto_id == p && r[i].stop@ == b.shutdown.cell() && r[i].chan@ == b.session_proto_handles@[(id, p)] && b.sessions@.dom().contains(id) && r[i].context.alike(b.sessions@[id].inner);
    assert(n.subrange(0, r.len() as int)[i] == n[i]);
    assert(n[i] == r[i]);
  }
  assert(n.len() > from ==> n[n.len() - 1] == n.last());
}
pub proof fn serve_on(s: Service, b: Service, q: ProtocolId, from: int)
  requires s.shutdown == b.shutdown, 0 <= from <= b.service_context.serves().len(), s.service_context.serves().len() >= b.service_context.serves().len(), s.service_context.serves().subrange(0, b.service_context.serves().len() as int) =~= b.service_context.serves()
  ensures forall|p: ProtocolId| #[trigger] served(b, p, from) && s.service_proto_handles@[p] == b.service_proto_handles@[p] ==> served(s, p, from),
    ({ let x = s.service_context.serves().last(); s.service_context.serves().len() > from && x.proto_id == q && x.stop@ == s.shutdown.cell() && x.chan@ == s.service_proto_handles@[q] ==> served(s, q, from) })
{
  let r = b.service_context.serves(); let n = s.service_context.serves();
  assert forall|p: ProtocolId| #[trigger] served(b, p, from) && s.service_proto_handles@[p] == b.service_proto_handles@[p] implies served(s, p, from) by {
    let i = choose|i: int| from <= i < r.len() && (#[trigger] r[i]).proto_id == p && r[i].stop@ == b.shutdown.cell() && r[i].chan@ == b.service_proto_handles@[p];
    assert(n.subrange(0, r.len() as int)[i] == n[i]);
    assert(n[i] == r[i]);
  }
  assert(n.len() > from ==> n[n.len() - 1] == n.last());
}
pub proof fn grow(n: Service, o: Service, id: SessionId, ty: SessionType, k: Option<PublicKey>)
  requires distinct(o.sessions@), all_counted(o.sessions@), !o.sessions@.dom().contains(id), n.sessions@ == o.sessions@.insert(id, n.sessions@[id]), n.sessions@[id].inner.id == id, n.sessions@[id].inner.ty == ty, n.sessions@[id].inner.remote_pubkey == k, n.sessions@[id].buffer.queued() == Seq::<(bool, Note)>::empty(), n.sessions@[id].buffer.whole(), !taken(o.sessions@, k)
  ensures grown(n.sessions@, o.sessions@, ty, k), distinct(n.sessions@), all_counted(n.sessions@)
{
  distinct_put(o.sessions@, id, n.sessions@[id]); counted_put(o.sessions@, id, n.sessions@[id]);
}
pub broadcast proof fn q_refl(m: Map<SessionId, SessionController>) ensures #[trigger] fewer(m, m) { fewer_refl(m); }
pub broadcast proof fn q_put(o: Map<SessionId, SessionController>, k: SessionId, c: SessionController) ensures o.dom().contains(k) && c.calm(o[k]) ==> #[trigger] fewer(o.insert(k, c), o) { fewer_refl(o); if o.dom().contains(k) && c.calm(o[k]) { fewer_put(o, o, k, c); } }
pub broadcast proof fn q_cut(o: Map<SessionId, SessionController>, k: SessionId) ensures #[trigger] fewer(o.remove(k), o) { fewer_refl(o); fewer_cut(o, o, k); }
pub broadcast proof fn q_next(m: Map<SessionId, SessionController>, n: Map<SessionId, SessionController>, o: Map<SessionId, SessionController>) requires #[trigger] fewer(m, n), #[trigger] fewer(n, o) ensures fewer(m, o) { fewer_trans(m, n, o); }
pub broadcast proof fn q_distinct(m: Map<SessionId, SessionController>, o: Map<SessionId, SessionController>) requires #[trigger] fewer(m, o), distinct(o) ensures #[trigger] distinct(m) { fewer_distinct(m, o); }
pub broadcast proof fn q_cput(o: Map<SessionId, SessionController>, k: SessionId, c: SessionController) requires all_counted(o), c.counted() ensures #[trigger] all_counted(o.insert(k, c)) { counted_put(o, k, c); }
pub broadcast proof fn q_ccut(o: Map<SessionId, SessionController>, k: SessionId) requires all_counted(o) ensures #[trigger] all_counted(o.remove(k)) { counted_cut(o, k); }
pub broadcast proof fn q_cat(m: Map<SessionId, SessionController>, k: SessionId) requires #[trigger] all_counted(m), #[trigger] m.dom().contains(k) ensures m[k].counted() { counted_at(m, k); }
pub proof fn settled(m: Map<SessionId, SessionController>, o: Map<SessionId, SessionController>) ensures fewer(m, o) && distinct(o) ==> distinct(m) { if fewer(m, o) && distinct(o) { fewer_distinct(m, o); } }
pub broadcast group quiet { bytes_push, msgs_push, q_refl, q_put, q_cut, q_next, q_distinct, q_cput, q_ccut, q_cat }
pub proof fn sent_to(s1: Map<SessionId, SessionController>, o: Map<SessionId, SessionController>, hi: bool, p: ProtocolId, d: Seq<u8>, ids: Seq<SessionId>, n: int)
  requires 0 <= n < ids.len(), delivered(s1, o, hi, p, d, |k: SessionId| times(ids.subrange(0, n), k)), all_counted(s1)
  ensures s1.dom() =~= o.dom(), s1.dom().contains(ids[n]) ==> s1[ids[n]].counted()
{ reveal(delivered); if s1.dom().contains(ids[n]) { counted_at(s1, ids[n]); } }
pub proof fn sent_next(m: Map<SessionId, SessionController>, s1: Map<SessionId, SessionController>, o: Map<SessionId, SessionController>, hi: bool, p: ProtocolId, d: Seq<u8>, ids: Seq<SessionId>, n: int)
  requires 0 <= n < ids.len(), delivered(s1, o, hi, p, d, |k: SessionId| times(ids.subrange(0, n), k)), all_counted(s1),
    if o.dom().contains(ids[n]) { m == s1.insert(ids[n], m[ids[n]]) && m[ids[n]].got(s1[ids[n]], (hi, Note::Msg(s1[ids[n]].inner.id, p, d)), 1) && m[ids[n]].counted() } else { m == s1 }
  ensures delivered(m, o, hi, p, d, |k: SessionId| times(ids.subrange(0, n + 1), k)), all_counted(m)
{
  let c = |k: SessionId| times(ids.subrange(0, n), k);
  let c2 = |k: SessionId| times(ids.subrange(0, n + 1), k);
  assert forall|k: SessionId| #[trigger] c2(k) == c(k) + (if k == ids[n] { 1nat } else { 0nat }) by { times_next(ids, n, k); }
  assert(s1.dom() =~= o.dom()) by { reveal(delivered); }
  if o.dom().contains(ids[n]) {
    deliver_one(s1, o, m, hi, p, d, c, c2, ids[n]);
    counted_put(s1, ids[n], m[ids[n]]);
  } else {
    assert forall|k: SessionId| o.dom().contains(k) implies c(k) == #[trigger] c2(k) by { }
    deliver_same(m, o, hi, p, d, c, c2);
  }
}
pub proof fn finish(m: Map<SessionId, SessionController>, o: Map<SessionId, SessionController>, hi: bool, p: ProtocolId, d: Seq<u8>, t: TargetSession)
  requires distinct(o), match t {
    TargetSession::Single(id) => if o.dom().contains(id) { m == o.insert(id, m[id]) && m[id].got(o[id], (hi, Note::Msg(o[id].inner.id, p, d)), 1) } else { m == o },
    TargetSession::Multi(ids) => delivered(m, o, hi, p, d, |k: SessionId| times(ids@, k)),
    TargetSession::All => delivered(m, o, hi, p, d, |k: SessionId| mentions(t, k)) }
  ensures delivered(m, o, hi, p, d, |k: SessionId| mentions(t, k)), distinct(m)
{
  let c2 = |k: SessionId| mentions(t, k);
  match t {
    TargetSession::Single(id) => {
      let c = |k: SessionId| 0nat;
      deliver_none(o, o, hi, p, d, c);
      if o.dom().contains(id) { deliver_one(o, o, m, hi, p, d, c, c2, id); } else { deliver_same(m, o, hi, p, d, c, c2); }
    }
    TargetSession::Multi(ids) => { deliver_same(m, o, hi, p, d, |k: SessionId| times(ids@, k), c2); }
    TargetSession::All => {}
  }
  delivered_distinct(m, o, hi, p, d, c2);
}
impl Service {
  pub open spec fn image(&self, p: ProtocolId, d: Seq<u8>) -> Seq<u8> { if self.before_sends@.dom().contains(p) { self.before_sends@[p].image(d) } else { d } }
  // nothing of the bookkeeping of attempts is touched
  pub open spec fn same_work(&self, o: Service) -> bool { self.state == o.state && self.session_event_sender.sent() == o.session_event_sender.sent() && self.session_event_receiver.taken() == o.session_event_receiver.taken() && self.config == o.config && self.shutdown == o.shutdown && self.before_sends == o.before_sends && self.service_task_receiver.got() == o.service_task_receiver.got() }
  // how many attempts were started
  pub open spec fn count(&self) -> nat { ended(self.session_event_sender.sent()) }
  pub open spec fn tried(&self, o: Service) -> bool { (self.state == o.state.up() && self.count() == o.count() + 1) || (self.state == o.state && self.count() == o.count()) }
  pub open spec fn same_set2(&self, o: Service) -> bool { self.config == o.config && self.shutdown == o.shutdown && self.before_sends == o.before_sends }
  pub open spec fn same_set(&self, o: Service) -> bool { self.same_set2(o) && self.service_task_receiver.got() == o.service_task_receiver.got() && self.session_event_receiver.taken() == o.session_event_receiver.taken() }
  // the count is the number of attempts started whose end was not handled yet
  pub open spec fn exact(&self) -> bool { self.state matches State::Running(n) ==> n == self.count() - self.session_event_receiver.taken() }
  pub open spec fn admitted(&self, o: Service, k: Option<PublicKey>, a: Multiaddr, ty: SessionType) -> bool {
    &&& (self.sessions@ == o.sessions@ || grown(self.sessions@, o.sessions@, ty, k))
    &&& (o.sessions@.dom().len() + o.state.pending() <= usize::MAX && o.sessions@.dom().len() >= o.config.max_connection_number || taken(o.sessions@, k) || mismatch(k, a)) ==> self.sessions@ == o.sessions@
  }
  // nothing left to do: no listener, no session, no attempt in progress (or closing), no task to start
  pub open spec fn idle(&self) -> bool { self.listens@ == Set::<Multiaddr>::empty() && (self.state == State::Running(0) || self.state == State::PreShutdown) && self.sessions@.dom().len() == 0 && !self.future_task_sender.holds() }
  // an event that ends an attempt belongs to one that is counted
  pub open spec fn fits(&self, e: SessionEvent) -> bool { sound(e) && (ends(e) ==> match self.state { State::Running(n) => n > 0, _ => true }) }
}
"""

def build(root='/repo'):
    u = Unit('service', root)
    A, B, C, D_, Q, T = ['C24'], ['C25'], ['C27'], ['C22'], ['C20'], ['C31']
    DR = '#[derive(Clone, Copy, PartialEq, Eq, Structural)]'
    for a, b, w in [('secio :: SecioKeyPair', 'KeyPair', ''), ('SecioKeyPair', 'KeyPair', ''), ('bytes :: Bytes', 'Bytes', ''), ('std :: io :: Error', 'Opaque', ''), ('io :: Error', 'Opaque', ''), ('IOError', 'Opaque', ''), ('Arc < AtomicUsize >', 'Counter', 'shared atomic counter'), ('Arc < AtomicBool >', 'Flag', 'shared atomic flag'),
                    ('Arc < SessionContext >', 'SessionContext', 'shared pointer read as the value'), ('Arc :: new ( AtomicBool :: new ( $b ) )', 'Flag :: of ( $b )', ''), ('Arc :: new ( AtomicUsize :: new ( $n ) )', 'Counter :: of ( $n )', ''),
                    ('Arc :: new ( SessionContext :: new ( $x ) )', 'SessionContext :: new ( $x )', 'shared pointer read as the value'),
                    ('mpsc :: Sender < SessionEvent >', 'PrioritySender < SessionEvent >', 'priority channel'), ('PriorityBuffer < SessionEvent >', 'EvBuffer', 'with the record of what was put in'), ('PriorityBuffer :: new', 'EvBuffer :: new', ''), ('priority_mpsc :: channel', 'channel', ''),
                    ('Box < dyn AsyncRW + Send + Unpin + \'static >', 'Opaque', 'transport'), ('MultiIncoming', 'Opaque', 'listener'), ('StreamHandle', 'Opaque', ''), ('SessionState', 'Opaque', ''), ('Duration', 'usize', ''), ('BoxedFutureTask', 'Task', ''),
                    ('Arc :: clone ( & $x )', '$x . clone ( )', 'shared pointer read as the value'), ('self . handle . handle_error ( & mut self . service_context , $x )', 'self . handle . tell ( $x )', 'user callback: gets a service context, not the service; what it is told is recorded'),
                    ('self . handle . handle_event ( $x ) ;', '', 'user callback'), ('self . handle . handle_event ( $x )', '( )', 'user callback'), ('self . handle . handle_proto ( $x ) ;', '', 'user callback'), ('self . handle . handle_proto ( $x )', '( )', 'user callback'),
                    ('. await', '', 'a future is run where it is awaited'),
                    ]:
        u.rule(a, b, w)
    u.text(HEAD + BYTES + PRE)
    u.item(LB, 'struct', 'SessionId', DR)
    u.impl('impl SessionId', LB, [Fn('impl SessionId', 'wrapping_add', props=A, sig='pub fn wrapping_add(self, rhs: usize) -> (ret: SessionId)', ensures=['ret.0 as int == (self.0 as int + rhs as int) % 0x1_0000_0000_0000_0000'])])
    u.item(CH, 'enum', 'Priority', DR)
    u.impl('impl Priority', CH, [Fn('impl Priority', 'is_high', props=B + D_, rules=[('matches ! ( self , Priority :: High )', 'match self { Priority :: High => true , _ => false }')], ensures=['ret == (self == Priority::High)'])])
    u.item(HP, 'enum', 'SessionType', DR); u.item(HP, 'enum', 'Source', DR)
    u.impl('impl SessionType', HP, [Fn('impl SessionType', 'is_outbound', props=C, ensures=['ret == (self == SessionType::Outbound)']), Fn('impl SessionType', 'is_inbound', props=C, ensures=['ret == (self == SessionType::Inbound)'])])
    for k in ('ProtocolHandleErrorKind', 'DialerErrorKind', 'HandshakeErrorKind', 'ListenErrorKind'):
        u.item(ER, 'enum', k)
    u.item(EV, 'enum', 'ServiceError')
    u.item(CX, 'struct', 'SessionContext'); u.item(SE, 'enum', 'SessionEvent'); u.item(CX, 'struct', 'SessionController')
    u.item(CF, 'enum', 'TargetSession'); u.item(CF, 'enum', 'TargetProtocol'); u.item(CF, 'enum', 'State', DR); u.item(EV, 'enum', 'ServiceTask')
    buffer.rules(u)
    buffer.add(u, B + D_)
    u.text(QUEUE)
    u.text(MAPS)
    u.text(SPEC)
    SX = 'impl SessionContext'
    u.impl(SX, CX, [
        Fn(SX, 'new', props=A + D_, ensures=['ret.id == id && ret.address == address && ret.ty == ty && ret.remote_pubkey == remote_pubkey && ret.pending_data_size == pending_data_size']),
        Fn(SX, 'incr_pending_data_size', props=B + D_, sig='pub fn incr_pending_data_size(&mut self, data_size: usize)', ensures=['*final(self) == (SessionContext { pending_data_size: final(self).pending_data_size, ..*old(self) })', 'final(self).pending_data_size.share() == old(self).pending_data_size.share() + data_size']),
        Fn(SX, 'pending_data_size', props=D_, ensures=['ret == self.pending_data_size.value()'])])
    SC = 'impl SessionController'
    u.impl(SC, CX, [
        Fn(SC, 'new', props=A + B, ensures=['ret.inner == inner', 'ret.buffer.queued() == Seq::<(bool, Note)>::empty()', 'ret.buffer.whole() && ret.buffer.emptied() == 0', 'ret.buffer.inner.sender.chan() == event_sender.chan()'], requires=['event_sender.log() == Seq::<(bool, SessionEvent)>::empty()']),
        Fn(SC, 'push', props=B + D_, ensures=['final(self).inner == old(self).inner', 'final(self).buffer.queued() == old(self).buffer.queued().push((priority == Priority::High, note(event)))', 'old(self).buffer.whole() ==> final(self).buffer.whole()', 'final(self).buffer.emptied() == old(self).buffer.emptied()']),
        Fn(SC, 'push_message', props=B + D_, proof='broadcast use bytes_push;', ensures=['final(self).got(*old(self), (priority == Priority::High, Note::Msg(old(self).inner.id, proto_id, data@)), 1)', 'old(self).counted() ==> final(self).counted()'],
           tail=''),
        Fn(SC, 'try_send', props=B + D_, requires=['old(self).counted()'], ensures=['final(self).inner == old(self).inner', 'final(self).buffer.queued() == old(self).buffer.queued()', 'final(self).buffer.whole()', 'final(self).buffer.emptied() == old(self).buffer.emptied()'])])
    # ---- state
    ST = 'impl State'
    u.impl(ST, CF, [
        Fn(ST, 'new', props=C, ensures=['ret == (if forever { State::Forever } else { State::Running(0) })']),
        Fn(ST, 'is_shutdown', props=C, rules=[('State :: Running ( num ) if num == & 0', 'State :: Running ( num ) if * num == 0')], ensures=['ret == (*self == State::Running(0) || *self == State::PreShutdown)']),
        Fn(ST, 'pre_shutdown', props=C, ensures=['*final(self) == State::PreShutdown']),
        Fn(ST, 'increase', props=C, requires=['*old(self) matches State::Running(n) ==> n < usize::MAX'], ensures=['*final(self) == old(self).up()']),
        Fn(ST, 'decrease', props=C, requires=['*old(self) matches State::Running(n) ==> n > 0'], ensures=['*final(self) == old(self).down()']),
        Fn(ST, 'into_inner', props=C, ensures=['ret == (match self { State::Running(n) => Some(n), _ => None })'])])

    # ---- the secure handshake of one connection
    u.item(HP, 'struct', 'HandshakeContext', rules=[('mpsc :: Sender < SessionEvent >', 'EventSender')])
    HC = 'impl HandshakeContext'
    u.impl(HC, HP, [
        Fn(HC, 'handshake', props=A + C + T, sig='pub fn handshake(mut self, socket: Opaque, w: &mut EventSender)',
           rules=[('crate :: runtime :: timeout ( self . timeout , Config :: new ( $idk ) . max_frame_length ( self . max_frame_length ) . handshake ( $ids ) , )', 'secure ( self . timeout , $idk , self . max_frame_length , $ids )'), ('self . event_sender . send', 'w . send'),
                  ('Box :: new ( $idx )', '$idx')],
           proof='broadcast use ended_push;',
           requires=['self.ty == SessionType::Inbound ==> self.listen_address is Some'],
           ensures=[(C + T, 'final(w).sent() == old(w).sent().push(final(w).sent().last())'), (C, 'ended(final(w).sent()) == ended(old(w).sent()) + (if self.ty == SessionType::Outbound { 1nat } else { 0nat })'),
                    (A, 'greeted(final(w).sent().last(), self.key_pair, self.ty, self.remote_address, socket)'),
                    (T, 'timed(final(w).sent().last(), self.key_pair, self.timeout, self.max_frame_length, self.ty, self.remote_address, socket)')])])
    # ---- one listener
    u.item(HP, 'struct', 'Listener', rules=[('mpsc :: Sender < SessionEvent >', 'EventSender'), ('mpsc :: Sender < BoxedFutureTask >', 'Opaque')])
    LI = 'impl Listener'
    IN = "exists|a: Multiaddr, s: Opaque| #[trigger] %s"
    u.impl(LI, HP, [
        Fn(LI, 'close', props=C, sig='pub fn close(&self, io_err: Opaque, w: &mut EventSender)', proof='broadcast use ended_push;',
           rules=[('let report_task = async move { $blkb } ;', '{ $blkb }'), ('let mut event_sender = self . event_sender . clone ( ) ;', ''), ('event_sender . send', 'w . send'), ('let mut future_sender = $x ;', ''), ('crate :: runtime :: spawn ( async move { if future_sender . send ( Box :: pin ( report_task ) ) . await . is_err ( ) { $optq } } ) ;', ''), ('TransportErrorKind :: Io ( $e )', 'transport_io ( $e )')],
           ensures=['final(w).sent() == old(w).sent().push(final(w).sent().last())', 'ended(final(w).sent()) == ended(old(w).sent())', 'final(w).sent().last() matches SessionEvent::ListenError { address, .. } && address == self.listen_addr']),
        Fn(LI, 'handshake', props=A + C + T, sig='pub fn handshake(&self, socket: Opaque, remote_address: Multiaddr, w: &mut EventSender)',
           rules=[('self . key_pair . clone ( )', 'cloned_key ( & self . key_pair )'), ('let handshake_task = HandshakeContext { $x } . handshake ( $s ) ;', 'HandshakeContext { $x } . handshake ( $s , w ) ;'), ('let mut future_task_sender = $x ;', ''), ('crate :: runtime :: spawn ( async move { if future_task_sender . send ( Box :: pin ( handshake_task ) ) . await . is_err ( ) { $optq } } ) ;', '')],
           ensures=['final(w).sent() == old(w).sent().push(final(w).sent().last())', (C, 'ended(final(w).sent()) == ended(old(w).sent())'), (A, 'greeted(final(w).sent().last(), self.key_pair, SessionType::Inbound, remote_address, socket)'),
                    (T, 'timed(final(w).sent().last(), self.key_pair, self.timeout, self.max_frame_length, SessionType::Inbound, remote_address, socket)')]),
        Fn('impl Stream for Listener', 'poll_next', props=A + C + T, sig='pub fn poll_next(&mut self, cx: &mut Context, w: &mut EventSender) -> (ret: Poll<Option<()>>)',
           rules=[('Pin :: new ( & mut self . inner ) . as_mut ( ) . poll_next ( cx )', 'next_in ( & mut self . inner , cx )'), ('self . handshake ( $x ) ;', 'self . handshake ( $x , w ) ;'), ('self . close ( io :: ErrorKind :: BrokenPipe . into ( ) ) ;', 'self . close ( broken_pipe ( ) , w ) ;'), ('self . close ( $ide ) ;', 'self . close ( $ide , w ) ;')],
           ensures=['*final(self) == (Listener { inner: final(self).inner, ..*old(self) })', (C, 'ended(final(w).sent()) == ended(old(w).sent())'), (A + T, 'ret matches Poll::Ready(Some(_)) ==> final(w).sent() == old(w).sent().push(final(w).sent().last())'), (A + T, 'ret is Pending ==> final(w).sent() == old(w).sent()'),
                    (A, 'ret matches Poll::Ready(Some(_)) ==> ' + IN % 'greeted(final(w).sent().last(), old(self).key_pair, SessionType::Inbound, a, s)'),
                    (T, 'ret matches Poll::Ready(Some(_)) ==> ' + IN % 'timed(final(w).sent().last(), old(self).key_pair, old(self).timeout, old(self).max_frame_length, SessionType::Inbound, a, s)'),
                    (A + C, 'ret matches Poll::Ready(None) ==> final(w).sent().last() matches SessionEvent::ListenError { address, .. } && address == old(self).listen_addr')])])
    # ---- user side: control handles
    CTL = [('mpsc :: Sender < ServiceTask >', 'TaskSender'), ('Arc < HashMap < ProtocolId , ProtocolInfo > >', 'ProtoInfos')]
    u.item(CT, 'struct', 'ServiceControl', rules=CTL); u.item(CT, 'struct', 'ServiceAsyncControl', rules=CTL)
    u.item(CX, 'struct', 'ServiceContext'); u.item(CX, 'struct', 'ProtocolContext')
    ME = [('. map_err ( | $idx | $e )', '. map_err ( | $idx : TaskFault | -> ( r : SendErrorKind ) { $e } )')]
    def send(fn, quick, what, path='task_sender', **kw):
        return dict(props=B, ensures=['ret is Ok ==> final(self).%s.log() == old(self).%s.log().push((%s, %s))' % (path, path, 'true' if quick else 'false', what), 'ret is Err ==> final(self).%s.log() == old(self).%s.log()' % (path, path)], **kw)
    R = 'Result<(), SendErrorKind>'
    def ctl(impl, src, path):
        M = 'ServiceTask::ProtocolMessage { target: %s, proto_id, data }'
        out = []
        if src == CT:
            for n, q in (('send', False), ('quick_send', True)):
                out.append(Fn(impl, n, sig='pub fn %s(&mut self, event: ServiceTask) -> (ret: %s)' % (n, R), rules=ME, **send(n, q, 'event', path)))
        for n, q in (('filter_broadcast', False), ('quick_filter_broadcast', True)):
            tg = 'target' if src == CT else 'session_ids'
            out.append(Fn(impl, n, sig='pub fn %s(&mut self, %s: TargetSession, proto_id: ProtocolId, data: Bytes) -> (ret: %s)' % (n, tg, R), **send(n, q, M % tg, path)))
        for n, q in (('send_message_to', False), ('quick_send_message_to', True)):
            out.append(Fn(impl, n, sig='pub fn %s(&mut self, session_id: SessionId, proto_id: ProtocolId, data: Bytes) -> (ret: %s)' % (n, R), **send(n, q, M % 'TargetSession::Single(session_id)', path)))
        return out
    for im in ('impl ServiceControl', 'impl ServiceAsyncControl'):
        u.impl(im, CT, ctl(im, CT, 'task_sender'))
    u.impl('impl ServiceContext', CX, ctl('impl ServiceContext', CX, 'inner.task_sender'))
    u.text('pub struct ProtocolContextMutRef { pub inner: ProtocolContext, pub session: SessionContext }')
    PM = "impl < 'a > ProtocolContextMutRef < 'a >"
    MS = 'ServiceTask::ProtocolMessage { target: TargetSession::Single(old(self).session.id), proto_id: old(self).inner.proto_id, data }'
    u.impl('impl ProtocolContextMutRef', CX, [Fn(PM, 'proto_id', props=B, ensures=['ret == self.inner.proto_id'])] +
           [Fn(PM, n, sig='pub fn %s(&mut self, data: Bytes) -> (ret: %s)' % (n, R), rules=[('self . inner . $idm (', 'self . inner . inner . $idm (')], **send(n, q, MS, 'inner.inner.inner.task_sender')) for n, q in (('send_message', False), ('quick_send_message', True))])

    # ---- the service
    MAPR = [('HashMap < ProtocolId , ProtocolMeta >', 'ProtoConfigs'), ('HashMap < SessionId , SessionController >', 'SessMap'), ('HashSet < Multiaddr >', 'AddrSet'), ('HashMap < Multiaddr , TargetProtocol >', 'DialMap'),
            ('HashMap < ProtocolId , Box < dyn Fn ( bytes :: Bytes ) -> bytes :: Bytes + Send + \'static > >', 'SendHooks'), ('handle : T', 'handle : Told'), ('Option < FutureTaskManager >', 'Option < TaskManager >'), ('Buffer < BoxedFutureTask >', 'TaskBuffer'),
            ('HashMap < ProtocolId , Buffer < ServiceProtocolEvent > >', 'BufMap < ProtocolId >'), ('HashMap < ( SessionId , ProtocolId ) , Buffer < SessionProtocolEvent > >', 'BufMap < ( SessionId , ProtocolId ) >'),
            ('mpsc :: Sender < SessionEvent >', 'EventSender'), ('mpsc :: Receiver < SessionEvent >', 'EventReceiver'), ('priority_mpsc :: Receiver < ServiceTask >', 'TaskReceiver'), ('Vec < ( Option < futures :: channel :: oneshot :: Sender < ( ) > > , crate :: runtime :: JoinHandle < ( ) > , ) >', 'WaitHandles'),
            ('Service < T >', 'Service')]
    u.item(CF, 'struct', 'SessionConfig', rules=[('YamuxConfig', 'Opaque')]); u.item(CF, 'struct', 'ServiceConfig', rules=[('HashSet < ProtocolId >', 'ProtoSet'), ('SocketAddr', 'Opaque')])
    u.item(S, 'struct', 'Service', rules=MAPR)
    u.item(S, 'const', 'SEND_SIZE')
    u.text(START)
    u.text(SVC)
    SV = r'impl < T > Service < T > where T : ServiceHandle \+ Unpin ,'
    F = lambda name, **kw: Fn(SV, name, **kw)
    ALL = A + B + C + D_
    KP = [('self . service_context . key_pair ( ) . cloned ( )', 'cloned_key ( & self . service_context . key_pair )')]
    TASK = [('let $idt = async move { $blkb } ; $optblkm self . future_task_sender . push ( Box :: pin ( $idt ) ) ;', '$optblkm { $blkb } self . future_task_sender . push ( Task { x : 0 } ) ;'), ('let mut sender = self . session_event_sender . clone ( ) ;', ''), ('event_sender : sender', 'event_sender : self . session_event_sender . clone ( )'), ('sender . send (', 'self . session_event_sender . send ('), ('. handshake ( $s ) . await', '. handshake ( $s , & mut self . session_event_sender )')]
    EACH = [('for $idi in $idv { $blkb }', '{ let mut nn : usize = 0 ; while nn < $idv . len ( ) { let $idi = $idv [ nn ] ; nn = nn + 1 ; $blkb } }')]
    CLOSE = [('$idv . into_iter ( ) . for_each ( | $idi | $e )', '{ let mut nn : usize = 0 ; while nn < $idv . len ( ) { let $idi = $idv [ nn ] ; nn = nn + 1 ; $e ; } }')]
    OLD = 'let ghost o = *self;'
    SENT = 'final(self).session_event_sender.sent().last()'
    DIALS = [(A, 'ret is Ok ==> %s is DialError || exists|a: Multiaddr, s: Opaque| #[trigger] greeted(%s, old(self).service_context.key_pair, SessionType::Outbound, a, s)' % (SENT, SENT)),
             (T, 'ret is Ok ==> %s is DialError || exists|a: Multiaddr, s: Opaque| #[trigger] timed(%s, old(self).service_context.key_pair, old(self).config.timeout, old(self).config.max_frame_length, SessionType::Outbound, a, s)' % (SENT, SENT))]
    def frame(*f):
        return '*final(self) == (Service { %s..*old(self) })' % ''.join('%s: final(self).%s, ' % (x, x) for x in f)
    EV_OK = 'old(self).fits(event)'
    SETTLE = [('return ;', '{ proof { settled ( self . sessions @ , o . sessions @ ) ; } return ; }')]
    CL = [('self . session_proto_handles . retain ( $x ) ;', 'self . session_proto_handles . forget ( id ) ;'), ('ServiceEvent :: SessionClose { $x }', '( )')]
    WF = ['distinct(old(self).sessions@)', 'all_counted(old(self).sessions@)', 'old(self).config.session_config.send_buffer_size == send_limit()']
    QUIET = [(A + B, 'fewer(final(self).sessions@, old(self).sessions@)'), (D_, 'all_counted(final(self).sessions@)'), (A, 'distinct(final(self).sessions@)'), (C, 'final(self).same_work(*old(self))')]
    BC = 'broadcast use quiet; '
    ROOM = ['old(self).state.pending() + 4 < usize::MAX']
    TRY = ['ret is Ok ==> final(self).state == old(self).state.up() && final(self).count() == old(self).count() + 1', 'ret is Err ==> final(self).state == old(self).state && final(self).count() == old(self).count()']
    BUF = [('buffer . push ( $x ) ;', 'buffer . push ( ) ;')]
    tl = lambda v: Loop('while nn < %s . len ( )' % v, invariant=['o.config.session_config.send_buffer_size == send_limit()', 'fewer(self.sessions@, o.sessions@)', 'all_counted(self.sessions@)', 'distinct(self.sessions@)', 'distinct(o.sessions@)', 'nn <= %s@.len()' % v, 'self.same_work(Service { state: self.state, ..o })', 'self.state == s9'], decreases='%s@.len() - nn' % v, start='broadcast use quiet;', before='let ghost s9 = self.state;')
    TASKS = [(A + B, 'event matches ServiceTask::ProtocolMessage { target, proto_id, data } ==> delivered(final(self).sessions@, old(self).sessions@, priority == Priority::High, proto_id, old(self).image(proto_id, data@), |k: SessionId| mentions(target, k))'),
             (A + B, '!(event is ProtocolMessage) ==> fewer(final(self).sessions@, old(self).sessions@)'), (A, 'distinct(final(self).sessions@)'), (D_, 'all_counted(final(self).sessions@)'),
             (C, 'match event { ServiceTask::Dial { .. } => final(self).tried(*old(self)), ServiceTask::Listen { .. } => final(self).tried(*old(self)), ServiceTask::Shutdown(_) => final(self).state == State::PreShutdown && final(self).count() == old(self).count(), _ => final(self).state == old(self).state && final(self).count() == old(self).count() }'),
             'final(self).same_set(*old(self))']
    MAYSTOP = [(A + B, 'fewer(final(self).sessions@, old(self).sessions@)'), (A, 'distinct(final(self).sessions@)'), (D_, 'all_counted(final(self).sessions@)'), (C, '(final(self).state == old(self).state || final(self).state == State::PreShutdown) && final(self).count() == old(self).count()'), 'final(self).same_set(*old(self))']
    EVS = [(A, 'event matches SessionEvent::HandshakeSuccess { public_key, address, ty, .. } ==> final(self).admitted(*old(self), public_key, address, ty)'), (A + B, '!(event is HandshakeSuccess) ==> fewer(final(self).sessions@, old(self).sessions@)'), (A, 'distinct(final(self).sessions@)'), (D_, 'all_counted(final(self).sessions@)'),
           (C, 'final(self).state == (if ends(event) { old(self).state.down() } else { old(self).state }) || (final(self).state == State::PreShutdown && (event is ListenStart || event is ProtocolHandleError))'), (C, 'final(self).count() == old(self).count()'), 'final(self).same_set(*old(self))',
           (T, 'event matches SessionEvent::HandshakeError { ty, error, address } ==> final(self).handle.all() == (if ty == SessionType::Outbound { old(self).handle.all().push(ServiceError::DialerError { address, error: DialerErrorKind::HandshakeError(error) }) } else { old(self).handle.all() }) && final(self).sessions == old(self).sessions'),
           (T, 'event matches SessionEvent::SessionTimeout { id } ==> final(self).handle.all() == (if old(self).sessions@.dom().contains(id) { old(self).handle.all().push(final(self).handle.all().last()) } else { old(self).handle.all() }) && (old(self).sessions@.dom().contains(id) ==> (final(self).handle.all().last() matches ServiceError::SessionTimeout { session_context } && session_context.alike(old(self).sessions@[id].inner)))'),
           (T, 'event matches SessionEvent::ProtocolSelectError { id, proto_name } ==> final(self).handle.all() == (if old(self).sessions@.dom().contains(id) { old(self).handle.all().push(final(self).handle.all().last()) } else { old(self).handle.all() }) && (old(self).sessions@.dom().contains(id) ==> (final(self).handle.all().last() matches ServiceError::ProtocolSelectError { proto_name: n, session_context } && n == proto_name && session_context.alike(old(self).sessions@[id].inner)))')]
    STEP = ['distinct(final(self).sessions@)', 'all_counted(final(self).sessions@)', 'final(self).same_set2(*old(self))', 'old(self).state == State::PreShutdown ==> final(self).state == State::PreShutdown']
    USER = STEP + [(B, 'final(self).service_task_receiver.got().len() == old(self).service_task_receiver.got().len() + 1 ==> (final(self).service_task_receiver.got().last().1 matches ServiceTask::ProtocolMessage { target, proto_id, data } ==> delivered(final(self).sessions@, old(self).sessions@, final(self).service_task_receiver.got().last().0 == Priority::High, proto_id, old(self).image(proto_id, data@), |k: SessionId| mentions(target, k)))'),
                   (B, 'final(self).service_task_receiver.got().len() == old(self).service_task_receiver.got().len() ==> final(self).sessions == old(self).sessions'), (B, 'final(self).service_task_receiver.got().len() <= old(self).service_task_receiver.got().len() + 1')]
    MI = ['o.config.session_config.send_buffer_size == send_limit()', 'o == *old(self)', 'self.same_work(o)', 'distinct(o.sessions@)', 'all_counted(self.sessions@)', 'hi == (priority == Priority::High)', 'data@ == d0']
    STOP = ('futures :: channel :: oneshot :: channel ( )', 'stop_channel ( )')
    PROTO = [('for ( $idp , $idm ) in self . protocol_configs . iter_mut ( ) { $blkb }', '{ let idp = self . protocol_configs . ids ( ) ; let mut nn : usize = 0 ; while nn < idp . len ( ) { let $idp = & idp [ nn ] ; let $idm = self . protocol_configs . at ( $idp ) ; nn = nn + 1 ; $blkb } proof { over ( idp @ , nn as int ) ; } }'),
             ('mpsc :: channel ( RECEIVED_SIZE )', 'proto_channel ( 512 )'), ('Buffer :: new ( $idx )', 'ProtoBuf :: on ( $idx )'), ('Arc :: clone ( & $x )', '$x . clone ( )'), STOP]
    IN_ = ['nn <= idp@.len()', 'self.protocol_configs == old(self).protocol_configs', 'self.service_context.started() == old(self).service_context.started()']
    NEW = ['ret.protocol_configs == %s', (A + C, 'ret.config == %s'), (T, 'ret.config.timeout == %s.timeout'), (A, 'ret.config.max_connection_number == %s.max_connection_number'), (B, 'ret.config.session_config.send_buffer_size == %s.session_config.send_buffer_size'), (A, 'ret.service_context.key_pair == %s'), (C, 'ret.state == (if %s { State::Forever } else { State::Running(0) })'),
           (A, 'ret.sessions@ == Map::<SessionId, SessionController>::empty()'), (A, 'distinct(ret.sessions@)'), (D_, 'all_counted(ret.sessions@)'), (B, 'ret.before_sends@ == Map::<ProtocolId, BeforeSend>::empty()'), (C, 'ret.count() == 0 && ret.session_event_receiver.taken() == 0 && ret.exact()'), (C, 'ret.listens@ == Set::<Multiaddr>::empty() && !ret.future_task_sender.holds()')]
    def new(cfg, con, key, ever):
        m = {0: cfg, 1: con, 2: con, 3: con, 4: con, 5: key, 6: ever}
        return [(c[0], c[1] % m[i]) if isinstance(c, tuple) and i in m else (c % m[i] if i in m else c) for i, c in enumerate(NEW)]
    u.impl('impl ServiceContext', CX, [Fn('impl ServiceContext', 'new', props=A + B, sig='pub fn new(task_sender: TaskSender, proto_infos: ProtoInfos, key_pair: Option<KeyPair>, closed: Flag) -> (ret: ServiceContext)', ensures=['ret.key_pair == key_pair', 'ret.inner.task_sender == task_sender', 'ret.inner.closed == closed'])])
    u.impl('impl ServiceControl', CT, [Fn('impl ServiceControl', 'new', props=A + B, sig='pub fn new(task_sender: TaskSender, proto_infos: ProtoInfos, closed: Flag) -> (ret: ServiceControl)', rules=[('Arc :: new ( proto_infos )', 'proto_infos')], ensures=['ret.task_sender == task_sender', 'ret.closed == closed'])])
    u.impl('impl Service', S, [
        F('new', props=ALL + T, sig='pub fn new(protocol_configs: ProtoConfigs, handle: Told, key_pair: Option<KeyPair>, forever: bool, config: ServiceConfig) -> (ret: Service)',
          rules=[('let ( $ids , $idr ) = mpsc :: channel ( RECEIVED_SIZE ) ;', 'let ( $ids , $idr ) = event_channel ( ) ;'), ('let ( $ids , $idr ) = priority_mpsc :: channel ( RECEIVED_BUFFER_SIZE ) ;', 'let ( $ids , $idr ) = task_channel ( ) ;'), ('let proto_infos = $x ;', 'let proto_infos = ProtoInfos { x : 0 } ;'),
                 ('let ( $ids , $idr ) = mpsc :: channel ( SEND_SIZE ) ;', ''), ('Buffer :: new ( $idf )', 'TaskBuffer :: none ( )'), ('FutureTaskManager :: new ( $idr , $x )', 'TaskManager :: of ( $x )'), ('before_sends : HashMap :: default ( )', 'before_sends : SendHooks :: none ( )'), ('sessions : HashMap :: default ( )', 'sessions : SessMap :: none ( )'),
                 ('service_proto_handles : HashMap :: default ( )', 'service_proto_handles : BufMap :: none ( )'), ('session_proto_handles : HashMap :: default ( )', 'session_proto_handles : BufMap :: none ( )'), ('listens : HashSet :: new ( )', 'listens : AddrSet :: none ( )'), ('dial_protocols : HashMap :: default ( )', 'dial_protocols : DialMap :: none ( )'),
                 ('SessionId :: default ( )', 'SessionId ( 0 )'), ('wait_handle : Vec :: new ( )', 'wait_handle : WaitHandles :: none ( )'), ('config . tcp_bind_addr', 'copy_of ( & config . tcp_bind_addr )')],
          proof='proof { reveal(distinct); reveal(all_counted); }',
          ensures=new('protocol_configs', 'config', 'key_pair', 'forever')),
        F('wait_handle_poll', props=ALL + T, rules=[('for ( $ids , mut $idh ) in self . wait_handle . split_off ( 0 ) { $blkb }', '{ let mut all_ = self . wait_handle . taken ( ) ; while ! all_ . is_empty ( ) { let ( $ids , mut $idh ) = all_ . first ( ) ; $blkb } }')],
          loops=[Loop('while ! all_ . is_empty ( )', invariant=['*self == (Service { wait_handle: self.wait_handle, ..*old(self) })'], decreases='all_.left()')],
          ensures=[frame('wait_handle'), 'ret == (if final(self).wait_handle.left() == 0 { Poll::Ready(None::<()>) } else { Poll::Pending })']),
    ])
    # ---- what the user configures
    u.item(BU, 'struct', 'ServiceBuilder', rules=MAPR)
    SB = 'impl ServiceBuilder'
    conf = lambda f, v: 'ret == (ServiceBuilder { config: ServiceConfig { %s: %s, ..self.config }, ..self })' % (f, v)
    u.impl(SB, BU, [
        Fn(SB, 'build', props=ALL + T, sig='pub fn build(self, handle: Told) -> (ret: Service)', ensures=new('self.inner', 'self.config', 'self.key_pair', 'self.forever')),
        Fn(SB, 'key_pair', props=A, ensures=['ret == (ServiceBuilder { key_pair: Some(key_pair), ..self })']),
        Fn(SB, 'forever', props=C, ensures=['ret == (ServiceBuilder { forever, ..self })']),
        Fn(SB, 'timeout', props=T, ensures=[conf('timeout', 'timeout')]),
        Fn(SB, 'max_connection_number', props=A, ensures=[conf('max_connection_number', 'number')]),
        Fn(SB, 'set_send_buffer_size', props=B, ensures=[conf('session_config', 'SessionConfig { send_buffer_size: size, ..self.config.session_config }')]),
        Fn(SB, 'insert_protocol', props=B, sig='pub fn insert_protocol(mut self, protocol: ProtocolMeta) -> (ret: ServiceBuilder)', rules=[('protocol . session_handle ( ) . has_event ( ) || protocol . service_handle . has_event ( )', 'protocol . eventful ( )')],
           ensures=['ret.inner@ == self.inner@.insert(protocol.inner.pid(), protocol)', 'ret.config == (ServiceConfig { event: ret.config.event, ..self.config })', 'ret.key_pair == self.key_pair && ret.forever == self.forever'])])
    u.impl('impl Service', S, [
        F('session_handles_open', props=A + B + D_ + Q, sig='pub fn session_handles_open(&mut self, id: SessionId) -> (ret: WaitHandles)', opts='#[verifier::loop_isolation(false)]',
          rules=PROTO + [('Vec :: new ( )', 'WaitHandles :: none ( )'), ('crate :: runtime :: spawn ( async move { future :: select ( $ids . for_each ( $x ) , receiver ) . await ; } )', 'self . service_context . run ( $ids )')],
          loops=[Loop('while nn < idp . len ( )', invariant=IN_ + [frame('session_proto_handles', 'service_context').replace('final(self)', 'self').replace('*self ==', '*self =='), 'self.service_context.serves() == old(self).service_context.serves() && self.service_context.runs().len() >= old(self).service_context.runs().len()',
                      (Q, 'forall|k: SessionId, p: ProtocolId| k != id ==> (#[trigger] self.session_proto_handles@.dom().contains((k, p)) <==> old(self).session_proto_handles@.dom().contains((k, p))) && (old(self).session_proto_handles@.dom().contains((k, p)) ==> self.session_proto_handles@[(k, p)] == old(self).session_proto_handles@[(k, p)])'),
                      (Q, 'forall|p: ProtocolId| #[trigger] self.session_proto_handles@.dom().contains((id, p)) ==> attended(*self, id, p, old(self).service_context.runs().len() as int) || (old(self).session_proto_handles@.dom().contains((id, p)) && self.session_proto_handles@[(id, p)] == old(self).session_proto_handles@[(id, p)])')],
                      start='let ghost b9 = *self; assert(idp@.contains(idp@[nn as int]));', end='proof { attend(*self, b9, id, idp@[nn - 1], old(self).service_context.runs().len() as int); assert forall|k: SessionId, p: ProtocolId| k != id implies (#[trigger] self.session_proto_handles@.dom().contains((k, p)) <==> b9.session_proto_handles@.dom().contains((k, p))) && (b9.session_proto_handles@.dom().contains((k, p)) ==> self.session_proto_handles@[(k, p)] == b9.session_proto_handles@[(k, p)]) by { } }', decreases='idp@.len() - nn')],
          ensures=[frame('session_proto_handles', 'service_context'), 'final(self).service_context.started() == old(self).service_context.started()',
                   (Q, 'forall|k: SessionId, p: ProtocolId| k != id ==> (#[trigger] final(self).session_proto_handles@.dom().contains((k, p)) <==> old(self).session_proto_handles@.dom().contains((k, p))) && (old(self).session_proto_handles@.dom().contains((k, p)) ==> final(self).session_proto_handles@[(k, p)] == old(self).session_proto_handles@[(k, p)])'),
                   (Q, 'forall|p: ProtocolId| #[trigger] final(self).session_proto_handles@.dom().contains((id, p)) ==> attended(*final(self), id, p, old(self).service_context.runs().len() as int) || (old(self).session_proto_handles@.dom().contains((id, p)) && final(self).session_proto_handles@[(id, p)] == old(self).session_proto_handles@[(id, p)])')]),
        F('init_proto_handles', props=ALL + Q, opts='#[verifier::loop_isolation(false)]',
          rules=PROTO + [('$idm . before_send . take ( )', '$idm . take_before_send ( )'), ('crate :: runtime :: spawn ( async move { future :: select ( $ids . for_each ( $x ) , receiver ) . await ; } )', 'self . service_context . serve ( $ids )')],
          loops=[Loop('while nn < idp . len ( )', invariant=IN_ + [frame('service_proto_handles', 'service_context', 'before_sends', 'wait_handle').replace('final(self)', 'self'), 'self.service_context.runs() == old(self).service_context.runs() && self.service_context.serves().len() >= old(self).service_context.serves().len()',
                      (Q, 'forall|p: ProtocolId| #[trigger] self.service_proto_handles@.dom().contains(p) ==> served(*self, p, old(self).service_context.serves().len() as int) || (old(self).service_proto_handles@.dom().contains(p) && self.service_proto_handles@[p] == old(self).service_proto_handles@[p])'), (B, 'forall|p: ProtocolId| #[trigger] self.before_sends@.dom().contains(p) <==> old(self).before_sends@.dom().contains(p) || (idp@.subrange(0, nn as int).contains(p) && self.protocol_configs@[p].hook() is Some)'), (B, 'forall|p: ProtocolId| #[trigger] self.before_sends@.dom().contains(p) ==> self.before_sends@[p] == (if idp@.subrange(0, nn as int).contains(p) && self.protocol_configs@[p].hook() is Some { self.protocol_configs@[p].hook()->Some_0 } else { old(self).before_sends@[p] })')],
                      start='let ghost b9 = *self; assert(idp@.contains(idp@[nn as int]));', end='proof { sub_next(idp@, nn as int); serve_on(*self, b9, idp@[nn - 1], old(self).service_context.serves().len() as int); }', decreases='idp@.len() - nn')],
          ensures=[frame('service_proto_handles', 'service_context', 'before_sends', 'wait_handle'), 'final(self).service_context.started() == old(self).service_context.started()',
                   (Q, 'forall|p: ProtocolId| #[trigger] final(self).service_proto_handles@.dom().contains(p) ==> served(*final(self), p, old(self).service_context.serves().len() as int) || (old(self).service_proto_handles@.dom().contains(p) && final(self).service_proto_handles@[p] == old(self).service_proto_handles@[p])'), (B, 'forall|p: ProtocolId| #[trigger] final(self).before_sends@.dom().contains(p) <==> old(self).before_sends@.dom().contains(p) || hooked(old(self).protocol_configs@, p)'), (B, 'forall|p: ProtocolId| #[trigger] final(self).before_sends@.dom().contains(p) ==> final(self).before_sends@[p] == (if hooked(old(self).protocol_configs@, p) { old(self).protocol_configs@[p].hook()->Some_0 } else { old(self).before_sends@[p] })')]),
        F('generate_next_session', props=A, opts='#[verifier::exec_allows_no_decreases_clause]', ensures=['!final(self).sessions@.dom().contains(final(self).next_session)', frame('next_session')],
          loops=[Loop('loop', invariant=['*self == (Service { next_session: self.next_session, ..*old(self) })'], ensures=['!self.sessions@.dom().contains(self.next_session)'])]),
        F('reached_max_connection_limit', props=A + C, rules=[('. map ( | $idc | $e ) . unwrap_or_default ( )', '. map ( | $idc : usize | -> ( r : bool ) ensures r == ( $e ) { $e } ) )'), ('self . sessions . len ( ) . checked_add', 'or_false ( self . sessions . len ( ) . checked_add'), ('self . state . into_inner ( ) . unwrap_or_default ( )', 'or_zero ( self . state . into_inner ( ) )')],
          ensures=['self.sessions@.dom().len() + self.state.pending() <= usize::MAX && self.sessions@.dom().len() >= self.config.max_connection_number ==> ret', 'ret ==> self.sessions@.dom().len() + self.state.pending() >= self.config.max_connection_number']),
        F('session_open', props=A + B + D_ + Q + T, opts='#[verifier::rlimit(60)] #[verifier::loop_isolation(false)]', sig='pub fn session_open(&mut self, cx: &mut Context, handle: Opaque, remote_pubkey: Option<PublicKey>, address: Multiaddr, ty: SessionType, listen_addr: Option<Multiaddr>)',
          rules=[('$idc . inner . remote_pubkey . as_ref ( ) == Some ( $idk )', 'holds_key ( & $idc . inner . remote_pubkey , $idk )'), ('. values ( ) . find ( | & $idc | $e )', '. find ( | $idc : & SessionController | -> ( r : bool ) ensures r == ( $idc . inner . remote_pubkey == Some ( * key ) ) { $e } )'),
                 ('key . peer_id ( ) != peer_id', 'key . peer_id ( ) . differs ( & peer_id )'), ('address . push ( Protocol :: P2P ( Cow :: Owned ( key . peer_id ( ) . into_bytes ( ) ) ) )', 'address . push_peer ( key )'),
                 ('let mut by_name = $x ;', 'let mut by_name = NameMap :: none ( ) ;'), ('let mut by_id = $x ;', 'let mut by_id = IdMap :: none ( ) ;'),
                 ('self . protocol_configs . iter ( ) . for_each ( | ( $idk , $idv ) | { $blkb } ) ;', '{ let idp = self . protocol_configs . ids ( ) ; let mut nn : usize = 0 ; while nn < idp . len ( ) { let $idk = & idp [ nn ] ; let $idv = self . protocol_configs . at ( $idk ) ; nn = nn + 1 ; $blkb } proof { over ( idp @ , nn as int ) ; } }'),
                 ('self . session_proto_handles . iter ( ) . filter_map ( | ( ( $ids , $idk ) , $idv ) | { $blkb } ) . collect ( )', '{ let idh = self . session_proto_handles . keys ( ) ; let mut out = BufMap :: none ( ) ; let mut mm : usize = 0 ; while mm < idh . len ( ) { let $ids = & idh [ mm ] . 0 ; let $idk = & idh [ mm ] . 1 ; let $idv = self . session_proto_handles . at ( & idh [ mm ] ) ; mm = mm + 1 ; let e_ = { $blkb } ; if let Some ( e_ ) = e_ { out . add ( e_ ) ; } } proof { over ( idh @ , mm as int ) ; } out }'),
                 ('self . config . session_config', 'copy_of ( & self . config . session_config )'), ('self . config . timeout', 'copy_of ( & self . config . timeout )'), ('self . config . event . clone ( )', 'copy_of ( & self . config . event )'), ('self . service_context . control ( ) . clone ( )', 'self . service_context . control_end ( )'),
                 ('self . protocol_configs . values ( ) . for_each ( | $idm | $e ) ;', '{ let idq = self . protocol_configs . ids ( ) ; let mut qq : usize = 0 ; while qq < idq . len ( ) { let $idm = self . protocol_configs . at ( & idq [ qq ] ) ; qq = qq + 1 ; $e ; } }'),
                 ('$idv . into_iter ( ) . for_each ( | $idi | { $blkb } )', '{ let idm = $idv ; let mut kk : usize = 0 ; while kk < idm . len ( ) { let $idi = idm [ kk ] ; kk = kk + 1 ; $blkb } }'),
                 ('crate :: runtime :: spawn ( session . for_each ( $x ) ) ;', 'self . service_context . start ( session ) ;')],
          loops=[Loop('while nn < idp . len ( )', invariant=['nn <= idp@.len()', 'forall|p: ProtocolId| #[trigger] by_id@.dom().contains(p) <==> idp@.subrange(0, nn as int).contains(p)', 'forall|p: ProtocolId| #[trigger] by_id@.dom().contains(p) ==> by_id@[p] == self.protocol_configs@[p].inner',
                      'forall|n: Seq<char>| #[trigger] by_name@.dom().contains(n) ==> known(self.protocol_configs@, n) && by_name@[n].called() == n', 'forall|i: int| 0 <= i < nn ==> by_name@.dom().contains(self.protocol_configs@[#[trigger] idp@[i]].inner.called())'], decreases='idp@.len() - nn', start='assert(idp@.contains(idp@[nn as int]));', end='proof { sub_next(idp@, nn as int); }'),
                 Loop('while mm < idh . len ( )', invariant=['mm <= idh@.len()', (Q, 'forall|p: ProtocolId| #[trigger] out@.dom().contains(p) <==> idh@.subrange(0, mm as int).contains((self.next_session, p))'), (Q, 'forall|p: ProtocolId| #[trigger] out@.dom().contains(p) ==> out@[p] == self.session_proto_handles@[(self.next_session, p)]')], decreases='idh@.len() - mm', start='assert(idh@.contains(idh@[mm as int]));', end='proof { sub_next(idh@, mm as int); }'),
                 Loop('while qq < idq . len ( )', before='let ghost s0 = session;', invariant=['qq <= idq@.len()', 'session.meta == s0.meta && session.receiver == s0.receiver'], decreases='idq@.len() - qq', start='assert(idq@.contains(idq@[qq as int]));'),
                 Loop('while kk < idm . len ( )', before='let ghost s0 = session;', invariant=['kk <= idm@.len()', 'session.meta == s0.meta && session.receiver == s0.receiver'], decreases='idm@.len() - kk')],
          requires=['distinct(old(self).sessions@)', 'all_counted(old(self).sessions@)', 'ty == SessionType::Inbound ==> listen_addr is Some'], proof='let mut handle = handle; let mut address = address; let ghost key0 = remote_pubkey; ' + OLD,
          ensures=[(A, 'taken(old(self).sessions@, remote_pubkey) ==> final(self).sessions@ == old(self).sessions@'), (A, 'mismatch(remote_pubkey, address) ==> final(self).sessions@ == old(self).sessions@'), (A, 'final(self).sessions@ == old(self).sessions@ || grown(final(self).sessions@, old(self).sessions@, ty, remote_pubkey)'), (B + D_ + Q, 'final(self).sessions@ == old(self).sessions@ || final(self).service_context.started().len() == old(self).service_context.started().len() + 1'), (T, 'final(self).sessions@ == old(self).sessions@ || final(self).service_context.started().last().meta.timeout == old(self).config.timeout'), (B + D_, 'final(self).sessions@ == old(self).sessions@ || own(*final(self), final(self).service_context.started().last())'), (Q, 'final(self).sessions@ == old(self).sessions@ || handed(*final(self), final(self).service_context.started().last())'), (Q, 'final(self).sessions@ == old(self).sessions@ || heeded(*final(self), *old(self), final(self).service_context.started().last().meta.context.id)'),
                   (A, 'distinct(final(self).sessions@)'), (A + D_, 'all_counted(final(self).sessions@)'), (A, 'final(self).same_work(*old(self))')],
          tail='proof { grow(*self, o, self.next_session, ty, key0); }'),
        # closing and opening: no message is queued, no session appears
        F('session_close', props=ALL, rules=CL + SETTLE, tail='proof { settled(self.sessions@, o.sessions@); }', requires=WF, ensures=QUIET, proof=BC + OLD),
        F('protocol_open', props=ALL, rules=CL + SETTLE, tail='proof { settled(self.sessions@, o.sessions@); }', requires=WF, ensures=QUIET + ['final(self).sessions@.dom() =~= old(self).sessions@.dom()'], proof=BC + OLD),
        F('protocol_close', props=ALL, rules=CL + SETTLE, tail='proof { settled(self.sessions@, o.sessions@); }', requires=WF, ensures=QUIET + ['final(self).sessions@.dom() =~= old(self).sessions@.dom()'], proof=BC + OLD),
        F('protocol_message', props=ALL, rules=CL, ensures=['*final(self) == *old(self)']),
        # C25
        F('handle_message', props=B + D_, opts='#[verifier::rlimit(60)]', rules=[('Some ( $idf ) => $idf ( data )', 'Some ( $idf ) => $idf . call ( data )'), ('for $idc in self . sessions . values_mut ( ) { $blkb }', '{ let idz = self . sessions . ids ( ) ; let mut nn : usize = 0 ; while nn < idz . len ( ) { let $idc = self . sessions . at ( idz [ nn ] ) ; nn = nn + 1 ; $blkb } }')] + EACH,
          requires=WF, ensures=[(B, 'delivered(final(self).sessions@, old(self).sessions@, priority == Priority::High, proto_id, old(self).image(proto_id, data@), |k: SessionId| mentions(target, k))'), 'distinct(final(self).sessions@)', (D_, 'all_counted(final(self).sessions@)'), 'final(self).same_work(*old(self))'],
          proof=BC + OLD + ' let ghost t0 = target; let ghost d0 = self.image(proto_id, data@); let ghost hi = priority == Priority::High; proof { deliver_none(o.sessions@, o.sessions@, hi, proto_id, d0, |k: SessionId| 0nat); }',
          loops=[Loop('while nn < ids . len ( )', invariant=MI + ['t0 == TargetSession::Multi(ids)', 'nn <= ids@.len()', 'delivered(self.sessions@, o.sessions@, hi, proto_id, d0, |k: SessionId| times(ids@.subrange(0, nn as int), k))'], decreases='ids@.len() - nn',
                      before='assert(ids@.subrange(0, 0) =~= Seq::<SessionId>::empty()); proof { deliver_same(o.sessions@, o.sessions@, hi, proto_id, d0, |k: SessionId| 0nat, |k: SessionId| times(ids@.subrange(0, 0), k)); }',
                      start='broadcast use bytes_push; let ghost s1 = self.sessions@; proof { sent_to(s1, o.sessions@, hi, proto_id, d0, ids@, nn as int); }',
                      end='proof { sent_next(self.sessions@, s1, o.sessions@, hi, proto_id, d0, ids@, nn - 1); }',
                      after='assert(ids@.subrange(0, nn as int) =~= ids@);'),
                 Loop('while nn < idz . len ( )', invariant=MI + ['nn <= idz@.len()', 'idz@.no_duplicates()', 'forall|k: SessionId| #![trigger idz@.contains(k)] #![trigger o.sessions@.dom().contains(k)] idz@.contains(k) <==> o.sessions@.dom().contains(k)', 'delivered(self.sessions@, o.sessions@, hi, proto_id, d0, |k: SessionId| times(idz@.subrange(0, nn as int), k))'], decreases='idz@.len() - nn',
                      before='assert(idz@.subrange(0, 0) =~= Seq::<SessionId>::empty()); proof { deliver_same(o.sessions@, o.sessions@, hi, proto_id, d0, |k: SessionId| 0nat, |k: SessionId| times(idz@.subrange(0, 0), k)); }',
                      start='broadcast use bytes_push; let ghost s1 = self.sessions@; assert(idz@.contains(idz@[nn as int])); proof { sent_to(s1, o.sessions@, hi, proto_id, d0, idz@, nn as int); }',
                      end='proof { sent_next(self.sessions@, s1, o.sessions@, hi, proto_id, d0, idz@, nn - 1); }',
                      after='assert(idz@.subrange(0, nn as int) =~= idz@); proof { assert forall|k: SessionId| o.sessions@.dom().contains(k) implies #[trigger] times(idz@, k) == 1 by { times_once(idz@, k); } deliver_same(self.sessions@, o.sessions@, hi, proto_id, d0, |k: SessionId| times(idz@, k), |k: SessionId| mentions(t0, k)); }')],
          tail='proof { finish(self.sessions@, o.sessions@, hi, proto_id, d0, t0); }'),

        # attempts: C27
        F('spawn_listener', props=A + T, sig='pub fn spawn_listener(&mut self, incoming: Opaque, listen_address: Multiaddr)', rules=KP + [('let mut sender = $x ;', ''), ('crate :: runtime :: spawn ( async move { $blkb } ) ;', '{ $blkb }'), ('sender . send ( Box :: pin ( $idl . for_each ( $x ) ) )', 'self . future_task_sender . attend ( $idl )')],
          ensures=[frame('future_task_sender'), 'final(self).future_task_sender.listeners() == old(self).future_task_sender.listeners().push(final(self).future_task_sender.listeners().last())', (A, 'final(self).future_task_sender.listeners().last().key_pair == old(self).service_context.key_pair'), (A + T, 'final(self).future_task_sender.listeners().last().inner == incoming && final(self).future_task_sender.listeners().last().listen_addr == listen_address'), (T, 'final(self).future_task_sender.listeners().last().timeout == old(self).config.timeout')]),
        F('handshake', props=C + A + T, sig='pub fn handshake(&mut self, socket: Opaque, ty: SessionType, remote_address: Multiaddr, listen_address: Option<Multiaddr>)', rules=KP + [('. handshake ( $s ) ; $optblkm crate :: runtime :: spawn ( async move { if future_task_sender . send ( Box :: pin ( handshake_task ) ) . await . is_err ( ) { $optq } } ) ;', '. handshake ( $s , & mut self . session_event_sender ) ;')],
          requires=['ty == SessionType::Inbound ==> listen_address is Some'], ensures=[frame('session_event_sender'), (A + T, 'final(self).session_event_sender.sent() == old(self).session_event_sender.sent().push(final(self).session_event_sender.sent().last())'), (A, 'greeted(final(self).session_event_sender.sent().last(), old(self).service_context.key_pair, ty, remote_address, socket)'), (T, 'timed(final(self).session_event_sender.sent().last(), old(self).service_context.key_pair, old(self).config.timeout, old(self).config.max_frame_length, ty, remote_address, socket)'), 'ended(final(self).session_event_sender.sent()) == ended(old(self).session_event_sender.sent()) + (if ty == SessionType::Outbound { 1nat } else { 0nat })']),
        F('dial', props=C + A + T, sig='pub fn dial(&mut self, address: Multiaddr, target: TargetProtocol) -> (ret: Result<(), TransportErrorKind>)', rules=[('Ok ( self )', 'Ok ( ( ) )')], requires=ROOM, ensures=[frame('multi_transport', 'session_event_sender', 'dial_protocols', 'state')] + DIALS + TRY),
        F('dial_inner', props=C + A + T, sig='pub fn dial_inner(&mut self, address: Multiaddr, target: TargetProtocol) -> (ret: Result<(), TransportErrorKind>)', rules=KP + TASK, proof='broadcast use ended_push;', requires=ROOM, ensures=[frame('multi_transport', 'session_event_sender', 'dial_protocols', 'state', 'future_task_sender')] + DIALS + TRY),
        F('listen_inner', props=C, sig='pub fn listen_inner(&mut self, address: Multiaddr) -> (ret: Result<(), TransportErrorKind>)', rules=KP + TASK, proof='broadcast use ended_push;', requires=ROOM, ensures=[frame('multi_transport', 'session_event_sender', 'state', 'future_task_sender')] + TRY),
        F('listen', props=C, sig='pub fn listen(&mut self, address: Multiaddr) -> (ret: Result<Multiaddr, TransportErrorKind>)', ensures=[frame('multi_transport', 'listens', 'future_task_sender'), 'ret is Ok ==> final(self).listens@.contains(ret->Ok_0)', 'ret is Err ==> final(self).listens == old(self).listens']),
        F('send_pending_task', props=C, ensures=[frame('future_task_sender')]),
        F('send_future_task', props=C, ensures=[frame('future_task_sender')]),
        # the tasks of the user
        F('handle_service_task', props=ALL, opts='#[verifier::rlimit(60)]', rules=BUF + [('for address in self . listens . drain ( ) { self . handle . handle_event ( $x ) }', 'self . listens . drain_all ( ) ;'), ('self . protocol_configs . keys ( ) . copied ( ) . collect :: < Vec < _ > > ( )', 'self . protocol_configs . ids ( )'), ('self . sessions . keys ( ) . cloned ( ) . collect :: < Vec < SessionId > > ( )', 'self . sessions . ids ( )'), ('String :: default ( )', 'empty_string ( )')] + CLOSE,
          requires=WF + ROOM, proof=BC + OLD, ensures=TASKS, loops=[tl('ids'), tl('ids'), tl('sessions'), tl('sessions')]),
        F('distribute_to_session', props=D_ + A, rules=[('$idc . buffer . clear ( )', '$idc . buffer . clear ( Ghost ( $idc . inner . pending_data_size . value ( ) ) )'), ('for $idc in self . sessions . values_mut ( ) . filter ( | $idc | $e ) { $blkb }', '{ let idz = self . sessions . ids ( ) ; let mut nn : usize = 0 ; while nn < idz . len ( ) { let $idc = self . sessions . at ( idz [ nn ] ) ; nn = nn + 1 ; if $e { $blkb } } }')],
          requires=WF, ensures=QUIET, proof=BC + OLD, loops=[Loop('while nn < idz . len ( )', invariant=['o.config.session_config.send_buffer_size == send_limit()', 'fewer(self.sessions@, o.sessions@)', 'all_counted(self.sessions@)', 'distinct(o.sessions@)', 'self.same_work(o)', 'nn <= idz@.len()', 'self.sessions@.dom() =~= o.sessions@.dom()', 'forall|i: int| 0 <= i < idz@.len() ==> o.sessions@.dom().contains(#[trigger] idz@[i])'], decreases='idz@.len() - nn', start=BC + 'let ghost s1 = self.sessions@; assert(o.sessions@.dom().contains(idz@[nn as int]));', end='assert(fewer(self.sessions@, s1));')]),
        F('distribute_to_user_level', props=ALL, rules=[('for $p in self . $idf . iter_mut ( ) . filter ( $x ) { $blkb }', '{ let zz = self . $idf . len ( ) ; let mut nn : usize = 0 ; while nn < zz { let buffer = self . $idf . nth ( nn ) ; nn = nn + 1 ; if ! buffer . is_empty ( ) { $blkb } } }'), ('let error = ProtocolHandleErrorKind :: Block ( $x ) ;', ''), ('self . handle . handle_error ( & mut self . service_context , ServiceError :: ProtocolHandleError { $x } , )', 'self . handle . block ( )'), ('self . handle . handle_error ( & mut self . service_context , ServiceError :: ProtocolHandleError { $x } )', 'self . handle . block ( )')],
          requires=WF + ROOM, proof=BC + OLD, ensures=MAYSTOP, loops=[Loop('while nn < zz', invariant=['self.same_work(o)', 'self.sessions == o.sessions', 'nn <= zz'], decreases='zz - nn')] * 2),
        F('try_update_listens', props=ALL, rules=[('if self . listens . len ( ) == $x { return ; }', 'if unchanged ( ) { return ; }'), ('let new_listens = $x ;', ''), ('self . service_context . update_listens ( $x ) ;', ''), ('for buffer in self . $idf . values_mut ( ) { $blkb }', 'self . $idf . push_all ( ) ;')],
          requires=WF + ROOM, proof=BC + OLD, ensures=MAYSTOP),
        F('flush_buffer', props=ALL, requires=WF + ROOM, proof=BC, ensures=MAYSTOP),
        # the events of sessions and attempts
        F('handle_session_event', props=ALL + T, opts='#[verifier::rlimit(60)]', requires=WF + ROOM + [EV_OK], proof=BC + OLD, ensures=EVS),
        F('session_poll', props=ALL, requires=WF + ROOM + ['old(self).exact()'], proof=BC, ensures=STEP + ['final(self).exact()', 'final(self).state.pending() <= old(self).state.pending()'], rules=[('Pin :: new ( & mut self . session_event_receiver ) . as_mut ( ) . poll_next ( cx )', 'self . session_event_receiver . take ( cx , & self . session_event_sender )'), ('unreachable ! ( )', 'unreached ( )')]),
        F('user_task_poll', props=ALL, requires=WF + ROOM + ['old(self).exact()'], proof=BC, ensures=USER + ['final(self).exact()']),
        Fn(r'impl < T > Stream for Service < T > where T : ServiceHandle \+ Unpin ,', 'poll_next', props=ALL, sig='pub fn poll_next(&mut self, cx: &mut Context) -> (ret: Poll<Option<()>>)', requires=WF + ROOM + ['old(self).exact()', '!old(self).shutdown.on()'], proof=BC,
           rules=[STOP, ('crate :: runtime :: spawn ( async move { $blkb } )', 'spawned ( )'), ('if log_enabled ! ( $x ) { $blkb }', ''), ('if false { $blkb }', ''), ('is_pending &= self . user_task_poll ( cx ) . is_pending ( ) ;', 'let user_pending = self . user_task_poll ( cx ) . is_pending ( ) ; is_pending = is_pending && user_pending ;')],
           ensures=['distinct(final(self).sessions@)', 'all_counted(final(self).sessions@)', (C, 'final(self).exact()'), (C, 'old(self).state == State::PreShutdown ==> final(self).state == State::PreShutdown'), (C, 'final(self).shutdown.on() == final(self).idle()')]),
    ])
    u.text(FOOT)
    return u
