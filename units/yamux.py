from vx import Unit, Fn, Loop, inline_closure
from common import HEAD, BYTES, CHANNELS, FOOT
FR, ST, SE, ER, CF, LB = ['yamux/src/%s.rs' % x for x in ('frame', 'stream', 'session', 'error', 'config', 'lib')]
D = '#[derive(Copy, Clone, PartialEq, Eq, Structural)]'

SPEC = r'''
pub open spec fn has(f: Flags, b: u16) -> bool { f.0 & b == b }
impl Default for Flags { fn default() -> (r: Flags) ensures r.0 == 0 { Flags(0) } }
impl vstd::std_specs::convert::FromSpecImpl<Flag> for Flags {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(v: Flag) -> Self { Flags(v as u16) }
}
impl vstd::std_specs::convert::FromSpecImpl<u32> for GoAwayCode {
  open spec fn obeys_from_spec() -> bool { true }
  open spec fn from_spec(v: u32) -> Self { if v == 0 { GoAwayCode::Normal } else if v == 2 { GoAwayCode::InternalError } else { GoAwayCode::ProtocolError } }
}
pub open spec fn type_code(t: Type) -> u8 { match t { Type::Data => 0, Type::WindowUpdate => 1, Type::Ping => 2, Type::GoAway => 3 } }
// wire image of a header / frame
pub open spec fn hdr_bytes(h: Header) -> Seq<u8> {
  seq![h.version, type_code(h.ty)] + to_be16(h.flags.0) + to_be32(h.stream_id) + to_be32(h.length)
}
pub open spec fn enc(f: Frame) -> Seq<u8> { hdr_bytes(f.header) + match f.body { Some(b) => b@, None => Seq::<u8>::empty() } }
impl Frame {
  // what a well formed frame is
  pub open spec fn wf(&self) -> bool {
    &&& self.header.version == 0
    &&& (self.header.ty == Type::Data) == (self.body is Some)
    &&& self.body is Some ==> self.body->Some_0@.len() == self.header.length as int
  }
}
pub open spec fn hlen(s: Seq<u8>) -> int { be32(s.subrange(8, 12)) }
// acceptable header at the front of s
pub open spec fn good_header(s: Seq<u8>, max: u32) -> bool {
  s[0] == 0 && s[1] <= 3 && (s[1] == 0 ==> hlen(s) <= max)
}
pub open spec fn unread(c: FrameCodec) -> Seq<u8> { match c.unused_data_header { Some(h) => hdr_bytes(h), None => Seq::<u8>::empty() } }
pub open spec fn incomplete(s: Seq<u8>, max: u32) -> bool {
  s.len() < 12 || (good_header(s, max) && s[1] == 0 && s.len() < 12 + hlen(s))
}
impl FrameCodec {
  pub open spec fn inv(&self) -> bool {
    self.unused_data_header is Some ==> {
      let h = self.unused_data_header->Some_0;
      h.ty == Type::Data && h.version == 0 && h.length > 0 && h.length <= self.max_frame_size
    }
  }
}
pub proof fn lemma_hdr(h: Header)
  ensures hdr_bytes(h).len() == 12, hdr_bytes(h)[0] == h.version, hdr_bytes(h)[1] == type_code(h.ty),
    hlen(hdr_bytes(h)) == h.length, be16(hdr_bytes(h).subrange(2, 4)) == h.flags.0, be32(hdr_bytes(h).subrange(4, 8)) == h.stream_id
{
  lemma_be16(h.flags.0); lemma_be32(h.stream_id); lemma_be32(h.length);
  let b = hdr_bytes(h);
  assert(b.subrange(2, 4) =~= to_be16(h.flags.0)); assert(b.subrange(4, 8) =~= to_be32(h.stream_id)); assert(b.subrange(8, 12) =~= to_be32(h.length));
}
pub proof fn lemma_hdr_inv(s: Seq<u8>, h: Header)
  requires s.len() == 12, h.version == s[0], type_code(h.ty) == s[1], h.flags.0 as int == be16(s.subrange(2, 4)), h.stream_id as int == be32(s.subrange(4, 8)), h.length as int == be32(s.subrange(8, 12))
  ensures hdr_bytes(h) =~= s
{
  lemma_eb16(s.subrange(2, 4), h.flags.0); lemma_eb32(s.subrange(4, 8), h.stream_id); lemma_eb32(s.subrange(8, 12), h.length);
}
// ---- the whole-stream theorem: a frame that was encoded is the frame that decode's contract yields
// v = undecoded bytes (remembered header + buffer); decode's contract (see FrameCodec::decode) is
//   Ok(Some(g)): v == enc(g) + v'  and g well formed     Ok(None): v' == v and incomplete(v)     Err: not good_header
pub proof fn lemma_prefix_unique(f: Frame, g: Frame, t: Seq<u8>, t2: Seq<u8>)
  requires f.wf(), g.wf(), enc(f) + t =~= enc(g) + t2
  ensures f.header == g.header, t =~= t2, f.body is Some ==> f.body->Some_0@ =~= g.body->Some_0@
{
  lemma_hdr(f.header); lemma_hdr(g.header);
  let a = enc(f) + t; let b = enc(g) + t2;
  assert(a.subrange(0, 12) =~= hdr_bytes(f.header)); assert(b.subrange(0, 12) =~= hdr_bytes(g.header));
  assert(hdr_bytes(f.header) =~= hdr_bytes(g.header));
  let x = hdr_bytes(f.header);
  assert(f.header.ty == g.header.ty); assert(f.header.length == g.header.length);
  assert(f.header.flags == g.header.flags); assert(f.header.stream_id == g.header.stream_id);
  let n = enc(f).len() as int;
  assert(enc(g).len() == n);
  assert(a.subrange(n, a.len() as int) =~= t); assert(b.subrange(n, b.len() as int) =~= t2);
  assert(a.subrange(12, n) =~= match f.body { Some(b) => b@, None => Seq::<u8>::empty() });
  assert(b.subrange(12, n) =~= match g.body { Some(b) => b@, None => Seq::<u8>::empty() });
}
pub proof fn lemma_not_incomplete(f: Frame, t: Seq<u8>, max: u32)
  requires f.wf(), f.header.ty == Type::Data ==> f.header.length <= max
  ensures !incomplete(enc(f) + t, max), good_header(enc(f) + t, max)
{
  lemma_hdr(f.header);
  let a = enc(f) + t;
  assert(a.subrange(8, 12) =~= hdr_bytes(f.header).subrange(8, 12));
  assert(a[0] == hdr_bytes(f.header)[0]); assert(a[1] == hdr_bytes(f.header)[1]);
}
// a proper prefix of an encoded frame is incomplete (so decode waits and keeps it)
pub proof fn lemma_prefix_incomplete(f: Frame, k: int, max: u32)
  requires f.wf(), 0 <= k < enc(f).len(), f.header.ty == Type::Data ==> f.header.length <= max
  ensures incomplete(enc(f).subrange(0, k), max)
{
  lemma_hdr(f.header);
  let p = enc(f).subrange(0, k);
  if k >= 12 {
    assert(p.subrange(8, 12) =~= hdr_bytes(f.header).subrange(8, 12));
    assert(p[0] == hdr_bytes(f.header)[0]); assert(p[1] == hdr_bytes(f.header)[1]);
  }
}
'''

STREAM_SPEC = r'''
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Receiver<T> { x: Vec<T> }
impl Receiver<Frame> {
  // every frame handed out so far.  The session only puts well formed frames for this stream in.
  pub uninterp spec fn delivered(&self) -> Seq<Frame>;
  #[verifier::external_body]
  pub fn is_terminated(&self) -> bool { unimplemented!() }
  #[verifier::external_body]
  pub fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<Frame>>)
    ensures match r {
      Poll::Ready(Some(f)) => f.wf() && final(self).delivered() == old(self).delivered().push(f),
      _ => final(self).delivered() == old(self).delivered(),
    } { unimplemented!() }
}
pub mod hist { use super::*;
pub open spec fn wire_data(s: Seq<StreamEvent>) -> int decreases s.len() {
  if s.len() == 0 { 0 } else { wire_data(s.drop_last()) + match s.last() { StreamEvent::Frame(f) => if f.header.ty == Type::Data { f.header.length as int } else { 0 }, _ => 0 } }
}
pub open spec fn credit_rx(s: Seq<Frame>) -> int decreases s.len() {
  if s.len() == 0 { 0 } else { credit_rx(s.drop_last()) + if s.last().header.ty == Type::WindowUpdate { s.last().header.length as int } else { 0 } }
}
pub open spec fn body_of(f: Frame) -> Seq<u8> { if f.header.ty == Type::Data && f.body is Some { f.body->Some_0@ } else { Seq::<u8>::empty() } }
pub open spec fn bodies(s: Seq<Frame>) -> Seq<u8> decreases s.len() {
  if s.len() == 0 { Seq::<u8>::empty() } else { bodies(s.drop_last()) + body_of(s.last()) }
}
pub broadcast proof fn push_wire(s: Seq<StreamEvent>, e: StreamEvent)
  ensures #[trigger] wire_data(s.push(e)) == wire_data(s) + match e { StreamEvent::Frame(f) => if f.header.ty == Type::Data { f.header.length as int } else { 0 }, _ => 0 }
{ assert(s.push(e).drop_last() =~= s); }
pub broadcast proof fn push_credit(s: Seq<Frame>, e: Frame)
  ensures #[trigger] credit_rx(s.push(e)) == credit_rx(s) + if e.header.ty == Type::WindowUpdate { e.header.length as int } else { 0 }
{ assert(s.push(e).drop_last() =~= s); }
pub broadcast proof fn push_bodies(s: Seq<Frame>, e: Frame)
  ensures #[trigger] bodies(s.push(e)) == bodies(s) + body_of(e)
{ assert(s.push(e).drop_last() =~= s); }
pub open spec fn is_data(e: StreamEvent) -> bool { e is Frame && e->Frame_0.header.ty == Type::Data }
pub open spec fn ext(a: Seq<StreamEvent>, b: Seq<StreamEvent>) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) =~= a }
pub open spec fn no_new_data(a: Seq<StreamEvent>, b: Seq<StreamEvent>) -> bool { ext(a, b) && (forall|i: int| a.len() <= i < b.len() ==> !is_data(#[trigger] b[i])) && wire_data(b) == wire_data(a) }

pub broadcast proof fn nnd_trans(a: Seq<StreamEvent>, b: Seq<StreamEvent>, c: Seq<StreamEvent>)
  requires #[trigger] no_new_data(a, b), #[trigger] no_new_data(b, c)
  ensures no_new_data(a, c)
{
  assert forall|i: int| a.len() <= i < c.len() implies !is_data(#[trigger] c[i]) by { if i < b.len() { assert(c[i] == c.subrange(0, b.len() as int)[i]); } }
  assert(c.subrange(0, a.len() as int) =~= c.subrange(0, b.len() as int).subrange(0, a.len() as int));
}
pub broadcast group g_push { push_wire, push_credit, push_bodies, nnd_trans }
}
pub use hist::*;

// the local write side is over
pub open spec fn wdone(s: StreamState) -> bool { s == StreamState::LocalClosing || s == StreamState::RemoteClosing || s == StreamState::Closed || s == StreamState::Reset }
pub open spec fn ev(e: StreamEvent, id: u32, ty: Type, fl: u16, len: int) -> bool {
  e is Frame && { let f = e->Frame_0; f.wf() && f.header.stream_id == id && f.header.ty == ty && f.header.flags.0 == fl && f.header.length as int == len }
}
pub open spec fn flag_of(s: StreamState) -> u16 { if s == StreamState::Init { 1 } else if s == StreamState::SynReceived { 2 } else { 0 } }
pub open spec fn after_flags(s: StreamState) -> StreamState { if s == StreamState::Init { StreamState::SynSent } else if s == StreamState::SynReceived { StreamState::Established } else { s } }
impl StreamHandle {
  pub open spec fn lg(&self) -> Seq<StreamEvent> { self.unbound_event_sender.log() }
  pub open spec fn rd(&self) -> Seq<Frame> { self.frame_receiver.delivered() }
  // receive side: granted but unused credit plus unread bytes stay within the configured window
  pub open spec fn rinv(&self) -> bool { self.recv_window as int + self.read_buf@.len() <= self.max_recv_window as int }
  // send side: bytes on the wire never exceed initial window w0 plus received credit
  pub open spec fn budget(&self) -> int { wire_data(self.lg()) + self.send_window as int - credit_rx(self.rd()) }
}
'''

SESSION_SPEC = r"""
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { x: u64 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Instant { x: u64 }
impl Instant { #[verifier::external_body] pub fn now() -> Instant { unimplemented!() } }
#[verifier::external_body]
pub struct Interval { x: u64 }
impl Interval { #[verifier::external_body] pub fn poll_next(&mut self, cx: &mut Context) -> Poll<Option<Instant>> { unimplemented!() } }
#[verifier::external_body]
pub fn interval(d: Duration) -> Interval { unimplemented!() }
#[verifier::external_body]
pub struct PingMap { x: u64 }
impl PingMap {
  #[verifier::external_body] pub fn default() -> PingMap { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: u32, v: Instant) -> Option<Instant> { unimplemented!() }
  #[verifier::external_body] pub fn remove(&mut self, k: &u32) -> Option<Instant> { unimplemented!() }
  #[verifier::external_body] pub fn split_off(&mut self, k: &u32) -> PingMap { unimplemented!() }
  #[verifier::external_body] pub fn overdue(&self) -> bool { unimplemented!() }
}
// the framed transport: sent() = frames accepted for writing, got() = frames decoded
#[verifier::external_body]
pub struct Framed { x: u64 }
impl Framed {
  pub uninterp spec fn sent(&self) -> Seq<Frame>;
  pub uninterp spec fn got(&self) -> Seq<Frame>;
  #[verifier::external_body]
  pub fn fresh(c: FrameCodec) -> (r: Framed) ensures r.sent() == Seq::<Frame>::empty(), r.got() == Seq::<Frame>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn poll_ready(&mut self, cx: &mut Context) -> (r: Poll<Result<(), io::Error>>) ensures final(self).sent() == old(self).sent(), final(self).got() == old(self).got() { unimplemented!() }
  #[verifier::external_body]
  pub fn start_send(&mut self, f: Frame) -> (r: Result<(), io::Error>)
    requires f.wf()
    ensures r is Ok ==> final(self).sent() == old(self).sent().push(f), r is Err ==> final(self).sent() == old(self).sent(), final(self).got() == old(self).got() { unimplemented!() }
  #[verifier::external_body]
  pub fn poll_flush(&mut self, cx: &mut Context) -> (r: Poll<Result<(), io::Error>>) ensures final(self).sent() == old(self).sent(), final(self).got() == old(self).got() { unimplemented!() }
  #[verifier::external_body]
  pub fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<Result<Frame, io::Error>>>)
    ensures final(self).sent() == old(self).sent(),
      match r { Poll::Ready(Some(Ok(f))) => f.wf() && final(self).got() == old(self).got().push(f), _ => final(self).got() == old(self).got() } { unimplemented!() }
}
// sending end of a stream's frame channel: log() = frames handed over
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Sender<T> { x: Vec<T> }
pub struct SendFault { pub full: bool }
impl SendFault { pub fn is_disconnected(&self) -> (r: bool) ensures r == !self.full { !self.full } }
pub struct TrySendError<T> { pub full: bool, pub val: T }
impl<T> TrySendError<T> {
  pub fn is_full(&self) -> (r: bool) ensures r == self.full { self.full }
  pub fn is_disconnected(&self) -> (r: bool) ensures r == !self.full { !self.full }
  pub fn into_inner(self) -> (r: T) ensures r == self.val { self.val }
}
impl Sender<Frame> {
  pub uninterp spec fn log(&self) -> Seq<Frame>;
  #[verifier::external_body]
  pub fn poll_ready(&mut self, cx: &mut Context) -> (r: Poll<Result<(), SendFault>>) ensures final(self).log() == old(self).log() { unimplemented!() }
  #[verifier::external_body]
  pub fn try_send(&mut self, f: Frame) -> (r: Result<(), TrySendError<Frame>>)
    requires f.wf()
    ensures r is Ok ==> final(self).log() == old(self).log().push(f), r is Err ==> final(self).log() == old(self).log() && r->Err_0.val == f { unimplemented!() }
}
#[verifier::external_body]
pub fn channel(n: usize) -> (r: (Sender<Frame>, Receiver<Frame>)) ensures r.0.log() == Seq::<Frame>::empty(), r.1.delivered() == Seq::<Frame>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn control_channel(n: usize) -> (Sender<Command>, ControlReceiver) { unimplemented!() }
#[verifier::external_body]
pub fn unbounded() -> (r: (UnboundedSender<StreamEvent>, UnboundedReceiver)) ensures r.0.log() == Seq::<StreamEvent>::empty() { unimplemented!() }
impl UnboundedSender<StreamEvent> {
  #[verifier::external_body]
  pub fn clone(&self) -> (r: UnboundedSender<StreamEvent>) ensures r.log() == Seq::<StreamEvent>::empty() { unimplemented!() }
}
#[verifier::external_body]
pub struct UnboundedReceiver { x: u64 }
impl UnboundedReceiver {
  // the session holds a sender itself, so the end of the channel is never reported; streams only send well formed frames (proved for StreamHandle)
  #[verifier::external_body]
  pub fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<StreamEvent>>)
    ensures match r { Poll::Ready(None) => false, Poll::Ready(Some(StreamEvent::Frame(f))) => f.wf(), _ => true } { unimplemented!() }
}
#[verifier::external_body]
pub struct ControlReceiver { x: u64 }
impl ControlReceiver {
  #[verifier::external_body]
  pub fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<Command>>) ensures match r { Poll::Ready(None) => false, _ => true } { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OneshotSender<T> { x: Vec<T> }
impl<T> OneshotSender<T> { #[verifier::external_body] pub fn send(self, v: T) -> Result<(), T> { unimplemented!() } }
// HashMap<StreamId, Sender<Frame>> with its std contract
#[verifier::external_body]
pub struct StreamMap { x: u64 }
pub struct VacantEntry<'a> { pub m: &'a mut StreamMap, pub k: u32 }
pub struct OccupiedEntry<'a> { pub m: &'a mut StreamMap, pub k: u32 }
pub enum Entry<'a> { Occupied(OccupiedEntry<'a>), Vacant(VacantEntry<'a>) }
impl<'a> VacantEntry<'a> {
  pub fn insert(self, v: Sender<Frame>) ensures final(self.m)@ == old(self.m)@.insert(self.k, v) { self.m.insert(self.k, v); }
}
impl StreamMap {
  pub uninterp spec fn view(&self) -> Map<u32, Sender<Frame>>;
  #[verifier::external_body]
  pub fn default() -> (r: StreamMap) ensures r@ == Map::<u32, Sender<Frame>>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn contains_key(&self, k: &u32) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0) { unimplemented!() }
  #[verifier::external_body]
  pub fn get(&self, k: &u32) -> (r: Option<&Sender<Frame>>) ensures r is Some <==> self@.dom().contains(*k), r is Some ==> *r->Some_0 == self@[*k] { unimplemented!() }
  #[verifier::external_body]
  pub fn capacity(&self) -> (r: usize) ensures r >= self@.dom().len() { unimplemented!() }
  #[verifier::external_body]
  pub fn shrink_to_fit(&mut self) ensures final(self)@ == old(self)@ { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: u32, v: Sender<Frame>) -> (r: Option<Sender<Frame>>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &u32) -> (r: Option<Sender<Frame>>) ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
  #[verifier::external_body]
  pub fn get_mut<'a>(&'a mut self, k: &u32) -> (r: Option<&'a mut Sender<Frame>>)
    ensures match r { Some(p) => old(self)@.dom().contains(*k) && *p == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(p)), None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@ }
  { unimplemented!() }
  pub fn entry<'a>(&'a mut self, k: u32) -> (r: Entry<'a>)
    ensures match r {
      Entry::Occupied(e) => old(self)@.dom().contains(k) && *e.m == *old(self) && *final(e.m) == *final(self) && e.k == k,
      Entry::Vacant(e) => !old(self)@.dom().contains(k) && *e.m == *old(self) && *final(e.m) == *final(self) && e.k == k }
  { if self.contains_key(&k) { Entry::Occupied(OccupiedEntry { m: self, k }) } else { Entry::Vacant(VacantEntry { m: self, k }) } }
}
pub mod sess { use super::*;
// frames of stream id within s, in order
pub open spec fn flt(s: Seq<Frame>, id: u32) -> Seq<Frame> decreases s.len() {
  if s.len() == 0 { Seq::<Frame>::empty() } else { let r = flt(s.drop_last(), id); if s.last().header.stream_id == id { r.push(s.last()) } else { r } }
}
pub broadcast proof fn flt_push(s: Seq<Frame>, f: Frame, id: u32)
  ensures #[trigger] flt(s.push(f), id) == if f.header.stream_id == id { flt(s, id).push(f) } else { flt(s, id) }
{ assert(s.push(f).drop_last() =~= s); }
pub proof fn flt_front(s: Seq<Frame>, id: u32)
  requires s.len() > 0
  ensures flt(s, id) =~= (if s[0].header.stream_id == id { seq![s[0]] } else { Seq::<Frame>::empty() }) + flt(s.subrange(1, s.len() as int), id)
  decreases s.len()
{
  let t = s.subrange(1, s.len() as int);
  if s.len() == 1 { assert(s.drop_last() =~= Seq::<Frame>::empty()); assert(t =~= Seq::<Frame>::empty()); assert(flt(s.drop_last(), id) =~= Seq::<Frame>::empty()); assert(flt(t, id) =~= Seq::<Frame>::empty()); }
  else {
    flt_front(s.drop_last(), id);
    assert(s.drop_last().subrange(1, s.len() - 1) =~= t.drop_last());
    assert(t.last() == s.last());
  }
}
pub open spec fn is_syn(f: Frame) -> bool { has(f.header.flags, 1) }
pub open spec fn syns(s: Seq<Frame>) -> int decreases s.len() { if s.len() == 0 { 0 } else { syns(s.drop_last()) + if is_syn(s.last()) { 1int } else { 0 } } }
pub broadcast proof fn syns_push(s: Seq<Frame>, f: Frame) ensures #[trigger] syns(s.push(f)) == syns(s) + if is_syn(f) { 1int } else { 0 } { assert(s.push(f).drop_last() =~= s); }
pub proof fn syns_front(s: Seq<Frame>) requires s.len() > 0 ensures syns(s) == (if is_syn(s[0]) { 1int } else { 0 }) + syns(s.subrange(1, s.len() as int)) decreases s.len()
{
  let t = s.subrange(1, s.len() as int);
  if s.len() == 1 { assert(s.drop_last() =~= Seq::<Frame>::empty()); assert(t =~= Seq::<Frame>::empty()); assert(syns(s.drop_last()) == 0); assert(syns(t) == 0); }
  else { syns_front(s.drop_last()); assert(s.drop_last().subrange(1, s.len() - 1) =~= t.drop_last()); assert(t.last() == s.last()); }
}
// no frame of s after the first is an open request
pub open spec fn no_syn(s: Seq<Frame>, from: int) -> bool { forall|i: int| from <= i < s.len() ==> !is_syn(#[trigger] s[i]) }
pub open spec fn all_wf(s: Seq<Frame>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() }
pub open spec fn lg(m: Map<u32, Sender<Frame>>, id: u32) -> Seq<Frame> { if m.dom().contains(id) { m[id].log() } else { Seq::<Frame>::empty() } }
pub proof fn flt_none(s: Seq<Frame>, id: u32) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).header.stream_id != id ensures flt(s, id) == Seq::<Frame>::empty() decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).header.stream_id != id by { assert(s.drop_last()[i] == s[i]); } flt_none(s.drop_last(), id); assert(s.last() == s[s.len() - 1]); } }
// s is live under m, and never asked to open twice in p
pub open spec fn once(m: Map<u32, Sender<Frame>>, p: Seq<Frame>, s: u32) -> bool { no_syn(flt(p, s), if m.dom().contains(s) { 0 } else { 1 }) }
pub proof fn step(b0: Seq<Frame>, b: Seq<Frame>, f: Frame, s: u32)
  requires b0.len() > 0, b0[0] == f, b =~= b0.subrange(1, b0.len() as int)
  ensures f.header.stream_id == s ==> flt(b0, s) =~= seq![f] + flt(b, s), f.header.stream_id != s ==> flt(b0, s) =~= flt(b, s), no_syn(flt(b0, s), 0) ==> no_syn(flt(b, s), 0),
    f.header.stream_id == s && no_syn(flt(b0, s), 1) ==> no_syn(flt(b, s), 0)
{
  flt_front(b0, s);
  if f.header.stream_id == s { assert forall|i: int| 0 <= i < flt(b, s).len() implies flt(b, s)[i] == #[trigger] (seq![f] + flt(b, s))[i + 1] by {}
    assert(flt(b0, s) == seq![f] + flt(b, s));
    if no_syn(flt(b0, s), 1) { assert forall|i: int| 0 <= i < flt(b, s).len() implies !is_syn(#[trigger] flt(b, s)[i]) by { assert(flt(b0, s)[i + 1] == flt(b, s)[i]); } }
  } else { assert(flt(b0, s) =~= flt(b, s)); }
}
pub broadcast group g_sess { flt_push, syns_push }
}
pub use sess::*;
pub open spec fn is_rst(f: Frame, sid: u32) -> bool { f.wf() && f.header.ty == Type::WindowUpdate && f.header.length == 0 && has(f.header.flags, 8) && has(f.header.flags, 1) == false && f.header.stream_id == sid }
pub open spec fn pong(f: Frame, v: u32) -> bool { f.wf() && f.header == (Header { version: 0, ty: Type::Ping, flags: Flags(2), stream_id: 0, length: v }) }
// a is answered by out growing from a to b with resets for open requests found in p only
pub open spec fn resets_for(a: Seq<Frame>, b: Seq<Frame>, p: Seq<Frame>) -> bool {
  &&& a.len() <= b.len() && b.subrange(0, a.len() as int) =~= a
  &&& forall|i: int| a.len() <= i < b.len() ==> rst_of(#[trigger] b[i], p)
}
pub open spec fn rst_of(f: Frame, p: Seq<Frame>) -> bool { exists|j: int| 0 <= j < p.len() && is_syn(#[trigger] p[j]) && is_rst(f, p[j].header.stream_id) }
pub proof fn resets_push(a: Seq<Frame>, b: Seq<Frame>, p: Seq<Frame>, f: Frame)
  requires resets_for(a, b, p), rst_of(f, p) ensures resets_for(a, b.push(f), p)
{ assert(b.push(f).subrange(0, a.len() as int) =~= b.subrange(0, a.len() as int)); assert forall|i: int| a.len() <= i < b.push(f).len() implies rst_of(#[trigger] b.push(f)[i], p) by { if i < b.len() { assert(b.push(f)[i] == b[i]); } } }
impl Session {
  // everything handed to the transport or waiting to be
  pub open spec fn out(&self) -> Seq<Frame> { self.framed_stream.sent() + self.write_pending_frames@ }
  pub open spec fn dead(&self) -> bool { self.remote_go_away && self.local_go_away || self.eof }
  pub open spec fn inv(&self) -> bool {
    &&& self.next_stream_id % 2 == (if self.ty == SessionType::Client { 1u32 } else { 0u32 }) && self.next_stream_id >= 1
    &&& all_wf(self.read_pending_frames@) && all_wf(self.write_pending_frames@)
  }
  pub open spec fn limits(&self) -> bool { self.streams@.dom().len() <= self.config.max_stream_count && self.pending_streams@.len() <= self.config.accept_backlog }
}
"""

DF = ('framed_stream', 'write_pending_frames', 'read_pending_frames', 'streams', 'pending_streams', 'local_go_away', 'keepalive')
DINV = ['*self == (Session { %s, ..s0 })' % ', '.join('%s: self.%s' % (f, f) for f in DF), 's0 == *old(self)', 'pp == s0.read_pending_frames@', 's0.inv()', 'self.inv()', 'all_wf(pp)',
  'self.framed_stream.got() == s0.framed_stream.got()', 's0.local_go_away ==> self.local_go_away', '0 <= k <= pp.len()', 'buf@ =~= pp.subrange(k, pp.len() as int)',
  (['C08'], 'forall|i: int| 0 <= i < self.read_pending_frames@.len() ==> block_substream@.contains((#[trigger] self.read_pending_frames@[i]).header.stream_id)'),
  (['C08'], 'forall|s: u32| #![trigger self.streams@.dom().contains(s)] self.streams@.dom().contains(s) && once(s0.streams@, pp, s) ==> lg(self.streams@, s) + flt(self.read_pending_frames@, s) + flt(buf@, s) =~= lg(s0.streams@, s) + flt(pp, s) && no_syn(flt(buf@, s), 0)'),
  (['C08'], 'forall|s: u32| #![trigger self.streams@.dom().contains(s)] !self.streams@.dom().contains(s) && once(s0.streams@, pp, s) ==> no_syn(flt(buf@, s), 0) || (!s0.streams@.dom().contains(s) && flt(buf@, s) =~= flt(pp, s) && flt(self.read_pending_frames@, s) =~= Seq::<Frame>::empty())'),
  (['C09'], 'self.streams@.dom().len() <= s0.streams@.dom().len() || self.streams@.dom().len() <= s0.config.max_stream_count'),
  (['C09'], 'self.pending_streams@.len() <= s0.pending_streams@.len() || self.pending_streams@.len() <= s0.config.accept_backlog'),
  (['C09'], 's0.local_go_away ==> self.pending_streams@ == s0.pending_streams@'),
  (['C09'], '!s0.dead() && self.local_go_away == s0.local_go_away ==> resets_for(s0.out(), self.out(), pp) && syns(pp) - syns(self.read_pending_frames@) - syns(buf@) <= self.pending_streams@.len() - s0.pending_streams@.len() + self.out().len() - s0.out().len() <= syns(pp) - syns(buf@)')]
DBEFORE = 'let ghost mut k: int = 0; assert(flt(Seq::<Frame>::empty(), 0) =~= Seq::<Frame>::empty()); assert(syns(Seq::<Frame>::empty()) == 0); assert(self.out() =~= s0.out());'
DSTART = """broadcast use vstd::std_specs::hash::group_hash_axioms; broadcast use sess::g_sess;
proof {
  let b0 = pp.subrange(k, pp.len() as int);
  assert(b0[0] == frame); assert(buf@ =~= b0.subrange(1, b0.len() as int)); assert(pp[k] == frame);
  k = k + 1;
  syns_front(b0);
  assert forall|s: u32| #![trigger flt(buf@, s)] (frame.header.stream_id == s ==> flt(b0, s) =~= seq![frame] + flt(buf@, s)) && (frame.header.stream_id != s ==> flt(b0, s) =~= flt(buf@, s)) && (no_syn(flt(b0, s), 0) ==> no_syn(flt(buf@, s), 0)) && (frame.header.stream_id == s && no_syn(flt(b0, s), 1) ==> no_syn(flt(buf@, s), 0)) by { step(b0, buf@, frame, s); }
  assert forall|s: u32| !block_substream@.contains(s) implies #[trigger] flt(self.read_pending_frames@, s) =~= Seq::<Frame>::empty() by { flt_none(self.read_pending_frames@, s); }
  step(b0, buf@, frame, frame.header.stream_id);
  assert(flt(b0, frame.header.stream_id)[0] == frame);
  let o = s0.out();
  assert forall|b: Seq<Frame>, f: Frame| is_syn(frame) && #[trigger] is_rst(f, frame.header.stream_id) && resets_for(o, b, pp) implies resets_for(o, #[trigger] b.push(f), pp) by { assert(is_syn(pp[k - 1])); resets_push(o, b, pp, f); }
  assert forall|a: Seq<Frame>, b: Seq<Frame>, f: Frame| #[trigger] (a + b.push(f)) == (a + b).push(f) by { assert((a + b.push(f)) =~= (a + b).push(f)); }
  assert(0u16 | 8u16 == 8u16) by (bit_vector); assert(2u16 | 8u16 == 10u16 && 10u16 & 8u16 == 8u16 && 8u16 & 8u16 == 8u16 && 10u16 & 1u16 == 0u16 && 8u16 & 1u16 == 0u16) by (bit_vector);
}"""
DEND = ''
DAFTER = 'assert(buf@.len() == 0); assert(buf@ =~= Seq::<Frame>::empty());'

def build(root='/repo'):
    u = Unit('yamux', root)
    u.rule('format ! ( $x )', '""', 'error message text is dropped')
    u.rule('. map_err ( | _ | $e )', '. map_err ( | _e | -> ( r : Error ) ensures r == $e { $e } )', 'closure gets a contract naming its own body')
    u.rule('Self :: Item', 'Frame', 'associated type resolved')
    u.rule('Self :: Error', 'io :: Error', 'associated type resolved')
    u.rule(':: std :: cmp :: min', 'std :: cmp :: min', 'leading :: dropped')
    u.rule('copy_from_slice ( & $idb )', 'copy_from_slice ( $idb . as_slice ( ) )', 'Deref coercion of Bytes made explicit')
    u.rule('$ida . to_owned ( )', 'to_vec_u8 ( $ida )', 'to_owned on a byte slice is a copy')
    u.rule('u32 :: max_value ( )', 'u32 :: MAX', '')
    u.text(HEAD + BYTES + CHANNELS)
    u.item(LB, 'type', 'StreamId'); u.item(LB, 'const', 'HEADER_SIZE'); u.item(LB, 'const', 'PROTOCOL_VERSION'); u.item(LB, 'const', 'RESERVED_STREAM_ID')
    u.item(CF, 'const', 'INITIAL_STREAM_WINDOW')
    u.item(FR, 'struct', 'Frame'); u.item(FR, 'struct', 'Header'); u.item(FR, 'enum', 'Type', D + '\n#[repr(u8)]')
    u.item(FR, 'enum', 'Flag', D + '\n#[repr(u16)]'); u.item(FR, 'struct', 'Flags', D); u.item(FR, 'enum', 'GoAwayCode', D + '\n#[repr(u32)]')
    u.item(FR, 'struct', 'FrameCodec')
    u.text(SPEC)
    A = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08', 'C10']
    hd = lambda ty, sid, ln: 'ret.header == (Header { version: 0, ty: Type::%s, flags: %s, stream_id: %s, length: %s })' % (ty, 'flags', sid, ln)
    u.impl('impl Frame', FR, [
        Fn('impl Frame', 'new_data', props=A, requires=['body@.len() <= u32::MAX'], ensures=['ret.wf()', hd('Data', 'stream_id', 'body@.len() as u32'), 'ret.body == Some(body)']),
        Fn('impl Frame', 'new_window_update', props=A, ensures=['ret.wf()', hd('WindowUpdate', 'stream_id', 'delta')]),
        Fn('impl Frame', 'new_ping', props=A, ensures=['ret.wf()', hd('Ping', '0', 'ping_id')]),
        Fn('impl Frame', 'new_go_away', props=A, ensures=['ret.wf()', 'ret.header == (Header { version: 0, ty: Type::GoAway, flags: Flags(0), stream_id: 0, length: reason as u32 })']),
        Fn('impl Frame', 'ty', props=A, ensures=['ret == self.header.ty']),
        Fn('impl Frame', 'stream_id', props=A, ensures=['ret == self.header.stream_id']),
        Fn('impl Frame', 'flags', props=A, ensures=['ret == self.header.flags']),
        Fn('impl Frame', 'length', props=A, ensures=['ret == self.header.length']),
        Fn('impl Frame', 'into_parts', props=A, ensures=['ret.0 == self.header', 'ret.1 == self.body']),
        Fn('impl Frame', 'size', props=['C01'], ensures=['ret == if self.body is Some { self.header.length + 12 } else { 12 }']),
    ])
    u.impl('impl Type', FR, [Fn('impl Type', 'try_from', props=['C01', 'C02'], ensures=['ret is Some <==> value <= 3', 'ret is Some ==> type_code(ret->Some_0) == value'])])
    u.impl('impl From<Flag> for Flags', FR, [Fn('impl From < Flag > for Flags', 'from', props=A, as_trait=True)])
    u.impl('impl From<u32> for GoAwayCode', FR, [Fn('impl From < u32 > for GoAwayCode', 'from', props=['C09'], as_trait=True)])
    bv = 'assert(forall|a: u16, b: u16| #![auto] (a | b) & b == b) by (bit_vector);'
    u.impl('impl Flags', FR, [
        Fn('impl Flags', 'add', props=A, ensures=['final(self).0 == old(self).0 | (flag as u16)']),
        Fn('impl Flags', 'remove', props=['C06'], ensures=['final(self).0 == old(self).0 ^ (flag as u16)']),
        Fn('impl Flags', 'contains', props=A, ensures=['ret == has(self, flag as u16)']),
        Fn('impl Flags', 'value', props=A, ensures=['ret == self.0']),
    ])
    u.impl('impl FrameCodec', FR, [
        Fn('impl FrameCodec', 'max_frame_size', props=['C02'], requires=['self.unused_data_header is None'], ensures=['ret.max_frame_size == size', 'ret.inv()', 'ret.unused_data_header == self.unused_data_header']),
        Fn('impl Default for FrameCodec', 'default', props=['C02', 'C01'], ensures=['ret.inv()', 'ret.unused_data_header is None', 'ret.max_frame_size == 256 * 1024']),
        Fn('impl Decoder for FrameCodec', 'decode', props=['C01', 'C02'],
           requires=['old(self).inv()', 'old(src)@.len() <= 0x7fff_ffff_ffff_ffff'],
           ensures=[
             'final(self).inv()', 'final(self).max_frame_size == old(self).max_frame_size',
             (['C01'], '''match ret {
                Ok(Some(f)) => unread(*old(self)) + old(src)@ =~= enc(f) + (unread(*final(self)) + final(src)@),
                Ok(None) => unread(*old(self)) + old(src)@ =~= unread(*final(self)) + final(src)@ && incomplete(unread(*old(self)) + old(src)@, old(self).max_frame_size),
                Err(e) => true }'''),
             (['C01', 'C02'], 'ret is Ok && ret->Ok_0 is Some ==> ret->Ok_0->Some_0.wf()'),
             (['C02'], 'ret is Ok && ret->Ok_0 is Some ==> (ret->Ok_0->Some_0.header.ty == Type::Data ==> ret->Ok_0->Some_0.header.length <= old(self).max_frame_size)'),
             (['C02'], '({ let v = unread(*old(self)) + old(src)@; v.len() >= 12 && !good_header(v, old(self).max_frame_size) ==> ret is Err })'),
             (['C01', 'C10'], '({ let v = unread(*old(self)) + old(src)@; ret is Err ==> v.len() >= 12 && !good_header(v, old(self).max_frame_size) })'),
           ],
           proof='''proof {
             let v = unread(*self) + src@;
             if self.unused_data_header is Some { lemma_hdr(self.unused_data_header->Some_0);
               let h = hdr_bytes(self.unused_data_header->Some_0);
               assert(v.subrange(8, 12) =~= h.subrange(8, 12)); assert(v[0] == h[0] && v[1] == h[1]);
             } else { assert(v =~= src@);
               if src@.len() >= 12 {
                 let h = src@.subrange(0, 12);
                 assert(h.subrange(1, 12).subrange(1, 11) =~= h.subrange(2, 12));
                 assert(h.subrange(2, 12).subrange(0, 2) =~= h.subrange(2, 4)); assert(h.subrange(2, 12).subrange(2, 10) =~= h.subrange(4, 12));
                 assert(h.subrange(4, 12).subrange(0, 4) =~= h.subrange(4, 8)); assert(h.subrange(4, 12).subrange(4, 8) =~= h.subrange(8, 12));
                 assert(h.subrange(8, 12).subrange(0, 4) =~= h.subrange(8, 12));
                 assert(h.subrange(8, 12) =~= src@.subrange(8, 12));
                 assert(src@ =~= h + src@.subrange(12, src@.len() as int));
                 assert forall|x: Header| x.version == h[0] && type_code(x.ty) == h[1] && x.flags.0 as int == be16(h.subrange(2, 4)) && x.stream_id as int == be32(h.subrange(4, 8)) && x.length as int == be32(h.subrange(8, 12)) implies #[trigger] hdr_bytes(x) =~= h by { lemma_hdr_inv(h, x); }
               }
             }
           }'''),
        Fn('impl Encoder < Frame > for FrameCodec', 'encode', props=['C01'], requires=['item.wf()'], ensures=['ret is Ok', 'final(dst)@ =~= old(dst)@ + enc(item)']),
    ])
    # ---------------- stream
    u.item(ER, 'enum', 'Error')
    u.item(ST, 'struct', 'StreamHandle'); u.item(ST, 'enum', 'StreamEvent'); u.item(ST, 'enum', 'StreamState', D)
    u.text(STREAM_SPEC)
    SH = 'impl StreamHandle'
    AR, AW, DR = 'impl AsyncRead for StreamHandle', 'impl AsyncWrite for StreamHandle', 'impl Drop for StreamHandle'
    S = ['C03', 'C04', 'C05', 'C06']
    upd = lambda *fs: '*final(self) == (StreamHandle { %s, ..*old(self) })' % ', '.join('%s: final(self).%s' % (f, f) for f in fs)
    push1 = 'final(self).lg() == old(self).lg().push(final(self).lg().last())'
    u.impl('impl StreamHandle', ST, [
        Fn(SH, 'new', props=S, requires=['state == StreamState::Init || state == StreamState::SynReceived'],
           rules=[('assert ! ( $x ) ;', 'assert ( $x ) ;')],
           ensures=['ret.id == id && ret.state == state && ret.max_recv_window == recv_window_size && ret.recv_window == recv_window_size && ret.send_window == send_window_size',
                    'ret.read_buf@.len() == 0', 'ret.unbound_event_sender == unbound_event_sender', 'ret.frame_receiver == frame_receiver', 'ret.writeable_wake is None', (['C04'], 'ret.rinv()')]),
        Fn(SH, 'id', props=['C08'], ensures=['ret == self.id']),
        Fn(SH, 'state', props=['C06'], ensures=['ret == self.state']),
        Fn(SH, 'recv_window', props=['C04'], ensures=['ret == self.recv_window']),
        Fn(SH, 'send_window', props=['C03'], ensures=['ret == self.send_window']),
        Fn(SH, 'close', props=['C06', 'C05', 'C03', 'C04'],
           ensures=[upd('state', 'unbound_event_sender'),
             (['C06'], 'final(self).state == match old(self).state { StreamState::SynSent | StreamState::SynReceived | StreamState::Established | StreamState::Init => StreamState::LocalClosing, _ => StreamState::Closed }'),
             (['C06'], 'ret is Ok && !wdone(old(self).state) ==> %s && ev(final(self).lg().last(), old(self).id, Type::WindowUpdate, 4, 0)' % push1),
             (['C06'], '''ret is Ok && old(self).state == StreamState::RemoteClosing ==> ({ let n = old(self).lg().len() as int; final(self).lg() == old(self).lg().push(final(self).lg()[n]).push(StreamEvent::Closed(old(self).id))
                && ev(final(self).lg()[n], old(self).id, Type::WindowUpdate, 4, 0) })'''),
             (['C06'], 'ret is Ok && (old(self).state == StreamState::LocalClosing || old(self).state == StreamState::Closed || old(self).state == StreamState::Reset) ==> final(self).lg() == old(self).lg().push(StreamEvent::Closed(old(self).id))'),
             (['C06', 'C03'], 'no_new_data(old(self).lg(), final(self).lg())'),
             'ret is Err ==> ret == Err::<(), Error>(Error::SessionShutdown)',
           ], proof='assert(0u16 | 4u16 == 4u16) by (bit_vector);'),
        Fn(SH, 'send_go_away', props=['C06', 'C04'], ensures=[upd('state', 'unbound_event_sender'), 'final(self).state == StreamState::LocalClosing', (['C06', 'C03'], 'no_new_data(old(self).lg(), final(self).lg())'),
             (['C04'], 'final(self).lg() == old(self).lg() || final(self).lg() == old(self).lg().push(StreamEvent::GoAway)')]),
        Fn(SH, 'unbound_send_event', props=S, ensures=[upd('unbound_event_sender'), 'ret is Ok ==> final(self).lg() == old(self).lg().push(event)', 'ret is Err ==> final(self).lg() == old(self).lg() && ret == Err::<(), Error>(Error::SessionShutdown)']),
        Fn(SH, 'unbound_send_frame', props=S, ensures=[upd('unbound_event_sender'), 'ret is Ok ==> final(self).lg() == old(self).lg().push(StreamEvent::Frame(frame))', 'ret is Err ==> final(self).lg() == old(self).lg() && ret == Err::<(), Error>(Error::SessionShutdown)']),
        Fn(SH, 'send_window_update', props=['C04', 'C06', 'C05', 'C03'], requires=['old(self).rinv()'],
           ensures=[upd('state', 'recv_window', 'unbound_event_sender'), (['C04'], 'final(self).rinv()'),
             (['C06'], 'final(self).state == after_flags(old(self).state)'),
             (['C04'], '''ret is Ok ==> ({ let delta = old(self).max_recv_window - old(self).read_buf@.len() - old(self).recv_window;
                  ||| (final(self).lg() == old(self).lg() && final(self).recv_window == old(self).recv_window && delta < old(self).max_recv_window / 2)
                  ||| (%s && final(self).lg().last() is Frame && final(self).lg().last()->Frame_0.header.ty == Type::WindowUpdate && final(self).lg().last()->Frame_0.header.length as int == delta
                       && final(self).recv_window as int == old(self).recv_window + delta) })''' % push1),
             (['C04'], 'ret is Ok && old(self).max_recv_window > 0 && final(self).recv_window == 0 ==> final(self).read_buf@.len() > 0'),
             (['C06'], 'ret is Ok && flag_of(old(self).state) != 0 ==> final(self).lg().len() > old(self).lg().len()'),
             (['C06'], 'final(self).lg().len() > old(self).lg().len() ==> %s && final(self).lg().last() is Frame && final(self).lg().last()->Frame_0.header.flags.0 == flag_of(old(self).state) && final(self).lg().last()->Frame_0.header.stream_id == old(self).id && final(self).lg().last()->Frame_0.wf()' % push1),
             (['C06', 'C03'], 'no_new_data(old(self).lg(), final(self).lg())'),
             'ret is Err ==> ret == Err::<(), Error>(Error::SessionShutdown)',
           ]),
        Fn(SH, 'send_data', props=['C03', 'C05', 'C06'], requires=['data@.len() <= u32::MAX'],
           ensures=[upd('state', 'unbound_event_sender'), 'final(self).state == after_flags(old(self).state)',
             'ret is Ok ==> %s && ev(final(self).lg().last(), old(self).id, Type::Data, flag_of(old(self).state), data@.len() as int) && final(self).lg().last()->Frame_0.body->Some_0@ == data@' % push1,
             'ret is Err ==> final(self).lg() == old(self).lg() && ret == Err::<(), Error>(Error::SessionShutdown)']),
        Fn(SH, 'send_close', props=['C06', 'C03'],
           ensures=[upd('state', 'unbound_event_sender'), 'final(self).state == after_flags(old(self).state)',
             'ret is Ok ==> %s && ev(final(self).lg().last(), old(self).id, Type::WindowUpdate, flag_of(old(self).state) | 4, 0)' % push1,
             'ret is Err ==> final(self).lg() == old(self).lg() && ret == Err::<(), Error>(Error::SessionShutdown)']),
        Fn(SH, 'process_flags', props=['C06', 'C05'],
           ensures=[upd('state', 'unbound_event_sender'), (['C06', 'C03'], 'no_new_data(old(self).lg(), final(self).lg())'),
             (['C06'], 'wdone(old(self).state) ==> wdone(final(self).state)'),
             (['C06', 'C05'], '''final(self).state == ({
                 let s1 = if has(flags, 2) && old(self).state == StreamState::SynSent { StreamState::SynReceived } else { old(self).state };
                 let bad = has(flags, 4) && wdone(s1) && s1 != StreamState::LocalClosing;
                 let s2 = if has(flags, 4) { if s1 == StreamState::LocalClosing { StreamState::Closed } else if wdone(s1) { s1 } else { StreamState::RemoteClosing } } else { s1 };
                 if bad { s1 } else if has(flags, 8) { StreamState::Closed } else { s2 } })'''),
             (['C06', 'C05'], '(ret == Err::<(), Error>(Error::UnexpectedFlag)) <==> (has(flags, 4) && wdone(old(self).state) && old(self).state != StreamState::LocalClosing)'),
             '(ret is Err ==> ret == Err::<(), Error>(Error::UnexpectedFlag) || (ret == Err::<(), Error>(Error::SessionShutdown) && final(self).state == StreamState::Closed))',
           ]),
        Fn(SH, 'get_flags', props=S, ensures=[upd('state'), 'final(self).state == after_flags(old(self).state)', 'ret.0 == flag_of(old(self).state)']),
        Fn(SH, 'handle_frame', props=S, requires=['frame.wf()', 'old(self).rinv()', 'old(self).read_buf@.len() == 0'],
           ensures=[upd('state', 'unbound_event_sender', 'recv_window', 'send_window', 'read_buf', 'writeable_wake'), (['C04'], 'final(self).rinv()'),
             (['C05'], 'final(self).state == StreamState::LocalClosing ==> old(self).state == StreamState::LocalClosing'),
             (['C06', 'C03'], 'no_new_data(old(self).lg(), final(self).lg())'), (['C06'], 'wdone(old(self).state) ==> wdone(final(self).state)'),
             (['C03'], 'final(self).send_window as int <= old(self).send_window + if frame.header.ty == Type::WindowUpdate { frame.header.length as int } else { 0 }'),
             (['C03'], 'ret is Ok ==> final(self).send_window as int == old(self).send_window + if frame.header.ty == Type::WindowUpdate { frame.header.length as int } else { 0 }'),
             (['C03'], 'ret is Ok && frame.header.ty == Type::WindowUpdate ==> final(self).writeable_wake is None'),
             (['C05'], 'ret is Ok ==> final(self).read_buf@ == body_of(frame)'), (['C05', 'C04'], 'ret is Err ==> final(self).read_buf@.len() == 0'),
             (['C04'], 'frame.header.ty == Type::Data && frame.header.length > old(self).recv_window ==> ret is Err'),
             (['C04'], 'ret is Ok ==> final(self).recv_window as int == old(self).recv_window - body_of(frame).len()'),
             (['C05', 'C06'], 'ret == Err::<(), Error>(Error::SessionShutdown) ==> final(self).state == StreamState::Closed'),
             (['C06'], 'ret is Err ==> (ret->Err_0 is SessionShutdown || ret->Err_0 is UnexpectedFlag || ret->Err_0 is RecvWindowExceeded || ret->Err_0 is InvalidMsgType)'),
           ]),
        Fn(SH, 'handle_window_update', props=['C03', 'C06', 'C05'], requires=['frame.header.ty == Type::WindowUpdate'],
           ensures=[upd('state', 'unbound_event_sender', 'send_window', 'writeable_wake'),
             (['C05'], 'final(self).state == StreamState::LocalClosing ==> old(self).state == StreamState::LocalClosing'),
             (['C06', 'C03'], 'no_new_data(old(self).lg(), final(self).lg())'), (['C06'], 'wdone(old(self).state) ==> wdone(final(self).state)'),
             (['C03'], 'ret is Ok ==> final(self).send_window as int == old(self).send_window + frame.header.length && final(self).writeable_wake is None'),
             (['C03'], 'ret is Err ==> final(self).send_window == old(self).send_window'),
             'ret == Err::<(), Error>(Error::SessionShutdown) ==> final(self).state == StreamState::Closed',
             'ret is Err ==> (ret->Err_0 is SessionShutdown || ret->Err_0 is UnexpectedFlag || ret->Err_0 is InvalidMsgType)',
           ]),
        Fn(SH, 'handle_data', props=['C04', 'C05', 'C06'], requires=['frame.wf()', 'frame.header.ty == Type::Data', 'old(self).rinv()', 'old(self).read_buf@.len() == 0'],
           ensures=[upd('state', 'unbound_event_sender', 'recv_window', 'read_buf'), (['C04'], 'final(self).rinv()'),
             (['C05'], 'final(self).state == StreamState::LocalClosing ==> old(self).state == StreamState::LocalClosing'),
             (['C06', 'C03'], 'no_new_data(old(self).lg(), final(self).lg())'), (['C06'], 'wdone(old(self).state) ==> wdone(final(self).state)'),
             (['C04'], 'frame.header.length > old(self).recv_window ==> ret is Err'),
             (['C04'], 'ret is Ok ==> final(self).recv_window as int == old(self).recv_window - frame.header.length'),
             (['C05'], 'ret is Ok ==> final(self).read_buf@ == body_of(frame)'), (['C05', 'C04'], 'ret is Err ==> final(self).read_buf@.len() == 0'),
             'ret == Err::<(), Error>(Error::SessionShutdown) ==> final(self).state == StreamState::Closed',
             'ret is Err ==> (ret->Err_0 is SessionShutdown || ret->Err_0 is UnexpectedFlag || ret->Err_0 is RecvWindowExceeded)',
           ]),
        Fn(SH, 'recv_frames', props=S, requires=['old(self).rinv()'], opts='#[verifier::exec_allows_no_decreases_clause]',
           ensures=[upd('state', 'unbound_event_sender', 'recv_window', 'send_window', 'read_buf', 'writeable_wake', 'frame_receiver'), (['C04'], 'final(self).rinv()'),
             (['C05'], 'final(self).state == StreamState::LocalClosing ==> old(self).state == StreamState::LocalClosing'),
             (['C06', 'C03'], 'no_new_data(old(self).lg(), final(self).lg())'), (['C06'], 'wdone(old(self).state) ==> wdone(final(self).state)'),
             (['C03'], 'final(self).budget() <= old(self).budget()'),
             (['C05'], 'old(self).read_buf@.len() > 0 ==> final(self).rd() == old(self).rd() && final(self).read_buf == old(self).read_buf'),
             (['C05'], 'old(self).read_buf@.len() == 0 && (final(self).read_buf@.len() > 0 || ret is Ok || ret->Err_0 is SubStreamRemoteClosing) ==> bodies(final(self).rd()) =~= bodies(old(self).rd()) + final(self).read_buf@'),
             (['C05'], 'ret is Err ==> (ret->Err_0 is UnexpectedFlag || ret->Err_0 is RecvWindowExceeded || ret->Err_0 is InvalidMsgType || ((ret->Err_0 is SubStreamRemoteClosing || ret->Err_0 is SessionShutdown) && wdone(final(self).state) && final(self).state != StreamState::LocalClosing))'),
             (['C05'], 'final(self).state == StreamState::RemoteClosing && ret is Err && ret->Err_0 is SessionShutdown ==> bodies(final(self).rd()) =~= bodies(old(self).rd()) + (if old(self).read_buf@.len() > 0 { Seq::<u8>::empty() } else { final(self).read_buf@ })'),
           ],
           proof='let ghost s0 = *self;',
           loops=[Loop(invariant=['*self == (StreamHandle { state: self.state, unbound_event_sender: self.unbound_event_sender, recv_window: self.recv_window, send_window: self.send_window, read_buf: self.read_buf, writeable_wake: self.writeable_wake, frame_receiver: self.frame_receiver, ..s0 })',
                 'self.rinv()', 'no_new_data(s0.lg(), self.lg())', 'wdone(s0.state) ==> wdone(self.state)', 'self.state == StreamState::LocalClosing ==> s0.state == StreamState::LocalClosing', 'self.budget() <= s0.budget()',
                 's0.read_buf@.len() > 0 ==> self.rd() == s0.rd() && self.read_buf == s0.read_buf',
                 's0.read_buf@.len() == 0 ==> bodies(self.rd()) =~= bodies(s0.rd()) + self.read_buf@', 's0 == *old(self)'], start='broadcast use hist::g_push;')]),
        Fn(SH, 'check_self_state', props=['C05', 'C06'],
           ensures=[upd('state', 'unbound_event_sender'), (['C06', 'C03'], 'no_new_data(old(self).lg(), final(self).lg())'), (['C06'], 'wdone(old(self).state) ==> wdone(final(self).state)'),
             'final(self).state == old(self).state',
             (['C05'], 'ret is Err <==> (old(self).read_buf@.len() == 0 && (old(self).state == StreamState::RemoteClosing || old(self).state == StreamState::Reset || old(self).state == StreamState::Closed))'),
             (['C05'], 'ret is Err && ret->Err_0.kind == io::ErrorKind::UnexpectedEof ==> old(self).state == StreamState::RemoteClosing')]),
        Fn(AR, 'poll_read', props=S, rules=[('self . $idm ( ) ? ;', 'match self . $idm ( ) { Ok ( _v ) => ( ) , Err ( e ) => return Poll :: Ready ( Err ( e ) ) }')],
           requires=['old(self).rinv()'],
           ensures=[upd('state', 'unbound_event_sender', 'recv_window', 'send_window', 'read_buf', 'writeable_wake', 'frame_receiver'), (['C04'], 'final(self).rinv()'),
             'final(buf)@.len() == old(buf)@.len()',
             (['C06', 'C03'], 'no_new_data(old(self).lg(), final(self).lg())'), (['C06'], 'wdone(old(self).state) ==> wdone(final(self).state)'),
             (['C03'], 'final(self).budget() <= old(self).budget()'),
             (['C05'], '''match ret { Poll::Ready(Ok(n)) => {
                 &&& 0 < n <= old(buf)@.len()
                 &&& old(self).read_buf@.len() > 0 ==> final(self).rd() == old(self).rd() && old(self).read_buf@ =~= final(buf)@.subrange(0, n as int) + final(self).read_buf@
                 &&& old(self).read_buf@.len() == 0 ==> bodies(final(self).rd()) =~= bodies(old(self).rd()) + final(buf)@.subrange(0, n as int) + final(self).read_buf@ }, _ => true }'''),
             (['C05'], '''match ret { Poll::Pending => {
                 &&& old(self).read_buf@.len() > 0 ==> final(self).rd() == old(self).rd() && old(self).read_buf@ =~= final(self).read_buf@ && old(buf)@.len() == 0
                 &&& old(self).read_buf@.len() == 0 ==> bodies(final(self).rd()) =~= bodies(old(self).rd()) + final(self).read_buf@
                 &&& old(buf)@.len() > 0 ==> final(self).read_buf@.len() == 0 && (!wdone(final(self).state) || final(self).state == StreamState::LocalClosing) }, _ => true }'''),
             (['C05'], '''match ret { Poll::Ready(Err(e)) => (e.kind == io::ErrorKind::UnexpectedEof ==> final(self).read_buf@.len() == 0 && final(self).state == StreamState::RemoteClosing && old(self).read_buf@.len() == 0
                    && bodies(final(self).rd()) =~= bodies(old(self).rd())), _ => true }'''),
             # whatever kind of error says that the stream is over, nothing received is left unread
             (['C05'], '''match ret { Poll::Ready(Err(e)) => (e.kind != io::ErrorKind::InvalidData && old(self).state != StreamState::LocalClosing
                    && (final(self).state == StreamState::RemoteClosing || final(self).state == StreamState::Reset || final(self).state == StreamState::Closed) ==> final(self).read_buf@.len() == 0), _ => true }'''),
           ]),
        Fn(AW, 'poll_write', props=['C03', 'C06', 'C05'],
           ensures=[upd('state', 'unbound_event_sender', 'send_window', 'writeable_wake'),
             (['C06'], 'wdone(old(self).state) ==> (match ret { Poll::Ready(Err(e)) => true, _ => false }) && final(self).lg() == old(self).lg() && final(self).state == old(self).state'),
             (['C03', 'C05'], '''match ret { Poll::Ready(Ok(n)) => n as int == (if old(self).send_window as int <= buf@.len() { old(self).send_window as int } else { buf@.len() as int })
                  && old(self).send_window > 0 && final(self).send_window as int == old(self).send_window - n
                  && %s && ev(final(self).lg().last(), old(self).id, Type::Data, flag_of(old(self).state), n as int) && final(self).lg().last()->Frame_0.body->Some_0@ =~= buf@.subrange(0, n as int),
                 _ => final(self).lg() == old(self).lg() && final(self).send_window == old(self).send_window }''' % push1),
             (['C03'], 'match ret { Poll::Pending => old(self).send_window == 0 && final(self).writeable_wake is Some && final(self).writeable_wake->Some_0.task() == old(cx).task(), _ => true }'),
             (['C03'], 'old(self).send_window == 0 && !wdone(old(self).state) ==> (match ret { Poll::Pending => true, _ => false })'),
             (['C03'], 'final(self).budget() == old(self).budget()'),
             (['C06'], 'final(self).lg().len() > old(self).lg().len() ==> final(self).state == after_flags(old(self).state)')]),
        Fn(AW, 'poll_flush', props=['C06'], ensures=['*final(self) == *old(self)']),
        Fn(AW, 'poll_shutdown', props=['C06'], ensures=[upd('state', 'unbound_event_sender'), (['C06'], 'wdone(final(self).state)'), (['C06', 'C03'], 'no_new_data(old(self).lg(), final(self).lg())'),
             (['C06'], '''(match ret { Poll::Ready(Ok(_)) => true, _ => false }) && !wdone(old(self).state) ==> %s && ev(final(self).lg().last(), old(self).id, Type::WindowUpdate, 4, 0)''' % push1)]),
        Fn(DR, 'drop', rename='drop_impl', props=['C06'], ensures=[(['C06', 'C03'], 'no_new_data(old(self).lg(), final(self).lg())'),
             (['C06'], 'old(self).state == StreamState::Closed ==> final(self).lg() == old(self).lg()'),
             (['C06'], 'old(self).state == StreamState::LocalClosing ==> final(self).lg() == old(self).lg() || final(self).lg() == old(self).lg().push(StreamEvent::Closed(old(self).id))'),
             (['C06'], '''old(self).state != StreamState::Closed && old(self).state != StreamState::LocalClosing && final(self).lg().len() == old(self).lg().len() + 2 ==>
                 ev(final(self).lg()[old(self).lg().len() as int], old(self).id, Type::WindowUpdate, flag_of(old(self).state) | 8, 0) && final(self).lg().last() == StreamEvent::Closed(old(self).id)'''),
             (['C06'], 'final(self).lg().len() <= old(self).lg().len() + 2')]),
    ])

    # ---------------- session
    CT = 'yamux/src/control.rs'
    u.item(CF, 'struct', 'Config', '#[derive(Clone, Copy)]')
    tr = [('oneshot :: Sender', 'OneshotSender'), ('Framed < T , FrameCodec >', 'Framed'), ('HashMap < StreamId , Sender < Frame > >', 'StreamMap'), ('BTreeMap < u32 , Instant >', 'PingMap'),
          ('UnboundedReceiver < StreamEvent >', 'UnboundedReceiver'), ('Receiver < Command >', 'ControlReceiver'), ('Session < T >', 'Session')]
    u.item(CT, 'enum', 'Command', rules=tr); u.item(SE, 'enum', 'SessionType', D); u.item(SE, 'struct', 'Session', rules=tr)
    u.item(SE, 'const', 'BUF_SHRINK_THRESHOLD', rules=[('u8 :: max_value ( )', 'u8 :: MAX')])
    u.text(SESSION_SPEC)
    SI, SN = 'impl < T > Session < T > where T : AsyncRead \\+ AsyncWrite \\+ Unpin ,', 'impl < T > Stream for Session < T > where T : AsyncRead \\+ AsyncWrite \\+ Unpin ,'
    sup = lambda *fs: '*final(self) == (Session { %s, ..*old(self) })' % ', '.join('%s: final(self).%s' % (f, f) for f in fs)
    Z = ['C07', 'C08', 'C09', 'C10']
    inv = 'final(self).inv()'
    got = 'final(self).framed_stream.got() == old(self).framed_stream.got()'
    pq = [('self . $idm ( $args ) ? ;', 'match self . $idm ( $args ) { Ok ( _v ) => ( ) , Err ( e ) => return Poll :: Ready ( Some ( Err ( e ) ) ) }'),
          ('self . $idm ( cx ) ? . is_pending ( )', '( match self . $idm ( cx ) { Poll :: Ready ( Some ( Err ( e ) ) ) => return Poll :: Ready ( Some ( Err ( e ) ) ) , Poll :: Pending => true , _ => false } )'),
          ('is_pending &= $e ;', 'let p_ = $e ; is_pending = is_pending && p_ ;'),
          ('unreachable ! ( )', '{ assert ( false ) ; return Poll :: Pending }'),
          ('Pin :: new ( interval ) . as_mut ( )', 'interval'), ('for _ in 0 .. 16 {', 'for _k in 0 .. 16u32 {')]
    u.rules += [(a, b, 'generic or std type replaced by a contracted one') for a, b in tr]
    u.impl('impl SessionType', SE, [Fn('impl SessionType', 'is_client', props=['C07'], ensures=['ret == (self == SessionType::Client)']), Fn('impl SessionType', 'is_server', props=['C07'], ensures=['ret == (self == SessionType::Server)'])])
    KEEP = ['final(self).next_stream_id == old(self).next_stream_id', 'final(self).ty == old(self).ty', 'final(self).config == old(self).config']
    u.impl('impl Session', SE, [
        Fn(SI, 'new', props=['C07', 'C09'], sig='pub fn new(config: Config, ty: SessionType) -> (ret: Session)',
           rules=[('Framed :: new ( raw_stream , $e )', 'Framed :: fresh ( $e )'), ('channel ( 32 )', 'control_channel ( 32 )'), ('HashMap :: default ( )', 'StreamMap :: default ( )'), ('BTreeMap :: default ( )', 'PingMap :: default ( )'), ('VecDeque :: default ( )', 'VecDeque :: new ( )'), (', )', ')')],
           ensures=['ret.inv()', (['C07'], 'ret.next_stream_id == if ty == SessionType::Client { 1u32 } else { 2u32 }'), 'ret.ty == ty && ret.config == config', (['C09'], 'ret.limits()'), (['C09'], '!ret.remote_go_away && !ret.local_go_away && !ret.eof'), 'ret.out().len() == 0']),
        Fn(SI, 'new_server', props=['C07', 'C09'], sig='pub fn new_server(config: Config) -> (ret: Session)', rules=[('( raw_stream , config ,', '( config ,')], ensures=['ret.inv()', (['C07'], 'ret.next_stream_id == 2u32'), 'ret.ty == SessionType::Server && ret.config == config', (['C09'], 'ret.limits()')]),
        Fn(SI, 'new_client', props=['C07', 'C09'], sig='pub fn new_client(config: Config) -> (ret: Session)', rules=[('( raw_stream , config ,', '( config ,')], ensures=['ret.inv()', (['C07'], 'ret.next_stream_id == 1u32'), 'ret.ty == SessionType::Client && ret.config == config', (['C09'], 'ret.limits()')]),
        Fn(SI, 'is_dead', props=Z, ensures=['ret == self.dead()']),
        Fn(SI, 'poll_complete', props=Z, rules=[('res . map ( | _ | false )', 'res . map ( | _v : ( ) | -> ( r : bool ) ensures r == false { false } )')],
           ensures=[sup('framed_stream'), 'final(self).framed_stream.sent() == old(self).framed_stream.sent()', got]),
        Fn(SI, 'send_all', props=Z, requires=['old(self).inv()'], opts='#[verifier::exec_allows_no_decreases_clause]',
           rules=[('let mut sink = Pin :: new ( & mut self . framed_stream ) ;', ''), ('sink . as_mut ( ) . poll_ready ( cx ) ?', '( match self . framed_stream . poll_ready ( cx ) { Poll :: Ready ( Ok ( v ) ) => Poll :: Ready ( v ) , Poll :: Ready ( Err ( e ) ) => return Err ( e ) , Poll :: Pending => Poll :: Pending } )'), ('sink . as_mut ( )', 'self . framed_stream')],
           ensures=[sup('framed_stream', 'write_pending_frames'), inv, got, (['C10', 'C09', 'C08'], 'ret is Ok && !old(self).dead() ==> final(self).out() =~= old(self).out()')],
           proof='let ghost s0 = *self;',
           loops=[Loop(invariant=['*self == (Session { framed_stream: self.framed_stream, write_pending_frames: self.write_pending_frames, ..s0 })', 's0.inv()', 'self.inv()', 'self.framed_stream.got() == s0.framed_stream.got()', '!s0.dead() ==> self.out() =~= s0.out()', 's0 == *old(self)'],
                       ensures=['*self == (Session { framed_stream: self.framed_stream, write_pending_frames: self.write_pending_frames, ..s0 })', 'self.inv()', 'self.framed_stream.got() == s0.framed_stream.got()', '!s0.dead() ==> self.out() =~= s0.out()'])]),
        Fn(SI, 'send_frame', props=Z, requires=['old(self).inv()', 'frame.wf()'],
           ensures=[sup('framed_stream', 'write_pending_frames'), inv, got, (['C10', 'C09', 'C08'], 'ret is Ok && !old(self).dead() ==> final(self).out() =~= old(self).out().push(frame)')]),
        Fn(SI, 'send_ping', props=['C10'], requires=['old(self).inv()'],
           rules=[('. map ( | _ | ping_id )', '. map ( | _v : ( ) | -> ( r : u32 ) ensures r == ping_id { ping_id } )')],
           ensures=[sup('framed_stream', 'write_pending_frames', 'ping_id'), inv, got, 'ret is Ok && ping_id is Some ==> ret->Ok_0 == ping_id->Some_0',
             '''ret is Ok && !old(self).dead() ==> final(self).out().len() == old(self).out().len() + 1 && final(self).out() =~= old(self).out().push(final(self).out().last())
               && final(self).out().last().wf() && final(self).out().last().header == (Header { version: 0, ty: Type::Ping, flags: Flags(if ping_id is Some { 2u16 } else { 1u16 }), stream_id: 0, length: ret->Ok_0 })''']),
        Fn(SI, 'send_go_away', props=['C09'], requires=['old(self).inv()'], ensures=[sup('framed_stream', 'write_pending_frames', 'local_go_away', 'keepalive'), inv, got, 'ret is Ok ==> final(self).local_go_away', 'old(self).local_go_away ==> final(self).local_go_away',
             'ret is Ok && !old(self).dead() ==> final(self).out() =~= old(self).framed_stream.sent().push(final(self).out().last()) && final(self).out().last().header == (Header { version: 0, ty: Type::GoAway, flags: Flags(0), stream_id: 0, length: 0 })']),
        Fn(SI, 'send_go_away_with_code', props=['C09'], requires=['old(self).inv()'],
           ensures=[sup('framed_stream', 'write_pending_frames', 'local_go_away', 'keepalive'), inv, got, 'ret is Ok ==> final(self).local_go_away', 'old(self).local_go_away ==> final(self).local_go_away',
             'ret is Ok && !old(self).dead() ==> final(self).out() =~= old(self).framed_stream.sent().push(final(self).out().last()) && final(self).out().last().header == (Header { version: 0, ty: Type::GoAway, flags: Flags(0), stream_id: 0, length: code as u32 })']),
        Fn(SI, 'shutdown', props=['C09'], requires=['old(self).inv()'], ensures=[sup('framed_stream', 'write_pending_frames', 'local_go_away', 'keepalive'), inv, got, 'ret is Ok ==> old(self).dead() || final(self).local_go_away', 'old(self).local_go_away ==> final(self).local_go_away']),
        Fn(SI, 'open_stream', props=['C07', 'C09', 'C06'], requires=['old(self).inv()'],
           ensures=[sup('next_stream_id', 'streams'), inv,
             (['C09'], 'old(self).remote_go_away || old(self).dead() ==> ret is Err && *final(self) == *old(self)'),
             (['C07'], 'ret is Ok ==> ret->Ok_0.id == old(self).next_stream_id && final(self).next_stream_id == old(self).next_stream_id + 2 && final(self).streams@.dom() =~= old(self).streams@.dom().insert(ret->Ok_0.id)'),
             (['C07'], 'final(self).next_stream_id >= old(self).next_stream_id'), (['C07'], 'old(self).next_stream_id + 2 > u32::MAX ==> ret is Err && final(self).next_stream_id == old(self).next_stream_id'),
             (['C08'], 'forall|s: u32| old(self).streams@.dom().contains(s) ==> #[trigger] final(self).streams@[s] == old(self).streams@[s]'),
             (['C06'], 'ret is Ok ==> ret->Ok_0.state == StreamState::SynSent'), 'ret is Err ==> final(self).streams@ == old(self).streams@',
             (['C08'], 'forall|s: u32| old(self).streams@.dom().contains(s) ==> #[trigger] final(self).streams@.dom().contains(s)')]),
        Fn(SI, 'keep_alive', props=['C10'], requires=['old(self).inv()'], rules=[('self . pings . iter ( ) . any ( $c )', 'self . pings . overdue ( )')],
           ensures=[sup('framed_stream', 'write_pending_frames', 'ping_id', 'pings'), inv, got,
             'ret is Ok && !old(self).dead() ==> final(self).out() =~= old(self).out().push(final(self).out().last()) && final(self).out().last().header.ty == Type::Ping && final(self).out().last().header.flags.0 == 1']),
        Fn(SI, 'create_stream', props=['C07', 'C08', 'C09', 'C06'], requires=['old(self).inv()'],
           ensures=[sup('next_stream_id', 'streams'), inv,
             (['C07'], 'ret is Ok ==> ret->Ok_0.id == (if stream_id is Some { stream_id->Some_0 } else { old(self).next_stream_id })'),
             (['C07'], 'stream_id is Some ==> final(self).next_stream_id == old(self).next_stream_id'),
             (['C07'], 'final(self).next_stream_id >= old(self).next_stream_id'),
             (['C07'], 'ret is Ok && stream_id is None ==> final(self).next_stream_id == old(self).next_stream_id + 2'),
             (['C07'], 'stream_id is None && old(self).next_stream_id + 2 > u32::MAX ==> ret is Err && final(self).next_stream_id == old(self).next_stream_id'),
             (['C07', 'C08'], 'ret is Ok ==> !old(self).streams@.dom().contains(ret->Ok_0.id) && final(self).streams@.dom().contains(ret->Ok_0.id) && final(self).streams@ == old(self).streams@.insert(ret->Ok_0.id, final(self).streams@[ret->Ok_0.id]) && final(self).streams@[ret->Ok_0.id].log() == Seq::<Frame>::empty()'),
             (['C08', 'C09'], 'ret is Err ==> final(self).streams@ == old(self).streams@'),
             (['C09'], 'stream_id is Some ==> (ret is Err <==> old(self).streams@.dom().contains(stream_id->Some_0))'),
             (['C06'], 'ret is Ok ==> ret->Ok_0.state == if stream_id is Some { StreamState::Established } else { StreamState::SynSent }'),
             (['C03', 'C04'], 'ret is Ok ==> ret->Ok_0.rinv() && ret->Ok_0.max_recv_window == old(self).config.max_stream_window_size && ret->Ok_0.send_window == old(self).config.max_stream_window_size'),
           ], proof=''),
        Fn(SI, 'distribute_to_substream', props=['C08', 'C09', 'C07'], requires=['old(self).inv()'], opts='#[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(200)]',
           rules=[('for $idf in buf {', 'let mut buf = buf ; while let Some ( $idf ) = buf . pop_front ( ) {'), (':: std :: mem :: replace', 'std :: mem :: replace')],
           ensures=[sup('framed_stream', 'write_pending_frames', 'read_pending_frames', 'streams', 'pending_streams', 'local_go_away', 'keepalive'), inv, got, 'old(self).local_go_away ==> final(self).local_go_away',
             (['C07'], 'final(self).next_stream_id == old(self).next_stream_id'),
             (['C08'], '''ret is Ok ==> forall|s: u32| #![trigger final(self).streams@.dom().contains(s)] final(self).streams@.dom().contains(s) && no_syn(flt(old(self).read_pending_frames@, s), if old(self).streams@.dom().contains(s) { 0 } else { 1 })
                  ==> lg(final(self).streams@, s) + flt(final(self).read_pending_frames@, s) =~= lg(old(self).streams@, s) + flt(old(self).read_pending_frames@, s)'''),
             (['C09'], 'final(self).streams@.dom().len() <= old(self).streams@.dom().len() || final(self).streams@.dom().len() <= old(self).config.max_stream_count'),
             (['C09'], 'final(self).pending_streams@.len() <= old(self).pending_streams@.len() || final(self).pending_streams@.len() <= old(self).config.accept_backlog'),
             (['C09'], 'old(self).local_go_away ==> final(self).pending_streams@ == old(self).pending_streams@'),
             (['C09'], '''ret is Ok && !old(self).dead() && final(self).local_go_away == old(self).local_go_away ==> resets_for(old(self).out(), final(self).out(), old(self).read_pending_frames@)
                  && syns(old(self).read_pending_frames@) - syns(final(self).read_pending_frames@) <= final(self).pending_streams@.len() - old(self).pending_streams@.len() + final(self).out().len() - old(self).out().len() <= syns(old(self).read_pending_frames@)'''),
           ],
           proof='broadcast use vstd::std_specs::hash::group_hash_axioms; broadcast use sess::g_sess; let ghost s0 = *self; let ghost pp = self.read_pending_frames@;',
           loops=[Loop(invariant=DINV, ensures=['buf@.len() == 0'], start=DSTART, before=DBEFORE, end=DEND, after=DAFTER)]),
        Fn(SI, 'handle_stream_message', props=['C08', 'C09'], requires=['old(self).inv()', 'frame.wf()'],
           ensures=[sup('framed_stream', 'write_pending_frames', 'read_pending_frames', 'streams', 'pending_streams', 'local_go_away', 'keepalive'), inv, got, 'old(self).local_go_away ==> final(self).local_go_away',
             (['C07'], 'final(self).next_stream_id == old(self).next_stream_id'),
             (['C08'], '''ret is Ok ==> forall|s: u32| #![trigger final(self).streams@.dom().contains(s)] final(self).streams@.dom().contains(s) && no_syn(flt(old(self).read_pending_frames@.push(frame), s), if old(self).streams@.dom().contains(s) { 0 } else { 1 })
                  ==> lg(final(self).streams@, s) + flt(final(self).read_pending_frames@, s) =~= lg(old(self).streams@, s) + flt(old(self).read_pending_frames@.push(frame), s)'''),
             (['C09'], 'final(self).streams@.dom().len() <= old(self).streams@.dom().len() || final(self).streams@.dom().len() <= old(self).config.max_stream_count'),
             (['C09'], 'final(self).pending_streams@.len() <= old(self).pending_streams@.len() || final(self).pending_streams@.len() <= old(self).config.accept_backlog')]),
        Fn(SI, 'handle_ping', props=['C10'], requires=['old(self).inv()', 'frame.wf()'],
           ensures=[sup('framed_stream', 'write_pending_frames', 'ping_id', 'pings'), inv, got,
             (['C10'], 'ret is Ok && !old(self).dead() && has(frame.header.flags, 1) ==> final(self).out() =~= old(self).out().push(final(self).out().last()) && pong(final(self).out().last(), frame.header.length)'),
             (['C10'], 'ret is Ok && !old(self).dead() && has(frame.header.flags, 1) == false ==> final(self).out() =~= old(self).out()')]),
        Fn(SI, 'handle_go_away', props=['C09'], requires=['old(self).inv()', 'frame.wf()'], pre=[inline_closure('close')],
           ensures=[sup('framed_stream', 'write_pending_frames', 'local_go_away', 'remote_go_away', 'keepalive'), inv, got, 'final(self).remote_go_away', 'ret is Ok ==> final(self).dead()', 'old(self).local_go_away ==> final(self).local_go_away']),
        Fn(SI, 'handle_frame', props=Z, requires=['old(self).inv()', 'frame.wf()'],
           ensures=[inv, got] + KEEP + ['old(self).local_go_away ==> final(self).local_go_away', 'old(self).remote_go_away ==> final(self).remote_go_away', 'final(self).eof == old(self).eof',
             (['C09'], 'ret is Ok && frame.header.ty == Type::GoAway ==> final(self).dead()'), (['C09'], 'frame.header.ty != Type::GoAway ==> final(self).remote_go_away == old(self).remote_go_away'),
             (['C10'], '''ret is Ok && !old(self).dead() && frame.header.ty == Type::Ping ==> if has(frame.header.flags, 1) { final(self).out() =~= old(self).out().push(final(self).out().last()) && pong(final(self).out().last(), frame.header.length) } else { final(self).out() =~= old(self).out() }'''),
             (['C10'], 'frame.header.ty == Type::Ping ==> final(self).streams == old(self).streams && final(self).read_pending_frames == old(self).read_pending_frames && final(self).pending_streams == old(self).pending_streams && final(self).local_go_away == old(self).local_go_away'),
             (['C08'], '''ret is Ok && (frame.header.ty == Type::Data || frame.header.ty == Type::WindowUpdate) ==> forall|s: u32| #![trigger final(self).streams@.dom().contains(s)] final(self).streams@.dom().contains(s) && no_syn(flt(old(self).read_pending_frames@.push(frame), s), if old(self).streams@.dom().contains(s) { 0 } else { 1 })
                  ==> lg(final(self).streams@, s) + flt(final(self).read_pending_frames@, s) =~= lg(old(self).streams@, s) + flt(old(self).read_pending_frames@.push(frame), s)'''),
             (['C09'], 'final(self).streams@.dom().len() <= old(self).streams@.dom().len() || final(self).streams@.dom().len() <= old(self).config.max_stream_count'),
             (['C09'], 'final(self).pending_streams@.len() <= old(self).pending_streams@.len() || final(self).pending_streams@.len() <= old(self).config.accept_backlog')]),
        Fn(SI, 'flush', props=['C08', 'C09'], requires=['old(self).inv()'],
           ensures=[inv, got, 'old(self).local_go_away ==> final(self).local_go_away', 'final(self).remote_go_away == old(self).remote_go_away', 'final(self).eof == old(self).eof'] + KEEP + [
             (['C08'], '''ret is Ok ==> forall|s: u32| #![trigger final(self).streams@.dom().contains(s)] final(self).streams@.dom().contains(s) && no_syn(flt(old(self).read_pending_frames@, s), if old(self).streams@.dom().contains(s) { 0 } else { 1 })
                  ==> lg(final(self).streams@, s) + flt(final(self).read_pending_frames@, s) =~= lg(old(self).streams@, s) + flt(old(self).read_pending_frames@, s)'''),
             (['C09'], 'final(self).streams@.dom().len() <= old(self).streams@.dom().len() || final(self).streams@.dom().len() <= old(self).config.max_stream_count'),
             (['C09'], 'final(self).pending_streams@.len() <= old(self).pending_streams@.len() || final(self).pending_streams@.len() <= old(self).config.accept_backlog')]),
        Fn(SI, 'recv_frames', props=Z, requires=['old(self).inv()'], rules=pq,
           ensures=[inv, 'old(self).local_go_away ==> final(self).local_go_away', 'old(self).remote_go_away ==> final(self).remote_go_away', 'old(self).eof ==> final(self).eof'] + KEEP + [
             (['C10', 'C08'], '''match ret { Poll::Ready(Some(Ok(_))) => final(self).framed_stream.got() =~= old(self).framed_stream.got().push(final(self).framed_stream.got().last()) && ({ let f = final(self).framed_stream.got().last();
                  &&& !old(self).dead() && f.header.ty == Type::Ping ==> if has(f.header.flags, 1) { final(self).out() =~= old(self).out().push(final(self).out().last()) && pong(final(self).out().last(), f.header.length) } else { final(self).out() =~= old(self).out() }
                  &&& (f.header.ty == Type::Data || f.header.ty == Type::WindowUpdate) ==> forall|s: u32| #![trigger final(self).streams@.dom().contains(s)] final(self).streams@.dom().contains(s) && no_syn(flt(old(self).read_pending_frames@.push(f), s), if old(self).streams@.dom().contains(s) { 0 } else { 1 })
                     ==> lg(final(self).streams@, s) + flt(final(self).read_pending_frames@, s) =~= lg(old(self).streams@, s) + flt(old(self).read_pending_frames@.push(f), s)
                  &&& f.header.ty == Type::GoAway ==> final(self).dead() }),
                Poll::Ready(None) => final(self).eof, _ => true }'''),
             (['C09'], 'final(self).streams@.dom().len() <= old(self).streams@.dom().len() || final(self).streams@.dom().len() <= old(self).config.max_stream_count'),
             (['C09'], 'final(self).pending_streams@.len() <= old(self).pending_streams@.len() || final(self).pending_streams@.len() <= old(self).config.accept_backlog')]),
        Fn(SI, 'handle_event', props=['C08', 'C09', 'C07'], requires=['old(self).inv()', 'event is Frame ==> event->Frame_0.wf()'],
           ensures=[inv, got, sup('framed_stream', 'write_pending_frames', 'streams', 'local_go_away', 'keepalive'), 'old(self).local_go_away ==> final(self).local_go_away',
             (['C08'], 'ret is Ok && !old(self).dead() && event is Frame ==> final(self).out() =~= old(self).out().push(event->Frame_0) && final(self).streams == old(self).streams'),
             (['C08', 'C09'], 'event is Closed ==> final(self).streams@ == old(self).streams@.remove(event->Closed_0) && final(self).out() == old(self).out()'),
             (['C08'], '!(event is Closed) ==> final(self).streams == old(self).streams')]),
        Fn(SI, 'recv_events', props=['C08', 'C09'], requires=['old(self).inv()'], rules=pq,
           ensures=[inv, got, 'old(self).local_go_away ==> final(self).local_go_away', 'final(self).remote_go_away == old(self).remote_go_away', 'final(self).eof == old(self).eof', 'final(self).pending_streams == old(self).pending_streams', 'final(self).read_pending_frames == old(self).read_pending_frames',
             (['C08'], 'forall|s: u32| final(self).streams@.dom().contains(s) ==> old(self).streams@.dom().contains(s) && #[trigger] final(self).streams@[s] == old(self).streams@[s]'),
             (['C09'], 'final(self).streams@.dom().len() <= old(self).streams@.dom().len()')] + KEEP),
        Fn(SI, 'control_poll', props=['C07', 'C09'], requires=['old(self).inv()'], rules=pq,
           ensures=[inv, got, 'old(self).local_go_away ==> final(self).local_go_away', 'final(self).remote_go_away == old(self).remote_go_away', 'final(self).eof == old(self).eof', 'final(self).pending_streams == old(self).pending_streams', 'final(self).read_pending_frames == old(self).read_pending_frames',
             (['C07'], 'final(self).next_stream_id >= old(self).next_stream_id'), 'final(self).ty == old(self).ty && final(self).config == old(self).config',
             (['C09'], 'old(self).remote_go_away ==> final(self).streams == old(self).streams && final(self).next_stream_id == old(self).next_stream_id'),
             (['C08'], 'forall|s: u32| #![trigger final(self).streams@.dom().contains(s)] #![trigger final(self).streams@[s]] old(self).streams@.dom().contains(s) ==> final(self).streams@.dom().contains(s) && final(self).streams@[s] == old(self).streams@[s]')]),
        Fn(SN, 'poll_next', props=Z, requires=['old(self).inv()'], rules=pq, sig='pub fn poll_next(&mut self, cx: &mut Context) -> (ret: Poll<Option<Result<StreamHandle, io::Error>>>)',
           ensures=[inv, 'final(self).ty == old(self).ty && final(self).config == old(self).config', (['C07'], 'final(self).next_stream_id >= old(self).next_stream_id'),
             (['C09'], 'old(self).dead() ==> (match ret { Poll::Ready(None) => true, _ => false }) && *final(self) == *old(self)'),
             (['C09'], 'final(self).pending_streams@.len() <= old(self).pending_streams@.len() || final(self).pending_streams@.len() <= old(self).config.accept_backlog')],
           proof='let ghost s0 = *self;',
           loops=[Loop(invariant=['self.inv()', 'self.ty == s0.ty && self.config == s0.config', 'self.next_stream_id >= s0.next_stream_id', 's0 == *old(self)', '!s0.dead()', 'self.pending_streams@.len() <= s0.pending_streams@.len() || self.pending_streams@.len() <= s0.config.accept_backlog'])]),
    ])
    for part in u.parts:
        if part[0] == 'fn' and part[1] in (ST,):
            part[2].proof = 'broadcast use hist::g_push; ' + part[2].proof
    u.text(FOOT)
    return u
