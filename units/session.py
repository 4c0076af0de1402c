"""The session between the service and the protocol streams: messages passed on (C20, C22), protocol streams opened (C19, C22, C23)."""
from vx import Unit, Fn, Loop
from common import HEAD, BYTES, FOOT
import buffer

SE = 'tentacle/src/session.rs'
PF = 'tentacle/src/protocol_select/mod.rs'
SU = 'tentacle/src/substream.rs'
CX = 'tentacle/src/context.rs'
CF = 'tentacle/src/service/config.rs'
CH = 'tentacle/src/channel/mod.rs'
PH = 'tentacle/src/protocol_handle_stream.rs'

PRE = r"""
pub type StreamId = usize;
pub type SessionId = usize;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct ProtocolId(pub usize);
pub type ErrorKind = io::ErrorKind;
pub const RECEIVED_SIZE: usize = 512;
pub const SEND_SIZE: usize = 512;
#[derive(Clone, Copy)]
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
#[derive(Clone, Copy)]
pub struct Opaque { pub x: usize }
#[derive(Clone, Copy)]
pub struct Duration { pub x: u64 }
#[derive(Clone, Copy)]
pub struct YamuxConfig { pub x: u64 }
impl YamuxConfig {
  pub fn default() -> YamuxConfig { YamuxConfig { x: 0 } }
}
#[verifier::external_body]
pub struct Multiaddr { x: usize }
#[verifier::external_body]
pub struct PublicKey { x: usize }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum SessionType { Outbound, Inbound }
#[verifier::external_body]
pub struct Counter { x: usize }
impl Counter {
  pub uninterp spec fn share(&self) -> nat;
  pub uninterp spec fn value(&self) -> nat;
  #[verifier::external_body]
  pub fn load(&self, o: Ordering) -> (r: usize) ensures r == self.value() { unimplemented!() }
}
#[verifier::external_body]
pub struct Flag { x: usize }
impl Flag {
  #[verifier::external_body]
  pub fn store(&mut self, b: bool, o: Ordering) { unimplemented!() }
  #[verifier::external_body]
  pub fn load(&self, o: Ordering) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
pub struct StringLike { x: usize }
#[verifier::external_body]
pub fn same_string(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
// a yamux stream: rest() is what it will still deliver
#[verifier::external_body]
pub struct StreamHandle { x: usize }
impl StreamHandle { pub uninterp spec fn rest(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct ReadHalf { x: usize }
impl ReadHalf { pub uninterp spec fn rest(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct WriteHalf { x: usize }
#[verifier::external_body]
pub fn split(s: StreamHandle) -> (r: (ReadHalf, WriteHalf)) ensures r.0.rest() == s.rest() { unimplemented!() }
#[verifier::external_body]
pub struct CodecBox { x: usize }
// the framed stream on which a protocol was negotiated: ahead() is everything not yet read by negotiation
#[verifier::external_body]
pub struct Negotiated { x: usize }
pub struct RawParts { pub io: StreamHandle, pub read_buf: BytesMut, pub write_buf: BytesMut }
impl Negotiated {
  pub uninterp spec fn ahead(&self) -> Seq<u8>;
  #[verifier::external_body]
  pub fn into_parts(self) -> (r: RawParts) ensures r.read_buf@ + r.io.rest() == self.ahead() { unimplemented!() }
}
pub struct FramedParts { pub io: StreamHandle, pub codec: CodecBox, pub read_buf: BytesMut, pub write_buf: BytesMut }
impl FramedParts {
  #[verifier::external_body]
  pub fn new(io: StreamHandle, codec: CodecBox) -> (r: FramedParts) ensures r.io == io, r.read_buf@.len() == 0, r.write_buf@.len() == 0 { unimplemented!() }
}
// the same stream with the protocol's own codec
#[verifier::external_body]
pub struct Wire { x: usize }
impl Wire {
  pub uninterp spec fn ahead(&self) -> Seq<u8>;
  #[verifier::external_body]
  pub fn from_parts(p: FramedParts) -> (r: Wire) ensures r.ahead() == p.read_buf@ + p.io.rest() { unimplemented!() }
}
#[verifier::external_body]
pub struct WriteWire { x: usize }
impl WriteWire {
  #[verifier::external_body]
  pub fn new(w: WriteHalf, c: CodecBox) -> WriteWire { unimplemented!() }
}
#[verifier::external_body]
pub struct ReadWire { x: usize }
impl ReadWire {
  pub uninterp spec fn ahead(&self) -> Seq<u8>;
  #[verifier::external_body]
  pub fn new(p: PatchedReadPart, c: CodecBox) -> (r: ReadWire) ensures r.ahead() == p.buffer@ + p.io.rest() { unimplemented!() }
}
#[verifier::external_body]
pub struct BeforeReceive { x: usize }
#[verifier::external_body]
pub struct MetaFn { x: usize }
impl MetaFn {
  #[verifier::external_body]
  pub fn codec(&self) -> CodecBox { unimplemented!() }
  #[verifier::external_body]
  pub fn before(&self) -> Option<BeforeReceive> { unimplemented!() }
  // the name closure of a protocol gives the same name whenever it is asked
  pub uninterp spec fn names(&self, id: ProtocolId) -> Seq<char>;
  #[verifier::external_body]
  pub fn name(&self, id: ProtocolId) -> (r: String) ensures r@ == self.names(id) { unimplemented!() }
  #[verifier::external_body]
  pub fn select(&self) -> Option<SelectFn> { unimplemented!() }
}
#[verifier::external_body]
pub struct SelectFn { x: usize }
pub open spec fn chars(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body]
pub fn clone_strings(v: &Vec<String>) -> (r: Vec<String>) ensures chars(r@) == chars(v@) { unimplemented!() }
#[verifier::external_body]
pub fn own_str(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
impl Meta { pub open spec fn called(&self) -> Seq<char> { self.name.names(self.id) } }
pub struct ProtocolSpawn { pub x: usize }
#[verifier::external_body]
pub struct NameMap { x: usize }
impl NameMap {
  pub uninterp spec fn view(&self) -> Map<Seq<char>, Meta>;
  #[verifier::external_body]
  pub fn get(&self, k: &String) -> (r: Option<&Meta>) ensures (r is Some) == self@.dom().contains(k@), r is Some ==> *r->Some_0 == self@[k@] { unimplemented!() }
  // indexing: panics without the entry
  #[verifier::external_body]
  pub fn at(&self, k: &String) -> (r: &Meta) requires self@.dom().contains(k@) ensures *r == self@[k@] { unimplemented!() }
  #[verifier::external_body]
  pub fn all(&self) -> (r: Vec<&Meta>) ensures forall|i: int| 0 <= i < r@.len() ==> exists|k: Seq<char>| #[trigger] self@.dom().contains(k) && *(#[trigger] r@[i]) == self@[k], forall|k: Seq<char>| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == self@[k] { unimplemented!() }
}
// name -> (what is offered, how a version is selected)
#[verifier::external_body]
pub struct Table { x: usize }
impl Table {
  pub uninterp spec fn view(&self) -> Map<Seq<char>, (ProtocolInfo, Option<SelectFn>)>;
  #[verifier::external_body]
  pub fn new() -> (r: Table) ensures r@ == Map::<Seq<char>, (ProtocolInfo, Option<SelectFn>)>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn add(&mut self, e: (String, (ProtocolInfo, Option<SelectFn>))) ensures final(self)@ == old(self)@.insert(e.0@, e.1) { unimplemented!() }
}
#[verifier::external_body]
pub struct IdMap { x: usize }
impl IdMap {
  pub uninterp spec fn view(&self) -> Map<ProtocolId, Meta>;
  // Option::map over the looked up entry: its name
  #[verifier::external_body]
  pub fn name_of(&self, k: &ProtocolId) -> (r: Option<String>) ensures (r is Some) == self@.dom().contains(*k), r is Some ==> r->Some_0@ == self@[*k].called() { unimplemented!() }
}
#[verifier::external_body]
pub struct ProtoSet { x: usize }
impl ProtoSet {
  pub uninterp spec fn view(&self) -> Set<ProtocolId>;
  #[verifier::external_body]
  pub fn contains(&self, k: &ProtocolId) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct SenderMap<T> { x: Vec<T> }
impl<T> SenderMap<T> {
  pub uninterp spec fn view(&self) -> Map<ProtocolId, Buffer<T>>;
  // get(..).cloned(): a clone of a buffer shares the channel and starts empty
  #[verifier::external_body]
  pub fn cloned(&self, k: &ProtocolId) -> (r: Option<Buffer<T>>) ensures (r is Some) == self@.dom().contains(*k), r is Some ==> r->Some_0.buffer@.len() == 0 { unimplemented!() }
}
#[verifier::external_body]
pub struct ProtoStreams { x: usize }
impl ProtoStreams {
  pub uninterp spec fn view(&self) -> Map<ProtocolId, StreamId>;
  #[verifier::external_body]
  pub fn contains_key(&self, k: &ProtocolId) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
  #[verifier::external_body]
  pub fn get(&self, k: &ProtocolId) -> (r: Option<&StreamId>) ensures (r is Some) == self@.dom().contains(*k), r is Some ==> *r->Some_0 == self@[*k] { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: ProtocolId, v: StreamId) -> (r: Option<StreamId>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &ProtocolId) -> (r: Option<StreamId>) ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::<ProtocolId>::empty()) { unimplemented!() }
  // mem::take followed by iteration over the keys
  #[verifier::external_body]
  pub fn take_keys(&mut self) -> (r: Vec<ProtocolId>) ensures final(self)@ == Map::<ProtocolId, StreamId>::empty(), r@.no_duplicates(), forall|k: ProtocolId| r@.contains(k) <==> #[trigger] old(self)@.dom().contains(k) { unimplemented!() }
}
"""
MAPS = r"""
#[verifier::external_body]
pub struct Streams { x: usize }
impl Streams {
  pub uninterp spec fn view(&self) -> Map<StreamId, PriorityBuffer<ProtocolEvent>>;
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::<StreamId>::empty()) { unimplemented!() }
  #[verifier::external_body]
  pub fn clear(&mut self) ensures final(self)@ == Map::<StreamId, PriorityBuffer<ProtocolEvent>>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: StreamId, v: PriorityBuffer<ProtocolEvent>) -> (r: Option<PriorityBuffer<ProtocolEvent>>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &StreamId) -> (r: Option<PriorityBuffer<ProtocolEvent>>) ensures final(self)@ == old(self)@.remove(*k), (r is Some) == old(self)@.dom().contains(*k) { unimplemented!() }
  #[verifier::external_body]
  pub fn get_mut<'a>(&'a mut self, k: &StreamId) -> (r: Option<&'a mut PriorityBuffer<ProtocolEvent>>)
    ensures match r { Some(p) => old(self)@.dom().contains(*k) && *p == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(p)), None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@ } { unimplemented!() }
  #[verifier::external_body]
  pub fn at<'a>(&'a mut self, k: StreamId) -> (r: &'a mut PriorityBuffer<ProtocolEvent>) requires old(self)@.dom().contains(k)
    ensures *r == old(self)@[k], final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
  // the keys, each once, in the map's own order
  #[verifier::external_body]
  pub fn ids(&self) -> (r: Vec<StreamId>) ensures r@.no_duplicates(), forall|k: StreamId| #![trigger r@.contains(k)] #![trigger self@.dom().contains(k)] r@.contains(k) <==> self@.dom().contains(k) { unimplemented!() }
}
// the receiving ends: got() is everything taken out
#[verifier::external_body]
pub struct EvReceiver { x: usize }
impl EvReceiver {
  pub uninterp spec fn got(&self) -> Seq<ProtocolEvent>;
  #[verifier::external_body]
  pub fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<ProtocolEvent>>) ensures match r { Poll::Ready(Some(e)) => final(self).got() == old(self).got().push(e), _ => final(self).got() == old(self).got() } { unimplemented!() }
  #[verifier::external_body]
  pub fn close(&mut self) ensures final(self).got() == old(self).got() { unimplemented!() }
}
#[verifier::external_body]
pub struct TaskReceiver { x: usize }
impl TaskReceiver {
  pub uninterp spec fn got(&self) -> Seq<(Priority, SessionEvent)>;
  #[verifier::external_body]
  pub fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<(Priority, SessionEvent)>>) ensures match r { Poll::Ready(Some(e)) => final(self).got() == old(self).got().push(e), _ => final(self).got() == old(self).got() } { unimplemented!() }
  #[verifier::external_body]
  pub fn close(&mut self) ensures final(self).got() == old(self).got() { unimplemented!() }
}
#[verifier::external_body]
pub struct Receiver { x: usize }
impl Receiver { pub uninterp spec fn chan(&self) -> int; }
#[verifier::external_body]
pub fn channel(n: usize) -> (r: (PrioritySender<ProtocolEvent>, Receiver)) ensures r.0.chan() == r.1.chan(), r.0.log() == Seq::<(bool, ProtocolEvent)>::empty() { unimplemented!() }
impl SessionContext {
  #[verifier::external_body]
  pub fn clone(&self) -> (r: SessionContext) ensures r.id == self.id, r.ty == self.ty, r.remote_pubkey == self.remote_pubkey, r.address == self.address, r.pending_data_size.share() == 0 { unimplemented!() }
}
// yamux handle; closing it is not specified here
#[verifier::external_body]
pub struct Control { x: usize }
impl Control {
  #[verifier::external_body]
  pub fn clone(&self) -> Control { unimplemented!() }
  #[verifier::external_body]
  pub fn open_stream(&self) -> Result<StreamHandle, Opaque> { unimplemented!() }
  #[verifier::external_body]
  pub fn close(&mut self) { unimplemented!() }
}
#[verifier::external_body]
pub struct Handles { x: usize }
impl Handles {
  // the user's session handles that were not joined yet
  pub uninterp spec fn left(&self) -> nat;
  #[verifier::external_body]
  pub fn push(&mut self, e: (Option<Stop>, Join)) ensures final(self).left() == old(self).left() + 1 { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self.left() == 0) { unimplemented!() }
  // the list, which is left empty
  #[verifier::external_body]
  pub fn taken(&mut self) -> (r: Handles) ensures final(self).left() == 0, r.left() == old(self).left() { unimplemented!() }
  #[verifier::external_body]
  pub fn first(&mut self) -> (r: (Option<Stop>, Join)) requires old(self).left() > 0 ensures final(self).left() == old(self).left() - 1 { unimplemented!() }
}
pub struct Stop { pub x: usize }
pub struct Join { pub x: usize }
impl Stop {
  #[verifier::external_body]
  pub fn send(self, x: ()) -> Opaque { unimplemented!() }
}
impl Join {
  #[verifier::external_body]
  pub fn poll_unpin(&mut self, cx: &mut Context) -> Poll<Opaque> { unimplemented!() }
}
#[verifier::external_body]
pub struct TaskSender { x: usize }
impl TaskSender {
  #[verifier::external_body]
  pub fn clone(&self) -> TaskSender { unimplemented!() }
}
pub struct Elapsed { pub x: usize }
// a negotiation (client_select or server_select, unit `negotiate`) and how it ends
#[verifier::external_body]
pub struct Procedure { x: usize }
pub type Selected = Result<(Negotiated, String, Option<String>), io::Error>;
impl Procedure {
  pub uninterp spec fn outcome(&self) -> Selected;
  // it ends before the span of time has passed
  pub uninterp spec fn in_time(&self, t: Duration) -> bool;
  // an async block: a function that is called once, later
  #[verifier::external_body]
  pub fn of<F: FnOnce() -> Selected>(f: F) -> (r: Procedure) requires f.requires(()) ensures f.ensures((), r.outcome()) { unimplemented!() }
}
// the two ends of a negotiation (unit `negotiate`): what client_select / server_select promise about a successful one
pub uninterp spec fn dialled(r: (Negotiated, String, Option<String>), name: Seq<char>, versions: Seq<Seq<char>>) -> bool;
pub uninterp spec fn served(r: (Negotiated, String, Option<String>), t: Map<Seq<char>, (ProtocolInfo, Option<SelectFn>)>) -> bool;
#[verifier::external_body]
pub fn client_select(h: StreamHandle, i: ProtocolInfo) -> (r: Selected) ensures r is Ok ==> dialled(r->Ok_0, i.name@, chars(i.support_versions@)) { unimplemented!() }
#[verifier::external_body]
pub fn server_select(h: StreamHandle, t: Table) -> (r: Procedure) ensures r.outcome() is Ok ==> served(r.outcome()->Ok_0, t@) { unimplemented!() }
// it either runs to its end or is stopped by the timer
#[verifier::external_body]
pub fn run_for(t: Duration, p: Procedure) -> (r: Result<Result<(Negotiated, String, Option<String>), io::Error>, Elapsed>) ensures (r is Ok) == p.in_time(t), r is Ok ==> r->Ok_0 == p.outcome() { unimplemented!() }
// what is to be done once a span of time has passed
pub struct Timers { pub x: usize }
pub struct Planned { pub to: Ghost<int>, pub what: ProtocolEvent }
impl Timers {
  // span, channel and event
  pub uninterp spec fn set(&self) -> Seq<(Duration, int, ProtocolEvent)>;
  pub uninterp spec fn waited(&self) -> Option<Duration>;
  #[verifier::external_body]
  pub fn wait(&mut self, t: Duration) ensures final(self).pumps() == old(self).pumps(), final(self).set() == old(self).set(), final(self).waited() == Some(t) { unimplemented!() }
  #[verifier::external_body]
  pub fn run(&mut self, p: Planned) -> bool ensures final(self).pumps() == old(self).pumps(), old(self).waited() matches Some(t) ==> final(self).set() == old(self).set().push((t, p.to@, p.what)), old(self).waited() is None ==> final(self).set() == old(self).set(), final(self).waited() == old(self).waited() { unimplemented!() }
}
pub fn planned(s: &Sender<ProtocolEvent>, e: ProtocolEvent) -> (r: Planned) ensures r.to@ == s.line(), r.what == e { Planned { to: Ghost(s.line()), what: e } }
impl Sender<ProtocolEvent> { pub uninterp spec fn line(&self) -> int; #[verifier::external_body] pub fn twin(&self) -> (r: Sender<ProtocolEvent>) ensures r == *self { unimplemented!() } }
impl EvReceiver { pub uninterp spec fn line(&self) -> int; }
// what the session starts: reads() / writes() of the started ends of protocol streams
pub struct Reads { pub id: StreamId, pub proto: ProtocolId, pub ahead: Seq<u8> }
pub struct Writes { pub id: StreamId, pub proto: ProtocolId, pub chan: int }
pub trait Job { spec fn reads(&self) -> Seq<Reads>; spec fn writes(&self) -> Seq<Writes>; }
impl Job for Substream {
  open spec fn reads(&self) -> Seq<Reads> { seq![Reads { id: self.id, proto: self.proto_id, ahead: self.substream.ahead() }] }
  open spec fn writes(&self) -> Seq<Writes> { seq![Writes { id: self.id, proto: self.proto_id, chan: self.event_receiver.chan() }] }
}
impl Job for SubstreamWritePart {
  open spec fn reads(&self) -> Seq<Reads> { Seq::empty() }
  open spec fn writes(&self) -> Seq<Writes> { seq![Writes { id: self.id, proto: self.proto_id, chan: self.event_receiver.chan() }] }
}
impl Job for SubstreamReadPart {
  open spec fn reads(&self) -> Seq<Reads> { seq![Reads { id: self.stream_id, proto: self.proto_id, ahead: self.substream.ahead() }] }
  open spec fn writes(&self) -> Seq<Writes> { Seq::empty() }
}
#[verifier::external_body]
pub struct ServiceControl { x: usize }
impl ServiceControl {
  pub uninterp spec fn reads(&self) -> Seq<Reads>;
  pub uninterp spec fn writes(&self) -> Seq<Writes>;
  // results of negotiations handed back to the session
  pub uninterp spec fn back(&self) -> Seq<ProtocolEvent>;
  #[verifier::external_body]
  pub fn send_back(&mut self, e: ProtocolEvent) -> (r: Result<(), io::Error>) ensures final(self).back() == old(self).back().push(e), final(self).reads() == old(self).reads(), final(self).writes() == old(self).writes(), final(self).parting() == old(self).parting() { unimplemented!() }
  // event lists handed to the service by a background task
  pub uninterp spec fn parting(&self) -> Seq<Seq<SessionEvent>>;
  #[verifier::external_body]
  pub fn run<J: Job>(&mut self, j: J) ensures final(self).reads() == old(self).reads() + j.reads(), final(self).writes() == old(self).writes() + j.writes(), final(self).parting() == old(self).parting(), final(self).back() == old(self).back() { unimplemented!() }
  #[verifier::external_body]
  pub fn pass_all(&mut self, s: Sender<SessionEvent>, e: VecDeque<SessionEvent>) -> (r: Result<(), io::Error>) ensures final(self).reads() == old(self).reads(), final(self).writes() == old(self).writes(), final(self).parting() == old(self).parting().push(e@), final(self).back() == old(self).back() { unimplemented!() }
}
"""
FRESH = """
impl Streams {
  #[verifier::external_body]
  pub fn none() -> (r: Streams) ensures r@ == Map::<StreamId, PriorityBuffer<ProtocolEvent>>::empty() { unimplemented!() }
}
impl ProtoStreams {
  #[verifier::external_body]
  pub fn none() -> (r: ProtoStreams) ensures r@ == Map::<ProtocolId, StreamId>::empty() { unimplemented!() }
}
impl NameMap {
  #[verifier::external_body]
  pub fn none() -> (r: NameMap) ensures r@ == Map::<Seq<char>, Meta>::empty() { unimplemented!() }
}
impl IdMap {
  #[verifier::external_body]
  pub fn none() -> (r: IdMap) ensures r@ == Map::<ProtocolId, Meta>::empty() { unimplemented!() }
}
impl<T> SenderMap<T> {
  #[verifier::external_body]
  pub fn none() -> (r: SenderMap<T>) ensures r@ == Map::<ProtocolId, Buffer<T>>::empty() { unimplemented!() }
}
impl ProtoSet {
  #[verifier::external_body]
  pub fn none() -> (r: ProtoSet) ensures r@ == Set::<ProtocolId>::empty() { unimplemented!() }
}
impl Handles { #[verifier::external_body] pub fn none() -> Handles { unimplemented!() } }
// the multiplexer under the session (unit `ymux`)
#[verifier::external_body]
pub struct YamuxSession { x: usize }
impl YamuxSession {
  pub uninterp spec fn ctl(&self) -> Control;
  #[verifier::external_body]
  pub fn new(socket: Opaque, c: YamuxConfig, ty: SessionType) -> YamuxSession { unimplemented!() }
  #[verifier::external_body]
  pub fn control(&self) -> (r: Control) ensures r == self.ctl() { unimplemented!() }
  // the streams the peer opened
  pub uninterp spec fn came(&self) -> Seq<StreamHandle>;
  // ended without an error
  pub uninterp spec fn over(&self) -> bool;
  #[verifier::external_body]
  pub fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<Result<StreamHandle, io::Error>>>)
    ensures match r { Poll::Ready(Some(Ok(s))) => final(self).came() == old(self).came().push(s), _ => final(self).came() == old(self).came() }, final(self).over() == (r matches Poll::Ready(None)), final(self).ctl() == old(self).ctl() { unimplemented!() }
}
impl PrioritySender<SessionEvent> {
  // sent ahead by a task of its own, which waits for room
  #[verifier::external_body]
  pub fn post(&mut self, e: SessionEvent) -> (r: Result<(), io::Error>) ensures final(self).chan() == old(self).chan(), final(self).log() == old(self).log().push((true, e)) { unimplemented!() }
}
impl Timers {
  // the tasks that run a multiplexer
  pub uninterp spec fn pumps(&self) -> Seq<InnerSocket>;
  #[verifier::external_body]
  pub fn pump(&mut self, i: InnerSocket) ensures final(self).pumps() == old(self).pumps().push(i), final(self).set() == old(self).set(), final(self).waited() == old(self).waited() { unimplemented!() }
}
#[verifier::external_body]
pub fn ev_channel(n: usize) -> (r: (Sender<ProtocolEvent>, EvReceiver)) ensures r.0.line() == r.1.line() { unimplemented!() }
"""
SPEC = r"""
// what an event on a protocol stream says
pub enum Note { Msg(StreamId, ProtocolId, Seq<u8>), Other }
pub open spec fn note(e: ProtocolEvent) -> Note { match e { ProtocolEvent::Message { id, proto_id, data } => Note::Msg(id, proto_id, data@), _ => Note::Other } }
pub open spec fn notes(s: Seq<ProtocolEvent>) -> Seq<Note> { Seq::new(s.len(), |i: int| note(s[i])) }
pub open spec fn tnotes(s: Seq<(bool, ProtocolEvent)>) -> Seq<(bool, Note)> { Seq::new(s.len(), |i: int| (s[i].0, note(s[i].1))) }
impl<T> PriorityBuffer<T> {
  // the receiver is gone and nothing is kept for it
  pub open spec fn over(&self) -> bool { self.sender.gone() && self.waiting().len() == 0 }
  pub open spec fn kept(&self, o: &PriorityBuffer<T>) -> bool { self.sender.chan() == o.sender.chan() && prefix(o.sender.log(), self.sender.log()) && (self.all() =~= o.all() || self.over()) }
}
impl PriorityBuffer<ProtocolEvent> {
  // everything passed on and waiting after one more message
  pub open spec fn with(&self, high: bool, n: Note) -> Seq<(bool, Note)> {
    let h = notes(self.high_buffer@); let l = notes(self.normal_buffer@);
    tnotes(self.sender.log()) + tag(if high { h.push(n) } else { h }, true) + tag(if high { l } else { l.push(n) }, false)
  }
  pub open spec fn gained(&self, o: &PriorityBuffer<ProtocolEvent>, high: bool, n: Note) -> bool { self.sender.chan() == o.sender.chan() && prefix(o.sender.log(), self.sender.log()) && (tnotes(self.all()) =~= o.with(high, n) || self.over()) }
}
pub broadcast proof fn kept_longer(a: Seq<Writes>, b: Seq<Writes>, w: Writes) requires a.contains(w) ensures #[trigger] (a + b).contains(w) { let i = choose|i: int| 0 <= i < a.len() && a[i] == w; assert((a + b)[i] == w); }
pub broadcast proof fn last_in(a: Seq<Writes>, w: Writes) ensures #[trigger] (a + seq![w]).contains(w) { assert((a + seq![w])[a.len() as int] == w); }
pub open spec fn same<T>(a: Map<StreamId, PriorityBuffer<T>>, b: Map<StreamId, PriorityBuffer<T>>) -> bool {
  a.dom() =~= b.dom() && forall|k: StreamId| #[trigger] b.dom().contains(k) ==> a[k].kept(&b[k])
}
// a message event for protocol p is put on the stream of p once, whole and with its priority, and on no other stream
pub open spec fn delivered(a: Session, b: Session, p: ProtocolId, high: bool, d: Seq<u8>) -> bool {
  if b.proto_streams@.dom().contains(p) && b.substreams@.dom().contains(b.proto_streams@[p]) {
    let k = b.proto_streams@[p];
    &&& a.substreams@.dom() =~= b.substreams@.dom()
    &&& a.substreams@[k].gained(&b.substreams@[k], high, Note::Msg(k, p, d))
    &&& forall|x: StreamId| #[trigger] b.substreams@.dom().contains(x) && x != k ==> a.substreams@[x] == b.substreams@[x]
  } else { a.substreams@ =~= b.substreams@ }
}
// everything handed to the service so far, in order; over: the service is gone
pub open spec fn told(a: Buffer<SessionEvent>, b: Buffer<SessionEvent>, e: Seq<SessionEvent>) -> bool { prefix(b.sender.log(), a.sender.log()) && (a.all() =~= b.all() + e || (a.sender.gone() && a.buffer@.len() == 0)) }
impl SessionMeta { pub open spec fn listed(&self) -> bool { forall|p: ProtocolId| #[trigger] self.protocol_configs_by_id@.dom().contains(p) ==> self.protocol_configs_by_name@.dom().contains(self.protocol_configs_by_id@[p].called()) } }
impl Session {
  // every protocol that can be opened by its id is there by its name
  pub open spec fn listed(&self) -> bool { forall|p: ProtocolId| #[trigger] self.protocol_configs_by_id@.dom().contains(p) ==> self.protocol_configs_by_name@.dom().contains(self.protocol_configs_by_id@[p].called()) }
  pub open spec fn named(&self) -> bool { forall|n: Seq<char>| #[trigger] self.protocol_configs_by_name@.dom().contains(n) ==> self.protocol_configs_by_name@[n].called() == n }
  // the table a remote opener is answered from: every protocol of this session with its versions, and nothing else
  pub open spec fn offers(&self, t: Map<Seq<char>, (ProtocolInfo, Option<SelectFn>)>) -> bool {
    t.dom() =~= self.protocol_configs_by_name@.dom() && forall|n: Seq<char>| #[trigger] t.dom().contains(n) ==> t[n].0.name@ == n && chars(t[n].0.support_versions@) == chars(self.protocol_configs_by_name@[n].support_versions@)
  }
  pub open spec fn asked(&self, o: &Session) -> bool { self.service_control.reads() == o.service_control.reads() && self.service_control.writes() == o.service_control.writes() && self.service_control.parting() == o.service_control.parting() && self.service_control.back().len() == o.service_control.back().len() + 1 && self.service_control.back().drop_last() =~= o.service_control.back() }
  pub open spec fn routed(&self) -> bool {
    &&& self.listed()
    &&& forall|k: StreamId| #[trigger] self.substreams@.dom().contains(k) ==> k < self.next_stream
    &&& forall|p: ProtocolId| #[trigger] self.proto_streams@.dom().contains(p) ==> self.proto_streams@[p] < self.next_stream
    &&& forall|p: ProtocolId| #[trigger] self.proto_streams@.dom().contains(p) && self.substreams@.dom().contains(self.proto_streams@[p]) ==> self.writer(p)
  }
  // the stream a protocol's messages are put on is read by the end that was started for this protocol
  pub open spec fn writer(&self, p: ProtocolId) -> bool { self.service_control.writes().contains(Writes { id: self.proto_streams@[p], proto: p, chan: self.substreams@[self.proto_streams@[p]].sender.chan() }) }
  pub open spec fn quiet(&self, o: &Session) -> bool { self.context.pending_data_size == o.context.pending_data_size && self.context.id == o.context.id && self.config == o.config && self.keep_buffer == o.keep_buffer && self.protocol_configs_by_name == o.protocol_configs_by_name && self.protocol_configs_by_id == o.protocol_configs_by_id && self.event == o.event }
  pub open spec fn still(&self, o: &Session) -> bool { self.service_control.reads() == o.service_control.reads() && self.service_control.writes() == o.service_control.writes() && self.proto_streams == o.proto_streams && self.next_stream == o.next_stream }
  pub open spec fn gots(&self, o: &Session) -> bool { self.service_receiver.got() == o.service_receiver.got() && self.proto_event_receiver.got() == o.proto_event_receiver.got() }
  // the protocol stream n was negotiated on starts, with all it has not read yet, as the next stream of this protocol
  pub open spec fn opened(&self, o: &Session, name: Seq<char>, n: Seq<u8>) -> bool {
    let m = o.protocol_configs_by_name@[name]; let k = o.next_stream;
    &&& self.proto_streams@ =~= o.proto_streams@.insert(m.id, k)
    &&& self.substreams@.dom() =~= o.substreams@.dom().insert(k)
    &&& self.substreams@[k].waiting().len() == 0 && self.substreams@[k].sender.log().len() == 0
    &&& forall|x: StreamId| #[trigger] o.substreams@.dom().contains(x) && x != k ==> self.substreams@[x] == o.substreams@[x]
    &&& self.service_control.reads() =~= o.service_control.reads().push(Reads { id: k, proto: m.id, ahead: n })
    &&& self.service_control.writes() =~= o.service_control.writes().push(Writes { id: k, proto: m.id, chan: self.substreams@[k].sender.chan() })
    &&& self.next_stream == k + 1
  }
  pub open spec fn opens(&self, name: Seq<char>) -> bool { self.protocol_configs_by_name@.dom().contains(name) && !self.proto_streams@.dom().contains(self.protocol_configs_by_name@[name].id) }
}
"""

def build(root='/repo'):
    u = Unit('session', root)
    P, R, N, Q, T, BP = ['C22'], ['C23'], ['C19'], ['C20'], ['C31'], []   # BP: counted in the units substream and buffer
    for a, b, w in [('Box < Framed < StreamHandle , LengthDelimitedCodec > >', 'Negotiated', 'negotiated stream with an assumed contract'), ('Box < dyn AsyncRW + Send + Unpin + \'static >', 'Opaque', 'transport, not read here'), ('MultiIncoming', 'Opaque', 'listener, not read here'),
                    ('TransportErrorKind', 'Opaque', 'error values'), ('HandshakeErrorKind', 'Opaque', 'error values'), ('ProtocolHandleErrorKind', 'Opaque', 'error values'), ('bytes :: BytesMut', 'BytesMut', ''), ('bytes :: Bytes', 'Bytes', ''), ('std :: io :: Error', 'io :: Error', ''),
                    ('Arc < AtomicUsize >', 'Counter', 'shared atomic counter'), ('Arc < AtomicBool >', 'Flag', 'shared atomic flag'), ('Arc < SessionContext >', 'SessionContext', 'shared pointer read as the value'),
                    ('HashMap < String , Arc < Meta > >', 'NameMap', 'map'), ('HashMap < ProtocolId , Arc < Meta > >', 'IdMap', 'map'), ('HashSet < ProtocolId >', 'ProtoSet', 'set'), ('HashMap < StreamId , PriorityBuffer < ProtocolEvent > >', 'Streams', 'map'), ('HashMap < ProtocolId , StreamId >', 'ProtoStreams', 'map'),
                    ('HashMap < ProtocolId , Buffer < $idt > >', 'SenderMap < $idt >', 'map'), ('priority_mpsc :: Receiver < SessionEvent >', 'TaskReceiver', 'receiving end of the priority channel'), ('priority_mpsc :: Receiver < ProtocolEvent >', 'Receiver', 'receiving end of the priority channel'), ('priority_mpsc :: Sender < SessionEvent >', 'PrioritySender < SessionEvent >', ''), ('mpsc :: Sender < SessionEvent >', 'Sender < SessionEvent >', ''), ('priority_mpsc :: Sender < ProtocolEvent >', 'PrioritySender < ProtocolEvent >', ''),
                    ('mpsc :: Receiver < ProtocolEvent >', 'EvReceiver', 'receiving end of the channel'), ('mpsc :: Sender < ProtocolEvent >', 'Sender < ProtocolEvent >', ''), ('mpsc :: Sender < BoxedFutureTask >', 'TaskSender', ''), ('Vec < ( Option < futures :: channel :: oneshot :: Sender < ( ) > > , crate :: runtime :: JoinHandle < ( ) > , ) >', 'Handles', 'join handles'),
                    ('FramedWrite < crate :: runtime :: WriteHalf < StreamHandle > , U >', 'WriteWire', 'encoder'), ('Framed < StreamHandle , U >', 'Wire', 'framed stream with an assumed contract'), ('FramedRead < PatchedReadPart , Box < dyn Codec + Send + \'static > >', 'ReadWire', 'decoder'), ('Substream < U >', 'Substream', ''), ('SubstreamWritePart < U >', 'SubstreamWritePart', ''),
                    ('crate :: runtime :: ReadHalf < StreamHandle >', 'ReadHalf', ''), ('Option < Box < dyn ProtocolSpawn + Send + Sync + \'static > >', 'Option < ProtocolSpawn >', 'user object'), ('NameFn', 'MetaFn', 'user closure'), ('CodecFn', 'MetaFn', 'user closure'), ('SelectVersionFn', 'MetaFn', 'user closure'), ('BeforeReceiveFn', 'MetaFn', 'user closure'), ('Vec < Multiaddr >', 'Vec < usize >', ''),
                    ('0 . into ( )', 'ProtocolId ( 0 )', 'From<usize>'), ('io :: ErrorKind :: $idk . into ( )', 'io :: Error :: new ( io :: ErrorKind :: $idk , "" )', ''), ('ErrorKind :: $idk . into ( )', 'io :: Error :: new ( ErrorKind :: $idk , "" )', ''),
                    ('version . clone ( )', 'same_string ( & version )', 'clone of a string'),
                    ('matches ! ( self , SessionState :: $idk )', '( self == SessionState :: $idk )', 'matches! expanded'),
                    ('if let Some ( ref mut $idb ) = self . $idf', 'if let Some ( $idb ) = & mut self . $idf', 'ref mut pattern'),
                    ('match $idp . spawn { Some ( ref $ids ) =>', 'match & $idp . spawn { Some ( $ids ) =>', 'ref pattern'),
                    ('( $idp . codec ) ( )', '$idp . codec . codec ( )', 'user closure'), ('( $idp . before_receive ) ( )', '$idp . before_receive . before ( )', 'user closure'),
                    ('priority_mpsc :: channel', 'channel', ''), ('crate :: runtime :: split', 'split', ''), ('FramedRead :: new', 'ReadWire :: new', ''), ('FramedWrite :: new', 'WriteWire :: new', ''), ('Framed :: from_parts', 'Wire :: from_parts', ''),
                    ('self . $idf . get ( & $idp ) . cloned ( )', 'self . $idf . cloned ( & $idp )', 'clone of an optional buffer'),
                    ('crate :: runtime :: spawn ( $idx . for_each ( $e ) ) ;', 'self . service_control . run ( $idx ) ;', 'a started task: its ends are recorded'), ('$ids . spawn ( self . context . clone ( ) , & self . service_control , $idr ) ;', 'self . service_control . run ( $idr ) ;', 'user object that gets the reading end'),
                    ('crate :: runtime :: spawn ( async move { $blkx } ) ;', '{ $blkx }', 'background task run in place'),
                    ('let mut iter = iter ( $ide ) . map ( Ok ) ;', '', ''), ('sender . send_all ( & mut iter ) . await', 'self . service_control . pass_all ( sender , events )', 'sent in order by a background task'), ('control . close ( ) . await ;', 'control . close ( ) ;', ''),
                    ('for $idb in self . substreams . values_mut ( ) . filter ( | $idb | $e ) { $blkb }', '{ let idz = self . substreams . ids ( ) ; let mut nn : usize = 0 ; while nn < idz . len ( ) { let $idb = self . substreams . at ( idz [ nn ] ) ; nn = nn + 1 ; if $e { $blkb } } }', 'iteration over a map by its keys'),
                    ('for ( $idk , $idb ) in self . substreams . iter_mut ( ) { $blkb }', '{ let idz = self . substreams . ids ( ) ; let mut nn : usize = 0 ; while nn < idz . len ( ) { let $idk = & idz [ nn ] ; let $idb = self . substreams . at ( idz [ nn ] ) ; nn = nn + 1 ; $blkb } }', 'iteration over a map by its keys'),
                    ('let protos = :: std :: mem :: take ( & mut self . proto_streams ) ; for ( $idp , _ ) in protos { $blkb }', 'let protos = self . proto_streams . take_keys ( ) ; { let mut nn : usize = 0 ; while nn < protos . len ( ) { let $idp = protos [ nn ] ; nn = nn + 1 ; $blkb } }', 'iteration over a map by its keys'),
                    ('self . protocol_configs_by_id . get ( & $idp ) . map ( $x )', 'self . protocol_configs_by_id . name_of ( & $idp )', 'user closure'),
                    ('self . $idm ( cx ) . is_pending ( )', 'pend ( self . $idm ( cx ) )', ''), ('is_pending &= $e ;', 'let p_ = $e ; is_pending = is_pending && p_ ;', ''),
                    ('if false { $blkb }', '', 'logging')]:
        u.rule(a, b, w)
    buffer.rules(u)
    u.text(HEAD + BYTES + PRE)
    D = '#[derive(Clone, Copy, PartialEq, Eq, Structural)]'
    u.item(CH, 'enum', 'Priority', D)
    u.impl('impl Priority', CH, [Fn('impl Priority', 'is_high', props=BP, sig='pub fn is_high(self) -> (ret: bool)', rules=[('matches ! ( self , Priority :: High )', 'match self { Priority :: High => true , _ => false }')], ensures=['ret == (self == Priority::High)'])])
    u.item(SE, 'enum', 'SessionState', D); u.item(CX, 'struct', 'SessionContext'); u.item(CF, 'struct', 'SessionConfig', '#[derive(Clone, Copy)]'); u.item(CF, 'struct', 'Meta')
    u.text('impl SessionConfig { #[verifier::external_body] pub fn default() -> SessionConfig { unimplemented!() } }')
    u.item(SU, 'enum', 'ProtocolEvent'); u.item(SE, 'enum', 'SessionEvent'); u.item(PH, 'enum', 'ServiceProtocolEvent'); u.item(PH, 'enum', 'SessionProtocolEvent')
    buffer.add(u, BP)
    u.item(PF, 'struct', 'ProtocolInfo')
    u.impl('impl ProtocolInfo', PF, [Fn('impl ProtocolInfo', 'new', props=N, rules=[('name . to_owned ( )', 'own_str ( name )')], ensures=['ret.name@ == name@', 'ret.support_versions == support_versions'])])
    u.text('pub fn pend(p: Poll<Option<()>>) -> (r: bool) ensures r == (p is Pending) { match p { Poll::Pending => true, _ => false } }')
    for s in ('PatchedReadPart', 'Substream', 'SubstreamBuilder', 'SubstreamWritePart', 'SubstreamWritePartBuilder', 'SubstreamReadPart'):
        u.item(SU, 'struct', s)
    u.text(MAPS)
    u.item(SE, 'struct', 'Session'); u.item(SE, 'struct', 'SessionMeta')
    u.item(SE, 'struct', 'InnerSocket', rules=[('YamuxSession < T >', 'YamuxSession'), ('InnerSocket < T >', 'InnerSocket')])
    u.text(FRESH)
    u.text(SPEC)
    u.impl('impl SessionState', SE, [Fn('impl SessionState', 'is_local_close', props=P, ensures=['ret == (self == SessionState::LocalClose)']), Fn('impl SessionState', 'is_normal', props=P, ensures=['ret == (self == SessionState::Normal)'])])
    u.impl('impl SessionContext', CX, [Fn('impl SessionContext', 'pending_data_size', props=BP, ensures=['ret == self.pending_data_size.value()'])])
    u.impl('impl PatchedReadPart', SU, [Fn('impl PatchedReadPart', 'new', props=BP, ensures=['ret.io == io', 'ret.buffer == buffer'])])
    PR = P + R
    def builder(B, S, fields, sig):
        o = [Fn('impl ' + B, 'new', props=PR, ensures=['ret.event_receiver == event_receiver', 'ret.event_sender == event_sender', 'ret.context == context'])]
        for m, f, a in fields:
            o.append(Fn('impl ' + B, m, props=PR, ensures=['ret == (%s { %s: %s, ..self })' % (B, f, a)]))
        o.append(Fn('impl ' + B, 'build', props=PR, sig=sig, ensures=['ret.id == self.id', 'ret.proto_id == self.proto_id', 'ret.substream == substream', 'ret.event_receiver == self.event_receiver', 'ret.high_write_buf@.len() == 0 && ret.write_buf@.len() == 0', 'ret.context == self.context', '!ret.dead', 'ret.config == self.config', 'ret.event_sender.sender == self.event_sender && ret.event_sender.buffer@.len() == 0'] +
                 (['ret.service_proto_sender == self.service_proto_sender', 'ret.session_proto_sender == self.session_proto_sender', 'ret.before_receive == self.before_receive', 'ret.event == self.event', 'ret.keep_buffer == self.keep_buffer'] if S == 'Substream' else [])))
        u.impl('impl ' + B, SU, o)
    base = [('stream_id', 'id', 'id'), ('proto_id', 'proto_id', 'id'), ('config', 'config', 'config')]
    builder('SubstreamBuilder', 'Substream', base + [('keep_buffer', 'keep_buffer', 'keep'), ('event', 'event', 'event'), ('service_proto_sender', 'service_proto_sender', 'sender'), ('session_proto_sender', 'session_proto_sender', 'sender'), ('before_receive', 'before_receive', 'f')], 'pub fn build(self, substream: Wire) -> (ret: Substream)')
    builder('SubstreamWritePartBuilder', 'SubstreamWritePart', base, 'pub fn build(self, substream: WriteWire) -> (ret: SubstreamWritePart)')
    u.impl('impl Substream', SU, [Fn(r'impl < U > Substream < U > where U : Codec \+ Unpin ,', 'proto_open', props=N + R, ensures=['*final(self) == (Substream { service_proto_sender: final(self).service_proto_sender, session_proto_sender: final(self).session_proto_sender, ..*old(self) })',
        (N, 'old(self).service_proto_sender matches Some(b) ==> (final(self).service_proto_sender matches Some(c) && c.sender == b.sender && c.buffer@.len() == b.buffer@.len() + 1 && c.buffer@.drop_last() =~= b.buffer@ && (c.buffer@.last() matches ServiceProtocolEvent::Connected { session, version: v } && v@ == version@ && session.id == old(self).context.id))'),
        (N, 'old(self).session_proto_sender matches Some(b) ==> (final(self).session_proto_sender matches Some(c) && c.sender == b.sender && c.buffer@.len() == b.buffer@.len() + 1 && c.buffer@.drop_last() =~= b.buffer@ && (c.buffer@.last() matches SessionProtocolEvent::Opened { version: v } && v@ == version@))')])])
    def fr(*f):
        return '*final(self) == (Session { %s..*old(self) })' % ''.join('%s: final(self).%s, ' % (x, x) for x in f)
    ST = '(final(self).state == old(self).state || final(self).state == SessionState::Abnormal)'
    OLD = 'let ghost o = *self;'
    RT = ['old(self).routed()']
    I = 'impl Session'
    TC = '%s is TimeoutCheck ==> if old(self).substreams@.dom() =~= Set::<StreamId>::empty() { told(final(self).service_sender, old(self).service_sender, seq![SessionEvent::SessionTimeout { id: old(self).context.id }]) && final(self).state == SessionState::LocalClose } else { final(self).service_sender == old(self).service_sender && final(self).state == old(self).state }'
    SE_ = '%s matches ProtocolEvent::SelectError { proto_name } ==> told(final(self).service_sender, old(self).service_sender, seq![SessionEvent::ProtocolSelectError { id: old(self).context.id, proto_name }]) && (final(self).state == old(self).state || final(self).service_sender.sender.gone())'
    ALL = Q + P
    E = lambda f, t: [(f + ' : HashMap :: ' + n + ' ( )', f + ' : ' + t + ' :: none ( )') for n in ('new', 'default')]
    u.impl('impl SessionMeta', SE, [Fn('impl SessionMeta', 'new', props=ALL + R + N + T, rules=E('protocol_configs_by_name', 'NameMap') + E('protocol_configs_by_id', 'IdMap') + E('service_proto_senders', 'SenderMap') + E('session_proto_senders', 'SenderMap') + [('HashSet :: $idn ( )', 'ProtoSet :: none ( )'), ('session_proto_handles : Vec :: new ( )', 'session_proto_handles : Handles :: none ( )')],
        ensures=['ret.context == context && ret.event_sender == event_sender && ret.service_control == control', (T, 'ret.timeout == timeout'), 'ret.listed()'])] + [
        Fn('impl SessionMeta', m, props=ALL + R + N + T, ensures=['ret == (SessionMeta { %s: %s, ..self })' % (f, 'ret.' + f if m in ('config', 'keep_buffer', 'session_proto_handles', 'event') else a)]) for m, f, a in [('protocol_by_name', 'protocol_configs_by_name', 'config'), ('protocol_by_id', 'protocol_configs_by_id', 'config'), ('config', 'config', 'config'), ('keep_buffer', 'keep_buffer', 'keep'), ('service_proto_senders', 'service_proto_senders', 'senders'), ('session_senders', 'session_proto_senders', 'senders'), ('session_proto_handles', 'session_proto_handles', 'handles'), ('event', 'event', 'event')]])
    # ---- the task that runs the multiplexer
    IH = r'impl < T > %sInnerSocket < T > where T : AsyncRead \+ AsyncWrite \+ Unpin%s ,'
    u.impl('impl InnerSocket', SE, [
        Fn(IH % ('', r' \+ Send'), 'new', props=N + Q, sig='pub fn new(socket: YamuxSession, sender: PrioritySender<SessionEvent>) -> (ret: InnerSocket)', ensures=['ret.socket == socket && ret.sender == sender']),
        Fn(IH % ('Stream for ', ''), 'poll_next', props=N + Q, sig='pub fn poll_next(&mut self, cx: &mut Context) -> (ret: Poll<Option<()>>)', rules=[('let mut sender = self . sender . clone ( ) ;', ''), ('sender . quick_send ( $x ) . await', 'self . sender . post ( $x )')],
           ensures=['final(self).sender.chan() == old(self).sender.chan() && final(self).socket.ctl() == old(self).socket.ctl()', '''match ret {
             Poll::Ready(Some(_)) => exists|s: StreamHandle| final(self).socket.came() == #[trigger] old(self).socket.came().push(s) && final(self).sender.log() == old(self).sender.log().push((true, SessionEvent::StreamStart { stream: s })),
             Poll::Pending => final(self).socket.came() == old(self).socket.came() && final(self).sender.log() == old(self).sender.log(),
             Poll::Ready(None) => final(self).socket.came() == old(self).socket.came() && final(self).sender.log() == old(self).sender.log().push(final(self).sender.log().last()) && (final(self).sender.log().last().1 matches SessionEvent::ChangeState { state, .. } && (state == SessionState::RemoteClose || (state == SessionState::Abnormal && !final(self).socket.over()))) }'''])])
    u.impl('impl Session', SE, [
        Fn(I, 'wait_handle_poll', props=ALL + R + T, rules=[('for ( $ids , mut $idh ) in self . wait_handle . split_off ( 0 ) { $blkb }', '{ let mut all_ = self . wait_handle . taken ( ) ; while ! all_ . is_empty ( ) { let ( $ids , mut $idh ) = all_ . first ( ) ; $blkb } }')],
           loops=[Loop('while ! all_ . is_empty ( )', invariant=['*self == (Session { wait_handle: self.wait_handle, ..*old(self) })'], decreases='all_.left()')],
           ensures=[fr('wait_handle'), 'ret == (if final(self).wait_handle.left() == 0 { Poll::Ready(None::<()>) } else { Poll::Pending })']),
        Fn(I, 'new', props=ALL + R + N + T, sig='pub fn new(socket: Opaque, service_sender: Sender<SessionEvent>, service_receiver: TaskReceiver, meta: SessionMeta, future_task_sender: TaskSender, w: &mut Timers) -> (ret: Session)', requires=['meta.listed()'],
           rules=E('substreams', 'Streams') + E('proto_streams', 'ProtoStreams') + [('mpsc :: channel ( $x )', 'ev_channel ( $x )'), ('meta . context . ty . into ( )', 'meta . context . ty'), ('crate :: runtime :: spawn ( async move { crate :: runtime :: delay_for ( $t ) . await ; $blkx } ) ;', '{ w . wait ( $t ) ; $blkx }'), ('let $idt = Box :: pin ( async move { if $ids . send ( $e ) . await . is_err ( ) { $optblkx } } ) ;', 'let $idt = planned ( & $ids , $e ) ;'), ('future_task_sender_ . send ( $idt ) . await . is_err ( )', 'w . run ( $idt )'), ('crate :: runtime :: spawn ( InnerSocket :: new ( $x ) . for_each ( $y ) , ) ;', 'w . pump ( InnerSocket :: new ( $x ) ) ;'), ('crate :: runtime :: spawn ( InnerSocket :: new ( $x ) . for_each ( $y ) ) ;', 'w . pump ( InnerSocket :: new ( $x ) ) ;'), ('let mut interval = proto_event_sender . clone ( ) ;', 'let interval = proto_event_sender . twin ( ) ;'), ('let mut future_task_sender_ = $x ;', '')],
           ensures=[(T, 'ret.timeout == meta.timeout && final(w).set() == old(w).set().push((meta.timeout, ret.proto_event_receiver.line(), ProtocolEvent::TimeoutCheck))'), (N + Q, 'final(w).pumps() == old(w).pumps().push(final(w).pumps().last()) && final(w).pumps().last().sender == meta.event_sender && ret.control == final(w).pumps().last().socket.ctl()'), 'ret.routed()', 'ret.substreams@.dom() =~= Set::empty() && ret.proto_streams@.dom() =~= Set::empty() && ret.next_stream == 0 && ret.state == SessionState::Normal',
                    (N, 'ret.protocol_configs_by_name == meta.protocol_configs_by_name && ret.protocol_configs_by_id == meta.protocol_configs_by_id'), (Q + P, 'ret.context == meta.context'),
                    (Q, 'ret.service_proto_senders == meta.service_proto_senders && ret.session_proto_senders == meta.session_proto_senders'), (Q, 'ret.service_receiver == service_receiver && ret.service_sender.sender == service_sender && ret.service_sender.buffer@.len() == 0')]),
        Fn(I, 'select_procedure', props=N + R + T, sig='pub fn select_procedure(&mut self, procedure: Procedure)', rules=[('let $idt = Box :: pin ( async move { $blkx } ) as BoxedFutureTask ;', '{ $blkx }'), ('crate :: runtime :: timeout ( $idt , $idp ) . await', 'run_for ( $idt , $idp )'), ('$ids . send ( event ) . await', 'self . service_control . send_back ( event )'),
            ('crate :: runtime :: spawn ( async move { if future_task_sender . send ( task ) . await . is_err ( ) { $optblkx } } ) ;', ''), ('Box :: new ( $idx )', '$idx')],
           ensures=[fr('service_control'), 'final(self).asked(old(self))', 'final(self).service_control.back() =~= old(self).service_control.back().push(final(self).service_control.back().last())', """match final(self).service_control.back().last() {
             ProtocolEvent::Open { substream, proto_name, version } => procedure.outcome() == Ok::<(Negotiated, String, Option<String>), io::Error>((substream, proto_name, Some(version))),
             ProtocolEvent::SelectError { proto_name: Some(n) } => procedure.outcome() matches Ok(x) && x.1 == n && x.2 is None,
             ProtocolEvent::SelectError { proto_name: None } => true, _ => false }""",
             (T, '(final(self).service_control.back().last() is Open) == (procedure.in_time(old(self).timeout) && procedure.outcome() is Ok && procedure.outcome()->Ok_0.2 is Some)')]),
        Fn(I, 'open_proto_stream', props=N, sig='pub fn open_proto_stream(&mut self, proto_name: &String)', requires=['old(self).protocol_configs_by_name@.dom().contains(proto_name@)'],
           rules=[('self . protocol_configs_by_name [ $idn ] . support_versions . clone ( )', 'clone_strings ( & self . protocol_configs_by_name . at ( $idn ) . support_versions )'), ('self . protocol_configs_by_name [ $idn ]', 'self . protocol_configs_by_name . at ( $idn )'), ('$idm . support_versions . clone ( )', 'clone_strings ( & $idm . support_versions )'), ('ProtocolInfo :: new ( & $idn , $v )', 'ProtocolInfo :: new ( $idn . as_str ( ) , $v )'), ('let mut control', 'let control'),
                  ('async move { $blkx }', 'Procedure :: of ( move | | -> ( r : Selected ) ensures r is Ok ==> dialled ( r -> Ok_0 , name_ , versions_ ) { $blkx } )'), ('. await', '')],
           proof='let ghost name_ = proto_name@; let ghost versions_ = chars(self.protocol_configs_by_name@[proto_name@].support_versions@);',
           ensures=[fr('service_control'), 'final(self).asked(old(self))', (N, 'final(self).service_control.back().last() matches ProtocolEvent::Open { substream, proto_name: n, version } ==> dialled((substream, n, Some(version)), proto_name@, chars(old(self).protocol_configs_by_name@[proto_name@].support_versions@))')]),
        Fn(I, 'handle_substream', props=N, opts='#[verifier::loop_isolation(false)]',
           rules=[('self . protocol_configs_by_name . values ( ) . map ( | $idm | { $blkb } ) . collect ( )', '{ let zz = self . protocol_configs_by_name . all ( ) ; let mut tt = Table :: new ( ) ; let mut nn : usize = 0 ; while nn < zz . len ( ) { let $idm = zz [ nn ] ; let e_ = { $blkb } ; assert ( e_ . 0 @ == zz @ [ nn as int ] . called ( ) ) ; tt . add ( e_ ) ; nn = nn + 1 ; } tt }'),
                  ('( $idp . name ) ( $idp . id )', '$idp . name . name ( $idp . id )'), ('( $idp . select_version ) ( )', '$idp . select_version . select ( )'), ('$idp . support_versions . clone ( )', 'clone_strings ( & $idp . support_versions )'), ('ProtocolInfo :: new ( & $idn , $v )', 'ProtocolInfo :: new ( $idn . as_str ( ) , $v )')],
           loops=[Loop('while nn < zz . len ( )', invariant=['nn <= zz@.len()', 'forall|n: Seq<char>| #[trigger] tt@.dom().contains(n) ==> exists|i: int| 0 <= i < nn && #[trigger] zz@[i].called() == n && tt@[n].0.name@ == n && chars(tt@[n].0.support_versions@) == chars(zz@[i].support_versions@)', 'forall|i: int| 0 <= i < nn ==> tt@.dom().contains(#[trigger] zz@[i].called())'], decreases='zz@.len() - nn')],
           ensures=[fr('service_control'), 'final(self).asked(old(self))', (N, 'old(self).named() ==> (final(self).service_control.back().last() matches ProtocolEvent::Open { substream, proto_name: n, version } ==> exists|t: Map<Seq<char>, (ProtocolInfo, Option<SelectFn>)>| old(self).offers(t) && #[trigger] served((substream, n, Some(version)), t))')]),
        Fn(I, 'event_output', props=Q + T, ensures=['final(self).state == old(self).state || final(self).service_sender.sender.gone()', fr('service_sender', 'state'), ST, 'told(final(self).service_sender, old(self).service_sender, seq![event])']),
        Fn(I, 'output', props=ALL, ensures=[(P, 'final(self).state == old(self).state || final(self).service_sender.sender.gone()'), fr('service_sender', 'state'), ST, 'told(final(self).service_sender, old(self).service_sender, Seq::<SessionEvent>::empty())']),
        Fn(I, 'distribute_to_substream', props=ALL, proof=OLD, ensures=[fr('substreams', 'state'), ST, (P, 'final(self).state == old(self).state || old(self).context.pending_data_size.value() > old(self).config.send_buffer_size'), 'final(self).substreams@.dom() =~= old(self).substreams@.dom()', 'final(self).state != SessionState::Abnormal ==> same(final(self).substreams@, old(self).substreams@)', 'forall|k: StreamId| #[trigger] old(self).substreams@.dom().contains(k) ==> final(self).substreams@[k].sender.chan() == old(self).substreams@[k].sender.chan()'],
           loops=[Loop('while nn < idz . len ( )', invariant=['o == *old(self)', '*self == (Session { substreams: self.substreams, ..o })', 'same(self.substreams@, o.substreams@)', 'nn <= idz@.len()', 'forall|i: int| 0 <= i < idz@.len() ==> o.substreams@.dom().contains(#[trigger] idz@[i])'], decreases='idz@.len() - nn', start='assert(o.substreams@.dom().contains(idz@[nn as int]));')],
           opts='#[verifier::loop_isolation(false)]'),
        Fn(I, 'flush', props=ALL, ensures=[fr('substreams', 'state', 'service_sender'), ST, (P, 'final(self).state == old(self).state || old(self).context.pending_data_size.value() > old(self).config.send_buffer_size || final(self).service_sender.sender.gone()'), 'final(self).substreams@.dom() =~= old(self).substreams@.dom()', 'final(self).state != SessionState::Abnormal ==> same(final(self).substreams@, old(self).substreams@)', 'forall|k: StreamId| #[trigger] old(self).substreams@.dom().contains(k) ==> final(self).substreams@[k].sender.chan() == old(self).substreams@[k].sender.chan()', 'told(final(self).service_sender, old(self).service_sender, Seq::<SessionEvent>::empty())']),
        Fn(I, 'open_protocol', props=P + R + N, sig='pub fn open_protocol(&mut self, cx: &mut Context, name: String, version: String, substream: Negotiated)', proof='broadcast use {kept_longer, last_in};' + OLD, requires=RT + ['old(self).next_stream < usize::MAX'], opts='#[verifier::rlimit(60)]',
           ensures=['final(self).routed()', 'final(self).quiet(old(self))', 'final(self).gots(old(self))', ST, 'old(self).opens(name@) ==> final(self).opened(old(self), name@, substream.ahead())', '!old(self).opens(name@) ==> final(self).still(old(self)) && final(self).substreams == old(self).substreams',
                    (N, 'old(self).opens(name@) ==> told(final(self).service_sender, old(self).service_sender, if old(self).event@.contains(old(self).protocol_configs_by_name@[name@].id) { seq![SessionEvent::ProtocolOpen { id: old(self).context.id, proto_id: old(self).protocol_configs_by_name@[name@].id, version }] } else { Seq::<SessionEvent>::empty() })')]),
        Fn(I, 'handle_stream_event', props=ALL + R + T, requires=RT + ['old(self).next_stream < usize::MAX'], ensures=[(T, TC % 'event'), (T, SE_ % 'event'), 'final(self).routed()', 'final(self).quiet(old(self))', 'final(self).gots(old(self))',
            (Q, 'event matches ProtocolEvent::Message { data, proto_id, .. } ==> told(final(self).service_sender, old(self).service_sender, if old(self).state == SessionState::RemoteClose && !old(self).keep_buffer { Seq::<SessionEvent>::empty() } else { seq![SessionEvent::ProtocolMessage { id: old(self).context.id, proto_id, data }] })'),
            (R, 'event matches ProtocolEvent::Open { proto_name, substream, .. } ==> if old(self).opens(proto_name@) { final(self).opened(old(self), proto_name@, substream.ahead()) } else { final(self).still(old(self)) }'),
            (P, 'event matches ProtocolEvent::Close { id, .. } ==> final(self).substreams@ =~= old(self).substreams@.remove(id)'), (P, '!(event is Open || event is Close) ==> final(self).substreams == old(self).substreams && final(self).still(old(self))')]),
        Fn(I, 'handle_session_event', props=ALL, requires=RT, proof=OLD, ensures=['final(self).routed()', 'final(self).quiet(old(self))', 'final(self).gots(old(self))', 'final(self).service_control.reads() == old(self).service_control.reads() && final(self).service_control.writes() == old(self).service_control.writes()',
            'event matches SessionEvent::ProtocolMessage { proto_id, data, .. } ==> delivered(*final(self), *old(self), proto_id, priority == Priority::High, data@) && final(self).still(old(self)) && final(self).state == old(self).state && final(self).service_sender == old(self).service_sender',
            '!(event is ProtocolMessage || event is SessionClose || event is ProtocolClose) ==> final(self).substreams == old(self).substreams'],
           at=[]),
        Fn(I, 'recv_substreams', props=ALL + R + T, requires=RT + ['old(self).next_stream < usize::MAX'], ensures=[(T, 'old(self).state != SessionState::LocalClose && final(self).proto_event_receiver.got() != old(self).proto_event_receiver.got() ==> { let e = final(self).proto_event_receiver.got().last(); (' + TC % 'e' + ') && (' + SE_ % 'e' + ') }'), 'final(self).routed()', 'final(self).quiet(old(self))', 'final(self).service_receiver.got() == old(self).service_receiver.got()',
            (Q, 'old(self).state != SessionState::LocalClose && final(self).proto_event_receiver.got() != old(self).proto_event_receiver.got() ==> (final(self).proto_event_receiver.got().last() matches ProtocolEvent::Message { data, proto_id, .. } ==> told(final(self).service_sender, old(self).service_sender, if old(self).state == SessionState::RemoteClose && !old(self).keep_buffer { Seq::<SessionEvent>::empty() } else { seq![SessionEvent::ProtocolMessage { id: old(self).context.id, proto_id, data }] }))'),
            (R, 'old(self).state != SessionState::LocalClose && final(self).proto_event_receiver.got() != old(self).proto_event_receiver.got() ==> (final(self).proto_event_receiver.got().last() matches ProtocolEvent::Open { proto_name, substream, .. } ==> if old(self).opens(proto_name@) { final(self).opened(old(self), proto_name@, substream.ahead()) } else { final(self).still(old(self)) })'),
            'final(self).proto_event_receiver.got() == old(self).proto_event_receiver.got() ==> final(self).substreams == old(self).substreams && final(self).still(old(self)) && final(self).service_sender == old(self).service_sender', 'final(self).proto_event_receiver.got() == old(self).proto_event_receiver.got() || final(self).proto_event_receiver.got() =~= old(self).proto_event_receiver.got().push(final(self).proto_event_receiver.got().last())']),
        Fn(I, 'recv_service', props=ALL, requires=RT, ensures=['final(self).routed()', 'final(self).quiet(old(self))', 'final(self).proto_event_receiver.got() == old(self).proto_event_receiver.got()',
            'old(self).state == SessionState::Normal && final(self).service_receiver.got() != old(self).service_receiver.got() ==> (final(self).service_receiver.got().last().1 matches SessionEvent::ProtocolMessage { proto_id, data, .. } ==> delivered(*final(self), *old(self), proto_id, final(self).service_receiver.got().last().0 == Priority::High, data@))',
            'final(self).service_receiver.got() == old(self).service_receiver.got() ==> final(self).substreams == old(self).substreams || final(self).state == SessionState::LocalClose', 'final(self).service_receiver.got() == old(self).service_receiver.got() || final(self).service_receiver.got() =~= old(self).service_receiver.got().push(final(self).service_receiver.got().last())']),
        Fn(I, 'close_all_proto', props=ALL, requires=RT, proof=OLD, opts='#[verifier::loop_isolation(false)]', ensures=['final(self).routed()', 'final(self).quiet(old(self))', 'final(self).gots(old(self))', 'final(self).still(old(self))', 'final(self).state == old(self).state'],
           loops=[Loop('while nn < idz . len ( )', invariant=['o == *old(self)', '*self == (Session { substreams: self.substreams, ..o })', 'self.substreams@.dom() =~= o.substreams@.dom()', 'forall|k: StreamId| #[trigger] o.substreams@.dom().contains(k) ==> self.substreams@[k].sender.chan() == o.substreams@[k].sender.chan()', 'nn <= idz@.len()', 'forall|i: int| 0 <= i < idz@.len() ==> o.substreams@.dom().contains(#[trigger] idz@[i])'], decreases='idz@.len() - nn', start='assert(o.substreams@.dom().contains(idz@[nn as int]));')]),
        Fn(I, 'close_session', props=ALL, requires=RT, ensures=['final(self).routed()', 'final(self).quiet(old(self))', 'final(self).gots(old(self))', 'final(self).still(old(self))', 'final(self).state == old(self).state',
            (Q, 'final(self).service_control.parting() =~= old(self).service_control.parting().push(old(self).service_sender.buffer@.push(SessionEvent::SessionClose { id: old(self).context.id }))'), (Q, 'final(self).service_sender.buffer@.len() == 0 && final(self).service_sender.sender == old(self).service_sender.sender')]),
        Fn(I, 'clean', props=ALL, ensures=[fr('substreams', 'service_receiver', 'proto_event_receiver'), 'final(self).gots(old(self))', 'final(self).substreams@.dom() =~= Set::<StreamId>::empty()']),
        Fn('impl Stream for Session', 'poll_next', props=ALL + R + T, sig='pub fn poll_next(&mut self, cx: &mut Context) -> (ret: Poll<Option<()>>)', requires=RT + ['old(self).next_stream < usize::MAX'], ensures=['final(self).routed()', 'final(self).quiet(old(self))', (T, 'old(self).state != SessionState::LocalClose && final(self).state == SessionState::LocalClose ==> final(self).service_control.parting().len() > 0 && final(self).service_control.parting().last().len() > 0 && final(self).service_control.parting().last().last() == (SessionEvent::SessionClose { id: old(self).context.id })')],
           loops=[Loop('while nn < protos . len ( )', invariant=['nn <= protos@.len()', 'self.routed()', 'self.quiet(old(self))'], decreases='protos@.len() - nn')]),
    ])
    u.text(FOOT)
    return u
