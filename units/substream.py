"""Protocol streams (C22) and the bytes left over from negotiation (C23)."""
from vx import Unit, Fn, Loop
from common import HEAD, BYTES, FOOT
import buffer

F = 'tentacle/src/substream.rs'
CX = 'tentacle/src/context.rs'
CH = 'tentacle/src/channel/mod.rs'
PRE = r"""
pub type ErrorKind = io::ErrorKind;
pub type StreamId = usize;
pub type SessionId = usize;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct ProtocolId(pub usize);
#[derive(Clone, Copy)]
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
#[verifier::external_body]
pub struct Multiaddr { x: usize }
#[verifier::external_body]
pub struct PublicKey { x: usize }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum SessionType { Outbound, Inbound }
// the counter shared by everything that belongs to one session; share() is the part of it owed to this holder's messages
#[verifier::external_body]
pub struct Counter { x: usize }
impl Counter {
  pub uninterp spec fn share(&self) -> nat;
  pub uninterp spec fn value(&self) -> nat;
  #[verifier::external_body]
  pub fn fetch_add(&mut self, n: usize, o: Ordering) -> (r: usize) ensures final(self).share() == old(self).share() + n, final(self).value() == old(self).value() + n { unimplemented!() }
  #[verifier::external_body]
  pub fn fetch_sub(&mut self, n: usize, o: Ordering) -> (r: usize) requires n <= old(self).share() ensures final(self).share() == old(self).share() - n, final(self).value() == old(self).value() - n { unimplemented!() }
  #[verifier::external_body]
  pub fn load(&self, o: Ordering) -> (r: usize) ensures r == self.value() { unimplemented!() }
}
// what background tasks were given to pass on, by receiver
pub enum Part { Service(Seq<ServiceProtocolEvent>), Own(Seq<SessionProtocolEvent>), Up(Seq<ProtocolEvent>) }
pub trait Waiting: Sized { spec fn part(s: Seq<Self>) -> Part; }
impl Waiting for ServiceProtocolEvent { open spec fn part(s: Seq<Self>) -> Part { Part::Service(s) } }
impl Waiting for SessionProtocolEvent { open spec fn part(s: Seq<Self>) -> Part { Part::Own(s) } }
impl Waiting for ProtocolEvent { open spec fn part(s: Seq<Self>) -> Part { Part::Up(s) } }
// the session's closed flag; it also stands for the runtime that the session's tasks are given to
#[verifier::external_body]
pub struct Flag { x: usize }
impl Flag {
  pub uninterp spec fn parting(&self) -> Seq<Part>;
  #[verifier::external_body]
  pub fn load(&self, o: Ordering) -> (r: bool) { unimplemented!() }
  #[verifier::external_body]
  pub fn pass_all<T: Waiting>(&mut self, s: Sender<T>, e: VecDeque<T>) -> (r: Result<(), io::Error>) ensures final(self).parting() == old(self).parting().push(T::part(e@)) { unimplemented!() }
}
#[verifier::external_body]
pub struct Opened { x: usize }
#[verifier::external_body]
pub struct SessionConfig { x: usize }
impl SessionConfig {
  #[verifier::external_body]
  pub fn send_event_size(&self) -> usize { unimplemented!() }
  #[verifier::external_body]
  pub fn recv_event_size(&self) -> usize { unimplemented!() }
}
// the encoder in front of the yamux stream: sent() is every message it took over, in order
#[verifier::external_body]
pub struct Wire { x: usize }
impl Wire {
  pub uninterp spec fn sent(&self) -> Seq<Bytes>;
  // every frame read from it, in order
  pub uninterp spec fn taken(&self) -> Seq<Seq<u8>>;
  pub uninterp spec fn ready(&self) -> bool;
  pub uninterp spec fn blocked(&self) -> bool;
  pub uninterp spec fn failed(&self) -> bool;
  pub open spec fn keeps(&self, o: &Wire) -> bool { self.sent() == o.sent() && (o.failed() ==> self.failed()) }
  #[verifier::external_body]
  pub fn poll_ready(&mut self, cx: &mut Context) -> (r: Poll<Result<(), io::Error>>) ensures final(self).keeps(old(self)), final(self).taken() == old(self).taken(), r matches Poll::Ready(Ok(_)) ==> final(self).ready(), r is Pending ==> final(self).blocked(), r matches Poll::Ready(Err(_)) ==> final(self).failed(), !(r matches Poll::Ready(Err(_))) ==> final(self).failed() == old(self).failed() { unimplemented!() }
  #[verifier::external_body]
  pub fn start_send(&mut self, b: Bytes) -> (r: Result<(), io::Error>) requires old(self).ready()
    ensures final(self).taken() == old(self).taken(), (old(self).failed() ==> final(self).failed()), r is Ok ==> final(self).sent() == old(self).sent().push(b) && final(self).failed() == old(self).failed(), r is Err ==> final(self).sent() == old(self).sent() && final(self).failed() { unimplemented!() }
  #[verifier::external_body]
  pub fn poll_flush(&mut self, cx: &mut Context) -> (r: Poll<Result<(), io::Error>>) ensures final(self).keeps(old(self)), final(self).taken() == old(self).taken(), final(self).blocked() == old(self).blocked(), r matches Poll::Ready(Err(_)) ==> final(self).failed(), !(r matches Poll::Ready(Err(_))) ==> final(self).failed() == old(self).failed() { unimplemented!() }
  #[verifier::external_body]
  pub fn poll_shutdown(&mut self, cx: &mut Context) -> (r: Poll<Result<(), io::Error>>) ensures final(self).keeps(old(self)), final(self).taken() == old(self).taken() { unimplemented!() }
  #[verifier::external_body]
  pub fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<Result<BytesMut, io::Error>>>) ensures final(self).keeps(old(self)), match r { Poll::Ready(Some(Ok(d))) => final(self).taken() == old(self).taken().push(d@), _ => final(self).taken() == old(self).taken() } { unimplemented!() }
}
@BUF@pub fn opt_len<T>(b: &Option<Buffer<T>>) -> usize { match b { Some(x) => x.len(), None => 0 } }
pub fn opt_empty<T>(b: &Option<Buffer<T>>) -> bool { match b { Some(x) => x.is_empty(), None => true } }
pub enum ServiceProtocolEvent { Connected { version: String }, Disconnected { id: SessionId }, Received { id: SessionId, data: Bytes } }
pub enum SessionProtocolEvent { Opened { version: String }, Closed, Disconnected, Received { data: Bytes } }
#[verifier::external_body]
pub struct BeforeReceive { x: usize }
impl BeforeReceive {
  pub uninterp spec fn image(&self, d: Seq<u8>) -> Seq<u8>;
  #[verifier::external_body]
  pub fn call(&self, d: BytesMut) -> (r: Result<Bytes, io::Error>) ensures r matches Ok(b) ==> b@ == self.image(d@) { unimplemented!() }
}
pub fn pend(p: Poll<Option<()>>) -> (r: bool) ensures r == (p is Pending) { match p { Poll::Pending => true, _ => false } }
#[verifier::external_body]
pub struct Receiver { x: usize }
impl Receiver {
  pub uninterp spec fn got(&self) -> Seq<(Priority, ProtocolEvent)>;
  #[verifier::external_body]
  pub fn close(&mut self) ensures final(self).got() == old(self).got() { unimplemented!() }
}
pub open spec fn weight(e: ProtocolEvent) -> nat { match e { ProtocolEvent::Message { data, .. } => data@.len(), _ => 0 } }
// a message that arrives was counted when it was queued (SessionController::push_message): its bytes become this stream's share
#[verifier::external_body]
pub fn recv(q: &mut Receiver, c: &mut SessionContext, cx: &mut Context) -> (r: Poll<Option<(Priority, ProtocolEvent)>>)
  ensures match r { Poll::Ready(Some(x)) => final(q).got() == old(q).got().push(x) && final(c).pending_data_size.share() == old(c).pending_data_size.share() + weight(x.1) && final(c).id == old(c).id && final(c).closed == old(c).closed, _ => final(q).got() == old(q).got() && *final(c) == *old(c) }
{ unimplemented!() }
pub open spec fn total(s: Seq<Bytes>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last()@.len() } }
pub broadcast proof fn total_push(s: Seq<Bytes>, b: Bytes) ensures #[trigger] total(s.push(b)) == total(s) + b@.len() { assert(s.push(b).drop_last() =~= s); }
pub proof fn total_add(a: Seq<Bytes>, b: Seq<Bytes>) ensures total(a + b) == total(a) + total(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); total_add(a, b.drop_last()); } }
pub broadcast proof fn total_front(s: Seq<Bytes>, b: Bytes) ensures #[trigger] total(seq![b] + s) == total(s) + b@.len() { total_add(seq![b], s); reveal_with_fuel(total, 3); assert(seq![b].drop_last() =~= Seq::<Bytes>::empty()); }
pub broadcast proof fn total_rest(s: Seq<Bytes>) requires s.len() > 0 ensures #[trigger] total(s.subrange(1, s.len() as int)) == total(s) - s[0]@.len() { assert(s =~= seq![s[0]] + s.subrange(1, s.len() as int)); total_front(s.subrange(1, s.len() as int), s[0]); }
pub open spec fn parts<T: Waiting>(b: Option<Buffer<T>>, e: T, f: Option<T>) -> Seq<Part> { match b { Some(x) => seq![T::part(match f { Some(y) => x.buffer@.push(e).push(y), None => x.buffer@.push(e) })], None => Seq::empty() } }
pub open spec fn suffix<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && b.subrange(b.len() - a.len(), b.len() as int) =~= a }
// what the receivers of a frame are told
pub enum Note { Recv(SessionId, Seq<u8>), Data(StreamId, ProtocolId, Seq<u8>), Other }
pub open spec fn svc(e: ServiceProtocolEvent) -> Note { match e { ServiceProtocolEvent::Received { id, data } => Note::Recv(id, data@), _ => Note::Other } }
pub open spec fn own(e: SessionProtocolEvent) -> Note { match e { SessionProtocolEvent::Received { data } => Note::Recv(0, data@), _ => Note::Other } }
pub open spec fn ev(e: ProtocolEvent) -> Note { match e { ProtocolEvent::Message { id, proto_id, data } => Note::Data(id, proto_id, data@), _ => Note::Other } }
pub open spec fn img<T>(s: Seq<T>, f: spec_fn(T) -> Note) -> Seq<Note> { Seq::new(s.len(), |i: int| f(s[i])) }
// the receiver is gone
pub open spec fn over<T>(a: Buffer<T>) -> bool { a.sender.gone() }
pub open spec fn kept<T>(a: Buffer<T>, b: Buffer<T>) -> bool { (over(b) ==> over(a)) && (over(a) || a.all() =~= b.all()) }
pub open spec fn told<T>(a: Buffer<T>, b: Buffer<T>, f: spec_fn(T) -> Note, n: Note) -> bool { (over(b) ==> over(a)) && (over(a) || img(a.all(), f) =~= img(b.all(), f).push(n)) }
pub open spec fn kept_if<T>(a: Option<Buffer<T>>, b: Option<Buffer<T>>) -> bool { match b { Some(y) => a matches Some(x) && kept(x, y), None => a is None } }
pub open spec fn told_if<T>(a: Option<Buffer<T>>, b: Option<Buffer<T>>, f: spec_fn(T) -> Note, n: Note) -> bool { match b { Some(y) => a matches Some(x) && told(x, y, f, n), None => a is None } }
pub broadcast proof fn img_push<T>(s: Seq<T>, t: T, f: spec_fn(T) -> Note) ensures #[trigger] img(s.push(t), f) =~= img(s, f).push(f(t)) {}
pub broadcast proof fn add_push<T>(a: Seq<T>, b: Seq<T>, t: T) ensures #[trigger] (a + b.push(t)) =~= (a + b).push(t) {}
broadcast group totals { total_push, total_front, total_rest }
"""
RECV = r"""
impl Substream {
  pub open spec fn image(&self, d: Seq<u8>) -> Seq<u8> { match self.before_receive { Some(f) => f.image(d), None => d } }
  // one frame d was read and every receiver is told once
  pub open spec fn passed(&self, o: &Substream, d: Seq<u8>) -> bool {
    &&& told_if(self.service_proto_sender, o.service_proto_sender, |e: ServiceProtocolEvent| svc(e), Note::Recv(o.context.id, o.image(d)))
    &&& told_if(self.session_proto_sender, o.session_proto_sender, |e: SessionProtocolEvent| own(e), Note::Recv(0, o.image(d)))
    &&& (o.event ==> told(self.event_sender, o.event_sender, |e: ProtocolEvent| ev(e), Note::Data(o.id, o.proto_id, o.image(d))))
    &&& (!o.event ==> kept(self.event_sender, o.event_sender))
  }
  pub open spec fn steady(&self, o: &Substream) -> bool { kept_if(self.service_proto_sender, o.service_proto_sender) && kept_if(self.session_proto_sender, o.session_proto_sender) && kept(self.event_sender, o.event_sender) && self.fixed(o) }
  pub open spec fn fixed(&self, o: &Substream) -> bool { self.before_receive == o.before_receive && self.event == o.event && self.id == o.id && self.proto_id == o.proto_id && self.context.id == o.context.id && self.keep_buffer == o.keep_buffer }
  pub open spec fn parting(&self) -> Seq<Part> { self.context.closed.parting() }
  // at the end of the stream everything that waits is given to a task, each receiver's in order and with the end last
  pub open spec fn left(&self, o: &Substream) -> bool {
    let a = o.parting() + parts(o.service_proto_sender, ServiceProtocolEvent::Disconnected { id: o.context.id }, None);
    let b1 = a + parts(o.session_proto_sender, SessionProtocolEvent::Closed, None);
    let b2 = a + parts(o.session_proto_sender, SessionProtocolEvent::Closed, Some(SessionProtocolEvent::Disconnected));
    let w = if o.keep_buffer { o.event_sender.buffer@ } else { Seq::empty() };
    let c = Part::Up(w.push(ProtocolEvent::Close { id: o.id, proto_id: o.proto_id }));
    ||| self.parting() =~= b1.push(c) || self.parting() =~= b2.push(c)
    ||| (self.parting() =~= b1 || self.parting() =~= b2) && (over(self.event_sender) || self.event_sender.all() =~= o.event_sender.sender.log() + w)
  }
}
"""
SPEC = r"""
impl %(S)s {
  pub open spec fn owed(&self) -> nat { total(self.high_write_buf@) + total(self.write_buf@) }
  pub open spec fn share(&self) -> nat { self.context.pending_data_size.share() }
  // everything handed to the transport so far, then everything waiting in the order it has to go out
  pub open spec fn out(&self) -> Seq<Bytes> { self.substream.sent() + self.high_write_buf@ + self.write_buf@ }
  pub open spec fn inv(&self) -> bool { self.share() >= self.owed() }
  pub open spec fn same_queues(&self, o: &%(S)s) -> bool { self.high_write_buf == o.high_write_buf && self.write_buf == o.write_buf && self.substream.sent() == o.substream.sent() && self.share() == o.share() }
  // out() after one more message
  pub open spec fn with(&self, p: Priority, b: Bytes) -> Seq<Bytes> { self.substream.sent() + (if p == Priority::High { self.high_write_buf@.push(b) } else { self.high_write_buf@ }) + (if p == Priority::High { self.write_buf@ } else { self.write_buf@.push(b) }) }
  // the count went down by exactly the bytes handed over
  pub open spec fn exact(&self, o: &%(S)s) -> bool { self.share() + total(self.substream.sent()) == o.share() + total(o.substream.sent()) }
}
"""
LEFTW = r"""
impl SubstreamWritePart {
  pub open spec fn steady(&self, o: &SubstreamWritePart) -> bool { kept(self.event_sender, o.event_sender) }
  pub open spec fn parting(&self) -> Seq<Part> { self.context.closed.parting() }
  pub open spec fn left(&self, o: &SubstreamWritePart) -> bool {
    ||| self.parting() =~= o.parting().push(Part::Up(o.event_sender.buffer@.push(ProtocolEvent::Close { id: o.id, proto_id: o.proto_id })))
    ||| self.parting() =~= o.parting() && kept(self.event_sender, o.event_sender)
  }
}
"""
READ = r"""
#[verifier::external_body]
pub struct ReadHalf { x: usize }
impl ReadHalf {
  // rest(): the bytes the transport will still deliver
  pub uninterp spec fn rest(&self) -> Seq<u8>;
  #[verifier::external_body]
  pub fn poll_read(&mut self, cx: &mut Context, buf: &mut [u8]) -> (r: Poll<io::Result<usize>>)
    ensures match r { Poll::Ready(Ok(n)) => n <= old(buf)@.len() && n <= old(self).rest().len() && final(buf)@.len() == old(buf)@.len() && final(buf)@.subrange(0, n as int) =~= old(self).rest().subrange(0, n as int) && final(self).rest() == old(self).rest().subrange(n as int, old(self).rest().len() as int),
      _ => final(self).rest() == old(self).rest() && final(buf)@.len() == old(buf)@.len() } { unimplemented!() }
}
#[verifier::external_body]
pub fn copy_at(buf: &mut [u8], n: usize, b: &BytesMut) requires n <= old(buf)@.len(), b@.len() == n
  ensures final(buf)@.len() == old(buf)@.len(), final(buf)@.subrange(0, n as int) =~= b@, final(buf)@.subrange(n as int, final(buf)@.len() as int) =~= old(buf)@.subrange(n as int, old(buf)@.len() as int) { unimplemented!() }
"""

def build(root='/repo'):
    u = Unit('substream', root)
    P, Q20, PQ = ['C22'], ['C20'], ['C22', 'C20']
    for a, b, w in [('bytes :: BytesMut', 'BytesMut', ''), ('bytes :: Bytes', 'Bytes', ''), ('std :: io :: Error', 'io :: Error', ''), ('Box < Framed < StreamHandle , LengthDelimitedCodec > >', 'Opened', 'negotiated stream, not read here'),
                    ('Arc < AtomicUsize >', 'Counter', 'shared atomic counter: the part owed to this holder'), ('Arc < AtomicBool >', 'Flag', 'shared atomic flag'), ('Arc < SessionContext >', 'SessionContext', 'shared pointer read as the value'),
                    ('Framed < StreamHandle , U >', 'Wire', 'encoder with an assumed contract'), ('FramedWrite < crate :: runtime :: WriteHalf < StreamHandle > , U >', 'Wire', 'encoder with an assumed contract'),
                    ('priority_mpsc :: Receiver < ProtocolEvent >', 'Receiver', 'priority channel (unit channel)'), ('Substream < U >', 'Substream', ''), ('SubstreamWritePart < U >', 'SubstreamWritePart', ''),
                    ('crate :: runtime :: ReadHalf < StreamHandle >', 'ReadHalf', ''),
                    ('Context < \'_ >', 'Context', ''),
                    ('let mut sink = Pin :: new ( & mut self . substream ) ;', '', 'pinned alias of the encoder'),
                    ('sink . as_mut ( ) . poll_ready ( cx ) ?', '( match self . substream . poll_ready ( cx ) { Poll :: Ready ( Ok ( v ) ) => Poll :: Ready ( v ) , Poll :: Ready ( Err ( e ) ) => return Err ( e ) , Poll :: Pending => Poll :: Pending } )', '? on Poll<Result> written out'),
                    ('sink . as_mut ( )', 'self . substream', 'pinned alias of the encoder'),
                    ('Pin :: new ( self . substream . get_mut ( ) ) . poll_shutdown ( cx )', 'self . substream . poll_shutdown ( cx )', ''),
                    ('res . map ( | _ | false )', 'match res { Ok ( _ ) => Ok ( false ) , Err ( e ) => Err ( e ) }', 'map written out'),
                    ('crate :: runtime :: spawn ( async move { $blkx } ) ;', '{ $blkx }', 'background task, put down to the log of what it was given'),
                    ('let mut iter = iter ( $ide ) . map ( Ok ) ;', '', ''), ('$ids . send_all ( & mut iter ) . await', 'self . context . closed . pass_all ( $ids , events )', 'sent in order by a background task'),
                    ('self . event_receiver . poll_next ( cx )', 'recv ( & mut self . event_receiver , & mut self . context , cx )', 'receiving takes over the share of the counter'),
                    ('function ( data )', 'function . call ( data )', 'user closure'),
                    ('match self . before_receive { Some ( ref function )', 'match & self . before_receive { Some ( function )', 'ref pattern'),
                    ('if let Some ( ref mut $idb ) = self . $idf', 'if let Some ( $idb ) = & mut self . $idf', 'ref mut pattern'),
                    ('self . $idf . as_ref ( ) . map ( Buffer :: len ) . unwrap_or_default ( )', 'opt_len ( & self . $idf )', 'length of an optional buffer'),
                    ('self . $idf . as_ref ( ) . map ( | $idb | $idb . is_empty ( ) ) . unwrap_or ( true )', 'opt_empty ( & self . $idf )', 'emptiness of an optional buffer'),
                    ('self . $idm ( cx ) . is_pending ( )', 'pend ( self . $idm ( cx ) )', ''),
                    ('is_pending &= $e ;', 'let p_ = $e ; is_pending = is_pending && p_ ;', ''),
                    ]:
        u.rule(a, b, w)
    buffer.rules(u)
    a, b = PRE.split('@BUF@')
    u.text(HEAD + BYTES + a)
    buffer.add(u, P)
    u.text(b)
    D = '#[derive(Clone, Copy, PartialEq, Eq, Structural)]'
    u.item(CH, 'enum', 'Priority', D)
    u.impl('impl Priority', CH, [Fn('impl Priority', 'is_high', props=P, sig='pub fn is_high(self) -> (ret: bool)', rules=[('matches ! ( self , Priority :: High )', 'match self { Priority :: High => true , _ => false }'), ('match self { Priority :: High => true , Priority :: Normal => false }', 'match self { Priority :: High => true , Priority :: Normal => false }')], ensures=['ret == (self == Priority::High)'])])
    u.item(CX, 'struct', 'SessionContext')
    u.item(F, 'enum', 'ProtocolEvent')
    u.impl('impl SessionContext', CX, [
        Fn('impl SessionContext', 'incr_pending_data_size', props=P, sig='pub fn incr_pending_data_size(&mut self, data_size: usize)', ensures=['*final(self) == (SessionContext { pending_data_size: final(self).pending_data_size, ..*old(self) })', 'final(self).pending_data_size.share() == old(self).pending_data_size.share() + data_size']),
        Fn('impl SessionContext', 'decr_pending_data_size', props=P, sig='pub fn decr_pending_data_size(&mut self, data_size: usize)', requires=['data_size <= old(self).pending_data_size.share()'], ensures=['*final(self) == (SessionContext { pending_data_size: final(self).pending_data_size, ..*old(self) })', 'final(self).pending_data_size.share() == old(self).pending_data_size.share() - data_size']),
        Fn('impl SessionContext', 'pending_data_size', props=P, ensures=['ret == self.pending_data_size.value()'])])
    for S, full in (('Substream', True), ('SubstreamWritePart', False)):
        I = r'impl < U > %s < U > where U : Codec \+ Unpin ,' % S
        N = r'impl < U > Stream for %s < U > where U : Codec \+ Unpin ,' % S
        sup = lambda *fs: '*final(self) == (%s { %s, ..*old(self) })' % (S, ', '.join('%s: final(self).%s' % (f, f) for f in fs))
        u.item(F, 'struct', S)
        u.text(SPEC % {'S': S} + (RECV if full else LEFTW))
        W = 'broadcast use totals;'
        Q = ['high_write_buf', 'write_buf', 'substream', 'context']
        inv = ['final(self).inv()', 'final(self).exact(old(self))']
        keepf = '(old(self).substream.failed() ==> final(self).substream.failed())'
        calm = ['final(self).same_queues(old(self))', keepf, '(old(self).dead ==> final(self).dead)']
        NF = 'final(self).substream.failed() == old(self).substream.failed()'
        sd = lambda h: Loop(h and 'while let Some ( frame ) = self . %s . pop_front ( )' % h)
        li = ['self.out() =~= s0.out()', 'self.inv()', 'self.exact(&s0)', 'suffix(self.high_write_buf@, s0.high_write_buf@)', 'suffix(self.write_buf@, s0.write_buf@)', 's0 == *old(self)', 'self.substream.failed() == s0.substream.failed()',
              '*self == (%s { %s, ..s0 })' % (S, ', '.join('%s: self.%s' % (f, f) for f in Q)), 'prefix(s0.substream.sent(), self.substream.sent())', 'self.event_receiver == s0.event_receiver', 'self.substream.taken() == s0.substream.taken()', 'self.context.id == s0.context.id']
        # nothing on its way to a receiver is lost, doubled or reordered
        held = 'final(self).steady(old(self))'
        fns = [
            Fn(I, 'push_front', props=P, ensures=[sup('high_write_buf', 'write_buf'), 'final(self).high_write_buf@ =~= (if priority == Priority::High { seq![frame] + old(self).high_write_buf@ } else { old(self).high_write_buf@ })', 'final(self).write_buf@ =~= (if priority == Priority::High { old(self).write_buf@ } else { seq![frame] + old(self).write_buf@ })']),
            Fn(I, 'push_back', props=P, ensures=[sup('high_write_buf', 'write_buf'), 'final(self).high_write_buf@ =~= (if priority == Priority::High { old(self).high_write_buf@.push(frame) } else { old(self).high_write_buf@ })', 'final(self).write_buf@ =~= (if priority == Priority::High { old(self).write_buf@ } else { old(self).write_buf@.push(frame) })']),
            Fn(I, 'poll_complete', props=P, ensures=[sup('substream'), 'final(self).substream.taken() == old(self).substream.taken()', 'final(self).substream.keeps(&old(self).substream)', 'final(self).substream.blocked() == old(self).substream.blocked()', '(ret is Err) ==> final(self).substream.failed()', '(ret is Ok) ==> ' + NF]),
            Fn(I, 'send_inner', props=P, requires=['old(self).share() >= old(self).owed() + frame@.len()'], proof=W,
               ensures=[sup(*Q), 'final(self).substream.taken() == old(self).substream.taken()', 'final(self).context.id == old(self).context.id', 'final(self).exact(old(self))', 'final(self).inv()', 'ret is Err ==> final(self).substream.sent() == old(self).substream.sent() && final(self).substream.failed()', 'ret is Ok ==> ' + NF, keepf,
                        'ret matches Ok(b) ==> if b { final(self).substream.sent() == old(self).substream.sent() && final(self).substream.blocked() && final(self).high_write_buf@ =~= (if priority == Priority::High { seq![frame] + old(self).high_write_buf@ } else { old(self).high_write_buf@ }) && final(self).write_buf@ =~= (if priority == Priority::High { old(self).write_buf@ } else { seq![frame] + old(self).write_buf@ }) } else { final(self).substream.sent() =~= old(self).substream.sent().push(frame) && final(self).high_write_buf@ == old(self).high_write_buf@ && final(self).write_buf@ == old(self).write_buf@ }']),
            Fn(I, 'send_data', props=P, requires=['old(self).inv()'], proof=W + ' let ghost s0 = *self;', opts='#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)] #[verifier::spinoff_prover]',
               ensures=[sup(*Q), 'final(self).substream.taken() == old(self).substream.taken()', 'final(self).context.id == old(self).context.id'] + inv + ['ret is Ok ==> final(self).out() =~= old(self).out() && suffix(final(self).high_write_buf@, old(self).high_write_buf@) && suffix(final(self).write_buf@, old(self).write_buf@)',
                        'ret is Ok && final(self).high_write_buf@.len() > 0 ==> final(self).write_buf@ =~= old(self).write_buf@', 'ret is Ok && final(self).high_write_buf@.len() + final(self).write_buf@.len() > 0 ==> final(self).substream.blocked()',
                        'prefix(old(self).substream.sent(), final(self).substream.sent()) && prefix(final(self).substream.sent(), old(self).out())', 'ret is Err ==> final(self).substream.failed()', 'ret is Ok ==> ' + NF],
               loops=[Loop('while let Some ( frame ) = self . high_write_buf . pop_front ( )', invariant=li + ['self.write_buf@ =~= s0.write_buf@'], decreases='self.high_write_buf@.len()', ensures=['self.high_write_buf@.len() == 0']),
                      Loop('while let Some ( frame ) = self . write_buf . pop_front ( )', invariant=li + ['self.high_write_buf@.len() == 0'], decreases='self.write_buf@.len()', ensures=['self.write_buf@.len() == 0'])]),
            Fn(I, 'output', props=PQ, ensures=calm + [(Q20, 'over(old(self).event_sender) ==> over(final(self).event_sender)'), sup('event_sender', 'dead'), (Q20, 'kept(final(self).event_sender, old(self).event_sender)'), 'final(self).event_receiver == old(self).event_receiver', 'final(self).substream == old(self).substream']),
            Fn(I, 'output_event', props=PQ, ensures=calm + [(Q20, 'over(old(self).event_sender) ==> over(final(self).event_sender)'), sup('event_sender', 'dead'), (Q20, 'over(final(self).event_sender) || final(self).event_sender.all() =~= old(self).event_sender.all().push(event)'), 'final(self).event_receiver == old(self).event_receiver', 'final(self).substream == old(self).substream']),
            Fn(I, 'close_proto_stream', props=PQ, ensures=calm + [(Q20, 'final(self).left(old(self))'), 'final(self).substream.taken() == old(self).substream.taken()', 'final(self).event_receiver.got() == old(self).event_receiver.got()']),
            Fn(I, 'error_close', props=P, ensures=calm + ['final(self).substream.taken() == old(self).substream.taken()', 'final(self).event_receiver.got() == old(self).event_receiver.got()', 'final(self).dead']),
            Fn(I, 'flush', props=PQ, requires=['old(self).inv()'], ensures=inv + [keepf, (Q20, held), (Q20, 'old(self).dead ==> final(self).dead'), (Q20, 'final(self).substream.taken() == old(self).substream.taken()'), 'final(self).event_receiver == old(self).event_receiver', 'ret is Ok ==> final(self).out() =~= old(self).out() && suffix(final(self).high_write_buf@, old(self).high_write_buf@) && suffix(final(self).write_buf@, old(self).write_buf@)',
                        'ret is Ok && final(self).high_write_buf@.len() > 0 ==> final(self).write_buf@ =~= old(self).write_buf@', 'ret is Ok && final(self).high_write_buf@.len() + final(self).write_buf@.len() > 0 ==> final(self).substream.blocked()', 'ret is Err ==> final(self).substream.failed()',
                        'prefix(old(self).substream.sent(), final(self).substream.sent()) && prefix(final(self).substream.sent(), old(self).out())']),
            Fn(I, 'handle_proto_event', props=PQ, requires=['old(self).share() >= old(self).owed() + weight(event)'], proof=W,
               ensures=inv + [keepf, (Q20, '!final(self).dead ==> ' + held), (Q20, 'old(self).dead ==> final(self).dead'), (Q20, 'final(self).substream.taken() == old(self).substream.taken()'), 'final(self).event_receiver == old(self).event_receiver', 'event matches ProtocolEvent::Message { data, .. } ==> (!old(self).dead ==> if final(self).dead { final(self).substream.failed() } else { final(self).out() =~= old(self).with(priority, data) })',
                        '!(event is Message || event is Close) ==> final(self).same_queues(old(self)) && final(self).dead == old(self).dead', 'event is Close ==> final(self).dead && final(self).substream.sent() == old(self).substream.sent()']),
            Fn(I, 'recv_event', props=PQ, requires=['old(self).inv()'], proof=W,
               ensures=['final(self).inv()', keepf, (Q20, '!final(self).dead ==> ' + held), (Q20, 'old(self).dead ==> final(self).dead'), (Q20, 'final(self).substream.taken() == old(self).substream.taken()'), 'final(self).event_receiver.got() == old(self).event_receiver.got() ==> final(self).same_queues(old(self))',
                        '''final(self).event_receiver.got() == old(self).event_receiver.got() || (final(self).event_receiver.got() =~= old(self).event_receiver.got().push(final(self).event_receiver.got().last())
                           && final(self).share() + total(final(self).substream.sent()) == old(self).share() + total(old(self).substream.sent()) + weight(final(self).event_receiver.got().last().1)
                           && (final(self).event_receiver.got().last().1 matches ProtocolEvent::Message { data, .. } ==> if final(self).dead { final(self).substream.failed() } else { final(self).out() =~= old(self).with(final(self).event_receiver.got().last().0, data) }))''']),
        ]
        if full:
            fns += [Fn(I, 'distribute_to_user_level', props=PQ, ensures=calm + [sup('service_proto_sender', 'session_proto_sender', 'event_sender', 'dead'), (Q20, 'kept_if(final(self).service_proto_sender, old(self).service_proto_sender) && kept_if(final(self).session_proto_sender, old(self).session_proto_sender) && kept(final(self).event_sender, old(self).event_sender)'), 'final(self).event_receiver == old(self).event_receiver', 'final(self).substream == old(self).substream']),
                    Fn(I, 'recv_frame', props=PQ, proof='broadcast use {img_push, add_push};', ensures=calm + [(Q20, 'final(self).substream.taken() == old(self).substream.taken() || final(self).substream.taken() =~= old(self).substream.taken().push(final(self).substream.taken().last())'),
                        (Q20, 'final(self).substream.taken() == old(self).substream.taken() && !final(self).dead ==> kept_if(final(self).service_proto_sender, old(self).service_proto_sender) && kept_if(final(self).session_proto_sender, old(self).session_proto_sender) && kept(final(self).event_sender, old(self).event_sender)'),
                        (Q20, 'final(self).substream.taken() != old(self).substream.taken() && (ret matches Poll::Ready(Some(_))) ==> final(self).passed(old(self), final(self).substream.taken().last())'), (Q20, 'final(self).substream.taken() != old(self).substream.taken() && !(ret matches Poll::Ready(Some(_))) ==> final(self).dead'), (Q20, '!final(self).dead ==> final(self).fixed(old(self))'), 'final(self).event_receiver.got() == old(self).event_receiver.got()'])]
        u.impl('impl ' + S, F, fns)
        u.impl('impl ' + S, F, [Fn(N, 'poll_next', props=PQ, requires=['old(self).inv()'], proof=W, sig='pub fn poll_next(&mut self, cx: &mut Context) -> (ret: Poll<Option<()>>)',
            ensures=['final(self).inv()', keepf, (Q20, 'old(self).dead ==> final(self).left(old(self)) && ret == Poll::<Option<()>>::Ready(None)'),
                     (Q20, 'ret != Poll::<Option<()>>::Ready(None) && !final(self).dead && final(self).substream.taken() == old(self).substream.taken() ==> ' + held)] + ([(Q20, 'ret != Poll::<Option<()>>::Ready(None) && !final(self).dead && final(self).substream.taken() != old(self).substream.taken() ==> final(self).substream.taken() =~= old(self).substream.taken().push(final(self).substream.taken().last()) && final(self).passed(old(self), final(self).substream.taken().last())')] if full else []) + [
                     '''final(self).event_receiver.got() == old(self).event_receiver.got() && final(self).exact(old(self)) && (ret != Poll::<Option<()>>::Ready(None) ==> final(self).out() =~= old(self).out())
                        || (final(self).event_receiver.got() =~= old(self).event_receiver.got().push(final(self).event_receiver.got().last())
                           && final(self).share() + total(final(self).substream.sent()) == old(self).share() + total(old(self).substream.sent()) + weight(final(self).event_receiver.got().last().1))'''])])
    u.text(READ)
    u.item(F, 'struct', 'PatchedReadPart')
    u.text('''impl PatchedReadPart {
  // the bytes the protocol will read: what negotiation left over, then what the transport delivers
  pub open spec fn ahead(&self) -> Seq<u8> { self.buffer@ + self.io.rest() }
}''')
    R = ['C23']
    u.impl('impl PatchedReadPart', F, [
        Fn('impl PatchedReadPart', 'new', props=R, ensures=['ret.io == io', 'ret.buffer == buffer']),
        Fn('impl AsyncRead for PatchedReadPart', 'poll_read', props=R, rules=[(':: std :: cmp :: min', 'std :: cmp :: min'), ('buf [ .. $idn ] . copy_from_slice ( & $idb ) ;', 'copy_at ( buf , $idn , & $idb ) ;')],
           ensures=['''match ret { Poll::Ready(Ok(n)) => n <= old(buf)@.len() && n <= old(self).ahead().len() && final(buf)@.len() == old(buf)@.len() && final(buf)@.subrange(0, n as int) =~= old(self).ahead().subrange(0, n as int) && final(self).ahead() =~= old(self).ahead().subrange(n as int, old(self).ahead().len() as int),
                     _ => final(self).ahead() =~= old(self).ahead() }''', 'old(self).buffer@.len() > 0 ==> (ret matches Poll::Ready(Ok(n)) && n == (if old(buf)@.len() < old(self).buffer@.len() { old(buf)@.len() } else { old(self).buffer@.len() }))'])])
    u.item(F, 'struct', 'SubstreamReadPart', rules=[('FramedRead < PatchedReadPart , Box < dyn Codec + Send + \'static > >', 'Wire'), ('priority_mpsc :: Sender < ProtocolEvent >', 'PrioritySender < ProtocolEvent >')])
    u.text('impl SubstreamReadPart { pub open spec fn image(&self, d: Seq<u8>) -> Seq<u8> { match self.before_receive { Some(f) => f.image(d), None => d } } }')
    u.impl('impl SubstreamReadPart', F, [Fn('impl Stream for SubstreamReadPart', 'poll_next', props=Q20 + R, sig='pub fn poll_next(&mut self, cx: &mut Context) -> (ret: Poll<Option<Result<Bytes, io::Error>>>)', rules=[('. poll_next_unpin (', '. poll_next (')],
        ensures=['ret matches Poll::Ready(Some(Ok(b))) ==> final(self).substream.taken() =~= old(self).substream.taken().push(final(self).substream.taken().last()) && b@ == old(self).image(final(self).substream.taken().last())', '(ret is Pending || ret matches Poll::Ready(None)) ==> final(self).substream.taken() == old(self).substream.taken()', '*final(self) == (SubstreamReadPart { substream: final(self).substream, ..*old(self) })'])])
    u.text(FOOT)
    return u
