"""A websocket connection carries bytes as a plain one does (C33); listeners go on accepting (C34)."""
from vx import Unit, Fn
from common import HEAD, BYTES, FOOT

MOD = 'tentacle/src/transports/mod.rs'
WS = 'tentacle/src/transports/ws.rs'

PRE = r"""
pub struct CloseFrame { pub code: u16 }
// the messages of the websocket library
pub enum Message { Text(String), Binary(Vec<u8>), Ping(Vec<u8>), Pong(Vec<u8>), Close(Option<CloseFrame>) }
pub struct WsError { pub code: u16 }
pub open spec fn body(m: Message) -> Seq<u8> { match m { Message::Binary(d) => d@, _ => Seq::empty() } }
// the bytes a list of messages carries
pub open spec fn carried(s: Seq<Message>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { carried(s.drop_last()) + body(s.last()) } }
pub broadcast proof fn carried_push(s: Seq<Message>, m: Message) ensures #[trigger] carried(s.push(m)) == carried(s) + body(m) { assert(s.push(m).drop_last() =~= s); }
impl Context {
  // the task was woken, so it polls again
  pub uninterp spec fn woken(&self) -> bool;
  #[verifier::external_body]
  pub fn wake(&mut self) ensures final(self).woken(), final(self).task() == old(self).task() { unimplemented!() }
}
pub open spec fn kept(a: &Context, b: &Context) -> bool { b.task() == a.task() && (a.woken() ==> b.woken()) }
#[verifier::external_body]
pub struct Wire { x: usize }
impl Wire {
  // the connection below
  pub uninterp spec fn socket(&self) -> int;
  pub uninterp spec fn got(&self) -> Seq<Message>;
  pub uninterp spec fn sent(&self) -> Seq<Message>;
  // the task woken when there is something to read, or room to write
  pub uninterp spec fn reader(&self) -> int;
  pub uninterp spec fn writer(&self) -> int;
  #[verifier::external_body]
  pub fn poll_next_unpin(&mut self, cx: &mut Context) -> (r: Poll<Option<Result<Message, WsError>>>)
    ensures final(self).sent() == old(self).sent(), kept(old(cx), final(cx)),
      match r { Poll::Ready(Some(Ok(m))) => final(self).got() == old(self).got().push(m), _ => final(self).got() == old(self).got() },
      r is Pending ==> final(self).reader() == old(cx).task() { unimplemented!() }
  #[verifier::external_body]
  pub fn poll_ready(&mut self, cx: &mut Context) -> (r: Poll<Result<(), WsError>>)
    ensures final(self).sent() == old(self).sent(), final(self).got() == old(self).got(), final(self).reader() == old(self).reader(), kept(old(cx), final(cx)), r is Pending ==> final(self).writer() == old(cx).task() { unimplemented!() }
  #[verifier::external_body]
  pub fn start_send(&mut self, m: Message) -> (r: Result<(), WsError>)
    ensures final(self).got() == old(self).got(), final(self).reader() == old(self).reader(), final(self).sent() == (if r is Ok { old(self).sent().push(m) } else { old(self).sent() }) { unimplemented!() }
  #[verifier::external_body]
  pub fn poll_flush(&mut self, cx: &mut Context) -> (r: Poll<Result<(), WsError>>)
    ensures final(self).sent() == old(self).sent(), final(self).got() == old(self).got(), final(self).reader() == old(self).reader(), kept(old(cx), final(cx)), r is Pending ==> final(self).writer() == old(cx).task() { unimplemented!() }
  #[verifier::external_body]
  pub fn poll_close(&mut self, cx: &mut Context) -> (r: Poll<Result<(), WsError>>)
    ensures final(self).sent() == old(self).sent(), final(self).got() == old(self).got(), kept(old(cx), final(cx)), r is Pending ==> final(self).writer() == old(cx).task() { unimplemented!() }
}
#[verifier::external_body]
pub fn vec_drain_front(v: &mut Vec<u8>, n: usize) -> (r: Vec<u8>) requires n <= old(v)@.len() ensures r@ =~= old(v)@.subrange(0, n as int), final(v)@ =~= old(v)@.subrange(n as int, old(v)@.len() as int) { unimplemented!() }
pub fn broken() -> (r: io::Error) { io::Error { kind: io::ErrorKind::BrokenPipe } }
#[verifier::external_body]
pub struct Opaque { x: usize }
// listening: what is accepted, and the queue of connections that finished the upgrade
#[verifier::external_body]
pub struct Tcp { x: usize }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SocketAddr { x: usize }
#[verifier::external_body]
pub struct Addr { x: usize }
pub enum Protocol { Ws, Wss, Other }
#[derive(Clone, Copy)]
pub struct Time { pub nanos: u64 }
impl Tcp {
  pub uninterp spec fn id(&self) -> int;
  pub uninterp spec fn peer(&self) -> SocketAddr;
  #[verifier::external_body]
  pub fn peer_addr(&self) -> (r: io::Result<SocketAddr>) ensures r matches Ok(a) ==> a == self.peer() { unimplemented!() }
}
impl Addr {
  pub uninterp spec fn parts(&self) -> Seq<Protocol>;
  #[verifier::external_body]
  pub fn push(&mut self, p: Protocol) ensures final(self).parts() == old(self).parts().push(p) { unimplemented!() }
}
pub uninterp spec fn parts_of(a: SocketAddr) -> Seq<Protocol>;
#[verifier::external_body]
pub fn socketaddr_to_multiaddr(a: SocketAddr) -> (r: Addr) ensures r.parts() == parts_of(a) { unimplemented!() }
#[verifier::external_body]
pub struct Acceptor { x: usize }
impl Acceptor {
  // the connections taken, and the task woken when there is another
  pub uninterp spec fn taken(&self) -> Seq<Tcp>;
  pub uninterp spec fn reader(&self) -> int;
  #[verifier::external_body]
  pub fn poll_accept(&mut self, cx: &mut Context) -> (r: Poll<Result<(Tcp, SocketAddr), io::Error>>)
    ensures kept(old(cx), final(cx)), r is Pending ==> final(self).reader() == old(cx).task(),
      match r { Poll::Ready(Ok(x)) => final(self).taken() == old(self).taken().push(x.0), _ => final(self).taken() == old(self).taken() } { unimplemented!() }
}
// the upgrade within the time limit; the limit is the one given
#[verifier::external_body]
pub fn accept_within(t: Time, s: Tcp) -> (r: Result<Result<Wire, WsError>, Opaque>)
  ensures r matches Ok(Ok(x)) ==> x.socket() == s.id() && x.got().len() == 0 && x.sent().len() == 0 && limited(t) { unimplemented!() }
pub uninterp spec fn limited(t: Time) -> bool;
#[verifier::external_body]
pub struct Done { x: usize }
impl Done {
  pub uninterp spec fn sent(&self) -> Seq<(Addr, WsStream)>;
  #[verifier::external_body]
  pub fn send(&mut self, x: (Addr, WsStream)) -> (r: Result<(), Opaque>) ensures final(self).sent() == old(self).sent().push(x) { unimplemented!() }
}
#[verifier::external_body]
pub struct Waiting { x: usize }
impl Waiting {
  pub uninterp spec fn taken(&self) -> Seq<(Addr, WsStream)>;
  pub uninterp spec fn reader(&self) -> int;
  // it does not end: the listener keeps a sender of its own
  #[verifier::external_body]
  pub fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<(Addr, WsStream)>>)
    ensures kept(old(cx), final(cx)), r is Pending ==> final(self).reader() == old(cx).task(), !(r matches Poll::Ready(None)),
      match r { Poll::Ready(Some(x)) => final(self).taken() == old(self).taken().push(x), _ => final(self).taken() == old(self).taken() } { unimplemented!() }
}
#[verifier::external_body]
pub fn channel(n: usize) -> (r: (Done, Waiting)) ensures r.0.sent().len() == 0, r.1.taken().len() == 0 { unimplemented!() }
// a connection handed over is one that was accepted and upgraded within the limit, with nothing read or written yet, under its own address
pub open spec fn fresh(x: (Addr, WsStream), s: Tcp, t: Time) -> bool {
  x.1.inner.socket() == s.id() && x.1.recv_buf@.len() == 0 && !x.1.already_send_close && x.1.inner.got().len() == 0 && x.1.inner.sent().len() == 0 && x.0.parts() =~= parts_of(s.peer()).push(Protocol::Ws) && limited(t)
}
impl MultiIncoming {
  // one that has to wait was woken, or is woken by the next connection
  pub open spec fn heard(&self, a: &Context, b: &Context, waits: bool) -> bool {
    waits ==> b.woken() || match self { MultiIncoming::Tcp(t) => t.reader() == a.task(), MultiIncoming::Ws(l) => l.inner.reader() == a.task() && l.pending_stream.reader() == a.task() }
  }
}
impl Tcp {
  // a plain connection carries bytes: how much was read and written so far
  pub uninterp spec fn read(&self) -> Seq<u8>;
  pub uninterp spec fn written(&self) -> Seq<u8>;
  #[verifier::external_body]
  pub fn poll_read(&mut self, cx: &mut Context, buf: &mut [u8]) -> (r: Poll<io::Result<usize>>)
    ensures kept(old(cx), final(cx)), final(buf)@.len() == old(buf)@.len(), final(self).written() == old(self).written(),
      match r { Poll::Ready(Ok(n)) => n <= final(buf)@.len() && final(self).read() == old(self).read() + final(buf)@.subrange(0, n as int), _ => final(self).read() == old(self).read() } { unimplemented!() }
  #[verifier::external_body]
  pub fn poll_write(&mut self, cx: &mut Context, buf: &[u8]) -> (r: Poll<io::Result<usize>>)
    ensures kept(old(cx), final(cx)), final(self).read() == old(self).read(),
      match r { Poll::Ready(Ok(n)) => n <= buf@.len() && final(self).written() == old(self).written() + buf@.subrange(0, n as int), _ => final(self).written() == old(self).written() } { unimplemented!() }
  #[verifier::external_body]
  pub fn poll_flush(&mut self, cx: &mut Context) -> (r: Poll<io::Result<()>>)
    ensures kept(old(cx), final(cx)), final(self).read() == old(self).read(), final(self).written() == old(self).written() { unimplemented!() }
  #[verifier::external_body]
  pub fn poll_shutdown(&mut self, cx: &mut Context) -> (r: Poll<io::Result<()>>)
    ensures kept(old(cx), final(cx)), final(self).read() == old(self).read(), final(self).written() == old(self).written() { unimplemented!() }
}
// either kind of connection, as the layer above sees it: what was handed out, and what was accepted
impl MultiStream {
  // the bytes that were handed out are a; x is handed out next
  pub open spec fn gave(&self, o: MultiStream, x: Seq<u8>) -> bool {
    match (o, *self) {
      (MultiStream::Tcp(a), MultiStream::Tcp(b)) => b.read() =~= a.read() + x && b.written() == a.written(),
      (MultiStream::Ws(a), MultiStream::Ws(b)) => carried(b.inner.sent()) =~= carried(a.inner.sent()) && b.already_send_close == a.already_send_close
        && (if a.recv_buf@.len() > 0 { carried(b.inner.got()) =~= carried(a.inner.got()) && a.recv_buf@ =~= x + b.recv_buf@ } else { carried(b.inner.got()) =~= carried(a.inner.got()) + x + b.recv_buf@ }),
      _ => false,
    }
  }
  pub open spec fn took(&self, o: MultiStream, x: Seq<u8>) -> bool {
    match (o, *self) {
      (MultiStream::Tcp(a), MultiStream::Tcp(b)) => b.read() == a.read() && b.written() =~= a.written() + x,
      (MultiStream::Ws(a), MultiStream::Ws(b)) => carried(b.inner.sent()) =~= carried(a.inner.sent()) + x && b.recv_buf == a.recv_buf && b.inner.got() == a.inner.got(),
      _ => false,
    }
  }
}
pub fn io_of(p: Poll<Result<(), WsError>>) -> (r: Poll<io::Result<()>>) ensures (r is Pending) == (p is Pending), (r matches Poll::Ready(Ok(_))) == (p matches Poll::Ready(Ok(_)))
{ match p { Poll::Pending => Poll::Pending, Poll::Ready(Ok(x)) => Poll::Ready(Ok(x)), Poll::Ready(Err(_)) => Poll::Ready(Err(broken())) } }
"""
def build(root='/repo'):
    u = Unit('ws', root)
    u.on, u.inner = ('ws',), (MOD,)
    P = ['C33']
    u.rule('WebSocketStream < TcpStream >', 'Wire', 'the websocket library has an assumed contract')
    u.rule("Context < '_ >", 'Context', '')
    u.rule('Pin :: new ( & mut self . inner ) . as_mut ( )', 'self . inner', 'pinning')
    u.rule('Pin :: new ( & mut self . inner )', 'self . inner', 'pinning')
    u.rule('self . inner . $idf ( cx ) . map_err ( $x )', 'io_of ( self . inner . $idf ( cx ) )', 'which error it is')
    u.rule('Into :: into ( io :: ErrorKind :: BrokenPipe )', 'broken ( )', 'which error it is')
    u.rule(':: std :: cmp :: min', 'std :: cmp :: min', '')
    u.rule('cx . waker ( ) . wake_by_ref ( )', 'cx . wake ( )', 'waking the polling task is recorded')
    u.rule('$idb [ .. $idn ] . copy_from_slice ( self . recv_buf . drain ( .. $idn ) . as_slice ( ) )', '{ let taken_ = vec_drain_front ( & mut self . recv_buf , $idn ) ; $idb [ .. $idn ] . copy_from_slice ( taken_ . as_slice ( ) ) }', 'draining a vector')
    u.rule('$idd . as_ref ( )', '$idd . as_slice ( )', '')
    u.rule('$idd . to_vec ( )', 'to_vec_u8 ( $idd )', '')
    def q(ret):
        return [('let mut $ids = Pin :: new ( & mut self . inner ) ;', ''), ('sink . as_mut ( )', 'self . inner'), ('self . inner . start_send ( $m ) . map_err :: < io :: Error , _ > ( $x ) ? ;', 'match self . inner . start_send ( $m ) { Ok ( _v ) => ( ) , Err ( _e ) => return ' + ret + ' }'),
                ('let _ignore = self . inner . poll_flush ( cx ) . map_err :: < io :: Error , _ > ( $x ) ? ;', 'match self . inner . poll_flush ( cx ) { Poll :: Ready ( Err ( _e ) ) => return ' + ret + ' , _ => ( ) }'),
                ('self . respond_ping ( cx ) ? ;', 'match self . respond_ping ( cx ) { Ok ( _v ) => ( ) , Err ( e ) => return Poll :: Ready ( Err ( e ) ) }')]
    TY = [('TcpListener', 'Acceptor'), ('Sender < ( Multiaddr , WsStream ) >', 'Done'), ('Receiver < ( Multiaddr , WsStream ) >', 'Waiting'), ('Duration', 'Time')]
    M3 = 'match match $idi . poll_%s ( cx ) { Poll :: Ready ( %s ) => return Poll :: Ready ( Some ( Err ( e ) ) ) , %s Poll :: Pending => Poll :: Pending } {'
    ACC = ('match $idi . poll_accept ( cx ) ? {', M3 % ('accept', 'Err ( e )', 'Poll :: Ready ( Ok ( x ) ) => Poll :: Ready ( x ) ,'))
    NXT = ('match $idi . poll_next_unpin ( cx ) ? {', M3 % ('next', 'Some ( Err ( e ) )', 'Poll :: Ready ( Some ( Ok ( x ) ) ) => Poll :: Ready ( Some ( x ) ) , Poll :: Ready ( None ) => Poll :: Ready ( None ) ,'))
    E, PE = 'Err ( broken ( ) )', 'Poll :: Ready ( Err ( broken ( ) ) )'
    u.text(HEAD + BYTES + PRE)
    u.item(WS, 'struct', 'WsStream')
    I, R, W = 'impl WsStream', 'impl AsyncRead for WsStream', 'impl AsyncWrite for WsStream'
    pr = 'broadcast use carried_push;'
    same_r = 'final(self).recv_buf == old(self).recv_buf && final(self).inner.got() == old(self).inner.got()'
    same_s = 'carried(final(self).inner.sent()) =~= carried(old(self).inner.sent())'
    shut = 'old(self).already_send_close ==> final(self).already_send_close && final(self).inner.sent() == old(self).inner.sent()'
    task = 'kept(old(cx), final(cx))'
    u.impl('impl WsStream', WS, [
        Fn(I, 'new', props=P, ensures=['ret.inner == inner', 'ret.recv_buf@.len() == 0', '!ret.already_send_close']),
        Fn(I, 'respond_ping', props=P, rules=q(E), proof=pr, ensures=[same_r, same_s, shut, task, 'final(self).already_send_close == old(self).already_send_close']),
        Fn(I, 'drain', props=P, ensures=['ret as int == (if old(buf)@.len() < old(self).recv_buf@.len() { old(buf)@.len() as int } else { old(self).recv_buf@.len() as int })', 'final(buf)@.len() == old(buf)@.len()',
             'old(self).recv_buf@ =~= final(buf)@.subrange(0, ret as int) + final(self).recv_buf@', '*final(self) == (WsStream { recv_buf: final(self).recv_buf, ..*old(self) })']),
        Fn(R, 'poll_read', props=P, rules=q(PE), proof=pr, ensures=[task, 'final(buf)@.len() == old(buf)@.len()', same_s, shut, 'final(self).already_send_close == old(self).already_send_close',
             '''match ret { Poll::Ready(Ok(n)) => {
                 &&& n <= old(buf)@.len() && (n == 0 ==> old(buf)@.len() == 0)
                 &&& old(self).recv_buf@.len() > 0 ==> carried(final(self).inner.got()) =~= carried(old(self).inner.got()) && old(self).recv_buf@ =~= final(buf)@.subrange(0, n as int) + final(self).recv_buf@
                 &&& old(self).recv_buf@.len() == 0 ==> carried(final(self).inner.got()) =~= carried(old(self).inner.got()) + final(buf)@.subrange(0, n as int) + final(self).recv_buf@ },
               _ => final(self).recv_buf@ =~= old(self).recv_buf@ && carried(final(self).inner.got()) =~= carried(old(self).inner.got()) }''',
             # a read that has to wait leaves nothing unread and is woken
             'ret is Pending ==> (old(buf)@.len() > 0 ==> final(self).recv_buf@.len() == 0) && (final(cx).woken() || final(self).inner.reader() == old(cx).task())']),
        Fn(W, 'poll_write', props=P, rules=q(PE), proof=pr, ensures=[task, same_r, shut, 'final(self).already_send_close == old(self).already_send_close', 'old(self).already_send_close ==> (ret matches Poll::Ready(Err(_)))',
             '''match ret { Poll::Ready(Ok(n)) => n <= buf@.len() && (n == 0 ==> buf@.len() == 0) && carried(final(self).inner.sent()) =~= carried(old(self).inner.sent()) + buf@.subrange(0, n as int),
                Poll::Pending => carried(final(self).inner.sent()) =~= carried(old(self).inner.sent()) && (final(cx).woken() || final(self).inner.writer() == old(cx).task()), _ => true }''']),
        Fn(W, 'poll_flush', props=P, ensures=[task, same_r, same_s, shut, 'final(self).already_send_close == old(self).already_send_close', 'ret is Pending ==> final(cx).woken() || final(self).inner.writer() == old(cx).task()']),
        Fn(W, 'poll_shutdown', props=P, rules=q(PE), proof=pr, ensures=[task, same_r, same_s, shut, '(ret matches Poll::Ready(Ok(_))) ==> final(self).already_send_close', 'ret is Pending ==> final(cx).woken() || final(self).inner.writer() == old(cx).task()']),
    ])
    A = ['C34']
    LI, LS = 'impl WebsocketListener', 'impl Stream for WebsocketListener'
    u.item(WS, 'struct', 'WebsocketListener', rules=TY)
    wait = 'ret is Pending ==> final(self).pending_stream.reader() == old(cx).task()'
    u.impl('impl WebsocketListener', WS, [
        Fn(LI, 'new', props=A, rules=TY, ensures=['ret.inner == listen', 'ret.timeout == timeout', 'ret.sender.sent().len() == 0']),
        Fn(LI, 'poll_pending', props=A, sig='pub fn poll_pending(&mut self, cx: &mut Context) -> (ret: Poll<Option<Result<(Addr, WsStream), io::Error>>>)', rules=[('Pin :: new ( & mut self . pending_stream ) . as_mut ( ) . poll_next ( cx )', 'self . pending_stream . poll_next ( cx )')],
           ensures=['*final(self) == (WebsocketListener { pending_stream: final(self).pending_stream, ..*old(self) })', wait, task,
             'match ret { Poll::Ready(Some(Ok(x))) => final(self).pending_stream.taken() == old(self).pending_stream.taken().push(x), Poll::Pending => final(self).pending_stream.taken() == old(self).pending_stream.taken(), _ => false }']),
        Fn(LS, 'poll_next', props=A, sig='pub fn poll_next(&mut self, cx: &mut Context) -> (ret: Poll<Option<Result<(Addr, WsStream), io::Error>>>)',
           rules=[(ACC[0].replace('$idi', 'self . inner'), ACC[1].replace('$idi', 'self . inner')),
                  ('let mut sender = self . sender . clone ( ) ;', ''), ('crate :: runtime :: spawn ( async move { $blkb } ) ;', '{ $blkb }'), ('sender . send ( $x ) . await . is_err ( )', 'self . sender . send ( $x ) . is_err ( )'),
                  ('crate :: runtime :: timeout ( $t , accept_async ( $s ) ) . await', 'accept_within ( $t , $s )')],
           ensures=['final(self).timeout == old(self).timeout', task,
             # one that has to wait is woken by the next connection and by the next finished upgrade
             'ret is Pending ==> final(cx).woken() || (final(self).inner.reader() == old(cx).task() && final(self).pending_stream.reader() == old(cx).task())',
             'match ret { Poll::Ready(Some(Ok(x))) => final(self).pending_stream.taken() == old(self).pending_stream.taken().push(x), _ => final(self).pending_stream.taken() == old(self).pending_stream.taken() }',
             '!(ret matches Poll::Ready(None))',
             # a connection that is gone is no failure of the listener
             '(ret matches Poll::Ready(Some(Err(_)))) ==> final(self).inner.taken() == old(self).inner.taken()',
             'final(self).inner.taken().len() == old(self).inner.taken().len() ==> final(self).sender.sent() == old(self).sender.sent()',
             'final(self).sender.sent() == old(self).sender.sent() || (final(self).sender.sent() == old(self).sender.sent().push(final(self).sender.sent().last()) && fresh(final(self).sender.sent().last(), final(self).inner.taken().last(), old(self).timeout))']),
    ])
    u.item(MOD, 'enum', 'MultiStream', rules=[('TcpStream', 'Tcp'), ('Box < WsStream >', 'WsStream')])
    PN = [('self . get_mut ( )', 'self'), ('Pin :: new ( $idi )', '$idi')]
    MR, MW = 'impl AsyncRead for MultiStream', 'impl AsyncWrite for MultiStream'
    none = 'final(self).took(*old(self), Seq::empty())'
    open_ = 'match (*old(self), *final(self)) { (MultiStream::Ws(a), MultiStream::Ws(b)) => b.already_send_close == a.already_send_close, _ => true }'
    u.impl('impl MultiStream', MOD, [
        Fn(MR, 'poll_read', props=P, rules=PN, ensures=[task, 'final(buf)@.len() == old(buf)@.len()', 'match ret { Poll::Ready(Ok(n)) => n <= final(buf)@.len() && final(self).gave(*old(self), final(buf)@.subrange(0, n as int)), _ => final(self).gave(*old(self), Seq::empty()) }']),
        Fn(MW, 'poll_write', props=P, rules=PN, ensures=[task, open_, 'match ret { Poll::Ready(Ok(n)) => n <= buf@.len() && final(self).took(*old(self), buf@.subrange(0, n as int)), Poll::Pending => ' + none + ', _ => true }',
             'match *old(self) { MultiStream::Ws(x) => x.already_send_close ==> (ret matches Poll::Ready(Err(_))), _ => true }']),
        Fn(MW, 'poll_flush', props=P, rules=PN, ensures=[task, none, open_]),
        Fn(MW, 'poll_shutdown', props=P, rules=PN, ensures=[task, none, 'match *final(self) { MultiStream::Ws(x) => (ret matches Poll::Ready(Ok(_))) ==> x.already_send_close, _ => true }']),
    ])
    u.item(MOD, 'enum', 'MultiIncoming', rules=TY)
    u.impl('impl MultiIncoming', MOD, [
        Fn('impl Stream for MultiIncoming', 'poll_next', props=A, sig='pub fn poll_next(&mut self, cx: &mut Context) -> (ret: Poll<Option<Result<(Addr, MultiStream), io::Error>>>)',
           rules=[ACC, NXT, ('self . get_mut ( )', 'self'), ('Box :: new ( stream )', 'stream')],
           ensures=['final(self).heard(old(cx), final(cx), ret is Pending)', task, '!(ret matches Poll::Ready(None))',
             """match ret { Poll::Ready(Some(Ok(x))) => match (*old(self), *final(self), x.1) {
                  (MultiIncoming::Tcp(a), MultiIncoming::Tcp(b), MultiStream::Tcp(s)) => b.taken() == a.taken().push(s) && x.0.parts() == parts_of(s.peer()),
                  (MultiIncoming::Ws(a), MultiIncoming::Ws(b), MultiStream::Ws(s)) => b.pending_stream.taken() == a.pending_stream.taken().push((x.0, s)), _ => false },
               Poll::Ready(Some(Err(_))) => match (*old(self), *final(self)) { (MultiIncoming::Tcp(a), MultiIncoming::Tcp(b)) => b.taken() == a.taken(), (MultiIncoming::Ws(a), MultiIncoming::Ws(b)) => b.inner.taken() == a.inner.taken(), _ => false }, _ => true }"""]),
    ])
    u.text(FOOT)
    return u
