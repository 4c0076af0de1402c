"""The streams that call the user's protocol handles: each message received is given to the handle once, in order (C20)."""
from vx import Unit, Fn, Loop
from common import HEAD, BYTES, FOOT

PH = 'tentacle/src/protocol_handle_stream.rs'
CX = 'tentacle/src/context.rs'
TR = 'tentacle/src/traits.rs'
CF = 'tentacle/src/service/config.rs'

PRE = r"""
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct SessionId(pub usize);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct ProtocolId(pub usize);
#[derive(Clone, Copy)]
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
#[derive(Clone, Copy)]
pub struct Duration { pub x: u64 }
#[verifier::external_body]
pub struct Multiaddr { x: usize }
// a shared flag: other tasks may set it between two polls, not during one
#[verifier::external_body]
pub struct Flag { x: usize }
impl Flag {
  pub uninterp spec fn set(&self) -> bool;
  #[verifier::external_body]
  pub fn load(&self, o: Ordering) -> (r: bool) ensures r == self.set() { unimplemented!() }
}
pub struct SessionContext { pub id: SessionId, pub closed: Flag }
impl SessionContext {
  // a clone of the Arc
  #[verifier::external_body]
  pub fn share(&self) -> (r: SessionContext) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct ServiceContext { x: usize }
#[verifier::external_body]
pub struct EventSender { x: usize }
#[verifier::external_body]
pub struct TaskSender { x: usize }
#[verifier::external_body]
pub struct TokenSender { x: usize }
#[verifier::external_body]
pub struct TokenReceiver { x: usize }
impl TokenReceiver {
  // the stream holds a sender, so the channel does not end
  #[verifier::external_body]
  pub fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<u64>>) ensures !(r matches Poll::Ready(None)) { unimplemented!() }
}
#[verifier::external_body]
pub fn token_channel(n: usize) -> (TokenSender, TokenReceiver) { unimplemented!() }
// the receiving end of a queue: got() is everything taken from it
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Receiver<T> { x: Vec<T> }
impl<T> Receiver<T> {
  pub uninterp spec fn got(&self) -> Seq<T>;
  #[verifier::external_body]
  pub fn poll_next(&mut self, cx: &mut Context) -> (r: Poll<Option<T>>)
    ensures match r { Poll::Ready(Some(e)) => final(self).got() == old(self).got().push(e), _ => final(self).got() == old(self).got() } { unimplemented!() }
  #[verifier::external_body]
  pub fn close(&mut self) ensures final(self).got() == old(self).got() { unimplemented!() }
}
pub fn both(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
#[verifier::external_body]
pub struct Times { x: usize }
impl Times {
  #[verifier::external_body]
  pub fn none() -> Times { unimplemented!() }
  #[verifier::external_body]
  pub fn keep(&mut self, t: u64, d: Duration) { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, t: &u64) -> Option<Duration> { unimplemented!() }
  #[verifier::external_body]
  pub fn get(&self, t: &u64) -> Option<&Duration> { unimplemented!() }
}
#[verifier::external_body]
pub fn runtime_block_in_place<F: FnOnce() -> R, R>(f: F) -> (r: R) requires f.requires(()) ensures f.ensures((), r) { unimplemented!() }
// the sessions that have this protocol open
#[verifier::external_body]
pub struct Sessions { x: usize }
impl Sessions {
  pub uninterp spec fn view(&self) -> Map<SessionId, SessionContext>;
  #[verifier::external_body]
  pub fn none() -> (r: Sessions) ensures r@ == Map::<SessionId, SessionContext>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn pairs(&self) -> (r: Vec<(SessionId, SessionContext)>) ensures forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains(#[trigger] r@[i].0) && self@[r@[i].0] == r@[i].1 { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &SessionId) -> (r: Option<SessionContext>) ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None::<SessionContext> }) { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: SessionId, v: SessionContext) -> (r: Option<SessionContext>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
  #[verifier::external_body]
  pub fn get(&self, k: &SessionId) -> (r: Option<SessionContext>) ensures r == (if self@.dom().contains(*k) { Some(self@[*k]) } else { None::<SessionContext> }) { unimplemented!() }
}
// what the user's handle is told: session, protocol, content
pub enum Call { Init, Connected(SessionId, Seq<char>), Disconnected(SessionId), Received(SessionId, ProtocolId, Seq<u8>), Notify(u64), Polled }
pub open spec fn heard(s: Seq<Call>) -> Seq<(SessionId, ProtocolId, Seq<u8>)> decreases s.len() {
  if s.len() == 0 { Seq::empty() } else { match s.last() { Call::Received(k, p, d) => heard(s.drop_last()).push((k, p, d)), _ => heard(s.drop_last()) } }
}
pub broadcast proof fn heard_push(s: Seq<Call>, c: Call)
  ensures #[trigger] heard(s.push(c)) == (match c { Call::Received(k, p, d) => heard(s).push((k, p, d)), _ => heard(s) })
{ assert(s.push(c).drop_last() =~= s); }
"""
USERS = r"""
impl ProtocolContext {
  #[verifier::external_body]
  pub fn update_listens(&mut self, a: Vec<Multiaddr>) ensures final(self).proto_id == old(self).proto_id { unimplemented!() }
}
#[verifier::external_body]
pub struct ServiceUser { x: usize }
impl ServiceUser {
  pub uninterp spec fn calls(&self) -> Seq<Call>;
  #[verifier::external_body]
  pub fn init(&mut self, c: &ProtocolContext) ensures final(self).calls() == old(self).calls().push(Call::Init) { unimplemented!() }
  #[verifier::external_body]
  pub fn connected(&mut self, c: ProtocolContextMutRef, v: &String) ensures final(self).calls() == old(self).calls().push(Call::Connected(c.session.id, v@)) { unimplemented!() }
  #[verifier::external_body]
  pub fn disconnected(&mut self, c: ProtocolContextMutRef) ensures final(self).calls() == old(self).calls().push(Call::Disconnected(c.session.id)) { unimplemented!() }
  #[verifier::external_body]
  pub fn received(&mut self, c: ProtocolContextMutRef, d: Bytes) ensures final(self).calls() == old(self).calls().push(Call::Received(c.session.id, c.inner.proto_id, d@)) { unimplemented!() }
  #[verifier::external_body]
  pub fn notify(&mut self, c: &ProtocolContext, t: u64) ensures final(self).calls() == old(self).calls().push(Call::Notify(t)) { unimplemented!() }
  #[verifier::external_body]
  pub fn poll(&mut self, cx: &mut Context, c: &ProtocolContext) -> (r: Poll<Option<()>>) ensures final(self).calls() == old(self).calls().push(Call::Polled) { unimplemented!() }
}
#[verifier::external_body]
pub struct SessionUser { x: usize }
impl SessionUser {
  pub uninterp spec fn calls(&self) -> Seq<Call>;
  #[verifier::external_body]
  pub fn connected(&mut self, c: ProtocolContextMutRef, v: &String) ensures final(self).calls() == old(self).calls().push(Call::Connected(c.session.id, v@)) { unimplemented!() }
  #[verifier::external_body]
  pub fn disconnected(&mut self, c: ProtocolContextMutRef) ensures final(self).calls() == old(self).calls().push(Call::Disconnected(c.session.id)) { unimplemented!() }
  #[verifier::external_body]
  pub fn received(&mut self, c: ProtocolContextMutRef, d: Bytes) ensures final(self).calls() == old(self).calls().push(Call::Received(c.session.id, c.inner.proto_id, d@)) { unimplemented!() }
  #[verifier::external_body]
  pub fn notify(&mut self, c: ProtocolContextMutRef, t: u64) ensures final(self).calls() == old(self).calls().push(Call::Notify(t)) { unimplemented!() }
  #[verifier::external_body]
  pub fn poll(&mut self, cx: &mut Context, c: ProtocolContextMutRef) -> (r: Poll<Option<()>>) ensures final(self).calls() == old(self).calls().push(Call::Polled) { unimplemented!() }
}
// the boxes a handle may be in
pub struct ServiceBox { pub inner: ServiceUser }
pub struct ServiceSyncBox { pub inner: ServiceUser }
pub struct SessionBox { pub inner: SessionUser }
pub struct SessionSyncBox { pub inner: SessionUser }
"""
MID = r"""
// every session is filed under its own id
pub open spec fn filed(m: Map<SessionId, SessionContext>) -> bool { forall|k: SessionId| #[trigger] m.dom().contains(k) ==> m[k].id == k }
// the sessions that are not closed are still there
pub open spec fn kept(m: Map<SessionId, SessionContext>, o: Map<SessionId, SessionContext>) -> bool {
  (forall|k: SessionId| #[trigger] m.dom().contains(k) ==> o.dom().contains(k) && m[k] == o[k]) && (forall|k: SessionId| #[trigger] o.dom().contains(k) && !o[k].closed.set() ==> m.dom().contains(k))
}
pub type Heard = Seq<(SessionId, ProtocolId, Seq<u8>)>;
// one more message was heard, or none: that is allowed only of a session that is closing
pub open spec fn told(h: Heard, o: Heard, m: Option<(SessionId, ProtocolId, Seq<u8>)>, must: bool) -> bool {
  match m { Some(x) => h =~= o.push(x) || (!must && h =~= o), None => h =~= o }
}
impl ServiceProtocolStream {
  pub open spec fn heard(&self) -> Seq<(SessionId, ProtocolId, Seq<u8>)> { heard(self.handle.calls()) }
  // what the handle has to hear of an event
  pub open spec fn hears(&self, o: &Self, e: ServiceProtocolEvent) -> bool {
    match e {
      ServiceProtocolEvent::Received { id, data } => told(self.heard(), o.heard(), Some((id, o.handle_context.proto_id, data@)), !o.shutdown.set() && o.sessions@.dom().contains(id) && !o.sessions@[id].closed.set()),
      _ => told(self.heard(), o.heard(), None, true),
    }
  }
  pub open spec fn same(&self, o: &Self) -> bool { self.shutdown == o.shutdown && self.handle_context.proto_id == o.handle_context.proto_id }
  // how an event changes the sessions
  pub open spec fn after(&self, o: &Self, e: ServiceProtocolEvent) -> bool {
    match e {
      ServiceProtocolEvent::Connected { session, version } => kept(self.sessions@, if o.shutdown.set() { o.sessions@ } else { o.sessions@.insert(session.id, session) }),
      ServiceProtocolEvent::Disconnected { id } => kept(self.sessions@, o.sessions@.remove(id)),
      _ => kept(self.sessions@, o.sessions@),
    }
  }
}
impl SessionProtocolStream {
  pub open spec fn heard(&self) -> Seq<(SessionId, ProtocolId, Seq<u8>)> { heard(self.handle.calls()) }
  pub open spec fn hears(&self, o: &Self, e: SessionProtocolEvent) -> bool {
    match e {
      SessionProtocolEvent::Received { data } => told(self.heard(), o.heard(), Some((o.context.id, o.handle_context.proto_id, data@)), !o.shutdown.set() && !o.context.closed.set()),
      _ => told(self.heard(), o.heard(), None, true),
    }
  }
  pub open spec fn same(&self, o: &Self) -> bool { self.shutdown == o.shutdown && self.context == o.context && self.handle_context.proto_id == o.handle_context.proto_id }
}
"""
def build(root='/repo'):
    u = Unit('handle', root)
    Q = ['C20']
    u.rule('mpsc :: Receiver < u64 >', 'TokenReceiver', 'the notification channel is a type of its own')
    u.rule('mpsc :: Sender < u64 >', 'TokenSender', 'the notification channel is a type of its own')
    u.rule('mpsc :: Sender < SessionEvent >', 'EventSender', 'error reports are not specified')
    u.rule('mpsc :: Sender < BoxedFutureTask >', 'TaskSender', 'tasks are not specified')
    u.rule('mpsc :: Receiver < $idt >', 'Receiver < $idt >', 'a queue with an assumed contract')
    u.rule('mpsc :: channel ( 16 )', 'token_channel ( 16 )', 'the notification channel is a type of its own')
    u.rule('Arc < AtomicBool >', 'Flag', 'a shared flag')
    u.rule('Arc < SessionContext >', 'SessionContext', 'an Arc is its content')
    u.rule('HashMap < SessionId , SessionContext >', 'Sessions', 'a map with an assumed contract')
    u.rule('HashMap < u64 , Duration >', 'Times', 'notifications are not specified')
    u.rule('notify : HashMap :: $idn ( )', 'notify : Times :: none ( )', '')
    u.rule('sessions : HashMap :: $idn ( )', 'sessions : Sessions :: none ( )', '')
    u.rule('bytes :: Bytes', 'Bytes', '')
    u.rule('ServiceProtocolStream < T >', 'ServiceProtocolStream', 'the user handle is a type with a ghost log of its calls')
    u.rule('SessionProtocolStream < T >', 'SessionProtocolStream', 'the user handle is a type with a ghost log of its calls')
    u.rule('$ide . entry ( $idt ) . or_insert ( $idi ) ;', '$ide . keep ( $idt , $idi ) ;', 'map entry')
    u.rule('self . notify . entry ( $idt ) . or_insert ( $idi ) ;', 'self . notify . keep ( $idt , $idi ) ;', 'map entry')
    u.rule('. get ( & $idk ) . cloned ( )', '. get ( & $idk )', 'cloning an Arc')
    u.rule('& mut self . handle_context', '& self . handle_context', 'the context given to the user does not change the contract')
    u.rule('$ida &= self . $idf ( $x )', '$ida = both ( $ida , self . $idf ( $x ) )', 'the verifier has no & on bool')
    u.rule('$ida &= $idb', '$ida = both ( $ida , $idb )', 'the verifier has no & on bool')
    u.rule('Some ( & $idi ) = self . notify . get ( $x )', 'Some ( $idi ) = self . notify . get ( $x )', 'reference pattern')
    BIP = [('block_in_place ( self . flag . $idf ( ) , || { $blkb } )', '{ let blocking = self . flag . $idf ( ) ; $blkb }'), ('block_in_place ( self . flag . $idf ( ) , || self . $x )', '{ let blocking = self . flag . $idf ( ) ; self . $x }')]
    u.text(HEAD + BYTES + PRE)
    u.item(CF, 'struct', 'BlockingFlag', '#[derive(Clone, Copy)]')
    u.impl('impl BlockingFlag', CF, [Fn('impl BlockingFlag', n, props=Q, ensures=['ret == (self.0 & %du8 > 0)' % b]) for n, b in (('connected', 8), ('disconnected', 4), ('received', 2), ('notify', 1))])
    u.item(CX, 'struct', 'ProtocolContext'); u.item(CX, 'struct', 'ProtocolContextMutRef', rules=[("& 'a mut ProtocolContext", "& 'a ProtocolContext")])
    u.impl('impl ProtocolContext', CX, [Fn('impl ProtocolContext', 'new', props=Q, ensures=['ret.proto_id == proto_id']),
        Fn('impl ProtocolContext', 'as_mut', props=Q, sig="pub fn as_mut<'a, 'b: 'a>(&'b self, session: &'a SessionContext) -> (ret: ProtocolContextMutRef<'a>)", ensures=['ret.session.id == session.id', 'ret.inner.proto_id == self.proto_id'])])
    u.text(USERS)
    u.item(PH, 'enum', 'ServiceProtocolEvent'); u.item(PH, 'enum', 'SessionProtocolEvent'); u.item(PH, 'enum', 'CurrentTask')
    u.item(PH, 'struct', 'ServiceProtocolStream', rules=[('handle : T', 'handle : ServiceUser')])
    u.item(PH, 'struct', 'SessionProtocolStream', rules=[('handle : T', 'handle : SessionUser')])
    u.text(MID)
    u.fn(PH, Fn(None, 'block_in_place', props=Q, rules=[('crate :: runtime :: block_in_place', 'runtime_block_in_place')], requires=['f.requires(())'], ensures=['f.ensures((), ret)']))
    IC = 'impl CurrentTask'
    u.impl(IC, PH, [Fn(IC, 'run_with_id', props=Q), Fn(IC, 'run', props=Q), Fn(IC, 'idle', props=Q)])
    for ty, us, opt in (('Service', 'ServiceUser', 1), ('Session', 'SessionUser', 0)):
        I = r'impl < T > %sProtocolStream < T > where .*' % ty
        IS = r'impl < T > Stream for %sProtocolStream < T > where .*' % ty
        ev = ty + 'ProtocolEvent'
        SN = Fn(I, 'set_notify', props=Q, rules=[('let mut sender = $x ;', ''), ('let task = async move { $blkx } ;', ''), ('let mut future_task_sender = $x ;', ''), ('crate :: runtime :: spawn ( async move { $blkx } ) ;', '')], ensures=['*final(self) == *old(self)'])
        NF = 'final(self).same(old(self))'
        if opt:
            new = Fn(I, 'new', props=Q, proof='let (proto_id, flag) = pd; let (shutdown, future_task_sender) = sd;', sig='pub fn new(handle: ServiceUser, service_context: ServiceContext, receiver: Receiver<ServiceProtocolEvent>, pd: (ProtocolId, BlockingFlag), panic_report: EventSender, sd: (Flag, TaskSender)) -> (ret: ServiceProtocolStream)',
                     ensures=['ret.handle == handle && ret.receiver == receiver && ret.handle_context.proto_id == pd.0 && ret.shutdown == sd.0', 'ret.sessions@ == Map::<SessionId, SessionContext>::empty()'])
            he = Fn(I, 'handle_event', props=Q, requires=['filed(old(self).sessions@)'], opts='#[verifier::loop_isolation(false)]', proof='broadcast use heard_push;',
                    rules=BIP + [('self . sessions . iter ( ) . filter ( | ( _ , $idc ) | $p ) . map ( | ( $ids , _ ) | $m ) . collect :: < Vec < _ > > ( )',
                                  '{ let prs = self . sessions . pairs ( ) ; let mut out = Vec :: new ( ) ; let mut nn : usize = 0 ; while nn < prs . len ( ) { let $idc = & prs [ nn ] . 1 ; let $ids = & prs [ nn ] . 0 ; if $p { out . push ( $m ) ; } nn = nn + 1 ; } out }'),
                                 ('for $idk in closed_sessions { $blkb }', 'let mut mm : usize = 0 ; while mm < closed_sessions . len ( ) { let $idk = closed_sessions [ mm ] ; mm = mm + 1 ; $blkb }')],
                    loops=[Loop('while nn < prs . len ( )', invariant=['nn <= prs@.len()', 'forall|i: int| 0 <= i < out@.len() ==> old(self).sessions@.dom().contains(#[trigger] out@[i]) && old(self).sessions@[out@[i]].closed.set()'], decreases='prs@.len() - nn'),
                           Loop('while mm < closed_sessions . len ( )', invariant=['mm <= closed_sessions@.len()', 'self.same(old(self)) && self.receiver == old(self).receiver', 'self.heard() == old(self).heard()', 'kept(self.sessions@, old(self).sessions@)'], decreases='closed_sessions@.len() - mm')],
                    ensures=[NF, 'final(self).receiver == old(self).receiver', 'filed(final(self).sessions@)', 'final(self).hears(old(self), event)', 'final(self).after(old(self), event)'])
            pn = Fn(IS, 'poll_next', props=Q, sig='pub fn poll_next(&mut self, cx: &mut Context) -> (ret: Poll<Option<()>>)', requires=['filed(old(self).sessions@)'],
                    ensures=[NF, 'filed(final(self).sessions@)', 'final(self).receiver.got() == old(self).receiver.got() || final(self).receiver.got() =~= old(self).receiver.got().push(final(self).receiver.got().last())',
                             'if final(self).receiver.got().len() > old(self).receiver.got().len() { final(self).hears(old(self), final(self).receiver.got().last()) } else { final(self).heard() =~= old(self).heard() }',
                             'if final(self).receiver.got().len() > old(self).receiver.got().len() { final(self).after(old(self), final(self).receiver.got().last()) } else { kept(final(self).sessions@, old(self).sessions@) }'])
            hp = Fn(I, 'handle_poll', props=Q, proof='broadcast use heard_push;', ensures=[NF, 'final(self).heard() == old(self).heard()', 'final(self).sessions == old(self).sessions && final(self).receiver == old(self).receiver'])
        else:
            new = Fn(I, 'new', props=Q, proof='let (proto_id, flag) = pd; let (shutdown, future_task_sender) = sd;', sig='pub fn new(handle: SessionUser, service_context: ServiceContext, context: SessionContext, receiver: Receiver<SessionProtocolEvent>, pd: (ProtocolId, BlockingFlag), panic_report: EventSender, sd: (Flag, TaskSender)) -> (ret: SessionProtocolStream)',
                     ensures=['ret.handle == handle && ret.receiver == receiver && ret.handle_context.proto_id == pd.0 && ret.shutdown == sd.0 && ret.context == context'])
            he = Fn(I, 'handle_event', props=Q, proof='broadcast use heard_push;', rules=BIP, ensures=[NF, 'final(self).receiver.got() == old(self).receiver.got()', 'final(self).hears(old(self), event)'])
            pn = Fn(IS, 'poll_next', props=Q, sig='pub fn poll_next(&mut self, cx: &mut Context) -> (ret: Poll<Option<()>>)',
                    ensures=[NF, 'final(self).receiver.got() == old(self).receiver.got() || final(self).receiver.got() =~= old(self).receiver.got().push(final(self).receiver.got().last())',
                             'if final(self).receiver.got().len() > old(self).receiver.got().len() { final(self).hears(old(self), final(self).receiver.got().last()) } else { final(self).heard() =~= old(self).heard() }'])
            hp = Fn(I, 'handle_poll', props=Q, proof='broadcast use heard_push;', ensures=[NF, 'final(self).heard() == old(self).heard()', 'final(self).receiver == old(self).receiver'])
        fns = [new, he, hp, SN]
        if not opt:
            fns.append(Fn(I, 'close', props=Q, ensures=[NF, 'final(self).handle == old(self).handle', 'final(self).receiver.got() == old(self).receiver.got()']))
        u.impl('impl %sProtocolStream' % ty, PH, fns + [pn])
    # a boxed handle passes its calls on
    BX = [('Pin :: new ( & mut * * self ) . as_mut ( )', 'self . inner'), ('Pin :: new ( & mut * * self )', 'self . inner'), ('( & mut * * self )', 'self . inner')]
    for ty, c in (('Service', '&ProtocolContext'), ('Session', 'ProtocolContextMutRef')):
        for sync in ('', 'Sync'):
            B = r"impl %sProtocol for Box < dyn %sProtocol \+ Send %s\+ 'static \+ Unpin >" % (ty, ty, sync and r'\+ Sync ')
            quiet = ['heard(final(self).inner.calls()) == heard(old(self).inner.calls())']
            f = lambda n, args, ens=quiet, ret='': Fn(B, n, props=Q, rules=BX, proof='broadcast use heard_push;', sig='pub fn %s(&mut self%s)%s' % (n, args, ret), ensures=ens)
            u.impl('impl %s%sBox' % (ty, sync), TR, ([f('init', ', context: &ProtocolContext')] if ty == 'Service' else []) + [
                f('connected', ', context: ProtocolContextMutRef, version: &String'), f('disconnected', ', context: ProtocolContextMutRef'),
                f('received', ', context: ProtocolContextMutRef, data: Bytes', ['heard(final(self).inner.calls()) == heard(old(self).inner.calls()).push((context.session.id, context.inner.proto_id, data@))']),
                f('notify', ', context: %s, token: u64' % c), f('poll', ', cx: &mut Context, context: %s' % c, ret=' -> (ret: Poll<Option<()>>)')])
    u.text(FOOT)
    return u
