"""Holding buffers in front of the channels (C20)."""
from vx import Unit, Fn, Loop
from common import HEAD, FOOT

BU = 'tentacle/src/buffer.rs'
CH = 'tentacle/src/channel/mod.rs'

PRE = r"""
pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::capacity] (q: &VecDeque<T, A>) -> (r: usize)
    ensures r >= q@.len();
pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::shrink_to_fit] (q: &mut VecDeque<T, A>)
    ensures final(q)@ == old(q)@;
#[verifier::external_body]
pub fn take_deque<T>(q: &mut VecDeque<T>) -> (r: VecDeque<T>) ensures r == *old(q), final(q)@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn deque_default<T>() -> (r: VecDeque<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }

// errors of both channels: either the queue is full and the message comes back, or the receiver is gone
pub struct SendFault { pub full: bool }
pub struct TrySendError<T> { pub full: bool, pub val: T }
impl<T> TrySendError<T> {
  pub fn is_full(&self) -> (r: bool) ensures r == self.full { self.full }
  pub fn is_disconnected(&self) -> (r: bool) ensures r == !self.full { !self.full }
  pub fn into_inner(self) -> (r: T) ensures r == self.val { self.val }
}
// the two channel ends as the buffers see them: log() is everything this handle had accepted, gone() whether the receiver left.
// For the priority channel the contract is the one proved in the unit `channel`.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct PrioritySender<T> { x: Vec<T> }
impl<T> PrioritySender<T> {
  pub uninterp spec fn log(&self) -> Seq<(bool, T)>;
  // which channel this is an end of
  pub uninterp spec fn chan(&self) -> int;
  pub uninterp spec fn gone(&self) -> bool;
  #[verifier::external_body]
  pub fn clone(&self) -> (r: PrioritySender<T>) ensures r.log() == Seq::<(bool, T)>::empty(), r.chan() == self.chan() { unimplemented!() }
  #[verifier::external_body]
  pub fn poll_ready(&mut self, cx: &mut Context) -> (r: Poll<Result<(), SendFault>>)
    ensures final(self).chan() == old(self).chan(), final(self).log() == old(self).log(), old(self).gone() ==> final(self).gone(), r matches Poll::Ready(Err(_)) ==> final(self).gone() { unimplemented!() }
  #[verifier::external_body]
  pub fn try_send(&mut self, t: T) -> (r: Result<(), TrySendError<T>>)
    ensures final(self).chan() == old(self).chan(), old(self).gone() ==> final(self).gone(), r is Ok ==> final(self).log() == old(self).log().push((false, t)), r is Err ==> final(self).log() == old(self).log() && r->Err_0.val == t && (!r->Err_0.full ==> final(self).gone()) { unimplemented!() }
  #[verifier::external_body]
  pub fn try_quick_send(&mut self, t: T) -> (r: Result<(), TrySendError<T>>)
    ensures final(self).chan() == old(self).chan(), old(self).gone() ==> final(self).gone(), r is Ok ==> final(self).log() == old(self).log().push((true, t)), r is Err ==> final(self).log() == old(self).log() && r->Err_0.val == t && (!r->Err_0.full ==> final(self).gone()) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Sender<T> { x: Vec<T> }
impl<T> Sender<T> {
  pub uninterp spec fn log(&self) -> Seq<T>;
  pub uninterp spec fn gone(&self) -> bool;
  #[verifier::external_body]
  pub fn clone(&self) -> (r: Sender<T>) ensures r.log() == Seq::<T>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn poll_ready(&mut self, cx: &mut Context) -> (r: Poll<Result<(), SendFault>>)
    ensures final(self).log() == old(self).log(), old(self).gone() ==> final(self).gone(), r matches Poll::Ready(Err(_)) ==> final(self).gone() { unimplemented!() }
  #[verifier::external_body]
  pub fn try_send(&mut self, t: T) -> (r: Result<(), TrySendError<T>>)
    ensures old(self).gone() ==> final(self).gone(), r is Ok ==> final(self).log() == old(self).log().push(t), r is Err ==> final(self).log() == old(self).log() && r->Err_0.val == t && (!r->Err_0.full ==> final(self).gone()) { unimplemented!() }
}
pub open spec fn tag<T>(s: Seq<T>, high: bool) -> Seq<(bool, T)> { Seq::new(s.len(), |i: int| (high, s[i])) }
pub proof fn tag_front<T>(s: Seq<T>, high: bool) requires s.len() > 0 ensures tag(s, high) =~= seq![(high, s[0])] + tag(s.subrange(1, s.len() as int), high) {}
"""
SPEC = r"""
impl<T> PriorityBuffer<T> {
  // what still has to be passed on, in the order it has to be
  pub open spec fn waiting(&self) -> Seq<(bool, T)> { tag(self.high_buffer@, true) + tag(self.normal_buffer@, false) }
  pub open spec fn all(&self) -> Seq<(bool, T)> { self.sender.log() + self.waiting() }
}
impl<T> Buffer<T> {
  pub open spec fn all(&self) -> Seq<T> { self.sender.log() + self.buffer@ }
}
pub open spec fn prefix<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) =~= a }
"""

def rules(u):
    u.rule('matches ! ( $e , SendErrorKind :: Full )', 'match $e { SendErrorKind :: Full => true , _ => false }', 'matches! expanded')
    u.rule('VecDeque :: default ( )', 'deque_default ( )', 'Default of an empty deque')
    u.rule('Default :: default ( )', 'deque_default ( )', 'Default of an empty deque')
    u.rule(':: std :: mem :: take ( & mut $e )', 'take_deque ( & mut $e )', 'mem::take of a deque')
    u.rule('u8 :: max_value ( ) as usize', '255', '')

def add(u, P):
    # also used by the units that need the buffers' proved contracts
    u.text(PRE)
    u.item(BU, 'const', 'BUF_SHRINK_THRESHOLD')
    u.item(BU, 'enum', 'SendResult'); u.item(BU, 'struct', 'PriorityBuffer'); u.item(BU, 'struct', 'Buffer')
    u.text(SPEC)
    PB = r'impl < T > PriorityBuffer < T >'
    B = r'impl < T > Buffer < T >'
    pl = dict(invariant=['self.all() =~= old(self).all()', 'old(self).sender.gone() ==> self.sender.gone()', 'prefix(old(self).sender.log(), self.sender.log())'])
    hi = Loop('while let Some ( event ) = self . high_buffer . pop_front ( )', decreases='self.high_buffer@.len()', ensures=['self.high_buffer@.len() == 0'], **pl)
    hi.invariant = hi.invariant + ['self.sender.chan() == old(self).sender.chan()']
    no = Loop('while let Some ( event ) = self . normal_buffer . pop_front ( )', decreases='self.normal_buffer@.len()', ensures=['self.normal_buffer@.len() == 0'], invariant=hi.invariant + ['self.high_buffer@.len() == 0'])
    u.impl('impl<T> PriorityBuffer<T>', BU, [
        Fn(PB, 'new', props=P, ensures=['ret.sender == sender', 'ret.waiting() =~= Seq::<(bool, T)>::empty()']),
        Fn(PB, 'push_high', props=P, ensures=['final(self).high_buffer@ == old(self).high_buffer@.push(item)', 'final(self).normal_buffer == old(self).normal_buffer', 'final(self).sender == old(self).sender']),
        Fn(PB, 'push_normal', props=P, ensures=['final(self).normal_buffer@ == old(self).normal_buffer@.push(item)', 'final(self).high_buffer == old(self).high_buffer', 'final(self).sender == old(self).sender']),
        Fn(PB, 'len', props=P, requires=['self.high_buffer@.len() + self.normal_buffer@.len() <= usize::MAX'], ensures=['ret == self.waiting().len()']),
        Fn(PB, 'is_empty', props=P, ensures=['ret == (self.waiting().len() == 0)']),
        Fn(PB, 'shrink_to_fit', props=P, ensures=['final(self).high_buffer@ == old(self).high_buffer@', 'final(self).normal_buffer@ == old(self).normal_buffer@', 'final(self).sender == old(self).sender']),
        Fn(PB, 'try_send', props=P, ensures=[
            '!(ret is Disconnect) ==> final(self).all() =~= old(self).all()',
            'prefix(old(self).sender.log(), final(self).sender.log()) && prefix(final(self).sender.log(), old(self).all())',
            'old(self).sender.gone() ==> final(self).sender.gone()',
            'ret is Ok ==> final(self).waiting().len() == 0',
            'final(self).sender.chan() == old(self).sender.chan()',
            'ret is Disconnect ==> final(self).sender.gone() && final(self).waiting().len() == 0'], loops=[hi, no]),
        Fn(PB, 'clear', props=P, ensures=['final(self).waiting() =~= Seq::<(bool, T)>::empty()', 'final(self).sender == old(self).sender']),
    ])
    u.impl('impl<T> Buffer<T>', BU, [
        Fn(B, 'new', props=P, ensures=['ret.sender == sender', 'ret.buffer@ =~= Seq::<T>::empty()']),
        Fn(B, 'push', props=P, ensures=['final(self).buffer@ == old(self).buffer@.push(item)', 'final(self).sender == old(self).sender']),
        Fn(B, 'len', props=P, ensures=['ret == self.buffer@.len()']),
        Fn(B, 'is_empty', props=P, ensures=['ret == (self.buffer@.len() == 0)']),
        Fn(B, 'shrink_to_fit', props=P, ensures=['final(self).buffer@ == old(self).buffer@', 'final(self).sender == old(self).sender']),
        Fn(B, 'try_send', props=P, ensures=[
            '!(ret is Disconnect) ==> final(self).all() =~= old(self).all()',
            'prefix(old(self).sender.log(), final(self).sender.log()) && prefix(final(self).sender.log(), old(self).all())',
            'old(self).sender.gone() ==> final(self).sender.gone()',
            'ret is Ok ==> final(self).buffer@.len() == 0',
            'ret is Disconnect ==> final(self).sender.gone() && final(self).buffer@.len() == 0'],
           loops=[Loop('while let Some ( event ) = self . buffer . pop_front ( )', decreases='self.buffer@.len()', ensures=['self.buffer@.len() == 0'], **pl)]),
        Fn(B, 'take', props=P, ensures=['ret.1@ == old(self).buffer@', 'final(self).buffer@ =~= Seq::<T>::empty()', 'final(self).sender == old(self).sender', 'ret.0.log() == Seq::<T>::empty()']),
        Fn(B, 'clone_sender', props=P, ensures=['ret.log() == Seq::<T>::empty()']),
        Fn(B, 'clear', props=P, ensures=['final(self).buffer@ =~= Seq::<T>::empty()', 'final(self).sender == old(self).sender']),
    ])
    u.impl('impl<T> Buffer<T>', BU, [Fn(r'impl < T > Clone for Buffer < T >', 'clone', props=P, ensures=['ret.buffer@ =~= Seq::<T>::empty()', 'ret.sender.log() == Seq::<T>::empty()'])])
    u.impl('impl<T> PriorityBuffer<T>', BU, [Fn(r'impl < T > Clone for PriorityBuffer < T >', 'clone', props=P, ensures=['ret.waiting() =~= Seq::<(bool, T)>::empty()', 'ret.sender.log() == Seq::<(bool, T)>::empty()', 'ret.sender.chan() == self.sender.chan()'])])

def build(root='/repo'):
    u = Unit('buffer', root)
    rules(u)
    u.text(HEAD)
    add(u, ['C20'])
    u.text(FOOT)
    return u
