"""The priority channel (C21), sequential histories: every atomic, lock and shared pointer is a plain cell of an explicit
world `w` that all handles of one channel share."""
from vx import Unit, Fn, Loop
from common import HEAD, FOOT

Q = 'tentacle/src/channel/queue.rs'
M = 'tentacle/src/channel/mod.rs'
B = 'tentacle/src/channel/bound.rs'
UB = 'tentacle/src/channel/unbound.rs'
K = 'tentacle/src/channel/sink_impl.rs'

PRE = r"""
#[derive(Clone, Copy)]
pub enum Ordering { SeqCst, Relaxed, AcqRel, Acquire, Release }
pub use Ordering::*;
// atomics in a history without concurrency: plain cells (verified, not assumed)
pub struct AtomicUsize { pub v: usize }
impl AtomicUsize {
  pub fn new(v: usize) -> (r: AtomicUsize) ensures r.v == v { AtomicUsize { v } }
  pub fn load(&self, o: Ordering) -> (r: usize) ensures r == self.v { self.v }
  pub fn store(&mut self, v: usize, o: Ordering) ensures final(self).v == v { self.v = v }
  pub fn fetch_and(&mut self, x: usize, o: Ordering) -> (r: usize) ensures r == old(self).v, final(self).v == old(self).v & x { let r = self.v; self.v = r & x; r }
  pub fn fetch_sub(&mut self, x: usize, o: Ordering) -> (r: usize) requires old(self).v >= x ensures r == old(self).v, final(self).v == old(self).v - x { let r = self.v; self.v = r - x; r }
  pub fn fetch_add(&mut self, x: usize, o: Ordering) -> (r: usize) requires old(self).v + x <= usize::MAX ensures r == old(self).v, final(self).v == old(self).v + x { let r = self.v; self.v = r + x; r }
  pub fn compare_exchange(&mut self, a: usize, b: usize, o: Ordering, p: Ordering) -> (r: Result<usize, usize>)
    ensures old(self).v == a ==> r == Ok::<usize, usize>(a) && final(self).v == b, old(self).v != a ==> r == Err::<usize, usize>(old(self).v) && final(self).v == old(self).v
  { if self.v == a { self.v = b; Ok(a) } else { Err(self.v) } }
  pub fn compare_and_swap(&mut self, a: usize, b: usize, o: Ordering) -> (r: usize)
    ensures r == old(self).v, final(self).v == if old(self).v == a { b } else { old(self).v } { let r = self.v; if r == a { self.v = b; } r }
}
pub struct AtomicBool { pub v: bool }
impl AtomicBool {
  pub fn new(v: bool) -> (r: AtomicBool) ensures r.v == v { AtomicBool { v } }
  pub fn load(&self, o: Ordering) -> (r: bool) ensures r == self.v { self.v }
  pub fn store(&mut self, v: bool, o: Ordering) ensures final(self).v == v { self.v = v }
}
// raw node pointers: addresses of cells of one heap per queue; using or freeing a cell that is not allocated is an obligation
#[derive(Clone, Copy)]
pub struct Ptr { pub a: usize }
impl Ptr {
  pub fn is_null(&self) -> (r: bool) ensures r == (self.a == 0) { self.a == 0 }
  pub fn eq(self, o: Ptr) -> (r: bool) ensures r == (self == o) { self.a == o.a }
}
pub fn null_mut() -> (r: Ptr) ensures r.a == 0 { Ptr { a: 0 } }
pub struct AtomicPtr { pub v: Ptr }
impl AtomicPtr {
  pub fn new(v: Ptr) -> (r: AtomicPtr) ensures r.v == v { AtomicPtr { v } }
  pub fn load(&self, o: Ordering) -> (r: Ptr) ensures r == self.v { self.v }
  pub fn store(&mut self, v: Ptr, o: Ordering) ensures final(self).v == v { self.v = v }
  pub fn swap(&mut self, v: Ptr, o: Ordering) -> (r: Ptr) ensures r == old(self).v, final(self).v == v { let r = self.v; self.v = v; r }
}
pub struct UnsafeCell { pub v: Ptr }
impl UnsafeCell { pub fn new(v: Ptr) -> (r: UnsafeCell) ensures r.v == v { UnsafeCell { v } } }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Heap<T> { x: Vec<T> }
impl<T> Heap<T> {
  pub uninterp spec fn view(&self) -> Map<Ptr, Node<T>>;
  #[verifier::external_body]
  pub fn empty() -> (r: Heap<T>) ensures r@ == Map::<Ptr, Node<T>>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn alloc(&mut self, n: Node<T>) -> (r: Ptr) ensures r.a != 0, !old(self)@.dom().contains(r), final(self)@ == old(self)@.insert(r, n) { unimplemented!() }
  #[verifier::external_body]
  pub fn at<'a>(&'a mut self, p: Ptr) -> (r: &'a mut Node<T>) requires old(self)@.dom().contains(p) ensures *r == old(self)@[p], final(self)@ == old(self)@.insert(p, *final(r)) { unimplemented!() }
  #[verifier::external_body]
  pub fn free(&mut self, p: Ptr) requires old(self)@.dom().contains(p) ensures final(self)@ == old(self)@.remove(p) { unimplemented!() }
}
pub fn chain(p: Ptr) -> (r: Ghost<Seq<Ptr>>) ensures r@ == seq![p] { let ghost s = seq![p]; Ghost(s) }
pub fn option_take<T>(o: &mut Option<T>) -> (r: Option<T>) ensures r == *old(o), *final(o) is None { o.take() }
#[allow(non_camel_case_types)]
pub struct thread;
impl thread { pub fn yield_now() {} }
#[verifier::external_body]
pub struct AtomicWaker { x: usize }
impl AtomicWaker {
  // the task registered last
  pub uninterp spec fn task(&self) -> int;
  pub uninterp spec fn wakes(&self) -> int;
  pub uninterp spec fn regs(&self) -> int;
  #[verifier::external_body]
  pub fn new() -> AtomicWaker { unimplemented!() }
  #[verifier::external_body]
  pub fn wake(&mut self) ensures final(self).wakes() == old(self).wakes() + 1, final(self).regs() == old(self).regs() { unimplemented!() }
  #[verifier::external_body]
  pub fn register(&mut self, k: &Waker) ensures final(self).task() == k.task(), final(self).wakes() == old(self).wakes(), final(self).regs() == old(self).regs() + 1 { unimplemented!() }
}
"""
QSPEC = r"""
pub proof fn drop_front(ns: Seq<Ptr>) requires ns.len() > 0, ns.no_duplicates()
  ensures ns.subrange(1, ns.len() as int).no_duplicates(), forall|p: Ptr| #![trigger ns.subrange(1, ns.len() as int).contains(p)] ns.subrange(1, ns.len() as int).contains(p) <==> ns.contains(p) && p != ns[0]
{
  let ms = ns.subrange(1, ns.len() as int);
  assert forall|p: Ptr| #![trigger ms.contains(p)] ms.contains(p) <==> ns.contains(p) && p != ns[0] by {
    if ms.contains(p) { let i = choose|i: int| 0 <= i < ms.len() && ms[i] == p; assert(ns[i + 1] == p); }
    if ns.contains(p) && p != ns[0] { let i = choose|i: int| 0 <= i < ns.len() && ns[i] == p; assert(ms[i - 1] == p); }
  }
}
#[verifier::opaque]
pub open spec fn links<T>(h: Map<Ptr, Node<T>>, ns: Seq<Ptr>) -> bool {
  &&& ns.no_duplicates() && (forall|p: Ptr| h.dom().contains(p) <==> ns.contains(p))
  &&& forall|i: int| 0 <= i < ns.len() ==> (#[trigger] ns[i]).a != 0 && h[ns[i]].next.v == (if i + 1 < ns.len() { ns[i + 1] } else { Ptr { a: 0 } })
}
pub proof fn links_step<T>(h: Map<Ptr, Node<T>>, ns: Seq<Ptr>) requires links(h, ns), ns.len() > 0
  ensures ns.no_duplicates(), ns[0].a != 0, h.dom().contains(ns[0]), h[ns[0]].next.v == (if 1 < ns.len() { ns[1] } else { Ptr { a: 0 } }), links(h.remove(ns[0]), ns.subrange(1, ns.len() as int)), 1 < ns.len() ==> ns[1].a != 0
{
  reveal(links); drop_front(ns); let ms = ns.subrange(1, ns.len() as int); let g = h.remove(ns[0]);
  assert(ns.contains(ns[0]));
  assert forall|i: int| 0 <= i < ms.len() implies (#[trigger] ms[i]).a != 0 && g[ms[i]].next.v == (if i + 1 < ms.len() { ms[i + 1] } else { Ptr { a: 0 } }) by { assert(ms[i] == ns[i + 1]); assert(ns[i + 1] != ns[0]); if i + 1 < ms.len() { assert(ms[i + 1] == ns[i + 2]); } }
  if 1 < ns.len() { assert(ns[1].a != 0); }
}
pub proof fn links_empty<T>(h: Map<Ptr, Node<T>>, ns: Seq<Ptr>) requires links(h, ns), ns.len() == 0 ensures h =~= Map::<Ptr, Node<T>>::empty() { reveal(links); assert forall|p: Ptr| !h.dom().contains(p) by { assert(!ns.contains(p)); } assert(h.dom() =~= Set::<Ptr>::empty()); }
impl<T> Queue<T> {
  pub open spec fn ok(&self) -> bool {
    let ns = self.ns@; let h = self.heap@;
    &&& ns.len() > 0 && ns[0] == self.tail.v && ns.last() == self.head.v
    &&& ns.no_duplicates()
    &&& forall|p: Ptr| h.dom().contains(p) <==> ns.contains(p)
    &&& forall|i: int| 0 <= i < ns.len() ==> (#[trigger] ns[i]).a != 0 && h.dom().contains(ns[i]) && h[ns[i]].next.v == (if i + 1 < ns.len() { ns[i + 1] } else { Ptr { a: 0 } }) && ((h[ns[i]].value is Some) == (i > 0))
  }
  pub open spec fn view(&self) -> Seq<T> { Seq::new((self.ns@.len() - 1) as nat, |i: int| self.heap@[self.ns@[i + 1]].value->Some_0) }
}
"""
MSPEC = r"""
pub open spec fn opn(s: usize) -> bool { s >= 0x8000_0000_0000_0000 }
pub open spec fn num(s: usize) -> int { s as int % 0x8000_0000_0000_0000 }
pub proof fn bits(s: usize)
  ensures ((s & 0x8000_0000_0000_0000) == 0x8000_0000_0000_0000) == opn(s), (s & 0x7fff_ffff_ffff_ffff) as int == num(s), s < 0x8000_0000_0000_0000 ==> (s | 0x8000_0000_0000_0000) as int == s + 0x8000_0000_0000_0000
{
  assert(((s & 0x8000_0000_0000_0000) == 0x8000_0000_0000_0000) == (s >= 0x8000_0000_0000_0000)) by (bit_vector);
  assert((s & 0x7fff_ffff_ffff_ffff) == s % 0x8000_0000_0000_0000) by (bit_vector);
  if s < 0x8000_0000_0000_0000 { assert((s | 0x8000_0000_0000_0000) == add(s, 0x8000_0000_0000_0000)) by (bit_vector) requires s < 0x8000_0000_0000_0000; }
}
pub assume_specification<T> [Poll::<T>::is_ready] (p: &Poll<T>) -> (r: bool) ensures r == (p is Ready);
"""
BSPEC = r"""
pub struct Handle<T> { pub p: Ghost<Option<T>> }
impl<T> Handle<T> { pub fn new() -> Handle<T> { Handle { p: Ghost(None) } } pub fn clone(&self) -> Handle<T> { Handle { p: Ghost(None) } } }
pub struct TaskRef { pub id: usize }
impl TaskRef { pub fn clone(&self) -> (r: TaskRef) ensures r == *self { TaskRef { id: self.id } } }
// all state shared by the handles of one channel
pub struct World<T> { pub inner: BoundedInner<T>, pub tasks: Vec<SenderTask> }
pub fn lock<'a>(t: &'a mut Vec<SenderTask>, r: &TaskRef) -> (x: &'a mut SenderTask)
  requires r.id < old(t)@.len() ensures *x == old(t)@[r.id as int], final(t)@ == old(t)@.update(r.id as int, *final(x)) { &mut t[r.id] }
pub fn new_task(t: &mut Vec<SenderTask>, k: SenderTask) -> (r: TaskRef) requires old(t)@.len() < usize::MAX ensures r.id == old(t)@.len(), final(t)@ == old(t)@.push(k), forall|q: Seq<usize>| !k.is_parked && pok(q, old(t)@) ==> #[trigger] pok(q, final(t)@) { proof { assert forall|q: Seq<usize>| !k.is_parked && pok(q, old(t)@) implies #[trigger] pok(q, old(t)@.push(k)) by { pok_new(q, old(t)@, k); } } let id = t.len(); t.push(k); TaskRef { id } }
pub fn at<'a, T>(h: &Option<Handle<T>>, w: &'a mut World<T>) -> (r: &'a mut BoundedInner<T>) requires h is Some ensures *r == old(w).inner, final(w).inner == *final(r), final(w).tasks == old(w).tasks { &mut w.inner }
pub open spec fn ids(s: Seq<TaskRef>) -> Seq<usize> { Seq::new(s.len(), |i: int| s[i].id) }
// the senders waiting for room are exactly the parked ones, each once
#[verifier::opaque]
pub open spec fn pok(q: Seq<usize>, ts: Seq<SenderTask>) -> bool {
  &&& q.no_duplicates()
  &&& forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]) < ts.len() && ts[q[i] as int].is_parked
  &&& forall|t: int| #![trigger ts[t]] 0 <= t < ts.len() && ts[t].is_parked ==> t <= usize::MAX && q.contains(t as usize)
}
pub open spec fn same_but(n: Seq<SenderTask>, o: Seq<SenderTask>, me: int) -> bool { n.len() == o.len() && forall|t: int| #![trigger n[t]] #![trigger o[t]] 0 <= t < o.len() && t != me ==> n[t].is_parked == o[t].is_parked }
impl<T> World<T> {
  pub open spec fn hi(&self) -> Seq<T> { self.inner.quick_message_queue@ }
  pub open spec fn lo(&self) -> Seq<T> { self.inner.message_queue@ }
  pub open spec fn open_(&self) -> bool { opn(self.inner.state.v) }
  pub open spec fn count(&self) -> int { num(self.inner.state.v) }
  pub open spec fn queue(&self) -> Seq<usize> { ids(self.inner.parked_queue@) }
  pub open spec fn parked(&self, id: int) -> bool { self.tasks@[id].is_parked }
  pub open spec fn pinv(&self) -> bool { self.inner.parked_queue.ok() && pok(self.queue(), self.tasks@) }
  pub open spec fn inv(&self) -> bool {
    &&& self.pinv() && self.inner.message_queue.ok() && self.inner.quick_message_queue.ok()
    &&& self.count() == self.hi().len() + self.lo().len()
    &&& self.inner.buffer < 0x3fff_ffff_ffff_ffff
    // room: above the buffer there is one waiting sender for every further message, and no sender waits without cause
    &&& self.open_() ==> self.count() <= self.inner.buffer + self.queue().len()
    &&& self.queue().len() > 0 ==> self.count() >= self.inner.buffer + self.queue().len()
  }
  pub open spec fn same_msgs(&self, o: World<T>) -> bool { self.hi() == o.hi() && self.lo() == o.lo() && self.inner.state == o.inner.state && self.inner.buffer == o.inner.buffer && self.inner.num_senders == o.inner.num_senders }
  pub open spec fn same_wakes(&self, o: World<T>) -> bool { self.inner.recv_task == o.inner.recv_task }
  // who is parked is untouched
  pub open spec fn same_parks(&self, o: World<T>) -> bool { self.inner.parked_queue == o.inner.parked_queue && same_but(self.tasks@, o.tasks@, -1) }
  // the first `n` waiting senders of o were released and woken, nothing else
  pub open spec fn released(&self, o: World<T>, n: int) -> bool {
    &&& self.tasks@.len() == o.tasks@.len() && 0 <= n <= o.queue().len() && self.queue() =~= o.queue().subrange(n, o.queue().len() as int)
    &&& forall|i: int| 0 <= i < n ==> !(#[trigger] self.tasks@[o.queue()[i] as int]).is_parked && (o.tasks@[o.queue()[i] as int].task is Some ==> self.tasks@[o.queue()[i] as int].woken@ > o.tasks@[o.queue()[i] as int].woken@)
    &&& forall|t: int| #![trigger self.tasks@[t]] 0 <= t < o.tasks@.len() && !(exists|i: int| 0 <= i < n && #[trigger] o.queue()[i] == t) ==> self.tasks@[t] == o.tasks@[t]
  }
}
pub proof fn pok_same(q: Seq<usize>, n: Seq<SenderTask>, o: Seq<SenderTask>) requires pok(q, o), same_but(n, o, -1) ensures pok(q, n)
{
  reveal(pok);
  assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]) < n.len() && n[q[i] as int].is_parked by { assert(o[q[i] as int].is_parked); }
}
pub proof fn pok_new(q: Seq<usize>, o: Seq<SenderTask>, k: SenderTask) requires pok(q, o), !k.is_parked ensures pok(q, o.push(k))
{
  reveal(pok); let n = o.push(k);
  assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]) < n.len() && n[q[i] as int].is_parked by { assert(o[q[i] as int].is_parked); }
  assert forall|t: int| #![trigger n[t]] 0 <= t < n.len() && n[t].is_parked implies t <= usize::MAX && q.contains(t as usize) by { assert(o[t].is_parked); }
}
pub proof fn pok_park(q: Seq<usize>, n: Seq<SenderTask>, o: Seq<SenderTask>, me: usize)
  requires pok(q, o), me < o.len(), !o[me as int].is_parked, n[me as int].is_parked, same_but(n, o, me as int)
  ensures pok(q.push(me), n)
{
  reveal(pok); let k = q.push(me);
  assert(!q.contains(me)) by { if q.contains(me) { let i = choose|i: int| 0 <= i < q.len() && q[i] == me; assert(o[q[i] as int].is_parked); } }
  assert forall|i: int, j: int| 0 <= i < k.len() && 0 <= j < k.len() && i != j implies k[i] != k[j] by { if i == q.len() { assert(q[j] == k[j]); assert(q.contains(k[j])); } else if j == q.len() { assert(q[i] == k[i]); assert(q.contains(k[i])); } else { assert(q[i] == k[i] && q[j] == k[j]); } }
  assert forall|i: int| 0 <= i < k.len() implies (#[trigger] k[i]) < n.len() && n[k[i] as int].is_parked by { if i < q.len() { assert(k[i] == q[i]); assert(q.contains(q[i])); assert(o[q[i] as int].is_parked); } }
  assert forall|t: int| #![trigger n[t]] 0 <= t < n.len() && n[t].is_parked implies t <= usize::MAX && k.contains(t as usize) by { if t == me { assert(k[q.len() as int] == me); } else { assert(o[t].is_parked); let i = choose|i: int| 0 <= i < q.len() && q[i] == t as usize; assert(k[i] == q[i]); } }
}
pub proof fn pok_first(q: Seq<usize>, o: Seq<SenderTask>) requires pok(q, o), q.len() > 0 ensures q[0] < o.len(), o[q[0] as int].is_parked, forall|i: int| 0 < i < q.len() ==> #[trigger] q[i] != q[0] { reveal(pok); }
pub proof fn pok_release(q: Seq<usize>, n: Seq<SenderTask>, o: Seq<SenderTask>)
  requires pok(q, o), q.len() > 0, !n[q[0] as int].is_parked, same_but(n, o, q[0] as int)
  ensures pok(q.subrange(1, q.len() as int), n)
{
  reveal(pok); let k = q.subrange(1, q.len() as int);
  assert forall|i: int, j: int| 0 <= i < k.len() && 0 <= j < k.len() && i != j implies k[i] != k[j] by { assert(k[i] == q[i + 1] && k[j] == q[j + 1]); }
  assert forall|i: int| 0 <= i < k.len() implies (#[trigger] k[i]) < n.len() && n[k[i] as int].is_parked by { assert(k[i] == q[i + 1]); assert(q[i + 1] != q[0]); assert(o[q[i + 1] as int].is_parked); }
  assert forall|t: int| #![trigger n[t]] 0 <= t < n.len() && n[t].is_parked implies t <= usize::MAX && k.contains(t as usize) by { assert(t != q[0]); assert(o[t].is_parked); let i = choose|i: int| 0 <= i < q.len() && q[i] == t as usize; assert(k[i - 1] == q[i]); }
}
// releasing the front sender after n others
pub proof fn release_step<T>(a: World<T>, b: World<T>, o: World<T>, n: int)
  requires o.pinv(), a.released(o, n), a.queue().len() > 0, b.queue() =~= a.queue().subrange(1, a.queue().len() as int), b.tasks@ =~= a.tasks@.update(a.queue()[0] as int, b.tasks@[a.queue()[0] as int]), a.queue()[0] < a.tasks@.len(), !b.tasks@[a.queue()[0] as int].is_parked, a.tasks@[a.queue()[0] as int].task is Some ==> b.tasks@[a.queue()[0] as int].woken@ > a.tasks@[a.queue()[0] as int].woken@
  ensures b.released(o, n + 1)
{
  reveal(pok); let q = o.queue(); let x = a.queue()[0]; assert(x == q[n]);
  assert(a.tasks@[x as int] == o.tasks@[x as int]);
  assert forall|i: int| 0 <= i < n + 1 implies !(#[trigger] b.tasks@[q[i] as int]).is_parked && (o.tasks@[q[i] as int].task is Some ==> b.tasks@[q[i] as int].woken@ > o.tasks@[q[i] as int].woken@) by { if i < n { assert(q[i] != q[n]); assert(b.tasks@[q[i] as int] == a.tasks@[q[i] as int]); } }
  assert forall|t: int| #![trigger b.tasks@[t]] 0 <= t < o.tasks@.len() && !(exists|i: int| 0 <= i < n + 1 && #[trigger] q[i] == t) implies b.tasks@[t] == o.tasks@[t] by { assert(q[n] != t); assert(a.tasks@[t] == o.tasks@[t]) by { assert forall|i: int| 0 <= i < n implies #[trigger] q[i] != t by { assert(0 <= i < n + 1); } } }
}
// distinct parked senders: the queue of parked senders is no longer than the number of senders, so the bound of `inv` is the documented capacity
pub proof fn capacity<T>(w: World<T>) requires w.inv(), w.open_() ensures w.count() <= w.inner.buffer + w.tasks@.len()
{ reveal(pok); pigeon(w.queue(), w.tasks@.len() as int); }
pub proof fn pigeon(s: Seq<usize>, n: int) requires n >= 0, s.no_duplicates(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) < n ensures s.len() <= n
{
  let t = s.map_values(|x: usize| x as int);
  assert(t.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(s[i] != s[j]); } }
  t.unique_seq_to_set();
  let r = vstd::set_lib::set_int_range(0, n); vstd::set_lib::lemma_int_range(0, n);
  assert(t.to_set().subset_of(r)) by { assert forall|x: int| t.to_set().contains(x) implies r.contains(x) by { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(s[i] < n); } }
  vstd::set_lib::lemma_len_subset(t.to_set(), r);
}
impl<T> BoundedSenderInner<T> {
  pub open spec fn me(&self) -> int { self.sender_task.id as int }
  pub open spec fn ok(&self, w: World<T>) -> bool { self.me() < w.tasks@.len() && (w.parked(self.me()) ==> self.maybe_parked.v) }
  pub open spec fn idle(&self, w: World<T>) -> bool { self.ok(w) && !w.parked(self.me()) }
}
impl<T> Sender<T> {
  pub open spec fn ok(&self, w: World<T>) -> bool { self.0 is Some ==> self.0->Some_0.ok(w) }
  pub open spec fn idle(&self, w: World<T>) -> bool { self.0 is Some && self.0->Some_0.idle(w) }
}
// n is o after message m was accepted from sender `me`: queued once under its priority, the receiver woken, the sender parked when the buffer is exceeded
pub open spec fn accepted<T>(n: World<T>, o: World<T>, m: T, p: Priority, me: usize) -> bool {
  &&& n.hi() =~= (if p == Priority::High { o.hi().push(m) } else { o.hi() }) && n.lo() =~= (if p == Priority::High { o.lo() } else { o.lo().push(m) })
  &&& o.open_() && n.open_() && n.inner.recv_task.wakes() > o.inner.recv_task.wakes() && n.inner.num_senders == o.inner.num_senders && n.inner.buffer == o.inner.buffer
  &&& n.tasks@.len() == o.tasks@.len() && n.parked(me as int) == (o.count() + 1 > o.inner.buffer) && n.queue() =~= (if n.parked(me as int) { o.queue().push(me) } else { o.queue() })
  &&& same_but(n.tasks@, o.tasks@, me as int)
}
pub open spec fn refused<T>(n: World<T>, o: World<T>) -> bool { n.same_msgs(o) && n.same_wakes(o) && n.same_parks(o) }
// what sending must do, for a sender that is (or is not) held back
pub open spec fn sent<T>(n: World<T>, o: World<T>, m: T, p: Priority, me: usize, r: Result<(), TrySendError<T>>) -> bool {
  match r {
    Ok(_) => !o.parked(me as int) && accepted(n, o, m, p, me),
    Err(e) => e.val == m && refused(n, o) && match e.err.kind { SendErrorKind::Full => o.parked(me as int), SendErrorKind::Disconnected => !o.parked(me as int) && !o.open_() },
  }
}
// the front message of o was taken and one waiting sender released; or the end was reached
pub open spec fn received<T>(n: World<T>, o: World<T>, r: Poll<Option<(Priority, T)>>) -> bool {
  match r {
    Poll::Ready(Some(x)) => {
      &&& if o.hi().len() > 0 { x == (Priority::High, o.hi()[0]) && n.hi() =~= o.hi().subrange(1, o.hi().len() as int) && n.lo() =~= o.lo() } else { o.lo().len() > 0 && x == (Priority::Normal, o.lo()[0]) && n.lo() =~= o.lo().subrange(1, o.lo().len() as int) && n.hi() =~= o.hi() }
      &&& n.released(o, if o.queue().len() > 0 { 1 } else { 0 }) && n.open_() == o.open_()
    },
    Poll::Ready(None) => o.hi().len() == 0 && o.lo().len() == 0 && !o.open_() && n.same_msgs(o),
    Poll::Pending => o.hi().len() == 0 && o.lo().len() == 0 && o.open_() && n.same_msgs(o),
  }
}
"""

USPEC = r"""
pub struct UWorld<T> { pub inner: UnboundedInner<T> }
pub fn uat<'a, T>(h: &Option<Handle<T>>, w: &'a mut UWorld<T>) -> (r: &'a mut UnboundedInner<T>) requires h is Some ensures *r == old(w).inner, final(w).inner == *final(r) { &mut w.inner }
impl<T> UWorld<T> {
  pub open spec fn hi(&self) -> Seq<T> { self.inner.quick_message_queue@ }
  pub open spec fn lo(&self) -> Seq<T> { self.inner.message_queue@ }
  pub open spec fn open_(&self) -> bool { opn(self.inner.state.v) }
  pub open spec fn count(&self) -> int { num(self.inner.state.v) }
  pub open spec fn inv(&self) -> bool { self.inner.message_queue.ok() && self.inner.quick_message_queue.ok() && self.count() == self.hi().len() + self.lo().len() }
  pub open spec fn same(&self, o: UWorld<T>) -> bool { self.hi() == o.hi() && self.lo() == o.lo() && self.inner.state == o.inner.state && self.inner.num_senders == o.inner.num_senders }
}
pub open spec fn usent<T>(n: UWorld<T>, o: UWorld<T>, live: bool, m: T, p: Priority, r: Result<(), TrySendError<T>>) -> bool {
  match r {
    Ok(_) => live && uaccepted(n, o, m, p),
    Err(e) => e.val == m && e.err.kind is Disconnected && (!live || !o.open_()) && n == o,
  }
}
pub open spec fn uaccepted<T>(n: UWorld<T>, o: UWorld<T>, m: T, p: Priority) -> bool {
  &&& o.open_() && n.open_() && n.inner.num_senders == o.inner.num_senders && n.inner.recv_task.wakes() > o.inner.recv_task.wakes()
  &&& n.hi() =~= (if p == Priority::High { o.hi().push(m) } else { o.hi() }) && n.lo() =~= (if p == Priority::High { o.lo() } else { o.lo().push(m) })
}
pub open spec fn ureceived<T>(n: UWorld<T>, o: UWorld<T>, r: Poll<Option<(Priority, T)>>) -> bool {
  match r {
    Poll::Ready(Some(x)) => {
      &&& if o.hi().len() > 0 { x == (Priority::High, o.hi()[0]) && n.hi() =~= o.hi().subrange(1, o.hi().len() as int) && n.lo() =~= o.lo() } else { o.lo().len() > 0 && x == (Priority::Normal, o.lo()[0]) && n.lo() =~= o.lo().subrange(1, o.lo().len() as int) && n.hi() =~= o.hi() }
      &&& n.open_() == o.open_()
    },
    Poll::Ready(None) => o.hi().len() == 0 && o.lo().len() == 0 && !o.open_() && n.same(o),
    Poll::Pending => o.hi().len() == 0 && o.lo().len() == 0 && o.open_() && n.same(o),
  }
}
"""

def build(root='/repo'):
    u = Unit('channel', root)
    u.rule('matches ! ( $e , SendErrorKind :: $id )', 'match $e { SendErrorKind :: $id => true , _ => false }', 'matches! expanded')
    u.rule('usize :: max_value ( )', 'usize :: MAX', '')
    u.rule('Context < \'_ >', 'Context', '')
    u.rule('unsafe { $ida . $idq . pop_spin ( ) }', '$ida . $idq . pop_spin ( )', '')
    u.rule('unsafe fn', 'fn', '')
    u.rule(', _ : & mut Context', ', cx_ : & mut Context', '')
    u.rule('unsafe {', '{', 'unsafe blocks: every raw pointer access carries an obligation instead')
    u.text(HEAD + PRE)
    P = ['C21']
    # ---- queue
    qr = [('AtomicPtr < Node < T > >', 'AtomicPtr'), ('UnsafeCell < * mut Node < T > >', 'UnsafeCell'), ('tail : UnsafeCell , }', 'tail : UnsafeCell , pub heap : Heap < T > , pub ns : Ghost < Seq < Ptr > > , }')]
    u.item(Q, 'enum', 'PopResult'); u.item(Q, 'struct', 'Node', rules=qr); u.item(Q, 'struct', 'Queue', rules=qr)
    u.text(QSPEC)
    deref = [('( * $idp ) .', 'self . heap . at ( $idp ) .'), ('* self . tail . get ( )', 'self . tail . v'), ('Node :: new ( $x )', 'Node :: new ( & mut self . heap , $x )'), ('drop ( Box :: from_raw ( $e ) )', '{ self . heap . free ( $e ) ; proof { let ns = self . ns @ ; if ns . len ( ) > 0 { let ms = ns . subrange ( 1 , ns . len ( ) as int ) ; self . ns @ = ms ; drop_front ( ns ) ; } } }'),
             ('. value . take ( )', '. value . take ( )'), ('( & self', '( & mut self')]
    u.impl('impl<T> Node<T>', Q, [Fn('impl < T > Node < T >', 'new', props=P, sig='pub fn new(h: &mut Heap<T>, v: Option<T>) -> (ret: Ptr)',
        rules=[('Box :: into_raw ( Box :: new ( $e ) )', 'h . alloc ( $e )'), ('ptr :: null_mut ( )', 'null_mut ( )')],
        ensures=['ret.a != 0', '!old(h)@.dom().contains(ret)', 'final(h)@ == old(h)@.insert(ret, Node { next: AtomicPtr { v: Ptr { a: 0 } }, value: v })'])])
    QI = 'impl < T > Queue < T >'
    u.impl('impl<T> Queue<T>', Q, [
        Fn(QI, 'new', props=P, rules=[('Node :: new ( $x )', 'Node :: new ( & mut h , $x )'), ('let stub', 'let mut h = Heap :: empty ( ) ; let stub'), ('tail : UnsafeCell :: new ( $x ) , }', 'tail : UnsafeCell :: new ( $x ) , heap : h , ns : chain ( stub ) , }')],
           ensures=['ret.ok()', 'ret@ =~= Seq::<T>::empty()']),
        Fn(QI, 'push', props=P, rules=deref, requires=['old(self).ok()'], ensures=['final(self).ok()', 'final(self)@ =~= old(self)@.push(t)'],
           tail='proof { let ns = self.ns@; let n = self.head.v; assert(!ns.contains(n)); let ms = ns.push(n); self.ns@ = ms; assert(ns[ns.len() - 1] == old(self).head.v); assert forall|p: Ptr| self.heap@.dom().contains(p) <==> ms.contains(p) by { if ns.contains(p) { let i = choose|i: int| 0 <= i < ns.len() && ns[i] == p; assert(ms[i] == p); } if p == n { assert(ms[ns.len() as int] == n); } if ms.contains(p) && p != n { let i = choose|i: int| 0 <= i < ms.len() && ms[i] == p; assert(ns[i] == p); } } assert forall|i: int| 0 <= i < ns.len() implies ns[i] != n by { if ns[i] == n { assert(ns.contains(n)); } } }'),
        Fn(QI, 'pop', props=P, rules=deref + [('self . head . load ( Ordering :: Acquire ) == tail', 'self . head . load ( Ordering :: Acquire ) . eq ( tail )')], requires=['old(self).ok()'],
           ensures=['final(self).ok()', 'match ret { PopResult::Data(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ =~= old(self)@.subrange(1, old(self)@.len() as int), PopResult::Empty => old(self)@.len() == 0 && final(self)@ =~= old(self)@, PopResult::Inconsistent => false }'], mode=''),
        Fn(QI, 'pop_spin', props=P, rules=[('( & self', '( & mut self')], requires=['old(self).ok()'],
           ensures=['final(self).ok()', 'match ret { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ =~= old(self)@.subrange(1, old(self)@.len() as int), None => old(self)@.len() == 0 && final(self)@ =~= old(self)@ }'],
           loops=[Loop('loop', invariant=['self@ =~= old(self)@', 'self.ok()'], decreases='0int')]),
    ])
    u.impl('impl<T> Queue<T>', Q, [Fn('impl < T > Drop for Queue < T >', 'drop', props=P, rename='drop_', rules=deref, requires=['old(self).ok()'], ensures=['final(self).heap@ =~= Map::<Ptr, Node<T>>::empty()'],
        proof='proof { reveal(links); }', tail='proof { if self.ns@.len() > 0 { links_step(self.heap@, self.ns@); } links_empty(self.heap@, self.ns@); }',
        loops=[Loop('while ! cur . is_null ( )', invariant=['links(self.heap@, self.ns@)', 'cur.a != 0 ==> self.ns@.len() > 0 && self.ns@[0] == cur', 'cur.a == 0 ==> self.ns@.len() == 0'], decreases='self.ns@.len()',
            start='proof { links_step(self.heap@, self.ns@); } let ghost h0 = self.heap@; let ghost n0 = self.ns@;', end='proof { assert(self.heap@ =~= h0.remove(n0[0])); if self.ns@.len() > 0 { links_step(self.heap@, self.ns@); } else { assert(n0.len() == 1); } }')])])
    # ---- state word and errors
    for k in ('OPEN_MASK', 'INIT_STATE', 'MAX_CAPACITY', 'MAX_BUFFER'): u.item(M, 'const', k)
    u.item(M, 'struct', 'State', derive='#[derive(Clone, Copy)]'); u.item(M, 'struct', 'SendError'); u.item(M, 'struct', 'TrySendError'); u.item(M, 'enum', 'SendErrorKind'); u.item(M, 'struct', 'TryRecvError'); u.item(M, 'enum', 'Priority', derive='#[derive(Clone, Copy, PartialEq, Eq, Structural)]')
    u.text(MSPEC)
    u.impl('impl State', M, [Fn('impl State', 'is_closed', props=P, ensures=['ret == (!self.is_open && self.num_messages == 0)'])])
    u.fn(M, Fn(None, 'decode_state', props=P, ensures=['ret.is_open == opn(num)', 'ret.num_messages as int == crate::num(num)'], proof='proof { bits(num); assert(OPEN_MASK == 0x8000_0000_0000_0000 && MAX_CAPACITY == 0x7fff_ffff_ffff_ffff) by (compute); }'))
    u.fn(M, Fn(None, 'encode_state', props=P, requires=['state.num_messages < 0x8000_0000_0000_0000'], ensures=['opn(ret) == state.is_open', 'crate::num(ret) == state.num_messages'], proof='proof { bits(state.num_messages); assert(OPEN_MASK == 0x8000_0000_0000_0000) by (compute); }'))
    u.impl('impl SendError', M, [Fn('impl SendError', 'is_full', props=P, ensures=['ret == (self.kind is Full)']), Fn('impl SendError', 'is_disconnected', props=P, ensures=['ret == (self.kind is Disconnected)'])])
    TE = 'impl < T > TrySendError < T >'
    u.impl('impl<T> TrySendError<T>', M, [Fn(TE, 'is_full', props=P, ensures=['ret == (self.err.kind is Full)']), Fn(TE, 'is_disconnected', props=P, ensures=['ret == (self.err.kind is Disconnected)']), Fn(TE, 'into_inner', props=P, ensures=['ret == self.val']), Fn(TE, 'into_send_error', props=P, ensures=['ret == self.err'])])
    u.impl('impl Priority', M, [Fn('impl Priority', 'is_high', props=P, ensures=['ret == (self == Priority::High)'])])
    # ---- bounded
    br = [('Arc < BoundedInner < T > >', 'Handle < T >'), ('Arc < Mutex < SenderTask > >', 'TaskRef'), ('is_parked : bool , }', 'is_parked : bool , pub woken : Ghost < int > , }')]
    for k in ('BoundedInner', 'SenderTask', 'BoundedSenderInner', 'Sender', 'Receiver'): u.item(B, 'struct', k, rules=br)
    u.text(BSPEC)
    BI = 'impl < T > BoundedInner < T >'
    closed = ['!opn(final(self).state.v)', 'num(final(self).state.v) == num(old(self).state.v)']
    KEEP = ['final(self).buffer == old(self).buffer', 'final(self).message_queue == old(self).message_queue', 'final(self).quick_message_queue == old(self).quick_message_queue', 'final(self).parked_queue == old(self).parked_queue', 'final(self).num_senders == old(self).num_senders', 'final(self).recv_task == old(self).recv_task']
    mask = 'proof { let c = self.state.v; assert(OPEN_MASK == 0x8000_0000_0000_0000 && MAX_CAPACITY == 0x7fff_ffff_ffff_ffff) by (compute); bits(c); assert(!0x8000_0000_0000_0000usize == 0x7fff_ffff_ffff_ffffusize) by (bit_vector); bits(c & 0x7fff_ffff_ffff_ffff); }'
    u.impl('impl<T> BoundedInner<T>', B, [
        Fn(BI, 'max_senders', props=P, requires=['self.buffer < 0x3fff_ffff_ffff_ffff'], ensures=['ret == 0x7fff_ffff_ffff_ffff - self.buffer'], proof='proof { assert(MAX_CAPACITY == 0x7fff_ffff_ffff_ffff) by (compute); }'),
        Fn(BI, 'set_closed', props=P, rules=[('( & self', '( & mut self')], ensures=closed + KEEP, proof=mask),
    ])
    ST = 'impl SenderTask'
    u.impl(ST, B, [
        Fn(ST, 'new', props=P, rules=[('is_parked : $e , }', 'is_parked : $e , woken : Ghost ( 0 ) , }')], ensures=['!ret.is_parked', 'ret.task is None']),
        Fn(ST, 'notify', props=P, rules=[('task . wake ( ) ;', 'task . wake ( ) ; proof { self . woken @ = self . woken @ + 1 ; }'), ('self . task . take ( )', 'option_take ( & mut self . task )')], ensures=['!final(self).is_parked', 'final(self).task is None', 'old(self).task is Some ==> final(self).woken@ > old(self).woken@']),
    ])
    W = '( & mut self , w : & mut World < T >'
    call = [('self . $x ( )'.replace('$x', k), 'self . %s ( w )' % k) for k in ('inc_num_messages', 'park', 'unpark_one', 'dec_num_messages', 'next_message', 'close', 'close_channel')] + [('self . %s (' % k, 'self . %s ( w ,' % k) for k in ('poll_unparked', 'do_send_b', 'queue_push_and_signal', 'try_send', 'try_quick_send')]
    sr = [('( & self', W), ('( & mut self )', W + ' )')] + call + [('self . inner .', 'w . inner .'), ('let mut $id = self . sender_task . lock ( ) . unwrap ( )', 'let $id = lock ( & mut w . tasks , & self . sender_task )'), ('self . sender_task . lock ( ) . unwrap ( )', 'lock ( & mut w . tasks , & self . sender_task )'), ('$idt . lock ( ) . unwrap ( )', 'lock ( & mut w . tasks , & $idt )'),
        ('Arc :: new ( Mutex :: new ( $e ) )', 'new_task ( & mut w . tasks , $e )'), ('inner : w . inner . clone ( )', 'inner : self . inner . clone ( )'), ('debug_assert ! ( $e )', 'let ok_ = $e ; assert ( ok_ )'), ('self . poll_unparked ( w , Some ( cx ) ) . map ( Ok )', 'match self . poll_unparked ( w , Some ( cx ) ) { Poll :: Ready ( v ) => Poll :: Ready ( Ok ( v ) ) , Poll :: Pending => Poll :: Pending }'),
        ('cx . map ( | cx | $e )', 'match cx { Some ( cx ) => Some ( $e ) , None => None }')]
    SI = 'impl < T > BoundedSenderInner < T >'
    okw = ['old(w).inv()', 'old(self).ok(*old(w))']
    fin = ['final(w).inv()', 'final(self).ok(*final(w))', 'final(self).sender_task == old(self).sender_task']
    me = 'old(self).sender_task.id'
    room = 'old(w).count() < 0x7fff_ffff_ffff_ffff'
    ensent = lambda p: fin + ['sent(*final(w), *old(w), msg, %s, %s, ret)' % (p, me)]
    frozen = ['final(self).sender_task == old(self).sender_task', 'final(w).inner.message_queue == old(w).inner.message_queue', 'final(w).inner.quick_message_queue == old(w).inner.quick_message_queue', 'final(w).inner.buffer == old(w).inner.buffer', 'final(w).inner.num_senders == old(w).inner.num_senders', 'final(w).inner.recv_task == old(w).inner.recv_task']
    u.impl('impl<T> BoundedSenderInner<T>', B, [
        Fn(SI, 'try_send', props=P, rules=sr, requires=okw + [room], ensures=ensent('priority')),
        Fn(SI, 'do_send_b', props=P, rules=sr, requires=okw + [room, '!old(w).parked(old(self).me())'], ensures=ensent('priority') ),
        Fn(SI, 'queue_push_and_signal', props=P, rules=sr, requires=['old(w).inner.message_queue.ok()', 'old(w).inner.quick_message_queue.ok()'],
           ensures=['*final(self) == *old(self)', 'final(w).inner.message_queue.ok()', 'final(w).inner.quick_message_queue.ok()', 'final(w).tasks == old(w).tasks', 'final(w).inner.state == old(w).inner.state', 'final(w).inner.buffer == old(w).inner.buffer', 'final(w).inner.parked_queue == old(w).inner.parked_queue', 'final(w).inner.num_senders == old(w).inner.num_senders',
                    'final(w).inner.recv_task.wakes() > old(w).inner.recv_task.wakes()', 'final(w).hi() =~= (if priority == Priority::High { old(w).hi().push(msg) } else { old(w).hi() })', 'final(w).lo() =~= (if priority == Priority::High { old(w).lo() } else { old(w).lo().push(msg) })']),
        Fn(SI, 'inc_num_messages', props=P, rules=sr, requires=[room], ensures=['*final(self) == *old(self)', 'final(w).tasks == old(w).tasks', 'final(w).inner.parked_queue == old(w).inner.parked_queue'] + frozen[1:] + ['match ret { Some(n) => old(w).open_() && final(w).open_() && final(w).count() == old(w).count() + 1 && n == final(w).count(), None => !old(w).open_() && *final(w) == *old(w) }'],
           loops=[Loop('loop', invariant=['w.inner.state.v == curr', '*w == *old(w)', '*self == *old(self)', room], decreases='0int', start='proof { assert(MAX_CAPACITY == 0x7fff_ffff_ffff_ffff) by (compute); }')]),
        Fn(SI, 'park', props=P, rules=sr, requires=['old(w).pinv()', 'old(self).me() < old(w).tasks@.len()', '!old(w).parked(old(self).me())', 'old(w).open_()'],
           ensures=frozen + ['final(w).pinv()', 'final(self).ok(*final(w))', 'final(w).inner.state == old(w).inner.state', 'final(w).tasks@.len() == old(w).tasks@.len()', 'final(w).parked(old(self).me())', 'final(w).queue() =~= old(w).queue().push(%s)' % me, 'same_but(final(w).tasks@, old(w).tasks@, old(self).me())'],
           tail='proof { assert(w.queue() =~= old(w).queue().push(%s)); pok_park(old(w).queue(), w.tasks@, old(w).tasks@, %s); }' % (me, me)),
        Fn(SI, 'poll_ready', props=P, rules=sr, requires=okw, ensures=fin + ['refused(*final(w), *old(w))', 'match ret { Poll::Ready(Ok(_)) => old(w).open_() && !old(w).parked(old(self).me()), Poll::Ready(Err(e)) => !old(w).open_() && e.kind is Disconnected, Poll::Pending => old(w).open_() && old(w).parked(old(self).me()) && final(w).tasks@[old(self).me()].task is Some }']),
        Fn(SI, 'is_closed', props=P, rules=sr, ensures=['*final(self) == *old(self)', '*final(w) == *old(w)', 'ret == !old(w).open_()']),
        Fn(SI, 'close_channel', props=P, rules=sr, ensures=['*final(self) == *old(self)', 'final(w).tasks == old(w).tasks', 'final(w).inner.parked_queue == old(w).inner.parked_queue'] + frozen[1:-1] + ['!final(w).open_()', 'final(w).count() == old(w).count()', 'final(w).inner.recv_task.wakes() > old(w).inner.recv_task.wakes()', 'old(w).inv() ==> final(w).inv()']),
        Fn(SI, 'poll_unparked', props=P, rules=sr + [('task . task = $e ;', 'task . task = $e ; proof { pok_same ( w . queue ( ) , w . tasks @ , old ( w ) . tasks @ ) ; }'), ('return Poll :: Ready ( ( ) )', '{ proof { pok_same ( w . queue ( ) , w . tasks @ , old ( w ) . tasks @ ) ; } return Poll :: Ready ( ( ) ) }')], requires=['old(w).pinv()', 'old(self).ok(*old(w))'],
           ensures=frozen + ['final(w).pinv()', 'final(self).ok(*final(w))', 'final(w).inner == old(w).inner', 'final(w).same_parks(*old(w))', 'match ret { Poll::Ready(_) => !old(w).parked(old(self).me()), Poll::Pending => old(w).parked(old(self).me()) && (cx is Some ==> final(w).tasks@[old(self).me()].task is Some) }']),
    ])
    u.impl('impl<T> BoundedSenderInner<T>', B, [
        Fn('impl < T > Clone for BoundedSenderInner < T >', 'clone', props=P, rules=sr, rename='clone_', requires=['old(w).inv()', 'old(w).inner.num_senders.v < 0x7fff_ffff_ffff_ffff - old(w).inner.buffer', 'old(w).tasks@.len() < usize::MAX'],
           ensures=['*final(self) == *old(self)', 'final(w).inv()', 'ret.idle(*final(w))', 'ret.me() == old(w).tasks@.len()', 'final(w).tasks@.len() == old(w).tasks@.len() + 1', 'final(w).inner.num_senders.v == old(w).inner.num_senders.v + 1', 'final(w).hi() == old(w).hi()', 'final(w).lo() == old(w).lo()', 'final(w).inner.state == old(w).inner.state', 'forall|t: int| #![trigger final(w).tasks@[t]] 0 <= t < old(w).tasks@.len() ==> final(w).tasks@[t] == old(w).tasks@[t]'],
           loops=[Loop('loop', invariant=['w.inner.num_senders.v == curr', '*w == *old(w)', '*self == *old(self)', 'w.inv()', 'w.inner.num_senders.v < 0x7fff_ffff_ffff_ffff - w.inner.buffer', 'w.tasks@.len() < usize::MAX'], decreases='0int')]),
        Fn('impl < T > Drop for BoundedSenderInner < T >', 'drop', props=P, rules=sr, rename='drop_', requires=['old(w).inv()', 'old(w).inner.num_senders.v >= 1'],
           ensures=['final(w).inv()', 'final(w).hi() == old(w).hi()', 'final(w).lo() == old(w).lo()', 'final(w).open_() == (old(w).open_() && old(w).inner.num_senders.v > 1)', 'final(w).inner.num_senders.v == old(w).inner.num_senders.v - 1', 'old(w).inner.num_senders.v == 1 ==> final(w).inner.recv_task.wakes() > old(w).inner.recv_task.wakes()']),
    ])
    hr = [('( & self', W), ('( & mut self )', W + ' )'), ('inner . try_send (', 'inner . try_send ( w ,'), ('& self . 0', '& mut self . 0'), ('inner . close_channel ( )', 'inner . close_channel ( w )'), ('self . $idf ( msg ) . map_err ( | e | $e )', 'match self . $idf ( w , msg ) { Ok ( v ) => Ok ( v ) , Err ( e ) => Err ( $e ) }'), ('let inner = self . 0 . as_ref ( ) . ok_or ( $e ) ? ;', 'let inner = match & mut self . 0 { Some ( i ) => i , None => { return Poll :: Ready ( Err ( $e ) ) ; } } ;'), ('inner . poll_ready (', 'inner . poll_ready ( w ,'),
          ('self . 0 . as_ref ( ) . map ( $idq :: is_closed ) . unwrap_or ( $e )', 'match & mut self . 0 { Some ( i ) => i . is_closed ( w ) , None => $e }'), ('self . 0 = None', '{ if let Some ( i ) = & mut self . 0 { i . drop_ ( w ) ; } self . 0 = None }'), ('Sender ( self . 0 . clone ( ) )', 'Sender ( match & mut self . 0 { Some ( i ) => Some ( i . clone_ ( w ) ) , None => None } )')]
    SE = 'impl < T > Sender < T >'
    hok = ['old(w).inv()', 'old(self).ok(*old(w))']
    hfin = ['final(w).inv()', 'final(self).ok(*final(w))', 'final(self).0 is Some == old(self).0 is Some', 'old(self).0 is Some ==> final(self).0->Some_0.sender_task == old(self).0->Some_0.sender_task']
    gone = lambda p: hfin + ['old(self).0 is Some ==> sent(*final(w), *old(w), msg, %s, old(self).0->Some_0.sender_task.id, ret)' % p, 'old(self).0 is None ==> refused(*final(w), *old(w)) && ret is Err && ret->Err_0.val == msg && ret->Err_0.err.kind is Disconnected']
    gon2 = lambda p: hfin + ['old(self).0 is Some ==> (ret is Ok ==> old(self).idle(*old(w)) && accepted(*final(w), *old(w), msg, %s, old(self).0->Some_0.sender_task.id)) && (ret is Err ==> refused(*final(w), *old(w))) && (old(self).idle(*old(w)) && old(w).open_() ==> ret is Ok)' % p, 'old(self).0 is None ==> refused(*final(w), *old(w)) && ret is Err']
    u.impl('impl<T> Sender<T>', B, [
        Fn(SE, 'try_send', props=P, rules=hr, requires=hok + [room], ensures=gone('Priority::Normal')),
        Fn(SE, 'try_quick_send', props=P, rules=hr, requires=hok + [room], ensures=gone('Priority::High')),
        Fn(SE, 'start_send', props=P, rules=hr, requires=hok + [room], ensures=gon2('Priority::Normal')),
        Fn(SE, 'start_quick_send', props=P, rules=hr, requires=hok + [room], ensures=gon2('Priority::High')),
        Fn(SE, 'poll_ready', props=P, rules=hr, requires=hok, ensures=hfin + ['refused(*final(w), *old(w))', 'match ret { Poll::Ready(Ok(_)) => old(w).open_() && old(self).idle(*old(w)), Poll::Ready(Err(e)) => e.kind is Disconnected && (old(self).0 is None || !old(w).open_()), Poll::Pending => old(self).0 is Some && old(w).open_() && final(w).tasks@[old(self).0->Some_0.me()].task is Some }']),
        Fn(SE, 'is_closed', props=P, rules=hr, ensures=['*final(w) == *old(w)', 'ret == (old(self).0 is None || !old(w).open_())']),
        Fn(SE, 'close_channel', props=P, rules=hr, requires=['old(w).inv()'], ensures=['final(w).inv()', 'old(self).0 is Some ==> !final(w).open_()', 'final(w).hi() == old(w).hi()', 'final(w).lo() == old(w).lo()']),
        Fn(SE, 'disconnect', props=P, rules=hr, requires=['old(w).inv()', 'old(self).0 is Some ==> old(w).inner.num_senders.v >= 1'], ensures=['final(w).inv()', 'final(self).0 is None', 'final(w).hi() == old(w).hi()', 'final(w).lo() == old(w).lo()', 'final(w).open_() == (old(w).open_() && (old(self).0 is None || old(w).inner.num_senders.v > 1))']),
    ])
    u.impl('impl<T> Sender<T>', B, [Fn('impl < T > Clone for Sender < T >', 'clone', props=P, rules=hr, rename='clone_', requires=['old(w).inv()', 'old(w).inner.num_senders.v < 0x7fff_ffff_ffff_ffff - old(w).inner.buffer', 'old(w).tasks@.len() < usize::MAX'],
        ensures=['final(w).inv()', 'ret.0 is Some == old(self).0 is Some', 'ret.0 is Some ==> ret.idle(*final(w)) && final(w).inner.num_senders.v == old(w).inner.num_senders.v + 1', 'final(w).hi() == old(w).hi()', 'final(w).lo() == old(w).lo()', 'final(w).inner.state == old(w).inner.state'])])
    # the Sink side: what senders of a bounded channel do when they wait for room
    KR = [('( * self ) . $idm (', 'self . $idm ( w ,'), ('self . disconnect ( )', 'self . disconnect ( w )'), ('Err ( ref e )', 'Err ( e )')]
    sk = lambda n, a, r: 'pub fn sink_%s(&mut self, w: &mut World<T>, %s) -> (ret: %s)' % (n, a, r)
    PR = 'Poll<Result<(), SendError>>'
    ready = lambda i, s: 'match ret { Poll::Ready(Ok(_)) => %s.open_() && %s.idle(%s), Poll::Ready(Err(e)) => e.kind is Disconnected && (%s.0 is None || !%s.open_()), Poll::Pending => %s.0 is Some && %s.open_() && final(w).tasks@[%s.0->Some_0.me()].task is Some }' % (s, i, '*' + s, i, s, i, s, i)
    KI = 'impl < T > Sink < T > for Sender < T >'
    u.impl('impl<T> Sender<T>', K, [
        Fn(KI, 'poll_ready', props=P, rules=KR, sig=sk('poll_ready', 'cx: &mut Context', PR), requires=hok, ensures=hfin + ['refused(*final(w), *old(w))', ready('old(self)', 'old(w)')]),
        Fn(KI, 'start_send', props=P, rules=KR, sig=sk('start_send', 'msg: T', 'Result<(), SendError>'), requires=hok + [room], ensures=gon2('Priority::Normal')),
        Fn(KI, 'poll_flush', props=P, rules=KR, sig=sk('poll_flush', 'cx: &mut Context', PR), requires=hok, ensures=hfin + ['refused(*final(w), *old(w))', '!(ret matches Poll::Ready(Err(_)))', 'ret is Pending ==> old(w).open_() && final(w).tasks@[old(self).0->Some_0.me()].task is Some']),
        Fn(KI, 'poll_close', props=P, rules=KR, sig=sk('poll_close', '_cx: &mut Context', PR), requires=['old(w).inv()', 'old(self).0 is Some ==> old(w).inner.num_senders.v >= 1'], ensures=['final(w).inv()', 'ret == Poll::<Result<(), SendError>>::Ready(Ok(()))', 'final(self).0 is None', 'final(w).hi() == old(w).hi()', 'final(w).lo() == old(w).lo()']),
        Fn('impl < T > QuickSinkExt < T > for Sender < T >', 'start_quick_send', props=P, rules=KR, sig=sk('start_quick_send', 'msg: T', 'Result<(), SendError>'), requires=hok + [room], ensures=gon2('Priority::High')),
    ])
    # quick_send(..).await on a bounded sender: Si is instantiated with Sender<Item>
    u.item(K, 'struct', 'QuickSend', rules=[("< 'a , Si : ? Sized , Item >", "< 'a , Item >"), ("& 'a mut Si", "& 'a mut Sender < Item >")])
    QR = [('let this = & mut * self ;', 'let this = self ;'), ('Pin :: new ( & mut this . sink )', 'this . sink'), ('let mut sink = this . sink ;', ''), ('sink . as_mut ( ) . start_quick_send ( item ) ?', 'match this . sink . sink_start_quick_send ( w , item ) { Ok ( v ) => v , Err ( e ) => { return Poll :: Ready ( Err ( e ) ) ; } }'),
          ('match sink . as_mut ( ) . poll_ready ( cx ) ? { Poll :: Ready ( ( ) ) => $e ,', 'match this . sink . sink_poll_ready ( w , cx ) { Poll :: Ready ( Err ( e ) ) => { return Poll :: Ready ( Err ( e ) ) ; } Poll :: Ready ( Ok ( ( ) ) ) => $e ,'),
          ('ready ! ( this . sink . poll_flush ( cx ) ) ? ;', 'match this . sink . sink_poll_flush ( w , cx ) { Poll :: Pending => { return Poll :: Pending ; } Poll :: Ready ( Err ( e ) ) => { return Poll :: Ready ( Err ( e ) ) ; } Poll :: Ready ( Ok ( _ ) ) => { } }')]
    u.impl("impl<'a, T> QuickSend<'a, T>", K, [
        Fn("impl < 'a , Si : .* Item >", 'new', props=P, sig="pub fn new(sink: &'a mut Sender<T>, item: T) -> (ret: Self)", ensures=['*ret.sink == *old(sink)', 'ret.item == Some(item)']),
        Fn("impl < Si : .* Future for QuickSend .*", 'poll', props=P, rules=QR, sig='pub fn poll(&mut self, w: &mut World<T>, cx: &mut Context) -> (ret: %s)' % PR, requires=['old(w).inv()', 'old(self).sink.ok(*old(w))', room],
           ensures=['final(w).inv()', 'final(self).sink.ok(*final(w))',
                    # a message still held was not handed over; a message no longer held was, exactly once, unless the caller is told
                    'final(self).item is Some ==> ret is Pending && final(self).item == old(self).item && refused(*final(w), *old(w))',
                    'final(self).item is None && old(self).item is Some && !(ret matches Poll::Ready(Err(_))) ==> old(self).sink.0 is Some && accepted(*final(w), *old(w), old(self).item->Some_0, Priority::High, old(self).sink.0->Some_0.sender_task.id)',
                    'ret matches Poll::Ready(Err(_)) ==> refused(*final(w), *old(w))', 'old(self).item is None ==> refused(*final(w), *old(w))']),
    ])
    FLD = ('quick_message_queue', 'message_queue', 'parked_queue', 'state', 'set_closed')
    rr = [('unsafe { inner . $idq . pop_spin ( ) }', 'inner . $idq . pop_spin ( )'), ('( & self', W), ('( & mut self )', W + ' )')] + call + [('inner . %s' % f, 'w . inner . %s' % f) for f in FLD] + [('let inner = self . inner . as_mut ( ) . expect ( $e ) ;', 'assert ( self . inner . is_some ( ) ) ;'), ('if let Some ( inner ) = & mut self . inner', 'if self . inner . is_some ( )'), ('if let Some ( inner ) = & self . inner', 'if self . inner . is_some ( )'), ('$idt . lock ( ) . unwrap ( )', 'lock ( & mut w . tasks , & $idt )'), ('self . inner . as_ref ( ) . unwrap ( )', 'at ( & self . inner , w )'), (':: std :: thread', 'thread')]
    RI = 'impl < T > Receiver < T >'
    rfin = ['final(w).inv()', 'received(*final(w), *old(w), ret)', 'final(self).inner is Some == !(ret == Poll::<Option<(Priority, T)>>::Ready(None))', 'final(w).inner.buffer == old(w).inner.buffer', 'final(w).inner.num_senders == old(w).inner.num_senders']
    rreq = ['old(w).inv()', 'old(self).inner is Some']
    rkeep = ['final(w).inner.message_queue == old(w).inner.message_queue', 'final(w).inner.quick_message_queue == old(w).inner.quick_message_queue', 'final(w).inner.buffer == old(w).inner.buffer', 'final(w).inner.num_senders == old(w).inner.num_senders', 'final(w).inner.recv_task == old(w).inner.recv_task']
    u.impl('impl<T> Receiver<T>', B, [
        Fn(RI, 'close', props=P, rules=rr, requires=['old(w).inv()'], ensures=['final(w).inv()', '*final(self) == *old(self)'] + rkeep + ['old(self).inner is Some ==> !final(w).open_() && final(w).count() == old(w).count() && final(w).released(*old(w), old(w).queue().len() as int)', 'old(self).inner is None ==> *final(w) == *old(w)'],
           pre='', loops=[Loop('while let Some ( task ) = w . inner . parked_queue . pop_spin ( )', before='let ghost s_ = w.inner.state.v; let ghost mut n_: int = 0; let ghost mut p_ = *w; proof { if w.queue().len() > 0 { pok_first(w.queue(), w.tasks@); } }',
               invariant=['w.pinv()', '0 <= n_', 'old(w).pinv()', 'p_.released(*old(w), n_)', 'p_.pinv()', 'w.tasks@ == p_.tasks@', 'w.queue() =~= p_.queue()', 'w.queue().len() > 0 ==> w.queue()[0] < w.tasks@.len()', 'w.inner.state.v == s_', '*self == *old(self)'] + [x.replace('final(w)', 'w') for x in rkeep], ensures=['w.queue().len() == 0'], decreases='w.queue().len()',
               end='proof { let q = p_.queue(); assert(w.queue() =~= q.subrange(1, q.len() as int)); pok_release(q, w.tasks@, p_.tasks@); release_step(p_, *w, *old(w), n_); n_ = n_ + 1; p_ = *w; if w.queue().len() > 0 { pok_first(w.queue(), w.tasks@); } }')]),
        Fn(RI, 'try_next', props=P, rules=rr, requires=rreq, ensures=['final(w).inv()', 'match ret { Ok(m) => received(*final(w), *old(w), Poll::Ready(m)), Err(_) => received(*final(w), *old(w), Poll::<Option<(Priority, T)>>::Pending) }']),
        Fn(RI, 'next_message', props=P, rules=rr, requires=rreq, ensures=rfin + ['final(w).same_wakes(*old(w))']),
        Fn(RI, 'unpark_one', props=P, rules=rr, requires=['old(w).pinv()', 'old(self).inner is Some'], ensures=['*final(self) == *old(self)', 'final(w).pinv()', 'final(w).released(*old(w), if old(w).queue().len() > 0 { 1 } else { 0 })', 'final(w).inner.state == old(w).inner.state'] + rkeep,
           proof='proof { if w.queue().len() > 0 { pok_first(w.queue(), w.tasks@); } }', tail='proof { let q = old(w).queue(); if q.len() > 0 { assert(w.queue() =~= q.subrange(1, q.len() as int)); pok_release(q, w.tasks@, old(w).tasks@); release_step(*old(w), *w, *old(w), 0); } }'),
        Fn(RI, 'dec_num_messages', props=P, rules=rr, requires=['old(self).inner is Some', 'old(w).count() > 0'], ensures=['*final(self) == *old(self)', 'final(w).tasks == old(w).tasks', 'final(w).inner.parked_queue == old(w).inner.parked_queue', 'final(w).open_() == old(w).open_()', 'final(w).count() == old(w).count() - 1'] + rkeep),
    ])
    u.impl('impl<T> Receiver<T>', B, [
        Fn('impl < T > FusedStream for Receiver < T >', 'is_terminated', props=P, ensures=['ret == (self.inner is None)']),
        Fn('impl < T > Stream for Receiver < T >', 'poll_next', props=P, rules=rr, sig='pub fn poll_next(&mut self, w: &mut World<T>, cx: &mut Context) -> (ret: Poll<Option<(Priority, T)>>)', requires=rreq, ensures=rfin + ['ret is Pending ==> final(w).inner.recv_task.regs() > old(w).inner.recv_task.regs() && final(w).inner.recv_task.task() == old(cx).task()']),
        Fn('impl < T > Drop for Receiver < T >', 'drop', props=P, rules=rr, rename='drop_', requires=['old(w).inv()'], ensures=['final(w).inv()', 'old(self).inner is Some ==> !final(w).open_() && final(w).count() == 0 && final(w).queue().len() == 0'],
           loops=[Loop('loop', except_break=['self.inner is Some'], invariant=['w.inv()', '!w.open_()', 'w.queue().len() == 0'], ensures=['w.count() == 0'], decreases='w.hi().len() + w.lo().len()')]),
    ])
    u.fn(B, Fn(None, 'channel', props=P, sig='pub fn channel<T>(buffer: usize) -> (ret: (Sender<T>, Receiver<T>, World<T>))', requires=['buffer < 0x3fff_ffff_ffff_ffff'],
        rules=[('let inner = Arc :: new ( $e ) ;', 'let mut w = World { inner : $e , tasks : Vec :: new ( ) } ; let inner = Handle :: new ( ) ;'), ('Arc :: new ( Mutex :: new ( $e ) )', 'new_task ( & mut w . tasks , $e )'), ('( Sender ( $e ) , rx )', '( Sender ( $e ) , rx , w )')],
        ensures=['ret.2.inv()', 'ret.2.open_()', 'ret.2.count() == 0', 'ret.2.inner.buffer == buffer', 'ret.0.idle(ret.2)', 'ret.1.inner is Some', 'ret.2.inner.num_senders.v == 1'], proof='proof { assert(MAX_BUFFER == 0x3fff_ffff_ffff_ffff && INIT_STATE == 0x8000_0000_0000_0000) by (compute); reveal(pok); }'))
    # ---- unbounded
    W = '( & mut self , w : & mut UWorld < T >'
    ur = [('Arc < UnboundedInner < T > >', 'Handle < T >')]
    for k in ('UnboundedInner', 'UnboundedSenderInner', 'UnboundedSender', 'UnboundedReceiver'): u.item(UB, 'struct', k, rules=ur)
    u.text(USPEC)
    u.impl('impl<T> UnboundedInner<T>', UB, [Fn('impl < T > UnboundedInner < T >', 'set_closed', props=P, rules=[('( & self', '( & mut self')], ensures=closed + KEEP[1:3] + KEEP[4:], proof=mask)])
    sr = [('( & self', W), ('( & mut self )', W + ' )')] + call + [('self . inner .', 'w . inner .'), ('inner : w . inner . clone ( )', 'inner : self . inner . clone ( )'), ('debug_assert ! ( $e )', 'let ok_ = $e ; assert ( ok_ )')]
    SI = 'impl < T > UnboundedSenderInner < T >'
    ufrozen = ['*final(self) == *old(self)', 'final(w).inner.message_queue == old(w).inner.message_queue', 'final(w).inner.quick_message_queue == old(w).inner.quick_message_queue', 'final(w).inner.num_senders == old(w).inner.num_senders']
    u.impl('impl<T> UnboundedSenderInner<T>', UB, [
        Fn(SI, 'poll_ready_nb', props=P, rules=sr, ensures=['*final(w) == *old(w)', '*final(self) == *old(self)', 'match ret { Poll::Ready(Ok(_)) => old(w).open_(), Poll::Ready(Err(e)) => !old(w).open_() && e.kind is Disconnected, Poll::Pending => false }']),
        Fn(SI, 'queue_push_and_signal', props=P, rules=sr, requires=['old(w).inner.message_queue.ok()', 'old(w).inner.quick_message_queue.ok()'],
           ensures=['*final(self) == *old(self)', 'final(w).inner.message_queue.ok()', 'final(w).inner.quick_message_queue.ok()', 'final(w).inner.state == old(w).inner.state', 'final(w).inner.num_senders == old(w).inner.num_senders',
                    'final(w).inner.recv_task.wakes() > old(w).inner.recv_task.wakes()', 'final(w).hi() =~= (if priority == Priority::High { old(w).hi().push(msg) } else { old(w).hi() })', 'final(w).lo() =~= (if priority == Priority::High { old(w).lo() } else { old(w).lo().push(msg) })']),
        Fn(SI, 'inc_num_messages', props=P, rules=sr, requires=[room], ensures=ufrozen + ['final(w).inner.recv_task == old(w).inner.recv_task', 'match ret { Some(n) => old(w).open_() && final(w).open_() && final(w).count() == old(w).count() + 1 && n == final(w).count(), None => !old(w).open_() && *final(w) == *old(w) }'],
           loops=[Loop('loop', invariant=['w.inner.state.v == curr', '*w == *old(w)', '*self == *old(self)', room], decreases='0int', start='proof { assert(MAX_CAPACITY == 0x7fff_ffff_ffff_ffff) by (compute); }')]),
        Fn(SI, 'is_closed', props=P, rules=sr, ensures=['*final(self) == *old(self)', '*final(w) == *old(w)', 'ret == !old(w).open_()']),
        Fn(SI, 'close_channel', props=P, rules=sr, ensures=ufrozen + ['!final(w).open_()', 'final(w).count() == old(w).count()', 'final(w).inner.recv_task.wakes() > old(w).inner.recv_task.wakes()']),
    ])
    u.impl('impl<T> UnboundedSenderInner<T>', UB, [
        Fn('impl < T > Clone for UnboundedSenderInner < T >', 'clone', props=P, rules=sr, rename='clone_', requires=['old(w).inner.num_senders.v < 0x3fff_ffff_ffff_ffff'],
           ensures=['*final(self) == *old(self)', 'final(w).inner.num_senders.v == old(w).inner.num_senders.v + 1', 'final(w).inner.state == old(w).inner.state'] + ufrozen[1:3],
           loops=[Loop('loop', invariant=['w.inner.num_senders.v == curr', '*w == *old(w)', '*self == *old(self)', 'w.inner.num_senders.v < 0x3fff_ffff_ffff_ffff'], decreases='0int', start='proof { assert(MAX_BUFFER == 0x3fff_ffff_ffff_ffff) by (compute); }')]),
        Fn('impl < T > Drop for UnboundedSenderInner < T >', 'drop', props=P, rules=sr, rename='drop_', requires=['old(w).inv()', 'old(w).inner.num_senders.v >= 1'],
           ensures=['final(w).inv()', 'final(w).hi() == old(w).hi()', 'final(w).lo() == old(w).lo()', 'final(w).open_() == (old(w).open_() && old(w).inner.num_senders.v > 1)', 'final(w).inner.num_senders.v == old(w).inner.num_senders.v - 1', 'old(w).inner.num_senders.v == 1 ==> final(w).inner.recv_task.wakes() > old(w).inner.recv_task.wakes()']),
    ])
    hr = [('( & self', W), ('( & mut self )', W + ' )'), ('self . do_send_nb (', 'self . do_send_nb ( w ,'), ('inner . inc_num_messages ( )', 'inner . inc_num_messages ( w )'), ('inner . queue_push_and_signal (', 'inner . queue_push_and_signal ( w ,'), ('& self . 0', '& mut self . 0'), ('inner . close_channel ( )', 'inner . close_channel ( w )'), ('self . do_send_nb ( w , $x ) . map_err ( | e | $e )', 'match self . do_send_nb ( w , $x ) { Ok ( v ) => Ok ( v ) , Err ( e ) => Err ( $e ) }'),
          ('let inner = self . 0 . as_ref ( ) . ok_or ( $e ) ? ;', 'let inner = match & mut self . 0 { Some ( i ) => i , None => { return Poll :: Ready ( Err ( $e ) ) ; } } ;'), ('inner . poll_ready_nb ( )', 'inner . poll_ready_nb ( w )'), ('self . 0 . as_ref ( ) . map ( $idq :: is_closed ) . unwrap_or ( $e )', 'match & mut self . 0 { Some ( i ) => i . is_closed ( w ) , None => $e }'), ('self . 0 = None', '{ if let Some ( i ) = & mut self . 0 { i . drop_ ( w ) ; } self . 0 = None }'),
          ('UnboundedSender ( self . 0 . clone ( ) )', 'UnboundedSender ( match & mut self . 0 { Some ( i ) => Some ( i . clone_ ( w ) ) , None => None } )'), ('self . 0 . as_ref ( ) . and_then ( | inner | $e )', 'match & mut self . 0 { Some ( inner ) => $e , None => None }'), ('inner . inner . state', 'w . inner . state')]
    SE = 'impl < T > UnboundedSender < T >'
    urq = ['old(w).inv()', room]
    ufn = ['final(w).inv()', '(final(self).0 is Some) == (old(self).0 is Some)']
    us = lambda p: ufn + ['usent(*final(w), *old(w), old(self).0 is Some, msg, %s, ret)' % p]
    us2 = lambda p: ufn + ['ret is Ok ==> old(self).0 is Some && uaccepted(*final(w), *old(w), msg, %s)' % p, 'ret is Err ==> (old(self).0 is None || !old(w).open_()) && *final(w) == *old(w) && ret->Err_0.kind is Disconnected']
    u.impl('impl<T> UnboundedSender<T>', UB, [
        Fn(SE, 'poll_ready', props=P, rules=hr, ensures=['*final(w) == *old(w)', 'match ret { Poll::Ready(Ok(_)) => old(self).0 is Some && old(w).open_(), Poll::Ready(Err(e)) => e.kind is Disconnected && (old(self).0 is None || !old(w).open_()), Poll::Pending => false }']),
        Fn(SE, 'is_closed', props=P, rules=hr, ensures=['*final(w) == *old(w)', 'ret == (old(self).0 is None || !old(w).open_())']),
        Fn(SE, 'close_channel', props=P, rules=hr, requires=['old(w).inv()'], ensures=['final(w).inv()', 'old(self).0 is Some ==> !final(w).open_()', 'final(w).hi() == old(w).hi()', 'final(w).lo() == old(w).lo()']),
        Fn(SE, 'disconnect', props=P, rules=hr, requires=['old(w).inv()', 'old(self).0 is Some ==> old(w).inner.num_senders.v >= 1'], ensures=['final(w).inv()', 'final(self).0 is None', 'final(w).hi() == old(w).hi()', 'final(w).lo() == old(w).lo()', 'final(w).open_() == (old(w).open_() && (old(self).0 is None || old(w).inner.num_senders.v > 1))']),
        Fn(SE, 'len', props=P, rules=hr, requires=['old(w).inv()'], ensures=['*final(w) == *old(w)', 'match ret { Some(n) => old(self).0 is Some && old(w).open_() && n == old(w).hi().len() + old(w).lo().len(), None => old(self).0 is None || !old(w).open_() }']),
        Fn(SE, 'do_send_nb', props=P, rules=hr, requires=urq, ensures=us('priority')),
        Fn(SE, 'start_send', props=P, rules=hr, requires=urq, ensures=us2('Priority::Normal')),
        Fn(SE, 'start_quick_send', props=P, rules=hr, requires=urq, ensures=us2('Priority::High')),
        Fn(SE, 'unbounded_send', props=P, rules=hr, requires=urq, ensures=us('Priority::Normal')),
        Fn(SE, 'unbounded_quick_send', props=P, rules=hr, requires=urq, ensures=us('Priority::High')),
    ])
    u.impl('impl<T> UnboundedSender<T>', UB, [Fn('impl < T > Clone for UnboundedSender < T >', 'clone', props=P, rules=hr, rename='clone_', requires=['old(w).inv()', 'old(w).inner.num_senders.v < 0x3fff_ffff_ffff_ffff'],
        ensures=['final(w).inv()', '(ret.0 is Some) == (old(self).0 is Some)', 'ret.0 is Some ==> final(w).inner.num_senders.v == old(w).inner.num_senders.v + 1', 'final(w).hi() == old(w).hi()', 'final(w).lo() == old(w).lo()', 'final(w).inner.state == old(w).inner.state'])])
    UK = [('UnboundedSender :: $idm ( & * self ,', 'self . $idm ( w ,'), ('UnboundedSender :: $idm ( & self ,', 'self . $idm ( w ,'), ('UnboundedSender :: $idm ( * self ,', 'self . $idm ( w ,'), ('self . disconnect ( )', 'self . disconnect ( w )'), ('self . close_channel ( )', 'self . close_channel ( w )'), ('self . $idm ( msg ) . map_err ( TrySendError :: into_send_error )', 'match self . $idm ( w , msg ) { Ok ( v ) => Ok ( v ) , Err ( e ) => Err ( e . into_send_error ( ) ) }')]
    gone_ = ['final(w).inv()', 'ret == Poll::<Result<(), SendError>>::Ready(Ok(()))', 'final(w).hi() == old(w).hi()', 'final(w).lo() == old(w).lo()']
    for pre, hd, end in (('sink', 'UnboundedSender < T >', 'final(self).0 is None'), ('ref_sink', '& UnboundedSender < T >', 'old(self).0 is Some ==> !final(w).open_()')):
        uk = lambda n, a, r: 'pub fn %s_%s(&mut self, w: &mut UWorld<T>, %s) -> (ret: %s)' % (pre, n, a, r)
        KI = 'impl < T > Sink < T > for ' + hd
        u.impl('impl<T> UnboundedSender<T>', K, [
            Fn(KI, 'poll_ready', props=P, rules=UK, sig=uk('poll_ready', 'cx: &mut Context', PR), ensures=['*final(w) == *old(w)', 'match ret { Poll::Ready(Ok(_)) => old(self).0 is Some && old(w).open_(), Poll::Ready(Err(e)) => e.kind is Disconnected && (old(self).0 is None || !old(w).open_()), Poll::Pending => false }']),
            Fn(KI, 'start_send', props=P, rules=UK, sig=uk('start_send', 'msg: T', 'Result<(), SendError>'), requires=urq, ensures=us2('Priority::Normal')),
            Fn(KI, 'poll_flush', props=P, rules=UK, sig=uk('poll_flush', '_cx: &mut Context', PR), ensures=['*final(w) == *old(w)', 'ret == Poll::<Result<(), SendError>>::Ready(Ok(()))']),
            Fn(KI, 'poll_close', props=P, rules=UK, sig=uk('poll_close', '_cx: &mut Context', PR), requires=['old(w).inv()', 'old(self).0 is Some ==> old(w).inner.num_senders.v >= 1'], ensures=gone_ + [end]),
            Fn('impl < T > QuickSinkExt < T > for ' + hd, 'start_quick_send', props=P, rules=UK, sig=uk('start_quick_send', 'msg: T', 'Result<(), SendError>'), requires=urq, ensures=us2('Priority::High')),
        ])
    rr = [(a, b.replace('World <', 'UWorld <').replace('UUWorld', 'UWorld').replace('at ( &', 'uat ( &')) for a, b in rr]
    RI = 'impl < T > UnboundedReceiver < T >'
    rfin = ['final(w).inv()', 'ureceived(*final(w), *old(w), ret)', 'final(self).inner is Some == !(ret == Poll::<Option<(Priority, T)>>::Ready(None))', 'final(w).inner.num_senders == old(w).inner.num_senders']
    rkeep = ['final(w).inner.message_queue == old(w).inner.message_queue', 'final(w).inner.quick_message_queue == old(w).inner.quick_message_queue', 'final(w).inner.num_senders == old(w).inner.num_senders', 'final(w).inner.recv_task == old(w).inner.recv_task']
    u.impl('impl<T> UnboundedReceiver<T>', UB, [
        Fn(RI, 'close', props=P, rules=rr, requires=['old(w).inv()'], ensures=['final(w).inv()', '*final(self) == *old(self)'] + rkeep + ['old(self).inner is Some ==> !final(w).open_() && final(w).count() == old(w).count()', 'old(self).inner is None ==> *final(w) == *old(w)']),
        Fn(RI, 'try_next', props=P, rules=rr, requires=rreq, ensures=['final(w).inv()', 'match ret { Ok(m) => ureceived(*final(w), *old(w), Poll::Ready(m)), Err(_) => ureceived(*final(w), *old(w), Poll::<Option<(Priority, T)>>::Pending) }']),
        Fn(RI, 'next_message', props=P, rules=rr, requires=rreq, ensures=rfin + ['final(w).inner.recv_task == old(w).inner.recv_task']),
        Fn(RI, 'dec_num_messages', props=P, rules=rr, requires=['old(self).inner is Some', 'old(w).count() > 0'], ensures=['*final(self) == *old(self)', 'final(w).open_() == old(w).open_()', 'final(w).count() == old(w).count() - 1'] + rkeep),
    ])
    u.impl('impl<T> UnboundedReceiver<T>', UB, [
        Fn('impl < T > FusedStream for UnboundedReceiver < T >', 'is_terminated', props=P, ensures=['ret == (self.inner is None)']),
        Fn('impl < T > Stream for UnboundedReceiver < T >', 'poll_next', props=P, rules=rr, sig='pub fn poll_next(&mut self, w: &mut UWorld<T>, cx: &mut Context) -> (ret: Poll<Option<(Priority, T)>>)', requires=rreq, ensures=rfin + ['ret is Pending ==> final(w).inner.recv_task.regs() > old(w).inner.recv_task.regs() && final(w).inner.recv_task.task() == old(cx).task()']),
        Fn('impl < T > Drop for UnboundedReceiver < T >', 'drop', props=P, rules=rr, rename='drop_', requires=['old(w).inv()'], ensures=['final(w).inv()', 'old(self).inner is Some ==> !final(w).open_() && final(w).count() == 0'],
           loops=[Loop('loop', except_break=['self.inner is Some'], invariant=['w.inv()', '!w.open_()'], ensures=['w.count() == 0'], decreases='w.hi().len() + w.lo().len()')]),
    ])
    u.fn(UB, Fn(None, 'unbounded', props=P, sig='pub fn unbounded<T>() -> (ret: (UnboundedSender<T>, UnboundedReceiver<T>, UWorld<T>))',
        rules=[('let inner = Arc :: new ( $e ) ;', 'let mut w = UWorld { inner : $e } ; let inner = Handle :: new ( ) ;'), ('( UnboundedSender ( $e ) , rx )', '( UnboundedSender ( $e ) , rx , w )')],
        ensures=['ret.2.inv()', 'ret.2.open_()', 'ret.2.count() == 0', 'ret.0.0 is Some', 'ret.1.inner is Some', 'ret.2.inner.num_senders.v == 1'], proof='proof { assert(INIT_STATE == 0x8000_0000_0000_0000) by (compute); }'))
    u.text(FOOT)
    return u
