"""Verus prelude shared by the units: std / bytes / futures items with ASSUMED contracts.
Everything under an external_body or assume_specification attribute is an unchecked assumption;
tools/verify.py counts and lists them in the evidence."""

HEAD = r'''
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, unreachable_code, unused_must_use, non_snake_case, unused_parens, unused_braces, unreachable_patterns)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::seq_lib::*;
use std::task::Poll;
use std::collections::{HashMap, HashSet, VecDeque, BTreeMap};

verus! {
global size_of usize == 8;

pub mod io {
  use super::*;
  #[derive(Clone, Copy)]
  pub enum ErrorKind { NotFound, ConnectionReset, ConnectionAborted, ConnectionRefused, NotConnected, AddrInUse, BrokenPipe, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Other, UnexpectedEof }
  pub struct Error { pub kind: ErrorKind }
  impl Error {
    pub fn new(kind: ErrorKind, m: &str) -> (r: Error) ensures r.kind == kind { Error { kind } }
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.kind { self.kind }
  }
  impl From<ErrorKind> for Error { fn from(k: ErrorKind) -> Error { Error { kind: k } } }
  impl vstd::std_specs::convert::FromSpecImpl<ErrorKind> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ErrorKind) -> Self { Error { kind: v } }
  }
  pub type Result<T> = core::result::Result<T, Error>;
}

#[verifier::external_type_specification]
#[verifier::accept_recursive_types(T)]
pub struct ExPoll<T>(Poll<T>);

pub assume_specification<T: std::cmp::Ord> [std::cmp::min::<T>] (a: T, b: T) -> (r: T)
    ensures r == if vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(&b, &a) == Some(core::cmp::Ordering::Less) { b } else { a };

pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::is_empty] (q: &VecDeque<T, A>) -> (b: bool)
    ensures b == (q@.len() == 0);

pub assume_specification<T> [std::mem::replace::<T>] (a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;

pub assume_specification [u32::overflowing_add] (a: u32, b: u32) -> (r: (u32, bool)) ensures r.0 == (if a + b > u32::MAX { (a + b - 0x1_0000_0000) as u32 } else { (a + b) as u32 }), r.1 == (a + b > u32::MAX);

#[verifier::external_body]
pub struct Waker { x: usize }
impl Waker {
  #[verifier::external_body]
  pub fn wake(self) { unimplemented!() }
  #[verifier::external_body]
  pub fn wake_by_ref(&self) { unimplemented!() }
  #[verifier::external_body]
  pub fn clone(&self) -> (r: Waker) ensures r.task() == self.task() { unimplemented!() }
  #[verifier::external_body]
  pub fn will_wake(&self, o: &Waker) -> (r: bool) ensures r ==> self.task() == o.task() { unimplemented!() }
  // the task it wakes
  pub uninterp spec fn task(&self) -> int;
}
#[verifier::external_body]
pub struct Context { x: usize }
impl Context {
  #[verifier::external_body]
  pub fn waker(&self) -> (r: &Waker) ensures r.task() == self.task() { unimplemented!() }
  // the task that polls
  pub uninterp spec fn task(&self) -> int;
}
'''

BYTES = r'''
#[verifier::opaque]
pub open spec fn be16(s: Seq<u8>) -> int { s[0] as int * 256 + s[1] as int }
#[verifier::opaque]
pub open spec fn be32(s: Seq<u8>) -> int { s[0] as int * 16777216 + s[1] as int * 65536 + s[2] as int * 256 + s[3] as int }
#[verifier::opaque]
pub open spec fn to_be16(v: u16) -> Seq<u8> { seq![((v as int / 256) % 256) as u8, (v as int % 256) as u8] }
#[verifier::opaque]
pub open spec fn to_be32(v: u32) -> Seq<u8> { seq![((v as int / 16777216) % 256) as u8, ((v as int / 65536) % 256) as u8, ((v as int / 256) % 256) as u8, (v as int % 256) as u8] }
pub proof fn lemma_be16(v: u16) ensures to_be16(v).len() == 2, be16(to_be16(v)) == v { reveal(be16); reveal(to_be16); }
pub proof fn lemma_be32(v: u32) ensures to_be32(v).len() == 4, be32(to_be32(v)) == v {
  reveal(be32); reveal(to_be32); let x = v as int; let a = x / 16777216; let p = x / 65536; let q = x / 256;
  assert(p / 256 == a); assert(q / 256 == p); assert(p == a * 256 + p % 256); assert(q == p * 256 + q % 256); assert(x == q * 256 + x % 256); assert(a % 256 == a);
}
pub proof fn lemma_eb16(s: Seq<u8>, v: u16) requires s.len() == 2, v as int == be16(s) ensures to_be16(v) =~= s { reveal(be16); reveal(to_be16); }
pub proof fn lemma_eb32(s: Seq<u8>, v: u32) requires s.len() == 4, v as int == be32(s) ensures to_be32(v) =~= s {
  reveal(be32); reveal(to_be32);
  let x = v as int; let a = s[0] as int; let b = s[1] as int; let c = s[2] as int; let d = s[3] as int;
  assert(x % 256 == d); assert(x / 256 == a * 65536 + b * 256 + c); assert((x / 256) % 256 == c);
  assert(x / 65536 == a * 256 + b); assert((x / 65536) % 256 == b); assert(x / 16777216 == a);
}

#[verifier::external_body]
pub fn to_vec_u8(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub struct Bytes { x: Vec<u8> }
impl Bytes {
  pub uninterp spec fn view(&self) -> Seq<u8>;
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body]
  pub fn default() -> (r: Bytes) ensures r@.len() == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn new() -> (r: Bytes) ensures r@.len() == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn from(v: Vec<u8>) -> (r: Bytes) ensures r@ == v@ { unimplemented!() }
  #[verifier::external_body]
  pub fn clone(&self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn split_to(&mut self, at: usize) -> (r: Bytes)
    requires at <= old(self)@.len()
    ensures r@ == old(self)@.subrange(0, at as int), final(self)@ == old(self)@.subrange(at as int, old(self)@.len() as int) { unimplemented!() }
}
#[verifier::external_body]
pub struct BytesMut { x: Vec<u8> }
impl BytesMut {
  pub uninterp spec fn view(&self) -> Seq<u8>;
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body]
  pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
  #[verifier::external_body]
  pub fn clear(&mut self) ensures final(self)@.len() == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn extend_from_slice(&mut self, s: &[u8]) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
  #[verifier::external_body]
  pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn split_to(&mut self, at: usize) -> (r: BytesMut)
    requires at <= old(self)@.len()
    ensures r@ == old(self)@.subrange(0, at as int), final(self)@ == old(self)@.subrange(at as int, old(self)@.len() as int) { unimplemented!() }
  #[verifier::external_body]
  pub fn advance(&mut self, at: usize)
    requires at <= old(self)@.len()
    ensures final(self)@ == old(self)@.subrange(at as int, old(self)@.len() as int) { unimplemented!() }
  #[verifier::external_body]
  pub fn get_u8(&mut self) -> (r: u8)
    requires old(self)@.len() >= 1
    ensures r == old(self)@[0], final(self)@ == old(self)@.subrange(1, old(self)@.len() as int) { unimplemented!() }
  #[verifier::external_body]
  pub fn get_u16(&mut self) -> (r: u16)
    requires old(self)@.len() >= 2
    ensures r as int == be16(old(self)@.subrange(0, 2)), final(self)@ == old(self)@.subrange(2, old(self)@.len() as int) { unimplemented!() }
  #[verifier::external_body]
  pub fn get_u32(&mut self) -> (r: u32)
    requires old(self)@.len() >= 4
    ensures r as int == be32(old(self)@.subrange(0, 4)), final(self)@ == old(self)@.subrange(4, old(self)@.len() as int) { unimplemented!() }
  #[verifier::external_body]
  pub fn put_u8(&mut self, v: u8) ensures final(self)@ == old(self)@.push(v) { unimplemented!() }
  #[verifier::external_body]
  pub fn put_u16(&mut self, v: u16) ensures final(self)@ == old(self)@ + to_be16(v) { unimplemented!() }
  #[verifier::external_body]
  pub fn put_u32(&mut self, v: u32) ensures final(self)@ == old(self)@ + to_be32(v) { unimplemented!() }
  #[verifier::external_body]
  pub fn put(&mut self, v: Bytes) ensures final(self)@ == old(self)@ + v@ { unimplemented!() }
}
'''

# ghost-logged channel ends: log() = everything successfully handed over so far
CHANNELS = r'''
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct UnboundedSender<T> { x: Vec<T> }
pub struct SendError {}
impl<T> UnboundedSender<T> {
  pub uninterp spec fn log(&self) -> Seq<T>;
  #[verifier::external_body]
  pub fn unbounded_send(&mut self, e: T) -> (r: Result<(), SendError>)
    ensures r is Ok ==> final(self).log() == old(self).log().push(e), r is Err ==> final(self).log() == old(self).log() { unimplemented!() }
  #[verifier::external_body]
  pub fn is_closed(&self) -> bool { unimplemented!() }
}
'''
FOOT = '''
fn main() {}
}
'''
