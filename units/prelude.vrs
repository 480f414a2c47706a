// Specification prelude: contracts of the traits the extracted code is generic over.
// TRUSTED (assumed of every destination): the contracts of RxObserver / SubscriptionLike /
// TeardownCollection below; every extracted subscriber is verified against them as a client.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, unused_parens, unused_must_use, non_camel_case_types)]
use vstd::prelude::*;
use core::marker::PhantomData;
use core::ops::{Deref, DerefMut};
verus! {

pub mod vp {
use super::*;

pub type PhantomInvariant<T> = PhantomData<T>;

pub enum Ev<I, E> { Next(I), Error(E), Complete, Unsub }
impl<I, E> Ev<I, E> {
    pub open spec fn term(self) -> bool { !(self is Next) }
}
pub closed spec fn has_term<I, E>(s: Seq<Ev<I, E>>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).term() }
pub open spec fn pfx<A>(p: Seq<A>, s: Seq<A>) -> bool { p.len() <= s.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] s[i] == p[i] }

/// a destination no longer reacts: closed, or it already observed a terminal signal
pub open spec fn done<D: ObserverInput>(o: D) -> bool { o.closed() || has_term(o.log()) }
/// one signal reaches a destination
pub open spec fn step<D: ObserverInput>(o: D, f: D, e: Ev<D::In, D::InError>) -> bool {
    &&& f.log() == if done(o) { o.log() } else { o.log().push(e) }
    &&& (o.closed() ==> f.closed())
    &&& f.tds() == o.tds()
}
/// `f` is `o` after exactly `outs` were delivered to it, in order. A destination that is done
/// (closed / terminated) takes part in nothing more, so `outs` may stop early only there.
pub open spec fn dl<D: ObserverInput>(o: D, f: D, outs: Seq<Ev<D::In, D::InError>>) -> bool {
    &&& pfx(o.log(), f.log())
    &&& f.log().len() <= o.log().len() + outs.len()
    &&& forall|i: int| o.log().len() <= i < f.log().len() ==> #[trigger] f.log()[i] == outs[i - o.log().len()]
    &&& (f.log().len() == o.log().len() + outs.len() || done(f))
    &&& (done(o) ==> f.log() == o.log())
    &&& (o.closed() ==> f.closed())
    &&& f.tds() == o.tds()
}
/// short sequences
pub open spec fn s0<A>() -> Seq<A> { Seq::empty() }
pub open spec fn s1<A>(a: A) -> Seq<A> { Seq::empty().push(a) }
pub open spec fn s2<A>(a: A, b: A) -> Seq<A> { Seq::empty().push(a).push(b) }
pub open spec fn s3<A>(a: A, b: A, c: A) -> Seq<A> { Seq::empty().push(a).push(b).push(c) }

pub broadcast proof fn lem_term_push<I, E>(s: Seq<Ev<I, E>>, e: Ev<I, E>)
    ensures #[trigger] has_term(s.push(e)) == (has_term(s) || e.term())
{
    let t = s.push(e);
    if has_term(s) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).term(); assert(t[i].term()); }
    if e.term() { assert(t[s.len() as int].term()); }
    if has_term(t) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).term(); if i < s.len() { assert(s[i].term()); } }
}
pub broadcast proof fn lem_term_pfx<I, E>(p: Seq<Ev<I, E>>, s: Seq<Ev<I, E>>)
    requires #[trigger] pfx(p, s), has_term(p)
    ensures has_term(s)
{
    let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).term(); assert(s[i].term());
}
pub broadcast proof fn lem_term_empty<I, E>()
    ensures !#[trigger] has_term(Seq::<Ev<I, E>>::empty())
{}
pub proof fn lem_no_term<I, E>(s: Seq<Ev<I, E>>)
    requires !has_term(s)
    ensures forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i]).term()
{}
pub broadcast proof fn lem_pfx_refl<A>(s: Seq<A>)
    ensures #[trigger] pfx(s, s)
{}
pub broadcast proof fn lem_dl_term<D: ObserverInput>(o: D, f: D, outs: Seq<Ev<D::In, D::InError>>)
    requires #[trigger] dl(o, f, outs), has_term(outs)
    ensures done(f)
{
    if !done(f) {
        let i = choose|i: int| 0 <= i < outs.len() && (#[trigger] outs[i]).term();
        assert(f.log()[o.log().len() + i].term());
    }
}
/// delivery composes
pub proof fn lem_dl_trans<D: ObserverInput>(o: D, m: D, f: D, a: Seq<Ev<D::In, D::InError>>, b: Seq<Ev<D::In, D::InError>>)
    requires dl(o, m, a), dl(m, f, b)
    ensures dl(o, f, a + b)
{
    if done(o) { }
    if m.log().len() < o.log().len() + a.len() { assert(done(m)); assert(f.log() == m.log()); }
    if has_term(m.log()) { lem_term_pfx(m.log(), f.log()); }
    assert forall|i: int| o.log().len() <= i < f.log().len() implies #[trigger] f.log()[i] == (a + b)[i - o.log().len()] by {
        if i < m.log().len() { assert(f.log()[i] == m.log()[i]); }
    }
}
/// assumed: cloning a value gives the same value
#[verifier::external_body]
pub broadcast proof fn ax_same<T: Clone>(a: T, b: T) requires #[trigger] call_ensures(T::clone, (&a,), b) ensures a == b {}
pub broadcast group grp { ax_same, lem_term_push, lem_term_pfx, lem_term_empty, lem_pfx_refl, lem_dl_term, ax_nz }

pub trait Signal: Sized {}
impl<T> Signal for T {}

#[verifier::external_body]
pub struct Never { x: u64 }
#[verifier::external_body]
pub struct Teardown { x: u64 }

/// ghost state of a destination: every signal it reacted to, in order; whether it is closed; the
/// teardowns it was handed
pub trait ObserverInput: Sized {
    type In;
    type InError;
    spec fn log(&self) -> Seq<Ev<Self::In, Self::InError>>;
    spec fn closed(&self) -> bool;
    spec fn tds(&self) -> Seq<Teardown>;
}
pub trait RxObserver: ObserverInput {
    fn next(&mut self, next: Self::In)
        ensures step(*old(self), *final(self), Ev::Next(next));
    fn error(&mut self, error: Self::InError)
        ensures step(*old(self), *final(self), Ev::Error(error));
    fn complete(&mut self)
        ensures step(*old(self), *final(self), Ev::Complete);
}
pub trait SubscriptionLike: ObserverInput {
    fn is_closed(&self) -> (r: bool)
        ensures r == self.closed();
    fn unsubscribe(&mut self)
        ensures step(*old(self), *final(self), Ev::Unsub), final(self).closed();
}
pub trait TeardownCollection: ObserverInput {
    fn add_teardown(&mut self, teardown: Teardown)
        ensures final(self).log() == old(self).log(), final(self).closed() == old(self).closed(), final(self).tds() == old(self).tds().push(teardown);
}
pub trait Subscriber: RxObserver + SubscriptionLike + TeardownCollection {}


// ---- std items without a vstd specification (assumed contracts)
pub assume_specification<T> [core::mem::drop::<T>] (x: T);
#[verifier::external_body]
pub fn replace<T>(dest: &mut T, src: T) -> (r: T) ensures r == *old(dest), *final(dest) == src { unimplemented!() }
#[verifier::external_body]
pub fn take<T: Default>(dest: &mut T) -> (r: T) ensures r == *old(dest), call_ensures(T::default, (), *final(dest)) { unimplemented!() }
#[verifier::external_body]
pub fn swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { unimplemented!() }
pub assume_specification<T> [Option::<T>::or] (o: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == if o is Some { o } else { b };
pub assume_specification<T> [bool::then_some] (o: bool, x: T) -> (r: Option<T>)
    ensures r == if o { Some(x) } else { None };
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == match o { Some(x) => Some(*x), None => None };
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, value: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(value);
pub assume_specification<T: Default> [Option::<T>::get_or_insert_default] (o: &mut Option<T>) -> (r: &mut T)
    ensures *final(o) == Some(*final(r)), *old(o) matches Some(v) ==> *r == v,
      *old(o) is None ==> call_ensures(T::default, (), *r);
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and] (o: Option<T>, f: F) -> (r: bool)
    requires o matches Some(x) ==> f.requires((x,))
    ensures o is None ==> !r, o matches Some(x) ==> f.ensures((x,), r);

/// user callbacks with an effect of their own: `seen` records every call
/// .. which may act on the destination: `eff` is whatever the callback did to it
pub trait CbDest<I, E>: Sized {
    spec fn seen(&self) -> Seq<I>;
    spec fn eff<D: Subscriber<In = I, InError = E>>(&self, x: I, before: D, after: D, r: bool) -> bool;
    fn call_cb<D: Subscriber<In = I, InError = E>>(&mut self, x: &I, d: &mut D) -> (r: bool)
        ensures final(self).seen() == old(self).seen().push(*x), old(self).eff(*x, *old(d), *final(d), r);
}
pub trait CbSub<I, E>: Sized {
    spec fn calls(&self) -> nat;
    spec fn eff<D: Subscriber<In = I, InError = E>>(&self, before: D, after: D) -> bool;
    fn call_cb<D: Subscriber<In = I, InError = E>>(&mut self, d: &mut D)
        ensures final(self).calls() == old(self).calls() + 1, old(self).eff(*old(d), *final(d));
}
/// `t`, when executed, runs `f`
pub uninterp spec fn td_runs<F>(t: Teardown, f: F) -> bool;
impl Teardown {
    #[verifier::external_body]
    pub fn new<F: FnOnce()>(f: F) -> (r: Self) ensures td_runs(r, f) { unimplemented!() }
}

/// dyn Provider: `gives` says which values it may provide
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Prov<T> { x: PhantomData<T> }
impl<T> Prov<T> {
    pub uninterp spec fn gives(&self, t: T) -> bool;
    #[verifier::external_body]
    pub fn provide(&self) -> (r: T) ensures self.gives(r) { unimplemented!() }
}
impl<T> Clone for Prov<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// Arc<Mutex<T>> / Arc<RwLock<T>>: sequential view (one handle at a time)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Lk<T> { x: PhantomData<T> }
impl<T> View for Lk<T> { type V = T; uninterp spec fn view(&self) -> T; }
impl<T> Lk<T> {
    /// which cell: clones of the Arc are the same one
    pub uninterp spec fn cell(&self) -> int;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self) ensures r@ == t { unimplemented!() }
    #[verifier::external_body]
    pub fn lock_ignore_poison(&mut self) -> (r: &mut T) ensures *r == old(self)@, *final(r) == final(self)@, final(self).cell() == old(self).cell() { unimplemented!() }
    #[verifier::external_body]
    pub fn lock_clear_poison(&mut self) -> (r: &mut T) ensures *r == old(self)@, *final(r) == final(self)@, final(self).cell() == old(self).cell() { unimplemented!() }
    #[verifier::external_body]
    pub fn lock_ro(&self) -> (r: &T) ensures *r == self@ { unimplemented!() }
}

/// NonZero<usize>
#[verifier::external_body]
pub struct Nz { x: usize }
impl Copy for Nz {}
impl Clone for Nz { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn nz(n: Nz) -> usize;
pub broadcast axiom fn ax_nz(n: Nz) ensures #[trigger] nz(n) > 0;
impl Nz {
    #[verifier::external_body]
    pub fn new(x: usize) -> (r: Option<Nz>) ensures x == 0 <==> r is None, r matches Some(n) ==> nz(n) == x { unimplemented!() }
    #[verifier::external_body]
    pub fn get(self) -> (r: usize) ensures r == nz(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_min() -> (r: Nz) ensures nz(r) == 1 { unimplemented!() }
}
impl From<Nz> for usize { #[verifier::external_body] fn from(b: Nz) -> (r: usize) ensures r == nz(b) { unimplemented!() } }

// ---- iteration: `for p in e { .. }` is desugared to vf_it / vf_more / vf_step
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VfIt<T> { x: PhantomData<T> }
impl<T> VfIt<T> {
    pub uninterp spec fn rem(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn vf_more(&self) -> (r: bool) ensures r == (self.rem().len() > 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_take(self, n: usize) -> (r: Self) ensures r.rem() == self.rem().take(if n <= self.rem().len() { n as int } else { self.rem().len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_skip(self, n: usize) -> (r: Self) ensures r.rem() == self.rem().skip(if n <= self.rem().len() { n as int } else { self.rem().len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_rev(self) -> (r: Self) ensures r.rem() == self.rem().reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_step(&mut self) -> (r: T) requires old(self).rem().len() > 0 ensures r == old(self).rem()[0], final(self).rem() == old(self).rem().subrange(1, old(self).rem().len() as int) { unimplemented!() }
}
pub trait VfIntoIt: Sized {
    type T;
    spec fn vf_items(&self) -> Seq<Self::T>;
    fn vf_it(self) -> (r: VfIt<Self::T>) ensures r.rem() == self.vf_items();
}
impl<T> VfIntoIt for Vec<T> {
    type T = T;
    open spec fn vf_items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vf_it(self) -> (r: VfIt<T>) { unimplemented!() }
}
pub trait VfSeqLike: Sized { type T; spec fn vf_seq(&self) -> Seq<Self::T>; }
impl<T> VfSeqLike for Vec<T> { type T = T; open spec fn vf_seq(&self) -> Seq<T> { self@ } }
impl<T> VfSeqLike for std::collections::VecDeque<T> { type T = T; open spec fn vf_seq(&self) -> Seq<T> { self@ } }
#[verifier::external_body]
pub fn vf_drain_all<C: VfSeqLike>(c: &mut C) -> (r: Vec<C::T>)
    ensures r@ == old(c).vf_seq(), final(c).vf_seq() == Seq::<C::T>::empty() { unimplemented!() }

/// vec![..]
#[verifier::external_body]
pub fn vf_vec<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { unimplemented!() }

#[verifier::external_body]
pub fn vf_unreachable() -> (r: !) requires false { unimplemented!() }
/// a panic ends the call: partial correctness
#[verifier::external_body]
pub fn vf_panic() -> (r: !) { unimplemented!() }
} // mod vp
pub use vp::*;
impl vstd::std_specs::convert::FromSpecImpl<Nz> for usize {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(b: Nz) -> usize { nz(b) }
}

//@struct rx_core_common SubscriptionClosedFlag
//@fn rx_core_common SubscriptionClosedFlag::close
  ensures final(self).is_closed
//@end
//@fn rx_core_common SubscriptionClosedFlag::is_closed
  ensures r == self.is_closed
//@end
//@fn rx_core_common SubscriptionClosedFlag::deref impl assoc=Target
  ensures *r == self.is_closed
//@end
impl vstd::std_specs::convert::FromSpecImpl<bool> for SubscriptionClosedFlag {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(b: bool) -> Self { SubscriptionClosedFlag { is_closed: b } }
}
//@fn rx_core_common SubscriptionClosedFlag::from impl args=b
//@end
} // verus!

// standard contracts of forwarding methods
//@macro fwd_error CRATE TY
//@fn $CRATE $TY::error args=x
  requires old(self).pre()
  ensures final(self).pre(), old(self).inv() ==> final(self).inv(), dl(old(self).destination, final(self).destination, s1(Ev::Error(x)))
//@end
//@endmacro
//@macro fwd_complete CRATE TY
//@fn $CRATE $TY::complete
  requires old(self).pre()
  ensures final(self).pre(), old(self).inv() ==> final(self).inv(), dl(old(self).destination, final(self).destination, s1(Ev::Complete))
//@end
//@endmacro
//@macro fwd_sub CRATE TY
//@fn $CRATE $TY::is_closed
  requires self.pre()
  ensures self.destination.closed() ==> r, r ==> done(self.destination)
//@end
//@fn $CRATE $TY::unsubscribe
  requires old(self).pre()
  ensures final(self).pre(), old(self).inv() ==> final(self).inv(), dl(old(self).destination, final(self).destination, s1(Ev::Unsub)), done(final(self).destination)
//@end
//@fn $CRATE $TY::add_teardown args=t
  requires old(self).pre()
  ensures final(self).pre(), old(self).inv() ==> final(self).inv(), final(self).destination.tds() == old(self).destination.tds().push(t),
    final(self).destination.log() == old(self).destination.log(), old(self).destination.closed() ==> final(self).destination.closed()
//@end
//@endmacro
//@macro fwd_all CRATE TY
//@use fwd_error $CRATE $TY
//@use fwd_complete $CRATE $TY
//@use fwd_sub $CRATE $TY
//@endmacro
//@macro inv0 CRATE TY
//@spec $CRATE $TY
    pub open spec fn pre(&self) -> bool { true }
    pub open spec fn inv(&self) -> bool { true }
//@end
//@endmacro
//@macro opnew CRATE TY
//@fn $CRATE $TY::new args=destination
  ensures r.inv(), dl(destination, r.destination, s0())
//@end
//@endmacro
