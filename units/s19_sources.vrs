#![verifier::exec_allows_no_decreases_clause]
//@include prelude.vrs
verus! {
broadcast use {vp::grp, sr::g, dd::ax_max, dd::ax_dur};
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::{Add, AddAssign};
} // verus!
//@include lib_sched.vrs
//@include lib_timed.vrs
verus! {
pub mod sr {
use super::*;
/// cloning an item gives the same item (assumed)
#[verifier::external_body]
pub broadcast proof fn ax_clone<T: Clone>(a: T, b: T) requires #[trigger] call_ensures(T::clone, (&a,), b) ensures a == b {}
pub broadcast group g { ax_clone }
}
pub use sr::*;
//@replace observer . upgrade () => observer
//@replace destination . upgrade () => destination
//@replace < Destination :: Upgraded > => < Destination >
//@replace Destination : 'static + UpgradeableObserver => Destination : Subscriber
//@replace UpgradeableObserver => Subscriber
//@replace + Send + Sync => 
//@replace 'static + => 
/// a subscription that is closed from the start: it ends what it is given; `to` is what became of that
pub trait Observable: Sized { type Out; type OutError; }
#[verifier::reject_recursive_types(D)]
pub struct Inert<D> { pub to: Ghost<D> }
impl<D: Subscriber> Inert<D> {
    #[verifier::external_body]
    pub fn new(d: D) -> (r: Self) ensures dl(d, r.to@, s1(Ev::Unsub)), done(r.to@) { unimplemented!() }
}
/// the contract of Inert::new is that of the real one
//@replace impl SubscriptionLike + 'static => & mut impl SubscriptionLike
//@struct rx_core_subscription_inert InertSubscription
//@fn rx_core_subscription_inert InertSubscription::new args=d
  ensures dl(*old(d), *final(d), s1(Ev::Unsub)), done(*final(d))
//@end
/// it is closed, nothing is left to release: what is added to it runs at once
//@fn rx_core_subscription_inert InertSubscription::is_closed
  ensures r
//@end
//@replace InertSubscription :: new => Inert :: new
//@replace InertSubscription => Inert < Destination >
// ---------------------------------------------------------------- constant sources
//@replace subscribe < Destination > => subscribe < Destination : Subscriber < In = Out , InError = Never > >
//@struct rx_core_observable_just JustObservable
//@fn rx_core_observable_just JustObservable::new args=x
  ensures r.value == x
//@end
//@fn rx_core_observable_just JustObservable::subscribe args=o
  ensures dl(o, r.to@, s3(Ev::Next(old(self).value), Ev::Complete, Ev::Unsub)), done(r.to@), *final(self) == *old(self)
//@end
//@replace subscribe < Destination : Subscriber < In = Out , InError = Never > > => subscribe < Destination : Subscriber < In = Never , InError = Never > >
//@struct rx_core_observable_empty EmptyObservable
//@fn rx_core_observable_empty EmptyObservable::subscribe args=o
  ensures dl(o, r.to@, s2(Ev::Complete, Ev::Unsub)), done(r.to@)
//@end
//@replace subscribe < Destination : Subscriber < In = Never , InError = Never > > => subscribe < Destination : Subscriber < In = Never , InError = OutError > >
//@struct rx_core_observable_throw ThrowObservable
//@fn rx_core_observable_throw ThrowObservable::new args=x
  ensures r.error == x
//@end
//@fn rx_core_observable_throw ThrowObservable::subscribe args=o
  ensures dl(o, r.to@, s2(Ev::Error(old(self).error), Ev::Unsub)), done(r.to@), *final(self) == *old(self)
//@end
//@replace subscribe < Destination : Subscriber < In = Never , InError = OutError > > => subscribe < Destination : Subscriber < In = Never , InError = Never > >
//@struct rx_core_observable_closed ClosedObservable
//@fn rx_core_observable_closed ClosedObservable::subscribe args=o
  ensures dl(o, r.to@, s1(Ev::Unsub)), done(r.to@)
//@end
// ---------------------------------------------------------------- iterators
/// something to iterate: the same items every time it is iterated (assumed), maybe without end
pub trait IntoIterator: Sized {
    type Item;
    type IntoIter: Pull<Item = Self::Item>;
    spec fn at(&self, n: nat) -> Option<Self::Item>;
    fn into_iter(self) -> (r: Self::IntoIter) ensures r.n() == 0, forall|i: nat| #[trigger] r.at(i) == self.at(i);
}
/// `n` items were taken so far
pub trait Pull: Sized {
    type Item;
    spec fn at(&self, n: nat) -> Option<Self::Item>;
    spec fn n(&self) -> nat;
    /// nothing is taken when there is no one to receive it
    fn next<D: ObserverInput>(&mut self, d: &D) -> (r: Option<Self::Item>)
        requires !d.closed()
        ensures forall|i: nat| #[trigger] final(self).at(i) == old(self).at(i), r == old(self).at(old(self).n()), final(self).n() == old(self).n() + if r is Some { 1nat } else { 0nat };
}
pub open spec fn nexts<S: IntoIterator, E>(s: S, n: nat) -> Seq<Ev<S::Item, E>> { Seq::new(n, |i: int| Ev::Next(s.at(i as nat)->0)) }
pub open spec fn has<S: IntoIterator>(s: S, n: nat) -> bool { forall|i: nat| i < n ==> #[trigger] s.at(i) is Some }
/// the items in order, all of them and the completion, unless it closed before
pub open spec fn played<S: IntoIterator, D: ObserverInput<In = S::Item>>(s: S, o: D, f: D) -> bool {
    exists|n: nat| #[trigger] has(s, n) && (done(f) && dl(o, f, nexts(s, n)) || s.at(n) is None && dl(o, f, nexts(s, n).push(Ev::Complete)))
}
pub proof fn lem_nexts<S: IntoIterator, E>(s: S, n: nat)
    ensures s.at(n) is Some ==> nexts::<S, E>(s, n + 1) == nexts::<S, E>(s, n).push(Ev::Next(s.at(n)->0))
{ if s.at(n) is Some { assert(nexts::<S, E>(s, n + 1) =~= nexts::<S, E>(s, n).push(Ev::Next(s.at(n)->0))); } }
//@struct rx_core_observable_iterator IteratorObservable
//@fn rx_core_observable_iterator IteratorObservable::new args=x
  ensures r.iterator == x
//@end
//@replace subscribe < Destination : Subscriber < In = Never , InError = Never > > => subscribe < Destination : Subscriber < In = Iterator :: Item , InError = Never > >
//@fn rx_core_observable_iterator IteratorObservable::subscribe args=o env=next,%iter:&destination
  ensures played(old(self).iterator, o, r.to@), done(r.to@), *final(self) == *old(self)
//@@loop 0
  invariant_except_break dl(o, destination, nexts(self.iterator, iter.n()))
  invariant has(self.iterator, iter.n()), forall|i: nat| #[trigger] iter.at(i) == self.iterator.at(i), *self == *old(self)
  ensures played(self.iterator, o, destination), done(destination)
//@@lstart 0
  let ghost d0 = destination; let ghost n0 = iter.n(); proof { lem_nexts::<_, Never>(self.iterator, n0); }
//@end
// ---------------------------------------------------------------- an iterator, one item every so many ticks
//@replace SharedSubscriber < Destination > => Shr < Destination >
//@replace SharedSubscriber :: new => Shr :: new
/// a value delivered: exactly it, unless closed; its consumers may end the subscription meanwhile
pub open spec fn gave<I, E>(a: Seq<Ev<I, E>>, shut: bool, b: Seq<Ev<I, E>>, bshut: bool, x: I) -> bool {
    if shut { b == a && bshut } else { b == a.push(Ev::Next(x)) || bshut && exists|e: Ev<I, E>| !(e is Next) && b == #[trigger] a.push(Ev::Next(x)).push(e) } }
pub uninterp spec fn mid_of<I, E>(n: int) -> (Seq<Ev<I, E>>, bool);
impl<D: ObserverInput> Shr<D> {
    pub open spec fn mid(&self) -> (Seq<Ev<D::In, D::InError>>, bool) { mid_of(self.last_next()) }
    pub open spec fn given(&self, f: Self, x: D::In) -> bool { f.cell() == self.cell() && f.tds() == self.tds() && gave(self.sent(), self.shut(), f.sent(), f.shut(), x) }
    #[verifier::external_body]
    pub fn new(d: D) -> (r: Self) ensures r.sent() == d.log(), r.shut() == (d.closed() || has_term(d.log())), r.tds() == d.tds() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self, x: D::In) ensures final(self).mid() == (final(self).sent(), final(self).shut()), old(self).given(*final(self), x) { unimplemented!() }
}
/// Peekable: peeking takes nothing
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct Pk<I> { x: PhantomData<I> }
impl<I: IntoIterator> Pk<I> {
    pub uninterp spec fn at(&self, n: nat) -> Option<I::Item>;
    pub uninterp spec fn n(&self) -> nat;
    #[verifier::external_body]
    pub fn new(i: I::IntoIter) -> (r: Self) ensures r.n() == i.n(), forall|k: nat| #[trigger] r.at(k) == i.at(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<I::Item>) ensures forall|i: nat| #[trigger] final(self).at(i) == old(self).at(i), r == old(self).at(old(self).n()), final(self).n() == old(self).n() + if r is Some { 1nat } else { 0nat } { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&I::Item>) ensures forall|i: nat| #[trigger] final(self).at(i) == old(self).at(i), final(self).n() == old(self).n(), r is Some == old(self).at(old(self).n()) is Some { unimplemented!() }
}
//@replace Peekable < Iterator :: IntoIter > => Pk < Iterator >
//@replace iterator . peekable () => Pk :: new ( iterator )
//@struct rx_core_observable_iterator_on_tick OnTickObservableOptions
//@struct rx_core_observable_iterator_on_tick OnTickIteratorState
//@spec rx_core_observable_iterator_on_tick OnTickIteratorState
    pub closed spec fn d(&self) -> Shr<Destination> { self.destination }
    pub closed spec fn it(&self) -> Pk<Iterator> { self.peekable_iterator }
    pub closed spec fn ticks(&self) -> int { self.observed_ticks as int }
    pub closed spec fn nth(&self) -> int { self.emit_at_every_nth_tick as int }
    pub open spec fn ok(&self) -> bool { 0 <= self.ticks() < self.nth() }
    pub open spec fn same(&self, f: Self) -> bool { f.nth() == self.nth() && f.d().cell() == self.d().cell() && forall|i: nat| #[trigger] f.it().at(i) == self.it().at(i) }
//@end
#[verifier::reject_recursive_types(Iterator)]
#[verifier::reject_recursive_types(Destination)]
pub struct TickWork<Destination: Subscriber<In = Iterator::Item, InError = Never>, Iterator: IntoIterator> { pub state: OnTickIteratorState<Destination, Iterator> }
/// what becomes of the next item, `x`, and of the one after it, `y`
pub open spec fn turn<I>(a: (Seq<Ev<I, Never>>, bool), m: (Seq<Ev<I, Never>>, bool), b: (Seq<Ev<I, Never>>, bool), x: Option<I>, y: Option<I>) -> bool {
    if a.1 { b.1 && b.0 == a.0 } else { match x {
        Some(x) => if m.1 { gave(a.0, a.1, b.0, b.1, x) && b.1 } else if y is Some { b.0 == a.0.push(Ev::Next(x)) } else { b.1 && b.0 == a.0.push(Ev::Next(x)).push(Ev::Complete) },
        None => b.1 && b.0 == a.0.push(Ev::Complete),
    } } }
/// every nth tick one item, in order, the end with the last one; nothing once closed
//@fn rx_core_observable_iterator_on_tick OnTickIteratorSubscription::new as=tick closure=0 chead=impl<Destination:Subscriber<In=Iterator::Item,InError=Never>,Iterator:IntoIterator>~TickWork<Destination,Iterator> cargs=state:&mut~OnTickIteratorState<Destination,Iterator> ptypes=Tick;Tick rtype=WorkResult
  requires old(state).ok()
  ensures old(state).same(*final(state)), r is Pending ==> final(state).ok(),
    if old(state).d().shut() { r is Done && final(state).d().sent() == old(state).d().sent() && final(state).it().n() == old(state).it().n() }
    else if old(state).ticks() + 1 < old(state).nth() { r is Pending && final(state).ticks() == old(state).ticks() + 1 && final(state).d() == old(state).d() && final(state).it().n() == old(state).it().n() }
    else { final(state).ticks() == 0 && r is Done == final(state).d().shut() && final(state).it().n() == old(state).it().n() + (if old(state).it().at(old(state).it().n()) is Some { 1nat } else { 0nat })
      && turn((old(state).d().sent(), old(state).d().shut()), final(state).d().mid(), (final(state).d().sent(), final(state).d().shut()), old(state).it().at(old(state).it().n()), old(state).it().at(old(state).it().n() + 1)) }
//@@start
  proof { let t = (state.observed_ticks + 1) as nat; let m = state.emit_at_every_nth_tick as nat;
    if t < m { vstd::arithmetic::div_mod::lemma_small_mod(t, m); } else { vstd::arithmetic::div_mod::lemma_mod_self_0(m as int); } }
//@end
//@replace SchedulerHandle < S > => Sched < TickWork < Destination , Iterator > >
//@replace let scheduler_clone = scheduler . clone () ; => let mut scheduler = scheduler ;
//@replace scheduler_clone . lock () => scheduler . lock ()
//@struct rx_core_observable_iterator_on_tick OnTickIteratorSubscription +vf_s:PhantomData<S>=PhantomData
//@spec rx_core_observable_iterator_on_tick OnTickIteratorSubscription
    pub closed spec fn d(&self) -> Shr<Destination> { self.destination }
    pub closed spec fn acts(&self) -> Seq<Act<TickWork<Destination, Iterator>>> { self.scheduler@ }
    pub closed spec fn id(&self) -> Option<WorkCancellationId> { self.owner_id }
//@end
//@fn rx_core_observable_iterator_on_tick OnTickIteratorSubscription::new lift=0:TickWork:state args=d,it,o,s
  ensures
    o.emit_at_every_nth_tick == 0 ==> r.acts() == s@ && r.id() is None,
    o.emit_at_every_nth_tick == 0 || !o.start_on_subscribe ==> r.d().sent() == d.log() && r.d().shut() == done(d),
    o.emit_at_every_nth_tick > 0 && o.start_on_subscribe ==> turn((d.log(), done(d)), r.d().mid(), (r.d().sent(), r.d().shut()), it.at(it.n()), it.at(it.n() + 1)),
    o.emit_at_every_nth_tick > 0 ==> r.acts() == s@.push(r.acts().last()) && match r.acts().last() {
      Act::Each(w, id) => r.id() == Some(id) && w.state.ok() && w.state.nth() == o.emit_at_every_nth_tick && w.state.ticks() == 0 && w.state.d().cell() == r.d().cell()
        && (forall|i: nat| #[trigger] w.state.it().at(i) == it.at(i)) && w.state.it().n() == it.n() + (if o.start_on_subscribe && !done(d) && it.at(it.n()) is Some { 1nat } else { 0nat }),
      _ => false }
//@end
//@fn rx_core_observable_iterator_on_tick OnTickIteratorSubscription::is_closed
  ensures r == self.d().shut()
//@end
/// nothing of it stays scheduled
//@fn rx_core_observable_iterator_on_tick OnTickIteratorSubscription::unsubscribe
  ensures old(self).d().put(final(self).d(), Ev::Unsub), final(self).d().shut(), final(self).id() == old(self).id(),
    final(self).acts() == (match old(self).id() { Some(id) => old(self).acts().push(Act::Cancel(id)), None => old(self).acts() })
//@end
/// the scheduler as the observable holds it
#[verifier::external_body]
pub struct Hs { x: u8 }
impl Hs {
    pub uninterp spec fn asked<W>(&self) -> Seq<Act<W>>;
    #[verifier::external_body]
    pub fn clone<W>(&self) -> (r: Sched<W>) ensures r@ == self.asked::<W>() { unimplemented!() }
}
//@replace Sched < TickWork < Destination , Iterator > > => Hs
impl Clone for OnTickObservableOptions { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@struct rx_core_observable_iterator_on_tick IteratorOnTickObservable +vf_s:PhantomData<S>=PhantomData
//@spec rx_core_observable_iterator_on_tick IteratorOnTickObservable
    pub closed spec fn it(&self) -> Iterator { self.iterator }
    pub closed spec fn opts(&self) -> OnTickObservableOptions { self.options }
    pub closed spec fn sch(&self) -> Hs { self.scheduler }
//@end
//@fn rx_core_observable_iterator_on_tick IteratorOnTickObservable::new args=i,o,s
  ensures r.it() == i, r.opts() == o, r.sch() == s
//@end
/// every subscription iterates afresh: everything at once, or from the first item on
//@fn rx_core_observable_iterator_on_tick IteratorOnTickObservable::subscribe args=o env=next,%iter:&destination
  ensures final(self).it() == old(self).it(), final(self).opts() == old(self).opts(),
    old(self).opts().emit_at_every_nth_tick == 0 ==> r.id() is None && r.acts() == old(self).sch().asked::<TickWork<Destination, Iterator>>()
      && exists|f: Destination| #[trigger] played(old(self).it(), o, f) && r.d().sent() == f.log() && r.d().shut(),
    old(self).opts().emit_at_every_nth_tick > 0 && !old(self).opts().start_on_subscribe ==> r.d().sent() == o.log() && r.d().shut() == done(o),
    old(self).opts().emit_at_every_nth_tick > 0 && old(self).opts().start_on_subscribe ==> turn((o.log(), done(o)), r.d().mid(), (r.d().sent(), r.d().shut()), old(self).it().at(0), old(self).it().at(1)),
    old(self).opts().emit_at_every_nth_tick > 0 ==> r.acts() == old(self).sch().asked::<TickWork<Destination, Iterator>>().push(r.acts().last()) && match r.acts().last() {
      Act::Each(w, id) => r.id() == Some(id) && w.state.ok() && w.state.nth() == old(self).opts().emit_at_every_nth_tick && w.state.d().cell() == r.d().cell()
        && (forall|i: nat| #[trigger] w.state.it().at(i) == old(self).it().at(i)) && w.state.it().n() == (if old(self).opts().start_on_subscribe && !done(o) && old(self).it().at(0) is Some { 1nat } else { 0nat }),
      _ => false }
//@@loop 0
  invariant_except_break dl(o, destination, nexts(self.iterator, iter.n()))
  invariant has(self.iterator, iter.n()), forall|i: nat| #[trigger] iter.at(i) == self.iterator.at(i), *self == *old(self)
  ensures played(self.iterator, o, destination), done(destination)
//@@lstart 0
  let ghost d0 = destination; let ghost n0 = iter.n(); proof { lem_nexts::<_, Never>(self.iterator, n0); }
//@end
// ---------------------------------------------------------------- never, create, deferred
/// the subscription to the destination itself (S06)
#[verifier::reject_recursive_types(D)]
pub struct Plain<D> { pub to: D }
impl<D> Plain<D> { pub fn new(d: D) -> (r: Self) ensures r.to == d { Plain { to: d } } }
//@replace subscribe < Destination : Subscriber < In = Iterator :: Item , InError = Never > > => subscribe < Destination : Subscriber < In = Never , InError = Never > >
//@replace Subscription :: new => Plain :: new
//@replace Subscription < Destination > => Plain < Destination >
//@struct rx_core_observable_never NeverObservable
//@fn rx_core_observable_never NeverObservable::subscribe args=o
  ensures r.to == o
//@end
/// a producer: `made` is what one run of it does to a subscriber
pub trait Maker<I, E>: Sized {
    spec fn made<D: Subscriber<In = I, InError = E>>(&self, a: D, b: D) -> bool;
    fn make<D: Subscriber<In = I, InError = E>>(self, d: &mut D) ensures self.made(*old(d), *final(d));
}
pub trait VfShared: Sized { fn into_shared(self) -> (r: Plain<Self>) ensures r.to == self; }
impl<D: Subscriber> VfShared for D { fn into_shared(self) -> (r: Plain<Self>) { Plain { to: self } } }
//@replace FnOnce (& mut dyn Subscriber < In = Out , InError = OutError >) => Maker < Out , OutError >
//@replace SharedSubscription => Plain < Destination >
//@replace ( self . producer . clone () ) (& mut destination) => self . producer . clone () . make (& mut destination)
//@replace subscribe < Destination : Subscriber < In = Never , InError = Never > > => subscribe < Destination : Subscriber < In = Out , InError = OutError > >
//@struct rx_core_observable_create CreateObservable
//@spec rx_core_observable_create CreateObservable
    pub closed spec fn p(&self) -> Producer { self.producer }
//@end
//@fn rx_core_observable_create CreateObservable::new args=p
  ensures r.p() == p
//@end
/// the producer is run once for every subscription, on its destination
//@fn rx_core_observable_create CreateObservable::subscribe args=o
  ensures old(self).p().made(o, r.to), final(self).p() == old(self).p()
//@end
pub trait Creator<S>: Sized {
    spec fn calls(&self) -> nat;
    spec fn gives(&self, s: S) -> bool;
    fn create(&mut self) -> (r: S) ensures final(self).calls() == old(self).calls() + 1, old(self).gives(r);
}
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(D)]
pub struct SubOf<S, D> { x: PhantomData<(S, D)> }
impl<S, D> SubOf<S, D> { pub uninterp spec fn of(&self) -> (S, D); }
pub trait VfSubscribe: Observable {
    #[verifier::external_body]
    fn subscribe<D>(&mut self, d: D) -> (r: SubOf<Self, D>) ensures r.of() == (*old(self), d) { unimplemented!() }
}
impl<O: Observable> VfSubscribe for O {}
//@replace FnMut () -> Source => Creator < Source >
//@replace (self . observable_creator) () => self . observable_creator . create ()
//@replace subscribe < Destination : Subscriber < In = Out , InError = OutError > > => subscribe < Destination >
//@replace Source :: Plain < Destination > => SubOf < Source , Destination >
//@struct rx_core_observable_deferred DeferredObservable
//@spec rx_core_observable_deferred DeferredObservable
    pub closed spec fn f(&self) -> F { self.observable_creator }
//@end
//@fn rx_core_observable_deferred DeferredObservable::new args=f
  ensures r.f() == f
//@end
/// a new source for every subscription, subscribed to once with its destination
//@fn rx_core_observable_deferred DeferredObservable::subscribe args=o
  ensures final(self).f().calls() == old(self).f().calls() + 1, old(self).f().gives(r.of().0), r.of().1 == o
//@end
} // verus!
fn main() {}
