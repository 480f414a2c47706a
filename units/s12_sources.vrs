//@include prelude.vrs
verus! {
broadcast use {vp::grp, dd::ax_max, dd::ax_dur};
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::{Add, AddAssign};
} // verus!
//@include lib_sched.vrs
//@include lib_timed.vrs
verus! {
//@replace SharedSubscriber < Destination > => Shr < Destination >
//@replace SharedSubscriber :: new => Shr :: new
/// a value delivered: exactly it, unless closed; its consumers may end the subscription meanwhile
pub open spec fn gave<I, E>(a: Seq<Ev<I, E>>, shut: bool, b: Seq<Ev<I, E>>, bshut: bool, x: I) -> bool {
    if shut { b == a && bshut } else { b == a.push(Ev::Next(x)) || bshut && exists|e: Ev<I, E>| !(e is Next) && b == #[trigger] a.push(Ev::Next(x)).push(e) } }
pub uninterp spec fn mid_of<I, E>(n: int) -> (Seq<Ev<I, E>>, bool);
impl<D: ObserverInput> Shr<D> {
    pub open spec fn mid(&self) -> (Seq<Ev<D::In, D::InError>>, bool) { mid_of(self.last_next()) }
    pub open spec fn given(&self, f: Self, x: D::In) -> bool { f.cell() == self.cell() && f.tds() == self.tds() && gave(self.sent(), self.shut(), f.sent(), f.shut(), x) }
    #[verifier::external_body]
    pub fn new(d: D) -> (r: Self) ensures r.sent() == d.log(), r.shut() == (d.closed() || has_term(d.log())), r.tds() == d.tds() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self, x: D::In) ensures final(self).mid() == (final(self).sent(), final(self).shut()), old(self).given(*final(self), x) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_fn<F>(&mut self, f: F) ensures final(self).sent() == old(self).sent(), final(self).shut() == old(self).shut(), final(self).cell() == old(self).cell(), final(self).tds() == old(self).tds().push(final(self).tds().last()), td_runs(final(self).tds().last(), f) { unimplemented!() }
}
// ---------------------------------------------------------------- interval
//@replace SchedulerHandle < S > => Sched < IntervalTick < Destination > >
#[verifier::reject_recursive_types(Destination)]
pub struct IntervalTick<Destination: Subscriber<In = usize>> { pub destination_clone: Shr<Destination>, pub count: usize }
#[verifier::reject_recursive_types(Destination)]
pub struct IntervalCancel<Destination: Subscriber<In = usize>> { pub scheduler_clone: Sched<IntervalTick<Destination>>, pub cancellation_id: WorkCancellationId }
/// each repetition emits the next number, until closed
//@fn rx_core_observable_interval IntervalSubscription::new closure=0 chead=impl<Destination:Subscriber<In=usize>>~IntervalTick<Destination> caps=destination_clone,count ptypes=Tick;Tick rtype=WorkResult cmut
  requires old(self).count < usize::MAX
  ensures old(self).destination_clone.given(final(self).destination_clone, old(self).count),
    if old(self).destination_clone.shut() { r is Done && final(self).count == old(self).count } else { r is Pending && final(self).count == old(self).count + 1 }
//@end
//@fn rx_core_observable_interval IntervalSubscription::new closure=1 chead=impl<Destination:Subscriber<In=usize>>~IntervalCancel<Destination> caps=scheduler_clone,cancellation_id cmut
  ensures final(self).scheduler_clone@ == old(self).scheduler_clone@.push(Act::Cancel(old(self).cancellation_id))
//@end
//@struct rx_core_observable_interval IntervalObservableOptions
//@struct rx_core_observable_interval IntervalSubscription +vf_s:PhantomData<S>=PhantomData
//@spec rx_core_observable_interval IntervalSubscription
    pub closed spec fn d(&self) -> Shr<Destination> { self.destination }
    pub closed spec fn acts(&self) -> Seq<Act<IntervalTick<Destination>>> { self.scheduler@ }
    pub closed spec fn id(&self) -> WorkCancellationId { self.cancellation_id }
//@end
/// 0 at once if asked to, then one work that counts on from there every `duration`; closing cancels it
//@fn rx_core_observable_interval IntervalSubscription::new lift=1:IntervalCancel:scheduler_clone,cancellation_id;0:IntervalTick:destination_clone,count args=destination,o,s mutargs=scheduler
  ensures
    if o.start_on_subscribe { gave(destination.log(), destination.closed() || has_term(destination.log()), r.d().sent(), r.d().shut(), 0) } else { r.d().sent() == destination.log() && r.d().shut() == (destination.closed() || has_term(destination.log())) },
    r.acts() == s@.push(r.acts().last()),
    match r.acts().last() { Act::Every(w, d, now, max, id) => w.destination_clone.cell() == r.d().cell() && w.count == (if o.start_on_subscribe { 1usize } else { 0usize }) && d == o.duration.n() && !now && max == o.max_emissions_per_tick && id == r.id(), _ => false },
    r.d().tds().len() == destination.tds().len() + 1, exists|c: IntervalCancel<Destination>| #[trigger] td_runs(r.d().tds().last(), c) && c.cancellation_id == r.id()
//@end
//@fn rx_core_observable_interval IntervalSubscription::is_closed
  ensures r == self.d().shut()
//@end
//@fn rx_core_observable_interval IntervalSubscription::unsubscribe
  ensures final(self).acts() == old(self).acts().push(Act::Cancel(old(self).id())), old(self).d().put(final(self).d(), Ev::Unsub)
//@end
//@replace let scheduler = scheduler . clone () ; => let mut scheduler = scheduler . clone () ;
//@fn rx_core_observable_interval IntervalObservableOptions::default as=vf_default
  ensures r.duration.n() == 1_000_000_000, r.max_emissions_per_tick == 10, !r.start_on_subscribe
//@end
impl Clone for IntervalObservableOptions { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@replace observer . upgrade () => observer
//@replace destination . upgrade () => destination
//@replace < Destination :: Upgraded > => < Destination >
//@replace Destination : 'static + UpgradeableObserver => Destination : Subscriber
//@replace fn subscribe < Destination > => fn subscribe < Destination : Subscriber < In = usize > >
//@replace Sched < IntervalTick < Destination > > => OpSched < S >
//@struct rx_core_observable_interval IntervalObservable
//@fn rx_core_observable_interval IntervalObservable::new args=o,s
  ensures r.options == o
//@end
/// every subscription counts from 0, on its own
//@fn rx_core_observable_interval IntervalObservable::subscribe args=destination
  ensures final(self).options == old(self).options,
    if old(self).options.start_on_subscribe { gave(destination.log(), destination.closed() || has_term(destination.log()), r.d().sent(), r.d().shut(), 0) } else { r.d().sent() == destination.log() },
    match r.acts().last() { Act::Every(w, d, now, max, id) => w.destination_clone.cell() == r.d().cell() && w.count == (if old(self).options.start_on_subscribe { 1usize } else { 0usize }) && d == old(self).options.duration.n() && !now && max == old(self).options.max_emissions_per_tick && id == r.id(), _ => false }
//@end
//@replace OpSched < S > => Sched < IntervalTick < Destination > >

// ---------------------------------------------------------------- timer
//@replace Sched < IntervalTick < Destination > > => Sched < TimerTick < Destination > >
#[verifier::reject_recursive_types(Destination)]
pub struct TimerTick<Destination: Subscriber<In = ()>> { pub destination_clone: Shr<Destination> }
/// emits once and completes
//@fn rx_core_observable_timer TimerSubscription::new closure=0 chead=impl<Destination:Subscriber<In=()>>~TimerTick<Destination> caps=destination_clone ptypes=Tick;Tick cmut
  ensures final(self).destination_clone.shut(),
    ({ let a = old(self).destination_clone; let b = final(self).destination_clone; let m = b.mid();
       gave(a.sent(), a.shut(), m.0, m.1, ()) && b.sent() == if m.1 { m.0 } else { m.0.push(Ev::Complete) } })
//@end
//@replace let scheduler = scheduler . clone () ; => let mut scheduler = scheduler . clone () ;
//@struct rx_core_observable_timer TimerSubscription +vf_s:PhantomData<S>=PhantomData
//@spec rx_core_observable_timer TimerSubscription
    pub closed spec fn d(&self) -> Shr<Destination> { self.destination }
    pub closed spec fn acts(&self) -> Seq<Act<TimerTick<Destination>>> { self.scheduler@ }
    pub closed spec fn id(&self) -> Option<WorkCancellationId> { self.cancellation_id }
//@end
//@fn rx_core_observable_timer TimerSubscription::new lift=0:TimerTick:destination_clone alias=scheduler_clone=>scheduler args=destination,duration,s mutargs=scheduler
  ensures r.d().sent() == destination.log(), r.acts() == s@.push(r.acts().last()),
    match r.acts().last() { Act::Delayed(w, d, id) => w.destination_clone.cell() == r.d().cell() && d == duration.n() && r.id() == Some(id), _ => false }
//@end
//@fn rx_core_observable_timer TimerSubscription::is_closed
  ensures r == self.d().shut()
//@end
//@fn rx_core_observable_timer TimerSubscription::unsubscribe
  ensures final(self).acts() == match old(self).id() { Some(i) => old(self).acts().push(Act::Cancel(i)), None => old(self).acts() }, final(self).id() is None, old(self).d().put(final(self).d(), Ev::Unsub)
//@end
//@replace fn subscribe < Destination : Subscriber < In = usize > > => fn subscribe < Destination : Subscriber < In = () > >
//@replace Sched < TimerTick < Destination > > => OpSched < S >
//@struct rx_core_observable_timer TimerObservable
//@fn rx_core_observable_timer TimerObservable::new args=d,s
  ensures r.duration == d
//@end
//@fn rx_core_observable_timer TimerObservable::subscribe args=destination
  ensures final(self).duration == old(self).duration, r.d().sent() == destination.log(),
    match r.acts().last() { Act::Delayed(w, d, id) => w.destination_clone.cell() == r.d().cell() && d == old(self).duration.n() && r.id() == Some(id), _ => false }
//@end
//@replace OpSched < S > => Sched < TimerTick < Destination > >

// ---------------------------------------------------------------- fallback_when_silent
/// the user's fallback: what it gives on its n-th use
pub trait Fbk: Sized { type C; type I; spec fn gives(&self, t: nat, n: usize, r: Self::I) -> bool; fn call_fb(&self, t: Tick, c: &mut Self::C, n: usize) -> (r: Self::I) ensures self.gives(t.n(), n, r); }
//@replace (self . fallback) (tick , context , self . index) => self . fallback . call_fb (tick , context , self . index)
//@struct rx_core_operator_fallback_when_silent FallbackWhenSilentSubscriberState
#[verifier::reject_recursive_types(Destination)]
pub struct FallbackTick<Destination: Subscriber, Fb> { pub shared_state_clone: Lk<FallbackWhenSilentSubscriberState<Destination::In>>, pub shared_destination_clone: Shr<Destination>, pub fallback: Fb, pub index: usize }
/// every tick: the value observed since the last one, else the fallback; then it counts as unobserved
//@fn rx_core_operator_fallback_when_silent FallbackWhenSilentSubscriber::new closure=0 chead=impl<Destination:Subscriber,Fb:Fbk<I=Destination::In>>~FallbackTick<Destination,Fb> caps=shared_state_clone,shared_destination_clone,fallback,index ptypes=Tick;&mut~Fb::C rtype=WorkResult cmut
  requires old(self).index < usize::MAX
  ensures r is Pending, final(self).index == old(self).index + 1, final(self).shared_state_clone@.next_observed_this_tick is None,
    exists|x: Destination::In| (match old(self).shared_state_clone@.next_observed_this_tick { Some(y) => x == y, None => old(self).fallback.gives(vf_a0.n(), old(self).index, x) }) && #[trigger] old(self).shared_destination_clone.given(final(self).shared_destination_clone, x)
//@@at self . index += 1
    assert(match old(self).shared_state_clone@.next_observed_this_tick { Some(y) => next == y, None => old(self).fallback.gives(vf_a0.n(), old(self).index, next) });
//@@at WorkResult :: Pending
    assert(old(self).shared_destination_clone.given(self.shared_destination_clone, next));
//@end
//@replace Sched < TimerTick < Destination > > => Sched < FallbackTick < Destination , Fallback > >
//@replace < S :: WorkContextProvider as WorkContextProvider > :: Item < '_ > => Tick
//@replace S :: Tick => Tick
//@struct rx_core_operator_fallback_when_silent FallbackWhenSilentSubscriber +vf_s:PhantomData<S>=PhantomData
//@spec rx_core_operator_fallback_when_silent FallbackWhenSilentSubscriber
    pub closed spec fn d(&self) -> Shr<Destination> { self.shared_destination }
    pub closed spec fn observed(&self) -> Option<Destination::In> { self.state@.next_observed_this_tick }
    pub closed spec fn acts(&self) -> Seq<Act<FallbackTick<Destination, Fallback>>> { self.scheduler_handle@ }
    pub closed spec fn id(&self) -> WorkCancellationId { self.cancellation_id }
//@end
//@fn rx_core_operator_fallback_when_silent FallbackWhenSilentSubscriber::next
  ensures final(self).observed() == Some(next), final(self).d() == old(self).d(), final(self).acts() == old(self).acts()
//@end
//@fn rx_core_operator_fallback_when_silent FallbackWhenSilentSubscriber::unsubscribe
  ensures final(self).acts() == old(self).acts().push(Act::Cancel(old(self).id())), old(self).d().put(final(self).d(), Ev::Unsub)
//@end
//@fn rx_core_operator_fallback_when_silent FallbackWhenSilentSubscriber::is_closed
  ensures r == self.d().shut()
//@end
//@fn rx_core_operator_fallback_when_silent FallbackWhenSilentSubscriber::error args=e
  ensures final(self).acts() == old(self).acts().push(Act::Cancel(old(self).id())), old(self).d().put(final(self).d(), Ev::Error(e))
//@end
//@fn rx_core_operator_fallback_when_silent FallbackWhenSilentSubscriber::complete
  ensures final(self).acts() == old(self).acts().push(Act::Cancel(old(self).id())), old(self).d().put(final(self).d(), Ev::Complete)
//@end
//@replace let scheduler_handle = scheduler_handle . clone () ; => let mut scheduler_handle = scheduler_handle . clone () ;
//@fn rx_core_operator_fallback_when_silent FallbackWhenSilentSubscriber::new lift=0:FallbackTick:shared_state_clone,shared_destination_clone,fallback,index alias=scheduler_clone=>scheduler_handle args=destination,fallback,s mutargs=scheduler_handle
  ensures r.d().sent() == destination.log(), r.observed() is None, r.acts() == s@.push(r.acts().last()),
    match r.acts().last() { Act::Each(w, id) => w.shared_destination_clone.cell() == r.d().cell() && w.fallback == fallback && w.index == 0 && id == r.id(), _ => false }
//@end
//@replace Sched < FallbackTick < Destination , Fallback > > => OpSched < S >
//@struct rx_core_operator_fallback_when_silent FallbackWhenSilentOperator
//@fn rx_core_operator_fallback_when_silent FallbackWhenSilentOperator::new args=f,s
  ensures r.fallback == f
//@end
//@fn rx_core_operator_fallback_when_silent FallbackWhenSilentOperator::operator_subscribe args=destination
  ensures final(self).fallback == old(self).fallback, r.d().sent() == destination.log(), r.observed() is None,
    match r.acts().last() { Act::Each(w, id) => w.shared_destination_clone.cell() == r.d().cell() && w.fallback == old(self).fallback && w.index == 0 && id == r.id(), _ => false }
//@end
} // verus!
fn main() {}
