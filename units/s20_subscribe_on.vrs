//@include prelude.vrs
verus! {
broadcast use {vp::grp, dd::ax_max, dd::ax_dur};
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::{Add, AddAssign};
} // verus!
//@include lib_sched.vrs
//@include lib_timed.vrs
verus! {
// ---------------------------------------------------------------- subscribe_on
pub trait Observable: Sized { type Out; type OutError; }
/// how often a source was subscribed to, and how many of those subscriptions were not ended by us
pub uninterp spec fn subs<S>(s: S) -> nat;
pub uninterp spec fn live<S>(s: S) -> int;
/// a subscription to the source
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct Isb<S> { x: PhantomData<S> }
impl<S> Isb<S> {
    #[verifier::external_body]
    pub fn unsubscribe(&mut self, s: &mut Lk<S>) ensures subs(final(s)@) == subs(old(s)@), live(final(s)@) == live(old(s)@) - 1, final(s).cell() == old(s).cell() { unimplemented!() }
}
pub trait VfSubscribe: Observable {
    /// what arrives during it may close the destination
    #[verifier::external_body]
    fn subscribe<D: ObserverInput>(&mut self, to: Shr<D>, d: &mut Shr<D>) -> (r: Isb<Self>)
        requires to.cell() == old(d).cell(), !old(d).shut()
        ensures subs(*final(self)) == subs(*old(self)) + 1, live(*final(self)) == live(*old(self)) + 1, final(d).cell() == old(d).cell() { unimplemented!() }
}
impl<O: Observable> VfSubscribe for O {}
/// SharedSubscription: what was added to it
pub enum Held { Td(Teardown), Source }
pub trait ToHeld: Sized { spec fn held(self) -> Held; }
impl ToHeld for Teardown { open spec fn held(self) -> Held { Held::Td(self) } }
impl<S> ToHeld for Isb<S> { open spec fn held(self) -> Held { Held::Source } }
#[verifier::external_body]
pub struct Ss { x: u8 }
impl View for Ss { type V = Seq<Held>; uninterp spec fn view(&self) -> Seq<Held>; }
impl Ss {
    pub uninterp spec fn cell(&self) -> int;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Seq::<Held>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@, r.cell() == self.cell() { unimplemented!() }
    #[verifier::external_body]
    pub fn add<T: ToHeld>(&mut self, t: T) ensures final(self)@ == old(self)@.push(t.held()), final(self).cell() == old(self).cell() { unimplemented!() }
}
/// a teardown releasing a shared subscription
pub uninterp spec fn td_ends(t: Teardown, s: Ss) -> bool;
pub uninterp spec fn td_acts<W>(t: Teardown) -> Seq<Act<W>>;
#[verifier::external_body]
pub fn vf_cancels<W>(id: WorkCancellationId, s: Sched<W>) -> (r: Teardown) ensures td_cancels(r, id), td_acts::<W>(r) == s@ { unimplemented!() }
impl<D: ObserverInput> Shr<D> {
    #[verifier::external_body]
    pub fn new(d: D) -> (r: Self) ensures r.sent() == d.log(), r.shut() == (d.closed() || has_term(d.log())), r.tds() == d.tds() { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&mut self, s: Ss) ensures final(self).sent() == old(self).sent(), final(self).shut() == old(self).shut(), final(self).cell() == old(self).cell(), final(self).tds() == old(self).tds().push(final(self).tds().last()), td_ends(final(self).tds().last(), s) { unimplemented!() }
}
//@replace SharedSubscriber < Destination > => Shr < Destination >
//@replace SharedSubscriber :: new => Shr :: new
//@replace SharedSubscription :: default => Ss :: default
//@replace Teardown :: new_work_cancellation => vf_cancels
//@replace SchedulerHandle < S > => Sched < SubWork < Destination , Source > >
//@replace Arc < Mutex < Source > > => Lk < Source >
#[verifier::reject_recursive_types(Destination)]
#[verifier::reject_recursive_types(Source)]
pub struct SubWork<Destination: Subscriber, Source: Observable> { pub destination_clone: Shr<Destination>, pub upstream_subscription_clone: Ss, pub source_clone: Lk<Source> }
/// when the time comes: nothing if it is closed; else one subscription, kept for the teardown unless closed by then
//@fn rx_core_operator_subscribe_on SubscribeOnSubscription::new as=run closure=0 chead=impl<Destination:Subscriber,Source:Observable<Out=Destination::In,OutError=Destination::InError>>~SubWork<Destination,Source> caps=destination_clone,upstream_subscription_clone,source_clone ptypes=Tick;Tick cmut env=subscribe,@source_clone:&mut~self.destination_clone env2=unsubscribe,%subscription:&mut~self.source_clone
  ensures final(self).destination_clone.cell() == old(self).destination_clone.cell(), final(self).upstream_subscription_clone.cell() == old(self).upstream_subscription_clone.cell(), final(self).source_clone.cell() == old(self).source_clone.cell(),
    if old(self).destination_clone.shut() { final(self).source_clone@ == old(self).source_clone@ && final(self).upstream_subscription_clone@ == old(self).upstream_subscription_clone@ }
    else { subs(final(self).source_clone@) == subs(old(self).source_clone@) + 1 &&
      if final(self).destination_clone.shut() { live(final(self).source_clone@) == live(old(self).source_clone@) && final(self).upstream_subscription_clone@ == old(self).upstream_subscription_clone@ }
      else { live(final(self).source_clone@) == live(old(self).source_clone@) + 1 && final(self).upstream_subscription_clone@ == old(self).upstream_subscription_clone@.push(Held::Source) } }
//@end
//@struct rx_core_operator_subscribe_on SubscribeOnSubscription
//@spec rx_core_operator_subscribe_on SubscribeOnSubscription
    pub closed spec fn d(&self) -> Shr<Destination> { self.destination }
//@end
/// the teardown cancels the one work that was asked for after the requests `s`
pub open spec fn asked<D: Subscriber, S: Observable>(t: Teardown, s: Sched<SubWork<D, S>>, n: nat, d: int, u: int, c: int) -> bool {
    match td_acts::<SubWork<D, S>>(t).last() {
        Act::Delayed(w, m, id) => td_acts::<SubWork<D, S>>(t) == s@.push(td_acts::<SubWork<D, S>>(t).last()) && m == n && td_cancels(t, id) && w.destination_clone.cell() == d && w.upstream_subscription_clone.cell() == u && w.source_clone.cell() == c,
        _ => false } }
/// nothing at once; one work after the delay; ending it cancels the work and whatever it subscribed to
//@fn rx_core_operator_subscribe_on SubscribeOnSubscription::new lift=0:SubWork:destination_clone,upstream_subscription_clone,source_clone args=destination,source,delay,s mutargs=scheduler
  ensures r.d().sent() == destination.log(), r.d().tds() == destination.tds().push(r.d().tds().last()),
    exists|u: Ss| #[trigger] td_ends(r.d().tds().last(), u) && u@.len() == 1 && u@[0] is Td && asked::<Destination, Source>(u@[0]->Td_0, s, delay.n(), r.d().cell(), u.cell(), source.cell())
//@end
// ---- the observable and the operator: one source, however often it is subscribed to
pub fn vf_lk<T>(x: T) -> (r: Lk<T>) ensures r@ == x { Lk::new(x) }
//@replace Arc :: new (Mutex :: new (source)) => vf_lk (source)
//@replace destination . upgrade () => destination
//@replace < Destination :: Upgraded > => < Destination >
//@replace < Destination :: Upgraded , => < Destination ,
//@replace fn subscribe < Destination > => fn subscribe < Destination : Subscriber < In = Source :: Out , InError = Source :: OutError > >
//@replace SubscribeOnSubscription :: new ( => SubscribeOnSubscription :: new :: < S > (
//@replace Sched < SubWork < Destination , Source > > => OpSched < S >
//@struct rx_core_operator_subscribe_on SubscribeOnObservable
//@fn rx_core_operator_subscribe_on SubscribeOnObservable::new args=source,d,s
  ensures r.delay == d, r.source@ == source
//@end
//@fn rx_core_operator_subscribe_on SubscribeOnObservable::subscribe args=destination
  ensures final(self).source@ == old(self).source@, final(self).source.cell() == old(self).source.cell(), final(self).delay == old(self).delay,
    r.d().sent() == destination.log(), r.d().tds() == destination.tds().push(r.d().tds().last()),
    exists|u: Ss, s: Sched<SubWork<Destination, Source>>| #[trigger] td_ends(r.d().tds().last(), u) && u@.len() == 1 && u@[0] is Td && #[trigger] asked::<Destination, Source>(u@[0]->Td_0, s, old(self).delay.n(), r.d().cell(), u.cell(), old(self).source.cell())
//@end
//@struct rx_core_operator_subscribe_on SubscribeOnOperator
//@fn rx_core_operator_subscribe_on SubscribeOnOperator::new args=d,s
  ensures r.delay == d
//@end
//@fn rx_core_operator_subscribe_on SubscribeOnOperator::operate args=source
  ensures r.delay == self.delay, r.source@ == source
//@end
} // verus!
fn main() {}
