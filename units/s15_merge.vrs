//@include prelude.vrs
//@include lib_ho.vrs
verus! {
broadcast use {vp::grp, ho::g};
use std::collections::VecDeque;
// ---------------------------------------------------------------- the waiting inner sources
pub trait Observable: Sized { type Out; type OutError; }
#[verifier::external_body]
pub fn vf_empty<T>(q: &VecDeque<T>) -> (r: bool) ensures r == (q@.len() == 0) { unimplemented!() }
//@replace self . queue . is_empty () => vf_empty (& self . queue)
#[verifier::external_body]
pub fn vf_clear<T>(q: &mut VecDeque<T>) ensures final(q)@ == Seq::<T>::empty() { unimplemented!() }
//@replace self . queue . drain (..) => vf_clear (& mut self . queue)
//@struct rx_core_subscriber_higher_order_concurrent ConcurrentSubscriberQueue +vf_started:Ghost<Seq<InnerObservable>>=Ghost(Seq::empty())
//@spec rx_core_subscriber_higher_order_concurrent ConcurrentSubscriberQueue
    pub open spec fn q(&self) -> Seq<InnerObservable> { self.queue@ }
    /// the ones subscribed to, in order
    pub open spec fn started(&self) -> Seq<InnerObservable> { self.vf_started@ }
    /// every inner source ever accepted, in order of arrival
    pub open spec fn line(&self) -> Seq<InnerObservable> { self.started() + self.q() }
//@end
impl<InnerObservable: Observable> HigherOrderSubscriberStateConditions for ConcurrentSubscriberQueue<InnerObservable> {
    open spec fn waiting(&self) -> nat { self.queue@.len() }
    open spec fn grows(a: Self, b: Self) -> bool { pfx(a.started(), b.started()) }
    proof fn grows_refl(a: Self) { }
    open spec fn calm(a: nat, b: nat) -> bool { true }
    proof fn calm_less(a: nat, b: nat) { }
    proof fn calm_trans(a: nat, b: nat, c: nat) { }
    proof fn grows_trans(a: Self, b: Self, c: Self) { }
    fn can_downstream_complete(&self) -> (r: bool) { ConcurrentSubscriberQueue::can_downstream_complete(self) }
    fn can_downstream_unsubscribe(&self) -> (r: bool) { ConcurrentSubscriberQueue::can_downstream_unsubscribe(self) }
    fn on_upstream_error(&mut self) { ConcurrentSubscriberQueue::on_upstream_error(self) }
    fn on_downstream_error(&mut self) { ConcurrentSubscriberQueue::on_downstream_error(self) }
}
//@fn rx_core_subscriber_higher_order_concurrent ConcurrentSubscriberQueue::default
  ensures r.q() == s0::<InnerObservable>(), r.started() == s0::<InnerObservable>()
//@end
//@fn rx_core_subscriber_higher_order_concurrent ConcurrentSubscriberQueue::can_downstream_complete
  ensures r == (self.q().len() == 0)
//@end
//@fn rx_core_subscriber_higher_order_concurrent ConcurrentSubscriberQueue::can_downstream_unsubscribe
  ensures r == (self.q().len() == 0)
//@end
//@fn rx_core_subscriber_higher_order_concurrent ConcurrentSubscriberQueue::on_upstream_error
  ensures final(self).q().len() == 0, final(self).started() == old(self).started()
//@end
//@fn rx_core_subscriber_higher_order_concurrent ConcurrentSubscriberQueue::on_downstream_error
  ensures final(self).q().len() == 0, final(self).started() == old(self).started()
//@end

// ---------------------------------------------------------------- subscribing to an inner source
impl<T> Lk<T> { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.cell() == self.cell(), r@ == self@ { unimplemented!() } }
impl Isd { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.closed() == self.closed() { unimplemented!() } }
/// the subscriptions to the inner sources, by key
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Slab<T> { x: PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SlabEntry<T> { x: PhantomData<T> }
impl<T> Slab<T> {
    #[verifier::external_body]
    pub fn vacant_entry(&mut self) -> SlabEntry<T> { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, key: usize) -> Option<SlabEntry<T>> { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_keys(&self) -> Vec<usize> { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_get_mut(&mut self, k: usize) -> &mut T { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_remove(&mut self, k: usize) { unimplemented!() }
}
impl<T> SlabEntry<T> {
    #[verifier::external_body]
    pub fn key(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(self, t: T) { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&self, t: T) { unimplemented!() }
}
pub type St<O> = HigherOrderSubscriberState<ConcurrentSubscriberQueue<O>>;
/// one inner source subscribed to
pub open spec fn begun<O: Observable, D: ObserverInput>(a: St<O>, ad: Shr<D>, b: St<O>, bd: Shr<D>, l: nat, o: O) -> bool {
    mv(a, ad, b, bd, l) && keeps2(a, b) && pfx(a.state.started().push(o), b.state.started())
}
/// an inner source; it may emit, complete and call back into anything while it is subscribed to
pub trait VfSubscribe: Observable {
    #[verifier::external_body]
    fn subscribe<D: Subscriber<In = Self::Out, InError = Self::OutError>, A: HoDone<ConcurrentSubscriberQueue<Self>, D>, B: HoGone<ConcurrentSubscriberQueue<Self>, D>>(&mut self, x: HigherOrderInnerSubscriber<ConcurrentSubscriberQueue<Self>, A, B, D>, s: &mut Lk<St<Self>>, d: &mut Shr<D>) -> (r: Isd)
        requires x.inv(), x.open(), x.st() == old(s)@, x.d() == *old(d), x.l() == lim(old(s).cell())
        ensures begun(old(s)@, *old(d), final(s)@, *final(d), lim(old(s).cell()), *old(self)), final(s).cell() == old(s).cell() { unimplemented!() }
}
impl<O: Observable> VfSubscribe for O {}
//@replace NonZero < usize > => Nz
//@replace let inner_subscriptions_clone => let mut inner_subscriptions_clone
//@replace SharedSubscription => Isd
//@replace vs : Lk < HigherOrderSubscriberState < ConcurrentSubscriberQueue < InnerObservable > > > => vs : & mut Lk < St < InnerObservable > >
//@replace vd : Shr < Destination > => vd : & mut Shr < Destination >
#[verifier::reject_recursive_types(InnerObservable)]
#[verifier::reject_recursive_types(Destination)]
pub struct OnDone<InnerObservable: Observable, Destination: Subscriber> { pub inner_subscriptions_on_complete_clone: Lk<Slab<Isd>>, pub outer_teardown_on_complete_clone: Isd, pub concurrency_limit: Nz, pub x: PhantomData<(InnerObservable, Destination)> }
#[verifier::reject_recursive_types(InnerObservable)]
#[verifier::reject_recursive_types(Destination)]
pub struct OnGone<InnerObservable: Observable, Destination: Subscriber> { pub inner_subscriptions: Lk<Slab<Isd>>, pub outer_teardown: Isd, pub outer_teardown_on_unsubscribe: Isd, pub concurrency_limit: Nz, pub x: PhantomData<(InnerObservable, Destination)> }
// the knot: what these do when called is proved as the contracts of the two closures' bodies below (partial correctness)
impl<O: Observable + Signal, D: Subscriber<In = O::Out, InError = O::OutError>> HoDone<ConcurrentSubscriberQueue<O>, D> for OnDone<O, D> {
    open spec fn knows(&self) -> nat { nz(self.concurrency_limit) as nat }
    #[verifier::external_body]
    fn vf_call(self, key: usize, s: &mut Lk<St<O>>, d: &mut Shr<D>) { unimplemented!() }
}
impl<O: Observable + Signal, D: Subscriber<In = O::Out, InError = O::OutError>> HoGone<ConcurrentSubscriberQueue<O>, D> for OnGone<O, D> {
    open spec fn knows(&self) -> nat { nz(self.concurrency_limit) as nat }
    #[verifier::external_body]
    fn vf_call(self, key: usize, s: &mut Lk<St<O>>, d: &mut Shr<D>) { unimplemented!() }
}
//@fn rx_core_subscriber_higher_order_concurrent create_inner_subscription args=next,vs,inners,vd,teardown,l mutargs=inner_subscriptions lift=1:OnGone:inner_subscriptions,outer_teardown,outer_teardown_on_unsubscribe,concurrency_limit,x;0:OnDone:inner_subscriptions_on_complete_clone,outer_teardown_on_complete_clone,concurrency_limit,x env=subscribe,unsubscribe:(&mut~*state,&mut~*shared_destination)
  requires old(vs)@.nc() >= 1, old(vs)@.nu() >= 1, okd(old(vs)@, *old(vd)), nz(l) == lim(old(vs).cell())
  ensures begun(old(vs)@, *old(vd), final(vs)@, *final(vd), lim(old(vs).cell()), next), final(vs).cell() == old(vs).cell()
//@@start
let x = PhantomData;
//@end
//@replace state . clone () => & mut * state
//@replace shared_destination . clone () => & mut * shared_destination
//@replace (next , & mut * state , inner_subscriptions , shared_destination , => (next , & mut * state , inner_subscriptions , & mut * shared_destination ,
/// the one waiting longest is next
//@fn rx_core_subscriber_higher_order_concurrent subscribe_to_next_in_queue args=vs,inners,vd,teardown,l
  requires okd(old(vs)@, *old(vd)), nz(l) == lim(old(vs).cell())
  ensures final(vs).cell() == old(vs).cell(), old(vs)@.state.q().len() == 0 ==> final(vs)@.state.line() == old(vs)@.state.line() && final(vs)@.nc() == old(vs)@.nc() && *final(vd) == *old(vd),
    old(vs)@.state.q().len() > 0 ==> pfx(old(vs)@.state.started().push(old(vs)@.state.q()[0]), final(vs)@.state.started()),
    started_one(old(vs)@, *old(vd), final(vs)@, *final(vd), lim(old(vs).cell())),
    final(vs)@.down().closed() || lag(final(vs)@, lim(old(vs).cell())) == 0 || lag(final(vs)@, lim(old(vs).cell())) < lag(old(vs)@, lim(old(vs).cell()))
//@@at state_lock . non_completed_subscriptions += 1
assume(state_lock.non_completed_subscriptions < usize::MAX && state_lock.non_unsubscribed_subscriptions < usize::MAX);
//@end
//@replace vs . clone () => vs
//@replace vd . clone () => vd
/// the completed one makes room for the next
//@fn rx_core_subscriber_higher_order_concurrent create_inner_subscription closure=0 chead=impl<InnerObservable:Observable+Signal,Destination:Subscriber<In=InnerObservable::Out,InError=InnerObservable::OutError>>~OnDone<InnerObservable,Destination> alias=state_on_complete_clone=>vs;shared_destination_on_complete_clone=>vd ptypes=usize cargs=vs:&mut~Lk<St<InnerObservable>>;vd:&mut~Shr<Destination>;inner_subscriptions_on_complete_clone:Lk<Slab<Isd>>;outer_teardown_on_complete_clone:Isd;concurrency_limit:Nz
  requires old(vs)@.nc() >= 1, old(vs)@.nu() >= 1, okd(old(vs)@, *old(vd)), nz(concurrency_limit) == lim(old(vs).cell())
  ensures started_one(old(vs)@, *old(vd), final(vs)@, *final(vd), lim(old(vs).cell())), final(vs).cell() == old(vs).cell()
//@end
//@fn rx_core_subscriber_higher_order_concurrent create_inner_subscription closure=1 chead=impl<InnerObservable:Observable+Signal,Destination:Subscriber<In=InnerObservable::Out,InError=InnerObservable::OutError>>~OnGone<InnerObservable,Destination> alias=shared_destination_on_unsubscribe=>shared_destination ptypes=usize env=unsubscribe,%shared_destination_on_unsubscribe:&mut~*state env2=unsubscribe,%outer_teardown_on_unsubscribe:(&mut~*state,&mut~*shared_destination) cargs=state:&mut~Lk<St<InnerObservable>>;shared_destination:&mut~Shr<Destination>;mut~inner_subscriptions:Lk<Slab<Isd>>;outer_teardown:Isd;mut~outer_teardown_on_unsubscribe:Isd;concurrency_limit:Nz
  requires okd(old(state)@, *old(shared_destination)), nz(concurrency_limit) == lim(old(state).cell())
  ensures refilled(old(state)@, *old(shared_destination), final(state)@, *final(shared_destination), lim(old(state).cell())), final(state).cell() == old(state).cell()
//@@loop 0
  decreases vf_it_0.rem().len()
//@end

// ---------------------------------------------------------------- the outer subscriber
//@replace self . & mut * state => & mut self . state
//@replace self . & mut * shared_destination => & mut self . shared_destination
//@replace state . state . queue . is_empty () => vf_empty (& state . state . queue)
//@struct rx_core_subscriber_higher_order_concurrent ConcurrentSubscriber
//@spec rx_core_subscriber_higher_order_concurrent ConcurrentSubscriber
    pub closed spec fn st(&self) -> St<InnerObservable> { self.state@ }
    pub closed spec fn d(&self) -> Shr<Destination> { self.shared_destination }
    pub closed spec fn l(&self) -> nat { lim(self.state.cell()) }
    pub closed spec fn open(&self) -> bool { !self.shared_destination.shut() && !self.outer_teardown.closed() }
    pub closed spec fn inv(&self) -> bool { nz(self.concurrency_limit) == self.l() && okd(self.st(), self.d()) }
    pub open spec fn idle(&self, f: Self) -> bool { f.st() == self.st() && f.d() == self.d() && f.open() == self.open() }
    pub open spec fn room(&self) -> bool { self.st().nc() < self.l() && self.st().state.q().len() == 0 }
//@end
/// the subscriptions to the active inner sources, taken out; releasing one must not start another
#[verifier::external_body]
pub struct Dsd { x: u8 }
impl Dsd {
    #[verifier::external_body]
    pub fn unsubscribe<O: Observable, D: ObserverInput>(&mut self, s: &mut Lk<St<O>>, d: &mut Shr<D>)
        requires old(s)@.state.waiting() == 0
        ensures final(s).cell() == old(s).cell(), mv(old(s)@, *old(d), final(s)@, *final(d), lim(old(s).cell())), final(s)@.state.waiting() == 0 { unimplemented!() }
}
impl<T> Slab<T> {
    #[verifier::external_body]
    pub fn vf_drained(&mut self) -> Vec<Dsd> { unimplemented!() }
}
impl SubscriberState {
    pub open spec fn vf_same(&self, f: Self) -> bool { mono(*self, f) }
}
//@replace . drain () . collect :: < Vec < _ >> () => . vf_drained ()
//@replace . drain () . collect :: < Vec < _ > > () => . vf_drained ()
#[verifier::reject_recursive_types(InnerObservable)]
#[verifier::reject_recursive_types(Destination)]
pub struct OnDown<InnerObservable: Observable, Destination: Subscriber> { pub inner_subscriptions_on_unsubscribe: Lk<Slab<Isd>>, pub x: PhantomData<(InnerObservable, Destination)> }
/// the whole output is over: nothing that waits is started any more, every active inner source is released
//@fn rx_core_subscriber_higher_order_concurrent ConcurrentSubscriber::new as=down closure=0 chead=impl<InnerObservable:Observable+Signal,Destination:Subscriber<In=InnerObservable::Out,InError=InnerObservable::OutError>>~OnDown<InnerObservable,Destination> caps=inner_subscriptions_on_unsubscribe alias=state_on_unsubscribe=>s cmut env=unsubscribe,%inner_subscription:(&mut~*s,&mut~*d) cargs=s:&mut~Lk<St<InnerObservable>>;d:&mut~Shr<Destination>
  ensures final(s).cell() == old(s).cell(), final(s)@.state.waiting() == 0, final(s)@.up().u(), mv(old(s)@, *old(d), final(s)@, *final(d), lim(old(s).cell()))
//@@loop 0
  invariant s.cell() == old(s).cell(), s@.state.waiting() == 0, mv(old(s)@, *old(d), s@, *d, lim(old(s).cell()))
  decreases vf_it_0.rem().len()
//@end
/// an inner source arrives: subscribed to at once if there is room and none waits, otherwise the last in the line
//@fn rx_core_subscriber_higher_order_concurrent ConcurrentSubscriber::next args=x
  requires old(self).inv()
  ensures final(self).inv(), final(self).l() == old(self).l(), !old(self).open() ==> old(self).idle(*final(self)),
    old(self).open() && old(self).room() ==> pfx(old(self).st().state.started().push(x), final(self).st().state.started()) && final(self).st().nc() <= mx(old(self).l(), old(self).st().nc() + 1) && mono(old(self).st().up(), final(self).st().up()) && grew(old(self).d(), final(self).d()),
    old(self).open() && !old(self).room() ==> final(self).st().state.started() == old(self).st().state.started() && final(self).st().state.q() == old(self).st().state.q().push(x) && final(self).st().nc() == old(self).st().nc() && final(self).st().nu() == old(self).st().nu() && final(self).st().up() == old(self).st().up() && final(self).st().down() == old(self).st().down() && final(self).d() == old(self).d(),
//@@at state . non_completed_subscriptions += 1
assume(state.non_completed_subscriptions < usize::MAX && state.non_unsubscribed_subscriptions < usize::MAX);
//@end
//@fn rx_core_subscriber_higher_order_concurrent ConcurrentSubscriber::error args=e env=error,@shared_destination:&mut~self.state env2=unsubscribe,@outer_teardown:(&mut~self.state,&mut~self.shared_destination)
  requires old(self).inv()
  ensures final(self).l() == old(self).l(), !old(self).open() ==> old(self).idle(*final(self)),
    old(self).open() ==> !final(self).open() && final(self).d().shut() && final(self).d().sent() == old(self).d().with(Ev::Error(e)) && pfx(old(self).st().state.started(), final(self).st().state.started())
//@end
//@fn rx_core_subscriber_higher_order_concurrent ConcurrentSubscriber::complete env=complete,@shared_destination:&mut~self.state env2=unsubscribe,@outer_teardown:(&mut~self.state,&mut~self.shared_destination)
  requires old(self).inv()
  ensures final(self).l() == old(self).l(), !old(self).open() ==> old(self).idle(*final(self)), final(self).inv(),
    old(self).open() ==> final(self).st().up().c(),
    old(self).open() && old(self).st().state.q().len() == 0 && old(self).st().nc() == 0 && !old(self).st().down().closed() ==> !final(self).open() && final(self).d().sent() == old(self).d().with(Ev::Complete),
    old(self).open() && !(old(self).st().state.q().len() == 0 && old(self).st().nc() == 0 && !old(self).st().down().closed()) ==> final(self).d() == old(self).d() && final(self).open() && final(self).st().state == old(self).st().state && final(self).st().nc() == old(self).st().nc()
//@end
//@fn rx_core_subscriber_higher_order_concurrent ConcurrentSubscriber::is_closed
  ensures r == !self.open()
//@end
//@fn rx_core_subscriber_higher_order_concurrent ConcurrentSubscriber::unsubscribe env=unsubscribe,@shared_destination:&mut~self.state
  requires old(self).inv()
  ensures final(self).l() == old(self).l(), !old(self).open() ==> old(self).idle(*final(self)), !final(self).open()
//@end
} // verus!
fn main() {}