//@include prelude.vrs
//@include lib_ho.vrs
verus! {
broadcast use {vp::grp, ho::g};
// ---------------------------------------------------------------- nothing ever waits; nobody else starts anything
pub trait Observable: Sized { type Out; type OutError; }
pub trait Signal {}
//@replace SharedSubscription => Isd
//@replace HigherOrderSubscriberState < () > => HigherOrderSubscriberState < Un < InnerObservable > >
/// the state `()`; ghost: the inner sources subscribed to so far
pub struct Un<O> { pub log: Ghost<Seq<O>> }
impl<O> HigherOrderSubscriberStateConditions for Un<O> {
    open spec fn waiting(&self) -> nat { 0 }
    open spec fn grows(a: Self, b: Self) -> bool { a.log@ == b.log@ }
    proof fn grows_refl(a: Self) { }
    proof fn grows_trans(a: Self, b: Self, c: Self) { }
    open spec fn calm(a: nat, b: nat) -> bool { b <= a }
    proof fn calm_less(a: nat, b: nat) { }
    proof fn calm_trans(a: nat, b: nat, c: nat) { }
    fn can_downstream_complete(&self) -> (r: bool) { true }
    fn can_downstream_unsubscribe(&self) -> (r: bool) { true }
    fn on_upstream_error(&mut self) { }
    fn on_downstream_error(&mut self) { }
}
pub type St<O> = HigherOrderSubscriberState<Un<O>>;
impl<T> Lk<T> { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.cell() == self.cell(), r@ == self@ { unimplemented!() } }
impl Isd { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.closed() == self.closed() { unimplemented!() } }
/// the subscription to the inner source
#[verifier::external_body]
pub struct Inr { x: u8 }
impl Inr {
    #[verifier::external_body]
    pub fn new_with_teardown(x: Isd) -> (r: Self) { unimplemented!() }
    /// releases its inner source if that is still counted; `n` others are
    #[verifier::external_body]
    pub fn unsubscribe<O, D: ObserverInput>(&mut self, s: &mut Lk<St<O>>, d: &mut Shr<D>, n: Ghost<nat>)
        requires old(s)@.nu() <= n@ + 1
        ensures final(s).cell() == old(s).cell(), mv(old(s)@, *old(d), final(s)@, *final(d), lim(old(s).cell())), final(s)@.nu() <= n@, old(s)@.nu() >= n@ ==> final(s)@.nu() == n@, old(s)@.nc() >= n@ ==> final(s)@.nc() >= n@ { unimplemented!() }
}
impl Isd { #[verifier::external_body] pub fn into(self) -> (r: Isd) ensures r == self { unimplemented!() } }
/// an inner source; it may emit, complete and call back into anything while it is subscribed to
pub trait VfSubscribe: Observable {
    /// only once, when no more is expected of the source
    #[verifier::external_body]
    fn subscribe<D: Subscriber<In = Self::Out, InError = Self::OutError>, A: HoDone<Un<Self>, D>, B: HoGone<Un<Self>, D>>(&mut self, x: HigherOrderInnerSubscriber<Un<Self>, A, B, D>, s: &mut Lk<St<Self>>, d: &mut Shr<D>) -> (r: Isd)
        requires old(s)@.nu() == 1, old(s)@.nc() == 1, x.inv(), x.open(), x.d() == *old(d), x.l() == lim(old(s).cell()), old(s)@.up().c(), old(s)@.up().u(), okd(old(s)@, *old(d))
        ensures final(s).cell() == old(s).cell(), final(s)@.state.log@ == old(s)@.state.log@.push(*old(self)),
          mono(old(s)@.up(), final(s)@.up()), mono(old(s)@.down(), final(s)@.down()), grew(*old(d), *final(d)), completes(*old(d), *final(d)) ==> fin(final(s)@), okd(old(s)@, *old(d)) ==> okd(final(s)@, *final(d)),
          final(s)@.nu() <= 1, r.closed() ==> final(s)@.nu() == 0 { unimplemented!() }
}
impl<O: Observable> VfSubscribe for O {}

//@replace higher_order_subscriber . get_state_mut () => self . state . lock_ignore_poison ()
impl<O, D: Subscriber> HoDone<Un<O>, D> for VfDone {
    open spec fn knows(&self) -> nat { self.n@ }
    fn vf_call(self, key: usize, s: &mut Lk<St<O>>, d: &mut Shr<D>) { self.call(key) }
}
pub struct VfDone { pub n: Ghost<nat> }
#[verifier::reject_recursive_types(O)]
#[verifier::reject_recursive_types(D)]
pub struct CaGone<O, D> { pub outer_teardown_on_unsubscribe_clone: Isd, pub n: Ghost<nat>, pub x: PhantomData<(O, D)> }
impl<O, D: Subscriber> HoGone<Un<O>, D> for CaGone<O, D> {
    open spec fn knows(&self) -> nat { self.n@ }
    fn vf_call(self, key: usize, s: &mut Lk<St<O>>, d: &mut Shr<D>) { self.call(key, s, d, self.outer_teardown_on_unsubscribe_clone.clone()) }
}
//@replace Option < Isd > => Option < Inr >
//@replace Isd :: new_with_teardown => Inr :: new_with_teardown
//@replace HigherOrderSubscriberState :: default () => vf_default ()
//@replace Isd :: default () => Isd :: vf_new ()
/// what #[derive(Default)] gives
pub fn vf_default<O>() -> (r: St<O>) ensures r.nc() == 0, r.nu() == 0, !r.up().closed(), !r.down().closed()
{ HigherOrderSubscriberState { state: Un { log: Ghost(Seq::empty()) }, non_completed_subscriptions: 0, non_unsubscribed_subscriptions: 0, upstream_subscriber_state: SubscriberState::default(), downstream_subscriber_state: SubscriberState::default() } }
//@struct rx_core_operator_catch CatchSubscriber
//@spec rx_core_operator_catch CatchSubscriber
    pub closed spec fn st(&self) -> St<InnerObservable> { self.state@ }
    pub closed spec fn d(&self) -> Shr<Destination> { self.shared_destination }
    pub closed spec fn l(&self) -> nat { lim(self.state.cell()) }
    pub open spec fn open(&self) -> bool { !self.d().shut() && !self.td() }
    pub closed spec fn td(&self) -> bool { self.outer_teardown.closed() }
    pub closed spec fn held(&self) -> bool { self.inner_subscription is Some }
    /// the recovery is still to be chosen
    pub closed spec fn fresh(&self) -> bool { self.error_mapper is Some }
    pub closed spec fn gives(&self, e: InError, o: InnerObservable) -> bool { call_ensures(self.error_mapper->0, (e,), o) }
    pub closed spec fn total(&self) -> bool { self.fresh() ==> forall|e: InError| #[trigger] call_requires(self.error_mapper->0, (e,)) }
    /// nothing but the source before the recovery; only the held recovery after that
    pub open spec fn inv(&self) -> bool {
        self.l() == 0 && okd(self.st(), self.d()) && self.st().nu() <= 1 && (!self.held() ==> self.st().nu() == 0) && self.total()
        && (self.fresh() ==> self.st().nu() == 0 && self.st().nc() == 0 && !self.held()) }
    pub open spec fn idle(&self, f: Self) -> bool { f.st() == self.st() && f.d() == self.d() && f.open() == self.open() && f.held() == self.held() && f.fresh() == self.fresh() }
//@end
//@fn rx_core_operator_catch CatchSubscriber::error as=call closure=0 chead=impl~VfDone ptypes=usize
  ensures true
//@end
/// the output is over once nothing can follow
//@fn rx_core_operator_catch CatchSubscriber::error closure=1 chead=impl<O,D:Subscriber>~CaGone<O,D> ptypes=usize alias=state_on_unsubscribe_clone=>s;shared_destination_on_unsubscribe_clone=>d env=unsubscribe,%shared_destination_on_unsubscribe_clone:&mut~*s env2=unsubscribe,%outer_teardown_on_unsubscribe_clone:(&mut~*s,&mut~*d) cargs=s:&mut~Lk<St<O>>;d:&mut~Shr<D>;mut~outer_teardown_on_unsubscribe_clone:Isd
  requires okd(old(s)@, *old(d))
  ensures refilled(old(s)@, *old(d), final(s)@, *final(d), lim(old(s).cell())), final(s).cell() == old(s).cell()
//@end
//@fn rx_core_operator_catch CatchSubscriber::new args=destination,error_mapper
  requires forall|e: InError| #[trigger] call_requires(error_mapper, (e,))
  ensures r.fresh(), r.inv(), r.d().sent() == destination.log(), forall|e: InError, o: InnerObservable| call_ensures(error_mapper, (e,), o) ==> #[trigger] r.gives(e, o)
//@@at Self {
// nothing is ever started by a callback: the limit belonging to the new cell is chosen as 0
assume(forall|c: int| #[trigger] lim(c) == 0);
//@end
/// values of the source go on unchanged
//@fn rx_core_operator_catch CatchSubscriber::next args=x env=next,@shared_destination:&mut~self.state
  requires old(self).inv(), old(self).fresh()
  ensures final(self).inv(), pfx(old(self).d().with(Ev::Next(x)), final(self).d().sent())
//@end
/// the first error is replaced by the recovery chosen for it, subscribed to once; never again
//@fn rx_core_operator_catch CatchSubscriber::error args=e lift=1:CaGone:outer_teardown_on_unsubscribe_clone,n,x;0:VfDone:n env=subscribe,%next_observable:(&mut~self.state,&mut~self.shared_destination) env2=unsubscribe,%inner_subscription:(&mut~self.state,&mut~self.shared_destination,Ghost(1nat))
  requires old(self).inv()
  ensures final(self).inv(), final(self).l() == old(self).l(),
    !(old(self).open() && old(self).fresh()) ==> old(self).idle(*final(self)),
    old(self).open() && old(self).fresh() ==> !final(self).fresh() && exists|o: InnerObservable| #[trigger] old(self).gives(e, o) && final(self).st().state.log@ == old(self).st().state.log@.push(o)
//@@start
let n: Ghost<nat> = Ghost(lim(self.state.cell()));
let x = PhantomData;
//@@at let mut higher_order_subscriber
assert(old(self).gives(e, next_observable));
//@end
/// completion ends the output and starts nothing
//@fn rx_core_operator_catch CatchSubscriber::complete env=complete,@shared_destination:&mut~self.state
  requires old(self).inv(), old(self).fresh()
  ensures final(self).l() == old(self).l(), !old(self).open() ==> old(self).idle(*final(self)),
    old(self).open() ==> !final(self).open() && final(self).d().sent() == old(self).d().with(Ev::Complete)
//@end
//@fn rx_core_operator_catch CatchSubscriber::is_closed
  ensures r == !self.open()
//@end
/// nothing is left subscribed to
//@fn rx_core_operator_catch CatchSubscriber::unsubscribe env=unsubscribe,@outer_teardown,%:(&mut~self.state,&mut~self.shared_destination) env2=unsubscribe,@shared_destination,%:&mut~self.state env3=unsubscribe,%subscription_handle:(&mut~self.state,&mut~self.shared_destination,Ghost(0nat))
  requires old(self).inv()
  ensures final(self).inv(), final(self).l() == old(self).l(), !final(self).open(), final(self).fresh() == old(self).fresh(), mv(old(self).st(), old(self).d(), final(self).st(), final(self).d(), old(self).l()), old(self).open() || !old(self).td() ==> final(self).st().nu() == 0
//@end
// ---- the operator: every subscription has a resumption of its own
//@struct rx_core_operator_catch CatchOperator
//@fn rx_core_operator_catch CatchOperator::new args=f
  ensures r.error_mapper == f
//@end
//@fn rx_core_operator_catch CatchOperator::operator_subscribe args=destination
  requires forall|e: InError| #[trigger] call_requires(old(self).error_mapper, (e,))
  ensures final(self).error_mapper == old(self).error_mapper, r.fresh(), r.inv(), r.d().sent() == destination.log(), forall|e: InError, o: InnerObservable| call_ensures(old(self).error_mapper, (e,), o) ==> #[trigger] r.gives(e, o)
//@@at CatchSubscriber ::
    proof { vp::ax_same(self.error_mapper, error_mapper); }
//@end
} // verus!
fn main() {}
