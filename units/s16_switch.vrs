//@include prelude.vrs
//@include lib_ho.vrs
verus! {
broadcast use {vp::grp, ho::g};
// ---------------------------------------------------------------- nothing ever waits; nobody else starts anything
pub trait Observable: Sized { type Out; type OutError; }
pub trait Signal {}
//@replace SharedSubscription => Isd
//@replace HigherOrderSubscriberState < () > => HigherOrderSubscriberState < Un < InnerObservable > >
/// the state `()`; ghost: the inner sources subscribed to so far
pub struct Un<O> { pub log: Ghost<Seq<O>> }
impl<O> Default for Un<O> { fn default() -> (r: Self) ensures r.log@ == Seq::<O>::empty() { Un { log: Ghost(Seq::empty()) } } }
impl<O> HigherOrderSubscriberStateConditions for Un<O> {
    open spec fn waiting(&self) -> nat { 0 }
    open spec fn grows(a: Self, b: Self) -> bool { a.log@ == b.log@ }
    proof fn grows_refl(a: Self) { }
    proof fn grows_trans(a: Self, b: Self, c: Self) { }
    open spec fn calm(a: nat, b: nat) -> bool { b <= a }
    proof fn calm_less(a: nat, b: nat) { }
    proof fn calm_trans(a: nat, b: nat, c: nat) { }
    fn can_downstream_complete(&self) -> (r: bool) { true }
    fn can_downstream_unsubscribe(&self) -> (r: bool) { true }
    fn on_upstream_error(&mut self) { }
    fn on_downstream_error(&mut self) { }
}
pub type St<O> = HigherOrderSubscriberState<Un<O>>;
impl<T> Lk<T> { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.cell() == self.cell(), r@ == self@ { unimplemented!() } }
impl Isd { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.closed() == self.closed() { unimplemented!() } }
/// the subscription to the inner source
#[verifier::external_body]
pub struct Inr { x: u8 }
impl Inr {
    #[verifier::external_body]
    pub fn new_with_teardown(x: Isd) -> (r: Self) { unimplemented!() }
    /// releases its inner source if that is still counted; `n` others are
    #[verifier::external_body]
    pub fn unsubscribe<O, D: ObserverInput>(&mut self, s: &mut Lk<St<O>>, d: &mut Shr<D>, n: Ghost<nat>)
        requires old(s)@.nu() <= n@ + 1
        ensures final(s).cell() == old(s).cell(), mv(old(s)@, *old(d), final(s)@, *final(d), lim(old(s).cell())), final(s)@.nu() <= n@, old(s)@.nu() >= n@ ==> final(s)@.nu() == n@, old(s)@.nc() >= n@ ==> final(s)@.nc() >= n@ { unimplemented!() }
}
impl Isd { #[verifier::external_body] pub fn into(self) -> (r: Isd) ensures r == self { unimplemented!() } }
/// an inner source; it may emit, complete and call back into anything while it is subscribed to
pub trait VfSubscribe: Observable {
    /// only ever alone
    #[verifier::external_body]
    fn subscribe<D: Subscriber<In = Self::Out, InError = Self::OutError>, A: HoDone<Un<Self>, D>, B: HoGone<Un<Self>, D>>(&mut self, x: HigherOrderInnerSubscriber<Un<Self>, A, B, D>, s: &mut Lk<St<Self>>, d: &mut Shr<D>) -> (r: Isd)
        requires old(s)@.nu() == 1, x.inv(), x.open(), x.st() == old(s)@, x.d() == *old(d), x.l() == lim(old(s).cell())
        ensures final(s).cell() == old(s).cell(), final(s)@.state.log@ == old(s)@.state.log@.push(*old(self)),
          mono(old(s)@.up(), final(s)@.up()), mono(old(s)@.down(), final(s)@.down()), grew(*old(d), *final(d)), completes(*old(d), *final(d)) ==> fin(final(s)@), okd(old(s)@, *old(d)) ==> okd(final(s)@, *final(d)),
          final(s)@.nu() <= 1, r.closed() ==> final(s)@.nu() == 0 { unimplemented!() }
}
impl<O: Observable> VfSubscribe for O {}
pub struct VfDone { pub n: Ghost<nat> }
impl<O, D: Subscriber> HoDone<Un<O>, D> for VfDone {
    open spec fn knows(&self) -> nat { self.n@ }
    fn vf_call(self, key: usize, s: &mut Lk<St<O>>, d: &mut Shr<D>) { self.call(key); self.call2(key) }
}
//@replace Option < Isd > => Option < Inr >
//@replace Isd :: new_with_teardown => Inr :: new_with_teardown

//@macro OP K T GONE SHARED DONE
#[verifier::reject_recursive_types(O)]
#[verifier::reject_recursive_types(D)]
pub struct $GONE<O, D> { pub outer_teardown_on_unsubscribe_clone: Isd, pub n: Ghost<nat>, pub x: PhantomData<(O, D)> }
impl<O, D: Subscriber> HoGone<Un<O>, D> for $GONE<O, D> {
    open spec fn knows(&self) -> nat { self.n@ }
    fn vf_call(self, key: usize, s: &mut Lk<St<O>>, d: &mut Shr<D>) { self.call(key, s, d, self.outer_teardown_on_unsubscribe_clone.clone()) }
}
//@struct $K $T
//@spec $K $T
    pub closed spec fn st(&self) -> St<InnerObservable> { self.state@ }
    pub closed spec fn d(&self) -> Shr<Destination> { self.shared_destination }
    pub closed spec fn l(&self) -> nat { lim(self.state.cell()) }
    pub open spec fn open(&self) -> bool { !self.d().shut() && !self.td() }
    pub closed spec fn td(&self) -> bool { self.outer_teardown.closed() }
    pub closed spec fn held(&self) -> bool { self.inner_subscription is Some }
    /// at most one inner source is subscribed to, and it is the held one
    pub open spec fn inv(&self) -> bool { okd(self.st(), self.d()) && self.st().nu() <= 1 && (!self.held() ==> self.st().nu() == 0) }
    pub open spec fn idle(&self, f: Self) -> bool { f.st() == self.st() && f.d() == self.d() && f.open() == self.open() && f.held() == self.held() }
//@end
/// nothing is subscribed to yet
//@fn $K $T::new args=destination
  ensures r.inv(), !r.held(), !r.td(), r.st().nu() == 0, r.st().nc() == 0, r.d().sent() == destination.log(), r.d().shut() == (destination.closed() || has_term(destination.log())), r.st().state.log@.len() == 0
//@end
/// nothing more happens when it completes
//@fn $K $T::next as=$DONE closure=0 chead=impl~VfDone ptypes=usize
  ensures true
//@end
/// the output is over once nothing can follow
//@fn $K $T::next closure=1 chead=impl<O,D:Subscriber>~$GONE<O,D> ptypes=usize alias=state_on_unsubscribe_clone=>s;$SHARED=>d env=unsubscribe,%$SHARED:&mut~*s env2=unsubscribe,%outer_teardown_on_unsubscribe_clone:(&mut~*s,&mut~*d) cargs=s:&mut~Lk<St<O>>;d:&mut~Shr<D>;mut~outer_teardown_on_unsubscribe_clone:Isd
  requires okd(old(s)@, *old(d))
  ensures refilled(old(s)@, *old(d), final(s)@, *final(d), lim(old(s).cell())), final(s).cell() == old(s).cell()
//@end
//@fn $K $T::is_closed
  ensures r == !self.open()
//@end
/// nothing is left subscribed to
//@fn $K $T::unsubscribe env=unsubscribe,@outer_teardown,%:(&mut~self.state,&mut~self.shared_destination) env2=unsubscribe,@shared_destination,%:&mut~self.state env3=unsubscribe,%subscription_handle:(&mut~self.state,&mut~self.shared_destination,Ghost(0nat))
  requires old(self).inv()
  ensures final(self).l() == old(self).l(), !final(self).open(), final(self).inv(), mv(old(self).st(), old(self).d(), final(self).st(), final(self).d(), old(self).l()), old(self).open() || !old(self).td() ==> final(self).st().nu() == 0
//@end
//@fn $K $T::error args=e env=error,@shared_destination:&mut~self.state
  requires old(self).inv()
  ensures final(self).l() == old(self).l(), !old(self).open() ==> old(self).idle(*final(self)),
    old(self).open() ==> !final(self).open() && final(self).d().shut() && final(self).d().sent() == old(self).d().with(Ev::Error(e)) && final(self).st().nu() == 0
//@end
//@fn $K $T::complete env=complete,@shared_destination:&mut~self.state
  requires old(self).inv()
  ensures final(self).l() == old(self).l(), !old(self).open() ==> old(self).idle(*final(self)),
    old(self).open() ==> final(self).st().up().c(),
    old(self).open() && old(self).st().nc() == 0 && !old(self).st().down().closed() ==> !final(self).open() && final(self).d().sent() == old(self).d().with(Ev::Complete),
    old(self).open() && !(old(self).st().nc() == 0 && !old(self).st().down().closed()) ==> final(self).d() == old(self).d() && final(self).open() && final(self).st().nu() == old(self).st().nu() && final(self).st().nc() == old(self).st().nc()
//@end
//@endmacro
//@use OP rx_core_subscriber_higher_order_switch SwitchSubscriber SwGone shared_destination_on_unsubscribe_clone call
//@use OP rx_core_subscriber_higher_order_exhaust ExhaustSubscriber ExGone shared_destination_on_unsubscribe call2
/// the newest is subscribed to, after the earlier one was released
//@fn rx_core_subscriber_higher_order_switch SwitchSubscriber::next args=o lift=1:SwGone:outer_teardown_on_unsubscribe_clone,n,x;0:VfDone:n env=subscribe,%next:(&mut~self.state,&mut~self.shared_destination) env2=unsubscribe,%inner_subscription:(&mut~self.state,&mut~self.shared_destination,Ghost(1nat))
  requires old(self).inv()
  ensures final(self).inv(), final(self).l() == old(self).l(), !old(self).open() ==> old(self).idle(*final(self)),
    old(self).open() ==> final(self).st().state.log@ == old(self).st().state.log@.push(o)
//@@start
let n: Ghost<nat> = Ghost(lim(self.state.cell()));
let x = PhantomData;
//@@at non_completed_subscriptions += 1
assume(state_lock.non_completed_subscriptions < usize::MAX);
//@end
/// subscribed to only if none is active; ignored otherwise
//@fn rx_core_subscriber_higher_order_exhaust ExhaustSubscriber::next args=o lift=1:ExGone:outer_teardown_on_unsubscribe_clone,n,x;0:VfDone:n env=subscribe,%next:(&mut~self.state,&mut~self.shared_destination) env2=unsubscribe,%inner_subscription:(&mut~self.state,&mut~self.shared_destination,Ghost(1nat))
  requires old(self).inv()
  ensures final(self).inv(), final(self).l() == old(self).l(), !old(self).open() ==> old(self).idle(*final(self)),
    old(self).open() && old(self).st().nu() == 0 ==> final(self).st().state.log@ == old(self).st().state.log@.push(o),
    old(self).open() && old(self).st().nu() > 0 ==> old(self).idle(*final(self))
//@@start
let n: Ghost<nat> = Ghost(lim(self.state.cell()));
let x = PhantomData;
//@@at non_completed_subscriptions += 1
assume(state_lock.non_completed_subscriptions < usize::MAX);
//@end
} // verus!
fn main() {}
