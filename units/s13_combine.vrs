//@include prelude.vrs
//@include lib_pair.vrs
verus! {
broadcast use {vp::grp, pr::ax_clone};
// ---------------------------------------------------------------- combine_latest
//@struct rx_core_observable_combine_latest CombineLatestSubscriber
//@spec rx_core_observable_combine_latest CombineLatestSubscriber
    pub closed spec fn d(&self) -> Destination { self.destination }
    pub closed spec fn sides(&self) -> (NotificationState<O1::Out, O1::OutError>, NotificationState<O2::Out, O2::OutError>) { (self.o1_state, self.o2_state) }
    /// no error is kept back
    pub open spec fn inv(&self) -> bool { self.sides().0.err() is None && self.sides().1.err() is None }
//@end
/// nothing can be emitted any more, as documented: both completed, or one completed without a value
pub open spec fn latest_complete<A, E, B, F>(a: NotificationState<A, E>, b: NotificationState<B, F>) -> bool {
    a.st().c() && b.st().c() || a.st().p() && b.st().c() && !b.st().p() || b.st().p() && a.st().c() && !a.st().p() }
pub open spec fn latest_unsub<A, E, B, F>(a: NotificationState<A, E>, b: NotificationState<B, F>) -> bool {
    a.st().closed() && b.st().closed() || a.st().w() && b.st().closed() && !b.st().p() || b.st().w() && a.st().closed() && !a.st().p() }
pub open spec fn latest_out<A, E, B, F, G>(a: NotificationState<A, E>, b: NotificationState<B, F>, is_next: bool) -> Seq<Ev<(A, B), G>> {
    if latest_complete(a, b) { s1(Ev::Complete) } else if latest_unsub(a, b) { s1(Ev::Unsub) }
    else if is_next && a.val() is Some && b.val() is Some { s1(Ev::Next((a.val().unwrap(), b.val().unwrap()))) } else { s0() } }
//@fn rx_core_observable_combine_latest CombineLatestSubscriber::new
  ensures r.d() == destination, r.inv(), r.sides().0.fresh(), r.sides().1.fresh()
//@end
/// one signal of either input
//@fn rx_core_observable_combine_latest CombineLatestSubscriber::next args=n opt
  requires old(self).inv()
  ensures final(self).inv(),
    n matches EitherObservableNotification2::O1(x) ==> took(old(self).sides().0, final(self).sides().0, x) && final(self).sides().1 == old(self).sides().1,
    n matches EitherObservableNotification2::O2(x) ==> took(old(self).sides().1, final(self).sides().1, x) && final(self).sides().0 == old(self).sides().0,
    dl(old(self).d(), final(self).d(), match either_error::<O1, O2, Destination::InError>(n) {
        Some(e) => s1(Ev::Error(e)),
        None => latest_out(final(self).sides().0, final(self).sides().1, either_next(n)) }),
    either_error::<O1, O2, Destination::InError>(n) is None && latest_unsub(final(self).sides().0, final(self).sides().1) && !latest_complete(final(self).sides().0, final(self).sides().1) ==> final(self).d().closed()
//@end
//@fn rx_core_observable_combine_latest CombineLatestSubscriber::is_closed
  ensures r == self.d().closed()
//@end
// ---------------------------------------------------------------- combine_changes
//@enum rx_core_observable_combine_changes Change
/// what is known of one input
pub open spec fn change<T>(v: Option<T>, now: bool) -> Change<T> { match v { None => Change::None, Some(x) => if now { Change::JustUpdated(x) } else { Change::Latest(x) } } }
pub open spec fn changes_out<A, E, B, F, G>(a: NotificationState<A, E>, b: NotificationState<B, F>, n1: bool, n2: bool) -> Seq<Ev<(Change<A>, Change<B>), G>> {
    if a.st().c() && b.st().c() { s1(Ev::Complete) } else if a.st().closed() && b.st().closed() { s1(Ev::Unsub) }
    else if n1 || n2 { s1(Ev::Next((change(a.val(), n1), change(b.val(), n2)))) } else { s0() } }
//@struct rx_core_observable_combine_changes CombineChangesSubscriber
//@spec rx_core_observable_combine_changes CombineChangesSubscriber
    pub closed spec fn d(&self) -> Destination { self.destination }
    pub closed spec fn sides(&self) -> (NotificationState<O1::Out, O1::OutError>, NotificationState<O2::Out, O2::OutError>) { (self.o1_state, self.o2_state) }
    /// no error is kept back
    pub open spec fn inv(&self) -> bool { self.sides().0.err() is None && self.sides().1.err() is None }
//@end
//@fn rx_core_observable_combine_changes CombineChangesSubscriber::new
  ensures r.d() == destination, r.inv(), r.sides().0.fresh(), r.sides().1.fresh()
//@end
/// one signal of either input
//@fn rx_core_observable_combine_changes CombineChangesSubscriber::next args=n opt
  requires old(self).inv()
  ensures final(self).inv(),
    n matches EitherObservableNotification2::O1(x) ==> took(old(self).sides().0, final(self).sides().0, x) && final(self).sides().1 == old(self).sides().1,
    n matches EitherObservableNotification2::O2(x) ==> took(old(self).sides().1, final(self).sides().1, x) && final(self).sides().0 == old(self).sides().0,
    dl(old(self).d(), final(self).d(), match either_error::<O1, O2, Destination::InError>(n) {
        Some(e) => s1(Ev::Error(e)),
        None => changes_out(final(self).sides().0, final(self).sides().1, either_next(n) && n is O1, either_next(n) && n is O2) })
//@end
//@fn rx_core_observable_combine_changes CombineChangesSubscriber::is_closed
  ensures r == self.d().closed()
//@end
// ---------------------------------------------------------------- with_latest_from
/// the subscription to the other input: whether it has been released
#[verifier::external_body]
pub struct Isub { x: u8 }
impl Isub {
    pub uninterp spec fn released(&self) -> bool;
    #[verifier::external_body]
    pub fn unsubscribe(&mut self) ensures final(self).released() { unimplemented!() }
}
//@replace < InnerObservable as Observable > :: Subscription < ObserverSubscriber < WithLatestFromInnerDestination < InnerObservable :: Out , Destination > > > => Isub
//@replace SharedSubscriber < Destination > => Destination
//@replace SharedSubscriber < ErrorDestination > => ErrorDestination
//@replace self . state . lock_ignore_poison () . get_latest_value () => self . state . lock_ro () . get_latest_value ()
//@struct rx_core_operator_with_latest_from WithLatestFromInnerDestinationState
//@spec rx_core_operator_with_latest_from WithLatestFromInnerDestinationState
    pub closed spec fn latest(&self) -> Option<In> { self.latest_in }
    pub closed spec fn fin(&self) -> bool { self.completed || self.error }
//@end
//@fn rx_core_operator_with_latest_from WithLatestFromInnerDestinationState::is_finished
  ensures r == self.fin()
//@end
//@fn rx_core_operator_with_latest_from WithLatestFromInnerDestinationState::default
  ensures r.latest() is None, !r.fin()
//@end
//@fn rx_core_operator_with_latest_from WithLatestFromInnerDestinationState::get_latest_value
  ensures *r == self.latest()
//@end
/// after its end the other input changes nothing
//@fn rx_core_operator_with_latest_from WithLatestFromInnerDestinationState::next args=x
  ensures final(self).fin() == old(self).fin(), final(self).latest() == if old(self).fin() { old(self).latest() } else { Some(x) }
//@end
//@fn rx_core_operator_with_latest_from WithLatestFromInnerDestinationState::error
  ensures final(self).fin(), final(self).latest() == old(self).latest()
//@end
//@fn rx_core_operator_with_latest_from WithLatestFromInnerDestinationState::complete
  ensures final(self).fin(), final(self).latest() == old(self).latest()
//@end
//@struct rx_core_operator_with_latest_from WithLatestFromInnerDestination
//@spec rx_core_operator_with_latest_from WithLatestFromInnerDestination
    pub closed spec fn d(&self) -> ErrorDestination { self.error_destination }
    pub closed spec fn known(&self) -> WithLatestFromInnerDestinationState<In> { self.state@ }
//@end
//@fn rx_core_operator_with_latest_from WithLatestFromInnerDestination::next args=x
  ensures final(self).d() == old(self).d(), final(self).known().fin() == old(self).known().fin(), final(self).known().latest() == if old(self).known().fin() { old(self).known().latest() } else { Some(x) }
//@end
/// an error of the other input ends the output
//@fn rx_core_operator_with_latest_from WithLatestFromInnerDestination::error args=e
  ensures step(old(self).d(), final(self).d(), Ev::Error(e)), final(self).known().latest() == old(self).known().latest()
//@end
/// its completion only when there will never be a value to pair with
//@fn rx_core_operator_with_latest_from WithLatestFromInnerDestination::complete
  ensures dl(old(self).d(), final(self).d(), if old(self).known().latest() is None { s1(Ev::Complete) } else { s0() }), final(self).known().latest() == old(self).known().latest()
//@end
//@struct rx_core_operator_with_latest_from WithLatestFromSubscriber
//@spec rx_core_operator_with_latest_from WithLatestFromSubscriber
    pub closed spec fn d(&self) -> Destination { self.destination }
    pub closed spec fn known(&self) -> WithLatestFromInnerDestinationState<InnerObservable::Out> { self.state@ }
    pub closed spec fn inner(&self) -> Isub { self.inner_subscription }
//@end
//@fn rx_core_operator_with_latest_from WithLatestFromSubscriber::next args=x
  ensures final(self).known() == old(self).known(), dl(old(self).d(), final(self).d(), match old(self).known().latest() { Some(y) => s1(Ev::Next((x, y))), None => s0() })
//@end
//@fn rx_core_operator_with_latest_from WithLatestFromSubscriber::error args=e
  ensures step(old(self).d(), final(self).d(), Ev::Error(e)), final(self).inner().released()
//@end
//@fn rx_core_operator_with_latest_from WithLatestFromSubscriber::complete
  ensures step(old(self).d(), final(self).d(), Ev::Complete), final(self).inner().released()
//@end
//@fn rx_core_operator_with_latest_from WithLatestFromSubscriber::unsubscribe
  ensures step(old(self).d(), final(self).d(), Ev::Unsub), final(self).inner().released()
//@end
//@fn rx_core_operator_with_latest_from WithLatestFromSubscriber::is_closed
  ensures r == self.d().closed()
//@end
// ---- subscribing: the inner source once, with a subscriber working on the same state and output
//@spec rx_core_operator_with_latest_from WithLatestFromInnerDestination
    pub closed spec fn cell(&self) -> int { self.state.cell() }
//@end
//@spec rx_core_operator_with_latest_from WithLatestFromSubscriber
    pub closed spec fn cell(&self) -> int { self.state.cell() }
//@end
impl<T> Lk<T> { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.cell() == self.cell(), r@ == self@ { unimplemented!() } }
/// a shared handle to it
#[verifier::external_body]
pub fn vf_share<D>(d: D) -> (r: D) ensures r == d { unimplemented!() }
#[verifier::external_body]
pub fn vf_handle<D>(d: &D) -> (r: D) ensures r == *d { unimplemented!() }
/// how often it was subscribed to, and the state its values go to
pub uninterp spec fn wlf_subs<O>(o: O) -> Seq<int>;
pub trait VfWlf: Observable {
    /// what it sends meanwhile changes the state, and may end the output
    #[verifier::external_body]
    fn vf_subscribe<D: Subscriber<InError = Self::OutError>>(&mut self, x: WithLatestFromInnerDestination<Self::Out, D>, s: &mut Lk<WithLatestFromInnerDestinationState<Self::Out>>, d: &mut D) -> (r: Isub)
        requires x.cell() == old(s).cell(), x.d() == *old(d), x.known() == old(s)@, old(s)@.latest() is None, !old(s)@.fin()
        ensures final(s).cell() == old(s).cell(), old(d).log().is_prefix_of(final(d).log()), wlf_subs(*final(self)) == wlf_subs(*old(self)).push(x.cell()), !r.released() { unimplemented!() }
}
impl<O: Observable> VfWlf for O {}
//@replace let shared_destination = SharedSubscriber :: new (destination) => let mut shared_destination = vf_share (destination)
//@replace shared_destination . clone () => vf_handle (& shared_destination)
//@replace inner_observable . subscribe ( => inner_observable . vf_subscribe (
//@replace let state = inner_destination . get_state () => let mut state = inner_destination . get_state ()
//@fn rx_core_operator_with_latest_from WithLatestFromInnerDestination::new args=d
  ensures r.d() == d, r.known().latest() is None, !r.known().fin()
//@end
//@fn rx_core_operator_with_latest_from WithLatestFromInnerDestination::get_state
  ensures r.cell() == self.cell(), r@ == self.known()
//@end
//@fn rx_core_operator_with_latest_from WithLatestFromSubscriber::new args=destination,inner mutargs= env=subscribe,%inner_observable:(&mut~state,&mut~shared_destination)
  ensures destination.log().is_prefix_of(r.d().log()), wlf_subs(*final(inner)) == wlf_subs(*old(inner)).push(r.cell()), !r.inner().released()
//@end
//@struct rx_core_operator_with_latest_from WithLatestFromOperator
//@fn rx_core_operator_with_latest_from WithLatestFromOperator::new args=o
  ensures r.inner_observable == o
//@end
//@fn rx_core_operator_with_latest_from WithLatestFromOperator::operator_subscribe args=destination
  ensures destination.log().is_prefix_of(r.d().log()), wlf_subs(final(self).inner_observable) == wlf_subs(old(self).inner_observable).push(r.cell()), !r.inner().released()
//@end
} // verus!
//@include lib_pairsub.vrs
verus! {
//@use PAIRSUB rx_core_observable_combine_latest CombineLatestObservable CombineLatestSubscriber (O1::Out,O2::Out)
//@use PAIRSUB rx_core_observable_combine_changes CombineChangesObservable CombineChangesSubscriber (Change<O1::Out>,Change<O2::Out>)
} // verus!
fn main() {}
