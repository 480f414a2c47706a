// Two-input operators: the stored notification of each input, and the signals arriving from either.
//@include lib_state.vrs
verus! {
pub mod pr {
use super::*;
/// cloning a signal gives the same signal (assumed)
#[verifier::external_body]
pub broadcast proof fn ax_clone<T: Clone>(a: T, b: T) requires #[trigger] call_ensures(T::clone, (&a,), b) ensures a == b {}
/// Into: which error it becomes (assumed deterministic)
pub uninterp spec fn conv<A, B>(a: A) -> B;
#[verifier::external_body]
pub fn vf_into<A, B>(a: A) -> (r: B) ensures r == conv::<A, B>(a) { unimplemented!() }
}
pub use pr::*;
pub assume_specification<T, U> [Option::<T>::zip::<U>] (a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures r == match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None };
pub trait ObservableOutput: Sized { type Out; type OutError; }
pub trait Observable: ObservableOutput {}
//@known vf::into
//@macro DEREF FN
//@replace o1_state . $FN () => o1_state . deref () . $FN ()
//@replace o2_state . $FN () => o2_state . deref () . $FN ()
//@endmacro
//@use DEREF is_waiting
//@use DEREF is_primed
//@use DEREF is_completed
//@use DEREF is_errored
//@use DEREF is_unsubscribed
//@use DEREF is_closed
//@use DEREF is_finished
//@use DEREF is_completed_but_not_primed
//@use DEREF is_closed_but_primed
//@use DEREF is_closed_but_not_primed
//@use DEREF is_closed_but_not_primed_and_not_completed
//@use DEREF is_closed_but_not_completed
//@use DEREF is_closed_but_not_errored
//@use DEREF is_closed_but_not_completed_and_primed
//@replace SubscriberState :: default () => SubscriberState :: default ()
//@struct rx_core_notification_store NotificationState
//@spec rx_core_notification_store NotificationState
    pub closed spec fn val(&self) -> Option<Out> { self.value }
    pub closed spec fn err(&self) -> Option<OutError> { self.error }
    pub closed spec fn st(&self) -> SubscriberState { self.state }
    pub open spec fn fresh(&self) -> bool { self.val() is None && self.err() is None && self.st().is(true, false, false, false, false) }
//@end
/// the error is handed over at once, everything else is remembered
pub open spec fn took<A, E>(a: NotificationState<A, E>, b: NotificationState<A, E>, n: SubscriberNotification<A, E>) -> bool {
    &&& b.val() == match n { SubscriberNotification::Next(x) => Some(x), _ => a.val() }
    &&& b.st().is(false, a.st().p() || n is Next, a.st().c() || n is Complete, a.st().e() || n is Error, a.st().u() || n is Unsubscribe) || n is Unsubscribe && a.st().u() && b.st() == a.st()
}
//@fn rx_core_notification_store NotificationState::default
  ensures r.fresh()
//@end
//@fn rx_core_notification_store NotificationState::deref
  ensures *r == self.st()
//@end
//@fn rx_core_notification_store NotificationState::get_value
  ensures r == match self.val() { Some(x) => Some(&x), None => None }
//@end
//@fn rx_core_notification_store NotificationState::take_value
  ensures r == old(self).val(), final(self).val() is None, final(self).st() == old(self).st(), final(self).err() == old(self).err()
//@end
//@fn rx_core_notification_store NotificationState::is_empty
  ensures r == (self.val() is None)
//@end
//@fn rx_core_notification_store NotificationState::take_error
  ensures r == old(self).err(), final(self).err() is None, final(self).st() == old(self).st(), final(self).val() == old(self).val()
//@end
//@fn rx_core_notification_store NotificationState::next args=v
  ensures final(self).val() == Some(v), final(self).err() == old(self).err(), final(self).st().is(false, true, old(self).st().c(), old(self).st().e(), old(self).st().u())
//@end
//@fn rx_core_notification_store NotificationState::error args=e
  ensures final(self).val() == old(self).val(), final(self).err() == Some(e), final(self).st().is(false, old(self).st().p(), old(self).st().c(), true, old(self).st().u())
//@end
//@fn rx_core_notification_store NotificationState::complete
  ensures final(self).val() == old(self).val(), final(self).err() == old(self).err(), final(self).st().is(false, old(self).st().p(), true, old(self).st().e(), old(self).st().u())
//@end
//@fn rx_core_notification_store NotificationState::unsubscribe
  ensures final(self).val() == old(self).val(), final(self).err() == old(self).err(),
    if old(self).st().u() { final(self).st() == old(self).st() } else { final(self).st().is(false, old(self).st().p(), old(self).st().c(), old(self).st().e(), true) }
//@end
//@fn rx_core_notification_store NotificationState::push args=n
  ensures took(*old(self), *final(self), n), final(self).err() == match n { SubscriberNotification::Error(e) => Some(e), _ => old(self).err() }
//@end
//@enum rx_core_notification_variadics EitherObservableNotification2
pub open spec fn either_error<O1: ObservableOutput, O2: ObservableOutput, E>(n: EitherObservableNotification2<O1, O2>) -> Option<E> {
    match n { EitherObservableNotification2::O1(SubscriberNotification::Error(e)) => Some(conv::<O1::OutError, E>(e)), EitherObservableNotification2::O2(SubscriberNotification::Error(e)) => Some(conv::<O2::OutError, E>(e)), _ => None } }
pub open spec fn either_next<O1: ObservableOutput, O2: ObservableOutput>(n: EitherObservableNotification2<O1, O2>) -> bool {
    match n { EitherObservableNotification2::O1(x) => x is Next, EitherObservableNotification2::O2(x) => x is Next } }
// ---- each input's signals, terminal ones included, go to the pairing subscriber as values
pub trait EitherNotificationSelector2<O1: ObservableOutput, O2: ObservableOutput>: Sized {
    type Variant: ObservableOutput;
    spec fn tag(n: SubscriberNotification<<Self::Variant as ObservableOutput>::Out, <Self::Variant as ObservableOutput>::OutError>) -> EitherObservableNotification2<O1, O2>;
    fn select(n: SubscriberNotification<<Self::Variant as ObservableOutput>::Out, <Self::Variant as ObservableOutput>::OutError>) -> (r: EitherObservableNotification2<O1, O2>)
        ensures r == Self::tag(n);
}
//@struct rx_core_notification_variadics EitherNotificationSelector1Of2
//@struct rx_core_notification_variadics EitherNotificationSelector2Of2
//@fn rx_core_notification_variadics EitherNotificationSelector1Of2::select args=n
  ensures r == EitherObservableNotification2::<O1, O2>::O1(n)
//@end
//@fn rx_core_notification_variadics EitherNotificationSelector2Of2::select args=n
  ensures r == EitherObservableNotification2::<O1, O2>::O2(n)
//@end
//@struct rx_core_notification_variadics EitherSubscriber2
//@spec rx_core_notification_variadics EitherSubscriber2
    pub closed spec fn d(&self) -> Destination { self.destination }
//@end
//@fn rx_core_notification_variadics EitherSubscriber2::next args=x
  ensures step(old(self).d(), final(self).d(), Ev::Next(VariantSelector::tag(SubscriberNotification::Next(x))))
//@end
//@fn rx_core_notification_variadics EitherSubscriber2::error args=e
  ensures step(old(self).d(), final(self).d(), Ev::Next(VariantSelector::tag(SubscriberNotification::Error(e))))
//@end
//@fn rx_core_notification_variadics EitherSubscriber2::complete
  ensures step(old(self).d(), final(self).d(), Ev::Next(VariantSelector::tag(SubscriberNotification::Complete)))
//@end
//@fn rx_core_notification_variadics EitherSubscriber2::unsubscribe
  ensures step(old(self).d(), final(self).d(), Ev::Next(VariantSelector::tag(SubscriberNotification::Unsubscribe)))
//@end
//@fn rx_core_notification_variadics EitherSubscriber2::is_closed
  ensures r == self.d().closed()
//@end
} // verus!
