//@include prelude.vrs
verus! {
broadcast use vp::grp;

// ---------------------------------------------------------------- materialize
//@enum rx_core_common ObserverNotification
//@struct rx_core_operator_materialize MaterializeSubscriber
//@use inv0 rx_core_operator_materialize MaterializeSubscriber
//@use opnew rx_core_operator_materialize MaterializeSubscriber
//@fn rx_core_operator_materialize MaterializeSubscriber::next args=x
  ensures dl(old(self).destination, final(self).destination, s1(Ev::Next(ObserverNotification::Next(x))))
//@end
//@fn rx_core_operator_materialize MaterializeSubscriber::error args=x
  ensures dl(old(self).destination, final(self).destination, s2(Ev::Next(ObserverNotification::Error(x)), Ev::Complete))
//@end
//@fn rx_core_operator_materialize MaterializeSubscriber::complete
  ensures dl(old(self).destination, final(self).destination, s2(Ev::Next(ObserverNotification::Complete), Ev::Complete))
//@end
//@use fwd_sub rx_core_operator_materialize MaterializeSubscriber
//@struct rx_core_operator_materialize MaterializeOperator
//@fn rx_core_operator_materialize MaterializeOperator::operator_subscribe args=destination
  ensures dl(destination, r.destination, s0())
//@end

// ---------------------------------------------------------------- dematerialize
/// the signal a notification stands for
pub open spec fn sig_of<I, E>(n: ObserverNotification<I, E>) -> Ev<I, E> {
    match n { ObserverNotification::Next(x) => Ev::Next(x), ObserverNotification::Error(x) => Ev::Error(x), ObserverNotification::Complete => Ev::Complete }
}
//@struct rx_core_operator_dematerialize DematerializeSubscriber
//@use inv0 rx_core_operator_dematerialize DematerializeSubscriber
//@use opnew rx_core_operator_dematerialize DematerializeSubscriber
//@fn rx_core_operator_dematerialize DematerializeSubscriber::next args=n
  ensures dl(old(self).destination, final(self).destination, s1(sig_of(n)))
//@end
//@use fwd_complete rx_core_operator_dematerialize DematerializeSubscriber
//@use fwd_sub rx_core_operator_dematerialize DematerializeSubscriber
//@struct rx_core_operator_dematerialize DematerializeOperator
//@fn rx_core_operator_dematerialize DematerializeOperator::operator_subscribe args=destination
  ensures dl(destination, r.destination, s0())
//@end

/// what materialize delivers for one source signal (its contracts above)
pub open spec fn mat<I, E>(e: Ev<I, E>) -> Seq<ObserverNotification<I, E>> {
    match e { Ev::Next(x) => s1(ObserverNotification::Next(x)), Ev::Error(x) => s1(ObserverNotification::Error(x)), Ev::Complete => s1(ObserverNotification::Complete), Ev::Unsub => s0() }
}
pub open spec fn mat_all<I, E>(s: Seq<Ev<I, E>>) -> Seq<ObserverNotification<I, E>> decreases s.len() {
    if s.len() == 0 { s0() } else { mat_all(s.drop_last()) + mat(s.last()) }
}
pub open spec fn demat_all<I, E>(s: Seq<ObserverNotification<I, E>>) -> Seq<Ev<I, E>> { s.map_values(|n| sig_of(n)) }
/// dematerialize after materialize is the identity on signal sequences
pub proof fn lem_roundtrip<I, E>(s: Seq<Ev<I, E>>)
    requires forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i] is Unsub)
    ensures demat_all(mat_all(s)) == s
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        lem_roundtrip(p);
        assert(!(s[s.len() - 1] is Unsub));
        assert(demat_all(mat_all(s)) =~= demat_all(mat_all(p)).push(s.last()));
        assert(s =~= p.push(s.last()));
    } else { assert(demat_all(mat_all(s)) =~= s); }
}

// ---------------------------------------------------------------- into_result / lift_result
//@struct rx_core_operator_into_result IntoResultSubscriber
//@use inv0 rx_core_operator_into_result IntoResultSubscriber
//@use opnew rx_core_operator_into_result IntoResultSubscriber
//@fn rx_core_operator_into_result IntoResultSubscriber::next args=x
  ensures dl(old(self).destination, final(self).destination, s1(Ev::Next(Ok(x))))
//@end
//@fn rx_core_operator_into_result IntoResultSubscriber::error args=x
  ensures dl(old(self).destination, final(self).destination, s1(Ev::Next(Err(x))))
//@end
//@use fwd_complete rx_core_operator_into_result IntoResultSubscriber
//@use fwd_sub rx_core_operator_into_result IntoResultSubscriber
//@struct rx_core_operator_into_result IntoResultOperator
//@fn rx_core_operator_into_result IntoResultOperator::operator_subscribe args=destination
  ensures dl(destination, r.destination, s0())
//@end
//@struct rx_core_operator_lift_result LiftResultSubscriber
//@use inv0 rx_core_operator_lift_result LiftResultSubscriber
//@use opnew rx_core_operator_lift_result LiftResultSubscriber
//@fn rx_core_operator_lift_result LiftResultSubscriber::next args=x
  ensures dl(old(self).destination, final(self).destination, match x { Ok(v) => s1(Ev::Next(v)), Err(e) => s1(Ev::Error(e)) })
//@end
//@use fwd_complete rx_core_operator_lift_result LiftResultSubscriber
//@use fwd_sub rx_core_operator_lift_result LiftResultSubscriber
//@struct rx_core_operator_lift_result LiftResultOperator
//@fn rx_core_operator_lift_result LiftResultOperator::operator_subscribe args=destination
  ensures dl(destination, r.destination, s0())
//@end

// ---------------------------------------------------------------- map_error
//@struct rx_core_operator_map_error MapErrorSubscriber
//@spec rx_core_operator_map_error MapErrorSubscriber
    pub open spec fn pre(&self) -> bool { forall|x: InError| self.error_mapper is Some ==> #[trigger] self.error_mapper->0.requires((x,)) }
    /// the mapper is used up by the error that ended the output
    pub open spec fn inv(&self) -> bool { self.pre() && (self.error_mapper is None ==> done(self.destination)) }
//@end
//@fn rx_core_operator_map_error MapErrorSubscriber::new args=destination,f
  requires forall|x: InError| #[trigger] f.requires((x,))
  ensures r.inv(), r.error_mapper == Some(f), dl(destination, r.destination, s0())
//@end
//@fn rx_core_operator_map_error MapErrorSubscriber::next args=x
  requires old(self).inv()
  ensures final(self).inv(), final(self).error_mapper == old(self).error_mapper, dl(old(self).destination, final(self).destination, s1(Ev::Next(x)))
//@end
//@fn rx_core_operator_map_error MapErrorSubscriber::error args=x
  requires old(self).inv()
  ensures final(self).inv(),
    (done(old(self).destination) && dl(old(self).destination, final(self).destination, s0()))
    || (old(self).error_mapper is Some && exists|y: OutError| #[trigger] old(self).error_mapper->0.ensures((x,), y) && dl(old(self).destination, final(self).destination, s1(Ev::Error(y))))
//@end
//@use fwd_complete rx_core_operator_map_error MapErrorSubscriber
//@use fwd_sub rx_core_operator_map_error MapErrorSubscriber
//@struct rx_core_operator_map_error MapErrorOperator
//@fn rx_core_operator_map_error MapErrorOperator::new args=f
  ensures r.error_mapper == f
//@end
//@fn rx_core_operator_map_error MapErrorOperator::operator_subscribe args=destination
  requires forall|g: ErrorMapper, x: InError| cloned(old(self).error_mapper, g) ==> #[trigger] g.requires((x,))
  ensures r.inv(), r.error_mapper is Some, cloned(old(self).error_mapper, r.error_mapper->0), dl(destination, r.destination, s0())
//@end

// ---------------------------------------------------------------- error_boundary
//@struct rx_core_operator_error_boundary ErrorBoundarySubscriber
//@use inv0 rx_core_operator_error_boundary ErrorBoundarySubscriber
//@use opnew rx_core_operator_error_boundary ErrorBoundarySubscriber
//@fn rx_core_operator_error_boundary ErrorBoundarySubscriber::next args=x
  ensures dl(old(self).destination, final(self).destination, s1(Ev::Next(x)))
//@end
//@use fwd_complete rx_core_operator_error_boundary ErrorBoundarySubscriber
//@use fwd_sub rx_core_operator_error_boundary ErrorBoundarySubscriber
//@struct rx_core_operator_error_boundary ErrorBoundaryOperator
//@fn rx_core_operator_error_boundary ErrorBoundaryOperator::operator_subscribe args=destination
  ensures r.inv(), dl(destination, r.destination, s0())
//@end

// ---------------------------------------------------------------- notifications
//@enum rx_core_common ObserverTerminalNotification
//@enum rx_core_common SubscriberNotification
//@enum rx_core_common SubscriberToObserverNotificationConversionError
//@enum rx_core_common ObserverToObserverTerminalNotificationConversionError
//@enum rx_core_common SubscriberToObserverTerminalNotificationConversionError
//@enum rx_core_common SubscriptionNotification
//@enum rx_core_common SubscriberToSubscriptionNotificationConversionError
/// the signal a subscriber notification stands for
pub open spec fn ssig_of<I, E>(n: SubscriberNotification<I, E>) -> Ev<I, E> {
    match n { SubscriberNotification::Next(x) => Ev::Next(x), SubscriberNotification::Error(x) => Ev::Error(x), SubscriberNotification::Complete => Ev::Complete, SubscriberNotification::Unsubscribe => Ev::Unsub }
}
/// the signal a terminal notification stands for
pub open spec fn tsig_of<I, E>(n: ObserverTerminalNotification<E>) -> Ev<I, E> {
    match n { ObserverTerminalNotification::Error(x) => Ev::Error(x), ObserverTerminalNotification::Complete => Ev::Complete }
}
//@fn rx_core_common ObserverNotification::from of=ObserverTerminalNotification as=from_terminal args=value
  ensures sig_of(r) == tsig_of::<In, InError>(value)
//@end
//@fn rx_core_common SubscriberNotification::from of=ObserverNotification as=from_observer args=value
  ensures ssig_of(r) == sig_of(value)
//@end
//@fn rx_core_common SubscriberNotification::from of=ObserverTerminalNotification as=from_terminal args=value
  ensures ssig_of(r) == tsig_of::<In, InError>(value)
//@end
//@fn rx_core_common SubscriberNotification::from of=SubscriptionNotification as=from_subscription args=value
  ensures ssig_of(r) == Ev::<In, InError>::Unsub
//@end
//@fn rx_core_common SubscriberNotification::is_terminal
  ensures r == (ssig_of(*self) is Error || ssig_of(*self) is Complete)
//@end
//@fn rx_core_common SubscriberNotification::is_closing
  ensures r == !(ssig_of(*self) is Next)
//@end
//@replace impl < In , InError > ObserverTerminalNotification < InError > where In : Signal , InError : Signal => impl < InError > ObserverTerminalNotification < InError > where InError : Signal
//@replace impl < In , InError > SubscriptionNotification where In : Signal , InError : Signal => impl SubscriptionNotification
//@replace fn try_from_any ( => fn try_from_any < In : Signal , InError : Signal > (
//@replace fn try_from_sub ( => fn try_from_sub < In : Signal > (
//@replace fn try_from_observer ( => fn try_from_observer < In : Signal > (
//@replace < Self as TryFrom < SubscriberNotification < In , InError > > > :: Error => SubscriberToObserverNotificationConversionError
//@replace < ObserverTerminalNotification < InError > as TryFrom < ObserverNotification < In , InError > > > :: Error => ObserverToObserverTerminalNotificationConversionError
//@replace < ObserverTerminalNotification < InError > as TryFrom < SubscriberNotification < In , InError > > > :: Error => SubscriberToObserverTerminalNotificationConversionError
// the narrowing conversions: the same signal when the target can express it, and otherwise the error naming the signal
//@fn rx_core_common ObserverNotification::try_from of=SubscriberNotification as=try_from_subscriber args=value
  ensures match r { Ok(n) => sig_of(n) == ssig_of(value), Err(_) => value is Unsubscribe }
//@end
//@fn rx_core_common ObserverTerminalNotification::try_from of=ObserverNotification as=try_from_observer args=value
  ensures match r { Ok(n) => tsig_of::<In, InError>(n) == sig_of(value), Err(_) => value is Next }
//@end
//@fn rx_core_common ObserverTerminalNotification::try_from of=SubscriberNotification as=try_from_sub args=value
  ensures match r { Ok(n) => tsig_of::<In, InError>(n) == ssig_of(value),
    Err(e) => match e { SubscriberToObserverTerminalNotificationConversionError::CannotReceiveNext => value is Next, SubscriberToObserverTerminalNotificationConversionError::CannotReceiveUnsubscribe => value is Unsubscribe } }
//@end
//@fn rx_core_common SubscriptionNotification::try_from of=SubscriberNotification as=try_from_any args=value
  ensures match r { Ok(_) => value is Unsubscribe,
    Err(e) => match e { SubscriberToSubscriptionNotificationConversionError::CannotReceiveNext => value is Next, SubscriberToSubscriptionNotificationConversionError::CannotReceiveError => value is Error,
      SubscriberToSubscriptionNotificationConversionError::CannotReceiveComplete => value is Complete } }
//@end

// offering a notification is offering the signal it stands for
pub trait ObserverPushObserverNotificationExtention: RxObserver { fn push(&mut self, notification: ObserverNotification<Self::In, Self::InError>); }
pub trait ObserverPushObserverTerminalNotificationExtention: RxObserver { fn push(&mut self, notification: ObserverTerminalNotification<Self::InError>); }
pub trait SubscriberPushNotificationExtention: Subscriber { fn push(&mut self, notification: SubscriberNotification<Self::In, Self::InError>); }
pub trait SubscriptionLikePushNotificationExtention: SubscriptionLike { fn push(&mut self, notification: SubscriptionNotification); }
//@replace impl Into < ObserverNotification < Self :: In , Self :: InError > > => ObserverNotification < Self :: In , Self :: InError >
//@replace impl Into < ObserverTerminalNotification < Self :: InError > > => ObserverTerminalNotification < Self :: InError >
//@replace impl Into < SubscriberNotification < Self :: In , Self :: InError > > => SubscriberNotification < Self :: In , Self :: InError >
//@replace impl Into < SubscriptionNotification > => SubscriptionNotification
//@replace notification . into () => notification
//@fn rx_core_common T::push trait=ObserverPushObserverNotificationExtention impl args=notification
  ensures step(*old(self), *final(self), sig_of(notification))
//@end
//@fn rx_core_common T::push trait=ObserverPushObserverTerminalNotificationExtention impl args=notification
  ensures step(*old(self), *final(self), tsig_of(notification))
//@end
//@fn rx_core_common T::push trait=SubscriberPushNotificationExtention impl args=notification
  ensures step(*old(self), *final(self), ssig_of(notification))
//@end
//@fn rx_core_common T::push trait=SubscriptionLikePushNotificationExtention impl args=notification
  ensures step(*old(self), *final(self), Ev::Unsub)
//@end
}
fn main() {}
