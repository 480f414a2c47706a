//@include prelude.vrs
verus! {
// What the derive macros generate for every operator and source: unsubscribing one is unsubscribing its
// destination, its closedness is that of its destination, teardowns are handed on, and a dropped one that
// is still open is unsubscribed. (The code under contract is what the macros expanded to in this build.)
// Only the field delegated to is kept, as an opaque value; the type's own methods, where they are written
// by hand, are under contract in the other units.
/// one call
pub enum Call { Unsub, Add(Teardown) }
#[verifier::external_body]
pub struct Any { x: u8 }
/// (uninterpreted) `b` is what the call made of `a`
pub uninterp spec fn did<T>(a: T, b: T, c: Call) -> bool;
pub uninterp spec fn shut<T>(a: T) -> bool;
impl Any {
    #[verifier::external_body]
    pub fn unsubscribe(&mut self) ensures did(*old(self), *final(self), Call::Unsub) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_closed(&self) -> (r: bool) ensures r == shut(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_teardown(&mut self, t: Teardown) ensures did(*old(self), *final(self), Call::Add(t)) { unimplemented!() }
}
//@replace SubscriptionLike :: is_closed (self) => self . is_closed ()
//@replace SubscriptionLike :: unsubscribe (self) => self . unsubscribe ()
impl Teardown { #[verifier::external_body] pub fn execute(self, w: &mut Ghost<Seq<Teardown>>) ensures final(w)@ == old(w)@.push(self) { unimplemented!() } }
//@replace TeardownCollection :: => Any ::
//@macro UNSUB CRATE TY F
//@fn $CRATE $TY::unsubscribe trait=SubscriptionLike nobounds
  ensures did(old(self).$F, final(self).$F, Call::Unsub)
//@end
//@fn $CRATE $TY::is_closed trait=SubscriptionLike nobounds
  ensures r == shut(self.$F)
//@end
//@endmacro
//@macro ADD CRATE TY F
//@fn $CRATE $TY::add_teardown trait=TeardownCollection nobounds args=t
  ensures did(old(self).$F, final(self).$F, Call::Add(t))
//@end
//@endmacro
//@macro DROP CRATE TY F
//@fn $CRATE $TY::drop trait=Drop as=vf_drop nobounds
  ensures did(old(self).$F, final(self).$F, Call::Unsub) || shut(old(self).$F) && final(self).$F == old(self).$F
//@end
//@endmacro
/// a teardown added once closed runs at once
//@macro GADD CRATE TY F
//@fn $CRATE $TY::add_teardown trait=TeardownCollection nobounds args=t ghostarg=w:&mut~Ghost<Seq<Teardown>> env=execute:w
  ensures if shut(*old(self)) { final(w)@ == old(w)@.push(t) && final(self).$F == old(self).$F } else { final(w)@ == old(w)@ && did(old(self).$F, final(self).$F, Call::Add(t)) }
//@end
//@endmacro
/// the same, for a type whose own methods are written by hand
//@macro OWNDROP CRATE TY
//@known $TY::unsubscribe
//@known $TY::is_closed
//@spec $CRATE $TY nobounds
    #[verifier::external_body]
    pub fn unsubscribe(&mut self) ensures did(*old(self), *final(self), Call::Unsub) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_closed(&self) -> (r: bool) ensures r == shut(*self) { unimplemented!() }
//@end
//@fn $CRATE $TY::drop trait=Drop as=vf_drop nobounds
  ensures did(*old(self), *final(self), Call::Unsub) || shut(*old(self)) && *final(self) == *old(self)
//@end
//@endmacro
//@struct rx_core_notification_variadics EitherSubscriber2 only=destination:Any
//@use ADD rx_core_notification_variadics EitherSubscriber2 destination
//@use OWNDROP rx_core_notification_variadics EitherSubscriber2
//@struct rx_core_observable_combine_changes CombineChangesSubscriber only=destination:Any
//@use ADD rx_core_observable_combine_changes CombineChangesSubscriber destination
//@struct rx_core_observable_combine_latest CombineLatestSubscriber only=destination:Any
//@use ADD rx_core_observable_combine_latest CombineLatestSubscriber destination
//@struct rx_core_observable_connectable ConnectionHandle only=handle:Any
//@use UNSUB rx_core_observable_connectable ConnectionHandle handle
//@use ADD rx_core_observable_connectable ConnectionHandle handle
//@struct rx_core_observable_interval IntervalSubscription only=destination:Any
//@use ADD rx_core_observable_interval IntervalSubscription destination
//@use OWNDROP rx_core_observable_interval IntervalSubscription
//@struct rx_core_observable_iterator_on_tick OnTickIteratorSubscription only=destination:Any
//@use ADD rx_core_observable_iterator_on_tick OnTickIteratorSubscription destination
//@use OWNDROP rx_core_observable_iterator_on_tick OnTickIteratorSubscription
//@struct rx_core_observable_join JoinSubscriber only=destination:Any
//@use ADD rx_core_observable_join JoinSubscriber destination
//@struct rx_core_observable_timer TimerSubscription only=destination:Any
//@use ADD rx_core_observable_timer TimerSubscription destination
//@use OWNDROP rx_core_observable_timer TimerSubscription
//@struct rx_core_observable_zip ZipSubscriber only=destination:Any
//@use ADD rx_core_observable_zip ZipSubscriber destination
//@struct rx_core_operator_adsr AdsrSubscriber only=shared_destination:Any
//@use ADD rx_core_operator_adsr AdsrSubscriber shared_destination
//@use OWNDROP rx_core_operator_adsr AdsrSubscriber
//@struct rx_core_operator_buffer_count BufferCountSubscriber only=destination:Any
//@use UNSUB rx_core_operator_buffer_count BufferCountSubscriber destination
//@use ADD rx_core_operator_buffer_count BufferCountSubscriber destination
//@use DROP rx_core_operator_buffer_count BufferCountSubscriber destination
//@struct rx_core_operator_count CountSubscriber only=destination:Any
//@use UNSUB rx_core_operator_count CountSubscriber destination
//@use ADD rx_core_operator_count CountSubscriber destination
//@use DROP rx_core_operator_count CountSubscriber destination
//@struct rx_core_operator_debounce_time DebounceTimeSubscriber only=destination:Any
//@use ADD rx_core_operator_debounce_time DebounceTimeSubscriber destination
//@struct rx_core_operator_delay DelaySubscriber only=destination:Any
//@use ADD rx_core_operator_delay DelaySubscriber destination
//@struct rx_core_operator_dematerialize DematerializeSubscriber only=destination:Any
//@use UNSUB rx_core_operator_dematerialize DematerializeSubscriber destination
//@use ADD rx_core_operator_dematerialize DematerializeSubscriber destination
//@use DROP rx_core_operator_dematerialize DematerializeSubscriber destination
//@struct rx_core_operator_element_at ElementAtSubscriber only=destination:Any
//@use ADD rx_core_operator_element_at ElementAtSubscriber destination
//@struct rx_core_operator_end_with EndWithSubscriber only=destination:Any
//@use UNSUB rx_core_operator_end_with EndWithSubscriber destination
//@use ADD rx_core_operator_end_with EndWithSubscriber destination
//@use DROP rx_core_operator_end_with EndWithSubscriber destination
//@struct rx_core_operator_enumerate EnumerateSubscriber only=destination:Any
//@use UNSUB rx_core_operator_enumerate EnumerateSubscriber destination
//@use ADD rx_core_operator_enumerate EnumerateSubscriber destination
//@use DROP rx_core_operator_enumerate EnumerateSubscriber destination
//@struct rx_core_operator_error_boundary ErrorBoundarySubscriber only=destination:Any
//@use UNSUB rx_core_operator_error_boundary ErrorBoundarySubscriber destination
//@use ADD rx_core_operator_error_boundary ErrorBoundarySubscriber destination
//@use DROP rx_core_operator_error_boundary ErrorBoundarySubscriber destination
//@struct rx_core_operator_fallback_when_silent FallbackWhenSilentSubscriber only=shared_destination:Any
//@use ADD rx_core_operator_fallback_when_silent FallbackWhenSilentSubscriber shared_destination
//@use OWNDROP rx_core_operator_fallback_when_silent FallbackWhenSilentSubscriber
//@struct rx_core_operator_filter FilterSubscriber only=destination:Any
//@use UNSUB rx_core_operator_filter FilterSubscriber destination
//@use ADD rx_core_operator_filter FilterSubscriber destination
//@use DROP rx_core_operator_filter FilterSubscriber destination
//@struct rx_core_operator_find FindSubscriber only=destination:Any
//@use UNSUB rx_core_operator_find FindSubscriber destination
//@use ADD rx_core_operator_find FindSubscriber destination
//@use DROP rx_core_operator_find FindSubscriber destination
//@struct rx_core_operator_find_index FindIndexSubscriber only=destination:Any
//@use UNSUB rx_core_operator_find_index FindIndexSubscriber destination
//@use ADD rx_core_operator_find_index FindIndexSubscriber destination
//@use DROP rx_core_operator_find_index FindIndexSubscriber destination
//@struct rx_core_operator_first FirstSubscriber only=destination:Any
//@use UNSUB rx_core_operator_first FirstSubscriber destination
//@use ADD rx_core_operator_first FirstSubscriber destination
//@use DROP rx_core_operator_first FirstSubscriber destination
//@struct rx_core_operator_into_result IntoResultSubscriber only=destination:Any
//@use UNSUB rx_core_operator_into_result IntoResultSubscriber destination
//@use ADD rx_core_operator_into_result IntoResultSubscriber destination
//@use DROP rx_core_operator_into_result IntoResultSubscriber destination
//@struct rx_core_operator_is_empty IsEmptySubscriber only=destination:Any
//@use UNSUB rx_core_operator_is_empty IsEmptySubscriber destination
//@use ADD rx_core_operator_is_empty IsEmptySubscriber destination
//@use DROP rx_core_operator_is_empty IsEmptySubscriber destination
//@struct rx_core_operator_lift_option LiftOptionSubscriber only=destination:Any
//@use UNSUB rx_core_operator_lift_option LiftOptionSubscriber destination
//@use ADD rx_core_operator_lift_option LiftOptionSubscriber destination
//@use DROP rx_core_operator_lift_option LiftOptionSubscriber destination
//@struct rx_core_operator_lift_result LiftResultSubscriber only=destination:Any
//@use UNSUB rx_core_operator_lift_result LiftResultSubscriber destination
//@use ADD rx_core_operator_lift_result LiftResultSubscriber destination
//@use DROP rx_core_operator_lift_result LiftResultSubscriber destination
//@struct rx_core_operator_map MapSubscriber only=destination:Any
//@use UNSUB rx_core_operator_map MapSubscriber destination
//@use ADD rx_core_operator_map MapSubscriber destination
//@use DROP rx_core_operator_map MapSubscriber destination
//@struct rx_core_operator_map_error MapErrorSubscriber only=destination:Any
//@use UNSUB rx_core_operator_map_error MapErrorSubscriber destination
//@use ADD rx_core_operator_map_error MapErrorSubscriber destination
//@use DROP rx_core_operator_map_error MapErrorSubscriber destination
//@struct rx_core_operator_map_into MapIntoSubscriber only=destination:Any
//@use UNSUB rx_core_operator_map_into MapIntoSubscriber destination
//@use ADD rx_core_operator_map_into MapIntoSubscriber destination
//@use DROP rx_core_operator_map_into MapIntoSubscriber destination
//@struct rx_core_operator_map_never MapNeverBothSubscriber only=destination:Any
//@use UNSUB rx_core_operator_map_never MapNeverBothSubscriber destination
//@use ADD rx_core_operator_map_never MapNeverBothSubscriber destination
//@use DROP rx_core_operator_map_never MapNeverBothSubscriber destination
//@struct rx_core_operator_map_never MapNeverErrorSubscriber only=destination:Any
//@use UNSUB rx_core_operator_map_never MapNeverErrorSubscriber destination
//@use ADD rx_core_operator_map_never MapNeverErrorSubscriber destination
//@use DROP rx_core_operator_map_never MapNeverErrorSubscriber destination
//@struct rx_core_operator_map_never MapNeverNextSubscriber only=destination:Any
//@use UNSUB rx_core_operator_map_never MapNeverNextSubscriber destination
//@use ADD rx_core_operator_map_never MapNeverNextSubscriber destination
//@use DROP rx_core_operator_map_never MapNeverNextSubscriber destination
//@struct rx_core_operator_materialize MaterializeSubscriber only=destination:Any
//@use UNSUB rx_core_operator_materialize MaterializeSubscriber destination
//@use ADD rx_core_operator_materialize MaterializeSubscriber destination
//@use DROP rx_core_operator_materialize MaterializeSubscriber destination
//@struct rx_core_operator_observe_on ObserveOnSubscriber only=destination:Any
//@use ADD rx_core_operator_observe_on ObserveOnSubscriber destination
//@struct rx_core_operator_on_next OnNextSubscriber only=destination:Any
//@use UNSUB rx_core_operator_on_next OnNextSubscriber destination
//@use ADD rx_core_operator_on_next OnNextSubscriber destination
//@use DROP rx_core_operator_on_next OnNextSubscriber destination
//@struct rx_core_operator_pairwise PairwiseSubscriber only=destination:Any
//@use UNSUB rx_core_operator_pairwise PairwiseSubscriber destination
//@use ADD rx_core_operator_pairwise PairwiseSubscriber destination
//@use DROP rx_core_operator_pairwise PairwiseSubscriber destination
//@struct rx_core_operator_reduce ReduceSubscriber only=destination:Any
//@use UNSUB rx_core_operator_reduce ReduceSubscriber destination
//@use ADD rx_core_operator_reduce ReduceSubscriber destination
//@use DROP rx_core_operator_reduce ReduceSubscriber destination
//@struct rx_core_operator_retry RetrySubscriber only=destination:Any
//@use ADD rx_core_operator_retry RetrySubscriber destination
//@use OWNDROP rx_core_operator_retry RetrySubscriber
//@struct rx_core_operator_scan ScanSubscriber only=destination:Any
//@use UNSUB rx_core_operator_scan ScanSubscriber destination
//@use ADD rx_core_operator_scan ScanSubscriber destination
//@use DROP rx_core_operator_scan ScanSubscriber destination
//@struct rx_core_operator_skip SkipSubscriber only=destination:Any
//@use UNSUB rx_core_operator_skip SkipSubscriber destination
//@use ADD rx_core_operator_skip SkipSubscriber destination
//@use DROP rx_core_operator_skip SkipSubscriber destination
//@struct rx_core_operator_subscribe_on SubscribeOnSubscription only=destination:Any
//@use UNSUB rx_core_operator_subscribe_on SubscribeOnSubscription destination
//@use ADD rx_core_operator_subscribe_on SubscribeOnSubscription destination
//@use DROP rx_core_operator_subscribe_on SubscribeOnSubscription destination
//@struct rx_core_operator_take TakeSubscriber only=destination:Any
//@use ADD rx_core_operator_take TakeSubscriber destination
//@struct rx_core_operator_tap TapSubscriber only=destination:Any
//@use UNSUB rx_core_operator_tap TapSubscriber destination
//@use ADD rx_core_operator_tap TapSubscriber destination
//@use DROP rx_core_operator_tap TapSubscriber destination
//@struct rx_core_operator_tap_next TapNextSubscriber only=destination:Any
//@use UNSUB rx_core_operator_tap_next TapNextSubscriber destination
//@use ADD rx_core_operator_tap_next TapNextSubscriber destination
//@use DROP rx_core_operator_tap_next TapNextSubscriber destination
//@struct rx_core_operator_throttle_time ThrottleTimeSubscriber only=destination:Any
//@use ADD rx_core_operator_throttle_time ThrottleTimeSubscriber destination
//@struct rx_core_operator_with_latest_from WithLatestFromSubscriber only=destination:Any
//@use ADD rx_core_operator_with_latest_from WithLatestFromSubscriber destination
//@use OWNDROP rx_core_operator_with_latest_from WithLatestFromSubscriber
//@struct rx_core_subject_async AsyncSubject only=subject:Any
//@use UNSUB rx_core_subject_async AsyncSubject subject
//@struct rx_core_subject_behavior BehaviorSubject only=subject:Any
//@use UNSUB rx_core_subject_behavior BehaviorSubject subject
//@struct rx_core_subject_provenance ProvenanceSubject only=subject:Any
//@use UNSUB rx_core_subject_provenance ProvenanceSubject subject
//@struct rx_core_subject_replay ReplaySubject only=subject:Any
//@use UNSUB rx_core_subject_replay ReplaySubject subject
//@struct rx_core_subscriber_higher_order_all HigherOrderAllSubscriber only=destination:Any
//@use UNSUB rx_core_subscriber_higher_order_all HigherOrderAllSubscriber destination
//@use ADD rx_core_subscriber_higher_order_all HigherOrderAllSubscriber destination
//@use DROP rx_core_subscriber_higher_order_all HigherOrderAllSubscriber destination
//@struct rx_core_subscriber_higher_order_map HigherOrderMapSubscriber only=destination:Any
//@use UNSUB rx_core_subscriber_higher_order_map HigherOrderMapSubscriber destination
//@use ADD rx_core_subscriber_higher_order_map HigherOrderMapSubscriber destination
//@use DROP rx_core_subscriber_higher_order_map HigherOrderMapSubscriber destination
// a subscription with teardowns of its own: both are released
//@struct rx_core_common Subscription only=destination:Any;teardown:Any
//@fn rx_core_common Subscription::unsubscribe trait=SubscriptionLike nobounds
  ensures did(old(self).teardown, final(self).teardown, Call::Unsub), did(old(self).destination, final(self).destination, Call::Unsub)
//@end
//@fn rx_core_common Subscription::is_closed trait=SubscriptionLike nobounds
  ensures r == shut(self.destination)
//@end
//@fn rx_core_common Subscription::add_teardown trait=TeardownCollection nobounds args=t
  ensures did(old(self).teardown, final(self).teardown, Call::Add(t)), final(self).destination == old(self).destination
//@end
//@fn rx_core_common Subscription::drop trait=Drop as=vf_drop nobounds
  ensures if shut(old(self).destination) { *final(self) == *old(self) } else { did(old(self).teardown, final(self).teardown, Call::Unsub) && did(old(self).destination, final(self).destination, Call::Unsub) }
//@end
//@struct rx_core_observable_connectable ConnectionSubscriber only=teardown:Any
//@use OWNDROP rx_core_observable_connectable ConnectionSubscriber
//@use ADD rx_core_observable_connectable ConnectionSubscriber teardown
//@struct rx_core_operator_catch CatchSubscriber only=shared_destination:Any
//@use OWNDROP rx_core_operator_catch CatchSubscriber
//@use GADD rx_core_operator_catch CatchSubscriber shared_destination
//@struct rx_core_subscriber_higher_order HigherOrderInnerSubscriber only=inner_teardown:Any
//@use OWNDROP rx_core_subscriber_higher_order HigherOrderInnerSubscriber
//@use ADD rx_core_subscriber_higher_order HigherOrderInnerSubscriber inner_teardown
//@struct rx_core_subscriber_higher_order_concurrent ConcurrentSubscriber only=outer_teardown:Any
//@use OWNDROP rx_core_subscriber_higher_order_concurrent ConcurrentSubscriber
//@use ADD rx_core_subscriber_higher_order_concurrent ConcurrentSubscriber outer_teardown
//@struct rx_core_subscriber_higher_order_exhaust ExhaustSubscriber only=shared_destination:Any
//@use OWNDROP rx_core_subscriber_higher_order_exhaust ExhaustSubscriber
//@use GADD rx_core_subscriber_higher_order_exhaust ExhaustSubscriber shared_destination
//@struct rx_core_subscriber_higher_order_switch SwitchSubscriber only=shared_destination:Any
//@use OWNDROP rx_core_subscriber_higher_order_switch SwitchSubscriber
//@use GADD rx_core_subscriber_higher_order_switch SwitchSubscriber shared_destination
//@struct rx_core_common ObserverSubscriber only=teardown:Any
//@use OWNDROP rx_core_common ObserverSubscriber
//@use OWNDROP rx_core_operator_take TakeSubscriber
//@use OWNDROP rx_core_operator_element_at ElementAtSubscriber
//@struct rx_core_subject_publish MulticastSubscription only=id:Any
//@use OWNDROP rx_core_subject_publish MulticastSubscription
} // verus!
fn main() {}
