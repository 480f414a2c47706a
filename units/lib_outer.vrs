// Operators with inner sources: what reaches the subscriber that handles the inner sources (its own
// behaviour is S15 / S16), and which one that is.
//@include prelude.vrs
verus! {
broadcast use vp::grp;
//@replace NonZero < usize > => Nz
//@replace NonZero :: < usize > :: MIN => Nz :: vf_min()
//@replace NonZero :: < usize > :: MAX => Nz :: vf_max()
impl Nz {
    #[verifier::external_body]
    pub fn vf_max() -> (r: Nz) ensures nz(r) == usize::MAX { unimplemented!() }
}
pub trait Observable: Sized { type Out; type OutError; }
/// how inner sources are handled
pub enum Way { Concurrent, Switch, Exhaust }
pub trait HigherOrderSubscriberProvider: Sized { spec fn way() -> Way; }
pub struct ConcurrentSubscriberProvider;
pub struct SwitchSubscriberProvider;
pub struct ExhaustSubscriberProvider;
impl HigherOrderSubscriberProvider for ConcurrentSubscriberProvider { open spec fn way() -> Way { Way::Concurrent } }
impl HigherOrderSubscriberProvider for SwitchSubscriberProvider { open spec fn way() -> Way { Way::Switch } }
impl HigherOrderSubscriberProvider for ExhaustSubscriberProvider { open spec fn way() -> Way { Way::Exhaust } }
/// the subscriber that handles them, at work for one destination
#[verifier::external_body]
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(D)]
pub struct Ho<P, I, D> { x: PhantomData<(P, I, D)> }
impl<P: HigherOrderSubscriberProvider, I: Observable, D> Ho<P, I, D> {
    /// whom it works for, as it was handed over
    pub uninterp spec fn dest(&self) -> D;
    pub uninterp spec fn limit(&self) -> nat;
    pub open spec fn way(&self) -> Way { P::way() }
    pub open spec fn starts(&self, d: D, way: Way) -> bool { self.dest() == d && self.log() == s0() && !self.closed() && self.way() == way }
    #[verifier::external_body]
    pub fn new_from_destination(d: D, l: Nz) -> (r: Self) ensures r.dest() == d, r.log() == s0(), !r.closed(), r.limit() == nz(l) { unimplemented!() }
}
impl<P, I: Observable, D> ObserverInput for Ho<P, I, D> {
    type In = I;
    type InError = I::OutError;
    uninterp spec fn log(&self) -> Seq<Ev<I, I::OutError>>;
    uninterp spec fn closed(&self) -> bool;
    uninterp spec fn tds(&self) -> Seq<Teardown>;
}
impl<P, I: Observable, D> RxObserver for Ho<P, I, D> {
    #[verifier::external_body]
    fn next(&mut self, next: I) { unimplemented!() }
    #[verifier::external_body]
    fn error(&mut self, error: I::OutError) { unimplemented!() }
    #[verifier::external_body]
    fn complete(&mut self) { unimplemented!() }
}
impl<P, I: Observable, D> SubscriptionLike for Ho<P, I, D> {
    #[verifier::external_body]
    fn is_closed(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn unsubscribe(&mut self) { unimplemented!() }
}
impl<P, I: Observable, D> TeardownCollection for Ho<P, I, D> {
    #[verifier::external_body]
    fn add_teardown(&mut self, teardown: Teardown) { unimplemented!() }
}
impl<P, I: Observable, D> Subscriber for Ho<P, I, D> {}
//@replace HigherOrderSubscriber :: HigherOrderSubscriber < InnerObservable , Destination > => Ho < HigherOrderSubscriber , InnerObservable , Destination >
//@replace HigherOrderSubscriber :: HigherOrderSubscriber :: < InnerObservable , Destination , > :: new => Ho :: < HigherOrderSubscriber , InnerObservable , Destination > :: new
//@replace HigherOrderSubscriber :: HigherOrderSubscriber :: < InnerObservable , Destination > :: new => Ho :: < HigherOrderSubscriber , InnerObservable , Destination > :: new
//@replace HigherOrderSubscriber :: HigherOrderSubscriber < In , Destination > => Ho < HigherOrderSubscriber , In , Destination >
//@replace HigherOrderSubscriber :: HigherOrderSubscriber :: < In , Destination > :: new => Ho :: < HigherOrderSubscriber , In , Destination > :: new

/// the user's mapper: called once per value; `gives` says what it may answer
pub trait Mp<X, Y>: Sized {
    spec fn seen(&self) -> Seq<X>;
    spec fn gives(&self, x: X, y: Y) -> bool;
    fn call_cb(&mut self, x: X) -> (y: Y) ensures final(self).seen() == old(self).seen().push(x), old(self).gives(x, y);
}
//@replace FnMut (In) -> InnerObservable => Mp < In , InnerObservable >
//@replace (self . mapper) ( => self . mapper . call_cb (
// ---------------------------------------------------------------- *_map
//@struct rx_core_subscriber_higher_order_map HigherOrderMapSubscriber
//@spec rx_core_subscriber_higher_order_map HigherOrderMapSubscriber
    pub open spec fn pre(&self) -> bool { (forall|e: InError| self.error_mapper is Some ==> #[trigger] self.error_mapper->0.requires((e,))) }
    /// the error mapper is used up by the error that ended the output
    pub open spec fn inv(&self) -> bool { self.pre() && (self.error_mapper is None ==> done(self.destination)) }
//@end
//@fn rx_core_subscriber_higher_order_map HigherOrderMapSubscriber::new args=destination,mapper,error_mapper,limit
  requires forall|e: InError| #[trigger] error_mapper.requires((e,))
  ensures r.inv(), r.mapper == mapper, r.error_mapper == Some(error_mapper), r.destination.starts(destination, HigherOrderSubscriber::way()), r.destination.limit() == nz(limit)
//@end
/// exactly one inner source per value: the mapper's
//@fn rx_core_subscriber_higher_order_map HigherOrderMapSubscriber::next args=x
  requires old(self).inv()
  ensures final(self).inv(), final(self).error_mapper == old(self).error_mapper, final(self).mapper.seen() == old(self).mapper.seen().push(x), exists|o: InnerObservable| #[trigger] old(self).mapper.gives(x, o) && dl(old(self).destination, final(self).destination, s1(Ev::Next(o)))
//@end
//@fn rx_core_subscriber_higher_order_map HigherOrderMapSubscriber::error args=e
  requires old(self).inv()
  ensures final(self).inv(), final(self).mapper == old(self).mapper,
    (done(old(self).destination) && dl(old(self).destination, final(self).destination, s0()))
    || (old(self).error_mapper is Some && exists|y: InnerObservable::OutError| #[trigger] old(self).error_mapper->0.ensures((e,), y) && dl(old(self).destination, final(self).destination, s1(Ev::Error(y))))
//@end
//@fn rx_core_subscriber_higher_order_map HigherOrderMapSubscriber::complete
  requires old(self).inv()
  ensures final(self).inv(), dl(old(self).destination, final(self).destination, s1(Ev::Complete))
//@end

// ---------------------------------------------------------------- *_all
//@struct rx_core_subscriber_higher_order_all HigherOrderAllSubscriber
//@spec rx_core_subscriber_higher_order_all HigherOrderAllSubscriber
    pub open spec fn pre(&self) -> bool { forall|e: InError| self.error_mapper is Some ==> #[trigger] self.error_mapper->0.requires((e,)) }
    pub open spec fn inv(&self) -> bool { self.pre() && (self.error_mapper is None ==> done(self.destination)) }
//@end
//@fn rx_core_subscriber_higher_order_all HigherOrderAllSubscriber::new args=destination,error_mapper,limit
  requires forall|e: InError| #[trigger] error_mapper.requires((e,))
  ensures r.inv(), r.error_mapper == Some(error_mapper), r.destination.starts(destination, HigherOrderSubscriber::way()), r.destination.limit() == nz(limit)
//@end
//@fn rx_core_subscriber_higher_order_all HigherOrderAllSubscriber::next args=o
  requires old(self).inv()
  ensures final(self).inv(), final(self).error_mapper == old(self).error_mapper, dl(old(self).destination, final(self).destination, s1(Ev::Next(o)))
//@end
//@fn rx_core_subscriber_higher_order_all HigherOrderAllSubscriber::error args=e
  requires old(self).inv()
  ensures final(self).inv(),
    (done(old(self).destination) && dl(old(self).destination, final(self).destination, s0()))
    || (old(self).error_mapper is Some && exists|y: In::OutError| #[trigger] old(self).error_mapper->0.ensures((e,), y) && dl(old(self).destination, final(self).destination, s1(Ev::Error(y))))
//@end
//@fn rx_core_subscriber_higher_order_all HigherOrderAllSubscriber::complete
  requires old(self).inv()
  ensures final(self).inv(), dl(old(self).destination, final(self).destination, s1(Ev::Complete))
//@end
//@macro OPMAP K T WAY LIM
//@struct $K $T
//@fn $K $T::operator_subscribe args=d
  requires forall|e: InError| #[trigger] old(self).error_mapper.requires((e,))
  ensures r.inv(), r.mapper == old(self).mapper, r.error_mapper == Some(old(self).error_mapper), r.destination.starts(d, Way::$WAY), $LIM, *final(self) == *old(self)
//@end
//@endmacro
//@macro OPALL K T WAY LIM
//@struct $K $T
//@fn $K $T::operator_subscribe args=d
  requires forall|e: InError| #[trigger] old(self).error_mapper.requires((e,))
  ensures r.inv(), r.error_mapper == Some(old(self).error_mapper), r.destination.starts(d, Way::$WAY), $LIM, *final(self) == *old(self)
//@end
//@endmacro
//@macro NEWMAP K T
//@fn $K $T::new args=mapper,error_mapper
  ensures r.mapper == mapper, r.error_mapper == error_mapper
//@end
//@endmacro
//@macro NEWALL K T
//@fn $K $T::new args=error_mapper
  ensures r.error_mapper == error_mapper
//@end
//@endmacro
