// S15: merge_map, merge_all, concat_map, concat_all: what they hand to the subscriber of inner sources.
//@include lib_outer.vrs
//@use OPMAP rx_core_operator_merge_map MergeMapOperator Concurrent r.destination.limit()==nz(old(self).concurrency_limit)
//@use OPALL rx_core_operator_merge_all MergeAllOperator Concurrent r.destination.limit()==nz(old(self).concurrency_limit)
//@use NEWMAP rx_core_operator_concat_map ConcatMapOperator
//@use OPMAP rx_core_operator_concat_map ConcatMapOperator Concurrent r.destination.limit()==1
//@use NEWALL rx_core_operator_concat_all ConcatAllOperator
//@use OPALL rx_core_operator_concat_all ConcatAllOperator Concurrent r.destination.limit()==1
//@replace NonZero :: new => Nz :: new
//@fn rx_core_operator_merge_map MergeMapOperator::new args=mapper,error_mapper,limit
  ensures r.mapper == mapper, r.error_mapper == error_mapper, nz(r.concurrency_limit) == if limit == 0 { 1usize } else { limit }
//@end
//@fn rx_core_operator_merge_all MergeAllOperator::new args=limit,error_mapper
  ensures r.error_mapper == error_mapper, nz(r.concurrency_limit) == if limit == 0 { 1usize } else { limit }
//@end
// ---------------------------------------------------------------- merge, concat of a list of sources
#[verifier::external_body]
#[verifier::reject_recursive_types(Out)]
#[verifier::reject_recursive_types(OutError)]
pub struct ErasedObservable<Out, OutError> { x: PhantomData<(Out, OutError)> }
impl<Out, OutError> Observable for ErasedObservable<Out, OutError> { type Out = Out; type OutError = OutError; }
#[verifier::external_body]
#[verifier::reject_recursive_types(Out)]
#[verifier::reject_recursive_types(OutError)]
pub struct ErasedObservables<Out, OutError, const SIZE: usize> { x: PhantomData<(Out, OutError)> }
impl<Out, OutError, const SIZE: usize> ErasedObservables<Out, OutError, SIZE> {
    pub uninterp spec fn all(&self) -> Seq<ErasedObservable<Out, OutError>>;
    /// the sources in order (a clone of a source is that source)
    #[verifier::external_body]
    pub fn vf_all(&self) -> (r: Vec<ErasedObservable<Out, OutError>>) ensures r@ == self.all() { unimplemented!() }
}
//@replace self . observables . iter () . cloned () => self . observables . vf_all ()
/// the subscription handed back
#[verifier::external_body]
pub struct Ss { x: u8 }
impl Ss {
    pub uninterp spec fn tds(&self) -> Seq<Teardown>;
    /// released when the output ends
    pub uninterp spec fn kept(&self) -> bool;
    pub uninterp spec fn cell(&self) -> int;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.tds() == Seq::<Teardown>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.cell() == self.cell() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_teardown(&mut self, t: Teardown) ensures final(self).tds() == old(self).tds().push(t), final(self).cell() == old(self).cell(), final(self).kept() == old(self).kept() { unimplemented!() }
}
impl<In: Signal + Observable, InError: Signal, P: HigherOrderSubscriberProvider, M: FnOnce(InError) -> In::OutError, D: Subscriber<In = In::Out, InError = In::OutError>> HigherOrderAllSubscriber<In, InError, P, M, D> {
    #[verifier::external_body]
    pub fn add(&mut self, s: Ss, of: &mut Ss) requires s.cell() == old(of).cell()
        ensures *final(self) == *old(self), final(of).cell() == old(of).cell(), final(of).tds() == old(of).tds(), final(of).kept() { unimplemented!() }
}
/// releases what handles the inner sources
pub uninterp spec fn td_ho<P, I, D>(t: Teardown) -> Ho<P, I, D>;
pub uninterp spec fn conv<A, B>(a: A) -> B;
#[verifier::external_body]
fn vf_into<A, B>(a: A) -> (r: B) ensures r == conv::<A, B>(a) { unimplemented!() }
pub broadcast axiom fn ax_td_ho<In: Signal + Observable, InError: Signal, P: HigherOrderSubscriberProvider, M: FnOnce(InError) -> In::OutError, D: Subscriber<In = In::Out, InError = In::OutError>>(s: HigherOrderAllSubscriber<In, InError, P, M, D>)
    ensures td_ho::<P, In, D>(#[trigger] conv::<HigherOrderAllSubscriber<In, InError, P, M, D>, Teardown>(s)) == s.destination;
pub open spec fn offers<O, E>(s: Seq<O>) -> Seq<Ev<O, E>> { Seq::new(s.len(), |i: int| Ev::Next(s[i])) }
/// every source was offered, in order, and then that there are no more
pub open spec fn fed<P: HigherOrderSubscriberProvider, I: Observable, D>(h: Ho<P, I, D>, d: D, way: Way, limit: int, s: Seq<I>) -> bool {
    exists|h0: Ho<P, I, D>| #[trigger] h0.starts(d, way) && h0.limit() == limit && dl(h0, h, offers::<I, I::OutError>(s).push(Ev::Complete)) }
#[verifier::external_body]
fn vf_absurd<E>() -> (r: impl FnOnce(Never) -> E) ensures forall|e: Never| #[trigger] r.requires((e,)) { |e| unimplemented!() }
//@known vf::into
//@replace Never :: map_into () => vf_absurd ()
//@replace SharedSubscription => Ss
//@replace < Destination as UpgradeableObserver > :: Upgraded => Destination
//@replace observer . upgrade () => observer
//@replace fn subscribe < Destination > => fn subscribe < Destination : Subscriber < In = Out , InError = OutError > >
//@macro LIST K T LIM
//@struct $K $T
//@fn $K $T::subscribe args=d env=add,^:&mut~subscription
  ensures *final(self) == *old(self), r.kept(), r.tds().len() == 1,
    fed(td_ho::<ConcurrentSubscriberProvider, ErasedObservable<Out, OutError>, Destination>(r.tds()[0]), d, Way::Concurrent, $LIM, old(self).observables.all())
//@@before 0
  broadcast use ax_td_ho;
  let ghost xs = self.observables.all(); let ghost h0 = concat_subscriber.destination; let ghost k: int = 0;
//@@loop 0
  invariant *self == *old(self), concat_subscriber.inv(), xs == self.observables.all(), 0 <= k <= xs.len(), vf_it_0.rem() == xs.skip(k),
    dl(h0, concat_subscriber.destination, offers::<_, OutError>(xs.take(k)))
  decreases xs.len() - k
//@@lstart 0
  let ghost h1 = concat_subscriber.destination;
//@@lend 0
  proof { assert(offers::<_, OutError>(xs.take(k + 1)) =~= offers::<_, OutError>(xs.take(k)) + s1(Ev::Next(xs[k])));
    lem_dl_trans(h0, h1, concat_subscriber.destination, offers::<_, OutError>(xs.take(k)), s1(Ev::Next(xs[k]))); assert(xs.skip(k).subrange(1, xs.skip(k).len() as int) =~= xs.skip(k + 1)); k = k + 1; }
//@@after 0
  let ghost h2 = concat_subscriber.destination;
//@@at let mut subscription
  proof { assert(xs.take(k) =~= xs); lem_dl_trans(h0, h2, concat_subscriber.destination, offers::<_, OutError>(xs), s1(Ev::Complete));
    assert(offers::<_, OutError>(xs) + s1(Ev::Complete) =~= offers::<_, OutError>(xs).push(Ev::Complete)); }
//@end
//@endmacro
//@use LIST rx_core_observable_merge MergeObservable (nz(old(self).concurrency_limit)as/**/int)
//@use LIST rx_core_observable_concat ConcatObservable 1
//@fn rx_core_observable_merge MergeObservable::new args=xs,limit
  ensures r.observables == conv::<_, ErasedObservables<Out, OutError, SIZE>>(xs), nz(r.concurrency_limit) == if limit == 0 { 1usize } else { limit }
//@end
//@fn rx_core_observable_concat ConcatObservable::new args=xs
  ensures r.observables == conv::<_, ErasedObservables<Out, OutError, SIZE>>(xs)
//@end
} // verus!
fn main() {}
