//@include prelude.vrs
verus! {
// The shorthands (`observable.take(3)`, `compose.take(3)`, `zip(a, b)`, ..): each one is its operator or
// source made with exactly the arguments given, applied to what it was called on.
/// an operator or source: which constructor it came from and with what
#[verifier::external_body]
pub struct Op { x: u8 }
/// an observable
#[verifier::external_body]
pub struct Me { x: u8 }
impl Op {
    pub fn operate<S>(self, s: S) -> (r: (S, Op)) ensures r == (s, self) { (s, self) }
}
impl Me {
    #[verifier::external_body]
    pub fn compose_with(self, o: Op) -> (r: (Me, Op)) ensures r == (self, o) { unimplemented!() }
}
// the constructors: k_f(a, ..) is (uninterpreted) what f makes of its arguments
pub struct AdsrOperator;
impl AdsrOperator {
    pub uninterp spec fn k_new<A0, A1>(a0: A0, a1: A1) -> Op;
    #[verifier::external_body]
    pub fn new<A0, A1>(a0: A0, a1: A1) -> (r: Op) ensures r == AdsrOperator::k_new(a0, a1) { unimplemented!() }
}
//@known AdsrOperator::new
pub struct BufferCountOperator;
impl BufferCountOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == BufferCountOperator::k_new(a0) { unimplemented!() }
}
//@known BufferCountOperator::new
pub struct CatchOperator;
impl CatchOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == CatchOperator::k_new(a0) { unimplemented!() }
}
//@known CatchOperator::new
pub struct CombineChangesObservable;
impl CombineChangesObservable {
    pub uninterp spec fn k_new<A0, A1>(a0: A0, a1: A1) -> Op;
    #[verifier::external_body]
    pub fn new<A0, A1>(a0: A0, a1: A1) -> (r: Op) ensures r == CombineChangesObservable::k_new(a0, a1) { unimplemented!() }
}
//@known CombineChangesObservable::new
pub struct CombineLatestObservable;
impl CombineLatestObservable {
    pub uninterp spec fn k_new<A0, A1>(a0: A0, a1: A1) -> Op;
    #[verifier::external_body]
    pub fn new<A0, A1>(a0: A0, a1: A1) -> (r: Op) ensures r == CombineLatestObservable::k_new(a0, a1) { unimplemented!() }
}
//@known CombineLatestObservable::new
pub struct CompositeOperator;
impl CompositeOperator {
    pub uninterp spec fn k_new<A0, A1>(a0: A0, a1: A1) -> Op;
    #[verifier::external_body]
    pub fn new<A0, A1>(a0: A0, a1: A1) -> (r: Op) ensures r == CompositeOperator::k_new(a0, a1) { unimplemented!() }
}
//@known CompositeOperator::new
pub struct ConcatAllOperator;
impl ConcatAllOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == ConcatAllOperator::k_new(a0) { unimplemented!() }
}
//@known ConcatAllOperator::new
pub struct ConcatMapOperator;
impl ConcatMapOperator {
    pub uninterp spec fn k_new<A0, A1>(a0: A0, a1: A1) -> Op;
    #[verifier::external_body]
    pub fn new<A0, A1>(a0: A0, a1: A1) -> (r: Op) ensures r == ConcatMapOperator::k_new(a0, a1) { unimplemented!() }
}
//@known ConcatMapOperator::new
pub struct ConcatObservable;
impl ConcatObservable {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == ConcatObservable::k_new(a0) { unimplemented!() }
}
//@known ConcatObservable::new
pub struct CountOperator;
impl CountOperator {
    pub uninterp spec fn k_default() -> Op;
    #[verifier::external_body]
    pub fn default() -> (r: Op) ensures r == CountOperator::k_default() { unimplemented!() }
}
//@known CountOperator::default
pub struct CreateObservable;
impl CreateObservable {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == CreateObservable::k_new(a0) { unimplemented!() }
}
//@known CreateObservable::new
pub struct DebounceTimeOperator;
impl DebounceTimeOperator {
    pub uninterp spec fn k_new<A0, A1>(a0: A0, a1: A1) -> Op;
    #[verifier::external_body]
    pub fn new<A0, A1>(a0: A0, a1: A1) -> (r: Op) ensures r == DebounceTimeOperator::k_new(a0, a1) { unimplemented!() }
}
//@known DebounceTimeOperator::new
pub struct DeferredObservable;
impl DeferredObservable {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == DeferredObservable::k_new(a0) { unimplemented!() }
}
//@known DeferredObservable::new
pub struct DelayOperator;
impl DelayOperator {
    pub uninterp spec fn k_new<A0, A1>(a0: A0, a1: A1) -> Op;
    #[verifier::external_body]
    pub fn new<A0, A1>(a0: A0, a1: A1) -> (r: Op) ensures r == DelayOperator::k_new(a0, a1) { unimplemented!() }
}
//@known DelayOperator::new
pub struct DematerializeOperator;
impl DematerializeOperator {
    pub uninterp spec fn k_default() -> Op;
    #[verifier::external_body]
    pub fn default() -> (r: Op) ensures r == DematerializeOperator::k_default() { unimplemented!() }
}
//@known DematerializeOperator::default
pub struct ElementAtOperator;
impl ElementAtOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == ElementAtOperator::k_new(a0) { unimplemented!() }
    pub uninterp spec fn k_new_with_default<A0, A1>(a0: A0, a1: A1) -> Op;
    #[verifier::external_body]
    pub fn new_with_default<A0, A1>(a0: A0, a1: A1) -> (r: Op) ensures r == ElementAtOperator::k_new_with_default(a0, a1) { unimplemented!() }
}
//@known ElementAtOperator::new
//@known ElementAtOperator::new_with_default
pub struct EndWithOperator;
impl EndWithOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == EndWithOperator::k_new(a0) { unimplemented!() }
}
//@known EndWithOperator::new
pub struct EnumerateOperator;
impl EnumerateOperator {
    pub uninterp spec fn k_default() -> Op;
    #[verifier::external_body]
    pub fn default() -> (r: Op) ensures r == EnumerateOperator::k_default() { unimplemented!() }
}
//@known EnumerateOperator::default
pub struct ErrorBoundaryOperator;
impl ErrorBoundaryOperator {
    pub uninterp spec fn k_default() -> Op;
    #[verifier::external_body]
    pub fn default() -> (r: Op) ensures r == ErrorBoundaryOperator::k_default() { unimplemented!() }
}
//@known ErrorBoundaryOperator::default
pub struct ExhaustAllOperator;
impl ExhaustAllOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == ExhaustAllOperator::k_new(a0) { unimplemented!() }
}
//@known ExhaustAllOperator::new
pub struct ExhaustMapOperator;
impl ExhaustMapOperator {
    pub uninterp spec fn k_new<A0, A1>(a0: A0, a1: A1) -> Op;
    #[verifier::external_body]
    pub fn new<A0, A1>(a0: A0, a1: A1) -> (r: Op) ensures r == ExhaustMapOperator::k_new(a0, a1) { unimplemented!() }
}
//@known ExhaustMapOperator::new
pub struct FallbackWhenSilentOperator;
impl FallbackWhenSilentOperator {
    pub uninterp spec fn k_new<A0, A1>(a0: A0, a1: A1) -> Op;
    #[verifier::external_body]
    pub fn new<A0, A1>(a0: A0, a1: A1) -> (r: Op) ensures r == FallbackWhenSilentOperator::k_new(a0, a1) { unimplemented!() }
}
//@known FallbackWhenSilentOperator::new
pub struct FilterMapOperator;
impl FilterMapOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == FilterMapOperator::k_new(a0) { unimplemented!() }
}
//@known FilterMapOperator::new
pub struct FilterOperator;
impl FilterOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == FilterOperator::k_new(a0) { unimplemented!() }
}
//@known FilterOperator::new
pub struct FinalizeOperator;
impl FinalizeOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == FinalizeOperator::k_new(a0) { unimplemented!() }
}
//@known FinalizeOperator::new
pub struct FindIndexOperator;
impl FindIndexOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == FindIndexOperator::k_new(a0) { unimplemented!() }
}
//@known FindIndexOperator::new
pub struct FindOperator;
impl FindOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == FindOperator::k_new(a0) { unimplemented!() }
}
//@known FindOperator::new
pub struct FirstOperator;
impl FirstOperator {
    pub uninterp spec fn k_default() -> Op;
    #[verifier::external_body]
    pub fn default() -> (r: Op) ensures r == FirstOperator::k_default() { unimplemented!() }
}
//@known FirstOperator::default
pub struct IdentityOperator;
impl IdentityOperator {
    pub uninterp spec fn k_default() -> Op;
    #[verifier::external_body]
    pub fn default() -> (r: Op) ensures r == IdentityOperator::k_default() { unimplemented!() }
}
//@known IdentityOperator::default
pub struct IntervalObservable;
impl IntervalObservable {
    pub uninterp spec fn k_new<A0, A1>(a0: A0, a1: A1) -> Op;
    #[verifier::external_body]
    pub fn new<A0, A1>(a0: A0, a1: A1) -> (r: Op) ensures r == IntervalObservable::k_new(a0, a1) { unimplemented!() }
}
//@known IntervalObservable::new
pub struct IntoResultOperator;
impl IntoResultOperator {
    pub uninterp spec fn k_default() -> Op;
    #[verifier::external_body]
    pub fn default() -> (r: Op) ensures r == IntoResultOperator::k_default() { unimplemented!() }
}
//@known IntoResultOperator::default
pub struct IsEmptyOperator;
impl IsEmptyOperator {
    pub uninterp spec fn k_default() -> Op;
    #[verifier::external_body]
    pub fn default() -> (r: Op) ensures r == IsEmptyOperator::k_default() { unimplemented!() }
}
//@known IsEmptyOperator::default
pub struct IteratorObservable;
impl IteratorObservable {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == IteratorObservable::k_new(a0) { unimplemented!() }
}
//@known IteratorObservable::new
pub struct IteratorOnTickObservable;
impl IteratorOnTickObservable {
    pub uninterp spec fn k_new<A0, A1, A2>(a0: A0, a1: A1, a2: A2) -> Op;
    #[verifier::external_body]
    pub fn new<A0, A1, A2>(a0: A0, a1: A1, a2: A2) -> (r: Op) ensures r == IteratorOnTickObservable::k_new(a0, a1, a2) { unimplemented!() }
}
//@known IteratorOnTickObservable::new
pub struct JoinObservable;
impl JoinObservable {
    pub uninterp spec fn k_new<A0, A1>(a0: A0, a1: A1) -> Op;
    #[verifier::external_body]
    pub fn new<A0, A1>(a0: A0, a1: A1) -> (r: Op) ensures r == JoinObservable::k_new(a0, a1) { unimplemented!() }
}
//@known JoinObservable::new
pub struct JustObservable;
impl JustObservable {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == JustObservable::k_new(a0) { unimplemented!() }
}
//@known JustObservable::new
pub struct LiftOptionOperator;
impl LiftOptionOperator {
    pub uninterp spec fn k_default() -> Op;
    #[verifier::external_body]
    pub fn default() -> (r: Op) ensures r == LiftOptionOperator::k_default() { unimplemented!() }
}
//@known LiftOptionOperator::default
pub struct LiftResultOperator;
impl LiftResultOperator {
    pub uninterp spec fn k_default() -> Op;
    #[verifier::external_body]
    pub fn default() -> (r: Op) ensures r == LiftResultOperator::k_default() { unimplemented!() }
}
//@known LiftResultOperator::default
pub struct MapErrorOperator;
impl MapErrorOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == MapErrorOperator::k_new(a0) { unimplemented!() }
}
//@known MapErrorOperator::new
pub struct MapIntoOperator;
impl MapIntoOperator {
    pub uninterp spec fn k_default() -> Op;
    #[verifier::external_body]
    pub fn default() -> (r: Op) ensures r == MapIntoOperator::k_default() { unimplemented!() }
}
//@known MapIntoOperator::default
pub struct MapNeverBothOperator;
impl MapNeverBothOperator {
    pub uninterp spec fn k_default() -> Op;
    #[verifier::external_body]
    pub fn default() -> (r: Op) ensures r == MapNeverBothOperator::k_default() { unimplemented!() }
}
//@known MapNeverBothOperator::default
pub struct MapNeverErrorOperator;
impl MapNeverErrorOperator {
    pub uninterp spec fn k_default() -> Op;
    #[verifier::external_body]
    pub fn default() -> (r: Op) ensures r == MapNeverErrorOperator::k_default() { unimplemented!() }
}
//@known MapNeverErrorOperator::default
pub struct MapNeverNextOperator;
impl MapNeverNextOperator {
    pub uninterp spec fn k_default() -> Op;
    #[verifier::external_body]
    pub fn default() -> (r: Op) ensures r == MapNeverNextOperator::k_default() { unimplemented!() }
}
//@known MapNeverNextOperator::default
pub struct MapOperator;
impl MapOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == MapOperator::k_new(a0) { unimplemented!() }
}
//@known MapOperator::new
pub struct MaterializeOperator;
impl MaterializeOperator {
    pub uninterp spec fn k_default() -> Op;
    #[verifier::external_body]
    pub fn default() -> (r: Op) ensures r == MaterializeOperator::k_default() { unimplemented!() }
}
//@known MaterializeOperator::default
pub struct MergeAllOperator;
impl MergeAllOperator {
    pub uninterp spec fn k_new<A0, A1>(a0: A0, a1: A1) -> Op;
    #[verifier::external_body]
    pub fn new<A0, A1>(a0: A0, a1: A1) -> (r: Op) ensures r == MergeAllOperator::k_new(a0, a1) { unimplemented!() }
}
//@known MergeAllOperator::new
pub struct MergeMapOperator;
impl MergeMapOperator {
    pub uninterp spec fn k_new<A0, A1, A2>(a0: A0, a1: A1, a2: A2) -> Op;
    #[verifier::external_body]
    pub fn new<A0, A1, A2>(a0: A0, a1: A1, a2: A2) -> (r: Op) ensures r == MergeMapOperator::k_new(a0, a1, a2) { unimplemented!() }
}
//@known MergeMapOperator::new
pub struct MergeObservable;
impl MergeObservable {
    pub uninterp spec fn k_new<A0, A1>(a0: A0, a1: A1) -> Op;
    #[verifier::external_body]
    pub fn new<A0, A1>(a0: A0, a1: A1) -> (r: Op) ensures r == MergeObservable::k_new(a0, a1) { unimplemented!() }
}
//@known MergeObservable::new
pub struct ObserveOnOperator;
impl ObserveOnOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == ObserveOnOperator::k_new(a0) { unimplemented!() }
}
//@known ObserveOnOperator::new
pub struct OnNextOperator;
impl OnNextOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == OnNextOperator::k_new(a0) { unimplemented!() }
}
//@known OnNextOperator::new
pub struct OnSubscribeOperator;
impl OnSubscribeOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == OnSubscribeOperator::k_new(a0) { unimplemented!() }
}
//@known OnSubscribeOperator::new
pub struct PairwiseOperator;
impl PairwiseOperator {
    pub uninterp spec fn k_default() -> Op;
    #[verifier::external_body]
    pub fn default() -> (r: Op) ensures r == PairwiseOperator::k_default() { unimplemented!() }
}
//@known PairwiseOperator::default
pub struct ReduceOperator;
impl ReduceOperator {
    pub uninterp spec fn k_new<A0, A1>(a0: A0, a1: A1) -> Op;
    #[verifier::external_body]
    pub fn new<A0, A1>(a0: A0, a1: A1) -> (r: Op) ensures r == ReduceOperator::k_new(a0, a1) { unimplemented!() }
}
//@known ReduceOperator::new
pub struct RetryOperator;
impl RetryOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == RetryOperator::k_new(a0) { unimplemented!() }
}
//@known RetryOperator::new
pub struct ScanOperator;
impl ScanOperator {
    pub uninterp spec fn k_new<A0, A1>(a0: A0, a1: A1) -> Op;
    #[verifier::external_body]
    pub fn new<A0, A1>(a0: A0, a1: A1) -> (r: Op) ensures r == ScanOperator::k_new(a0, a1) { unimplemented!() }
}
//@known ScanOperator::new
pub struct ShareOperator;
impl ShareOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == ShareOperator::k_new(a0) { unimplemented!() }
}
//@known ShareOperator::new
pub struct SharedSubscription;
impl SharedSubscription {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == SharedSubscription::k_new(a0) { unimplemented!() }
}
//@known SharedSubscription::new
pub struct SkipOperator;
impl SkipOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == SkipOperator::k_new(a0) { unimplemented!() }
}
//@known SkipOperator::new
pub struct StartWithOperator;
impl StartWithOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == StartWithOperator::k_new(a0) { unimplemented!() }
}
//@known StartWithOperator::new
pub struct SubscribeOnOperator;
impl SubscribeOnOperator {
    pub uninterp spec fn k_new<A0, A1>(a0: A0, a1: A1) -> Op;
    #[verifier::external_body]
    pub fn new<A0, A1>(a0: A0, a1: A1) -> (r: Op) ensures r == SubscribeOnOperator::k_new(a0, a1) { unimplemented!() }
}
//@known SubscribeOnOperator::new
pub struct SwitchAllOperator;
impl SwitchAllOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == SwitchAllOperator::k_new(a0) { unimplemented!() }
}
//@known SwitchAllOperator::new
pub struct SwitchMapOperator;
impl SwitchMapOperator {
    pub uninterp spec fn k_new<A0, A1>(a0: A0, a1: A1) -> Op;
    #[verifier::external_body]
    pub fn new<A0, A1>(a0: A0, a1: A1) -> (r: Op) ensures r == SwitchMapOperator::k_new(a0, a1) { unimplemented!() }
}
//@known SwitchMapOperator::new
pub struct TakeOperator;
impl TakeOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == TakeOperator::k_new(a0) { unimplemented!() }
}
//@known TakeOperator::new
pub struct TapNextOperator;
impl TapNextOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == TapNextOperator::k_new(a0) { unimplemented!() }
}
//@known TapNextOperator::new
pub struct TapOperator;
impl TapOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == TapOperator::k_new(a0) { unimplemented!() }
}
//@known TapOperator::new
pub struct ThrottleTimeOperator;
impl ThrottleTimeOperator {
    pub uninterp spec fn k_new_with_options<A0, A1>(a0: A0, a1: A1) -> Op;
    #[verifier::external_body]
    pub fn new_with_options<A0, A1>(a0: A0, a1: A1) -> (r: Op) ensures r == ThrottleTimeOperator::k_new_with_options(a0, a1) { unimplemented!() }
}
//@known ThrottleTimeOperator::new_with_options
pub struct ThrowObservable;
impl ThrowObservable {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == ThrowObservable::k_new(a0) { unimplemented!() }
}
//@known ThrowObservable::new
pub struct TimerObservable;
impl TimerObservable {
    pub uninterp spec fn k_new<A0, A1>(a0: A0, a1: A1) -> Op;
    #[verifier::external_body]
    pub fn new<A0, A1>(a0: A0, a1: A1) -> (r: Op) ensures r == TimerObservable::k_new(a0, a1) { unimplemented!() }
}
//@known TimerObservable::new
pub struct WithLatestFromOperator;
impl WithLatestFromOperator {
    pub uninterp spec fn k_new<A0>(a0: A0) -> Op;
    #[verifier::external_body]
    pub fn new<A0>(a0: A0) -> (r: Op) ensures r == WithLatestFromOperator::k_new(a0) { unimplemented!() }
}
//@known WithLatestFromOperator::new
pub struct ZipObservable;
impl ZipObservable {
    pub uninterp spec fn k_new<A0, A1>(a0: A0, a1: A1) -> Op;
    #[verifier::external_body]
    pub fn new<A0, A1>(a0: A0, a1: A1) -> (r: Op) ensures r == ZipObservable::k_new(a0, a1) { unimplemented!() }
}
//@known ZipObservable::new
//@fn rx_core_common SubscriptionLikeExtensionIntoShared::into_shared ext rtype=Op on=impl~Me as=into_shared_subscriptionlike_intoshared
  ensures r == SharedSubscription::k_new(self)
//@end
//@fn rx_core_observable_combine_changes combine_changes ext rtype=Op as=combine_changes_fn args=x0,x1
  ensures r == CombineChangesObservable::k_new(x0, x1)
//@end
//@fn rx_core_observable_combine_latest combine_latest ext rtype=Op as=combine_latest_fn args=x0,x1
  ensures r == CombineLatestObservable::k_new(x0, x1)
//@end
//@fn rx_core_observable_concat concat ext rtype=Op as=concat_fn args=x0
  ensures r == ConcatObservable::k_new(x0)
//@end
//@fn rx_core_observable_create create_observable ext rtype=Op as=create_observable_fn args=x0
  ensures r == CreateObservable::k_new(x0)
//@end
//@fn rx_core_observable_deferred deferred_observable ext rtype=Op as=deferred_observable_fn args=x0
  ensures r == DeferredObservable::k_new(x0)
//@end
//@fn rx_core_observable_interval interval ext rtype=Op as=interval_fn args=x0,x1
  ensures r == IntervalObservable::k_new(x0, x1)
//@end
//@fn rx_core_observable_iterator IntoIteratorObservableExtension::into_observable ext rtype=Op on=impl~Me as=into_observable_intoiteratorobservable_
  ensures r == IteratorObservable::k_new(self)
//@end
//@fn rx_core_observable_iterator_on_tick IntoIteratorOnTickObservableExtension::into_observable_on_every_nth_tick ext rtype=Op on=impl~Me as=into_observable_on_every_nth_tick_intoiteratorontickobservable_ args=x0,x1
  ensures r == IteratorOnTickObservable::k_new(self, x0, x1)
//@end
//@fn rx_core_observable_join join ext rtype=Op as=join_fn args=x0,x1
  ensures r == JoinObservable::k_new(x0, x1)
//@end
//@fn rx_core_observable_just just ext rtype=Op as=just_fn args=x0
  ensures r == JustObservable::k_new(x0)
//@end
//@fn rx_core_observable_merge merge ext rtype=Op as=merge_fn args=x0,x1
  ensures r == MergeObservable::k_new(x0, x1)
//@end
//@fn rx_core_observable_throw throw ext rtype=Op as=throw_fn args=x0
  ensures r == ThrowObservable::k_new(x0)
//@end
//@fn rx_core_observable_timer timer ext rtype=Op as=timer_fn args=x0,x1
  ensures r == TimerObservable::k_new(x0, x1)
//@end
//@fn rx_core_observable_zip zip ext rtype=Op as=zip_fn args=x0,x1
  ensures r == ZipObservable::k_new(x0, x1)
//@end
//@fn rx_core_operator_adsr OperatorComposeExtensionAdsr::adsr ext rtype=(Me,~Op) on=impl~Me as=adsr_operatorcompose_adsr args=x0,x1
  ensures r == (self, AdsrOperator::k_new(x0, x1))
//@end
//@fn rx_core_operator_adsr ObservablePipeExtensionAdsr::adsr ext rtype=(Me,~Op) on=impl~Me as=adsr_observablepipe_adsr args=x0,x1
  ensures r == (self, AdsrOperator::k_new(x0, x1))
//@end
//@fn rx_core_operator_buffer_count OperatorComposeExtensionBufferCount::buffer_count ext rtype=(Me,~Op) on=impl~Me as=buffer_count_operatorcompose_buffercount args=x0
  ensures r == (self, BufferCountOperator::k_new(x0))
//@end
//@fn rx_core_operator_buffer_count ObservablePipeExtensionBufferCount::buffer_count ext rtype=(Me,~Op) on=impl~Me as=buffer_count_observablepipe_buffercount args=x0
  ensures r == (self, BufferCountOperator::k_new(x0))
//@end
//@fn rx_core_operator_catch OperatorComposeExtensionCatch::catch ext rtype=(Me,~Op) on=impl~Me as=catch_operatorcompose_catch args=x0
  ensures r == (self, CatchOperator::k_new(x0))
//@end
//@fn rx_core_operator_catch ObservablePipeExtensionCatch::catch ext rtype=(Me,~Op) on=impl~Me as=catch_observablepipe_catch args=x0
  ensures r == (self, CatchOperator::k_new(x0))
//@end
//@fn rx_core_operator_composite OperatorComposeExtension::compose_with ext rtype=Op on=impl~Me as=compose_with_operatorcompose_ args=x0
  ensures r == CompositeOperator::k_new(self, x0)
//@end
//@fn rx_core_operator_concat_all OperatorComposeExtensionConcatAll::concat_all ext rtype=(Me,~Op) on=impl~Me as=concat_all_operatorcompose_concatall args=x0
  ensures r == (self, ConcatAllOperator::k_new(x0))
//@end
//@fn rx_core_operator_concat_all ObservablePipeExtensionConcatAll::concat_all ext rtype=(Me,~Op) on=impl~Me as=concat_all_observablepipe_concatall args=x0
  ensures r == (self, ConcatAllOperator::k_new(x0))
//@end
//@fn rx_core_operator_concat_map OperatorComposeExtensionConcatMap::concat_map ext rtype=(Me,~Op) on=impl~Me as=concat_map_operatorcompose_concatmap args=x0,x1
  ensures r == (self, ConcatMapOperator::k_new(x0, x1))
//@end
//@fn rx_core_operator_concat_map ObservablePipeExtensionConcatMap::concat_map ext rtype=(Me,~Op) on=impl~Me as=concat_map_observablepipe_concatmap args=x0,x1
  ensures r == (self, ConcatMapOperator::k_new(x0, x1))
//@end
//@fn rx_core_operator_count OperatorComposeExtensionCount::count ext rtype=(Me,~Op) on=impl~Me as=count_operatorcompose_count
  ensures r == (self, CountOperator::k_default())
//@end
//@fn rx_core_operator_count ObservablePipeExtensionCount::count ext rtype=(Me,~Op) on=impl~Me as=count_observablepipe_count
  ensures r == (self, CountOperator::k_default())
//@end
//@fn rx_core_operator_debounce_time OperatorComposeExtensionDebounceTime::debounce_time ext rtype=(Me,~Op) on=impl~Me as=debounce_time_operatorcompose_debouncetime args=x0,x1
  ensures r == (self, DebounceTimeOperator::k_new(x0, x1))
//@end
//@fn rx_core_operator_debounce_time ObservablePipeExtensionDebounceTime::debounce_time ext rtype=(Me,~Op) on=impl~Me as=debounce_time_observablepipe_debouncetime args=x0,x1
  ensures r == (self, DebounceTimeOperator::k_new(x0, x1))
//@end
//@fn rx_core_operator_delay OperatorComposeExtensionDelay::delay ext rtype=(Me,~Op) on=impl~Me as=delay_operatorcompose_delay args=x0,x1
  ensures r == (self, DelayOperator::k_new(x0, x1))
//@end
//@fn rx_core_operator_delay ObservablePipeExtensionDelay::delay ext rtype=(Me,~Op) on=impl~Me as=delay_observablepipe_delay args=x0,x1
  ensures r == (self, DelayOperator::k_new(x0, x1))
//@end
//@fn rx_core_operator_dematerialize OperatorComposeExtensionDematerialize::dematerialize ext rtype=(Me,~Op) on=impl~Me as=dematerialize_operatorcompose_dematerialize
  ensures r == (self, DematerializeOperator::k_default())
//@end
//@fn rx_core_operator_dematerialize ObservablePipeExtensionDematerialize::dematerialize ext rtype=(Me,~Op) on=impl~Me as=dematerialize_observablepipe_dematerialize
  ensures r == (self, DematerializeOperator::k_default())
//@end
//@fn rx_core_operator_element_at OperatorComposeExtensionElementAt::element_at ext rtype=(Me,~Op) on=impl~Me as=element_at_operatorcompose_elementat args=x0
  ensures r == (self, ElementAtOperator::k_new(x0))
//@end
//@fn rx_core_operator_element_at OperatorComposeExtensionElementAt::element_at_or_else ext rtype=(Me,~Op) on=impl~Me as=element_at_or_else_operatorcompose_elementat args=x0,x1
  ensures r == (self, ElementAtOperator::k_new_with_default(x0, x1))
//@end
//@fn rx_core_operator_element_at ObservablePipeExtensionElementAt::element_at ext rtype=(Me,~Op) on=impl~Me as=element_at_observablepipe_elementat args=x0
  ensures r == (self, ElementAtOperator::k_new(x0))
//@end
//@fn rx_core_operator_element_at ObservablePipeExtensionElementAt::element_at_or_else ext rtype=(Me,~Op) on=impl~Me as=element_at_or_else_observablepipe_elementat args=x0,x1
  ensures r == (self, ElementAtOperator::k_new_with_default(x0, x1))
//@end
//@fn rx_core_operator_end_with OperatorComposeExtensionEndWith::end_with ext rtype=(Me,~Op) on=impl~Me as=end_with_operatorcompose_endwith args=x0
  ensures r == (self, EndWithOperator::k_new(x0))
//@end
//@fn rx_core_operator_end_with ObservablePipeExtensionEndWith::end_with ext rtype=(Me,~Op) on=impl~Me as=end_with_observablepipe_endwith args=x0
  ensures r == (self, EndWithOperator::k_new(x0))
//@end
//@fn rx_core_operator_enumerate OperatorComposeExtensionEnumerate::enumerate ext rtype=(Me,~Op) on=impl~Me as=enumerate_operatorcompose_enumerate
  ensures r == (self, EnumerateOperator::k_default())
//@end
//@fn rx_core_operator_enumerate ObservablePipeExtensionEnumerate::enumerate ext rtype=(Me,~Op) on=impl~Me as=enumerate_observablepipe_enumerate
  ensures r == (self, EnumerateOperator::k_default())
//@end
//@fn rx_core_operator_error_boundary OperatorComposeExtensionErrorBoundary::error_boundary ext rtype=(Me,~Op) on=impl~Me as=error_boundary_operatorcompose_errorboundary
  ensures r == (self, ErrorBoundaryOperator::k_default())
//@end
//@fn rx_core_operator_error_boundary ObservablePipeExtensionErrorBoundary::error_boundary ext rtype=(Me,~Op) on=impl~Me as=error_boundary_observablepipe_errorboundary
  ensures r == (self, ErrorBoundaryOperator::k_default())
//@end
//@fn rx_core_operator_exhaust_all OperatorComposeExtensionExhaustAll::exhaust_all ext rtype=(Me,~Op) on=impl~Me as=exhaust_all_operatorcompose_exhaustall args=x0
  ensures r == (self, ExhaustAllOperator::k_new(x0))
//@end
//@fn rx_core_operator_exhaust_all ObservablePipeExtensionExhaustAll::exhaust_all ext rtype=(Me,~Op) on=impl~Me as=exhaust_all_observablepipe_exhaustall args=x0
  ensures r == (self, ExhaustAllOperator::k_new(x0))
//@end
//@fn rx_core_operator_exhaust_map OperatorComposeExtensionExhaustMap::exhaust_map ext rtype=(Me,~Op) on=impl~Me as=exhaust_map_operatorcompose_exhaustmap args=x0,x1
  ensures r == (self, ExhaustMapOperator::k_new(x0, x1))
//@end
//@fn rx_core_operator_exhaust_map ObservablePipeExtensionExhaustMap::exhaust_map ext rtype=(Me,~Op) on=impl~Me as=exhaust_map_observablepipe_exhaustmap args=x0,x1
  ensures r == (self, ExhaustMapOperator::k_new(x0, x1))
//@end
//@fn rx_core_operator_fallback_when_silent OperatorComposeExtensionFallbackWhenSilent::fallback_when_silent ext rtype=(Me,~Op) on=impl~Me as=fallback_when_silent_operatorcompose_fallbackwhensilent args=x0,x1
  ensures r == (self, FallbackWhenSilentOperator::k_new(x0, x1))
//@end
//@fn rx_core_operator_fallback_when_silent ObservablePipeExtensionInto::fallback_when_silent ext rtype=(Me,~Op) on=impl~Me as=fallback_when_silent_observablepipe_into args=x0,x1
  ensures r == (self, FallbackWhenSilentOperator::k_new(x0, x1))
//@end
//@fn rx_core_operator_filter OperatorComposeExtensionFilter::filter ext rtype=(Me,~Op) on=impl~Me as=filter_operatorcompose_filter args=x0
  ensures r == (self, FilterOperator::k_new(x0))
//@end
//@fn rx_core_operator_filter ObservablePipeExtensionFilter::filter ext rtype=(Me,~Op) on=impl~Me as=filter_observablepipe_filter args=x0
  ensures r == (self, FilterOperator::k_new(x0))
//@end
//@fn rx_core_operator_filter_map OperatorComposeExtensionFilterMap::filter_map ext rtype=(Me,~Op) on=impl~Me as=filter_map_operatorcompose_filtermap args=x0
  ensures r == (self, FilterMapOperator::k_new(x0))
//@end
//@fn rx_core_operator_filter_map ObservablePipeExtensionFilterMap::filter_map ext rtype=(Me,~Op) on=impl~Me as=filter_map_observablepipe_filtermap args=x0
  ensures r == (self, FilterMapOperator::k_new(x0))
//@end
//@fn rx_core_operator_finalize OperatorComposeExtensionFinalize::finalize ext rtype=(Me,~Op) on=impl~Me as=finalize_operatorcompose_finalize args=x0
  ensures r == (self, FinalizeOperator::k_new(x0))
//@end
//@fn rx_core_operator_finalize ObservablePipeExtensionFinalize::finalize ext rtype=(Me,~Op) on=impl~Me as=finalize_observablepipe_finalize args=x0
  ensures r == (self, FinalizeOperator::k_new(x0))
//@end
//@fn rx_core_operator_find OperatorComposeExtensionFind::find ext rtype=(Me,~Op) on=impl~Me as=find_operatorcompose_find args=x0
  ensures r == (self, FindOperator::k_new(x0))
//@end
//@fn rx_core_operator_find ObservablePipeExtensionFind::find ext rtype=(Me,~Op) on=impl~Me as=find_observablepipe_find args=x0
  ensures r == (self, FindOperator::k_new(x0))
//@end
//@fn rx_core_operator_find_index OperatorComposeExtensionFindIndex::find_index ext rtype=(Me,~Op) on=impl~Me as=find_index_operatorcompose_findindex args=x0
  ensures r == (self, FindIndexOperator::k_new(x0))
//@end
//@fn rx_core_operator_find_index ObservablePipeExtensionFindIndex::find_index ext rtype=(Me,~Op) on=impl~Me as=find_index_observablepipe_findindex args=x0
  ensures r == (self, FindIndexOperator::k_new(x0))
//@end
//@fn rx_core_operator_first OperatorComposeExtensionFirst::first ext rtype=(Me,~Op) on=impl~Me as=first_operatorcompose_first
  ensures r == (self, FirstOperator::k_default())
//@end
//@fn rx_core_operator_first ObservablePipeExtensionFirst::first ext rtype=(Me,~Op) on=impl~Me as=first_observablepipe_first
  ensures r == (self, FirstOperator::k_default())
//@end
//@fn rx_core_operator_identity compose_operator ext rtype=Op as=compose_operator_fn
  ensures r == IdentityOperator::k_default()
//@end
//@fn rx_core_operator_into_result OperatorComposeExtensionIntoResult::into_result ext rtype=(Me,~Op) on=impl~Me as=into_result_operatorcompose_intoresult
  ensures r == (self, IntoResultOperator::k_default())
//@end
//@fn rx_core_operator_into_result ObservablePipeExtensionTryCapture::into_result ext rtype=(Me,~Op) on=impl~Me as=into_result_observablepipe_trycapture
  ensures r == (self, IntoResultOperator::k_default())
//@end
//@fn rx_core_operator_is_empty OperatorComposeExtensionIsEmpty::is_empty ext rtype=(Me,~Op) on=impl~Me as=is_empty_operatorcompose_isempty
  ensures r == (self, IsEmptyOperator::k_default())
//@end
//@fn rx_core_operator_is_empty ObservablePipeExtensionIsEmpty::is_empty ext rtype=(Me,~Op) on=impl~Me as=is_empty_observablepipe_isempty
  ensures r == (self, IsEmptyOperator::k_default())
//@end
//@fn rx_core_operator_lift_option OperatorComposeExtensionLiftOption::lift_option ext rtype=(Me,~Op) on=impl~Me as=lift_option_operatorcompose_liftoption
  ensures r == (self, LiftOptionOperator::k_default())
//@end
//@fn rx_core_operator_lift_option ObservablePipeExtensionLiftOption::lift_option ext rtype=(Me,~Op) on=impl~Me as=lift_option_observablepipe_liftoption
  ensures r == (self, LiftOptionOperator::k_default())
//@end
//@fn rx_core_operator_lift_result OperatorComposeExtensionLiftResult::lift_result ext rtype=(Me,~Op) on=impl~Me as=lift_result_operatorcompose_liftresult
  ensures r == (self, LiftResultOperator::k_default())
//@end
//@fn rx_core_operator_lift_result ObservablePipeExtensionLiftResult::lift_result ext rtype=(Me,~Op) on=impl~Me as=lift_result_observablepipe_liftresult
  ensures r == (self, LiftResultOperator::k_default())
//@end
//@fn rx_core_operator_map OperatorComposeExtensionMap::map ext rtype=(Me,~Op) on=impl~Me as=map_operatorcompose_map args=x0
  ensures r == (self, MapOperator::k_new(x0))
//@end
//@fn rx_core_operator_map ObservablePipeExtensionMap::map ext rtype=(Me,~Op) on=impl~Me as=map_observablepipe_map args=x0
  ensures r == (self, MapOperator::k_new(x0))
//@end
//@fn rx_core_operator_map_error OperatorComposeExtensionMapError::map_error ext rtype=(Me,~Op) on=impl~Me as=map_error_operatorcompose_maperror args=x0
  ensures r == (self, MapErrorOperator::k_new(x0))
//@end
//@fn rx_core_operator_map_error ObservablePipeExtensionMapError::map_error ext rtype=(Me,~Op) on=impl~Me as=map_error_observablepipe_maperror args=x0
  ensures r == (self, MapErrorOperator::k_new(x0))
//@end
//@fn rx_core_operator_map_into OperatorComposeExtensionInto::map_into ext rtype=(Me,~Op) on=impl~Me as=map_into_operatorcompose_into
  ensures r == (self, MapIntoOperator::k_default())
//@end
//@fn rx_core_operator_map_into ObservablePipeExtensionMapInto::map_into ext rtype=(Me,~Op) on=impl~Me as=map_into_observablepipe_mapinto
  ensures r == (self, MapIntoOperator::k_default())
//@end
//@fn rx_core_operator_map_never OperatorComposeExtensionMapNeverNext::map_never ext rtype=(Me,~Op) on=impl~Me as=map_never_operatorcompose_mapnevernext
  ensures r == (self, MapNeverNextOperator::k_default())
//@end
//@fn rx_core_operator_map_never OperatorComposeExtensionMapNeverError::map_never ext rtype=(Me,~Op) on=impl~Me as=map_never_operatorcompose_mapnevererror
  ensures r == (self, MapNeverErrorOperator::k_default())
//@end
//@fn rx_core_operator_map_never OperatorComposeExtensionMapNeverBoth::map_never_both ext rtype=(Me,~Op) on=impl~Me as=map_never_both_operatorcompose_mapneverboth
  ensures r == (self, MapNeverBothOperator::k_default())
//@end
//@fn rx_core_operator_map_never ObservablePipeExtensionMapNeverNext::map_never ext rtype=(Me,~Op) on=impl~Me as=map_never_observablepipe_mapnevernext
  ensures r == (self, MapNeverNextOperator::k_default())
//@end
//@fn rx_core_operator_map_never ObservablePipeExtensionMapNeverError::map_never ext rtype=(Me,~Op) on=impl~Me as=map_never_observablepipe_mapnevererror
  ensures r == (self, MapNeverErrorOperator::k_default())
//@end
//@fn rx_core_operator_map_never ObservablePipeExtensionMapNeverBoth::map_never_both ext rtype=(Me,~Op) on=impl~Me as=map_never_both_observablepipe_mapneverboth
  ensures r == (self, MapNeverBothOperator::k_default())
//@end
//@fn rx_core_operator_materialize OperatorComposeExtensionMaterialize::materialize ext rtype=(Me,~Op) on=impl~Me as=materialize_operatorcompose_materialize
  ensures r == (self, MaterializeOperator::k_default())
//@end
//@fn rx_core_operator_materialize ObservablePipeExtensionMaterialize::materialize ext rtype=(Me,~Op) on=impl~Me as=materialize_observablepipe_materialize
  ensures r == (self, MaterializeOperator::k_default())
//@end
//@fn rx_core_operator_merge_all OperatorComposeExtensionMergeAll::merge_all ext rtype=(Me,~Op) on=impl~Me as=merge_all_operatorcompose_mergeall args=x0,x1
  ensures r == (self, MergeAllOperator::k_new(x0, x1))
//@end
//@fn rx_core_operator_merge_all ObservablePipeExtensionMergeAll::merge_all ext rtype=(Me,~Op) on=impl~Me as=merge_all_observablepipe_mergeall args=x0,x1
  ensures r == (self, MergeAllOperator::k_new(x0, x1))
//@end
//@fn rx_core_operator_merge_map OperatorComposeExtensionMergeMap::merge_map ext rtype=(Me,~Op) on=impl~Me as=merge_map_operatorcompose_mergemap args=x0,x1,x2
  ensures r == (self, MergeMapOperator::k_new(x0, x2, x1))
//@end
//@fn rx_core_operator_merge_map ObservablePipeExtensionMergeMap::merge_map ext rtype=(Me,~Op) on=impl~Me as=merge_map_observablepipe_mergemap args=x0,x1,x2
  ensures r == (self, MergeMapOperator::k_new(x0, x2, x1))
//@end
//@fn rx_core_operator_observe_on OperatorComposeExtensionObserveOn::observe_on ext rtype=(Me,~Op) on=impl~Me as=observe_on_operatorcompose_observeon args=x0
  ensures r == (self, ObserveOnOperator::k_new(x0))
//@end
//@fn rx_core_operator_observe_on ObservablePipeExtensionObserveOn::observe_on ext rtype=(Me,~Op) on=impl~Me as=observe_on_observablepipe_observeon args=x0
  ensures r == (self, ObserveOnOperator::k_new(x0))
//@end
//@fn rx_core_operator_on_next OperatorComposeExtensionOnNext::on_next ext rtype=(Me,~Op) on=impl~Me as=on_next_operatorcompose_onnext args=x0
  ensures r == (self, OnNextOperator::k_new(x0))
//@end
//@fn rx_core_operator_on_next ObservablePipeExtensionOnNext::on_next ext rtype=(Me,~Op) on=impl~Me as=on_next_observablepipe_onnext args=x0
  ensures r == (self, OnNextOperator::k_new(x0))
//@end
//@fn rx_core_operator_on_subscribe OperatorComposeExtensionOnSubscribe::on_subscribe ext rtype=(Me,~Op) on=impl~Me as=on_subscribe_operatorcompose_onsubscribe args=x0
  ensures r == (self, OnSubscribeOperator::k_new(x0))
//@end
//@fn rx_core_operator_on_subscribe ObservablePipeExtensionOnSubscribe::on_subscribe ext rtype=(Me,~Op) on=impl~Me as=on_subscribe_observablepipe_onsubscribe args=x0
  ensures r == (self, OnSubscribeOperator::k_new(x0))
//@end
//@fn rx_core_operator_pairwise OperatorComposeExtensionPairwise::pairwise ext rtype=(Me,~Op) on=impl~Me as=pairwise_operatorcompose_pairwise
  ensures r == (self, PairwiseOperator::k_default())
//@end
//@fn rx_core_operator_pairwise ObservablePipeExtensionPairwise::pairwise ext rtype=(Me,~Op) on=impl~Me as=pairwise_observablepipe_pairwise
  ensures r == (self, PairwiseOperator::k_default())
//@end
//@fn rx_core_operator_reduce OperatorComposeExtensionReduce::reduce ext rtype=(Me,~Op) on=impl~Me as=reduce_operatorcompose_reduce args=x0,x1
  ensures r == (self, ReduceOperator::k_new(x0, x1))
//@end
//@fn rx_core_operator_reduce ObservablePipeExtensionReduce::reduce ext rtype=(Me,~Op) on=impl~Me as=reduce_observablepipe_reduce args=x0,x1
  ensures r == (self, ReduceOperator::k_new(x0, x1))
//@end
//@fn rx_core_operator_retry ObservablePipeExtensionRetry::retry ext rtype=(Me,~Op) on=impl~Me as=retry_observablepipe_retry args=x0
  ensures r == (self, RetryOperator::k_new(x0))
//@end
//@fn rx_core_operator_scan OperatorComposeExtensionScan::scan ext rtype=(Me,~Op) on=impl~Me as=scan_operatorcompose_scan args=x0,x1
  ensures r == (self, ScanOperator::k_new(x0, x1))
//@end
//@fn rx_core_operator_scan ObservablePipeExtensionScan::scan ext rtype=(Me,~Op) on=impl~Me as=scan_observablepipe_scan args=x0,x1
  ensures r == (self, ScanOperator::k_new(x0, x1))
//@end
//@fn rx_core_operator_share ObservablePipeExtensionShare::share ext rtype=(Me,~Op) on=impl~Me as=share_observablepipe_share args=x0
  ensures r == (self, ShareOperator::k_new(x0))
//@end
//@fn rx_core_operator_skip OperatorComposeExtensionSkip::skip ext rtype=(Me,~Op) on=impl~Me as=skip_operatorcompose_skip args=x0
  ensures r == (self, SkipOperator::k_new(x0))
//@end
//@fn rx_core_operator_skip ObservablePipeExtensionSkip::skip ext rtype=(Me,~Op) on=impl~Me as=skip_observablepipe_skip args=x0
  ensures r == (self, SkipOperator::k_new(x0))
//@end
//@fn rx_core_operator_start_with OperatorComposeExtensionStartWith::start_with ext rtype=(Me,~Op) on=impl~Me as=start_with_operatorcompose_startwith args=x0
  ensures r == (self, StartWithOperator::k_new(x0))
//@end
//@fn rx_core_operator_start_with ObservablePipeExtensionStartWith::start_with ext rtype=(Me,~Op) on=impl~Me as=start_with_observablepipe_startwith args=x0
  ensures r == (self, StartWithOperator::k_new(x0))
//@end
//@fn rx_core_operator_subscribe_on ObservablePipeExtensionSubscribeOn::subscribe_on_with_delay ext rtype=(Me,~Op) on=impl~Me as=subscribe_on_with_delay_observablepipe_subscribeon args=x0,x1
  ensures r == (self, SubscribeOnOperator::k_new(x0, x1))
//@end
//@fn rx_core_operator_switch_all OperatorComposeExtensionSwitchAll::switch_all ext rtype=(Me,~Op) on=impl~Me as=switch_all_operatorcompose_switchall args=x0
  ensures r == (self, SwitchAllOperator::k_new(x0))
//@end
//@fn rx_core_operator_switch_all ObservablePipeExtensionSwitchAll::switch_all ext rtype=(Me,~Op) on=impl~Me as=switch_all_observablepipe_switchall args=x0
  ensures r == (self, SwitchAllOperator::k_new(x0))
//@end
//@fn rx_core_operator_switch_map OperatorComposeExtensionSwitchMap::switch_map ext rtype=(Me,~Op) on=impl~Me as=switch_map_operatorcompose_switchmap args=x0,x1
  ensures r == (self, SwitchMapOperator::k_new(x0, x1))
//@end
//@fn rx_core_operator_switch_map ObservablePipeExtensionSwitchMap::switch_map ext rtype=(Me,~Op) on=impl~Me as=switch_map_observablepipe_switchmap args=x0,x1
  ensures r == (self, SwitchMapOperator::k_new(x0, x1))
//@end
//@fn rx_core_operator_take OperatorComposeExtensionTake::take ext rtype=(Me,~Op) on=impl~Me as=take_operatorcompose_take args=x0
  ensures r == (self, TakeOperator::k_new(x0))
//@end
//@fn rx_core_operator_take ObservablePipeExtensionTake::take ext rtype=(Me,~Op) on=impl~Me as=take_observablepipe_take args=x0
  ensures r == (self, TakeOperator::k_new(x0))
//@end
//@fn rx_core_operator_tap OperatorComposeExtensionTap::tap ext rtype=(Me,~Op) on=impl~Me as=tap_operatorcompose_tap args=x0
  ensures r == (self, TapOperator::k_new(x0))
//@end
//@fn rx_core_operator_tap ObservablePipeExtensionTap::tap ext rtype=(Me,~Op) on=impl~Me as=tap_observablepipe_tap args=x0
  ensures r == (self, TapOperator::k_new(x0))
//@end
//@fn rx_core_operator_tap_next OperatorComposeExtensionTapNext::tap_next ext rtype=(Me,~Op) on=impl~Me as=tap_next_operatorcompose_tapnext args=x0
  ensures r == (self, TapNextOperator::k_new(x0))
//@end
//@fn rx_core_operator_tap_next ObservablePipeExtensionTapNext::tap_next ext rtype=(Me,~Op) on=impl~Me as=tap_next_observablepipe_tapnext args=x0
  ensures r == (self, TapNextOperator::k_new(x0))
//@end
//@fn rx_core_operator_throttle_time OperatorComposeExtensionThrottleTime::throttle_time ext rtype=(Me,~Op) on=impl~Me as=throttle_time_operatorcompose_throttletime args=x0,x1
  ensures r == (self, ThrottleTimeOperator::k_new_with_options(x0, x1))
//@end
//@fn rx_core_operator_throttle_time ObservablePipeExtensionThrottleTime::throttle_time ext rtype=(Me,~Op) on=impl~Me as=throttle_time_observablepipe_throttletime args=x0,x1
  ensures r == (self, ThrottleTimeOperator::k_new_with_options(x0, x1))
//@end
//@fn rx_core_operator_with_latest_from OperatorComposeExtensionWithLatestFrom::with_latest_from ext rtype=(Me,~Op) on=impl~Me as=with_latest_from_operatorcompose_withlatestfrom args=x0
  ensures r == (self, WithLatestFromOperator::k_new(x0))
//@end
//@fn rx_core_operator_with_latest_from ObservablePipeExtensionWithLatestFrom::with_latest_from ext rtype=(Me,~Op) on=impl~Me as=with_latest_from_observablepipe_withlatestfrom args=x0
  ensures r == (self, WithLatestFromOperator::k_new(x0))
//@end
pub struct Zero;
//@replace Duration :: ZERO => Zero
impl Me {
    #[verifier::external_body]
    pub fn subscribe_on_with_delay<D, S>(self, d: D, s: S) -> (r: (Me, Op)) ensures r == (self, SubscribeOnOperator::k_new(d, s)) { unimplemented!() }
}
//@fn rx_core_operator_subscribe_on ObservablePipeExtensionSubscribeOn::subscribe_on ext rtype=(Me,~Op) on=impl~Me as=subscribe_on_at_once args=s
  ensures r == (self, SubscribeOnOperator::k_new(Zero, s))
//@end
} // verus!
fn main() {}
