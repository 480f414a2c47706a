//@include prelude.vrs
verus! {
// filter_map is map followed by lift_option (both proved in s03_map), wired to the destination in that order
#[verifier::external_body]
pub struct Fun { x: u8 }
impl Fun { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// a subscriber: (uninterpreted) what it was made from
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct Sb<A> { x: PhantomData<A> }
impl<A> Sb<A> { pub uninterp spec fn of(&self) -> A; }
pub struct LiftOptionSubscriber;
pub struct MapSubscriber;
pub struct CompositeSubscriber;
impl LiftOptionSubscriber { #[verifier::external_body] pub fn new<D>(d: D) -> (r: Sb<D>) ensures r.of() == d { unimplemented!() } }
impl MapSubscriber { #[verifier::external_body] pub fn new<D>(d: D, f: Fun) -> (r: Sb<(D, Fun)>) ensures r.of() == (d, f) { unimplemented!() } }
impl CompositeSubscriber { #[verifier::external_body] pub fn new<D>(d: D) -> (r: Sb<D>) ensures r.of() == d { unimplemented!() } }
//@known LiftOptionSubscriber::new
//@known MapSubscriber::new
//@known CompositeSubscriber::new
//@struct rx_core_operator_filter_map FilterMapOperator only=mapper:Fun
//@fn rx_core_operator_filter_map FilterMapOperator::operator_subscribe nobounds ext rtype=Sb<Sb<(Sb<VfA0>,Fun)>> args=d
  ensures r.of().of().0.of() == d, r.of().of().1 == old(self).mapper, final(self).mapper == old(self).mapper
//@end
} // verus!
fn main() {}
