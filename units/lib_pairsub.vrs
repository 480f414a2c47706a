// Two-input observables: what subscribing does.
verus! {
pub mod ps { use super::*;
/// the pairing subscriber, shared by the two inputs
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
pub struct Shx<X> { x: PhantomData<X> }
pub uninterp spec fn made_of<X>(cell: int) -> X;
impl<X> Shx<X> {
    pub uninterp spec fn cell(&self) -> int;
    #[verifier::external_body]
    pub fn new(x: X) -> (r: Self) ensures made_of::<X>(r.cell()) == x { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.cell() == self.cell() { unimplemented!() }
    /// ending it releases `s`
    #[verifier::external_body]
    pub fn add(&mut self, s: Ss, of: &mut Ss) requires s.cell() == old(of).cell() ensures final(self).cell() == old(self).cell(), final(of).cell() == old(of).cell(), final(of).tds() == old(of).tds(), final(of).kept_by() == final(self).cell() { unimplemented!() }
}
/// SharedSubscription: what it releases, and who releases it
#[verifier::external_body]
pub struct Ss { x: u8 }
impl Ss {
    pub uninterp spec fn cell(&self) -> int;
    pub uninterp spec fn kept_by(&self) -> int;
    pub uninterp spec fn tds(&self) -> Seq<Teardown>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.tds() == Seq::<Teardown>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.cell() == self.cell() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_teardown(&mut self, t: Teardown) ensures final(self).tds() == old(self).tds().push(t), final(self).cell() == old(self).cell(), final(self).kept_by() == old(self).kept_by() { unimplemented!() }
}
/// the subscriber one input gets (`EitherSubscriber2`): which side it stands for, where it leads
pub trait Side { spec fn side() -> int; }
impl<O1: ObservableOutput, O2: ObservableOutput> Side for EitherNotificationSelector1Of2<O1, O2> { open spec fn side() -> int { 1 } }
impl<O1: ObservableOutput, O2: ObservableOutput> Side for EitherNotificationSelector2Of2<O1, O2> { open spec fn side() -> int { 2 } }
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(D)]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
pub struct Eth<S, D, A, B> { x: PhantomData<(S, D, A, B)> }
impl<S, D, A, B> Eth<S, D, A, B> {
    pub uninterp spec fn to(&self) -> D;
    #[verifier::external_body]
    pub fn new(d: D) -> (r: Self) ensures r.to() == d { unimplemented!() }
}
/// every subscription it got: for which side, leading to which pairing subscriber
pub uninterp spec fn subd<O>(o: O) -> Seq<(int, int)>;
/// which side's subscription a teardown releases
pub uninterp spec fn td_side(t: Teardown) -> int;
#[verifier::external_body]
pub struct Isb2 { x: u8 }
pub trait VfSub: Sized {
    #[verifier::external_body]
    fn subscribe<S: Side, X, A, B>(&mut self, x: Eth<S, Shx<X>, A, B>) -> (r: Isb2)
        ensures subd(*final(self)) == subd(*old(self)).push((S::side(), x.to().cell())), td_side(conv::<Isb2, Teardown>(r)) == S::side() { unimplemented!() }
}
impl<O: Observable> VfSub for O {}
}
pub use ps::*;
/// one subscription to each input, in order, both leading to the one pairing subscriber; ending that or the result releases both
pub open spec fn paired<A, B>(a0: A, b0: B, a1: A, b1: B, r: Ss) -> bool {
    &&& subd(a1) == subd(a0).push((1, r.kept_by())) && subd(b1) == subd(b0).push((2, r.kept_by()))
    &&& r.tds().len() == 2 && td_side(r.tds()[0]) + td_side(r.tds()[1]) == 3 && td_side(r.tds()[0]) != td_side(r.tds()[1]) }
//@fn rx_core_notification_variadics EitherSubscriber2::new
  ensures r.d() == destination
//@end
//@replace SharedSubscriber :: new => Shx :: new
//@replace SharedSubscription => Ss
//@replace EitherSubscriber2 :: < => Eth :: <
//@replace observer . upgrade () => observer
// ---------------------------------------------------------------- subscribing
//@macro PAIRSUB CRATE OBS SUB OUT
//@struct $CRATE $OBS
//@spec $CRATE $OBS
    pub closed spec fn o1(&self) -> O1 { self.observable_1 }
    pub closed spec fn o2(&self) -> O2 { self.observable_2 }
//@end
//@fn $CRATE $OBS::new args=a,b
  ensures r.o1() == a, r.o2() == b
//@end
//@replace fn subscribe < Destination > => fn subscribe < Destination : Subscriber < In = $OUT , InError = O1 :: OutError > >
//@fn $CRATE $OBS::subscribe args=destination env=add,%shared_subscriber:&mut~subscription
  ensures paired(old(self).o1(), old(self).o2(), final(self).o1(), final(self).o2(), r),
    ({ let s = made_of::<$SUB<Destination, O1, O2>>(r.kept_by()); s.d() == destination && s.inv() && s.sides().0.fresh() && s.sides().1.fresh() })
//@end
//@replace fn subscribe < Destination : Subscriber < In = $OUT , InError = O1 :: OutError > > => fn subscribe < Destination >
//@endmacro
} // verus!
