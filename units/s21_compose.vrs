//@include prelude.vrs
verus! {
// Wrappers are transparent: every call made on one is exactly that one call on what it wraps.
/// one call
pub enum Call<I, E> { Next(I), Error(E), Complete, Unsub, Add(Teardown), New }
/// (uninterpreted) `b` is what the call made of `a`
pub uninterp spec fn did<T: Tri>(a: T, b: T, c: Call<T::In, T::InError>) -> bool;
pub uninterp spec fn shut<T>(a: T) -> bool;
pub trait Tri: Sized { type In; type InError; }
pub trait Tr: Tri {
    #[verifier::external_body]
    fn next(&mut self, x: Self::In) ensures did(*old(self), *final(self), Call::Next(x)) { unimplemented!() }
    #[verifier::external_body]
    fn error(&mut self, x: Self::InError) ensures did(*old(self), *final(self), Call::Error(x)) { unimplemented!() }
    #[verifier::external_body]
    fn complete(&mut self) ensures did(*old(self), *final(self), Call::Complete) { unimplemented!() }
    #[verifier::external_body]
    fn unsubscribe(&mut self) ensures did(*old(self), *final(self), Call::Unsub) { unimplemented!() }
    #[verifier::external_body]
    fn is_closed(&self) -> (r: bool) ensures r == shut(*self) { unimplemented!() }
    #[verifier::external_body]
    fn add_teardown(&mut self, t: Teardown) ensures did(*old(self), *final(self), Call::Add(t)) { unimplemented!() }
    fn deref(&self) -> (r: &Self) ensures *r == *self { self }
    fn deref_mut(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self) { self }
}
/// operators, and what subscribing through one gave
pub trait ComposableOperator: Sized {
    type In; type InError; type Out; type OutError;
    #[verifier::external_body]
    fn operator_subscribe<D>(&mut self, d: D) -> (r: OpSub<Self, D>) ensures made(*old(self), d, *final(self), r), r.of() == d { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(O)]
#[verifier::reject_recursive_types(D)]
pub struct OpSub<O, D> { x: PhantomData<(O, D)> }
/// what it was subscribed with
impl<O, D> OpSub<O, D> { pub uninterp spec fn of(&self) -> D; }
impl<O: ComposableOperator, D> Tri for OpSub<O, D> { type In = O::In; type InError = O::InError; }
impl<O: ComposableOperator, D> Tr for OpSub<O, D> {}
pub uninterp spec fn made<O, D, R>(a: O, d: D, b: O, r: R) -> bool;
//@replace Box < dyn SubscriptionWithTeardown + Send + Sync + 'static > => BxS
//@replace S : SubscriptionWithTeardown + Send + Sync + 'static => S : Tr
//@replace dyn FnMut (ErasedSubscriber < Out , OutError >) -> ErasedSubscription + Send + Sync => Dy < Out , OutError >
//@replace 'static + =>
//@replace + Send + Sync =>
//@replace PrevOp :: Subscriber < Op :: Subscriber < Destination >> => OpSub < PrevOp , OpSub < Op , Destination > >
//@replace PrevOp :: Subscriber < Op :: Subscriber < Destination > > => OpSub < PrevOp , OpSub < Op , Destination > >
//@replace Op :: Subscriber < Destination > => OpSub < Op , Destination >
//@replace PhantomInvariant => PhantomData
//@replace SubscriptionLike :: is_closed (self) => self . is_closed ()
//@replace SubscriptionLike :: unsubscribe (self) => self . unsubscribe ()
//@replace Source :: Subscription < < Op as ComposableOperator > :: Subscriber < < Destination as UpgradeableObserver > :: Upgraded > > => Sbn < Source , OpSub < Op , Destination :: Upgraded > >
//@replace RxObserver => Tr
//@replace TeardownCollection => Tr
//@replace SubscriptionLike => Tr
//@replace : Subscriber => : Tr
//@macro ALL CRATE TY F
//@fn $CRATE $TY::next args=x
  ensures did(old(self).$F, final(self).$F, Call::Next(x))
//@end
//@fn $CRATE $TY::error args=x
  ensures did(old(self).$F, final(self).$F, Call::Error(x))
//@end
//@fn $CRATE $TY::complete
  ensures did(old(self).$F, final(self).$F, Call::Complete)
//@end
//@fn $CRATE $TY::unsubscribe
  ensures did(old(self).$F, final(self).$F, Call::Unsub)
//@end
//@fn $CRATE $TY::is_closed
  ensures r == shut(self.$F)
//@end
//@fn $CRATE $TY::add_teardown args=t
  ensures did(old(self).$F, final(self).$F, Call::Add(t))
//@end
//@fn $CRATE $TY::drop as=vf_drop
  ensures if shut(old(self).$F) { final(self).$F == old(self).$F } else { did(old(self).$F, final(self).$F, Call::Unsub) }
//@end
//@endmacro
// ---------------------------------------------------------------- composite
//@struct rx_core_operator_composite CompositeSubscriber
//@fn rx_core_operator_composite CompositeSubscriber::new args=d
  ensures r.subscriber == d
//@end
//@use ALL rx_core_operator_composite CompositeSubscriber subscriber
//@struct rx_core_operator_composite CompositeOperator
//@fn rx_core_operator_composite CompositeOperator::new args=a,b
  ensures r.prev_op == a, r.op == b
//@end
/// the first operator, subscribed with the second one, subscribed with the destination
//@fn rx_core_operator_composite CompositeOperator::operator_subscribe
  ensures r.subscriber.of().of() == destination, made(old(self).op, destination, final(self).op, r.subscriber.of()), made(old(self).prev_op, r.subscriber.of(), final(self).prev_op, r.subscriber)
//@end
// ---------------------------------------------------------------- identity
//@struct rx_core_operator_identity IdentitySubscriber
//@fn rx_core_operator_identity IdentitySubscriber::new args=d
  ensures r.destination == d
//@end
//@use ALL rx_core_operator_identity IdentitySubscriber destination
//@struct rx_core_operator_identity IdentityOperator
//@fn rx_core_operator_identity IdentityOperator::operator_subscribe args=d
  ensures r.destination == d, *final(self) == *old(self)
//@end
// ---------------------------------------------------------------- erased subscriber
/// Box<dyn Subscriber> and what is in it
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(E)]
pub struct Bx<I, E> { x: PhantomData<(I, E)> }
pub uninterp spec fn boxes<T, I, E>(b: Bx<I, E>, t: T) -> bool;
#[verifier::external_body]
pub fn vf_box<D: Tr>(d: D) -> (r: Bx<D::In, D::InError>) ensures boxes(r, d) { unimplemented!() }
impl<I, E> Tri for Bx<I, E> { type In = I; type InError = E; }
impl<I, E> Tr for Bx<I, E> {}
//@replace BoxedSubscriber < => Bx <
//@replace Box :: new => vf_box
//@struct rx_core_common ErasedSubscriber
//@fn rx_core_common ErasedSubscriber::new args=d
  ensures boxes(r.destination, d)
//@end
//@use ALL rx_core_common ErasedSubscriber destination
// ---------------------------------------------------------------- erased and optional subscriptions
#[verifier::external_body]
pub struct BxS { x: u8 }
pub uninterp spec fn boxes_s<T>(b: BxS, t: T) -> bool;
#[verifier::external_body]
pub fn vf_box_s<D: Tr>(d: D) -> (r: BxS) ensures boxes_s(r, d) { unimplemented!() }
impl Tri for BxS { type In = (); type InError = (); }
impl Tr for BxS {}
//@replace vf_box (subscription) => vf_box_s (subscription)
//@replace S : SubscriptionWithTeardown => S : Tr
//@struct rx_core_common ErasedSubscription
//@fn rx_core_common ErasedSubscription::new args=d
  ensures boxes_s(r.subscription, d)
//@end
//@macro SUB CRATE TY F
//@fn $CRATE $TY::unsubscribe
  ensures did(old(self).$F, final(self).$F, Call::Unsub)
//@end
//@fn $CRATE $TY::is_closed
  ensures r == shut(self.$F)
//@end
//@fn $CRATE $TY::add_teardown args=t
  ensures did(old(self).$F, final(self).$F, Call::Add(t))
//@end
//@endmacro
//@use SUB rx_core_common ErasedSubscription subscription
//@fn rx_core_common ErasedSubscription::drop as=vf_drop
  ensures if shut(old(self).subscription) { final(self).subscription == old(self).subscription } else { did(old(self).subscription, final(self).subscription, Call::Unsub) }
//@end
//@struct rx_core_common OptionSubscription
impl Teardown { #[verifier::external_body] pub fn execute(self) { unimplemented!() } }
/// the call on what is there; nothing otherwise
pub open spec fn did_opt<T: Tri>(a: Option<T>, b: Option<T>, c: Call<T::In, T::InError>) -> bool { match a { Some(x) => b matches Some(y) && did(x, y, c), None => b is None } }
//@fn rx_core_common OptionSubscription::new args=s
  ensures r.subscription == s
//@end
//@fn rx_core_common OptionSubscription::unsubscribe
  ensures did_opt(old(self).subscription, final(self).subscription, Call::Unsub)
//@end
//@fn rx_core_common OptionSubscription::is_closed
  ensures r == match self.subscription { Some(s) => shut(s), None => true }
//@end
//@fn rx_core_common OptionSubscription::add_teardown args=t
  ensures did_opt(old(self).subscription, final(self).subscription, Call::Add(t))
//@end
//@fn rx_core_common OptionSubscription::drop as=vf_drop
  ensures did_opt(old(self).subscription, final(self).subscription, Call::Unsub)
//@end
// ---------------------------------------------------------------- optional operators
//@enum rx_core_common OptionSubscriber
/// the call on whichever is there
pub open spec fn did_either<S: Tr, D: Tr<In = S::In, InError = S::InError>>(a: OptionSubscriber<S, D>, b: OptionSubscriber<S, D>, c: Call<S::In, S::InError>) -> bool {
    match a { OptionSubscriber::Some(x) => b matches OptionSubscriber::Some(y) && did(x, y, c), OptionSubscriber::None(x) => b matches OptionSubscriber::None(y) && did(x, y, c) } }
//@macro EITHER FN A C
//@fn rx_core_common OptionSubscriber::$FN $A
  ensures did_either(*old(self), *final(self), $C)
//@end
//@endmacro
//@use EITHER next args=x Call::Next(x)
//@use EITHER error args=x Call::Error(x)
//@use EITHER complete ret=r Call::Complete
//@use EITHER unsubscribe ret=r Call::Unsub
//@use EITHER add_teardown args=t Call::Add(t)
//@fn rx_core_common OptionSubscriber::is_closed
  ensures r == match *self { OptionSubscriber::Some(x) => shut(x), OptionSubscriber::None(x) => shut(x) }
//@end
// ---------------------------------------------------------------- pipe
/// sources, and what subscribing to one gave
pub trait Observable: Sized {
    type Out; type OutError;
    #[verifier::external_body]
    fn subscribe<D>(&mut self, d: D) -> (r: Sbn<Self, D>) ensures made(*old(self), d, *final(self), r), r.of() == d { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(O)]
#[verifier::reject_recursive_types(D)]
pub struct Sbn<O, D> { x: PhantomData<(O, D)> }
impl<O, D> Sbn<O, D> { pub uninterp spec fn of(&self) -> D; }
pub trait UpgradeableObserver: Tri {
    type Upgraded: Tr<In = Self::In, InError = Self::InError>;
    spec fn up(self) -> Self::Upgraded;
    fn upgrade(self) -> (r: Self::Upgraded) ensures r == self.up();
}
//@replace Op : 'static + => Op :
//@replace fn subscribe < Destination > => fn subscribe < Destination : UpgradeableObserver >
//@struct rx_core_common Pipe
//@fn rx_core_common Pipe::new args=s,o
  ensures r.source_observable == s, r.operator == o
//@end
/// the source, subscribed with the operator, subscribed with the upgraded destination
//@fn rx_core_common Pipe::subscribe args=d
  ensures r.of().of() == d.up(), made(old(self).operator, d.up(), final(self).operator, r.of()), made(old(self).source_observable, r.of(), final(self).source_observable, r)
//@end
// ---------------------------------------------------------------- optional observers and operators
pub mod opt {
use super::*;
/// stands for std's Option, on which the code has its own methods
pub enum Opt<T> { Some(T), None }
use Opt::{Some, None};
/// the call on what is there; nothing otherwise
pub open spec fn did_o<T: Tri>(a: Opt<T>, b: Opt<T>, c: Call<T::In, T::InError>) -> bool { match a { Opt::Some(x) => match b { Opt::Some(y) => did(x, y, c), _ => false }, Opt::None => b is None } }
impl<O: Tri> Tri for Opt<O> { type In = O::In; type InError = O::InError; }
//@replace Option < O > => Opt < O >
//@replace Option < Op > => Opt < Op >
//@macro ON FN A C
//@fn rx_core_common Option::$FN $A
  ensures did_o(*old(self), *final(self), $C)
//@end
//@endmacro
//@use ON next args=x Call::Next(x)
//@use ON complete ret=r Call::Complete
//@use ON unsubscribe ret=r Call::Unsub
//@use ON add_teardown args=t Call::Add(t)
//@fn rx_core_common Option::is_closed
  ensures r == match *self { Opt::Some(x) => shut(x), Opt::None => true }
//@end
//@replace In = O :: Out , InError = O :: OutError => In = Op :: Out , InError = Op :: OutError
/// absent: the destination itself
//@fn rx_core_common Option::operator_subscribe args=d
  ensures match *old(self) {
    Opt::Some(op) => match *final(self) { Opt::Some(q) => match r { OptionSubscriber::Some(s) => s.of() == d && made(op, d, q, s), _ => false }, _ => false },
    Opt::None => *final(self) is None && r == OptionSubscriber::<OpSub<Op, Destination>, Destination>::None(d) }
//@end
}
// ---------------------------------------------------------------- Box
pub mod bx {
use super::*;
/// stands for std's Box, on which the code has its own methods
pub struct Bs<S> { pub s: S }
impl<S> Bs<S> {
    pub fn deref(&self) -> (r: &S) ensures *r == self.s { &self.s }
    pub fn deref_mut(&mut self) -> (r: &mut S) ensures *r == old(self).s, final(self).s == *final(r) { &mut self.s }
}
//@replace Box < S > => Bs < S >
//@replace S : ? Sized + Subscriber => S : Tr
//@use SUB rx_core_common Box s
//@fn rx_core_common Box::next args=x
  ensures did(old(self).s, final(self).s, Call::Next(x))
//@end
//@fn rx_core_common Box::error args=x
  ensures did(old(self).s, final(self).s, Call::Error(x))
//@end
//@fn rx_core_common Box::complete
  ensures did(old(self).s, final(self).s, Call::Complete)
//@end
}
// ---------------------------------------------------------------- erased observables
/// dyn FnMut(ErasedSubscriber) -> ErasedSubscription, and which closure it is
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(E)]
pub struct Dy<I, E> { x: PhantomData<(I, E)> }
pub uninterp spec fn is_dyn<C, I, E>(d: Dy<I, E>, c: C) -> bool;
#[verifier::external_body]
pub fn vf_dyn<O: Observable>(c: ErC<O>) -> (r: Lk<Dy<O::Out, O::OutError>>) ensures is_dyn(r@, c) { unimplemented!() }
impl<I, E> Dy<I, E> {
    #[verifier::external_body]
    pub fn call(&mut self, d: ErasedSubscriber<I, E>) -> (r: ErasedSubscription) ensures given(r) == d, made(*old(self), d, *final(self), r) { unimplemented!() }
}
/// (ghost) what it was called with
pub uninterp spec fn given<I, E>(r: ErasedSubscription) -> ErasedSubscriber<I, E>;
impl<T> Lk<T> { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.cell() == self.cell() { unimplemented!() } }
impl<O, D> Tri for Sbn<O, D> { type In = (); type InError = (); }
impl<O, D> Tr for Sbn<O, D> {}
//@replace subscribe : Lk :: new => subscribe : vf_dyn
//@replace (subscribe) ( => subscribe . call (
//@struct rx_core_common ErasedObservable
pub struct ErC<O: Observable> { pub observable: O }
/// one subscription of the erased observable, erased
//@fn rx_core_common ErasedObservable::new as=run closure=0 chead=impl<O:Observable>~ErC<O> caps=observable ptypes=ErasedSubscriber<O::Out,O::OutError> rtype=ErasedSubscription cmut
  ensures exists|s: Sbn<O, ErasedSubscriber<O::Out, O::OutError>>| #[trigger] boxes_s(r.subscription, s) && s.of() == vf_a0 && made(old(self).observable, vf_a0, final(self).observable, s)
//@end
//@fn rx_core_common ErasedObservable::new lift=0:ErC:observable args=o
  ensures is_dyn(r.subscribe@, ErC { observable: o })
//@end
//@fn rx_core_common ErasedObservable::clone
  ensures r.subscribe.cell() == self.subscribe.cell()
//@end
//@replace fn subscribe < Destination : UpgradeableObserver > => fn subscribe < Destination : UpgradeableObserver < In = Out , InError = OutError > >
/// exactly one subscription, with the upgraded destination, erased
//@fn rx_core_common ErasedObservable::subscribe args=d
  ensures boxes(given::<Out, OutError>(r).destination, d.up()), made(old(self).subscribe@, given::<Out, OutError>(r), final(self).subscribe@, r)
//@end
} // verus!
fn main() {}
