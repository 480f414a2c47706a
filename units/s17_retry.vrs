//@include prelude.vrs
verus! {
broadcast use {vp::grp};
pub trait Observable: Sized { type Out; type OutError; }
pub trait Signal {}
impl<T> Lk<T> { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.cell() == self.cell(), r@ == self@ { unimplemented!() } }
// ---- stand-ins
/// the output (S08); a consumer may close it whenever it is called
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Shr<D> { x: PhantomData<D> }
impl<D: ObserverInput> Shr<D> {
    pub uninterp spec fn sent(&self) -> Seq<Ev<D::In, D::InError>>;
    pub uninterp spec fn shut(&self) -> bool;
    pub open spec fn with(&self, e: Ev<D::In, D::InError>) -> Seq<Ev<D::In, D::InError>> { if self.shut() { self.sent() } else { self.sent().push(e) } }
    /// only a signal and what a consumer may do about it
    pub open spec fn put(&self, f: Self, e: Ev<D::In, D::InError>) -> bool {
        &&& (self.shut() ==> f.shut()) && pfx(self.with(e), f.sent()) && quiet(self.with(e), f.sent())
        &&& (self.shut() ==> f.sent() == self.sent())
        &&& (!(e is Next) ==> f.shut() && f.sent() == self.with(e))
    }
    #[verifier::external_body]
    pub fn new(d: D) -> (r: Self) ensures r.sent() == d.log(), r.shut() == (d.closed() || has_term(d.log())) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn is_closed(&self) -> (r: bool) ensures r == self.shut() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self, x: D::In) ensures old(self).put(*final(self), Ev::Next(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn error(&mut self, x: D::InError) ensures old(self).put(*final(self), Ev::Error(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn complete(&mut self) ensures old(self).put(*final(self), Ev::Complete) { unimplemented!() }
    #[verifier::external_body]
    pub fn unsubscribe(&mut self) ensures old(self).put(*final(self), Ev::Unsub) { unimplemented!() }
}
/// no error among what was added
pub open spec fn quiet<T, E>(a: Seq<Ev<T, E>>, b: Seq<Ev<T, E>>) -> bool { forall|i: int| a.len() <= i < b.len() ==> !((#[trigger] b[i]) is Error) }
pub open spec fn grew<D: ObserverInput>(a: Shr<D>, b: Shr<D>) -> bool { pfx(a.sent(), b.sent()) && quiet(a.sent(), b.sent()) && (a.shut() ==> b.shut() && b.sent() == a.sent()) }
/// a subscription (S06)
#[verifier::external_body]
pub struct Sub { x: u8 }
impl Sub {
    pub uninterp spec fn closed(&self) -> bool;
    #[verifier::external_body]
    pub fn vf_new() -> (r: Self) ensures !r.closed() { unimplemented!() }
    #[verifier::external_body]
    pub fn new(s: Sub) -> (r: Self) ensures r.closed() == s.closed() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.closed() == self.closed() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_closed(&self) -> (r: bool) ensures r == self.closed() { unimplemented!() }
    #[verifier::external_body]
    pub fn unsubscribe<D: ObserverInput>(&mut self, d: &mut Shr<D>) ensures final(self).closed(), grew(*old(d), *final(d)) { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&mut self, t: Lk<Option<Sub>>) ensures final(self).closed() == old(self).closed() { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_on_unsubscribe<D: ObserverInput>(&mut self, t: Shr<D>) ensures final(self).closed() == old(self).closed() { unimplemented!() }
}
//@replace SharedSubscriber < Destination > => Shr < Destination >
//@replace SharedSubscriber :: new => Shr :: new
//@replace SharedSubscription :: default () => Sub :: vf_new ()
//@replace SharedSubscription => Sub
/// how each subscription to it so far ended while it was being made: Some(e) failed with e
pub uninterp spec fn tries<S: Observable>(s: S) -> Seq<Option<S::OutError>>;
/// subscribing: the attempt may deliver values, complete, or fail (it then only records its error, contract of
/// RetrySubscriber::error below); an earlier attempt has to be gone
pub trait VfSubscribe: Observable {
    #[verifier::external_body]
    fn subscribe<D: Subscriber<In = Self::Out, InError = Self::OutError>>(&mut self, x: RetrySubscriber<Self, D>, c: &mut Lk<Option<Self::OutError>>, l: &mut Lk<Option<Sub>>, d: &mut Shr<D>) -> (r: Sub)
        requires x.waits(), old(c)@ is None, old(l)@ is None, x.to() == *old(d), !x.over()
        ensures final(c).cell() == old(c).cell(), final(l).cell() == old(l).cell(), final(l)@ is None,
          tries(*final(self)) == tries(*old(self)).push(final(c)@), grew(*old(d), *final(d)) { unimplemented!() }
}
impl<O: Observable> VfSubscribe for O {}
/// all but the last attempt of the new ones failed
pub open spec fn failing<E>(a: Seq<Option<E>>, b: Seq<Option<E>>) -> bool { pfx(a, b) && forall|i: int| a.len() <= i < b.len() - 1 ==> (#[trigger] b[i]) is Some }
/// the error of the last attempt that failed
pub open spec fn last_err<E>(h: Seq<Option<E>>, from: nat, e: E) -> E
{ if h.len() <= from { e } else if h.last() is Some { h.last()->0 } else if h.len() - 1 <= from { e } else { h[h.len() - 2]->0 } }
pub open spec fn ended<D: ObserverInput>(a: Shr<D>, b: Shr<D>, e: D::InError) -> bool
{ b.shut() && exists|m: Shr<D>| #[trigger] grew(a, m) && b.sent() == m.with(Ev::Error(e)) }
//@replace : & str = => : & 'static str =
//@const rx_core_operator_retry SOURCE_STEAL
//@struct rx_core_operator_retry RetrySubscriber
//@spec rx_core_operator_retry RetrySubscriber
    /// the source is in the hands of whoever subscribes to it
    pub closed spec fn waits(&self) -> bool { self.source@ is None }
    pub closed spec fn src(&self) -> Option<Source> { self.source@ }
    pub closed spec fn to(&self) -> Shr<Destination> { self.destination }
    pub closed spec fn over(&self) -> bool { self.attempt_ended }
    pub closed spec fn used(&self) -> nat { self.retries as nat }
    pub closed spec fn most(&self) -> nat { self.max_retries as nat }
    pub closed spec fn caught(&self) -> Option<Source::OutError> { self.caught_error@ }
    pub open spec fn hist(&self) -> Seq<Option<Source::OutError>> { tries(self.src()->0) }
//@end
//@fn rx_core_operator_retry RetrySubscriber::new args=source,destination,max_retries,retries,outer,last,caught
  ensures r.src() == source@, r.to() == destination, !r.over(), r.used() == retries, r.most() == max_retries, r.caught() == caught@
//@end
/// every value of the attempt goes on
//@fn rx_core_operator_retry RetrySubscriber::next args=x env=unsubscribe,@outer_subscription:&mut~self.destination
  ensures pfx(old(self).to().with(Ev::Next(x)), final(self).to().sent()), quiet(old(self).to().sent(), final(self).to().sent())
//@end
/// a failing attempt: new ones, at most as many as are allowed, each only after the one before failed; the last error is passed on
//@fn rx_core_operator_retry RetrySubscriber::error args=e env=subscribe,%stolen_source:(&mut~self.caught_error,&mut~self.last_subscription,&mut~self.destination) env2=unsubscribe,@outer_subscription,%last_subscription:&mut~self.destination
  requires old(self).most() < usize::MAX
  ensures final(self).over(),
    old(self).src() is None ==> final(self).src() is None && final(self).to() == old(self).to() && final(self).caught() == Some(e),
    old(self).src() is Some ==> final(self).src() is Some && failing(old(self).hist(), final(self).hist())
      && final(self).hist().len() - old(self).hist().len() <= (if old(self).used() > old(self).most() { 0int } else { old(self).most() + 1 - old(self).used() })
      && (grew(old(self).to(), final(self).to()) && final(self).hist().len() > old(self).hist().len() && final(self).hist().last() is None
          || ended(old(self).to(), final(self).to(), last_err(final(self).hist(), old(self).hist().len(), e)))
//@@loop 0
invariant
    old(self).src() is Some, self.src() is Some, failing(old(self).hist(), self.hist()), self.most() == old(self).most(), self.used() >= old(self).used(), self.over(),
    self.hist().len() - old(self).hist().len() == self.used() - old(self).used(), old(self).used() > old(self).most() ==> self.used() == old(self).used(),
    old(self).used() <= self.most() ==> self.used() <= self.most() + 1,
    self.used() <= self.most() ==> (forall|i: int| old(self).hist().len() <= i < self.hist().len() ==> (#[trigger] self.hist()[i]) is Some),
    error == last_err(self.hist(), old(self).hist().len(), e), grew(old(self).to(), self.to()), old(self).most() < usize::MAX
decreases self.most() + 1 - self.used()
//@@at self . destination . error (error)
let ghost m = self.destination;
//@@end
proof { if old(self).src() is Some { assert(grew(old(self).to(), m)); } }
//@end
//@fn rx_core_operator_retry RetrySubscriber::complete env=unsubscribe,@outer_subscription:&mut~self.destination
  ensures final(self).over(), final(self).src() == old(self).src(), final(self).to().shut(), final(self).to().sent() == old(self).to().with(Ev::Complete)
//@end
//@fn rx_core_operator_retry RetrySubscriber::is_closed
  ensures r == self.to().shut()
//@end
/// releasing an attempt that is over changes nothing
//@fn rx_core_operator_retry RetrySubscriber::unsubscribe env=unsubscribe,@outer_subscription:&mut~self.destination
  ensures final(self).over(), final(self).src() == old(self).src(), old(self).over() ==> final(self).to() == old(self).to(), grew(old(self).to(), final(self).to()), !old(self).over() ==> final(self).to().shut()
//@end
//@replace & 'o Source => Source
//@replace let caught_error = Lk => let mut caught_error = Lk
//@replace let last_subscription = Lk => let mut last_subscription = Lk
//@replace RetryObservable < 'o , Source > => RetryObservable < Source >
//@replace subscribe < Destination > => subscribe < Destination : Subscriber < In = Source :: Out , InError = Source :: OutError > >
//@replace destination . upgrade () => destination
//@replace Self :: Subscription < Destination :: Upgraded > => Sub
//@replace . add_fn (move | | destination_on_unsubscribe . unsubscribe ()) => . vf_on_unsubscribe (destination_on_unsubscribe)
//@struct rx_core_operator_retry RetryObservable
//@spec rx_core_operator_retry RetryObservable
    pub closed spec fn src(&self) -> Option<Source> { self.source@ }
    pub closed spec fn most(&self) -> nat { self.max_retries as nat }
    pub open spec fn hist(&self) -> Seq<Option<Source::OutError>> { tries(self.src()->0) }
//@end
//@fn rx_core_operator_retry RetryObservable::new args=source,max
  ensures r.src() == Some(source), r.most() == max
//@end
/// one attempt, and as long as each fails at once as many more as are allowed
//@fn rx_core_operator_retry RetryObservable::subscribe args=destination env=subscribe,%stolen_source:(&mut~caught_error,&mut~last_subscription,&mut~shared_destination) env2=unsubscribe,%outer_subscription,%last_subscription:&mut~shared_destination
  requires old(self).src() is Some, old(self).most() < usize::MAX
  ensures final(self).src() is Some, final(self).most() == old(self).most(), failing(old(self).hist(), final(self).hist()),
    1 <= final(self).hist().len() - old(self).hist().len() <= old(self).most() + 1
//@@loop 0
invariant_except_break
    last_subscription@ is None,
    forall|i: int| old(self).hist().len() <= i < self.hist().len() ==> (#[trigger] self.hist()[i]) is Some
invariant
    self.src() is Some, failing(old(self).hist(), self.hist()), self.most() == old(self).most(), old(self).most() < usize::MAX,
    self.hist().len() - old(self).hist().len() == immediate_retries, immediate_retries <= self.most() + 1,
    immediate_retries > 0 ==> caught_error@ == self.hist().last(), grew(d0, shared_destination)
ensures immediate_retries > 0, caught_error@ is Some ==> immediate_retries == self.most() + 1
decreases self.most() + 1 - immediate_retries
//@@at let mut destination_on_unsubscribe
let ghost d0 = shared_destination;
//@@at shared_destination . error (error)
// only the error of the last allowed attempt is passed on
assert(Some(error) == self.hist().last() && immediate_retries == self.most() + 1);
//@end
// ---- the operator
//@replace RetryObservable < 'o , InObservable > => RetryObservable < InObservable >
//@struct rx_core_operator_retry RetryOperator
//@fn rx_core_operator_retry RetryOperator::new args=n
  ensures r.max_retries == n
//@end
//@fn rx_core_operator_retry RetryOperator::operate args=source
  ensures r.src() == Some(source), r.most() == self.max_retries
//@end
} // verus!
fn main() {}
