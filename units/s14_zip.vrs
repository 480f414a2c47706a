//@include prelude.vrs
//@include lib_pair.vrs
verus! {
broadcast use {vp::grp, pr::ax_clone};
use std::collections::VecDeque;
impl<T> VfIt<T> {
    #[verifier::external_body]
    pub fn rev(self) -> (r: VfIt<T>) ensures r.rem() == self.rem().reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VfIt<(usize, T)>) requires self.rem().len() <= usize::MAX ensures r.rem() == Seq::new(self.rem().len(), |i: int| (i as usize, self.rem()[i])) { unimplemented!() }
}
impl<T> VfIntoIt for VfIt<T> { type T = T; open spec fn vf_items(&self) -> Seq<T> { self.rem() } #[verifier::external_body] fn vf_it(self) -> (r: VfIt<T>) { unimplemented!() } }
#[verifier::external_body]
pub fn vf_refs<'a, T>(q: &'a VecDeque<T>) -> (r: VfIt<&'a T>) ensures r.rem() == Seq::new(q@.len(), |i: int| &q@[i]), q@.len() <= usize::MAX { unimplemented!() }
#[verifier::external_body]
pub fn vf_dq_remove<T>(q: &mut VecDeque<T>, i: usize) -> (r: Option<T>) ensures final(q)@ == if i < old(q)@.len() { old(q)@.remove(i as int) } else { old(q)@ } { unimplemented!() }
#[verifier::external_body]
pub fn vf_dq_front<'a, T>(q: &'a VecDeque<T>) -> (r: Option<&'a T>) ensures r == if q@.len() > 0 { Some(&q@[0]) } else { None } { unimplemented!() }
#[verifier::external_body]
pub fn vf_dq_with_capacity<T>(n: usize) -> (r: VecDeque<T>) ensures r@ == s0::<T>() { unimplemented!() }
//@replace self . queue . iter () => vf_refs (& self . queue)
//@replace self . queue . front () => vf_dq_front (& self . queue)
//@replace self . queue . is_empty () => (self . queue . len () == 0)
//@replace self . queue . remove (oldest_next_index) => vf_dq_remove (& mut self . queue , oldest_next_index)
//@replace VecDeque :: with_capacity => vf_dq_with_capacity

pub open spec fn nx<I, E>(n: SubscriberNotification<I, E>) -> bool { n is Next }
/// how many values are waiting
pub open spec fn cn<I, E>(q: Seq<SubscriberNotification<I, E>>) -> nat decreases q.len() { if q.len() == 0 { 0 } else { cn(q.drop_last()) + if q.last() is Next { 1nat } else { 0nat } } }
/// no value comes after an end
pub open spec fn shape<I, E>(q: Seq<SubscriberNotification<I, E>>) -> bool { forall|i: int, j: int| 0 <= i < j < q.len() && q[j] is Next ==> #[trigger] q[i] is Next && #[trigger] q[j] is Next }
pub open spec fn open<I, E>(q: Seq<SubscriberNotification<I, E>>) -> bool { forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] is Next }
pub proof fn lem_cn<I, E>(q: Seq<SubscriberNotification<I, E>>)
    ensures cn(q) <= q.len(), open(q) ==> cn(q) == q.len(), cn(q) > 0 <==> exists|i: int| 0 <= i < q.len() && #[trigger] q[i] is Next
    decreases q.len()
{ if q.len() > 0 { lem_cn(q.drop_last()); let p = q.drop_last();
    assert(forall|i: int| 0 <= i < p.len() ==> p[i] == q[i]);
    if cn(q) > 0 && !(q.last() is Next) { let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] is Next; assert(q[i] is Next); }
    if exists|i: int| 0 <= i < q.len() && #[trigger] q[i] is Next { let i = choose|i: int| 0 <= i < q.len() && #[trigger] q[i] is Next; if i < p.len() { assert(p[i] is Next); } }
} }
//@enum rx_core_notification_store QueueOverflowBehavior
//@struct rx_core_notification_store QueueOverflowOptions
impl Clone for QueueOverflowOptions { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@replace o1_state . update_with_notification_would_be_invalid => o1_state . deref () . update_with_notification_would_be_invalid
//@replace o2_state . update_with_notification_would_be_invalid => o2_state . deref () . update_with_notification_would_be_invalid
//@struct rx_core_notification_store NotificationQueue
//@spec rx_core_notification_store NotificationQueue
    pub closed spec fn q(&self) -> Seq<SubscriberNotification<In, InError>> { self.queue@ }
    pub closed spec fn err(&self) -> Option<InError> { self.error }
    pub closed spec fn st(&self) -> SubscriberState { self.state }
    pub closed spec fn opts(&self) -> QueueOverflowOptions { self.options }
//@end
//@fn rx_core_notification_store NotificationQueue::new
  ensures r.q() == s0::<SubscriberNotification<In, InError>>(), r.err() is None, r.st().is(true, false, false, false, false), r.opts() == options
//@end
//@fn rx_core_notification_store NotificationQueue::count_nexts iter
  ensures r == cn(self.q())
//@@loop 0
  invariant vf_it_0.rem() == Seq::new(self.q().len(), |i: int| &self.q()[i]).skip(self.q().len() - vf_it_0.rem().len()), vf_it_0.rem().len() <= self.q().len() <= usize::MAX, vf_r == cn(self.q().take(self.q().len() - vf_it_0.rem().len()))
  decreases vf_it_0.rem().len()
//@@lstart 0
    let ghost k = self.q().len() - vf_it_0.rem().len();
    proof { let t = self.q().take(k + 1); assert(t.drop_last() =~= self.q().take(k)); lem_cn(t); lem_cn(t.drop_last()); }
//@@after 0
    assert(self.q().take(self.q().len() as int) =~= self.q());
//@end
//@fn rx_core_notification_store NotificationQueue::has_next iter
  ensures r == (cn(self.q()) > 0)
//@@loop 0
  invariant_except_break vf_it_0.rem() == Seq::new(self.q().len(), |i: int| &self.q()[i]).skip(self.q().len() - vf_it_0.rem().len()), vf_it_0.rem().len() <= self.q().len(), !vf_r, forall|i: int| 0 <= i < self.q().len() - vf_it_0.rem().len() ==> !(#[trigger] self.q()[i] is Next)
  ensures vf_r == exists|i: int| 0 <= i < self.q().len() && #[trigger] self.q()[i] is Next
  decreases vf_it_0.rem().len()
//@@lstart 0
    let ghost k = self.q().len() - vf_it_0.rem().len();
    assert(vf_it_0.rem()[0] == &self.q()[k]);
//@@start
    proof { lem_cn(self.q()); }
//@end
/// the first value of a queue
pub open spec fn first<I, E>(q: Seq<SubscriberNotification<I, E>>, i: int) -> bool { 0 <= i < q.len() && q[i] is Next && forall|j: int| 0 <= j < i ==> !(#[trigger] q[j] is Next) }
/// the oldest waiting value is the one to go
//@replace let mut vf_r = None ; => let mut vf_r : Option < (usize , & SubscriberNotification < In , InError >) > = None ;
//@fn rx_core_notification_store NotificationQueue::drop_oldest iter
  ensures final(self).err() == old(self).err(), final(self).st() == old(self).st(), final(self).opts() == old(self).opts(),
    cn(old(self).q()) == 0 ==> final(self).q() == old(self).q(),
    forall|i: int| #[trigger] first(old(self).q(), i) ==> final(self).q() == old(self).q().remove(i)
//@@loop 0
  invariant_except_break vf_it_0.rem() == Seq::new(self.q().len(), |i: int| (i as usize, &self.q()[i])).skip(self.q().len() - vf_it_0.rem().len()), vf_it_0.rem().len() <= self.q().len() <= usize::MAX, vf_r is None, forall|i: int| 0 <= i < self.q().len() - vf_it_0.rem().len() ==> !(#[trigger] self.q()[i] is Next)
  ensures self.q().len() <= usize::MAX, match vf_r { Some(p) => first(self.q(), p.0 as int), None => forall|i: int| 0 <= i < self.q().len() ==> !(#[trigger] self.q()[i] is Next) }
  decreases vf_it_0.rem().len()
//@@lstart 0
    let ghost k = self.q().len() - vf_it_0.rem().len();
    assert(vf_it_0.rem()[0] == (k as usize, &self.q()[k]));
//@@start
    proof { lem_cn(old(self).q()); }
//@end
/// the state follows the front of the queue
pub open spec fn after_front<I, E>(a: SubscriberState, b: SubscriberState, q: Seq<SubscriberNotification<I, E>>) -> bool {
    if q.len() == 0 { b == a } else { b.is(false, a.p() || q[0] is Next, a.c() || q[0] is Complete, a.e() || q[0] is Error, a.u() || q[0] is Unsubscribe) } }
//@fn rx_core_notification_store NotificationQueue::update_with_front_notification
  ensures final(self).err() == old(self).err(), final(self).q() == old(self).q(), final(self).opts() == old(self).opts(), after_front(old(self).st(), final(self).st(), old(self).q())
//@end
//@fn rx_core_notification_store NotificationQueue::pop_next_if_in_front
  ensures final(self).err() == old(self).err(), final(self).opts() == old(self).opts(),
    if old(self).q().len() > 0 && old(self).q()[0] is Next { Some(r.unwrap()) == r && old(self).q()[0] == SubscriberNotification::<In, InError>::Next(r.unwrap()) && final(self).q() == old(self).q().subrange(1, old(self).q().len() as int) && after_front(old(self).st(), final(self).st(), final(self).q()) }
    else { r is None && final(self).q() == old(self).q() && final(self).st() == old(self).st() }
//@end
//@fn rx_core_notification_store NotificationQueue::is_empty
  ensures r == (self.q().len() == 0)
//@end
//@fn rx_core_notification_store NotificationQueue::len
  ensures r == self.q().len()
//@end
//@fn rx_core_notification_store NotificationQueue::deref
  ensures *r == self.st()
//@end
//@fn rx_core_notification_store NotificationQueue::take_error
  ensures r == old(self).err(), final(self).err() is None, final(self).st() == old(self).st(), final(self).q() == old(self).q(), final(self).opts() == old(self).opts()
//@end
/// a value is stored unless the queue is full: then the oldest or the new one is dropped
pub open spec fn pushed<I, E>(q: Seq<SubscriberNotification<I, E>>, n: SubscriberNotification<I, E>, o: QueueOverflowOptions) -> Seq<SubscriberNotification<I, E>> {
    if n is Error { q } else if n is Next && q.len() >= o.max_queue_length { match o.overflow_behavior {
        QueueOverflowBehavior::DropOldest => (if q.len() > 0 { q.remove(0) } else { q }).push(n),
        QueueOverflowBehavior::IgnoreNext => q } }
    else { q.push(n) } }
/// inputs send no value after their end
//@fn rx_core_notification_store NotificationQueue::push args=n
  requires n is Next ==> open(old(self).q())
  ensures final(self).opts() == old(self).opts(), final(self).q() == pushed(old(self).q(), n, old(self).opts()),
    final(self).err() == match n { SubscriberNotification::Error(e) => Some(e), _ => old(self).err() },
    n is Error ==> final(self).st().is(false, old(self).st().p(), old(self).st().c(), true, old(self).st().u()),
    n is Complete || n is Unsubscribe ==> if old(self).q().len() == 0 { after_front(old(self).st(), final(self).st(), final(self).q()) } else { final(self).st() == old(self).st() },
    n is Next ==> final(self).st() == old(self).st() || after_front(old(self).st(), final(self).st(), final(self).q())
//@@start
    proof { lem_cn(old(self).q()); if n is Next && old(self).q().len() > 0 { assert(first(old(self).q(), 0)); } }
//@end
// ---------------------------------------------------------------- zip
//@macro DEREFQ FN
//@replace o1_queue . $FN () => o1_queue . deref () . $FN ()
//@replace o2_queue . $FN () => o2_queue . deref () . $FN ()
//@endmacro
//@use DEREFQ is_waiting
//@use DEREFQ is_primed
//@use DEREFQ is_completed
//@use DEREFQ is_errored
//@use DEREFQ is_unsubscribed
//@use DEREFQ is_closed
//@use DEREFQ is_finished
//@use DEREFQ is_completed_but_not_primed
//@use DEREFQ is_closed_but_primed
//@use DEREFQ is_closed_but_not_primed
//@use DEREFQ is_closed_but_not_completed
//@use DEREFQ is_closed_but_not_errored
/// a value is waiting
pub open spec fn hv<I, E>(q: Seq<SubscriberNotification<I, E>>) -> bool { q.len() > 0 && q[0] is Next }
pub open spec fn at_end<I, E>(q: Seq<SubscriberNotification<I, E>>) -> bool { q.len() > 0 && !(q[0] is Next) }
/// one input's queue: no error kept back, nothing after an end, ended exactly when its end is next
pub open spec fn okq<I, E>(s: NotificationQueue<I, E>) -> bool {
    &&& s.err() is None && shape(s.q()) && forall|i: int| 0 <= i < s.q().len() ==> !(#[trigger] s.q()[i] is Error)
    &&& s.st().c() == (s.q().len() > 0 && s.q()[0] is Complete) && s.st().u() == (s.q().len() > 0 && s.q()[0] is Unsubscribe) }
pub open spec fn val<I, E>(n: SubscriberNotification<I, E>) -> I { n->Next_0 }
//@struct rx_core_observable_zip ZipSubscriber
//@spec rx_core_observable_zip ZipSubscriber
    pub closed spec fn d(&self) -> Destination { self.destination }
    pub closed spec fn sides(&self) -> (NotificationQueue<O1::Out, O1::OutError>, NotificationQueue<O2::Out, O2::OutError>) { (self.o1_queue, self.o2_queue) }
    /// no pair is waiting
    pub open spec fn inv(&self) -> bool { okq(self.sides().0) && okq(self.sides().1) && (hv(self.sides().0.q()) && hv(self.sides().1.q()) ==> self.d().closed()) }
    pub open spec fn took1(&self, n: EitherObservableNotification2<O1, O2>) -> Seq<SubscriberNotification<O1::Out, O1::OutError>> { match n { EitherObservableNotification2::O1(x) => pushed(self.sides().0.q(), x, self.sides().0.opts()), _ => self.sides().0.q() } }
    pub open spec fn took2(&self, n: EitherObservableNotification2<O1, O2>) -> Seq<SubscriberNotification<O2::Out, O2::OutError>> { match n { EitherObservableNotification2::O2(x) => pushed(self.sides().1.q(), x, self.sides().1.opts()), _ => self.sides().1.q() } }
//@end
//@fn rx_core_observable_zip ZipSubscriber::new
  ensures r.d() == destination, r.inv(), r.sides().0.q().len() == 0, r.sides().1.q().len() == 0, r.sides().0.opts() == options, r.sides().1.opts() == options
//@end
//@fn rx_core_observable_zip ZipSubscriber::is_closed
  ensures r == self.d().closed()
//@end
/// no further pair can arise: an input ended and all its values are paired
pub open spec fn zip_end<A, E, B, F, I, G>(a: Seq<SubscriberNotification<A, E>>, b: Seq<SubscriberNotification<B, F>>) -> Seq<Ev<I, G>> {
    if at_end(a) && a[0] is Complete || at_end(b) && b[0] is Complete { s1(Ev::Complete) } else if at_end(a) || at_end(b) { s1(Ev::Unsub) } else { s0() } }
/// one signal of either input: the oldest values of both are paired, once
//@fn rx_core_observable_zip ZipSubscriber::next args=n opt
  requires old(self).inv(), !old(self).sides().0.st().e(), !old(self).sides().1.st().e(),
    n matches EitherObservableNotification2::O1(x) ==> x is Next ==> open(old(self).sides().0.q()),
    n matches EitherObservableNotification2::O2(x) ==> x is Next ==> open(old(self).sides().1.q())
  ensures final(self).inv(), final(self).sides().0.opts() == old(self).sides().0.opts(), final(self).sides().1.opts() == old(self).sides().1.opts(),
    ({ let a = old(self).took1(n); let b = old(self).took2(n);
       let pair = either_next(n) && hv(a) && hv(b) && !old(self).d().closed();
       let a2 = if pair { a.subrange(1, a.len() as int) } else { a }; let b2 = if pair { b.subrange(1, b.len() as int) } else { b };
       match either_error::<O1, O2, Destination::InError>(n) {
         Some(e) => dl(old(self).d(), final(self).d(), s1(Ev::Error(e))),
         None => final(self).sides().0.q() == a2 && final(self).sides().1.q() == b2
            && dl(old(self).d(), final(self).d(), (if pair { s1(Ev::Next((val(a[0]), val(b[0])))) } else { s0() }) + zip_end(a2, b2)) } })
//@@start
    proof { lem_cn(old(self).took1(n)); lem_cn(old(self).took2(n)); }
//@end

// ---------------------------------------------------------------- join
//@struct rx_core_observable_join JoinSubscriber
//@spec rx_core_observable_join JoinSubscriber
    pub closed spec fn d(&self) -> Destination { self.destination }
    pub closed spec fn sides(&self) -> (NotificationState<O1::Out, O1::OutError>, NotificationState<O2::Out, O2::OutError>) { (self.o1_state, self.o2_state) }
    /// no error is kept back
    pub open spec fn inv(&self) -> bool { self.sides().0.err() is None && self.sides().1.err() is None }
//@end
//@fn rx_core_observable_join JoinSubscriber::new
  ensures r.d() == destination, r.inv(), r.sides().0.fresh(), r.sides().1.fresh()
//@end
//@fn rx_core_observable_join JoinSubscriber::is_closed
  ensures r == self.d().closed()
//@end
/// signals after an input's end change nothing
pub open spec fn heard<A, E>(a: NotificationState<A, E>, n: SubscriberNotification<A, E>) -> bool { if n is Unsubscribe { !a.st().u() } else { !a.st().closed() } }
/// only when both completed: the pair of last values, if there is one, and completion
pub open spec fn join_out<A, E, B, F, G>(a: NotificationState<A, E>, b: NotificationState<B, F>) -> Seq<Ev<(A, B), G>> {
    if a.st().c() && b.st().c() { (if a.val() is Some && b.val() is Some { s1(Ev::Next((a.val().unwrap(), b.val().unwrap()))) } else { s0() }).push(Ev::Complete) }
    else if a.st().closed() && b.st().closed() { s1(Ev::Unsub) } else { s0() } }
//@fn rx_core_observable_join JoinSubscriber::next args=n opt
  requires old(self).inv()
  ensures final(self).inv(),
    n matches EitherObservableNotification2::O1(x) ==> final(self).sides().1 == old(self).sides().1 && if heard(old(self).sides().0, x) { took(old(self).sides().0, final(self).sides().0, x) } else { final(self).sides().0 == old(self).sides().0 },
    n matches EitherObservableNotification2::O2(x) ==> final(self).sides().0 == old(self).sides().0 && if heard(old(self).sides().1, x) { took(old(self).sides().1, final(self).sides().1, x) } else { final(self).sides().1 == old(self).sides().1 },
    ({ let h = match n { EitherObservableNotification2::O1(x) => heard(old(self).sides().0, x), EitherObservableNotification2::O2(x) => heard(old(self).sides().1, x) };
       dl(old(self).d(), final(self).d(), match either_error::<O1, O2, Destination::InError>(n) {
        Some(e) if h => s1(Ev::Error(e)),
        _ => join_out(final(self).sides().0, final(self).sides().1) }) })
//@end
} // verus!
//@include lib_pairsub.vrs
verus! {
//@use PAIRSUB rx_core_observable_join JoinObservable JoinSubscriber (O1::Out,O2::Out)
//@fn rx_core_notification_store QueueOverflowOptions::default as=vf_default
  ensures r.max_queue_length == 100, r.overflow_behavior is DropOldest
//@end
impl Default for QueueOverflowOptions { fn default() -> (r: Self) ensures r.max_queue_length == 100, r.overflow_behavior is DropOldest { QueueOverflowOptions::vf_default() } }
//@struct rx_core_observable_zip ZipObservable
//@spec rx_core_observable_zip ZipObservable
    pub closed spec fn o1(&self) -> O1 { self.observable_1 }
    pub closed spec fn o2(&self) -> O2 { self.observable_2 }
    pub closed spec fn opts(&self) -> QueueOverflowOptions { self.options }
//@end
//@fn rx_core_observable_zip ZipObservable::new args=a,b
  ensures r.o1() == a, r.o2() == b, r.opts().max_queue_length == 100, r.opts().overflow_behavior is DropOldest
//@end
//@fn rx_core_observable_zip ZipObservable::with_options args=o
  ensures r.o1() == self.o1(), r.o2() == self.o2(), r.opts() == o
//@end
//@replace fn subscribe < Destination > => fn subscribe < Destination : Subscriber < In = (O1::Out,O2::Out) , InError = O1 :: OutError > >
//@fn rx_core_observable_zip ZipObservable::subscribe args=destination env=add,%shared_subscriber:&mut~subscription
  ensures paired(old(self).o1(), old(self).o2(), final(self).o1(), final(self).o2(), r), final(self).opts() == old(self).opts(),
    ({ let s = made_of::<ZipSubscriber<Destination, O1, O2>>(r.kept_by()); s.d() == destination && s.inv() && s.sides().0.q().len() == 0 && s.sides().1.q().len() == 0 && s.sides().0.opts() == old(self).opts() && s.sides().1.opts() == old(self).opts() })
//@end
} // verus!
fn main() {}
