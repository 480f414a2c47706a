//@include prelude.vrs
verus! {
broadcast use {vp::grp, dd::ax_max, dd::ax_dur};
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::{Add, AddAssign};
} // verus!
//@include lib_sched.vrs
//@include lib_state.vrs
//@include lib_timed.vrs
verus! {
// ---------------------------------------------------------------- throttle_time
//@replace SchedulerHandle < S > => Sched < ThrottleTick < Destination > >
//@replace SharedSubscriber < Destination > => Shr < Destination >
//@replace SharedSubscriber :: new => Shr :: new
impl Default for SubscriberState { fn default() -> (r: Self) ensures r.is(true, false, false, false, false) { SubscriberState::default() } }

//@enum rx_core_operator_throttle_time ThrottleOutputBehavior
impl Copy for ThrottleOutputBehavior {}
impl Clone for ThrottleOutputBehavior { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl ThrottleOutputBehavior {
    pub open spec fn lead(self) -> bool { !(self is TrailingOnly) }
    pub open spec fn trail(self) -> bool { !(self is LeadingOnly) }
}
//@fn rx_core_operator_throttle_time ThrottleOutputBehavior::emits_leading
  ensures r == self.lead()
//@end
//@fn rx_core_operator_throttle_time ThrottleOutputBehavior::emits_trailing
  ensures r == self.trail()
//@end
//@struct rx_core_operator_throttle_time ThrottleTimeOptions
impl Copy for ThrottleTimeOptions {}
impl Clone for ThrottleTimeOptions { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@fn rx_core_operator_throttle_time ThrottleTimeOptions::new args=d
  ensures r.duration == d, r.output_behavior is LeadingAndTrailing
//@end
//@struct rx_core_operator_throttle_time ThrottleTimeState
/// an open window's end, the value that waits for it, the last tick seen by the window's work
pub struct P<I, E> { pub sent: Seq<Ev<I, E>>, pub shut: bool, pub end: Option<nat>, pub last: Option<I>, pub seen: nat, pub done: bool, pub over: bool }
pub open spec fn p<D: ObserverInput>(d: Shr<D>, s: Lk<ThrottleTimeState<D::In>>) -> P<D::In, D::InError> {
    P { sent: d.sent(), shut: d.shut(), end: match s@.throttle_deadline { Some(x) => Some(x.n()), None => None }, last: s@.last_value, seen: s@.last_tick_time.n(), done: s@.upstream_state.c(), over: s@.upstream_state.closed() } }
//@fn rx_core_operator_throttle_time ThrottleTimeState::clear_throttle
  ensures final(self).throttle_deadline is None, final(self).last_value is None, final(self).last_tick_time == old(self).last_tick_time, final(self).upstream_state == old(self).upstream_state
//@end
//@fn rx_core_operator_throttle_time ThrottleTimeState::has_pending_trailing args=o
  ensures r == (o.output_behavior.trail() && self.last_value is Some)
//@end
/// a value delivered, and what the consumers may do to the operator meanwhile: send further values,
/// end the source. Ticks do not nest, and an open window only closes when the source is over.
pub open spec fn emits<I, E>(a: P<I, E>, m: P<I, E>, x: I) -> bool {
    let s = a.sent.push(Ev::Next(x));
    &&& m.seen == a.seen && (a.done ==> m.done) && (a.over ==> m.over) && (a.end is Some && m.end is None ==> m.over)
    &&& if a.shut { m.shut && m.sent == a.sent } else { m.sent == s || m.shut && m.over && exists|e: Ev<I, E>| m.sent == #[trigger] s.push(e) && !(e is Next) }
}
impl<D: ObserverInput> Shr<D> {
    pub open spec fn mid(&self) -> P<D::In, D::InError> { mid_of(self.last_next()) }
    #[verifier::external_body]
    pub fn new(d: D) -> (r: Self) ensures r.sent() == d.log(), r.shut() == (d.closed() || has_term(d.log())), r.tds() == d.tds() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self, x: D::In, s: &mut Lk<ThrottleTimeState<D::In>>)
        ensures emits(p(*old(self), *old(s)), p(*final(self), *final(s)), x), final(self).mid() == p(*final(self), *final(s)),
          final(self).cell() == old(self).cell(), final(self).tds() == old(self).tds(), final(s).cell() == old(s).cell() { unimplemented!() }
}
pub uninterp spec fn mid_of<I, E>(n: int) -> P<I, E>;

/// one tick of an open window's work: while the window is open nothing; then the waiting value, if
/// trailing values are emitted, and only that; the window stays (for the cooldown) only after a value
pub open spec fn ticked<I, E>(a: P<I, E>, m: P<I, E>, b: P<I, E>, t: nat, trail: bool, r: WorkResult) -> bool {
    let n = P { seen: t, ..a };
    if a.end is None { b == n && r is Done }
    else if t < a.end->0 { b == n && r is Pending }
    else {
        let v = if trail { a.last } else { None };
        let k = P { last: None, end: if v is Some { a.end } else { None }, ..n };
        let m = if v is Some { m } else { k };
        &&& v matches Some(x) ==> emits(k, m, x)
        &&& if v is Some && m.shut { b == m && r is Done }
            else if a.done { ended(m, b, Ev::Complete) && r is Done }
            else if a.over { ended(m, b, Ev::Unsub) && r is Done }
            else { b == m && (r is Done <==> v is None) }
    }
}
pub open spec fn ended<I, E>(a: P<I, E>, b: P<I, E>, e: Ev<I, E>) -> bool { b == (P { shut: true, sent: if a.shut { a.sent } else { a.sent.push(e) }, ..a }) }
#[verifier::reject_recursive_types(Destination)]
pub struct ThrottleTick<Destination: Subscriber> { pub state: Lk<ThrottleTimeState<Destination::In>>, pub options: ThrottleTimeOptions, pub destination: Shr<Destination> }
impl<Destination: Subscriber> ThrottleTick<Destination> {
    pub open spec fn st(&self) -> P<Destination::In, Destination::InError> { p(self.destination, self.state) }
}
//@fn rx_core_operator_throttle_time ThrottleTimeSubscriber::schedule_throttle_work closure=0 chead=impl<Destination:Subscriber>~ThrottleTick<Destination> caps=destination,state,options ptypes=Tick;Tick rtype=WorkResult env=next,@destination:&mut~self.state cmut
  ensures ticked(old(self).st(), final(self).destination.mid(), final(self).st(), vf_a0.n(), old(self).options.output_behavior.trail(), r)
//@end

//@struct rx_core_operator_throttle_time ThrottleTimeSubscriber +vf_s:PhantomData<S>=PhantomData
//@spec rx_core_operator_throttle_time ThrottleTimeSubscriber
    pub open spec fn st(&self) -> P<Destination::In, Destination::InError> { p(self.destination, self.state) }
    pub open spec fn acts(&self) -> Seq<Act<ThrottleTick<Destination>>> { self.scheduler@ }
    pub open spec fn id(&self) -> WorkCancellationId { self.cancellation_id }
    pub open spec fn opts(&self) -> ThrottleTimeOptions { self.options }
    pub open spec fn mine(&self, w: ThrottleTick<Destination>) -> bool { w.destination.cell() == self.destination.cell() && w.state.cell() == self.state.cell() && w.options == self.options }
    pub open spec fn same(&self, f: Self) -> bool { f.id() == self.id() && f.options == self.options && f.destination.cell() == self.destination.cell() && f.state.cell() == self.state.cell() }
    pub open spec fn waits(&self) -> bool { self.st().end is Some && self.options.output_behavior.trail() && self.st().last is Some }
//@end
//@fn rx_core_operator_throttle_time ThrottleTimeSubscriber::new args=destination,options,scheduler
  ensures r.options == options, r.st().end is None, r.st().last is None, !r.st().over, r.st().sent == destination.log(), r.destination.tds().len() == destination.tds().len() + 1, td_cancels(r.destination.tds().last(), r.id())
//@end
//@fn rx_core_operator_throttle_time ThrottleTimeSubscriber::schedule_throttle_work lift=0:ThrottleTick:destination,state,options selfmut
  ensures old(self).same(*final(self)), final(self).st() == old(self).st(), final(self).acts() == old(self).acts().push(final(self).acts().last()),
    match final(self).acts().last() { Act::Each(w, id) => old(self).mine(w) && id == old(self).id(), _ => false }
//@end
/// no window: the value opens one, and is emitted at once iff leading values are; else it waits
pub open spec fn opens<I, E>(a: P<I, E>, m: P<I, E>, b: P<I, E>, x: I, o: ThrottleTimeOptions) -> bool {
    let k = P { end: Some(sat(a.seen, o.duration.n())), ..a };
    if o.output_behavior.lead() { b == m && emits(k, m, x) } else { b == (P { last: Some(x), ..k }) }
}
/// within a window (or its cooldown, which becomes the next one): the value replaces the waiting one
pub open spec fn holds<I, E>(a: P<I, E>, b: P<I, E>, x: I, o: ThrottleTimeOptions) -> bool {
    let k = P { end: if a.end->0 > a.seen { a.end } else { Some(sat(a.seen, o.duration.n())) }, ..a };
    b == if o.output_behavior.trail() { P { last: Some(x), ..k } } else { k }
}
//@fn rx_core_operator_throttle_time ThrottleTimeSubscriber::next args=x env=next,@destination:&mut~self.state
  ensures old(self).same(*final(self)),
    if old(self).st().end is None {
      &&& opens(old(self).st(), final(self).destination.mid(), final(self).st(), x, old(self).options)
      &&& final(self).acts() == old(self).acts().push(final(self).acts().last())
      &&& match final(self).acts().last() { Act::Each(w, id) => old(self).mine(w) && id == old(self).id(), _ => false }
    } else { final(self).acts() == old(self).acts() && holds(old(self).st(), final(self).st(), x, old(self).options) }
//@end
//@fn rx_core_operator_throttle_time ThrottleTimeSubscriber::error args=e
  ensures old(self).same(*final(self)), final(self).acts() == old(self).acts().push(Act::Cancel(old(self).id())),
    final(self).st().end is None, final(self).st().last is None, final(self).st().over, final(self).st().shut, final(self).st().sent == if old(self).st().shut { old(self).st().sent } else { old(self).st().sent.push(Ev::Error(e)) }
//@end
/// at once unless a value waits: then the work ends it (`ticked`)
//@fn rx_core_operator_throttle_time ThrottleTimeSubscriber::complete
  ensures old(self).same(*final(self)), final(self).st().done, final(self).st().over,
    if old(self).waits() { final(self).acts() == old(self).acts() && final(self).st() == (P { done: true, over: true, ..old(self).st() }) }
    else { final(self).acts() == old(self).acts().push(Act::Cancel(old(self).id())) && ended(P { done: true, over: true, end: None, last: None, ..old(self).st() }, final(self).st(), Ev::Complete) }
//@end
//@fn rx_core_operator_throttle_time ThrottleTimeSubscriber::is_closed ro
  ensures r == (self.st().shut || self.st().over)
//@end
//@fn rx_core_operator_throttle_time ThrottleTimeSubscriber::unsubscribe
  ensures old(self).same(*final(self)), old(self).unsubbed(*final(self))
//@end
//@fn rx_core_operator_throttle_time ThrottleTimeSubscriber::drop as=vf_drop
  ensures old(self).same(*final(self)), old(self).unsubbed(*final(self))
//@end
impl<Destination: Subscriber, S: Scheduler> ThrottleTimeSubscriber<Destination, S> {
    pub open spec fn unsubbed(&self, f: Self) -> bool {
        if self.st().shut || self.st().over { f.st() == self.st() && f.acts() == self.acts() }
        else if self.waits() { f.acts() == self.acts() && f.st() == (P { over: true, ..self.st() }) }
        else { f.acts() == self.acts().push(Act::Cancel(self.id())) && ended(P { over: true, end: None, last: None, ..self.st() }, f.st(), Ev::Unsub) }
    }
}
// ---- the options and the operator: every subscription starts from the state `new` gives
//@fn rx_core_operator_throttle_time ThrottleTimeOptions::with_output args=o
  ensures r.duration == self.duration, r.output_behavior == o
//@end
//@fn rx_core_operator_throttle_time ThrottleTimeOptions::default as=vf_default
  ensures r.output_behavior is LeadingAndTrailing, r.duration.n() == 1_000_000_000
//@end
//@replace Sched < ThrottleTick < Destination > > => OpSched < S >
//@struct rx_core_operator_throttle_time ThrottleTimeOperator
//@fn rx_core_operator_throttle_time ThrottleTimeOperator::new args=d,s
  ensures r.options.duration == d, r.options.output_behavior is LeadingAndTrailing
//@end
//@fn rx_core_operator_throttle_time ThrottleTimeOperator::new_with_options args=o,s
  ensures r.options == o
//@end
//@fn rx_core_operator_throttle_time ThrottleTimeOperator::operator_subscribe args=destination
  ensures final(self).options == old(self).options, r.options == old(self).options, r.st().end is None, r.st().last is None, !r.st().over, r.st().sent == destination.log(), r.destination.tds().len() == destination.tds().len() + 1, td_cancels(r.destination.tds().last(), r.id())
//@end
// ---- what the contracts add up to
/// a value waits only where trailing ones are emitted, and only in a window; when the source is over
/// but the output is not, one does wait
pub open spec fn inv<I, E>(a: P<I, E>, trail: bool) -> bool { a.shut || ((a.last is Some ==> trail && a.end is Some) && (a.done ==> a.over) && (a.over ==> a.last is Some)) }
/// the latest value of a window is emitted by the first tick at or after its end, completion comes right after it
pub proof fn throttle_trailing<I, E>(a: P<I, E>, m: P<I, E>, b: P<I, E>, t: nat, trail: bool, r: WorkResult)
    requires inv(a, trail), !a.shut, ticked(a, m, b, t, trail, r), a.end is Some
    ensures t < a.end->0 ==> b.sent == a.sent,
      t >= a.end->0 && a.last is Some ==> a.sent.push(Ev::Next(a.last->0)).is_prefix_of(b.sent) && (a.done && !m.shut ==> b.sent =~= a.sent.push(Ev::Next(a.last->0)).push(Ev::Complete)),
      t >= a.end->0 && a.last is None ==> b.sent == a.sent && b.end is None && r is Done,
      b.end is Some && !b.shut ==> r is Pending
{}
/// within a window nothing is emitted, whatever is sent
pub proof fn throttle_window<I, E>(a: P<I, E>, b: P<I, E>, x: I, o: ThrottleTimeOptions)
    requires inv(a, o.output_behavior.trail()), !a.over, a.end is Some, holds(a, b, x, o)
    ensures inv(b, o.output_behavior.trail()), b.sent == a.sent, b.end is Some, o.output_behavior.trail() ==> b.last == Some(x)
{}
} // verus!
fn main() {}
