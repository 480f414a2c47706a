//@include prelude.vrs
verus! {
broadcast use {vp::grp, dd::ax_max, dd::ax_dur};
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::{Add, AddAssign};
} // verus!
//@include lib_sched.vrs
//@include lib_timed.vrs
//@include lib_pending.vrs
verus! {
// ---------------------------------------------------------------- debounce_time
//@replace SchedulerHandle < S > => Sched < DebouncedNext < Destination > >
//@replace SharedSubscriber < Destination > => Shr < Destination >
//@replace SharedSubscriber :: new => Shr :: new
/// a value delivered, and what the consumers may do to the operator meanwhile: send further values
/// (the latest of them is pending then), end the source
pub open spec fn emits<I, E>(a: P<I, E>, m: P<I, E>, x: I) -> bool {
    let s = a.sent.push(Ev::Next(x));
    &&& (a.done ==> m.done) && (a.un ==> m.un) && (m.done ==> m.un || a.done)
    &&& if a.shut { m.shut && m.sent == a.sent } else {
        ||| m.sent == s && (m.c == a.c || m.c != 0) && (m.un ==> a.un || m.c != 0 || m.shut) && (a.un ==> m.c == a.c)
        ||| m.shut && m.un && (m.sent == s.push(Ev::Unsub) || (m.sent == s.push(Ev::Complete) && m.c == 0 && m.done) || exists|e: E| m.sent == #[trigger] s.push(Ev::Error(e))) }
}
/// after a work is through: if nothing is pending and the source is over, so is the output
pub open spec fn settles<I, E>(m: P<I, E>, b: P<I, E>) -> bool {
    &&& b.c == m.c && b.done == m.done && b.un == m.un
    &&& if m.c == 0 && m.done && !m.shut { b.sent == m.sent.push(Ev::Complete) && b.shut }
        else if m.c == 0 && m.un && !m.shut { b.sent == m.sent.push(Ev::Unsub) && b.shut }
        else { b.sent == m.sent && b.shut == m.shut }
}
/// the work's own value is not pending any more
pub open spec fn taken<I, E>(a: P<I, E>, w: usize) -> P<I, E> { P { c: if a.c == w { 0 } else { a.c }, ..a } }
/// `m`: where the delivery left it
pub open spec fn worked<I, E>(a: P<I, E>, m: P<I, E>, b: P<I, E>, w: usize, x: I) -> bool {
    let t = taken(a, w);
    settles(if a.shut { t } else { m }, b) && (a.shut || emits(t, m, x)) }
impl<D: ObserverInput> Shr<D> {
    #[verifier::external_body]
    pub fn new(d: D) -> (r: Self) ensures r.sent() == d.log(), r.shut() == (d.closed() || has_term(d.log())), r.tds() == d.tds() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self, x: D::In, c: &mut AtomicUsize, done: &mut AtomicBool, un: &mut AtomicBool)
        ensures emits(p(*old(self), *old(c), *old(done), *old(un)), p(*final(self), *final(c), *final(done), *final(un)), x), mid(*final(self)) == p(*final(self), *final(c), *final(done), *final(un)),
          final(self).cell() == old(self).cell(), final(self).tds() == old(self).tds(), final(c).cell() == old(c).cell(), final(done).cell() == old(done).cell(), final(un).cell() == old(un).cell() { unimplemented!() }
}
/// the work one value becomes
#[verifier::reject_recursive_types(Destination)]
pub struct DebouncedNext<Destination: Subscriber> { pub destination: Shr<Destination>, pub next: Destination::In, pub work_id: usize, pub pending_work_id: AtomicUsize, pub upstream_completed: AtomicBool, pub upstream_unsubscribed: AtomicBool }
impl<Destination: Subscriber> DebouncedNext<Destination> {
    pub open spec fn st(&self) -> P<Destination::In, Destination::InError> { p(self.destination, self.pending_work_id, self.upstream_completed, self.upstream_unsubscribed) }
}
//@fn rx_core_operator_debounce_time DebounceTimeSubscriber::next closure=0 chead=impl<Destination:Subscriber>~DebouncedNext<Destination> caps=destination,work_id,pending_work_id,upstream_completed,upstream_unsubscribed ptypes=Tick;Tick cargs=next:Destination::In env=next,@destination:(&mut~self.pending_work_id,&mut~self.upstream_completed,&mut~self.upstream_unsubscribed) cmut
  ensures worked(old(self).st(), mid(final(self).destination), final(self).st(), old(self).work_id, next)
//@end

//@struct rx_core_operator_debounce_time DebounceTimeSubscriber +vf_s:PhantomData<S>=PhantomData
//@spec rx_core_operator_debounce_time DebounceTimeSubscriber
    pub open spec fn st(&self) -> P<Destination::In, Destination::InError> { p(self.destination, self.pending_work_id, self.upstream_completed, self.upstream_unsubscribed) }
    pub open spec fn acts(&self) -> Seq<Act<DebouncedNext<Destination>>> { self.scheduler@ }
    pub open spec fn id(&self) -> WorkCancellationId { self.cancellation_id }
    pub open spec fn d(&self) -> nat { self.duration.n() }
    pub open spec fn last(&self) -> usize { self.last_work_id }
    /// `w` works on this subscription's cells
    pub open spec fn mine(&self, w: DebouncedNext<Destination>) -> bool {
        w.destination.cell() == self.destination.cell() && w.pending_work_id.cell() == self.pending_work_id.cell() && w.upstream_completed.cell() == self.upstream_completed.cell() && w.upstream_unsubscribed.cell() == self.upstream_unsubscribed.cell() }
    pub open spec fn same(&self, f: Self) -> bool { f.id() == self.id() && f.d() == self.d() && f.destination.cell() == self.destination.cell() && f.pending_work_id.cell() == self.pending_work_id.cell() && f.upstream_completed.cell() == self.upstream_completed.cell() && f.upstream_unsubscribed.cell() == self.upstream_unsubscribed.cell() }
//@end
//@fn rx_core_operator_debounce_time DebounceTimeSubscriber::new args=destination,duration,scheduler
  ensures r.d() == duration.n(), r.st().c == 0, !r.st().done, !r.st().un, r.st().sent == destination.log(), r.destination.tds().len() == destination.tds().len() + 1, td_cancels(r.destination.tds().last(), r.id())
//@end
/// whatever was pending is cancelled, this value is pending under a new number: due the duration later
//@fn rx_core_operator_debounce_time DebounceTimeSubscriber::next lift=0:DebouncedNext:destination,next,work_id,pending_work_id,upstream_completed,upstream_unsubscribed args=x
  ensures old(self).same(*final(self)), final(self).st() == (P { c: final(self).last(), ..old(self).st() }),
    final(self).last() == if old(self).last() == usize::MAX { 1 } else { old(self).last() + 1 },
    final(self).acts() == old(self).acts().push(Act::Cancel(old(self).id())).push(final(self).acts().last()),
    match final(self).acts().last() { Act::Delayed(w, d, id) => old(self).mine(w) && w.next == x && w.work_id == final(self).last() && d == old(self).d() && id == old(self).id(), _ => false }
//@end
//@fn rx_core_operator_debounce_time DebounceTimeSubscriber::error args=e
  ensures old(self).same(*final(self)), final(self).acts() == old(self).acts().push(Act::Cancel(old(self).id())),
    final(self).st().c == 0, final(self).st().un, final(self).st().shut, final(self).st().sent == if old(self).st().shut { old(self).st().sent } else { old(self).st().sent.push(Ev::Error(e)) }
//@end
//@fn rx_core_operator_debounce_time DebounceTimeSubscriber::complete
  ensures old(self).same(*final(self)), final(self).acts() == old(self).acts(), completes(old(self).st(), final(self).st())
//@end
//@fn rx_core_operator_debounce_time DebounceTimeSubscriber::is_closed
  ensures r == (self.st().shut || self.st().un)
//@end
//@fn rx_core_operator_debounce_time DebounceTimeSubscriber::unsubscribe
  ensures old(self).same(*final(self)), final(self).acts() == old(self).acts(), unsubs(old(self).st(), final(self).st())
//@end
//@fn rx_core_operator_debounce_time DebounceTimeSubscriber::drop as=vf_drop
  ensures old(self).same(*final(self)), final(self).acts() == old(self).acts(), unsubs(old(self).st(), final(self).st())
//@end
// ---- the operator: every subscription starts from the state `new` gives
//@replace Sched < DebouncedNext < Destination > > => OpSched < S >
//@struct rx_core_operator_debounce_time DebounceTimeOperator
//@fn rx_core_operator_debounce_time DebounceTimeOperator::new args=duration,scheduler
  ensures r.duration == duration
//@end
//@fn rx_core_operator_debounce_time DebounceTimeOperator::operator_subscribe args=destination
  ensures final(self).duration == old(self).duration, r.d() == old(self).duration.n(), r.st().c == 0, !r.st().done, !r.st().un, r.st().sent == destination.log(), td_cancels(r.destination.tds().last(), r.id())
//@end
// ---- what the contracts add up to: `last` the last accepted value, until it is delivered
pub struct G<I, E> { pub p: P<I, E>, pub last: Option<(usize, I)> }
impl<I, E> G<I, E> {
    pub open spec fn inv(self) -> bool {
        self.p.shut || has_term(self.p.sent) || { (self.p.done ==> self.p.un) && (self.p.un ==> self.p.c != 0) && match self.last { None => self.p.c == 0, Some(l) => self.p.c == l.0 && l.0 != 0 } }
    }
}
pub proof fn debounce_next<I, E>(a: G<I, E>, b: G<I, E>, w: usize, x: I)
    requires a.inv(), !a.p.un, w != 0, b.p == (P { c: w, ..a.p }), b.last == Some((w, x))
    ensures b.inv()
{}
/// work `w` runs; `k`: what was accepted last meanwhile
pub proof fn debounce_work<I, E>(a: G<I, E>, b: G<I, E>, m: P<I, E>, w: usize, x: I, k: Option<(usize, I)>)
    requires a.inv(), !a.p.shut, !has_term(a.p.sent), worked(a.p, m, b.p, w, x),
      k matches Some(l) ==> l.0 != 0 && m.c == l.0 && !a.p.un,
      k is None ==> m.c == taken(a.p, w).c || m.shut,
      b.last == if k is Some { k } else if a.last is Some && (a.last->0).0 == w { None } else { a.last }
    ensures b.inv(), a.p.sent.push(Ev::Next(x)).is_prefix_of(b.p.sent),
      // completion only ever comes once the last accepted value was delivered, and then does
      has_complete(b.p.sent) ==> b.p.c == 0 && b.p.done, !m.shut && m.done && b.last is None ==> b.p.sent.last() is Complete
{
    lem_has_complete(a.p.sent);
    let s = a.p.sent.push(Ev::Next(x));
    lem_term_push(s, Ev::Complete);
    lem_term_push(s, Ev::Unsub);
    assert(!has_term(s));
    lem_has_complete(s);
    if m.sent != s {
        if m.sent == s.push(Ev::Unsub) { assert(m.shut); no_complete(s, Ev::Unsub); }
        else if m.sent == s.push(Ev::Complete) {}
        else { let e = choose|e: E| m.sent == #[trigger] s.push(Ev::Error(e)); no_complete(s, Ev::Error(e)); }
    } else { no_complete(s, Ev::Unsub); }
}
pub proof fn debounce_complete<I, E>(a: G<I, E>, b: G<I, E>)
    requires a.inv(), !a.p.shut, !has_term(a.p.sent), completes(a.p, b.p), b.last == a.last
    ensures b.inv(), b.p.sent != a.p.sent ==> b.last is None && b.p.sent.last() is Complete, b.p.sent == a.p.sent ==> b.last is Some
{ assert(b.p.sent != a.p.sent ==> b.p.sent == a.p.sent.push(Ev::Complete)); }
pub proof fn debounce_unsub<I, E>(a: G<I, E>, b: G<I, E>)
    requires a.inv(), unsubs(a.p, b.p), b.last == a.last
    ensures b.inv()
{}
} // verus!
fn main() {}
