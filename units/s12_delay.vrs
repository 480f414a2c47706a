//@include prelude.vrs
verus! {
broadcast use {vp::grp, dd::ax_max, dd::ax_dur};
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::{Add, AddAssign};
} // verus!
//@include lib_sched.vrs
//@include lib_timed.vrs
//@include lib_pending.vrs
verus! {
// ---------------------------------------------------------------- delay
//@replace SchedulerHandle < S > => Sched < DelayedNext < Destination > >
//@replace SharedSubscriber < Destination > => Shr < Destination >
//@replace SharedSubscriber :: new => Shr :: new

/// a value delivered, and what the consumers may do to the operator meanwhile: send further values
/// (each is one more work), end the source
pub open spec fn emits<I, E>(a: P<I, E>, m: P<I, E>, x: I) -> bool {
    &&& (a.done ==> m.done) && (a.un ==> m.un) && (m.done ==> m.un || a.done) && (a.shut ==> m.shut)
    &&& if a.shut { m.sent == a.sent } else {
        ||| m.sent == a.sent.push(Ev::Next(x)) && m.c >= a.c
        ||| m.c == 0 && m.un && exists|e: E| m.sent == #[trigger] a.sent.push(Ev::Next(x)).push(Ev::Error(e)) }
}
/// after a work is through: the last one ends the output if the source is over
pub open spec fn settles<I, E>(m: P<I, E>, b: P<I, E>) -> bool {
    &&& b.c == wsub(m.c, 1) && b.done == m.done && b.un == m.un
    &&& if m.c == 1 && m.done && !m.shut { b.sent == m.sent.push(Ev::Complete) && b.shut }
        else if m.c == 1 && m.un && !m.shut { b.sent == m.sent.push(Ev::Unsub) && b.shut }
        else { b.sent == m.sent && b.shut == m.shut }
}
/// `m`: where the delivery left it
pub open spec fn worked<I, E>(a: P<I, E>, m: P<I, E>, b: P<I, E>, x: I) -> bool { settles(if a.shut { a } else { m }, b) && (a.shut || emits(a, m, x)) }

impl<D: ObserverInput> Shr<D> {
    #[verifier::external_body]
    pub fn new(d: D) -> (r: Self) ensures r.sent() == d.log(), r.shut() == (d.closed() || has_term(d.log())), r.tds() == d.tds() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self, x: D::In, c: &mut AtomicUsize, done: &mut AtomicBool, un: &mut AtomicBool)
        ensures emits(p(*old(self), *old(c), *old(done), *old(un)), p(*final(self), *final(c), *final(done), *final(un)), x), mid(*final(self)) == p(*final(self), *final(c), *final(done), *final(un)),
          final(self).cell() == old(self).cell(), final(self).tds() == old(self).tds(), final(c).cell() == old(c).cell(), final(done).cell() == old(done).cell(), final(un).cell() == old(un).cell() { unimplemented!() }
}

/// the work one value becomes
#[verifier::reject_recursive_types(Destination)]
pub struct DelayedNext<Destination: Subscriber> { pub destination: Shr<Destination>, pub next: Destination::In, pub scheduled_work_counter: AtomicUsize, pub upstream_completed: AtomicBool, pub upstream_unsubscribed: AtomicBool }
impl<Destination: Subscriber> DelayedNext<Destination> {
    pub open spec fn st(&self) -> P<Destination::In, Destination::InError> { p(self.destination, self.scheduled_work_counter, self.upstream_completed, self.upstream_unsubscribed) }
}
//@fn rx_core_operator_delay DelaySubscriber::next closure=0 chead=impl<Destination:Subscriber>~DelayedNext<Destination> caps=destination,scheduled_work_counter,upstream_completed,upstream_unsubscribed ptypes=Tick;Tick cargs=next:Destination::In env=next,@destination:(&mut~self.scheduled_work_counter,&mut~self.upstream_completed,&mut~self.upstream_unsubscribed) cmut
  ensures worked(old(self).st(), mid(final(self).destination), final(self).st(), next)
//@end

//@struct rx_core_operator_delay DelaySubscriber +vf_s:PhantomData<S>=PhantomData
//@spec rx_core_operator_delay DelaySubscriber
    pub open spec fn st(&self) -> P<Destination::In, Destination::InError> { p(self.destination, self.scheduled_work_counter, self.upstream_completed, self.upstream_unsubscribed) }
    pub open spec fn acts(&self) -> Seq<Act<DelayedNext<Destination>>> { self.scheduler@ }
    pub open spec fn id(&self) -> WorkCancellationId { self.cancellation_id }
    pub open spec fn d(&self) -> nat { self.duration.n() }
    /// `w` works on this subscription's cells
    pub open spec fn mine(&self, w: DelayedNext<Destination>) -> bool {
        w.destination.cell() == self.destination.cell() && w.scheduled_work_counter.cell() == self.scheduled_work_counter.cell() && w.upstream_completed.cell() == self.upstream_completed.cell() && w.upstream_unsubscribed.cell() == self.upstream_unsubscribed.cell() }
    pub open spec fn same(&self, f: Self) -> bool { f.id() == self.id() && f.d() == self.d() && f.destination.cell() == self.destination.cell() && f.scheduled_work_counter.cell() == self.scheduled_work_counter.cell() && f.upstream_completed.cell() == self.upstream_completed.cell() && f.upstream_unsubscribed.cell() == self.upstream_unsubscribed.cell() }
//@end
//@fn rx_core_operator_delay DelaySubscriber::new args=destination,duration,scheduler
  ensures r.d() == duration.n(), r.st().c == 0, !r.st().done, !r.st().un, r.st().sent == destination.log(), r.destination.tds().len() == destination.tds().len() + 1, td_cancels(r.destination.tds().last(), r.id())
//@end
/// one more work: exactly this value, exactly the duration later, cancellable
//@fn rx_core_operator_delay DelaySubscriber::next lift=0:DelayedNext:destination,next,scheduled_work_counter,upstream_completed,upstream_unsubscribed args=x
  ensures old(self).same(*final(self)), final(self).st() == (P { c: wadd(old(self).st().c, 1) as usize, ..old(self).st() }),
    final(self).acts() == old(self).acts().push(final(self).acts().last()),
    match final(self).acts().last() { Act::Delayed(w, d, id) => old(self).mine(w) && w.next == x && d == old(self).d() && id == old(self).id(), _ => false }
//@end
//@fn rx_core_operator_delay DelaySubscriber::error args=e
  ensures old(self).same(*final(self)), final(self).acts() == old(self).acts().push(Act::Cancel(old(self).id())),
    final(self).st().c == 0, final(self).st().un, final(self).st().shut, final(self).st().sent == if old(self).st().shut { old(self).st().sent } else { old(self).st().sent.push(Ev::Error(e)) }
//@end
//@fn rx_core_operator_delay DelaySubscriber::complete
  ensures old(self).same(*final(self)), final(self).acts() == old(self).acts(), completes(old(self).st(), final(self).st())
//@end
//@fn rx_core_operator_delay DelaySubscriber::is_closed
  ensures r == (self.st().shut || self.st().un)
//@end
//@fn rx_core_operator_delay DelaySubscriber::unsubscribe
  ensures old(self).same(*final(self)), final(self).acts() == old(self).acts(), unsubs(old(self).st(), final(self).st())
//@end
//@fn rx_core_operator_delay DelaySubscriber::drop as=vf_drop
  ensures old(self).same(*final(self)), final(self).acts() == old(self).acts(), unsubs(old(self).st(), final(self).st())
//@end
// ---- the operator: every subscription starts from the state `new` gives
//@replace Sched < DelayedNext < Destination > > => OpSched < S >
//@struct rx_core_operator_delay DelayOperator
//@fn rx_core_operator_delay DelayOperator::new args=duration,scheduler
  ensures r.duration == duration
//@end
//@fn rx_core_operator_delay DelayOperator::operator_subscribe args=destination
  ensures final(self).duration == old(self).duration, r.d() == old(self).duration.n(), r.st().c == 0, !r.st().done, !r.st().un, r.st().sent == destination.log(), r.destination.tds().len() == destination.tds().len() + 1, td_cancels(r.destination.tds().last(), r.id())
//@end
// ---- what the contracts add up to: `q` the values whose work has not run, `acc` all accepted ones
pub struct G<I, E> { pub p: P<I, E>, pub q: Seq<I>, pub acc: Seq<I> }
impl<I, E> G<I, E> {
    pub open spec fn inv(self) -> bool {
        self.p.shut || has_term(self.p.sent) || { self.p.c == self.q.len() && vals(self.p.sent) + self.q =~= self.acc && (self.p.done ==> self.p.un) && (self.p.un ==> self.q.len() > 0) }
    }
}
/// a value accepted before the source was over
pub proof fn delay_next<I, E>(a: G<I, E>, b: G<I, E>, x: I)
    requires a.inv(), !a.p.un, a.p.c < usize::MAX, b.p == (P { c: wadd(a.p.c, 1) as usize, ..a.p }), b.q == a.q.push(x), b.acc == a.acc.push(x)
    ensures b.inv()
{}
/// the oldest work runs; values accepted meanwhile are in `k`
pub proof fn delay_work<I, E>(a: G<I, E>, b: G<I, E>, m: P<I, E>, k: Seq<I>)
    requires a.inv(), !a.p.shut, !has_term(a.p.sent), a.q.len() > 0, settles(m, b.p), emits(a.p, m, a.q[0]),
      m.c == 0 || m.c == a.p.c + k.len(), b.q == a.q.skip(1) + k, b.acc == a.acc + k
    ensures b.inv(), b.p.sent != a.p.sent,
      // completion only ever follows the last accepted value
      has_complete(b.p.sent) ==> vals(b.p.sent) =~= b.acc && b.q.len() == 0 && m.done,
      // and does follow it
      m.done && !m.shut && m.c == 1 ==> b.p.sent.last() is Complete,
      a.p.sent.push(Ev::Next(a.q[0])).is_prefix_of(b.p.sent)
{
    lem_vals_push(a.p.sent, Ev::Next(a.q[0]));
    lem_has_complete(a.p.sent);
    let s = a.p.sent.push(Ev::Next(a.q[0]));
    assert(vals(s) =~= vals(a.p.sent).push(a.q[0]));
    if m.c == 0 {
        let e = choose|e: E| m.sent == #[trigger] s.push(Ev::Error(e));
        assert(has_term(s.push(Ev::Error(e)))) by { lem_term_push(s, Ev::Error(e)); }
        assert(b.p.sent == m.sent);
    } else {
        lem_vals_push(s, Ev::Complete);
        lem_vals_push(s, Ev::Unsub);
        assert(vals(s) + b.q =~= b.acc);
    }
}
pub proof fn delay_complete<I, E>(a: G<I, E>, b: G<I, E>)
    requires a.inv(), !a.p.shut, !has_term(a.p.sent), completes(a.p, b.p), b.q == a.q, b.acc == a.acc
    ensures b.inv(), b.p.sent != a.p.sent ==> vals(b.p.sent) =~= b.acc && b.p.sent.last() is Complete, b.p.sent == a.p.sent ==> b.q.len() > 0
{ lem_vals_push(a.p.sent, Ev::Complete); }
pub proof fn delay_unsub<I, E>(a: G<I, E>, b: G<I, E>)
    requires a.inv(), unsubs(a.p, b.p), b.q == a.q, b.acc == a.acc
    ensures b.inv()
{}
} // verus!
fn main() {}
