//@include prelude.vrs
verus! {
broadcast use {vp::grp, dd::ax_max, dd::ax_dur, nz::ax_nzu};
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use core::ops::{Add, AddAssign};
} // verus!
//@include lib_sched.vrs
verus! {
pub trait ScheduledOnceWork<T, C: WorkContextProvider>: Sized {
    spec fn id(&self) -> int;
    fn call_work(self, t: Tick, c: &mut C) ensures final(c).ran() == old(c).ran().push(Run { id: self.id(), at: t.n(), done: true });
}
pub trait ScheduledRepeatedWork<T, C: WorkContextProvider>: Sized {
    spec fn id(&self) -> int;
    fn call_work(&mut self, t: Tick, c: &mut C) -> (r: WorkResult)
        ensures final(self).id() == old(self).id(), final(c).ran() == old(c).ran().push(Run { id: old(self).id(), at: t.n(), done: r is Done });
}
pub open spec fn once<W: ScheduledOnceWork<Tick, C>, C: WorkContextProvider>(w: Option<W>, t: Tick) -> Seq<Run> {
    match w { Some(w) => s1(Run { id: w.id(), at: t.n(), done: true }), None => s0() } }

//@replace (work) (tick , context) => work . call_work (tick , context)
//@replace (self . work) (tick_input , context) => self . work . call_work (tick_input , context)

// ---- immediate: runs on the first tick, exactly once
//@struct rx_core_scheduler_ticking TickedImmediateOnceWork
//@fn rx_core_scheduler_ticking TickedImmediateOnceWork::tick args=t,c
  ensures r is Done, final(self).work is None, final(c).ran() =~= old(c).ran() + once(old(self).work, t)
//@end
//@fn rx_core_scheduler_ticking TickedImmediateOnceWork::on_scheduled_hook args=t
  ensures final(self).work == old(self).work
//@end

// ---- delayed: runs exactly once, on the first tick at or after scheduled + delay
//@struct rx_core_scheduler_ticking TickedDelayedOnceWork
//@spec rx_core_scheduler_ticking TickedDelayedOnceWork
    pub closed spec fn now(&self) -> nat { self.current_tick.n() }
    pub closed spec fn due(&self) -> nat { sat(self.scheduled_on.n(), self.delay.n()) }
//@end
//@fn rx_core_scheduler_ticking TickedDelayedOnceWork::tick args=t,c
  ensures final(self).due() == old(self).due(), final(self).now() == later(old(self).now(), t.n()),
    r is Done == (old(self).due() <= final(self).now()),
    if r is Done { final(self).work is None && final(c).ran() =~= old(c).ran() + once(old(self).work, t) }
    else { final(self).work == old(self).work && final(c).ran() == old(c).ran() }
//@@start
  proof { l_tadd(self.scheduled_on, self.delay); }
//@end
//@fn rx_core_scheduler_ticking TickedDelayedOnceWork::on_scheduled_hook args=t
  ensures final(self).work == old(self).work, final(self).delay == old(self).delay,
    final(self).now() == later(old(self).now(), t.n()), final(self).due() == sat(later(old(self).scheduled_on.n(), t.n()), old(self).delay.n())
//@end

// ---- continuous / invoked: once per tick / invocation, what it returns decides
//@struct rx_core_scheduler_ticking TickedContinuousWork
//@fn rx_core_scheduler_ticking TickedContinuousWork::tick args=t,c
  ensures final(self).work.id() == old(self).work.id(), final(c).ran() == old(c).ran().push(Run { id: old(self).work.id(), at: t.n(), done: r is Done })
//@end
//@fn rx_core_scheduler_ticking TickedContinuousWork::on_scheduled_hook args=t
  ensures *final(self) == *old(self)
//@end
//@struct rx_core_scheduler_ticking TickedInvokedWork
//@fn rx_core_scheduler_ticking TickedInvokedWork::tick args=t,c
  ensures final(self).work.id() == old(self).work.id(), final(c).ran() == old(c).ran().push(Run { id: old(self).work.id(), at: t.n(), done: r is Done })
//@end
//@fn rx_core_scheduler_ticking TickedInvokedWork::on_scheduled_hook args=t
  ensures *final(self) == *old(self)
//@end

// ---- repeating: once per elapsed interval (and once at the start when asked), at most `max` times per tick
/// NonZero<usize> (TRUSTED)
pub mod nz { use super::*;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct NonZero<T> { x: T }
impl NonZero<usize> { pub uninterp spec fn v(&self) -> nat; #[verifier::external_body] pub fn vf_get(&self) -> (r: usize) ensures r == self.v(), r > 0 { unimplemented!() }
    #[verifier::external_body] pub fn new(n: usize) -> (r: Option<Self>) ensures n == 0 <==> r is None, r matches Some(x) ==> x.v() == n { unimplemented!() }
    #[verifier::external_body] pub fn vf_min() -> (r: Self) ensures r.v() == 1 { unimplemented!() } }
pub broadcast axiom fn ax_nzu(a: NonZero<usize>) ensures #[trigger] a.v() >= 1; }
pub use nz::*;
//@replace self . max_work_per_tick . into () => self . max_work_per_tick . vf_get ()
/// the runs of one tick: all of this work, all at this tick, none after it reported Done, `n` of them unless it did
pub open spec fn burst(s: Seq<Run>, id: int, at: nat, n: nat, done: bool) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).id == id && s[i].at == at && (s[i].done ==> done)
    &&& s.len() <= n
    &&& (!done ==> s.len() == n)
}
pub open spec fn capped(n: nat, m: nat) -> nat { if n < m { n } else { m } }
/// k intervals elapsed, `imm` of the first run is extra; an interval of zero elapses as often as allowed
pub open spec fn reps(i: nat, k: nat, imm: nat, max: nat) -> nat { if i == 0 { max } else { capped(k + imm, max) } }
pub open spec fn b1(b: bool) -> nat { if b { 1 } else { 0 } }
//@struct rx_core_scheduler_ticking TickedRepeatingWork
//@spec rx_core_scheduler_ticking TickedRepeatingWork
    pub closed spec fn now(&self) -> nat { self.current_tick.n() }
    pub closed spec fn upto(&self) -> nat { self.consumed_until.n() }
    pub closed spec fn every(&self) -> nat { self.interval.n() }
    pub closed spec fn max(&self) -> nat { self.max_work_per_tick.v() }
    pub closed spec fn first(&self) -> bool { self.start_immediately }
//@end
//@fn rx_core_scheduler_ticking TickedRepeatingWork::tick args=t,c
  requires later(old(self).now(), t.n()) < dmax(), later(old(self).now(), t.n()) < usize::MAX, old(self).upto() <= old(self).now()
  ensures final(self).work.id() == old(self).work.id(), final(self).every() == old(self).every(), final(self).max() == old(self).max(), !final(self).first(),
    final(self).now() == later(old(self).now(), t.n()), final(self).upto() <= final(self).now(),
    ({ let i = old(self).every(); let imm = b1(old(self).first()); let now = final(self).now(); let u = old(self).upto();
       exists|s: Seq<Run>, k: nat| final(c).ran() =~= old(c).ran() + s && final(self).upto() == u + k * i
         && #[trigger] burst(s, old(self).work.id(), t.n(), reps(i, k, imm, old(self).max()), r is Done)
         && (i > 0 && r is Pending ==> u + k * i <= now < u + k * i + i) })
//@@before 0
  assert((0 - 0) * self.every() == 0) by (nonlinear_arith);
  assert(executions - b1(old(self).first() && !self.first()) == 0);
//@@loop 0
  invariant_except_break
    self.every() == 0 ==> executions < self.max() || executions == 0,
    work_result is Done ==> !self.first(),
  invariant
    self.work.id() == old(self).work.id(), self.every() == old(self).every(), self.max() == old(self).max(), self.max() >= 1, self.now() == later(old(self).now(), t.n()),
    tick_input == t, self.now() < dmax(), self.now() < usize::MAX, self.upto() <= self.now(), old(self).upto() <= old(self).now(),
    self.first() ==> old(self).first() && executions == 0, old(self).first() && !self.first() ==> executions >= 1,
    self.upto() == old(self).upto() + (executions - b1(old(self).first() && !self.first())) * self.every(),
    self.every() > 0 ==> executions <= self.upto() - old(self).upto() + 1, executions <= self.max() || self.every() > 0,
    pfx(old(c).ran(), context.ran()),
    burst(context.ran().subrange(old(c).ran().len() as int, context.ran().len() as int), old(self).work.id(), t.n(), capped(executions as nat, self.max()), work_result is Done),
  ensures
    !self.first(), self.every() == 0 ==> work_result is Done || executions >= self.max(),
    self.every() > 0 && work_result is Pending ==> self.now() < self.upto() + self.every(),
  decreases self.now() - self.upto() + (if self.every() == 0 { self.max() - executions } else { 0 }) + b1(self.first()) + 1
//@@lstart 0
  let ghost s1 = context.ran();
  let ghost a = *self;
  proof { l_tadd(self.consumed_until, self.interval); }
//@@at if self . interval . is_zero ()
  proof {
    let k = executions - 1 - b1(old(self).first() && !a.first());
    assert((k + 1) * self.every() == k * self.every() + self.every()) by (nonlinear_arith);
    assert(context.ran().subrange(old(c).ran().len() as int, context.ran().len() as int) =~= if context.ran().len() == s1.len() { s1.subrange(old(c).ran().len() as int, s1.len() as int) } else { s1.subrange(old(c).ran().len() as int, s1.len() as int).push(context.ran().last()) });
  }
//@@after 0
  proof {
    l_tadd(self.consumed_until, self.interval);
    let s = context.ran().subrange(old(c).ran().len() as int, context.ran().len() as int);
    let k = (executions - b1(old(self).first())) as nat;
    assert(context.ran() =~= old(c).ran() + s);
    assert(burst(s, old(self).work.id(), t.n(), reps(self.every(), k, b1(old(self).first()), old(self).max()), work_result is Done));
  }
//@@end
//@end
//@fn rx_core_scheduler_ticking TickedRepeatingWork::on_scheduled_hook args=t
  ensures final(self).work == old(self).work, final(self).every() == old(self).every(), final(self).max() == old(self).max(), final(self).first() == old(self).first(),
    final(self).now() == later(old(self).now(), t.n()), final(self).upto() == later(old(self).upto(), t.n())
//@end


// ---- the factories: what a scheduler is handed is what the caller asked for
//@struct rx_core_scheduler_ticking TickedRepeatingWorkFactory nowhere
//@fn rx_core_scheduler_ticking TickedRepeatingWorkFactory::new args=w,i,first,m
  ensures r.work == w, r.every() == i.n(), r.first() == first, r.max() == m.v(), r.now() == 0, r.upto() == 0
//@end
//@struct rx_core_scheduler_ticking TickedContinuousWorkFactory nowhere
//@fn rx_core_scheduler_ticking TickedContinuousWorkFactory::new args=w
  ensures r.work == w
//@end
//@struct rx_core_scheduler_ticking TickedInvokedWorkFactory nowhere
//@fn rx_core_scheduler_ticking TickedInvokedWorkFactory::new args=w
  ensures r.work == w
//@end
//@struct rx_core_scheduler_ticking TickedImmediateOnceWorkFactory nowhere
//@fn rx_core_scheduler_ticking TickedImmediateOnceWorkFactory::new args=w
  ensures r.work == Some(w)
//@end
//@struct rx_core_scheduler_ticking TickedDelayedOnceWorkFactory nowhere
//@fn rx_core_scheduler_ticking TickedDelayedOnceWorkFactory::new args=w,d
  ensures r.work == Some(w), r.delay.n() == d.n(), r.current_tick.n() == 0, r.scheduled_on.n() == 0
//@end

// ---- what a scheduler is handed for each kind of work
pub struct WorkCancellationId(pub usize);
/// the ticking scheduler, as `schedule_work` (s11_executor) sees it: works handed over, with the id they are cancelled by
#[verifier::external_body]
#[verifier::reject_recursive_types(C)]
pub struct TickingScheduler<C> { c: PhantomData<C> }
impl<C: WorkContextProvider> TickingScheduler<C> {
    pub uninterp spec fn got<W>(&self) -> Seq<(W, WorkCancellationId)>;
    #[verifier::external_body]
    pub fn schedule_work<W>(&mut self, w: W, id: WorkCancellationId) ensures final(self).got::<W>() == old(self).got::<W>().push((w, id)) { unimplemented!() }
}
pub open spec fn one_more<C: WorkContextProvider, W>(a: TickingScheduler<C>, b: TickingScheduler<C>, id: WorkCancellationId) -> bool {
    b.got::<W>().len() == a.got::<W>().len() + 1 && b.got::<W>().drop_last() =~= a.got::<W>() && b.got::<W>().last().1 == id
}
//@replace Self :: DelayedWorkFactory :: => TickedDelayedOnceWorkFactory :: < C > ::
//@replace Self :: ImmediateWorkFactory :: => TickedImmediateOnceWorkFactory :: < C > ::
//@replace Self :: ContinuousWorkFactory :: => TickedContinuousWorkFactory :: < C > ::
//@replace Self :: RepeatedWorkFactory :: => TickedRepeatingWorkFactory :: < C > ::
//@replace NonZero :: < usize > :: MIN => NonZero :: < usize > :: vf_min ()
//@replace Self :: WorkContextProvider => C
//@fn rx_core_common SchedulerScheduleWorkExtension::schedule_delayed_work on=impl<C:WorkContextProvider>~TickingScheduler<C> args=w,d,id
  ensures one_more::<C, TickedDelayedOnceWork<Work, C>>(*old(self), *final(self), id), final(self).got::<TickedDelayedOnceWork<Work, C>>().last().0.work == Some(w), final(self).got::<TickedDelayedOnceWork<Work, C>>().last().0.delay.n() == d.n()
//@end
//@fn rx_core_common SchedulerScheduleWorkExtension::schedule_immediate_work on=impl<C:WorkContextProvider>~TickingScheduler<C> args=w,id
  ensures one_more::<C, TickedImmediateOnceWork<Work, C>>(*old(self), *final(self), id), final(self).got::<TickedImmediateOnceWork<Work, C>>().last().0.work == Some(w)
//@end
//@fn rx_core_common SchedulerScheduleWorkExtension::schedule_continuous_work on=impl<C:WorkContextProvider>~TickingScheduler<C> args=w,id
  ensures one_more::<C, TickedContinuousWork<Work, C>>(*old(self), *final(self), id), final(self).got::<TickedContinuousWork<Work, C>>().last().0.work == w
//@end
/// a limit of zero runs per tick means one
//@fn rx_core_common SchedulerScheduleWorkExtension::schedule_repeated_work on=impl<C:WorkContextProvider>~TickingScheduler<C> args=w,i,first,m,id
  ensures one_more::<C, TickedRepeatingWork<Work, C>>(*old(self), *final(self), id), final(self).got::<TickedRepeatingWork<Work, C>>().last().0.work == w,
    final(self).got::<TickedRepeatingWork<Work, C>>().last().0.every() == i.n(), final(self).got::<TickedRepeatingWork<Work, C>>().last().0.first() == first,
    final(self).got::<TickedRepeatingWork<Work, C>>().last().0.max() == (if m == 0 { 1 } else { m as nat })
//@end
} // verus!
fn main() {}
