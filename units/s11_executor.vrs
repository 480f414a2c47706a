//@include prelude.vrs
verus! {
broadcast use {vp::grp, dd::ax_max, dd::ax_dur};
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
use core::ops::{Add, AddAssign};
} // verus!
//@include lib_sched.vrs
verus! {
impl VfIntoIt for core::ops::RangeInclusive<usize> {
    type T = usize;
    open spec fn vf_items(&self) -> Seq<usize> { Seq::new((self@.end - self@.start + 1) as nat, |i: int| (self@.start + i) as usize) }
    #[verifier::external_body]
    fn vf_it(self) -> (r: VfIt<usize>) { unimplemented!() }
}
// ---- ids (TRUSTED derives: structural equality)
macro_rules! vf_id { ($i:ident) => { verus! {
pub struct $i(pub usize);
impl Copy for $i {}
impl Clone for $i { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEq for $i { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl for $i { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &$i) -> bool { *self == *o } }
} } }
vf_id!(WorkId);
vf_id!(WorkInvokeId);
vf_id!(WorkCancellationId);
//@struct rx_core_scheduler_ticking WorkIdGenerator
impl Default for WorkIdGenerator { #[verifier::external_body] fn default() -> Self { unimplemented!() } }
//@spec rx_core_scheduler_ticking WorkIdGenerator
    pub closed spec fn nth(&self) -> usize { self.current_index }
//@end
pub open spec fn nxt(n: usize) -> usize { if n == usize::MAX { 0 } else { (n + 1) as usize } }
//@fn rx_core_scheduler_ticking WorkIdGenerator::get_next
  ensures r == WorkId(old(self).nth()), final(self).nth() == nxt(old(self).nth())
//@end

// ---- the scheduled work, as the works' own contracts in s11_work state them: one call, at the given tick
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(C)]
pub struct Wk<T, C> { x: PhantomData<(T, C)> }
impl<C: WorkContextProvider> Wk<Tick, C> {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn tick(&mut self, t: Tick, c: &mut C) -> (r: WorkResult)
        ensures final(self).id() == old(self).id(), final(c).ran() == old(c).ran().push(Run { id: old(self).id(), at: t.n(), done: r is Done }) { unimplemented!() }
}
//@replace Box < dyn ScheduledWork < Tick = Tick , WorkContextProvider = C > + Send + Sync > => Wk < Tick , C >
//@replace HashMap < => VfMap <
//@replace HashSet < => VfSet <
//@replace IndexMap < => VfOMap <
//@replace IndexMap :: default => VfOMap :: default
//@replace HashMap :: default => VfMap :: default
//@replace HashMap :: new => VfMap :: default
//@replace HashSet :: new => VfSet :: default
//@replace SchedulerHandle < S > => Lk < S >
//@replace SchedulerHandle :: new => Lk :: new
//@replace self . scheduler . lock () => self . scheduler . lock_ignore_poison ()
//@replace ScheduledWorkAction :: < Tick , C > :: Activate => ScheduledWorkAction :: Activate

/// HashMap / HashSet / IndexMap (insertion order, kept by shift_remove) with structurally equal keys (TRUSTED)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VfMap<K, V> { k: PhantomData<K>, v: PhantomData<V> }
impl<K, V> View for VfMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> VfMap<K, V> {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>) ensures match r {
        Some(v) => old(self)@.dom().contains(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
        None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r == if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
impl<K, T> VfMap<K, Vec<T>> {
    #[verifier::external_body]
    pub fn vf_entry_or_default(&mut self, k: K) -> (r: &mut Vec<T>) ensures r@ == if old(self)@.dom().contains(k) { old(self)@[k]@ } else { Seq::empty() }, final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
}
impl<K, V> Default for VfMap<K, V> { #[verifier::external_body] fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() } }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct VfSet<K> { k: PhantomData<K> }
impl<K> View for VfSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
impl<K> VfSet<K> {
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<K>::empty() { unimplemented!() }
}
impl<K> Default for VfSet<K> { #[verifier::external_body] fn default() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() } }
/// the elements of `s` satisfying `p`, in order
pub open spec fn only<K>(s: Seq<K>, p: spec_fn(K) -> bool) -> Seq<K> decreases s.len() {
    if s.len() == 0 { s } else { let r = only(s.drop_last(), p); if p(s.last()) { r.push(s.last()) } else { r } } }
pub open spec fn but<K>(k: K) -> spec_fn(K) -> bool { |x: K| x != k }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VfOMap<K, V> { k: PhantomData<K>, v: PhantomData<V> }
impl<K, V> View for VfOMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> VfOMap<K, V> {
    /// the keys in insertion order
    pub uninterp spec fn order(&self) -> Seq<K>;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.order().len() == 0), r == (self@.dom() =~= Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_keys(&self) -> (r: Vec<K>) ensures r@ == self.order(), r@.no_duplicates(), forall|k: K| #[trigger] r@.contains(k) <==> self@.dom().contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_get_mut(&mut self, k: K) -> (r: &mut V) requires old(self)@.dom().contains(k) ensures *r == old(self)@[k], final(self)@ == old(self)@.insert(k, *final(r)), final(self).order() == old(self).order() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v),
        final(self).order() == if old(self)@.dom().contains(k) { old(self).order() } else { old(self).order().push(k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn shift_remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), final(self).order() == only(old(self).order(), but(*k)) { unimplemented!() }
}
impl<K, V> Default for VfOMap<K, V> { #[verifier::external_body] fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty(), r.order() == Seq::<K>::empty() { unimplemented!() } }

//@replace # [derive_where (skip)] (Work => (Work
//@replace Box < dyn ScheduledWork < Tick = TickInput , WorkContextProvider = Context > + Send + Sync > => Wk < TickInput , Context >
//@replace S : Scheduler < Tick = Tick , WorkContextProvider = C > => S : SchedulerForTickingExecutor < WorkContextProvider = C >
//@replace S : SchedulerForTickingExecutor < Tick = Tick , WorkContextProvider = C > => S : SchedulerForTickingExecutor < WorkContextProvider = C >
//@replace & mut C :: Item < '_ > => & mut C
//@enum rx_core_common ScheduledWorkAction
pub type Act<C> = ScheduledWorkAction<Tick, C>;
pub trait SchedulerForTickingExecutor: Sized {
    type WorkContextProvider: WorkContextProvider;
    spec fn queue(&self) -> Seq<Act<Self::WorkContextProvider>>;
    spec fn time(&self) -> nat;
    fn has_actions(&self) -> (r: bool) ensures r == (self.queue().len() > 0);
    fn update_tick(&mut self, t: Tick) ensures final(self).queue() == old(self).queue(), final(self).time() == later(old(self).time(), t.n());
    fn drain_actions(&mut self) -> (r: Vec<Act<Self::WorkContextProvider>>) ensures r@ == old(self).queue(), final(self).queue().len() == 0, final(self).time() == old(self).time();
}
//@replace . drain_actions ( ) . collect ( ) => . drain_actions ( )
//@struct rx_core_scheduler_ticking TickingSchedulerExecutor

// ---- what the queued actions do, in order
#[verifier::reject_recursive_types(C)]
pub ghost struct St<C> { pub work: Map<WorkId, Wk<Tick, C>>, pub order: Seq<WorkId>, pub owner: Map<WorkCancellationId, Seq<WorkId>>, pub inv: Map<WorkInvokeId, Wk<Tick, C>>, pub called: Seq<WorkInvokeId>, pub next: usize, pub depth: usize }
pub open spec fn del_all<K, V>(m: Map<K, V>, o: Seq<K>, ks: Seq<K>) -> (Map<K, V>, Seq<K>) decreases ks.len() {
    if ks.len() == 0 { (m, o) } else { let r = del_all(m, o, ks.drop_last()); (r.0.remove(ks.last()), only(r.1, but(ks.last()))) } }
pub open spec fn at_key<K, T>(m: Map<K, Seq<T>>, k: K) -> Seq<T> { if m.dom().contains(k) { m[k] } else { Seq::empty() } }
/// Activate: a fresh id, owned by the cancellation id. Cancel: all work owned is gone before it can tick.
/// AddInvoked / Invoke / CancelInvoked: the invocations of the cancelled id, and only those, are dropped.
pub open spec fn act<C: WorkContextProvider>(s: St<C>, a: Act<C>) -> St<C> { match a {
    ScheduledWorkAction::Activate((c, w)) => { let k = WorkId(s.next); St { work: s.work.insert(k, w), order: if s.work.dom().contains(k) { s.order } else { s.order.push(k) },
        owner: s.owner.insert(c, at_key(s.owner, c).push(k)), next: nxt(s.next), ..s } }
    ScheduledWorkAction::Cancel(c) => { let r = del_all(s.work, s.order, at_key(s.owner, c)); St { work: r.0, order: r.1, owner: s.owner.remove(c), ..s } }
    ScheduledWorkAction::AddInvoked((i, w)) => St { inv: s.inv.insert(i, w), ..s },
    ScheduledWorkAction::Invoke(i) => St { called: s.called.push(i), ..s },
    ScheduledWorkAction::CancelInvoked(i) => St { inv: s.inv.remove(i), called: only(s.called, but(i)), ..s },
} }
pub open spec fn acts<C: WorkContextProvider>(s: St<C>, q: Seq<Act<C>>) -> St<C> decreases q.len() { if q.len() == 0 { s } else { act(acts(s, q.drop_last()), q.last()) } }
pub open spec fn same_st<C>(a: St<C>, b: St<C>) -> bool { a.work =~= b.work && a.order =~= b.order && a.owner =~= b.owner && a.inv =~= b.inv && a.called =~= b.called && a.next == b.next && a.depth == b.depth }
pub open spec fn seqs<K, T>(m: Map<K, Vec<T>>) -> Map<K, Seq<T>> { m.map_values(|v: Vec<T>| v@) }
//@spec rx_core_scheduler_ticking TickingSchedulerExecutor
    pub open spec fn st(&self) -> St<C> { St { work: self.active_work@, order: self.active_work.order(), owner: seqs(self.cancellation_map@), inv: self.invokable_work@, called: self.invoked@, next: self.work_id_generator.nth(), depth: self.max_single_tick_recursion_depth } }
    pub open spec fn ticked(&self) -> Set<WorkId> { self.already_ticked@ }
    pub open spec fn time(&self) -> nat { self.current_tick.n() }
//@end
//@fn rx_core_scheduler_ticking TickingSchedulerExecutor::new args=s
  ensures r.st().work.dom() =~= Set::<WorkId>::empty(), r.st().order.len() == 0, r.st().owner =~= Map::<WorkCancellationId, Seq<WorkId>>::empty(), r.st().inv.dom() =~= Set::<WorkInvokeId>::empty(), r.st().called.len() == 0,
    r.time() == 0, r.scheduler@ == s
//@end
//@fn rx_core_scheduler_ticking TickingSchedulerExecutor::is_empty
  ensures r == (self.st().work.dom() =~= Set::<WorkId>::empty() && self.st().inv.dom() =~= Set::<WorkInvokeId>::empty())
//@end
//@fn rx_core_scheduler_ticking TickingSchedulerExecutor::get_current_tick
  ensures r.n() == self.time()
//@end
//@fn rx_core_scheduler_ticking TickingSchedulerExecutor::now
  ensures r.n() == self.time()
//@end
//@fn rx_core_scheduler_ticking TickingSchedulerExecutor::drain_scheduler_queue args=t
  ensures same_st(final(self).st(), acts(old(self).st(), old(self).scheduler@.queue())), r == (old(self).scheduler@.queue().len() > 0),
    final(self).scheduler@.queue().len() == 0, final(self).scheduler@.time() == later(old(self).scheduler@.time(), t.n()),
    final(self).ticked() == old(self).ticked(), final(self).time() == old(self).time()
//@@start
  let ghost q = self.scheduler@.queue();
  let ghost s0 = self.st();
//@@before 0
  assert(q.take(0) =~= Seq::empty());
//@@loop 0
  invariant
    vf_it_0.rem().len() <= q.len(), vf_it_0.rem() =~= q.skip(q.len() - vf_it_0.rem().len()),
    same_st(self.st(), acts(s0, q.take(q.len() - vf_it_0.rem().len()))),
    self.scheduler@.queue().len() == 0, self.scheduler@.time() == later(old(self).scheduler@.time(), t.n()),
    self.ticked() == old(self).ticked(), self.time() == old(self).time()
  decreases vf_it_0.rem().len()
//@@lstart 0
  let ghost n = q.len() - vf_it_0.rem().len();
  let ghost a = self.st();
  proof { assert(same_st(a, acts(s0, q.take(n)))); assert(a == acts(s0, q.take(n))); assert(q.take(n + 1).drop_last() =~= q.take(n)); assert(q.take(n + 1).last() == vf_it_0.rem()[0]); assert(acts(s0, q.take(n + 1)) == act(a, vf_it_0.rem()[0])); }
//@@loop 1
  invariant
    vf_it_1.rem().len() <= a.called.len(), vf_it_1.rem() =~= a.called.skip(a.called.len() - vf_it_1.rem().len()),
    vf_kept@ =~= only(a.called.take(a.called.len() - vf_it_1.rem().len()), but(cancelled_invocation_id)),
    same_st(self.st(), St { inv: a.inv.remove(cancelled_invocation_id), called: Seq::empty(), ..a }),
    self.ticked() == old(self).ticked(), self.time() == old(self).time()
  decreases vf_it_1.rem().len()
//@@lstart 1
  let ghost m = a.called.len() - vf_it_1.rem().len();
  proof { assert(a.called.take(m + 1).drop_last() =~= a.called.take(m)); assert(a.called.take(m + 1).last() == vf_it_1.rem()[0]); }
//@@after 1
  assert(a.called.take(a.called.len() as int) =~= a.called);
//@@loop 2
  invariant
    self.ticked() == old(self).ticked(), self.time() == old(self).time(),
    vf_it_2.rem().len() <= ks.len(), vf_it_2.rem() =~= ks.skip(ks.len() - vf_it_2.rem().len()),
    same_st(self.st(), ({ let r = del_all(a.work, a.order, ks.take(ks.len() - vf_it_2.rem().len())); St { work: r.0, order: r.1, owner: a.owner.remove(cancelled_id), ..a } })),
  decreases vf_it_2.rem().len()
//@@before 2
  let ghost ks = at_key(a.owner, cancelled_id);
  assert(ks.take(0) =~= Seq::empty());
//@@lstart 2
  let ghost m = ks.len() - vf_it_2.rem().len();
  proof { assert(ks.take(m + 1).drop_last() =~= ks.take(m)); assert(ks.take(m + 1).last() == vf_it_2.rem()[0]); }
//@@after 0
  assert(q.take(q.len() as int) =~= q);
//@@after 2
  assert(ks.take(ks.len() as int) =~= ks);
//@end

// ---- one pass over the active work: each one not yet ticked in this tick ticks once, in schedule order
pub open spec fn fresh(t: Set<WorkId>) -> spec_fn(WorkId) -> bool { |x: WorkId| !t.contains(x) }
pub open spec fn ids_of<C: WorkContextProvider>(m: Map<WorkId, Wk<Tick, C>>) -> Map<WorkId, int> { m.map_values(|w: Wk<Tick, C>| w.id()) }
/// the runs of the works `ks`, one each
pub open spec fn each_once(r: Seq<Run>, ks: Seq<WorkId>, ids: Map<WorkId, int>, at: nat) -> bool {
    r.len() == ks.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).id == ids[ks[i]] && r[i].at == at }
pub open spec fn finished(r: Seq<Run>, ks: Seq<WorkId>) -> Seq<WorkId> decreases ks.len() {
    if ks.len() == 0 || r.len() != ks.len() { Seq::empty() } else { let f = finished(r.drop_last(), ks.drop_last()); if r.last().done { f.push(ks.last()) } else { f } } }
pub open spec fn since(a: Seq<Run>, b: Seq<Run>) -> Seq<Run> { b.skip(a.len() as int) }
pub proof fn l_only<K>(s: Seq<K>, p: spec_fn(K) -> bool, k: K) requires s.contains(k), p(k) ensures only(s, p).len() > 0 decreases s.len() {
    let i = s.index_of(k); if i < s.len() - 1 { assert(s.drop_last()[i] == k); l_only(s.drop_last(), p, k); }
}
pub proof fn l_to_set<A>(s: Seq<A>, a: A) ensures s.push(a).to_set() =~= s.to_set().insert(a) {
    assert forall|x: A| #[trigger] s.push(a).contains(x) == (s.contains(x) || x == a) by { if s.contains(x) { let i = s.index_of(x); assert(s.push(a)[i] == x); } if x == a { assert(s.push(a)[s.len() as int] == a); } }
}
//@fn rx_core_scheduler_ticking TickingSchedulerExecutor::tick_scheduled args=t,c
  ensures
    ({ let due = only(old(self).st().order, fresh(old(self).ticked())); let r0 = since(old(c).ran(), final(c).ran()); let gone = finished(r0, due);
       let left = del_all(ids_of(old(self).st().work), old(self).st().order, gone);
       &&& pfx(old(c).ran(), final(c).ran()) && each_once(r0, due, ids_of(old(self).st().work), t.n())
       &&& ids_of(final(self).st().work) =~= left.0 && final(self).st().order =~= left.1
       &&& final(self).ticked() =~= old(self).ticked() + due.to_set()
       &&& r == (due.len() == 0) && (r ==> forall|k: WorkId| #[trigger] final(self).st().work.dom().contains(k) ==> old(self).ticked().contains(k)) }),
    final(self).st().owner == old(self).st().owner, final(self).st().inv == old(self).st().inv, final(self).st().called == old(self).st().called, final(self).st().next == old(self).st().next, final(self).st().depth == old(self).st().depth,
    final(self).time() == old(self).time()
//@@start
  let ghost o = self.st();
  let ghost t0 = self.ticked();
  let ghost ids = ids_of(o.work);
  let ghost keys = o.order;
//@@before 0
  assert(keys.take(0) =~= Seq::empty());
//@@loop 0
  invariant
    o == old(self).st(), ids == ids_of(o.work), keys == o.order, t0 == self.ticked(), tick == t, self.st().order == keys, self.st().owner == o.owner, self.st().inv == o.inv, self.st().called == o.called, self.st().next == o.next, self.st().depth == o.depth, self.time() == old(self).time(),
    forall|k: WorkId| #[trigger] keys.contains(k) <==> o.work.dom().contains(k), ids_of(self.st().work) =~= ids,
    vf_it_0.rem().len() <= keys.len(), vf_it_0.rem() =~= keys.skip(keys.len() - vf_it_0.rem().len()),
    work_ticked@ =~= only(keys.take(keys.len() - vf_it_0.rem().len()), fresh(t0)),
    pfx(old(c).ran(), context.ran()), each_once(since(old(c).ran(), context.ran()), work_ticked@, ids, t.n()),
    work_finished_this_tick@ =~= finished(since(old(c).ran(), context.ran()), work_ticked@),
  decreases vf_it_0.rem().len()
//@@lstart 0
  let ghost n = keys.len() - vf_it_0.rem().len();
  let ghost w0 = work_ticked@;
  let ghost r0 = since(old(c).ran(), context.ran());
  proof { assert(keys.take(n + 1).drop_last() =~= keys.take(n)); assert(keys.take(n + 1).last() == vf_it_0.rem()[0]); assert(keys.contains(keys[n])); assert(ids.dom().contains(keys[n])); assert(self.st().work.dom() =~= ids_of(self.st().work).dom()); assert(ids_of(self.st().work)[keys[n]] == ids[keys[n]]); }
//@@lend 0
  proof { if work_ticked@ != w0 {
    let r1 = since(old(c).ran(), context.ran());
    assert(r1.drop_last() =~= r0); assert(work_ticked@.drop_last() =~= w0); assert(r1 =~= r0.push(r1.last())); assert(work_ticked@ =~= w0.push(keys[n]));
    assert(r1.last().id == ids[keys[n]] && r1.last().at == t.n());
    assert(each_once(r1, work_ticked@, ids, t.n())) by { assert forall|i: int| 0 <= i < r1.len() implies (#[trigger] r1[i]).id == ids[work_ticked@[i]] && r1[i].at == t.n() by { if i < r0.len() { assert(r1[i] == r0[i]); } } } } }
//@@after 0
  assert(keys.take(keys.len() as int) =~= keys);
  let ghost due = work_ticked@;
  proof { if due.len() == 0 { assert forall|k: WorkId| o.work.dom().contains(k) implies #[trigger] t0.contains(k) by { if !t0.contains(k) { l_only(keys, fresh(t0), k); } } } }
  let ghost gone = work_finished_this_tick@;
//@@before 1
  assert(due.take(0).to_set() =~= Set::empty());
//@@loop 1
  invariant
    o == old(self).st(), self.st().order == keys, ids_of(self.st().work) =~= ids, self.st().owner == o.owner, self.st().inv == o.inv, self.st().called == o.called, self.st().next == o.next, self.st().depth == o.depth, self.time() == old(self).time(),
    vf_it_1.rem().len() <= due.len(), vf_it_1.rem() =~= due.skip(due.len() - vf_it_1.rem().len()),
    self.ticked() =~= t0 + due.take(due.len() - vf_it_1.rem().len()).to_set()
  decreases vf_it_1.rem().len()
//@@lstart 1
  let ghost m = due.len() - vf_it_1.rem().len();
  proof { assert(due.take(m + 1) =~= due.take(m).push(vf_it_1.rem()[0])); l_to_set(due.take(m), vf_it_1.rem()[0]); }
//@@after 1
  assert(due.take(due.len() as int) =~= due);
//@@before 2
  assert(gone.take(0) =~= Seq::empty());
//@@loop 2
  invariant
    o == old(self).st(), self.ticked() =~= t0 + due.to_set(), self.st().owner == o.owner, self.st().inv == o.inv, self.st().called == o.called, self.st().next == o.next, self.st().depth == o.depth, self.time() == old(self).time(),
    vf_it_2.rem().len() <= gone.len(), vf_it_2.rem() =~= gone.skip(gone.len() - vf_it_2.rem().len()),
    ids_of(self.st().work) =~= del_all(ids, keys, gone.take(gone.len() - vf_it_2.rem().len())).0,
    self.st().order =~= del_all(ids, keys, gone.take(gone.len() - vf_it_2.rem().len())).1,
  decreases vf_it_2.rem().len()
//@@lstart 2
  let ghost m = gone.len() - vf_it_2.rem().len();
  proof { assert(gone.take(m + 1).drop_last() =~= gone.take(m)); assert(gone.take(m + 1).last() == vf_it_2.rem()[0]); }
//@@after 2
  assert(gone.take(gone.len() as int) =~= gone);
//@end

// ---- invoked work: once per invocation, as long as it is there and has not reported Done
pub open spec fn call1<C: WorkContextProvider>(m: Map<WorkInvokeId, Wk<Tick, C>>, n: Map<WorkInvokeId, Wk<Tick, C>>, r: Seq<Run>, s: Seq<Run>, k: WorkInvokeId, at: nat) -> bool {
    if m.dom().contains(k) { s.len() == r.len() + 1 && pfx(r, s) && s.last().id == m[k].id() && s.last().at == at
        && if s.last().done { n =~= m.remove(k) } else { n.dom() =~= m.dom() && n[k].id() == m[k].id() && n.remove(k) =~= m.remove(k) } }
    else { s == r && n =~= m } }
pub open spec fn calls<C: WorkContextProvider>(m: Map<WorkInvokeId, Wk<Tick, C>>, n: Map<WorkInvokeId, Wk<Tick, C>>, r: Seq<Run>, s: Seq<Run>, q: Seq<WorkInvokeId>, at: nat) -> bool decreases q.len() {
    if q.len() == 0 { n =~= m && s == r } else { exists|x: Map<WorkInvokeId, Wk<Tick, C>>, y: Seq<Run>| calls(m, x, r, y, q.drop_last(), at) && #[trigger] call1(x, n, y, s, q.last(), at) } }
//@fn rx_core_scheduler_ticking TickingSchedulerExecutor::execute_invoked args=t,c
  ensures calls(old(self).st().inv, final(self).st().inv, old(c).ran(), final(c).ran(), old(self).st().called, t.n()), final(self).st().called.len() == 0,
    final(self).st().work == old(self).st().work, final(self).st().order == old(self).st().order, final(self).st().owner == old(self).st().owner, final(self).st().next == old(self).st().next, final(self).st().depth == old(self).st().depth,
    final(self).ticked() == old(self).ticked(), final(self).time() == old(self).time()
//@@start
  let ghost o = self.st();
  let ghost q = o.called;
//@@before 0
  assert(q.take(0) =~= Seq::empty());
//@@loop 0
  invariant
    o == old(self).st(), q == o.called, tick == t, self.st().called.len() == 0, self.st().work == o.work, self.st().order == o.order, self.st().owner == o.owner, self.st().next == o.next, self.st().depth == o.depth,
    self.ticked() == old(self).ticked(), self.time() == old(self).time(),
    vf_it_0.rem().len() <= q.len(), vf_it_0.rem() =~= q.skip(q.len() - vf_it_0.rem().len()),
    calls(o.inv, self.st().inv, old(c).ran(), context.ran(), q.take(q.len() - vf_it_0.rem().len()), t.n()),
  decreases vf_it_0.rem().len()
//@@lstart 0
  let ghost n = q.len() - vf_it_0.rem().len();
  let ghost m1 = self.st().inv;
  let ghost r1 = context.ran();
  proof { assert(q.take(n + 1).drop_last() =~= q.take(n)); assert(q.take(n + 1).last() == vf_it_0.rem()[0]); }
//@@lend 0
  proof { assert(calls(o.inv, m1, old(c).ran(), r1, q.take(n + 1).drop_last(), t.n())); assert(q.take(n + 1).last() == q[n]); assert(call1(m1, self.st().inv, r1, context.ran(), q[n], t.n())); assert(calls(o.inv, self.st().inv, old(c).ran(), context.ran(), q.take(n + 1), t.n())); }
//@@after 0
  assert(q.take(q.len() as int) =~= q);
//@end
pub proof fn l_depth<C: WorkContextProvider>(s: St<C>, q: Seq<Act<C>>) ensures acts(s, q).depth == s.depth decreases q.len() { if q.len() > 0 { l_depth(s, q.drop_last()); } }
pub proof fn l_calls<C: WorkContextProvider>(m: Map<WorkInvokeId, Wk<Tick, C>>, n: Map<WorkInvokeId, Wk<Tick, C>>, r: Seq<Run>, s: Seq<Run>, q: Seq<WorkInvokeId>, at: nat)
    requires calls(m, n, r, s, q, at) ensures pfx(r, s) decreases q.len() {
    if q.len() > 0 { let (x, y) = choose|x: Map<WorkInvokeId, Wk<Tick, C>>, y: Seq<Run>| calls(m, x, r, y, q.drop_last(), at) && #[trigger] call1(x, n, y, s, q.last(), at); l_calls(m, x, r, y, q.drop_last(), at); }
}
//@fn rx_core_scheduler_ticking TickingSchedulerExecutor::tick_to asserts args=t,c
  ensures final(self).time() == later(old(self).time(), t.n()), final(self).st().called.len() == 0, pfx(old(c).ran(), final(c).ran()),
    forall|k: WorkId| #[trigger] final(self).st().work.dom().contains(k) ==> final(self).ticked().contains(k)
//@@start
  let ghost mx = self.st().depth;
//@@loop 0
  invariant_except_break
    mx == self.st().depth, vf_it_0.rem().len() > 0, vf_it_0.rem().last() == mx, forall|i: int| 0 <= i < vf_it_0.rem().len() ==> #[trigger] vf_it_0.rem()[i] == mx - (vf_it_0.rem().len() - 1 - i),
    self.time() == later(old(self).time(), t.n()), pfx(old(c).ran(), context.ran()), tick == t,
  ensures
    self.time() == later(old(self).time(), t.n()), self.st().called.len() == 0, pfx(old(c).ran(), context.ran()),
    forall|k: WorkId| #[trigger] self.st().work.dom().contains(k) ==> self.ticked().contains(k)
  decreases vf_it_0.rem().len()
//@@lstart 0
  let ghost r0 = context.ran();
  proof { l_depth(self.st(), self.scheduler@.queue()); }
//@@at self . execute_invoked (
  let ghost r1 = context.ran();
  let ghost a1 = *self;
//@@post self . execute_invoked (
  proof { l_calls(a1.st().inv, self.st().inv, r1, context.ran(), a1.st().called, t.n()); }
//@end
//@fn rx_core_scheduler_ticking TickingSchedulerExecutor::tick args=d,c
  ensures final(self).time() == sat(old(self).time(), d.n()), final(self).st().called.len() == 0, pfx(old(c).ran(), final(c).ran()),
    forall|k: WorkId| #[trigger] final(self).st().work.dom().contains(k) ==> final(self).ticked().contains(k)
//@@start
  proof { l_tadd(self.current_tick, d); }
//@end

// ---- the scheduler: every call appends exactly its own action, work learns when it was scheduled
pub trait ScheduledWork<C>: Sized {
    spec fn id(&self) -> int;
    spec fn since(&self) -> nat;
    fn on_scheduled_hook(&mut self, t: Tick) ensures final(self).id() == old(self).id(), final(self).since() == t.n();
}
pub uninterp spec fn boxed<W, C>(w: W) -> Wk<Tick, C>;
#[verifier::external_body]
pub fn vf_box<W, C>(w: W) -> (r: Wk<Tick, C>) ensures r == boxed::<W, C>(w) { unimplemented!() }
//@replace Box :: new (work) => vf_box (work)
//@replace W : ScheduledWork < Tick = Tick , WorkContextProvider = C > => W : ScheduledWork < C >
//@replace W : ScheduledWork < Tick = Self :: Tick , WorkContextProvider = Self :: WorkContextProvider > => W : ScheduledWork < C >
//@struct rx_core_common WorkCancellationIdGenerator
//@struct rx_core_common WorkInvokeIdGenerator
//@spec rx_core_common WorkCancellationIdGenerator
    pub closed spec fn nth(&self) -> usize { self.current_index }
//@end
//@spec rx_core_common WorkInvokeIdGenerator
    pub closed spec fn nth(&self) -> usize { self.current_index }
//@end
//@fn rx_core_common WorkCancellationIdGenerator::get_next
  requires old(self).nth() < usize::MAX
  ensures r == WorkCancellationId(old(self).nth()), final(self).nth() == old(self).nth() + 1
//@end
//@fn rx_core_common WorkInvokeIdGenerator::get_next
  requires old(self).nth() < usize::MAX
  ensures r == WorkInvokeId(old(self).nth()), final(self).nth() == old(self).nth() + 1
//@end
//@replace Drain < '_ , ScheduledWorkAction < Tick , C > > => Vec < ScheduledWorkAction < Tick , C > >
//@struct rx_core_scheduler_ticking TickingScheduler
//@macro act NAME ARGS ACTION
//@fn rx_core_scheduler_ticking TickingScheduler::$NAME args=$ARGS
  ensures final(self).action_queue@ =~= old(self).action_queue@.push($ACTION), final(self).current_tick == old(self).current_tick,
    final(self).cancellation_id_generator == old(self).cancellation_id_generator, final(self).invoke_id_generator == old(self).invoke_id_generator
//@end
//@endmacro
//@use act invoke i ScheduledWorkAction::Invoke(i)
//@use act cancel_invoked i ScheduledWorkAction::CancelInvoked(i)
//@use act cancel i ScheduledWorkAction::Cancel(i)
//@fn rx_core_scheduler_ticking TickingScheduler::schedule_work args=w,i
  ensures exists|x: W| #[trigger] boxed::<W, C>(x) == boxed::<W, C>(x) && x.id() == w.id() && x.since() == old(self).current_tick.n()
      && final(self).action_queue@ =~= old(self).action_queue@.push(ScheduledWorkAction::Activate((i, boxed::<W, C>(x)))),
    final(self).current_tick == old(self).current_tick,
    final(self).cancellation_id_generator == old(self).cancellation_id_generator, final(self).invoke_id_generator == old(self).invoke_id_generator
//@end
//@fn rx_core_scheduler_ticking TickingScheduler::schedule_invoked_work args=w,i
  ensures exists|x: W| #[trigger] boxed::<W, C>(x) == boxed::<W, C>(x) && x.id() == w.id() && x.since() == old(self).current_tick.n()
      && final(self).action_queue@ =~= old(self).action_queue@.push(ScheduledWorkAction::AddInvoked((i, boxed::<W, C>(x)))),
    final(self).current_tick == old(self).current_tick,
    final(self).cancellation_id_generator == old(self).cancellation_id_generator, final(self).invoke_id_generator == old(self).invoke_id_generator
//@end
//@fn rx_core_scheduler_ticking TickingScheduler::generate_cancellation_id
  requires old(self).cancellation_id_generator.nth() < usize::MAX
  ensures r == WorkCancellationId(old(self).cancellation_id_generator.nth()), final(self).cancellation_id_generator.nth() == old(self).cancellation_id_generator.nth() + 1,
    final(self).action_queue@ == old(self).action_queue@, final(self).current_tick == old(self).current_tick, final(self).invoke_id_generator == old(self).invoke_id_generator
//@end
//@fn rx_core_scheduler_ticking TickingScheduler::generate_invoke_id
  requires old(self).invoke_id_generator.nth() < usize::MAX
  ensures r == WorkInvokeId(old(self).invoke_id_generator.nth()), final(self).invoke_id_generator.nth() == old(self).invoke_id_generator.nth() + 1,
    final(self).action_queue@ == old(self).action_queue@, final(self).current_tick == old(self).current_tick, final(self).cancellation_id_generator == old(self).cancellation_id_generator
//@end
//@fn rx_core_scheduler_ticking TickingScheduler::has_actions
  ensures r == (self.action_queue@.len() > 0)
//@end
//@fn rx_core_scheduler_ticking TickingScheduler::update_tick args=t
  ensures final(self).current_tick.n() == later(old(self).current_tick.n(), t.n()), final(self).action_queue@ == old(self).action_queue@
//@end
//@fn rx_core_scheduler_ticking TickingScheduler::drain_actions
  ensures r@ == old(self).action_queue@, final(self).action_queue@.len() == 0, final(self).current_tick == old(self).current_tick
//@end

} // verus!
fn main() {}
