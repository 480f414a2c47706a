//@include lib_dur.vrs
// lib_sched: ticks, work results
verus! {
//@struct rx_core_scheduler_ticking Tick
impl Copy for Tick {}
impl Clone for Tick { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Tick { pub closed spec fn n(&self) -> nat { self.now.n() }
}
/// derived comparison of the one field (TRUSTED derive)
impl PartialEq for Tick { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl for Tick { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Tick) -> bool { self.n() == o.n() } }
impl PartialOrd for Tick { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl PartialOrdSpecImpl for Tick { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Tick) -> Option<core::cmp::Ordering> { Some(ord(self.n(), o.n())) } }
pub closed spec fn tadd(a: Tick, o: Duration) -> Tick { Tick { now: dur(sat(a.now.n(), o.n())) } }
pub proof fn l_tadd(a: Tick, o: Duration) ensures tadd(a, o).n() == sat(a.n(), o.n()) {}
impl AddSpecImpl<Duration> for Tick {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Duration) -> bool { true }
    open spec fn add_spec(self, o: Duration) -> Tick { tadd(self, o) }
}
impl AddAssignSpecImpl<Duration> for Tick {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: Duration) -> bool { true }
    open spec fn add_assign_spec(&self, o: Duration) -> &Tick { &tadd(*self, o) }
}
//@fn rx_core_scheduler_ticking Tick::new args=now
  ensures r.n() == now.n()
//@end
//@fn rx_core_scheduler_ticking Tick::update args=t
  ensures final(self).n() == if old(self).n() < t.n() { t.n() } else { old(self).n() }
//@end
//@fn rx_core_scheduler_ticking Tick::add args=o trait=Add
  ensures r == tadd(self, o)
//@end
//@fn rx_core_scheduler_ticking Tick::add_assign args=o trait=AddAssign
  ensures *final(self) == tadd(*old(self), o)
//@end
//@fn rx_core_scheduler_ticking Tick::now
  ensures r.n() == self.n()
//@end
impl Add<Duration> for Tick { type Output = Tick; fn add(self, o: Duration) -> (r: Tick) { Tick::add(self, o) } }
impl AddAssign<Duration> for Tick { fn add_assign(&mut self, o: Duration) { Tick::add_assign(self, o) } }
impl Default for Tick { #[verifier::external_body] fn default() -> (r: Tick) ensures r.n() == 0 { unimplemented!() } }

//@enum rx_core_common WorkResult
pub open spec fn wsum(a: WorkResult, b: WorkResult) -> WorkResult { if a is Done || b is Done { WorkResult::Done } else { WorkResult::Pending } }
impl AddAssignSpecImpl<WorkResult> for WorkResult {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: WorkResult) -> bool { true }
    open spec fn add_assign_spec(&self, o: WorkResult) -> &WorkResult { &wsum(*self, o) }
}
//@fn rx_core_common WorkResult::add_assign args=o trait=AddAssign
  ensures *final(self) == wsum(*old(self), o)
//@end
impl AddAssign<WorkResult> for WorkResult { fn add_assign(&mut self, o: WorkResult) { WorkResult::add_assign(self, o) } }

// ---- the user's work: the context records which work ran at what tick and whether it reported Done
pub ghost struct Run { pub id: int, pub at: nat, pub done: bool }
pub trait WorkContextProvider: Sized { spec fn ran(&self) -> Seq<Run>; }
pub open spec fn later(a: nat, b: nat) -> nat { if a < b { b } else { a } }
//@replace & mut C :: Item < '_ > => & mut C
//@replace Self :: Tick => Tick
} // verus!
