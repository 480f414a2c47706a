// core::time::Duration (needs the operator spec `use`s at the top of the unit)
verus! {
//@replace Duration :: ZERO => Duration :: default ()
// ---- TRUSTED: core::time::Duration as a saturating number of nanoseconds
pub mod dd { use super::*;
#[verifier::external_body]
pub struct Duration { x: u64 }
pub uninterp spec fn dmax() -> nat;
pub uninterp spec fn dur(n: nat) -> Duration;
impl Copy for Duration {}
impl Clone for Duration { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Duration {
    pub uninterp spec fn n(&self) -> nat;
    #[verifier::external_body]
    pub fn saturating_add(self, o: Duration) -> (r: Duration) ensures r == dur(sat(self.n(), o.n())) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.n() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Duration) ensures r == dur(0) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_secs(s: u64) -> (r: Duration) ensures r.n() == 1_000_000_000 * s { unimplemented!() }
    #[verifier::external_body]
    pub fn from_millis(s: u64) -> (r: Duration) ensures r.n() == 1_000_000 * s { unimplemented!() }
}
pub open spec fn sat(a: nat, b: nat) -> nat { if a + b > dmax() { dmax() } else { a + b } }
pub broadcast axiom fn ax_max(a: Duration) ensures #[trigger] a.n() <= dmax();
pub broadcast axiom fn ax_dur(n: nat) requires n <= dmax() ensures #[trigger] dur(n).n() == n;
}
pub use dd::*;
pub open spec fn ord(a: nat, b: nat) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
impl PartialEq for Duration { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl for Duration { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Duration) -> bool { self.n() == o.n() } }
impl PartialOrd for Duration { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl PartialOrdSpecImpl for Duration { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<core::cmp::Ordering> { Some(ord(self.n(), o.n())) } }
} // verus!
