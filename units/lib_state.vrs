verus! {
// ---------------------------------------------------------------- SubscriberState
/// the `bitflags` dependency (assumed): a set of five distinct flags
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum Flag { Waiting, Primed, Completed, Errored, Unsubscribed }
#[verifier::external_body]
pub struct Bits { x: u8 }
impl Bits {
    pub uninterp spec fn has(&self, f: Flag) -> bool;
    #[verifier::external_body]
    pub fn contains(&self, f: Flag) -> (r: bool) ensures r == self.has(f) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, f: Flag) ensures forall|g: Flag| #[trigger] final(self).has(g) == (g == f || old(self).has(g)) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, f: Flag) ensures forall|g: Flag| #[trigger] final(self).has(g) == (g != f && old(self).has(g)) { unimplemented!() }
}
impl Default for Bits { #[verifier::external_body] fn default() -> (r: Self) ensures forall|g: Flag| #[trigger] r.has(g) == (g is Waiting) { unimplemented!() } }
//@replace SubscriberStateBits :: WAITING => Flag :: Waiting
//@replace SubscriberStateBits :: PRIMED => Flag :: Primed
//@replace SubscriberStateBits :: COMPLETED => Flag :: Completed
//@replace SubscriberStateBits :: ERRORED => Flag :: Errored
//@replace SubscriberStateBits :: UNSUBSCRIBED => Flag :: Unsubscribed
//@replace SubscriberStateBits => Bits
//@enum rx_core_common SubscriberNotification
//@struct rx_core_common SubscriberState
//@spec rx_core_common SubscriberState
    pub open spec fn w(&self) -> bool { self.state.has(Flag::Waiting) }
    pub open spec fn p(&self) -> bool { self.state.has(Flag::Primed) }
    pub open spec fn c(&self) -> bool { self.state.has(Flag::Completed) }
    pub open spec fn e(&self) -> bool { self.state.has(Flag::Errored) }
    pub open spec fn u(&self) -> bool { self.state.has(Flag::Unsubscribed) }
    pub open spec fn is(&self, w: bool, p: bool, c: bool, e: bool, u: bool) -> bool {
        self.w() == w && self.p() == p && self.c() == c && self.e() == e && self.u() == u
    }
    pub open spec fn closed(&self) -> bool { self.c() || self.e() || self.u() }
//@end
//@fn rx_core_common SubscriberState::default
  ensures r.is(true, false, false, false, false)
//@end
//@macro PRED FN SPEC
//@fn rx_core_common SubscriberState::$FN
  ensures r == ($SPEC)
//@end
//@endmacro
//@use PRED is_waiting self.w()
//@use PRED is_primed self.p()
//@use PRED is_completed self.c()
//@use PRED is_errored self.e()
//@use PRED is_unsubscribed self.u()
//@use PRED is_closed self.closed()
//@use PRED is_finished self.c()||self.e()
//@use PRED is_completed_but_not_primed self.c()&&!self.p()
//@use PRED is_closed_but_primed self.closed()&&self.p()
//@use PRED is_closed_but_not_primed self.closed()&&!self.p()
//@use PRED is_closed_but_not_primed_and_not_completed self.closed()&&!self.p()&&!self.c()
//@use PRED is_closed_but_not_completed (self.u()||self.e())&&!self.c()
//@use PRED is_closed_but_not_errored (self.u()||self.c())&&!self.e()
//@use PRED is_closed_but_not_completed_and_primed (self.u()||self.e())&&!self.c()&&self.p()
//@fn rx_core_common SubscriberState::next
  ensures final(self).is(false, true, old(self).c(), old(self).e(), old(self).u())
//@end
//@fn rx_core_common SubscriberState::complete
  ensures final(self).is(false, old(self).p(), true, old(self).e(), old(self).u())
//@end
//@fn rx_core_common SubscriberState::error
  ensures final(self).is(false, old(self).p(), old(self).c(), true, old(self).u())
//@end
//@fn rx_core_common SubscriberState::unsubscribe
  ensures final(self).is(false, old(self).p(), old(self).c(), old(self).e(), true)
//@end
//@fn rx_core_common SubscriberState::unsubscribe_if_not_already
  ensures final(self).is(false, old(self).p(), old(self).c(), old(self).e(), true)
//@end
//@fn rx_core_common SubscriberState::update_with_notification args=n
  ensures final(self).is(false, old(self).p() || n is Next, old(self).c() || n is Complete, old(self).e() || n is Error, old(self).u() || n is Unsubscribe)
//@end
//@fn rx_core_common SubscriberState::notification_matches_state args=n
  ensures r == match *n { SubscriberNotification::Next(_) => old(self).p(), SubscriberNotification::Error(_) => old(self).e(), SubscriberNotification::Complete => old(self).c(), SubscriberNotification::Unsubscribe => old(self).u() },
    *final(self) == *old(self)
//@end
//@fn rx_core_common SubscriberState::update_with_notification_would_be_invalid args=n
  ensures r == if n is Unsubscribe { self.u() } else { self.closed() }
//@end
} // verus!
