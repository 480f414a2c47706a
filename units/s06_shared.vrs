//@include prelude.vrs
//@include lib_held.vrs
// SharedSubscription under re-entrancy, as rely/guarantee: whatever a teardown does while it runs may
// re-enter through any clone; `guar` bounds what such calls can do to the shared state, every public
// method is proved to stay within it while the subscription is in use, and what is released is proved for
// every environment within it.
verus! {
broadcast use vp::grp;
//@enum rx_core_common SubscriptionNotification
//@replace TryLockError :: => TryErr ::
//@replace (state : Lk < => (state : & mut Lk <
//@replace & mut subscription) => subscription)
//@replace self . deferred_state . clone () => & mut self . deferred_state
//@replace , take (& mut => , vf_take (& mut
//@const rx_core_common SUBSCRIPTION_MAX_RECURSION_DEPTH
//@replace subscription : Lk < SubscriptionData > => subscription : Hd < Sd >
//@replace & mut SubscriptionData => & mut Sd
//@struct rx_core_common SubscriptionUnsubscribeLockError
//@struct rx_core_common SubscriptionDeferredState +acc:Ghost<Seq<SubscriptionNotification>>=Ghost(Seq::empty()) +tacc:Ghost<Seq<Teardown>>=Ghost(Seq::empty())
//@spec rx_core_common SubscriptionDeferredState
    pub open spec fn q(&self) -> Seq<SubscriptionNotification> { self.deferred_notifications_queue@ }
    pub open spec fn t(&self) -> Seq<Teardown> { self.deferred_teardowns@ }
    /// acc / tacc: everything ever accepted for later; the queue is its unprocessed end
    pub open spec fn inv(&self) -> bool {
        &&& self.q().len() <= self.acc@.len() && self.acc@.skip(self.acc@.len() - self.q().len()) =~= self.q()
        &&& self.t().len() <= self.tacc@.len() && self.tacc@.skip(self.tacc@.len() - self.t().len()) =~= self.t()
    }
    pub open spec fn clean(&self) -> bool { self.q().len() == 0 && self.t().len() == 0 }
    pub open spec fn flagged(&self) -> bool { self.closed_flag.is_closed || self.observed_unsubscribe }
    pub open spec fn same_flags(&self, f: Self) -> bool { f.closed_flag == self.closed_flag && f.observed_unsubscribe == self.observed_unsubscribe }
    /// what a call made while the subscription is in use may do
    pub open spec fn guar(&self, f: Self) -> bool {
        &&& f.inv()
        &&& f.closed_flag == self.closed_flag
        &&& self.observed_unsubscribe ==> f.observed_unsubscribe
        &&& f.observed_unsubscribe && !self.observed_unsubscribe && !f.closed_flag.is_closed ==> f.q().len() > self.q().len()
        &&& pfx(self.q(), f.q()) && pfx(self.acc@, f.acc@) && f.acc@.len() - self.acc@.len() == f.q().len() - self.q().len()
        &&& pfx(self.t(), f.t()) && pfx(self.tacc@, f.tacc@) && f.tacc@.len() - self.tacc@.len() == f.t().len() - self.t().len()
    }
    /// over any stretch of time
    pub open spec fn mono(&self, f: Self) -> bool {
        &&& self.closed_flag.is_closed ==> f.closed_flag.is_closed
        &&& self.observed_unsubscribe ==> f.observed_unsubscribe
        &&& pfx(self.acc@, f.acc@) && pfx(self.tacc@, f.tacc@)
    }
    pub open spec fn later(&self, f: Self) -> Seq<SubscriptionNotification> { f.acc@.skip(self.acc@.len() as int) }
    pub open spec fn tlater(&self, f: Self) -> Seq<Teardown> { f.tacc@.skip(self.tacc@.len() as int) }
//@end
//@fn rx_core_common SubscriptionDeferredState::defer_notification args=n
  requires old(self).inv()
  ensures final(self).inv(), old(self).same_flags(*final(self)), final(self).t() == old(self).t(), final(self).tacc@ == old(self).tacc@,
    ({ let take = !old(self).closed_flag.is_closed || (n is Unsubscribe && !old(self).observed_unsubscribe);
       &&& final(self).q() == if take { old(self).q().push(n) } else { old(self).q() }
       &&& final(self).acc@ == if take { old(self).acc@.push(n) } else { old(self).acc@ } })
//@@start
  proof { if !self.closed_flag.is_closed || (n is Unsubscribe && !self.observed_unsubscribe) { self.acc@ = self.acc@.push(n); } }
//@end
//@fn rx_core_common SubscriptionDeferredState::drain_notification_queue
  requires old(self).inv()
  ensures final(self).inv(), old(self).same_flags(*final(self)), final(self).t() == old(self).t(), final(self).tacc@ == old(self).tacc@,
    final(self).acc@ == old(self).acc@, r@ == old(self).q(), final(self).q().len() == 0
//@end
//@fn rx_core_common SubscriptionDeferredState::is_dirty
  ensures r == !self.clean()
//@end
//@fn rx_core_common SubscriptionDeferredState::is_unsubscribed
  ensures r == self.observed_unsubscribe
//@end
//@fn rx_core_common SubscriptionDeferredState::is_closed
  ensures r == self.flagged()
//@end
//@fn rx_core_common SubscriptionDeferredState::is_closed_ignoring_deferred
  ensures r == self.closed_flag.is_closed
//@end
//@fn rx_core_common SubscriptionDeferredState::default
  ensures r.inv(), r.clean(), !r.flagged()
//@end

/// the subscription's own data: the contract proved for `SubscriptionData` (s06_teardown), and while
/// its teardowns run the environment acts within `guar`
#[verifier::external_body]
pub struct Sd { x: u8 }
impl Sd {
    /// every teardown it accepted
    pub uninterp spec fn all(&self) -> Seq<Teardown>;
    /// those that ran, each as often as it did
    pub uninterp spec fn ran(&self) -> Seq<Teardown>;
    pub uninterp spec fn closed(&self) -> bool;
    pub open spec fn inv(&self) -> bool { if self.closed() { self.ran() == self.all() } else { self.ran() == s0::<Teardown>() } }
    #[verifier::external_body]
    pub fn is_closed(&self) -> (r: bool) ensures r == self.closed() { unimplemented!() }
    #[verifier::external_body]
    pub fn unsubscribe(&mut self, env: &mut SubscriptionDeferredState) requires old(self).inv(), old(env).inv()
        ensures final(self).inv(), final(self).closed(), final(self).all() == old(self).all(), old(env).guar(*final(env)) { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, n: SubscriptionNotification, env: &mut SubscriptionDeferredState) requires old(self).inv(), old(env).inv()
        ensures final(self).inv(), final(self).closed(), final(self).all() == old(self).all(), old(env).guar(*final(env)) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_teardown(&mut self, t: Teardown, env: &mut SubscriptionDeferredState) requires old(self).inv(), old(env).inv()
        ensures final(self).inv(), final(self).closed() == old(self).closed(), final(self).all() == old(self).all().push(t), old(env).guar(*final(env)) { unimplemented!() }
}
/// progress: everything up to position `p` (unsubscribe requests) and `tp` (teardowns) has been handed on
pub open spec fn mid(o: SubscriptionDeferredState, s: Sd, st: SubscriptionDeferredState, sub: Sd, p: int, tp: int) -> bool {
    let k0 = o.acc@.len() - o.q().len();
    let t0 = o.tacc@.len() - o.t().len();
    &&& st.inv() && o.inv() && o.mono(st) && sub.inv()
    &&& k0 <= p <= st.acc@.len() && t0 <= tp <= st.tacc@.len()
    &&& sub.closed() == (s.closed() || (p > k0 && !o.closed_flag.is_closed))
    &&& st.closed_flag.is_closed == (o.closed_flag.is_closed || p > k0)
    &&& sub.all() =~= s.all() + st.tacc@.subrange(t0, tp)
    &&& st.observed_unsubscribe && !o.observed_unsubscribe ==> st.closed_flag.is_closed || p < st.acc@.len()
}
//@struct rx_core_common SharedSubscription
//@spec rx_core_common SharedSubscription
    pub open spec fn st(&self) -> SubscriptionDeferredState { self.deferred_state@ }
    pub open spec fn d(&self) -> Sd { self.subscription@ }
    pub open spec fn held(&self) -> bool { self.subscription.held() }
    /// nothing is left behind once nobody uses it
    pub open spec fn inv(&self) -> bool { self.st().inv() && (!self.held() ==> self.st().clean() && self.d().inv() && (self.st().flagged() ==> self.d().closed())) }
    pub open spec fn closed(&self) -> bool { self.st().flagged() || (!self.held() && self.d().closed()) }
//@end
//@fn rx_core_common SharedSubscription::apply_notification_queue asserts env=push,add_teardown:state.lock_ignore_poison()
  requires old(state)@.inv(), old(subscriber).inv()
  ensures final(state)@.inv(), final(state)@.clean(), final(subscriber).inv(),
    ({ let o = old(state)@; let f = final(state)@; let k0 = o.acc@.len() - o.q().len(); let tk = f.tacc@.skip(o.tacc@.len() - o.t().len());
      &&& o.mono(f)
      &&& f.closed_flag.is_closed == (o.closed_flag.is_closed || f.acc@.len() > k0)
      &&& final(subscriber).closed() == (old(subscriber).closed() || (f.acc@.len() > k0 && !o.closed_flag.is_closed))
      &&& final(subscriber).all() == old(subscriber).all() + tk
      &&& f.observed_unsubscribe && !o.observed_unsubscribe ==> f.closed_flag.is_closed
      &&& o.clean() ==> f == o && *final(subscriber) == *old(subscriber)
    })
//@@start
  let ghost o = state@;
  let ghost s0 = *subscriber;
  let ghost c0 = o.closed_flag.is_closed;
  let ghost k0 = o.acc@.len() - o.q().len();
  let ghost t0 = o.tacc@.len() - o.t().len();
//@@loop 0
  invariant_except_break
    k0 == o.acc@.len() - o.q().len(), t0 == o.tacc@.len() - o.t().len(), c0 == o.closed_flag.is_closed,
    vf_it_0.rem().len() > 0, vf_it_0.rem().last() == SUBSCRIPTION_MAX_RECURSION_DEPTH,
    forall|i: int| 0 <= i < vf_it_0.rem().len() ==> #[trigger] vf_it_0.rem()[i] == SUBSCRIPTION_MAX_RECURSION_DEPTH - (vf_it_0.rem().len() - 1 - i),
    o.clean() ==> state@ == o && *subscriber == s0,
    mid(o, s0, state@, *subscriber, state@.acc@.len() - state@.q().len(), state@.tacc@.len() - state@.t().len())
  ensures
    state@.clean(), o.clean() ==> state@ == o && *subscriber == s0,
    mid(o, s0, state@, *subscriber, state@.acc@.len() - state@.q().len(), state@.tacc@.len() - state@.t().len())
  decreases vf_it_0.rem().len()
//@@loop 1
  invariant
    k0 == o.acc@.len() - o.q().len(), t0 == o.tacc@.len() - o.t().len(), c0 == o.closed_flag.is_closed,
    mid(o, s0, state@, *subscriber, state@.acc@.len() - state@.q().len() - vf_it_1.rem().len(), state@.tacc@.len() - state@.t().len() - teardowns@.len()),
    vf_it_1.rem() =~= state@.acc@.subrange(state@.acc@.len() - state@.q().len() - vf_it_1.rem().len(), state@.acc@.len() - state@.q().len()),
    teardowns@ =~= state@.tacc@.subrange(state@.tacc@.len() - state@.t().len() - teardowns@.len(), state@.tacc@.len() - state@.t().len()),
  decreases vf_it_1.rem().len()
//@@lstart 1
  let ghost st1 = state@; let ghost p1 = state@.acc@.len() - state@.q().len() - vf_it_1.rem().len();
  proof { assert(vf_it_1.rem()[0] == state@.acc@[p1]); }
//@@lend 1
  proof {
    assert(state@.tacc@.subrange(t0, state@.tacc@.len() - state@.t().len() - teardowns@.len()) =~= st1.tacc@.subrange(t0, st1.tacc@.len() - st1.t().len() - teardowns@.len()));
  }
//@@loop 2
  invariant
    k0 == o.acc@.len() - o.q().len(), t0 == o.tacc@.len() - o.t().len(), c0 == o.closed_flag.is_closed,
    mid(o, s0, state@, *subscriber, state@.acc@.len() - state@.q().len(), state@.tacc@.len() - state@.t().len() - vf_it_2.rem().len()),
    vf_it_2.rem() =~= state@.tacc@.subrange(state@.tacc@.len() - state@.t().len() - vf_it_2.rem().len(), state@.tacc@.len() - state@.t().len()),
  decreases vf_it_2.rem().len()
//@@lstart 2
  let ghost st1 = state@; let ghost p1 = state@.tacc@.len() - state@.t().len() - vf_it_2.rem().len(); 
  proof { assert(vf_it_2.rem()[0] == state@.tacc@[p1]); assert(state@.tacc@.subrange(t0, p1 + 1) =~= state@.tacc@.subrange(t0, p1).push(state@.tacc@[p1])); }
//@@lend 2
  proof {
    assert(state@.tacc@.subrange(t0, p1 + 1) =~= st1.tacc@.subrange(t0, p1 + 1));
  }
//@@after 0
  proof { assert(state@.tacc@.subrange(t0, state@.tacc@.len() as int) =~= state@.tacc@.skip(t0)); }
//@end
//@fn rx_core_common SharedSubscription::is_closed ro
  ensures r == self.closed()
//@end
//@fn rx_core_common SharedSubscription::try_apply_deferred
  requires old(self).st().inv(), !old(self).held() ==> old(self).d().inv()
  ensures final(self).st().inv(), final(self).held() == old(self).held(), !old(self).held() ==> final(self).st().clean() && final(self).d().inv(),
    old(self).held() || old(self).st().clean() ==> final(self).d() == old(self).d() && final(self).st() == old(self).st(),
    !old(self).held() ==> ({ let o = old(self).st(); let f = final(self).st(); let k0 = o.acc@.len() - o.q().len(); let tk = f.tacc@.skip(o.tacc@.len() - o.t().len());
      &&& o.mono(f)
      &&& f.closed_flag.is_closed == (o.closed_flag.is_closed || f.acc@.len() > k0)
      &&& final(self).d().closed() == (old(self).d().closed() || (f.acc@.len() > k0 && !o.closed_flag.is_closed))
      &&& f.observed_unsubscribe && !o.observed_unsubscribe ==> f.closed_flag.is_closed
      &&& final(self).d().all() == old(self).d().all() + tk })
//@end
//@fn rx_core_common SharedSubscription::try_unsubscribe env=unsubscribe:self.deferred_state.lock_ignore_poison()
  requires old(self).inv() || (old(self).st().inv() && old(self).st().clean() && old(self).d().inv()), old(self).st().observed_unsubscribe
  ensures final(self).st().inv(), final(self).held() == old(self).held(),
    match r { Err(e) => old(self).held() && final(self).st() == old(self).st() && final(self).d() == old(self).d(),
      Ok(_) => !old(self).held() && final(self).st().closed_flag.is_closed && old(self).st().mono(final(self).st()) && final(self).d().closed() && final(self).d().inv()
        && final(self).d().all() == old(self).d().all() && final(self).st().t().len() == final(self).st().tacc@.len() - old(self).st().tacc@.len() }
//@end

// ---- the public calls. While it is in use (`held`): the call is queued, and stays within `guar`.
// Otherwise: it takes effect at once, together with everything accepted meanwhile; nothing is left behind.
/// closes it, once and for all, and everything ever added has run
//@fn rx_core_common SharedSubscription::unsubscribe
  requires old(self).inv()
  ensures final(self).inv(), final(self).held() == old(self).held(), final(self).st().observed_unsubscribe, final(self).closed(),
    old(self).held() ==> final(self).d() == old(self).d() && old(self).st().guar(final(self).st())
      && final(self).st().q() == if old(self).st().observed_unsubscribe || old(self).st().closed_flag.is_closed { old(self).st().q() } else { old(self).st().q().push(SubscriptionNotification::Unsubscribe) },
    !old(self).held() ==> final(self).d().closed() && final(self).d().ran() == final(self).d().all()
      && final(self).d().all() == old(self).d().all() + old(self).st().tlater(final(self).st())
//@end
//@fn rx_core_common SharedSubscription::add_teardown args=t env=add_teardown:self.deferred_state.lock_ignore_poison()
  requires old(self).inv()
  ensures final(self).inv(), final(self).held() == old(self).held(), old(self).closed() ==> final(self).closed(),
    old(self).held() ==> final(self).d() == old(self).d() && old(self).st().guar(final(self).st())
      && final(self).st().t() == old(self).st().t().push(t) && final(self).st().q() == old(self).st().q(),
    !old(self).held() ==> final(self).d().all() == old(self).d().all().push(t) + old(self).st().tlater(final(self).st())
//@@start
  if self.subscription.vf_held() { let vf_s = self.deferred_state.lock_ignore_poison(); vf_s.tacc = Ghost(vf_s.tacc@.push(t)); }
//@end
/// dropping one handle of many releases nothing
//@fn rx_core_common SharedSubscription::drop as=vf_drop
  requires old(self).inv()
  ensures final(self).inv(), final(self).held() == old(self).held(), final(self).d() == old(self).d(), final(self).st() == old(self).st()
//@end
} // verus!
fn main() {}
