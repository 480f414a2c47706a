//@include prelude.vrs
//@include lib_held.vrs
// SharedSubscriber under re-entrancy, as rely/guarantee: whatever the destination does while it is
// being called may re-enter through any clone; `guar` bounds what such calls can do to the shared
// state, every public method is proved to stay within it while the destination is in use, and the
// deliveries are proved for every environment within it.
verus! {
broadcast use {vp::grp, sh::lem_closed};
//@enum rx_core_common SubscriberNotification
pub mod sh {
use super::*;
pub open spec fn ev<I, E>(n: SubscriberNotification<I, E>) -> Ev<I, E> {
    match n {
        SubscriberNotification::Next(x) => Ev::Next(x),
        SubscriberNotification::Error(e) => Ev::Error(e),
        SubscriberNotification::Complete => Ev::Complete,
        SubscriberNotification::Unsubscribe => Ev::Unsub,
    }
}
pub open spec fn cl<I, E>(c: bool, s: Seq<SubscriberNotification<I, E>>) -> bool
    decreases s.len()
{ if s.len() == 0 { c } else { cl(c, s.drop_last()) || ev(s.last()).term() } }
/// what of `s` reaches the destination, in order: everything up to the first closing signal
pub open spec fn eff<I, E>(c: bool, s: Seq<SubscriberNotification<I, E>>) -> Seq<Ev<I, E>>
    decreases s.len()
{ if s.len() == 0 { s0() } else if cl(c, s.drop_last()) { eff(c, s.drop_last()) } else { eff(c, s.drop_last()).push(ev(s.last())) } }
pub proof fn lem_push<I, E>(c: bool, s: Seq<SubscriberNotification<I, E>>, n: SubscriberNotification<I, E>)
    ensures cl(c, s.push(n)) == (cl(c, s) || ev(n).term()), eff(c, s.push(n)) == if cl(c, s) { eff(c, s) } else { eff(c, s).push(ev(n)) }
{ assert(s.push(n).drop_last() =~= s); }
pub broadcast proof fn lem_closed<I, E>(s: Seq<SubscriberNotification<I, E>>)
    ensures #[trigger] eff(true, s) =~= s0::<Ev<I, E>>(), cl(true, s)
    decreases s.len()
{ if s.len() > 0 { lem_closed(s.drop_last()); } }
}
pub use sh::*;
//@fn rx_core_common SubscriberNotification::is_closing
  ensures r == ev(*self).term()
//@end
//@replace TryLockError :: => TryErr ::
//@replace (state : Lk < => (state : & mut Lk <
//@replace & mut subscribers) => subscribers)
//@replace & mut subscriber) => subscriber)
//@replace self . deferred_state . clone () => & mut self . deferred_state
//@replace , take (& mut => , vf_take (& mut
//@const rx_core_common SUBSCRIBER_MAX_RECURSION_DEPTH
//@replace shared_destination : Lk < => shared_destination : Hd <
//@replace Lk :: new (destination) => Hd :: new (destination)
//@replace subscriber : & mut D => subscriber : & mut D
//@replace D : Subscriber => D : RDest
//@replace Destination : 'static + Subscriber => Destination : RDest
//@replace Destination : Subscriber => Destination : RDest

//@struct rx_core_common SubscriberDeferredState +acc:Ghost<Seq<SubscriberNotification<In,InError>>>=Ghost(Seq::empty()) +tacc:Ghost<Seq<Teardown>>=Ghost(Seq::empty())
//@spec rx_core_common SubscriberDeferredState
    pub open spec fn q(&self) -> Seq<SubscriberNotification<In, InError>> { self.deferred_notifications_queue@ }
    pub open spec fn t(&self) -> Seq<Teardown> { self.deferred_teardowns@ }
    /// acc / tacc: everything ever accepted for later; the queue is its unprocessed end
    pub open spec fn inv(&self) -> bool {
        &&& self.q().len() <= self.acc@.len() && self.acc@.skip(self.acc@.len() - self.q().len()) =~= self.q()
        &&& self.t().len() <= self.tacc@.len() && self.tacc@.skip(self.tacc@.len() - self.t().len()) =~= self.t()
    }
    pub open spec fn clean(&self) -> bool { self.q().len() == 0 && self.t().len() == 0 }
    pub open spec fn flagged(&self) -> bool { self.closed_flag.is_closed || self.observed_completion || self.observed_unsubscribe || self.observed_error }
    pub open spec fn same_flags(&self, f: Self) -> bool {
        f.closed_flag == self.closed_flag && f.observed_completion == self.observed_completion && f.observed_unsubscribe == self.observed_unsubscribe && f.observed_error == self.observed_error
    }
    /// what a call made while the destination is in use may do
    pub open spec fn guar(&self, f: Self) -> bool {
        &&& f.inv()
        &&& f.closed_flag == self.closed_flag
        &&& self.observed_completion ==> f.observed_completion
        &&& self.observed_error ==> f.observed_error
        &&& self.observed_unsubscribe ==> f.observed_unsubscribe
        &&& pfx(self.q(), f.q()) && pfx(self.acc@, f.acc@) && f.acc@.len() - self.acc@.len() == f.q().len() - self.q().len()
        &&& pfx(self.t(), f.t()) && pfx(self.tacc@, f.tacc@) && f.tacc@.len() - self.tacc@.len() == f.t().len() - self.t().len()
        &&& self.flagged() ==> forall|i: int| self.acc@.len() <= i < f.acc@.len() ==> #[trigger] f.acc@[i] is Unsubscribe
    }
    /// over any stretch of time
    pub open spec fn mono(&self, f: Self) -> bool {
        &&& self.closed_flag.is_closed ==> f.closed_flag.is_closed
        &&& self.observed_completion ==> f.observed_completion
        &&& self.observed_error ==> f.observed_error
        &&& self.observed_unsubscribe ==> f.observed_unsubscribe
        &&& pfx(self.acc@, f.acc@) && pfx(self.tacc@, f.tacc@)
        &&& self.flagged() ==> forall|i: int| self.acc@.len() <= i < f.acc@.len() ==> #[trigger] f.acc@[i] is Unsubscribe
    }
    /// accepted after `self`
    pub open spec fn later(&self, f: Self) -> Seq<SubscriberNotification<In, InError>> { f.acc@.skip(self.acc@.len() as int) }
    pub open spec fn tlater(&self, f: Self) -> Seq<Teardown> { f.tacc@.skip(self.tacc@.len() as int) }
//@end
//@fn rx_core_common SubscriberDeferredState::defer_notification args=n
  requires old(self).inv()
  ensures final(self).inv(), old(self).same_flags(*final(self)), final(self).t() == old(self).t(), final(self).tacc@ == old(self).tacc@,
    ({ let take = !old(self).closed_flag.is_closed || (n is Unsubscribe && !old(self).observed_unsubscribe);
       &&& final(self).q() == if take { old(self).q().push(n) } else { old(self).q() }
       &&& final(self).acc@ == if take { old(self).acc@.push(n) } else { old(self).acc@ } })
//@@start
  proof { if !self.closed_flag.is_closed || (n is Unsubscribe && !self.observed_unsubscribe) { self.acc@ = self.acc@.push(n); } }
//@end
//@fn rx_core_common SubscriberDeferredState::drain_notification_queue
  requires old(self).inv()
  ensures final(self).inv(), old(self).same_flags(*final(self)), final(self).t() == old(self).t(), final(self).tacc@ == old(self).tacc@,
    final(self).acc@ == old(self).acc@, r@ == old(self).q(), final(self).q().len() == 0
//@end
//@fn rx_core_common SubscriberDeferredState::is_dirty
  ensures r == !self.clean()
//@end
//@fn rx_core_common SubscriberDeferredState::is_unsubscribed
  ensures r == self.observed_unsubscribe
//@end
//@fn rx_core_common SubscriberDeferredState::is_closed
  ensures r == self.flagged()
//@end
//@fn rx_core_common SubscriberDeferredState::is_closed_ignoring_deferred
  ensures r == self.closed_flag.is_closed
//@end
//@fn rx_core_common SubscriberDeferredState::default
  ensures r.inv(), r.clean(), !r.flagged()
//@end

/// the destination: records every call; while it runs, the environment acts within `guar`
pub trait RDest: ObserverInput {
    fn next(&mut self, x: Self::In, env: &mut SubscriberDeferredState<Self::In, Self::InError>)
        requires old(env).inv()
        ensures final(self).log() == old(self).log().push(Ev::Next(x)), final(self).tds() == old(self).tds(), old(env).guar(*final(env)), old(self).closed() ==> final(self).closed();
    fn error(&mut self, e: Self::InError, env: &mut SubscriberDeferredState<Self::In, Self::InError>)
        requires old(env).inv()
        ensures final(self).log() == old(self).log().push(Ev::Error(e)), final(self).tds() == old(self).tds(), old(env).guar(*final(env)), old(self).closed() ==> final(self).closed();
    fn complete(&mut self, env: &mut SubscriberDeferredState<Self::In, Self::InError>)
        requires old(env).inv()
        ensures final(self).log() == old(self).log().push(Ev::Complete), final(self).tds() == old(self).tds(), old(env).guar(*final(env)), old(self).closed() ==> final(self).closed();
    fn unsubscribe(&mut self, env: &mut SubscriberDeferredState<Self::In, Self::InError>)
        requires old(env).inv()
        ensures final(self).log() == old(self).log().push(Ev::Unsub), final(self).tds() == old(self).tds(), old(env).guar(*final(env)), old(self).closed() ==> final(self).closed(), final(self).closed();
    fn push(&mut self, n: SubscriberNotification<Self::In, Self::InError>, env: &mut SubscriberDeferredState<Self::In, Self::InError>)
        requires old(env).inv()
        ensures final(self).log() == old(self).log().push(ev(n)), final(self).tds() == old(self).tds(), old(env).guar(*final(env)), old(self).closed() ==> final(self).closed();
    fn add_teardown(&mut self, t: Teardown, env: &mut SubscriberDeferredState<Self::In, Self::InError>)
        requires old(env).inv()
        ensures final(self).log() == old(self).log(), final(self).tds() == old(self).tds().push(t), old(env).guar(*final(env)), old(self).closed() ==> final(self).closed();
    fn is_closed(&self) -> (r: bool) ensures r == self.closed();
}
/// progress: everything up to position `p` (signals) and `tp` (teardowns) has been handed on
pub open spec fn mid<D: RDest>(o: SubscriberDeferredState<D::In, D::InError>, s: D, st: SubscriberDeferredState<D::In, D::InError>, sub: D, p: int, tp: int) -> bool {
    let k0 = o.acc@.len() - o.q().len();
    let t0 = o.tacc@.len() - o.t().len();
    &&& st.inv() && o.inv() && o.mono(st)
    &&& k0 <= p <= st.acc@.len() && t0 <= tp <= st.tacc@.len()
    &&& sub.log() =~= s.log() + eff(o.closed_flag.is_closed, st.acc@.subrange(k0, p))
    &&& st.closed_flag.is_closed == cl(o.closed_flag.is_closed, st.acc@.subrange(k0, p))
    &&& s.closed() ==> sub.closed()
    &&& sub.tds() =~= s.tds() + st.tacc@.subrange(t0, tp)
}
//@struct rx_core_common SubscriberNextLockError
//@struct rx_core_common SubscriberErrorLockError
//@struct rx_core_common SubscriberCompleteLockError
//@struct rx_core_common SubscriberUnsubscribeLockError
//@struct rx_core_common SharedSubscriber
//@spec rx_core_common SharedSubscriber
    pub open spec fn st(&self) -> SubscriberDeferredState<Destination::In, Destination::InError> { self.deferred_state@ }
    pub open spec fn d(&self) -> Destination { self.shared_destination@ }
    pub open spec fn held(&self) -> bool { self.shared_destination.held() }
    /// nothing is left behind once nobody uses the destination
    pub open spec fn inv(&self) -> bool { self.st().inv() && (!self.held() ==> self.st().clean()) }
    pub open spec fn closed(&self) -> bool { self.st().flagged() || (!self.held() && self.d().closed()) }
    /// `f` is `self` after `first` was delivered and then everything that was accepted meanwhile
    pub open spec fn delivered(&self, f: Self, first: Seq<Ev<Destination::In, Destination::InError>>, c: bool) -> bool {
        let k = self.st().later(f.st());
        &&& self.st().mono(f.st())
        &&& f.d().log() == self.d().log() + first + eff(c, k)
        &&& f.st().closed_flag.is_closed == cl(c, k)
        &&& f.d().tds() == self.d().tds() + self.st().tlater(f.st())
    }
//@end
//@fn rx_core_common SharedSubscriber::new args=destination
  ensures r.inv(), !r.held(), r.d() == destination, !r.st().flagged()
//@end
//@fn rx_core_common SharedSubscriber::apply_notification_queue asserts env=push,add_teardown:state.lock_ignore_poison()
  requires old(state)@.inv()
  ensures final(state)@.inv(), final(state)@.clean(),
    ({ let o = old(state)@; let f = final(state)@; let k = f.acc@.skip(o.acc@.len() - o.q().len()); let tk = f.tacc@.skip(o.tacc@.len() - o.t().len());
      &&& o.mono(f)
      &&& final(subscriber).log() == old(subscriber).log() + eff(o.closed_flag.is_closed, k)
      &&& f.closed_flag.is_closed == cl(o.closed_flag.is_closed, k)
      &&& old(subscriber).closed() ==> final(subscriber).closed()
      &&& final(subscriber).tds() == old(subscriber).tds() + tk
      &&& o.clean() ==> f == o && *final(subscriber) == *old(subscriber)
    })
//@@start
  let ghost o = state@;
  let ghost s0 = *subscriber;
  let ghost c0 = o.closed_flag.is_closed;
  let ghost k0 = o.acc@.len() - o.q().len();
  let ghost t0 = o.tacc@.len() - o.t().len();
//@@loop 0
  invariant_except_break
    k0 == o.acc@.len() - o.q().len(), t0 == o.tacc@.len() - o.t().len(), c0 == o.closed_flag.is_closed,
    vf_it_0.rem().len() > 0, vf_it_0.rem().last() == SUBSCRIBER_MAX_RECURSION_DEPTH,
    forall|i: int| 0 <= i < vf_it_0.rem().len() ==> #[trigger] vf_it_0.rem()[i] == SUBSCRIBER_MAX_RECURSION_DEPTH - (vf_it_0.rem().len() - 1 - i),
    o.clean() ==> state@ == o && *subscriber == s0,
    mid(o, s0, state@, *subscriber, state@.acc@.len() - state@.q().len(), state@.tacc@.len() - state@.t().len())
  ensures
    state@.clean(), o.clean() ==> state@ == o && *subscriber == s0,
    mid(o, s0, state@, *subscriber, state@.acc@.len() - state@.q().len(), state@.tacc@.len() - state@.t().len())
  decreases vf_it_0.rem().len()
//@@loop 1
  invariant
    k0 == o.acc@.len() - o.q().len(), t0 == o.tacc@.len() - o.t().len(), c0 == o.closed_flag.is_closed,
    mid(o, s0, state@, *subscriber, state@.acc@.len() - state@.q().len() - vf_it_1.rem().len(), state@.tacc@.len() - state@.t().len() - teardowns@.len()),
    vf_it_1.rem() =~= state@.acc@.subrange(state@.acc@.len() - state@.q().len() - vf_it_1.rem().len(), state@.acc@.len() - state@.q().len()),
    teardowns@ =~= state@.tacc@.subrange(state@.tacc@.len() - state@.t().len() - teardowns@.len(), state@.tacc@.len() - state@.t().len()),
  decreases vf_it_1.rem().len()
//@@lstart 1
  let ghost st1 = state@; let ghost p1 = state@.acc@.len() - state@.q().len() - vf_it_1.rem().len(); let ghost sub1 = *subscriber;
  proof { lem_push(c0, state@.acc@.subrange(k0, p1), vf_it_1.rem()[0]); assert(vf_it_1.rem()[0] == state@.acc@[p1]); assert(state@.acc@.subrange(k0, p1 + 1) =~= state@.acc@.subrange(k0, p1).push(state@.acc@[p1])); }
//@@lend 1
  proof {
    assert(state@.acc@.subrange(k0, p1 + 1) =~= st1.acc@.subrange(k0, p1 + 1));
    assert(state@.tacc@.subrange(t0, state@.tacc@.len() - state@.t().len() - teardowns@.len()) =~= st1.tacc@.subrange(t0, st1.tacc@.len() - st1.t().len() - teardowns@.len()));
  }
//@@loop 2
  invariant
    k0 == o.acc@.len() - o.q().len(), t0 == o.tacc@.len() - o.t().len(), c0 == o.closed_flag.is_closed,
    mid(o, s0, state@, *subscriber, state@.acc@.len() - state@.q().len(), state@.tacc@.len() - state@.t().len() - vf_it_2.rem().len()),
    vf_it_2.rem() =~= state@.tacc@.subrange(state@.tacc@.len() - state@.t().len() - vf_it_2.rem().len(), state@.tacc@.len() - state@.t().len()),
  decreases vf_it_2.rem().len()
//@@lstart 2
  let ghost st1 = state@; let ghost p1 = state@.tacc@.len() - state@.t().len() - vf_it_2.rem().len(); 
  proof { assert(vf_it_2.rem()[0] == state@.tacc@[p1]); assert(state@.tacc@.subrange(t0, p1 + 1) =~= state@.tacc@.subrange(t0, p1).push(state@.tacc@[p1])); }
//@@lend 2
  proof {
    assert(state@.tacc@.subrange(t0, p1 + 1) =~= st1.tacc@.subrange(t0, p1 + 1));
    assert(state@.acc@.subrange(k0, state@.acc@.len() - state@.q().len()) =~= st1.acc@.subrange(k0, st1.acc@.len() - st1.q().len()));
  }
//@@after 0
  proof { assert(state@.acc@.subrange(k0, state@.acc@.len() as int) =~= state@.acc@.skip(k0)); assert(state@.tacc@.subrange(t0, state@.tacc@.len() as int) =~= state@.tacc@.skip(t0)); }
//@end
//@fn rx_core_common SharedSubscriber::is_closed ro
  ensures r == self.closed()
//@end
//@fn rx_core_common SharedSubscriber::try_apply_deferred
  requires old(self).st().inv()
  ensures final(self).st().inv(), final(self).held() == old(self).held(), !old(self).held() ==> final(self).inv(),
    old(self).held() || old(self).st().clean() ==> final(self).d() == old(self).d() && final(self).st() == old(self).st(),
    !old(self).held() ==> ({ let o = old(self).st(); let f = final(self).st(); let k = f.acc@.skip(o.acc@.len() - o.q().len()); let tk = f.tacc@.skip(o.tacc@.len() - o.t().len());
      &&& o.mono(f)
      &&& final(self).d().log() == old(self).d().log() + eff(o.closed_flag.is_closed, k)
      &&& f.closed_flag.is_closed == cl(o.closed_flag.is_closed, k)
      &&& old(self).d().closed() ==> final(self).d().closed()
      &&& final(self).d().tds() == old(self).d().tds() + tk })
//@end
//@fn rx_core_common SharedSubscriber::try_next args=x env=next:self.deferred_state.lock_ignore_poison()
  requires old(self).inv()
  ensures final(self).st().inv(), final(self).held() == old(self).held(),
    match r { Err(e) => old(self).held() && e.next == x && final(self).st() == old(self).st() && final(self).d() == old(self).d(),
      Ok(_) => !old(self).held() && old(self).st().guar(final(self).st()) && final(self).d().log() =~= old(self).d().log() + s1(Ev::Next(x)) && final(self).d().tds() == old(self).d().tds() }
//@end
//@fn rx_core_common SharedSubscriber::try_error args=x env=error:self.deferred_state.lock_ignore_poison()
  requires old(self).inv()
  ensures final(self).st().inv(), final(self).held() == old(self).held(),
    match r { Err(e) => old(self).held() && e.error == x && final(self).st() == old(self).st() && final(self).d() == old(self).d(),
      Ok(_) => !old(self).held() && old(self).st().guar(final(self).st()) && final(self).d().log() =~= old(self).d().log() + s1(Ev::Error(x)) && final(self).d().tds() == old(self).d().tds() }
//@end
//@fn rx_core_common SharedSubscriber::try_complete env=complete:self.deferred_state.lock_ignore_poison()
  requires old(self).inv()
  ensures final(self).st().inv(), final(self).held() == old(self).held(),
    match r { Err(e) => old(self).held() && final(self).st() == old(self).st() && final(self).d() == old(self).d(),
      Ok(_) => !old(self).held() && old(self).st().guar(final(self).st()) && final(self).d().log() =~= old(self).d().log() + s1(Ev::Complete) && final(self).d().tds() == old(self).d().tds() }
//@end
//@fn rx_core_common SharedSubscriber::try_unsubscribe env=unsubscribe:self.deferred_state.lock_ignore_poison()
  requires old(self).inv(), old(self).st().observed_unsubscribe
  ensures final(self).st().inv(), final(self).held() == old(self).held(),
    match r { Err(e) => old(self).held() && final(self).st() == old(self).st() && final(self).d() == old(self).d(),
      Ok(_) => !old(self).held() && final(self).st().closed_flag.is_closed && old(self).st().mono(final(self).st()) && final(self).d().closed()
        && final(self).d().log() =~= old(self).d().log() + (if old(self).d().closed() { s0() } else { s1(Ev::Unsub) }) && final(self).d().tds() == old(self).d().tds() }
//@end

// ---- the public calls. While the destination is in use (`held`): the call is queued, and stays
// within `guar`. Otherwise: it is delivered, then everything accepted meanwhile, in order, up to the
// first closing signal; nothing is left behind.
//@fn rx_core_common SharedSubscriber::next args=x
  requires old(self).inv()
  ensures final(self).inv(), final(self).held() == old(self).held(),
    old(self).held() ==> final(self).d() == old(self).d() && old(self).st().guar(final(self).st())
      && final(self).st().q() == if old(self).closed() { old(self).st().q() } else { old(self).st().q().push(SubscriberNotification::Next(x)) },
    !old(self).held() && old(self).closed() ==> final(self).d() == old(self).d() && final(self).st() == old(self).st(),
    !old(self).held() && !old(self).closed() ==> old(self).delivered(*final(self), s1(Ev::Next(x)), false)
//@end
//@fn rx_core_common SharedSubscriber::error args=x
  requires old(self).inv()
  ensures final(self).inv(), final(self).held() == old(self).held(), final(self).st().flagged() || (!old(self).held() && old(self).d().closed()),
    old(self).held() ==> final(self).d() == old(self).d() && old(self).st().guar(final(self).st())
      && final(self).st().q() == if old(self).closed() { old(self).st().q() } else { old(self).st().q().push(SubscriberNotification::Error(x)) },
    !old(self).held() && old(self).closed() ==> final(self).d() == old(self).d() && final(self).st() == old(self).st(),
    !old(self).held() && !old(self).closed() ==> old(self).delivered(*final(self), s1(Ev::Error(x)), false)
       && forall|i: int| old(self).st().acc@.len() <= i < final(self).st().acc@.len() ==> #[trigger] final(self).st().acc@[i] is Unsubscribe
//@end
//@fn rx_core_common SharedSubscriber::complete
  requires old(self).inv()
  ensures final(self).inv(), final(self).held() == old(self).held(), final(self).st().flagged() || (!old(self).held() && old(self).d().closed()),
    old(self).held() ==> final(self).d() == old(self).d() && old(self).st().guar(final(self).st())
      && final(self).st().q() == if old(self).closed() { old(self).st().q() } else { old(self).st().q().push(SubscriberNotification::Complete) },
    !old(self).held() && old(self).closed() ==> final(self).d() == old(self).d() && final(self).st() == old(self).st(),
    !old(self).held() && !old(self).closed() ==> old(self).delivered(*final(self), s1(Ev::Complete), false)
       && forall|i: int| old(self).st().acc@.len() <= i < final(self).st().acc@.len() ==> #[trigger] final(self).st().acc@[i] is Unsubscribe
//@end
//@fn rx_core_common SharedSubscriber::unsubscribe
  requires old(self).inv()
  ensures final(self).inv(), final(self).held() == old(self).held(), final(self).st().observed_unsubscribe,
    old(self).held() ==> final(self).d() == old(self).d() && old(self).st().guar(final(self).st())
      && final(self).st().q() == if old(self).st().observed_unsubscribe || old(self).st().closed_flag.is_closed { old(self).st().q() } else { old(self).st().q().push(SubscriberNotification::Unsubscribe) },
    !old(self).held() && !old(self).st().observed_unsubscribe ==> final(self).st().closed_flag.is_closed && final(self).d().closed()
      && final(self).d().log() =~= old(self).d().log() + (if old(self).d().closed() { s0() } else { s1(Ev::Unsub) })
//@end
//@fn rx_core_common SharedSubscriber::add_teardown args=t env=add_teardown:self.deferred_state.lock_ignore_poison()
  requires old(self).inv()
  ensures final(self).inv(), final(self).held() == old(self).held(),
    old(self).held() ==> final(self).d() == old(self).d() && old(self).st().guar(final(self).st())
      && final(self).st().t() == old(self).st().t().push(t) && final(self).st().q() == old(self).st().q(),
    !old(self).held() ==> ({ let k = old(self).st().later(final(self).st());
      &&& final(self).d().log() == old(self).d().log() + eff(old(self).st().closed_flag.is_closed, k)
      &&& final(self).d().tds() == old(self).d().tds().push(t) + old(self).st().tlater(final(self).st()) })
//@@start
  if self.shared_destination.vf_held() { let vf_s = self.deferred_state.lock_ignore_poison(); vf_s.tacc = Ghost(vf_s.tacc@.push(t)); }
//@end
//@fn rx_core_common SharedSubscriber::drop as=vf_drop
  requires old(self).inv()
  ensures final(self).inv(), final(self).held() == old(self).held(), final(self).d() == old(self).d(), final(self).st() == old(self).st()
//@end
} // verus!
fn main() {}
