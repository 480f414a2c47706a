//@include prelude.vrs
verus! {
broadcast use vp::grp;
// a clone of the shared handle of tap's observer is that observer
#[verifier::external_body] fn vf_share<T>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }

// ---------------------------------------------------------------- tap
/// tap's observer: what it was told, and what the destination had been given by then
pub trait TapObs: ObserverInput {
    spec fn told(&self) -> Seq<(Ev<Self::In, Self::InError>, Seq<Ev<Self::In, Self::InError>>)>;
    fn next<D: ObserverInput<In = Self::In, InError = Self::InError>>(&mut self, x: Self::In, d: &D) ensures final(self).told() == old(self).told().push((Ev::Next(x), d.log()));
    fn error<D: ObserverInput<In = Self::In, InError = Self::InError>>(&mut self, x: Self::InError, d: &D) ensures final(self).told() == old(self).told().push((Ev::Error(x), d.log()));
    fn complete<D: ObserverInput<In = Self::In, InError = Self::InError>>(&mut self, d: &D) ensures final(self).told() == old(self).told().push((Ev::Complete, d.log()));
}
//@replace SharedSubscriber < ObserverSubscriber < TapDestination > > => TapDestination
//@replace TapDestination : RxObserver => TapDestination : TapObs
//@struct rx_core_operator_tap TapSubscriber
//@use inv0 rx_core_operator_tap TapSubscriber
//@fn rx_core_operator_tap TapSubscriber::new args=destination,t
  ensures r.inv(), r.tap_destination == t, dl(destination, r.destination, s0())
//@end
/// each signal once to the tap's observer, before the destination gets it
//@fn rx_core_operator_tap TapSubscriber::next args=x env=next,@tap_destination:&self.destination
  ensures dl(old(self).destination, final(self).destination, s1(Ev::Next(x))),
    final(self).tap_destination.told() == old(self).tap_destination.told().push((Ev::Next(x), old(self).destination.log()))
//@end
//@fn rx_core_operator_tap TapSubscriber::error args=x env=error,@tap_destination:&self.destination
  ensures dl(old(self).destination, final(self).destination, s1(Ev::Error(x))),
    final(self).tap_destination.told() == old(self).tap_destination.told().push((Ev::Error(x), old(self).destination.log()))
//@end
//@fn rx_core_operator_tap TapSubscriber::complete env=complete,@tap_destination:&self.destination
  ensures dl(old(self).destination, final(self).destination, s1(Ev::Complete)),
    final(self).tap_destination.told() == old(self).tap_destination.told().push((Ev::Complete, old(self).destination.log()))
//@end
//@use fwd_sub rx_core_operator_tap TapSubscriber
//@replace SharedSubscriber :: new (ObserverSubscriber :: new (tap_destination)) => tap_destination
//@replace self . tap_destination . clone () => vf_share (& self . tap_destination)
//@struct rx_core_operator_tap TapOperator
//@fn rx_core_operator_tap TapOperator::new args=t
  ensures r.tap_destination == t
//@end
//@fn rx_core_operator_tap TapOperator::operator_subscribe args=destination
  ensures r.inv(), r.tap_destination == old(self).tap_destination, dl(destination, r.destination, s0())
//@end

// ---------------------------------------------------------------- tap_next
/// the callback: the values it was shown, and what the destination had been given by then
pub trait CbAt<I, E>: Sized {
    spec fn seen(&self) -> Seq<(I, Seq<Ev<I, E>>)>;
    fn vf_call<D: ObserverInput<In = I, InError = E>>(&mut self, x: &I, d: &D) ensures final(self).seen() == old(self).seen().push((*x, d.log()));
}
//@replace OnNext : FnMut (& In) => OnNext : CbAt < In , InError >
//@replace (self . callback) ( => self . callback . call_cb (
//@struct rx_core_operator_tap_next TapNextSubscriber
//@use inv0 rx_core_operator_tap_next TapNextSubscriber
//@fn rx_core_operator_tap_next TapNextSubscriber::new args=destination,f
  ensures r.inv(), r.callback == f, dl(destination, r.destination, s0())
//@end
//@fn rx_core_operator_tap_next TapNextSubscriber::next args=x env=(),@callback:&self.destination
  ensures dl(old(self).destination, final(self).destination, s1(Ev::Next(x))), final(self).callback.seen() == old(self).callback.seen().push((x, old(self).destination.log()))
//@end
//@fn rx_core_operator_tap_next TapNextSubscriber::error args=x
  ensures dl(old(self).destination, final(self).destination, s1(Ev::Error(x))), final(self).callback.seen() == old(self).callback.seen()
//@end
//@fn rx_core_operator_tap_next TapNextSubscriber::complete
  ensures dl(old(self).destination, final(self).destination, s1(Ev::Complete)), final(self).callback.seen() == old(self).callback.seen()
//@end
//@use fwd_sub rx_core_operator_tap_next TapNextSubscriber
//@struct rx_core_operator_tap_next TapNextOperator
//@fn rx_core_operator_tap_next TapNextOperator::new args=f
  ensures r.on_next == f
//@end
//@fn rx_core_operator_tap_next TapNextOperator::operator_subscribe args=destination
  ensures r.inv(), cloned(old(self).on_next, r.callback), dl(destination, r.destination, s0())
//@end

// ---------------------------------------------------------------- on_next
//@replace FnMut (& Destination :: In , & mut dyn Subscriber < In = Destination :: In , InError = Destination :: InError >) -> bool => CbDest < Destination :: In , Destination :: InError >
//@replace (self . on_next) ( => self . on_next . call_cb (
//@struct rx_core_operator_on_next OnNextSubscriber
//@use inv0 rx_core_operator_on_next OnNextSubscriber
//@fn rx_core_operator_on_next OnNextSubscriber::new args=destination,f
  ensures r.inv(), r.on_next == f, dl(destination, r.destination, s0())
//@end
//@fn rx_core_operator_on_next OnNextSubscriber::next args=x
  ensures final(self).on_next.seen() == old(self).on_next.seen().push(x),
    exists|m: Destination, b: bool| #[trigger] old(self).on_next.eff(x, old(self).destination, m, b)
      && dl(m, final(self).destination, if b { s1(Ev::Next(x)) } else { s0() })
//@end
//@fn rx_core_operator_on_next OnNextSubscriber::error args=x
  ensures dl(old(self).destination, final(self).destination, s1(Ev::Error(x))), final(self).on_next.seen() == old(self).on_next.seen()
//@end
//@fn rx_core_operator_on_next OnNextSubscriber::complete
  ensures dl(old(self).destination, final(self).destination, s1(Ev::Complete)), final(self).on_next.seen() == old(self).on_next.seen()
//@end
//@use fwd_sub rx_core_operator_on_next OnNextSubscriber
//@replace FnMut (& In , & mut dyn Subscriber < In = In , InError = InError >) -> bool => CbDest < In , InError >
//@replace PhantomInvariant < fn (In , InError) -> (In , InError) > => PhantomInvariant < (In , InError) >
//@struct rx_core_operator_on_next OnNextOperator
//@fn rx_core_operator_on_next OnNextOperator::new args=f
  ensures r.on_next == f
//@end
//@fn rx_core_operator_on_next OnNextOperator::operator_subscribe args=destination
  ensures r.inv(), cloned(old(self).on_next, r.on_next), dl(destination, r.destination, s0())
//@end

// ---------------------------------------------------------------- on_subscribe
//@replace FnMut (& mut dyn Subscriber < In = In , InError = InError >) => CbSub < In , InError >
//@replace (self . on_subscribe) ( => self . on_subscribe . call_cb (
//@struct rx_core_operator_on_subscribe OnSubscribeOperator
//@fn rx_core_operator_on_subscribe OnSubscribeOperator::new args=f
  ensures r.on_subscribe == f
//@end
//@fn rx_core_operator_on_subscribe OnSubscribeOperator::operator_subscribe args=destination
  ensures final(self).on_subscribe.calls() == old(self).on_subscribe.calls() + 1, old(self).on_subscribe.eff(destination, r)
//@end

// ---------------------------------------------------------------- start_with
//@struct rx_core_operator_start_with StartWithOperator
//@fn rx_core_operator_start_with StartWithOperator::new args=x
  ensures r.start_with == x
//@end
//@fn rx_core_operator_start_with StartWithOperator::operator_subscribe args=destination
  ensures final(self).start_with == old(self).start_with,
    exists|y: In| #[trigger] call_ensures(In::clone, (&old(self).start_with,), y) && dl(destination, r, s1(Ev::Next(y)))
//@end

// ---------------------------------------------------------------- end_with
//@struct rx_core_operator_end_with EndWithSubscriber
//@spec rx_core_operator_end_with EndWithSubscriber
    pub open spec fn pre(&self) -> bool { true }
    /// the value is used up by the completion that ended the output
    pub open spec fn inv(&self) -> bool { self.end_with is None ==> done(self.destination) }
//@end
//@fn rx_core_operator_end_with EndWithSubscriber::new args=destination,x
  ensures r.inv(), r.end_with == Some(x), dl(destination, r.destination, s0())
//@end
//@fn rx_core_operator_end_with EndWithSubscriber::next args=x
  requires old(self).inv()
  ensures final(self).inv(), final(self).end_with == old(self).end_with, dl(old(self).destination, final(self).destination, s1(Ev::Next(x)))
//@end
//@fn rx_core_operator_end_with EndWithSubscriber::complete
  requires old(self).inv()
  ensures final(self).inv(),
    done(old(self).destination) || (old(self).end_with is Some && dl(old(self).destination, final(self).destination, s2(Ev::Next(old(self).end_with->0), Ev::Complete)))
//@end
//@use fwd_error rx_core_operator_end_with EndWithSubscriber
//@use fwd_sub rx_core_operator_end_with EndWithSubscriber
//@struct rx_core_operator_end_with EndWithOperator
//@fn rx_core_operator_end_with EndWithOperator::new args=x
  ensures r.end_with == x
//@end
//@fn rx_core_operator_end_with EndWithOperator::operator_subscribe args=destination
  ensures r.inv(), final(self).end_with == old(self).end_with, r.end_with is Some, cloned(old(self).end_with, r.end_with->0), dl(destination, r.destination, s0())
//@end

// ---------------------------------------------------------------- finalize
//@struct rx_core_operator_finalize FinalizeOperator
//@fn rx_core_operator_finalize FinalizeOperator::new args=f
  ensures r.teardown == f
//@end
//@fn rx_core_operator_finalize FinalizeOperator::operator_subscribe args=destination
  requires forall|g: Callback| cloned(old(self).teardown, g) ==> #[trigger] g.requires(())
  ensures final(self).teardown == old(self).teardown, r.log() == destination.log(),
    r.tds().len() == destination.tds().len() + 1, pfx(destination.tds(), r.tds()),
    exists|g: Callback, t: Teardown| cloned(old(self).teardown, g) && t == r.tds().last() && #[trigger] td_runs(t, g)
//@end

// ---------------------------------------------------------------- identity
//@struct rx_core_operator_identity IdentitySubscriber
//@use inv0 rx_core_operator_identity IdentitySubscriber
//@use opnew rx_core_operator_identity IdentitySubscriber
//@fn rx_core_operator_identity IdentitySubscriber::next args=x
  ensures dl(old(self).destination, final(self).destination, s1(Ev::Next(x)))
//@end
//@use fwd_all rx_core_operator_identity IdentitySubscriber
//@struct rx_core_operator_identity IdentityOperator
//@fn rx_core_operator_identity IdentityOperator::operator_subscribe args=destination
  ensures dl(destination, r.destination, s0())
//@end
}
fn main() {}
