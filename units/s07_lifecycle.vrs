//@include prelude.vrs
verus! {
broadcast use vp::grp;
//@include lib_subscription.vrs

// ---------------------------------------------------------------- ObserverSubscriber
/// an observer that records every single call made on it
pub trait RawObs: ObserverInput {
    fn next(&mut self, next: Self::In) ensures final(self).log() == old(self).log().push(Ev::Next(next));
    fn error(&mut self, error: Self::InError) ensures final(self).log() == old(self).log().push(Ev::Error(error));
    fn complete(&mut self) ensures final(self).log() == old(self).log().push(Ev::Complete);
}
/// at most one terminal signal, and nothing after it
pub open spec fn wf<I, E>(s: Seq<Ev<I, E>>) -> bool { forall|i: int| 0 <= i < s.len() - 1 ==> !(#[trigger] s[i]).term() }
pub proof fn lem_wf<I, E>(s: Seq<Ev<I, E>>)
    ensures wf(s) && !has_term(s) ==> forall|e: Ev<I, E>| wf(#[trigger] s.push(e))
{
    if wf(s) && !has_term(s) {
        lem_no_term(s);
        assert forall|e: Ev<I, E>| wf(#[trigger] s.push(e)) by {
            assert forall|i: int| 0 <= i < s.push(e).len() - 1 implies !(#[trigger] s.push(e)[i]).term() by { assert(s[i] == s.push(e)[i]); }
        }
    }
}
//@replace RxObserver => RawObs
//@struct rx_core_common ObserverSubscriber
//@spec rx_core_common ObserverSubscriber
    pub open spec fn closed(&self) -> bool { self.teardown.closed_flag.is_closed }
    pub open spec fn inv(&self) -> bool { self.pre() && (has_term(self.destination.log()) ==> self.closed()) }
    pub open spec fn pre(&self) -> bool {
        &&& self.teardown.inv()
        &&& wf(self.destination.log())
        &&& self.closed() ==> self.teardown.ran@ == self.teardown.all()
    }
//@end
//@fn rx_core_common ObserverSubscriber::new args=destination
  requires wf(destination.log()), !has_term(destination.log())
  ensures r.inv(), !r.closed(), r.destination == destination, r.teardown.all() =~= s0::<Fin>()
//@end
//@fn rx_core_common ObserverSubscriber::next args=x
  requires old(self).inv()
  ensures final(self).inv(), final(self).closed() == old(self).closed(), final(self).teardown == old(self).teardown,
    final(self).destination.log() == if old(self).closed() { old(self).destination.log() } else { old(self).destination.log().push(Ev::Next(x)) }
//@@start
  proof { lem_wf(self.destination.log()); }
//@end
//@macro OTERM FN ARGS EV
//@fn rx_core_common ObserverSubscriber::$FN $ARGS
  requires old(self).inv()
  ensures final(self).inv(), final(self).closed(),
    final(self).teardown.ran@ == old(self).teardown.all(),
    final(self).destination.log() == if old(self).closed() { old(self).destination.log() } else { old(self).destination.log().push($EV) }
//@@start
  proof { lem_wf(self.destination.log()); }
//@end
//@endmacro
//@use OTERM error args=x Ev::Error(x)
//@use OTERM complete ret=r Ev::Complete
//@fn rx_core_common ObserverSubscriber::is_closed
  ensures r == self.closed()
//@end
//@fn rx_core_common ObserverSubscriber::unsubscribe
  requires old(self).pre()
  ensures final(self).inv(), final(self).closed(), final(self).destination.log() == old(self).destination.log(),
    final(self).teardown.ran@ == old(self).teardown.all()
//@end
//@fn rx_core_common ObserverSubscriber::add_teardown args=t
  requires old(self).inv()
  ensures final(self).inv(), final(self).closed() == old(self).closed(), final(self).destination.log() == old(self).destination.log(),
    final(self).teardown.all() =~= old(self).teardown.all() + opt_seq(t.teardown_fn)
//@end

/// every sequence of calls on an ObserverSubscriber, in every order: the destination's whole log is
/// well-formed, closing is permanent, and once closed every finalizer ran. Composed from the
/// contracts above only.
pub enum Call<I, E> { Next(I), Error(E), Complete, Unsub, Add(Teardown) }
pub fn any_history<Destination: RawObs>(d: Destination, calls: Vec<Call<Destination::In, Destination::InError>>) -> (s: ObserverSubscriber<Destination>)
    requires d.log() == Seq::<Ev<Destination::In, Destination::InError>>::empty()
    ensures s.inv(), wf(s.destination.log()), s.closed() ==> s.teardown.ran@ == s.teardown.all()
{
    let mut s = ObserverSubscriber::new(d);
    let mut it = calls.vf_it();
    let ghost mut was_closed = false;
    let ghost mut log = s.destination.log();
    while it.vf_more()
        invariant s.inv(), was_closed ==> s.closed() && s.destination.log() == log
        decreases it.rem().len()
    {
        proof { if s.closed() { was_closed = true; log = s.destination.log(); } }
        let c = it.vf_step();
        match c {
            Call::Next(x) => s.next(x),
            Call::Error(e) => s.error(e),
            Call::Complete => s.complete(),
            Call::Unsub => s.unsubscribe(),
            Call::Add(t) => s.add_teardown(t),
        }
    }
    s
}

} // verus!
//@include lib_state.vrs
fn main() {}
