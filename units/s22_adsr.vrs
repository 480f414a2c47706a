//@include prelude.vrs
verus! {
broadcast use {vp::grp, dd::ax_max, dd::ax_dur, fl::ax_or};
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::ops::{Add, AddAssign, Sub, Div, BitOr, BitOrAssign};
} // verus!
//@include lib_sched.vrs
//@include lib_timed.vrs
verus! {
//@replace SharedSubscriber < Destination > => Shr < Destination >
//@replace SharedSubscriber :: new => Shr :: new
//@replace SchedulerHandle < S > => Sched < AdsrTick < Destination > >
// ---- TRUSTED: f32 as opaque numbers with deterministic operations
//@replace f32 :: EPSILON => num_eps ()
//@replace 0.0 => num0 ()
//@replace 1.0 => num1 ()
//@replace f32 => Num
#[verifier::external_body]
pub struct Num { x: u64 }
impl Copy for Num {}
impl Clone for Num { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn z0() -> Num;
pub uninterp spec fn z1() -> Num;
pub uninterp spec fn zeps() -> Num;
#[verifier::external_body]
pub fn num0() -> (r: Num) ensures r == z0() { unimplemented!() }
#[verifier::external_body]
pub fn num1() -> (r: Num) ensures r == z1() { unimplemented!() }
#[verifier::external_body]
pub fn num_eps() -> (r: Num) ensures r == zeps() { unimplemented!() }
pub uninterp spec fn qdiv(a: Num, b: Num) -> Num;
pub uninterp spec fn qclamp(a: Num, lo: Num, hi: Num) -> Num;
pub uninterp spec fn qmax(a: Num, b: Num) -> Num;
pub uninterp spec fn secs(n: nat) -> Num;
pub open spec fn unit(a: Num) -> Num { qclamp(a, z0(), z1()) }
impl Num {
    #[verifier::external_body]
    pub fn clamp(self, lo: Num, hi: Num) -> (r: Num) ensures r == qclamp(self, lo, hi) { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, o: Num) -> (r: Num) ensures r == qmax(self, o) { unimplemented!() }
}
impl DivSpecImpl<Num> for Num {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: Num) -> bool { true }
    open spec fn div_spec(self, o: Num) -> Num { qdiv(self, o) }
}
impl Div<Num> for Num { type Output = Num; #[verifier::external_body] fn div(self, o: Num) -> (r: Num) { unimplemented!() } }
/// a duration minus a shorter one; anything else panics
impl SubSpecImpl<Duration> for Duration {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Duration) -> bool { o.n() <= self.n() }
    open spec fn sub_spec(self, o: Duration) -> Duration { dur((self.n() - o.n()) as nat) }
}
impl Sub<Duration> for Duration { type Output = Duration; #[verifier::external_body] fn sub(self, o: Duration) -> (r: Duration) { unimplemented!() } }
impl Duration {
    #[verifier::external_body]
    pub fn as_secs_Num(&self) -> (r: Num) ensures r == secs(self.n()) { unimplemented!() }
}
impl AddSpecImpl<Duration> for Duration {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Duration) -> bool { self.n() + o.n() <= dmax() }
    open spec fn add_spec(self, o: Duration) -> Duration { dur(sat(self.n(), o.n())) }
}
impl Add<Duration> for Duration { type Output = Duration; #[verifier::external_body] fn add(self, o: Duration) -> (r: Duration) { unimplemented!() } }
// ---- TRUSTED: bevy_math's easing curves, bevy_time's stopwatch
#[derive(Clone, Copy)]
pub enum EaseFunction { Linear, Other(u8) }
#[verifier::external_body]
pub struct EasingCurve { x: u64 }
pub uninterp spec fn curve(a: Num, b: Num, e: EaseFunction, pos: Num) -> Num;
impl EasingCurve {
    pub uninterp spec fn at(&self, pos: Num) -> Num;
    #[verifier::external_body]
    pub fn new(a: Num, b: Num, e: EaseFunction) -> (r: Self) ensures forall|x: Num| #[trigger] r.at(x) == curve(a, b, e, x) { unimplemented!() }
    #[verifier::external_body]
    pub fn sample_clamped(&self, x: Num) -> (r: Num) ensures r == self.at(x) { unimplemented!() }
}
#[verifier::external_body]
pub struct Stopwatch { x: u64 }
impl Stopwatch {
    pub uninterp spec fn n(&self) -> nat;
    #[verifier::external_body]
    pub fn elapsed(&self) -> (r: Duration) ensures r.n() == self.n(), self.n() <= dmax() { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self) ensures final(self).n() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn tick(&mut self, d: Duration) ensures final(self).n() == sat(old(self).n(), d.n()) { unimplemented!() }
}
// ---- TRUSTED: bitflags, a set of six distinct flags
//@known AdsrEnvelopePhaseTransition::empty
//@known AdsrEnvelopePhaseTransition::contains
//@known AdsrEnvelopePhaseTransition::bitor
//@known AdsrEnvelopePhaseTransition::bitor_assign
//@known AdsrEnvelopePhaseTransition::insert
//@known AdsrEnvelopePhaseTransition::remove
//@known AdsrEnvelopePhaseTransition::union
//@known AdsrEnvelopePhaseTransition::bits
//@replace AdsrEnvelopePhaseTransition :: empty => Tr :: empty
//@replace AdsrEnvelopePhaseTransition :: Start => flag (Fl :: Start)
//@replace AdsrEnvelopePhaseTransition :: Fire => flag (Fl :: Fire)
//@replace AdsrEnvelopePhaseTransition :: Sustain => flag (Fl :: Sustain)
//@replace AdsrEnvelopePhaseTransition :: Release => flag (Fl :: Release)
//@replace AdsrEnvelopePhaseTransition :: Stop => flag (Fl :: Stop)
//@replace AdsrEnvelopePhaseTransition :: Restart => flag (Fl :: Restart)
//@replace AdsrEnvelopePhaseTransition => Tr
pub enum Fl { Start, Fire, Sustain, Release, Stop, Restart }
pub mod fl { use super::*;
#[verifier::external_body]
pub struct Tr { x: u8 }
impl Copy for Tr {}
impl Clone for Tr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn tor(a: Tr, b: Tr) -> Tr;
impl Tr {
    pub uninterp spec fn has(&self, f: Fl) -> bool;
    #[verifier::external_body]
    pub fn empty() -> (r: Self) ensures forall|f: Fl| !#[trigger] r.has(f) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, o: Tr) -> (r: bool) ensures r == (forall|f: Fl| o.has(f) ==> #[trigger] self.has(f)) { unimplemented!() }
}
pub broadcast axiom fn ax_or(a: Tr, b: Tr, f: Fl) ensures (#[trigger] tor(a, b).has(f)) == (a.has(f) || b.has(f));
}
pub use fl::*;
#[verifier::external_body]
pub fn flag(f: Fl) -> (r: Tr) ensures forall|g: Fl| #[trigger] r.has(g) == (f == g) { unimplemented!() }
impl BitOrSpecImpl<Tr> for Tr {
    open spec fn obeys_bitor_spec() -> bool { true }
    open spec fn bitor_req(self, o: Tr) -> bool { true }
    open spec fn bitor_spec(self, o: Tr) -> Tr { tor(self, o) }
}
impl BitOr<Tr> for Tr { type Output = Tr; #[verifier::external_body] fn bitor(self, o: Tr) -> (r: Tr) { unimplemented!() } }
impl BitOrAssignSpecImpl<Tr> for Tr {
    open spec fn obeys_bitor_assign_spec() -> bool { true }
    open spec fn bitor_assign_req(&self, o: Tr) -> bool { true }
    open spec fn bitor_assign_spec(&self, o: Tr) -> &Tr { &tor(*self, o) }
}
impl BitOrAssign<Tr> for Tr { #[verifier::external_body] fn bitor_assign(&mut self, o: Tr) { unimplemented!() } }


// ---------------------------------------------------------------- phases and transitions
//@enum rx_core_operator_adsr AdsrEnvelopePhase
/// derived comparison and copies (TRUSTED derives)
impl Copy for AdsrEnvelopePhase {}
impl Clone for AdsrEnvelopePhase { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEq for AdsrEnvelopePhase { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl for AdsrEnvelopePhase { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &AdsrEnvelopePhase) -> bool { *self == *o } }
//@const rx_core_operator_adsr ALL_ADSR_ENVELOPE_PHASES
pub type Ph = AdsrEnvelopePhase;
//@fn rx_core_operator_adsr AdsrEnvelopePhase::default
  ensures r is None
//@end
impl Default for AdsrEnvelopePhase { fn default() -> (r: Self) ensures r is None { AdsrEnvelopePhase::default() } }
impl Default for Tr { #[verifier::external_body] fn default() -> (r: Self) ensures forall|f: Fl| !#[trigger] r.has(f) { unimplemented!() } }
impl Default for Stopwatch { #[verifier::external_body] fn default() -> (r: Self) ensures r.n() == 0 { unimplemented!() } }
impl Default for Num { #[verifier::external_body] fn default() -> (r: Self) ensures r == z0() { unimplemented!() } }
impl Default for Duration { fn default() -> (r: Self) ensures r.n() == 0 { Duration::default() } }
pub open spec fn ix(p: Ph) -> int { match p { Ph::None => 0, Ph::Attack => 1, Ph::Decay => 2, Ph::Sustain => 3, Ph::Release => 4 } }
pub open spec fn enter(f: Fl) -> int { match f { Fl::Start => 1, Fl::Fire => 2, Fl::Sustain => 3, Fl::Release => 4, _ => 0 } }
/// which flags a change of phase reports
pub open spec fn reports(from: Ph, to: Ph, f: Fl) -> bool {
    match f {
        Fl::Stop => from != to && (to is None || ix(to) < ix(from)),
        Fl::Restart => !(to is None) && ix(to) < ix(from),
        // every phase entered on the way; only sustaining can be left out
        _ => ix(from) < enter(f) <= ix(to) && (f == Fl::Sustain ==> to is Sustain),
    } }
pub open spec fn told(from: Ph, to: Ph, t: Tr) -> bool { forall|f: Fl| #[trigger] t.has(f) == reports(from, to, f) }
//@fn rx_core_operator_adsr get_last_phase_transition_on_enter
  ensures forall|f: Fl| #[trigger] r.has(f) == match f { Fl::Stop => phase is None, Fl::Restart => false, _ => enter(f) == ix(phase) }
//@end
//@fn rx_core_operator_adsr is_phase_skippable
  ensures r == (phase is Sustain)
//@end
#[verifier::external_body]
pub fn vf_arr<T, const N: usize>(a: &[T; N]) -> (r: Vec<&T>) ensures r@.len() == N, forall|i: int| 0 <= i < N ==> *(#[trigger] r@[i]) == a@[i] { unimplemented!() }
//@replace ALL_ADSR_ENVELOPE_PHASES . iter () => vf_arr (& ALL_ADSR_ENVELOPE_PHASES)
//@fn rx_core_operator_adsr determine_phase_transition
  ensures told(from_phase, to_phase, r)
//@@loop 0
  invariant_except_break vf_it_0.rem().len() <= 5, forall|j: int| 0 <= j < vf_it_0.rem().len() ==> ix(*#[trigger] vf_it_0.rem()[j]) == 5 - vf_it_0.rem().len() + j,
    5 - vf_it_0.rem().len() <= ix(to_phase), met_start == (ix(from_phase) < 5 - vf_it_0.rem().len()),
    forall|f: Fl| #[trigger] accumulator.has(f) == match f { Fl::Stop => to_phase is None, Fl::Restart => false, _ => ix(from_phase) < enter(f) < 5 - vf_it_0.rem().len() && (f == Fl::Sustain ==> to_phase is Sustain) }
  invariant from_phase != to_phase
  ensures told(from_phase, to_phase, accumulator)
  decreases vf_it_0.rem().len()
//@end

// ---------------------------------------------------------------- the envelope
//@struct rx_core_operator_adsr AdsrEnvelope
//@struct rx_core_operator_adsr AdsrEnvelopeChange
//@struct rx_core_operator_adsr AdsrTrigger
impl Copy for AdsrEnvelope {}
impl Clone for AdsrEnvelope { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn nn(d: Option<Duration>) -> Option<nat> { match d { Some(x) => Some(x.n()), None => None } }
/// the phase, where it began and where it ends
pub open spec fn phase_at(e: AdsrEnvelope, on: bool, t: nat, off: Option<nat>) -> (Ph, nat, nat) {
    let a = e.attack_time.n();
    let d = sat(a, e.decay_time.n());
    match off {
        Some(o) => { let r = sat(o, e.release_time.n()); if t < r { (Ph::Release, o, r) } else { (Ph::None, 0, 0) } },
        None => if !on { (Ph::None, 0, 0) } else if t < a { (Ph::Attack, 0, a) } else if t < d { (Ph::Decay, a, d) } else { (Ph::Sustain, d, d) },
    } }
pub open spec fn ease(e: Option<EaseFunction>) -> EaseFunction { match e { Some(f) => f, None => EaseFunction::Linear } }
pub open spec fn pos(t: nat, from: nat, to: nat) -> Num { unit(qdiv(secs((t - from) as nat), qmax(secs((to - from) as nat), zeps()))) }
/// the level at that point: from the level the phase starts at to the one it ends at, along its easing
pub open spec fn level(e: AdsrEnvelope, on: bool, t: nat, v: Option<Num>, off: Option<nat>) -> Num {
    let (p, from, to) = phase_at(e, on, t, off);
    let s = unit(e.sustain_volume);
    unit(match p {
        Ph::Attack => curve(z0(), z1(), ease(e.attack_easing), pos(t, from, to)),
        Ph::Decay => curve(z1(), s, ease(e.decay_easing), pos(t, from, to)),
        Ph::Sustain => s,
        Ph::Release => curve(match v { Some(x) => x, None => s }, z0(), ease(e.release_easing), pos(t, from, to)),
        Ph::None => z0(),
    }) }
//@fn rx_core_operator_adsr AdsrEnvelope::determine_current_phase_and_start_time args=on,t,off
  ensures ({ let w = phase_at(*self, on, t.n(), nn(off)); r.0 == w.0 && r.1.n() == w.1 && r.2.n() == w.2 })
//@end
//@fn rx_core_operator_adsr AdsrEnvelope::evaluate args=on,t,v,off
  requires off is Some ==> off->0.n() <= t.n()
  ensures r.0 == level(*self, on, t.n(), v, nn(off)), r.1 == phase_at(*self, on, t.n(), nn(off)).0
//@end
pub open spec fn or<T>(n: Option<T>, o: T) -> T { match n { Some(x) => x, None => o } }
pub open spec fn changed(a: AdsrEnvelope, b: AdsrEnvelope, c: AdsrEnvelopeChange) -> bool {
    &&& b.attack_time == or(c.attack_time, a.attack_time)
    &&& b.decay_time == or(c.decay_time, a.decay_time)
    &&& b.release_time == or(c.release_time, a.release_time)
    &&& b.sustain_volume == or(c.sustain_volume, a.sustain_volume)
    &&& b.attack_easing == if c.attack_easing is Some { c.attack_easing } else { a.attack_easing }
    &&& b.decay_easing == if c.decay_easing is Some { c.decay_easing } else { a.decay_easing }
    &&& b.release_easing == if c.release_easing is Some { c.release_easing } else { a.release_easing } }
/// what the change names is replaced, the rest stays
//@fn rx_core_operator_adsr AdsrEnvelope::apply_change args=c
  ensures changed(*old(self), *final(self), c)
//@end

// ---------------------------------------------------------------- one tick
//@struct rx_core_operator_adsr AdsrSignal
impl Copy for AdsrSignal {}
impl Clone for AdsrSignal { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@fn rx_core_operator_adsr AdsrSignal::default
  ensures r.adsr_envelope_phase is None, r.t.n() == 0, r.value == z0()
//@end
impl Default for AdsrSignal { fn default() -> (r: Self) ensures r.adsr_envelope_phase is None, r.t.n() == 0, r.value == z0() { AdsrSignal::default() } }
//@struct rx_core_operator_adsr AdsrEnvelopeState
pub open spec fn noneless(d: Option<Duration>, n: nat) -> bool { d is Some ==> d->0.n() <= n }
//@spec rx_core_operator_adsr AdsrEnvelopeState
    pub closed spec fn ph(&self) -> Ph { self.adsr_envelope_phase }
    /// time in this activation
    pub closed spec fn t(&self) -> nat { self.elapsed.n() }
    /// the tick it started at
    pub closed spec fn began(&self) -> Option<Duration> { self.activation_time_absolute }
    /// when and at what level it was released
    pub closed spec fn off(&self) -> Option<Duration> { self.deactivation_time_relative }
    pub closed spec fn off_level(&self) -> Option<Num> { self.deactivation_value }
    pub closed spec fn tr(&self) -> Tr { self.adsr_phase_transition }
    pub closed spec fn last(&self) -> AdsrSignal { self.last_frame_output_signal }
    /// the gate as the last tick saw it
    pub closed spec fn gate(&self) -> bool { self.last_frame_input_signal }
    pub open spec fn ok(&self) -> bool { noneless(self.off(), self.t()) }
    pub open spec fn idle(&self) -> bool { self.ph() is None && self.t() == 0 && self.began() is None && self.off() is None && self.off_level() is None }
    /// the state a tick at time `now` leaves
    pub open spec fn inv(&self, now: nat) -> bool {
        &&& self.ok() && self.last().adsr_envelope_phase == self.ph()
        &&& self.ph() is None ==> self.idle() && !self.gate()
        // an activation runs since it began, whatever happened meanwhile
        &&& !(self.ph() is None) ==> self.began() is Some && self.began()->0.n() + self.t() == now
        &&& !(self.ph() is None) && self.gate() ==> self.off() is None
        &&& !(self.ph() is None) && !self.gate() ==> self.off() is Some && self.off_level() is Some
        &&& !(self.ph() is None) ==> self.last().t.n() == self.t() }
    /// the gate goes on; a tick later the time counts; the gate goes off
    pub open spec fn rises(&self, on: bool) -> bool { !self.gate() && on }
    pub open spec fn falls(&self, on: bool) -> bool { self.gate() && !on }
    pub open spec fn t1(&self, on: bool, d: nat) -> nat { if self.rises(on) { 0 } else if self.ph() is None { self.t() } else { sat(self.t(), d) } }
    pub open spec fn off1(&self, on: bool) -> Option<nat> { if self.rises(on) { None } else if self.falls(on) { Some(self.t()) } else { nn(self.off()) } }
    pub open spec fn lv1(&self, on: bool) -> Option<Num> { if self.rises(on) { None } else if self.falls(on) { Some(self.last().value) } else { self.off_level() } }
//@end
//@fn rx_core_operator_adsr AdsrEnvelopeState::default
  ensures r.idle(), !r.gate(), r.last().adsr_envelope_phase is None, forall|n: nat| r.inv(n)
//@end
//@fn rx_core_operator_adsr AdsrEnvelopeState::reset
  ensures final(self).idle(), final(self).gate() == old(self).gate(), final(self).tr() == old(self).tr(), final(self).last() == old(self).last()
//@end
pub open spec fn stepped(a: AdsrEnvelopeState, b: AdsrEnvelopeState, e: AdsrEnvelope, on: bool, d: nat, r: AdsrSignal) -> bool {
    let t = a.t1(on, d);
    &&& r.adsr_envelope_phase == phase_at(e, on, t, a.off1(on)).0
    &&& r.value == level(e, on, t, a.lv1(on), a.off1(on))
    &&& told(a.last().adsr_envelope_phase, r.adsr_envelope_phase, r.phase_transition)
    &&& r.t.n() == (if r.phase_transition.has(Fl::Stop) && r.adsr_envelope_phase is None { 0 } else { t })
    &&& b.last() == r && b.gate() == on && b.ph() == r.adsr_envelope_phase && b.t() == r.t.n() }

//@fn rx_core_operator_adsr AdsrEnvelopeState::calculate_output args=e,on,now,d
  requires old(self).ok()
  ensures final(self).ok(), stepped(*old(self), *final(self), e, on, d.n(), r),
    forall|was: nat| #[trigger] old(self).inv(was) && now.n() == was + d.n() ==> final(self).inv(now.n())
//@end

// ---------------------------------------------------------------- the operator
//@struct rx_core_operator_adsr AdsrOperatorOptions
impl Clone for AdsrOperatorOptions { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@struct rx_core_operator_adsr AdsrEnvelopeSharedState
/// a value delivered: exactly it, unless closed; its consumers may end the subscription meanwhile
pub open spec fn gave<I, E>(a: Seq<Ev<I, E>>, shut: bool, b: Seq<Ev<I, E>>, bshut: bool, x: I) -> bool {
    if shut { b == a && bshut } else { b == a.push(Ev::Next(x)) || bshut && exists|e: Ev<I, E>| !(e is Next) && b == #[trigger] a.push(Ev::Next(x)).push(e) } }
impl<D: ObserverInput> Shr<D> {
    pub open spec fn given(&self, f: Self, x: D::In) -> bool { f.cell() == self.cell() && f.tds() == self.tds() && gave(self.sent(), self.shut(), f.sent(), f.shut(), x) }
    #[verifier::external_body]
    pub fn new(d: D) -> (r: Self) ensures r.sent() == d.log(), r.shut() == (d.closed() || has_term(d.log())), r.tds() == d.tds() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self, x: D::In) ensures old(self).given(*final(self), x) { unimplemented!() }
}
impl<T> Lk<T> {
    /// not poisoned: that takes a panic while it is held
    #[verifier::external_body]
    pub fn lock(&mut self) -> (r: Result<&mut T, ()>) ensures r is Ok && *r->Ok_0 == old(self)@ && *final(r->Ok_0) == final(self)@, final(self).cell() == old(self).cell() { unimplemented!() }
}
#[verifier::reject_recursive_types(Destination)]
pub struct AdsrTick<Destination: Subscriber<In = AdsrSignal>> { pub shared_destination_clone: Shr<Destination>, pub shared_state_clone: Lk<AdsrEnvelopeSharedState>, pub last_now: Duration, pub envelope_state: AdsrEnvelopeState }
/// every tick: one step of the envelope by the time since the last one; every phase but none is
/// told, and none once, or always if asked to
//@fn rx_core_operator_adsr AdsrSubscriber::new closure=0 chead=impl<Destination:Subscriber<In=AdsrSignal>>~AdsrTick<Destination> caps=shared_destination_clone,shared_state_clone,last_now,envelope_state ptypes=Tick;Tick rtype=WorkResult cmut
  requires old(self).envelope_state.ok(), old(self).last_now.n() <= vf_a0.n()
  ensures final(self).envelope_state.ok(),
    ({ let (a, b) = (*old(self), *final(self)); let (s, z) = (a.shared_state_clone@, b.shared_state_clone@);
       if a.shared_destination_clone.shut() { r is Done && b.envelope_state == a.envelope_state && z == s && b.shared_destination_clone.sent() == a.shared_destination_clone.sent() }
       else {
         &&& stepped(a.envelope_state, b.envelope_state, s.options.envelope, s.is_getting_activated, (vf_a0.n() - a.last_now.n()) as nat, b.envelope_state.last())
         &&& b.last_now.n() == vf_a0.n()
         &&& forall|was: nat| was == a.last_now.n() && #[trigger] a.envelope_state.inv(was) ==> b.envelope_state.inv(vf_a0.n())
         &&& z.options == s.options && z.is_getting_activated == (s.is_getting_activated && !s.options.reset_input_on_tick) && z.last_signal_was_none == (b.envelope_state.ph() is None)
         &&& if s.options.always_emit_none || !(b.envelope_state.ph() is None) || !s.last_signal_was_none { a.shared_destination_clone.given(b.shared_destination_clone, b.envelope_state.last()) } else { b.shared_destination_clone == a.shared_destination_clone }
         &&& r is Done == b.shared_destination_clone.shut()
       } })
//@end
//@struct rx_core_operator_adsr AdsrSubscriber +vf_s:PhantomData<S>=PhantomData
//@spec rx_core_operator_adsr AdsrSubscriber
    pub closed spec fn d(&self) -> Shr<Destination> { self.shared_destination }
    pub closed spec fn st(&self) -> AdsrEnvelopeSharedState { self.shared_state@ }
    pub closed spec fn cells(&self) -> (int, int) { (self.shared_destination.cell(), self.shared_state.cell()) }
    pub closed spec fn acts(&self) -> Seq<Act<AdsrTick<Destination>>> { self.scheduler@ }
    pub closed spec fn id(&self) -> WorkCancellationId { self.cancellation_id }
//@end
//@replace let scheduler = scheduler . clone () ; => let mut scheduler = scheduler . clone () ;
/// nothing is emitted yet; one work for every tick, idle, at time 0
//@fn rx_core_operator_adsr AdsrSubscriber::new lift=0:AdsrTick:shared_destination_clone,shared_state_clone,last_now,envelope_state alias=scheduler_clone=>scheduler args=destination,options,s mutargs=scheduler
  ensures r.d().sent() == destination.log(), !r.st().is_getting_activated, !r.st().last_signal_was_none, r.st().options == options,
    r.acts() == s@.push(r.acts().last()),
    match r.acts().last() { Act::Each(w, id) => w.shared_destination_clone.cell() == r.cells().0 && w.shared_state_clone.cell() == r.cells().1 && w.last_now.n() == 0 && !w.envelope_state.gate() && w.envelope_state.inv(0) && id == r.id(), _ => false }
//@end
/// the gate and the envelope from now on
//@fn rx_core_operator_adsr AdsrSubscriber::next args=x
  ensures final(self).d() == old(self).d(), final(self).acts() == old(self).acts(), final(self).st().is_getting_activated == x.activated, final(self).st().last_signal_was_none == old(self).st().last_signal_was_none,
    final(self).st().options.always_emit_none == old(self).st().options.always_emit_none, final(self).st().options.reset_input_on_tick == old(self).st().options.reset_input_on_tick,
    match x.envelope_changes { None => final(self).st().options == old(self).st().options, Some(c) => changed(old(self).st().options.envelope, final(self).st().options.envelope, c) }
//@end
//@fn rx_core_operator_adsr AdsrSubscriber::error args=e
  ensures final(self).acts() == old(self).acts(), old(self).d().put(final(self).d(), Ev::Error(e))
//@end
//@fn rx_core_operator_adsr AdsrSubscriber::complete
  ensures final(self).acts() == old(self).acts(), old(self).d().put(final(self).d(), Ev::Complete)
//@end
//@fn rx_core_operator_adsr AdsrSubscriber::is_closed
  ensures r == self.d().shut()
//@end
//@fn rx_core_operator_adsr AdsrSubscriber::unsubscribe
  ensures final(self).acts() == old(self).acts().push(Act::Cancel(old(self).id())), old(self).d().put(final(self).d(), Ev::Unsub)
//@end
//@fn rx_core_operator_adsr AdsrTrigger::from args=b trait=From
  ensures r.activated == b, r.envelope_changes is None
//@end
// ---- the operator: every subscription starts from the state `new` gives
//@replace Sched < AdsrTick < Destination > > => OpSched < S >
//@struct rx_core_operator_adsr AdsrOperator
//@fn rx_core_operator_adsr AdsrOperator::new args=o,s
  ensures r.options == o
//@end
//@fn rx_core_operator_adsr AdsrOperator::operator_subscribe args=destination
  ensures final(self).options == old(self).options, r.d().sent() == destination.log(), !r.st().is_getting_activated, !r.st().last_signal_was_none, r.st().options == old(self).options,
    match r.acts().last() { Act::Each(w, id) => w.shared_destination_clone.cell() == r.cells().0 && w.shared_state_clone.cell() == r.cells().1 && w.last_now.n() == 0 && !w.envelope_state.gate() && w.envelope_state.inv(0) && id == r.id(), _ => false }
//@end
} // verus!
fn main() {}
