// Operators with inner sources: the accounting shared by the outer subscriber and every inner one.
//@include lib_state.vrs
verus! {
pub mod ho {
use super::*;
pub trait HigherOrderSubscriberStateConditions: Sized {
    /// inner sources not started yet
    spec fn waiting(&self) -> nat;
    /// nothing waiting is lost, doubled or overtaken
    spec fn grows(a: Self, b: Self) -> bool;
    proof fn grows_refl(a: Self) ensures Self::grows(a, a);
    proof fn grows_trans(a: Self, b: Self, c: Self) requires Self::grows(a, b), Self::grows(b, c) ensures Self::grows(a, c);
    /// what may happen to the number of unreleased inner sources while others are called
    spec fn calm(a: nat, b: nat) -> bool;
    proof fn calm_less(a: nat, b: nat) requires b <= a ensures Self::calm(a, b);
    proof fn calm_trans(a: nat, b: nat, c: nat) requires Self::calm(a, b), Self::calm(b, c) ensures Self::calm(a, c);
    fn can_downstream_complete(&self) -> (r: bool) ensures r == (self.waiting() == 0);
    fn can_downstream_unsubscribe(&self) -> (r: bool) ensures r == (self.waiting() == 0);
    fn on_upstream_error(&mut self) ensures final(self).waiting() == 0, Self::grows(*old(self), *final(self));
    fn on_downstream_error(&mut self) ensures final(self).waiting() == 0, Self::grows(*old(self), *final(self));
}
/// the destination of every inner source (S08): closed for any reason, its own included
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Shr<D> { x: PhantomData<D> }
impl<D: ObserverInput> Shr<D> {
    pub uninterp spec fn sent(&self) -> Seq<Ev<D::In, D::InError>>;
    pub uninterp spec fn shut(&self) -> bool;
    pub uninterp spec fn cell(&self) -> int;
}
pub open spec fn mx(a: nat, b: nat) -> nat { if a < b { b } else { a } }
/// how many inner sources may run at a time: fixed per output (per state cell)
pub uninterp spec fn lim(cell: int) -> nat;
/// free places while something is waiting
pub open spec fn lag<S: HigherOrderSubscriberStateConditions>(s: HigherOrderSubscriberState<S>, l: nat) -> nat {
    if s.state.waiting() == 0 || s.nc() >= l { 0 } else { (l - s.nc()) as nat } }
pub open spec fn mono(a: SubscriberState, b: SubscriberState) -> bool { (a.c() ==> b.c()) && (a.e() ==> b.e()) && (a.u() ==> b.u()) }
/// the output has ended because everything completed
pub open spec fn fin<S: HigherOrderSubscriberStateConditions>(s: HigherOrderSubscriberState<S>) -> bool { s.up().c() && s.down().closed() && s.nc() == 0 && s.state.waiting() == 0 }
/// nothing can follow any more
pub open spec fn ripe<S: HigherOrderSubscriberStateConditions>(s: HigherOrderSubscriberState<S>) -> bool { s.up().u() && !s.up().e() && s.nu() == 0 && s.state.waiting() == 0 }
pub open spec fn okd<S: HigherOrderSubscriberStateConditions, D: ObserverInput>(s: HigherOrderSubscriberState<S>, d: Shr<D>) -> bool { s.down().closed() || s.up().e() ==> d.shut() }
pub open spec fn completes<D: ObserverInput>(a: Shr<D>, b: Shr<D>) -> bool { exists|i: int| a.sent().len() <= i < b.sent().len() && (#[trigger] b.sent()[i]) is Complete }
pub open spec fn grew<D: ObserverInput>(a: Shr<D>, b: Shr<D>) -> bool { pfx(a.sent(), b.sent()) && (a.shut() ==> b.shut() && b.sent() == a.sent()) && b.cell() == a.cell() }
/// what a call of any source, consumer or teardown of this output does (every contract below keeps it):
/// no place stays free for longer while something waits, no more than the limit are started,
/// completion only when everything completed
pub open spec fn mv<S: HigherOrderSubscriberStateConditions, D: ObserverInput>(a: HigherOrderSubscriberState<S>, ad: Shr<D>, b: HigherOrderSubscriberState<S>, bd: Shr<D>, l: nat) -> bool {
    &&& mono(a.up(), b.up()) && mono(a.down(), b.down())
    &&& (b.down().closed() || lag(b, l) <= lag(a, l)) && b.nc() <= mx(l, a.nc())
    &&& S::grows(a.state, b.state) && S::calm(a.nu(), b.nu())
    &&& (fin(a) ==> fin(b))
    &&& (okd(a, ad) ==> okd(b, bd))
    &&& grew(ad, bd) && (completes(ad, bd) ==> fin(b))
}
/// what the caller itself still counts for stays counted
pub open spec fn keeps<S: HigherOrderSubscriberStateConditions>(a: HigherOrderSubscriberState<S>, b: HigherOrderSubscriberState<S>) -> bool { (a.nc() >= 1 ==> b.nc() >= 1) && (a.nu() >= 1 ==> b.nu() >= 1) }
pub open spec fn keeps2<S: HigherOrderSubscriberStateConditions>(a: HigherOrderSubscriberState<S>, b: HigherOrderSubscriberState<S>) -> bool { (a.nc() >= 2 ==> b.nc() >= 1) && (a.nu() >= 2 ==> b.nu() >= 1) }
pub broadcast proof fn grew_trans<D: ObserverInput>(a: Shr<D>, b: Shr<D>, c: Shr<D>)
    requires #[trigger] grew(a, b), #[trigger] grew(b, c) ensures grew(a, c), completes(a, c) ==> completes(a, b) || completes(b, c)
{
    if completes(a, c) && !completes(b, c) {
        let i = choose|i: int| a.sent().len() <= i < c.sent().len() && (#[trigger] c.sent()[i]) is Complete;
        assert(i < b.sent().len());
        assert(b.sent()[i] == c.sent()[i]);
        assert(completes(a, b));
    }
}
pub broadcast proof fn grows_t<S: HigherOrderSubscriberStateConditions>(a: S, b: S, c: S) requires #[trigger] S::grows(a, b), #[trigger] S::grows(b, c) ensures S::grows(a, c) { S::grows_trans(a, b, c); }
pub broadcast proof fn grows_r<S: HigherOrderSubscriberStateConditions>(a: S) ensures #[trigger] S::grows(a, a) { S::grows_refl(a); }
pub broadcast proof fn calm_l<S: HigherOrderSubscriberStateConditions>(a: nat, b: nat) requires b <= a ensures #[trigger] S::calm(a, b) { S::calm_less(a, b); }
pub broadcast proof fn calm_t<S: HigherOrderSubscriberStateConditions>(a: nat, b: nat, c: nat) requires #[trigger] S::calm(a, b), #[trigger] S::calm(b, c) ensures S::calm(a, c) { S::calm_trans(a, b, c); }
pub broadcast group g { grew_trans, grows_t, grows_r, calm_l, calm_t }
}
pub use ho::*;
//@struct rx_core_subscriber_higher_order HigherOrderSubscriberState
//@spec rx_core_subscriber_higher_order HigherOrderSubscriberState
    /// inner sources that have neither completed nor been released / that have not been released
    pub closed spec fn nc(&self) -> nat { self.non_completed_subscriptions as nat }
    pub closed spec fn nu(&self) -> nat { self.non_unsubscribed_subscriptions as nat }
    pub closed spec fn up(&self) -> SubscriberState { self.upstream_subscriber_state }
    pub closed spec fn down(&self) -> SubscriberState { self.downstream_subscriber_state }
    /// nothing but the counts
    pub open spec fn same(&self, f: Self, nc: int, nu: int) -> bool { State::calm(self.nu(), f.nu()) && f.nc() == nc && f.nu() == nu && f.up() == self.up() && f.state == self.state }
    pub open spec fn can_complete(&self) -> bool { self.state.waiting() == 0 && self.nc() == 0 && self.up().c() && !self.down().closed() }
    pub open spec fn can_unsub(&self) -> bool { self.state.waiting() == 0 && self.nu() == 0 && self.up().u() && !self.down().u() || self.up().e() || self.down().closed() }
//@end
impl Default for SubscriberState { fn default() -> (r: Self) ensures r.is(true, false, false, false, false) { SubscriberState::default() } }
/// nothing has happened yet
//@fn rx_core_subscriber_higher_order HigherOrderSubscriberState::default
  ensures call_ensures(State::default, (), r.state), r.nc() == 0, r.nu() == 0, r.up().is(true, false, false, false, false), r.down().is(true, false, false, false, false)
//@end
//@fn rx_core_subscriber_higher_order HigherOrderSubscriberState::can_downstream_complete
  ensures r == self.can_complete()
//@end
//@fn rx_core_subscriber_higher_order HigherOrderSubscriberState::can_downstream_unsubscribe
  ensures r == old(self).can_unsub(), *final(self) == *old(self)
//@end
/// the outer source completed
//@fn rx_core_subscriber_higher_order HigherOrderSubscriberState::upstream_completed_can_downstream
  ensures final(self).nc() == old(self).nc(), final(self).nu() == old(self).nu(), final(self).state == old(self).state, final(self).down() == old(self).down(),
    final(self).up().is(false, old(self).up().p(), true, old(self).up().e(), true), r == final(self).can_complete()
//@end
/// an inner source completed
//@fn rx_core_subscriber_higher_order HigherOrderSubscriberState::inner_completed_can_downstream
  requires old(self).nc() >= 1
  ensures old(self).same(*final(self), old(self).nc() - 1, old(self).nu() as int),
    r == (old(self).state.waiting() == 0 && old(self).nc() == 1 && old(self).up().c() && !old(self).down().closed()),
    if r { final(self).down().c() && mono(old(self).down(), final(self).down()) } else { final(self).down() == old(self).down() }
//@end
/// an inner source was released
//@fn rx_core_subscriber_higher_order HigherOrderSubscriberState::inner_unsubscribed_and_downstream_is_not_yet_unsubscribed args=completed
  requires old(self).nu() >= 1, !completed ==> old(self).nc() >= 1
  ensures old(self).same(*final(self), old(self).nc() - if completed { 0int } else { 1 }, old(self).nu() - 1), r == !old(self).down().u(),
    mono(old(self).down(), final(self).down()), final(self).down().closed() ==> old(self).down().closed() || old(self).up().e()
//@end
//@fn rx_core_subscriber_higher_order HigherOrderSubscriberState::upstream_error
  ensures final(self).nc() == old(self).nc(), final(self).nu() == old(self).nu(), final(self).state.waiting() == 0, State::grows(old(self).state, final(self).state), final(self).down() == old(self).down(), final(self).up().e(), mono(old(self).up(), final(self).up())
//@end
//@fn rx_core_subscriber_higher_order HigherOrderSubscriberState::downstream_error
  ensures final(self).nc() == old(self).nc(), final(self).nu() == old(self).nu(), final(self).state.waiting() == 0, State::grows(old(self).state, final(self).state), final(self).up() == old(self).up(), final(self).down().e(), mono(old(self).down(), final(self).down())
//@end

// ---- stand-ins
//@replace SharedSubscriber < Destination > => Shr < Destination >
//@replace SharedSubscriber :: new => Shr :: new
//@replace SubscriptionData :: default () => Isd :: vf_new ()
//@replace SubscriptionData => Isd
//@replace OnComplete : FnOnce (usize) => OnComplete : HoDone < State , Destination >
//@replace OnUnsubscribe : FnOnce (usize) => OnUnsubscribe : HoGone < State , Destination >
impl<D: ObserverInput> Shr<D> {
    pub open spec fn with(&self, e: Ev<D::In, D::InError>) -> Seq<Ev<D::In, D::InError>> { if self.shut() { self.sent() } else { self.sent().push(e) } }
    /// a signal handed over; consumers may call back
    pub open spec fn put<S: HigherOrderSubscriberStateConditions>(&self, f: Self, e: Ev<D::In, D::InError>, a: Lk<HigherOrderSubscriberState<S>>, b: Lk<HigherOrderSubscriberState<S>>) -> bool {
        &&& b.cell() == a.cell() && keeps(a@, b@) && f.cell() == self.cell()
        &&& (self.shut() ==> f.shut() && f.sent() == self.sent())
        &&& pfx(self.with(e), f.sent()) && (!(e is Next) ==> f.shut() && f.sent() == self.with(e))
        // what the calls made meanwhile do
        &&& exists|m: Self| #[trigger] m.cell() == self.cell() && m.sent() == self.with(e) && (e is Next ==> m.shut() == self.shut()) && (!(e is Next) ==> m.shut()) && mv(a@, m, b@, f, lim(a.cell()))
    }
    #[verifier::external_body]
    pub fn new(d: D) -> (r: Self) ensures r.sent() == d.log(), r.shut() == (d.closed() || has_term(d.log())) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn is_closed(&self) -> (r: bool) ensures r == self.shut() { unimplemented!() }
    #[verifier::external_body]
    pub fn next<S: HigherOrderSubscriberStateConditions>(&mut self, x: D::In, s: &mut Lk<HigherOrderSubscriberState<S>>) ensures old(self).put(*final(self), Ev::Next(x), *old(s), *final(s)) { unimplemented!() }
    #[verifier::external_body]
    pub fn error<S: HigherOrderSubscriberStateConditions>(&mut self, x: D::InError, s: &mut Lk<HigherOrderSubscriberState<S>>) ensures old(self).put(*final(self), Ev::Error(x), *old(s), *final(s)) { unimplemented!() }
    #[verifier::external_body]
    pub fn complete<S: HigherOrderSubscriberStateConditions>(&mut self, s: &mut Lk<HigherOrderSubscriberState<S>>) ensures old(self).put(*final(self), Ev::Complete, *old(s), *final(s)) { unimplemented!() }
    #[verifier::external_body]
    pub fn unsubscribe<S: HigherOrderSubscriberStateConditions>(&mut self, s: &mut Lk<HigherOrderSubscriberState<S>>) ensures old(self).put(*final(self), Ev::Unsub, *old(s), *final(s)) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_teardown(&mut self, t: Teardown) ensures final(self).sent() == old(self).sent(), final(self).shut() == old(self).shut(), final(self).cell() == old(self).cell() { unimplemented!() }
}
/// a subscription and its teardowns (S06); running them may call anything
#[verifier::external_body]
pub struct Isd { x: u8 }
impl Isd {
    pub uninterp spec fn closed(&self) -> bool;
    #[verifier::external_body]
    pub fn vf_new() -> (r: Self) ensures !r.closed() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures !r.closed() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_closed(&self) -> (r: bool) ensures r == self.closed() { unimplemented!() }
    #[verifier::external_body]
    pub fn unsubscribe<S: HigherOrderSubscriberStateConditions, D: ObserverInput>(&mut self, s: &mut Lk<HigherOrderSubscriberState<S>>, d: &mut Shr<D>)
        ensures final(self).closed(), final(s).cell() == old(s).cell(), mv(old(s)@, *old(d), final(s)@, *final(d), lim(old(s).cell())), keeps(old(s)@, final(s)@) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_teardown(&mut self, t: Teardown) ensures final(self).closed() == old(self).closed() { unimplemented!() }
}
/// the callbacks of an inner source: it completed / it was released
pub trait HoDone<S: HigherOrderSubscriberStateConditions, D: ObserverInput>: Sized {
    /// the limit it goes by
    spec fn knows(&self) -> nat;
    fn vf_call(self, key: usize, s: &mut Lk<HigherOrderSubscriberState<S>>, d: &mut Shr<D>)
        requires old(s)@.nc() >= 1, old(s)@.nu() >= 1, okd(old(s)@, *old(d)), self.knows() == lim(old(s).cell())
        ensures started_one(old(s)@, *old(d), final(s)@, *final(d), lim(old(s).cell())), final(s).cell() == old(s).cell();
}
pub trait HoGone<S: HigherOrderSubscriberStateConditions, D: ObserverInput>: Sized {
    /// the limit it goes by
    spec fn knows(&self) -> nat;
    fn vf_call(self, key: usize, s: &mut Lk<HigherOrderSubscriberState<S>>, d: &mut Shr<D>)
        requires okd(old(s)@, *old(d)), self.knows() == lim(old(s).cell())
        ensures refilled(old(s)@, *old(d), final(s)@, *final(d), lim(old(s).cell())), final(s).cell() == old(s).cell();
}
/// at most one more was started (in the place of the one that just completed, which still counts)
pub open spec fn started_one<S: HigherOrderSubscriberStateConditions, D: ObserverInput>(a: HigherOrderSubscriberState<S>, ad: Shr<D>, b: HigherOrderSubscriberState<S>, bd: Shr<D>, l: nat) -> bool {
    &&& mono(a.up(), b.up()) && mono(a.down(), b.down()) && keeps(a, b)
    &&& (b.down().closed() || lag(b, l) <= lag(a, l)) && b.nc() <= mx(l, a.nc() + 1)
    &&& S::grows(a.state, b.state) && S::calm(a.nu(), b.nu())
    &&& (okd(a, ad) ==> okd(b, bd))
    &&& grew(ad, bd) && (completes(ad, bd) ==> fin(b))
}
/// a free place is taken again; when nothing can follow the output is over
pub open spec fn refilled<S: HigherOrderSubscriberStateConditions, D: ObserverInput>(a: HigherOrderSubscriberState<S>, ad: Shr<D>, b: HigherOrderSubscriberState<S>, bd: Shr<D>, l: nat) -> bool {
    &&& mv(a, ad, b, bd, l) && (b.down().closed() || lag(b, l) == 0 || lag(b, l) < lag(a, l))
    &&& (ripe(b) ==> bd.shut())
}
/// an inner source is released: its place is taken again
pub open spec fn gone<S: HigherOrderSubscriberStateConditions, D: ObserverInput>(a: HigherOrderSubscriberState<S>, ad: Shr<D>, b: HigherOrderSubscriberState<S>, bd: Shr<D>, l: nat, completed: bool) -> bool {
    &&& mv(a, ad, b, bd, l) && (bd.shut() || !ripe(b))
    &&& completed ==> b.down().closed() || lag(b, l) == 0 || lag(b, l) < lag(a, l)
}
//@struct rx_core_subscriber_higher_order HigherOrderInnerSubscriber
//@spec rx_core_subscriber_higher_order HigherOrderInnerSubscriber
    pub closed spec fn open(&self) -> bool { !self.inner_teardown.closed() }
    pub closed spec fn st(&self) -> HigherOrderSubscriberState<State> { self.state@ }
    pub closed spec fn d(&self) -> Shr<Destination> { self.shared_destination }
    pub closed spec fn l(&self) -> nat { lim(self.state.cell()) }
    pub closed spec fn cb(&self) -> bool { self.on_complete is Some && self.on_complete->0.knows() == self.l() && self.cbu() }
    pub closed spec fn cbu(&self) -> bool { self.on_unsubscribe is Some && self.on_unsubscribe->0.knows() == self.l() }
    pub closed spec fn fin1(&self) -> bool { self.completed }
    /// while open it is counted
    pub open spec fn inv(&self) -> bool { self.open() ==> self.cb() && !self.fin1() && self.st().nc() >= 1 && self.st().nu() >= 1 && okd(self.st(), self.d()) }
    pub open spec fn idle(&self, f: Self) -> bool { f.st() == self.st() && f.d() == self.d() }
//@end
//@fn rx_core_subscriber_higher_order HigherOrderInnerSubscriber::new args=key,dest,state,on_complete,on_unsubscribe
  requires on_complete.knows() == lim(state.cell()), on_unsubscribe.knows() == lim(state.cell())
  ensures r.open(), r.cb(), !r.fin1(), r.st() == state@, r.d() == dest, r.l() == lim(state.cell())
//@end
/// every value goes on once, at once
//@fn rx_core_subscriber_higher_order HigherOrderInnerSubscriber::next args=x env=next,@shared_destination:&mut~self.state
  requires old(self).inv()
  ensures final(self).inv(), final(self).l() == old(self).l(), !old(self).open() ==> old(self).idle(*final(self)),
    old(self).open() ==> pfx(old(self).d().with(Ev::Next(x)), final(self).d().sent()) && (final(self).open() ==> !final(self).d().shut()) && (final(self).d().shut() ==> final(self).st().down().closed())
//@end
//@fn rx_core_subscriber_higher_order HigherOrderInnerSubscriber::error args=e env=error,@shared_destination:&mut~self.state
  requires old(self).inv()
  ensures final(self).l() == old(self).l(), !old(self).open() ==> old(self).idle(*final(self)),
    old(self).open() ==> !final(self).open() && final(self).d().shut() && final(self).st().down().closed() && final(self).d().sent() == old(self).d().with(Ev::Error(e))
//@end
//@fn rx_core_subscriber_higher_order HigherOrderInnerSubscriber::complete env=complete,@shared_destination:&mut~self.state env2=():(&mut~self.state,&mut~self.shared_destination)
  requires old(self).inv()
  ensures final(self).l() == old(self).l(), !old(self).open() ==> old(self).idle(*final(self)),
    old(self).open() ==> !final(self).open() && mv(old(self).st(), old(self).d(), final(self).st(), final(self).d(), old(self).l()) && (final(self).d().shut() || !ripe(final(self).st()))
//@end
//@fn rx_core_subscriber_higher_order HigherOrderInnerSubscriber::is_closed
  ensures r == !self.open()
//@end
//@fn rx_core_subscriber_higher_order HigherOrderInnerSubscriber::unsubscribe env=unsubscribe,@inner_teardown:(&mut~self.state,&mut~self.shared_destination) env2=():(&mut~self.state,&mut~self.shared_destination)
  requires old(self).inv() || old(self).open() && old(self).fin1() && old(self).cbu() && old(self).st().nu() >= 1 && okd(old(self).st(), old(self).d())
  ensures final(self).l() == old(self).l(), !old(self).open() ==> old(self).idle(*final(self)), !final(self).open(),
    old(self).open() ==> gone(old(self).st(), old(self).d(), final(self).st(), final(self).d(), old(self).l(), old(self).fin1())
//@end
} // verus!
