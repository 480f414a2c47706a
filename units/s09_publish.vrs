//@include prelude.vrs
//@include lib_held.vrs
// PublishSubject under re-entrancy, as rely/guarantee: while the subscriber list is in use (`held`),
// whatever a subscriber does re-enters through some clone and only queues (`guar`, proved of every
// public call); deliveries are proved for every environment within it. `hist` is the list of
// notifications applied to the subscriber list, `acc` everything ever accepted for later.
//@include lib_state.vrs
verus! {
broadcast use {vp::grp, mc::lem_cl_true};
//@replace Arc < Mutex < dyn Subscriber < In = In , InError = InError > > > => Dst < In , InError >
//@replace Lk < dyn Subscriber < In = In , InError = InError > > => Dst < In , InError >
//@replace HashMap < => VfMap <
//@replace TryLockError :: => TryErr ::
//@replace subscribers : Lk < => subscribers : Hd <
//@replace Lk :: new (Subscribers => Hd :: new (Subscribers
//@replace (state : Lk < MulticastDeferredState < In , InError > > , subscribers : & => (state : & mut Lk < MulticastDeferredState < In , InError > > , subscribers : &
//@replace & mut subscribers) => subscribers)
//@replace self . deferred_state . clone () => & mut self . deferred_state
//@replace (next . clone () => (vf_clone (& next)
//@replace (error . clone () => (vf_clone (& error)
//@replace Signal + Clone => Signal
//@replace state . observed_error . clone () => vf_clone (& state . observed_error)
//@replace lock_ignore_poison () . is_closed_ignoring_deferred => lock_ro () . is_closed_ignoring_deferred
//@replace Lk :: new (subscriber) => vf_share (subscriber)
//@replace Self :: Subscription < Destination :: Upgraded > => MulticastSubscription < In , InError >
//@replace subscribe < Destination > => subscribe < Destination : Up < In , InError > >
//@replace self . subscribers . clone () => vf_same (& self . subscribers)
//@replace queue (self . subscribers . deferred_state . clone () => queue (& mut self . subscribers . deferred_state
//@replace self . subscribers . deferred_state . clone () => vf_same_lk (& self . subscribers . deferred_state)
//@const rx_core_subject_publish MULTICAST_MAX_RECURSION_DEPTH
//@struct rx_core_subject_publish MulticastSubscriberId
impl Copy for MulticastSubscriberId {}
impl Clone for MulticastSubscriberId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@struct rx_core_subject_publish MulticastSubscriberIdGenerator
//@enum rx_core_subject_publish MulticastNotification

/// cloning a signal gives the same signal (assumed)
#[verifier::external_body]
pub fn vf_clone<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }

/// HashMap with a key type whose equality is structural
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VfMap<K, V> { k: PhantomData<K>, v: PhantomData<V> }
impl<K, V> View for VfMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
pub open spec fn keys_of<K, V>(s: Seq<K>, m: Map<K, V>) -> bool { s.no_duplicates() && forall|k: K| #[trigger] s.contains(k) <==> m.dom().contains(k) }
impl<K, V> VfMap<K, V> {
    #[verifier::external_body]
    pub fn vf_keys(&self) -> (r: Vec<K>) ensures keys_of(r@, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_get_mut(&mut self, k: K) -> (r: &mut V) requires old(self)@.dom().contains(k) ensures *r == old(self)@[k], final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_remove(&mut self, k: K) ensures final(self)@ == old(self)@.remove(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r == if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_drain_map(&mut self) -> (r: Vec<(K, V)>) ensures final(self)@ == Map::<K, V>::empty(),
        forall|k: K| #[trigger] old(self)@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && r@[i] == (k, old(self)@[k]) { unimplemented!() }
}
impl<K, V> Default for VfMap<K, V> { #[verifier::external_body] fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() } }

/// a subscriber (`dyn Subscriber` behind a lock): records every call; while it runs, the environment
/// acts on the subject within `guar`
#[verifier::external_body]
#[verifier::reject_recursive_types(In)]
#[verifier::reject_recursive_types(InError)]
pub struct Dst<In, InError> { i: PhantomData<In>, e: PhantomData<InError> }
impl<In, InError> Dst<In, InError> {
    pub uninterp spec fn log(&self) -> Seq<Ev<In, InError>>;
    pub uninterp spec fn closed(&self) -> bool;
    pub open spec fn got(&self, f: Self, e: Ev<In, InError>) -> bool { f.log() == self.log().push(e) && (self.closed() ==> f.closed()) }
    #[verifier::external_body]
    pub fn next(&mut self, x: In, env: &mut MulticastDeferredState<In, InError>) requires old(env).inv() ensures old(self).got(*final(self), Ev::Next(x)), old(env).guar(*final(env)) { unimplemented!() }
    #[verifier::external_body]
    pub fn error(&mut self, x: InError, env: &mut MulticastDeferredState<In, InError>) requires old(env).inv() ensures old(self).got(*final(self), Ev::Error(x)), old(env).guar(*final(env)) { unimplemented!() }
    #[verifier::external_body]
    pub fn complete(&mut self, env: &mut MulticastDeferredState<In, InError>) requires old(env).inv() ensures old(self).got(*final(self), Ev::Complete), old(env).guar(*final(env)) { unimplemented!() }
    #[verifier::external_body]
    pub fn unsubscribe(&mut self, env: &mut MulticastDeferredState<In, InError>) requires old(env).inv()
        ensures old(self).got(*final(self), Ev::Unsub), final(self).closed(), old(env).guar(*final(env)), final(env).ul@.contains(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_closed(&self) -> (r: bool) ensures r == self.closed() { unimplemented!() }
    /// fails while the subscriber is being called
    #[verifier::external_body]
    pub fn try_lock(&self) -> (r: Result<&Self, TryErr<Self>>) ensures match r { Ok(d) => *d == *self && !self.busy(), Err(e) => e is WouldBlock && self.busy() } { unimplemented!() }
    pub uninterp spec fn busy(&self) -> bool;
}
impl<In, InError> Clone for Dst<In, InError> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

pub mod mc {
use super::*;
pub type Nt<I, E> = MulticastNotification<I, E>;
pub open spec fn fin<I, E>(n: Nt<I, E>) -> bool { n is Error || n is Complete || n is Unsubscribe }
pub open spec fn cl<I, E>(c: bool, s: Seq<Nt<I, E>>) -> bool
    decreases s.len()
{ if s.len() == 0 { c } else { cl(c, s.drop_last()) || fin(s.last()) } }
/// what one accepted notification does to the subscriber list
pub open spec fn one<I, E>(c: bool, n: Nt<I, E>) -> Seq<Nt<I, E>> {
    match n {
        MulticastNotification::Add(_, d) => if c || d.closed() { s0() } else { s1(n) },
        MulticastNotification::Error(_) | MulticastNotification::Complete => if c { s1(Nt::<I, E>::Unsubscribe) } else { s2(n, Nt::<I, E>::Unsubscribe) },
        _ => if c { s0() } else { s1(n) },
    }
}
pub open spec fn eff<I, E>(c: bool, s: Seq<Nt<I, E>>) -> Seq<Nt<I, E>>
    decreases s.len()
{ if s.len() == 0 { s0() } else { eff(c, s.drop_last()) + one(cl(c, s.drop_last()), s.last()) } }
pub proof fn lem_push<I, E>(c: bool, s: Seq<Nt<I, E>>, n: Nt<I, E>)
    ensures cl(c, s.push(n)) == (cl(c, s) || fin(n)), eff(c, s.push(n)) == eff(c, s) + one(cl(c, s), n)
{ assert(s.push(n).drop_last() =~= s); }
pub broadcast proof fn lem_cl_true<I, E>(s: Seq<Nt<I, E>>)
    ensures #[trigger] cl(true, s)
    decreases s.len()
{ if s.len() > 0 { lem_cl_true(s.drop_last()); } }
/// what a subscriber present throughout `h` is sent
pub open spec fn track<I, E>(h: Seq<Nt<I, E>>) -> Seq<Ev<I, E>>
    decreases h.len()
{ if h.len() == 0 { s0() } else { match h.last() {
    MulticastNotification::Next(x) => track(h.drop_last()).push(Ev::Next(x)),
    MulticastNotification::Error(x) => track(h.drop_last()).push(Ev::Error(x)),
    MulticastNotification::Complete => track(h.drop_last()).push(Ev::Complete),
    _ => track(h.drop_last()) } } }
pub proof fn lem_track<I, E>(h: Seq<Nt<I, E>>, i: int, n: Nt<I, E>)
    requires 0 <= i <= h.len()
    ensures track(h.push(n).skip(i)) == match n { MulticastNotification::Next(x) => track(h.skip(i)).push(Ev::Next(x)), MulticastNotification::Error(x) => track(h.skip(i)).push(Ev::Error(x)), MulticastNotification::Complete => track(h.skip(i)).push(Ev::Complete), _ => track(h.skip(i)) }
{ assert(h.push(n).skip(i).drop_last() =~= h.skip(i)); }
/// a subscriber that was there (with log `b.0`) when `b.1` notifications had been applied
pub open spec fn sees<I, E>(d: Dst<I, E>, b: (Seq<Ev<I, E>>, int), h: Seq<Nt<I, E>>) -> bool {
    &&& 0 <= b.1 <= h.len()
    &&& !d.closed() ==> d.log() == b.0 + track(h.skip(b.1))
    &&& d.closed() ==> pfx(d.log(), b.0 + track(h.skip(b.1)))
}
pub open spec fn sent<I, E>(n: Nt<I, E>) -> Option<Ev<I, E>> {
    match n { MulticastNotification::Next(x) => Some(Ev::Next(x)), MulticastNotification::Error(x) => Some(Ev::Error(x)), MulticastNotification::Complete => Some(Ev::Complete), _ => None }
}
pub proof fn lem_sees<I, E>(d: Dst<I, E>, f: Dst<I, E>, b: (Seq<Ev<I, E>>, int), h: Seq<Nt<I, E>>, n: Nt<I, E>)
    requires sees(d, b, h), if d.closed() || sent(n) is None { f == d } else { d.got(f, sent(n)->0) }
    ensures sees(f, b, h.push(n))
{
    lem_track(h, b.1, n);
    if sent(n) is Some { assert(b.0 + track(h.skip(b.1)).push(sent(n)->0) =~= (b.0 + track(h.skip(b.1))).push(sent(n)->0)); }
}
pub proof fn lem_tail<K>(r: Seq<K>)
    requires r.len() > 0
    ensures r.contains(r[0]),
      forall|k: K| #[trigger] r.subrange(1, r.len() as int).contains(k) ==> r.contains(k) && (r.no_duplicates() ==> k != r[0]),
      forall|k: K| #[trigger] r.contains(k) ==> k == r[0] || r.subrange(1, r.len() as int).contains(k),
      r.no_duplicates() ==> r.subrange(1, r.len() as int).no_duplicates()
{
    let t = r.subrange(1, r.len() as int);
    assert forall|k: K| #[trigger] t.contains(k) implies r.contains(k) && (r.no_duplicates() ==> k != r[0]) by { let i = choose|i: int| 0 <= i < t.len() && t[i] == k; assert(r[i + 1] == k); }
    assert forall|k: K| #[trigger] r.contains(k) implies k == r[0] || t.contains(k) by { let i = choose|i: int| 0 <= i < r.len() && r[i] == k; if i > 0 { assert(t[i - 1] == k); } }
}
/// progress of applying the queue: everything up to position `p` has been applied
pub open spec fn mid<I, E>(o: MulticastDeferredState<I, E>, h0: Seq<Nt<I, E>>, st: MulticastDeferredState<I, E>, h: Seq<Nt<I, E>>, p: int) -> bool {
    let k0 = o.acc@.len() - o.q().len();
    &&& st.inv() && o.inv() && o.mono(st)
    &&& k0 <= p <= st.acc@.len()
    &&& h =~= h0 + eff(o.closed_flag.is_closed, st.acc@.subrange(k0, p))
    &&& st.closed_flag.is_closed == cl(o.closed_flag.is_closed, st.acc@.subrange(k0, p))
}
pub broadcast proof fn lem_guar_mid<I, E>(o: MulticastDeferredState<I, E>, h0: Seq<Nt<I, E>>, st: MulticastDeferredState<I, E>, h: Seq<Nt<I, E>>, p: int, st2: MulticastDeferredState<I, E>)
    requires #[trigger] mid(o, h0, st, h, p), #[trigger] st.guar(st2)
    ensures mid(o, h0, st2, h, p)
{
    let k0 = o.acc@.len() - o.q().len();
    assert(st2.acc@.subrange(k0, p) =~= st.acc@.subrange(k0, p));
}
}
pub use mc::*;

//@struct rx_core_subject_publish MulticastDeferredState +acc:Ghost<Seq<MulticastNotification<In,InError>>>=Ghost(Seq::empty()) +ul:Ghost<Set<Dst<In,InError>>>=Ghost(Set::empty())
//@spec rx_core_subject_publish MulticastDeferredState
    pub open spec fn q(&self) -> Seq<MulticastNotification<In, InError>> { self.deferred_notifications_queue@ }
    /// the queue is the unprocessed end of what was accepted
    pub open spec fn inv(&self) -> bool { self.q().len() <= self.acc@.len() && self.acc@.skip(self.acc@.len() - self.q().len()) =~= self.q() }
    pub open spec fn clean(&self) -> bool { self.q().len() == 0 }
    pub open spec fn ended(&self) -> bool { self.observed_state.c() || self.observed_state.u() || self.observed_error is Some }
    pub open spec fn flagged(&self) -> bool { self.closed_flag.is_closed || self.ended() }
    pub open spec fn flags_on(&self, f: Self) -> bool {
        &&& self.observed_state.c() ==> f.observed_state.c()
        &&& self.observed_state.u() ==> f.observed_state.u()
        &&& self.observed_error is Some ==> f.observed_error == self.observed_error
    }
    /// once ended, no value and no second terminal is accepted
    pub open spec fn sealed(&self, f: Self) -> bool {
        self.flagged() ==> forall|i: int| self.acc@.len() <= i < f.acc@.len() ==> (#[trigger] f.acc@[i] is Unsubscribe || f.acc@[i] is UnsubscribeById || f.acc@[i] is Add)
    }
    /// what a call made while the subscriber list is in use may do
    pub open spec fn guar(&self, f: Self) -> bool {
        &&& f.inv() && self.flags_on(f) && self.sealed(f)
        &&& f.closed_flag == self.closed_flag
        &&& pfx(self.q(), f.q()) && pfx(self.acc@, f.acc@) && f.acc@.len() - self.acc@.len() == f.q().len() - self.q().len()
        &&& self.ul@.subset_of(f.ul@)
    }
    /// over any stretch of time
    pub open spec fn mono(&self, f: Self) -> bool {
        &&& self.flags_on(f) && self.sealed(f)
        &&& self.closed_flag.is_closed ==> f.closed_flag.is_closed
        &&& pfx(self.acc@, f.acc@)
        &&& self.ul@.subset_of(f.ul@)
    }
    pub open spec fn later(&self, f: Self) -> Seq<MulticastNotification<In, InError>> { f.acc@.skip(self.acc@.len() as int) }
    pub open spec fn only_queue(&self, f: Self) -> bool {
        f.closed_flag == self.closed_flag && f.observed_state == self.observed_state && f.observed_error == self.observed_error
    }
//@end
//@fn rx_core_subject_publish MulticastDeferredState::defer_notification args=n env=unsubscribe:self
  requires old(self).inv()
  ensures final(self).inv(),
    if !old(self).closed_flag.is_closed || (n is Unsubscribe && !old(self).observed_state.u()) {
      old(self).only_queue(*final(self)) && final(self).ul@ == old(self).ul@ && final(self).q() == old(self).q().push(n) && final(self).acc@ == old(self).acc@.push(n)
    } else {
      (n is Add ==> old(self).guar(*final(self)) && (!n->Add_1.closed() ==> final(self).ul@.contains(n->Add_1))) && (!(n is Add) ==> *final(self) == *old(self))
    }
//@@start
  proof { if !self.closed_flag.is_closed || (n is Unsubscribe && !self.observed_state.u()) { self.acc@ = self.acc@.push(n); } }
//@end
//@fn rx_core_subject_publish MulticastDeferredState::drain_notification_queue
  requires old(self).inv()
  ensures final(self).inv(), old(self).only_queue(*final(self)), final(self).ul@ == old(self).ul@, final(self).acc@ == old(self).acc@, r@ == old(self).q(), final(self).q().len() == 0
//@end
//@fn rx_core_subject_publish MulticastDeferredState::is_dirty
  ensures r == !self.clean()
//@end
//@fn rx_core_subject_publish MulticastDeferredState::is_unsubscribed
  ensures r == self.observed_state.u()
//@end
//@fn rx_core_subject_publish MulticastDeferredState::is_closed
  ensures r == self.flagged()
//@end
//@fn rx_core_subject_publish MulticastDeferredState::is_closed_ignoring_deferred
  ensures r == self.closed_flag.is_closed
//@end
//@fn rx_core_subject_publish MulticastDeferredState::default
  ensures r.inv(), r.clean(), !r.flagged()
//@end

//@struct rx_core_subject_publish Subscribers +hist:Ghost<Seq<MulticastNotification<In,InError>>>=Ghost(Seq::empty()) +base:Ghost<Map<MulticastSubscriberId,(Seq<Ev<In,InError>>,int)>>=Ghost(Map::empty())
//@spec rx_core_subject_publish Subscribers
    pub open spec fn m(&self) -> Map<MulticastSubscriberId, Dst<In, InError>> { self.subscribers@ }
    /// every subscriber got exactly what was applied since it was added, in order
    pub open spec fn inv(&self) -> bool {
        forall|k: MulticastSubscriberId| #[trigger] self.m().dom().contains(k) ==> self.base@.dom().contains(k) && sees(self.m()[k], self.base@[k], self.hist@)
    }
    /// one signal went to every open subscriber and nobody else
    pub open spec fn each(&self, f: Self, e: Ev<In, InError>) -> bool {
        &&& f.m().dom() == self.m().dom() && f.base@ == self.base@
        &&& forall|k: MulticastSubscriberId| #[trigger] self.m().dom().contains(k) ==> if self.m()[k].closed() { f.m()[k] == self.m()[k] } else { self.m()[k].got(f.m()[k], e) }
    }
//@end
//@macro EACH FN ARGS SAME EV NT
//@fn rx_core_subject_publish Subscribers::$FN $ARGS ghostarg=env:&mut~MulticastDeferredState<In,InError> env=$FN:env
  requires old(self).inv(), old(env).inv()
  ensures final(self).inv(), old(env).guar(*final(env)), old(self).each(*final(self), $EV), final(self).hist@ == old(self).hist@.push($NT)
//@@start
  let ghost o = *self; let ghost e0 = *env; let ghost ks = Seq::<MulticastSubscriberId>::empty();
//@@loop 0
  invariant
    $SAME, o.inv(), env.inv(), e0.guar(*env), self.hist@ == o.hist@, self.base@ == o.base@, self.m().dom() =~= o.m().dom(),
    vf_it_0.rem().no_duplicates(), forall|k: MulticastSubscriberId| #[trigger] vf_it_0.rem().contains(k) ==> o.m().dom().contains(k),
    forall|k: MulticastSubscriberId| #[trigger] o.m().dom().contains(k) ==> if vf_it_0.rem().contains(k) || o.m()[k].closed() { self.m()[k] == o.m()[k] } else { o.m()[k].got(self.m()[k], $EV) }
  decreases vf_it_0.rem().len()
//@@lstart 0
  let ghost r0 = vf_it_0.rem();
  proof { lem_tail(r0); }
//@@end
  proof { self.hist@ = self.hist@.push($NT);
    assert forall|k: MulticastSubscriberId| #[trigger] self.m().dom().contains(k) implies self.base@.dom().contains(k) && sees(self.m()[k], self.base@[k], self.hist@) by { assert(o.m().dom().contains(k)); lem_sees(o.m()[k], self.m()[k], o.base@[k], o.hist@, $NT); } }
//@end
//@endmacro
//@use EACH next args=x next==x Ev::Next(x) MulticastNotification::Next(x)
//@use EACH error args=x error==x Ev::Error(x) MulticastNotification::Error(x)
//@use EACH complete ret=r true Ev::Complete MulticastNotification::Complete
//@fn rx_core_subject_publish Subscribers::unsubscribe ghostarg=env:&mut~MulticastDeferredState<In,InError> env=unsubscribe:env
  requires old(self).inv(), old(env).inv()
  ensures final(self).inv(), old(env).guar(*final(env)), final(self).m() == Map::<MulticastSubscriberId, Dst<In, InError>>::empty(),
    final(self).hist@ == old(self).hist@.push(MulticastNotification::Unsubscribe),
    forall|k: MulticastSubscriberId| #[trigger] old(self).m().dom().contains(k) && !old(self).m()[k].closed() ==> final(env).ul@.contains(old(self).m()[k])
//@@start
  let ghost o = *self; let ghost e0 = *env;
//@@loop 0
  invariant
    o.inv(), env.inv(), e0.guar(*env), self.hist@ == o.hist@, self.m() == Map::<MulticastSubscriberId, Dst<In, InError>>::empty(),
    forall|k: MulticastSubscriberId| #[trigger] o.m().dom().contains(k) && !o.m()[k].closed() ==> env.ul@.contains(o.m()[k]) || exists|i: int| 0 <= i < vf_it_0.rem().len() && vf_it_0.rem()[i] == (k, o.m()[k])
  decreases vf_it_0.rem().len()
//@@lstart 0
  let ghost r0 = vf_it_0.rem(); let ghost e1 = *env;
//@@lend 0
  proof { assert forall|k: MulticastSubscriberId| #[trigger] o.m().dom().contains(k) && !o.m()[k].closed() implies env.ul@.contains(o.m()[k]) || exists|i: int| 0 <= i < vf_it_0.rem().len() && vf_it_0.rem()[i] == (k, o.m()[k]) by {
    if !e1.ul@.contains(o.m()[k]) { let i = choose|i: int| 0 <= i < r0.len() && r0[i] == (k, o.m()[k]); if i > 0 { assert(vf_it_0.rem()[i - 1] == r0[i]); } }
  } }
//@@end
  proof { self.hist@ = self.hist@.push(MulticastNotification::Unsubscribe); }
//@end
//@fn rx_core_subject_publish Subscribers::unsubscribe_by_id args=id ghostarg=env:&mut~MulticastDeferredState<In,InError> env=unsubscribe:env
  requires old(self).inv(), old(env).inv()
  ensures final(self).inv(), old(env).guar(*final(env)), final(self).m() == old(self).m().remove(id), final(self).hist@ == old(self).hist@.push(MulticastNotification::UnsubscribeById(id)),
    old(self).m().dom().contains(id) && !old(self).m()[id].closed() ==> final(env).ul@.contains(old(self).m()[id])
//@@start
  let ghost o = *self;
//@@end
  proof { self.hist@ = self.hist@.push(MulticastNotification::UnsubscribeById(id));
    assert forall|k: MulticastSubscriberId| #[trigger] self.m().dom().contains(k) implies self.base@.dom().contains(k) && sees(self.m()[k], self.base@[k], self.hist@) by { assert(o.m().dom().contains(k)); lem_sees(o.m()[k], self.m()[k], o.base@[k], o.hist@, MulticastNotification::UnsubscribeById(id)); } }
//@end
//@fn rx_core_subject_publish Subscribers::add_subscriber args=id,d
  requires old(self).inv()
  ensures final(self).inv(), final(self).m() == old(self).m().insert(id, d), final(self).hist@ == old(self).hist@.push(MulticastNotification::Add(id, d))
//@@start
  let ghost o = *self;
//@@end
  proof { self.hist@ = self.hist@.push(MulticastNotification::Add(id, d)); self.base@ = self.base@.insert(id, (d.log(), self.hist@.len() as int));
    assert(self.hist@.skip(self.hist@.len() as int) =~= Seq::empty());
    assert forall|k: MulticastSubscriberId| #[trigger] self.m().dom().contains(k) implies self.base@.dom().contains(k) && sees(self.m()[k], self.base@[k], self.hist@) by { if k != id { assert(o.m().dom().contains(k)); lem_sees(o.m()[k], self.m()[k], o.base@[k], o.hist@, MulticastNotification::Add(id, d)); } } }
//@end
//@fn rx_core_subject_publish Subscribers::clean
  requires old(self).inv()
  ensures final(self).inv(), final(self).hist@ == old(self).hist@,
    forall|k: MulticastSubscriberId| #[trigger] old(self).m().dom().contains(k) ==> if old(self).m()[k].closed() { !final(self).m().dom().contains(k) } else { final(self).m().dom().contains(k) && final(self).m()[k] == old(self).m()[k] },
    final(self).m().dom().subset_of(old(self).m().dom())
//@@start
  let ghost o = *self;
//@@loop 0
  invariant
    o.inv(), self.hist@ == o.hist@, self.base@ == o.base@, self.m().dom().subset_of(o.m().dom()),
    vf_it_0.rem().no_duplicates(), forall|k: MulticastSubscriberId| #[trigger] vf_it_0.rem().contains(k) ==> o.m().dom().contains(k),
    forall|k: MulticastSubscriberId| #[trigger] o.m().dom().contains(k) ==> if !vf_it_0.rem().contains(k) && o.m()[k].closed() { !self.m().dom().contains(k) } else { self.m().dom().contains(k) && self.m()[k] == o.m()[k] }
  decreases vf_it_0.rem().len()
//@@lstart 0
  let ghost r0 = vf_it_0.rem();
  proof { lem_tail(r0); }
//@end
//@fn rx_core_subject_publish Subscribers::apply args=n ghostarg=env:&mut~MulticastDeferredState<In,InError> env=self,next,error,complete,unsubscribe,unsubscribe_by_id:env
  requires old(self).inv(), old(env).inv()
  ensures final(self).inv(), old(env).guar(*final(env)), final(self).hist@ == old(self).hist@.push(n),
    match n {
      MulticastNotification::Next(x) => old(self).each(*final(self), Ev::Next(x)),
      MulticastNotification::Error(x) => old(self).each(*final(self), Ev::Error(x)),
      MulticastNotification::Complete => old(self).each(*final(self), Ev::Complete),
      MulticastNotification::Unsubscribe => final(self).m() == Map::<MulticastSubscriberId, Dst<In, InError>>::empty() && forall|k: MulticastSubscriberId| #[trigger] old(self).m().dom().contains(k) && !old(self).m()[k].closed() ==> final(env).ul@.contains(old(self).m()[k]),
      MulticastNotification::UnsubscribeById(id) => final(self).m() == old(self).m().remove(id) && (old(self).m().dom().contains(id) && !old(self).m()[id].closed() ==> final(env).ul@.contains(old(self).m()[id])),
      MulticastNotification::Add(id, d) => final(self).m() == old(self).m().insert(id, d),
    }
//@end

//@fn rx_core_subject_publish MulticastSubscriberIdGenerator::get_next
  requires old(self).current_index < usize::MAX
  ensures r.0 == old(self).current_index, final(self).current_index == old(self).current_index + 1
//@end
//@struct rx_core_subject_publish MulticastNextLockError
//@struct rx_core_subject_publish MulticastErrorLockError
//@struct rx_core_subject_publish MulticastCompleteLockError
//@struct rx_core_subject_publish MulticastUnsubscribeLockError
//@struct rx_core_subject_publish MulticastAddLockError
//@struct rx_core_subject_publish SharedSubscribers
//@spec rx_core_subject_publish SharedSubscribers
    pub open spec fn st(&self) -> MulticastDeferredState<In, InError> { self.deferred_state@ }
    pub open spec fn d(&self) -> Subscribers<In, InError> { self.subscribers@ }
    pub open spec fn held(&self) -> bool { self.subscribers.held() }
    pub open spec fn wf(&self) -> bool { self.st().inv() && self.d().inv() }
    /// nothing is left behind once nobody uses the subscriber list
    pub open spec fn inv(&self) -> bool { self.wf() && (!self.held() ==> self.st().clean()) }
    /// `first` was applied, and nothing else but what was queued meanwhile is due
    pub open spec fn applied(&self, f: Self, first: Seq<MulticastNotification<In, InError>>) -> bool {
        self.st().guar(f.st()) && f.d().hist@ =~= self.d().hist@ + first
    }
//@end
//@fn rx_core_subject_publish SharedSubscribers::apply_notification_queue asserts env=apply,unsubscribe:state.lock_ignore_poison()
  requires old(state)@.inv(), old(subscribers).inv()
  ensures final(state)@.inv(), final(state)@.clean(), final(subscribers).inv(),
    ({ let o = old(state)@; let f = final(state)@; let k = f.acc@.skip(o.acc@.len() - o.q().len());
      &&& o.mono(f)
      &&& final(subscribers).hist@ == old(subscribers).hist@ + eff(o.closed_flag.is_closed, k)
      &&& f.closed_flag.is_closed == cl(o.closed_flag.is_closed, k)
      &&& o.clean() ==> f == o && *final(subscribers) == *old(subscribers)
    })
//@@start
  broadcast use mc::lem_guar_mid;
  let ghost o = state@;
  let ghost s0 = *subscribers;
  let ghost h0 = s0.hist@;
  let ghost c0 = o.closed_flag.is_closed;
  let ghost k0 = o.acc@.len() - o.q().len();
//@@loop 0
  invariant_except_break
    k0 == o.acc@.len() - o.q().len(), c0 == o.closed_flag.is_closed, h0 == s0.hist@,
    vf_it_0.rem().len() > 0, vf_it_0.rem().last() == MULTICAST_MAX_RECURSION_DEPTH,
    forall|i: int| 0 <= i < vf_it_0.rem().len() ==> #[trigger] vf_it_0.rem()[i] == MULTICAST_MAX_RECURSION_DEPTH - (vf_it_0.rem().len() - 1 - i),
    o.clean() ==> state@ == o && *subscribers == s0, subscribers.inv(),
    mid(o, h0, state@, subscribers.hist@, state@.acc@.len() - state@.q().len())
  ensures
    state@.clean(), subscribers.inv(), o.clean() ==> state@ == o && *subscribers == s0,
    mid(o, h0, state@, subscribers.hist@, state@.acc@.len() - state@.q().len())
  decreases vf_it_0.rem().len()
//@@loop 1
  invariant
    k0 == o.acc@.len() - o.q().len(), c0 == o.closed_flag.is_closed, subscribers.inv(),
    mid(o, h0, state@, subscribers.hist@, state@.acc@.len() - state@.q().len() - vf_it_1.rem().len()),
    vf_it_1.rem() =~= state@.acc@.subrange(state@.acc@.len() - state@.q().len() - vf_it_1.rem().len(), state@.acc@.len() - state@.q().len()),
  decreases vf_it_1.rem().len()
//@@lstart 1
  broadcast use mc::lem_guar_mid;
  let ghost st1 = state@; let ghost p1 = state@.acc@.len() - state@.q().len() - vf_it_1.rem().len();
  proof { mc::lem_push(c0, state@.acc@.subrange(k0, p1), vf_it_1.rem()[0]); assert(vf_it_1.rem()[0] == state@.acc@[p1]); assert(state@.acc@.subrange(k0, p1 + 1) =~= state@.acc@.subrange(k0, p1).push(state@.acc@[p1]));
    if vf_it_1.rem()[0] is Add && one(state@.closed_flag.is_closed, vf_it_1.rem()[0]).len() == 0 { assert(mid(o, h0, state@, subscribers.hist@, p1 + 1)); } }
//@@lend 1
  proof { assert(state@.acc@.subrange(k0, p1 + 1) =~= st1.acc@.subrange(k0, p1 + 1)); }
//@@after 0
  proof { assert(state@.acc@.subrange(k0, state@.acc@.len() as int) =~= state@.acc@.skip(k0)); }
//@end
//@fn rx_core_subject_publish SharedSubscribers::try_next args=x env=next:self.deferred_state.lock_ignore_poison()
  requires old(self).inv()
  ensures final(self).wf(), final(self).subscriber_id_generator@ == old(self).subscriber_id_generator@, final(self).held() == old(self).held(),
    match r { Err(e) => old(self).held() && e.next == x && final(self).st() == old(self).st() && final(self).d() == old(self).d(),
      Ok(_) => !old(self).held() && old(self).applied(*final(self), s1(MulticastNotification::Next(x))) && old(self).d().each(final(self).d(), Ev::Next(x)) }
//@end
//@fn rx_core_subject_publish SharedSubscribers::try_error args=x env=error:self.deferred_state.lock_ignore_poison()
  requires old(self).inv()
  ensures final(self).wf(), final(self).subscriber_id_generator@ == old(self).subscriber_id_generator@, final(self).held() == old(self).held(),
    match r { Err(e) => old(self).held() && e.error == x && final(self).st() == old(self).st() && final(self).d() == old(self).d(),
      Ok(_) => !old(self).held() && old(self).applied(*final(self), s1(MulticastNotification::Error(x))) && old(self).d().each(final(self).d(), Ev::Error(x)) }
//@end
//@fn rx_core_subject_publish SharedSubscribers::try_complete ret=r env=complete:self.deferred_state.lock_ignore_poison()
  requires old(self).inv()
  ensures final(self).wf(), final(self).subscriber_id_generator@ == old(self).subscriber_id_generator@, final(self).held() == old(self).held(),
    match r { Err(e) => old(self).held() && final(self).st() == old(self).st() && final(self).d() == old(self).d(),
      Ok(_) => !old(self).held() && old(self).applied(*final(self), s1(MulticastNotification::Complete)) && old(self).d().each(final(self).d(), Ev::Complete) }
//@end
//@fn rx_core_subject_publish SharedSubscribers::try_unsubscribe env=unsubscribe:self.deferred_state.lock_ignore_poison()
  requires old(self).inv(), old(self).st().observed_state.u()
  ensures final(self).wf(), final(self).subscriber_id_generator@ == old(self).subscriber_id_generator@, final(self).held() == old(self).held(),
    match r { Err(e) => old(self).held() && final(self).st() == old(self).st() && final(self).d() == old(self).d(),
      Ok(_) => !old(self).held() && final(self).st().closed_flag.is_closed && old(self).st().mono(final(self).st()) && final(self).st().acc@.len() - final(self).st().q().len() == old(self).st().acc@.len() && final(self).d().m() == Map::<MulticastSubscriberId, Dst<In, InError>>::empty()
        && final(self).d().hist@ =~= old(self).d().hist@ + s1(MulticastNotification::Unsubscribe)
        && forall|k: MulticastSubscriberId| #[trigger] old(self).d().m().dom().contains(k) && !old(self).d().m()[k].closed() ==> final(self).st().ul@.contains(old(self).d().m()[k]) }
//@end
//@fn rx_core_subject_publish SharedSubscribers::try_unsubscribe_by_id args=id env=unsubscribe_by_id:self.deferred_state.lock_ignore_poison()
  requires old(self).inv()
  ensures final(self).wf(), final(self).subscriber_id_generator@ == old(self).subscriber_id_generator@, final(self).held() == old(self).held(),
    match r { Err(e) => old(self).held() && final(self).st() == old(self).st() && final(self).d() == old(self).d(),
      Ok(_) => !old(self).held() && final(self).inv() && old(self).st().mono(final(self).st())
        && final(self).d().hist@ =~= old(self).d().hist@ + s1(MulticastNotification::UnsubscribeById(id)) + eff(old(self).st().closed_flag.is_closed, old(self).st().later(final(self).st()))
        && (old(self).d().m().dom().contains(id) && !old(self).d().m()[id].closed() ==> final(self).st().ul@.contains(old(self).d().m()[id])) }
//@end
//@fn rx_core_subject_publish SharedSubscribers::try_add_subscriber args=d
  requires old(self).inv(), old(self).subscriber_id_generator@.current_index < usize::MAX
  ensures final(self).wf(), final(self).held() == old(self).held(), final(self).st() == old(self).st(),
    final(self).subscriber_id_generator@.current_index == old(self).subscriber_id_generator@.current_index + 1,
    match r { Err(e) => old(self).held() && final(self).d() == old(self).d() && e.subscriber == d && e.id.0 == old(self).subscriber_id_generator@.current_index,
      Ok(id) => !old(self).held() && id.0 == old(self).subscriber_id_generator@.current_index && final(self).d().hist@ =~= old(self).d().hist@.push(MulticastNotification::Add(id, d)) && final(self).d().m() == old(self).d().m().insert(id, d) }
//@end

/// another handle on the same list (Arc clone)
#[verifier::external_body]
pub fn vf_same<In, InError>(x: &SharedSubscribers<In, InError>) -> (r: SharedSubscribers<In, InError>) ensures r == *x { unimplemented!() }
/// a subscriber that was not shared yet; what it is told goes to the subject's `late` record
#[verifier::external_body]
#[verifier::reject_recursive_types(In)]
#[verifier::reject_recursive_types(InError)]
pub struct Fresh<In, InError> { i: PhantomData<In>, e: PhantomData<InError> }
pub trait Up<In, InError>: Sized {
    spec fn up(self) -> Fresh<In, InError>;
    fn upgrade(self) -> (r: Fresh<In, InError>) ensures r == self.up();
}
impl<In, InError> Fresh<In, InError> {
    pub uninterp spec fn dst(self) -> Dst<In, InError>;
    pub uninterp spec fn closed(&self) -> bool;
    #[verifier::external_body]
    pub fn error(&mut self, x: InError, env: &mut PublishSubject<In, InError>) requires old(env).inv(), old(env).st().flagged() ensures old(env).during(*final(env)), final(env).late@ == old(env).late@.push(Ev::Error(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn complete(&mut self, env: &mut PublishSubject<In, InError>) requires old(env).inv(), old(env).st().flagged() ensures old(env).during(*final(env)), final(env).late@ == old(env).late@.push(Ev::Complete) { unimplemented!() }
    #[verifier::external_body]
    pub fn unsubscribe(&mut self, env: &mut PublishSubject<In, InError>) requires old(env).inv(), old(env).st().flagged() ensures old(env).during(*final(env)), final(env).late@ == old(env).late@, final(self).closed() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_closed(&self) -> (r: bool) ensures r == self.closed() { unimplemented!() }
}
#[verifier::external_body]
pub fn vf_share<In, InError>(x: Fresh<In, InError>) -> (r: Dst<In, InError>) ensures r == x.dst() { unimplemented!() }

//@struct rx_core_subject_publish PublishSubject -deferred_state +late:Ghost<Seq<Ev<In,InError>>>=Ghost(Seq::empty())
//@spec rx_core_subject_publish PublishSubject
    pub open spec fn st(&self) -> MulticastDeferredState<In, InError> { self.subscribers.st() }
    pub open spec fn d(&self) -> Subscribers<In, InError> { self.subscribers.d() }
    pub open spec fn held(&self) -> bool { self.subscribers.held() }
    pub open spec fn inv(&self) -> bool { self.subscribers.inv() && self.subscribers.subscriber_id_generator@.current_index < usize::MAX }
    pub open spec fn next_id(&self) -> usize { self.subscribers.subscriber_id_generator@.current_index }
    /// calls made on this subject by a subscriber that is told the end right away
    pub open spec fn during(&self, f: Self) -> bool {
        f.inv() && f.held() == self.held() && self.st().mono(f.st())
    }
    /// nothing but queueing
    pub open spec fn queued(&self, f: Self, n: MulticastNotification<In, InError>) -> bool {
        f.d() == self.d() && self.st().guar(f.st()) && f.st().q() == self.st().q().push(n)
    }
    pub open spec fn same(&self, f: Self) -> bool { f.d() == self.d() && f.st() == self.st() }
    /// `first` was applied, then everything accepted meanwhile, in order
    pub open spec fn applied(&self, f: Self, first: Seq<MulticastNotification<In, InError>>, c: bool) -> bool {
        let k = self.st().later(f.st());
        &&& self.st().mono(f.st()) && f.st().clean()
        &&& f.d().hist@ == self.d().hist@ + first + eff(c, k)
        &&& f.st().closed_flag.is_closed == cl(c, k)
    }
//@end
//@fn rx_core_subject_publish PublishSubject::is_closed ro alias=self.deferred_state=>self.subscribers.deferred_state
  ensures r == self.st().flagged()
//@end
//@fn rx_core_subject_publish PublishSubject::is_errored ro alias=self.deferred_state=>self.subscribers.deferred_state
  ensures r == self.st().observed_error is Some
//@end
//@fn rx_core_subject_publish PublishSubject::try_apply_deferred alias=self.deferred_state=>self.subscribers.deferred_state
  requires old(self).subscribers.wf()
  ensures final(self).subscribers.wf(), final(self).held() == old(self).held(), final(self).next_id() == old(self).next_id(), final(self).late@ == old(self).late@,
    !old(self).held() ==> final(self).st().clean(),
    old(self).held() || old(self).st().clean() ==> old(self).same(*final(self)),
    !old(self).held() ==> ({ let o = old(self).st(); let f = final(self).st(); let k = f.acc@.skip(o.acc@.len() - o.q().len());
      &&& o.mono(f)
      &&& final(self).d().hist@ == old(self).d().hist@ + eff(o.closed_flag.is_closed, k)
      &&& f.closed_flag.is_closed == cl(o.closed_flag.is_closed, k) })
//@end

// ---- the public calls. While the subscriber list is in use (`held`) a call is only queued, within
// `guar`; otherwise it is applied, then everything accepted meanwhile, in order; nothing is left.
//@macro SEND FN ARGS NT C
//@fn rx_core_subject_publish PublishSubject::$FN $ARGS alias=self.deferred_state=>self.subscribers.deferred_state
  requires old(self).inv()
  ensures final(self).inv(), final(self).held() == old(self).held(),
    old(self).st().flagged() ==> old(self).same(*final(self)),
    !old(self).st().flagged() && old(self).held() ==> old(self).queued(*final(self), $NT),
    !old(self).st().flagged() && !old(self).held() ==> old(self).applied(*final(self), s1($NT), false),
    $C
//@end
//@endmacro
//@use SEND next args=x MulticastNotification::Next(x) true
//@use SEND error args=x MulticastNotification::Error(x) final(self).st().flagged()
//@use SEND complete ret=r MulticastNotification::Complete final(self).st().flagged()
//@fn rx_core_subject_publish PublishSubject::unsubscribe alias=self.deferred_state=>self.subscribers.deferred_state
  requires old(self).inv()
  ensures final(self).inv(), final(self).held() == old(self).held(), final(self).st().observed_state.u(),
    old(self).held() ==> final(self).d() == old(self).d() && old(self).st().guar(final(self).st()),
    old(self).held() && !old(self).st().observed_state.u() && !old(self).st().closed_flag.is_closed ==> final(self).st().q() == old(self).st().q().push(MulticastNotification::Unsubscribe),
    !old(self).held() && !old(self).st().observed_state.u() ==> old(self).applied(*final(self), s1(MulticastNotification::Unsubscribe), true)
      && forall|k: MulticastSubscriberId| #[trigger] old(self).d().m().dom().contains(k) && !old(self).d().m()[k].closed() ==> final(self).st().ul@.contains(old(self).d().m()[k])
//@end
//@struct rx_core_subject_publish MulticastSubscription
//@fn rx_core_subject_publish MulticastSubscription::try_check_is_closed
  ensures r == (self.subscriber is None || !self.subscriber->0.busy() && self.subscriber->0.closed())
//@end
/// never waits for a delivery
//@fn rx_core_subject_publish MulticastSubscription::is_closed
  ensures r == (self.subscriber is None || !self.subscriber->0.busy() && self.subscriber->0.closed())
//@end
//@fn rx_core_subject_publish MulticastSubscription::new args=id,state,subs,sub
  ensures r.id == Some(id), r.subscribers == subs, r.subscriber == Some(sub)
//@end
//@fn rx_core_subject_publish MulticastSubscription::new_closed args=state,subs
  ensures r.id is None, r.subscribers == subs, r.subscriber is None
//@end
//@fn rx_core_subject_publish MulticastSubscription::unsubscribe alias=self.state=>self.subscribers.deferred_state
  requires old(self).subscribers.inv()
  ensures final(self).subscribers.inv(), final(self).subscribers.held() == old(self).subscribers.held(), final(self).subscriber is None, final(self).id == old(self).id,
    old(self).subscriber is None || old(self).id is None ==> final(self).subscribers == old(self).subscribers,
    old(self).subscribers.held() ==> final(self).subscribers.d() == old(self).subscribers.d() && old(self).subscribers.st().guar(final(self).subscribers.st()),
    old(self).id is Some && old(self).subscriber is Some && !old(self).subscriber->0.closed() ==> ({ let o = old(self).subscribers; let f = final(self).subscribers; let n = MulticastNotification::UnsubscribeById(old(self).id->0);
      if o.held() { f.st().q() == if o.st().closed_flag.is_closed { o.st().q() } else { o.st().q().push(n) } }
      else { o.st().mono(f.st()) && f.d().hist@ == o.d().hist@ + s1(n) + eff(o.st().closed_flag.is_closed, o.st().later(f.st()))
        && (o.d().m().dom().contains(old(self).id->0) && !o.d().m()[old(self).id->0].closed() ==> f.st().ul@.contains(o.d().m()[old(self).id->0])) } })
//@end
#[verifier::external_body]
pub fn vf_same_lk<T>(x: &Lk<T>) -> (r: Lk<T>) ensures r == *x { unimplemented!() }
//@fn rx_core_subject_publish PublishSubject::subscribe args=dest env=error,complete,unsubscribe:self alias=self.deferred_state=>self.subscribers.deferred_state
  requires old(self).inv()
  ensures final(self).subscribers.inv(), final(self).held() == old(self).held(),
    old(self).st().flagged() ==> r.id is None && r.subscriber is None && old(self).st().mono(final(self).st())
      && final(self).late@ =~= old(self).late@ + (match old(self).st().observed_error { Some(e) => s1(Ev::Error(e)), None => if old(self).st().observed_state.c() { s1(Ev::Complete) } else { s0() } }),
    !old(self).st().flagged() ==> ({ let id = MulticastSubscriberId(old(self).next_id()); let d = dest.up().dst();
      &&& final(self).late@ == old(self).late@ && r.id == Some(id) && r.subscriber == Some(d)
      &&& old(self).held() ==> old(self).queued(*final(self), MulticastNotification::Add(id, d))
      &&& !old(self).held() ==> final(self).st() == old(self).st() && final(self).d().hist@ == old(self).d().hist@.push(MulticastNotification::Add(id, d)) && final(self).d().m() == old(self).d().m().insert(id, d) })
//@end
} // verus!
fn main() {}
