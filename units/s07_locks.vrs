//@include prelude.vrs
verus! {
broadcast use vp::grp;
// Shared handles (`Arc<Mutex<_>>`, `Arc<RwLock<_>>`, `Weak<Mutex<_>>`): every signal sent to one is that one
// signal sent to what it shares; what was poisoned by a panic is unsubscribed instead, and what is gone
// takes nothing, reports closed and lets a teardown run at once.
/// the lock and what it holds; calls of other threads are outside
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mx<T> { x: PhantomData<T> }
impl<T> View for Mx<T> { type V = T; uninterp spec fn view(&self) -> T; }
pub struct Poison<T> { pub d: T }
impl<T> Poison<T> { pub fn into_inner(self) -> (r: T) ensures r == self.d { self.d } }
impl<T> Mx<T> {
    pub uninterp spec fn poisoned(&self) -> bool;
    #[verifier::external_body]
    pub fn lock(&mut self) -> (r: Result<&mut T, Poison<&mut T>>)
        ensures final(self).poisoned() == old(self).poisoned(),
          match r { Ok(g) => !old(self).poisoned() && *g == old(self)@ && *final(g) == final(self)@, Err(p) => old(self).poisoned() && *p.d == old(self)@ && *final(p.d) == final(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lock_ignore_poison(&mut self) -> (r: &mut T) ensures *r == old(self)@, *final(r) == final(self)@, final(self).poisoned() == old(self).poisoned() { unimplemented!() }
    #[verifier::external_body]
    pub fn lock_ro(&self) -> (r: &T) ensures *r == self@ { unimplemented!() }
}
/// a weak handle to it
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Wk<T> { x: PhantomData<T> }
impl<T> View for Wk<T> { type V = Option<Mx<T>>; uninterp spec fn view(&self) -> Option<Mx<T>>; }
impl<T> Wk<T> {
    #[verifier::external_body]
    pub fn upgrade(&mut self) -> (r: Option<&mut Mx<T>>)
        ensures match r { Some(g) => old(self)@ == Some(*g) && final(self)@ == Some(*final(g)), None => old(self)@ is None && final(self)@ is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn upgrade_ro(&self) -> (r: Option<&Mx<T>>)
        ensures match r { Some(g) => self@ == Some(*g), None => self@ is None }
    { unimplemented!() }
}
impl Teardown { #[verifier::external_body] pub fn execute(self, w: &mut Ghost<Seq<Teardown>>) ensures final(w)@ == old(w)@.push(self) { unimplemented!() } }
/// one signal to what is shared
pub open spec fn sent<D: ObserverInput>(o: Mx<D>, f: Mx<D>, e: Ev<D::In, D::InError>) -> bool {
    &&& f.poisoned() == o.poisoned()
    &&& step(o@, f@, if o.poisoned() { Ev::Unsub } else { e })
    &&& (o.poisoned() || e is Unsub ==> f@.closed())
}
/// what is gone is closed
pub open spec fn wclosed<D: ObserverInput>(o: Wk<D>) -> bool { o@ matches Some(m) ==> m@.closed() }
pub open spec fn wsent<D: ObserverInput>(o: Wk<D>, f: Wk<D>, e: Ev<D::In, D::InError>) -> bool {
    match o@ { Some(a) => f@ matches Some(b) && sent(a, b, e), None => f@ is None }
}
pub open spec fn added<D: ObserverInput>(o: Mx<D>, f: Mx<D>, t: Teardown, w0: Seq<Teardown>, w: Seq<Teardown>) -> bool {
    &&& f.poisoned() == o.poisoned()
    &&& if o.poisoned() { step(o@, f@, Ev::Unsub) && f@.closed() && w == w0.push(t) }
        else { f@.tds() == o@.tds().push(t) && f@.log() == o@.log() && f@.closed() == o@.closed() && w == w0 }
}
//@replace Lk < => Mx <
//@replace ? Sized + => 
//@replace Weak < Mutex < Destination > > => Wk < Destination >
//@replace TeardownCollection + SubscriptionLike => TeardownCollection + SubscriptionLike
//@replace self . write () => self . lock ()
//@replace Self :: In => Destination :: In
//@replace Self :: InError => Destination :: InError
//@macro HANDLE FOR TY AS SENT
//@fn rx_core_common $TY::next for=$FOR trait=RxObserver args=x as=$AS_next
  ensures $SENT(*old(self), *final(self), Ev::Next(x))
//@end
//@fn rx_core_common $TY::error for=$FOR trait=RxObserver args=x as=$AS_error
  ensures $SENT(*old(self), *final(self), Ev::Error(x))
//@end
//@fn rx_core_common $TY::complete for=$FOR trait=RxObserver as=$AS_complete
  ensures $SENT(*old(self), *final(self), Ev::Complete)
//@end
//@fn rx_core_common $TY::unsubscribe for=$FOR trait=SubscriptionLike as=$AS_unsubscribe
  ensures $SENT(*old(self), *final(self), Ev::Unsub)
//@end
//@endmacro
//@use HANDLE Arc<Mutex<Destination>> Arc m sent
//@use HANDLE Arc<RwLock<Destination>> Arc rw sent
//@use HANDLE Weak<Mutex<Destination>> Weak w wsent
//@fn rx_core_common Arc::add_teardown for=Arc<Mutex<Destination>> args=t as=m_add ghostarg=w:&mut~Ghost<Seq<Teardown>> env=execute:w
  ensures added(*old(self), *final(self), t, old(w)@, final(w)@)
//@end
//@fn rx_core_common Arc::add_teardown for=Arc<RwLock<Destination>> args=t as=rw_add ghostarg=w:&mut~Ghost<Seq<Teardown>> env=execute:w
  ensures added(*old(self), *final(self), t, old(w)@, final(w)@)
//@end
//@fn rx_core_common Weak::add_teardown args=t ghostarg=w:&mut~Ghost<Seq<Teardown>> env=execute:w
  ensures match old(self)@ { Some(a) => final(self)@ matches Some(b) && added(a, b, t, old(w)@, final(w)@), None => final(self)@ is None && final(w)@ == old(w)@.push(t) }
//@end
/// what a caller does with the destination it is lent
pub trait AccM<D>: Sized { spec fn eff(&self, a: D, b: D) -> bool; fn vf_call(&mut self, d: &mut D, _g: Ghost<()>) ensures old(self).eff(*old(d), *final(d)); }
//@replace F : FnMut (& mut Destination) => F : AccM < Destination >
//@fn rx_core_common Arc::access_mut for=Arc<Mutex<Destination>> args=g as=m_access env=():Ghost(())
  ensures final(self).poisoned() == old(self).poisoned(), if old(self).poisoned() { final(self)@ == old(self)@ } else { g.eff(old(self)@, final(self)@) }
//@end
//@fn rx_core_common Arc::access_mut for=Arc<RwLock<Destination>> args=g as=rw_access env=():Ghost(())
  ensures final(self).poisoned() == old(self).poisoned(), if old(self).poisoned() { final(self)@ == old(self)@ } else { g.eff(old(self)@, final(self)@) }
//@end
//@fn rx_core_common Weak::access_mut args=g as=w_access env=():Ghost(())
  ensures match old(self)@ { Some(a) => final(self)@ matches Some(b) && (if a.poisoned() { b@ == a@ } else { g.eff(a@, b@) }), None => final(self)@ is None }
//@end
/// an observable that is shared
pub trait Observable: Sized {
    type Sb: SubscriptionLike;
    /// subscribing `d` turns `a` into `b` and gives `r`
    spec fn subs<D>(a: Self, d: D, b: Self, r: Self::Sb) -> bool;
    fn subscribe<D>(&mut self, d: D) -> (r: Self::Sb) ensures Self::subs(*old(self), d, *final(self), r);
}
//@replace O :: Subscription < Destination > => O :: Sb
//@replace Weak < Mutex < O > > => Wk < O >
//@struct rx_core_common OptionSubscription nowhere
//@replace destination . upgrade () => destination
//@macro SUB TY FOR AS
//@fn rx_core_common $TY::subscribe for=$FOR args=d as=$AS_subscribe
  ensures final(self).poisoned() == old(self).poisoned(),
    if !old(self).poisoned() { O::subs(old(self)@, d, final(self)@, r) }
    else { r.closed() && exists|q: O::Sb| O::subs(old(self)@, d, final(self)@, q) && #[trigger] step(q, r, Ev::Unsub) }
//@end
//@endmacro
//@use SUB Arc Arc<Mutex<O>> m
//@use SUB Arc Arc<RwLock<O>> rw
//@fn rx_core_common Weak::subscribe args=d
  ensures match old(self)@ { None => r.subscription is None && final(self)@ is None, Some(a) => r.subscription is Some && final(self)@ is Some && (!a.poisoned() ==> O::subs(a@, d, final(self)@->Some_0@, r.subscription->Some_0)) && (a.poisoned() ==> r.subscription->Some_0.closed()) }
//@end
//@replace self . upgrade () => self . upgrade_ro ()
//@fn rx_core_common Arc::is_closed for=Arc<Mutex<Destination>> as=m_is_closed ro
  ensures r == self@.closed()
//@end
//@fn rx_core_common Arc::is_closed for=Arc<RwLock<Destination>> as=rw_is_closed ro
  ensures r == self@.closed()
//@end
//@fn rx_core_common Weak::is_closed ro
  ensures r == wclosed(*self)
//@end
} // verus!
fn main() {}
