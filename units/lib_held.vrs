verus! {
#[verifier::external_body]
pub fn vf_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { unimplemented!() }
impl Teardown { #[verifier::external_body] pub fn execute(self) { unimplemented!() } }
impl VfIntoIt for core::ops::RangeInclusive<usize> {
    type T = usize;
    open spec fn vf_items(&self) -> Seq<usize> { Seq::new((self@.end - self@.start + 1) as nat, |i: int| (self@.start + i) as usize) }
    #[verifier::external_body]
    fn vf_it(self) -> (r: VfIt<usize>) { unimplemented!() }
}

/// Arc<Mutex<Destination>>: `held` = some outer call is using it. Poisoning (a panic of the
/// destination) is outside the property.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Hd<T> { x: PhantomData<T> }
#[verifier::reject_recursive_types(T)]
#[verifier::external_body]
pub struct Poison<T> { x: PhantomData<T> }
impl<T> Poison<T> {
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: Poison<T>) requires false { unimplemented!() }
    #[verifier::external_body]
    pub fn unsubscribe(self) requires false { unimplemented!() }
    #[verifier::external_body]
    pub fn is_closed(&self) -> bool requires false { unimplemented!() }
}
#[verifier::reject_recursive_types(T)]
pub enum TryErr<T> { Poisoned(Poison<T>), WouldBlock }
impl<T> View for Hd<T> { type V = T; uninterp spec fn view(&self) -> T; }
impl<T> Hd<T> {
    pub uninterp spec fn held(&self) -> bool;
    #[verifier::external_body]
    pub fn vf_held(&self) -> (r: bool) ensures r == self.held() { unimplemented!() }
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self) ensures r@ == t, !r.held() { unimplemented!() }
    #[verifier::external_body]
    pub fn try_lock(&mut self) -> (r: Result<&mut T, TryErr<T>>)
        ensures final(self).held() == old(self).held(),
          match r { Ok(g) => !old(self).held() && *g == old(self)@ && *final(g) == final(self)@, Err(e) => old(self).held() && e is WouldBlock && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_lock_ro(&self) -> (r: Result<&T, TryErr<T>>)
        ensures match r { Ok(g) => !self.held() && *g == self@, Err(e) => self.held() && e is WouldBlock }
    { unimplemented!() }
}
} // verus!
