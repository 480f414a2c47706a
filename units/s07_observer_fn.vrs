//@include prelude.vrs
verus! {
broadcast use vp::grp;
/// what the callbacks of one observer were called with, in order
pub struct Calls<I, E> { pub log: Ghost<Seq<Ev<I, E>>> }
pub trait OnN<I, E>: Sized {
    fn vf_call(&mut self, x: I, w: &mut Calls<I, E>) ensures final(w).log@ == old(w).log@.push(Ev::Next(x));
}
pub trait OnE<I, E>: Sized { fn vf_call(self, x: E, w: &mut Calls<I, E>) ensures final(w).log@ == old(w).log@.push(Ev::Error(x)); }
pub trait OnC<I, E>: Sized { fn vf_call(self, w: &mut Calls<I, E>) ensures final(w).log@ == old(w).log@.push(Ev::Complete); }
impl<I, E> Calls<I, E> {
    pub fn new() -> (r: Self) ensures r.log@ == s0::<Ev<I, E>>() { Calls { log: Ghost(s0()) } }
}
pub open spec fn called<I, E>(a: Calls<I, E>, b: Calls<I, E>, s: Seq<Ev<I, E>>) -> bool { b.log@ =~= a.log@ + s }
// ---------------------------------------------------------------- FnObserver: one callback per signal
//@replace OnNext : FnMut (In) , OnError : FnOnce (InError) , OnComplete : FnOnce () => OnNext : OnN < In , InError > , OnError : OnE < In , InError > , OnComplete : OnC < In , InError >
//@struct rx_core_observer_fn FnObserver nowhere +calls:Calls<In,InError>=Calls::new()
//@fn rx_core_observer_fn FnObserver::new args=n,e,c
  ensures r.on_next == n, r.on_error == Some(e), r.on_complete == Some(c), r.calls.log@.len() == 0
//@end
//@fn rx_core_observer_fn FnObserver::next args=x env=(),@on_next:&mut~self.calls
  ensures called(old(self).calls, final(self).calls, s1(Ev::Next(x))), final(self).on_error == old(self).on_error, final(self).on_complete == old(self).on_complete
//@end
//@fn rx_core_observer_fn FnObserver::error args=x env=(),%on_error:&mut~self.calls
  ensures final(self).on_error is None, called(old(self).calls, final(self).calls, if old(self).on_error is Some { s1(Ev::Error(x)) } else { s0() }), final(self).on_next == old(self).on_next, final(self).on_complete == old(self).on_complete
//@end
//@fn rx_core_observer_fn FnObserver::complete env=(),%on_complete:&mut~self.calls
  ensures final(self).on_complete is None, called(old(self).calls, final(self).calls, if old(self).on_complete is Some { s1(Ev::Complete) } else { s0() }), final(self).on_next == old(self).on_next, final(self).on_error == old(self).on_error
//@end

// ---------------------------------------------------------------- DynFnObserver: the callbacks are optional
/// a boxed callback, which `with_*` makes from the closure it is given
pub struct BoxN<I, E> { pub i: PhantomData<I>, pub e: PhantomData<E>, pub is: Ghost<int> }
pub struct BoxE<I, E> { pub i: PhantomData<I>, pub e: PhantomData<E>, pub is: Ghost<int> }
pub struct BoxC<I, E> { pub i: PhantomData<I>, pub e: PhantomData<E>, pub is: Ghost<int> }
impl<I, E> BoxN<I, E> { #[verifier::external_body] pub fn vf_call(&mut self, x: I, w: &mut Calls<I, E>) ensures final(self).is == old(self).is, final(w).log@ == old(w).log@.push(Ev::Next(x)) { unimplemented!() } }
impl<I, E> BoxE<I, E> { #[verifier::external_body] pub fn vf_call(self, x: E, w: &mut Calls<I, E>) ensures final(w).log@ == old(w).log@.push(Ev::Error(x)) { unimplemented!() } }
impl<I, E> BoxC<I, E> { #[verifier::external_body] pub fn vf_call(self, w: &mut Calls<I, E>) ensures final(w).log@ == old(w).log@.push(Ev::Complete) { unimplemented!() } }
//@replace Box < dyn FnMut (In) + Send + Sync > => BoxN < In , InError >
//@replace Box < dyn FnMut (In) > => BoxN < In , InError >
//@replace Box < dyn FnOnce (InError) + Send + Sync > => BoxE < In , InError >
//@replace Box < dyn FnOnce (InError) > => BoxE < In , InError >
//@replace Box < dyn FnOnce () + Send + Sync > => BoxC < In , InError >
//@replace Box < dyn FnOnce () > => BoxC < In , InError >
//@struct rx_core_observer_fn DynFnObserver nowhere +calls:Calls<In,InError>=Calls::new()
//@fn rx_core_observer_fn DynFnObserver::default
  ensures r.on_next is None, r.on_error is None, r.on_complete is None, r.calls.log@.len() == 0
//@end
//@replace < OnNext : FnMut (In) > => 
//@replace < OnError : FnOnce (InError) > => 
//@replace < OnComplete : FnOnce () > => 
//@replace n : OnNext => n : BoxN < In , InError >
//@replace e : OnError => e : BoxE < In , InError >
//@replace c : OnComplete => c : BoxC < In , InError >
//@replace Box :: new (on_next) => on_next
//@replace Box :: new (on_error) => on_error
//@replace Box :: new (on_complete) => on_complete
//@fn rx_core_observer_fn DynFnObserver::with_next args=n
  ensures r.on_next == Some(n), r.on_error == self.on_error, r.on_complete == self.on_complete, r.calls == self.calls
//@end
//@fn rx_core_observer_fn DynFnObserver::with_error args=e
  ensures r.on_next == self.on_next, r.on_error == Some(e), r.on_complete == self.on_complete, r.calls == self.calls
//@end
//@fn rx_core_observer_fn DynFnObserver::with_complete args=c
  ensures r.on_next == self.on_next, r.on_error == self.on_error, r.on_complete == Some(c), r.calls == self.calls
//@end
//@fn rx_core_observer_fn DynFnObserver::next args=x env=(),%on_next:&mut~self.calls
  ensures called(old(self).calls, final(self).calls, if old(self).on_next is Some { s1(Ev::Next(x)) } else { s0() }), final(self).on_error == old(self).on_error, final(self).on_complete == old(self).on_complete,
    old(self).on_next is Some == final(self).on_next is Some
//@end
// an error nobody handles panics, as documented
//@fn rx_core_observer_fn DynFnObserver::error args=x env=(),%on_error:&mut~self.calls
  requires old(self).on_error is Some
  ensures final(self).on_error is None, called(old(self).calls, final(self).calls, s1(Ev::Error(x))), final(self).on_complete == old(self).on_complete
//@end
//@fn rx_core_observer_fn DynFnObserver::complete env=(),%on_complete:&mut~self.calls
  ensures final(self).on_complete is None, called(old(self).calls, final(self).calls, if old(self).on_complete is Some { s1(Ev::Complete) } else { s0() }), final(self).on_error == old(self).on_error
//@end
} // verus!
fn main() {}
