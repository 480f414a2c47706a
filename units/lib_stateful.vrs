// Subjects that keep something. The inner PublishSubject is used through its contract (proved in
// s09), in terms of the signals it accepted (`acc`). While it delivers one, its subscribers may call
// the stateful subject again: `env` is the stored value, and whatever they do to it is what the
// signals accepted meanwhile do (`Env::after`) - which is also what every call is proved to do.
verus! {
broadcast use {vp::grp, ac::g};
//@replace MulticastSubscription < => Sub <
//@replace subscribe < Destination > => subscribe < Destination : Up < In , InError , Self > >
//@replace destination . upgrade () => destination . vf_up ()


pub mod ac {
use super::*;
/// cloning a signal gives the same signal (assumed)
#[verifier::external_body]
pub broadcast proof fn ax_clone<T: Clone>(a: T, b: T) requires #[trigger] call_ensures(T::clone, (&a,), b) ensures a == b {}

pub type Acc<I, E> = Seq<Ev<I, E>>;
pub open spec fn vals<I, E>(s: Acc<I, E>) -> Seq<I>
    decreases s.len()
{ if s.len() == 0 { s0() } else { match s.last() { Ev::Next(x) => vals(s.drop_last()).push(x), _ => vals(s.drop_last()) } } }
pub open spec fn last_n<A>(s: Seq<A>, n: int) -> Seq<A> { if s.len() <= n { s } else { s.skip(s.len() - n) } }
pub broadcast proof fn lem_vals_add<I, E>(a: Acc<I, E>, b: Acc<I, E>)
    ensures #[trigger] vals(a + b) == vals(a) + vals(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(vals(a) + vals(b) =~= vals(a)); } else {
        lem_vals_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        match b.last() { Ev::Next(x) => { assert(vals(a) + vals(b) =~= (vals(a) + vals(b.drop_last())).push(x)); } _ => {} }
    }
}
pub broadcast proof fn lem_vals_push<I, E>(a: Acc<I, E>, e: Ev<I, E>)
    ensures #[trigger] vals(a.push(e)) == match e { Ev::Next(x) => vals(a).push(x), _ => vals(a) }
{ assert(a.push(e).drop_last() =~= a); }
pub broadcast proof fn lem_last_n<A>(a: Seq<A>, b: Seq<A>, n: int)
    requires n >= 0
    ensures #[trigger] last_n(last_n(a, n) + b, n) == last_n(a + b, n)
{ assert(last_n(last_n(a, n) + b, n) =~= last_n(a + b, n)); }
/// what was accepted between two moments
pub open spec fn since<I, E>(a: Acc<I, E>, b: Acc<I, E>) -> Acc<I, E> { b.skip(a.len() as int) }
pub broadcast proof fn lem_since<I, E>(a: Acc<I, E>, b: Acc<I, E>, c: Acc<I, E>)
    requires #[trigger] pfx(a, b), #[trigger] pfx(b, c)
    ensures pfx(a, c), since(a, c) =~= since(a, b) + since(b, c)
{}
pub proof fn lem_send<I, E>(v: Seq<I>, a: Acc<I, E>, e: Ev<I, E>, c: Acc<I, E>, n: int)
    requires pfx(a.push(e), c), n >= 0
    ensures pfx(a, c), last_n(v + vals(since(a, c)), n) == last_n(last_n(v + vals(s1(e)), n) + vals(since(a.push(e), c)), n)
{
    assert(since(a, c) =~= s1(e) + since(a.push(e), c));
    lem_vals_add(s1(e), since(a.push(e), c));
    lem_last_n(v + vals(s1(e)), vals(since(a.push(e), c)), n);
    assert(v + (vals(s1(e)) + vals(since(a.push(e), c))) =~= (v + vals(s1(e))) + vals(since(a.push(e), c)));
}
pub broadcast proof fn lem_vals1<I, E>(e: Ev<I, E>)
    ensures #[trigger] vals(s1(e)) == match e { Ev::Next(x) => s1(x), _ => s0() }
{ assert(s1(e).drop_last() =~= s0::<Ev<I, E>>()); assert(vals(s0::<Ev<I, E>>()) =~= s0()); match e { Ev::Next(x) => { assert(s0::<I>().push(x) =~= s1(x)); } _ => {} } }
/// an errored subject accepted an error
pub open spec fn err<I, E>(s: Acc<I, E>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] is Error }
/// once ended nothing is accepted
pub open spec fn sealed<I, E>(shut: bool, a: Acc<I, E>, b: Acc<I, E>) -> bool { pfx(a, b) && (shut || has_term(a) ==> b == a) }
pub broadcast group g { lem_vals_add, lem_vals_push, lem_last_n, lem_since, lem_vals1, ax_clone }
}
pub use ac::*;
/// what is stored, and how accepted signals change it
pub trait Env<I, E>: Sized { spec fn after(a: Self, s: Acc<I, E>, b: Self) -> bool; }

impl<In, InError> Default for PublishSubject<In, InError> { #[verifier::external_body] fn default() -> (r: Self) ensures r.acc() == s0::<Ev<In, InError>>(), !r.unsub() { unimplemented!() } }
/// contract of the publish subject (s09)
#[verifier::external_body]
#[verifier::reject_recursive_types(In)]
#[verifier::reject_recursive_types(InError)]
pub struct PublishSubject<In, InError> { i: PhantomData<In>, e: PhantomData<InError> }
impl<In, InError> PublishSubject<In, InError> {
    pub uninterp spec fn acc(&self) -> Acc<In, InError>;
    pub uninterp spec fn unsub(&self) -> bool;
    /// subscribers handed over, with what they had been given before
    pub uninterp spec fn handed(&self) -> Seq<Seq<Ev<In, InError>>>;
    pub open spec fn shut(&self) -> bool { self.unsub() || has_term(self.acc()) }
    pub open spec fn later(&self, f: Self) -> bool { sealed(self.unsub(), self.acc(), f.acc()) && (self.unsub() ==> f.unsub()) }
    pub open spec fn accept<V: Env<In, InError>>(&self, f: Self, e: Ev<In, InError>, v: V, w: V) -> bool {
        &&& f.handed() == self.handed() && self.later(f)
        &&& if self.shut() { f.acc() == self.acc() && f.unsub() == self.unsub() && w == v } else {
            pfx(self.acc().push(e), f.acc()) && V::after(v, since(self.acc().push(e), f.acc()), w) && (!(e is Next) ==> f.acc() == self.acc().push(e)) }
    }
    #[verifier::external_body]
    pub fn is_closed(&self) -> (r: bool) ensures r == self.shut() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_errored(&self) -> (r: bool) ensures r == err(self.acc()) { unimplemented!() }
    #[verifier::external_body]
    pub fn next<V: Env<In, InError>>(&mut self, x: In, env: &mut V) ensures old(self).accept(*final(self), Ev::Next(x), *old(env), *final(env)) { unimplemented!() }
    #[verifier::external_body]
    pub fn error<V: Env<In, InError>>(&mut self, x: InError, env: &mut V) ensures old(self).accept(*final(self), Ev::Error(x), *old(env), *final(env)) { unimplemented!() }
    #[verifier::external_body]
    pub fn complete<V: Env<In, InError>>(&mut self, env: &mut V) ensures old(self).accept(*final(self), Ev::Complete, *old(env), *final(env)) { unimplemented!() }
    #[verifier::external_body]
    pub fn subscribe(&mut self, d: Fresh<In, InError>) -> (r: Sub<In, InError>)
        ensures final(self).handed() == old(self).handed().push(d.given()), final(self).acc() == old(self).acc(), final(self).unsub() == old(self).unsub(), r.of() == old(self).handed().len() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(In)]
#[verifier::reject_recursive_types(InError)]
pub struct Sub<In, InError> { i: PhantomData<In>, e: PhantomData<InError> }
impl<In, InError> Sub<In, InError> { pub uninterp spec fn of(&self) -> nat; }
/// a new subscriber, with what it was given so far
#[verifier::external_body]
#[verifier::reject_recursive_types(In)]
#[verifier::reject_recursive_types(InError)]
pub struct Fresh<In, InError> { i: PhantomData<In>, e: PhantomData<InError> }
/// a subject as its subscribers see it: calls on it only do what accepted signals do
pub trait Subj<I, E>: Sized {
    spec fn acc(&self) -> Acc<I, E>;
    spec fn moved(&self, f: Self) -> bool;
}
impl<In, InError> Fresh<In, InError> {
    pub uninterp spec fn given(&self) -> Seq<Ev<In, InError>>;
    #[verifier::external_body]
    pub fn next<S: Subj<In, InError>>(&mut self, x: In, env: &mut S) ensures final(self).given() == old(self).given().push(Ev::Next(x)), old(env).moved(*final(env)) { unimplemented!() }
}
pub trait Up<In, InError, S>: Sized { spec fn start(&self) -> Seq<Ev<In, InError>>; fn vf_up(self) -> (r: Fresh<In, InError>) ensures r.given() == self.start(); }
impl<In, InError, S> Up<In, InError, S> for Fresh<In, InError> { open spec fn start(&self) -> Seq<Ev<In, InError>> { self.given() } fn vf_up(self) -> (r: Fresh<In, InError>) { self } }

pub mod sj { use super::*; 
/// every call adds accepted signals only
pub open spec fn grew<I, E>(a: PublishSubject<I, E>, f: PublishSubject<I, E>) -> bool { a.later(f) && f.handed() == a.handed() }
/// a call that sends one signal: nothing if the subject ended, else that signal first
pub open spec fn send<I, E>(a: PublishSubject<I, E>, f: PublishSubject<I, E>, e: Ev<I, E>) -> bool {
    &&& grew(a, f)
    &&& if a.shut() { f.acc() == a.acc() } else { pfx(a.acc().push(e), f.acc()) && (!(e is Next) ==> f.acc() == a.acc().push(e)) }
}
/// the new subscriber was given `h` before anything else
pub open spec fn joined<I, E>(f: PublishSubject<I, E>, r: Sub<I, E>, h: Seq<Ev<I, E>>) -> bool { r.of() == f.handed().len() - 1 && f.handed().last() =~= h }
pub open spec fn nexts<I, E>(s: Seq<I>) -> Seq<Ev<I, E>> { Seq::new(s.len(), |i: int| Ev::Next(s[i])) }
}
pub use sj::*;

} // verus!
