// Operators that schedule work: atomics, the scheduler as the sequence of requests it was given,
// and a destination shared between the subscriber and its scheduled work.
verus! {
/// an atomic cell; a clone of its Arc is the same cell (TRUSTED)
pub enum Ordering { Relaxed }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Atom<T> { x: PhantomData<T> }
pub type AtomicBool = Atom<bool>;
pub type AtomicUsize = Atom<usize>;
impl<T> View for Atom<T> { type V = T; uninterp spec fn view(&self) -> T; }
impl<T> Atom<T> {
    pub uninterp spec fn cell(&self) -> int;
    #[verifier::external_body]
    pub fn new(b: T) -> (r: Self) ensures r@ == b { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> (r: T) ensures r == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&mut self, b: T, o: Ordering) ensures final(self)@ == b, final(self).cell() == old(self).cell() { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&mut self, b: T, o: Ordering) -> (r: T) ensures r == old(self)@, final(self)@ == b, final(self).cell() == old(self).cell() { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&mut self, c: T, n: T, o: Ordering, p: Ordering) -> (r: Result<T, T>)
        ensures final(self)@ == if old(self)@ == c { n } else { old(self)@ }, final(self).cell() == old(self).cell(), r is Ok == (old(self)@ == c) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.cell() == self.cell() { unimplemented!() }
}
impl Atom<usize> {
    #[verifier::external_body]
    pub fn fetch_add(&mut self, b: usize, o: Ordering) -> (r: usize) ensures r == old(self)@, final(self)@ == wadd(r, b), final(self).cell() == old(self).cell() { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&mut self, b: usize, o: Ordering) -> (r: usize) ensures r == old(self)@, final(self)@ == wsub(r, b), final(self).cell() == old(self).cell() { unimplemented!() }
}
impl<T> Lk<T> { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.cell() == self.cell() { unimplemented!() } }
pub open spec fn wadd(a: usize, b: usize) -> int { if a + b > usize::MAX { a + b - usize::MAX - 1 } else { a + b } }
pub open spec fn wsub(a: usize, b: usize) -> int { if a < b { a - b + usize::MAX + 1 } else { a - b } }

pub open spec fn vals<I, E>(s: Seq<Ev<I, E>>) -> Seq<I>
    decreases s.len()
{ if s.len() == 0 { s0() } else { match s.last() { Ev::Next(x) => vals(s.drop_last()).push(x), _ => vals(s.drop_last()) } } }
pub proof fn lem_vals_push<I, E>(a: Seq<Ev<I, E>>, e: Ev<I, E>)
    ensures vals(a.push(e)) == match e { Ev::Next(x) => vals(a).push(x), _ => vals(a) }
{ assert(a.push(e).drop_last() =~= a); }
pub open spec fn has_complete<I, E>(s: Seq<Ev<I, E>>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Complete }
pub proof fn lem_has_complete<I, E>(s: Seq<Ev<I, E>>) ensures has_complete(s) ==> has_term(s) { if has_complete(s) && !has_term(s) { lem_no_term(s); } }
pub proof fn no_complete<I, E>(s: Seq<Ev<I, E>>, e: Ev<I, E>) requires !has_complete(s), !(e is Complete) ensures !has_complete(s.push(e))
{ if has_complete(s.push(e)) { let i = choose|i: int| 0 <= i < s.push(e).len() && (#[trigger] s.push(e)[i]) is Complete; assert(s[i] is Complete); } }

// ---- the scheduler
pub trait Scheduler {}
/// the handle an operator keeps: every subscriber it makes gets a clone
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct OpSched<S> { x: PhantomData<S> }
impl<S> OpSched<S> { #[verifier::external_body] pub fn clone<W>(&self) -> (r: Sched<W>) { unimplemented!() } }
#[verifier::external_body]
pub struct WorkCancellationId { x: u64 }
impl Copy for WorkCancellationId {}
impl Clone for WorkCancellationId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub enum Act<W> { Cancel(WorkCancellationId), Delayed(W, nat, WorkCancellationId), Each(W, WorkCancellationId), Once(W, WorkCancellationId), Every(W, nat, bool, nat, WorkCancellationId), Own(W, WorkCancellationId) }
/// what was asked of it, in order (what it then does: S11)
#[verifier::external_body]
#[verifier::reject_recursive_types(W)]
pub struct Sq<W> { x: PhantomData<W> }
impl<W> View for Sq<W> { type V = Seq<Act<W>>; uninterp spec fn view(&self) -> Seq<Act<W>>; }
impl<W> Sq<W> {
    #[verifier::external_body]
    pub fn cancel(&mut self, id: WorkCancellationId) ensures final(self)@ == old(self)@.push(Act::Cancel(id)) { unimplemented!() }
    #[verifier::external_body]
    pub fn schedule_delayed_work(&mut self, w: W, d: Duration, id: WorkCancellationId) ensures final(self)@ == old(self)@.push(Act::Delayed(w, d.n(), id)) { unimplemented!() }
    #[verifier::external_body]
    pub fn schedule_continuous_work(&mut self, w: W, id: WorkCancellationId) ensures final(self)@ == old(self)@.push(Act::Each(w, id)) { unimplemented!() }
    #[verifier::external_body]
    pub fn schedule_immediate_work(&mut self, w: W, id: WorkCancellationId) ensures final(self)@ == old(self)@.push(Act::Once(w, id)) { unimplemented!() }
    #[verifier::external_body]
    pub fn schedule_repeated_work(&mut self, w: W, d: Duration, now: bool, max: usize, id: WorkCancellationId) ensures final(self)@ == old(self)@.push(Act::Every(w, d.n(), now, max as nat, id)) { unimplemented!() }
    #[verifier::external_body]
    pub fn schedule_work(&mut self, w: W, id: WorkCancellationId) ensures final(self)@ == old(self)@.push(Act::Own(w, id)) { unimplemented!() }
    #[verifier::external_body]
    pub fn generate_cancellation_id(&mut self) -> (r: WorkCancellationId) ensures final(self)@ == old(self)@ { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(W)]
pub struct Sched<W> { x: PhantomData<W> }
impl<W> View for Sched<W> { type V = Seq<Act<W>>; uninterp spec fn view(&self) -> Seq<Act<W>>; }
impl<W> Sched<W> {
    #[verifier::external_body]
    pub fn lock(&mut self) -> (r: &mut Sq<W>) ensures r@ == old(self)@, final(r)@ == final(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vf_new_id(&self) -> (r: WorkCancellationId) { unimplemented!() }
}
//@replace scheduler . lock () . generate_cancellation_id () => scheduler . vf_new_id ()
pub uninterp spec fn td_cancels(t: Teardown, id: WorkCancellationId) -> bool;
impl Teardown {
    #[verifier::external_body]
    pub fn new_work_cancellation<W>(id: WorkCancellationId, s: Sched<W>) -> (r: Self) ensures td_cancels(r, id) { unimplemented!() }
}

// ---- the destination: what was handed to it (S08: delivered in that order, one at a time)
/// what calls made by the destination's consumers do to the operator's shared cells
pub trait Rely: Sized { spec fn rely(a: Self, b: Self) -> bool; }
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Shr<D> { x: PhantomData<D> }
impl<D: ObserverInput> Shr<D> {
    pub uninterp spec fn sent(&self) -> Seq<Ev<D::In, D::InError>>;
    /// closed for any reason, its own included
    pub uninterp spec fn shut(&self) -> bool;
    pub uninterp spec fn cell(&self) -> int;
    pub uninterp spec fn tds(&self) -> Seq<Teardown>;
    /// (ghost) names the last delivery of a value
    pub uninterp spec fn last_next(&self) -> int;
    /// one signal handed over: dropped when closed
    pub open spec fn put(&self, f: Self, e: Ev<D::In, D::InError>) -> bool {
        &&& f.cell() == self.cell() && f.last_next() == self.last_next() && f.tds() == self.tds() && (self.shut() ==> f.shut())
        &&& f.sent() == if self.shut() { self.sent() } else { self.sent().push(e) }
        &&& !(e is Next) ==> f.shut()
    }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.cell() == self.cell() { unimplemented!() }
    #[verifier::external_body]
    pub fn lock(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_closed(&self) -> (r: bool) ensures r == self.shut() { unimplemented!() }
    #[verifier::external_body]
    pub fn error(&mut self, e: D::InError) ensures old(self).put(*final(self), Ev::Error(e)) { unimplemented!() }
    #[verifier::external_body]
    pub fn complete(&mut self) ensures old(self).put(*final(self), Ev::Complete) { unimplemented!() }
    #[verifier::external_body]
    pub fn unsubscribe(&mut self) ensures old(self).put(*final(self), Ev::Unsub) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_teardown(&mut self, t: Teardown) ensures final(self).sent() == old(self).sent(), final(self).shut() == old(self).shut(), final(self).cell() == old(self).cell(), final(self).tds() == old(self).tds().push(t) { unimplemented!() }
}
} // verus!
