//@include prelude.vrs
//@include lib_stateful.vrs
verus! {
// ---- async
//@replace FnMut (In , In) -> In => Red < In >
//@replace (self . reducer) ( => self . reducer . call_cb (
/// a user's reducer: `seen` records every call and its result
pub trait Red<In>: Sized {
    spec fn seen(&self) -> Seq<(In, In, In)>;
    fn call_cb(&mut self, a: In, b: In) -> (r: In) ensures final(self).seen() == old(self).seen().push((a, b, r));
}
impl<In, InError> Env<In, InError> for Lk<bool> {
    open spec fn after(a: Self, s: Acc<In, InError>, b: Self) -> bool { b@ == a@ && (a@ ==> s.len() == 0) }
}
//@struct rx_core_subject_async AsyncSubject
//@spec rx_core_subject_async AsyncSubject
    pub open spec fn settled(&self) -> bool { self.is_settled@ }
    /// nothing is emitted before the result is settled, and then one value at most
    pub open spec fn inv(&self) -> bool { vals(self.subject.acc()).len() <= 1 && (!self.settled() ==> vals(self.subject.acc()).len() == 0) }
    pub open spec fn over(&self) -> bool { self.settled() || self.subject.shut() }
    pub open spec fn same(&self, f: Self) -> bool { f.subject == self.subject && f.value@ == self.value@ && f.settled() == self.settled() && f.reducer.seen() == self.reducer.seen() }
    pub open spec fn moved(&self, f: Self) -> bool { self.subject.later(f.subject) && (self.settled() ==> f.settled() && f.value@ == self.value@) }
    pub open spec fn result(&self) -> Seq<Ev<In, InError>> { match self.value@ { Some(x) => s1(Ev::Next(x)), None => s0() } }
//@end
impl<In: Signal + Clone, InError: Signal + Clone, Reducer: Red<In>> Subj<In, InError> for AsyncSubject<In, InError, Reducer> {
    open spec fn acc(&self) -> Acc<In, InError> { self.subject.acc() }
    open spec fn moved(&self, f: Self) -> bool { AsyncSubject::moved(self, f) }
}
//@fn rx_core_subject_async AsyncSubject::is_settled ro
  ensures r == self.settled()
//@end
//@fn rx_core_subject_async AsyncSubject::new args=f
  ensures r.reducer == f, r.value@ is None, !r.settled(), r.subject.acc().len() == 0, !r.subject.unsub()
//@end
/// the default reducer, as a value
#[verifier::external_body]
#[verifier::reject_recursive_types(In)]
pub struct DefaultReducer<In> { i: PhantomData<In> }
impl<In> Red<In> for DefaultReducer<In> {
    uninterp spec fn seen(&self) -> Seq<(In, In, In)>;
    #[verifier::external_body]
    fn call_cb(&mut self, a: In, b: In) -> (r: In) { unimplemented!() }
}
#[verifier::external_body]
pub fn default_reducer_fn<In>() -> (r: DefaultReducer<In>) { unimplemented!() }
//@fn rx_core_subject_async default_reducer args=a,b
  ensures r == b
//@end
//@replace default_reducer :: < In > => default_reducer_fn :: < In > ()
//@fn rx_core_subject_async AsyncSubject::default
  ensures r.value@ is None, !r.settled(), r.inv(), r.subject.acc().len() == 0, !r.subject.unsub()
//@end
//@fn rx_core_subject_async AsyncSubject::value ro
  ensures r == self.value@
//@end
//@fn rx_core_subject_async AsyncSubject::next args=x env=next,@subject:&mut~self.is_settled
  requires old(self).inv()
  ensures final(self).inv(), old(self).moved(*final(self)), final(self).subject == old(self).subject, final(self).settled() == old(self).settled(),
    if old(self).over() { old(self).same(*final(self)) } else { match old(self).value@ {
      None => final(self).value@ == Some(x) && final(self).reducer.seen() == old(self).reducer.seen(),
      Some(v) => final(self).value@ is Some && final(self).reducer.seen() == old(self).reducer.seen().push((v, x, final(self).value@->0)) } }
//@end
//@fn rx_core_subject_async AsyncSubject::error args=x env=error,@subject:&mut~self.is_settled
  requires old(self).inv()
  ensures final(self).inv(), old(self).moved(*final(self)), final(self).settled() == old(self).settled(), final(self).value@ == old(self).value@, final(self).reducer.seen() == old(self).reducer.seen(),
    if old(self).settled() { old(self).same(*final(self)) } else { send(old(self).subject, final(self).subject, Ev::Error(x)) }
//@end
//@fn rx_core_subject_async AsyncSubject::complete env=next,complete,@subject:&mut~self.is_settled
  requires old(self).inv()
  ensures final(self).inv(), old(self).moved(*final(self)), final(self).value@ == old(self).value@, final(self).reducer.seen() == old(self).reducer.seen(),
    if old(self).over() { old(self).same(*final(self)) } else {
      final(self).settled() && grew(old(self).subject, final(self).subject) && (final(self).subject.acc() =~= old(self).subject.acc() + old(self).result().push(Ev::Complete)
        || final(self).subject.unsub() && final(self).subject.acc() =~= old(self).subject.acc() + old(self).result()) }
//@@at self . subject . complete (
  let ghost s1 = self.subject;
  proof { assert(!old(self).over() ==> s1.acc() =~= old(self).subject.acc() + old(self).result()); }
//@@end
  proof { if !old(self).over() {
    match old(self).value@ { Some(v) => { assert(s1.acc() =~= old(self).subject.acc().push(Ev::Next(v))); } None => {} }
    assert(!has_term(s1.acc()));
    assert(self.settled()); assert(s1.handed() == old(self).subject.handed()); assert(grew(old(self).subject, self.subject));
    assert(self.subject.acc() =~= s1.acc() || self.subject.acc() =~= s1.acc().push(Ev::Complete));
    assert(s1.acc().push(Ev::Complete) =~= old(self).subject.acc() + old(self).result().push(Ev::Complete)); } }
//@end
//@fn rx_core_subject_async AsyncSubject::subscribe args=destination env=next:self
  ensures old(self).subject.later(final(self).subject),
    joined(final(self).subject, r, destination.start() + if old(self).settled() { old(self).result() } else { s0() })
//@end

} // verus!
fn main() {}
