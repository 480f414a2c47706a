//@include prelude.vrs
//@include lib_stateful.vrs
verus! {
//@replace ConstGenericRingBuffer < In , CAPACITY > => Ring < In , CAPACITY >
//@replace ConstGenericRingBuffer :: => Ring ::
// ---- behavior
impl<In, InError> Env<In, InError> for Lk<In> {
    open spec fn after(a: Self, s: Acc<In, InError>, b: Self) -> bool { s1(b@) =~= last_n(s1(a@) + vals(s), 1) }
}
//@struct rx_core_subject_behavior BehaviorSubject nowhere
//@spec rx_core_subject_behavior BehaviorSubject
    pub open spec fn val(&self) -> Seq<In> { s1(self.value@) }
    pub open spec fn cap(&self) -> int { 1 }
    pub open spec fn inv(&self) -> bool { true }
    /// the signals accepted between two moments account for the change of the stored values
    pub open spec fn moved(&self, f: Self) -> bool { self.subject.later(f.subject) && f.val() =~= last_n(self.val() + vals(since(self.subject.acc(), f.subject.acc())), self.cap()) }
//@end
impl<In: Signal + Clone, InError: Signal + Clone> Subj<In, InError> for BehaviorSubject<In, InError> {
    open spec fn acc(&self) -> Acc<In, InError> { self.subject.acc() }
    open spec fn moved(&self, f: Self) -> bool { BehaviorSubject::moved(self, f) }
}
//@macro KEEP CRATE TYPE CELL
//@fn $CRATE $TYPE::next args=x env=next,@subject:&mut~self.$CELL
  requires old(self).inv()
  ensures final(self).inv(), old(self).moved(*final(self)), send(old(self).subject, final(self).subject, Ev::Next(x))
//@@end
  proof { if !old(self).subject.shut() { lem_send(old(self).val(), old(self).subject.acc(), Ev::Next(x), self.subject.acc(), self.cap()); } }
//@end
//@fn $CRATE $TYPE::error args=x env=error,@subject:&mut~self.$CELL
  requires old(self).inv()
  ensures final(self).inv(), old(self).moved(*final(self)), send(old(self).subject, final(self).subject, Ev::Error(x))
//@@end
  proof { if !old(self).subject.shut() { lem_send(old(self).val(), old(self).subject.acc(), Ev::Error(x), self.subject.acc(), self.cap()); } }
//@end
//@fn $CRATE $TYPE::complete env=complete,@subject:&mut~self.$CELL
  requires old(self).inv()
  ensures final(self).inv(), old(self).moved(*final(self)), send(old(self).subject, final(self).subject, Ev::Complete)
//@@end
  proof { if !old(self).subject.shut() { lem_send(old(self).val(), old(self).subject.acc(), Ev::Complete, self.subject.acc(), self.cap()); } }
//@end
//@endmacro
//@fn rx_core_subject_behavior BehaviorSubject::new args=v
  ensures r.val() =~= s1(v), r.subject.acc().len() == 0, !r.subject.unsub()
//@end
//@use KEEP rx_core_subject_behavior BehaviorSubject value
//@fn rx_core_subject_behavior BehaviorSubject::value ro
  ensures s1(r) == self.val()
//@end
//@fn rx_core_subject_behavior BehaviorSubject::subscribe args=destination env=next:self
  ensures old(self).subject.later(final(self).subject),
    joined(final(self).subject, r, destination.start() + if err(old(self).subject.acc()) { s0() } else { nexts(old(self).val()) })
//@end

// ---- replay
/// ConstGenericRingBuffer: keeps the last CAP values (assumed)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Ring<T, const CAP: usize> { x: PhantomData<T> }
impl<T, const CAP: usize> View for Ring<T, CAP> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T, const CAP: usize> Default for Ring<T, CAP> { #[verifier::external_body] fn default() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() } }
impl<T, const CAP: usize> Ring<T, CAP> {
    #[verifier::external_body]
    pub fn enqueue(&mut self, x: T) -> (r: Option<T>) ensures final(self)@ == last_n(old(self)@ + s1(x), CAP as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: VfIt<T>) ensures r.rem() == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Items<T>) ensures r@ == self@ { unimplemented!() }
}
impl<T, const CAP: usize> Clone for Ring<T, CAP> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T, const CAP: usize> VfIntoIt for Ring<T, CAP> { type T = T; open spec fn vf_items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vf_it(self) -> (r: VfIt<T>) { unimplemented!() } }
impl<T> VfIntoIt for VfIt<T> { type T = T; open spec fn vf_items(&self) -> Seq<T> { self.rem() } #[verifier::external_body] fn vf_it(self) -> (r: VfIt<T>) { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Items<T> { x: PhantomData<T> }
impl<T> View for Items<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> Items<T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
}
impl<In, InError, const CAP: usize> Env<In, InError> for Lk<Ring<In, CAP>> {
    open spec fn after(a: Self, s: Acc<In, InError>, b: Self) -> bool { b@@ =~= last_n(a@@ + vals(s), CAP as int) }
}
//@struct rx_core_subject_replay ReplaySubject nowhere
//@spec rx_core_subject_replay ReplaySubject
    pub open spec fn val(&self) -> Seq<In> { self.values@@ }
    pub open spec fn cap(&self) -> int { CAPACITY as int }
    pub open spec fn inv(&self) -> bool { self.val().len() <= self.cap() }
    pub open spec fn moved(&self, f: Self) -> bool { self.subject.later(f.subject) && f.val() =~= last_n(self.val() + vals(since(self.subject.acc(), f.subject.acc())), self.cap()) }
//@end
impl<const CAPACITY: usize, In: Signal + Clone, InError: Signal + Clone> Subj<In, InError> for ReplaySubject<CAPACITY, In, InError> {
    open spec fn acc(&self) -> Acc<In, InError> { self.subject.acc() }
    open spec fn moved(&self, f: Self) -> bool { ReplaySubject::moved(self, f) }
}
//@fn rx_core_subject_replay ReplaySubject::default
  ensures r.inv(), r.val() =~= s0(), r.subject.acc().len() == 0, !r.subject.unsub()
//@end
//@use KEEP rx_core_subject_replay ReplaySubject values
//@fn rx_core_subject_replay ReplaySubject::values ro
  ensures r@ == self.val()
//@end
//@fn rx_core_subject_replay ReplaySubject::subscribe args=destination env=next:self
  ensures old(self).subject.later(final(self).subject),
    joined(final(self).subject, r, destination.start() + if err(old(self).subject.acc()) { s0() } else { nexts(old(self).val()) })
//@@loop 0
  invariant old(self).subject.later(self.subject), vf_it_0.rem().len() <= old(self).val().len(), !err(old(self).subject.acc()),
    vf_it_0.rem() =~= old(self).val().skip(old(self).val().len() - vf_it_0.rem().len()), destination.given() =~= start0 + nexts(old(self).val().take(old(self).val().len() - vf_it_0.rem().len()))
  decreases vf_it_0.rem().len()
//@@start
  let ghost start0 = destination.start();
//@end

// ---- provenance
use vstd::std_specs::cmp::PartialEqSpec;
//@struct rx_core_subject_provenance ProvenanceSubject nowhere
//@fn rx_core_subject_provenance ProvenanceSubject::new args=v,p
  ensures r.subject.val() =~= s1((v, p)), r.subject.subject.acc().len() == 0, !r.subject.subject.unsub()
//@end
//@fn rx_core_subject_provenance ProvenanceSubject::value
  ensures s1(r) == self.subject.val()
//@end
//@macro DELEG FN ARGS EV
//@fn rx_core_subject_provenance ProvenanceSubject::$FN $ARGS
  ensures old(self).subject.moved(final(self).subject), send(old(self).subject.subject, final(self).subject.subject, $EV)
//@end
//@endmacro
//@use DELEG next args=x Ev::Next(x)
//@use DELEG error args=x Ev::Error(x)
//@use DELEG complete ret=r Ev::Complete
//@replace Up < In , InError , Self > > (& mut self , destination : Destination) -> (r : Sub < (In , Provenance) => Up < (In , Provenance) , InError , BehaviorSubject < (In , Provenance) , InError > > > (& mut self , destination : Destination) -> (r : Sub < (In , Provenance)
//@fn rx_core_subject_provenance ProvenanceSubject::subscribe args=destination
  ensures old(self).subject.subject.later(final(self).subject.subject),
    joined(final(self).subject.subject, r, destination.start() + if err(old(self).subject.subject.acc()) { s0() } else { nexts(old(self).subject.val()) })
//@end
//@fn rx_core_subject_provenance ProvenanceSubject::default
  ensures call_ensures(In::default, (), r.subject.val()[0].0), call_ensures(Provenance::default, (), r.subject.val()[0].1), r.subject.val().len() == 1, r.subject.subject.acc().len() == 0, !r.subject.subject.unsub()
//@end
//@fn rx_core_subject_behavior BehaviorSubject::default
  ensures call_ensures(In::default, (), r.val()[0]), r.val().len() == 1, r.subject.acc().len() == 0, !r.subject.unsub()
//@end
//@fn rx_core_subject_provenance strip_provenance args=x
  ensures r == x.0
//@end
/// what the filter closures capture
pub struct ByProvenance<Provenance> { pub for_provenance: Provenance }
pub struct ReplayThenBy<Provenance> { pub for_provenance: Provenance }
//@replace fn call (& self , vf_a0 : & (In , Provenance) => fn call < In > (& self , vf_a0 : & (In , Provenance)
//@fn rx_core_subject_provenance create_provenance_filter closure=0 chead=impl<Provenance:PartialEq>~ByProvenance<Provenance> caps=for_provenance ptypes=&(In,Provenance);usize rtype=bool
  requires <Provenance as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec()
  ensures r == vf_a0.1.eq_spec(&self.for_provenance)
//@end
//@fn rx_core_subject_provenance create_provenance_filter_always_replay closure=0 chead=impl<Provenance:PartialEq>~ReplayThenBy<Provenance> caps=for_provenance ptypes=&(In,Provenance);usize rtype=bool
  requires <Provenance as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec()
  ensures r == (vf_a1 == 0 || vf_a0.1.eq_spec(&self.for_provenance))
//@end
// which observable each output is: the stored state, through the filter, stripped of the provenance
//@replace fn create_provenance_filter < In , Provenance > (p : Provenance) -> (r : impl Fn (& (In , Provenance) , usize) -> bool + Clone) => fn create_provenance_filter < In , Provenance > (p : Provenance) -> (r : ByProvenance < Provenance >)
//@replace fn create_provenance_filter_always_replay < In , Provenance > (p : Provenance) -> (r : impl Fn (& (In , Provenance) , usize) -> bool + Clone) => fn create_provenance_filter_always_replay < In , Provenance > (p : Provenance) -> (r : ReplayThenBy < Provenance >)
//@fn rx_core_subject_provenance create_provenance_filter lift=0:ByProvenance:for_provenance args=p
  ensures r.for_provenance == p
//@end
//@fn rx_core_subject_provenance create_provenance_filter_always_replay lift=0:ReplayThenBy:for_provenance args=p
  ensures r.for_provenance == p
//@end
//@struct rx_core_common Pipe nowhere
//@replace < Source , Op > where Source : Observable , Op : ComposableOperator < In = Source :: Out , InError = Source :: OutError > => < Source , Op >
//@fn rx_core_common Pipe::new args=s,o
  ensures r.source_observable == s, r.operator == o
//@end
//@replace , Filter : for < 'a > Fn (& 'a In , usize) -> bool + Clone => 
//@replace , Mapper : Fn (In) -> Out + Clone , Out : Signal => , Out : Signal
//@struct rx_core_operator_filter FilterOperator nowhere
//@fn rx_core_operator_filter FilterOperator::new args=f
  ensures r.filter == f
//@end
//@struct rx_core_operator_map MapOperator nowhere
//@fn rx_core_operator_map MapOperator::new args=f
  ensures r.mapper == f
//@end
/// the function `strip_provenance`
pub struct Strip;
/// the derived `clone` shares the subject and its stored value (assumed)
impl<In, InError> Clone for BehaviorSubject<In, InError> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@replace fn replay_then_by_provenance (& self , p : Provenance) -> (r : Pipe < Pipe < BehaviorSubject < (In , Provenance) , InError > , FilterOperator < (In , Provenance) , InError , impl Fn (& (In , Provenance) , usize) -> bool + Clone + Send + Sync + use < Provenance , In , InError > > > , MapOperator < (In , Provenance) , InError , fn ((In , Provenance)) -> In , In > >) => fn replay_then_by_provenance (& self , p : Provenance) -> (r : Pipe < Pipe < BehaviorSubject < (In , Provenance) , InError > , FilterOperator < (In , Provenance) , InError , ReplayThenBy < Provenance > > > , MapOperator < (In , Provenance) , InError , Strip , In > >)
//@replace fn only_by_provenance (& self , p : Provenance) -> (r : Pipe < Pipe < BehaviorSubject < (In , Provenance) , InError > , FilterOperator < (In , Provenance) , InError , impl Fn (& (In , Provenance) , usize) -> bool + Clone + Send + Sync + use < Provenance , In , InError > > > , MapOperator < (In , Provenance) , InError , fn ((In , Provenance)) -> In , In > >) => fn only_by_provenance (& self , p : Provenance) -> (r : Pipe < Pipe < BehaviorSubject < (In , Provenance) , InError > , FilterOperator < (In , Provenance) , InError , ByProvenance < Provenance > > > , MapOperator < (In , Provenance) , InError , Strip , In > >)
//@replace fn ((In , Provenance)) -> In => Strip
//@replace strip_provenance :: < In , Provenance > => Strip
//@fn rx_core_subject_provenance ProvenanceSubject::all
  ensures r.source_observable == self.subject, r.operator.mapper == Strip
//@end
//@fn rx_core_subject_provenance ProvenanceSubject::replay_then_by_provenance args=p
  ensures r.source_observable.source_observable == self.subject, r.source_observable.operator.filter.for_provenance == p, r.operator.mapper == Strip
//@end
//@fn rx_core_subject_provenance ProvenanceSubject::only_by_provenance args=p
  ensures r.source_observable.source_observable == self.subject, r.source_observable.operator.filter.for_provenance == p, r.operator.mapper == Strip
//@end
} // verus!
fn main() {}
