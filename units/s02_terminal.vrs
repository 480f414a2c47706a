//@include prelude.vrs
verus! {
broadcast use vp::grp;
//@replace Arc < dyn Provider < Provided = In > + Send + Sync > => Prov < In >

// ---------------------------------------------------------------- first
//@enum rx_core_operator_first FirstOperatorError
//@struct rx_core_operator_first FirstSubscriber
//@spec rx_core_operator_first FirstSubscriber
    pub open spec fn pre(&self) -> bool { true }
    pub open spec fn inv(&self) -> bool { self.first_observed ==> done(self.destination) }
//@end
//@fn rx_core_operator_first FirstSubscriber::new args=destination
  ensures r.inv(), !r.first_observed, dl(destination, r.destination, s0())
//@end
//@fn rx_core_operator_first FirstSubscriber::next args=x
  requires old(self).inv()
  ensures final(self).inv(), dl(old(self).destination, final(self).destination, s2(Ev::Next(x), Ev::Complete)), done(final(self).destination)
//@end
//@fn rx_core_operator_first FirstSubscriber::error args=x
  requires old(self).inv()
  ensures final(self).inv(), dl(old(self).destination, final(self).destination, s1(Ev::Error(FirstOperatorError::Upstream(x))))
//@end
//@fn rx_core_operator_first FirstSubscriber::complete
  requires old(self).inv()
  ensures final(self).inv(), dl(old(self).destination, final(self).destination, s1(Ev::Error(FirstOperatorError::NoNextObservedBeforeComplete)))
//@end
//@use fwd_sub rx_core_operator_first FirstSubscriber
//@struct rx_core_operator_first FirstOperator
//@fn rx_core_operator_first FirstOperator::operator_subscribe args=destination
  ensures r.inv(), !r.first_observed, dl(destination, r.destination, s0())
//@end

// ---------------------------------------------------------------- find
//@enum rx_core_operator_find FindOperatorError
//@struct rx_core_operator_find FindSubscriber
//@spec rx_core_operator_find FindSubscriber
    pub open spec fn pre(&self) -> bool { forall|x: Destination::In| #[trigger] self.predicate.requires((&x,)) }
    pub open spec fn inv(&self) -> bool { self.pre() && (self.match_observed ==> self.next_observed && done(self.destination)) }
//@end
//@fn rx_core_operator_find FindSubscriber::new args=destination,p
  requires forall|x: Destination::In| #[trigger] p.requires((&x,))
  ensures r.inv(), !r.match_observed, !r.next_observed, r.predicate == p, dl(destination, r.destination, s0())
//@end
//@fn rx_core_operator_find FindSubscriber::next args=x
  requires old(self).inv()
  ensures final(self).inv(), final(self).predicate == old(self).predicate, final(self).next_observed,
    old(self).match_observed ==> final(self).match_observed && dl(old(self).destination, final(self).destination, s0()),
    !old(self).match_observed ==> exists|b: bool| #[trigger] old(self).predicate.ensures((&x,), b) && final(self).match_observed == b
      && dl(old(self).destination, final(self).destination, if b { s2(Ev::Next(x), Ev::Complete) } else { s0() })
//@end
//@fn rx_core_operator_find FindSubscriber::error args=x
  requires old(self).inv()
  ensures final(self).inv(), dl(old(self).destination, final(self).destination, s1(Ev::Error(FindOperatorError::Upstream(x))))
//@end
//@fn rx_core_operator_find FindSubscriber::complete
  requires old(self).inv()
  ensures final(self).inv(), dl(old(self).destination, final(self).destination,
     s1(Ev::Error(if !old(self).next_observed { FindOperatorError::NoNextObservedBeforeComplete } else { FindOperatorError::NoMatchObserved })))
//@end
//@use fwd_sub rx_core_operator_find FindSubscriber
//@struct rx_core_operator_find FindOperator
//@fn rx_core_operator_find FindOperator::new args=p
  ensures r.predicate == p
//@end
//@fn rx_core_operator_find FindOperator::operator_subscribe args=destination
  requires forall|g: P, x: In| cloned(old(self).predicate, g) ==> #[trigger] g.requires((&x,))
  ensures r.inv(), !r.match_observed, !r.next_observed, cloned(old(self).predicate, r.predicate), dl(destination, r.destination, s0())
//@end

// ---------------------------------------------------------------- find_index
//@enum rx_core_operator_find_index FindIndexOperatorError
//@struct rx_core_operator_find_index FindIndexSubscriber
//@spec rx_core_operator_find_index FindIndexSubscriber
    pub open spec fn pre(&self) -> bool { forall|x: In| #[trigger] self.predicate.requires((&x,)) }
    pub open spec fn inv(&self) -> bool { self.pre() && (self.match_observed ==> self.nexts_observed > 0 && done(self.destination)) }
//@end
//@fn rx_core_operator_find_index FindIndexSubscriber::new args=destination,p
  requires forall|x: In| #[trigger] p.requires((&x,))
  ensures r.inv(), !r.match_observed, r.nexts_observed == 0, r.predicate == p, dl(destination, r.destination, s0())
//@end
//@fn rx_core_operator_find_index FindIndexSubscriber::next args=x
  requires old(self).inv(), old(self).nexts_observed < usize::MAX
  ensures final(self).inv(), final(self).predicate == old(self).predicate, done(final(self).destination) || final(self).nexts_observed == old(self).nexts_observed + 1,
    old(self).match_observed ==> final(self).match_observed && dl(old(self).destination, final(self).destination, s0()),
    !old(self).match_observed ==> exists|b: bool| #[trigger] old(self).predicate.ensures((&x,), b) && final(self).match_observed == b
      && dl(old(self).destination, final(self).destination, if b { s2(Ev::Next(old(self).nexts_observed), Ev::Complete) } else { s0() })
//@end
//@fn rx_core_operator_find_index FindIndexSubscriber::error args=x
  requires old(self).inv()
  ensures final(self).inv(), dl(old(self).destination, final(self).destination, s1(Ev::Error(FindIndexOperatorError::Upstream(x))))
//@end
//@fn rx_core_operator_find_index FindIndexSubscriber::complete
  requires old(self).inv()
  ensures final(self).inv(), dl(old(self).destination, final(self).destination,
     s1(Ev::Error(if old(self).nexts_observed == 0 { FindIndexOperatorError::NoNextObservedBeforeComplete } else { FindIndexOperatorError::NoMatchObserved })))
//@end
//@use fwd_sub rx_core_operator_find_index FindIndexSubscriber
//@struct rx_core_operator_find_index FindIndexOperator
//@fn rx_core_operator_find_index FindIndexOperator::new args=p
  ensures r.predicate == p
//@end
//@fn rx_core_operator_find_index FindIndexOperator::operator_subscribe args=destination
  requires forall|g: P, x: In| cloned(old(self).predicate, g) ==> #[trigger] g.requires((&x,))
  ensures r.inv(), !r.match_observed, r.nexts_observed == 0, cloned(old(self).predicate, r.predicate), dl(destination, r.destination, s0())
//@end

// ---------------------------------------------------------------- element_at
//@enum rx_core_operator_element_at ElementAtOperatorError
//@struct rx_core_operator_element_at ElementAtSubscriber
//@spec rx_core_operator_element_at ElementAtSubscriber
    pub open spec fn pre(&self) -> bool { self.closed.is_closed ==> done(self.destination) }
    pub open spec fn inv(&self) -> bool { self.pre() && self.nexts_observed <= self.index }
//@end
//@fn rx_core_operator_element_at ElementAtSubscriber::new args=destination,index,d
  ensures r.inv(), r.nexts_observed == 0, r.index == index, r.default_value == d, dl(destination, r.destination, s0())
//@end
//@replace new_with_default < P > (index : usize , d : P) => new_with_default (index : usize , d : Prov < In >)
//@replace Some (Arc :: new (default_value)) => Some (default_value)
//@replace where P : Provider < Provided = In > => 
//@fn rx_core_operator_element_at ElementAtOperator::new_with_default args=index,d
  ensures r.index == index, r.default_value == Some(d)
//@end
//@fn rx_core_operator_element_at ElementAtSubscriber::next args=x
  requires old(self).inv()
  ensures final(self).inv(), final(self).index == old(self).index, final(self).default_value == old(self).default_value,
    old(self).nexts_observed == old(self).index ==> dl(old(self).destination, final(self).destination, s2(Ev::Next(x), Ev::Complete)),
    old(self).nexts_observed < old(self).index ==> dl(old(self).destination, final(self).destination, s0())
      && (done(final(self).destination) || final(self).nexts_observed == old(self).nexts_observed + 1)
//@end
//@fn rx_core_operator_element_at ElementAtSubscriber::error args=x
  requires old(self).inv()
  ensures final(self).inv(), dl(old(self).destination, final(self).destination, s1(Ev::Error(ElementAtOperatorError::Upstream(x))))
//@end
//@fn rx_core_operator_element_at ElementAtSubscriber::complete
  requires old(self).inv()
  ensures final(self).inv(),
    old(self).default_value is None ==> dl(old(self).destination, final(self).destination,
      s1(Ev::Error(ElementAtOperatorError::IndexOutOfRange { requested_index: old(self).index, observed_nexts: old(self).nexts_observed }))),
    old(self).default_value matches Some(p) ==> (done(old(self).destination) && dl(old(self).destination, final(self).destination, s0()))
      || exists|v: In| #[trigger] p.gives(v) && dl(old(self).destination, final(self).destination, s2(Ev::Next(v), Ev::Complete))
//@end
//@use fwd_sub rx_core_operator_element_at ElementAtSubscriber
//@struct rx_core_operator_element_at ElementAtOperator
//@fn rx_core_operator_element_at ElementAtOperator::new args=i
  ensures r.index == i, r.default_value is None
//@end
//@fn rx_core_operator_element_at ElementAtOperator::operator_subscribe args=destination
  ensures r.inv(), r.nexts_observed == 0, r.index == old(self).index, dl(destination, r.destination, s0()),
    old(self).default_value is Some <==> r.default_value is Some, old(self).default_value matches Some(p) ==> r.default_value == Some(p)
//@end

// ---------------------------------------------------------------- count
//@struct rx_core_operator_count CountSubscriber
//@use inv0 rx_core_operator_count CountSubscriber
//@fn rx_core_operator_count CountSubscriber::new args=destination
  ensures r.inv(), r.count == 0, dl(destination, r.destination, s0())
//@end
//@fn rx_core_operator_count CountSubscriber::next args=x
  requires old(self).inv(), old(self).count < usize::MAX
  ensures final(self).inv(), final(self).count == old(self).count + 1, dl(old(self).destination, final(self).destination, s0())
//@end
//@fn rx_core_operator_count CountSubscriber::complete
  requires old(self).inv()
  ensures final(self).inv(), dl(old(self).destination, final(self).destination, s2(Ev::Next(old(self).count), Ev::Complete))
//@end
//@use fwd_error rx_core_operator_count CountSubscriber
//@use fwd_sub rx_core_operator_count CountSubscriber
//@struct rx_core_operator_count CountOperator
//@fn rx_core_operator_count CountOperator::operator_subscribe args=destination
  ensures r.inv(), r.count == 0, dl(destination, r.destination, s0())
//@end

// ---------------------------------------------------------------- reduce
//@struct rx_core_operator_reduce ReduceSubscriber
//@spec rx_core_operator_reduce ReduceSubscriber
    pub open spec fn pre(&self) -> bool { forall|a: Out, x: In| #[trigger] self.reducer.requires((&a, x)) }
    pub open spec fn inv(&self) -> bool { self.pre() }
//@end
//@fn rx_core_operator_reduce ReduceSubscriber::new args=destination,f,seed
  requires forall|a: Out, x: In| #[trigger] f.requires((&a, x))
  ensures r.inv(), r.accumulator == seed, r.reducer == f, dl(destination, r.destination, s0())
//@end
//@fn rx_core_operator_reduce ReduceSubscriber::next args=x
  requires old(self).inv()
  ensures final(self).inv(), final(self).reducer == old(self).reducer, dl(old(self).destination, final(self).destination, s0()),
    old(self).reducer.ensures((&old(self).accumulator, x), final(self).accumulator)
//@end
//@fn rx_core_operator_reduce ReduceSubscriber::complete
  requires old(self).inv()
  ensures final(self).inv(),
    exists|v: Out| #[trigger] call_ensures(Out::clone, (&old(self).accumulator,), v) && dl(old(self).destination, final(self).destination, s2(Ev::Next(v), Ev::Complete))
//@end
//@use fwd_error rx_core_operator_reduce ReduceSubscriber
//@use fwd_sub rx_core_operator_reduce ReduceSubscriber
//@struct rx_core_operator_reduce ReduceOperator
//@fn rx_core_operator_reduce ReduceOperator::new args=f,x
  ensures r.reducer == f, r.seed == x
//@end
//@fn rx_core_operator_reduce ReduceOperator::operator_subscribe args=destination
  requires forall|g: Reducer, a: Out, x: In| cloned(old(self).reducer, g) ==> #[trigger] g.requires((&a, x))
  ensures r.inv(), cloned(old(self).seed, r.accumulator), cloned(old(self).reducer, r.reducer), dl(destination, r.destination, s0())
//@end

// ---------------------------------------------------------------- is_empty
//@struct rx_core_operator_is_empty IsEmptySubscriber
//@use inv0 rx_core_operator_is_empty IsEmptySubscriber
//@use opnew rx_core_operator_is_empty IsEmptySubscriber
//@fn rx_core_operator_is_empty IsEmptySubscriber::next args=x
  requires old(self).inv()
  ensures final(self).inv(), dl(old(self).destination, final(self).destination, s2(Ev::Next(false), Ev::Complete)), done(final(self).destination)
//@end
//@fn rx_core_operator_is_empty IsEmptySubscriber::complete
  requires old(self).inv()
  ensures final(self).inv(), dl(old(self).destination, final(self).destination, s2(Ev::Next(true), Ev::Complete))
//@end
//@use fwd_error rx_core_operator_is_empty IsEmptySubscriber
//@use fwd_sub rx_core_operator_is_empty IsEmptySubscriber
//@struct rx_core_operator_is_empty IsEmptyOperator
//@fn rx_core_operator_is_empty IsEmptyOperator::operator_subscribe args=destination
  ensures r.inv(), dl(destination, r.destination, s0())
//@end
}
fn main() {}
