//@include prelude.vrs
verus! {
broadcast use vp::grp;
//@replace NonZero < usize > => Nz
//@replace NonZero :: new => Nz :: new
//@replace NonZero :: < usize > :: MIN => Nz :: vf_min()

// ---------------------------------------------------------------- map
//@struct rx_core_operator_map MapSubscriber
//@spec rx_core_operator_map MapSubscriber
    pub open spec fn pre(&self) -> bool { forall|x: In| #[trigger] self.mapper.requires((x,)) }
    pub open spec fn inv(&self) -> bool { self.pre() }
//@end
//@fn rx_core_operator_map MapSubscriber::new args=destination,f
  requires forall|x: In| #[trigger] f.requires((x,))
  ensures r.inv(), r.mapper == f, dl(destination, r.destination, s0())
//@end
//@fn rx_core_operator_map MapSubscriber::next args=x
  requires old(self).inv()
  ensures final(self).inv(), final(self).mapper == old(self).mapper,
    exists|y: Out| #[trigger] old(self).mapper.ensures((x,), y) && dl(old(self).destination, final(self).destination, s1(Ev::Next(y)))
//@end
//@use fwd_all rx_core_operator_map MapSubscriber
//@struct rx_core_operator_map MapOperator
//@fn rx_core_operator_map MapOperator::new args=f
  ensures r.mapper == f
//@end
//@fn rx_core_operator_map MapOperator::operator_subscribe args=destination
  requires forall|g: Mapper, x: In| cloned(old(self).mapper, g) ==> #[trigger] g.requires((x,))
  ensures r.inv(), cloned(old(self).mapper, r.mapper), dl(destination, r.destination, s0())
//@end

// ---------------------------------------------------------------- map_into
//@struct rx_core_operator_map_into MapIntoSubscriber
//@spec rx_core_operator_map_into MapIntoSubscriber
    pub open spec fn pre(&self) -> bool { (forall|x: In| #[trigger] call_requires(<In as Into<Out>>::into, (x,))) && (forall|x: InError| #[trigger] call_requires(<InError as Into<OutError>>::into, (x,))) }
    pub open spec fn inv(&self) -> bool { self.pre() }
//@end
//@fn rx_core_operator_map_into MapIntoSubscriber::new args=destination
  requires forall|x: In| #[trigger] call_requires(<In as Into<Out>>::into, (x,)), forall|x: InError| #[trigger] call_requires(<InError as Into<OutError>>::into, (x,))
  ensures r.inv(), dl(destination, r.destination, s0())
//@end
//@fn rx_core_operator_map_into MapIntoSubscriber::next args=x
  requires old(self).inv()
  ensures final(self).inv(),
    exists|y: Out| #[trigger] call_ensures(<In as Into<Out>>::into, (x,), y) && dl(old(self).destination, final(self).destination, s1(Ev::Next(y)))
//@end
//@fn rx_core_operator_map_into MapIntoSubscriber::error args=x
  requires old(self).pre()
  ensures final(self).inv(),
    exists|y: OutError| #[trigger] call_ensures(<InError as Into<OutError>>::into, (x,), y) && dl(old(self).destination, final(self).destination, s1(Ev::Error(y)))
//@end
//@use fwd_complete rx_core_operator_map_into MapIntoSubscriber
//@use fwd_sub rx_core_operator_map_into MapIntoSubscriber
//@struct rx_core_operator_map_into MapIntoOperator
//@fn rx_core_operator_map_into MapIntoOperator::operator_subscribe args=destination
  ensures r.inv(), dl(destination, r.destination, s0())
//@end

// ---------------------------------------------------------------- map_never
//@struct rx_core_operator_map_never MapNeverBothSubscriber
//@use inv0 rx_core_operator_map_never MapNeverBothSubscriber
//@use opnew rx_core_operator_map_never MapNeverBothSubscriber
//@use fwd_complete rx_core_operator_map_never MapNeverBothSubscriber
//@use fwd_sub rx_core_operator_map_never MapNeverBothSubscriber
//@struct rx_core_operator_map_never MapNeverBothOperator
//@fn rx_core_operator_map_never MapNeverBothOperator::operator_subscribe args=destination
  ensures r.inv(), dl(destination, r.destination, s0())
//@end
//@struct rx_core_operator_map_never MapNeverErrorSubscriber
//@use inv0 rx_core_operator_map_never MapNeverErrorSubscriber
//@use opnew rx_core_operator_map_never MapNeverErrorSubscriber
//@fn rx_core_operator_map_never MapNeverErrorSubscriber::next args=x
  ensures dl(old(self).destination, final(self).destination, s1(Ev::Next(x)))
//@end
//@use fwd_complete rx_core_operator_map_never MapNeverErrorSubscriber
//@use fwd_sub rx_core_operator_map_never MapNeverErrorSubscriber
//@struct rx_core_operator_map_never MapNeverErrorOperator
//@fn rx_core_operator_map_never MapNeverErrorOperator::operator_subscribe args=destination
  ensures r.inv(), dl(destination, r.destination, s0())
//@end
//@struct rx_core_operator_map_never MapNeverNextSubscriber
//@use inv0 rx_core_operator_map_never MapNeverNextSubscriber
//@use opnew rx_core_operator_map_never MapNeverNextSubscriber
//@use fwd_all rx_core_operator_map_never MapNeverNextSubscriber
//@struct rx_core_operator_map_never MapNeverNextOperator
//@fn rx_core_operator_map_never MapNeverNextOperator::operator_subscribe args=destination
  ensures r.inv(), dl(destination, r.destination, s0())
//@end

// ---------------------------------------------------------------- enumerate
//@struct rx_core_operator_enumerate EnumerateSubscriber
//@use inv0 rx_core_operator_enumerate EnumerateSubscriber
//@fn rx_core_operator_enumerate EnumerateSubscriber::new args=destination
  ensures r.inv(), r.index == 0, dl(destination, r.destination, s0())
//@end
//@fn rx_core_operator_enumerate EnumerateSubscriber::next args=x
  requires old(self).inv()
  ensures final(self).inv(), old(self).index < usize::MAX ==> final(self).index == old(self).index + 1,
    dl(old(self).destination, final(self).destination, s1(Ev::Next((x, old(self).index))))
//@end
//@use fwd_all rx_core_operator_enumerate EnumerateSubscriber

// ---------------------------------------------------------------- scan
//@struct rx_core_operator_scan ScanSubscriber
//@spec rx_core_operator_scan ScanSubscriber
    pub open spec fn pre(&self) -> bool { forall|a: Out, x: In| #[trigger] self.reducer.requires((&a, x)) }
    pub open spec fn inv(&self) -> bool { self.pre() }
//@end
//@fn rx_core_operator_scan ScanSubscriber::new args=destination,f,seed
  requires forall|a: Out, x: In| #[trigger] f.requires((&a, x))
  ensures r.inv(), r.accumulator == seed, r.reducer == f, dl(destination, r.destination, s0())
//@end
//@fn rx_core_operator_scan ScanSubscriber::next args=x
  requires old(self).inv()
  ensures final(self).inv(), final(self).reducer == old(self).reducer,
    old(self).reducer.ensures((&old(self).accumulator, x), final(self).accumulator),
    dl(old(self).destination, final(self).destination, s1(Ev::Next(final(self).accumulator)))
//@end
//@use fwd_all rx_core_operator_scan ScanSubscriber
//@struct rx_core_operator_scan ScanOperator
//@fn rx_core_operator_scan ScanOperator::new args=f,x
  ensures r.reducer == f, r.seed == x
//@end
//@fn rx_core_operator_scan ScanOperator::operator_subscribe args=destination
  requires forall|g: Reducer, a: Out, x: In| cloned(old(self).reducer, g) ==> #[trigger] g.requires((&a, x))
  ensures r.inv(), cloned(old(self).seed, r.accumulator), cloned(old(self).reducer, r.reducer), dl(destination, r.destination, s0())
//@end

// ---------------------------------------------------------------- pairwise
//@struct rx_core_operator_pairwise PairwiseSubscriber
//@use inv0 rx_core_operator_pairwise PairwiseSubscriber
//@fn rx_core_operator_pairwise PairwiseSubscriber::new args=destination
  ensures r.inv(), r.last is None, dl(destination, r.destination, s0())
//@end
//@fn rx_core_operator_pairwise PairwiseSubscriber::next args=x
  requires old(self).inv()
  ensures final(self).inv(), final(self).last == Some(x),
    match old(self).last {
      None => dl(old(self).destination, final(self).destination, s0()),
      Some(l) => exists|p: [In; 2]| #[trigger] p@[0] == l && p@[1] == x && dl(old(self).destination, final(self).destination, s1(Ev::Next(p))),
    }
//@end
//@use fwd_all rx_core_operator_pairwise PairwiseSubscriber

// ---------------------------------------------------------------- buffer_count
//@struct rx_core_operator_buffer_count BufferCountSubscriber
//@spec rx_core_operator_buffer_count BufferCountSubscriber
    pub open spec fn pre(&self) -> bool { true }
    pub open spec fn buf(&self) -> Seq<In> { match self.buffer { Some(b) => b@, None => Seq::empty() } }
    /// the buffer is never full and never an empty one
    pub open spec fn inv(&self) -> bool { self.buf().len() < nz(self.buffer_size) && (self.buffer is Some ==> self.buf().len() > 0) }
//@end
//@fn rx_core_operator_buffer_count BufferCountSubscriber::new args=destination,n
  ensures r.inv(), r.buf() == Seq::<In>::empty(), r.buffer_size == n, dl(destination, r.destination, s0())
//@end
//@fn rx_core_operator_buffer_count BufferCountSubscriber::next args=x
  requires old(self).inv()
  ensures final(self).inv(), final(self).buffer_size == old(self).buffer_size,
    old(self).buf().len() + 1 < nz(old(self).buffer_size) ==> final(self).buf() == old(self).buf().push(x) && dl(old(self).destination, final(self).destination, s0()),
    old(self).buf().len() + 1 == nz(old(self).buffer_size) ==> final(self).buf() == Seq::<In>::empty()
      && exists|v: Vec<In>| #[trigger] v@ == old(self).buf().push(x) && dl(old(self).destination, final(self).destination, s1(Ev::Next(v)))
//@end
//@fn rx_core_operator_buffer_count BufferCountSubscriber::complete
  requires old(self).inv()
  ensures final(self).inv(),
    old(self).buf().len() == 0 ==> dl(old(self).destination, final(self).destination, s1(Ev::Complete)),
    old(self).buf().len() > 0 ==> exists|v: Vec<In>| #[trigger] v@ == old(self).buf() && dl(old(self).destination, final(self).destination, s2(Ev::Next(v), Ev::Complete))
//@end
//@use fwd_error rx_core_operator_buffer_count BufferCountSubscriber
//@use fwd_sub rx_core_operator_buffer_count BufferCountSubscriber
//@struct rx_core_operator_buffer_count BufferCountOperator
//@fn rx_core_operator_buffer_count BufferCountOperator::new args=n
  ensures nz(r.buffer_size) == if n == 0 { 1 } else { n }
//@end
//@fn rx_core_operator_buffer_count BufferCountOperator::operator_subscribe args=destination
  ensures r.inv(), r.buf() == Seq::<In>::empty(), r.buffer_size == old(self).buffer_size, dl(destination, r.destination, s0())
//@end
//@struct rx_core_operator_enumerate EnumerateOperator
//@fn rx_core_operator_enumerate EnumerateOperator::operator_subscribe args=destination
  ensures r.inv(), r.index == 0, dl(destination, r.destination, s0())
//@end
//@struct rx_core_operator_pairwise PairwiseOperator
//@fn rx_core_operator_pairwise PairwiseOperator::operator_subscribe args=destination
  ensures r.inv(), r.last is None, dl(destination, r.destination, s0())
//@end
}
fn main() {}
