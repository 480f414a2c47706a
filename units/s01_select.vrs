//@include prelude.vrs
verus! {
broadcast use vp::grp;

// ---------------------------------------------------------------- take
//@struct rx_core_operator_take TakeSubscriber
impl<Destination> TakeSubscriber<Destination> where Destination: Subscriber {
    pub open spec fn pre(&self) -> bool { self.closed.is_closed ==> done(self.destination) }
    pub open spec fn inv(&self) -> bool { self.pre() && (self.count == 0 ==> done(self.destination)) }
}
/// what n-limited taking delivers for one value
pub open spec fn take_step<I, E>(n: nat, x: I) -> Seq<Ev<I, E>> {
    if n == 0 { s0() } else if n == 1 { s2(Ev::Next(x), Ev::Complete) } else { s1(Ev::Next(x)) }
}
//@fn rx_core_operator_take TakeSubscriber::new args=destination,n
  ensures r.inv(), r.count == n, dl(destination, r.destination, if n == 0 { s1(Ev::Complete) } else { s0() })
//@end
//@fn rx_core_operator_take TakeSubscriber::next args=x
  requires old(self).inv()
  ensures final(self).inv(), dl(old(self).destination, final(self).destination, take_step(old(self).count as nat, x)),
    done(final(self).destination) || final(self).count == old(self).count - 1
//@end
//@fn rx_core_operator_take TakeSubscriber::complete
  requires old(self).pre()
  ensures final(self).inv(), final(self).count == old(self).count, dl(old(self).destination, final(self).destination, s1(Ev::Complete))
//@end
//@use fwd_error rx_core_operator_take TakeSubscriber
//@use fwd_sub rx_core_operator_take TakeSubscriber

//@struct rx_core_operator_take TakeOperator
//@fn rx_core_operator_take TakeOperator::new args=n
  ensures r.count == n
//@end
//@fn rx_core_operator_take TakeOperator::operator_subscribe args=destination
  ensures r.inv(), r.count == old(self).count, *final(self) == *old(self),
    dl(destination, r.destination, if old(self).count == 0 { s1(Ev::Complete) } else { s0() })
//@end

// ---------------------------------------------------------------- skip
//@struct rx_core_operator_skip SkipSubscriber
//@use inv0 rx_core_operator_skip SkipSubscriber
//@fn rx_core_operator_skip SkipSubscriber::new args=destination,n
  ensures r.inv(), r.count == n, dl(destination, r.destination, s0())
//@end
//@fn rx_core_operator_skip SkipSubscriber::next args=x
  requires old(self).inv()
  ensures final(self).inv(), dl(old(self).destination, final(self).destination, if old(self).count == 0 { s1(Ev::Next(x)) } else { s0() }),
    final(self).count == if old(self).count == 0 { 0int } else { old(self).count - 1 }
//@end
//@use fwd_all rx_core_operator_skip SkipSubscriber
//@struct rx_core_operator_skip SkipOperator
//@fn rx_core_operator_skip SkipOperator::new args=n
  ensures r.count == n
//@end
//@fn rx_core_operator_skip SkipOperator::operator_subscribe args=destination
  ensures r.inv(), r.count == old(self).count, dl(destination, r.destination, s0())
//@end

// ---------------------------------------------------------------- lift_option
//@struct rx_core_operator_lift_option LiftOptionSubscriber
//@use inv0 rx_core_operator_lift_option LiftOptionSubscriber
//@fn rx_core_operator_lift_option LiftOptionSubscriber::new args=destination
  ensures r.inv(), dl(destination, r.destination, s0())
//@end
//@fn rx_core_operator_lift_option LiftOptionSubscriber::next args=x
  requires old(self).inv()
  ensures final(self).inv(), dl(old(self).destination, final(self).destination, match x { Some(v) => s1(Ev::Next(v)), None => s0() })
//@end
//@use fwd_all rx_core_operator_lift_option LiftOptionSubscriber
//@struct rx_core_operator_lift_option LiftOptionOperator
//@fn rx_core_operator_lift_option LiftOptionOperator::operator_subscribe args=destination
  ensures r.inv(), dl(destination, r.destination, s0())
//@end

// ---------------------------------------------------------------- filter
//@struct rx_core_operator_filter FilterSubscriber
//@spec rx_core_operator_filter FilterSubscriber
    pub open spec fn pre(&self) -> bool { forall|x: Destination::In, i: usize| #[trigger] self.filter.requires((&x, i)) }
    pub open spec fn inv(&self) -> bool { self.pre() }
//@end
//@struct rx_core_operator_filter FilterOperator
//@fn rx_core_operator_filter FilterOperator::new args=f
  ensures r.filter == f
//@end
//@fn rx_core_operator_filter FilterOperator::operator_subscribe args=destination
  requires forall|g: Filter, x: In, i: usize| cloned(old(self).filter, g) ==> #[trigger] g.requires((&x, i))
  ensures r.inv(), cloned(old(self).filter, r.filter), r.index == 0, dl(destination, r.destination, s0())
//@end
//@fn rx_core_operator_filter FilterSubscriber::new args=destination,f
  requires forall|x: Destination::In, i: usize| #[trigger] f.requires((&x, i))
  ensures r.inv(), r.filter == f, r.index == 0, dl(destination, r.destination, s0())
//@end
//@fn rx_core_operator_filter FilterSubscriber::next args=x
  requires old(self).inv()
  ensures final(self).inv(), final(self).filter == old(self).filter,
    old(self).index < usize::MAX ==> final(self).index == old(self).index + 1,
    exists|b: bool| #[trigger] old(self).filter.ensures((&x, old(self).index), b)
      && dl(old(self).destination, final(self).destination, if b { s1(Ev::Next(x)) } else { s0() })
//@end
//@use fwd_all rx_core_operator_filter FilterSubscriber
}
fn main() {}
