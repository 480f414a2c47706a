
/// Box<dyn FnOnce() + Send + Sync>: an opaque finalizer; running it appends it to a ghost log
#[verifier::external_body]
pub struct Fin { x: u64 }
impl Fin {
    #[verifier::external_body]
    pub fn vf_run(self, ran: &mut Ghost<Seq<Fin>>) ensures final(ran)@ == old(ran)@.push(self) { unimplemented!() }
}
pub open spec fn opt_seq(o: Option<Fin>) -> Seq<Fin> { match o { Some(f) => s1(f), None => s0() } }

//@replace Box < dyn FnOnce () + Send + Sync > => Fin
//@replace teardown . execute () => teardown . execute (& mut self . ran)

// ---------------------------------------------------------------- Teardown
//@struct rx_core_common Teardown
//@fn rx_core_common Teardown::new_from_box args=f
  ensures r.teardown_fn == Some(f)
//@end
//@fn rx_core_common Teardown::take
  ensures r == self.teardown_fn
//@end
//@fn rx_core_common Teardown::execute ghostarg=vf_g:&mut~Ghost<Seq<Fin>> run=*vf_g
  ensures final(vf_g)@ =~= old(vf_g)@ + opt_seq(self.teardown_fn)
//@end
//@fn rx_core_common Teardown::is_closed
  ensures r == (self.teardown_fn is None)
//@end

// ---------------------------------------------------------------- SubscriptionData
//@struct rx_core_common SubscriptionData +ran:Ghost<Seq<Fin>>=Ghost(Seq::empty())
//@spec rx_core_common SubscriptionData
    /// every finalizer this subscription ever accepted: those already run, then those still held
    pub open spec fn all(&self) -> Seq<Fin> { self.ran@ + self.finalizers@ }
    /// closed: nothing is held back
    pub open spec fn inv(&self) -> bool { self.closed_flag.is_closed ==> self.finalizers@.len() == 0 }
//@end
//@fn rx_core_common SubscriptionData::default
  ensures r.inv(), !r.closed_flag.is_closed, r.all() =~= s0::<Fin>(), r.ran@ =~= s0::<Fin>()
//@end
//@fn rx_core_common SubscriptionData::new_with_teardown args=t
  ensures r.inv(), !r.closed_flag.is_closed, r.all() =~= opt_seq(t.teardown_fn), r.ran@ == s0::<Fin>()
//@end
//@fn rx_core_common SubscriptionData::is_closed
  ensures r == self.closed_flag.is_closed
//@end
//@fn rx_core_common SubscriptionData::unsubscribe run=self.ran
  requires old(self).inv()
  ensures final(self).inv(), final(self).closed_flag.is_closed, final(self).all() == old(self).all(), final(self).ran@ == old(self).all()
//@@loop 0
  invariant self.ran@ + vf_it_0.rem() == old(self).ran@ + old(self).finalizers@, self.closed_flag.is_closed, self.finalizers@.len() == 0
  decreases vf_it_0.rem().len()
//@@lend 0
  proof { assert(self.ran@ + vf_it_0.rem() =~= old(self).ran@ + old(self).finalizers@); }
//@@after 0
  proof { assert(self.ran@ =~= self.all()); assert(self.ran@ =~= old(self).all()); }
//@end
//@fn rx_core_common SubscriptionData::add_teardown args=t
  requires old(self).inv()
  ensures final(self).inv(), final(self).closed_flag == old(self).closed_flag,
    final(self).all() =~= old(self).all() + opt_seq(t.teardown_fn),
    old(self).closed_flag.is_closed ==> final(self).ran@ == final(self).all(),
    !old(self).closed_flag.is_closed ==> final(self).ran@ == old(self).ran@
//@end
//@fn rx_core_common SubscriptionData::drop as=vf_drop
  requires old(self).inv()
  ensures final(self).closed_flag.is_closed, final(self).all() == old(self).all(), final(self).ran@ == old(self).all()
//@end
