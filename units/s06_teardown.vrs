//@include prelude.vrs
verus! {
broadcast use vp::grp;
//@include lib_subscription.vrs
// ---------------------------------------------------------------- a subscription that was never open
//@replace teardown . execute (& mut self . ran) => teardown . execute (vf_g)
//@struct rx_core_subscription_inert InertSubscription
//@fn rx_core_subscription_inert InertSubscription::is_closed
  ensures r
//@end
/// what is added runs at once
//@fn rx_core_subscription_inert InertSubscription::add_teardown args=t ghostarg=vf_g:&mut~Ghost<Seq<Fin>>
  ensures final(vf_g)@ =~= old(vf_g)@ + opt_seq(t.teardown_fn)
//@end
// ---------------------------------------------------------------- what a teardown is made of
/// the boxed finalizer made from a function
pub uninterp spec fn fin_of<F>(f: F) -> Fin;
#[verifier::external_body]
fn vf_fin<F>(c: F) -> (r: Fin) ensures r == fin_of(c) { unimplemented!() }
/// a function of no arguments (a closure, or a closure-converted one)
pub trait VfFn {}
impl<F> VfFn for F {}
//@replace where F : FnOnce () => where F : VfFn
//@replace Box :: new ( => vf_fin (
//@replace teardown . execute (vf_g) => teardown . execute (& mut self . ran)
//@fn rx_core_common Teardown::new args=f
  ensures r.teardown_fn == Some(fin_of(f))
//@end
pub struct UnsubFn<S> { pub subscription: S }
//@replace S : 'static + SubscriptionLike + Send + Sync => S : SubscriptionLike
/// of a subscription: running it unsubscribes that subscription; nothing to run if that is closed already
impl<S: SubscriptionLike> vstd::std_specs::convert::FromSpecImpl<S> for Teardown {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: S) -> Self { Teardown { teardown_fn: if s.closed() { None } else { Some(fin_of(UnsubFn { subscription: s })) } } }
}
//@fn rx_core_common Teardown::from impl args=s lift=0:UnsubFn:subscription
//@end
//@fn rx_core_common Teardown::from closure=0 chead=impl<S:SubscriptionLike>~UnsubFn<S> caps=subscription cmut
  ensures step(old(self).subscription, final(self).subscription, Ev::Unsub), final(self).subscription.closed()
//@end
/// the scheduler, and what it was asked to do
pub enum Ask<C, I> { Cancel(C), Invoke(I), CancelInvoked(I) }
//@struct rx_core_common WorkCancellationId
impl Copy for WorkCancellationId {}
impl Clone for WorkCancellationId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@struct rx_core_common WorkInvokeId
impl Copy for WorkInvokeId {}
impl Clone for WorkInvokeId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct Sh<S> { x: PhantomData<S> }
impl<S> Sh<S> {
    pub uninterp spec fn asked(&self) -> Seq<Ask<WorkCancellationId, WorkInvokeId>>;
    #[verifier::external_body]
    pub fn lock(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn cancel(&mut self, id: WorkCancellationId) ensures final(self).asked() == old(self).asked().push(Ask::Cancel(id)) { unimplemented!() }
    #[verifier::external_body]
    pub fn invoke(&mut self, id: WorkInvokeId) ensures final(self).asked() == old(self).asked().push(Ask::Invoke(id)) { unimplemented!() }
    #[verifier::external_body]
    pub fn cancel_invoked(&mut self, id: WorkInvokeId) ensures final(self).asked() == old(self).asked().push(Ask::CancelInvoked(id)) { unimplemented!() }
}
//@replace SchedulerHandle < => Sh <
//@replace S : 'static + Scheduler => S
//@replace < S : Scheduler > => < S >
//@macro ASK FN CL FLD TY ARGS ASKS
#[verifier::reject_recursive_types(S)]
pub struct $CL<S> { pub scheduler: Sh<S>, pub $FLD }
//@fn rx_core_common Teardown::$FN args=$ARGS lift=0:$CL:$TY,scheduler
  ensures r.teardown_fn == Some(fin_of($CL { scheduler: s, $TY: i }))
//@end
//@fn rx_core_common Teardown::$FN closure=0 chead=impl<S>~$CL<S> caps=scheduler,$TY cmut
  ensures final(self).scheduler.asked() == old(self).scheduler.asked().push(Ask::$ASKS)
//@end
//@endmacro
//@use ASK new_work_cancellation CancelFn cancellation_id:WorkCancellationId cancellation_id i,s Cancel(old(self).cancellation_id)
//@use ASK new_work_invokation InvokeFn invoke_id:WorkInvokeId invoke_id i,s Invoke(old(self).invoke_id)
//@use ASK new_invoked_work_cancellation CancelInvokedFn invoke_id:WorkInvokeId invoke_id i,s CancelInvoked(old(self).invoke_id)
#[verifier::reject_recursive_types(S)]
pub struct InvokeCancelFn<S> { pub scheduler: Sh<S>, pub invoke_id: WorkInvokeId, pub cancellation_id: WorkCancellationId }
//@fn rx_core_common Teardown::new_work_invokation_and_cancellation args=i,c,s lift=0:InvokeCancelFn:scheduler,invoke_id,cancellation_id
  ensures r.teardown_fn == Some(fin_of(InvokeCancelFn { scheduler: s, invoke_id: i, cancellation_id: c }))
//@end
//@fn rx_core_common Teardown::new_work_invokation_and_cancellation closure=0 chead=impl<S>~InvokeCancelFn<S> caps=scheduler,invoke_id,cancellation_id cmut
  ensures final(self).scheduler.asked() == old(self).scheduler.asked().push(Ask::Invoke(old(self).invoke_id)).push(Ask::Cancel(old(self).cancellation_id))
//@end
} // verus!
fn main() {}
