//@include prelude.vrs
verus! {
broadcast use {vp::grp};
pub trait Observable: Sized { type Out; type OutError; }
pub trait SubscriptionWithTeardown {}
impl<T> Lk<T> { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.cell() == self.cell(), r@ == self@ { unimplemented!() } }
// ---- stand-ins
/// the subscription to the source (S06), shared by its handles
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct Hdl<S> { x: PhantomData<S> }
impl<S> Hdl<S> {
    pub uninterp spec fn id(&self) -> S;
    pub uninterp spec fn closed(&self) -> bool;
    #[verifier::external_body]
    pub fn new(s: S) -> (r: Self) ensures r.id() == s { unimplemented!() }
    #[verifier::external_body]
    pub fn is_closed(&self) -> (r: bool) ensures r == self.closed() { unimplemented!() }
    #[verifier::external_body]
    pub fn unsubscribe(&mut self) ensures final(self).closed(), final(self).id() == old(self).id() { unimplemented!() }
}
impl<S> Clone for Hdl<S> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@known ConnectionHandle::new
//@replace ConnectionHandle => Hdl
//@struct rx_core_observable_connectable ConnectionOptions
//@struct rx_core_observable_connectable ConnectionState
//@spec rx_core_observable_connectable ConnectionState
    pub closed spec fn n(&self) -> nat { self.downstream_subscriber_count as nat }
    pub closed spec fn over(&self) -> bool { self.has_errored || self.has_completed }
    pub closed spec fn auto(&self) -> bool { self.connection_options.disconnect_when_ref_count_zero }
    pub closed spec fn left(&self) -> bool { self.is_abandoned }
//@end
//@fn rx_core_observable_connectable ConnectionState::new args=o
  ensures r.n() == 0, !r.over(), !r.left(), r.auto() == o.disconnect_when_ref_count_zero
//@end
//@fn rx_core_observable_connectable ConnectionState::errored
  ensures final(self).over(), final(self).n() == old(self).n(), final(self).auto() == old(self).auto(), final(self).left() == old(self).left()
//@end
//@fn rx_core_observable_connectable ConnectionState::completed
  ensures final(self).over(), final(self).n() == old(self).n(), final(self).auto() == old(self).auto(), final(self).left() == old(self).left()
//@end
/// every subscriber counts once
//@fn rx_core_observable_connectable ConnectionState::increment_subscriber_count
  requires old(self).n() < usize::MAX
  ensures final(self).n() == old(self).n() + 1, final(self).over() == old(self).over(), final(self).auto() == old(self).auto()
//@end
/// the last one leaving a running connection ends it, if that was asked for
//@fn rx_core_observable_connectable ConnectionState::decrement_subscriber_count
  requires old(self).n() > 0
  ensures final(self).n() == old(self).n() - 1, r == (old(self).auto() && old(self).n() == 1 && !old(self).over()), final(self).left() == r, final(self).over() == old(self).over(), final(self).auto() == old(self).auto()
//@end
//@fn rx_core_observable_connectable ConnectionState::reset
  ensures !final(self).over(), final(self).n() == old(self).n(), final(self).auto() == old(self).auto(), final(self).left() == old(self).left()
//@end
/// nothing of an earlier connection is left
//@fn rx_core_observable_connectable ConnectionState::connecting
  ensures !final(self).over(), !final(self).left(), final(self).n() == old(self).n(), final(self).auto() == old(self).auto()
//@end
//@fn rx_core_observable_connectable ConnectionState::abandoned_while_connecting
  ensures r == (self.left() && self.n() == 0)
//@end
//@struct rx_core_observable_connectable Connection
//@spec rx_core_observable_connectable Connection
    pub closed spec fn h(&self) -> Option<Hdl<Subscription>> { self.connection }
    pub open spec fn on(&self) -> bool { self.h() is Some && !self.h()->0.closed() }
//@end
//@fn rx_core_observable_connectable Connection::disconnect
  ensures final(self).h() is None, r == old(self).on()
//@end
//@fn rx_core_observable_connectable Connection::is_connected
  ensures r == self.on()
//@end
impl<S: SubscriptionWithTeardown> Connection<S> { #[verifier::external_body] pub fn default() -> (r: Self) ensures r.h() is None { unimplemented!() } }
/// an earlier one does not stay
//@fn rx_core_observable_connectable Connection::register_connection args=s
  ensures final(self).h() == Some(r), r.id() == s
//@end
//@fn rx_core_observable_connectable Connection::take_connection
  ensures final(self).h() is None, r == old(self).h()
//@end
//@fn rx_core_observable_connectable Connection::get_active_connection opt
  ensures *final(self) == *old(self), r is Some == old(self).on(), r is Some ==> r == old(self).h()
//@end
// ---------------------------------------------------------------- what the source is connected with
/// the connector as seen through one of its handles; its own closing is not ours
pub trait SubjectLike: Subscriber {
    fn vf_clone(&self) -> (r: Self) ensures r.log() == self.log(), r.closed() == self.closed();
}
/// a teardown collection (S06)
#[verifier::external_body]
pub struct Td { x: u8 }
impl Td {
    pub uninterp spec fn closed(&self) -> bool;
    #[verifier::external_body]
    pub fn vf_new() -> (r: Self) ensures !r.closed() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_closed(&self) -> (r: bool) ensures r == self.closed() { unimplemented!() }
    #[verifier::external_body]
    pub fn unsubscribe(&mut self) ensures final(self).closed() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_teardown(&mut self, t: Teardown) ensures final(self).closed() == old(self).closed() { unimplemented!() }
}
/// a boxed callback; it has to run before the subscribers learn about the end
#[verifier::external_body]
pub struct Cb { x: u8 }
impl Cb {
    #[verifier::external_body]
    pub fn vf_call<C: SubjectLike>(self, c: &C, was: Ghost<C>) requires c.log() == was@.log() { unimplemented!() }
}
/// what it does (0 completed, 1 failed, 2 disconnected), on which connection state and connector, resetting or not
impl Cb { pub uninterp spec fn w(&self) -> (int, int, int, bool); }
pub trait CbT: Sized { spec fn w(&self) -> (int, int, int, bool); }
#[verifier::external_body]
pub fn vf_cb<T: CbT>(t: T) -> (r: Cb) ensures r.w() == t.w() { unimplemented!() }
//@replace Box < dyn FnOnce () + Send + Sync > => Cb
//@replace SubscriptionData :: default () => Td :: vf_new ()
//@replace SubscriptionData => Td
//@struct rx_core_observable_connectable ConnectionSubscriber
//@spec rx_core_observable_connectable ConnectionSubscriber
    pub closed spec fn to(&self) -> Connector { self.connector }
    pub closed spec fn over(&self) -> bool { self.teardown.closed() }
    pub open spec fn open(&self) -> bool { !self.over() && !self.to().closed() }
    pub closed spec fn oc(&self) -> Cb { self.on_complete->0 }
    pub closed spec fn oe(&self) -> Cb { self.on_error->0 }
    pub closed spec fn ou(&self) -> Cb { self.on_unsubscribe->0 }
    /// completing, failing, being released are still to be answered
    pub closed spec fn cbs(&self) -> (bool, bool, bool) { (self.on_complete is Some, self.on_error is Some, self.on_unsubscribe is Some) }
//@end
//@fn rx_core_observable_connectable ConnectionSubscriber::new args=connector,a,b,c
  ensures r.to() == connector, !r.over(), r.cbs() == (true, true, true), r.oc() == a, r.oe() == b, r.ou() == c
//@end
//@fn rx_core_observable_connectable ConnectionSubscriber::is_closed
  ensures r == !self.open()
//@end
/// every value reaches the connector once
//@fn rx_core_observable_connectable ConnectionSubscriber::next args=x
  ensures final(self).over() == old(self).over(), final(self).cbs() == old(self).cbs(),
    if old(self).open() { step(old(self).to(), final(self).to(), Ev::Next(x)) } else { final(self).to() == old(self).to() }
//@end
//@fn rx_core_observable_connectable ConnectionSubscriber::error args=e env=():(&self.connector,Ghost(old(self).to()))
  ensures if old(self).open() { final(self).over() && step(old(self).to(), final(self).to(), Ev::Error(e)) && !final(self).cbs().1 } else { final(self).to() == old(self).to() && final(self).cbs() == old(self).cbs() && final(self).over() == old(self).over() }
//@end
//@fn rx_core_observable_connectable ConnectionSubscriber::complete env=():(&self.connector,Ghost(old(self).to()))
  ensures if old(self).open() { final(self).over() && step(old(self).to(), final(self).to(), Ev::Complete) && !final(self).cbs().0 } else { final(self).to() == old(self).to() && final(self).cbs() == old(self).cbs() && final(self).over() == old(self).over() }
//@end
/// disconnecting never ends the connector
//@fn rx_core_observable_connectable ConnectionSubscriber::unsubscribe env=():(&self.connector,Ghost(old(self).to()))
  ensures final(self).to() == old(self).to(), old(self).open() ==> final(self).over() && final(self).cbs() == (false, false, false)
//@end
// ---------------------------------------------------------------- connector and connection
pub trait ObservableOutput {}
pub trait Provider: Sized { type Provided; fn provide(&self) -> Self::Provided; }
/// how often it was subscribed to
pub uninterp spec fn subs<S>(s: S) -> nat;
/// the subscription of a connection
#[verifier::external_body]
pub struct Sn { x: u8 }
impl SubscriptionWithTeardown for Sn {}
//@replace ConnectionSubscription < Source , ConnectorProvider :: Provided > => Sn
//@replace ConnectionSubscription < Source , ConnectorProvider :: Provided , > => Sn
//@replace , Sn : TeardownCollection => 
//@replace Sn : 'static + TeardownCollection => 
//@replace 'static + Provider => Provider
//@replace self . get_connector () . clone () => self . get_connector ()
//@replace new ( connector . clone () => new ( connector . vf_clone ()
//@replace . clone () } => . vf_clone () }
//@replace Box :: new ( => vf_cb (
/// subscribing: subscribers may come and go meanwhile and the source may end; nobody connects
pub trait VfSource: Observable {
    #[verifier::external_body]
    fn subscribe<C: SubjectLike>(&mut self, x: ConnectionSubscriber<C>, st: &mut Lk<ConnectionState>, con: &mut Lk<Connection<Sn>>, cur: &mut Lk<Option<C>>, how: Ghost<(bool, bool, bool)>) -> (r: Sn)
        requires !old(con)@.on(), !old(st)@.over(), !old(st)@.left(), x.cbs() == (true, true, true), !x.over(),
          x.oc().w() == (0int, old(st).cell(), old(cur).cell(), how@.0), x.oe().w() == (1int, old(st).cell(), old(cur).cell(), how@.1), x.ou().w() == (2int, 0int, old(cur).cell(), how@.2)
        ensures final(st).cell() == old(st).cell(), final(con).cell() == old(con).cell(), final(cur).cell() == old(cur).cell(), final(con)@.h() is None || !final(con)@.on(), subs(*final(self)) == subs(*old(self)) + 1,
          final(st)@.auto() == old(st)@.auto() { unimplemented!() }
}
impl<O: Observable> VfSource for O {}
#[verifier::reject_recursive_types(C)]
pub struct OnC<C> { pub connection_on_complete: Lk<ConnectionState>, pub connector_on_complete: Lk<Option<C>>, pub reset_on_complete: bool }
#[verifier::reject_recursive_types(C)]
pub struct OnE<C> { pub connection_on_error: Lk<ConnectionState>, pub connector_on_error: Lk<Option<C>>, pub reset_on_error: bool }
#[verifier::reject_recursive_types(C)]
pub struct OnU<C> { pub connector_on_unsubscribe: Lk<Option<C>>, pub reset_connector_on_disconnect: bool }
impl<C> CbT for OnC<C> { open spec fn w(&self) -> (int, int, int, bool) { (0, self.connection_on_complete.cell(), self.connector_on_complete.cell(), self.reset_on_complete) } }
impl<C> CbT for OnE<C> { open spec fn w(&self) -> (int, int, int, bool) { (1, self.connection_on_error.cell(), self.connector_on_error.cell(), self.reset_on_error) } }
impl<C> CbT for OnU<C> { open spec fn w(&self) -> (int, int, int, bool) { (2, 0, self.connector_on_unsubscribe.cell(), self.reset_connector_on_disconnect) } }
//@struct rx_core_observable_connectable ConnectableOptions
//@struct rx_core_observable_connectable ConnectorState
//@spec rx_core_observable_connectable ConnectorState
    pub closed spec fn src(&self) -> Source { self.source }
    pub closed spec fn cur(&self) -> Option<ConnectorProvider::Provided> { self.connector@ }
    pub closed spec fn ended(&self) -> Option<Sn> { last_ended(self.connection) }
    pub closed spec fn cells(&self) -> (int, int) { (self.connection.cell(), self.connection_state.cell()) }
    pub closed spec fn opts(&self) -> ConnectableOptions<ConnectorProvider> { self.options }
    pub closed spec fn con(&self) -> Connection<Sn> { self.connection@ }
    pub closed spec fn st(&self) -> ConnectionState { self.connection_state@ }
//@end
/// one connector serves all subscribers until it is reset
//@fn rx_core_observable_connectable ConnectorState::get_connector opt
  ensures final(self).cur() is Some, final(self).src() == old(self).src(), final(self).con() == old(self).con(), final(self).st() == old(self).st(), old(self).cur() is Some ==> final(self).cur() == old(self).cur()
//@end
/// a completed connection is over, unless completing resets, then nothing of it remains
//@fn rx_core_observable_connectable ConnectorState::create_connection as=on_complete closure=0 chead=impl<C>~OnC<C> cargs=connection_on_complete:&mut~Lk<ConnectionState>;connector_on_complete:&mut~Lk<Option<C>>;reset_on_complete:bool
  ensures final(connection_on_complete)@.over(), final(connection_on_complete)@.n() == old(connection_on_complete)@.n(), final(connector_on_complete)@ == (if reset_on_complete { None } else { old(connector_on_complete)@ })
//@end
//@fn rx_core_observable_connectable ConnectorState::create_connection as=on_error closure=1 chead=impl<C>~OnE<C> cargs=connection_on_error:&mut~Lk<ConnectionState>;connector_on_error:&mut~Lk<Option<C>>;reset_on_error:bool
  ensures final(connection_on_error)@.over(), final(connection_on_error)@.n() == old(connection_on_error)@.n(), final(connector_on_error)@ == (if reset_on_error { None } else { old(connector_on_error)@ })
//@end
//@fn rx_core_observable_connectable ConnectorState::create_connection as=on_unsubscribe closure=2 chead=impl<C>~OnU<C> cargs=connector_on_unsubscribe:&mut~Lk<Option<C>>;reset_connector_on_disconnect:bool
  ensures final(connector_on_unsubscribe)@ == (if reset_connector_on_disconnect { None } else { old(connector_on_unsubscribe)@ })
//@end
//@fn rx_core_observable_connectable ConnectorState::create_connection lift=2:OnU:connector_on_unsubscribe,reset_connector_on_disconnect;1:OnE:connection_on_error,connector_on_error,reset_on_error;0:OnC:connection_on_complete,connector_on_complete,reset_on_complete env=subscribe,@source:(&mut~self.connection_state,&mut~self.connection,&mut~self.connector,Ghost((self.options.reset_connector_on_complete,self.options.reset_connector_on_error,self.options.reset_connector_on_disconnect)))
  requires !old(self).con().on(), !old(self).st().over(), !old(self).st().left()
  ensures subs(final(self).src()) == subs(old(self).src()) + 1, !final(self).con().on(), final(self).st().auto() == old(self).st().auto()
//@end
//@fn rx_core_observable_connectable ConnectorState::register_connection args=c
  ensures final(self).con().h() == Some(r), r.id() == c, final(self).src() == old(self).src(), final(self).st() == old(self).st(), final(self).cur() == old(self).cur()
//@end
//@fn rx_core_observable_connectable ConnectorState::disconnect
  ensures final(self).con().h() is None, r == old(self).con().on(), final(self).src() == old(self).src(), final(self).st() == old(self).st(), final(self).cur() == old(self).cur()
//@end
//@fn rx_core_observable_connectable ConnectorState::reset
  ensures final(self).con().h() is None, final(self).cur() is None, final(self).src() == old(self).src(), final(self).st() == old(self).st()
//@end
/// connected already: nothing happens; otherwise the source is subscribed to once. Left by everyone meanwhile: not kept.
//@fn rx_core_observable_connectable ConnectorState::connect opt
  ensures if old(self).con().on() { final(self).con() == old(self).con() && final(self).con().h() == Some(r) && subs(final(self).src()) == subs(old(self).src()) }
    else { subs(final(self).src()) == subs(old(self).src()) + 1 && (final(self).con().h() == Some(r) && !(final(self).st().left() && final(self).st().n() == 0) || final(self).con().h() is None && final(self).st().left() && final(self).st().n() == 0) }
//@end
// ---------------------------------------------------------------- options
//@fn rx_core_observable_connectable ConnectableOptions::new args=p
  ensures r.connector_provider == p, !r.disconnect_when_ref_count_zero, !r.reset_connector_on_disconnect, !r.reset_connector_on_error, !r.reset_connector_on_complete
//@end
//@fn rx_core_observable_connectable ConnectableOptions::disconnect_when_ref_count_zero
  ensures r == (Self { disconnect_when_ref_count_zero: true, ..self })
//@end
//@fn rx_core_observable_connectable ConnectableOptions::reset_connector_on_disconnect
  ensures r == (Self { reset_connector_on_disconnect: true, ..self })
//@end
//@fn rx_core_observable_connectable ConnectableOptions::reset_connector_on_error
  ensures r == (Self { reset_connector_on_error: true, ..self })
//@end
//@fn rx_core_observable_connectable ConnectableOptions::reset_connector_on_complete
  ensures r == (Self { reset_connector_on_complete: true, ..self })
//@end
//@fn rx_core_observable_connectable ConnectionOptions::from_connectable_options args=o
  ensures r.disconnect_when_ref_count_zero == o.disconnect_when_ref_count_zero
//@end
// ---------------------------------------------------------------- the connectable
//@fn rx_core_observable_connectable ConnectorState::new args=source,connection,state,options
  ensures r.src() == source, r.cur() is None, r.cells() == (connection.cell(), state.cell()), r.opts() == options, r.con() == connection@, r.st() == state@
//@end
/// subscriptions to the connector: what was added to them
#[verifier::external_body]
pub struct Dsub { x: u8 }
impl Dsub {
    pub uninterp spec fn closed(&self) -> bool;
    pub uninterp spec fn fns(&self) -> Seq<Leave>;
    #[verifier::external_body]
    pub fn is_closed(&self) -> (r: bool) ensures r == self.closed() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_fn(&mut self, f: Leave) ensures final(self).fns() == old(self).fns().push(f), final(self).closed() == old(self).closed() { unimplemented!() }
}
pub trait VfConnector: SubjectLike {
    /// nobody else can subscribe meanwhile, subscribers may leave
    #[verifier::external_body]
    fn subscribe<D>(self, d: D, st: &mut Lk<ConnectionState>) -> (r: Dsub)
        ensures r.fns() == Seq::<Leave>::empty(), final(st).cell() == old(st).cell(), final(st)@.n() <= old(st)@.n() { unimplemented!() }
}
impl<C: SubjectLike> VfConnector for C {}
/// which connection was ended last
pub uninterp spec fn last_ended(c: Lk<Connection<Sn>>) -> Option<Sn>;
impl Hdl<Sn> {
    /// whatever reacts to it may connect or subscribe anew
    #[verifier::external_body]
    pub fn vf_end(&mut self, c: &mut Lk<Connection<Sn>>, s: &mut Lk<ConnectionState>) ensures final(self).closed(), last_ended(*final(c)) == Some(old(self).id()), final(c).cell() == old(c).cell(), final(s).cell() == old(s).cell() { unimplemented!() }
}
pub struct Leave { pub connection_state_clone: Lk<ConnectionState>, pub connection_clone: Lk<Connection<Sn>> }
//@replace connection . unsubscribe ( => connection . vf_end (
/// a subscriber leaves: it no longer counts, and the last one ends the running connection if that was asked for
//@fn rx_core_observable_connectable ConnectableObservable::subscribe as=leave closure=0 chead=impl~Leave caps=connection_state_clone,connection_clone cmut env=unsubscribe,%connection:(&mut~self.connection_clone,&mut~self.connection_state_clone)
  requires old(self).connection_state_clone@.n() > 0
  ensures ({ let (s, c) = (old(self).connection_state_clone@, old(self).connection_clone@); let last = s.auto() && s.n() == 1 && !s.over();
    &&& (last && c.on() ==> last_ended(final(self).connection_clone) == Some(c.h()->0.id()))
    &&& (last && !c.on() ==> final(self).connection_clone@.h() is None)
    &&& (!last ==> final(self).connection_clone@ == c)
    &&& (!(last && c.on()) ==> final(self).connection_state_clone@.n() == s.n() - 1 && final(self).connection_state_clone@.over() == s.over()) })
//@end
//@replace observer . upgrade () => observer
//@replace < ConnectorProvider :: Provided as Observable > :: Subscription < Destination > => Dsub
//@struct rx_core_observable_connectable ConnectableObservable
//@spec rx_core_observable_connectable ConnectableObservable
    /// the handle, the connector and its connection all work on the same cells
    pub closed spec fn wired(&self) -> bool { self.k().cells() == (self.connection.cell(), self.connection_state.cell()) }
    pub closed spec fn k(&self) -> ConnectorState<Source, ConnectorProvider> { self.connector@ }
    pub closed spec fn st(&self) -> ConnectionState { self.connection_state@ }
    pub closed spec fn con(&self) -> Connection<Sn> { self.connection@ }
    pub closed spec fn ended(&self) -> Option<Sn> { last_ended(self.connection) }
    pub closed spec fn cells(&self) -> (int, int) { (self.connection.cell(), self.connection_state.cell()) }
//@end
//@fn rx_core_observable_connectable ConnectableObservable::new args=source,options
  ensures r.wired(), r.k().src() == source, r.k().cur() is None, r.k().opts() == options, r.st().n() == 0, !r.st().over(), r.st().auto() == options.disconnect_when_ref_count_zero
//@end
/// every subscriber that is not closed by the time it subscribed counts once, until it leaves
//@fn rx_core_observable_connectable ConnectableObservable::subscribe args=d lift=0:Leave:connection_state_clone,connection_clone env=subscribe,^:&mut~self.connection_state
  requires old(self).st().n() < usize::MAX
  ensures final(self).cells() == old(self).cells(), final(self).k().cur() is Some, old(self).k().cur() is Some ==> final(self).k().cur() == old(self).k().cur(), final(self).k().src() == old(self).k().src(), final(self).k().con() == old(self).k().con(), final(self).k().st() == old(self).k().st(),
    if r.closed() { r.fns().len() == 0 && final(self).st().n() <= old(self).st().n() }
    else { r.fns().len() == 1 && r.fns()[0].connection_state_clone.cell() == old(self).cells().1 && r.fns()[0].connection_clone.cell() == old(self).cells().0 && 0 < final(self).st().n() <= old(self).st().n() + 1 }
//@end
//@fn rx_core_observable_connectable ConnectableObservable::connect
  ensures if old(self).k().con().on() { final(self).k().con().h() == Some(r) && subs(final(self).k().src()) == subs(old(self).k().src()) }
    else { subs(final(self).k().src()) == subs(old(self).k().src()) + 1 }
//@end
/// the running connection is ended; whatever reacts to that may use the connectable again
//@fn rx_core_observable_connectable ConnectableObservable::disconnect env=unsubscribe,%connection:(&mut~self.connection,&mut~self.connection_state)
  ensures r == old(self).con().on(), r ==> final(self).ended() == Some(old(self).con().h()->0.id()), !r ==> final(self).con().h() is None, final(self).k() == old(self).k(), final(self).cells() == old(self).cells()
//@end
//@fn rx_core_observable_connectable ConnectableObservable::is_connected ro
  ensures r == self.con().on()
//@end
//@fn rx_core_observable_connectable ConnectableObservable::reset
  ensures final(self).k().con().h() is None, final(self).k().cur() is None, final(self).k().src() == old(self).k().src()
//@end
// ---------------------------------------------------------------- share
//@replace < ConnectableObservable < Source , ConnectorProvider > as Observable > :: Subscription < Destination > => Dsub
//@replace < ConnectableObservable < Source , ConnectorProvider > as Connectable > :: ConnectionSubscription => Sn
//@replace Source :: Out : Clone , => 
//@replace Source :: OutError : Clone , => 
//@struct rx_core_operator_share ShareObservable
//@fn rx_core_operator_share ShareObservable::new args=source,options
  ensures r.connectable.wired(), r.connectable.k().src() == source, r.connectable.k().cur() is None, r.connectable.k().opts() == options, r.connectable.st().n() == 0, !r.connectable.st().over(), r.connectable.st().auto() == options.disconnect_when_ref_count_zero
//@end
//@fn rx_core_operator_share ShareObservable::is_connected ro
  ensures r == self.connectable.con().on()
//@end
//@fn rx_core_operator_share ShareObservable::connect
  ensures if old(self).connectable.k().con().on() { final(self).connectable.k().con().h() == Some(r) && subs(final(self).connectable.k().src()) == subs(old(self).connectable.k().src()) }
    else { subs(final(self).connectable.k().src()) == subs(old(self).connectable.k().src()) + 1 }
//@end
//@fn rx_core_operator_share ShareObservable::disconnect
  ensures r == old(self).connectable.con().on(), r ==> final(self).connectable.ended() == Some(old(self).connectable.con().h()->0.id()), !r ==> final(self).connectable.con().h() is None, final(self).connectable.k() == old(self).connectable.k()
//@end
/// one connection for all subscribers: only the first, or one that finds none running, subscribes to the source
//@fn rx_core_operator_share ShareObservable::subscribe args=d
  requires old(self).connectable.st().n() < usize::MAX
  ensures subs(final(self).connectable.k().src()) == subs(old(self).connectable.k().src()) + if old(self).connectable.k().con().on() { 0nat } else { 1nat },
    !r.closed() ==> r.fns().len() == 1
//@end
//@struct rx_core_operator_share ShareOperator
//@fn rx_core_operator_share ShareOperator::new args=o
  ensures r.options == o
//@end
//@fn rx_core_operator_share ShareOperator::operate args=source
  ensures r.connectable.wired(), r.connectable.k().src() == source, r.connectable.k().opts() == self.options
//@end
} // verus!
fn main() {}
