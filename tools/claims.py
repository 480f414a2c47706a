T = "contract-based deductive verification (Verus) of the extracted functions; failing inputs replayed on the real code"
TODO = "not yet brought under contract (work in progress)"
CLAIMS = {
 "S01": ("proof", T, "Unbounded proof per function that every signal step produces exactly the specified outputs, for all inputs, limits and destinations, with state invariants; assumes destinations obey the observer contract. The bounded search over real pipelines covers what extraction drops (macro-generated extension methods, subscription wiring)."),
 "S02": ("proof", T, "Unbounded proof per function that each terminal-value operator's next/error/complete produce exactly the specified answer and state; assumes destinations obey the observer contract and closures are total. Bounded search covers the dropped wiring."),
 "S03": ("proof", T, "Unbounded proof per function of the fold step and result of each operator; assumes destinations obey the observer contract and closures are total. Bounded search covers the dropped wiring."),
 "S04": ("proof", T, "Unbounded proof per function of every conversion step, and of the round-trip identity as a lemma over all signal sequences, and of the notification conversions (every From, TryFrom and push: the signal denoted is kept, a refused conversion names the signal refused)."),
 "S05": ("proof", T, "Unbounded proof per function that signals are passed on unchanged and every callback is invoked exactly once with exactly the signal's value, before the destination is given it; finalize running exactly once at the end (a property of the destination's teardown handling, see S06) is covered by the bounded search."),
 "S06": ("proof", T, "Unbounded proof that SubscriptionData and Teardown account for every finalizer exactly once under every operation (ghost run log), what a teardown made from a subscription or a scheduled work does when it runs, and, as rely/guarantee, that a SharedSubscription keeps that account across clones and calls from within teardowns: such calls are queued and take effect when the outer one is done, nothing is left behind, unsubscribing closes it for good. The erased and boxed wrappers are covered by S21's contracts and by the bounded search (all operation sequences up to length 4-6 on every wrapper)."),
 "S07": ("proof", T, "Unbounded proof on ObserverSubscriber (exact call log of the wrapped observer, and a client proving the whole-history clause for any sequence of calls) on the SubscriberState machine and on FnObserver/DynFnObserver (each signal calls the callback for it, terminal callbacks at most once), and on the shared handles Arc<Mutex>, Arc<RwLock> and Weak<Mutex> (each signal is that one signal to what is shared; poisoned: unsubscribed; gone: closed; the locks themselves are stand-ins). The delegations the derive macros generate for every operator and source (unsubscribe, is_closed, add_teardown, drop) are under contract as expanded. That every operator and observable releases its sources, runs teardowns and reports closedness is decided by a bounded search over the whole catalogue (all histories up to length 3, thorough 4)."),
 "S08": ("proof", T, "Unbounded rely/guarantee proof on SharedSubscriber: every call made while the destination is in use stays within a stated interference bound, and for every environment within it the destination receives exactly the accepted signals in order up to the first closing one, and every teardown. One thread at a time; the recursion limit panic is excluded. Real re-entrant programs, including calls from teardowns and through operators, are replayed within bounds."),
 "S09": ("proof", T, "Unbounded rely/guarantee proof on PublishSubject, SharedSubscribers, Subscribers and MulticastSubscription: calls made while the subscriber list is in use only queue, everything accepted is applied in order, and every subscriber's log is exactly what was applied since it was added (an invariant of the list). One thread at a time; a subscriber's closedness is assumed to change only while it is called; the recursion limit panic is excluded. Real re-entrant programs, including calls from callbacks and teardowns, are replayed within bounds."),
 "S10": ("proof", T, "Unbounded rely/guarantee proof on BehaviorSubject, ReplaySubject and AsyncSubject over the contract of PublishSubject (proved for S09): the stored history is exactly what the accepted signals make of it, a new subscriber is given exactly that history first, an async subject accepts its one value at completion. Known findings: values a subscriber sends while it is being given the history are not delivered to itself. The ring buffer is assumed to keep its last N; the wiring of the provenance pipes is covered by the bounded search."),
 "S11": ("proof", T, "Unbounded proof on the ticking scheduler, executor and works: each kind of work runs exactly when its elapsed time is due (time as saturating nanoseconds), each pass ticks every active work not yet ticked once and in schedule order, and the queued actions have exactly their specified effect, so cancelled work is gone before it can tick; collections (HashMap, HashSet, IndexMap) and derived comparisons are assumed contracts. Bounded search against an exact scheduler model covers nesting and the whole."),
 "S12": ("proof", T, "Unbounded proof on the code of interval, timer, fallback_when_silent, delay, debounce_time and throttle_time, scheduled closures included (each closure is lifted to a struct of its captures): what each accepted signal asks of the scheduler and what each scheduled piece of work then emits, from any state. The scheduler is the sequence of requests made to it (what it does with them is S11); atomics, the shared destination and the cells behind Arcs are assumed contracts. The whole, with ticks and schedulers, is covered by the bounded search. One known finding."),
 "S13": ("proof", T, "Unbounded proof on CombineLatestSubscriber, CombineChangesSubscriber, WithLatestFromSubscriber, its inner destination, the stored notification state and the adapters of the two inputs: from any state, for any signal of either input, exactly the documented pair / completion / error. Serialisation of the two inputs is SharedSubscriber (S08); the wiring in subscribe and re-entrant inputs are covered by the bounded search over every interleaving."),
 "S14": ("proof", T, "Unbounded proof on ZipSubscriber, JoinSubscriber, NotificationQueue, NotificationState and the adapters of the two inputs: from any state and any signal of either input, the oldest waiting values are paired exactly once, the queue limit drops exactly the documented value, join emits the last values exactly at the second completion, endings are exactly as documented. VecDeque's own operations are assumed. Wiring in subscribe and re-entrant inputs are covered by the bounded search over every interleaving."),
"S15": ("proof", T, "Unbounded proof on HigherOrderSubscriberState, HigherOrderInnerSubscriber, ConcurrentSubscriberQueue, ConcurrentSubscriber, subscribe_to_next_in_queue, create_inner_subscription and its two callbacks: from any state and any signal of the outer or an inner source, sources start in arrival order exactly once, only with a free place, a free place is taken again at once, the completion and error accounting is exact. What inner sources and consumers do while called is a relation every contract here keeps (rely/guarantee); the slab of subscriptions, the shared destination and its teardown are stand-ins. Their release and the subscribe wiring are covered by the bounded search."),
"S16": ("proof", T, "Unbounded proof on SwitchSubscriber and ExhaustSubscriber (next, error, complete, unsubscribe, is_closed, the callbacks) over the verified inner accounting of S15: a source is only subscribed to when no other is unreleased, switch always takes the newest, exhaust ignores while one is active, endings exact. Consumers and inner sources are a relation the contracts keep; subscriptions are stand-ins. Wiring in subscribe is covered by the bounded search."),
"S17": ("proof", T, "Unbounded proof: CatchSubscriber (new, next, error, complete, unsubscribe, is_closed, the callback) over the inner accounting of S15 - the recovery is chosen by the first error and subscribed to once, nothing after - and RetrySubscriber/RetryObservable (every method): each new attempt only after the previous one failed and was released, never more than allowed, only the error of the last failed attempt is passed on. Sources, subscriptions and the shared output are stand-ins with relational contracts. The bounded search replays attempts against an oracle."),
"S18": ("proof", T, "Unbounded proof: ConnectionOptions, ConnectionState, Connection, ConnectionSubscriber and ConnectorState (every method, connect and the release wiring included): ref counting never drops below zero, the connection is left exactly when the count reaches zero and the option asks for it, the disconnect/reset decisions on completion, error and disconnection follow the options, a finished connection is never reused, at most one connection at a time. The shared handle around the connector state is a stand-in in the unit; the public Connectable/Share wrappers are covered by the bounded search against an oracle of connect/subscribe/unsubscribe/disconnect sequences over every option set."),
"S19": ("proof", T, "Unbounded proof: subscribe of the just, empty, throw, closed, never, create, deferred and iterator sources for every item sequence and every closing point, and the iterator-on-tick subscription's tick/start/unsubscribe. Iterables are assumed to repeat the same items. Whole sources through the public API are covered by the bounded search against an oracle."),
"S20": ("proof", T, "Unbounded proof: every signal method of ObserveOnSubscriber and the work it schedules (as closure-converted code), against a rely specification for what other work and consumers may do between them; the subscribe_on wiring and the work it schedules. Interleavings of whole pipelines are covered by the bounded search against an oracle."),
"S21": ("proof", T, "Unbounded proof: every method of CompositeSubscriber, IdentitySubscriber, ErasedSubscriber, OptionSubscriber, ErasedSubscription, OptionSubscription, Option and Box as observers is exactly that one call on what it wraps; Pipe::subscribe, CompositeOperator, IdentityOperator, Option as operator and ErasedObservable subscribe exactly once, operators nested in order; every extension method and source function is its operator or source made with exactly its arguments. That a whole chain equals its operators one after the other, and fresh state per subscription for every catalogue operator, is covered by the bounded search."),
"S22": ("proof", T, "Unbounded proof: the transition table, the phase and level at a time, envelope changes, one step of the envelope (with the invariant that the time of an activation is the time since its first tick, whatever happened meanwhile), the scheduled work of AdsrSubscriber and all its methods. f32, easing curves, Stopwatch and bitflags are trusted stand-ins; levels on the real floats are covered by the bounded search."),
}
NA = {f"S{i:02d}": TODO for i in range(1, 24)}
NA["S23"] = "depends on the Bevy ECS World, scheduler and component hooks (unsafe, dyn and macro-heavy external code) that cannot be brought within Verus' reach; no contract on repository functions alone decides it"
