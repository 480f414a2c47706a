#!/usr/bin/env python3
"""writes /verif/properties.jsonl (the list is kept here, one tuple per property)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": ["crates/" + f for f in files], "mechanism": [{"name": n, "where": "crates/" + w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": "crates/" + c} for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)
def op(o, f=None):
    return f"rx_core_operator_{o}/src/{f or o}_subscriber.rs"
def ob(o, f=None):
    return f"rx_core_observable_{o}/src/{f or o}_observable.rs"

p("S01", "Selecting operators deliver exactly the selected inputs, in order",
  "For every input sequence, take(n) delivers exactly the first n values and then completes at once (n = 0 completes on subscribe), skip(n) delivers exactly the values after the first n, and filter, filter_map and lift_option deliver exactly the values their predicate or mapping keeps (the predicate sees the true zero-based position), unchanged and in input order. Error, completion and unsubscription of the source reach the destination exactly once unless the output has already ended. Once the destination has closed nothing more is delivered.",
  ["inputs", "histories", "configurations"], "every sequence of source signals of any length, every n, every predicate, destinations that close at any point",
  "tests run single fixed sequences of 3 to 5 values; the statement quantifies over all lengths, all limits and all points at which downstream closes",
  [op("take"), op("skip"), op("filter"), op("lift_option"), "rx_core_operator_filter_map/src/filter_map_operator.rs"],
  [("take counter and self-termination", op("take") + " TakeSubscriber::next"), ("skip counter", op("skip") + " SkipSubscriber::next"), ("predicate with running index", op("filter") + " FilterSubscriber::next")],
  ["signals received by the destination, after every input signal"])
p("S02", "Terminal-value operators emit the one right answer, at the right moment",
  "first, find, find_index and element_at emit exactly the first value (or index) that satisfies the request and complete at that very signal; count, reduce and is_empty answer from the whole input (is_empty answers false at the first value). If the source completes without an answer the operator's documented not-found error, default or empty result is delivered, exactly once. A source error is passed on as an error instead of an answer, and nothing follows the answer.",
  ["inputs", "histories", "configurations"], "every sequence of source signals, every predicate and every index",
  "tests use a handful of fixed sequences; boundary indexes, absent matches and matches at the last value for every length are not enumerated",
  [op("first"), op("find"), op("find_index"), op("element_at"), op("count"), op("reduce"), op("is_empty")],
  [("first match ends the output", op("find") + " FindSubscriber::next"), ("index comparison", op("element_at") + " ElementAtSubscriber::next"), ("accumulated result on completion", op("reduce") + " ReduceSubscriber::complete")],
  ["signals received by the destination, after every input signal"])
p("S03", "Mapping and accumulating operators compute the exact left fold of the input",
  "map, map_into and map_never deliver the image of every value one for one and in order; enumerate numbers values from zero without gaps; scan delivers every running accumulation starting from the seed; pairwise delivers every pair of neighbours; buffer_count(n) delivers consecutive full buffers of n values in order and the remainder on completion. Errors and completion pass through after everything due before them. No value is lost, duplicated or reordered.",
  ["inputs", "histories", "configurations"], "every sequence of source signals, every mapping function and every buffer size",
  "tests check one or two short sequences per operator; the fold equation is over sequences of every length and every buffer size",
  [op("map"), op("scan"), op("enumerate"), op("pairwise"), op("buffer_count"), op("map_into")],
  [("running accumulator", op("scan") + " ScanSubscriber::next"), ("previous value", op("pairwise") + " PairwiseSubscriber::next"), ("buffer flush", op("buffer_count") + " BufferCountSubscriber::next")],
  ["signals received by the destination, after every input signal"])
p("S04", "Turning signals into values and back loses nothing",
  "materialize turns every signal of the source into exactly one notification value, in order, and then completes; dematerialize replays notifications as exactly the signals they stand for, so dematerialize after materialize is the identity on every signal sequence. into_result and lift_result convert between error signals and result values one for one, and map_error changes the error value and nothing else. Once the output has ended, nothing more is delivered.",
  ["inputs", "histories"], "every sequence of source signals and notifications, every error mapping",
  "round-trip identity is a statement over all signal sequences; tests check single sequences of each direction",
  [op("materialize"), op("dematerialize"), op("into_result"), op("lift_result"), op("map_error"), "rx_core_common/src/signals/notification_observer.rs"],
  [("signal to notification", op("materialize") + " MaterializeSubscriber"), ("notification to signal", op("dematerialize") + " DematerializeSubscriber::next"), ("notification conversions", "rx_core_common/src/signals/notification_observer.rs ObserverNotification")],
  ["signals received by the destination"])
p("S05", "Side-effect and injection operators are transparent and fire when documented",
  "tap, tap_next, on_next, on_subscribe, finalize and identity leave the delivered sequence unchanged (on_next may only veto a value it is asked about), and each callback runs exactly when documented: once per value or signal and before it is delivered, once per subscription for on_subscribe, exactly once for finalize however the subscription ends. start_with delivers its value once before everything else and end_with once after the last value and before completion, never after an error. No signal is lost, duplicated or reordered.",
  ["inputs", "histories"], "every sequence of source signals and every way a subscription can end",
  "tests cover one ending per test; exactly-once over every ending and every interleaving of callbacks with deliveries is universal",
  [op("tap"), op("tap_next"), op("on_next"), "rx_core_operator_start_with/src/start_with_operator.rs", op("end_with"), "rx_core_operator_finalize/src/finalize_operator.rs", "rx_core_operator_on_subscribe/src/on_subscribe_operator.rs"],
  [("callback before forwarding", op("tap_next") + " TapNextSubscriber::next"), ("value before completion", op("end_with") + " EndWithSubscriber::complete"), ("finalizer registered as teardown", "rx_core_operator_finalize/src/finalize_operator.rs")],
  ["signals received by the destination", "calls of the user's callbacks"])
p("S06", "Every teardown runs exactly once, however a subscription ends",
  "Every teardown added to a subscription runs exactly once: when the subscription is unsubscribed, dropped or ended by a terminal signal, and immediately if it is added after closing. Closing is permanent and idempotent: a closed subscription never reopens and repeated unsubscription runs nothing again. For a shared subscription or subscriber this holds across all clones and from within teardowns and callbacks.",
  ["histories", "inputs"], "every sequence of add, unsubscribe, clone and drop, including calls made from inside a teardown",
  "tests add one or two teardowns and close once; exactly-once is over all operation histories including re-entrant ones",
  ["rx_core_common/src/subscriptions/subscription_data.rs", "rx_core_common/src/subscriptions/subscription_shared.rs", "rx_core_common/src/subscriptions/teardown.rs", "rx_core_common/src/subscribers/subscriber_shared.rs"],
  [("teardown list drained on unsubscribe", "rx_core_common/src/subscriptions/subscription_data.rs SubscriptionData::unsubscribe"), ("immediate execution when closed", "rx_core_common/src/subscriptions/subscription_data.rs SubscriptionData::add_teardown"), ("shared state", "rx_core_common/src/subscriptions/subscription_shared.rs SharedSubscription")],
  ["number of executions of each teardown", "is_closed"])
p("S07", "No signal is delivered after the end, and terminal signals are delivered once",
  "Whatever is sent to it, an observer receives at most one terminal signal and nothing after it. Through every operator and observable, with sources that stop when told to, a terminal signal or an unsubscription (or dropping the subscription) closes the subscription, runs its teardowns and releases every source and inner source; nothing is delivered by or after an unsubscription, and closedness reported by a subscription agrees with this. Time-shifting operators (delay, debounce, throttle, observe_on) documentedly let values they already accepted through first.",
  ["histories", "inputs"], "every sequence of signals and unsubscriptions (for a bare observer also malformed ones), through any operator",
  "tests send well-formed short sequences; the guarantee is about all call histories including signals after the end",
  ["rx_core_common/src/subscribers/subscriber_observer.rs", "rx_core_common/src/subscribers/subscriber_state.rs", "rx_core_common/src/subscribers/subscriber_option.rs", "rx_core_common/src/subscribers/subscriber_arc_mutex.rs"],
  [("closed check before every delivery", "rx_core_common/src/subscribers/subscriber_observer.rs ObserverSubscriber"), ("subscriber state machine", "rx_core_common/src/subscribers/subscriber_state.rs SubscriberState")],
  ["signals received by the observer", "is_closed of the subscription"])
p("S08", "Re-entrant signals through a shared subscriber keep their order and are not lost",
  "Signals sent to a shared subscriber while it is already delivering (from inside a downstream callback or through another clone) are delivered after the current one, in the order they were sent, each exactly once, until the first terminal signal or unsubscription takes effect. No re-entrant call deadlocks or panics (up to the built-in recursion limit of ten rounds of calls caused by calls), and teardowns added during delivery still run exactly once. All clones observe the same closed state.",
  ["schedules", "histories"], "every nesting and order of re-entrant next, error, complete, unsubscribe and add calls through any clone",
  "re-entrancy tests exercise a few hand-written nestings; order and no-loss must hold for all of them",
  ["rx_core_common/src/subscribers/subscriber_shared.rs", "rx_core_notification_store/src/notification_queue.rs"],
  [("deferred notification queue", "rx_core_common/src/subscribers/subscriber_shared.rs SharedSubscriber")],
  ["signals received by the destination"])
p("S09", "A publish subject delivers each signal to every current subscriber exactly once",
  "Every value sent into a publish subject is delivered exactly once, in order of sending, to exactly those subscribers that were subscribed and not unsubscribed at the time; this includes values sent, and subscriptions made or dropped, from inside a subscriber's callback or teardown (up to the built-in recursion limit of ten rounds of calls caused by calls): such calls take effect after the current one, in the order they were made. Completion or error reaches every current subscriber exactly once and closes the subject, and later subscribers receive that same terminal signal immediately and no values. One subscriber's unsubscription never affects what the others receive.",
  ["schedules", "histories"], "every interleaving of sends, subscriptions and unsubscriptions, including re-entrant ones",
  "tests use two or three subscribers in fixed orders; exactly-once multicast is over all histories",
  ["rx_core_subject_publish/src/publish_subject.rs", "rx_core_subject_publish/src/multicast.rs"],
  [("multicast notification queue", "rx_core_subject_publish/src/multicast.rs"), ("terminal replay to late subscribers", "rx_core_subject_publish/src/publish_subject.rs PublishSubject::subscribe")],
  ["signals received by every subscriber"])
p("S10", "Stateful subjects give every subscriber exactly the documented history",
  "A behavior subject gives each new subscriber the latest value first; a replay subject gives it the last N values (all of them if fewer) in order; an async subject gives only the last value, and only at completion; afterwards all see the same live signals as every other subscriber. Values sent after the subject ended change nothing that any later subscriber observes. A provenance subject delivers exactly the values whose provenance the subscriber asked for.",
  ["histories", "configurations"], "every order of sends, terminal signals and subscriptions, every replay capacity",
  "tests subscribe at one or two points of one history; the claim is for every history and every subscription point",
  ["rx_core_subject_behavior/src/behavior_subject.rs", "rx_core_subject_replay/src/replay_subject.rs", "rx_core_subject_async/src/async_subject.rs", "rx_core_subject_provenance/src/provenance_subject.rs"],
  [("stored latest value", "rx_core_subject_behavior/src/behavior_subject.rs BehaviorSubject::next"), ("bounded replay buffer", "rx_core_subject_replay/src/replay_subject.rs ReplaySubject"), ("result on completion", "rx_core_subject_async/src/async_subject.rs AsyncSubject::complete")],
  ["signals received by every subscriber"])
p("S11", "The scheduler runs work exactly when due, never after cancellation",
  "Delayed work runs exactly once, on the first tick at which its delay has elapsed; immediate work on the next tick; repeating work once per elapsed interval, never more per tick than its limit; continuous work once per tick until it reports done. Work cancelled before a tick begins does not run in or after that tick, cancelling one identity never affects another, and invoked work runs exactly when invoked and stays cancellable. Finished work never runs again and every work item runs at most once per tick pass.",
  ["schedules", "histories", "configurations"], "every sequence of schedule, cancel, invoke and tick operations with any durations and tick lengths",
  "tests tick with a few fixed durations; due times and cancellation are over all schedules",
  ["rx_core_scheduler_ticking/src/ticking_executor.rs", "rx_core_scheduler_ticking/src/ticking_scheduler.rs", "rx_core_scheduler_ticking/src/tick.rs", "rx_core_scheduler_ticking/src/work"],
  [("action queue and work table", "rx_core_scheduler_ticking/src/ticking_executor.rs TickingSchedulerExecutor::tick_to"), ("due-time arithmetic", "rx_core_scheduler_ticking/src/work"), ("tick monotonicity", "rx_core_scheduler_ticking/src/tick.rs Tick::update")],
  ["executions of each scheduled work per tick"])
p("S12", "Time operators emit exactly the documented values at the documented ticks",
  "delay shifts every value and completion by exactly the given duration; debounce_time emits a value only once the source stayed silent for the duration; throttle_time emits the leading value and the trailing one as configured, at most one per window; fallback_when_silent supplies its fallback exactly when a tick saw no value; interval and timer emit at exact multiples of their duration, in count order. Order is preserved, nothing is emitted twice, and after unsubscription or error no scheduled emission happens. A pending value is flushed or discarded on completion exactly as documented.",
  ["schedules", "inputs", "configurations"], "every arrangement of source signals and tick lengths, every duration",
  "tests use one or two tick schedules per operator; the timing law quantifies over all of them",
  [op("delay"), op("debounce_time"), op("throttle_time"), op("fallback_when_silent"), ob("interval"), ob("timer")],
  [("delayed work per value", op("delay") + " DelaySubscriber::next"), ("pending value restarted on every input", op("debounce_time") + " DebounceTimeSubscriber::next"), ("window state", op("throttle_time") + " ThrottleTimeSubscriber::next")],
  ["signals received by the destination after every tick"])
p("S13", "Combining the latest values always pairs the true latest of both inputs",
  "combine_latest emits, for every input value once both inputs have produced one, exactly the pair of the current latest values; combine_changes additionally says which side changed; with_latest_from emits once per source value, paired with the latest value of the other input, and only once that exists. The output completes exactly when no further emission is possible as documented, and an error of either input ends it at once. Every interleaving gives the pairs in the order the inputs arrived.",
  ["schedules", "inputs"], "every interleaving of the two inputs' signals including synchronous emission on subscribe",
  "tests run one interleaving each; the pairing law is over all interleavings and endings",
  ["rx_core_observable_combine_latest/src/combine_latest_subscriber.rs", "rx_core_observable_combine_changes/src/combine_changes_subscriber.rs", op("with_latest_from")],
  [("stored latest values", "rx_core_observable_combine_latest/src/combine_latest_subscriber.rs CombineLatestSubscriber::next"), ("completion rule", "rx_core_observable_combine_latest/src/combine_latest_subscriber.rs CombineLatestSubscriber::try_complete")],
  ["signals received by the destination"])
p("S14", "zip pairs the n-th with the n-th value, join pairs the last values",
  "zip emits exactly the pairs of n-th values of its two inputs, in order, each as soon as both exist, and completes as soon as no further pair can arise; join emits exactly one pair, of the last values, when both inputs have completed, and only then completes. A configured queue limit drops values exactly as documented. An error of either input ends the output at once, and no value is paired twice.",
  ["schedules", "inputs"], "every interleaving of the two inputs' signals, every queue option",
  "tests run a few interleavings; pairing by position must hold for every interleaving and every point of completion",
  ["rx_core_observable_zip/src/zip_subscriber.rs", "rx_core_observable_join/src/join_subscriber.rs", "rx_core_notification_store/src/notification_queue.rs"],
  [("per-input queues", "rx_core_observable_zip/src/zip_subscriber.rs ZipSubscriber"), ("queue limits", "rx_core_notification_store/src/notification_queue.rs NotificationQueue"), ("last values", "rx_core_observable_join/src/join_subscriber.rs JoinSubscriber")],
  ["signals received by the destination"])
p("S15", "merge and concat subscribe to every inner source once, within the limit",
  "merge and concat operators subscribe to every inner source exactly once, in arrival order, with never more than the configured number active at a time (one for concat), the next waiting one starting as soon as one completes or is unsubscribed. Every value of every active inner source is delivered exactly once and in its source's order, so concat delivers whole inner sequences one after the other. The output completes exactly when the outer and all inner sources have completed, and any error ends it at once and unsubscribes all remaining inner sources. Once the output has ended no further inner source is subscribed to.",
  ["schedules", "inputs", "configurations"], "every interleaving of outer and inner signals, every concurrency limit, synchronous and asynchronous inner sources",
  "tests have two or three inner sources in fixed orders; the accounting must balance for all interleavings and limits",
  ["rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs", "rx_core_operator_merge_map/src/merge_map_operator.rs", "rx_core_operator_concat_map/src/concat_map_operator.rs", ob("merge"), ob("concat")],
  [("active count and waiting queue", "rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs")],
  ["signals received by the destination", "subscriptions made to inner sources"])
p("S16", "switch keeps only the newest inner source, exhaust only the oldest active one",
  "switch operators unsubscribe the current inner source as soon as a newer one arrives and deliver only values of the newest; exhaust operators ignore every new inner source while one is active and never subscribe to an ignored one. The output completes exactly when the outer source has completed and no inner source is active. Any error ends the output at once and unsubscribes the inner source. Once the output has ended no further inner source is subscribed to.",
  ["schedules", "inputs"], "every interleaving of outer and inner signals, synchronous and asynchronous inner sources",
  "tests switch once or twice; the law is over all interleavings including completion races",
  ["rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs", "rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs"],
  [("inner subscription replaced", "rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs"), ("inner subscription guarded", "rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs")],
  ["signals received by the destination", "subscriptions made to and released from inner sources"])
p("S17", "catch and retry resubscribe exactly as often as documented",
  "catch replaces the first source error by the signals of the recovery source chosen for that error, delivering everything before it unchanged; retry(n) resubscribes to the source after each error at most n times, delivering the values of every attempt in order, and passes on the error of the last attempt. Completion ends the output without resubscribing. After unsubscription no attempt is made, and an attempt that ended is released before the next delivers.",
  ["inputs", "histories", "configurations"], "every sequence of failing attempts, every retry count, synchronous and asynchronous sources",
  "tests use one or two failures; attempt accounting is over all failure sequences and counts",
  [op("catch"), op("retry")],
  [("recovery subscription", op("catch") + " CatchSubscriber::error"), ("attempt counter", op("retry") + " RetrySubscriber")],
  ["signals received by the destination", "subscriptions made to the source"])
p("S18", "Sharing subscribes to the source once and multicasts it",
  "A connectable observable subscribes to its source exactly once per connection, however many subscribers it has, and every subscriber present receives every value exactly once; connecting while connected makes no second source subscription. share connects with the first subscriber and disconnects when the last one leaves. Disconnecting releases the source subscription, and reset options take effect exactly at the documented moment.",
  ["schedules", "histories", "configurations"], "every order of connect, disconnect, subscribe, unsubscribe and source signals, every reset option",
  "tests connect once or twice; single-subscription accounting is over all histories",
  [ob("connectable"), "rx_core_operator_share/src/share_operator.rs"],
  [("connection state", ob("connectable") + " ConnectableObservable::connect")],
  ["subscriptions made to the source", "signals received by every subscriber"])
p("S19", "Source observables emit exactly their documented sequence per subscription",
  "For every subscription, an iterator source emits exactly the items of a fresh iteration, in order, then completes, and stops pulling once the subscriber has closed; just emits its value then completes, empty only completes, throw only errors, closed delivers nothing and is closed at once, never delivers nothing; create and deferred run their factory once per subscription and deliver exactly what it produces. An iterator-on-tick source emits one item every configured number of ticks, in order, completing with the last (everything at once when that number is 0). Every subscription gets its own complete sequence independent of others.",
  ["inputs", "histories"], "every item sequence, every point at which the subscriber closes, any number of subscriptions",
  "tests use fixed short iterators; every length and closing point is universal",
  [ob("iterator"), ob("just"), ob("empty"), ob("throw"), ob("closed"), ob("never"), ob("create"), ob("deferred"), "rx_core_observable_iterator_on_tick/src"],
  [("emission loop with closed check", ob("iterator") + " IteratorObservable::subscribe")],
  ["signals received by the destination"])
p("S20", "observe_on and subscribe_on move signals to the scheduler without changing them",
  "observe_on delivers every value exactly once, in order, on a tick after it was sent, and nothing before the tick; completion and cancellation take effect after the values still waiting, at once when none waits; an error ends the output at once, skipping values still waiting, and never twice. subscribe_on makes the source subscription exactly once, when its scheduled tick arrives after the delay, and makes none when it was unsubscribed or closed before; when the destination closes during it, it is released.",
  ["schedules", "inputs"], "every arrangement of source signals and ticks",
  "tests send one or two values before a tick; order and exactly-once are over all arrangements",
  [op("observe_on"), "rx_core_operator_subscribe_on/src/subscribe_on_operator.rs"],
  [("scheduled delivery", op("observe_on") + " ObserveOnSubscriber"), ("scheduled subscription", "rx_core_operator_subscribe_on/src")],
  ["signals received by the destination after every tick"])
p("S21", "Composition behaves like applying the operators one after the other",
  "A composed chain of operators delivers, for every input, exactly what applying the operators one by one delivers; identity is neutral and an absent optional operator changes nothing. Boxed or erased observables and subscribers and optional wrappers behave exactly like what they wrap. Each subscription to a pipeline starts from fresh operator state.",
  ["inputs", "programs"], "every chain of operators and every input sequence, any number of subscriptions",
  "tests compose a few fixed chains; equivalence is over all programs and inputs",
  ["rx_core_common/src/pipe/pipe_observable.rs", "rx_core_operator_composite/src/composite_operator.rs", "rx_core_common/src/operators/option_operator.rs", "rx_core_operator_identity/src", "rx_core_common/src/observables/erased_observable.rs"],
  [("operator application on subscribe", "rx_core_common/src/pipe/pipe_observable.rs Pipe::subscribe"), ("composition", "rx_core_operator_composite/src/composite_operator.rs CompositeOperator::operator_subscribe")],
  ["signals received by the destination"])
p("S22", "Envelope phases advance exactly by elapsed time and gate state",
  "The adsr operator samples its gate at every tick. An activation starts, at time 0, at the tick that first sees the gate on; from then on its time is exactly the time passed since that tick, and the phase is the one that time dictates: attack for the attack time, then decay for the decay time, then sustain while the gate is on. A release counts from the time of the tick before the one that sees the gate off, lasts the release time and falls from the last level told; then the envelope is idle at time 0. A new trigger, also during a release, starts a new activation at 0. Phases of length zero are skipped. Every change of phase reports the enter flag of each phase passed (sustain only when it is the one entered), none reports stop, and going back reports stop and restart; without a change nothing is reported. Every tick in an activation is told; of the idle ticks only the first one after an activation, or all when configured so; reset_input_on_tick turns the gate off after each tick. A change of the envelope replaces exactly what it names, from then on. Completion, errors and unsubscription take effect at once and nothing is told after them.",
  ["inputs", "schedules", "configurations"], "every envelope, gate history and tick length",
  "tests use a few envelopes and ticks; phase boundaries hold for all durations",
  ["rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs", "rx_core_operator_adsr/src/adsr/adsr_envelope.rs", op("adsr")],
  [("phase computation", "rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs AdsrEnvelopeState::calculate_output")],
  ["phase signals received by the destination"])
p("S23", "Bevy entities, events and resources carry observables faithfully",
  "Subscriptions stored on entities are released exactly once when the entity, component or subscription is removed. Signals observed from events, messages, resources and keyboard input are delivered exactly once, in order, to every live subscription. Nothing is delivered to a despawned subscription.",
  ["schedules", "histories"], "every order of world mutations and updates",
  "tests run short fixed update sequences",
  ["rx_bevy_common/src", "rx_bevy_observable_event/src", "rx_bevy_observable_message/src", "rx_bevy_observable_resource/src", "rx_bevy_observable_keyboard/src"],
  [("subscription components", "rx_bevy_common/src/subscription"), ("world scheduler", "rx_bevy_common/src")],
  ["signals received by observer entities"])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
