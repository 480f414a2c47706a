From 42715d94433d973b56d9e31bf84a572daca0297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:50 +0000
Subject: [PATCH 01/39] fix: adding a teardown to a shared subscription or
 subscriber in use no longer deadlocks

---
 .../src/subscribers/subscriber_shared.rs      | 50 ++++++++++++++++---
 .../src/subscriptions/subscription_shared.rs  | 47 ++++++++++++++---
 2 files changed, 81 insertions(+), 16 deletions(-)

diff --git a/crates/rx_core_common/src/subscribers/subscriber_shared.rs b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
index 916b4bc..14c4d3b 100644
--- a/crates/rx_core_common/src/subscribers/subscriber_shared.rs
+++ b/crates/rx_core_common/src/subscribers/subscriber_shared.rs
@@ -1,11 +1,11 @@
-use std::sync::{Arc, Mutex, MutexGuard, Weak};
+use std::sync::{Arc, Mutex, MutexGuard, TryLockError, Weak};
 
 use rx_core_macro_subscriber_derive::RxSubscriber;
 
 use crate::{
 	LockWithPoisonBehavior, RxObserver, SharedDestination, Signal, Subscriber,
 	SubscriberNotification, SubscriberPushNotificationExtention, SubscriptionClosedFlag,
-	SubscriptionLike, UpgradeableObserver,
+	SubscriptionLike, Teardown, TeardownCollection, UpgradeableObserver,
 };
 
 pub(crate) const SUBSCRIBER_MAX_RECURSION_DEPTH: usize = 10;
@@ -39,6 +39,9 @@ where
 	InError: Signal,
 {
 	pub(crate) deferred_notifications_queue: Vec<SubscriberNotification<In, InError>>,
+	/// Teardowns added while the destination was locked, they are handed over
+	/// once it's accessible again.
+	pub(crate) deferred_teardowns: Vec<Teardown>,
 
 	/// Separate close flag for the real, applied closedness, as non-deferred
 	/// signals only have to respect this.
@@ -76,9 +79,9 @@ where
 	}
 
 	/// The state is considered dirty when there are unprocessed notifications
-	/// in the queue.
+	/// in the queue, or teardowns that were not yet handed over.
 	pub(crate) fn is_dirty(&self) -> bool {
-		!self.deferred_notifications_queue.is_empty()
+		!self.deferred_notifications_queue.is_empty() || !self.deferred_teardowns.is_empty()
 	}
 
 	pub(crate) fn is_unsubscribed(&self) -> bool {
@@ -123,6 +126,7 @@ where
 			observed_unsubscribe: false,
 			observed_error: false,
 			deferred_notifications_queue: Vec::default(),
+			deferred_teardowns: Vec::default(),
 		}
 	}
 }
@@ -147,7 +151,6 @@ where
 #[_rx_core_common_crate(crate)]
 #[rx_in(Destination::In)]
 #[rx_in_error(Destination::InError)]
-#[rx_delegate_teardown_collection]
 #[rx_skip_unsubscribe_on_drop_impl]
 pub struct SharedSubscriber<Destination>
 where
@@ -206,7 +209,7 @@ where
 		D: Subscriber,
 	{
 		for queue_depth in 0..=SUBSCRIBER_MAX_RECURSION_DEPTH {
-			let notifications = {
+			let (notifications, teardowns) = {
 				let mut locked_state = state.lock_ignore_poison();
 
 				// Infinite loop protection
@@ -216,14 +219,17 @@ where
 					)
 				}
 
-				if locked_state.deferred_notifications_queue.is_empty() {
+				if !locked_state.is_dirty() {
 					break;
 				}
 
 				// Don't drain until the above checks have happened to not drop
 				// un-applied notifications.
 				// In case that panic above is no longer a panic.
-				locked_state.drain_notification_queue()
+				(
+					locked_state.drain_notification_queue(),
+					std::mem::take(&mut locked_state.deferred_teardowns),
+				)
 			};
 
 			// Each closedness check acquires a fresh lock for up-to-date
@@ -241,6 +247,10 @@ where
 					state.lock_ignore_poison().closed_flag.close();
 				}
 			}
+
+			for teardown in teardowns.into_iter() {
+				subscriber.add_teardown(teardown);
+			}
 		}
 	}
 
@@ -392,6 +402,30 @@ where
 	}
 }
 
+impl<Destination> TeardownCollection for SharedSubscriber<Destination>
+where
+	Destination: 'static + Subscriber + Send + Sync,
+{
+	fn add_teardown(&mut self, teardown: Teardown) {
+		match self.shared_destination.try_lock() {
+			Ok(mut destination) => destination.add_teardown(teardown),
+			Err(TryLockError::Poisoned(poison_error)) => {
+				teardown.execute();
+				poison_error.into_inner().unsubscribe();
+			}
+			// Already in use, most likely by an outer call of the same thread,
+			// blocking here would deadlock.
+			Err(TryLockError::WouldBlock) => self
+				.deferred_state
+				.lock_ignore_poison()
+				.deferred_teardowns
+				.push(teardown),
+		}
+
+		self.try_apply_deferred();
+	}
+}
+
 impl<Destination> SharedDestination<Destination> for SharedSubscriber<Destination>
 where
 	Destination: 'static + Subscriber + Send + Sync,
diff --git a/crates/rx_core_common/src/subscriptions/subscription_shared.rs b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
index 23bf075..34587df 100644
--- a/crates/rx_core_common/src/subscriptions/subscription_shared.rs
+++ b/crates/rx_core_common/src/subscriptions/subscription_shared.rs
@@ -1,11 +1,11 @@
-use std::sync::{Arc, Mutex, MutexGuard};
+use std::sync::{Arc, Mutex, MutexGuard, TryLockError};
 
 use rx_core_macro_subscription_derive::RxSubscription;
 
 use crate::{
 	LockWithPoisonBehavior, SubscriptionClosedFlag, SubscriptionData, SubscriptionLike,
 	SubscriptionLikePushNotificationExtention, SubscriptionNotification, SubscriptionWithTeardown,
-	TeardownCollectionExtension,
+	Teardown, TeardownCollection, TeardownCollectionExtension,
 };
 
 pub(crate) const SUBSCRIPTION_MAX_RECURSION_DEPTH: usize = 10;
@@ -16,6 +16,9 @@ pub(crate) struct SubscriptionUnsubscribeLockError;
 #[derive(Debug)]
 struct SubscriptionDeferredState {
 	pub(crate) deferred_notifications_queue: Vec<SubscriptionNotification>,
+	/// Teardowns added while the subscription was locked, they are handed over
+	/// once it's accessible again.
+	pub(crate) deferred_teardowns: Vec<Teardown>,
 
 	/// Separate close flag for the real, applied closedness, as non-deferred
 	/// signals only have to respect this.
@@ -45,9 +48,9 @@ impl SubscriptionDeferredState {
 	}
 
 	/// The state is considered dirty when there are unprocessed notifications
-	/// in the queue.
+	/// in the queue, or teardowns that were not yet handed over.
 	pub(crate) fn is_dirty(&self) -> bool {
-		!self.deferred_notifications_queue.is_empty()
+		!self.deferred_notifications_queue.is_empty() || !self.deferred_teardowns.is_empty()
 	}
 
 	pub(crate) fn is_unsubscribed(&self) -> bool {
@@ -82,13 +85,13 @@ impl Default for SubscriptionDeferredState {
 			closed_flag: false.into(),
 			observed_unsubscribe: false,
 			deferred_notifications_queue: Vec::default(),
+			deferred_teardowns: Vec::default(),
 		}
 	}
 }
 
 #[derive(RxSubscription, Default, Clone, Debug)]
 #[_rx_core_common_crate(crate)]
-#[rx_delegate_teardown_collection]
 #[rx_skip_unsubscribe_on_drop_impl] // It's shared
 pub struct SharedSubscription {
 	#[destination]
@@ -123,7 +126,7 @@ impl SharedSubscription {
 		subscriber: &mut MutexGuard<'_, SubscriptionData>,
 	) {
 		for queue_depth in 0..=SUBSCRIPTION_MAX_RECURSION_DEPTH {
-			let notifications = {
+			let (notifications, teardowns) = {
 				let mut locked_state = state.lock_ignore_poison();
 
 				// Infinite loop protection
@@ -133,14 +136,17 @@ impl SharedSubscription {
 					)
 				}
 
-				if locked_state.deferred_notifications_queue.is_empty() {
+				if !locked_state.is_dirty() {
 					break;
 				}
 
 				// Don't drain until the above checks have happened to not drop
 				// un-applied notifications.
 				// In case that panic above is no longer a panic.
-				locked_state.drain_notification_queue()
+				(
+					locked_state.drain_notification_queue(),
+					std::mem::take(&mut locked_state.deferred_teardowns),
+				)
 			};
 
 			// Each closedness check acquires a fresh lock for up-to-date
@@ -158,6 +164,10 @@ impl SharedSubscription {
 					state.lock_ignore_poison().closed_flag.close();
 				}
 			}
+
+			for teardown in teardowns.into_iter() {
+				subscriber.add_teardown(teardown);
+			}
 		}
 	}
 
@@ -209,6 +219,27 @@ impl SubscriptionLike for SharedSubscription {
 	}
 }
 
+impl TeardownCollection for SharedSubscription {
+	fn add_teardown(&mut self, teardown: Teardown) {
+		match self.subscription.try_lock() {
+			Ok(mut subscription) => subscription.add_teardown(teardown),
+			Err(TryLockError::Poisoned(poison_error)) => {
+				teardown.execute();
+				poison_error.into_inner().unsubscribe();
+			}
+			// Already in use, most likely by an outer call of the same thread,
+			// blocking here would deadlock.
+			Err(TryLockError::WouldBlock) => self
+				.deferred_state
+				.lock_ignore_poison()
+				.deferred_teardowns
+				.push(teardown),
+		}
+
+		self.try_apply_deferred();
+	}
+}
+
 impl Drop for SharedSubscription {
 	fn drop(&mut self) {
 		// Don't do anything, it's shared
-- 
2.43.0


From 8d704ce966dc97880cfd2a6bc4a8bc4e6aea5db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:06 +0000
Subject: [PATCH 02/39] fix: unsubscribing concat and merge operators no longer
 subscribes to queued inner observables

---
 .../src/concurrent_subscriber.rs                       | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
index 4c13b47..b88a107 100644
--- a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
@@ -38,7 +38,9 @@ where
 {
 	pub fn new(destination: Destination, concurrency_limit: NonZero<usize>) -> Self {
 		let mut shared_destination = SharedSubscriber::new(destination);
-		let state = Arc::new(Mutex::new(HigherOrderSubscriberState::default()));
+		let state = Arc::new(Mutex::new(HigherOrderSubscriberState::<
+			ConcurrentSubscriberQueue<InnerObservable>,
+		>::default()));
 		let inner_subscriptions = Arc::new(Mutex::new(Slab::<SubscriptionData>::new()));
 		let mut outer_teardown = SharedSubscription::default();
 
@@ -46,6 +48,12 @@ where
 		let state_on_unsubscribe = state.clone();
 
 		outer_teardown.add_fn(move || {
+			// Unsubscribing the active inner subscriptions must not make room
+			// for the ones still waiting in the queue.
+			let queue =
+				std::mem::take(&mut state_on_unsubscribe.lock_ignore_poison().state.queue);
+			drop(queue);
+
 			let inner_subscriptions = inner_subscriptions_on_unsubscribe
 				.lock_ignore_poison()
 				.drain()
-- 
2.43.0


From 75b49f467512a2e7786d67b6fffc264d73c0bbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:06 +0000
Subject: [PATCH 03/39] fix: with_latest_from releases its inner subscription
 once completed or errored

---
 .../src/with_latest_from_subscriber.rs                          | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs b/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs
index 1833da2..73a73e1 100644
--- a/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs
+++ b/crates/rx_core_operator_with_latest_from/src/with_latest_from_subscriber.rs
@@ -76,11 +76,13 @@ where
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
 		self.destination.error(error);
+		self.inner_subscription.unsubscribe();
 	}
 
 	#[inline]
 	fn complete(&mut self) {
 		self.destination.complete();
+		self.inner_subscription.unsubscribe();
 	}
 }
 
-- 
2.43.0


From c92929dba2dc9fdfe51a6eda48dc096ee68e9803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:06 +0000
Subject: [PATCH 04/39] fix: subscriptions of erased observables report
 closedness and run teardowns on terminal signals

---
 .../rx_core_common/src/observables/erased_observable.rs  | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_common/src/observables/erased_observable.rs b/crates/rx_core_common/src/observables/erased_observable.rs
index 71cc8b8..cd8d774 100644
--- a/crates/rx_core_common/src/observables/erased_observable.rs
+++ b/crates/rx_core_common/src/observables/erased_observable.rs
@@ -4,7 +4,7 @@ use std::{
 };
 
 use crate::{
-	ErasedSubscriber, Observable, PhantomInvariant, Signal, Subscriber, SubscriptionData,
+	ErasedSubscriber, ErasedSubscription, Observable, PhantomInvariant, Signal, Subscriber,
 	UpgradeableObserver,
 };
 use rx_core_macro_observable_derive::RxObservable;
@@ -19,7 +19,7 @@ where
 	OutError: Signal,
 {
 	subscribe:
-		Arc<Mutex<dyn FnMut(ErasedSubscriber<Out, OutError>) -> SubscriptionData + Send + Sync>>,
+		Arc<Mutex<dyn FnMut(ErasedSubscriber<Out, OutError>) -> ErasedSubscription + Send + Sync>>,
 	_phantom_data: PhantomInvariant<(Out, OutError)>,
 }
 
@@ -34,8 +34,7 @@ where
 	{
 		ErasedObservable {
 			subscribe: Arc::new(Mutex::new(move |destination| {
-				let subscription = observable.subscribe(destination);
-				SubscriptionData::new_with_teardown(subscription.into())
+				ErasedSubscription::new(observable.subscribe(destination))
 			})),
 			_phantom_data: PhantomData,
 		}
@@ -61,7 +60,7 @@ where
 	OutError: Signal,
 {
 	type Subscription<Destination>
-		= SubscriptionData
+		= ErasedSubscription
 	where
 		Destination: 'static + Subscriber<In = Self::Out, InError = Self::OutError>;
 
-- 
2.43.0


From 44f7359ec1a8e63156c5b987f59421ac2c0d41e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:36 +0000
Subject: [PATCH 05/39] fix: zip ends once one input has ended and its values
 are used up, even if the other still has queued values

---
 crates/rx_core_observable_zip/src/zip_subscriber.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/rx_core_observable_zip/src/zip_subscriber.rs b/crates/rx_core_observable_zip/src/zip_subscriber.rs
index b8537d2..4cff8b3 100644
--- a/crates/rx_core_observable_zip/src/zip_subscriber.rs
+++ b/crates/rx_core_observable_zip/src/zip_subscriber.rs
@@ -74,11 +74,11 @@ where
 			.or_else(|| self.o2_queue.take_error().map(|error| error.into()))
 	}
 
+	/// A queue is only completed or closed once there are no values left in it,
+	/// and then there can be no more pairs, whatever the other queue still has.
 	fn try_complete(&mut self) {
 		if !self.destination.is_closed()
-			&& ((self.o1_queue.is_completed() && self.o2_queue.is_completed())
-				|| (self.o1_queue.is_completed() && self.o2_queue.is_empty())
-				|| (self.o1_queue.is_empty() && self.o2_queue.is_completed()))
+			&& (self.o1_queue.is_completed() || self.o2_queue.is_completed())
 		{
 			self.destination.complete();
 		}
@@ -86,9 +86,7 @@ where
 
 	fn try_unsubscribe(&mut self) {
 		if !self.destination.is_closed()
-			&& ((self.o1_queue.is_closed() && self.o2_queue.is_closed())
-				|| (self.o1_queue.is_empty() && self.o2_queue.is_closed())
-				|| (self.o1_queue.is_closed() && self.o2_queue.is_empty()))
+			&& (self.o1_queue.is_closed() || self.o2_queue.is_closed())
 		{
 			self.destination.unsubscribe();
 		}
-- 
2.43.0


From fd11bd123eb3bc578df201b816b9fe0a6b105e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:59 +0000
Subject: [PATCH 06/39] fix: do not hold the publish subject's state lock while
 notifying a late subscriber

---
 .../src/publish_subject.rs                    | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index 095eb93..74f5b8c 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -117,13 +117,20 @@ where
 
 		let mut subscriber = destination.upgrade();
 
-		{
+		// The state must not be locked while the subscriber is notified, as it
+		// could interact with this subject.
+		let (observed_error, is_completed) = {
 			let state = self.deferred_state.lock_ignore_poison();
-			if let Some(error) = state.observed_error.clone() {
-				subscriber.error(error);
-			} else if state.observed_state.is_completed() {
-				subscriber.complete();
-			}
+			(
+				state.observed_error.clone(),
+				state.observed_state.is_completed(),
+			)
+		};
+
+		if let Some(error) = observed_error {
+			subscriber.error(error);
+		} else if is_completed {
+			subscriber.complete();
 		}
 
 		if self.is_closed() {
-- 
2.43.0


From 648b57623d4a2f095d2986c31d94496ff76f0d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:25 +0000
Subject: [PATCH 07/39] fix: deliver what a teardown sent into a publish
 subject while unsubscribing

---
 crates/rx_core_subject_publish/src/multicast.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/rx_core_subject_publish/src/multicast.rs b/crates/rx_core_subject_publish/src/multicast.rs
index 039c7f1..25c24fb 100644
--- a/crates/rx_core_subject_publish/src/multicast.rs
+++ b/crates/rx_core_subject_publish/src/multicast.rs
@@ -280,6 +280,9 @@ where
 
 				subscribers.unsubscribe_by_id(id);
 
+				// Then whatever the teardowns of that subscriber deferred
+				Self::apply_notification_queue(self.deferred_state.clone(), &mut subscribers);
+
 				Ok(())
 			}
 			Err(_) => Err(MulticastUnsubscribeLockError),
-- 
2.43.0


From f63636e448100e5544997373d5789a4708768827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 08/39] fix: ignore values sent into a closed stateful subject

A behavior, replay or async subject kept recording values after it had
completed, errored or been unsubscribed, and gave them to subscribers that
came after the end.
---
 crates/rx_core_subject_async/src/async_subject.rs       | 4 ++++
 crates/rx_core_subject_behavior/src/behavior_subject.rs | 7 ++++++-
 crates/rx_core_subject_replay/src/replay_subject.rs     | 7 ++++++-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_subject_async/src/async_subject.rs b/crates/rx_core_subject_async/src/async_subject.rs
index f38c232..5de222f 100644
--- a/crates/rx_core_subject_async/src/async_subject.rs
+++ b/crates/rx_core_subject_async/src/async_subject.rs
@@ -85,6 +85,10 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
+		if self.subject.is_closed() {
+			return;
+		}
+
 		let mut value = self.value.lock_ignore_poison();
 
 		let next_value = if let Some(current) = value.take() {
diff --git a/crates/rx_core_subject_behavior/src/behavior_subject.rs b/crates/rx_core_subject_behavior/src/behavior_subject.rs
index 73da64d..c6a1174 100644
--- a/crates/rx_core_subject_behavior/src/behavior_subject.rs
+++ b/crates/rx_core_subject_behavior/src/behavior_subject.rs
@@ -1,7 +1,8 @@
 use std::sync::{Arc, Mutex};
 
 use rx_core_common::{
-	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, UpgradeableObserver,
+	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike,
+	UpgradeableObserver,
 };
 use rx_core_macro_subject_derive::RxSubject;
 use rx_core_subject_publish::{internal::MulticastSubscription, subject::PublishSubject};
@@ -62,6 +63,10 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
+		if self.subject.is_closed() {
+			return;
+		}
+
 		*self.value.lock_ignore_poison() = next.clone();
 		self.subject.next(next);
 	}
diff --git a/crates/rx_core_subject_replay/src/replay_subject.rs b/crates/rx_core_subject_replay/src/replay_subject.rs
index 654e2da..c37af77 100644
--- a/crates/rx_core_subject_replay/src/replay_subject.rs
+++ b/crates/rx_core_subject_replay/src/replay_subject.rs
@@ -2,7 +2,8 @@ use std::sync::{Arc, Mutex};
 
 use ringbuffer::{ConstGenericRingBuffer, RingBuffer};
 use rx_core_common::{
-	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, UpgradeableObserver,
+	LockWithPoisonBehavior, Never, Observable, RxObserver, Signal, Subscriber, SubscriptionLike,
+	UpgradeableObserver,
 };
 use rx_core_macro_subject_derive::RxSubject;
 use rx_core_subject_publish::{internal::MulticastSubscription, subject::PublishSubject};
@@ -62,6 +63,10 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
+		if self.subject.is_closed() {
+			return;
+		}
+
 		self.values.lock_ignore_poison().enqueue(next.clone());
 
 		self.subject.next(next);
-- 
2.43.0


From 383c041de8ead0ae828b1c1c6b400438795699e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:17 +0000
Subject: [PATCH 09/39] fix: give an async subject's result only to subscribers
 of a completed one

A subscriber that came after the subject was only unsubscribed was given the
value accumulated so far, although the subject never completed.
---
 crates/rx_core_subject_async/src/async_subject.rs     | 6 ++----
 crates/rx_core_subject_publish/src/publish_subject.rs | 8 ++++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/rx_core_subject_async/src/async_subject.rs b/crates/rx_core_subject_async/src/async_subject.rs
index 5de222f..0d118ea 100644
--- a/crates/rx_core_subject_async/src/async_subject.rs
+++ b/crates/rx_core_subject_async/src/async_subject.rs
@@ -137,12 +137,10 @@ where
 	{
 		let mut destination = destination.upgrade();
 
-		if self.subject.is_closed() {
+		if self.subject.is_completed() {
 			let value = self.value.lock_ignore_poison().clone();
 
-			if !self.subject.is_errored()
-				&& let Some(next) = value
-			{
+			if let Some(next) = value {
 				destination.next(next);
 			}
 			// The multicast returns pre-closed subscriptions, and unsubscribes
diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index 74f5b8c..9f4515d 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -93,6 +93,14 @@ where
 		let state = self.deferred_state.lock_ignore_poison();
 		state.observed_error.is_some()
 	}
+
+	/// Whether this subject observed a completion, an unsubscribed subject
+	/// is closed but not completed.
+	#[inline]
+	pub fn is_completed(&self) -> bool {
+		let state = self.deferred_state.lock_ignore_poison();
+		state.observed_state.is_completed()
+	}
 }
 
 impl<In, InError> Observable for PublishSubject<In, InError>
-- 
2.43.0


From a4f6cd5833d7a2186c42d3d6d891188d50766bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:15 +0000
Subject: [PATCH 10/39] fix: settle an async subject's result before emitting
 it

A subscriber that completed the subject again, sent a value, or errored it
while receiving the result made the subject emit the result twice or change
it for later subscribers; one that subscribed then missed the result.
---
 .../src/async_subject.rs                      | 24 +++++++++++++++++--
 .../src/publish_subject.rs                    |  8 -------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/crates/rx_core_subject_async/src/async_subject.rs b/crates/rx_core_subject_async/src/async_subject.rs
index 0d118ea..98d3ab3 100644
--- a/crates/rx_core_subject_async/src/async_subject.rs
+++ b/crates/rx_core_subject_async/src/async_subject.rs
@@ -40,6 +40,9 @@ where
 	subject: PublishSubject<In, InError>,
 	reducer: Reducer,
 	value: Arc<Mutex<Option<In>>>,
+	/// Set when the result is about to be emitted, nothing observed after
+	/// that, for example from a subscriber receiving the result, can change it.
+	is_settled: Arc<Mutex<bool>>,
 }
 
 impl<In, InError> Default for AsyncSubject<In, InError, DefaultReducer<In>>
@@ -53,6 +56,7 @@ where
 			reducer: default_reducer::<In>,
 			subject: PublishSubject::default(),
 			value: Arc::new(Mutex::new(None)),
+			is_settled: Arc::new(Mutex::new(false)),
 		}
 	}
 }
@@ -69,6 +73,7 @@ where
 			reducer,
 			subject: PublishSubject::default(),
 			value: Arc::new(Mutex::new(None)),
+			is_settled: Arc::new(Mutex::new(false)),
 		}
 	}
 
@@ -76,6 +81,11 @@ where
 	pub fn value(&self) -> Option<In> {
 		self.value.lock_ignore_poison().clone()
 	}
+
+	#[inline]
+	fn is_settled(&self) -> bool {
+		*self.is_settled.lock_ignore_poison()
+	}
 }
 
 impl<In, InError, Reducer> RxObserver for AsyncSubject<In, InError, Reducer>
@@ -85,7 +95,7 @@ where
 	InError: Signal + Clone,
 {
 	fn next(&mut self, next: In) {
-		if self.subject.is_closed() {
+		if self.is_settled() || self.subject.is_closed() {
 			return;
 		}
 
@@ -102,11 +112,21 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
+		if self.is_settled() {
+			return;
+		}
+
 		self.subject.error(error);
 	}
 
 	#[inline]
 	fn complete(&mut self) {
+		if self.is_settled() || self.subject.is_closed() {
+			return;
+		}
+
+		*self.is_settled.lock_ignore_poison() = true;
+
 		let value = self.value.lock_ignore_poison().clone();
 
 		if let Some(value) = value {
@@ -137,7 +157,7 @@ where
 	{
 		let mut destination = destination.upgrade();
 
-		if self.subject.is_completed() {
+		if self.is_settled() {
 			let value = self.value.lock_ignore_poison().clone();
 
 			if let Some(next) = value {
diff --git a/crates/rx_core_subject_publish/src/publish_subject.rs b/crates/rx_core_subject_publish/src/publish_subject.rs
index 9f4515d..74f5b8c 100644
--- a/crates/rx_core_subject_publish/src/publish_subject.rs
+++ b/crates/rx_core_subject_publish/src/publish_subject.rs
@@ -93,14 +93,6 @@ where
 		let state = self.deferred_state.lock_ignore_poison();
 		state.observed_error.is_some()
 	}
-
-	/// Whether this subject observed a completion, an unsubscribed subject
-	/// is closed but not completed.
-	#[inline]
-	pub fn is_completed(&self) -> bool {
-		let state = self.deferred_state.lock_ignore_poison();
-		state.observed_state.is_completed()
-	}
 }
 
 impl<In, InError> Observable for PublishSubject<In, InError>
-- 
2.43.0


From 3ea7be90f0ec112978564307ba8b867075629840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:15 +0000
Subject: [PATCH 11/39] fix: cancelling invoked work drops its own pending
 invocations only

The filter was inverted: it kept the invocations of the cancelled work and
dropped those of every other one.
---
 crates/rx_core_scheduler_ticking/src/ticking_executor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
index 7e22a44..74278b1 100644
--- a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
+++ b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
@@ -173,7 +173,7 @@ where
 				ScheduledWorkAction::CancelInvoked(cancelled_invocation_id) => {
 					self.invokable_work.remove(&cancelled_invocation_id);
 					self.invoked
-						.retain(|invoked_id| invoked_id == &cancelled_invocation_id);
+						.retain(|invoked_id| invoked_id != &cancelled_invocation_id);
 				}
 				ScheduledWorkAction::Cancel(cancelled_id) => {
 					if let Some(work_ids) = self.cancellation_map.remove(&cancelled_id) {
-- 
2.43.0


From 621cb32c078c923675cb9e77c371c85bfda82213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:44 +0000
Subject: [PATCH 12/39] fix: repeating work with an interval of zero no longer
 hangs the tick

An interval of zero length elapsed endlessly, it now runs as often as the
limit per tick allows.
---
 .../src/work/ticked_work_repeating.rs                        | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs b/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs
index ed0695a..7ed6641 100644
--- a/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs
+++ b/crates/rx_core_scheduler_ticking/src/work/ticked_work_repeating.rs
@@ -93,6 +93,11 @@ where
 				self.start_immediately = false;
 			}
 			executions += 1;
+
+			// An interval of zero length would elapse endlessly within a tick
+			if self.interval.is_zero() && executions >= self.max_work_per_tick.into() {
+				break;
+			}
 		}
 		work_result
 	}
-- 
2.43.0


From 8a7788886e64d7f16649f587b389149b8b53c090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:58 +0000
Subject: [PATCH 13/39] fix: work with a very long delay no longer panics on
 the next tick

Adding the delay to the time it was scheduled on overflowed when the delay
was close to Duration::MAX, it saturates now.
---
 crates/rx_core_scheduler_ticking/src/tick.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_scheduler_ticking/src/tick.rs b/crates/rx_core_scheduler_ticking/src/tick.rs
index 72360db..2d9bd9c 100644
--- a/crates/rx_core_scheduler_ticking/src/tick.rs
+++ b/crates/rx_core_scheduler_ticking/src/tick.rs
@@ -43,14 +43,14 @@ impl Add<Duration> for Tick {
 
 	fn add(self, rhs: Duration) -> Self::Output {
 		Tick {
-			now: self.now + rhs,
+			now: self.now.saturating_add(rhs),
 		}
 	}
 }
 
 impl AddAssign<Duration> for Tick {
 	fn add_assign(&mut self, rhs: Duration) {
-		self.now += rhs;
+		self.now = self.now.saturating_add(rhs);
 	}
 }
 
-- 
2.43.0


From b85092f37c0b695ab73de7a1072583864ae4ff85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:00 +0000
Subject: [PATCH 14/39] fix: throttle_time no longer loses the trailing value
 when a tick overshoots the window

---
 .../src/throttle_time_subscriber.rs           | 41 +++++++------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
index 381f2f4..fabc5d7 100644
--- a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
+++ b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
@@ -96,35 +96,24 @@ where
 						return WorkResult::Pending;
 					}
 
-					if deadline < state.last_tick_time {
-						state.throttle_deadline = None;
-
-						(
-							false,
-							None,
-							state.upstream_state.is_completed(),
-							state.upstream_state.is_closed_but_not_completed(),
-						)
+					let emit_value = if options.output_behavior.emits_trailing() {
+						state.last_value.take()
 					} else {
-						let emit_value = if options.output_behavior.emits_trailing() {
-							state.last_value.take()
-						} else {
-							state.last_value = None;
-							None
-						};
-
-						let continue_for_cooldown = emit_value.is_some();
-						if !continue_for_cooldown {
-							state.throttle_deadline = None;
-						}
+						state.last_value = None;
+						None
+					};
 
-						(
-							continue_for_cooldown,
-							emit_value,
-							state.upstream_state.is_completed(),
-							state.upstream_state.is_closed_but_not_completed(),
-						)
+					let continue_for_cooldown = emit_value.is_some();
+					if !continue_for_cooldown {
+						state.throttle_deadline = None;
 					}
+
+					(
+						continue_for_cooldown,
+						emit_value,
+						state.upstream_state.is_completed(),
+						state.upstream_state.is_closed_but_not_completed(),
+					)
 				};
 
 				if let Some(value) = emit_value {
-- 
2.43.0


From 160820f24ec506654e0d99a7416943fcdb6688d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:01 +0000
Subject: [PATCH 15/39] fix: throttle_time no longer panics when it ends
 earlier in the tick its work is in

---
 .../src/throttle_time_subscriber.rs                        | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
index fabc5d7..1616318 100644
--- a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
+++ b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
@@ -88,9 +88,10 @@ where
 					let mut state = state.lock_ignore_poison();
 					state.last_tick_time = tick.now();
 
-					let deadline = state
-						.throttle_deadline
-						.expect("scheduled work always has an active throttle deadline");
+					let Some(deadline) = state.throttle_deadline else {
+						// The throttle was cleared while this work was already being ticked
+						return WorkResult::Done;
+					};
 
 					if state.last_tick_time < deadline {
 						return WorkResult::Pending;
-- 
2.43.0


From b0d701b7ed88919934eed689026445b56871d27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:01 +0000
Subject: [PATCH 16/39] fix: throttle_time without trailing values no longer
 stores or panics on one with a zero duration

---
 .../src/throttle_time_subscriber.rs                       | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
index 1616318..13f9bbc 100644
--- a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
+++ b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
@@ -174,11 +174,9 @@ where
 				Some(_) => {
 					// Throttle over, start new window
 					state.throttle_deadline = Some(state.last_tick_time + self.options.duration);
-					debug_assert!(
-						self.options.output_behavior.emits_trailing(),
-						"cooldown can only occur when trailing is enabled"
-					);
-					state.last_value = Some(next);
+					if self.options.output_behavior.emits_trailing() {
+						state.last_value = Some(next);
+					}
 				}
 			};
 			was_idle
-- 
2.43.0


From f8a6512cfa58100dfac5b660bf8f7b74cb4e66a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:01 +0000
Subject: [PATCH 17/39] fix: throttle_time does not hold its state while
 emitting the leading value

---
 .../src/throttle_time_subscriber.rs                   | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
index 13f9bbc..8eed19d 100644
--- a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
+++ b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
@@ -152,15 +152,16 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
-		let was_idle = {
+		let (was_idle, leading_value) = {
 			let mut state = self.state.lock_ignore_poison();
 			let was_idle = state.throttle_deadline.is_none();
+			let mut leading_value = None;
 			match state.throttle_deadline {
 				None => {
 					// Idle
 					state.throttle_deadline = Some(state.last_tick_time + self.options.duration);
 					if self.options.output_behavior.emits_leading() {
-						self.destination.next(next);
+						leading_value = Some(next);
 					} else if self.options.output_behavior.emits_trailing() {
 						state.last_value = Some(next);
 					};
@@ -179,12 +180,16 @@ where
 					}
 				}
 			};
-			was_idle
+			(was_idle, leading_value)
 		};
 
 		if was_idle {
 			self.schedule_throttle_work();
 		}
+
+		if let Some(leading_value) = leading_value {
+			self.destination.next(leading_value);
+		}
 	}
 
 	#[inline]
-- 
2.43.0


From a6eb22a9eac6e91da8d595151df8d396d7127c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:01 +0000
Subject: [PATCH 18/39] fix: throttle_time does not overflow with durations
 that never elapse

---
 .../src/throttle_time_subscriber.rs                         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
index 8eed19d..d49d2c5 100644
--- a/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
+++ b/crates/rx_core_operator_throttle_time/src/throttle_time_subscriber.rs
@@ -159,7 +159,8 @@ where
 			match state.throttle_deadline {
 				None => {
 					// Idle
-					state.throttle_deadline = Some(state.last_tick_time + self.options.duration);
+					state.throttle_deadline =
+						Some(state.last_tick_time.saturating_add(self.options.duration));
 					if self.options.output_behavior.emits_leading() {
 						leading_value = Some(next);
 					} else if self.options.output_behavior.emits_trailing() {
@@ -174,7 +175,8 @@ where
 				}
 				Some(_) => {
 					// Throttle over, start new window
-					state.throttle_deadline = Some(state.last_tick_time + self.options.duration);
+					state.throttle_deadline =
+						Some(state.last_tick_time.saturating_add(self.options.duration));
 					if self.options.output_behavior.emits_trailing() {
 						state.last_value = Some(next);
 					}
-- 
2.43.0


From 4e9d3f8b00d9cb7d4f2192f9f4e6b93994818bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 19/39] fix: debounce_time keeps a value pending that was
 accepted while an earlier one is emitted

---
 .../src/debounce_time_subscriber.rs           | 36 +++++++++++++------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs b/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
index 9b1d943..aa272af 100644
--- a/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
+++ b/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
@@ -29,7 +29,10 @@ where
 	cancellation_id: WorkCancellationId,
 	upstream_completed: Arc<AtomicBool>,
 	upstream_unsubscribed: Arc<AtomicBool>,
-	scheduled_work_counter: Arc<AtomicUsize>,
+	/// Identifies each scheduled work, never zero
+	last_work_id: usize,
+	/// The work that will emit the most recent value, zero if there is none
+	pending_work_id: Arc<AtomicUsize>,
 }
 
 impl<Destination, S> DebounceTimeSubscriber<Destination, S>
@@ -54,7 +57,8 @@ where
 			cancellation_id,
 			upstream_completed: Arc::new(AtomicBool::new(false)),
 			upstream_unsubscribed: Arc::new(AtomicBool::new(false)),
-			scheduled_work_counter: Arc::new(AtomicUsize::new(0)),
+			last_work_id: 0,
+			pending_work_id: Arc::new(AtomicUsize::new(0)),
 		}
 	}
 }
@@ -67,26 +71,36 @@ where
 	#[inline]
 	fn next(&mut self, next: Self::In) {
 		let destination = self.destination.clone();
-		let scheduled_work_counter = self.scheduled_work_counter.clone();
+		let pending_work_id = self.pending_work_id.clone();
 		let upstream_completed = self.upstream_completed.clone();
 		let upstream_unsubscribed = self.upstream_unsubscribed.clone();
 
 		let mut scheduler = self.scheduler.lock();
 		scheduler.cancel(self.cancellation_id);
-		self.scheduled_work_counter.store(1, Ordering::Relaxed);
+		self.last_work_id = self.last_work_id.checked_add(1).unwrap_or(1);
+		let work_id = self.last_work_id;
+		self.pending_work_id.store(work_id, Ordering::Relaxed);
 		scheduler.schedule_delayed_work(
 			move |_, _| {
+				// A newer value may have been scheduled during this tick, that
+				// has to remain pending
+				let _ = pending_work_id.compare_exchange(
+					work_id,
+					0,
+					Ordering::Relaxed,
+					Ordering::Relaxed,
+				);
+
 				let mut destination = destination.lock();
 				if !destination.is_closed() {
 					destination.next(next);
 				}
 
-				let previous_work_counter_before_sub =
-					scheduled_work_counter.swap(0, Ordering::Relaxed);
+				let has_pending_work = pending_work_id.load(Ordering::Relaxed) != 0;
 
 				// try complete
 				if upstream_completed.load(Ordering::Relaxed)
-					&& previous_work_counter_before_sub == 1
+					&& !has_pending_work
 					&& !destination.is_closed()
 				{
 					destination.complete();
@@ -95,7 +109,7 @@ where
 
 				// try unsubscribe
 				if upstream_unsubscribed.load(Ordering::Relaxed)
-					&& previous_work_counter_before_sub == 1
+					&& !has_pending_work
 					&& !destination.is_closed()
 				{
 					destination.unsubscribe();
@@ -109,7 +123,7 @@ where
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
 		self.upstream_unsubscribed.store(true, Ordering::Relaxed);
-		self.scheduled_work_counter.store(0, Ordering::Relaxed);
+		self.pending_work_id.store(0, Ordering::Relaxed);
 		self.scheduler.lock().cancel(self.cancellation_id);
 		self.destination.error(error);
 	}
@@ -121,7 +135,7 @@ where
 		self.upstream_unsubscribed.store(true, Ordering::Relaxed);
 
 		// if there aren't any, complete immediately
-		if self.scheduled_work_counter.load(Ordering::Relaxed) == 0 {
+		if self.pending_work_id.load(Ordering::Relaxed) == 0 {
 			self.destination.complete();
 		}
 	}
@@ -143,7 +157,7 @@ where
 			self.upstream_unsubscribed.store(true, Ordering::Relaxed);
 
 			// if there aren't any, unsubscribe immediately
-			if self.scheduled_work_counter.load(Ordering::Relaxed) == 0 {
+			if self.pending_work_id.load(Ordering::Relaxed) == 0 {
 				self.destination.unsubscribe();
 			}
 		}
-- 
2.43.0


From b0d882706e63a17697ce1054a355d5052200e18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 20/39] fix: debounce_time no longer loses an error raised
 while it emits

---
 .../src/debounce_time_subscriber.rs                            | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs b/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
index aa272af..9349e0f 100644
--- a/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
+++ b/crates/rx_core_operator_debounce_time/src/debounce_time_subscriber.rs
@@ -70,7 +70,7 @@ where
 {
 	#[inline]
 	fn next(&mut self, next: Self::In) {
-		let destination = self.destination.clone();
+		let mut destination = self.destination.clone();
 		let pending_work_id = self.pending_work_id.clone();
 		let upstream_completed = self.upstream_completed.clone();
 		let upstream_unsubscribed = self.upstream_unsubscribed.clone();
@@ -91,7 +91,6 @@ where
 					Ordering::Relaxed,
 				);
 
-				let mut destination = destination.lock();
 				if !destination.is_closed() {
 					destination.next(next);
 				}
-- 
2.43.0


From 7be6d4235c943b8ba61374ea4d8a6808f062391f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:33 +0000
Subject: [PATCH 21/39] fix: a full notification queue drops its oldest value,
 also when its end is already queued

---
 crates/rx_core_notification_store/src/notification_queue.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/rx_core_notification_store/src/notification_queue.rs b/crates/rx_core_notification_store/src/notification_queue.rs
index e3829be..35d1113 100644
--- a/crates/rx_core_notification_store/src/notification_queue.rs
+++ b/crates/rx_core_notification_store/src/notification_queue.rs
@@ -104,7 +104,6 @@ where
 		if let Some((oldest_next_index, _)) = self
 			.queue
 			.iter()
-			.rev()
 			.enumerate()
 			.find(|(_, n)| matches!(n, SubscriberNotification::Next(_)))
 		{
-- 
2.43.0


From b03c20864e9859e341dabb336b6fc875f7ae64c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:02 +0000
Subject: [PATCH 22/39] fix: switch and exhaust notice that their destination
 has closed

---
 .../src/exhaust_subscriber.rs                          | 10 +++++++---
 .../src/switch_subscriber.rs                           |  4 ++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
index 78ecd64..53a7882 100644
--- a/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_exhaust/src/exhaust_subscriber.rs
@@ -54,9 +54,13 @@ where
 		'static + Subscriber<In = InnerObservable::Out, InError = InnerObservable::OutError>,
 {
 	fn next(&mut self, mut next: Self::In) {
+		if self.is_closed() {
+			return;
+		}
+
 		let mut state_lock = self.state.lock_ignore_poison();
 
-		if !self.is_closed() && state_lock.non_unsubscribed_subscriptions == 0 {
+		if state_lock.non_unsubscribed_subscriptions == 0 {
 			state_lock.non_completed_subscriptions += 1;
 			state_lock.non_unsubscribed_subscriptions += 1;
 			drop(state_lock);
@@ -124,11 +128,11 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.outer_teardown.is_closed()
+		self.shared_destination.is_closed() || self.outer_teardown.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		if !self.outer_teardown.is_closed() {
 			if let Some(subscription_handle) = &mut self.inner_subscription {
 				subscription_handle.unsubscribe();
 			};
diff --git a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
index e19c081..6197af1 100644
--- a/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_switch/src/switch_subscriber.rs
@@ -141,11 +141,11 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.outer_teardown.is_closed()
+		self.shared_destination.is_closed() || self.outer_teardown.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		if !self.outer_teardown.is_closed() {
 			self.outer_teardown.unsubscribe();
 			self.shared_destination.unsubscribe();
 			if let Some(subscription_handle) = &mut self.inner_subscription.take() {
-- 
2.43.0


From bf785dd9fa3636474d053233fc740bd96f2562ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:02 +0000
Subject: [PATCH 23/39] fix: merge and concat start the next waiting inner
 source also after one that is unsubscribed

---
 .../src/concurrent_subscriber.rs              | 25 ++++++++-----------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
index b88a107..35c768c 100644
--- a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
@@ -133,7 +133,6 @@ pub(crate) fn create_inner_subscription<InnerObservable, Destination>(
 
 	let inner_subscriptions_clone = inner_subscriptions.clone();
 
-	let concurrency_limit_minus_one: usize = usize::from(concurrency_limit) - 1;
 	let outer_teardown_on_complete_clone = outer_teardown.clone();
 	let mut outer_teardown_on_unsubscribe = outer_teardown.clone();
 	let mut shared_destination_on_unsubscribe = shared_destination.clone();
@@ -151,22 +150,18 @@ pub(crate) fn create_inner_subscription<InnerObservable, Destination>(
 				concurrency_limit,
 			);
 		},
-		move |key| {
-			let no_more_subscribers_besides_this = {
-				let mut inner_subscriptions = inner_subscriptions.lock_ignore_poison();
-				inner_subscriptions.retain(|_k, s| !s.is_closed());
-				inner_subscriptions
-					.iter()
-					.filter(|(k, _)| *k != key)
-					.count() == concurrency_limit_minus_one
+		move |_key| {
+			inner_subscriptions
+				.lock_ignore_poison()
+				.retain(|_k, s| !s.is_closed());
+
+			let has_room = {
+				let state = state.lock_ignore_poison();
+				state.non_completed_subscriptions < concurrency_limit.into()
+					&& !state.downstream_subscriber_state.is_closed()
 			};
 
-			if no_more_subscribers_besides_this
-				&& !state
-					.lock_ignore_poison()
-					.downstream_subscriber_state
-					.is_closed()
-			{
+			if has_room {
 				subscribe_to_next_in_queue(
 					state.clone(),
 					inner_subscriptions.clone(),
-- 
2.43.0


From b506f3b769f62f1a17c8274ec41e98d1a8b3cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:02 +0000
Subject: [PATCH 24/39] fix: an inner source arriving while others are released
 does not overtake the waiting ones

---
 .../src/concurrent_subscriber.rs                             | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
index 35c768c..4568673 100644
--- a/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
+++ b/crates/rx_core_subscriber_higher_order_concurrent/src/concurrent_subscriber.rs
@@ -207,7 +207,10 @@ where
 		if !self.is_closed() {
 			let mut state = self.state.lock_ignore_poison();
 
-			if state.non_completed_subscriptions < self.concurrency_limit.into() {
+			// The ones already waiting are next in line.
+			if state.non_completed_subscriptions < self.concurrency_limit.into()
+				&& state.state.queue.is_empty()
+			{
 				state.non_completed_subscriptions += 1;
 				state.non_unsubscribed_subscriptions += 1;
 				drop(state);
-- 
2.43.0


From 720cb53f87291f7b5f0eee6d35a29872287e336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:28 +0000
Subject: [PATCH 25/39] fix: catch releases its recovery source when the
 destination closes itself

---
 crates/rx_core_operator_catch/src/catch_subscriber.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_operator_catch/src/catch_subscriber.rs b/crates/rx_core_operator_catch/src/catch_subscriber.rs
index e15f27f..7260df6 100644
--- a/crates/rx_core_operator_catch/src/catch_subscriber.rs
+++ b/crates/rx_core_operator_catch/src/catch_subscriber.rs
@@ -167,11 +167,11 @@ where
 {
 	#[inline]
 	fn is_closed(&self) -> bool {
-		self.outer_teardown.is_closed()
+		self.shared_destination.is_closed() || self.outer_teardown.is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		if !self.outer_teardown.is_closed() {
 			if let Some(subscription_handle) = &mut self.inner_subscription.take() {
 				subscription_handle.unsubscribe();
 			};
-- 
2.43.0


From 9e37e1b151166fda52b05c4f10a40782c80a0b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:28 +0000
Subject: [PATCH 26/39] fix: retry does not cut off the last allowed attempt,
 and closes the output when it's unsubscribed

---
 .../rx_core_operator_retry/src/retry_observable.rs  | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_operator_retry/src/retry_observable.rs b/crates/rx_core_operator_retry/src/retry_observable.rs
index 30cea51..58368e1 100644
--- a/crates/rx_core_operator_retry/src/retry_observable.rs
+++ b/crates/rx_core_operator_retry/src/retry_observable.rs
@@ -56,6 +56,9 @@ where
 		let mut shared_destination = SharedSubscriber::new(destination.upgrade());
 		let mut outer_subscription = SharedSubscription::default();
 
+		let mut destination_on_unsubscribe = shared_destination.clone();
+		outer_subscription.add_fn(move || destination_on_unsubscribe.unsubscribe());
+
 		let mut immediate_retries = 0;
 
 		let caught_error = Arc::new(Mutex::new(None));
@@ -86,7 +89,8 @@ where
 			immediate_retries += 1;
 
 			if caught_error.lock_ignore_poison().is_some() {
-				if let Some(mut last_subscription) = last_subscription.lock_ignore_poison().take() {
+				let last_subscription = last_subscription.lock_ignore_poison().take();
+				if let Some(mut last_subscription) = last_subscription {
 					last_subscription.unsubscribe();
 				}
 				continue;
@@ -98,10 +102,9 @@ where
 			}
 		}
 
-		if immediate_retries > self.max_retries {
-			if let Some(error) = caught_error.lock_ignore_poison().take() {
-				shared_destination.error(error);
-			}
+		let caught_error = caught_error.lock_ignore_poison().take();
+		if let Some(error) = caught_error {
+			shared_destination.error(error);
 			shared_destination.unsubscribe();
 			outer_subscription.unsubscribe();
 		}
-- 
2.43.0


From b931ff4908e5d580858fe5fc1783c2c24859ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:28 +0000
Subject: [PATCH 27/39] fix: retry passes on the error of the last attempt and
 accounts for every attempt separately

---
 .../src/retry_subscriber.rs                   | 53 ++++++++++---------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/crates/rx_core_operator_retry/src/retry_subscriber.rs b/crates/rx_core_operator_retry/src/retry_subscriber.rs
index b57c4ac..7beaa4e 100644
--- a/crates/rx_core_operator_retry/src/retry_subscriber.rs
+++ b/crates/rx_core_operator_retry/src/retry_subscriber.rs
@@ -1,8 +1,8 @@
 use std::sync::{Arc, Mutex};
 
 use rx_core_common::{
-	LockWithPoisonBehavior, Observable, ObserverTerminalNotification, RxObserver, SharedSubscriber,
-	SharedSubscription, Subscriber, SubscriptionLike, TeardownCollectionExtension,
+	LockWithPoisonBehavior, Observable, RxObserver, SharedSubscriber, SharedSubscription,
+	Subscriber, SubscriptionLike, TeardownCollectionExtension,
 };
 use rx_core_macro_subscriber_derive::RxSubscriber;
 
@@ -20,7 +20,9 @@ where
 	source: Arc<Mutex<Option<Source>>>,
 	retries: usize,
 	max_retries: usize,
-	finished_with: Option<ObserverTerminalNotification<Source::OutError>>,
+	/// Set once the attempt of this subscriber is over, when it's unsubscribed
+	/// after that, it's only released, a newer attempt may be active already.
+	attempt_ended: bool,
 	#[destination]
 	destination: SharedSubscriber<Destination>,
 	outer_subscription: SharedSubscription,
@@ -46,7 +48,7 @@ where
 			source,
 			destination,
 			outer_subscription,
-			finished_with: None,
+			attempt_ended: false,
 			max_retries,
 			retries,
 			caught_error,
@@ -56,23 +58,18 @@ where
 
 	#[inline]
 	fn reset(&mut self) {
-		if let Some(mut last_subscription) = self.last_subscription.lock_ignore_poison().take()
+		let last_subscription = self.last_subscription.lock_ignore_poison().take();
+		if let Some(mut last_subscription) = last_subscription
 			&& !last_subscription.is_closed()
 		{
 			last_subscription.unsubscribe();
 		};
 
-		self.finished_with = None;
 		self.caught_error.lock_ignore_poison().take();
 	}
 
 	fn finish(&mut self) {
-		match self.finished_with.take() {
-			Some(ObserverTerminalNotification::Error(error)) => self.destination.error(error),
-			Some(ObserverTerminalNotification::Complete) => self.destination.complete(),
-			None => {}
-		}
-
+		self.attempt_ended = true;
 		self.outer_subscription.unsubscribe();
 		self.destination.unsubscribe();
 	}
@@ -92,7 +89,9 @@ where
 		}
 	}
 
-	fn error(&mut self, error: Self::InError) {
+	fn error(&mut self, mut error: Self::InError) {
+		self.attempt_ended = true;
+
 		// If the source is "stolen", it's still owned by the observables
 		// subscribe method. It will check the caught error and retry there.
 		if self.source.lock_ignore_poison().is_none() {
@@ -100,7 +99,7 @@ where
 			return;
 		};
 
-		while self.retries <= self.max_retries {
+		while self.retries <= self.max_retries && !self.is_closed() {
 			let mut stolen_source = self.source.lock_ignore_poison().take().expect(SOURCE_STEAL);
 			self.reset();
 			self.retries += 1;
@@ -123,24 +122,26 @@ where
 					.replace(SharedSubscription::new(next_subscription));
 			}
 
-			if self.caught_error.lock_ignore_poison().is_some() {
-				continue;
-			} else {
-				self.outer_subscription.add(self.last_subscription.clone());
-				break;
+			let caught_error = self.caught_error.lock_ignore_poison().take();
+
+			match caught_error {
+				Some(caught_error) => error = caught_error,
+				None if self.retries <= self.max_retries => {
+					self.outer_subscription.add(self.last_subscription.clone());
+					return;
+				}
+				None => {}
 			}
 		}
 
-		self.finished_with = Some(ObserverTerminalNotification::Error(error));
-
-		if self.retries > self.max_retries {
-			self.finish();
-		}
+		self.destination.error(error);
+		self.reset();
+		self.finish();
 	}
 
 	#[inline]
 	fn complete(&mut self) {
-		self.finished_with = Some(ObserverTerminalNotification::Complete);
+		self.destination.complete();
 		self.finish();
 	}
 }
@@ -156,7 +157,7 @@ where
 	}
 
 	fn unsubscribe(&mut self) {
-		if self.caught_error.lock_ignore_poison().is_none() && self.finished_with.is_none() {
+		if !self.attempt_ended {
 			self.finish();
 		}
 	}
-- 
2.43.0


From 2f11cfda1a54015198dc32dcab44672aa0bb668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:53 +0000
Subject: [PATCH 28/39] fix: asking a subject's subscription if it's closed
 from within its own delivery blocked forever

---
 .../src/multicast_subscription.rs             | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/rx_core_subject_publish/src/multicast_subscription.rs b/crates/rx_core_subject_publish/src/multicast_subscription.rs
index 4711b19..4bcbc8d 100644
--- a/crates/rx_core_subject_publish/src/multicast_subscription.rs
+++ b/crates/rx_core_subject_publish/src/multicast_subscription.rs
@@ -1,4 +1,4 @@
-use std::sync::{Arc, Mutex};
+use std::sync::{Arc, Mutex, TryLockError};
 
 use rx_core_common::{
 	LockWithPoisonBehavior, Never, Signal, Subscriber, SubscriptionLike, Teardown,
@@ -54,12 +54,15 @@ where
 		}
 	}
 
+	/// While the subscriber is busy receiving a notification it's not closed
+	/// yet, waiting for it would block when asked from within that delivery.
 	fn try_check_is_closed(&self) -> bool {
 		if let Some(subscriber) = self.subscriber.as_ref() {
-			subscriber
-				.try_lock()
-				.map(|s| s.is_closed())
-				.unwrap_or(false)
+			match subscriber.try_lock() {
+				Ok(subscriber) => subscriber.is_closed(),
+				Err(TryLockError::Poisoned(poison_error)) => poison_error.into_inner().is_closed(),
+				Err(TryLockError::WouldBlock) => false,
+			}
 		} else {
 			true
 		}
@@ -71,12 +74,9 @@ where
 	In: Signal + Clone,
 	InError: Signal + Clone,
 {
+	#[inline]
 	fn is_closed(&self) -> bool {
-		if let Some(subscriber) = self.subscriber.as_ref() {
-			subscriber.is_closed()
-		} else {
-			true
-		}
+		self.try_check_is_closed()
 	}
 
 	fn unsubscribe(&mut self) {
-- 
2.43.0


From cbd92f6306233aff9a70a3db0a2adccc82cb3beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:53 +0000
Subject: [PATCH 29/39] fix: a connectable disconnects at ref count zero also
 after an earlier connection ended, and when everyone left while connecting

---
 .../src/internal/connection_state.rs          | 21 +++++++++++++++++--
 .../src/internal/connector_state.rs           | 13 +++++++++++-
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/crates/rx_core_observable_connectable/src/internal/connection_state.rs b/crates/rx_core_observable_connectable/src/internal/connection_state.rs
index 32bb6dd..660f1ba 100644
--- a/crates/rx_core_observable_connectable/src/internal/connection_state.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connection_state.rs
@@ -10,6 +10,8 @@ pub(crate) struct ConnectionState {
 	downstream_subscriber_count: usize,
 	has_errored: bool,
 	has_completed: bool,
+	/// The ref count dropped to zero, requesting a disconnect
+	is_abandoned: bool,
 	connection_options: ConnectionOptions,
 }
 
@@ -34,9 +36,23 @@ impl ConnectionState {
 			downstream_subscriber_count: 0,
 			has_completed: false,
 			has_errored: false,
+			is_abandoned: false,
 		}
 	}
 
+	/// A new connection is about to be made, how the last one ended does not
+	/// matter anymore.
+	pub(crate) fn connecting(&mut self) {
+		self.reset();
+		self.is_abandoned = false;
+	}
+
+	/// Returns true when the last subscriber left while the connection was
+	/// still being made, when there was nothing to disconnect yet.
+	pub(crate) fn abandoned_while_connecting(&self) -> bool {
+		self.is_abandoned && self.downstream_subscriber_count == 0
+	}
+
 	#[inline]
 	pub(crate) fn errored(&mut self) {
 		self.has_errored = true;
@@ -55,10 +71,11 @@ impl ConnectionState {
 	/// ref count has just dropped to zero.
 	pub(crate) fn decrement_subscriber_count(&mut self) -> bool {
 		self.downstream_subscriber_count = self.downstream_subscriber_count.saturating_sub(1);
-		self.connection_options.disconnect_when_ref_count_zero
+		self.is_abandoned = self.connection_options.disconnect_when_ref_count_zero
 			&& self.downstream_subscriber_count == 0
 			&& !self.has_errored
-			&& !self.has_completed
+			&& !self.has_completed;
+		self.is_abandoned
 	}
 
 	pub(crate) fn reset(&mut self) {
diff --git a/crates/rx_core_observable_connectable/src/internal/connector_state.rs b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
index b72b9cd..fd6b37f 100644
--- a/crates/rx_core_observable_connectable/src/internal/connector_state.rs
+++ b/crates/rx_core_observable_connectable/src/internal/connector_state.rs
@@ -125,8 +125,19 @@ where
 		let active_connection = self.connection.lock_ignore_poison().get_active_connection();
 
 		active_connection.unwrap_or_else(move || {
+			self.connection_state.lock_ignore_poison().connecting();
 			let new_connection = self.create_connection();
-			self.register_connection(new_connection)
+			let connection_handle = self.register_connection(new_connection);
+
+			let is_abandoned = self
+				.connection_state
+				.lock_ignore_poison()
+				.abandoned_while_connecting();
+			if is_abandoned {
+				self.disconnect();
+			}
+
+			connection_handle
 		})
 	}
 
-- 
2.43.0


From 87a30b085a15bd545a38423d2ada7fbb788b2b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:53 +0000
Subject: [PATCH 30/39] fix: clones of a shared observable share its connection

---
 .../src/share_observable.rs                   | 33 ++-----------------
 1 file changed, 3 insertions(+), 30 deletions(-)

diff --git a/crates/rx_core_operator_share/src/share_observable.rs b/crates/rx_core_operator_share/src/share_observable.rs
index 96730b6..ac12a1e 100644
--- a/crates/rx_core_operator_share/src/share_observable.rs
+++ b/crates/rx_core_operator_share/src/share_observable.rs
@@ -21,14 +21,6 @@ where
 		Source,
 		ConnectorProvider,
 	>,
-	connection: Option<
-		ConnectionHandle<
-			<ConnectableObservable<
-				Source,
-			ConnectorProvider,
-			> as Connectable>::ConnectionSubscription,
-		>,
-	>,
 }
 
 impl<Source, ConnectorProvider> ShareObservable<Source, ConnectorProvider>
@@ -42,15 +34,11 @@ where
 	pub fn new(source: Source, options: ConnectableOptions<ConnectorProvider>) -> Self {
 		Self {
 			connectable: ConnectableObservable::new(source, options),
-			connection: None,
 		}
 	}
 
 	pub fn is_connected(&self) -> bool {
-		self.connection
-			.as_ref()
-			.map(|connection| !connection.is_closed())
-			.unwrap_or(false)
+		self.connectable.is_connected()
 	}
 
 	pub fn connect(
@@ -58,26 +46,11 @@ where
 	) -> ConnectionHandle<
 		<ConnectableObservable<Source, ConnectorProvider> as Connectable>::ConnectionSubscription,
 	> {
-		if let Some(connection) = self.connection.as_ref()
-			&& !connection.is_closed()
-		{
-			return connection.clone();
-		}
-
-		let connection = self.connectable.connect();
-		self.connection = Some(connection.clone());
-		connection
+		self.connectable.connect()
 	}
 
 	pub fn disconnect(&mut self) -> bool {
-		if let Some(mut connection) = self.connection.take()
-			&& !connection.is_closed()
-		{
-			connection.unsubscribe();
-			return true;
-		}
-
-		false
+		self.connectable.disconnect()
 	}
 }
 
-- 
2.43.0


From 23186b1b65466e2c173fc0b7056f3a3e9ceaa88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:53 +0000
Subject: [PATCH 31/39] fix: iterator sources take no item out of the iterator
 once the subscriber has closed

---
 .../src/iterator_observable.rs                 | 18 +++++++++++-------
 .../src/iterator_on_tick_observable.rs         | 17 ++++++++---------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/crates/rx_core_observable_iterator/src/iterator_observable.rs b/crates/rx_core_observable_iterator/src/iterator_observable.rs
index 848a939..d397ae6 100644
--- a/crates/rx_core_observable_iterator/src/iterator_observable.rs
+++ b/crates/rx_core_observable_iterator/src/iterator_observable.rs
@@ -44,16 +44,20 @@ where
 		Destination: 'static + UpgradeableObserver<In = Self::Out, InError = Self::OutError>,
 	{
 		let mut destination = observer.upgrade();
-		for item in self.iterator.clone().into_iter() {
-			if destination.is_closed() {
-				break;
+		let mut iter = self.iterator.clone().into_iter();
+
+		// An item must not be taken out of the iterator when there is no one
+		// to receive it.
+		while !destination.is_closed() {
+			match iter.next() {
+				Some(item) => destination.next(item),
+				None => {
+					destination.complete();
+					break;
+				}
 			}
-			destination.next(item);
 		}
 
-		if !destination.is_closed() {
-			destination.complete();
-		}
 		InertSubscription::new(destination)
 	}
 }
diff --git a/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_observable.rs b/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_observable.rs
index c3e9ad4..37d24cc 100644
--- a/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_observable.rs
+++ b/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_observable.rs
@@ -71,18 +71,17 @@ where
 		let mut destination = observer.upgrade();
 		let mut iter = self.iterator.clone().into_iter();
 		if self.options.emit_at_every_nth_tick == 0 {
-			let mut completed = true;
-			for item in iter.by_ref() {
-				if destination.is_closed() {
-					completed = false;
-					break;
+			while !destination.is_closed() {
+				match iter.next() {
+					Some(item) => destination.next(item),
+					None => {
+						destination.complete();
+						break;
+					}
 				}
-				destination.next(item);
-			}
-			if completed && !destination.is_closed() {
-				destination.complete();
 			}
 		}
+
 		OnTickIteratorSubscription::new(
 			destination,
 			iter,
-- 
2.43.0


From 6b517428e37dd93a273ec0721c8ca907e642447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:53 +0000
Subject: [PATCH 32/39] fix: an iterator-on-tick source completes also when it
 is empty or its only item was emitted on subscribe

---
 .../src/iterator_on_tick_subscription.rs      | 34 ++++++++++++-------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs b/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
index 76592c0..c3901e7 100644
--- a/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
+++ b/crates/rx_core_observable_iterator_on_tick/src/iterator_on_tick_subscription.rs
@@ -64,10 +64,14 @@ where
 			};
 		}
 
-		if options.start_on_subscribe
-			&& let Some(next) = peekable_iterator.next()
-		{
-			destination.next(next);
+		if options.start_on_subscribe && !destination.is_closed() {
+			if let Some(next) = peekable_iterator.next() {
+				destination.next(next);
+			}
+
+			if !destination.is_closed() && peekable_iterator.peek().is_none() {
+				destination.complete();
+			}
 		}
 
 		let owner_id = {
@@ -90,19 +94,23 @@ where
 						return WorkResult::Done;
 					}
 
-					if state
+					if !state
 						.observed_ticks
 						.is_multiple_of(state.emit_at_every_nth_tick)
-						&& let Some(value) = state.peekable_iterator.next()
 					{
-						state.observed_ticks = 0;
+						return WorkResult::Pending;
+					}
+
+					state.observed_ticks = 0;
+					if let Some(value) = state.peekable_iterator.next() {
 						destination.next(value);
-						if state.peekable_iterator.peek().is_none() {
-							destination.complete();
-							WorkResult::Done
-						} else {
-							WorkResult::Pending
-						}
+					}
+
+					if destination.is_closed() {
+						WorkResult::Done
+					} else if state.peekable_iterator.peek().is_none() {
+						destination.complete();
+						WorkResult::Done
 					} else {
 						WorkResult::Pending
 					}
-- 
2.43.0


From 3ef7812a5ef522adca0855e6a22cb0ecbbd7634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:53 +0000
Subject: [PATCH 33/39] fix: observe_on keeps an error sent from inside the
 delivery of a scheduled value

---
 .../src/observe_on_subscriber.rs                         | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
index 19c255e..2d16f21 100644
--- a/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
+++ b/crates/rx_core_operator_observe_on/src/observe_on_subscriber.rs
@@ -23,6 +23,7 @@ where
 	destination: SharedSubscriber<Destination>,
 	scheduler: SchedulerHandle<S>,
 	cancellation_id: WorkCancellationId,
+	upstream_errored: bool,
 	upstream_completed: Arc<AtomicBool>,
 	upstream_unsubscribed: Arc<AtomicBool>,
 	scheduled_work_counter: Arc<AtomicUsize>,
@@ -43,6 +44,7 @@ where
 			destination: SharedSubscriber::new(destination),
 			scheduler,
 			cancellation_id,
+			upstream_errored: false,
 			upstream_completed: Arc::new(AtomicBool::new(false)),
 			upstream_unsubscribed: Arc::new(AtomicBool::new(false)),
 			scheduled_work_counter: Arc::new(AtomicUsize::new(0)),
@@ -96,7 +98,10 @@ where
 
 	#[inline]
 	fn error(&mut self, error: Self::InError) {
-		self.upstream_unsubscribed.store(true, Ordering::Relaxed);
+		// If this is called while a scheduled next is being delivered, the error
+		// will reach the destination only after that. Until then it must not be
+		// unsubscribed.
+		self.upstream_errored = true;
 		self.destination.error(error);
 	}
 
@@ -133,7 +138,7 @@ where
 	}
 
 	fn unsubscribe(&mut self) {
-		if !self.is_closed() {
+		if !self.upstream_errored && !self.is_closed() {
 			// If there is a scheduled next, just let it also unsubscribe
 			self.upstream_unsubscribed.store(true, Ordering::Relaxed);
 
-- 
2.43.0


From 0149795ccd1379f8ace85b30f9e0b2f760fd3cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:29 +0000
Subject: [PATCH 34/39] fix: an optional subscription reports what the one it
 holds does after unsubscribing

---
 crates/rx_core_common/src/subscriptions/subscription_option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rx_core_common/src/subscriptions/subscription_option.rs b/crates/rx_core_common/src/subscriptions/subscription_option.rs
index 38fe70d..c5f9b95 100644
--- a/crates/rx_core_common/src/subscriptions/subscription_option.rs
+++ b/crates/rx_core_common/src/subscriptions/subscription_option.rs
@@ -41,7 +41,7 @@ where
 	}
 
 	fn unsubscribe(&mut self) {
-		if let Some(mut destination) = self.subscription.take() {
+		if let Some(destination) = self.subscription.as_mut() {
 			destination.unsubscribe();
 		}
 	}
-- 
2.43.0


From e406aa8cfaff3d25cac4bad61dd89257f6dbfca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:59 +0000
Subject: [PATCH 35/39] fix: re-triggering an envelope during its release does
 not delay its phases by a tick

---
 crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs b/crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs
index 86f5de5..68ea0ab 100644
--- a/crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs
+++ b/crates/rx_core_operator_adsr/src/adsr/adsr_envelope_state.rs
@@ -64,9 +64,11 @@ impl AdsrEnvelopeState {
 			self.adsr_envelope_phase,
 		);
 
+		// A restart also reports a stop, but the envelope it belongs to is already running
 		if self
 			.adsr_phase_transition
 			.contains(AdsrEnvelopePhaseTransition::Stop)
+			&& self.adsr_envelope_phase == AdsrEnvelopePhase::None
 		{
 			self.reset();
 		}
-- 
2.43.0


From 3a820db1abfb3769ab418ca6e853552adc743e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:59 +0000
Subject: [PATCH 36/39] fix: very long adsr phases do not overflow

---
 .../rx_core_operator_adsr/src/adsr/adsr_envelope.rs  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/rx_core_operator_adsr/src/adsr/adsr_envelope.rs b/crates/rx_core_operator_adsr/src/adsr/adsr_envelope.rs
index c163386..6a8bae6 100644
--- a/crates/rx_core_operator_adsr/src/adsr/adsr_envelope.rs
+++ b/crates/rx_core_operator_adsr/src/adsr/adsr_envelope.rs
@@ -100,26 +100,26 @@ impl AdsrEnvelope {
 						Duration::from_millis(0),
 						self.attack_time,
 					)
-				} else if t < self.attack_time + self.decay_time {
+				} else if t < self.attack_time.saturating_add(self.decay_time) {
 					(
 						AdsrEnvelopePhase::Decay,
 						self.attack_time,
-						self.attack_time + self.decay_time,
+						self.attack_time.saturating_add(self.decay_time),
 					)
 				} else {
 					(
 						AdsrEnvelopePhase::Sustain,
-						self.attack_time + self.decay_time,
-						self.attack_time + self.decay_time, // This should really be the current time, but since the sustain level is a fixed value, there's nothing to interpolate
+						self.attack_time.saturating_add(self.decay_time),
+						self.attack_time.saturating_add(self.decay_time), // This should really be the current time, but since the sustain level is a fixed value, there's nothing to interpolate
 					)
 				}
 			}
 			(_, Some(deactivation_time)) => {
-				if t < (deactivation_time + self.release_time) {
+				if t < deactivation_time.saturating_add(self.release_time) {
 					(
 						AdsrEnvelopePhase::Release,
 						deactivation_time,
-						deactivation_time + self.release_time,
+						deactivation_time.saturating_add(self.release_time),
 					)
 				} else {
 					(
-- 
2.43.0


From 75689f0df0cc0c782785fe9d82aa48cf574db5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:25 +0000
Subject: [PATCH 37/39] fix: an error or completion sent while an adsr signal
 is delivered is not held back

---
 crates/rx_core_operator_adsr/src/adsr_subscriber.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_operator_adsr/src/adsr_subscriber.rs b/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
index 669b5b5..8f233e1 100644
--- a/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
+++ b/crates/rx_core_operator_adsr/src/adsr_subscriber.rs
@@ -58,7 +58,7 @@ where
 			options,
 		}));
 		let shared_state_clone = shared_state.clone();
-		let shared_destination_clone = shared_destination.clone();
+		let mut shared_destination_clone = shared_destination.clone();
 		let scheduler_clone = scheduler.clone();
 		let mut scheduler_lock = scheduler_clone.lock();
 		let cancellation_id = scheduler_lock.generate_cancellation_id();
@@ -66,8 +66,7 @@ where
 		let mut envelope_state = AdsrEnvelopeState::default();
 		scheduler_lock.schedule_continuous_work(
 			move |tick, _context| {
-				let mut destination_lock = shared_destination_clone.lock();
-				if destination_lock.is_closed() {
+				if shared_destination_clone.is_closed() {
 					return WorkResult::Done;
 				}
 
@@ -110,8 +109,8 @@ where
 				};
 
 				if let Some(next) = next {
-					destination_lock.next(next);
-					if destination_lock.is_closed() {
+					shared_destination_clone.next(next);
+					if shared_destination_clone.is_closed() {
 						return WorkResult::Done;
 					}
 				}
-- 
2.43.0


From 36a3acb44eca03986013c64c9c5229e16e3f4bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:52 +0000
Subject: [PATCH 38/39] fix: apply queued scheduler actions without holding the
 scheduler's lock

Dropping cancelled work can run deferred teardowns, which lock the scheduler
themselves: unsubscribing from an interval within its own delivery deadlocked
the next tick.
---
 .../src/ticking_executor.rs                      | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
index 74278b1..2f6893a 100644
--- a/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
+++ b/crates/rx_core_scheduler_ticking/src/ticking_executor.rs
@@ -150,11 +150,17 @@ where
 	}
 
 	fn drain_scheduler_queue(&mut self, tick: Tick) -> bool {
-		let mut scheduler = self.scheduler.lock();
-		let had_actions = scheduler.has_actions();
-		scheduler.update_tick(tick);
-
-		for action in scheduler.drain_actions() {
+		// The scheduler must not be locked while the actions are applied, as
+		// dropping cancelled work can schedule or cancel other work.
+		let (had_actions, actions) = {
+			let mut scheduler = self.scheduler.lock();
+			let had_actions = scheduler.has_actions();
+			scheduler.update_tick(tick);
+			let actions: Vec<_> = scheduler.drain_actions().collect();
+			(had_actions, actions)
+		};
+
+		for action in actions {
 			match action {
 				ScheduledWorkAction::<Tick, C>::Activate((cancellation_id, work)) => {
 					let work_id = self.work_id_generator.get_next();
-- 
2.43.0


From cac387fc56b19feeb698f14fbc9d6261620ff569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:04:24 +0000
Subject: [PATCH 39/39] fix: disconnect a connectable without holding its locks

Its source's teardowns can use it: asking whether it is connected, or
subscribing to it, from one deadlocked disconnect and reset.
---
 .../src/connectable_observable.rs                  | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/rx_core_observable_connectable/src/connectable_observable.rs b/crates/rx_core_observable_connectable/src/connectable_observable.rs
index 84ca99e..0bd5e15 100644
--- a/crates/rx_core_observable_connectable/src/connectable_observable.rs
+++ b/crates/rx_core_observable_connectable/src/connectable_observable.rs
@@ -136,7 +136,18 @@ where
 
 	#[inline]
 	fn disconnect(&mut self) -> bool {
-		self.connector.lock_ignore_poison().disconnect()
+		// Nothing can be locked while unsubscribing, as the teardowns of the
+		// source can use this observable.
+		let active_connection = self.connection.lock_ignore_poison().take_connection();
+
+		if let Some(mut connection) = active_connection
+			&& !connection.is_closed()
+		{
+			connection.unsubscribe();
+			return true;
+		}
+
+		false
 	}
 
 	#[inline]
@@ -146,6 +157,7 @@ where
 
 	#[inline]
 	fn reset(&mut self) {
+		self.disconnect();
 		self.connector.lock_ignore_poison().reset();
 	}
 }
-- 
2.43.0

