From 60b879a759e1f3347d82b3dfdf6ba556150a5e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 01/43] fix: release the enqueued counter when a failed
 updateable item is dropped

---
 .../queue_channels/memory/memory_queue_channel.go  | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 502cf73..3aefeff 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -517,6 +517,12 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 				if len(mqc.itemIDsEnqueued) >= 1 {
 					// just delete the item. since it is updateable, we want the next item in the queue to run anyways
 					if queueItemToDelete.updateable {
+						// the dropped item no longer counts towards the total number of enqueued items
+						if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
+							// what should we really do here? the limiter would be out of sync in this case
+							panic(err)
+						}
+
 						return true
 					}
 				}
@@ -553,7 +559,13 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 			defer queueItemToCheck.lock.Unlock()
 
 			if queueItemToCheck.updateable {
-				// "update" the last item by simply dropping it
+				// "update" the last item by simply dropping it. The dropped item no longer counts towards the total
+				// number of enqueued items
+				if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
+					// what should we really do here? the limiter would be out of sync in this case
+					panic(err)
+				}
+
 				mqc.itemIDsEnqueued[len(mqc.itemIDsEnqueued)-1] = itemID
 				return true
 			} else {
-- 
2.43.0


From 6857a9135687401d8915adbc3ad95d2d427c43f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 02/43] fix: run the heartbeat timeout callback after the
 process is marked done

---
 internal/heartbeater/heartbeater.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/heartbeater/heartbeater.go b/internal/heartbeater/heartbeater.go
index 108295d..3551124 100644
--- a/internal/heartbeater/heartbeater.go
+++ b/internal/heartbeater/heartbeater.go
@@ -75,6 +75,14 @@ func New(timeout time.Duration, onShutdown, onTimeout func()) (*heartbeater, err
 
 // Execute expects a single instance of Start to be called
 func (h *heartbeater) Execute(ctx context.Context) error {
+	// deferred calls run last in first out, so the timeout callback always runs after the done channel is closed. This
+	// way, any parallel Stop or Heartbeat call is released before the callback needs the locks those callers might hold
+	timedOut := false
+	defer func() {
+		if timedOut {
+			h.onTimeout()
+		}
+	}()
 	defer close(h.doneChan)
 
 	// wait for start or stop instruction to be called
@@ -101,7 +109,7 @@ func (h *heartbeater) Execute(ctx context.Context) error {
 			return nil
 		case <-timer.C:
 			// in this case the timer has hit the timeout limit. assumed the resource has failed.
-			h.onTimeout()
+			timedOut = true
 
 			return nil
 		case <-h.heartbeaterChan:
-- 
2.43.0


From 6f17ffa1da6f5ac3af34fad4a5450a82466cdc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 03/43] fix: update the heartbeat timeout when an enqueue
 updates the last item in place

---
 .../willow/brokers/queue_channels/memory/memory_queue_channel.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 3aefeff..f6bfde2 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -364,6 +364,7 @@ func (mqc *memoryQueueChannel) Enqueue(ctx context.Context, enqueueItem *v1willo
 				queueItem.updateable = *enqueueItem.Spec.Properties.Updateable
 				queueItem.maxRetryAttempts = *enqueueItem.Spec.Properties.RetryAttempts
 				queueItem.retryPosition = *enqueueItem.Spec.Properties.RetryPosition
+				queueItem.heartbeatTimeout = *enqueueItem.Spec.Properties.TimeoutDuration
 				queueItem.retryCount = 0
 			}
 
-- 
2.43.0


From 2a486c84e71ae3eb4cd7d4b3634902805adf1ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 04/43] fix: a failed ACK for an item that is not processing is
 refused

---
 .../brokers/queue_channels/memory/memory_queue_channel.go      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index f6bfde2..769a222 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -480,7 +480,6 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 
 	// attempt to delete or requeue the item
 	canDelete := func(_ datatypes.EncapsulatedValue, treeItem any) bool {
-		attemptedDelete = true
 		queueItem := treeItem.(*item)
 
 		if timedOut {
@@ -489,6 +488,8 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 
 		// if the queue item was stopped here, then we know there was no async timeout processed for this item
 		if timedOut || queueItem.StopHeartbeater() {
+			attemptedDelete = true
+
 			// always update counters that the item is no longer running
 			if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
 				// what should be the actual course of action here?
-- 
2.43.0


From b1c912446c810ec684f40686a2b63ee3580f9b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 05/43] fix: refuse heartbeats and releases for a lock nobody
 holds instead of blocking on them

---
 internal/locker/lock_manager/exclusive_lock.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/locker/lock_manager/exclusive_lock.go b/internal/locker/lock_manager/exclusive_lock.go
index 4874d61..242ee92 100644
--- a/internal/locker/lock_manager/exclusive_lock.go
+++ b/internal/locker/lock_manager/exclusive_lock.go
@@ -124,6 +124,13 @@ func (exclusiveLock *exclusiveLock) Execute(ctx context.Context) error {
 
 			exclusiveLock.clientLostResponse <- false
 
+		// there is no current claim, so any heartbeat or release request is for an old SessionID. These need to be refused
+		// right away since the callers are holding on to the lock's entry in the tree, which lost clients also need to obtain
+		case <-exclusiveLock.heartbeat:
+			exclusiveLock.heartbeatResponse <- false
+		case <-exclusiveLock.release:
+			exclusiveLock.releaseResponse <- failedRelease
+
 		// client was able to claim the lock.
 		// NOTE: this is a write operation so the caller can get a callback function to call. This way they do not
 		// need to save off a variable for the lock in the exclusive_locker
-- 
2.43.0


From b3362181e9c3165fbb217679d68c10ac52b6cb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 06/43] fix: do not store a lock whose process was refused at
 shutdown

---
 internal/locker/lock_manager/exclusive_locker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/locker/lock_manager/exclusive_locker.go b/internal/locker/lock_manager/exclusive_locker.go
index ee21635..f894acd 100644
--- a/internal/locker/lock_manager/exclusive_locker.go
+++ b/internal/locker/lock_manager/exclusive_locker.go
@@ -81,6 +81,7 @@ func (exclusiveLocker *exclusiveLocker) ObtainLock(ctx context.Context, createLo
 			close(closedChannel)
 
 			claimChannel = closedChannel
+			return nil
 		}
 
 		return lock
-- 
2.43.0


From f63df45ea9d8a3dd64f17a35f4ecae27c536a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 07/43] fix: stop incrementing a counter when obtaining one of
 its locks was canceled

---
 internal/limiter/counters/counter_client_local.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/limiter/counters/counter_client_local.go b/internal/limiter/counters/counter_client_local.go
index 568c955..e904d16 100644
--- a/internal/limiter/counters/counter_client_local.go
+++ b/internal/limiter/counters/counter_client_local.go
@@ -158,6 +158,11 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 					logger.Error("failed to obtain a lock from the locker service", zap.Any("key values", lockKeyValues), zap.Error(err))
 					return errors.InternalServerError
 				}
+				if lockerLock == nil {
+					// the request was canceled while waiting for the lock
+					logger.Warn("canceled obtaining a lock from the locker service", zap.Any("key values", lockKeyValues))
+					return errors.InternalServerError
+				}
 
 				// setup monitor for when a lock is released
 				lockerLocks = append(lockerLocks, lockerLock)
-- 
2.43.0


From c53106a33698fe25bd4cddff404c31e25fa1af52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 08/43] fix: refuse an increment that would take a counter over
 a limit

---
 internal/limiter/counters/counter_client_local.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/limiter/counters/counter_client_local.go b/internal/limiter/counters/counter_client_local.go
index e904d16..e235bed 100644
--- a/internal/limiter/counters/counter_client_local.go
+++ b/internal/limiter/counters/counter_client_local.go
@@ -202,7 +202,7 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 						continue
 					}
 
-					if counterErr := cm.checkCounters(ctx, rule.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *rule.Spec.Properties.Limit); counterErr != nil {
+					if counterErr := cm.checkCounters(ctx, rule.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *counter.Spec.Properties.Counters, *rule.Spec.Properties.Limit); counterErr != nil {
 						return counterErr
 					}
 				} else {
@@ -213,7 +213,7 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 						}
 
 						// 2. check the limt
-						if counterErr := cm.checkCounters(ctx, override.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *override.Spec.Properties.Limit); counterErr != nil {
+						if counterErr := cm.checkCounters(ctx, override.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *counter.Spec.Properties.Counters, *override.Spec.Properties.Limit); counterErr != nil {
 							return counterErr
 						}
 					}
@@ -239,7 +239,7 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 	return nil
 }
 
-func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []string, counteKeyValyes datatypes.KeyValues, limit int64) *errors.ServerError {
+func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []string, counteKeyValyes datatypes.KeyValues, increment int64, limit int64) *errors.ServerError {
 	_, logger := middleware.GetNamedMiddlewareLogger(ctx, "checkCounters")
 
 	// construct the query for all possible rules that need to be found
@@ -263,7 +263,7 @@ func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []stri
 	counter := int64(0)
 	bTreeAssociatedOnIterate := func(item btreeassociated.AssociatedKeyValues) bool {
 		counter += item.Value().(Counter).Load()
-		return counter < limit // check to exit query early if this fails
+		return counter <= limit-increment // check to exit query early if this fails
 	}
 
 	if err := cm.counters.QueryAction(query, bTreeAssociatedOnIterate); err != nil {
@@ -271,8 +271,8 @@ func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []stri
 		return errors.InternalServerError
 	}
 
-	// final check of the counters
-	if counter >= limit {
+	// final check of the counters. The increment is not allowed to go over the limit
+	if counter > limit-increment {
 		logger.Info("Limit already reached")
 		return &errors.ServerError{Message: fmt.Sprintf("Limit has already been reached for rule"), StatusCode: http.StatusConflict}
 	}
-- 
2.43.0


From 6c21393c1d6be552a4f8d7dd1d6fab068a7c840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 09/43] fix: locker release answers the error of a release that
 failed

---
 internal/locker/api/v1/handlers/locker_handler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/locker/api/v1/handlers/locker_handler.go b/internal/locker/api/v1/handlers/locker_handler.go
index 02a7b4f..7c84955 100644
--- a/internal/locker/api/v1/handlers/locker_handler.go
+++ b/internal/locker/api/v1/handlers/locker_handler.go
@@ -144,7 +144,10 @@ func (lh *lockerHandler) Release(w http.ResponseWriter, r *http.Request) {
 	namedParameters := urlrouter.GetNamedParamters(r.Context())
 
 	// release the lock
-	lh.generalLocker.Release(ctx, namedParameters["lock_id"], lockClaim)
+	if releaseError := lh.generalLocker.Release(ctx, namedParameters["lock_id"], lockClaim); releaseError != nil {
+		_, _ = api.ModelEncodeResponse(w, releaseError.StatusCode, releaseError)
+		return
+	}
 
 	// respond and ignore the errors
 	_, _ = api.ModelEncodeResponse(w, http.StatusNoContent, nil)
-- 
2.43.0


From 576c38f8aa80160d839c0a6375509b88df43b5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 10/43] fix: willow channel delete stops after it refused the
 request

---
 internal/willow/api/v1/handlers/channel_handler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/willow/api/v1/handlers/channel_handler.go b/internal/willow/api/v1/handlers/channel_handler.go
index bb9a37c..25cbc71 100644
--- a/internal/willow/api/v1/handlers/channel_handler.go
+++ b/internal/willow/api/v1/handlers/channel_handler.go
@@ -49,11 +49,13 @@ func (qh queueHandler) ChannelDelete(w http.ResponseWriter, r *http.Request) {
 	if err := json.NewDecoder(r.Body).Decode(&keyValues); err != nil {
 		logger.Warn("failed to decode request", zap.Error(err))
 		_, _ = api.ModelEncodeResponse(w, http.StatusBadRequest, errors.ServerErrorModelRequestValidation(err))
+		return
 	}
 
 	if err := keyValues.Validate(datatypes.MinDataType, datatypes.MaxWithoutAnyDataType); err != nil {
 		logger.Warn("failed to validated request", zap.Error(err))
 		_, _ = api.ModelEncodeResponse(w, http.StatusBadRequest, errors.ServerErrorModelRequestValidation(err))
+		return
 	}
 
 	if err := qh.queueClient.DeleteChannel(ctx, urlrouter.GetNamedParamters(r.Context())["queue_name"], keyValues); err != nil {
-- 
2.43.0


From b9a4321247db85a59e53c1dee9571f6f2c0eed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 11/43] fix: willow item heartbeats name their content type,
 which the service requires

---
 pkg/clients/willow_client/item.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index 1643be2..3dabbec 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -97,6 +97,7 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 					item.forwardError(err)
 					continue
 				}
+				req.Header.Add("Content-Type", "application/json")
 
 				resp, err := client.Do(req)
 				// error making the request. This should not happen
-- 
2.43.0


From 709d85bd38d1eba5a10e3f389544d964c5d55806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 12/43] fix: willow item does not read the response of a
 heartbeat that failed after the ack

---
 pkg/clients/willow_client/item.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index 3dabbec..eb33926 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -105,6 +105,7 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 					select {
 					case <-item.done:
 						//nothing to do here. race between ack and heartbeat
+						return
 					default:
 						item.forwardError(err)
 						continue
-- 
2.43.0


From 2015fd8e85d77942024c5a0c1981e86b41a539e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 13/43] fix: willow item ack reports an unexpected answer

---
 pkg/clients/willow_client/item.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index eb33926..c6c8d06 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -209,10 +209,8 @@ func (item *Item) ACK(ctx context.Context, passed bool) error {
 
 		return apiError
 	default:
-		item.forwardError(fmt.Errorf("unexpected status code while heartbeating: %d", resp.StatusCode))
+		return fmt.Errorf("unexpected status code: %d", resp.StatusCode)
 	}
-
-	return nil
 }
 
 // get the dequeued item
-- 
2.43.0


From 0e26f649698c2859b3ec49fb699cbc1ff3646bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 14/43] fix: lock heartbeats call the error callback only when
 there is one

---
 pkg/clients/locker_client/lock.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/clients/locker_client/lock.go b/pkg/clients/locker_client/lock.go
index c5a0828..fd66c07 100644
--- a/pkg/clients/locker_client/lock.go
+++ b/pkg/clients/locker_client/lock.go
@@ -101,7 +101,9 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 			case <-ticker.C:
 				lockClaimData, err := api.ModelEncodeRequest(&v1locker.LockClaim{SessionID: lockResponse.State.SessionID})
 				if err != nil {
-					heartbeatErrorCallback(fmt.Errorf("failed to encode heartbeat request: %w", err))
+					if heartbeatErrorCallback != nil {
+						heartbeatErrorCallback(fmt.Errorf("failed to encode heartbeat request: %w", err))
+					}
 					return
 				}
 
-- 
2.43.0


From ad70ddc8d90055547029931e6fa61fa401287474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 15/43] fix: release the tree lock when a key is outside the
 type restrictions

---
 .../datastructures/btree/threadsafe_find.go   | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index a6b331a..d4645b9 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -44,7 +44,8 @@ func (btree *threadSafeBTree) Find(key datatypes.EncapsulatedValue, typeRestrict
 			shouldContinue := true
 
 			// we can find the exact type we are searching for
-			if !key.Type.LessMatchType(typeRestrictions.MinDataType) && !typeRestrictions.MaxDataType.LessMatchType(key.Type) {
+			inRange := !key.Type.LessMatchType(typeRestrictions.MinDataType) && !typeRestrictions.MaxDataType.LessMatchType(key.Type)
+			if inRange {
 				btree.root.lock.RLock()
 
 				// can unlock the root if we are not going to search for Any
@@ -66,7 +67,7 @@ func (btree *threadSafeBTree) Find(key datatypes.EncapsulatedValue, typeRestrict
 				btree.root.findMatchType(datatypes.Any(), func(item any) {
 					_ = onIterate(datatypes.Any(), item)
 				})
-			} else if typeRestrictions.MaxDataType == datatypes.T_any {
+			} else if typeRestrictions.MaxDataType == datatypes.T_any || !inRange {
 				btree.lock.RUnlock()
 			}
 
@@ -248,7 +249,8 @@ func (btree *threadSafeBTree) FindLessThan(key datatypes.EncapsulatedValue, type
 		shouldContinue := true
 
 		// we can find specific types for the provided key and below
-		if !key.Type.LessMatchType(typeRestrictions.MinDataType) {
+		inRange := !key.Type.LessMatchType(typeRestrictions.MinDataType)
+		if inRange {
 			btree.root.lock.RLock()
 
 			// can unlock the root if we are not going to search for Any
@@ -268,7 +270,7 @@ func (btree *threadSafeBTree) FindLessThan(key datatypes.EncapsulatedValue, type
 			btree.root.findMatchType(datatypes.Any(), func(item any) {
 				_ = onIterate(datatypes.Any(), item)
 			})
-		} else if typeRestrictions.MaxDataType == datatypes.T_any {
+		} else if typeRestrictions.MaxDataType == datatypes.T_any || !inRange {
 			btree.lock.RUnlock()
 		}
 	} else {
@@ -372,7 +374,8 @@ func (btree *threadSafeBTree) FindLessThanOrEqual(key datatypes.EncapsulatedValu
 		shouldContinue := true
 
 		// we can find specific types for the provided key and below
-		if !key.Type.LessMatchType(typeRestrictions.MinDataType) {
+		inRange := !key.Type.LessMatchType(typeRestrictions.MinDataType)
+		if inRange {
 			btree.root.lock.RLock()
 
 			// can unlock the root if we are not going to search for Any
@@ -392,7 +395,7 @@ func (btree *threadSafeBTree) FindLessThanOrEqual(key datatypes.EncapsulatedValu
 			btree.root.findMatchType(datatypes.Any(), func(item any) {
 				_ = onIterate(datatypes.Any(), item)
 			})
-		} else if typeRestrictions.MaxDataType == datatypes.T_any {
+		} else if typeRestrictions.MaxDataType == datatypes.T_any || !inRange {
 			btree.lock.RUnlock()
 		}
 	} else {
@@ -511,6 +514,8 @@ func (btree *threadSafeBTree) FindGreaterThan(key datatypes.EncapsulatedValue, t
 			btree.lock.RUnlock()
 
 			btree.root.findGreaterThan(key, typeRestrictions, onIterate)
+		} else {
+			btree.lock.RUnlock()
 		}
 	} else {
 		btree.lock.RUnlock()
@@ -615,6 +620,8 @@ func (btree *threadSafeBTree) FindGreaterThanOrEqual(key datatypes.EncapsulatedV
 			btree.lock.RUnlock()
 
 			btree.root.findGreaterThanOrEqual(key, typeRestrictions, onIterate)
+		} else {
+			btree.lock.RUnlock()
 		}
 	} else {
 		btree.lock.RUnlock()
-- 
2.43.0


From 66fd5eb49947b5551ac9d484421043ce0bbfcd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 16/43] fix: unlock the children that were locked when
 iterating is stopped

---
 internal/datastructures/btree/threadsafe_find.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index d4645b9..ebb77fd 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -169,7 +169,7 @@ func (bn *threadSafeBNode) iterate(typeRestrictions v1common.TypeRestrictions, c
 		// need to recurse to all potential children from the start index
 		if !children[i].iterate(typeRestrictions, callback) {
 			for unlockIndex := i + 1; unlockIndex < len(children); unlockIndex++ {
-				bn.children[unlockIndex].lock.RUnlock()
+				children[unlockIndex].lock.RUnlock()
 			}
 
 			return false
-- 
2.43.0


From 63366cbbfb4a69cce2a73e5b5f5c7bb6b58d5896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 17/43] fix: keep the entries of a leaf when a create is
 declined

---
 .../datastructures/btree/threadsafe_create.go | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/internal/datastructures/btree/threadsafe_create.go b/internal/datastructures/btree/threadsafe_create.go
index a1f7d5d..51654ed 100644
--- a/internal/datastructures/btree/threadsafe_create.go
+++ b/internal/datastructures/btree/threadsafe_create.go
@@ -308,16 +308,16 @@ func (bn *threadSafeBNode) createTreeItem(key datatypes.EncapsulatedValue, onCre
 				return ErrorKeyAlreadyExists
 			}
 
-			// shift current values all 1 position
-			for i := bn.numberOfValues; i > index; i-- {
-				bn.keyValues[i] = bn.keyValues[i-1]
-			}
-
 			break
 		}
 	}
 
 	if value := onCreate(); value != nil {
+		// shift current values all 1 position
+		for i := bn.numberOfValues; i > index; i-- {
+			bn.keyValues[i] = bn.keyValues[i-1]
+		}
+
 		bn.numberOfValues++
 		bn.keyValues[index] = &keyValue{key: key, value: value}
 	}
@@ -342,16 +342,16 @@ func (bn *threadSafeBNode) createOrFindTreeItem(key datatypes.EncapsulatedValue,
 				return
 			}
 
-			// shift current values all 1 position
-			for i := bn.numberOfValues; i > index; i-- {
-				bn.keyValues[i] = bn.keyValues[i-1]
-			}
-
 			break
 		}
 	}
 
 	if value := onCreate(); value != nil {
+		// shift current values all 1 position
+		for i := bn.numberOfValues; i > index; i-- {
+			bn.keyValues[i] = bn.keyValues[i-1]
+		}
+
 		bn.numberOfValues++
 		bn.keyValues[index] = &keyValue{key: key, value: value}
 	}
-- 
2.43.0


From b08d87781c890d6460889d46406a0ade3386d200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 18/43] fix: a tree is empty after its first create was
 declined

---
 internal/datastructures/btree/threadsafe_b_tree.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree/threadsafe_b_tree.go b/internal/datastructures/btree/threadsafe_b_tree.go
index a9a7494..2dfda6d 100644
--- a/internal/datastructures/btree/threadsafe_b_tree.go
+++ b/internal/datastructures/btree/threadsafe_b_tree.go
@@ -92,7 +92,14 @@ func (bt *threadSafeBTree) Empty() bool {
 	bt.lock.RLock()
 	defer bt.lock.RUnlock()
 
-	return bt.root == nil
+	if bt.root == nil {
+		return true
+	}
+
+	bt.root.lock.RLock()
+	defer bt.root.lock.RUnlock()
+
+	return bt.root.numberOfValues == 0
 }
 
 // general helper functions
-- 
2.43.0


From cc6f792d9ddb1f95fc6e266b54c53a204ec6899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 19/43] fix: range finds only offer types within the
 restrictions

---
 internal/datastructures/btree/threadsafe_find.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index ebb77fd..756bc79 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -293,7 +293,7 @@ func (bn *threadSafeBNode) findLessThan(key datatypes.EncapsulatedValue, typeRes
 		}
 
 		// the key in the tree is greater than the type we are looking for. So need to check the children
-		if key.Type.LessMatchType(keyValue.key.Type) {
+		if key.Type.LessMatchType(keyValue.key.Type) || typeRestrictions.MaxDataType.LessMatchType(keyValue.key.Type) {
 			break
 		}
 
@@ -418,7 +418,7 @@ func (bn *threadSafeBNode) findLessThanOrEqual(key datatypes.EncapsulatedValue,
 		}
 
 		// the key in the tree is greater than the type we are looking for. So need to check the children
-		if key.Type.LessMatchType(keyValue.key.Type) {
+		if key.Type.LessMatchType(keyValue.key.Type) || typeRestrictions.MaxDataType.LessMatchType(keyValue.key.Type) {
 			break
 		}
 
@@ -538,8 +538,8 @@ func (bn *threadSafeBNode) findGreaterThan(key datatypes.EncapsulatedValue, type
 			break
 		}
 
-		// if the key in the tree is less than the key we are searching for
-		if keyValue.key.LessMatchType(key) {
+		// if the key in the tree is less than the key we are searching for, or less than the restriction
+		if keyValue.key.LessMatchType(key) || keyValue.key.Type.LessMatchType(typeRestrictions.MinDataType) {
 			continue
 		}
 
@@ -644,8 +644,8 @@ func (bn *threadSafeBNode) findGreaterThanOrEqual(key datatypes.EncapsulatedValu
 			break
 		}
 
-		// if the key in the tree is less than the key we are searching for
-		if keyValue.key.LessMatchType(key) {
+		// if the key in the tree is less than the key we are searching for, or less than the restriction
+		if keyValue.key.LessMatchType(key) || keyValue.key.Type.LessMatchType(typeRestrictions.MinDataType) {
 			continue
 		}
 
-- 
2.43.0


From fa3da8d0cfef46c01f57eac5d3014f8c487aa489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:08 +0000
Subject: [PATCH 20/43] fix: release the ID nodes when deleting an item that is
 being destroyed

---
 .../datastructures/btree_associated/threadsafe_delete.go     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index d3a5d66..fbeffc9 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -113,6 +113,11 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 			if err := tsat.associatedIDs.Delete(datatypes.String(idToDelete), btreeDelete); err != nil {
 				switch err {
 				case btree.ErrorKeyDestroying:
+					// unlock all the nodes, the destroy operation needs them
+					for _, idNode := range idNodes {
+						idNode.lock.Unlock()
+					}
+
 					// this is fine since the key is already being desstroyed.
 					return ErrorTreeItemDestroying
 				default:
-- 
2.43.0


From fab0423d0d39973aa604669a8f62b7039e25d85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:47 +0000
Subject: [PATCH 21/43] fix: destroying an item by its id can deadlock with
 creating or deleting one

---
 .../btree_associated/threadsafe_create.go     |  7 +++++
 .../btree_associated/threadsafe_destroy.go    | 31 ++++++++++++-------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_create.go b/internal/datastructures/btree_associated/threadsafe_create.go
index b20ec4a..fc3a144 100644
--- a/internal/datastructures/btree_associated/threadsafe_create.go
+++ b/internal/datastructures/btree_associated/threadsafe_create.go
@@ -270,7 +270,9 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 	}
 
 	// must have been a race where 2 requests tried to create the same object
+	found := false
 	bTreeFind := func(key datatypes.EncapsulatedValue, item any) bool {
+		found = true
 		onFind(item.(AssociatedKeyValues))
 		return false
 	}
@@ -297,6 +299,11 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 			idNode.lock.Unlock()
 		}
 
+		// the item is already gone, but the destroy has not yet removed the id from the ID nodes
+		if !found {
+			return "", ErrorTreeItemDestroying
+		}
+
 		return idSet.Values()[0], nil
 	}
 
diff --git a/internal/datastructures/btree_associated/threadsafe_destroy.go b/internal/datastructures/btree_associated/threadsafe_destroy.go
index 90aadc8..6f9eacd 100644
--- a/internal/datastructures/btree_associated/threadsafe_destroy.go
+++ b/internal/datastructures/btree_associated/threadsafe_destroy.go
@@ -24,23 +24,24 @@ func (tsat *threadsafeAssociatedTree) DestroyByAssociatedID(associatedID string,
 	}
 	defer tsat.destroySyncer.ClearOperation()
 
+	// the item that was removed from the tree
+	var destroyed AssociatedKeyValues
+
 	// Don't need to check that the associatedID is being destroyed. That is handled in the bTree code.
 	bTreeCanDestroy := func(_ datatypes.EncapsulatedValue, item any) bool {
 		associatedKeyValues := item.(AssociatedKeyValues)
 
-		// 1. destroy the item
 		if canDelete != nil {
 			if !canDelete(associatedKeyValues) {
 				return false
 			}
 		}
 
-		// 2. the item was destroyed, need to remove the KeyValues that define the item
-		tsat.destroyKeyValues(associatedID, associatedKeyValues.KeyValues())
-
+		destroyed = associatedKeyValues
 		return true
 	}
 
+	// 1. destroy the item
 	if err := tsat.associatedIDs.Destroy(datatypes.String(associatedID), bTreeCanDestroy); err != nil {
 		// if the key or tree is already being destroed, that is fine, just return the values
 		switch err {
@@ -51,6 +52,12 @@ func (tsat *threadsafeAssociatedTree) DestroyByAssociatedID(associatedID string,
 		}
 	}
 
+	// 2. the item was destroyed, need to remove the KeyValues that define the item. This cannot be done while the
+	// associatedIDs are locked, since all other operations lock the ID nodes before the associatedIDs
+	if destroyed != nil {
+		tsat.destroyKeyValues(associatedID, destroyed.KeyValues())
+	}
+
 	return nil
 }
 
@@ -99,13 +106,15 @@ func (tsat *threadsafeAssociatedTree) destroyKeyValues(associatedID string, keyV
 			idNode.lock.Lock()
 			defer idNode.lock.Unlock()
 
-			// remove the id from the id node
-			for index, value := range idNode.ids[keyLength-1] {
-				if value == idToDelete {
-					// swap with last element
-					idNode.ids[keyLength-1][index] = idNode.ids[keyLength-1][len(idNode.ids[keyLength-1])-1]
-					// pop last element
-					idNode.ids[keyLength-1] = idNode.ids[keyLength-1][:len(idNode.ids[keyLength-1])-1]
+			// remove the id from the id node. Another delete might have already removed it
+			if len(idNode.ids) >= keyLength {
+				for index, value := range idNode.ids[keyLength-1] {
+					if value == idToDelete {
+						// swap with last element
+						idNode.ids[keyLength-1][index] = idNode.ids[keyLength-1][len(idNode.ids[keyLength-1])-1]
+						// pop last element
+						idNode.ids[keyLength-1] = idNode.ids[keyLength-1][:len(idNode.ids[keyLength-1])-1]
+					}
 				}
 			}
 
-- 
2.43.0


From dc994f76bdf641a6f36e4cccc42fc12786fd7ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:37 +0000
Subject: [PATCH 22/43] fix: a declined create must not be visible to, or
 delete, any other item

---
 .../btree_associated/threadsafe_associated.go |  7 +++++
 .../btree_associated/threadsafe_create.go     | 30 +++++++++++--------
 .../btree_associated/threadsafe_delete.go     |  7 ++++-
 3 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_associated.go b/internal/datastructures/btree_associated/threadsafe_associated.go
index 493f295..5d3f5d8 100644
--- a/internal/datastructures/btree_associated/threadsafe_associated.go
+++ b/internal/datastructures/btree_associated/threadsafe_associated.go
@@ -81,3 +81,10 @@ func newIDNode() *threadsafeIDNode {
 		ids:      [][]string{},
 	}
 }
+
+// truncate removes the empty trailing ids. Must be called with the lock
+func (idNode *threadsafeIDNode) truncate() {
+	for len(idNode.ids) > 0 && len(idNode.ids[len(idNode.ids)-1]) == 0 {
+		idNode.ids = idNode.ids[:len(idNode.ids)-1]
+	}
+}
diff --git a/internal/datastructures/btree_associated/threadsafe_create.go b/internal/datastructures/btree_associated/threadsafe_create.go
index fc3a144..998456c 100644
--- a/internal/datastructures/btree_associated/threadsafe_create.go
+++ b/internal/datastructures/btree_associated/threadsafe_create.go
@@ -133,13 +133,14 @@ func (tsat *threadsafeAssociatedTree) Create(keyValues datatypes.KeyValues, onCr
 		return "", ErrorKeyValuesAlreadyExists
 	}
 
-	// always save the new IDs so we can unlock the IDNodes
 	newID := tsat.idGenerator.ID()
-	for _, idNode := range idNodes {
-		idNode.ids[keyValuesLen-1] = append(idNode.ids[keyValuesLen-1], newID)
-	}
 
 	if newValue := onCreate(); newValue != nil {
+		// save the new ID
+		for _, idNode := range idNodes {
+			idNode.ids[keyValuesLen-1] = append(idNode.ids[keyValuesLen-1], newID)
+		}
+
 		onCreate := func() any {
 			newKeyValuesPair := datatypes.KeyValues{}
 			for key, value := range keyValues {
@@ -167,12 +168,13 @@ func (tsat *threadsafeAssociatedTree) Create(keyValues datatypes.KeyValues, onCr
 
 		// unlock the IDs
 		for _, idNode := range idNodes {
+			idNode.truncate()
 			idNode.creating.Add(-1)
 			idNode.lock.Unlock()
 		}
 
-		// call delete for the item to clean any newly created items
-		if err := tsat.Delete(keyValues, nil); err != nil {
+		// clean any newly created indexes
+		if err := tsat.deleteEmptyKeyValues(keyValues); err != nil {
 			panic(err)
 		}
 
@@ -307,13 +309,14 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 		return idSet.Values()[0], nil
 	}
 
-	// always save the new IDs so we can unlock the IDNodes
 	newID := tsat.idGenerator.ID()
-	for _, idNode := range idNodes {
-		idNode.ids[keyValuesLen-1] = append(idNode.ids[keyValuesLen-1], newID)
-	}
 
 	if newValue := onCreate(); newValue != nil {
+		// save the new ID
+		for _, idNode := range idNodes {
+			idNode.ids[keyValuesLen-1] = append(idNode.ids[keyValuesLen-1], newID)
+		}
+
 		onCreate := func() any {
 			newKeyValuesPair := datatypes.KeyValues{}
 			for key, value := range keyValues {
@@ -341,12 +344,15 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 
 		// unlock the IDs
 		for _, idNode := range idNodes {
+			idNode.truncate()
 			idNode.creating.Add(-1)
 			idNode.lock.Unlock()
 		}
 
-		// call delete for the item to clean everything up
-		tsat.Delete(keyValues, nil)
+		// clean any newly created indexes
+		if err := tsat.deleteEmptyKeyValues(keyValues); err != nil {
+			panic(err)
+		}
 	}
 
 	return newID, nil
diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index fbeffc9..5127c9c 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -157,6 +157,11 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 		}
 	}
 
+	return tsat.deleteEmptyKeyValues(keyValues)
+}
+
+// deleteEmptyKeyValues removes the indexes for the KeyValues that have no saved IDs
+func (tsat *threadsafeAssociatedTree) deleteEmptyKeyValues(keyValues datatypes.KeyValues) error {
 	// remove the KEYs and VALUEs if there are no more saved IDs
 	deleteValue := func(_ datatypes.EncapsulatedValue, item any) bool {
 		// don't need to lock here. BTree has exclusive lock access already
@@ -181,7 +186,7 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 	}
 
 	// cleanup any indexes that are now empty
-	for _, key := range sortedKeys {
+	for _, key := range keyValues.SortedKeys() {
 		if err := tsat.keys.Delete(datatypes.String(key), deleteKey(key)); err != nil {
 			return err
 		}
-- 
2.43.0


From 9eff55376e2ef205030875e83ba3d694be4bbb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:55 +0000
Subject: [PATCH 23/43] fix: deleting an item by its id can delete another item
 with the same key values

---
 .../btree_associated/threadsafe_delete.go             | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index 5127c9c..fb1b15a 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -237,7 +237,16 @@ func (tsat *threadsafeAssociatedTree) DeleteByAssociatedID(assocaitedID string,
 	}
 
 	if keyValues != nil {
-		return tsat.Delete(keyValues, canDelete)
+		// another item with the same key values might have been created since the ID was found
+		canDeleteID := func(item AssociatedKeyValues) bool {
+			if item.AssociatedID() != assocaitedID {
+				return false
+			}
+
+			return canDelete == nil || canDelete(item)
+		}
+
+		return tsat.Delete(keyValues, canDeleteID)
 	}
 
 	return nil
-- 
2.43.0


From cbc813535c1bc43c75a2177d48490cb07b351104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:30 +0000
Subject: [PATCH 24/43] fix: nested or missing empty queries select everything
 rather than panic

---
 .../datastructures/btree_associated/threadsafe_query.go    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_query.go b/internal/datastructures/btree_associated/threadsafe_query.go
index b69f9da..da73504 100644
--- a/internal/datastructures/btree_associated/threadsafe_query.go
+++ b/internal/datastructures/btree_associated/threadsafe_query.go
@@ -39,7 +39,7 @@ func (tsat *threadsafeAssociatedTree) QueryAction(query *queryassociatedaction.A
 	defer tsat.destroySyncer.ClearOperation()
 
 	// select all
-	if query.Selection == nil && query.And == nil && query.Or == nil {
+	if query == nil || (query.Selection == nil && len(query.And) == 0 && len(query.Or) == 0) {
 		wrappedPagination := func(_ datatypes.EncapsulatedValue, item any) bool {
 			return onQueryPagination(item.(AssociatedKeyValues))
 		}
@@ -89,6 +89,11 @@ func (tsat *threadsafeAssociatedTree) query(query *queryassociatedaction.Associa
 	var validIDs set.Set[string]
 	validCounter := 0
 
+	// select all
+	if query.Selection == nil && len(query.And) == 0 && len(query.Or) == 0 {
+		return tsat.findIDs(&queryassociatedaction.Selection{})
+	}
+
 	// find IDs based off the Where clause
 	if query.Selection != nil {
 		validIDs = tsat.findIDs(query.Selection)
-- 
2.43.0


From fa5d56f4dcbde70384eae53d05f335955b6f6c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:31 +0000
Subject: [PATCH 25/43] fix: MatchTags matched everything for a query made of
 ORs only

---
 .../v1/query_associated_action/associated_action_query.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/models/api/common/v1/query_associated_action/associated_action_query.go b/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
index bc92797..e1c832a 100644
--- a/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
+++ b/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
@@ -97,7 +97,13 @@ func KeyValuesToExactAssociatedActionQuery(keyValues datatypes.KeyValues) *Assoc
 
 // used to know if arbitrary tags, would be found from a query
 func (q *AssociatedActionQuery) MatchTags(tags datatypes.KeyValues) bool {
-	matched := true
+	// an empty query selects everything
+	if q == nil || (q.Selection == nil && len(q.And) == 0 && len(q.Or) == 0) {
+		return true
+	}
+
+	// when there are only ORs, at least one of them must match
+	matched := q.Selection != nil || len(q.And) != 0
 
 	// if Query is not nil, check the tags
 	if q.Selection != nil {
-- 
2.43.0


From 3f4d44b60f0c60a4fa2626cec9aa9299e89786d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:02 +0000
Subject: [PATCH 26/43] fix: MatchAction stopped at an item that is deleted or
 being destroyed

---
 internal/datastructures/btree_associated/threadsafe_match.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_match.go b/internal/datastructures/btree_associated/threadsafe_match.go
index 9346a8c..981021e 100644
--- a/internal/datastructures/btree_associated/threadsafe_match.go
+++ b/internal/datastructures/btree_associated/threadsafe_match.go
@@ -136,7 +136,8 @@ func (tsat *threadsafeAssociatedTree) MatchAction(matchActionQuery *querymatchac
 
 		// run the callback for all the found IDs
 		for _, id := range validGroupedIDs.Values() {
-			shouldContinue := false
+			// an id that is no longer there, or being destroyed, is skipped
+			shouldContinue := true
 			tsat.associatedIDs.Find(datatypes.String(id), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(key datatypes.EncapsulatedValue, item any) bool {
 				shouldContinue = onQueryPagination(item.(AssociatedKeyValues))
 				return shouldContinue
-- 
2.43.0


From 1b1f4270384413274f9e57ad07ef6a03dbed45cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:03 +0000
Subject: [PATCH 27/43] fix: a match with contradicting limits is rejected
 rather than panics

---
 pkg/models/api/common/v1/query_match_action/match_query.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/models/api/common/v1/query_match_action/match_query.go b/pkg/models/api/common/v1/query_match_action/match_query.go
index 1ac3095..6417639 100644
--- a/pkg/models/api/common/v1/query_match_action/match_query.go
+++ b/pkg/models/api/common/v1/query_match_action/match_query.go
@@ -34,6 +34,13 @@ func (matchActionQuery *MatchActionQuery) Validate() *errors.ModelError {
 		}
 	}
 
+	// ensure number of KeyValues are proper
+	if matchActionQuery.MinNumberOfPermutationKeyValues != nil && matchActionQuery.MaxNumberOfPermutationKeyValues != nil {
+		if *matchActionQuery.MaxNumberOfPermutationKeyValues < *matchActionQuery.MinNumberOfPermutationKeyValues {
+			return &errors.ModelError{Err: fmt.Errorf("MaxNumberOfPermutationKeyValues is less than MinNumberOfPermutationKeyValues")}
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From e5c4fb396bf2524d65e6023a222ec6305a9e540c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:45 +0000
Subject: [PATCH 28/43] fix: a one to many item could be seen before its id was
 recorded

---
 .../btree_one_to_many/one_to_many_item.go     | 19 ++++++++++++++++++-
 .../btree_one_to_many/threadsafe_create.go    | 14 ++------------
 .../btree_one_to_many/threadsafe_delete.go    |  2 +-
 .../btree_one_to_many/threadsafe_destroy.go   |  4 ++--
 .../btree_one_to_many/threadsafe_match.go     |  2 +-
 .../btree_one_to_many/threadsafe_query.go     |  2 +-
 6 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/internal/datastructures/btree_one_to_many/one_to_many_item.go b/internal/datastructures/btree_one_to_many/one_to_many_item.go
index 6f0d648..7198058 100644
--- a/internal/datastructures/btree_one_to_many/one_to_many_item.go
+++ b/internal/datastructures/btree_one_to_many/one_to_many_item.go
@@ -1,6 +1,9 @@
 package btreeonetomany
 
-import "github.com/DanLavine/willow/pkg/models/datatypes"
+import (
+	btreeassociated "github.com/DanLavine/willow/internal/datastructures/btree_associated"
+	"github.com/DanLavine/willow/pkg/models/datatypes"
+)
 
 type OneToManyItem interface {
 	// return the original value for the item saved in the tree
@@ -47,3 +50,17 @@ func (otmi *oneToManyItem) ManyKeyValues() datatypes.KeyValues {
 
 	return newKeyValues
 }
+
+// foundItem is the item that can be passed to any callbacks. The ID is known only once the item has been saved in the
+// associated tree, where other operations can already read it. So it is taken from there, rather than recorded on the
+// saved item
+func foundItem(item btreeassociated.AssociatedKeyValues) OneToManyItem {
+	saved := item.Value().(*oneToManyItem)
+
+	return &oneToManyItem{
+		value:         saved.value,
+		oneID:         saved.oneID,
+		manyID:        item.AssociatedID(),
+		manyKeyValues: saved.manyKeyValues,
+	}
+}
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_create.go b/internal/datastructures/btree_one_to_many/threadsafe_create.go
index d79451d..c453916 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_create.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_create.go
@@ -49,8 +49,6 @@ func (otm *threadsafeOneToManyTree) CreateOrFind(oneID string, manyKeyValues dat
 		threadsafeValuesNode := item.(*threadsafeValuesNode)
 
 		//create the many relationship
-		var newOneToManyItem *oneToManyItem
-		created := false
 		associatedCreate := func() any {
 			// create the original item passed in
 			item := onCreate()
@@ -58,19 +56,16 @@ func (otm *threadsafeOneToManyTree) CreateOrFind(oneID string, manyKeyValues dat
 				return nil
 			}
 
-			created = true
-			newOneToManyItem = &oneToManyItem{
+			return &oneToManyItem{
 				value:         item,
 				oneID:         oneID,
 				manyKeyValues: manyKeyValues,
 			}
-
-			return newOneToManyItem
 		}
 
 		// found the many relationship
 		associatedFind := func(item btreeassociated.AssociatedKeyValues) {
-			onFind(item.Value().(OneToManyItem))
+			onFind(foundItem(item))
 		}
 
 		// create the many relationship
@@ -90,11 +85,6 @@ func (otm *threadsafeOneToManyTree) CreateOrFind(oneID string, manyKeyValues dat
 		default:
 			panic(err)
 		}
-
-		// record the many ID if it was newly created. This is still thread safe as it is in the BTree's create method
-		if created {
-			newOneToManyItem.manyID = createOrFindID
-		}
 	}
 
 	bTreeCreateOne := func() any {
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_delete.go b/internal/datastructures/btree_one_to_many/threadsafe_delete.go
index 741e78f..f4f3f50 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_delete.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_delete.go
@@ -32,7 +32,7 @@ func (tree *threadsafeOneToManyTree) DeleteOneOfManyByKeyValues(oneID string, ma
 	bTreeAssociatedDeleteMany := func(item btreeassociated.AssociatedKeyValues) bool {
 		deleted := true
 		if canDelete != nil {
-			deleted = canDelete(item.Value().(OneToManyItem))
+			deleted = canDelete(foundItem(item))
 		}
 
 		return deleted
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_destroy.go b/internal/datastructures/btree_one_to_many/threadsafe_destroy.go
index 4966d31..5cf11fb 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_destroy.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_destroy.go
@@ -29,7 +29,7 @@ func (tree *threadsafeOneToManyTree) DestroyOne(oneID string, canDelete OneToMan
 	deleted := true
 	bTreeAssociatedDelete := func(item btreeassociated.AssociatedKeyValues) bool {
 		if canDelete != nil {
-			deleted = canDelete(item.Value().(OneToManyItem))
+			deleted = canDelete(foundItem(item))
 		}
 
 		return deleted
@@ -83,7 +83,7 @@ func (tree *threadsafeOneToManyTree) DestroyOneOfManyByID(oneID string, manyID s
 	bTreeAssociatedDestoyMany := func(item btreeassociated.AssociatedKeyValues) bool {
 		deleted := true
 		if canDelete != nil {
-			deleted = canDelete(item.Value().(OneToManyItem))
+			deleted = canDelete(foundItem(item))
 		}
 
 		return deleted
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_match.go b/internal/datastructures/btree_one_to_many/threadsafe_match.go
index 9594a42..e87a692 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_match.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_match.go
@@ -29,7 +29,7 @@ func (tree *threadsafeOneToManyTree) MatchAction(oneID string, matchActionQuery
 	}
 
 	bTreeAssociatedOnIterate := func(item btreeassociated.AssociatedKeyValues) bool {
-		return onIterate(item.Value().(OneToManyItem))
+		return onIterate(foundItem(item))
 	}
 
 	bTreeFindOne := func(key datatypes.EncapsulatedValue, item any) bool {
diff --git a/internal/datastructures/btree_one_to_many/threadsafe_query.go b/internal/datastructures/btree_one_to_many/threadsafe_query.go
index ae3cb0a..ba41f89 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_query.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_query.go
@@ -33,7 +33,7 @@ func (tree *threadsafeOneToManyTree) QueryAction(oneID string, query *queryassoc
 	}
 
 	bTreeAssociatedIterate := func(item btreeassociated.AssociatedKeyValues) bool {
-		return onIterate(item.Value().(OneToManyItem))
+		return onIterate(foundItem(item))
 	}
 
 	bTreeFindOne := func(key datatypes.EncapsulatedValue, item any) bool {
-- 
2.43.0


From ec9c0c051031b6bb8b7c48bcd9c3477aafa77b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:54 +0000
Subject: [PATCH 29/43] fix: deleting a queue while a timeout or a dequeue
 looks for its channels stopped the server

---
 .../brokers/queue_channels/queue_channels_client_local.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/queue_channels_client_local.go b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
index d1b664b..1956c94 100644
--- a/internal/willow/brokers/queue_channels/queue_channels_client_local.go
+++ b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
@@ -141,7 +141,8 @@ func (qccl *queueChannelsClientLocal) attemptDeleteChannel(logger *zap.Logger, q
 
 	if err := qccl.queueChannels.DeleteOneOfManyByKeyValues(queueName, channelKeyValues, deleteChannel); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying, btreeonetomany.ErrorManyIDDestroying, btreeonetomany.ErrorManyKeyValuesDestroying:
+			// timeouts run in the background, so the queue or the channel can be deleted at the same time
 			logger.Debug("Already destroying the queue's channel on a timeout")
 		default:
 			logger.Fatal("Failed to delete channels for queue", zap.Error(err))
@@ -241,8 +242,9 @@ func (qccl *queueChannelsClientLocal) DequeueQueueItem(ctx context.Context, queu
 
 		if err := qccl.queueChannels.QueryAction(queueName, dequeueQuery, bTreeOneToManyOnIterate); err != nil {
 			switch err {
-			//case btreeonetomany.ErrorOneIDDestroying
-			// This shouldn't happen as the 'Queue' should ensure these don't process once it starts destroying
+			case btreeonetomany.ErrorOneIDDestroying:
+				// this can still be running when the client was already answered and the queue is deleted
+				logger.Debug("queue is being destroyed, stopped looking for channels")
 			default:
 				logger.Error("failed to create or find the queue channels", zap.Error(err))
 				panic(err)
-- 
2.43.0


From 7f845730bcc6f9d5794ed1ca87a61b288e261eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:46 +0000
Subject: [PATCH 30/43] fix: a channel deleted while one of its items is handed
 out or times out stopped the server or handed out nothing

---
 .../memory/memory_queue_channel.go            | 36 +++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 769a222..b9bd9cc 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -548,7 +548,13 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 	}
 
 	if err := mqc.items.Delete(datatypes.String(itemID), canDelete); err != nil {
-		panic(err)
+		switch err {
+		case btree.ErrorTreeDestroying:
+			// the channel and all of its items are being deleted
+			return false
+		default:
+			panic(err)
+		}
 	}
 
 	// need to check the last enqueued item to see if it can be dropped
@@ -579,7 +585,13 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 		}
 
 		if err := mqc.items.Delete(datatypes.String(backID), canDeleteLastItem); err != nil {
-			panic(err)
+			switch err {
+			case btree.ErrorTreeDestroying:
+				// the channel and all of its items are being deleted
+				return false
+			default:
+				panic(err)
+			}
 		}
 	}
 
@@ -623,7 +635,7 @@ func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, fun
 	mqc.itemsLock.Unlock()
 
 	// 2. successfully incremented the counters, pull an item off for the client
-	dequeueItem := &v1willow.Item{}
+	var dequeueItem *v1willow.Item
 
 	onFind := func(key datatypes.EncapsulatedValue, treeItem any) bool {
 		queueItem := treeItem.(*item)
@@ -670,10 +682,20 @@ func (mqc *memoryQueueChannel) dequeue(ctx context.Context) (*v1willow.Item, fun
 		return false
 	}
 
-	if err := mqc.items.Find(datatypes.String(firtItemID), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil {
+	if err := mqc.items.Find(datatypes.String(firtItemID), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onFind); err != nil && err != btree.ErrorTreeDestroying {
 		panic(err)
 	}
 
+	// the channel was deleted before the item could be handed out
+	if dequeueItem == nil {
+		if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
+			logger.Error("failed to reset the counter for the deleted queue item", zap.Error(err))
+		}
+
+		mqc.dequeueResponseChan <- false
+		return nil, nil, nil
+	}
+
 	return dequeueItem, mqc.successfulDequeue(ctx, firtItemID), mqc.failedDequeue(ctx, firtItemID)
 }
 
@@ -696,7 +718,8 @@ func (mqc *memoryQueueChannel) successfulDequeue(ctx context.Context, itemID str
 			return false
 		}
 
-		if err := mqc.items.Find(datatypes.String(itemID), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onfindBTree); err != nil {
+		// the channel can be deleted at the same time, but still needs to be informed that the item was sent
+		if err := mqc.items.Find(datatypes.String(itemID), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, onfindBTree); err != nil && err != btree.ErrorTreeDestroying {
 			panic(err)
 		}
 
@@ -751,7 +774,8 @@ func (mqc *memoryQueueChannel) failedDequeue(ctx context.Context, itemID string)
 			return false
 		}
 
-		if err := mqc.items.Delete(datatypes.String(itemID), canDelete); err != nil {
+		// the channel can be deleted at the same time, but still needs to be informed that the item was not sent
+		if err := mqc.items.Delete(datatypes.String(itemID), canDelete); err != nil && err != btree.ErrorTreeDestroying {
 			panic(err)
 		}
 
-- 
2.43.0


From b70e1744fa3252fcd944ac86190e546c367fc59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:26 +0000
Subject: [PATCH 31/43] fix: a limiter error while a queue is updated or
 deleted panicked with the queue's lock held, and a failed update changed the
 reported limit

---
 .../brokers/queues/memory/memory_queue.go     | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/internal/willow/brokers/queues/memory/memory_queue.go b/internal/willow/brokers/queues/memory/memory_queue.go
index ec73b7c..5779f55 100644
--- a/internal/willow/brokers/queues/memory/memory_queue.go
+++ b/internal/willow/brokers/queues/memory/memory_queue.go
@@ -67,8 +67,6 @@ func (mq *memoryQueue) ConfiguredLimit() int64 {
 
 func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateReq *v1willow.QueueProperties) *errors.ServerError {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "Update")
-	mq.configuredLimit.Store(*updateReq.MaxItems)
-
 	// get the original override id
 	overrides, err := mq.limiterClient.QueryOverrides(ctx, limiterRuleID, &queryassociatedaction.AssociatedActionQuery{
 		Selection: &queryassociatedaction.Selection{
@@ -95,10 +93,12 @@ func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateR
 		},
 	})
 	if err != nil {
-		panic(err)
+		logger.Error("Failed to query the Limiter override", zap.Error(err))
+		return errors.InternalServerError
 	}
 	if len(overrides) != 1 {
-		panic(overrides)
+		logger.Error("Failed to find the Limiter override", zap.Int("found", len(overrides)))
+		return errors.InternalServerError
 	}
 
 	// need to create an override for the willow Rules in the limiter
@@ -110,6 +110,8 @@ func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateR
 		return errors.InternalServerError
 	}
 
+	mq.configuredLimit.Store(*updateReq.MaxItems)
+
 	return nil
 }
 
@@ -136,20 +138,21 @@ func (mq *memoryQueue) Destroy(ctx context.Context, limiterRuleID, queueID strin
 					},
 				},
 			},
+			MinNumberOfKeyValues: helpers.PointerOf(2),
+			MaxNumberOfKeyValues: helpers.PointerOf(2),
 		},
 	})
 	if err != nil {
-		panic(err)
-	}
-	if len(overrides) != 1 {
-		panic(overrides)
+		logger.Error("Failed to query the Limiter override", zap.Error(err))
+		return errors.InternalServerError
 	}
 
-	// need to delete the override for the willow Rules in the limiter
-	err = mq.limiterClient.DeleteOverride(ctx, limiterRuleID, overrides[0].State.ID)
-	if err != nil {
-		logger.Error("Failed to delete the Limiter override", zap.Error(err))
-		return errors.InternalServerError
+	// need to delete the override for the willow Rules in the limiter. there is none left if a previous attempt already deleted it
+	for _, override := range overrides {
+		if err = mq.limiterClient.DeleteOverride(ctx, limiterRuleID, override.State.ID); err != nil {
+			logger.Error("Failed to delete the Limiter override", zap.Error(err))
+			return errors.InternalServerError
+		}
 	}
 
 	return nil
-- 
2.43.0


From eeb46e02c820f96eb7f7ea9cf96bdb34ffe4c5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:19 +0000
Subject: [PATCH 32/43] fix: a limiter error while a channel waits for its
 limit stopped the server

---
 .../memory/memory_queue_channel.go              | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index b9bd9cc..a41f2dc 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -192,16 +192,15 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 				for {
 					// find any rules we might be at the limit for
 					rules, err := mqc.limiterClient.MatchRules(context.Background(), querymatchaction.KeyValuesToAnyMatchActionQuery(erroredKeyValues))
-					if err != nil {
-						panic(err)
-					}
 
-					// for each rule, query the counters to know if there is an issue
-					underLimit := true
+					// for each rule, query the counters to know if there is an issue. When the limiter cannot answer, assume that
+					// the limit is still reached and check again later
+					underLimit := err == nil
 					for _, rule := range rules {
 						overrides, err := mqc.limiterClient.MatchOverrides(context.Background(), rule.State.ID, querymatchaction.KeyValuesToAnyMatchActionQuery(erroredKeyValues))
 						if err != nil {
-							panic(err)
+							underLimit = false
+							break
 						}
 
 						switch len(overrides) {
@@ -239,7 +238,8 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 
 							counters, err := mqc.limiterClient.QueryCounters(context.Background(), query)
 							if err != nil {
-								panic(err)
+								underLimit = false
+								break
 							}
 
 							totalCount := int64(0)
@@ -285,7 +285,8 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 
 								counters, err := mqc.limiterClient.QueryCounters(context.Background(), query)
 								if err != nil {
-									panic(err)
+									underLimit = false
+									break
 								}
 
 								totalCount := int64(0)
-- 
2.43.0


From e5517eca198987fc950f57428cd2ad6a0fca7026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:50 +0000
Subject: [PATCH 33/43] fix: a channel held back by a limit that groups by any
 value retried without pause, the counters were never found

---
 .../brokers/queue_channels/memory/memory_queue_channel.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index a41f2dc..86723f9 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -225,7 +225,9 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 								},
 							}
 
-							for key, value := range rule.Spec.DBDefinition.GroupByKeyValues {
+							for key := range rule.Spec.DBDefinition.GroupByKeyValues {
+								// the rule can group by any value, but only the channel's own values count
+								value := erroredKeyValues[key]
 								query.Selection.KeyValues[key] = queryassociatedaction.ValueQuery{
 									Value:      value,
 									Comparison: v1common.Equals,
@@ -272,7 +274,9 @@ func (mqc *memoryQueueChannel) Execute(ctx context.Context) error {
 									},
 								}
 
-								for key, value := range override.Spec.DBDefinition.GroupByKeyValues {
+								for key := range override.Spec.DBDefinition.GroupByKeyValues {
+									// the override can group by any value, but only the channel's own values count
+									value := erroredKeyValues[key]
 									query.Selection.KeyValues[key] = queryassociatedaction.ValueQuery{
 										Value:      value,
 										Comparison: v1common.Equals,
-- 
2.43.0


From d365e9beeacf5851fcb40c1f0b551fea28350c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:29 +0000
Subject: [PATCH 34/43] fix: a heartbeat arriving before its process was
 started blocked, with the item's lock held, against the start it was waiting
 for

---
 internal/heartbeater/heartbeater.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/heartbeater/heartbeater.go b/internal/heartbeater/heartbeater.go
index 3551124..f916074 100644
--- a/internal/heartbeater/heartbeater.go
+++ b/internal/heartbeater/heartbeater.go
@@ -86,10 +86,16 @@ func (h *heartbeater) Execute(ctx context.Context) error {
 	defer close(h.doneChan)
 
 	// wait for start or stop instruction to be called
-	select {
-	case <-h.start:
-	case <-h.stopChan:
-		return nil
+	for waiting := true; waiting; {
+		select {
+		case <-h.start:
+			waiting = false
+		case <-h.stopChan:
+			return nil
+		case <-h.heartbeaterChan:
+			// in this case, the client sent a heartbeat before the process is started. There is nothing to time out yet, but
+			// the caller must not block the Start call that follows
+		}
 	}
 
 	timer := time.NewTicker(h.timeout)
-- 
2.43.0


From 1ad7ea05a95be3507e47fa3a75448ed34c09974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:05 +0000
Subject: [PATCH 35/43] fix: a service that never answered a heartbeat kept a
 lock or item past its timeout, and releasing the lock blocked

---
 pkg/clients/locker_client/lock.go | 6 +++++-
 pkg/clients/willow_client/item.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/clients/locker_client/lock.go b/pkg/clients/locker_client/lock.go
index fd66c07..c75cbed 100644
--- a/pkg/clients/locker_client/lock.go
+++ b/pkg/clients/locker_client/lock.go
@@ -90,6 +90,10 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 		ticker := time.NewTicker(adjustedTimeout / 3)
 		timeoutTicker := time.NewTicker(lock.timeout)
 
+		// a service that never answers must not keep the lock past its timeout, or block releasing it
+		heartbeatClient := *client
+		heartbeatClient.Timeout = adjustedTimeout / 3
+
 		for {
 			select {
 			case <-lock.done:
@@ -116,7 +120,7 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 				}
 				req.Header.Add("Content-Type", "application/json")
 
-				resp, err := client.Do(req)
+				resp, err := heartbeatClient.Do(req)
 				if err != nil {
 					if heartbeatErrorCallback != nil {
 						heartbeatErrorCallback(fmt.Errorf("failed to heartbeat: %w", err))
diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index c6c8d06..5e6db85 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -68,6 +68,10 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 		adjustedTimeout := item.heartbeatTimeout - (item.heartbeatTimeout / 10)
 		ticker := time.NewTicker(adjustedTimeout / 3)
 
+		// a service that never answers must not keep the item past its timeout
+		heartbeatClient := *client
+		heartbeatClient.Timeout = adjustedTimeout / 3
+
 		for {
 			select {
 			case <-item.done:
@@ -99,7 +103,7 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 				}
 				req.Header.Add("Content-Type", "application/json")
 
-				resp, err := client.Do(req)
+				resp, err := heartbeatClient.Do(req)
 				// error making the request. This should not happen
 				if err != nil {
 					select {
-- 
2.43.0


From 03fda77e853acde073beddb1dfe81eb02d631c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:06 +0000
Subject: [PATCH 36/43] fix: obtaining a lock for key values the client's tree
 refuses answered neither a lock nor an error

---
 pkg/clients/locker_client/locker_client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/clients/locker_client/locker_client.go b/pkg/clients/locker_client/locker_client.go
index 7b1ea7b..0f7a8d3 100644
--- a/pkg/clients/locker_client/locker_client.go
+++ b/pkg/clients/locker_client/locker_client.go
@@ -214,7 +214,9 @@ func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock
 	}
 
 	// create or find the lock if we already have it
-	_, _ = lc.locks.CreateOrFind(lockRequest.Spec.DBDefinition.KeyValues, onCreate, onFind)
+	if _, err := lc.locks.CreateOrFind(lockRequest.Spec.DBDefinition.KeyValues, onCreate, onFind); err != nil {
+		return nil, err
+	}
 
 	return returnLock, lockErr
 }
-- 
2.43.0


From 95c1df0efd5aeb54e1121e7b5a79adcf0b734a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:46 +0000
Subject: [PATCH 37/43] fix: a lock or item with a negative timeout, or an item
 with none, crashed the service that ran its timer

---
 pkg/models/api/locker/v1/lock.go | 4 ++--
 pkg/models/api/willow/v1/item.go | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/models/api/locker/v1/lock.go b/pkg/models/api/locker/v1/lock.go
index 0df335d..923d4c8 100644
--- a/pkg/models/api/locker/v1/lock.go
+++ b/pkg/models/api/locker/v1/lock.go
@@ -118,8 +118,8 @@ type LockProperties struct {
 
 func (lockProperties *LockProperties) Validate() *errors.ModelError {
 	if lockProperties.Timeout != nil {
-		if *lockProperties.Timeout == 0 {
-			return &errors.ModelError{Field: "Timeout", Err: fmt.Errorf("received a timeout duration of 0. Requires a valid time duration represented as int64 nanosecond")}
+		if *lockProperties.Timeout <= 0 {
+			return &errors.ModelError{Field: "Timeout", Err: fmt.Errorf("received a timeout duration of 0 or less. Requires a valid time duration represented as int64 nanosecond")}
 		}
 	}
 
diff --git a/pkg/models/api/willow/v1/item.go b/pkg/models/api/willow/v1/item.go
index e1f3cd6..dcc5529 100644
--- a/pkg/models/api/willow/v1/item.go
+++ b/pkg/models/api/willow/v1/item.go
@@ -141,6 +141,10 @@ func (itemProperties *ItemProperties) Validate() *errors.ModelError {
 		return &errors.ModelError{Field: "TimeoutDuration", Err: fmt.Errorf("received a null value")}
 	}
 
+	if *itemProperties.TimeoutDuration <= 0 {
+		return &errors.ModelError{Field: "TimeoutDuration", Err: fmt.Errorf("received a timeout duration of 0 or less")}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 388e60e6acd6723195ce6684073989b30b1f7d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:47 +0000
Subject: [PATCH 38/43] fix: creating a queue without properties dereferenced
 them, with the queues locked

---
 pkg/models/api/willow/v1/queue.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/models/api/willow/v1/queue.go b/pkg/models/api/willow/v1/queue.go
index 09922ba..f13d9de 100644
--- a/pkg/models/api/willow/v1/queue.go
+++ b/pkg/models/api/willow/v1/queue.go
@@ -59,8 +59,6 @@ type QueueSpec struct {
 	DBDefinition *QueueDBDefinition `json:"DBDefinition,omitempty"`
 
 	// Properties are the configurable/updateable fields for the Rule
-	//
-	// This is an optional field as all the properties are currently optional
 	Properties *QueueProperties `json:"Properties,omitempty"`
 }
 
@@ -73,7 +71,9 @@ func (queueSpec *QueueSpec) Validate() *errors.ModelError {
 		}
 	}
 
-	if queueSpec.Properties != nil {
+	if queueSpec.Properties == nil {
+		return &errors.ModelError{Field: "Properties", Err: fmt.Errorf("received a null value")}
+	} else {
 		if err := queueSpec.Properties.Validate(); err != nil {
 			return &errors.ModelError{Field: "Properties", Child: err}
 		}
-- 
2.43.0


From b154ad03e16523babc977504a687574343997d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:17 +0000
Subject: [PATCH 39/43] fix: querying the locks read a lock's session and
 timeout while they changed

---
 internal/locker/lock_manager/exclusive_locker.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/locker/lock_manager/exclusive_locker.go b/internal/locker/lock_manager/exclusive_locker.go
index f894acd..cd052ee 100644
--- a/internal/locker/lock_manager/exclusive_locker.go
+++ b/internal/locker/lock_manager/exclusive_locker.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/DanLavine/goasync"
 	btreeassociated "github.com/DanLavine/willow/internal/datastructures/btree_associated"
+	"github.com/DanLavine/willow/internal/helpers"
 	"github.com/DanLavine/willow/internal/middleware"
 	"github.com/DanLavine/willow/internal/reporting"
 	"github.com/DanLavine/willow/pkg/models/api/common/errors"
@@ -159,12 +160,12 @@ func (exclusiveLocker *exclusiveLocker) LocksQuery(ctx context.Context, query *q
 					KeyValues: associatedKeyValues.KeyValues(),
 				},
 				Properties: &v1locker.LockProperties{
-					Timeout: &exclusiveLock.lockTimeout,
+					Timeout: helpers.PointerOf(exclusiveLock.getLockTimeout()),
 				},
 			},
 			State: &v1locker.LockState{
 				LockID:             associatedKeyValues.AssociatedID(),
-				SessionID:          exclusiveLock.sessionID,
+				SessionID:          exclusiveLock.getSessionID(),
 				TimeTillExipre:     expireTime,
 				LocksHeldOrWaiting: exclusiveLock.clientsWaitingForClaim.Load(),
 			},
-- 
2.43.0


From 82078413f4b6fe17fdd8fd0538f19061e5571a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:29 +0000
Subject: [PATCH 40/43] fix: values that are not a number were accepted
 although they cannot be ordered

---
 pkg/models/datatypes/encapsulated_value.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/models/datatypes/encapsulated_value.go b/pkg/models/datatypes/encapsulated_value.go
index d31ff57..5aff5f9 100644
--- a/pkg/models/datatypes/encapsulated_value.go
+++ b/pkg/models/datatypes/encapsulated_value.go
@@ -3,6 +3,7 @@ package datatypes
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 
@@ -220,10 +221,20 @@ func ValidateTypeAndData(dataType, minAllowedKeyType, maxAllowedKeyType DataType
 			if kind != reflect.Float32 {
 				return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'float32' has Data of kind: %s", kind.String())}
 			}
+
+			// not a number can't be ordered against any other value
+			if math.IsNaN(reflect.ValueOf(data).Float()) {
+				return &errors.ModelError{Field: "Data", Err: fmt.Errorf("'float32' cannot be NaN")}
+			}
 		case T_float64:
 			if kind != reflect.Float64 {
 				return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'float64' has Data of kind: %s", kind.String())}
 			}
+
+			// not a number can't be ordered against any other value
+			if math.IsNaN(reflect.ValueOf(data).Float()) {
+				return &errors.ModelError{Field: "Data", Err: fmt.Errorf("'float64' cannot be NaN")}
+			}
 		case T_string:
 			if kind != reflect.String {
 				return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'string' has Data of kind: %s", kind.String())}
-- 
2.43.0


From 1e82376bff538780b3a7f8e01ff7f8734c89b25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:29 +0000
Subject: [PATCH 41/43] fix: a client's certificate was not used unless a CA
 was configured as well

---
 pkg/clients/http_client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/clients/http_client.go b/pkg/clients/http_client.go
index f280856..f397645 100644
--- a/pkg/clients/http_client.go
+++ b/pkg/clients/http_client.go
@@ -15,7 +15,8 @@ func NewHTTPClient(cfg *Config) (*http.Client, error) {
 
 	client := &http.Client{}
 
-	if cfg.CAFile != "" {
+	// without a configured CA, the system's root CAs are used
+	if cfg.CAFile != "" || cfg.ClientCRTFile != "" {
 		client.Transport = &http2.Transport{
 			TLSClientConfig: &tls.Config{
 				Certificates: []tls.Certificate{cfg.Cert()},
-- 
2.43.0


From 546781a0da1b30bae82539ba12b091edf9a81c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:29 +0000
Subject: [PATCH 42/43] fix: the usage of willow and limiter named environment
 variables that nothing reads

---
 internal/config/limiter_config.go | 6 +++---
 internal/config/willow_config.go  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/config/limiter_config.go b/internal/config/limiter_config.go
index e166f76..c7fd646 100644
--- a/internal/config/limiter_config.go
+++ b/internal/config/limiter_config.go
@@ -41,16 +41,16 @@ All flags will use the env vars if they are set instead of command line paramete
 	}
 
 	limiterConfig := &LimiterConfig{
-		logLevel: limiterFlagSet.String("log-level", "info", "log level [debug | info]. Can be set by env var LIMITER_LOG_LEVEL"),
+		logLevel: limiterFlagSet.String("log-level", "info", "log level [debug | info]. Can be set by env var LOG_LEVEL"),
 
 		LimiterPort: limiterFlagSet.String("port", "8082", "default port for the limitter server to run on. Can be set by env var LIMITER_PORT"),
 
-		ServerCA:  limiterFlagSet.String("server-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var LIMITER_CA"),
+		ServerCA:  limiterFlagSet.String("server-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var LIMITER_SERVER_CA"),
 		ServerKey: limiterFlagSet.String("server-key", "", "Server private key location on disk. Can be set by env var LIMITER_SERVER_KEY"),
 		ServerCRT: limiterFlagSet.String("server-crt", "", "Server ssl certificate location on disk. Can be st by env var LIMITER_SERVER_CRT"),
 
 		LockerURL:       limiterFlagSet.String("locker-url", "", "CA file used to generate server certs iff one was used. Can be set by env var LIMITER_LOCKER_URL"),
-		LockerClientCA:  limiterFlagSet.String("locker-client-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var LIMITER_LOCKER_CLIENT_CA"),
+		LockerClientCA:  limiterFlagSet.String("locker-client-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var LIMITER_LOCKER_CA"),
 		LockerClientKey: limiterFlagSet.String("locker-client-key", "", "Client private key location on disk. Can be set by env var LIMITER_LOCKER_CLIENT_KEY"),
 		LockerClientCRT: limiterFlagSet.String("locker-client-crt", "", "Client ssl certificate location on disk. Can be set by env var LIMITER_LOCKER_CLIENT_CRT"),
 
diff --git a/internal/config/willow_config.go b/internal/config/willow_config.go
index 38ca504..4f075fe 100644
--- a/internal/config/willow_config.go
+++ b/internal/config/willow_config.go
@@ -64,7 +64,7 @@ All flags will use the env vars if they are set instead of command line paramete
 		ServerKey:        willowFlagSet.String("server-key", "", "Server private key location on disk. Can be set by env var WILLOW_SERVER_KEY"),
 		ServerCRT:        willowFlagSet.String("server-crt", "", "Server ssl certificate location on disk. Can be st by env var WILLOW_SERVER_CRT"),
 		LimiterURL:       willowFlagSet.String("limiter-url", "", "CA file used to generate server certs iff one was used. Can be set by env var WILLOW_LIMITER_URL"),
-		LimiterClientCA:  willowFlagSet.String("limiter-client-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var WILLOW_LIMITER_CLIENT_CA"),
+		LimiterClientCA:  willowFlagSet.String("limiter-client-ca", "", "CA file used to generate server certs iff one was used. Can be set by env var WILLOW_LIMITER_CA"),
 		LimiterClientKey: willowFlagSet.String("limiter-client-key", "", "Client private key location on disk. Can be set by env var WILLOW_LIMITER_CLIENT_KEY"),
 		LimiterClientCRT: willowFlagSet.String("limiter-client-crt", "", "Client ssl certificate location on disk. Can be set by env var WILLOW_LIMITER_CLIENT_CRT"),
 		StorageConfig: &StorageConfig{
-- 
2.43.0


From a6892759bf484f511dfd0f5aafa8fcf87d6f8a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:29 +0000
Subject: [PATCH 43/43] fix: an environment variable that turns insecure http
 off was ignored

---
 internal/config/limiter_config.go | 6 ++----
 internal/config/locker_config.go  | 6 ++----
 internal/config/willow_config.go  | 6 ++----
 3 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/internal/config/limiter_config.go b/internal/config/limiter_config.go
index c7fd646..7042f9c 100644
--- a/internal/config/limiter_config.go
+++ b/internal/config/limiter_config.go
@@ -120,10 +120,8 @@ func (lc *LimiterConfig) parseEnv() {
 	// Insecure settings
 	//// http
 	if limiterInsecureHTTP := os.Getenv("LIMITER_INSECURE_HTTP"); limiterInsecureHTTP != "" {
-		if strings.ToLower(limiterInsecureHTTP) == "true" {
-			trueValue := true
-			lc.InsecureHttp = &trueValue
-		}
+		insecure := strings.ToLower(limiterInsecureHTTP) == "true"
+		lc.InsecureHttp = &insecure
 	}
 }
 
diff --git a/internal/config/locker_config.go b/internal/config/locker_config.go
index 25e2f8f..64ea9e6 100644
--- a/internal/config/locker_config.go
+++ b/internal/config/locker_config.go
@@ -90,10 +90,8 @@ func (lc *LockerConfig) parseEnv() error {
 
 	// insecure http
 	if insecureHTTP := os.Getenv("LOCKER_INSECURE_HTTP"); insecureHTTP != "" {
-		if insecureHTTP == "true" {
-			trueValue := true
-			lc.InsecureHttp = &trueValue
-		}
+		insecure := insecureHTTP == "true"
+		lc.InsecureHttp = &insecure
 	}
 
 	// defaults
diff --git a/internal/config/willow_config.go b/internal/config/willow_config.go
index 4f075fe..1cd5de5 100644
--- a/internal/config/willow_config.go
+++ b/internal/config/willow_config.go
@@ -108,10 +108,8 @@ func (wc *WillowConfig) parseEnv() error {
 	}
 	//// insecure http
 	if willowInsecureHTTP := os.Getenv("WILLOW_INSECURE_HTTP"); willowInsecureHTTP != "" {
-		if willowInsecureHTTP == "true" {
-			trueValue := true
-			wc.InsecureHttp = &trueValue
-		}
+		insecure := willowInsecureHTTP == "true"
+		wc.InsecureHttp = &insecure
 	}
 	//// ca key
 	if willowCA := os.Getenv("WILLOW_CA"); willowCA != "" {
-- 
2.43.0

