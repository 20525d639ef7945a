From d0702e3b468443255ceb849d5208b379f18722c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 01/39] fix: respect MaxBatchSize when several records are
 produced between two events

---
 streams/eos_producer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 19a4f64..737a6bd 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -148,6 +148,10 @@ func (pp *eosProducerPool[T]) doForwardExecutionContexts(ec *EventContext[T]) {
 		ec.revocationWaiter.Done()
 		return
 	}
+	if pp.shouldForceFlush() {
+		// records may have been produced since the last event was added
+		pp.tryFlush()
+	}
 	txnStarted := pp.onDeck.addEventContext(ec)
 	pp.partitionOwners.conditionallyUpdate(ec.partition(), pp.onDeck)
 	ec.producerChan <- pp.onDeck
@@ -175,7 +179,7 @@ func (pp *eosProducerPool[T]) shouldTryFlush() bool {
 }
 
 func (pp *eosProducerPool[T]) shouldForceFlush() bool {
-	return sak.Max(pp.onDeck.eventContextCnt, atomic.LoadInt64(&pp.onDeck.produceCnt)) == int64(pp.cfg.MaxBatchSize)
+	return sak.Max(pp.onDeck.eventContextCnt, atomic.LoadInt64(&pp.onDeck.produceCnt)) >= int64(pp.cfg.MaxBatchSize)
 }
 
 func (pp *eosProducerPool[T]) tryFlush() {
-- 
2.43.0


From 967d591a67796f050db82a0678f8bd8f4c40387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:16 +0000
Subject: [PATCH 02/39] fix: revoked partitions are given away only after their
 pending events are committed

---
 streams/partition_worker.go | 48 +++++++++++++++++++++++++++++++++----
 streams/source.go           |  9 ++++---
 streams/source_consumer.go  | 34 ++++++++++++++++++++++----
 3 files changed, 79 insertions(+), 12 deletions(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 1a1191d..bde38ba 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -69,6 +69,7 @@ type partitionWorker[T StateStore] struct {
 	stopSignal             chan struct{}
 	revokedSignal          chan struct{}
 	stopped                chan struct{}
+	closed                 chan struct{} // closed once no more user code runs for this partition
 	changeLog              changeLogPartition[T]
 	eventSource            *EventSource[T]
 	runStatus              sak.RunStatus
@@ -76,8 +77,13 @@ type partitionWorker[T StateStore] struct {
 	highestOffset          int64
 	topicPartition         TopicPartition
 	revocationWaiter       sync.WaitGroup
+	activationMux          sync.Mutex
+	revoking               bool
 }
 
+// How long a revocation waits for the pending transactions of a partition, which time out after 29 seconds.
+const revocationTimeout = 30 * time.Second
+
 func newPartitionWorker[T StateStore](
 	eventSource *EventSource[T],
 	topicPartition TopicPartition,
@@ -98,6 +104,7 @@ func newPartitionWorker[T StateStore](
 		stopSignal:     make(chan struct{}),
 		revokedSignal:  make(chan struct{}, 1),
 		stopped:        make(chan struct{}),
+		closed:         make(chan struct{}),
 		maxPending:     make(chan struct{}, eosProducer.maxPendingItems()),
 		asyncCompleter: asyncCompleter[T]{
 			asyncJobs: make(chan AsyncJob[T], asyncSize),
@@ -123,13 +130,40 @@ func (pw *partitionWorker[T]) add(records []*kgo.Record) {
 		return
 	}
 	// atomic.AddInt64(&pw.pending, int64(len(records)))
-	pw.partitionInput <- records
+	select {
+	case pw.partitionInput <- records:
+	case <-pw.runStatus.Done():
+	}
+}
+
+// A partition which is about to be revoked must not be activated any more.
+func (pw *partitionWorker[T]) preventActivation() {
+	pw.activationMux.Lock()
+	pw.revoking = true
+	pw.activationMux.Unlock()
 }
 
 func (pw *partitionWorker[T]) revoke() {
+	pw.preventActivation()
 	pw.runStatus.Halt()
 }
 
+// Blocks until all events which were accepted before revoke() are committed and no more user code runs.
+// There is nothing to wait for once the consumer has failed, as no transaction will be committed any more.
+func (pw *partitionWorker[T]) waitUntilClosed() {
+	if !pw.canInterject() {
+		return // never activated, and never will be
+	}
+	timer := time.NewTimer(revocationTimeout)
+	defer timer.Stop()
+	select {
+	case <-pw.closed:
+	case <-pw.eventSource.source.failed:
+	case <-timer.C:
+		log.Errorf("worker for %+v did not close within %v", pw.topicPartition, revocationTimeout)
+	}
+}
+
 type sincer struct {
 	then time.Time
 }
@@ -151,9 +185,7 @@ func (pw *partitionWorker[T]) pushRecords() {
 			log.Debugf("Closing worker for %+v", pw.topicPartition)
 			pw.stopSignal <- struct{}{}
 			<-pw.stopped
-			close(pw.partitionInput)
-			close(pw.eventInput)
-			close(pw.asyncCompleter.asyncJobs)
+			close(pw.closed)
 			log.Debugf("Closed worker for %+v", pw.topicPartition)
 			return
 		}
@@ -217,6 +249,13 @@ func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(
 	pw.highestOffset = commitLog.lastProcessed(pw.topicPartition)
 	log.Debugf("partitionWorker initialized %+v with lastProcessed offset: %d in %v", pw.topicPartition, pw.highestOffset, elapsed)
 	waiter()
+	pw.activationMux.Lock()
+	if pw.revoking || pw.isRevoked() {
+		// the partition was revoked while its state store was being populated
+		pw.activationMux.Unlock()
+		close(pw.closed)
+		return
+	}
 	pw.eventSource.consumer.Client().ResumeFetchPartitions(map[string][]int32{
 		pw.topicPartition.Topic: {pw.topicPartition.Partition},
 	})
@@ -230,6 +269,7 @@ func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(
 		ij.tick()
 	}
 	pw.eventSource.source.onPartitionActivated(pw.topicPartition.Partition)
+	pw.activationMux.Unlock()
 	for {
 		select {
 		case ec := <-pw.eventInput:
diff --git a/streams/source.go b/streams/source.go
index 236c86b..82a9301 100644
--- a/streams/source.go
+++ b/streams/source.go
@@ -105,10 +105,11 @@ type Source struct {
 	state   uint64
 	config  EventSourceConfig
 	failure chan error
+	failed  chan struct{} // closed when the Source becomes Unhealthy
 }
 
 func newSource(config EventSourceConfig) *Source {
-	return &Source{state: uint64(Healthy), config: config, failure: make(chan error)}
+	return &Source{state: uint64(Healthy), config: config, failure: make(chan error, 1), failed: make(chan struct{})}
 }
 
 // A convenience method for creating a [Destination] form your Source. Can be used for creating a [Producer] or [BatchProducer] which publishes to your [EventSource].
@@ -167,8 +168,10 @@ func (s *Source) State() EventSourceState {
 }
 
 func (s *Source) fail(err error) {
-	atomic.StoreUint64(&s.state, uint64(Unhealthy))
-	s.failure <- err
+	if atomic.CompareAndSwapUint64(&s.state, uint64(Healthy), uint64(Unhealthy)) {
+		close(s.failed)
+		s.failure <- err
+	}
 }
 
 func (s *Source) Topic() string {
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index ac8ac68..c778d7e 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -223,24 +223,43 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 }
 
 func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []int32) {
-	sc.workerMux.Lock()
-	defer sc.workerMux.Unlock()
 	if sc.partitionedStore == nil {
 		return
 	}
-
+	sc.workerMux.Lock()
+	workers := make([]*partitionWorker[T], 0, len(partitions))
 	for _, p := range partitions {
-		sc.source.onPartitionWillRevoke(p)
 		if worker, ok := sc.workers[p]; ok {
-			worker.revoke()
+			workers = append(workers, worker)
 			delete(sc.workers, p)
 		}
+	}
+	sc.workerMux.Unlock()
+
+	for _, worker := range workers {
+		worker.preventActivation()
+	}
+	for _, p := range partitions {
+		sc.source.onPartitionWillRevoke(p)
+	}
+	sc.closeWorkers(workers)
+	for _, p := range partitions {
 		sc.partitionedStore.revoke(p)
 	}
 	// notify observers
 	sc.source.onPartitionsRevoked(partitions)
 }
 
+// The partitions of workers must not be given to another consumer before their pending events are committed.
+func (sc *eventSourceConsumer[T]) closeWorkers(workers []*partitionWorker[T]) {
+	for _, worker := range workers {
+		worker.revoke()
+	}
+	for _, worker := range workers {
+		worker.waitUntilClosed()
+	}
+}
+
 func (sc *eventSourceConsumer[T]) partitionsAssigned(ctx context.Context, _ *kgo.Client, assignments map[string][]int32) {
 	for topic, partitions := range assignments {
 		log.Debugf("assigned topic: %s, partitions: %v", topic, assignments)
@@ -394,6 +413,11 @@ func (sc *eventSourceConsumer[T]) leave() <-chan struct{} {
 
 // Immediately stops the consumer, leaving the consumer group abruptly.
 func (sc *eventSourceConsumer[T]) stop() {
+	// finish the pending events while we are still a member of the group
+	sc.workerMux.Lock()
+	workers := sak.MapValuesToSlice(sc.workers)
+	sc.workerMux.Unlock()
+	sc.closeWorkers(workers)
 	sc.client.Close()
 	log.Infof("left group: %v", sc.source.GroupId())
 }
-- 
2.43.0


From a34dc4574607f960b9140c4809e570058b366c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:29 +0000
Subject: [PATCH 03/39] fix: do not assign partitions to members which already
 left gracefully

---
 streams/group_state.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/streams/group_state.go b/streams/group_state.go
index d152003..c19d690 100644
--- a/streams/group_state.go
+++ b/streams/group_state.go
@@ -120,10 +120,11 @@ func newGroupState(cb *kgo.ConsumerBalancer, partitionCount int32, topic string)
 
 	// now that we have initial state set, our sort is stable and we can insrt into our btrees
 	for _, incrMem := range gs.members {
-		if incrMem.meta.Status == InactiveMember {
-			gs.inactiveMembers.ReplaceOrInsert(incrMem)
-		} else {
+		if incrMem.meta.Status == ActiveMember {
 			gs.activeMembers.ReplaceOrInsert(incrMem)
+		} else {
+			// either leaving or, if Defunct, about to be gone
+			gs.inactiveMembers.ReplaceOrInsert(incrMem)
 		}
 	}
 	log.Debugf("activeMembers: %d, inactiveMembers: %d", gs.activeMembers.Len(), gs.inactiveMembers.Len())
-- 
2.43.0


From 635b1af88be822f43ecd06dc09b1552355ec61fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 04/39] fix: assigning unexpected partitions must not suspend
 the scheduled moves of partitions

---
 streams/group_state.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/streams/group_state.go b/streams/group_state.go
index c19d690..987217d 100644
--- a/streams/group_state.go
+++ b/streams/group_state.go
@@ -271,15 +271,23 @@ func (gs groupState) distributeUnassigned() int {
 		// start here. If there was an abnormal shutdown, nobidy may be ready for this partition
 		// in this case, we're sending the partition to the consumer with the least #partitions
 		recipient, _ := gs.activeMembers.Min()
+		scheduled := false
 		// first check to see if there is any member who is ready, or getting ready for this partition
 		gs.activeMembers.Ascend(func(candidate *incrGroupMember) bool {
 			if candidate.meta.isPreparingOrReadyFor(p, gs.topic) {
 				recipient = candidate
+				scheduled = true
 				return false
 			}
 			return true
 		})
 		gs.assignToActiveMember(p, recipient)
+		if !scheduled {
+			// Nobody expected this partition, so the recipient will not trigger another rebalance once it is assigned.
+			// It must not use up the budget: moves which are due would never be scheduled.
+			gs.inReceivership.Delete(p)
+			gs.inTransition.Delete(p)
+		}
 	}
 	return len(gs.unassigned)
 }
-- 
2.43.0


From e3cf117af6746ca5cfab3837ab9b59739a5fb20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 05/39] fix: processing must not wait for, or panic because of,
 the metrics handler

---
 streams/eos_producer.go |  4 ++--
 streams/event_source.go | 10 +++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 737a6bd..79e1392 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -412,7 +412,7 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 	partitionCount := len(p.currentPartitions)
 	p.relinquishOwnership()
 	if p.metrics != nil && p.produceCnt > 0 {
-		p.metrics <- Metric{
+		sendMetric(p.metrics, Metric{
 			Operation:      TxnCommitOperation,
 			Topic:          p.source.Topic(),
 			GroupId:        p.source.GroupId(),
@@ -423,7 +423,7 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 			Bytes:          int(p.byteCount),
 			PartitionCount: partitionCount,
 			Partition:      -1,
-		}
+		})
 	}
 	p.produceCnt = 0
 	p.eventContextCnt = 0
diff --git a/streams/event_source.go b/streams/event_source.go
index 95b1a97..c802a3f 100644
--- a/streams/event_source.go
+++ b/streams/event_source.go
@@ -117,9 +117,14 @@ func (es *EventSource[T]) closeOnFail() {
 }
 
 func (es *EventSource[T]) EmitMetric(m Metric) {
-	if es.metrics != nil {
+	sendMetric(es.metrics, m)
+}
+
+// Processing never waits for a MetricsHandler.
+func sendMetric(metrics chan Metric, m Metric) {
+	if metrics != nil {
 		select {
-		case es.metrics <- m:
+		case metrics <- m:
 		default:
 			log.Warnf("metrics channel full, unable to emit metrics: %+v", m)
 		}
@@ -139,7 +144,6 @@ func (es *EventSource[T]) emitMetrics() {
 			}
 			handler(m)
 		case <-es.runStatus.Done():
-			close(es.metrics)
 			return
 		}
 	}
-- 
2.43.0


From 1aa45ce5d1a9aaea237304a0f48bfc41538b633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 06/39] fix: markers and records of an abandoned store
 population must not affect a later one

---
 streams/source_consumer.go      |  72 ++++++---
 streams/state_store_consumer.go | 260 +++++++++++++++++---------------
 2 files changed, 187 insertions(+), 145 deletions(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index c778d7e..d2ff39a 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -31,7 +31,7 @@ type eventSourceConsumer[T StateStore] struct {
 	stateStoreConsumer *stateStoreConsumer[T]
 	ctx                context.Context
 	workers            map[int32]*partitionWorker[T]
-	prepping           map[int32]*stateStorePartition[T]
+	prepping           map[int32]*storePopulation[T]
 	workerMux          sync.Mutex
 	preppingMux        sync.Mutex
 	incrBalancer       IncrementalGroupRebalancer
@@ -55,7 +55,7 @@ func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additiona
 		partitionedStore: partitionedStore,
 		ctx:              eventSource.runStatus.Ctx(),
 		workers:          make(map[int32]*partitionWorker[T]),
-		prepping:         make(map[int32]*stateStorePartition[T]),
+		prepping:         make(map[int32]*storePopulation[T]),
 		eventSource:      eventSource,
 		source:           source,
 		commitLog:        cl,
@@ -137,41 +137,58 @@ func (sc *eventSourceConsumer[T]) Client() *kgo.Client {
 // Needed to fulfill the IncrRebalanceInstructionHandler interface defined by IncrementalGroupRebalancer.
 // Should NOT be invoked directly.
 func (sc *eventSourceConsumer[T]) PrepareTopicPartition(tp TopicPartition) {
+	sc.workerMux.Lock()
+	defer sc.workerMux.Unlock()
 	sc.preppingMux.Lock()
 	defer sc.preppingMux.Unlock()
 	partition := tp.Partition
+	if _, ok := sc.workers[partition]; ok {
+		// assigned in the meantime
+		return
+	}
 	if _, ok := sc.prepping[partition]; !ok {
 		store := sc.partitionedStore.assign(partition)
 
-		ssp := sc.stateStoreConsumer.preparePartition(partition, store)
-		sc.prepping[partition] = ssp
+		population := sc.stateStoreConsumer.populatePartition(partition, store)
+		sc.prepping[partition] = population
 		go func() {
 			start := time.Now()
 			log.Debugf("prepping %+v", tp)
 
-			ssp.sync()
-			processed := ssp.processed()
+			population.sync(false)
+			processed := population.processed()
 			duration := time.Since(start)
 
+			if !sc.prepared(tp, population) {
+				return
+			}
 			log.Debugf("Prepped %+v, %d messages in %v (tps: %d)",
 				tp, processed, duration, int(float64(processed)/duration.Seconds()))
-			sc.incrBalancer.PartitionPrepared(tp)
-			if sc.metrics != nil {
-				sc.metrics <- Metric{
-					Operation:      PartitionPreppedOperation,
-					StartTime:      start,
-					EndTime:        time.Now(),
-					PartitionCount: 1,
-					Partition:      partition,
-					Count:          int(processed),
-					Bytes:          int(ssp.processedBytes()),
-					GroupId:        sc.source.GroupId(),
-				}
-			}
+			sendMetric(sc.metrics, Metric{
+				Operation:      PartitionPreppedOperation,
+				StartTime:      start,
+				EndTime:        time.Now(),
+				PartitionCount: 1,
+				Partition:      partition,
+				Count:          int(processed),
+				Bytes:          int(population.processedBytes()),
+				GroupId:        sc.source.GroupId(),
+			})
 		}()
 	}
 }
 
+// Tells the IncrementalGroupRebalancer that a partition is ready, unless it has been assigned or forgotten while it was being prepared.
+func (sc *eventSourceConsumer[T]) prepared(tp TopicPartition, population *storePopulation[T]) bool {
+	sc.preppingMux.Lock()
+	defer sc.preppingMux.Unlock()
+	if sc.prepping[tp.Partition] != population {
+		return false
+	}
+	sc.incrBalancer.PartitionPrepared(tp)
+	return true
+}
+
 // Needed to fulfill the IncrRebalanceInstructionHandler interface defined by IncrementalGroupRebalancer.
 // Should NOT be invoked directly.
 func (sc *eventSourceConsumer[T]) ForgetPreparedTopicPartition(tp TopicPartition) {
@@ -180,6 +197,8 @@ func (sc *eventSourceConsumer[T]) ForgetPreparedTopicPartition(tp TopicPartition
 	if _, ok := sc.prepping[tp.Partition]; ok {
 		sc.stateStoreConsumer.cancelPartition(tp.Partition)
 		delete(sc.prepping, tp.Partition)
+		// the store misses whatever is changed from now on, so it must not be used again
+		sc.partitionedStore.revoke(tp.Partition)
 	} else {
 		// what to do? probably nothing, but if we have a double assignment, we could have problems
 		// need to investigate this race condition further
@@ -201,23 +220,25 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 		// sc.client.PauseFetchPartitions(map[string][]int32{topic: {p}})
 
 		if prepper, ok := sc.prepping[p]; ok {
-			log.Infof("syncing prepped partition %+v", prepper.topicPartition)
+			log.Infof("syncing prepped partition %+v", tp)
 			delete(sc.prepping, p)
 			sc.workers[p] = newPartitionWorker(sc.eventSource, tp, sc.commitLog, store, sc.producerPool, func() {
-				prepper.sync()
+				prepper.sync(true)
 				// sc.client.ResumeFetchPartitions(map[string][]int32{topic: {p}})
 			})
 		} else if _, ok := sc.workers[p]; !ok {
-			prepper = sc.stateStoreConsumer.activatePartition(p, store)
-			log.Infof("syncing unprepped partition %+v", prepper.topicPartition)
+			prepper = sc.stateStoreConsumer.populatePartition(p, store)
+			log.Infof("syncing unprepped partition %+v", tp)
 			sc.workers[p] = newPartitionWorker(sc.eventSource, tp, sc.commitLog, store, sc.producerPool, func() {
-				prepper.sync()
+				prepper.sync(true)
 				// sc.client.ResumeFetchPartitions(map[string][]int32{topic: {p}})
 			})
 		}
 
 	}
-	sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
+	if sc.incrBalancer != nil {
+		sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
+	}
 	// notify observers
 	sc.source.onPartitionsAssigned(partitions)
 }
@@ -244,6 +265,7 @@ func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []in
 	}
 	sc.closeWorkers(workers)
 	for _, p := range partitions {
+		sc.stateStoreConsumer.cancelPartition(p)
 		sc.partitionedStore.revoke(p)
 	}
 	// notify observers
diff --git a/streams/state_store_consumer.go b/streams/state_store_consumer.go
index 26dc157..40a4ec9 100644
--- a/streams/state_store_consumer.go
+++ b/streams/state_store_consumer.go
@@ -25,15 +25,6 @@ import (
 	"github.com/twmb/franz-go/pkg/kgo"
 )
 
-type partitionState uint32
-
-const (
-	paused partitionState = iota
-	prepping
-	standby
-	ready
-	active
-)
 const markerKeyString = "gkes__mark"
 
 var markerKey = []byte(markerKeyString)
@@ -47,145 +38,192 @@ type StateStore interface {
 	Revoked()
 }
 
+// The log of a single partition of a StateStore topic. It is paused unless there is a population.
 type stateStorePartition[T StateStore] struct {
-	buffer         chan []*kgo.Record
 	client         *kgo.Client
-	waiters        map[string]chan struct{}
+	population     *storePopulation[T]
 	topicPartition TopicPartition
-	state          partitionState
-	count          uint64
-	byteCount      uint64
-	waiterLock     sync.Mutex
-	highWatermark  int64
+	mux            sync.Mutex
 }
 
-func (ssp *stateStorePartition[T]) add(ftp kgo.FetchTopicPartition) {
-	ssp.buffer <- ftp.FetchPartition.Records
+// Replays the log of a partition into a single store. It ends when it is activated or cancelled and is never reused,
+// so a marker which was sent on its behalf has no effect on a later population of the same partition.
+type storePopulation[T StateStore] struct {
+	partition  *stateStorePartition[T]
+	store      changeLogPartition[T]
+	buffer     chan []*kgo.Record
+	quit       chan struct{} // closed once no more records are accepted
+	done       chan struct{} // closed once `store` is not touched any more
+	waiters    map[string]populationWaiter
+	waiterLock sync.Mutex
+	count      uint64
+	byteCount  uint64
 }
 
-func (ssp *stateStorePartition[T]) pause() {
-	ssp.setState(paused)
+type populationWaiter struct {
+	c        chan struct{}
+	activate bool
+}
+
+// Starts replaying the log into store.
+func (ssp *stateStorePartition[T]) prep(store changeLogPartition[T]) *storePopulation[T] {
+	ssp.cancel()
+	ssp.mux.Lock()
+	defer ssp.mux.Unlock()
+	pop := &storePopulation[T]{
+		partition: ssp,
+		store:     store,
+		buffer:    make(chan []*kgo.Record, 1024),
+		quit:      make(chan struct{}),
+		done:      make(chan struct{}),
+		waiters:   make(map[string]populationWaiter, 2),
+	}
+	ssp.population = pop
 	topic := ssp.topicPartition.Topic
 	partition := ssp.topicPartition.Partition
-	ssp.client.PauseFetchPartitions(map[string][]int32{
+	ssp.client.SetOffsets(map[string]map[int32]kgo.EpochOffset{
+		topic: {partition: startEpochOffset},
+	})
+	ssp.client.ResumeFetchPartitions(map[string][]int32{
 		topic: {partition},
 	})
+	go pop.populate()
+	return pop
+}
 
+func (ssp *stateStorePartition[T]) add(ftp kgo.FetchTopicPartition) {
+	ssp.mux.Lock()
+	pop := ssp.population
+	if pop == nil {
+		ssp.pause()
+	}
+	ssp.mux.Unlock()
+	if pop == nil {
+		return
+	}
+	select {
+	case pop.buffer <- ftp.FetchPartition.Records:
+	case <-pop.quit:
+	}
 }
 
-func (ssp *stateStorePartition[T]) kill() {
-	if ssp.buffer != nil {
-		close(ssp.buffer)
-		ssp.buffer = nil
+func (ssp *stateStorePartition[T]) pause() {
+	ssp.client.PauseFetchPartitions(map[string][]int32{
+		ssp.topicPartition.Topic: {ssp.topicPartition.Partition},
+	})
+}
+
+// Ends the given population, if it is still the current one.
+func (ssp *stateStorePartition[T]) end(pop *storePopulation[T]) {
+	ssp.mux.Lock()
+	defer ssp.mux.Unlock()
+	if pop != nil && ssp.population == pop {
+		ssp.population = nil
+		ssp.pause()
+		close(pop.quit)
 	}
 }
 
+// Ends the current population, if there is any. Its store is not touched any more after this call.
 func (ssp *stateStorePartition[T]) cancel() {
-	ssp.pause()
-	ssp.kill()
+	ssp.mux.Lock()
+	pop := ssp.population
+	ssp.mux.Unlock()
+	if pop != nil {
+		ssp.end(pop)
+		<-pop.done
+	}
 }
 
-func (ssp *stateStorePartition[T]) addWaiter() (c chan struct{}, mark []byte) {
-	ssp.waiterLock.Lock()
-	defer ssp.waiterLock.Unlock()
+func (pop *storePopulation[T]) addWaiter(activate bool) (c chan struct{}, mark []byte) {
+	pop.waiterLock.Lock()
+	defer pop.waiterLock.Unlock()
 	c = make(chan struct{})
 	s := uuid.NewString()
 	mark = []byte(s)
-	ssp.waiters[s] = c
+	pop.waiters[s] = populationWaiter{c: c, activate: activate}
 	return
 }
 
-func (ssp *stateStorePartition[T]) removeWaiterForMark(mark []byte) (chan struct{}, bool) {
-	ssp.waiterLock.Lock()
-	defer ssp.waiterLock.Unlock()
-	if c, ok := ssp.waiters[string(mark)]; ok {
-		delete(ssp.waiters, string(mark))
-		return c, true
+func (pop *storePopulation[T]) removeWaiterForMark(mark []byte) (populationWaiter, bool) {
+	pop.waiterLock.Lock()
+	defer pop.waiterLock.Unlock()
+	w, ok := pop.waiters[string(mark)]
+	if ok {
+		delete(pop.waiters, string(mark))
 	}
-	return nil, false
-}
-
-func (ssp *stateStorePartition[T]) sync() {
-	c, mark := ssp.addWaiter()
-	sendMarkerMessage(ssp.client, ssp.topicPartition, mark)
-	<-c
-}
-
-func (ssp *stateStorePartition[T]) processed() uint64 {
-	return atomic.LoadUint64(&ssp.count)
+	return w, ok
 }
 
-func (ssp *stateStorePartition[T]) processedBytes() uint64 {
-	return atomic.LoadUint64(&ssp.byteCount)
-}
-
-func (ssp *stateStorePartition[T]) partitionState() partitionState {
-	return partitionState(atomic.LoadUint32((*uint32)(&ssp.state)))
+// Blocks until the store reflects everything which is in its log by now, or until the population has ended.
+// If `activate` is true, the population ends at this point and nothing is replayed into the store any more.
+func (pop *storePopulation[T]) sync(activate bool) {
+	c, mark := pop.addWaiter(activate)
+	sendMarkerMessage(pop.partition.client, pop.partition.topicPartition, mark)
+	select {
+	case <-c:
+	case <-pop.done:
+	}
 }
 
-func (ssp *stateStorePartition[T]) setState(state partitionState) {
-	atomic.StoreUint32((*uint32)(&ssp.state), uint32(state))
+func (pop *storePopulation[T]) processed() uint64 {
+	return atomic.LoadUint64(&pop.count)
 }
 
-func (ssp *stateStorePartition[T]) prep(intitialState partitionState, store changeLogPartition[T]) {
-	ssp.setState(intitialState)
-	ssp.count = 0
-	ssp.byteCount = 0
-	ssp.buffer = make(chan []*kgo.Record, 1024)
-	topic := ssp.topicPartition.Topic
-	partition := ssp.topicPartition.Partition
-	ssp.client.SetOffsets(map[string]map[int32]kgo.EpochOffset{
-		topic: {partition: startEpochOffset},
-	})
-	ssp.client.ResumeFetchPartitions(map[string][]int32{
-		topic: {partition},
-	})
-	go ssp.populate(store)
+func (pop *storePopulation[T]) processedBytes() uint64 {
+	return atomic.LoadUint64(&pop.byteCount)
 }
 
-func (ssp *stateStorePartition[T]) isCompletionMarker(val []byte) (complete bool) {
-	var waiter chan struct{}
-	var ok bool
-	if waiter, ok = ssp.removeWaiterForMark(val); !ok {
-		return
+// Returns true if the population is complete.
+func (pop *storePopulation[T]) isCompletionMarker(val []byte) bool {
+	waiter, ok := pop.removeWaiterForMark(val)
+	if !ok {
+		return false
 	}
-	switch ssp.partitionState() {
-	case prepping:
-		log.Debugf("transitioning from prepping to ready for %+v", ssp.topicPartition)
-		ssp.setState(ready)
-	case ready:
-		log.Debugf("transitioning from ready to paused for %+v", ssp.topicPartition)
-		complete = true
-		ssp.cancel()
+	if waiter.activate {
+		log.Debugf("population complete for %+v", pop.partition.topicPartition)
+		pop.partition.end(pop)
 	}
-	close(waiter)
-	return
+	close(waiter.c)
+	return waiter.activate
 }
 
-func (ssp *stateStorePartition[T]) populate(store changeLogPartition[T]) {
-	log.Debugf("starting populator for %+v", ssp.topicPartition)
-	for records := range ssp.buffer {
-		if !ssp.handleRecordsAndContinue(records, store) {
-			log.Debugf("closed populator for %+v", ssp.topicPartition)
+func (pop *storePopulation[T]) populate() {
+	defer close(pop.done)
+	log.Debugf("starting populator for %+v", pop.partition.topicPartition)
+	for {
+		select {
+		case records := <-pop.buffer:
+			if !pop.handleRecordsAndContinue(records) {
+				log.Debugf("closed populator for %+v", pop.partition.topicPartition)
+				return
+			}
+		case <-pop.quit:
+			log.Debugf("cancelled populator for %+v", pop.partition.topicPartition)
 			return
 		}
 	}
 }
 
-func (ssp *stateStorePartition[T]) handleRecordsAndContinue(records []*kgo.Record, store changeLogPartition[T]) bool {
+func (pop *storePopulation[T]) handleRecordsAndContinue(records []*kgo.Record) bool {
 	for _, record := range records {
+		select {
+		case <-pop.quit:
+			return false
+		default:
+		}
 		if isMarkerRecord(record) {
-			if ssp.isCompletionMarker(record.Value) {
+			if pop.isCompletionMarker(record.Value) {
 				return false
 			}
 		} else {
-			store.receiveChangeInternal(record)
+			pop.store.receiveChangeInternal(record)
 			// if err := ; err != nil {
 			// 	log.Errorf("Error receiving change on topic: %s, partition: %d, offset: %d, err: %v",
 			// 		record.Topic, record.Partition, record.Offset, err)
 			// }
-			atomic.AddUint64(&ssp.count, 1)
-			atomic.AddUint64(&ssp.byteCount, uint64(recordSize(*record)))
+			atomic.AddUint64(&pop.count, 1)
+			atomic.AddUint64(&pop.byteCount, uint64(recordSize(*record)))
 		}
 	}
 	return true
@@ -229,11 +267,7 @@ func newStateStoreConsumer[T StateStore](runStatus sak.RunStatus, source *Source
 	for i := int32(0); i < partitionCount; i++ {
 		stateStorePartitions[i] = &stateStorePartition[T]{
 			topicPartition: TopicPartition{Partition: i, Topic: topic},
-			waiters:        make(map[string]chan struct{}, 2),
 			client:         client,
-			state:          paused,
-			buffer:         make(chan []*kgo.Record, 1024),
-			highWatermark:  -1,
 		}
 	}
 	ssc := &stateStoreConsumer[T]{
@@ -261,12 +295,7 @@ func (ssc *stateStoreConsumer[T]) consume() {
 			}
 		}
 		f.EachPartition(func(partitionFetch kgo.FetchTopicPartition) {
-			ssp := ssc.partitions[partitionFetch.Partition]
-			if ssp.partitionState() == paused {
-				ssp.pause()
-			} else {
-				ssp.add(partitionFetch)
-			}
+			ssc.partitions[partitionFetch.Partition].add(partitionFetch)
 		})
 	}
 	ssc.stop()
@@ -274,34 +303,25 @@ func (ssc *stateStoreConsumer[T]) consume() {
 	ssc.client.Close()
 }
 
+// Ends the population of a store, if there is any. The store is not touched any more after this call.
 func (ssc *stateStoreConsumer[T]) cancelPartition(p int32) {
 	ssc.mux.Lock()
 	defer ssc.mux.Unlock()
-	ssp := ssc.partitions[p]
-	ssp.cancel()
-}
-
-func (ssc *stateStoreConsumer[T]) preparePartition(p int32, store changeLogPartition[T]) *stateStorePartition[T] {
-	ssc.mux.Lock()
-	defer ssc.mux.Unlock()
-	ssp := ssc.partitions[p]
-	ssp.prep(prepping, store)
-	return ssp
+	ssc.partitions[p].cancel()
 }
 
-func (ssc *stateStoreConsumer[T]) activatePartition(p int32, store changeLogPartition[T]) *stateStorePartition[T] {
+// Starts the population of a store.
+func (ssc *stateStoreConsumer[T]) populatePartition(p int32, store changeLogPartition[T]) *storePopulation[T] {
 	ssc.mux.Lock()
 	defer ssc.mux.Unlock()
-	ssp := ssc.partitions[p]
-	ssp.prep(ready, store)
-	return ssp
+	return ssc.partitions[p].prep(store)
 }
 
 func (ssc *stateStoreConsumer[T]) stop() {
 	ssc.mux.Lock()
 	defer ssc.mux.Unlock()
 	for _, ssp := range ssc.partitions {
-		ssp.kill()
+		ssp.cancel()
 	}
 }
 
-- 
2.43.0


From f4bbb995eaef90398f54f9e703d88fde93b23818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:33 +0000
Subject: [PATCH 07/39] fix: honour the DeserializationErrorHandler and its
 response

---
 streams/source.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/streams/source.go b/streams/source.go
index 82a9301..4c4e3cf 100644
--- a/streams/source.go
+++ b/streams/source.go
@@ -149,10 +149,20 @@ func (s *Source) eosErrorHandler() TxnErrorHandler {
 }
 
 func (s *Source) deserializationErrorHandler() DeserializationErrorHandler {
-	if s.config.TxnErrorHandler == nil {
-		return DefaultDeserializationErrorHandler
+	handler := s.config.DeserializationErrorHandler
+	if handler == nil {
+		handler = DefaultDeserializationErrorHandler
+	}
+	return func(ec ErrorContext, eventType string, err error) ErrorResponse {
+		response := handler(ec, eventType, err)
+		switch response {
+		case FailConsumer:
+			s.fail(err)
+		case FatallyExit:
+			panic(err)
+		}
+		return response
 	}
-	return s.config.DeserializationErrorHandler
 }
 
 func (s *Source) executeHandler(handler SourcePartitionEventHandler, partitions []int32) {
-- 
2.43.0


From 2c00403b69cdbb457106ab6ef72ae5bee39d93a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 08/39] fix: do not commit a transaction which lost a record

---
 streams/eos_producer.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 79e1392..39e3097 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -270,6 +270,8 @@ type producerNode[T any] struct {
 	id                int
 	txnErrorHandler   TxnErrorHandler
 	errorChannel      chan error
+	produceError      error // the first error of a record in the current transaction
+	produceErrorLock  sync.Mutex
 	// errs                  []error
 }
 
@@ -382,6 +384,10 @@ func (p *producerNode[T]) commit() error {
 		log.Errorf("eos producer error: %v", err)
 		return err
 	}
+	// a transaction which lost a record must not be committed
+	if err = p.takeProduceError(); err != nil && p.txnErrorHandler(err) != Continue {
+		return err
+	}
 	action := kgo.TryCommit
 	if p.produceCnt == 0 {
 		action = kgo.TryAbort
@@ -395,6 +401,22 @@ func (p *producerNode[T]) commit() error {
 	return nil
 }
 
+func (p *producerNode[T]) setProduceError(err error) {
+	p.produceErrorLock.Lock()
+	defer p.produceErrorLock.Unlock()
+	if p.produceError == nil {
+		p.produceError = err
+	}
+}
+
+func (p *producerNode[T]) takeProduceError() error {
+	p.produceErrorLock.Lock()
+	defer p.produceErrorLock.Unlock()
+	err := p.produceError
+	p.produceError = nil
+	return err
+}
+
 func (p *producerNode[T]) clearState(executionTime time.Time) {
 	p.txnContextCancel()
 	p.txnContext = nil
@@ -527,6 +549,7 @@ func (p *producerNode[T]) produceKafkaRecord(record *Record, cb func(*Record, er
 		atomic.AddInt64(&p.byteCount, int64(recordSize(*r)))
 		if err != nil {
 			log.Errorf("%v, record %+v", err, r)
+			p.setProduceError(err)
 			select {
 			case p.errorChannel <- err:
 			default:
-- 
2.43.0


From fbd35b5706618e3a60811ccbaced364df2834cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:05 +0000
Subject: [PATCH 09/39] fix: a failed consumer processes and commits nothing
 any more

---
 streams/eos_producer.go     | 14 ++++++++++++++
 streams/partition_worker.go | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index 39e3097..dc6926a 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -16,6 +16,7 @@ package streams
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"sync"
 	"sync/atomic"
@@ -30,6 +31,9 @@ const (
 	noPendingDuration = time.Minute
 )
 
+// the consumer has failed, nothing is committed any more
+var errSourceFailed = errors.New("event source is unhealthy")
+
 type partitionOwners[T any] struct {
 	owners map[int32]*producerNode[T]
 	mux    *sync.Mutex
@@ -212,11 +216,16 @@ func (pp *eosProducerPool[T]) commitLoop() {
 	for {
 		var err error
 		select {
+		case <-pp.source.failed:
+			return
 		case p := <-pp.commitQueue:
 			err = pp.commit(p)
 		case err = <-pp.errorChannel:
 		}
 		if err != nil {
+			if err == errSourceFailed {
+				return
+			}
 			if instructions := pp.source.eosErrorHandler()(err); instructions != Continue {
 				pp.source.fail(err)
 				switch instructions {
@@ -345,6 +354,8 @@ func (p *producerNode[T]) finalizeEventContexts(first, last *EventContext[T]) er
 	for ec := last; ec != nil; ec = ec.prev {
 		select {
 		case <-ec.done:
+		case <-p.source.failed:
+			return errSourceFailed
 		case <-p.txnContext.Done():
 			return fmt.Errorf("txn timeout exceeded. waiting for event context to finish: %+v", ec)
 		}
@@ -388,6 +399,9 @@ func (p *producerNode[T]) commit() error {
 	if err = p.takeProduceError(); err != nil && p.txnErrorHandler(err) != Continue {
 		return err
 	}
+	if p.source.State() == Unhealthy {
+		return errSourceFailed
+	}
 	action := kgo.TryCommit
 	if p.produceCnt == 0 {
 		action = kgo.TryAbort
diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index bde38ba..d4867b9 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -295,7 +295,15 @@ func (pw *partitionWorker[T]) waitForRevocation() {
 	pw.revokedSignal <- struct{}{}
 }
 
+// Once the consumer has failed, no more events are processed.
+func (pw *partitionWorker[T]) failed() bool {
+	return pw.eventSource.source.State() == Unhealthy
+}
+
 func (pw *partitionWorker[T]) processAsyncJob(job AsyncJob[T]) {
+	if pw.failed() {
+		return
+	}
 	if job.Finalize() == Complete {
 		job.ctx.complete()
 		<-pw.maxPending
@@ -309,6 +317,9 @@ func (pw *partitionWorker[T]) isRevoked() bool {
 func (pw *partitionWorker[T]) handleInterjection(ec *EventContext[T]) {
 	inter := ec.interjection
 	pw.assignProducer(ec)
+	if pw.failed() {
+		return
+	}
 	if ec.producer == nil {
 		<-pw.maxPending
 		if inter.callback != nil {
@@ -342,6 +353,9 @@ func (pw *partitionWorker[T]) assignProducer(ec *EventContext[T]) {
 
 func (pw *partitionWorker[T]) forwardToEventSource(ec *EventContext[T]) {
 	pw.assignProducer(ec)
+	if pw.failed() {
+		return
+	}
 	if ec.producer == nil {
 		// if we're revoked, don't even add this to the onDeck producer
 		<-pw.maxPending
-- 
2.43.0


From 05bdcc7006e1c3ca41c3265eaa85e6526d0d0d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:05 +0000
Subject: [PATCH 10/39] fix: wake up everyone who waits for Done()

---
 streams/event_source.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/streams/event_source.go b/streams/event_source.go
index c802a3f..ef3bb58 100644
--- a/streams/event_source.go
+++ b/streams/event_source.go
@@ -44,6 +44,7 @@ type EventSource[T StateStore] struct {
 	done              chan struct{}
 	metrics           chan Metric
 	stopOnce          sync.Once
+	doneOnce          sync.Once
 }
 
 /*
@@ -80,7 +81,7 @@ func NewEventSource[T StateStore](sourceConfig EventSourceConfig, stateStoreFact
 		stateStoreFactory: stateStoreFactory,
 		source:            source,
 		runStatus:         sak.NewRunStatus(context.Background()),
-		done:              make(chan struct{}, 1),
+		done:              make(chan struct{}),
 		metrics:           metrics,
 	}
 	es.consumer, err = newEventSourceConsumer(es, additionalClientOptions...)
@@ -268,10 +269,7 @@ func (es *EventSource[T]) Stop() {
 		go func() {
 			<-es.consumer.leave()
 			es.runStatus.Halt() // will close all sub processes (commitLog, stateStoreConsumer)
-			select {
-			case es.done <- struct{}{}:
-			default:
-			}
+			es.closeDone()
 		}()
 	})
 }
@@ -286,10 +284,12 @@ func (es *EventSource[T]) ForkRunStatus() sak.RunStatus {
 func (es *EventSource[T]) StopNow() {
 	es.runStatus.Halt()
 	es.consumer.stop()
-	select {
-	case es.done <- struct{}{}:
-	default:
-	}
+	es.closeDone()
+}
+
+// Everyone who is waiting for Done() is to be woken up, any number of times.
+func (es *EventSource[T]) closeDone() {
+	es.doneOnce.Do(func() { close(es.done) })
 }
 
 /*
-- 
2.43.0


From cba0802cb67c470798442943a1892df814d77061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 11/39] fix: interjections are executed or rejected, and go on
 after asynchronous completion

---
 streams/interjection.go     |  9 ++++++++-
 streams/partition_worker.go | 35 ++++++++++++++++++++++++++++++++++-
 streams/source_consumer.go  | 22 +++++-----------------
 3 files changed, 47 insertions(+), 19 deletions(-)

diff --git a/streams/interjection.go b/streams/interjection.go
index 6bc282f..569feca 100644
--- a/streams/interjection.go
+++ b/streams/interjection.go
@@ -17,6 +17,7 @@ package streams
 import (
 	"math/rand"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -32,6 +33,7 @@ type interjection[T any] struct {
 	callback         func()
 	cancelled        bool
 	isOneOff         bool
+	claimed          int32
 	initOnce         sync.Once
 	cancelOnce       sync.Once
 }
@@ -61,9 +63,14 @@ func (ij *interjection[T]) timerDuration() time.Duration {
 	return ij.every - jitter
 }
 
+// A one-off interjection is either executed or rejected, by whoever claims it first.
+func (ij *interjection[T]) claim() bool {
+	return atomic.CompareAndSwapInt32(&ij.claimed, 0, 1)
+}
+
 // schedules the next interjection
 func (ij *interjection[T]) tick() {
-	if ij.isOneOff {
+	if ij.isOneOff || ij.cancelled {
 		return
 	}
 	delay := ij.timerDuration()
diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index d4867b9..1d0b4fc 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -213,6 +213,36 @@ func (pw *partitionWorker[T]) scheduleTxnAndExecution(records []*kgo.Record) {
 	}
 }
 
+// Executes cmd once, unless the partition is revoked before its turn comes.
+func (pw *partitionWorker[T]) interject(cmd Interjector[T]) <-chan error {
+	c := make(chan error, 1)
+	executed := make(chan struct{})
+	ij := &interjection[T]{
+		isOneOff:       true,
+		topicPartition: pw.topicPartition,
+		interjector: func(ec *EventContext[T], t time.Time) ExecutionState {
+			state := cmd(ec, t)
+			close(c)
+			close(executed)
+			return state
+		},
+	}
+	select {
+	case pw.interjectionInput <- ij:
+	case <-pw.runStatus.Done():
+	}
+	go func() {
+		select {
+		case <-executed:
+		case <-pw.runStatus.Done():
+			if ij.claim() {
+				c <- ErrPartitionNotAssigned
+			}
+		}
+	}()
+	return c
+}
+
 func (pw *partitionWorker[T]) interleaveInterjection() {
 	select {
 	case ij := <-pw.interjectionInput:
@@ -307,6 +337,9 @@ func (pw *partitionWorker[T]) processAsyncJob(job AsyncJob[T]) {
 	if job.Finalize() == Complete {
 		job.ctx.complete()
 		<-pw.maxPending
+		if job.ctx.IsInterjection() {
+			job.ctx.interjection.tick()
+		}
 	}
 }
 
@@ -325,7 +358,7 @@ func (pw *partitionWorker[T]) handleInterjection(ec *EventContext[T]) {
 		if inter.callback != nil {
 			inter.callback() // we need to close off 1-off interjections to prevent sourceConsumer from hanging
 		}
-	} else if ec.producer != nil && inter.interject(ec) == Complete {
+	} else if (inter.isOneOff && !inter.claim()) || inter.interject(ec) == Complete {
 		ec.complete()
 		<-pw.maxPending
 		inter.tick()
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index d2ff39a..f7f58f0 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -327,29 +327,17 @@ func (sc *eventSourceConsumer[T]) start() {
 }
 
 // Inserts the interjection into the appropriate partition workers interjectionChannel. Returns immediately if the partiotns is not currently assigned.
+// The returned channel is closed once the interjector has been executed. If it never will be, it receives ErrPartitionNotAssigned.
 func (sc *eventSourceConsumer[T]) interject(partition int32, cmd Interjector[T]) <-chan error {
 	sc.workerMux.Lock()
-	defer sc.workerMux.Unlock()
-	c := make(chan error, 1)
 	w := sc.workers[partition]
-	if w == nil {
-		c <- ErrPartitionNotAssigned
-		return c
-	}
-	if !w.canInterject() {
+	sc.workerMux.Unlock()
+	if w == nil || !w.canInterject() {
+		c := make(chan error, 1)
 		c <- ErrPartitionNotAssigned
 		return c
 	}
-	w.interjectionInput <- &interjection[T]{
-		isOneOff:       true,
-		topicPartition: w.topicPartition,
-		interjector: func(ec *EventContext[T], t time.Time) ExecutionState {
-			state := cmd(ec, t)
-			close(c)
-			return state
-		},
-	}
-	return c
+	return w.interject(cmd)
 }
 
 // A convenience function which allows you to Interject into every active partition assigned to the consumer
-- 
2.43.0


From 7851eab0e1283a3b3e85524702b2c7844bbd3d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 12/39] fix: forget every topic partition the instructions name

---
 streams/incr_rebalancer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streams/incr_rebalancer.go b/streams/incr_rebalancer.go
index dad13ff..f7440c6 100644
--- a/streams/incr_rebalancer.go
+++ b/streams/incr_rebalancer.go
@@ -410,10 +410,10 @@ func (ir *incrementalRebalancer) ParseSyncAssignment(assignment []byte) (map[str
 			prepping := ir.preparing.Remove(tp)
 			prepped := ir.ready.Remove(tp)
 			if prepping || prepped {
-				go func() {
+				go func(tp TopicPartition) {
 					ir.instructionHandler.ForgetPreparedTopicPartition(tp)
 					wg.Done()
-				}()
+				}(tp)
 			} else {
 				wg.Done()
 			}
-- 
2.43.0


From c28942cc0cf508a4c5bd42aaea812421809d0597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:45 +0000
Subject: [PATCH 13/39] fix: a produced batch completes its event without a
 callback or records

---
 streams/producer.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/streams/producer.go b/streams/producer.go
index 0eb8bc3..359427e 100644
--- a/streams/producer.go
+++ b/streams/producer.go
@@ -133,13 +133,16 @@ func (b *produceBatcher[S]) cleanup() {
 }
 
 func (b *produceBatcher[S]) recordComplete() {
-	if atomic.AddInt64(&b.pending, -1) == 0 && b.callback != nil {
+	if atomic.AddInt64(&b.pending, -1) == 0 {
 		b.ctx.AsyncJobComplete(b.executeCallback)
 	}
 }
 
 func (b *produceBatcher[S]) executeCallback() ExecutionState {
-	state := b.callback(b.ctx, b.records, b.userData)
+	state := Complete
+	if b.callback != nil {
+		state = b.callback(b.ctx, b.records, b.userData)
+	}
 	b.cleanup()
 	return state
 }
@@ -157,6 +160,11 @@ func (p *BatchProducer[S]) Produce(ec *EventContext[S], records []*Record, cb Ba
 		pending:  int64(len(records)),
 		userData: userData,
 	}
+	if len(records) == 0 {
+		// nothing to wait for, but the event still has to be completed
+		go ec.AsyncJobComplete(b.executeCallback)
+		return Incomplete
+	}
 	p.produceBatch(b)
 	return Incomplete
 }
-- 
2.43.0


From 5c375f836b9f2cd5dc07d70779ea7ba646cbe6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:48 +0000
Subject: [PATCH 14/39] fix: complete empty batches in the order of their key

---
 streams/async_batcher.go | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/streams/async_batcher.go b/streams/async_batcher.go
index 8c5ea53..1715a28 100644
--- a/streams/async_batcher.go
+++ b/streams/async_batcher.go
@@ -122,30 +122,29 @@ const (
 )
 
 type asyncBatchExecutor[S any, K comparable, V any] struct {
-	items      []*BatchItem[K, V]
-	noops      []*BatchItems[S, K, V]
+	items      []*BatchItem[K, V] // those to be executed
+	entries    []*BatchItem[K, V] // all items, including placeholders, in the order in which they were added
 	state      asyncBatchState
 	flushTimer *time.Timer
 }
 
 func (b *asyncBatchExecutor[S, K, V]) add(item *BatchItem[K, V]) {
-	if item.itemType == placeholder {
-		b.noops = append(b.noops, (*BatchItems[S, K, V])(item.batch))
-	} else {
+	b.entries = append(b.entries, item)
+	if item.itemType != placeholder {
 		b.items = append(b.items, item)
 	}
 }
 
 func (b *asyncBatchExecutor[S, K, V]) reset(assignments map[K]*asyncBatchExecutor[S, K, V]) {
-	for i, item := range b.items {
+	for i, item := range b.entries {
 		delete(assignments, item.key)
-		b.items[i] = nil
+		b.entries[i] = nil
 	}
-	for i := range b.noops {
-		b.noops[i] = nil
+	for i := range b.items {
+		b.items[i] = nil
 	}
 	b.items = b.items[0:0]
-	b.noops = b.noops[0:0]
+	b.entries = b.entries[0:0]
 	b.state = batcherReady
 }
 
@@ -244,7 +243,7 @@ func (ab *AsyncBatcher[S, K, V]) addToExecutor(item *BatchItem[K, V], executor *
 	ab.assignments[item.key] = executor
 	executor.add(item)
 
-	if len(executor.items)+len(executor.noops) == ab.maxBatchSize {
+	if len(executor.entries) == ab.maxBatchSize {
 		ab.conditionallyExecuteBatch(executor)
 	} else if executor.flushTimer == nil {
 		executor.flushTimer = time.AfterFunc(ab.batchDelay, func() {
@@ -270,18 +269,20 @@ func (ab *AsyncBatcher[S, K, V]) conditionallyExecuteBatch(executor *asyncBatchE
 
 func (ab *AsyncBatcher[S, K, V]) completeBatchItems(items []*BatchItem[K, V]) {
 	for _, item := range items {
-		batchFor[S, K, V](item.batch).completeItem()
+		batch := batchFor[S, K, V](item.batch)
+		if item.itemType == placeholder {
+			batch.eventContext.AsyncJobComplete(batch.executeCallback)
+		} else {
+			batch.completeItem()
+		}
 	}
 }
 
 func (ab *AsyncBatcher[S, K, V]) executeBatch(executor *asyncBatchExecutor[S, K, V]) {
 	if len(executor.items) > 0 {
 		ab.executor(executor.items)
-		ab.completeBatchItems(executor.items)
-	}
-	for _, b := range executor.noops {
-		b.eventContext.AsyncJobComplete(b.executeCallback)
 	}
+	ab.completeBatchItems(executor.entries)
 	ab.mux.Lock()
 	ab.executingCount--
 	executor.reset(ab.assignments)
-- 
2.43.0


From b6f7bde535a14b6b0b4a719475c956abab61dd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:52 +0000
Subject: [PATCH 15/39] fix: process an item whose blocked enqueue finished
 after its queue was drained

---
 streams/async_item_queue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/streams/async_item_queue.go b/streams/async_item_queue.go
index 1e8c4bc..1dfbe66 100644
--- a/streams/async_item_queue.go
+++ b/streams/async_item_queue.go
@@ -106,6 +106,10 @@ func (aiq *asyncItemQueue[T]) dequeue() (T, bool) {
 func (aiq *asyncItemQueue[T]) peek() (T, bool) {
 	aiq.headLock.Lock()
 	defer aiq.headLock.Unlock()
+	if !aiq.peekable {
+		// an item may have been put into the channel since the queue was drained
+		aiq.backfill()
+	}
 	return aiq.head, aiq.peekable
 }
 
-- 
2.43.0


From 459e2e22930f5450a466441742a5d69a676059fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 16/39] fix: do not commit events which a closed
 AsyncJobScheduler did not process

---
 streams/async_scheduler.go | 8 ++++++--
 streams/event_source.go    | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/streams/async_scheduler.go b/streams/async_scheduler.go
index dadd2cf..fa24af6 100644
--- a/streams/async_scheduler.go
+++ b/streams/async_scheduler.go
@@ -230,7 +230,8 @@ func (ap *AsyncJobScheduler[S, K, V]) newQueue() interface{} {
 // Schedules the value for processing in order by key. The finalizer will be invoked once processing is complete.
 func (ap *AsyncJobScheduler[S, K, V]) Schedule(ec *EventContext[S], key K, value V) ExecutionState {
 	if ap.isClosed() {
-		return Complete
+		// not processed, so it must not be committed either
+		return Incomplete
 	}
 	ap.scheduleItem(asyncJobContainer[S, K, V]{
 		eventContext: ec,
@@ -349,7 +350,10 @@ func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize, oldSi
 }
 
 func (ap *AsyncJobScheduler[S, K, V]) waitForWorker() {
-	<-ap.workerFreeSignal
+	select {
+	case <-ap.workerFreeSignal:
+	case <-ap.runStatus.Done():
+	}
 }
 
 func (ap *AsyncJobScheduler[S, K, V]) workerAvailable() {
diff --git a/streams/event_source.go b/streams/event_source.go
index ef3bb58..462e553 100644
--- a/streams/event_source.go
+++ b/streams/event_source.go
@@ -282,8 +282,9 @@ func (es *EventSource[T]) ForkRunStatus() sak.RunStatus {
 // This has the effect of immediately surrendering all owned partitions, then closing the client.
 // If you are using an IncrementalGroupRebalancer, this can be used as a force quit.
 func (es *EventSource[T]) StopNow() {
-	es.runStatus.Halt()
+	// pending events are finished first, and may need the sub processes (AsyncJobScheduler) for this
 	es.consumer.stop()
+	es.runStatus.Halt()
 	es.closeDone()
 }
 
-- 
2.43.0


From 555d975249241b879fc52436884702878c13239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 17/39] fix: keep all pending workers when MaxConcurrentKeys is
 updated

---
 streams/async_scheduler.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/streams/async_scheduler.go b/streams/async_scheduler.go
index fa24af6..3ef039f 100644
--- a/streams/async_scheduler.go
+++ b/streams/async_scheduler.go
@@ -281,8 +281,11 @@ func (ap *AsyncJobScheduler[S, K, V]) scheduleItem(item asyncJobContainer[S, K,
 
 func (ap *AsyncJobScheduler[S, K, V]) work() {
 	for {
+		ap.updateRWLock.RLock()
+		workerChannel := ap.workerChannel
+		ap.updateRWLock.RUnlock()
 		select {
-		case wq := <-ap.workerChannel:
+		case wq := <-workerChannel:
 			if wq != nil {
 				wq.process()
 				ap.releaseWorker(wq)
@@ -313,17 +316,15 @@ func (ap *AsyncJobScheduler[S, K, V]) SetMaxConcurrentKeys(size int) {
 	ap.updateRWLock.Lock()
 	defer ap.updateRWLock.Unlock()
 	// this does not actually increase the number of workers, just makes room in the pending worker channel
-	prevMaxKeys := ap.maxConcurrentKeys
-
 	// lock here as grabWorker() uses this value, locked in release/scheduleWorker
 	ap.mux.Lock()
 	ap.maxConcurrentKeys = SchedulerConfig{MaxConcurrentKeys: size}.concurrentKeys()
 	ap.mux.Unlock()
-	ap.ensureWorkerChannelCapacity(size, prevMaxKeys)
+	ap.ensureWorkerChannelCapacity(size)
 }
 
-func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize, oldSize int) {
-	if newSize > oldSize {
+func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize int) {
+	if newSize+1 > cap(ap.workerChannel) {
 		/*
 			we need to make sure s.workerChannel capacity is > s.maxConcurrentKeys
 			to avoid a deadlock. worker routines pull from this channel and may post back in the same thread
@@ -335,7 +336,7 @@ func (ap *AsyncJobScheduler[S, K, V]) ensureWorkerChannelCapacity(newSize, oldSi
 		// transfer any pending workers to the new channel
 		oldChan := ap.workerChannel
 	pending:
-		for i := 0; i < newSize; i++ {
+		for {
 			select {
 			case w := <-oldChan:
 				wc <- w
-- 
2.43.0


From a9f76ee2e741e2bc4ba1fc233466910895372234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:19 +0000
Subject: [PATCH 18/39] fix: SimpleStore applies the changes it can decode

---
 streams/stores/simple_store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streams/stores/simple_store.go b/streams/stores/simple_store.go
index a5c01de..300a3cc 100644
--- a/streams/stores/simple_store.go
+++ b/streams/stores/simple_store.go
@@ -88,7 +88,7 @@ func (s *SimpleStore[T]) ReceiveChange(record streams.IncomingRecord) (err error
 			key: string(record.Key()),
 		}
 		s.tree.Delete(&keyedValue)
-	} else if item, err = s.codec.Decode(record.Value()); err != nil {
+	} else if item, err = s.codec.Decode(record.Value()); err == nil {
 		s.tree.ReplaceOrInsert(&keyedValue[T]{key: item.Key(), value: item})
 	}
 	return
-- 
2.43.0


From 87aaf6bff2a62a873257cd3d861f1e7cd8c65a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:22 +0000
Subject: [PATCH 19/39] fix: LexoInt64Codec encodes in big endian

---
 streams/codec.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/streams/codec.go b/streams/codec.go
index aa322a8..ee1ab20 100644
--- a/streams/codec.go
+++ b/streams/codec.go
@@ -104,11 +104,11 @@ const LexInt64Size = int(unsafe.Sizeof(uint64(1))) + 1
 // Encodes the provided value. Will never induce an error unless there is an OOM condition, so it should be safe to ignore.
 func (lexoInt64Codec) Encode(buf *bytes.Buffer, i int64) error {
 	var b [LexInt64Size]byte
-	if i > 0 {
+	if i >= 0 {
 		b[0] = 1
-		binary.LittleEndian.PutUint64(b[1:], uint64(i))
+		binary.BigEndian.PutUint64(b[1:], uint64(i))
 	} else {
-		binary.LittleEndian.PutUint64(b[1:], uint64(math.MaxInt64+i))
+		binary.BigEndian.PutUint64(b[1:], uint64(i-math.MinInt64))
 	}
 	buf.Write(b[:])
 	return nil
@@ -120,11 +120,11 @@ func (lexoInt64Codec) Decode(b []byte) (int64, error) {
 		return 0, fmt.Errorf("invalid lexo integer []byte length. Expected %d, actual: %d", LexInt64Size, len(b))
 	}
 	sign := b[0]
-	val := int64(binary.LittleEndian.Uint64(b[1:]))
+	val := int64(binary.BigEndian.Uint64(b[1:]))
 	if sign == 1 {
 		return val, nil
 	}
-	return val - math.MaxInt64, nil
+	return val + math.MinInt64, nil
 }
 
 // A generic JSON en/decoder.
-- 
2.43.0


From 6f1be3c6440fa525156f6d8379600748cebfce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:24 +0000
Subject: [PATCH 20/39] fix: MinMaxHeap keeps its order after Max, Push, Update
 and Remove

---
 streams/stores/min_max_heap.go | 67 ++++++++++------------------------
 1 file changed, 20 insertions(+), 47 deletions(-)

diff --git a/streams/stores/min_max_heap.go b/streams/stores/min_max_heap.go
index 1f3e21a..f8d8b43 100644
--- a/streams/stores/min_max_heap.go
+++ b/streams/stores/min_max_heap.go
@@ -36,7 +36,6 @@ type PrioritizedItem[T Prioritizable[T]] struct {
 // https://doi.org/10.1145/6617.6621.
 type MinMaxHeap[T Prioritizable[T]] struct {
 	items []*PrioritizedItem[T]
-	maxed bool
 }
 
 func NewMinMaxHeap[T Prioritizable[T]](items ...T) *MinMaxHeap[T] {
@@ -68,17 +67,14 @@ func (pq *MinMaxHeap[T]) Len() int {
 }
 
 func (pq *MinMaxHeap[T]) Push(item *PrioritizedItem[T]) {
-	pq.maxed = false
 	push(pq, item)
 }
 
 func (pq *MinMaxHeap[T]) Update(item *PrioritizedItem[T]) {
-	pq.maxed = false
 	fix(pq, item.index)
 }
 
 func (pq *MinMaxHeap[T]) Remove(item *PrioritizedItem[T]) {
-	pq.maxed = false
 	remove(pq, item.index)
 }
 
@@ -93,18 +89,13 @@ func (pq *MinMaxHeap[T]) Max() *PrioritizedItem[T] {
 	if pq.Len() == 0 {
 		return nil
 	}
-	if !pq.maxed {
-		setMax(pq)
-		pq.maxed = true
-	}
-	return pq.items[pq.Len()-1]
+	return pq.items[maxIndex(pq)]
 }
 
 func (pq *MinMaxHeap[T]) PopMin() *PrioritizedItem[T] {
 	if pq.Len() == 0 {
 		return nil
 	}
-	pq.maxed = false
 	return popMin(pq)
 }
 
@@ -112,11 +103,7 @@ func (pq *MinMaxHeap[T]) PopMax() *PrioritizedItem[T] {
 	if pq.Len() == 0 {
 		return nil
 	}
-	if !pq.maxed {
-		setMax(pq)
-	}
-	pq.maxed = false
-	return pq.pop()
+	return popMax(pq)
 }
 
 func (pq *MinMaxHeap[T]) pop() *PrioritizedItem[T] {
@@ -128,6 +115,7 @@ func (pq *MinMaxHeap[T]) pop() *PrioritizedItem[T] {
 }
 
 func (pq *MinMaxHeap[T]) push(item *PrioritizedItem[T]) {
+	item.index = len(pq.items)
 	pq.items = append(pq.items, item)
 }
 
@@ -263,9 +251,8 @@ func popMin[T Prioritizable[T]](h *MinMaxHeap[T]) *PrioritizedItem[T] {
 	return h.pop()
 }
 
-// popMax removes and returns the maximum element (according to Less) from the heap.
-// The complexity is O(log n) where n = h.Len().
-func setMax[T Prioritizable[T]](h *MinMaxHeap[T]) {
+// maxIndex returns the index of the maximum element (according to Less), which is either the root's or one of its children's.
+func maxIndex[T Prioritizable[T]](h *MinMaxHeap[T]) int {
 	n := h.Len()
 
 	i := 0
@@ -278,31 +265,17 @@ func setMax[T Prioritizable[T]](h *MinMaxHeap[T]) {
 	if r < n && !h.less(r, i) {
 		i = r
 	}
-
-	h.swap(i, n-1)
-	down(h, i, n-1)
+	return i
 }
 
-// // popMax removes and returns the maximum element (according to Less) from the heap.
-// // The complexity is O(log n) where n = h.Len().
-// func popMax[T Prioritizable[T]](h *MinMaxHeap[T]) *PrioritizedItem[T] {
-// 	n := h.Len()
-
-// 	i := 0
-// 	l := lchild(0)
-// 	if l < n && !h.less(l, i) {
-// 		i = l
-// 	}
-
-// 	r := rchild(0)
-// 	if r < n && !h.less(r, i) {
-// 		i = r
-// 	}
-
-// 	h.swap(i, n-1)
-// 	down(h, i, n-1)
-// 	return h.pop()
-// }
+// popMax removes and returns the maximum element (according to Less) from the heap.
+// The complexity is O(log n) where n = h.Len().
+func popMax[T Prioritizable[T]](h *MinMaxHeap[T]) *PrioritizedItem[T] {
+	i, n := maxIndex(h), h.Len()-1
+	h.swap(i, n)
+	down(h, i, n)
+	return h.pop()
+}
 
 // remove removes and returns the element at index i from the heap.
 // The complexity is O(log n) where n = h.Len().
@@ -310,9 +283,9 @@ func remove[T Prioritizable[T]](h *MinMaxHeap[T], i int) interface{} {
 	n := h.Len() - 1
 	if n != i {
 		h.swap(i, n)
-		if !down(h, i, n) {
-			up(h, i)
-		}
+		// the item which replaces the removed one may have to move in either direction
+		up(h, i)
+		down(h, i, n)
 	}
 	return h.pop()
 }
@@ -323,7 +296,7 @@ func remove[T Prioritizable[T]](h *MinMaxHeap[T], i int) interface{} {
 // followed by a Push of the new value.
 // The complexity is O(log n) where n = h.Len().
 func fix[T Prioritizable[T]](h *MinMaxHeap[T], i int) {
-	if !down(h, i, h.Len()) {
-		up(h, i)
-	}
+	// whatever takes the place of an item which has moved up may have to move down
+	up(h, i)
+	down(h, i, h.Len())
 }
-- 
2.43.0


From 8a56ef50eb713bb40025d735a49df478fb3b8c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 21/39] fix: ToKafkaRecord copies topic, partition, headers and
 record type

---
 streams/record.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/streams/record.go b/streams/record.go
index 8252c09..2480497 100644
--- a/streams/record.go
+++ b/streams/record.go
@@ -256,7 +256,11 @@ func (r *Record) toKafkaRecord() *kgo.Record {
 
 // Creates a newly allocated kgo.Record. The Key and Value fields are freshly allocated bytes, copied from [streams.Record].
 func (r *Record) ToKafkaRecord() *kgo.Record {
-	record := new(kgo.Record)
+	record := &kgo.Record{
+		Topic:     r.kRecord.Topic,
+		Partition: r.kRecord.Partition,
+		Headers:   append([]kgo.RecordHeader(nil), r.kRecord.Headers...),
+	}
 	if r.keyBuffer.Len() > 0 {
 		record.Key = append(record.Key, r.keyBuffer.Bytes()...)
 	}
@@ -264,7 +268,7 @@ func (r *Record) ToKafkaRecord() *kgo.Record {
 	if r.valueBuffer.Len() > 0 {
 		record.Value = append(record.Value, r.valueBuffer.Bytes()...)
 	}
-	addRecordTypeHeader(r.recordType, &r.kRecord)
+	addRecordTypeHeader(r.recordType, record)
 	return record
 }
 
-- 
2.43.0


From df4749f9560744d2899d5f11accda718b16f692e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:06 +0000
Subject: [PATCH 22/39] fix: use the retrieved credentials for IAM
 authentication

---
 msk/cluster.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msk/cluster.go b/msk/cluster.go
index 370c97b..7b93f35 100644
--- a/msk/cluster.go
+++ b/msk/cluster.go
@@ -168,7 +168,7 @@ func (c *MskCluster) Config() (opts []kgo.Opt, err error) {
 // provides the IAM auth mechanism from using aws.Config CredentialsProvider, so as sessions expire, we should be ok.
 func (c *MskCluster) saslIamAuth(ctx context.Context) (auth kaws.Auth, err error) {
 	var creds aws.Credentials
-	if creds, err = c.awsConfig.Credentials.Retrieve(ctx); err != nil {
+	if creds, err = c.awsConfig.Credentials.Retrieve(ctx); err == nil {
 		auth = kaws.Auth{
 			AccessKey:    creds.AccessKeyID,
 			SecretKey:    creds.SecretAccessKey,
-- 
2.43.0


From bcee7c03d15c3c88a4bd3fab40b54ea09b0e2593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:08 +0000
Subject: [PATCH 23/39] fix: pick the MSK cluster with the very name

---
 msk/cluster.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/msk/cluster.go b/msk/cluster.go
index 7b93f35..c0789a2 100644
--- a/msk/cluster.go
+++ b/msk/cluster.go
@@ -216,21 +216,30 @@ func (c *MskCluster) getBootstrapBrokers() (brokers []string, err error) {
 }
 
 func (c *MskCluster) getClusterArn() (arn string, err error) {
-	var res *kafka.ListClustersOutput
-	if res, err = c.client.ListClusters(context.TODO(), &kafka.ListClustersInput{
+	input := &kafka.ListClustersInput{
 		ClusterNameFilter: aws.String(c.clusterName),
-	}); err != nil {
-		return
-	}
-	if len(res.ClusterInfoList) == 0 {
-		err = fmt.Errorf("cluster not found: %s", c.clusterName)
-		return
 	}
-	ci := res.ClusterInfoList[0]
-	if ci.ClusterArn == nil {
-		err = fmt.Errorf("cluster not found (nil ClusterInfo): %s", c.clusterName)
-		return
+	for {
+		var res *kafka.ListClustersOutput
+		if res, err = c.client.ListClusters(context.TODO(), input); err != nil {
+			return
+		}
+		for _, ci := range res.ClusterInfoList {
+			// ClusterNameFilter is a prefix, so there may be other clusters in the list
+			if aws.ToString(ci.ClusterName) != c.clusterName {
+				continue
+			}
+			if ci.ClusterArn == nil {
+				err = fmt.Errorf("cluster not found (nil ClusterInfo): %s", c.clusterName)
+				return
+			}
+			arn = *ci.ClusterArn
+			return
+		}
+		if len(aws.ToString(res.NextToken)) == 0 {
+			err = fmt.Errorf("cluster not found: %s", c.clusterName)
+			return
+		}
+		input.NextToken = res.NextToken
 	}
-	arn = *ci.ClusterArn
-	return
 }
-- 
2.43.0


From 70563103c870979d858e5c204677fc604720d42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:11 +0000
Subject: [PATCH 24/39] fix: report errors other than network errors

---
 streams/source_consumer.go | 6 +++---
 streams/topics.go          | 3 +--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index f7f58f0..32c0fa3 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -90,6 +90,9 @@ func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additiona
 	}
 	client, err := NewClient(
 		source.config.SourceCluster, opts...)
+	if err != nil {
+		return nil, err
+	}
 
 	eosConfig := source.config.EosConfig
 	if eosConfig.IsZero() {
@@ -108,9 +111,6 @@ func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additiona
 	}
 	sc.client = client
 	sc.stateStoreConsumer = newStateStoreConsumer[T](eventSource.ForkRunStatus(), source)
-	if err != nil {
-		return nil, err
-	}
 	return sc, nil
 }
 
diff --git a/streams/topics.go b/streams/topics.go
index 858c85f..e61486b 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -194,9 +194,8 @@ func isNetworkError(err error) bool {
 	if errors.As(err, &opError) {
 		log.Warnf("network error for operation: %s, error: %v", opError.Op, opError)
 		return true
-	} else if err != nil {
-		log.Errorf("non network error for operation: %s, error: %v", opError.Op, opError)
 	}
+	log.Errorf("non network error: %v", err)
 	return false
 }
 
-- 
2.43.0


From e0958ba5989e86572aad108159ce1cb3eabef70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 25/39] fix: CreateDestination creates the topic of the
 destination, once

---
 streams/topics.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/streams/topics.go b/streams/topics.go
index e61486b..1695763 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -145,16 +145,23 @@ func createTopic(adminClient *kadm.Client, numPartitions int, replicationFactor
 }
 
 func createDestination(destination Destination) (Destination, error) {
-	client, err := NewClient(destination.Cluster)
-	adminClient := kadm.NewClient(client)
-	minInSync := fmt.Sprintf("%d", destination.MinInSync)
-	createTopicFromConfigMap(adminClient, int32(destination.NumPartitions), int16(destination.ReplicationFactor), map[string]*string{
-		"min.insync.replicas": sak.Ptr(minInSync),
-	})
+	client, err := NewClient(destination.Cluster, kgo.RequestRetries(20), kgo.RetryTimeout(30*time.Second))
 	if err != nil {
 		return destination, err
 	}
-	return destination, err
+	defer client.Close()
+	// whatever is not specified is left to the defaults of the cluster
+	numPartitions, replicationFactor, config := int32(-1), int16(-1), map[string]*string{}
+	if destination.NumPartitions > 0 {
+		numPartitions = int32(destination.NumPartitions)
+	}
+	if destination.ReplicationFactor > 0 {
+		replicationFactor = int16(destination.ReplicationFactor)
+	}
+	if destination.MinInSync > 0 {
+		config["min.insync.replicas"] = sak.Ptr(strconv.Itoa(destination.MinInSync))
+	}
+	return destination, createTopicFromConfigMap(kadm.NewClient(client), numPartitions, replicationFactor, config, destination.DefaultTopic)
 }
 
 func CreateDestination(destination Destination) (resolved Destination, err error) {
@@ -162,6 +169,8 @@ func CreateDestination(destination Destination) (resolved Destination, err error
 		resolved, err = createDestination(destination)
 		if isNetworkError(err) {
 			time.Sleep(time.Second)
+		} else {
+			break
 		}
 	}
 	return
-- 
2.43.0


From c2cc553452538a1bd79ed4a52a1188c58d2ea757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 26/39] fix: report topics which could not be created

---
 streams/source.go |  3 +++
 streams/topics.go | 11 ++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/streams/source.go b/streams/source.go
index 4c4e3cf..3a46d7f 100644
--- a/streams/source.go
+++ b/streams/source.go
@@ -233,6 +233,9 @@ func minInSyncConfig(source *Source) int {
 	if source.config.MinInSync >= int(factor) {
 		return source.config.ReplicationFactor - 1
 	}
+	if source.config.MinInSync <= 0 {
+		return 1
+	}
 	return source.config.MinInSync
 }
 
diff --git a/streams/topics.go b/streams/topics.go
index 1695763..a1c105c 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -25,6 +25,7 @@ import (
 	"github.com/aws/go-kafka-event-source/streams/sak"
 	"github.com/google/btree"
 	"github.com/twmb/franz-go/pkg/kadm"
+	"github.com/twmb/franz-go/pkg/kerr"
 	"github.com/twmb/franz-go/pkg/kgo"
 )
 
@@ -130,7 +131,15 @@ func NewClient(cluster Cluster, options ...kgo.Opt) (*kgo.Client, error) {
 func createTopicFromConfigMap(adminClient *kadm.Client, numPartitions int32, replicationFactor int16, config map[string]*string, topic ...string) error {
 	res, err := adminClient.CreateTopics(context.Background(), numPartitions, replicationFactor, config, topic...)
 	log.Infof("createTopic res: %+v, err: %v", res, err)
-	return err
+	if err != nil {
+		return err
+	}
+	for _, r := range res {
+		if r.Err != nil && !errors.Is(r.Err, kerr.TopicAlreadyExists) {
+			return r.Err
+		}
+	}
+	return nil
 }
 
 func createTopic(adminClient *kadm.Client, numPartitions int, replicationFactor int, minInsync int, cleanupPolicy CleanupPolicy, dirtyRatio float64, topic ...string) error {
-- 
2.43.0


From 484396d8edf872c8ba7dae3fe6c3bfd7f88e6c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:17 +0000
Subject: [PATCH 27/39] fix: do not schedule records twice which are fetched
 again

---
 streams/partition_worker.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index 1d0b4fc..bfa7a43 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -74,7 +74,7 @@ type partitionWorker[T StateStore] struct {
 	eventSource            *EventSource[T]
 	runStatus              sak.RunStatus
 	ready                  int64
-	highestOffset          int64
+	nextOffset             int64 // the next offset to schedule
 	topicPartition         TopicPartition
 	revocationWaiter       sync.WaitGroup
 	activationMux          sync.Mutex
@@ -114,7 +114,7 @@ func newPartitionWorker[T StateStore](
 		interjectionInput:      make(chan *interjection[T], 1),
 		interjectionEventInput: make(chan *EventContext[T], 1),
 		runStatus:              eventSource.runStatus.Fork(),
-		highestOffset:          -1,
+		nextOffset:             -1,
 	}
 
 	go pw.work(pw.eventSource.interjections, waiter, commitLog)
@@ -199,7 +199,9 @@ func (pw *partitionWorker[T]) scheduleTxnAndExecution(records []*kgo.Record) {
 
 	pw.revocationWaiter.Add(len(records)) // optimistically do one add call
 	for _, record := range records {
-		if record != nil && record.Offset >= pw.highestOffset {
+		if record != nil && record.Offset >= pw.nextOffset {
+			// the records before this one may still be queued, but they must not be scheduled again
+			pw.nextOffset = record.Offset + 1
 			ec := newEventContext(pw.runStatus.Ctx(), record, pw.changeLog.changeLogData(), pw)
 			pw.maxPending <- struct{}{}
 			pw.eosProducer.addEventContext(ec)
@@ -276,8 +278,8 @@ func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(
 	})
 	// don't start consuming until this function returns
 	// this function will block until all changelogs for this partition are populated
-	pw.highestOffset = commitLog.lastProcessed(pw.topicPartition)
-	log.Debugf("partitionWorker initialized %+v with lastProcessed offset: %d in %v", pw.topicPartition, pw.highestOffset, elapsed)
+	pw.nextOffset = commitLog.lastProcessed(pw.topicPartition)
+	log.Debugf("partitionWorker initialized %+v with lastProcessed offset: %d in %v", pw.topicPartition, pw.nextOffset, elapsed)
 	waiter()
 	pw.activationMux.Lock()
 	if pw.revoking || pw.isRevoked() {
@@ -394,8 +396,6 @@ func (pw *partitionWorker[T]) forwardToEventSource(ec *EventContext[T]) {
 		<-pw.maxPending
 		return
 	}
-	offset := ec.Offset()
-	pw.highestOffset = offset + 1
 	record, _ := ec.Input()
 	if pw.eventSource.handleEvent(ec, record) == Complete {
 		ec.complete()
-- 
2.43.0


From 1dabec4cd19772716d5b9f6d2e4bac9e0374c7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 28/39] fix: commit the offsets of revoked partitions

---
 streams/eos_producer.go    | 37 ++++++++++++++++++++++++++++++++++---
 streams/source_consumer.go |  8 +++++++-
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/streams/eos_producer.go b/streams/eos_producer.go
index dc6926a..fc3836c 100644
--- a/streams/eos_producer.go
+++ b/streams/eos_producer.go
@@ -65,6 +65,32 @@ func (po partitionOwners[T]) clear(p int32) {
 	po.mux.Unlock()
 }
 
+// The last committed records of the partitions this consumer owns, see SourceConfig.CommitOffsets
+type committedRecords struct {
+	records map[int32]*kgo.Record
+	mux     sync.Mutex
+}
+
+func (cr *committedRecords) add(record *kgo.Record) {
+	cr.mux.Lock()
+	defer cr.mux.Unlock()
+	if last, ok := cr.records[record.Partition]; !ok || last.Offset < record.Offset {
+		cr.records[record.Partition] = record
+	}
+}
+
+func (cr *committedRecords) take(partitions []int32) (records []*kgo.Record) {
+	cr.mux.Lock()
+	defer cr.mux.Unlock()
+	for _, p := range partitions {
+		if record, ok := cr.records[p]; ok {
+			delete(cr.records, p)
+			records = append(records, record)
+		}
+	}
+	return
+}
+
 // a container that allows to know who produced the records
 // needed for txn error conditions while there are revoked partitions
 // allows us to filter recordsToProduce on a retry and exclude partitions that have been revoked
@@ -96,6 +122,7 @@ type eosProducerPool[T StateStore] struct {
 	startTime         time.Time
 	errorChannel      chan error
 	commitClient      *kgo.Client
+	committed         *committedRecords
 }
 
 func newEOSProducerPool[T StateStore](source *Source, commitLog *eosCommitLog, cfg EosConfig, commitClient *kgo.Client, metrics chan Metric) *eosProducerPool[T] {
@@ -108,6 +135,7 @@ func newEOSProducerPool[T StateStore](source *Source, commitLog *eosCommitLog, c
 		errorChannel:      make(chan error, 1024), //giving this some size so we don't block on errors in other go routines
 		source:            source,
 		commitClient:      commitClient,
+		committed:         &committedRecords{records: make(map[int32]*kgo.Record)},
 		partitionOwners: partitionOwners[T]{
 			owners: make(map[int32]*producerNode[T]),
 			mux:    new(sync.Mutex),
@@ -118,7 +146,7 @@ func newEOSProducerPool[T StateStore](source *Source, commitLog *eosCommitLog, c
 	var prev *producerNode[T]
 	var last *producerNode[T]
 	for i := 0; i < cfg.PoolSize; i++ {
-		p := newProducerNode(i, source, commitLog, pp.partitionOwners, commitClient, metrics, pp.errorChannel)
+		p := newProducerNode(i, source, commitLog, pp.partitionOwners, commitClient, pp.committed, metrics, pp.errorChannel)
 		pp.producerNodes = append(pp.producerNodes, p)
 		if first == nil {
 			first = p
@@ -259,6 +287,7 @@ type eventContextDll[T any] struct {
 type producerNode[T any] struct {
 	client            *kgo.Client
 	commitClient      *kgo.Client
+	committed         *committedRecords
 	txnContext        context.Context
 	txnContextCancel  func()
 	commitLog         *eosCommitLog
@@ -284,7 +313,7 @@ type producerNode[T any] struct {
 	// errs                  []error
 }
 
-func newProducerNode[T StateStore](id int, source *Source, commitLog *eosCommitLog, partitionOwners partitionOwners[T], commitClient *kgo.Client, metrics chan Metric, errorChannel chan error) *producerNode[T] {
+func newProducerNode[T StateStore](id int, source *Source, commitLog *eosCommitLog, partitionOwners partitionOwners[T], commitClient *kgo.Client, committed *committedRecords, metrics chan Metric, errorChannel chan error) *producerNode[T] {
 	client := sak.Must(NewClient(
 		source.stateCluster(),
 		kgo.RecordPartitioner(NewOptionalPartitioner(kgo.StickyKeyPartitioner(nil))),
@@ -296,6 +325,7 @@ func newProducerNode[T StateStore](id int, source *Source, commitLog *eosCommitL
 		client:            client,
 		metrics:           metrics,
 		commitClient:      commitClient,
+		committed:         committed,
 		source:            source,
 		errorChannel:      errorChannel,
 		id:                id,
@@ -435,14 +465,15 @@ func (p *producerNode[T]) clearState(executionTime time.Time) {
 	p.txnContextCancel()
 	p.txnContext = nil
 	for _, ecs := range p.currentPartitions {
-		ecs.root.revocationWaiter.Done()
 		if p.shouldMarkCommit {
 			for ec := ecs.tail; ec != nil; ec = ec.prev {
 				if !ec.IsInterjection() {
 					p.commitClient.MarkCommitRecords(&ec.input.kRecord)
+					p.committed.add(&ec.input.kRecord)
 				}
 			}
 		}
+		ecs.root.revocationWaiter.Done()
 	}
 
 	partitionCount := len(p.currentPartitions)
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 32c0fa3..ece12ec 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -289,10 +289,16 @@ func (sc *eventSourceConsumer[T]) partitionsAssigned(ctx context.Context, _ *kgo
 	}
 }
 
-func (sc *eventSourceConsumer[T]) partitionsRevoked(ctx context.Context, _ *kgo.Client, assignments map[string][]int32) {
+func (sc *eventSourceConsumer[T]) partitionsRevoked(ctx context.Context, client *kgo.Client, assignments map[string][]int32) {
 	for topic, partitions := range assignments {
 		log.Debugf("revoked topic: %s, partitions: %v", topic, assignments)
 		sc.revokePartitions(topic, partitions)
+		// the offsets which were marked since the last automatic commit would be lost otherwise
+		if records := sc.producerPool.committed.take(partitions); len(records) > 0 {
+			if err := client.CommitRecords(ctx, records...); err != nil {
+				log.Errorf("could not commit offsets of revoked partitions: %v", err)
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 9ceb9e7e08924aa9e5849b3751bf0c4011187dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 29/39] fix: revoke the partitions of a consumer which was
 removed from the group

---
 streams/source_consumer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index ece12ec..c787d17 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -74,6 +74,7 @@ func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additiona
 		kgo.ConsumeTopics(source.config.Topic),
 		kgo.OnPartitionsAssigned(sc.partitionsAssigned),
 		kgo.OnPartitionsRevoked(sc.partitionsRevoked),
+		kgo.OnPartitionsLost(sc.partitionsLost),
 		kgo.SessionTimeout(6 * time.Second),
 		kgo.FetchMaxWait(time.Second),
 		kgo.AdjustFetchOffsetsFn(sc.adjustOffsetsBeforeAssign)}
@@ -302,6 +303,15 @@ func (sc *eventSourceConsumer[T]) partitionsRevoked(ctx context.Context, client
 	}
 }
 
+// The group has given the partitions to other consumers, whose changes are missing in our state stores.
+func (sc *eventSourceConsumer[T]) partitionsLost(ctx context.Context, _ *kgo.Client, assignments map[string][]int32) {
+	for topic, partitions := range assignments {
+		log.Warnf("lost topic: %s, partitions: %v", topic, assignments)
+		sc.revokePartitions(topic, partitions)
+		sc.producerPool.committed.take(partitions)
+	}
+}
+
 func (sc *eventSourceConsumer[T]) receive(p kgo.FetchTopicPartition) {
 	sc.workerMux.Lock()
 	worker, ok := sc.workers[p.Partition]
-- 
2.43.0


From 279a0c0f0db14ab77a1d942172305b15ccfbd1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:40 +0000
Subject: [PATCH 30/39] fix: compare partitions without overflow

---
 streams/topics.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/streams/topics.go b/streams/topics.go
index a1c105c..d324fc7 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -51,9 +51,8 @@ type TopicPartitionSet struct {
 
 // Comparator for TopicPartitions
 func topicPartitionLess(a, b TopicPartition) bool {
-	res := a.Partition - b.Partition
-	if res != 0 {
-		return res < 0
+	if a.Partition != b.Partition {
+		return a.Partition < b.Partition
 	}
 	return a.Topic < b.Topic
 }
-- 
2.43.0


From 85eb11b90acd70cbf66ffb8824ae27ffacfe768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 31/39] fix: let partitions wait until the consumer is complete

---
 streams/event_source.go    | 2 +-
 streams/source_consumer.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/streams/event_source.go b/streams/event_source.go
index 462e553..1190889 100644
--- a/streams/event_source.go
+++ b/streams/event_source.go
@@ -84,7 +84,7 @@ func NewEventSource[T StateStore](sourceConfig EventSourceConfig, stateStoreFact
 		done:              make(chan struct{}),
 		metrics:           metrics,
 	}
-	es.consumer, err = newEventSourceConsumer(es, additionalClientOptions...)
+	_, err = newEventSourceConsumer(es, additionalClientOptions...)
 	return es, err
 }
 
diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index c787d17..f0a1bbc 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -89,6 +89,9 @@ func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additiona
 	} else {
 		opts = append(opts, kgo.DisableAutoCommit())
 	}
+	// partitions can be assigned as soon as there is a client, they have to wait until the consumer is complete
+	sc.workerMux.Lock()
+	defer sc.workerMux.Unlock()
 	client, err := NewClient(
 		source.config.SourceCluster, opts...)
 	if err != nil {
@@ -112,6 +115,7 @@ func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additiona
 	}
 	sc.client = client
 	sc.stateStoreConsumer = newStateStoreConsumer[T](eventSource.ForkRunStatus(), source)
+	eventSource.consumer = sc
 	return sc, nil
 }
 
-- 
2.43.0


From bfbbe58380094c01c593348dba5c02b01327a5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:49 +0000
Subject: [PATCH 32/39] fix: produce a record without a key with a nil key,
 used before or not

---
 streams/record.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/streams/record.go b/streams/record.go
index 2480497..e1cc238 100644
--- a/streams/record.go
+++ b/streams/record.go
@@ -235,9 +235,10 @@ func addRecordTypeHeader(recordType string, record *kgo.Record) {
 
 // used internally for producing.
 func (r *Record) toKafkaRecord() *kgo.Record {
-
-	r.kRecord.Key = r.keyBuffer.Bytes()
-
+	// a used buffer is empty, but not nil: a record without a key must not depend on whether it was used before
+	if r.keyBuffer.Len() > 0 {
+		r.kRecord.Key = r.keyBuffer.Bytes()
+	}
 	// an empty buffer should be a deletion
 	// not sure if nil === empty for these purposes
 	// so leaving nil to be sure
-- 
2.43.0


From c9656727d1d298ddb3c2bffb3a3c5b2db99f3a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:19 +0000
Subject: [PATCH 33/39] fix: adopt the partition counts of topics which
 somebody else creates

---
 streams/topics.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/streams/topics.go b/streams/topics.go
index d324fc7..71e820e 100644
--- a/streams/topics.go
+++ b/streams/topics.go
@@ -134,7 +134,7 @@ func createTopicFromConfigMap(adminClient *kadm.Client, numPartitions int32, rep
 		return err
 	}
 	for _, r := range res {
-		if r.Err != nil && !errors.Is(r.Err, kerr.TopicAlreadyExists) {
+		if r.Err != nil {
 			return r.Err
 		}
 	}
@@ -169,7 +169,11 @@ func createDestination(destination Destination) (Destination, error) {
 	if destination.MinInSync > 0 {
 		config["min.insync.replicas"] = sak.Ptr(strconv.Itoa(destination.MinInSync))
 	}
-	return destination, createTopicFromConfigMap(kadm.NewClient(client), numPartitions, replicationFactor, config, destination.DefaultTopic)
+	err = createTopicFromConfigMap(kadm.NewClient(client), numPartitions, replicationFactor, config, destination.DefaultTopic)
+	if errors.Is(err, kerr.TopicAlreadyExists) {
+		err = nil
+	}
+	return destination, err
 }
 
 func CreateDestination(destination Destination) (resolved Destination, err error) {
@@ -233,7 +237,8 @@ func CreateSource(sourceConfig EventSourceConfig) (resolved *Source, err error)
 	source := newSource(sourceConfig)
 	for retryCount := 0; retryCount < 15; retryCount++ {
 		resolved, err = createSource(source)
-		if isNetworkError(err) {
+		// if another consumer is creating the same topics, we need to know their actual partition counts
+		if isNetworkError(err) || errors.Is(err, kerr.TopicAlreadyExists) {
 			time.Sleep(time.Second)
 		} else {
 			break
@@ -259,6 +264,10 @@ func resolveOrCreateTopics(source *Source, sourceTopicAdminClient, eosAdminClien
 		if err != nil {
 			return nil, err
 		}
+		if source.NumPartitions() < 0 {
+			// the cluster has chosen the partition count
+			return resolveOrCreateTopics(source, sourceTopicAdminClient, eosAdminClient)
+		}
 	}
 
 	topics := []string{commitLogName}
-- 
2.43.0


From 05b31c831022479f3be61bf2f5b42d97174abe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:06 +0000
Subject: [PATCH 34/39] fix: validate the EosConfig before joining the consumer
 group

---
 streams/source_consumer.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index f0a1bbc..89c4f83 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -46,9 +46,17 @@ type eventSourceConsumer[T StateStore] struct {
 // Creates a new eventSourceConsumer.
 // `eventSource` must be a fully initialized EventSource.
 func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additionalClientOptions ...kgo.Opt) (*eventSourceConsumer[T], error) {
-	cl := newEosCommitLog(eventSource.ForkRunStatus(), eventSource.source, int(commitLogPartitionsConfig(eventSource.source)))
-	var partitionedStore *partitionedChangeLog[T]
 	source := eventSource.source
+	eosConfig := source.config.EosConfig
+	if eosConfig.IsZero() {
+		eosConfig = DefaultEosConfig
+		source.config.EosConfig = eosConfig
+	}
+	// there must not be a member of the consumer group if the application panics
+	eosConfig.validate()
+
+	cl := newEosCommitLog(eventSource.ForkRunStatus(), source, int(commitLogPartitionsConfig(source)))
+	var partitionedStore *partitionedChangeLog[T]
 	partitionedStore = newPartitionedChangeLog(eventSource.createChangeLogReceiver, source.StateStoreTopicName())
 
 	sc := &eventSourceConsumer[T]{
@@ -98,13 +106,6 @@ func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additiona
 		return nil, err
 	}
 
-	eosConfig := source.config.EosConfig
-	if eosConfig.IsZero() {
-		eosConfig = DefaultEosConfig
-		source.config.EosConfig = eosConfig
-	}
-
-	eosConfig.validate()
 	sc.producerPool = newEOSProducerPool[T](source, cl, eosConfig, client, eventSource.metrics)
 
 	for _, gb := range groupBalancers {
-- 
2.43.0


From 34520a619eaae0668f59d8966e4833dcfeeff3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:20 +0000
Subject: [PATCH 35/39] fix: forward nothing of a paused partition and resume
 exactly at the given offset

---
 streams/global_change_log.go | 89 ++++++++++++++++++++++++++++++++----
 1 file changed, 81 insertions(+), 8 deletions(-)

diff --git a/streams/global_change_log.go b/streams/global_change_log.go
index 5505f42..7429fe1 100644
--- a/streams/global_change_log.go
+++ b/streams/global_change_log.go
@@ -16,6 +16,7 @@ package streams
 
 import (
 	"context"
+	"sync"
 
 	"github.com/aws/go-kafka-event-source/streams/sak"
 	"github.com/twmb/franz-go/pkg/kgo"
@@ -42,6 +43,56 @@ type GlobalChangeLog[T ChangeLogReceiver] struct {
 	numPartitions int
 	topic         string
 	cleanupPolicy CleanupPolicy
+	cursors       *changeLogCursors
+}
+
+// The client may still return records which it has fetched before a partition is paused or resumed.
+// changeLogCursors keeps track of what is to be forwarded.
+type changeLogCursors struct {
+	mux       sync.Mutex
+	paused    map[int32]struct{}
+	resuming  map[int32]int64 // the offsets at which to resume before polling the next time
+	start     map[int32]int64 // the offsets at which partitions have been resumed
+	interrupt context.CancelFunc
+}
+
+func newChangeLogCursors() *changeLogCursors {
+	return &changeLogCursors{
+		paused:   make(map[int32]struct{}),
+		resuming: make(map[int32]int64),
+		start:    make(map[int32]int64),
+	}
+}
+
+func (c *changeLogCursors) pause(partitions ...int32) {
+	c.mux.Lock()
+	defer c.mux.Unlock()
+	for _, p := range partitions {
+		c.paused[p] = struct{}{}
+		delete(c.resuming, p)
+	}
+}
+
+func (c *changeLogCursors) resume(partition int32, offset int64) {
+	c.mux.Lock()
+	defer c.mux.Unlock()
+	delete(c.paused, partition)
+	c.resuming[partition] = offset
+	if c.interrupt != nil {
+		c.interrupt()
+	}
+}
+
+func (c *changeLogCursors) shouldForward(r *kgo.Record) bool {
+	c.mux.Lock()
+	defer c.mux.Unlock()
+	if _, ok := c.paused[r.Partition]; ok {
+		return false
+	}
+	if _, ok := c.resuming[r.Partition]; ok {
+		return false
+	}
+	return r.Offset >= c.start[r.Partition]
 }
 
 // Creates a NewGlobalChangeLog consumer and forward all records to `receiver`.
@@ -74,6 +125,7 @@ func NewGlobalChangeLogWithRunStatus[T ChangeLogReceiver](runStatus sak.RunStatu
 		numPartitions: numPartitions,
 		topic:         topic,
 		cleanupPolicy: cleanupPolicy,
+		cursors:       newChangeLogCursors(),
 	}
 }
 
@@ -83,23 +135,41 @@ func (cl GlobalChangeLog[T]) PauseAllPartitions() {
 	for i := range allPartitions {
 		allPartitions[i] = int32(i)
 	}
+	cl.cursors.pause(allPartitions...)
 	cl.client.PauseFetchPartitions(map[string][]int32{cl.topic: allPartitions})
 }
 
 // Pauses consumption of a partition.
 func (cl GlobalChangeLog[T]) Pause(partition int32) {
+	cl.cursors.pause(partition)
 	cl.client.PauseFetchPartitions(map[string][]int32{cl.topic: {partition}})
 }
 
 // Resumes consumption of a partition at offset.
 func (cl GlobalChangeLog[T]) ResumePartitionAt(partition int32, offset int64) {
-	cl.client.SetOffsets(map[string]map[int32]kgo.EpochOffset{
-		cl.topic: {partition: kgo.EpochOffset{
-			Offset: offset,
-			Epoch:  -1,
-		}},
-	})
-	cl.client.ResumeFetchPartitions(map[string][]int32{cl.topic: {partition}})
+	cl.cursors.resume(partition, offset)
+}
+
+// Polls the client after moving it to the offsets of resumed partitions.
+func (cl GlobalChangeLog[T]) poll() (context.Context, kgo.Fetches) {
+	ctx, cancel := context.WithTimeout(context.Background(), consumerPollFetchTimeout)
+	defer cancel()
+	c := cl.cursors
+	c.mux.Lock()
+	c.interrupt = cancel
+	for partition, offset := range c.resuming {
+		cl.client.SetOffsets(map[string]map[int32]kgo.EpochOffset{
+			cl.topic: {partition: kgo.EpochOffset{
+				Offset: offset,
+				Epoch:  -1,
+			}},
+		})
+		cl.client.ResumeFetchPartitions(map[string][]int32{cl.topic: {partition}})
+		c.start[partition] = offset
+		delete(c.resuming, partition)
+	}
+	c.mux.Unlock()
+	return ctx, cl.client.PollFetches(ctx)
 }
 
 func (cl GlobalChangeLog[T]) Stop() {
@@ -112,7 +182,7 @@ func (cl GlobalChangeLog[T]) Start() {
 
 func (cl GlobalChangeLog[T]) consume() {
 	for cl.runStatus.Running() {
-		ctx, f := pollConsumer(cl.client)
+		ctx, f := cl.poll()
 		if f.IsClientClosed() {
 			log.Debugf("GlobalChangeLog client closed")
 			return
@@ -129,6 +199,9 @@ func (cl GlobalChangeLog[T]) consume() {
 }
 
 func (cl GlobalChangeLog[T]) forwardChange(r *kgo.Record) {
+	if !cl.cursors.shouldForward(r) {
+		return
+	}
 	ir := newIncomingRecord(r)
 	if err := cl.receiver.ReceiveChange(ir); err != nil {
 		log.Errorf("GlobalChangeLog error for %+v, offset: %d, recordType: %s, error: %v", ir.TopicPartition(), ir.Offset(), ir.RecordType(), err)
-- 
2.43.0


From 7e4e2790f5fd1c787ea064f9e1ac8f44c42b44a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 36/39] fix: send the markers which activate a partition again
 when they could not be produced

---
 streams/commit_log.go           |  2 +-
 streams/state_store_consumer.go | 21 ++++++++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/streams/commit_log.go b/streams/commit_log.go
index 631dd70..ea5040c 100644
--- a/streams/commit_log.go
+++ b/streams/commit_log.go
@@ -130,7 +130,7 @@ func (cl *eosCommitLog) syncCommitLogPartition(tp TopicPartition) {
 	markWaiter.Add(1)
 	cl.pendingSyncs[mark] = markWaiter
 	cl.syncMux.Unlock()
-	sendMarkerMessage(cl.changeLog.client, tp, []byte(mark))
+	ensureMarkerMessage(cl.changeLog.client, tp, []byte(mark), cl.changeLog.runStatus.Done())
 	markWaiter.Wait()
 }
 
diff --git a/streams/state_store_consumer.go b/streams/state_store_consumer.go
index 40a4ec9..651821d 100644
--- a/streams/state_store_consumer.go
+++ b/streams/state_store_consumer.go
@@ -16,6 +16,7 @@ package streams
 
 import (
 	"context"
+	"errors"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -159,7 +160,7 @@ func (pop *storePopulation[T]) removeWaiterForMark(mark []byte) (populationWaite
 // If `activate` is true, the population ends at this point and nothing is replayed into the store any more.
 func (pop *storePopulation[T]) sync(activate bool) {
 	c, mark := pop.addWaiter(activate)
-	sendMarkerMessage(pop.partition.client, pop.partition.topicPartition, mark)
+	ensureMarkerMessage(pop.partition.client, pop.partition.topicPartition, mark, pop.done)
 	select {
 	case <-c:
 	case <-pop.done:
@@ -325,6 +326,24 @@ func (ssc *stateStoreConsumer[T]) stop() {
 	}
 }
 
+const markerRetryBackoff = 100 * time.Millisecond
+
+// Sends a marker, again if need be, as the partition can not be activated without it.
+func ensureMarkerMessage(producer *kgo.Client, tp TopicPartition, mark []byte, done <-chan struct{}) {
+	for {
+		err := sendMarkerMessage(producer, tp, mark)
+		if err == nil || errors.Is(err, kgo.ErrClientClosed) {
+			return
+		}
+		log.Errorf("could not send marker message to: %+v, error: %v", tp, err)
+		select {
+		case <-time.After(markerRetryBackoff):
+		case <-done:
+			return
+		}
+	}
+}
+
 func sendMarkerMessage(producer *kgo.Client, tp TopicPartition, mark []byte) error {
 	record := kgo.KeySliceRecord(markerKey, mark)
 	record.Topic = tp.Topic
-- 
2.43.0


From f1bc8acbe4b4a781cb8a3941452c445b408ccdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:26 +0000
Subject: [PATCH 37/39] fix: notify OnPartitionAssigned before the partition
 can be activated

---
 streams/source_consumer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 89c4f83..31958ea 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -217,6 +217,8 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 	defer sc.workerMux.Unlock()
 	sc.preppingMux.Lock()
 	defer sc.preppingMux.Unlock()
+	// notify observers before a partition can be activated
+	sc.source.onPartitionsAssigned(partitions)
 	for _, p := range partitions {
 		tp := TopicPartition{Partition: p, Topic: topic}
 		store := sc.partitionedStore.assign(p)
@@ -245,8 +247,6 @@ func (sc *eventSourceConsumer[T]) assignPartitions(topic string, partitions []in
 	if sc.incrBalancer != nil {
 		sc.incrBalancer.PartitionsAssigned(toTopicPartitions(topic, partitions...)...)
 	}
-	// notify observers
-	sc.source.onPartitionsAssigned(partitions)
 }
 
 func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []int32) {
-- 
2.43.0


From b9f5374d4b03b5c275beae949a7e33227e80749e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:25 +0000
Subject: [PATCH 38/39] fix: let StopNow wait for revocations in progress while
 it is a member

---
 streams/source_consumer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/streams/source_consumer.go b/streams/source_consumer.go
index 31958ea..e7eec01 100644
--- a/streams/source_consumer.go
+++ b/streams/source_consumer.go
@@ -31,6 +31,7 @@ type eventSourceConsumer[T StateStore] struct {
 	stateStoreConsumer *stateStoreConsumer[T]
 	ctx                context.Context
 	workers            map[int32]*partitionWorker[T]
+	revoked            map[*partitionWorker[T]]struct{} // but not closed yet
 	prepping           map[int32]*storePopulation[T]
 	workerMux          sync.Mutex
 	preppingMux        sync.Mutex
@@ -63,6 +64,7 @@ func newEventSourceConsumer[T StateStore](eventSource *EventSource[T], additiona
 		partitionedStore: partitionedStore,
 		ctx:              eventSource.runStatus.Ctx(),
 		workers:          make(map[int32]*partitionWorker[T]),
+		revoked:          make(map[*partitionWorker[T]]struct{}),
 		prepping:         make(map[int32]*storePopulation[T]),
 		eventSource:      eventSource,
 		source:           source,
@@ -259,6 +261,7 @@ func (sc *eventSourceConsumer[T]) revokePartitions(topic string, partitions []in
 		if worker, ok := sc.workers[p]; ok {
 			workers = append(workers, worker)
 			delete(sc.workers, p)
+			sc.revoked[worker] = struct{}{}
 		}
 	}
 	sc.workerMux.Unlock()
@@ -286,6 +289,11 @@ func (sc *eventSourceConsumer[T]) closeWorkers(workers []*partitionWorker[T]) {
 	for _, worker := range workers {
 		worker.waitUntilClosed()
 	}
+	sc.workerMux.Lock()
+	for _, worker := range workers {
+		delete(sc.revoked, worker)
+	}
+	sc.workerMux.Unlock()
 }
 
 func (sc *eventSourceConsumer[T]) partitionsAssigned(ctx context.Context, _ *kgo.Client, assignments map[string][]int32) {
@@ -446,7 +454,7 @@ func (sc *eventSourceConsumer[T]) leave() <-chan struct{} {
 func (sc *eventSourceConsumer[T]) stop() {
 	// finish the pending events while we are still a member of the group
 	sc.workerMux.Lock()
-	workers := sak.MapValuesToSlice(sc.workers)
+	workers := append(sak.MapValuesToSlice(sc.workers), sak.MapKeysToSlice(sc.revoked)...)
 	sc.workerMux.Unlock()
 	sc.closeWorkers(workers)
 	sc.client.Close()
-- 
2.43.0


From 6f5aada932a91a415433a77b4dad30e380737864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:57 +0000
Subject: [PATCH 39/39] fix: handle events and interjections in the order in
 which they are given to the producers

---
 streams/partition_worker.go | 62 +++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/streams/partition_worker.go b/streams/partition_worker.go
index bfa7a43..b814c7c 100644
--- a/streams/partition_worker.go
+++ b/streams/partition_worker.go
@@ -59,26 +59,25 @@ func (ac asyncCompleter[T]) AsyncComplete(j AsyncJob[T]) {
 }
 
 type partitionWorker[T StateStore] struct {
-	eosProducer            *eosProducerPool[T]
-	partitionInput         chan []*kgo.Record
-	maxPending             chan struct{}
-	interjectionInput      chan *interjection[T]
-	eventInput             chan *EventContext[T]
-	interjectionEventInput chan *EventContext[T]
-	asyncCompleter         asyncCompleter[T]
-	stopSignal             chan struct{}
-	revokedSignal          chan struct{}
-	stopped                chan struct{}
-	closed                 chan struct{} // closed once no more user code runs for this partition
-	changeLog              changeLogPartition[T]
-	eventSource            *EventSource[T]
-	runStatus              sak.RunStatus
-	ready                  int64
-	nextOffset             int64 // the next offset to schedule
-	topicPartition         TopicPartition
-	revocationWaiter       sync.WaitGroup
-	activationMux          sync.Mutex
-	revoking               bool
+	eosProducer       *eosProducerPool[T]
+	partitionInput    chan []*kgo.Record
+	maxPending        chan struct{}
+	interjectionInput chan *interjection[T]
+	eventInput        chan *EventContext[T]
+	asyncCompleter    asyncCompleter[T]
+	stopSignal        chan struct{}
+	revokedSignal     chan struct{}
+	stopped           chan struct{}
+	closed            chan struct{} // closed once no more user code runs for this partition
+	changeLog         changeLogPartition[T]
+	eventSource       *EventSource[T]
+	runStatus         sak.RunStatus
+	ready             int64
+	nextOffset        int64 // the next offset to schedule
+	topicPartition    TopicPartition
+	revocationWaiter  sync.WaitGroup
+	activationMux     sync.Mutex
+	revoking          bool
 }
 
 // How long a revocation waits for the pending transactions of a partition, which time out after 29 seconds.
@@ -109,12 +108,11 @@ func newPartitionWorker[T StateStore](
 		asyncCompleter: asyncCompleter[T]{
 			asyncJobs: make(chan AsyncJob[T], asyncSize),
 		},
-		partitionInput:         make(chan []*kgo.Record, 4),
-		eventInput:             make(chan *EventContext[T], recordsInputSize),
-		interjectionInput:      make(chan *interjection[T], 1),
-		interjectionEventInput: make(chan *EventContext[T], 1),
-		runStatus:              eventSource.runStatus.Fork(),
-		nextOffset:             -1,
+		partitionInput:    make(chan []*kgo.Record, 4),
+		eventInput:        make(chan *EventContext[T], recordsInputSize),
+		interjectionInput: make(chan *interjection[T], 1),
+		runStatus:         eventSource.runStatus.Fork(),
+		nextOffset:        -1,
 	}
 
 	go pw.work(pw.eventSource.interjections, waiter, commitLog)
@@ -264,7 +262,9 @@ func (pw *partitionWorker[T]) scheduleInterjection(inter *interjection[T]) {
 	ec := newInterjectionContext(pw.runStatus.Ctx(), inter, pw.topicPartition, pw.changeLog.changeLogData(), pw)
 	pw.maxPending <- struct{}{}
 	pw.eosProducer.addEventContext(ec)
-	pw.interjectionEventInput <- ec
+	// in the order in which events are given to the producers: a worker which waits for the producer of
+	// one event does not handle the events which are to be done before that producer is available
+	pw.eventInput <- ec
 }
 
 func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(), commitLog *eosCommitLog) {
@@ -305,9 +305,11 @@ func (pw *partitionWorker[T]) work(interjections []interjection[T], waiter func(
 	for {
 		select {
 		case ec := <-pw.eventInput:
-			pw.handleEvent(ec)
-		case ec := <-pw.interjectionEventInput:
-			pw.handleInterjection(ec)
+			if ec.IsInterjection() {
+				pw.handleInterjection(ec)
+			} else {
+				pw.handleEvent(ec)
+			}
 		case job := <-pw.asyncCompleter.asyncJobs:
 			pw.processAsyncJob(job)
 		case <-pw.stopSignal:
-- 
2.43.0

