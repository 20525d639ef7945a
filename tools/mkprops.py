#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["streams/"+f if not f.startswith(("msk","streams")) else f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(obs), hook_needed=None)))

NOKAFKA = "The tests that need Kafka are skipped in -short mode (no broker offline), so no stable test ever runs an EventSource end to end; "

p("C01", "Every source record takes effect exactly once across crashes and restarts",
  "For a read-committed reader, every record of the source topic takes effect exactly once: the outputs it forwarded and the state changes it recorded become visible from exactly one of its processing attempts, never from none and never from two, even if consumers crash (stop communicating with the cluster) at any point and others take over or restart. A consumer that takes over a partition resumes exactly at the first record whose processing was not committed. When no more faults occur, every record is eventually processed and committed.",
  ["crash_points", "schedules", "fault_sequences", "histories"],
  "Every point at which a consumer process can stop, every number of restarts and takeovers, every interleaving of event processing, transaction commit and rebalance, every pool and batch configuration.",
  NOKAFKA + "crash points inside a transaction are not reachable from unit tests at all.",
  ["eos_producer.go", "commit_log.go", "source_consumer.go", "partition_worker.go"],
  [("offset record inside the transaction", "eos_producer.go finalizeEventContexts"), ("commit log watermark + marker sync", "commit_log.go lastProcessed"), ("start offset adjustment", "source_consumer.go adjustOffsetsBeforeAssign"), ("stale event filter", "partition_worker.go scheduleTxnAndExecution")],
  [("watermarks", "next offset to process per partition", "commit_log.go")], ["broker transaction log", "event handler entry"])

p("C02", "Outputs, state changes and progress of an event commit atomically",
  "At every moment, for every source partition, the set of outputs and state changes visible to read-committed readers is exactly that of the records below the recorded progress of that partition: an event's forwarded records, its recorded state changes and the advance of progress past it become visible together in a single transaction, or not at all. A transaction which aborts leaves no trace of any of the three.",
  ["schedules", "crash_points", "fault_sequences", "configurations"],
  "Every grouping of events of several partitions into transactions, any pool size and pending count, every abort, timeout and crash.",
  NOKAFKA + "atomicity is a statement about all intermediate moments of the transaction log.",
  ["eos_producer.go", "event_context.go", "commit_log.go"],
  [("one producer node per event", "eos_producer.go addEventContext/ProduceRecord"), ("flush before EndTransaction", "eos_producer.go commit")],
  [], ["broker transaction log"])

p("C03", "Records forwarded for one source partition keep their order",
  "If the processing of one source partition forwards record A before record B to the same destination partition, and A's event does not come after B's in offset order (in particular with synchronous processing, and always within one event), then A appears before B; likewise for state changes in the partition's change log. This holds across transaction boundaries, for every number of pooled producers and pending transactions, and while several partitions share a transaction.",
  ["schedules", "configurations", "inputs"],
  "Every interleaving of the processing of events with the commits of earlier transactions; every pool size, pending count and batch size.",
  NOKAFKA + "ordering depends on which producer owns a partition when an event produces while an earlier transaction is still committing.",
  ["eos_producer.go"],
  [("partition ownership hand-over between producer nodes", "eos_producer.go relinquishOwnership"), ("buffering of records while not owner", "eos_producer.go ProduceRecord")],
  [("partitionOwners", "node allowed to produce for a partition", "eos_producer.go")], ["broker log of destination partitions"])

p("C04", "Progress is never recorded past an unfinished event",
  "The recorded progress of a partition never moves past an event which is not complete: an event whose processor returned Incomplete and which has not been finished asynchronously holds back progress for itself and all its successors, in whatever order the asynchronous completions of other events arrive. Progress never moves backwards, and once all events up to some offset are complete, progress reaches the record after it.",
  ["schedules", "inputs", "histories"],
  "Every order of asynchronous completions over all in-flight events and partitions, including completion by several jobs per event.",
  NOKAFKA + "the order in which asynchronous jobs finish is unbounded.",
  ["eos_producer.go", "partition_worker.go", "event_context.go"],
  [("waiting for every event context before commit", "eos_producer.go finalizeEventContexts"), ("asyncCompleter", "partition_worker.go")],
  [], ["commit log records", "handler completion"])

p("C05", "Partition hand-over neither loses nor repeats in-flight events",
  "When a partition moves between live consumers (a cooperative rebalance, a graceful Stop or StopNow), the old owner has stopped processing it and its transactions are committed or aborted before the partition is given away. The new owner begins with the first event which the old owner did not commit, and no event is processed with visible effect by both; an event in flight at the old owner (queued, executing, or awaiting asynchronous completion within the transaction deadline) is committed by it or processed by the new owner, never both or neither.",
  ["schedules", "histories", "configurations"],
  "Every point of the processing pipeline at which a revocation can arrive, any number of consecutive rebalances, synchronous and asynchronous processors.",
  NOKAFKA + "needs two consumers and a revocation in the middle of processing.",
  ["source_consumer.go", "partition_worker.go", "eos_producer.go"],
  [("revocation of workers", "source_consumer.go revokePartitions"), ("revocationWaiter", "partition_worker.go waitForRevocation"), ("stale event filter and LSO sync", "partition_worker.go work")],
  [("revocationWaiter", "events and transactions not drained", "partition_worker.go")], ["group assignment", "broker transaction log", "handler entry"])

p("C06", "A state store is completely restored before its partition is processed",
  "When a partition is activated on a consumer, its state store equals the replay of all committed changes ever recorded for that partition: no committed change is missing, no aborted change is included, and no superseded or deleted value survives. This holds however the partition got there: first start, takeover after a crash, prepared in advance (also if the preparation was cancelled and repeated), and after log compaction. No event of the partition is processed earlier.",
  ["histories", "schedules", "crash_points"],
  "Every history of changes, aborts and compactions of the change log and every sequence of prepare, forget, assign and revoke.",
  NOKAFKA + "restoration never runs in the stable tests.",
  ["state_store_consumer.go", "partitioned_store.go", "source_consumer.go", "partition_worker.go"],
  [("marker record synchronisation", "state_store_consumer.go sync"), ("populate before activation", "partition_worker.go work")],
  [("partitionState", "paused/prepping/ready", "state_store_consumer.go")], ["ReceiveChange calls", "store content at handler entry and OnPartitionActivated"])

p("C07", "A failed transaction stops the consumer and commits nothing",
  "If a record forwarded by an event cannot be produced, a transaction cannot be committed, or an event is not finished within the transaction deadline, then the configured TxnErrorHandler is consulted and, unless it answers Continue (which is documented to lose data), the progress of that event's partition is not recorded past the event by this consumer. If it answers FailConsumer, State() becomes Unhealthy, the consumer leaves the group, it commits nothing further and starts processing no further event, Done() is signalled, and another consumer takes over at the failed event; this terminates even if the fault persists.",
  ["fault_sequences", "schedules"],
  "Every request of the transaction protocol failing with every retriable or fatal error, at any point, with any number of pending transactions.",
  NOKAFKA + "no fault is ever injected.",
  ["eos_producer.go", "event_source.go", "source.go", "error_handling.go"],
  [("commitLoop error handling", "eos_producer.go commitLoop"), ("closeOnFail", "event_source.go"), ("fail", "source.go")],
  [("state", "Healthy/Unhealthy", "source.go")], ["TxnErrorHandler", "State()", "Done()", "broker transaction log"])

p("C08", "Transactions respect the configured batch bounds and latency",
  "No transaction contains more events than MaxBatchSize, and no event which arrives after a transaction has reached MaxBatchSize events or records is admitted to it. No more than PoolSize transactions are open at once. A lone event (no further input, nothing else pending, processor completes at once) is committed within BatchDelay plus the time the broker takes; a transaction that reaches TargetBatchSize is committed without waiting for BatchDelay, and invalid configurations are rejected at construction.",
  ["configurations", "schedules", "inputs"],
  "All valid EosConfig values and all arrival patterns of events and forwarded records.",
  NOKAFKA + "bounds must hold for every arrival pattern, in particular when records are forwarded asynchronously while events are added.",
  ["eos_producer.go", "eos_config.go"],
  [("shouldTryFlush/shouldForceFlush", "eos_producer.go"), ("flushTimer", "eos_producer.go")],
  [("eventContextCnt", "events in the on-deck transaction", "eos_producer.go")], ["broker transaction log with times"])

p("C09", "The async scheduler runs jobs of a key serially, in order, exactly once",
  "For every key, jobs run one at a time and in the order they were scheduled, each job's processor and then its finalizer run exactly once while the scheduler is running, and the finalizer receives that job's key, value and error. No more jobs execute at once than Concurrency and no more keys are in progress than MaxConcurrentKeys. Every scheduled job eventually runs, also when queues are full, many goroutines schedule concurrently, or limits are changed at run time; after shutdown an event that was not processed is never reported Complete, and no caller stays blocked.",
  ["schedules", "inputs", "configurations"],
  "Every interleaving of schedulers and workers for any number of keys, queue depths, concurrency limits and run-time limit changes.",
  "The test schedules a fixed workload once; lost wake-ups, queue-full and shutdown interleavings are not reached.",
  ["async_scheduler.go", "async_item_queue.go"],
  [("per key worker queue", "async_scheduler.go scheduleItem/releaseWorker"), ("asyncItemQueue", "async_item_queue.go")],
  [("workerMap", "keys in progress", "async_scheduler.go")], ["processor entry/exit", "AsyncJobComplete"])

p("C10", "The async batcher never loses, duplicates or reorders items of a key",
  "Every item added is passed to the executor exactly once; no execution has more than maxBatchSize items, no more than maxConcurrentBatches run at once, and two executions running at the same time never hold items of the same key. Items of one key are executed in the order they were added, and the callbacks of single-key batches of one key (also empty ones) run in the order they were added, each exactly once and only after all items of that batch have been executed. A waiting item is executed no later than the configured delay after capacity for its key is available.",
  ["schedules", "inputs", "configurations"],
  "Every interleaving of Add calls, executions and timers; any mixture of keys, empty batches and multi-key batches.",
  "The tests use one fixed workload with fixed timing.",
  ["async_batcher.go"],
  [("key to executor assignment", "async_batcher.go asyncExecutorFor"), ("pending list", "async_batcher.go flushPendingItems")],
  [("assignments", "executor a key is bound to", "async_batcher.go")], ["executor entry/exit", "AsyncJobComplete"])

p("C11", "Producers report every record exactly once and truthfully",
  "Producer.Produce and ProduceAsync deliver the record to the topic named by the record or, if none, to the destination's default topic, and report completion exactly once: success only if the record is in the log, otherwise the error. A BatchProducer completes the event exactly once, after every record of the batch has succeeded or failed, with each record's error available to the callback; with no callback or no records the event is still completed, and otherwise the callback's answer decides. Records of one batch to one partition keep their order.",
  ["inputs", "fault_sequences", "schedules"],
  "Every batch content (including empty) and every per-record success/failure pattern.",
  NOKAFKA + "produce failures and empty batches are not exercised.",
  ["producer.go"],
  [("pending counter", "producer.go recordComplete"), ("default topic", "producer.go")],
  [], ["broker log", "callbacks"])

p("C12", "A rebalance plan gives every partition to exactly one eligible member",
  "Every plan the incremental rebalancer computes assigns each partition of the topic to exactly one member, or leaves it out only while its previous owner must still give it up. Partitions move one at a time: an owned partition is taken from an owner only for a member that reports it as prepared, at most one partition is being prepared or moved as a result of the plan, unowned partitions are assigned at once (preferably to a member prepared for them), and no partition is ever moved to a member that is leaving or has left. Prepare and Forget instructions reach exactly the members and partitions they are meant for.",
  ["histories", "inputs", "schedules"],
  "All group states: any number of members and partitions, any ownership, prepared and preparing sets, leaving members, and any sequence of joins, leaves and crashes.",
  "No test exercises the balancer offline; group states reachable after a sequence of joins, crashes and leaves cannot be enumerated by hand.",
  ["incr_rebalancer.go", "group_state.go", "balancer_options.go"],
  [("groupState.balance", "group_state.go"), ("ParseSyncAssignment", "incr_rebalancer.go"), ("budget", "group_state.go schedulePartitionMoves")],
  [("preparing/ready", "partitions in receivership", "incr_rebalancer.go")], ["sync assignment bytes", "instruction handler calls"])

p("C13", "Rebalancing converges to a balanced group and lets members leave",
  "From every reachable group state, once membership stops changing the sequence of rebalances ends, every partition is owned by an active member, and the partition counts of any two active members differ by at most one. A member which asks to leave gracefully while an active member remains gives up all its partitions one by one and is then told it may leave; preparations that are pending when members crash or leave never block the group forever.",
  ["histories", "schedules", "fault_sequences"],
  "All finite sequences of joins, graceful leaves and crashes, and all orders in which preparations finish.",
  "Liveness over all histories; no test runs even one rebalance offline.",
  ["incr_rebalancer.go", "group_state.go"],
  [("isImbalanced", "group_state.go"), ("ForceRebalance after prepare/assign", "incr_rebalancer.go"), ("GracefullyLeaveGroup", "incr_rebalancer.go")],
  [], ["sequence of plans", "graceful channel"])

p("C14", "Interjections run on schedule, in partition context, and are always answered",
  "A scheduled interjection runs repeatedly on every active partition, each time between every-jitter and every+jitter after the previous one finished, also when it finishes asynchronously, and stops when the partition is revoked. A one-off interjection either runs exactly once on an assigned partition, in the partition's own processing context with its outputs and changes committed transactionally, or its channel reports that the partition is not assigned, never both; the returned channel is always closed or answered, so InterjectAll and InterjectAllSync return, even if a revocation arrives meanwhile. Interjections do not advance or disturb the offset progress.",
  ["schedules", "configurations", "histories"],
  "Every interleaving of timers, one-off calls, events and revocations.",
  NOKAFKA + "timers against revocation are schedule-dependent.",
  ["interjection.go", "partition_worker.go", "source_consumer.go", "event_source.go"],
  [("tick", "interjection.go"), ("interject", "source_consumer.go"), ("handleInterjection", "partition_worker.go")],
  [], ["interjector invocations", "returned channels"])

p("C15", "All user code of one partition runs strictly one at a time",
  "For each source partition a consumer never runs two pieces of user code that may touch that partition's state store at the same time: event processors, interjectors, asynchronous finalizers and batch callbacks of a partition are strictly serialized, and ReceiveChange never overlaps with them. Events of a partition are started in offset order, each once per assignment.",
  ["schedules", "configurations"],
  "Every interleaving of events, asynchronous completions, interjections and restoration.",
  NOKAFKA + "races of two goroutines in user code are schedule-dependent.",
  ["partition_worker.go", "event_context.go", "state_store_consumer.go"],
  [("single worker goroutine per partition", "partition_worker.go work")],
  [], ["entry and exit of user callbacks"])

p("C16", "Each record is dispatched to exactly the right processor",
  "A record whose type header equals a registered event type is decoded with that type's decoder and given to the first processor registered for that type exactly once, with the decoded value; every other record goes to the default processor exactly once. If decoding fails, the processor is not run and the configured DeserializationErrorHandler (or, if none, the default one) decides: Continue completes the event without effect, FailConsumer and FatallyExit never let progress pass the event, with FailConsumer making the EventSource Unhealthy and stopping it.",
  ["inputs", "configurations"],
  "All sequences of registrations and record types, header combinations and decode failures, with or without custom error handlers.",
  NOKAFKA + "only construction-time dispatch of one or two types is tested.",
  ["event_source.go", "source.go", "error_handling.go", "record.go"],
  [("processor chain", "event_source.go process"), ("deserializationErrorHandler", "source.go")],
  [], ["processor and decoder calls"])

p("C17", "Lifecycle callbacks come in order and match reality; shutdown terminates",
  "For each partition and consumer the callbacks are called in the order assigned, activated, will-revoke, revoked (activated may be missing only if the partition is revoked first, and assigned may be repeated while the partition stays assigned); events and interjections are processed only between activated and revoked, and when revoked is called processing has stopped and the store's Revoked has been called once. Stop, StopNow, WaitForChannel and repeated calls of them terminate: Done() wakes up everyone who waits for it, however often, the member has left the group and no callback or processing happens afterwards.",
  ["schedules", "histories"],
  "Every sequence of rebalances and every moment at which Stop or StopNow is called.",
  NOKAFKA + "the callbacks are only invoked with a live broker.",
  ["source.go", "source_consumer.go", "partition_worker.go", "event_source.go"],
  [("onPartition* notifications", "source.go"), ("revokePartitions", "source_consumer.go"), ("Stop/StopNow", "event_source.go")],
  [], ["lifecycle callbacks", "Done()", "group membership"])

p("C18", "Topics are provisioned as configured and mismatches are reported",
  "CreateSource creates whichever of source topic, commit log and change log is missing, with the configured partition counts, replication factor and min.insync.replicas (documented defaults where unset, never an invalid value) and with compaction for the two logs, leaves existing topics untouched and adopts their partition counts. A missing required setting, a partition mismatch between source and change log or a broker error is returned as an error, never a panic or a silently wrong source. CreateDestination creates the named destination topic with its configuration.",
  ["configurations", "fault_sequences"],
  "All combinations of existing/missing topics, unset/set options and broker errors.",
  "Needs an admin client; no stable test covers topic creation.",
  ["topics.go", "source.go"],
  [("resolveOrCreateTopics", "topics.go"), ("minInSyncConfig/replicationFactorConfig/commitLogPartitionsConfig", "source.go")],
  [], ["admin requests at the broker", "returned Source"])

p("C19", "A record arrives exactly as it was built, whatever was pooled before",
  "A record built with any sequence of key, value, header, type, topic and partition calls and then forwarded, recorded as a change or produced arrives at the broker with exactly that content; nothing leaks from earlier users of the pooled record, and an empty value is a deletion. A manually set partition is respected and otherwise the partition is the one the configured partitioner chooses for the key. Conversions between Record, kafka record and IncomingRecord preserve key, value, headers, type, topic and partition.",
  ["inputs", "histories"],
  "All sequences of builder calls interleaved with release and reuse of pooled records.",
  "Tests check a few fixed records; pooling makes content depend on history.",
  ["record.go", "codec.go"],
  [("recordPool reset", "record.go"), ("toKafkaRecord/ToKafkaRecord", "record.go"), ("OptionalPartitioner", "record.go")],
  [], ["records at the broker"])

p("C20", "The provided stores behave as maps and ordered sets",
  "SimpleStore behaves as a key-value map over every sequence of Put, Get, Delete and replayed changes: replaying the change log entries it produced, in order, rebuilds an equal store. ShardedTree behaves as one ordered map per shard with key-stable sharding, and TopicPartitionSet as a set ordered by partition, for every sequence of operations.",
  ["inputs", "histories"],
  "All operation sequences.",
  "Examples exercise a handful of calls; replay into SimpleStore is never tested.",
  ["streams/stores/simple_store.go", "streams/stores/sharded_tree.go", "topics.go"],
  [("ReceiveChange", "streams/stores/simple_store.go"), ("ShardedTree.For/…", "streams/stores/sharded_tree.go"), ("TopicPartitionSet", "topics.go")],
  [], ["operation results"])

p("C21", "MinMaxHeap always yields the true minimum and maximum",
  "After any sequence of Push, Pop, Update, Remove, Min and Max operations the heap contains exactly the items pushed and not removed, Min and Max return a smallest and a largest of them, popping returns items in ascending order, and each item's recorded index lets Update and Remove act on precisely that item.",
  ["inputs", "histories"],
  "All operation sequences over any items, including equal ones.",
  "No test covers the heap.",
  ["streams/stores/min_max_heap.go"],
  [("heap maintenance", "streams/stores/min_max_heap.go")],
  [], ["operation results"])

p("C22", "Codecs round-trip and the lexicographic codec preserves order",
  "Decoding what a codec encoded gives the original value for every value of its type, encoding appends to whatever the buffer already holds, and the byte-wise order of two encodings by the lexicographic integer codec equals the order of the integers, over all int64 values. Lexicographic input of a wrong length is rejected with an error.",
  ["inputs"],
  "All values and pairs of values, in particular sign changes, byte boundaries and extremes.",
  "The tests round-trip a few values; none compares the order of encodings.",
  ["codec.go", "commit_log.go"],
  [("lexoInt64Codec", "codec.go"), ("intCodec", "codec.go")],
  [], ["encoded bytes"])

p("C23", "An MSK cluster configuration matches the requested authentication",
  "For every authentication type the MSK cluster returns client options that dial exactly the bootstrap brokers MSK reports for that authentication, using the given TLS configuration and the SASL mechanism the type requires, and that cluster is the one with the requested name. IAM authentication presents currently valid credentials of the configured session on every new connection; errors of AWS calls are returned, not swallowed or remembered, and a later call can succeed.",
  ["configurations", "fault_sequences"],
  "All authentication types, endpoint replies and error sequences.",
  "The tests cover a few fixed replies and never establish a connection.",
  ["msk/cluster.go"],
  [("Config", "msk/cluster.go"), ("saslIamAuth", "msk/cluster.go")],
  [], ["dialled addresses and SASL exchange"])

p("C24", "Metrics describe what happened and never disturb processing",
  "Every committed transaction that produced records yields a TxnCommit metric whose record, byte and partition counts match that transaction, in commit order, unless the metric is dropped because the handler is too slow; the start, execution and end times of a metric are in this order. A slow, blocked or absent metrics handler never blocks or fails event processing, preparation or shutdown, and emitting a metric during or after shutdown never crashes the process.",
  ["schedules", "configurations"],
  "Every speed of the handler relative to processing and every moment of shutdown.",
  NOKAFKA + "a full metrics channel and shutdown races are not reached.",
  ["eos_producer.go", "event_source.go", "source_consumer.go", "metric.go"],
  [("metrics channel", "event_source.go emitMetrics/EmitMetric"), ("clearState", "eos_producer.go")],
  [], ["MetricsHandler calls", "broker transaction log"])

p("C25", "A global change log delivers every committed record once, in partition order",
  "While running, a GlobalChangeLog passes every committed record of every partition of its topic to the receiver exactly once and in offset order per partition, starting from the beginning, skipping aborted records, and a receiver error does not stop delivery. A paused partition delivers nothing new until resumed, resuming at an offset continues with exactly that offset, and after Stop delivery ends.",
  ["histories", "schedules"],
  "All histories of produce, commit, abort, pause, resume and stop.",
  NOKAFKA + "pausing and resuming depend on buffered fetches.",
  ["global_change_log.go"],
  [("consume/forwardChange", "global_change_log.go"), ("ResumePartitionAt", "global_change_log.go")],
  [], ["ReceiveChange calls"])

p("C26", "In migration mode group offsets follow committed progress",
  "With CommitOffsets enabled, the offset committed to the consumer group for a partition never exceeds the progress committed transactionally for it, and after a graceful stop it equals that progress. With CommitOffsets disabled the event source commits no group offsets.",
  ["schedules", "crash_points", "histories"],
  "Every moment of the automatic offset commit relative to transaction commits, rebalances and crashes.",
  NOKAFKA + "relation of two asynchronous commit paths.",
  ["eos_producer.go", "source_consumer.go", "source.go"],
  [("MarkCommitRecords after commit", "eos_producer.go clearState"), ("AutoCommitMarks", "source_consumer.go")],
  [], ["OffsetCommit requests at the broker"])

p("C27", "Shared utilities keep their contracts under every use",
  "Halting a RunStatus stops it and everything forked from it, never its parent or siblings, and Done is closed exactly for those that stopped. The linked list holds exactly the pushed and not removed elements in order after any sequence of operations, and a pool never hands out an item that was not reset or is still in use. The numeric helpers return the true minimum, maximum and absolute value, and the copying helpers return equal, independent copies.",
  ["histories", "schedules"],
  "All fork/halt trees, all list operation sequences, all borrow/release orders.",
  "Tests cover the list with fixed sequences; fork trees and pools are untested.",
  ["streams/sak/context.go", "streams/sak/yadll.go", "streams/sak/pool.go"],
  [("RunStatus", "streams/sak/context.go"), ("List", "streams/sak/yadll.go"), ("Pool", "streams/sak/pool.go")],
  [], ["operation results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
