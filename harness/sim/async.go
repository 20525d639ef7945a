package sim

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/aws/go-kafka-event-source/streams/sak"
)

// The kinds "sched" (AsyncJobScheduler) and "batch" (AsyncBatcher): several threads call the public API, the event
// contexts are the library's mocks, whose completer stands for a partition worker.

func init() {
	runners["sched"] = runSched
	runners["batch"] = runBatch
}

type nostore struct{}

func (nostore) ReceiveChange(streams.IncomingRecord) error { return nil }
func (nostore) Revoked()                                   {}

// completer finalizes jobs one at a time, in the order in which they were handed over.
type completer struct {
	ch    chan func()
	delay time.Duration
	after func(string)
}

func newCompleter(capacity int, delay time.Duration) *completer {
	c := &completer{ch: make(chan func(), capacity), delay: delay}
	go func() {
		for f := range c.ch {
			f()
			if c.delay > 0 {
				time.Sleep(c.delay)
			}
		}
	}()
	return c
}

type ecCompleter struct {
	c  *completer
	id int
	tr *Trace
}

func (e ecCompleter) AsyncComplete(j streams.AsyncJob[nostore]) {
	e.tr.Log(E{"ev": "handed", "id": e.id})
	e.c.ch <- func() {
		st := j.Finalize()
		done := 0
		if st == streams.Complete {
			done = 1
		}
		e.tr.Log(E{"ev": "state", "id": e.id, "done": done})
	}
}

type thOp struct {
	Op   string
	K    int
	D    int // duration of the work, ms
	Err  int
	N    int
	Ms   int
	Vals []int
	Keys []int // multi-key batches
	Spin int
}

type schedScn struct {
	Kind, ID             string
	Seed                 int64
	Conc, Depth, MaxKeys int
	CompCap, CompMs      int
	Final                int // 0: no finalizer
	FinIncomplete        int
	Threads              [][]thOp
	Ctl                  []thOp
	TailMs               int
}

func spin(n int) {
	for i := 0; i < n; i++ {
		runtime.Gosched()
	}
}

type jobVal struct {
	id, d, err, spin int
}

func runSched(t *testing.T, raw json.RawMessage, tr *Trace) {
	var s schedScn
	if err := json.Unmarshal(raw, &s); err != nil {
		Die("%v", err)
	}
	tr.Log(E{"ev": "cfg", "kind": "sched", "conc": s.Conc, "max": s.MaxKeys, "final": s.Final, "depth": s.Depth})
	rs := sak.NewRunStatus(context.Background())
	proc := func(k int, v jobVal) error {
		tr.Log(E{"ev": "run", "id": v.id, "k": k})
		spin(v.spin)
		if v.d > 0 {
			time.Sleep(time.Duration(v.d) * time.Millisecond)
		}
		tr.Log(E{"ev": "ran", "id": v.id, "k": k})
		if v.err > 0 {
			return fmt.Errorf("e%d", v.id)
		}
		return nil
	}
	var fin streams.AsyncJobFinalizer[nostore, int, jobVal]
	if s.Final > 0 {
		fin = func(ec *streams.EventContext[nostore], k int, v jobVal, err error) streams.ExecutionState {
			e := 0
			if err != nil {
				e = -1
				if err.Error() == fmt.Sprintf("e%d", v.id) {
					e = 1
				}
			}
			tr.Log(E{"ev": "fin", "id": v.id, "k": k, "err": e, "ec": int(ec.TopicPartition().Partition)})
			if s.FinIncomplete > 0 && v.id%3 == 0 {
				return streams.Incomplete
			}
			return streams.Complete
		}
	}
	sch, err := streams.NewAsyncJobScheduler[nostore](rs, proc, fin, streams.SchedulerConfig{Concurrency: s.Conc, WorkerQueueDepth: s.Depth, MaxConcurrentKeys: s.MaxKeys})
	if err != nil {
		tr.Log(E{"ev": "refused"})
		return
	}
	tr.Log(E{"ev": "created"})
	var wg sync.WaitGroup
	next := 0
	var mu sync.Mutex
	newID := func() int { mu.Lock(); defer mu.Unlock(); next++; return next }
	for ti, ops := range s.Threads {
		c := newCompleter(s.CompCap, time.Duration(s.CompMs)*time.Millisecond)
		rng := rand.New(rand.NewSource(s.Seed + int64(ti)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, op := range ops {
				switch op.Op {
				case "sleep":
					time.Sleep(time.Duration(op.Ms) * time.Millisecond)
				case "sched":
					id := newID()
					ec := streams.MockInterjectionEventContext[nostore](context.Background(), streams.TopicPartition{Topic: "t", Partition: int32(id)}, "", nostore{}, ecCompleter{c, id, tr}, nil)
					sp := 0
					if op.Spin > 0 {
						sp = rng.Intn(op.Spin)
					}
					tr.Log(E{"ev": "sched", "id": id, "k": op.K, "e": op.Err, "th": ti})
					st := sch.Schedule(ec, op.K, jobVal{id, op.D, op.Err, sp})
					done := 0
					if st == streams.Complete {
						done = 1
					}
					tr.Log(E{"ev": "schedret", "id": id, "done": done})
					spin(sp)
				}
			}
		}()
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for _, op := range s.Ctl {
			switch op.Op {
			case "sleep":
				time.Sleep(time.Duration(op.Ms) * time.Millisecond)
			case "depth":
				sch.SetWorkerQueueDepth(op.N)
			case "max":
				tr.Log(E{"ev": "max", "n": op.N})
				sch.SetMaxConcurrentKeys(op.N)
				tr.Log(E{"ev": "maxed", "n": op.N})
			case "halt":
				tr.Log(E{"ev": "halt"})
				rs.Halt()
				tr.Log(E{"ev": "halted"})
			}
		}
	}()
	time.Sleep(time.Duration(s.TailMs) * time.Millisecond)
	tr.Log(E{"ev": "quiet"})
}

type batchScn struct {
	Kind, ID  string
	Seed      int64
	Max, Conc int
	DelayMs   int
	Neg       int // the delay is given as a negative number
	ExecMs    []int
	CompMs    int
	NoCb      int
	Threads   [][]thOp
	TailMs    int
}

type itemVal struct{ b, i int }

func runBatch(t *testing.T, raw json.RawMessage, tr *Trace) {
	var s batchScn
	if err := json.Unmarshal(raw, &s); err != nil {
		Die("%v", err)
	}
	delay := s.DelayMs
	if delay == 0 {
		delay = 5
	}
	tr.Log(E{"ev": "cfg", "kind": "batch", "max": s.Max, "conc": s.Conc, "delay": delay, "nocb": s.NoCb})
	var mu sync.Mutex
	nx := 0
	rng := rand.New(rand.NewSource(s.Seed))
	errFail := errors.New("x")
	exec := func(items []*streams.BatchItem[int, itemVal]) {
		mu.Lock()
		nx++
		x := nx
		d := 0
		if len(s.ExecMs) > 0 {
			d = s.ExecMs[rng.Intn(len(s.ExecMs))]
		}
		sp := rng.Intn(20)
		mu.Unlock()
		its := [][]int{}
		for _, it := range items {
			its = append(its, []int{it.Value.b, it.Value.i, it.Key()})
		}
		tr.Log(E{"ev": "exec", "x": x, "items": its})
		spin(sp)
		if d > 0 {
			time.Sleep(time.Duration(d) * time.Millisecond)
		}
		for _, it := range items {
			it.UserData = it.Value.i + 100*it.Value.b
			if it.Value.i%3 == 0 {
				it.Err = errFail
			}
		}
		tr.Log(E{"ev": "execd", "x": x})
	}
	dd := time.Duration(s.DelayMs) * time.Millisecond
	if s.Neg > 0 {
		dd = -dd
	}
	ab := streams.NewAsyncBatcher[nostore](exec, s.Max, s.Conc, dd)
	nb := 0
	newID := func() int { mu.Lock(); defer mu.Unlock(); nb++; return nb }
	for ti, ops := range s.Threads {
		// as many as there may be: handing over never blocks
		c := newCompleter(10000, time.Duration(s.CompMs)*time.Millisecond)
		go func() {
			for _, op := range ops {
				switch op.Op {
				case "sleep":
					time.Sleep(time.Duration(op.Ms) * time.Millisecond)
				case "add":
					b := newID()
					ec := streams.MockInterjectionEventContext[nostore](context.Background(), streams.TopicPartition{Topic: "t", Partition: int32(b)}, "", nostore{}, ecCompleter{c, b, tr}, nil)
					var cb streams.BatchCallback[nostore, int, itemVal]
					ud := fmt.Sprint(b)
					if s.NoCb == 0 {
						cb = func(e2 *streams.EventContext[nostore], bi *streams.BatchItems[nostore, int, itemVal]) streams.ExecutionState {
							ok := 1
							if e2 != ec || bi.Key() != op.K || bi.UserData != ud {
								ok = 0
							}
							got := []int{}
							for _, it := range bi.Items() {
								got = append(got, it.Value.i)
								if it.UserData != it.Value.i+100*it.Value.b || (it.Err != nil) != (it.Value.i%3 == 0) || it.Value.b != b {
									ok = 0
								}
							}
							tr.Log(E{"ev": "cb", "id": b, "ok": ok, "items": got})
							return streams.Complete
						}
					}
					bi := streams.NewBatchItems(ec, op.K, cb)
					bi.UserData = ud
					its := [][]int{}
					for i := 0; i < op.N; i++ {
						k := op.K
						if i < len(op.Keys) {
							k = op.Keys[i]
						}
						its = append(its, []int{i, k})
						if k == op.K && i%2 == 0 {
							bi.Add(itemVal{b, i})
						} else {
							bi.AddWithKey(k, itemVal{b, i})
						}
					}
					tr.Log(E{"ev": "add", "id": b, "k": op.K, "items": its, "th": ti})
					st := ab.Add(bi)
					done := 0
					if st == streams.Complete {
						done = 1
					}
					tr.Log(E{"ev": "addret", "id": b, "done": done})
					spin(op.Spin)
				}
			}
		}()
	}
	time.Sleep(time.Duration(s.TailMs) * time.Millisecond)
	tr.Log(E{"ev": "quiet"})
}
