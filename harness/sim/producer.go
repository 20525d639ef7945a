package sim

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kmsg"

	"verif/harness/broker"
)

// The kind "producer": threads use one Producer and one BatchProducer against a cluster which answers slowly, with errors
// or not at all.

type prodRec struct {
	Topic  string
	Part   int
	Key    string
	Size   int
	Cancel int // the context ends after this many ms (-1: it already has)
}

type prodOp struct {
	Op  string // sync, async, nilcb, batch, sleep
	R   []prodRec
	Ms  int
	Nil bool // no callback
	Inc bool // the callback says that the event is not complete
}

type prodScn struct {
	ID             string
	Seed           int64
	Brokers        int
	LatMin, LatMax int
	Faults         []eosOp
	Threads        [][]prodOp
	Slow           int // how long the completer needs for a job
	Default        string
	Close          int // close the Producer after this many ms - 1
}

func init() { runners["producer"] = runProducer }

// faulty returns a hook which delays requests and mistreats some of them.
func faulty(rng *rand.Rand, lat [2]int, ops []eosOp) func(string, kmsg.Request) broker.Action {
	var mu sync.Mutex
	var fs []*fault
	for _, op := range ops {
		fs = append(fs, &fault{op: op})
	}
	return func(tag string, req kmsg.Request) broker.Action {
		var a broker.Action
		name := kmsg.NameForKey(req.Key())
		mu.Lock()
		defer mu.Unlock()
		if lat[1] > 0 && name != "ApiVersions" {
			a.Delay = time.Duration(lat[0]+rng.Intn(lat[1]-lat[0]+1)) * time.Millisecond
		}
		for _, f := range fs {
			if f.op.API != name {
				continue
			}
			f.seen++
			if f.seen < f.op.Nth || (f.op.Count > 0 && f.seen >= f.op.Nth+f.op.Count) {
				continue
			}
			switch {
			case f.op.Drop == "pre":
				a.DropPre = true
			case f.op.Drop == "post":
				a.DropPost = true
			case f.op.Err != 0:
				a.Err, a.ErrPart = f.op.Err, f.op.Part
			}
			a.Delay += time.Duration(f.op.Ms) * time.Millisecond
		}
		return a
	}
}

type batchCompleter struct {
	c  *completer
	b  int
	tr *Trace
}

func (e batchCompleter) AsyncComplete(j streams.AsyncJob[nostore]) {
	e.tr.Log(E{"ev": "handed", "b": e.b})
	e.c.ch <- func() {
		st := j.Finalize()
		e.tr.Log(E{"ev": "fin", "b": e.b, "st": b2i(st == streams.Complete)})
	}
}

func runProducer(t *testing.T, raw json.RawMessage, tr *Trace) {
	s := &prodScn{Brokers: 1, Default: "t0"}
	if err := json.Unmarshal(raw, s); err != nil {
		Die("scenario: %v", err)
	}
	tr.Log(E{"ev": "cfg", "kind": "producer", "faults": len(s.Faults), "default": s.Default, "n": map[string]int{"t0": 3, "t1": 1}})
	b := broker.New("k", s.Brokers)
	b.CreateTopic("t0", 3, 1, nil)
	b.CreateTopic("t1", 1, 1, nil)
	b.Record = func(e broker.Event) {
		if e["ev"] != "append" {
			return
		}
		id := -1
		hdrs, _ := e["hdrs"].([]kmsg.Header)
		for _, h := range hdrs {
			if h.Key == "id" {
				fmt.Sscanf(string(h.Value), "%d", &id)
			}
		}
		tr.Log(E{"ev": "app", "id": id, "topic": e["topic"], "p": e["p"], "o": e["o"]})
	}
	b.Hook = faulty(rand.New(rand.NewSource(s.Seed)), [2]int{s.LatMin, s.LatMax}, s.Faults)
	dest := streams.Destination{DefaultTopic: s.Default, Cluster: &broker.Cluster{B: b, Tag: "m"}}
	prod := streams.NewProducer(dest)
	bp := streams.NewBatchProducer[nostore](dest)
	comp := newCompleter(100000, time.Duration(s.Slow)*time.Millisecond)
	var mu sync.Mutex
	ids, bs := 0, 0
	build := func(pr prodRec, batch int) (int, *streams.Record, E) {
		mu.Lock()
		ids++
		id := ids
		mu.Unlock()
		r := streams.NewRecord().WithHeader("id", []byte(fmt.Sprint(id)))
		if pr.Topic != "" {
			r = r.WithTopic(pr.Topic)
		}
		if pr.Part >= 0 {
			r = r.WithPartition(int32(pr.Part))
		}
		if pr.Key != "" {
			r = r.WithKeyString(pr.Key)
		}
		if pr.Size > 0 {
			r = r.WithValue([]byte(strings.Repeat("x", pr.Size)))
		}
		return id, r, E{"id": id, "topic": pr.Topic, "p": pr.Part, "size": pr.Size, "cancel": pr.Cancel, "b": batch}
	}
	errOf := func(err error) string {
		if err == nil {
			return ""
		}
		return trunc(err.Error())
	}
	var wg sync.WaitGroup
	for _, ops := range s.Threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, op := range ops {
				switch op.Op {
				case "sleep":
					time.Sleep(time.Duration(op.Ms) * time.Millisecond)
				case "batch":
					mu.Lock()
					bs++
					bn := bs
					mu.Unlock()
					var recs []*streams.Record
					idl := []int{}
					for _, pr := range op.R {
						id, r, e := build(pr, bn)
						e["ev"] = "send"
						e["via"] = "batch"
						tr.Log(e)
						recs = append(recs, r)
						idl = append(idl, id)
					}
					ec := streams.MockInterjectionEventContext[nostore](context.Background(), streams.TopicPartition{Partition: 0, Topic: "src"}, "", nostore{}, batchCompleter{comp, bn, tr}, nil)
					tr.Log(E{"ev": "bsend", "b": bn, "ids": idl, "cb": b2i(!op.Nil), "inc": b2i(op.Inc)})
					var cb streams.BatchProducerCallback[nostore]
					if !op.Nil {
						cb = func(got *streams.EventContext[nostore], rs []*streams.Record, ud any) streams.ExecutionState {
							gl, errs := []int{}, []string{}
							for _, r := range rs {
								id := -1
								for _, h := range r.ToKafkaRecord().Headers {
									if h.Key == "id" {
										fmt.Sscanf(string(h.Value), "%d", &id)
									}
								}
								gl = append(gl, id)
								errs = append(errs, errOf(r.Error()))
							}
							u, _ := ud.(int)
							tr.Log(E{"ev": "bcb", "b": bn, "ids": gl, "errs": errs, "ud": u, "same": b2i(got == ec)})
							if op.Inc {
								return streams.Incomplete
							}
							return streams.Complete
						}
					}
					st := bp.Produce(ec, recs, cb, bn)
					tr.Log(E{"ev": "bret", "b": bn, "st": b2i(st == streams.Complete), "inc": b2i(op.Inc && !op.Nil)})
				default:
					for _, pr := range op.R {
						id, r, e := build(pr, 0)
						ctx, cancel := context.Background(), func() {}
						if pr.Cancel > 0 {
							ctx, cancel = context.WithTimeout(ctx, time.Duration(pr.Cancel)*time.Millisecond)
						} else if pr.Cancel < 0 {
							ctx, cancel = context.WithCancel(ctx)
							cancel()
						}
						e["ev"] = "send"
						e["via"] = op.Op
						tr.Log(e)
						switch op.Op {
						case "sync":
							err := prod.Produce(ctx, r)
							tp := r.TopicPartition()
							tr.Log(E{"ev": "done", "id": id, "err": errOf(err), "topic": tp.Topic, "p": tp.Partition, "o": r.Offset(), "same": 1})
						case "async":
							prod.ProduceAsync(ctx, r, func(got *streams.Record, err error) {
								tp := got.TopicPartition()
								tr.Log(E{"ev": "done", "id": id, "err": errOf(err), "topic": tp.Topic, "p": tp.Partition, "o": got.Offset(), "same": b2i(got == r)})
							})
						case "nilcb":
							prod.ProduceAsync(ctx, r, nil)
						default:
							Die("op %q", op.Op)
						}
						_ = cancel
					}
				}
			}
		}()
	}
	wg.Wait()
	if s.Close > 0 { // what is still on its way fails
		time.Sleep(time.Duration(s.Close-1) * time.Millisecond)
		tr.Log(E{"ev": "close"})
		prod.Close()
	}
	time.Sleep(300 * time.Second)
	tr.Log(E{"ev": "quiet"})
}
