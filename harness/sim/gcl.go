package sim

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"

	"verif/harness/broker"
)

// The kind "gcl": a GlobalChangeLog, pausing and resuming partitions, against a topic to which transactions are written
// which commit or abort.

type gclOp struct {
	Op   string // start, stop, produce, begin, write, commit, abort, pause, pauseall, resume, sleep, gap
	P, N int
	T    int     // the transaction
	F    float64 // resume: at this fraction of the log
	Ms   int
}

type gclScn struct {
	ID             string
	Seed           int64
	Parts, Brokers int
	LatMin, LatMax int
	Faults         []eosOp
	Slow           int // the receiver needs up to so many ms
	Err            int // every so many records the receiver fails
	FetchBytes     int
	Ops            []gclOp
	TailMs         int
}

func init() { runners["gcl"] = runGcl }

type gclRecv struct {
	tr  *Trace
	mu  sync.Mutex
	n   int
	s   *gclScn
	rng *rand.Rand
}

func (r *gclRecv) ReceiveChange(ir streams.IncomingRecord) error {
	r.mu.Lock()
	r.n++
	n, d := r.n, 0
	if r.s.Slow > 0 {
		d = r.rng.Intn(r.s.Slow)
	}
	r.mu.Unlock()
	r.tr.Log(E{"ev": "recv", "p": ir.TopicPartition().Partition, "o": ir.Offset(), "v": string(ir.Value()), "topic": ir.TopicPartition().Topic})
	time.Sleep(time.Duration(d) * time.Millisecond)
	if r.s.Err > 0 && n%r.s.Err == 0 {
		return errors.New("receiver")
	}
	return nil
}

func runGcl(t *testing.T, raw json.RawMessage, tr *Trace) {
	s := &gclScn{Parts: 1, Brokers: 1}
	if err := json.Unmarshal(raw, s); err != nil {
		Die("scenario: %v", err)
	}
	tr.Log(E{"ev": "cfg", "kind": "gcl", "n": s.Parts})
	b := broker.New("k", s.Brokers)
	b.CreateTopic("log", s.Parts, 1, nil)
	b.CreateTopic("noise", 1, 1, nil)
	b.Record = func(e broker.Event) {
		switch e["ev"] {
		case "append":
			if e["topic"] == "log" {
				v, _ := e["val"].([]byte)
				tr.Log(E{"ev": "append", "p": e["p"], "o": e["o"], "v": string(v), "x": e["txn"]})
			}
		case "end":
			tr.Log(E{"ev": "end", "x": e["txn"], "commit": b2i(e["commit"].(bool))})
		}
	}
	rng := rand.New(rand.NewSource(s.Seed))
	mistreat := faulty(rng, [2]int{s.LatMin, s.LatMax}, s.Faults)
	b.Hook = func(tag string, req kmsg.Request) broker.Action {
		if tag == "m" {
			return mistreat(tag, req)
		}
		return broker.Action{}
	}
	recv := &gclRecv{tr: tr, s: s, rng: rand.New(rand.NewSource(s.Seed + 1))}
	src := &broker.Cluster{B: b, Tag: "m"}
	if s.FetchBytes > 0 {
		src.Opts = append(src.Opts, kgo.FetchMaxPartitionBytes(int32(s.FetchBytes)))
	}
	cl := streams.NewGlobalChangeLog(src, recv, s.Parts, "log", streams.CompactCleanupPolicy)
	txns := map[int]*kgo.Client{}
	id, started, stopped := 0, false, false
	end := map[int]int64{}
	prod := func(c *kgo.Client, p, n int) {
		for i := 0; i < n; i++ {
			id++
			v := []byte(fmt.Sprint(id))
			if c == nil {
				end[p] = b.Append("log", int32(p), []byte("k"), v) + 1
			} else {
				c.Produce(context.Background(), &kgo.Record{Topic: "log", Partition: int32(p), Key: []byte("k"), Value: v}, nil)
			}
		}
		if c != nil {
			c.Flush(context.Background())
			end[p] += int64(n) + 1
		}
	}
	paused := map[int]bool{}
	for _, op := range s.Ops {
		if op.P >= s.Parts {
			op.P = 0
		}
		switch op.Op {
		case "sleep":
			time.Sleep(time.Duration(op.Ms) * time.Millisecond)
		case "start":
			if !started {
				started = true
				tr.Log(E{"ev": "start"})
				cl.Start()
			}
		case "stop":
			stopped = true
			tr.Log(E{"ev": "stop"})
			cl.Stop()
			tr.Log(E{"ev": "stopped"})
		case "produce":
			prod(nil, op.P, op.N)
		case "gap":
			b.AppendGap("log", int32(op.P), int64(op.N))
		case "write":
			c := txns[op.T]
			if c == nil {
				cc := &broker.Cluster{B: b, Tag: "x"}
				opts, _ := cc.Config()
				opts = append(opts, kgo.TransactionalID(fmt.Sprintf("x%d", op.T)), kgo.RecordPartitioner(kgo.ManualPartitioner()))
				var err error
				if c, err = kgo.NewClient(opts...); err != nil {
					Die("client: %v", err)
				}
				if err := c.BeginTransaction(); err != nil {
					Die("begin: %v", err)
				}
				txns[op.T] = c
			}
			prod(c, op.P, op.N)
		case "commit", "abort":
			if c := txns[op.T]; c != nil {
				delete(txns, op.T)
				if err := c.EndTransaction(context.Background(), kgo.TransactionEndTry(op.Op == "commit")); err != nil {
					Die("end: %v", err)
				}
				c.Close()
			}
		case "pause":
			tr.Log(E{"ev": "pausing", "ps": []int{op.P}})
			cl.Pause(int32(op.P))
			tr.Log(E{"ev": "paused", "ps": []int{op.P}})
			paused[op.P] = true
		case "pauseall":
			ps := []int{}
			for p := 0; p < s.Parts; p++ {
				ps = append(ps, p)
				paused[p] = true
			}
			tr.Log(E{"ev": "pausing", "ps": ps})
			cl.PauseAllPartitions()
			tr.Log(E{"ev": "paused", "ps": ps})
		case "resume":
			if paused[op.P] {
				delete(paused, op.P)
				o := int64(op.F * float64(end[op.P]))
				tr.Log(E{"ev": "resuming", "p": op.P, "o": o})
				cl.ResumePartitionAt(int32(op.P), o)
				tr.Log(E{"ev": "resumed", "p": op.P, "o": o})
			}
		default:
			Die("op %q", op.Op)
		}
	}
	_ = stopped
	for _, c := range txns {
		if err := c.EndTransaction(context.Background(), kgo.TryAbort); err != nil {
			Die("end: %v", err)
		}
	}
	time.Sleep(time.Duration(s.TailMs) * time.Millisecond)
	tr.Log(E{"ev": "quiet"})
}
