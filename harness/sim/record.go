package sim

import (
	"context"
	"encoding/json"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kgo"
	"github.com/twmb/franz-go/pkg/kmsg"

	"verif/harness/broker"
)

// The kind "record": events tell an EventSource which records to build, step by step, and how to send them. The same
// process also converts records and hands records back unused, so the pool is well mixed.

type recOp struct {
	Op   string
	A, B string
	N    int
}

type recSpec struct {
	Via string // fwd, chg, prod, sync, batch, conv, drop
	Ops []recOp
}

type recEvent struct {
	P    int
	Key  *string
	Val  *string
	Hdrs [][]string // key, value ("-" with a third element: nil)
	Recs []recSpec
}

type recScn struct {
	ID     string
	Custom bool // the producers use a partitioner of their own
	Parts  int
	Rounds [][]recEvent
}

func init() { runners["record"] = runRecord }

// lenPartitioner is a partitioner whose choice the specification can compute: a*len(key)+b modulo the number of partitions.
type lenPartitioner struct{ a, b int }

func (l lenPartitioner) ForTopic(string) kgo.TopicPartitioner { return l }
func (lenPartitioner) RequiresConsistency(*kgo.Record) bool   { return true }
func (l lenPartitioner) Partition(r *kgo.Record, n int) int   { return (l.a*len(r.Key) + l.b) % n }
func strs(b []byte) (string, int)                             { return string(b), b2i(b == nil) }
func hdr(k string, v []byte) []any                            { return []any{k, string(v), b2i(v == nil)} }
func content(topic string, p int32, key, val []byte, hs [][]any) E {
	if hs == nil {
		hs = [][]any{}
	}
	k, kn := strs(key)
	v, vn := strs(val)
	return E{"topic": topic, "p": p, "k": k, "kn": kn, "v": v, "vn": vn, "h": hs}
}
func kcontent(r *kgo.Record) E {
	var hs [][]any
	for _, h := range r.Headers {
		hs = append(hs, hdr(h.Key, h.Value))
	}
	return content(r.Topic, r.Partition, r.Key, r.Value, hs)
}
func icontent(r streams.IncomingRecord) E {
	var hs [][]any
	for _, h := range r.Headers() {
		hs = append(hs, hdr(h.Key, h.Value))
	}
	return content(r.TopicPartition().Topic, r.TopicPartition().Partition, r.Key(), r.Value(), hs)
}

type recStore struct{ tr *Trace }

func (recStore) ReceiveChange(streams.IncomingRecord) error { return nil }
func (recStore) Revoked()                                   {}

// the parts of Record and ChangeLogEntry a specification of content uses
func buildRec(ops []recOp) *streams.Record {
	r := streams.NewRecord()
	for _, op := range ops {
		switch op.Op {
		case "wk":
			r.WriteKey([]byte(op.A), []byte(op.B))
		case "wks":
			r.WriteKeyString(op.A, op.B)
		case "kw":
			r.KeyWriter().WriteString(op.A + op.B)
		case "k":
			r = r.WithKey([]byte(op.A), []byte(op.B))
		case "ks":
			r = r.WithKeyString(op.A, op.B)
		case "wv":
			r.WriteValue([]byte(op.A), []byte(op.B))
		case "wvs":
			r.WriteValueString(op.A, op.B)
		case "vw":
			r.ValueWriter().WriteString(op.A + op.B)
		case "v":
			r = r.WithValue([]byte(op.A), []byte(op.B))
		case "none":
			r = r.WithKey().WithValue().WithKeyString()
		case "h":
			r = r.WithHeader(op.A, []byte(op.B))
		case "hnil":
			r = r.WithHeader(op.A, nil)
		case "type":
			r = r.WithRecordType(op.A)
		case "topic":
			r = r.WithTopic(op.A)
		case "part":
			r = r.WithPartition(int32(op.N))
		}
	}
	return r
}

func buildCle(ops []recOp) streams.ChangeLogEntry {
	c := streams.NewChangeLogEntry()
	for _, op := range ops {
		switch op.Op {
		case "wk":
			c.WriteKey([]byte(op.A), []byte(op.B))
		case "wks":
			c.WriteKeyString(op.A, op.B)
		case "kw":
			c.KeyWriter().WriteString(op.A + op.B)
		case "k":
			c = c.WithKey([]byte(op.A), []byte(op.B))
		case "ks":
			c = c.WithKeyString(op.A, op.B)
		case "wv":
			c.WriteValue([]byte(op.A), []byte(op.B))
		case "wvs":
			c.WriteValueString(op.A, op.B)
		case "vw":
			c.ValueWriter().WriteString(op.A + op.B)
		case "v":
			c = c.WithValue([]byte(op.A), []byte(op.B))
		case "none":
			c = c.WithKey().WithValue().WithKeyString()
		case "h":
			c = c.WithHeader(op.A, []byte(op.B))
		case "hnil":
			c = c.WithHeader(op.A, nil)
		case "type":
			c = c.WithEntryType(op.A)
		}
	}
	return c
}

func runRecord(t *testing.T, raw json.RawMessage, tr *Trace) {
	s := &recScn{Parts: 1}
	if err := json.Unmarshal(raw, s); err != nil {
		Die("scenario: %v", err)
	}
	tr.Log(E{"ev": "cfg", "kind": "record", "custom": b2i(s.Custom), "n": map[string]int{"t0": 4, "t1": 3, "t2": 2, changeTopic: s.Parts}})
	b := broker.New("k", 2)
	b.CreateTopic(srcTopic, s.Parts, 1, nil)
	b.CreateTopic("t0", 4, 1, nil)
	b.CreateTopic("t1", 3, 1, nil)
	b.CreateTopic("t2", 2, 1, nil)
	ours := map[string]bool{"t0": true, "t1": true, "t2": true, changeTopic: true}
	b.Record = func(e broker.Event) {
		if e["ev"] != "append" || !ours[e["topic"].(string)] {
			return
		}
		hdrs, _ := e["hdrs"].([]kmsg.Header)
		if len(hdrs) == 1 && hdrs[0].Key == "gkes__mark" {
			return
		}
		var hs [][]any
		for _, h := range hdrs {
			hs = append(hs, hdr(h.Key, h.Value))
		}
		x := content(e["topic"].(string), e["p"].(int32), e["key"].([]byte), e["val"].([]byte), hs)
		x["ev"] = "arr"
		tr.Log(x)
	}
	var mu sync.Mutex
	fed := map[[2]int64]recEvent{}
	id := 0
	ref := kgo.StickyKeyPartitioner(nil).ForTopic("x")
	// announce says which record is built and sent how. kp: the partition the default partitioner picks for its key
	announce := func(via string, sp recSpec, src int32) int {
		mu.Lock()
		id++
		i := id
		mu.Unlock()
		key := ""
		for _, op := range sp.Ops {
			switch op.Op {
			case "wk", "wks", "kw", "k", "ks":
				key += op.A + op.B
			}
		}
		kp := map[string]int{"t0": -1, "t1": -1, "t2": -1}
		if key != "" {
			for tp, n := range map[string]int{"t0": 4, "t1": 3, "t2": 2} {
				kp[tp] = ref.Partition(&kgo.Record{Key: []byte(key)}, n)
			}
		}
		ops := sp.Ops
		if ops == nil {
			ops = []recOp{}
		}
		tr.Log(E{"ev": "rec", "id": i, "via": via, "ops": ops, "src": src, "kp": kp})
		return i
	}
	var opts []kgo.Opt
	if s.Custom {
		opts = append(opts, kgo.RecordPartitioner(streams.NewOptionalPerTopicPartitioner(lenPartitioner{1, 0}, map[string]kgo.Partitioner{"t1": lenPartitioner{2, 1}})))
	}
	cl := &broker.Cluster{B: b, Tag: "m"}
	dest := streams.Destination{DefaultTopic: "t2", Cluster: cl}
	prod := streams.NewProducer(dest, opts...)
	bp := streams.NewBatchProducer[recStore](dest, opts...)
	done := 0
	process := func(ec *streams.EventContext[recStore], in streams.IncomingRecord) streams.ExecutionState {
		mu.Lock()
		ev := fed[[2]int64{int64(ec.TopicPartition().Partition), ec.Offset()}]
		mu.Unlock()
		x := icontent(in)
		x["ev"], x["type"], x["o"] = "got", in.RecordType(), in.Offset()
		hv := [][]any{}
		for _, n := range []string{"a", "b", "zz", streams.RecordTypeHeaderKey} {
			hv = append(hv, hdr(n, in.HeaderValue(n)))
		}
		x["hv"] = hv
		x["eo"] = ec.Offset()
		tr.Log(x)
		var batch []*streams.Record
		for _, sp := range ev.Recs {
			switch sp.Via {
			case "fwd":
				announce("fwd", sp, in.TopicPartition().Partition)
				ec.Forward(buildRec(sp.Ops))
			case "chg":
				announce("chg", sp, in.TopicPartition().Partition)
				ec.RecordChange(buildCle(sp.Ops))
			case "prod":
				i := announce("prod", sp, 0)
				r := buildRec(sp.Ops)
				prod.ProduceAsync(context.Background(), r, func(r *streams.Record, err error) {
					x := kcontent(r.ToKafkaRecord())
					x["ev"], x["id"], x["err"], x["off"] = "cb", i, b2i(err != nil), r.Offset()
					x["tp"] = []any{r.TopicPartition().Topic, r.TopicPartition().Partition}
					tr.Log(x)
					r.Release()
				})
			case "sync":
				i := announce("prod", sp, 0)
				r := buildRec(sp.Ops)
				err := prod.Produce(context.Background(), r)
				x := kcontent(r.ToKafkaRecord())
				x["ev"], x["id"], x["err"], x["off"] = "cb", i, b2i(err != nil), r.Offset()
				x["tp"] = []any{r.TopicPartition().Topic, r.TopicPartition().Partition}
				tr.Log(x)
				r.Release()
			case "batch":
				announce("prod", sp, 0)
				batch = append(batch, buildRec(sp.Ops))
			case "conv":
				i := announce("conv", sp, 0)
				r := buildRec(sp.Ops)
				k := r.ToKafkaRecord()
				inc := r.AsIncomingRecord()
				x := kcontent(k)
				x["ev"], x["id"], x["inc"], x["type"] = "conv", i, 0, ""
				tr.Log(x)
				x = icontent(inc)
				x["ev"], x["id"], x["inc"], x["type"] = "conv", i, 1, inc.RecordType()
				tr.Log(x)
				r.Release()
				// what was converted stays what it was when the record is used again
				o := streams.NewRecord().WithKeyString("XXXXXXXXXXXXXXXX").WithValue([]byte("YYYYYYYYYYYYYYYYYYYYY")).WithHeader("zz", []byte("zz")).WithRecordType("zz")
				x = kcontent(k)
				x["ev"], x["id"], x["inc"], x["type"] = "conv", i, 0, ""
				tr.Log(x)
				x = icontent(inc)
				x["ev"], x["id"], x["inc"], x["type"] = "conv", i, 1, inc.RecordType()
				tr.Log(x)
				o.Release()
			case "drop":
				r := buildRec(sp.Ops)
				r.Release()
			case "dropcle":
				buildCle(sp.Ops)
			default:
				Die("via %q", sp.Via)
			}
		}
		mu.Lock()
		done++
		mu.Unlock()
		if len(batch) > 0 {
			return bp.Produce(ec, batch, func(ec *streams.EventContext[recStore], rs []*streams.Record, _ any) streams.ExecutionState {
				for _, r := range rs {
					tr.Log(E{"ev": "bcb", "err": b2i(r.Error() != nil)})
				}
				return streams.Complete
			}, nil)
		}
		return streams.Complete
	}
	es, err := streams.NewEventSource(streams.EventSourceConfig{GroupId: groupID, Topic: srcTopic, NumPartitions: s.Parts, SourceCluster: cl},
		func(streams.TopicPartition) recStore { return recStore{tr} }, process)
	if err != nil {
		Die("event source: %v", err)
	}
	es.ConsumeEvents()
	total := 0
	for _, round := range s.Rounds {
		for _, ev := range round {
			var hs []kmsg.Header
			var hl [][]any
			for _, h := range ev.Hdrs {
				v := []byte(h[1])
				if len(h) > 2 {
					v = nil
				}
				hs = append(hs, kmsg.Header{Key: h[0], Value: v})
				hl = append(hl, hdr(h[0], v))
			}
			by := func(s *string) []byte {
				if s == nil {
					return nil
				}
				return []byte(*s)
			}
			mu.Lock()
			p, n := int64(ev.P), int64(0)
			for fk := range fed {
				if fk[0] == p {
					n++
				}
			}
			fed[[2]int64{p, n}] = ev
			mu.Unlock()
			x := content(srcTopic, int32(ev.P), by(ev.Key), by(ev.Val), hl)
			x["ev"], x["o"] = "in", n
			tr.Log(x)
			if o := b.Append(srcTopic, int32(ev.P), by(ev.Key), by(ev.Val), hs...); o != n {
				Die("offset %d instead of %d", o, n)
			}
			total++
		}
		for i := 0; i < 6000; i++ {
			mu.Lock()
			d := done
			mu.Unlock()
			if d == total {
				break
			}
			time.Sleep(50 * time.Millisecond)
		}
		time.Sleep(500 * time.Millisecond)
	}
	time.Sleep(20 * time.Second)
	tr.Log(E{"ev": "quiet"})
}

var _ = strings.Repeat
